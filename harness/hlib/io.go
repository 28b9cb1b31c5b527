package hlib

import (
	"context"
	"errors"
	"io"
	"io/fs"

	"github.com/schemalex/schemalex/internal/vsym"
)

// Source is a schema source: it delivers S, then fails if Fails.
type Source struct {
	S     string
	Fails bool
	Err   error // what it fails with, if not with ErrSource
	Calls int
}

// Failures are errors of all sorts that a reader, a writer or a source may end with.
func Failures() []error {
	return []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress, context.Canceled, context.DeadlineExceeded,
		fs.ErrNotExist, &fs.PathError{Op: "open", Path: "x.sql", Err: fs.ErrNotExist}, &fs.PathError{Op: "read", Path: "x.sql", Err: fs.ErrClosed},
		errors.New("open x.sql: no such file or directory"), errors.New("sql: no rows in result set"), errors.New("broken pipe"), errors.New("")}
}

// ErrSource is what a failing source reports.
var ErrSource = errors.New("the source fails")

// WriteSchema implements schemalex.SchemaSource.
func (s *Source) WriteSchema(dst io.Writer) error {
	s.Calls++
	if len(s.S) > 0 {
		if _, err := io.WriteString(dst, s.S); err != nil {
			return err
		}
	}
	if s.Fails {
		if s.Err != nil {
			return s.Err
		}
		return ErrSource
	}
	return nil
}

// Writer accepts Limit bytes, then refuses: for good, or (Once) a single write.
type Writer struct {
	Limit   int
	Once    bool
	Refused int
	Err     error // what a refused write reports, if not ErrWriter
	Got     []byte
	Writes  int
}

// ErrWriter is what a refused write reports.
var ErrWriter = errors.New("the output refuses")

// Write implements io.Writer.
func (w *Writer) Write(p []byte) (int, error) {
	w.Writes++
	if w.Limit < 0 || w.Refused > 0 && w.Once {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	if len(w.Got)+len(p) <= w.Limit {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	n := w.Limit - len(w.Got)
	w.Got = append(w.Got, p[:n]...)
	w.Refused++
	if w.Err != nil {
		return n, w.Err
	}
	return n, ErrWriter
}

// String makes a source printable.
func (s *Source) String() string { return "(source)" }

// PickStr is one of some strings.
func PickStr(name string, of ...string) string { return of[vsym.Pick(name, len(of))] }
