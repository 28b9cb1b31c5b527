// Package fmt stands in for fmt where it prints to the standard output.
package fmt

import (
	"fmt"
	"io"

	"github.com/schemalex/schemalex/internal/vstub/os"
)

// Stringer is fmt.Stringer.
type Stringer = fmt.Stringer

// Printf prints.
func Printf(f string, a ...interface{}) (int, error) {
	return os.Stdout.WriteString(fmt.Sprintf(f, a...))
}

// Print prints.
func Print(a ...interface{}) (int, error) { return os.Stdout.WriteString(fmt.Sprint(a...)) }

// Println prints.
func Println(a ...interface{}) (int, error) { return os.Stdout.WriteString(fmt.Sprintln(a...)) }

// Sprintf formats.
func Sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// Sprint formats.
func Sprint(a ...interface{}) string { return fmt.Sprint(a...) }

// Errorf makes an error.
func Errorf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// Fprintf prints.
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return fmt.Fprintf(w, f, a...) }

// Fprintln prints.
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return fmt.Fprintln(w, a...) }

// Fprint prints.
func Fprint(w io.Writer, a ...interface{}) (int, error) { return fmt.Fprint(w, a...) }

// Types.
type (
	State     = fmt.State
	Formatter = fmt.Formatter
)

// Sprintln is fmt.Sprintln.
func Sprintln(a ...interface{}) string { return fmt.Sprintln(a...) }

// Sscanf is fmt.Sscanf.
func Sscanf(s, f string, a ...interface{}) (int, error) { return fmt.Sscanf(s, f, a...) }

// Sscan is fmt.Sscan.
func Sscan(s string, a ...interface{}) (int, error) { return fmt.Sscan(s, a...) }

// Appendf is fmt.Appendf.
func Appendf(b []byte, f string, a ...interface{}) []byte { return append(b, fmt.Sprintf(f, a...)...) }
