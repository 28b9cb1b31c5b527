// Package log stands in for log.
package log

import (
	"fmt"
	"io"

	"github.com/schemalex/schemalex/internal/vstub/os"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
)

func out(s string) { vfs.Logged = append(vfs.Logged, s) }

// Printf logs.
func Printf(f string, a ...interface{}) { out(fmt.Sprintf(f, a...)) }

// Print logs.
func Print(a ...interface{}) { out(fmt.Sprint(a...)) }

// Println logs.
func Println(a ...interface{}) { out(fmt.Sprint(a...)) }

// Fatalf logs and exits.
func Fatalf(f string, a ...interface{}) {
	Printf(f, a...)
	os.Exit(1)
}

// Fatal logs and exits.
func Fatal(a ...interface{}) {
	Print(a...)
	os.Exit(1)
}

// Fatalln logs and exits.
func Fatalln(a ...interface{}) {
	Print(a...)
	os.Exit(1)
}

// Flags.
const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

// SetFlags does nothing.
func SetFlags(int) {}

// SetPrefix does nothing.
func SetPrefix(string) {}

// SetOutput does nothing: what is logged is recorded.
func SetOutput(io.Writer) {}

// Panicf logs and panics.
func Panicf(f string, a ...interface{}) {
	Printf(f, a...)
	panic(fmt.Sprintf(f, a...))
}

// Panic logs and panics.
func Panic(a ...interface{}) {
	Print(a...)
	panic(fmt.Sprint(a...))
}

// Logger logs.
type Logger struct{}

// New makes one.
func New(io.Writer, string, int) *Logger { return &Logger{} }

// Default is the one of the package.
func Default() *Logger { return &Logger{} }

// Printf logs.
func (*Logger) Printf(f string, a ...interface{}) { Printf(f, a...) }

// Print logs.
func (*Logger) Print(a ...interface{}) { Print(a...) }

// Println logs.
func (*Logger) Println(a ...interface{}) { Println(a...) }

// Fatalf logs and exits.
func (*Logger) Fatalf(f string, a ...interface{}) { Fatalf(f, a...) }

// Fatal logs and exits.
func (*Logger) Fatal(a ...interface{}) { Fatal(a...) }

// Fatalln logs and exits.
func (*Logger) Fatalln(a ...interface{}) { Fatalln(a...) }
