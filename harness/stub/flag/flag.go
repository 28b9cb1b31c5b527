// Package flag stands in for the command line flags of package flag: the real flag sets over the
// arguments of package vfs.
package flag

import (
	"flag"
	"io"
	"time"

	"github.com/schemalex/schemalex/internal/vstub/os"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
)

// FlagSet is a flag.FlagSet that ends the command through the stub of package os.
type FlagSet struct {
	*flag.FlagSet
	handling flag.ErrorHandling
}

// Parse reads arguments.
func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err != nil && f.handling == flag.ExitOnError {
		if err == flag.ErrHelp {
			os.Exit(0)
		}
		os.Exit(2)
	}
	if err != nil && f.handling == flag.PanicOnError {
		panic(err)
	}
	return err
}

// Error handling.
const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

// ErrHelp is flag.ErrHelp.
var ErrHelp = flag.ErrHelp

// NewFlagSet is flag.NewFlagSet.
func NewFlagSet(n string, e flag.ErrorHandling) *FlagSet {
	f := flag.NewFlagSet(n, flag.ContinueOnError)
	f.SetOutput(io.Discard)
	return &FlagSet{f, e}
}

// CommandLine is the set of the command.
var CommandLine *FlagSet

// Usage prints how to use the command.
var Usage func()

// Reset forgets all flags.
func Reset() {
	CommandLine = NewFlagSet("command", flag.ExitOnError)
	Usage = func() {}
	CommandLine.Usage = func() { Usage() }
}

// BoolVar defines a flag.
func BoolVar(p *bool, n string, v bool, u string) { CommandLine.BoolVar(p, n, v, u) }

// StringVar defines a flag.
func StringVar(p *string, n string, v string, u string) { CommandLine.StringVar(p, n, v, u) }

// IntVar defines a flag.
func IntVar(p *int, n string, v int, u string) { CommandLine.IntVar(p, n, v, u) }

// UintVar defines a flag.
func UintVar(p *uint, n string, v uint, u string) { CommandLine.UintVar(p, n, v, u) }

// DurationVar defines a flag.
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}

// Bool defines a flag.
func Bool(n string, v bool, u string) *bool { return CommandLine.Bool(n, v, u) }

// String defines a flag.
func String(n string, v string, u string) *string { return CommandLine.String(n, v, u) }

// Int defines a flag.
func Int(n string, v int, u string) *int { return CommandLine.Int(n, v, u) }

// Parse reads the arguments; like the real one it exits if it cannot.
func Parse() { CommandLine.Parse(vfs.Args[1:]) }

// Parsed tells whether Parse was called.
func Parsed() bool { return CommandLine.Parsed() }

// NArg is the number of arguments.
func NArg() int { return CommandLine.NArg() }

// Arg is an argument.
func Arg(i int) string { return CommandLine.Arg(i) }

// Args are the arguments.
func Args() []string { return CommandLine.Args() }

// PrintDefaults prints nothing.
func PrintDefaults() {}

// Types.
type (
	Flag          = flag.Flag
	Value         = flag.Value
	Getter        = flag.Getter
	ErrorHandling = flag.ErrorHandling
)

// Uint defines a flag.
func Uint(n string, v uint, u string) *uint { return CommandLine.Uint(n, v, u) }

// Int64 defines a flag.
func Int64(n string, v int64, u string) *int64 { return CommandLine.Int64(n, v, u) }

// Int64Var defines a flag.
func Int64Var(p *int64, n string, v int64, u string) { CommandLine.Int64Var(p, n, v, u) }

// Duration defines a flag.
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}

// Var defines a flag.
func Var(v Value, n string, u string) { CommandLine.Var(v, n, u) }

// Func defines a flag.
func Func(n, u string, f func(string) error) { CommandLine.Func(n, u, f) }

// Lookup finds a flag.
func Lookup(n string) *Flag { return CommandLine.Lookup(n) }

// Set sets a flag.
func Set(n, v string) error { return CommandLine.Set(n, v) }

// Visit visits the flags that are set.
func Visit(f func(*Flag)) { CommandLine.Visit(f) }

// VisitAll visits all flags.
func VisitAll(f func(*Flag)) { CommandLine.VisitAll(f) }

// NFlag is the number of flags that are set.
func NFlag() int { return CommandLine.NFlag() }
