// Package exec stands in for os/exec: commands are given to a handler.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
)

// Cmd is a command.
type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	done   bool
	err    error

	Process      *Process
	ProcessState *ProcessState
	WaitDelay    int64
	Cancel       func() error
}

// Process is a process.
type Process struct{ Pid int }

// Kill ends it, if it had not ended.
func (p *Process) Kill() error { return nil }

// ProcessState is how a process ended.
type ProcessState struct{ ok bool }

// Success tells whether it ended well.
func (p *ProcessState) Success() bool { return p.ok }

// ExitCode is the code it ended with.
func (p *ProcessState) ExitCode() int {
	if p.ok {
		return 0
	}
	return 128
}

// Warning is what commands say on the side.
var Warning string

// Error is the error of a command that is not there.
type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + e.Name + ": " + e.Err.Error() }

// Unwrap is what is wrong.
func (e *Error) Unwrap() error { return e.Err }

// Handler runs commands: it returns what they print and how they end.
var Handler func(c *Cmd) ([]byte, error)

// ExitError is the error of a command that fails.
type ExitError struct{ Stderr []byte }

func (e *ExitError) Error() string { return "exit status 128" }

// ExitCode is the code of a command that fails.
func (e *ExitError) ExitCode() int { return 128 }

// ErrNotFound is the error of unknown commands.
var ErrNotFound = errors.New("executable file not found in $PATH")

// LookPath finds every command.
func LookPath(n string) (string, error) { return "/usr/bin/" + n, nil }

// Command makes a command.
func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, args...)}
}

// CommandContext makes a command.
func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	return Command(name, args...)
}

// Run runs the command.
func (c *Cmd) Run() error {
	if c.done {
		return errors.New("exec: already started")
	}
	c.done = true
	c.Process = &Process{Pid: 2}
	out, err := Handler(c)
	c.ProcessState = &ProcessState{ok: err == nil}
	if c.Stderr != nil && Warning != "" {
		if _, err1 := c.Stderr.Write([]byte(Warning)); err1 != nil && err == nil {
			err = err1
		}
	}
	if c.Stdout != nil && len(out) > 0 {
		// in pieces, as it would come through a pipe
		k := (len(out) + 1) / 2
		if _, err1 := c.Stdout.Write(out[:k]); err1 != nil && err == nil {
			err = err1
		} else if k < len(out) {
			if _, err1 := c.Stdout.Write(out[k:]); err1 != nil && err == nil {
				err = err1
			}
		}
	}
	return err
}

// Start starts the command.
func (c *Cmd) Start() error {
	c.err = c.Run()
	return nil
}

// Wait waits for it.
func (c *Cmd) Wait() error { return c.err }

// Output runs the command and returns what it prints.
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// CombinedOutput runs the command and returns what it prints.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

type pipe struct{ bytes.Buffer }

func (*pipe) Close() error { return nil }

// StdoutPipe is where to read what the command prints.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.done {
		return nil, errors.New("exec: Stdout already set")
	}
	p := &pipe{}
	c.Stdout = p
	return p, nil
}

// StderrPipe is where to read what the command says on the side.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.done {
		return nil, errors.New("exec: Stderr already set")
	}
	p := &pipe{}
	c.Stderr = p
	return p, nil
}

// Environ is the environment of the command.
func (c *Cmd) Environ() []string { return c.Env }

// String is the command line.
func (c *Cmd) String() string {
	s := ""
	for i, a := range c.Args {
		if i > 0 {
			s += " "
		}
		s += a
	}
	return s
}

// Shown is the directory and the object a git command shows.
func (c *Cmd) Shown() (dir, object string, ok bool) {
	if len(c.Args) == 0 || c.Args[0] != "git" {
		return "", "", false
	}
	dir = c.Dir
	a := c.Args[1:]
	for len(a) > 0 && len(a[0]) > 0 && a[0][0] == '-' {
		switch {
		case a[0] == "-C" && len(a) > 1:
			if dir == "" || (len(a[1]) > 0 && a[1][0] == '/') {
				dir = a[1]
			} else if a[1] != "" {
				dir += "/" + a[1]
			}
			a = a[1:]
		case a[0] == "-c" && len(a) > 1:
			a = a[1:]
		}
		a = a[1:]
	}
	if len(a) < 2 || a[0] != "show" && a[0] != "cat-file" {
		return "", "", false
	}
	return dir, a[len(a)-1], true
}
