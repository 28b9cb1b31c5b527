// Package vfs is the world the stubs of the operating system show: files that fail where they are told to.
package vfs

import (
	"errors"
	"io"
	"io/fs"
)

// Node is a file.
type Node struct {
	Data    []byte
	NoOpen  bool // cannot be opened for reading
	Breaks  bool // reading fails after Data instead of ending
	Chunk   int  // bytes a read delivers at most, if not 0
	NoWrite bool // cannot be opened for writing
	Limited bool // writing fails
	Limit   int  // after this many bytes
	Pipe    bool // because nobody reads any more
	Sizes   bool // says it is empty, whatever it holds, as a pipe does
	Dir     bool // is a directory: can be opened, but not read
	Opened  int  // times it was opened for reading
	Written int  // times it was opened for writing
	Closed  int
	pos     int // of a standard stream
}

// Exit is what a call of os.Exit panics with.
type Exit struct{ Code int }

// errno is an error of the operating system.
type errno struct {
	msg string
	is  error
}

func (e *errno) Error() string        { return e.msg }
func (e *errno) Is(target error) bool { return e.is != nil && target == e.is }

var (
	noent  = &errno{"no such file or directory", fs.ErrNotExist}
	access = &errno{"permission denied", fs.ErrPermission}
	eio    = &errno{"input/output error", nil}
	nospc  = &errno{"no space left on device", nil}
	epipe  = &errno{"broken pipe", nil}
	isdir  = &errno{"is a directory", nil}
)

// ErrClosed is the error of files that were closed.
var ErrClosed = errors.New("file already closed")

// Missing is the error of a file that is not there.
func Missing(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: noent} }

// Refused is the error of a file that cannot be opened.
func Refused(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: access} }

// The world.
var (
	Files                 map[string]*Node
	Stdin, Stdout, Stderr *Node
	Args                  []string
	Logged                []string
	Asked                 []string // names that were to be opened for reading
	OnWrite               func(name string)
)

// Reset makes an empty world.
func Reset() {
	Files = map[string]*Node{}
	Stdin, Stdout, Stderr = &Node{}, &Node{}, &Node{}
	Args = []string{"command"}
	Logged, Asked = nil, nil
	OnWrite = nil
}

// Add adds a file.
func Add(name, data string) *Node {
	n := &Node{Data: []byte(data)}
	Files[name] = n
	return n
}

// Std is a standard stream, looked up when it is used.
type Std int

func (s Std) node() *Node {
	switch s {
	case 0:
		return Stdin
	case 1:
		return Stdout
	}
	return Stderr
}

// File is an open file.
type File struct {
	Name   string
	N      *Node
	S      Std
	Pos    int
	Closed bool
}

func (f *File) node() *Node {
	if f.N != nil {
		return f.N
	}
	return f.S.node()
}

// Node is the file's node.
func (f *File) Node() *Node { return f.node() }

// Open opens a file for reading.
func Open(name string) (*File, error) {
	Asked = append(Asked, name)
	n := Files[name]
	if n == nil {
		return nil, Missing("open", name)
	}
	if n.NoOpen {
		return nil, Refused("open", name)
	}
	n.Opened++
	return &File{Name: name, N: n}, nil
}

// Create opens a file for writing.
func Create(name string, truncate bool) (*File, error) {
	n := Files[name]
	if n == nil {
		n = &Node{}
		Files[name] = n
	}
	if n.NoWrite {
		return nil, Refused("open", name)
	}
	if n.Dir {
		return nil, &fs.PathError{Op: "open", Path: name, Err: isdir}
	}
	n.Written++
	if OnWrite != nil {
		OnWrite(name)
	}
	if truncate {
		n.Data = nil
	}
	return &File{Name: name, N: n}, nil
}

// BadRead is the error of a file that breaks.
func (f *File) BadRead() error {
	if f.node().Dir {
		return &fs.PathError{Op: "read", Path: f.Name, Err: isdir}
	}
	return &fs.PathError{Op: "read", Path: f.Name, Err: eio}
}

// Read reads.
func (f *File) Read(p []byte) (int, error) {
	if f.Closed {
		return 0, ErrClosed
	}
	n := f.node()
	if f.N == nil {
		f.Pos = n.pos
		defer func() { n.pos = f.Pos }()
	}
	if f.Pos >= len(n.Data) {
		if n.Breaks || n.Dir {
			return 0, f.BadRead()
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if n.Chunk > 0 && len(p) > n.Chunk {
		p = p[:n.Chunk]
	}
	k := copy(p, n.Data[f.Pos:])
	f.Pos += k
	return k, nil
}

// Write writes.
func (f *File) Write(p []byte) (int, error) {
	if f.Closed {
		return 0, ErrClosed
	}
	n := f.node()
	if n.Limited && len(n.Data)+len(p) > n.Limit {
		k := n.Limit - len(n.Data)
		if k < 0 {
			k = 0
		}
		n.Data = append(n.Data, p[:k]...)
		if n.Pipe {
			return k, &fs.PathError{Op: "write", Path: f.Name, Err: epipe}
		}
		return k, &fs.PathError{Op: "write", Path: f.Name, Err: nospc}
	}
	n.Data = append(n.Data, p...)
	return len(p), nil
}

// Close closes.
func (f *File) Close() error {
	if f.Closed {
		return ErrClosed
	}
	f.Closed = true
	f.node().Closed++
	return nil
}
