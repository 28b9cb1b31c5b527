// Package os stands in for the standard library's os: files and streams of package vfs.
package os

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/schemalex/schemalex/internal/vstub/vfs"
)

// Flags.
const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200
)

// FileMode is a file mode.
type FileMode = fs.FileMode

// ModePerm is the permission bits.
const ModePerm = fs.ModePerm

// ErrNotExist is the error of missing files.
var ErrNotExist = fs.ErrNotExist

// IsNotExist tells it apart.
func IsNotExist(err error) bool { return is(err, fs.ErrNotExist) }

func is(err, target error) bool {
	if p, ok := err.(*fs.PathError); ok {
		err = p.Err
	}
	return errors.Is(err, target)
}

// File is an open file.
type File struct{ f *vfs.File }

// Streams.
var (
	Stdin  = &File{&vfs.File{Name: "/dev/stdin", S: 0}}
	Stdout = &File{&vfs.File{Name: "/dev/stdout", S: 1}}
	Stderr = &File{&vfs.File{Name: "/dev/stderr", S: 2}}
)

// Args are the arguments, as they are when package flag is used through the command's own set of flags.
var Args = []string{"command"}

// Types and errors.
type (
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

var (
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid
	ErrClosed     = vfs.ErrClosed
)

// Paths.
const (
	PathSeparator = '/'
	DevNull       = "/dev/null"
	ModeDir       = fs.ModeDir
)

// IsExist tells errors apart.
func IsExist(err error) bool { return is(err, fs.ErrExist) }

// IsPermission tells errors apart.
func IsPermission(err error) bool { return is(err, fs.ErrPermission) }

type info struct {
	name string
	n    *vfs.Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64 {
	if i.n.Sizes {
		return 0
	}
	return int64(len(i.n.Data))
}
func (i info) Mode() FileMode {
	if i.n.Dir {
		return ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() interface{}   { return nil }

// Stat tells about a file.
func Stat(name string) (FileInfo, error) {
	n := vfs.Files[name]
	if n == nil {
		return nil, vfs.Missing("stat", name)
	}
	return info{name, n}, nil
}

// Lstat is Stat.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// Remove removes a file.
func Remove(name string) error {
	if vfs.Files[name] == nil {
		return vfs.Missing("remove", name)
	}
	delete(vfs.Files, name)
	return nil
}

// Rename moves a file; where nothing can be written, nothing can be moved to.
func Rename(from, to string) error {
	n := vfs.Files[from]
	if n == nil {
		return vfs.Missing("rename", from)
	}
	if o := vfs.Files[to]; o != nil && o.NoWrite {
		return vfs.Refused("rename", to)
	}
	delete(vfs.Files, from)
	vfs.Files[to] = n
	return nil
}

// TempDir is where temporary files are.
func TempDir() string { return "/tmp" }

// CreateTemp makes a file of a new name.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	name := dir + "/" + pattern
	for vfs.Files[name] != nil {
		name += "0"
	}
	return Create(name)
}

// MkdirAll does nothing: there are no directories.
func MkdirAll(string, FileMode) error { return nil }

// Chmod does nothing.
func Chmod(string, FileMode) error { return nil }

// Getwd is the working directory.
func Getwd() (string, error) { return "/", nil }

// Environ knows no variables.
func Environ() []string { return nil }

// Open is os.Open.
func Open(name string) (*File, error) {
	f, err := vfs.Open(name)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

// Create is os.Create.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&3 == O_RDONLY {
		return Open(name)
	}
	if flag&O_CREATE == 0 && vfs.Files[name] == nil {
		return nil, vfs.Missing("open", name)
	}
	f, err := vfs.Create(name, flag&O_TRUNC != 0)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := vfs.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.N.Breaks || f.N.Dir {
		return f.N.Data, f.BadRead()
	}
	return append([]byte{}, f.N.Data...), nil
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := vfs.Create(name, true)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Name is the name of the file.
func (f *File) Name() string { return f.f.Name }

// Read reads.
func (f *File) Read(p []byte) (int, error) { return f.f.Read(p) }

// Write writes.
func (f *File) Write(p []byte) (int, error) { return f.f.Write(p) }

// WriteString writes.
func (f *File) WriteString(s string) (int, error) { return f.f.Write([]byte(s)) }

// ReadFrom copies.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// Stat tells about the file.
func (f *File) Stat() (FileInfo, error) { return info{f.f.Name, f.f.Node()}, nil }

// Chmod does nothing.
func (f *File) Chmod(FileMode) error { return nil }

// Fd is a number.
func (f *File) Fd() uintptr { return 3 }

// Truncate cuts it.
func (f *File) Truncate(n int64) error {
	f.f.Node().Data = f.f.Node().Data[:n]
	return nil
}

// Sync does nothing.
func (f *File) Sync() error { return nil }

// Close closes.
func (f *File) Close() error { return f.f.Close() }

// Exit ends the command.
func Exit(code int) { panic(vfs.Exit{Code: code}) }

// Getenv knows no variables.
func Getenv(string) string { return "" }

// LookupEnv knows no variables.
func LookupEnv(string) (string, bool) { return "", false }
