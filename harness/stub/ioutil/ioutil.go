// Package ioutil stands in for io/ioutil.
package ioutil

import (
	"io"

	"github.com/schemalex/schemalex/internal/vstub/os"
)

// Discard is io.Discard.
var Discard = io.Discard

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}

// ReadAll is io.ReadAll.
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

// NopCloser is io.NopCloser.
func NopCloser(r io.Reader) io.ReadCloser { return io.NopCloser(r) }

// TempFile is os.CreateTemp.
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
