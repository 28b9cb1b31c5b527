// Package sha256 stands in for crypto/sha256: a function without collisions (the identity).
package sha256

import "hash"

type digest struct{ b []byte }

// New makes a hash.
func New() hash.Hash { return &digest{} }

func (d *digest) Write(p []byte) (int, error) {
	d.b = append(d.b, p...)
	return len(p), nil
}

func (d *digest) Sum(b []byte) []byte { return append(b, d.b...) }
func (d *digest) Reset()              { d.b = nil }
func (d *digest) Size() int           { return 32 }
func (d *digest) BlockSize() int      { return 64 }

var seen []string

// Sum256 numbers the texts it is given.
func Sum256(b []byte) (out [32]byte) {
	n := -1
	for i, s := range seen {
		if s == string(b) {
			n = i
		}
	}
	if n < 0 {
		n = len(seen)
		seen = append(seen, string(b))
	}
	out[0], out[1] = byte(n>>8), byte(n)
	return out
}

// Sizes.
const (
	Size      = 32
	BlockSize = 64
)
