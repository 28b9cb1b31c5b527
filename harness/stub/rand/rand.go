// Package rand stands in for crypto/rand: bytes that never repeat.
package rand

import "io"

var n int

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	n++
	for i := range p {
		p[i] = byte(n >> (8 * uint(i%3)))
	}
	return len(p), nil
}

// Reader delivers bytes.
var Reader io.Reader = reader{}

// Read fills p.
func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
