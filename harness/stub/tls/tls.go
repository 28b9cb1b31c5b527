// Package tls stands in for crypto/tls.
package tls

import (
	"errors"

	"github.com/schemalex/schemalex/internal/vstub/os"
	"github.com/schemalex/schemalex/internal/vstub/x509"
)

// Certificate is what was read from the two files.
type Certificate struct{ Cert, Key string }

// Config is a configuration.
type Config struct {
	RootCAs            *x509.CertPool
	ClientCAs          *x509.CertPool
	Certificates       []Certificate
	ServerName         string
	InsecureSkipVerify bool
	MinVersion         uint16
	MaxVersion         uint16
}

// Versions.
const (
	VersionTLS10 = 0x0301
	VersionTLS11 = 0x0302
	VersionTLS12 = 0x0303
	VersionTLS13 = 0x0304
)

// LoadX509KeyPair reads the two files; the first byte of a good one is 'C' or 'K', or 'B' of a file that holds everything.
func LoadX509KeyPair(cert, key string) (Certificate, error) {
	c, err := os.ReadFile(cert)
	if err != nil {
		return Certificate{}, err
	}
	k, err := os.ReadFile(key)
	if err != nil {
		return Certificate{}, err
	}
	return X509KeyPair(c, k)
}

// X509KeyPair makes a pair.
func X509KeyPair(c, k []byte) (Certificate, error) {
	if len(c) == 0 || c[0] != 'C' && c[0] != 'B' || len(k) == 0 || k[0] != 'K' && k[0] != 'B' {
		return Certificate{}, errors.New("tls: failed to find any PEM data")
	}
	return Certificate{string(c), string(k)}, nil
}
