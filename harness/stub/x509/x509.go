// Package x509 stands in for crypto/x509.
package x509

// CertPool is a pool.
type CertPool struct{ PEM []string }

// NewCertPool makes a pool.
func NewCertPool() *CertPool { return &CertPool{} }

// SystemCertPool makes a pool of the system's certificates.
func SystemCertPool() (*CertPool, error) { return &CertPool{PEM: []string{"system"}}, nil }

// AppendCertsFromPEM adds a certificate; a good one starts with 'A', or with 'B'.
func (p *CertPool) AppendCertsFromPEM(b []byte) bool {
	if len(b) == 0 || b[0] != 'A' && b[0] != 'B' {
		return false
	}
	p.PEM = append(p.PEM, string(b))
	return true
}
