// Package mysql stands in for github.com/go-sql-driver/mysql where TLS configurations are registered;
// the settings of connections are the real ones.
package mysql

import (
	"errors"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex/internal/vstub/tls"
)

// Config is the driver's.
type Config = mysql.Config

// Registered are the registered configurations.
var Registered map[string]*tls.Config

// Refuse makes registering fail.
var Refuse bool

// ParseDSN is the driver's.
func ParseDSN(s string) (*Config, error) { return mysql.ParseDSN(s) }

// NewConfig is the driver's.
func NewConfig() *Config { return mysql.NewConfig() }

// RegisterTLSConfig registers a configuration.
func RegisterTLSConfig(key string, c *tls.Config) error {
	if Refuse {
		return errors.New("key is reserved")
	}
	if Registered == nil {
		Registered = map[string]*tls.Config{}
	}
	Registered[key] = c
	return nil
}

// DeregisterTLSConfig removes one.
func DeregisterTLSConfig(key string) { delete(Registered, key) }

// MySQLError is the driver's.
type MySQLError = mysql.MySQLError

// Connector makes connections.
type Connector struct{ c *Config }

// DSN is what it connects to.
func (c *Connector) DSN() string { return c.c.FormatDSN() }

// NewConnector makes a connector.
func NewConnector(c *Config) (*Connector, error) { return &Connector{c}, nil }
