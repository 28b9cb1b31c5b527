// Package sql stands in for database/sql: a database that breaks where it is told to.
package sql

import (
	"context"
	"errors"
	"time"
)

// Errors.
var (
	ErrNoRows = errors.New("sql: no rows in result set")
	ErrBroken = errors.New("the connection is broken")
)

// Table is a table of the database: its name and definition.
type Table struct {
	Name, Def string
	NoDef     int // 1: the definition cannot be queried; 2: it is not there; 3: it cannot be scanned
}

// Database is the world.
type Database struct {
	Tables    []Table
	NoOpen    bool // cannot be opened
	NoList    bool // the list cannot be queried
	Breaks    bool // iterating over the list breaks
	After     int  // after this many rows
	NoScan    bool // a row of the list cannot be scanned: the one of that number
	ScanAt    int
	BadClose  bool
	Err       error // what it breaks with, if not with ErrBroken
	Driver    string
	DSN       string
	Opened    int
	ClosedDB  int
	RowsOpen  int
	Queries   []string
	AfterDone bool // used after being closed
}

func (d *Database) broken() error {
	if d.Err != nil {
		return d.Err
	}
	return ErrBroken
}

// The is the database.
var The *Database

// DB is a connection.
type DB struct {
	d      *Database
	closed bool
}

// Open opens the database.
func Open(driver, dsn string) (*DB, error) {
	The.Driver, The.DSN = driver, dsn
	if The.NoOpen {
		return nil, The.broken()
	}
	The.Opened++
	return &DB{d: The}, nil
}

// Types.
type (
	TxOptions struct{ ReadOnly bool }
	RawBytes  []byte
)

// NullString may be NULL.
type NullString struct {
	String string
	Valid  bool
}

// OpenDB opens the database of a connector.
func OpenDB(c interface{ DSN() string }) *DB {
	db, err := Open("mysql", c.DSN())
	if err != nil {
		return &DB{d: The, closed: true}
	}
	return db
}

// PingContext does nothing.
func (db *DB) PingContext(context.Context) error { return nil }

// SetMaxIdleConns does nothing.
func (db *DB) SetMaxIdleConns(int) {}

// SetConnMaxLifetime does nothing.
func (db *DB) SetConnMaxLifetime(time.Duration) {}

// Conn is a connection of the pool.
type Conn struct{ *DB }

// Conn gives a connection.
func (db *DB) Conn(context.Context) (*Conn, error) { return &Conn{db}, nil }

// Close gives it back.
func (c *Conn) Close() error { return nil }

// Stmt is a prepared statement.
type Stmt struct {
	db *DB
	q  string
}

// Prepare prepares a query.
func (db *DB) Prepare(q string) (*Stmt, error) { return &Stmt{db, q}, nil }

// Query queries.
func (s *Stmt) Query(args ...interface{}) (*Rows, error) { return s.db.Query(s.q, args...) }

// QueryRow queries one row.
func (s *Stmt) QueryRow(args ...interface{}) *Row { return s.db.QueryRow(s.q, args...) }

// Close closes it.
func (s *Stmt) Close() error { return nil }

// Ping does nothing.
func (db *DB) Ping() error { return nil }

// SetMaxOpenConns does nothing.
func (db *DB) SetMaxOpenConns(int) {}

// Close closes.
func (db *DB) Close() error {
	if !db.closed {
		db.closed = true
		db.d.ClosedDB++
	}
	return nil
}

// Rows are the rows of the list of tables, or of one definition.
type Rows struct {
	d      *Database
	vals   [][]string
	at     int
	err    error
	breaks bool
	after  int
	noscan int
	closed bool
}

// Query queries.
func (db *DB) Query(q string, args ...interface{}) (*Rows, error) {
	if db.closed {
		db.d.AfterDone = true
		return nil, errors.New("sql: database is closed")
	}
	db.d.Queries = append(db.d.Queries, q)
	if q == "SHOW TABLES" {
		if db.d.NoList {
			return nil, db.d.broken()
		}
		r := &Rows{d: db.d, noscan: -1, breaks: db.d.Breaks, after: db.d.After}
		if db.d.NoScan {
			r.noscan = db.d.ScanAt
		}
		for _, t := range db.d.Tables {
			r.vals = append(r.vals, []string{t.Name})
		}
		db.d.RowsOpen++
		return r, nil
	}
	for _, t := range db.d.Tables {
		if q == "SHOW CREATE TABLE "+quote(t.Name) {
			r := &Rows{d: db.d, noscan: -1}
			switch t.NoDef {
			case 0:
				r.vals = [][]string{{t.Name, t.Def}}
			case 1:
				return nil, db.d.broken()
			case 2:
			case 3:
				r.vals = [][]string{{t.Name, t.Def}}
				r.noscan = 0
			case 4:
				r.breaks = true
			}
			db.d.RowsOpen++
			return r, nil
		}
	}
	return nil, errors.New("no such table: " + q)
}

func quote(s string) string {
	b := []byte{'`'}
	for i := 0; i < len(s); i++ {
		if s[i] == '`' {
			b = append(b, '`')
		}
		b = append(b, s[i])
	}
	return string(append(b, '`'))
}

// QueryContext queries.
func (db *DB) QueryContext(ctx context.Context, q string, args ...interface{}) (*Rows, error) {
	return db.Query(q, args...)
}

// Next moves on.
func (r *Rows) Next() bool {
	if r.closed || r.err != nil {
		return false
	}
	if r.breaks && r.at >= r.after {
		r.err = r.d.broken()
		r.end()
		return false
	}
	if r.at >= len(r.vals) {
		r.end()
		return false
	}
	r.at++
	return true
}

func (r *Rows) end() {
	if !r.closed {
		r.closed = true
		r.d.RowsOpen--
	}
}

// Scan reads a row.
func (r *Rows) Scan(dest ...interface{}) error {
	if r.at == 0 || r.closed {
		return errors.New("sql: Scan called without calling Next")
	}
	v := r.vals[r.at-1]
	if r.at-1 == r.noscan {
		return r.d.broken()
	}
	if len(dest) != len(v) {
		return errors.New("sql: wrong number of destinations")
	}
	for i := range v {
		switch p := dest[i].(type) {
		case *string:
			*p = v[i]
		case *[]byte:
			*p = []byte(v[i])
		case *RawBytes:
			*p = RawBytes(v[i])
		case *NullString:
			p.String, p.Valid = v[i], true
		case *interface{}:
			*p = []byte(v[i])
		default:
			return errors.New("sql: unknown destination")
		}
	}
	return nil
}

// Columns are the names of the columns.
func (r *Rows) Columns() ([]string, error) {
	if r.closed {
		return nil, errors.New("sql: Rows are closed")
	}
	if len(r.vals) > 0 && len(r.vals[0]) == 2 {
		return []string{"Table", "Create Table"}, nil
	}
	return []string{"Tables"}, nil
}

// NextResultSet finds no more.
func (r *Rows) NextResultSet() bool { return false }

// Err is what ended the iteration.
func (r *Rows) Err() error { return r.err }

// Close closes.
func (r *Rows) Close() error {
	r.end()
	return nil
}

// Row is a single row.
type Row struct {
	rows *Rows
	err  error
}

// QueryRow queries one row.
func (db *DB) QueryRow(q string, args ...interface{}) *Row {
	r, err := db.Query(q, args...)
	return &Row{r, err}
}

// QueryRowContext queries one row.
func (db *DB) QueryRowContext(ctx context.Context, q string, args ...interface{}) *Row {
	return db.QueryRow(q, args...)
}

// Err is the error of the query.
func (r *Row) Err() error { return r.err }

// Scan reads it.
func (r *Row) Scan(dest ...interface{}) error {
	if r.err != nil {
		return r.err
	}
	defer r.rows.Close()
	if !r.rows.Next() {
		if err := r.rows.Err(); err != nil {
			return err
		}
		return ErrNoRows
	}
	return r.rows.Scan(dest...)
}
