// Package c19: a schema source delivers the whole schema or an error.
package c19

import (
	"errors"
	"io"
	"strings"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/exec"
	"github.com/schemalex/schemalex/internal/vstub/sql"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
)

// output is an output that accepts everything, or so many bytes.
func output() *hlib.Writer {
	w := &hlib.Writer{Limit: -1}
	if vsym.Pick("output limited", 2) == 1 {
		w.Limit = vsym.Pick("limit", 4) * 3
	}
	return w
}

// delivered asserts that all of the schema went out, or that there was an error.
func delivered(err error, w *hlib.Writer, want string, what string) {
	if err != nil {
		vsym.Reach("refused output")
		vsym.Assert(w.Refused > 0, what+": an error without a failure: "+err.Error())
		return
	}
	vsym.Assert(w.Refused == 0, what+": the output refused, but there is no error")
	vsym.Assert(vsym.StrEq(string(w.Got), want), what+": something else was delivered than the schema")
	vsym.Reach("delivered")
}

func failed(err error, w *hlib.Writer, what string) {
	vsym.Assert(err != nil, what+": no error")
	vsym.Reach("failed")
}

// reader delivers a text in pieces and then fails, or not, with or without the last piece.
type reader struct {
	s     string
	piece int
	fail  bool
	err   error // what it fails with, if not with errReader
	along bool  // the end comes along with the last piece
}

var errReader = errors.New("the reader fails")

func (r *reader) end() error {
	if r.fail && r.err != nil {
		return r.err
	}
	if r.fail {
		return errReader
	}
	return io.EOF
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.end()
	}
	n := r.piece
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(p, r.s[:n])
	r.s = r.s[n:]
	if len(r.s) == 0 && r.along {
		return n, r.end()
	}
	return n, nil
}

// H1Readers: any text of a few bytes in pieces of any size from readers that fail, or not.
func H1Readers() {
	n := 5
	if vsym.Thorough() {
		n = 7
	}
	text := vsym.Str("text", vsym.Pick("len", n+1))
	r := &reader{s: text, piece: 1 + vsym.Pick("piece", n), fail: vsym.Pick("fails", 2) == 1, along: vsym.Pick("along", 2) == 1}
	w := output()
	fails := r.fail
	err := schemalex.NewReaderSource(r).WriteSchema(w)
	if fails {
		failed(err, w, "a reader that fails")
		return
	}
	delivered(err, w, text, "a reader")
}

// H2Files: files of any few bytes that can or cannot be opened or read.
func H2Files() {
	vfs.Reset()
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	text := vsym.Str("text", vsym.Pick("len", n+1))
	name := []string{"x.sql", "/a/b c?d=%41#e.sql"}[vsym.Pick("name", 2)]
	f := vfs.Add(name, text)
	f.Chunk = vsym.Pick("chunk", 3)
	what := vsym.Pick("file is", 6)
	f.NoOpen, f.Breaks, f.Dir, f.Sizes = what == 1, what == 2, what == 4, what == 5
	if f.Dir {
		f.Data = nil
	}
	if what == 3 {
		delete(vfs.Files, name)
	}
	var src schemalex.SchemaSource
	if vsym.Pick("by", 2) == 0 {
		src = schemalex.NewLocalFileSource(name)
	} else {
		s, err := schemalex.NewSchemaSource(name)
		vsym.Assert(err == nil, "a file name is refused")
		src = s
	}
	w := output()
	err := src.WriteSchema(w)
	if what != 0 && what != 5 {
		failed(err, w, "a file that cannot be read")
		return
	}
	vsym.Assert(f.Closed == f.Opened, "the file is left open")
	delivered(err, w, text, "a file")
}

// H3Stdin: the standard input, whole or broken.
func H3Stdin() {
	vfs.Reset()
	text := vsym.Str("text", vsym.Pick("len", 4))
	vfs.Stdin = &vfs.Node{Data: []byte(text), Chunk: vsym.Pick("chunk", 3), Breaks: vsym.Pick("breaks", 2) == 1, Sizes: vsym.Pick("size", 2) == 1}
	src, err := schemalex.NewSchemaSource("-")
	vsym.Assert(err == nil, "the standard input is refused")
	w := output()
	err = src.WriteSchema(w)
	if vfs.Stdin.Breaks {
		failed(err, w, "a standard input that fails")
		return
	}
	delivered(err, w, text, "the standard input")
}

// H4Git: git prints any few bytes and ends well, or prints some and fails, or cannot be run.
func H4Git() {
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	text := vsym.Str("text", vsym.Pick("len", n+1))
	fails := vsym.Pick("fails", 2) == 1
	dir := []string{"/repo", "", "/a b"}[vsym.Pick("dir", 3)]
	file := []string{"x.sql", "a:b/c d.sql", "-x"}[vsym.Pick("file", 3)]
	rev := []string{"HEAD", "deadbeef", "a^{/x y}", ""}[vsym.Pick("revision", 4)]
	exec.Warning = []string{"", "warning: something is odd\n"}[vsym.Pick("warning", 2)]
	ran := 0
	exec.Handler = func(c *exec.Cmd) ([]byte, error) {
		ran++
		where, object, ok := c.Shown()
		vsym.Assert(ok && object == rev+":"+file, "git is not asked for the file at the revision: "+c.String())
		vsym.Assert(where == dir, "git is run elsewhere")
		if fails {
			return []byte(text), &exec.ExitError{}
		}
		return []byte(text), nil
	}
	w := output()
	err := schemalex.NewLocalGitSource(dir, file, rev).WriteSchema(w)
	vsym.Assert(ran == 1, "git is not run once")
	if fails {
		failed(err, w, "git fails")
		vsym.Assert(w.Writes == 0, "output before git ended")
		return
	}
	delivered(err, w, text, "git")
}

// H5Options: a revision that git would take for an option is never given to it.
func H5Options() {
	rev := "-" + vsym.Str("revision", vsym.Pick("len", 3))
	exec.Handler = func(c *exec.Cmd) ([]byte, error) {
		safe := false
		for _, a := range c.Args[1:] {
			if a == "--" || a == "--end-of-options" {
				safe = true
			}
			vsym.Assert(safe || a != rev+":x.sql", "git is given an option: "+a)
		}
		return nil, &exec.ExitError{}
	}
	w := output()
	err := schemalex.NewLocalGitSource("/repo", "x.sql", rev).WriteSchema(w)
	failed(err, w, "a revision that is an option")
	vsym.Assert(w.Writes == 0, "output without a schema")
}

// database opens a database source of the world.
func database(d *sql.Database) schemalex.SchemaSource {
	sql.The = d
	s, err := schemalex.NewSchemaSource("mysql://u:p@tcp(h:1)/d")
	vsym.Assert(err == nil, "a database source is refused")
	return s
}

// whole is what must be delivered.
func whole(d *sql.Database) []string {
	var out []string
	for _, t := range d.Tables {
		out = append(out, t.Def)
	}
	return out
}

// outcome checks the result of a database source.
func outcome(d *sql.Database, err error, w *hlib.Writer, bad bool) {
	vsym.Assert(d.RowsOpen == 0 && d.ClosedDB == d.Opened, "rows or a connection are left open")
	if bad {
		failed(err, w, "the database fails")
		vsym.Assert(w.Writes == 0, "output before the schema was complete")
		return
	}
	if err != nil {
		vsym.Assert(w.Refused > 0, "an error without a failure: "+err.Error())
		return
	}
	vsym.Assert(w.Refused == 0, "the output refused, but there is no error")
	vsym.Assert(d.Driver == "mysql", "another driver")
	got := string(w.Got)
	for i, def := range whole(d) {
		for i > 0 && len(got) > 0 && (got[0] == '\n' || got[0] == ' ') {
			got = got[1:]
		}
		vsym.Assert(len(got) > len(def) && vsym.StrEq(got[:len(def)], def) && got[len(def)] == ';', "the definition of a table is missing, changed, out of order or not terminated: "+string(w.Got))
		got = got[len(def)+1:]
	}
	vsym.Assert(len(strings.TrimSpace(got)) == 0, "something is delivered that is in no definition: "+got)
	vsym.Reach("delivered")
}

// H6Database: a database that fails at any step.
func H6Database() {
	d := &sql.Database{}
	max := 3
	if vsym.Thorough() {
		max = 5
	}
	n := vsym.Pick("tables", max+1)
	for i := 0; i < n; i++ {
		name := []string{"t", "u`x", "v", "w", "x"}[i]
		d.Tables = append(d.Tables, sql.Table{Name: name, Def: "CREATE TABLE " + hlib.Backquoted(name) + " (\n  `a` int(11) DEFAULT NULL\n) ENGINE=InnoDB"})
	}
	bad := true
	switch f := vsym.Pick("failure", 6+4); {
	case f == 0:
		bad = false
	case f == 1:
		d.NoOpen = true
	case f == 2:
		d.NoList = true
	case f == 3:
		d.Breaks, d.After = true, vsym.Pick("after", n+1)
	case f == 4:
		vsym.Assume(n > 0)
		d.NoScan, d.ScanAt = true, vsym.Pick("row", n)
	case f == 5:
		// the connection breaks after the definitions of the first tables were delivered
		vsym.Assume(n > 1)
		d.Breaks, d.After = true, n
	default:
		vsym.Assume(n > 0)
		d.Tables[vsym.Pick("table", n)].NoDef = f - 5
	}
	src := database(d)
	w := output()
	err := src.WriteSchema(w)
	outcome(d, err, w, bad)
	if !bad && err == nil {
		l, perr := schemalex.New().ParseString(string(w.Got))
		vsym.Assert(perr == nil && len(l) == n, "the delivered schema does not parse")
		for i, t := range hlib.ReadTables(l) {
			vsym.Assert(t.Name == d.Tables[i].Name, "another table")
		}
	}
}

// H7Names: tables of any name and any definition.
func H7Names() {
	n := 2
	if vsym.Thorough() {
		n = 4
	}
	d := &sql.Database{Tables: []sql.Table{{Name: vsym.Str("name", 1+vsym.Pick("len", n)), Def: "x" + vsym.Str("definition", 2) + "y"}, {Name: "zzzzzzz", Def: "CREATE"}}}
	src := database(d)
	w := &hlib.Writer{Limit: -1}
	outcome(d, src.WriteSchema(w), w, false)
}

// H8Errors: readers, commands, databases and outputs that fail with errors of all sorts.
func H8Errors() {
	vfs.Reset()
	l := append(hlib.Failures(), sql.ErrNoRows, &exec.Error{Name: "git", Err: exec.ErrNotFound}, &exec.ExitError{})
	e := l[vsym.Pick("error", len(l))]
	text := "CREATE TABLE t (a INT);"
	exec.Handler = func(c *exec.Cmd) ([]byte, error) { return []byte(text), nil }
	exec.Warning = ""
	w := &hlib.Writer{Limit: -1}
	var src schemalex.SchemaSource
	refusing := vsym.Pick("output refuses", 2) == 1
	if refusing {
		w.Limit, w.Err = vsym.Pick("limit", 2)*(len(text)-1), e
	}
	switch vsym.Pick("source", 4) {
	case 0:
		r := &reader{s: text, piece: len(text), along: vsym.Pick("along", 2) == 1}
		if !refusing {
			vsym.Assume(e != io.EOF)
			r.fail, r.err = true, e
		}
		src = schemalex.NewReaderSource(r)
	case 1:
		if !refusing {
			exec.Handler = func(c *exec.Cmd) ([]byte, error) { return []byte(text), e }
		}
		src = schemalex.NewLocalGitSource("/repo", "x.sql", "HEAD")
	case 2:
		d := &sql.Database{Tables: []sql.Table{{Name: "t", Def: text[:len(text)-1]}}}
		if !refusing {
			d.Err = e
			switch vsym.Pick("at", 6) {
			case 0:
				d.NoOpen = true
			case 1:
				d.NoList = true
			case 2:
				d.Breaks, d.After = true, 0
			case 3:
				d.Breaks, d.After = true, 1
			case 4:
				d.Tables[0].NoDef = 1
			case 5:
				d.Tables[0].NoDef = 3
			}
		}
		src = database(d)
	case 3:
		vsym.Assume(refusing)
		vfs.Add("x.sql", text)
		src = schemalex.NewLocalFileSource("x.sql")
	}
	failed(src.WriteSchema(w), w, "a failure of some sort")
}

// H9Large: long files, readers, outputs of git and definitions with any byte at some place, whole or
// broken near their ends, and many tables.
func H9Large() {
	vfs.Reset()
	l := []int{1030, 4100, 33000, 66000, 132000, 270000}
	if vsym.Thorough() {
		l = append(l, 1100000)
	}
	n := l[vsym.Pick("length", len(l))]
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz\n"[i%27]
	}
	at := hlib.Place("byte", n)
	text := string(b[:at]) + vsym.Str("byte", 1) + string(b[at+1:])
	w := &hlib.Writer{Limit: -1}
	if vsym.Pick("output limited", 2) == 1 {
		w.Limit = n - 1
	}
	var src schemalex.SchemaSource
	broken := false
	switch vsym.Pick("source", 5) {
	case 0:
		broken = vsym.Pick("broken", 2) == 1
		src = schemalex.NewReaderSource(&reader{s: text, piece: []int{500, n}[vsym.Pick("piece", 2)], along: vsym.Pick("along", 2) == 1, fail: broken})
	case 1:
		f := vfs.Add("x.sql", text)
		f.Breaks, f.Sizes = vsym.Pick("broken", 2) == 1, vsym.Pick("sizes", 2) == 1
		broken = f.Breaks
		src = schemalex.NewLocalFileSource("x.sql")
	case 2:
		vfs.Stdin = &vfs.Node{Data: []byte(text), Breaks: vsym.Pick("broken", 2) == 1, Sizes: vsym.Pick("sizes", 2) == 1}
		broken = vfs.Stdin.Breaks
		src, _ = schemalex.NewSchemaSource("-")
	case 3:
		broken = vsym.Pick("broken", 2) == 1
		exec.Warning = ""
		exec.Handler = func(c *exec.Cmd) ([]byte, error) {
			if broken {
				return []byte(text), &exec.ExitError{}
			}
			return []byte(text), nil
		}
		src = schemalex.NewLocalGitSource("/repo", "x.sql", "HEAD")
	case 4:
		d := &sql.Database{Tables: []sql.Table{{Name: "t", Def: text}, {Name: "u", Def: "CREATE"}}}
		broken = vsym.Pick("broken", 2) == 1
		if broken {
			d.Breaks, d.After = true, 1
		}
		src = database(d)
		outcome(d, src.WriteSchema(w), w, broken)
		return
	}
	err := src.WriteSchema(w)
	if broken {
		failed(err, w, "a source that fails")
		return
	}
	delivered(err, w, text, "a long schema")
}

// HATables: databases of many tables, one of which has any name, failing at some table or not.
func HATables() {
	n := hlib.Amount()
	d := &sql.Database{}
	for i := 0; i < n; i++ {
		name := "t" + hlib.Itoa(i)
		d.Tables = append(d.Tables, sql.Table{Name: name, Def: "CREATE TABLE `" + name + "` (a INT)"})
	}
	at := hlib.Place("table", n)
	bad := false
	switch vsym.Pick("what", 6) {
	case 0:
		d.Tables[at].Name = vsym.Str("name", 1) + hlib.Long("name", hlib.Length())
	case 1:
		d.Tables[at].Def = "x" + vsym.Str("definition", 2) + "y"
	case 2:
		d.Breaks, d.After, bad = true, at, true
	case 3:
		d.NoScan, d.ScanAt, bad = true, at, true
	case 4:
		d.Tables[at].NoDef, bad = 1+vsym.Pick("no definition", 4), true
	case 5:
		d.Breaks, d.After, bad = true, n, true
	}
	src := database(d)
	w := &hlib.Writer{Limit: -1}
	outcome(d, src.WriteSchema(w), w, bad)
}
