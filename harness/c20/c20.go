// Package c20: a source string selects the right kind of source, or an error.
package c20

import (
	"bytes"
	"strings"

	realmysql "github.com/go-sql-driver/mysql"
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/exec"
	"github.com/schemalex/schemalex/internal/vstub/sql"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
)

// seen is what a source did when it was used.
type seen struct {
	refused bool   // there is no source
	kind    string // "stdin", "file", "git", "mysql", or several of them
	name    string // file that was opened, "revision:file" git was asked for
	dir     string // git's directory
	dsn     string
}

// use makes a source from a string and uses it.
func use(uri string) seen {
	vfs.Reset()
	vfs.Stdin.Data = []byte("text of the standard input")
	d := &sql.Database{Tables: []sql.Table{{Name: "t", Def: "CREATE TABLE `t` (a int)"}}}
	sql.The = d
	var r seen
	exec.Handler = func(c *exec.Cmd) ([]byte, error) {
		r.kind += "git"
		var ok bool
		r.dir, r.name, ok = c.Shown()
		vsym.Assert(ok, "git is not asked to show something")
		return []byte("text of git"), nil
	}
	src, err := schemalex.NewSchemaSource(uri)
	if err != nil {
		vsym.Assert(src == nil, "a source along with an error")
		vsym.Assert(len(vfs.Asked) == 0 && d.Driver == "" && r.kind == "", "something is used though there is an error")
		return seen{refused: true}
	}
	vsym.Assert(src != nil, "neither a source nor an error")
	var b bytes.Buffer
	// the file that is asked for is not there: an error, but it was asked for
	_ = src.WriteSchema(&b)
	if len(vfs.Asked) > 0 {
		vsym.Assert(len(vfs.Asked) == 1, "several files are opened")
		r.kind += "file"
		r.name = vfs.Asked[0]
	}
	if d.Driver != "" {
		vsym.Assert(d.Driver == "mysql", "another driver")
		r.kind += "mysql"
		r.dsn = d.DSN
	}
	if strings.Contains(b.String(), "text of the standard input") {
		r.kind += "stdin"
	}
	return r
}

// must asserts that a source string selects what it says.
func must(uri string, got, want seen) {
	if want.refused {
		vsym.Assert(got.refused, "source string "+uri+" is accepted: "+got.kind+" "+got.name)
		vsym.Reach("refused")
		return
	}
	vsym.Assert(!got.refused, "source string "+uri+" is refused")
	vsym.Assert(got.kind == want.kind, "source string "+uri+" selects "+got.kind+", not "+want.kind)
	vsym.Assert(vsym.StrEq(got.name, want.name), "source string "+uri+" selects the file "+got.name+", not "+want.name)
	vsym.Assert(vsym.StrEq(got.dir, want.dir), "source string "+uri+" selects the directory "+got.dir+", not "+want.dir)
	vsym.Reach("selected " + want.kind)
}

func letter(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

// scheme returns what is before the first colon of a URI with a scheme (RFC 3986).
func scheme(s string) (string, bool) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == ':' {
			return s[:i], i > 0
		}
		if !letter(c) && (i == 0 || !('0' <= c && c <= '9' || c == '+' || c == '-' || c == '.')) {
			return "", false
		}
	}
	return "", false
}

// H1Short: every string of a few bytes is the standard input, a file of exactly that name, or an error.
func H1Short() {
	n := 3
	if vsym.Thorough() {
		n = 5
	}
	short(vsym.Str("uri", 1+vsym.Pick("len", n)))
}

// H2Names: arbitrary bytes in the middle of longer names.
func H2Names() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	x := vsym.Str("x", vsym.Pick("len", n+1))
	w := hlib.PickStr("around", "/a/§.sql", "§.sql", "dir/§", "-§", "-/§-", "./§:b", "a b§?x=1", "§/file:///x", "a§=mysql://u@/d", "1§://x", ".x§:y", "file§x", "_x§://h/p", "é§:é")
	short(strings.Replace(w, "§", x, 1))
}

// short checks a string that is too short for, or is not, any of the known schemes.
func short(uri string) {
	sch, is := scheme(uri)
	if is {
		l := strings.ToLower(sch)
		vsym.Assume(l != "file" && l != "local-git" && l != "mysql")
	} else if strings.HasPrefix(uri, "//") {
		// a host, or not: only that a file of another name is not taken
		got := use(uri)
		if !got.refused {
			vsym.Assert(got.kind == "file" && strings.HasSuffix(uri, got.name), "a name that starts with two slashes selects "+got.kind+" "+got.name)
			vsym.Assert(len(uri) == 2 || uri[2] == '/' || strings.HasPrefix(uri, "//localhost/") || strings.Contains(uri, "@") || uri[2] == '?' || uri[2] == '#', "a remote host is taken for a file: "+uri)
		}
		return
	}
	switch got := use(uri); {
	case uri == "-":
		must(uri, got, seen{kind: "stdin"})
	case is:
		must(uri, got, seen{refused: true})
	default:
		must(uri, got, seen{kind: "file", name: uri})
	}
}

// unhex is the value of a hexadecimal digit.
func unhex(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// decode decodes what is percent-encoded.
func decode(s string, plus bool) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := unhex(s[i+1]), unhex(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			b = append(b, byte(h*16+l))
			i += 2
		case s[i] == '+' && plus:
			b = append(b, ' ')
		default:
			b = append(b, s[i])
		}
	}
	return string(b), true
}

// piece is a part of a URI with up to n arbitrary bytes between fixed ones: none of the delimiters, no control characters.
func piece(n int, not string) string {
	x := vsym.Str("x", vsym.Pick("len", n+1))
	for i := 0; i < len(x); i++ {
		vsym.Assume(x[i] > ' ' && x[i] != 127)
		for j := 0; j < len(not); j++ {
			vsym.Assume(x[i] != not[j])
		}
	}
	w := hlib.PickStr("around", "§", "a§b", "%§1", "%4§", "%%§", "%2f§", "é§%C3%a9")
	return strings.Replace(w, "§", x, 1)
}

// H3File: file:// with an absolute path of arbitrary bytes, percent-encoded or not.
func H3File() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	p := "/" + piece(n, "?#")
	uri := hlib.PickStr("scheme", "file", "FILE", "File") + "://" + hlib.PickStr("host", "", "localhost") + p
	name, ok := decode(p, false)
	if !ok {
		must(uri, use(uri), seen{refused: true})
		return
	}
	must(uri, use(uri), seen{kind: "file", name: name})
}

// H4Hosts: no other host than the local one, for any scheme.
func H4Hosts() {
	around := []string{"§", "localhost§", "§localhost", "localhos§", "example.com:8§", "127.0.0.1§", "::1§"}
	n := 1
	if vsym.Thorough() && vsym.Pick("long", 2) == 1 {
		n = 2
		around = around[:2]
	}
	x := vsym.Str("host", n)
	for i := 0; i < len(x); i++ {
		vsym.Assume(x[i] != '/' && x[i] != '@')
		vsym.Assume(n == 1 || x[i] < 0x80)
	}
	h := strings.Replace(hlib.PickStr("around", around...), "§", x, 1)
	// letters may be written as capitals or encoded
	d, ok := decode(h, false)
	vsym.Assume(!ok || strings.ToLower(d) != "localhost")
	// the host ends there, and it may be the local one
	vsym.Assume(!strings.ContainsAny(h, "?#"))
	rest := hlib.PickStr("rest", "/x.sql", "", "/x.sql?file=a.sql&commitish=b", "/")
	uri := hlib.PickStr("scheme", "file", "local-git", "", "http", "FILE") + "://" + h + rest
	if strings.HasPrefix(uri, "://") {
		uri = uri[1:]
	}
	must(uri, use(uri), seen{refused: true})
}

// H5Git: local-git with a directory, file and revision of arbitrary bytes in either order, encoded or not.
func H5Git() {
	dir, file, rev := "/path/to/repo", "foo.sql", "deadbeaf"
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	what := vsym.Pick("arbitrary", 3)
	switch what {
	case 0:
		dir += piece(n+1, "?#")
	case 1:
		file += piece(n, "&;#")
	case 2:
		rev += piece(n, "&;#")
	}
	q := "file=" + file + "&commitish=" + rev
	switch vsym.Pick("order", 3) {
	case 1:
		q = "commitish=" + rev + "&file=" + file
	case 2:
		q = "x=y&commitish=" + rev + "&dir=/z&file=" + file + "&files=q&commit=r"
	}
	uri := hlib.PickStr("scheme", "local-git", "Local-GIT") + "://" + hlib.PickStr("host", "", "localhost") + dir + "?" + q
	d, ok1 := decode(dir, false)
	f, ok2 := decode(file, true)
	c, ok3 := decode(rev, true)
	if !ok1 || !ok2 || !ok3 {
		must(uri, use(uri), seen{refused: true})
		return
	}
	must(uri, use(uri), seen{kind: "git", dir: d, name: c + ":" + f})
}

// H6MySQL: everything after mysql:// is the string of the connection, verbatim.
func H6MySQL() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	x := vsym.Str("x", vsym.Pick("len", n+1))
	dsn := strings.Replace(hlib.PickStr("around", "u:p§q@tcp(h:3306)/d", "u§:p@tcp(h:3306)/d", "u:p@tcp(h:3306)/d§", "u:p@unix(/tmp/§x.sock)/d?charset=utf8", "u@/d?a=§&collation=utf8_bin"), "§", x, 1)
	want, err := realmysql.ParseDSN(dsn)
	uri := "mysql://" + dsn
	got := use(uri)
	if err != nil {
		vsym.Assert(got.refused || got.kind == "", "a broken connection string is used: "+uri)
		vsym.Reach("broken connection string")
		return
	}
	// the driver cannot write these down
	vsym.Assume(want.User != "" || want.Passwd == "")
	vsym.Assert(!got.refused, "source string "+uri+" is refused")
	vsym.Assert(got.kind == "mysql", "source string "+uri+" selects "+got.kind)
	vsym.Assert(got.dsn == want.FormatDSN(), "source string "+uri+" connects with "+got.dsn+", not "+want.FormatDSN())
	vsym.Reach("selected mysql")
}

// H7Unknown: anything else is an error.
func H7Unknown() {
	sch := hlib.PickStr("scheme", "http", "https", "ssh", "git", "postgres", "file+x", "x-file", "local-gitx", "local", "localgit", "files", "fil", "mysqls", "git+local", "c", "sqlite3", "mysql+tcp", "ftp", "data", "local.git", "unix")
	if vsym.Pick("capitals", 2) == 1 {
		sch = strings.ToUpper(sch)
	}
	uri := sch + hlib.PickStr("sep", "://", ":///", ":", ":/", "://localhost/") + hlib.PickStr("rest", "", "x.sql", "a/b.sql?file=f&commitish=c", "u:p@tcp(h:1)/d", "%zz", "x#y")
	must(uri, use(uri), seen{refused: true})
}

// H8Broken: known schemes without what they need.
func H8Broken() {
	uri := hlib.PickStr("uri",
		"file://", "file://localhost", "file:x.sql", "file:", "file://h/x", "file:///%zz", "file:///a%2", "file:///a%",
		"local-git:repo?file=a&commitish=b", "local-git://repo?file=a&commitish=b", "local-git://repo/x?file=a&commitish=b",
		"local-git:///r?file=%zz&commitish=b", "local-git:///r?file=a&commitish=%", "local-git:///r?file=a&commitish=%4", "local-git:///%?file=a&commitish=b",
		"local-git:///r?file=a;commitish=b", "//h/x.sql", "//h", "//h:1/x?y", "file://:80/x", "file://h:80/x", "file://%41/x", "mysql:u@/d", "mysql:/u@/d", "mysql:")
	must(uri, use(uri), seen{refused: true})
}
