// Package c16: asking for a transaction only adds the wrapper.
package c16

import (
	"bytes"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// lexemes compares statements by their lexemes: white space does not count.
func lexemes(s string) []hlib.Lex {
	l, ok := hlib.Lexemes(s)
	vsym.Assert(ok, "output has an open quote or comment")
	return l
}

func statements(l []hlib.Lex) [][]hlib.Lex {
	var out [][]hlib.Lex
	i := 0
	for j, x := range l {
		if x.Kind == ';' {
			out = append(out, l[i:j+1])
			i = j + 1
		}
	}
	vsym.Assert(i == len(l), "the last statement is not terminated")
	return out
}

func same(a, b []hlib.Lex) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, vsym.And(a[i].Kind == b[i].Kind, vsym.StrEq(a[i].V, b[i].V)))
	}
	return r
}

func run(from, to string, opts ...diff.Option) (string, error) {
	var buf bytes.Buffer
	err := diff.Strings(&buf, from, to, opts...)
	return buf.String(), err
}

func check(from, to string) {
	plain, err0 := run(from, to)
	checkWith(from, to, plain, err0, []diff.Option{diff.WithTransaction(false)}, []diff.Option{diff.WithTransaction(true)})
}

func checkWith(from, to, plain string, err0 error, offOpts, onOpts []diff.Option) {
	off, err1 := run(from, to, offOpts...)
	on, err2 := run(from, to, onOpts...)
	vsym.Assert((err0 == nil) == (err1 == nil) && (err0 == nil) == (err2 == nil), "whether there is an error depends on the option")
	if err0 != nil {
		vsym.Assert(on == "", "an error, but output with a transaction")
		vsym.Reach("error")
		return
	}
	p, o, n := statements(lexemes(plain)), statements(lexemes(off)), statements(lexemes(on))
	w := statements(lexemes("BEGIN; SET FOREIGN_KEY_CHECKS = 0; SET FOREIGN_KEY_CHECKS = 1; COMMIT;"))
	vsym.Assert(len(o) == len(p), "switching the option off changes the output")
	vsym.Assert(len(n) == len(p)+4, "the transaction adds or removes statements other than its own four")
	vsym.Assert(same(n[0], w[0]) && same(n[1], w[1]), "the output does not start with BEGIN and switching off the checks")
	vsym.Assert(same(n[len(n)-2], w[2]) && same(n[len(n)-1], w[3]), "the output does not end with switching on the checks and COMMIT")
	for i, s := range p {
		for _, x := range w {
			vsym.Assert(!same(s, x), "a part of the transaction without the option")
		}
		if vsym.Symbolic() || len(p) < 2 {
			vsym.Assert(same(s, o[i]), "switching the option off changes a statement")
			vsym.Assert(same(s, n[i+2]), "the transaction changes a statement")
		}
	}
	vsym.Observe("statements", hlib.Itoa(len(n)))
	vsym.Reach("compared")
}

func table(name string, v int) hlib.Table {
	t := hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
	switch v {
	case 1:
		t.Cols[0].HasCmt, t.Cols[0].Cmt = true, "BEGIN; COMMIT;"
	case 2:
		t.Cols = []hlib.Col{hlib.ColID("c")}
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: hlib.On("c")}}
	case 3:
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "s", Cols: hlib.On("a"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("x")}}}
	}
	return t
}

// H1Migrations: every two schemas of two tables in four versions.
func H1Migrations() {
	var side [2][]hlib.Table
	for i := range side {
		for _, n := range []string{"t", "u"} {
			if v := vsym.Pick("table", 5); v > 0 {
				side[i] = append(side[i], table(n, v-1))
			}
		}
	}
	check(hlib.SQL(side[0]...), hlib.SQL(side[1]...))
}

// H2Names: a table of any name is dropped, created or altered.
func H2Names() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	a := table(vsym.Str("name", vsym.Pick("len", n+1)), 0)
	b := a
	b.Cols = append([]hlib.Col{}, a.Cols...)
	b.Cols[1].HasCmt, b.Cols[1].Cmt = true, vsym.Str("comment", vsym.Pick("comment len", n+1))
	switch vsym.Pick("change", 4) {
	case 0:
		check(hlib.SQL(a), "")
	case 1:
		check("", hlib.SQL(b))
	case 2:
		check(hlib.SQL(a), hlib.SQL(b))
	case 3:
		check(hlib.SQL(b), hlib.SQL(b))
	}
}

// H3Errors: comparisons that fail.
func H3Errors() {
	good := hlib.SQL(table("t", 0))
	switch vsym.Pick("failure", 4) {
	case 0:
		check(good, "CREATE TABLE")
	case 1:
		check("CREATE TABLE", good)
	case 2:
		check(good, "CREATE TABLE t LIKE u")
	case 3:
		check("CREATE TABLE t (a INT, KEY (a))", "CREATE TABLE t (a INT)")
	}
}

// H4Repeated: the option given several times, between others: the last one counts.
func H4Repeated() {
	var on, off []diff.Option
	for i := vsym.Pick("before", 3); i > 0; i-- {
		switch vsym.Pick("option", 3) {
		case 0:
			on = append(on, diff.WithTransaction(false))
		case 1:
			on = append(on, diff.WithTransaction(true))
		case 2:
			on = append(on, diff.WithParser(schemalex.New()))
		}
	}
	off = append(append(off, on...), diff.WithTransaction(false))
	on = append(on, diff.WithTransaction(true))
	if vsym.Pick("after", 2) == 1 {
		on, off = append(on, diff.WithParser(schemalex.New())), append(off, diff.WithParser(schemalex.New()))
	}
	var side [2]string
	for i := range side {
		if v := vsym.Pick("table", 4); v > 0 {
			side[i] = hlib.SQL(table("t", v-1))
		}
	}
	plain, err := run(side[0], side[1])
	checkWith(side[0], side[1], plain, err, off, on)
}

// H5Renamed: tables of any names, the same or not, on either side.
func H5Renamed() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	a := table(vsym.Str("old", n), vsym.Pick("version", 2))
	b := table(vsym.Str("new", n), vsym.Pick("version", 4))
	check(hlib.SQL(a), hlib.SQL(b))
}

// H6Large: tables that are large in any one way come and go, long lists change, many tables change.
func H6Large() {
	switch vsym.Pick("what", 4) {
	case 0:
		check("", hlib.SQL(hlib.LargeTable("t")))
	case 1:
		check(hlib.SQL(hlib.LargeTable("t")), "")
	case 2:
		a, b := hlib.Change()
		check(hlib.SQL(a), hlib.SQL(b))
	case 3:
		var from, to []hlib.Table
		for i := hlib.Amount(); i > 0; i-- {
			if i%3 != 0 {
				from = append(from, table("t"+hlib.Itoa(i), i%2))
			}
			if i%4 != 0 {
				to = append(to, table("t"+hlib.Itoa(i), i%3))
			}
		}
		check(hlib.SQL(from...), hlib.SQL(to...))
	}
}
