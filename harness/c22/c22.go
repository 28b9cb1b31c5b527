// Package c22: results do not depend on scheduling and nothing is left running.
package c22

import (
	"context"
	"strings"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// result is what parsing gives.
type result struct {
	tables []hlib.Table
	err    string
}

func describe(stmts model.Stmts, err error) result {
	if err != nil {
		vsym.Assert(len(stmts) == 0, "statements along with an error")
		return result{err: err.Error()}
	}
	return result{tables: hlib.ReadTables(stmts)}
}

func parse(p *schemalex.Parser, src string) result {
	stmts, err := p.ParseString(src)
	return describe(stmts, err)
}

func same(got, want result) {
	vsym.Assert(got.err == want.err, "the error depends on scheduling: "+got.err+" / "+want.err)
	if got.err != "" {
		vsym.Reach("error")
		return
	}
	hlib.SameTables(got.tables, want.tables, "table read under another schedule")
	vsym.Reach("parsed")
}

// quiet asserts that nothing is left running.
func quiet() {
	vsym.Assert(vsym.Quiesce() == 0, "a goroutine is left blocked")
}

// scripts end well or badly, early or late, with few or many tokens left that nobody wants.
var scripts = []string{
	"",
	";",
	"CREATE TABLE t (a INT);",
	"CREATE TABLE t (a INT); CREATE TABLE u (b INT)",
	"x",
	"x y z a b c d e f g h",
	"CREATE TABLE t (a INT,,,,,,,,,",
	"CREATE TABLE t (a INT) x",
	"CREATE TABLE t (a INT); CREATE",
	"CREATE TABLE t (a INT COMMENT 'x",
	"'",
	"DROP TABLE x; CREATE TABLE t (a INT)",
	"DROP TABLE `x",
	"SET x = @y, z; x x x x x",
	"CREATE DATABASE d; CREATE TABLE t (a INT)",
	"CREATE DATABASE",
	"-- c\n/* d */ CREATE TABLE t (a INT)",
	"CREATE TABLE t LIKE u; CREATE TABLE t LIKE",
	"CREATE TABLE t (a INT, KEY k (a) x x x x x",
	"CREATE VIEW v AS SELECT 1, 2, 3",
}

// H1Parse: every script under every schedule with a few preemptions.
func H1Parse() {
	src := scripts[vsym.Pick("script", len(scripts))]
	p := schemalex.New()
	want := parse(p, src)
	quiet()
	n := 2
	if vsym.Thorough() && len(src) <= 24 {
		n = 3
	}
	vsym.Sched(n)
	got := parse(p, src)
	same(got, want)
	quiet()
}

// H2Texts: scripts with arbitrary bytes, without preemptions, or with one.
func H2Texts() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	x := vsym.Str("x", n)
	for i := 0; i < len(x); i++ {
		vsym.Assume(n == 1 || x[i] < 0x80)
	}
	src := strings.Replace(hlib.PickStr("around", "§", "CREATE TABLE t (a INT§b INT)", "DROP x§; CREATE TABLE t (a INT)"), "§", x, 1)
	p := schemalex.New()
	want := parse(p, src)
	vsym.Sched(0)
	same(parse(p, src), want)
	quiet()
}

// H3Long: long scripts are left early.
func H3Long() {
	n := 1 + vsym.Pick("statements", 3)
	src := ""
	for i := 0; i < n; i++ {
		src += "CREATE TABLE t" + string(rune('0'+i)) + " (a INT, b INT); "
	}
	at := vsym.Pick("cut", len(src)+1)
	src = src[:at] + hlib.PickStr("then", "?", "x x x x x x x x x x", "'", "")
	p := schemalex.New()
	want := parse(p, src)
	quiet()
	m := 0
	if vsym.Thorough() {
		m = 1
	}
	vsym.Sched(m)
	same(parse(p, src), want)
	quiet()
}

// H4Two: one parser used by two goroutines at once.
func H4Two() {
	l := []string{"x y z a b c", "CREATE TABLE u (b", "/* */ /* */ CREATE", "CREATE TABLE t (a INT)"}
	if vsym.Thorough() {
		l = l[:3]
	}
	a, b := l[vsym.Pick("first", len(l))], l[vsym.Pick("second", len(l))]
	p := schemalex.New()
	wa, wb := parse(p, a), parse(p, b)
	n := 0
	if vsym.Thorough() {
		n = 1
	}
	vsym.Sched(n)
	ch := make(chan result, 1)
	go func() { ch <- parse(p, b) }()
	ga := parse(p, a)
	same(ga, wa)
	same(<-ch, wb)
	quiet()
}

// H5Tools: comparing and linting leave nothing running, whatever fails.
func H5Tools() {
	l := []string{"CREATE TABLE t (a INT, KEY k (a))", "CREATE TABLE t (b INT); CREATE TABLE u (c INT)", "x y z a b c d e", "CREATE TABLE t (a INT, x", ""}
	a, b := l[vsym.Pick("first", len(l))], l[vsym.Pick("second", len(l))]
	limit := -1
	if vsym.Pick("limited", 2) == 1 {
		limit = 7 * vsym.Pick("limit", 3)
	}
	failing := vsym.Pick("failing", 3)
	run := func() (string, string) {
		w := &hlib.Writer{Limit: limit}
		sa, sb := &hlib.Source{S: a, Fails: failing == 1}, &hlib.Source{S: b, Fails: failing == 2}
		err := diff.Sources(w, sa, sb, diff.WithTransaction(true))
		quiet()
		if err == nil {
			err = lint.New().Run(context.Background(), sa, w)
		}
		quiet()
		if err != nil {
			return string(w.Got), err.Error()
		}
		return string(w.Got), ""
	}
	out, msg := run()
	vsym.Sched(0)
	out1, msg1 := run()
	vsym.Assert(out == out1, "the output depends on scheduling")
	vsym.Assert(msg == msg1, "the error depends on scheduling: "+msg+" / "+msg1)
	vsym.Reach("ran")
}

// H6Files: parsing files.
func H6Files() {
	vfs.Reset()
	src := scripts[vsym.Pick("script", len(scripts))]
	f := vfs.Add("a.sql", src)
	switch vsym.Pick("file is", 4) {
	case 1:
		f.NoOpen = true
	case 2:
		f.Breaks = true
	case 3:
		f.Dir, f.Data = true, nil
	}
	p := schemalex.New()
	stmts, err := p.ParseFile("a.sql")
	want := describe(stmts, err)
	vsym.Sched(1)
	stmts, err = p.ParseFile("a.sql")
	same(describe(stmts, err), want)
	quiet()
}

// H7Left: scripts that end badly with any number of tokens left that nobody wants.
func H7Left() {
	src := []string{"x", "CREATE TABLE t (a INT,)", "CREATE TABLE t (a INT) z", "DROP TABLE `x`; ?"}[vsym.Pick("script", 4)]
	n := 12
	if vsym.Thorough() {
		n = 16
	}
	for k := vsym.Pick("tokens", n+1); k > 0; k-- {
		src += []string{" ", ")"}[k&1]
	}
	src += []string{"", "'", "-- x"}[vsym.Pick("end", 3)]
	p := schemalex.New()
	want := parse(p, src)
	quiet()
	m := 0
	if vsym.Thorough() {
		m = 1
	}
	vsym.Sched(m)
	same(parse(p, src), want)
	quiet()
}

// H8Large: scripts that are large in any one way, or leave many tokens that nobody wants.
func H8Large() {
	src := ""
	if vsym.Pick("left", 2) == 1 {
		n := []int{17, 70, 300, 1100}[vsym.Pick("tokens", 4)]
		src = []string{"x ", "CREATE TABLE t (a INT,) ", "CREATE TABLE t (a INT); DROP ", "DROP TABLE `x`; "}[vsym.Pick("script", 4)]
		src += strings.Repeat([]string{"x ", ")", "; ", "/*", "'"}[vsym.Pick("what", 5)], n)
	} else {
		src = hlib.SQL(hlib.LargeTable("t"))
		if vsym.Pick("cut", 2) == 1 {
			src = src[:len(src)/2]
		}
	}
	p := schemalex.New()
	want := parse(p, src)
	quiet()
	vsym.Sched(0)
	same(parse(p, src), want)
	quiet()
}
