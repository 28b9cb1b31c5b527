// Package c25: the commands do what they were asked to, or exit with an error.
package c25

import (
	"bytes"
	"context"
	"strings"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vcmd/schemadiff"
	"github.com/schemalex/schemalex/internal/vcmd/schemalex"
	"github.com/schemalex/schemalex/internal/vcmd/schemalint"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/exec"
	"github.com/schemalex/schemalex/internal/vstub/flag"
	"github.com/schemalex/schemalex/internal/vstub/os"
	"github.com/schemalex/schemalex/internal/vstub/sql"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/lint"
)

const (
	one   = "CREATE TABLE t (a INT NOT NULL, b VARCHAR(10));"
	two   = "CREATE TABLE t (a INT NOT NULL, c TEXT);"
	three = "CREATE TABLE v (x INT)"
	bad   = "CREATE TABLE t (a INT NOT NULL, b VARCHAR(10)"
)

// command runs a command with some arguments and returns its exit code.
func command(which int, args ...string) (code int) {
	flag.Reset()
	vfs.Args = append([]string{"command"}, args...)
	os.Args = vfs.Args
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(vfs.Exit)
			if !ok {
				panic(e)
			}
			code = x.Code
		}
	}()
	switch which {
	case 0:
		schemadiff.Main()
	case 1:
		schemalex.Main()
	default:
		schemalint.Main()
	}
	return 0
}

// world is an empty world.
func world() {
	vfs.Reset()
	sql.The = &sql.Database{}
	exec.Handler = func(c *exec.Cmd) ([]byte, error) { return []byte(three), nil }
}

// source adds a source and returns its name, its text and whether it can be read.
func source(file string) (string, string, bool) {
	switch vsym.Pick("source", 12) {
	case 0:
		vfs.Add(file, one)
		return file, one, true
	case 1:
		vfs.Add("/"+file, two)
		return "file:///" + file, two, true
	case 2: // the standard input
		vfs.Stdin.Data = []byte(two)
		return "-", two, true
	case 3:
		return "local-git:///repo?file=x.sql&commitish=HEAD", three, true
	case 4:
		sql.The = &sql.Database{Tables: []sql.Table{{Name: "v", Def: three}}}
		return "mysql://u@/d", three + ";", true
	case 5:
		vfs.Add(file, bad)
		return file, "", false
	case 6:
		return file, "", false
	case 7:
		vfs.Add(file, one).Breaks = true
		return file, "", false
	case 8:
		return "http://example.com/x.sql", "", false
	case 9:
		vfs.Add("d", "").Dir = true
		return "d", "", false
	case 10:
		vfs.Add(file, two+";"+bad)
		return file, "", false
	default:
		vfs.Add(file, one).NoOpen = true
		return file, "", false
	}
}

// destination is where the result goes.
type destination struct {
	name   string // "" for the standard output
	old    string
	exists bool
	bad    bool // cannot take all of anything
}

// output makes a destination that is no source.
func output() (d destination) {
	switch vsym.Pick("destination", 6) {
	case 0:
	case 1: // not there
		d.name = "out.sql"
	case 2: // longer than any result
		d.name, d.old, d.exists = "out.sql", strings.Repeat("-- what was there\n", 40), true
		vfs.Add(d.name, d.old)
	case 3:
		d.name, d.old, d.exists, d.bad = "out.sql", "-- what was there", true, true
		vfs.Add(d.name, d.old).NoWrite = true
	case 4:
		d.name, d.exists, d.bad = "out.sql", true, true
		n := vfs.Add(d.name, "")
		n.Limited, n.Limit = true, vsym.Pick("limit", 2)*5
	case 5:
		d.bad = true
		vfs.Stdout.Limited, vfs.Stdout.Limit = true, vsym.Pick("limit", 2)*5
	}
	return d
}

// outcome checks what a command did: it had to print want, or to fail.
func outcome(d destination, code int, ok bool, want string) {
	out := vfs.Files["out.sql"]
	if d.bad && len(want) > 0 {
		vsym.Assert(!ok || code != 0, "the result cannot be written, but the exit code is 0")
		if ok {
			complained()
			vsym.Reach("unwritable")
			return
		}
	}
	if !ok {
		vsym.Assert(code != 0, "there is an error, but the exit code is 0")
		complained()
		if d.name != "" {
			vsym.Assert((out != nil) == d.exists && (out == nil || vsym.StrEq(string(out.Data), d.old)), "there is an error, but the output file was touched")
		}
		vsym.Assert(!strings.Contains(string(vfs.Stdout.Data), "`"), "there is an error, but statements were printed")
		vsym.Reach("failed")
		return
	}
	if d.bad { // nothing to be written
		vsym.Reach("nothing to write")
		return
	}
	vsym.Assert(code == 0, "all is well, but the exit code is not 0")
	if d.name == "" {
		vsym.Assert(vsym.StrEq(string(vfs.Stdout.Data), want), "the standard output is not the result: "+string(vfs.Stdout.Data))
		vsym.Assert(out == nil, "a file was written though none was asked for")
		vsym.Reach("printed")
		return
	}
	vsym.Assert(out != nil && vsym.StrEq(string(out.Data), want), "the output file is not the result")
	vsym.Assert(len(vfs.Stdout.Data) == 0, "something is printed although a file was asked for")
	vsym.Reach("written")
}

func complained() {
	vsym.Assert(len(vfs.Logged) > 0 || len(vfs.Stderr.Data) > 0, "there is an error, but it is not reported")
}

// migration is the result of a comparison.
func migration(from, to string, txn bool) (string, bool) {
	var b bytes.Buffer
	err := diff.Strings(&b, from, to, diff.WithTransaction(txn))
	return b.String(), err == nil
}

// linted is the result of linting.
func linted(src string, indent int) (string, bool) {
	var b bytes.Buffer
	err := lint.New().Run(context.Background(), &hlib.Source{S: src}, &b, lint.WithIndent(" ", indent))
	return b.String(), err == nil
}

// transaction adds a flag or none.
func transaction(args []string) ([]string, bool) {
	switch vsym.Pick("transaction", 5) {
	case 1:
		return append(args, "-t"), true
	case 2:
		return append(args, "-t=false"), false
	case 3:
		return append(args, "--t=0"), false
	case 4:
		return append(args, "-t=true"), true
	}
	return args, true
}

func outfile(args []string, name string) []string {
	if name == "" {
		return args
	}
	if vsym.Pick("form", 2) == 0 {
		return append(args, "-o", name)
	}
	return append(args, "--o="+name)
}

// H1Compare: two sources of any kind, every transaction flag, every destination, both commands.
func H1Compare() {
	world()
	from, text1, ok1 := source("a.sql")
	to, text2, ok2 := source("b.sql")
	vsym.Assume(from != "-" || to != "-")
	d := output()
	args, txn := transaction(nil)
	args = outfile(args, d.name)
	var want string
	ok := ok1 && ok2
	if ok {
		want, ok = migration(text1, text2, txn)
	}
	code := command(vsym.Pick("command", 2), append(args, from, to)...)
	outcome(d, code, ok, want)
}

// H2InPlace: the output file is one of the sources, which can or cannot be compared or linted.
func H2InPlace() {
	world()
	text1 := hlib.PickStr("first", one, two, bad, "")
	text2 := hlib.PickStr("second", one, two, bad, "")
	vfs.Add("a.sql", text1)
	vfs.Add("b.sql", text2)
	name := hlib.PickStr("file", "a.sql", "b.sql")
	old := string(vfs.Files[name].Data)
	args, txn := transaction(nil)
	cmd := vsym.Pick("command", 3)
	var want string
	var ok bool
	if cmd == 2 {
		want, ok = linted(text1, 2)
		args = outfile(nil, name)
		args = append(args, "a.sql")
	} else {
		want, ok = migration(text1, text2, txn)
		args = outfile(args, name)
		args = append(args, "a.sql", "b.sql")
	}
	code := command(cmd, args...)
	got := string(vfs.Files[name].Data)
	if !ok {
		vsym.Assert(code != 0, "there is an error, but the exit code is 0")
		complained()
		vsym.Assert(got == old, "there is an error, but the output file was touched")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(code == 0, "all is well, but the exit code is not 0")
	vsym.Assert(got == want, "the output file is not the result: "+got)
	vsym.Assert(len(vfs.Stdout.Data) == 0, "something is printed although a file was asked for")
	vsym.Reach("written")
}

// H3Lint: a source of any kind, every indentation, every destination.
func H3Lint() {
	world()
	src, text, ok := source("a.sql")
	d := output()
	var args []string
	n := 2
	switch vsym.Pick("indentation", 8) {
	case 1:
		n = 1
		args = append(args, "-i", "1")
	case 2:
		n = 4
		args = append(args, "-i=4")
	case 3:
		n = 13
		args = append(args, "--i=0xd")
	case 4:
		n = 3
		args = append(args, "-i", "7", "-i", "3")
	case 5:
		n = 2
		args = append(args, "-i", "2")
	case 6:
		n = 20
		args = append(args, "-i", "20")
	case 7:
		n = 131
		args = append(args, "-i=131")
	}
	args = outfile(args, d.name)
	if vsym.Pick("dashes", 2) == 1 {
		args = append(args, "--")
	}
	var want string
	if ok {
		want, ok = linted(text, n)
	}
	outcome(d, command(2, append(args, src)...), ok, want)
}

// H4Arguments: too few or too many arguments, flags that are not there or have bad values.
func H4Arguments() {
	world()
	vfs.Add("a.sql", one)
	vfs.Add("b.sql", two)
	d := output()
	cmd := vsym.Pick("command", 3)
	args := outfile(nil, d.name)
	good := 2
	if cmd == 2 {
		good = 1
	}
	n := vsym.Pick("arguments", 4)
	switch b := vsym.Pick("flag", 5); {
	case b == 0:
		vsym.Assume(n != good)
	case b == 1:
		args = append(args, "-x")
	case b == 2:
		args = append(args, "-o")
		vsym.Assume(n == 0)
	case b == 3:
		args = append(args, []string{"-t=maybe", "-t=", "-i=2"}[cmd])
		vsym.Assume(cmd != 2)
	case b == 4:
		args = append(args, []string{"-i=2", "-i=", "-i=x"}[cmd])
	}
	args = append(args, []string{"a.sql", "b.sql", "a.sql"}[:n]...)
	code := command(cmd, args...)
	vsym.Assert(code != 0, "the arguments are wrong, but the exit code is 0: "+strings.Join(args, " "))
	out := vfs.Files["out.sql"]
	if d.name != "" {
		vsym.Assert((out != nil) == d.exists && (out == nil || string(out.Data) == d.old), "the arguments are wrong, but the output file was touched")
	}
	vsym.Assert(len(vfs.Asked) == 0, "the arguments are wrong, but a source is read")
	vsym.Reach("refused")
}

// H5Version: the version is printed and nothing else happens.
func H5Version() {
	world()
	vfs.Add("a.sql", one)
	vfs.Add("b.sql", two)
	cmd := vsym.Pick("command", 3)
	args := []string{hlib.PickStr("form", "-v", "--v", "-v=true", "-v=1")}
	old := vsym.Pick("out", 3)
	if old > 0 {
		args = append(args, "-o", "out.sql")
		if old == 2 {
			vfs.Add("out.sql", "-- what was there")
		}
	}
	args = append(args, []string{"a.sql", "b.sql", "c.sql"}[:vsym.Pick("arguments", 4)]...)
	code := command(cmd, args...)
	vsym.Assert(code == 0, "asked for the version, the exit code is not 0")
	out := vfs.Files["out.sql"]
	vsym.Assert((out != nil) == (old == 2) && (out == nil || string(out.Data) == "-- what was there"), "asked for the version, the output file is touched")
	vsym.Assert(len(vfs.Asked) == 0, "asked for the version, a source is read")
	s := string(vfs.Stdout.Data)
	vsym.Assert(strings.Contains(s, "version") && strings.HasPrefix(s, []string{"schemadiff", "schemalex", "schemalint"}[cmd]), "asked for the version, something else is printed: "+s)
	vsym.Reach("version")
}

// H6Texts: scripts with arbitrary bytes in them, in every command.
func H6Texts() {
	world()
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	x := vsym.Str("x", n)
	text := strings.Replace(hlib.PickStr("around", "CREATE TABLE t (a INT)§", "CREATE TABLE `a§` (a INT);", "CREATE TABLE t (a INT COMMENT 'a§b')", "CREATE TABLE t (a INT§, b INT)", "-- §\nCREATE TABLE t (a INT)"), "§", x, 1)
	vfs.Add("a.sql", text)
	const other = "CREATE TABLE t (a INT, b INT);" // at most one change of every sort, as those come in any order
	vfs.Add("b.sql", other)
	d := destination{}
	if vsym.Pick("destination", 2) == 1 {
		d.name, d.exists, d.old = "out.sql", true, "-- what was there"
		vfs.Add(d.name, d.old)
	}
	args := outfile(nil, d.name)
	cmd := vsym.Pick("command", 3)
	var want string
	var ok bool
	switch {
	case cmd == 2:
		want, ok = linted(text, 2)
		args = append(args, "a.sql")
	case vsym.Pick("side", 2) == 0:
		want, ok = migration(text, other, true)
		args = append(args, "a.sql", "b.sql")
	default:
		want, ok = migration(other, text, true)
		args = append(args, "b.sql", "a.sql")
	}
	outcome(d, command(cmd, args...), ok, want)
}

// H7Large: scripts that are large in any one way, in every command.
func H7Large() {
	world()
	text, other := "", ""
	if vsym.Pick("long", 2) == 0 {
		text = hlib.SQL(hlib.LargeTable("t"))
	} else {
		n := []int{4100, 33000, 66000}[vsym.Pick("length", 3)]
		other = "CREATE TABLE t (a INT)"
		text = other + ";/*" + hlib.Long("comment", n) + "*/CREATE TABLE u (b INT)"
		if vsym.Pick("first", 2) == 1 {
			text = "-- " + strings.Repeat("x", n) + "\n" + other + ";CREATE TABLE u (b INT)"
		}
	}
	vfs.Add("a.sql", text)
	vfs.Add("b.sql", other)
	d := destination{}
	if vsym.Pick("destination", 2) == 1 {
		d.name, d.exists, d.old = "out.sql", true, "-- what was there"
		vfs.Add(d.name, d.old)
	}
	args := outfile(nil, d.name)
	cmd := 2 * vsym.Pick("command", 2)
	var want string
	var ok bool
	switch {
	case cmd == 2:
		want, ok = linted(text, 2)
		args = append(args, "a.sql")
	case vsym.Pick("side", 2) == 0:
		want, ok = migration(text, other, true)
		args = append(args, "a.sql", "b.sql")
	default:
		want, ok = migration(other, text, true)
		args = append(args, "b.sql", "a.sql")
	}
	outcome(d, command(cmd, args...), ok, want)
}
