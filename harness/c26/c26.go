// Package c26: operations neither influence each other nor change what they were given.
package c26

import (
	"bytes"
	"context"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// version makes versions of a table that share all names but hardly anything else.
func version(name string, v int) hlib.Table {
	t := hlib.Table{Name: name}
	switch v {
	case 0:
		t.Cols = []hlib.Col{
			{Name: "a", Type: model.ColumnTypeBigInt, HasLen: true, Len: "20", Null: model.NullStateNotNull, AutoInc: true},
			{Name: "b", Type: model.ColumnTypeVarChar, HasLen: true, Len: "20", HasDef: true, Def: "x", DefQuoted: true, HasCmt: true, Cmt: "it's"},
		}
		t.Idxs = []hlib.Idx{
			{Kind: model.IndexKindPrimaryKey, Cols: hlib.On("a")},
			{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: []hlib.IdxCol{{Name: "b", HasLen: true, Len: "4"}}},
		}
		t.Opts = []hlib.Opt{{Key: "ENGINE", Val: "InnoDB"}}
	case 1:
		t.IfNot = true
		t.Cols = []hlib.Col{
			{Name: "b", Type: model.ColumnTypeEnum, Enum: []string{"x", "y;"}, Unique: true},
			{Name: "a", Type: model.ColumnTypeDecimal, HasLen: true, Len: "5", HasDec: true, Dec: "2", Unsigned: true},
		}
		t.Idxs = []hlib.Idx{
			{Kind: model.IndexKindUnique, HasName: true, Name: "k", Cols: hlib.On("a", "b"), Type: model.IndexTypeHash},
			{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "f", Cols: hlib.On("a"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("k"), OnDelete: model.ReferenceOptionCascade}},
		}
		t.Opts = []hlib.Opt{{Key: "ENGINE", Val: "MyISAM"}, {Key: "COMMENT", Val: "c", Quoted: true}}
	case 2:
		t.Temp = true
		t.Cols = []hlib.Col{{Name: "a", Type: model.ColumnTypeInt}}
	}
	return t
}

type world struct {
	name   string
	parser *schemalex.Parser
	linter *lint.Linter
	opts   []diff.Option
}

func (w *world) tables(v int) []hlib.Table {
	l := []hlib.Table{version(w.name, v)}
	if v == 1 {
		l = append(l, version("u", 0))
	}
	return l
}

func (w *world) parse(v int) model.Stmts {
	l, err := w.parser.ParseString(hlib.SQL(w.tables(v)...))
	if err != nil {
		vsym.Assert(false, "refused: "+err.Error())
	}
	return l
}

// do runs one operation, checks its result against what was asked for and returns it.
func (w *world) do(k, v int) string {
	want := w.tables(v)
	src := hlib.SQL(want...)
	var buf bytes.Buffer
	switch k {
	case 0:
		hlib.SameTables(hlib.ReadTables(w.parse(v)), hlib.NormTables(want), "parsed")
	case 1: // something broken
		l, err := w.parser.ParseString("\n" + src + " ,")
		pe, ok := err.(schemalex.ParseError)
		vsym.Assert(ok && l == nil, "a broken script gives something else than a parse error")
		vsym.Assert(pe.Line() >= 2 && pe.File() == "", "a parse error points elsewhere")
		return err.Error()
	case 2, 3:
		var err error
		if k == 2 {
			err = format.SQL(&buf, w.parse(v)[0])
		} else {
			err = format.SQL(&buf, w.parse(v)[0], format.WithIndent(" ", 3))
		}
		vsym.Assert(err == nil, "cannot be formatted")
		buf.WriteByte(';')
		hlib.SameTables(hlib.ReadCreates(buf.String(), "formatted"), hlib.NormTables(want[:1]), "formatted")
	case 4, 5:
		var err error
		if k == 4 {
			err = w.linter.Run(context.Background(), &hlib.Source{S: src}, &buf)
		} else {
			err = w.linter.Run(context.Background(), &hlib.Source{S: src}, &buf, lint.WithIndent("\t", 2))
		}
		vsym.Assert(err == nil, "cannot be linted")
		hlib.SameTables(hlib.ReadCreates(buf.String(), "linted"), hlib.NormTables(want), "linted")
	case 6, 7: // to the next version
		to := w.tables((v + 1) % 3)
		var opts []diff.Option
		if k == 7 {
			opts = w.opts
		}
		err := diff.Strings(&buf, src, hlib.SQL(to...), opts...)
		vsym.Assert(err == nil, "cannot be compared")
		db := &hlib.DB{Tables: hlib.NormTables(want)}
		var l []hlib.Stmt
		begin := 0
		for _, s := range hlib.ReadSQL(buf.String(), "migration") {
			switch s.Op {
			case "begin", "commit", "checks 0", "checks 1":
				begin++
				continue
			}
			l = append(l, s)
		}
		vsym.Assert(begin == (k-6)*4, "a transaction nobody asked for, or none")
		db.Apply(l)
		vsym.Assert(len(db.Tables) == len(to), "the migration ends with another number of tables")
		for i, t := range hlib.NormTables(to) {
			at := 0
			for j := range db.Tables {
				if vsym.StrEq(db.Tables[j].Name, t.Name) {
					at = j
				}
			}
			hlib.SameKeys(db.Tables[at].Idxs, t.Idxs, "after the migration")
			vsym.Assert(len(db.Tables[at].Cols) == len(t.Cols), "the migration ends with other columns: table "+hlib.Itoa(i))
		}
		return "" // in which order sets are walked is not determined
	case 8: // an output that fails
		err := diff.Strings(&hlib.Writer{Limit: 3}, src, "CREATE TABLE z (a INT)", w.opts...)
		vsym.Assert(err != nil, "a failure is not reported")
		err = format.SQL(&hlib.Writer{Limit: 3}, w.parse(v))
		vsym.Assert(err != nil, "a failure is not reported")
	case 9: // a source that fails
		err := w.linter.Run(context.Background(), &hlib.Source{S: src, Fails: true}, &buf)
		vsym.Assert(err != nil, "a failure is not reported")
	case 10: // what cannot be printed
		bad := model.NewTable("z")
		bad.AddColumn(model.NewTableColumn("g").SetType(model.ColumnTypeInt))
		bad.AddColumn(model.NewTableColumn("h").SetType(model.ColumnTypeEnum))
		x := model.NewTable("z")
		x.AddColumn(model.NewTableColumn("g").SetType(model.ColumnTypeInt))
		x.AddIndex(model.NewIndex(model.IndexKindUnique, x.ID()).SetName("i"))
		for _, o := range []interface{}{bad, x, <-x.Indexes(), model.NewTableColumn("h").SetType(model.ColumnTypeSet), model.NewTableColumn("h")} {
			vsym.Assert(format.SQL(&hlib.Writer{Limit: 1000}, o, format.WithIndent("z", 2)) != nil, "a failure is not reported")
		}
	case 11: // the parts of a table
		t := w.parse(v)[0].(model.Table)
		for c := range t.Columns() {
			vsym.Assert(format.SQL(&buf, c) == nil, "cannot be formatted")
			vsym.Assert(format.SQL(&hlib.Writer{Limit: 1}, c) != nil, "a failure is not reported")
			buf.WriteByte('\n')
		}
		for x := range t.Indexes() {
			vsym.Assert(format.SQL(&buf, x) == nil, "cannot be formatted")
			vsym.Assert(format.SQL(&hlib.Writer{Limit: 1}, x) != nil, "a failure is not reported")
			buf.WriteByte('\n')
		}
	case 12: // a migration that is not possible
		err := diff.Strings(&buf, "CREATE TABLE z (a INT, b INT, KEY (a), UNIQUE (b))", "CREATE TABLE z (a INT, b INT)", w.opts...)
		vsym.Assert(err != nil && buf.Len() == 0, "a failure is not reported")
		err = diff.Strings(&buf, "CREATE TABLE z LIKE x", "CREATE TABLE z LIKE y", w.opts...)
		vsym.Assert(err != nil && buf.Len() == 0, "a failure is not reported")
	}
	return buf.String()
}

const operations = 13

// H1History: what an operation gives does not depend on what was done before.
func H1History() {
	c := vsym.Str("name", 1)
	vsym.Assume(c != "u" && c != "o")
	w := &world{name: c, parser: schemalex.New(), linter: lint.New()}
	opt := diff.WithTransaction(true)
	w.opts = append(w.opts, opt)
	k, v := vsym.Pick("operation", operations), vsym.Pick("version", 3)
	want := w.do(k, v)
	n, versions := 1, 2
	if vsym.Thorough() {
		n, versions = 1+vsym.Pick("more", 2), 3
	}
	for i := 0; i < n; i++ {
		w.do(vsym.Pick("other operation", operations), (v+vsym.Pick("other version", versions))%3)
	}
	vsym.Assert(vsym.StrEq(w.do(k, v), want), "the same operation gives another result the second time")
	vsym.Assert(len(w.opts) == 1 && w.opts[0] == opt, "options given to one operation are changed")
	vsym.Reach("done")
}

// near is a rich table with one or two parts changed, printed.
func near() (hlib.Table, string) {
	n := &hlib.Near{Left: 1, Wide: true, Opts: true}
	if vsym.Thorough() {
		n.Left = 2
	}
	t := n.Table("t")
	return t, hlib.SQL(t)
}

func same(a, b []hlib.Table, what string) { hlib.SameTables(a, b, what) }

// H2Bytes: parsing leaves the bytes it is given alone, and does not hold on to them.
func H2Bytes() {
	t, src := near()
	all := make([]byte, len(src)+8)
	for i := range all {
		all[i] = '!'
	}
	in := all[:copy(all, src)]
	l, err := schemalex.New().Parse(in)
	vsym.Assert(err == nil, "refused")
	vsym.Assert(vsym.StrEq(string(in), src), "parsing changes its input")
	for _, c := range all[len(src):] {
		vsym.Assert(c == '!', "parsing writes behind its input")
	}
	for i := range in {
		in[i] = '?'
	}
	same(hlib.ReadTables(l), hlib.NormTables([]hlib.Table{t}), "parsed, then the input was overwritten")
	vsym.Reach("parsed")
}

// H3Errors: the same if it fails.
func H3Errors() {
	src := hlib.SQL(version("t", vsym.Pick("version", 3)), version("u", 0))
	at := vsym.Pick("at", len(src))
	src = src[:at] + vsym.Str("x", 1) + src[at:]
	in := []byte(src)
	_, err := schemalex.New().Parse(in)
	vsym.Assert(vsym.StrEq(string(in), src), "parsing changes its input")
	if err == nil {
		return
	}
	pe, ok := err.(schemalex.ParseError)
	vsym.Assert(ok, "another error")
	text, msg, line, col := err.Error(), pe.Message(), pe.Line(), pe.Col()
	for i := range in {
		in[i] = '\n'
	}
	vsym.Assert(vsym.StrEq(err.Error(), text) && vsym.StrEq(pe.Message(), msg) && pe.Line() == line && pe.Col() == col, "the error changes when the input is overwritten")
	vsym.Reach("refused")
}

// H4Model: comparing and printing leave the statements they are given alone.
func H4Model() {
	t, src := near()
	from, err := schemalex.New().ParseString(src)
	vsym.Assert(err == nil, "refused")
	if vsym.Pick("as written", 2) == 1 {
		from = hlib.BuildAll([]hlib.Table{t})
	}
	var to model.Stmts
	if vsym.Pick("built", 2) == 1 {
		to = hlib.BuildAll([]hlib.Table{version("t", 1), version("u", 0)})
	} else {
		to, err = schemalex.New().ParseString(hlib.SQL(version("u", 0), version("t", 0)))
		vsym.Assert(err == nil, "refused")
	}
	if vsym.Pick("side", 2) == 1 {
		from, to = to, from
	}
	a, b := hlib.ReadTables(from), hlib.ReadTables(to)
	ia, ib := append(model.Stmts(nil), from...), append(model.Stmts(nil), to...)
	var buf bytes.Buffer
	switch vsym.Pick("operation", 4) {
	case 0:
		diff.Statements(&buf, from, to)
	case 1:
		diff.Statements(&buf, from, to, diff.WithTransaction(true))
	case 2:
		format.SQL(&buf, from)
		format.SQL(&buf, to, format.WithIndent(" ", 2))
	case 3:
		for _, s := range append(append(model.Stmts(nil), from...), to...) {
			if t, ok := s.(model.Table); ok {
				t.Normalize()
				for c := range t.Columns() {
					format.SQL(&buf, c)
				}
				for x := range t.Indexes() {
					format.SQL(&buf, x)
					if r := x.Reference(); r != nil {
						format.SQL(&buf, r)
					}
				}
				for o := range t.Options() {
					format.SQL(&buf, o)
				}
			}
		}
	}
	same(hlib.ReadTables(from), a, "given")
	same(hlib.ReadTables(to), b, "given")
	vsym.Assert(len(from) == len(ia) && len(to) == len(ib), "another number of statements")
	for i := range from {
		vsym.Assert(from[i] == ia[i], "another statement")
	}
	for i := range to {
		vsym.Assert(to[i] == ib[i], "another statement")
	}
	vsym.Reach("used")
}

// H6Normalise: normalising leaves a column of any sort, and a key of any sort, alone.
func H6Normalise() {
	c := hlib.Col{Name: "c", Type: hlib.AnyType().Type}
	hlib.Fix(&c)
	hlib.AnyNull(&c)
	if d := vsym.Pick("default", 3); d > 0 {
		hlib.SetDefault(&c, d*2-1)
	}
	c.Primary = vsym.Pick("primary", 2) == 1
	c.Unique = vsym.Pick("unique", 2) == 1
	t := hlib.Table{Name: "t", Cols: []hlib.Col{c}}
	if vsym.Pick("foreign key", 2) == 1 {
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "f", Cols: hlib.On("d", "c"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("q", "p")}}}
	}
	m := hlib.Build(t)
	was := hlib.ReadTable(m)
	m.Normalize()
	hlib.SameTable(hlib.ReadTable(m), was, "normalised")
	vsym.Reach("normalised")
}

// scribble changes everything that can be changed about statements.
func scribble(l model.Stmts) {
	for i, s := range l {
		if t, ok := s.(model.Table); ok {
			for c := range t.Columns() {
				if c.HasLength() {
					c.Length().SetDecimal("9")
				}
				c.SetComment("!").SetDefault("!", true).SetType(model.ColumnTypeGEOMETRY).SetNullState(model.NullStateNotNull).SetUnsigned(true)
				c.SetTableID("table#!")
			}
			for x := range t.Indexes() {
				for c := range x.Columns() {
					c.SetLength("99")
					c.SetSortDirection(model.SortDirectionDescending)
				}
				if r := x.Reference(); r != nil {
					for c := range r.Columns() {
						c.SetLength("99")
					}
					r.SetTableName("!")
					r.AddColumns(model.NewIndexColumn("!"))
				}
				x.SetName("!")
				x.AddColumns(model.NewIndexColumn("!"))
			}
			t.AddColumn(model.NewTableColumn("!"))
			t.SetTemporary(!t.IsTemporary())
		}
		l[i] = nil
	}
}

// H5Separate: what was read once shares nothing with what was read before or at the same time.
func H5Separate() {
	t, src := near()
	p := schemalex.New()
	u := t
	u.Name = "u"
	two := src + ";" + hlib.SQL(u)
	switch vsym.Pick("how", 2) {
	case 0:
		a, err := p.ParseString(src)
		vsym.Assert(err == nil, "refused")
		b, err := p.ParseString(src)
		vsym.Assert(err == nil, "refused")
		scribble(a)
		same(hlib.ReadTables(b), hlib.NormTables([]hlib.Table{t}), "read after another one")
		scribble(b)
		c, err := p.ParseString(src)
		vsym.Assert(err == nil, "refused")
		same(hlib.ReadTables(c), hlib.NormTables([]hlib.Table{t}), "read after others were changed")
	case 1:
		a, err := p.ParseString(two)
		vsym.Assert(err == nil && len(a) == 2, "refused")
		k := vsym.Pick("which", 2)
		scribble(a[k : k+1])
		want := []hlib.Table{u, t}[k]
		same(hlib.ReadTables(a[1-k:2-k]), hlib.NormTables([]hlib.Table{want}), "read along with another one")
	}
	vsym.Reach("separate")
}

// H7Alike: scripts that differ little, early or late, are told apart: what was compared, parsed, linted
// or printed before does not come back.
func H7Alike() {
	x, y := vsym.Str("x", 1), vsym.Str("y", 1)
	at := vsym.Pick("at", 4)
	var l [2]hlib.Table
	for i, z := range []string{x, y} {
		t := version("t", 0)
		t.Cols = append(t.Cols, hlib.ColID("ccccccccccccccccccccccccccccccccccccccccccccccccc"))
		switch at {
		case 0:
			t.Name = z
		case 1:
			t.Cols[1].Cmt = "it's " + z
		case 2:
			t.Cols[2].Name += z
		case 3:
			t.Opts = append(t.Opts, hlib.Opt{Key: "COMMENT", Val: z, Quoted: true})
		}
		l[i] = t
	}
	p, linter := schemalex.New(), lint.New()
	opts := []diff.Option{diff.WithParser(p)}
	if vsym.Pick("parser", 2) == 1 {
		opts = nil
	}
	what := vsym.Pick("what", 4)
	if what == 3 { // there and back
		var there, back bytes.Buffer
		err1 := diff.Strings(&there, hlib.SQL(l[0]), hlib.SQL(l[1]), opts...)
		err2 := diff.Strings(&back, hlib.SQL(l[1]), hlib.SQL(l[0]), opts...)
		vsym.Assert(err1 == nil && err2 == nil, "cannot be compared")
		same := vsym.Or(at == 3, vsym.StrEq(x, y))
		vsym.Assert((there.Len() == 0) == same && (back.Len() == 0) == same, "a comparison gives what another one gave")
		vsym.Reach("compared")
		return
	}
	for i := range l {
		src := hlib.SQL(l[i])
		want := hlib.NormTables(l[i : i+1])
		var buf bytes.Buffer
		switch what {
		case 0:
			stmts, err := p.ParseString(src)
			vsym.Assert(err == nil, "refused")
			hlib.SameTables(hlib.ReadTables(stmts), want, "parsed")
			var out bytes.Buffer
			vsym.Assert(format.SQL(&out, stmts[0]) == nil, "cannot be formatted")
			hlib.SameTables(hlib.ReadCreates(out.String()+";", "formatted"), want, "formatted")
		case 1:
			err := linter.Run(context.Background(), &hlib.Source{S: src}, &buf)
			vsym.Assert(err == nil, "cannot be linted")
			hlib.SameTables(hlib.ReadCreates(buf.String(), "linted"), want, "linted")
		case 2:
			err := diff.Strings(&buf, src, src, opts...)
			vsym.Assert(err == nil && buf.Len() == 0, "a schema differs from itself")
		}
	}
	vsym.Reach("told apart")
}

// H8Large: what an operation gives does not depend on something large having been done before, well or badly.
func H8Large() {
	w := &world{name: "t", parser: schemalex.New(), linter: lint.New(), opts: []diff.Option{diff.WithTransaction(true)}}
	k, v := []int{0, 4, 6}[vsym.Pick("operation", 3)], 0
	want := w.do(k, v)
	t := hlib.LargeTable("t")
	src := hlib.SQL(t)
	var buf bytes.Buffer
	limit := -1
	if k == 4 {
		limit = len(src) / 2
	}
	out := &hlib.Writer{Limit: limit}
	switch vsym.Pick("large", 4) {
	case 0:
		l, err := w.parser.ParseString(src)
		vsym.Assert(err == nil, "refused")
		vsym.Assert((format.SQL(out, l[0]) == nil) == (limit < 0), "a failure is not reported, or there is none")
	case 1:
		_, err := w.parser.ParseString(src[:len(src)-3])
		vsym.Assert(err != nil || t.Opts != nil, "accepted")
	case 2:
		vsym.Assert((w.linter.Run(context.Background(), &hlib.Source{S: src}, out) == nil) == (limit < 0), "a failure is not reported, or there is none")
	case 3:
		vsym.Assert((diff.Strings(out, "", src) == nil) == (limit < 0), "a failure is not reported, or there is none")
		vsym.Assert(diff.Strings(&buf, src, src) == nil && buf.Len() == 0, "different from itself")
	}
	vsym.Assert(vsym.StrEq(w.do(k, v), want), "the same operation gives another result after something large")
	vsym.Reach("done")
}
