package hlib

import (
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// A reader of the SQL the tools print. It follows MySQL's rules and shares nothing with the parser
// under analysis.

// Lex is a lexeme of MySQL: Kind is 'w' word, 'n' number, 'q' quoted name, 's' string, or the
// punctuation character itself. 0 is the end.
type Lex struct {
	Pos  int
	Kind byte
	V    string
	Gap  bool // white space or a comment comes before it
}

func isWordStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || c >= 0x80
}

// Lexemes splits SQL into lexemes; ok is false if a quote or comment is not closed.
func Lexemes(s string) (out []Lex, ok bool) {
	i, n := 0, len(s)
	gap := false
	for i < n {
		c := s[i]
		had := len(out)
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '`':
			v, j := quotedText(s, i)
			if j < 0 {
				return out, false
			}
			out = append(out, Lex{i, 'q', v, gap})
			i = j
		case c == '\'' || c == '"':
			v, j := quotedText(s, i)
			if j < 0 {
				return out, false
			}
			out = append(out, Lex{i, 's', v, gap})
			i = j
		case c == '#' || c == '-' && i+2 < n && s[i+1] == '-' && s[i+2] <= ' ':
			for i < n && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && s[i+1] == '*':
			i += 2
			for i+1 < n && !(s[i] == '*' && s[i+1] == '/') {
				i++
			}
			if i+1 >= n {
				return out, false
			}
			i += 2
		case isWordStart(c):
			j := i
			for j < n && (isWordStart(s[j]) || isDigit(s[j])) {
				j++
			}
			out = append(out, Lex{i, 'w', s[i:j], gap})
			i = j
		case isDigit(c) || (c == '-' || c == '+' || c == '.') && i+1 < n && isDigit(s[i+1]):
			j := i + 1
			for j < n && (isDigit(s[j]) || s[j] == '.') {
				j++
			}
			if j < n && (s[j] == 'e' || s[j] == 'E') {
				j++
				if j < n && (s[j] == '+' || s[j] == '-') {
					j++
				}
				for j < n && isDigit(s[j]) {
					j++
				}
			}
			out = append(out, Lex{i, 'n', s[i:j], gap})
			i = j
		default:
			out = append(out, Lex{i, c, "", gap})
			i++
		}
		gap = len(out) == had
	}
	return out, true
}

// quotedText decodes the quotation at i and returns where it ends, or -1.
func quotedText(s string, i int) (string, int) {
	q := s[i]
	var b []byte
	for i++; i < len(s); i++ {
		switch {
		case s[i] == q:
			if i+1 < len(s) && s[i+1] == q {
				b = append(b, q)
				i++
				continue
			}
			return string(b), i + 1
		case s[i] == '\\' && q != '`':
			i++
			if i >= len(s) {
				return "", -1
			}
			switch c := s[i]; c {
			case '0':
				b = append(b, 0)
			case 'b':
				b = append(b, '\b')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'Z':
				b = append(b, 26)
			case '%', '_':
				b = append(b, '\\', c)
			default:
				b = append(b, c)
			}
		default:
			b = append(b, s[i])
		}
	}
	return "", -1
}

// Stmt is a statement read back.
type Stmt struct {
	Op       string // create, drop table, begin, commit, checks 0, checks 1, add column, drop column, change column, add index, drop index, drop primary key, drop foreign key
	Table    string
	Def      Table
	Col      Col
	Idx      Idx
	Name     string // dropped or changed thing
	First    bool
	HasAfter bool
	After    string
}

type reader struct {
	l    []Lex
	i    int
	what string
	soft bool // reads any spelling, and notes what it cannot read in bad instead of failing
	bad  bool
	at   int // where: index of the lexeme
	far  int // the furthest lexeme compared with what may come there
}

func (r *reader) peek() Lex {
	if r.i < len(r.l) {
		return r.l[r.i]
	}
	return Lex{}
}

func (r *reader) next() Lex {
	x := r.peek()
	r.i++
	return x
}

func (r *reader) fail(msg string) {
	if r.soft {
		if !r.bad {
			r.bad, r.at = true, r.i
			if r.far > r.at {
				r.at = r.far
			}
		}
		return
	}
	vsym.Assert(false, "output is not the expected SQL ("+r.what+"): "+msg+" at lexeme "+Itoa(r.i)+" "+r.near())
}

func (r *reader) near() string {
	x := r.peek()
	return string([]byte{x.Kind}) + " " + x.V
}

// is consumes the words if they come next.
func (r *reader) is(words ...string) bool {
	for k, w := range words {
		if r.i+k > r.far {
			r.far = r.i + k
		}
		if r.i+k >= len(r.l) {
			return false
		}
		x := r.l[r.i+k]
		if x.Kind != 'w' || len(x.V) != len(w) || upperASCII(x.V) != w {
			return false
		}
	}
	r.i += len(words)
	return true
}

func (r *reader) p(c byte) bool {
	if r.peek().Kind == c {
		r.i++
		return true
	}
	return false
}

func (r *reader) need(c byte) {
	if !r.p(c) {
		r.fail("expected " + string([]byte{c}))
	}
}

func (r *reader) words(w ...string) {
	if !r.is(w...) {
		r.fail("expected " + w[0])
	}
}

func (r *reader) name() string {
	x := r.next()
	if x.Kind != 'q' && x.Kind != 'w' {
		r.i--
		r.fail("expected a name")
	}
	return x.V
}

func (r *reader) number() string {
	x := r.next()
	if x.Kind != 'n' {
		r.i--
		r.fail("expected a number")
	}
	return x.V
}

func (r *reader) str() string {
	x := r.next()
	if x.Kind != 's' {
		r.i--
		r.fail("expected a string")
	}
	return x.V
}

// charset reads the name of a character set or collation.
func (r *reader) charset() string {
	if r.soft && r.peek().Kind == 's' {
		return r.str()
	}
	return r.name()
}

// constant tells the words that are values from those that are texts.
func constant(w string) bool {
	switch w {
	case "NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP", "NOW":
		return true
	}
	return false
}

func (r *reader) column() Col {
	var c Col
	c.Name = r.name()
	x := r.next()
	if x.Kind == 'w' {
		u := upperASCII(x.V)
		for _, t := range Types {
			if t.Name == u {
				c.Type = t.Type
			}
		}
	}
	if c.Type == model.ColumnTypeInvalid {
		r.i--
		r.fail("expected a type")
	}
	if r.p('(') {
		if r.peek().Kind == 's' {
			var vals []string
			for {
				vals = append(vals, r.str())
				if !r.p(',') {
					break
				}
			}
			if c.Type == model.ColumnTypeSet {
				c.Set = vals
			} else {
				c.Enum = vals
			}
		} else {
			c.HasLen, c.Len = true, r.number()
			if r.p(',') {
				c.HasDec, c.Dec = true, r.number()
			}
		}
		r.need(')')
	}
	for {
		switch {
		case r.is("UNSIGNED"):
			c.Unsigned = true
		case r.is("ZEROFILL"):
			c.Zerofill = true
		case r.is("BINARY"):
			c.Binary = true
		case r.is("CHARACTER", "SET"):
			c.HasCS, c.CS = true, r.charset()
		case r.is("COLLATE"):
			c.HasColl, c.Coll = true, r.charset()
		case r.is("NOT", "NULL"):
			c.Null = model.NullStateNotNull
		case r.is("NULL"):
			c.Null = model.NullStateNull
		case r.is("DEFAULT"):
			c.HasDef, c.DefQuoted = true, false
			switch x := r.next(); x.Kind {
			case 's':
				c.Def, c.DefQuoted = x.V, true
			case 'n':
				c.Def = x.V
			case 'w':
				c.Def = upperASCII(x.V)
				if r.soft && !constant(c.Def) {
					c.Def, c.DefQuoted = x.V, true
				} else if r.p('(') {
					r.need(')')
					c.Def += "()"
				}
			default:
				r.i--
				r.fail("expected a default")
			}
		case r.is("ON", "UPDATE"):
			c.HasOnUpd = true
			x := r.next()
			if x.Kind != 'w' {
				r.i--
				r.fail("expected CURRENT_TIMESTAMP")
			}
			c.OnUpd = upperASCII(x.V)
		case r.is("AUTO_INCREMENT"):
			c.AutoInc = true
		case r.is("UNIQUE"):
			r.is("KEY")
			c.Unique = true
		case r.is("PRIMARY", "KEY"):
			c.Primary = true
		case r.is("KEY"):
			c.Key = true
		case r.is("COMMENT"):
			c.HasCmt, c.Cmt = true, r.str()
		default:
			return c
		}
	}
}

func (r *reader) idxCols() []IdxCol {
	var out []IdxCol
	r.need('(')
	for {
		var c IdxCol
		c.Name = r.name()
		if r.p('(') {
			c.HasLen, c.Len = true, r.number()
			r.need(')')
		}
		if r.is("ASC") {
			c.Dir = 1
		} else if r.is("DESC") {
			c.Dir = 2
		}
		out = append(out, c)
		if !r.p(',') {
			break
		}
	}
	r.need(')')
	return out
}

func (r *reader) refOption() model.ReferenceOption {
	switch {
	case r.is("RESTRICT"):
		return model.ReferenceOptionRestrict
	case r.is("CASCADE"):
		return model.ReferenceOptionCascade
	case r.is("SET", "NULL"):
		return model.ReferenceOptionSetNull
	case r.is("NO", "ACTION"):
		return model.ReferenceOptionNoAction
	}
	r.fail("expected an action")
	return 0
}

// isIndex tells whether an index or constraint definition comes next.
func (r *reader) isIndex() bool {
	x := r.peek()
	if x.Kind != 'w' {
		return false
	}
	switch upperASCII(x.V) {
	case "CONSTRAINT", "PRIMARY", "UNIQUE", "INDEX", "KEY", "FULLTEXT", "SPATIAL", "FOREIGN":
		return true
	}
	return false
}

func (r *reader) index() Idx {
	var x Idx
	if r.is("CONSTRAINT") {
		if !r.isIndex() {
			x.HasSym, x.Sym = true, r.name()
		}
	}
	switch {
	case r.is("PRIMARY", "KEY"):
		x.Kind = model.IndexKindPrimaryKey
	case r.is("UNIQUE"):
		_ = r.is("KEY") || r.is("INDEX")
		x.Kind = model.IndexKindUnique
	case r.is("FULLTEXT"):
		_ = r.is("KEY") || r.is("INDEX")
		x.Kind = model.IndexKindFullText
	case r.is("SPATIAL"):
		_ = r.is("KEY") || r.is("INDEX")
		x.Kind = model.IndexKindSpatial
	case r.is("FOREIGN", "KEY"):
		x.Kind = model.IndexKindForeignKey
	case r.is("KEY"), r.is("INDEX"):
		x.Kind = model.IndexKindNormal
	default:
		r.fail("expected an index")
	}
	using := func() {
		if r.is("USING", "BTREE") {
			x.Type = model.IndexTypeBtree
		} else if r.is("USING", "HASH") {
			x.Type = model.IndexTypeHash
		}
	}
	if k := r.peek(); k.Kind == 'q' || k.Kind == 'w' && upperASCII(k.V) != "USING" {
		x.HasName, x.Name = true, r.name()
	}
	using()
	x.Cols = r.idxCols()
	using()
	if r.is("WITH", "PARSER") {
		x.HasParser, x.Parser = true, r.name()
	}
	if r.is("REFERENCES") {
		f := &Ref{}
		f.Table = r.name()
		f.Cols = r.idxCols()
		switch {
		case r.is("MATCH", "FULL"):
			f.Match = model.ReferenceMatchFull
		case r.is("MATCH", "PARTIAL"):
			f.Match = model.ReferenceMatchPartial
		case r.is("MATCH", "SIMPLE"):
			f.Match = model.ReferenceMatchSimple
		}
		for r.is("ON") {
			if r.is("DELETE") {
				f.OnDelete = r.refOption()
			} else {
				r.words("UPDATE")
				f.OnUpdate = r.refOption()
			}
		}
		x.Ref = f
	}
	return x
}

func (r *reader) table() Table {
	var t Table
	r.words("CREATE")
	t.Temp = r.is("TEMPORARY")
	r.words("TABLE")
	t.IfNot = r.is("IF", "NOT", "EXISTS")
	t.Name = r.name()
	if r.is("LIKE") {
		t.HasLike, t.Like = true, r.name()
		return t
	}
	r.need('(')
	for {
		if r.isIndex() {
			t.Idxs = append(t.Idxs, r.index())
		} else {
			t.Cols = append(t.Cols, r.column())
		}
		if !r.p(',') {
			break
		}
	}
	r.need(')')
	for r.peek().Kind == 'w' {
		var o Opt
		for r.peek().Kind == 'w' {
			if o.Key != "" {
				o.Key += " "
			}
			o.Key += upperASCII(r.next().V)
		}
		r.need('=')
		x := r.next()
		switch x.Kind {
		case 's':
			o.Quoted = true
		case 'w', 'n':
		default:
			r.i--
			r.fail("expected an option value")
		}
		o.Val = x.V
		t.Opts = append(t.Opts, o)
		if !r.p(',') {
			break
		}
	}
	return t
}

func (r *reader) alter() Stmt {
	var s Stmt
	s.Table = r.name()
	switch {
	case r.is("ADD", "COLUMN"):
		s.Op = "add column"
		s.Col = r.column()
		if r.is("FIRST") {
			s.First = true
		} else if r.is("AFTER") {
			s.HasAfter, s.After = true, r.name()
		}
	case r.is("DROP", "COLUMN"):
		s.Op = "drop column"
		s.Name = r.name()
	case r.is("CHANGE", "COLUMN"):
		s.Op = "change column"
		s.Name = r.name()
		s.Col = r.column()
		if r.is("FIRST") {
			s.First = true
		} else if r.is("AFTER") {
			s.HasAfter, s.After = true, r.name()
		}
	case r.is("MODIFY", "COLUMN"):
		s.Op = "change column"
		s.Col = r.column()
		s.Name = s.Col.Name
		if r.is("FIRST") {
			s.First = true
		} else if r.is("AFTER") {
			s.HasAfter, s.After = true, r.name()
		}
	case r.is("DROP", "FOREIGN", "KEY"):
		s.Op = "drop foreign key"
		s.Name = r.name()
	case r.is("DROP", "PRIMARY", "KEY"):
		s.Op = "drop primary key"
	case r.is("DROP", "INDEX"), r.is("DROP", "KEY"):
		s.Op = "drop index"
		s.Name = r.name()
	case r.is("ADD"):
		s.Op = "add index"
		s.Idx = r.index()
	default:
		r.fail("unknown alteration")
	}
	return s
}

// ReadSQL reads a sequence of statements, each of which must be terminated and separated from the one before it.
func ReadSQL(src, what string) []Stmt {
	l, ok := Lexemes(src)
	vsym.Assert(ok, "output has an open quote or comment ("+what+")")
	r := &reader{l: l, what: what}
	var out []Stmt
	for r.i < len(r.l) {
		var s Stmt
		if r.i > 0 && !r.peek().Gap {
			r.fail("nothing separates this statement from the one before it")
		}
		switch {
		case r.is("BEGIN"):
			s.Op = "begin"
		case r.is("COMMIT"):
			s.Op = "commit"
		case r.is("SET", "FOREIGN_KEY_CHECKS"):
			r.need('=')
			s.Op = "checks " + r.number()
		case r.is("DROP", "TABLE"):
			s.Op = "drop table"
			s.Table = r.name()
		case r.is("ALTER", "TABLE"):
			s = r.alter()
		default:
			s.Op = "create"
			s.Def = r.table()
			s.Table = s.Def.Name
		}
		r.need(';')
		out = append(out, s)
	}
	return out
}

// ReadCreates reads what must be terminated CREATE TABLE statements only.
func ReadCreates(src, what string) []Table {
	var out []Table
	for _, s := range ReadSQL(src, what) {
		vsym.Assert(s.Op == "create", "output has something else than CREATE TABLE ("+what+")")
		out = append(out, s.Def)
	}
	return out
}

// ReadScript reads what scripts say, in any spelling; ok is false if it is not a script of known statements.
func ReadScript(src string) (out []Table, ok bool) {
	out, at := readScript(src)
	return out, at < 0
}

// Unreadable is where at the latest a script stops being one, or -1.
func Unreadable(src string) int {
	_, at := readScript(src)
	return at
}

func readScript(src string) (out []Table, at int) {
	l, closed := Lexemes(src)
	r := &reader{l: l, soft: true}
	for r.i < len(r.l) && !r.bad {
		switch {
		case r.p(';'):
		case r.is("DROP"), r.is("SET"), r.is("USE"):
			for r.i < len(r.l) && !r.p(';') {
				r.i++
			}
		case r.is("CREATE", "DATABASE"):
			_ = r.is("IF", "NOT", "EXISTS")
			r.name()
			for r.i < len(r.l) && r.peek().Kind != ';' && !r.bad {
				r.is("DEFAULT")
				if !r.is("CHARACTER", "SET") && !r.is("CHARSET") {
					r.words("COLLATE")
				}
				r.p('=')
				r.charset()
			}
			r.end()
		default:
			t := r.anyTable()
			r.end()
			out = append(out, t)
		}
	}
	switch {
	case r.bad && r.at < len(l):
		return out, l[r.at].Pos
	case r.bad || !closed:
		return out, len(src)
	}
	return out, -1
}

func (r *reader) end() {
	if r.i < len(r.l) {
		r.need(';')
	}
}

func (r *reader) anyTable() Table {
	var t Table
	r.words("CREATE")
	t.Temp = r.is("TEMPORARY")
	r.words("TABLE")
	if r.is("TEMPORARY") {
		t.Temp = true
	}
	t.IfNot = r.is("IF", "NOT", "EXISTS")
	t.Name = r.name()
	if r.is("LIKE") {
		t.HasLike, t.Like = true, r.name()
		return t
	}
	if r.is("IF", "NOT", "EXISTS") {
		t.IfNot = true
	}
	r.need('(')
	for {
		if r.isIndex() {
			t.Idxs = append(t.Idxs, r.index())
		} else {
			t.Cols = append(t.Cols, r.column())
		}
		if !r.p(',') {
			break
		}
	}
	r.need(')')
	for {
		more := false
		for r.p(',') {
			more = true
		}
		if more && !r.bad && r.peek().Kind != 'w' {
			r.fail("expected an option behind the comma")
		}
		if r.bad || r.peek().Kind != 'w' {
			return t
		}
		o := Opt{Key: upperASCII(r.next().V)}
		switch o.Key {
		case "DEFAULT":
			if r.is("CHARSET") || r.is("CHARACTER", "SET") {
				o.Key = "DEFAULT CHARACTER SET"
			} else {
				r.words("COLLATE")
				o.Key = "DEFAULT COLLATE"
			}
		case "CHARACTER":
			r.words("SET")
			o.Key = "DEFAULT CHARACTER SET"
		case "COLLATE":
			o.Key = "DEFAULT COLLATE"
		case "DATA", "INDEX":
			r.words("DIRECTORY")
			o.Key += " DIRECTORY"
		}
		r.p('=')
		x := r.next()
		switch x.Kind {
		case 's', 'q':
			o.Quoted = true
		case 'w', 'n':
		default:
			r.i--
			r.fail("expected an option value")
		}
		o.Val = x.V
		t.Opts = append(t.Opts, o)
	}
}
