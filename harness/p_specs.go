package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C11", quick: 2000000, thorough: 30000000,
		rule: "A case is one table or field specification (well-formed in random spelling and spacing, malformed, or random text over a small alphabet) given to every constructor and observed through accessors and renderers; distinct by specification.",
		assumptions: []string{
			"not asserted: specifications in which AS stands anywhere but in the middle of three words, aliases with dots, words separated by white space other than ASCII",
		},
		run: runC11,
	})
	register(&Prop{
		id: "C14", quick: 1500000, thorough: 60000000,
		rule: "A case is one candidate field name (plain, or with characters of one or more forbidden kinds at random places, or random text), or a values map of such keys, or a sort direction; distinct by name.",
		assumptions: []string{
			"must be accepted: letters (any script), digits and underscores starting with a letter or underscore, with at most one inner dot",
			"must be rejected: empty; white space; quotes; more than one, leading or trailing dot; ; , ( ) control characters; -- /* comment marks",
			"other names may be accepted or not, but whatever is accepted must be usable",
		},
		run: runC14,
	})
	register(&Prop{
		id: "C18", quick: 900000, thorough: 20000000,
		rule: "A case is one list of names; non-trivial when it has a repetition; distinct by list.",
		run:  runC18,
	})
}

const asciiSpaces = " \t\n\r\v\f"

func (g *gctx) gap(min int) string {
	n := min
	if g.r.P(30) {
		n += g.r.N(3)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
		if g.r.P(25) {
			b[i] = asciiSpaces[g.r.N(len(asciiSpaces))]
		}
	}
	return string(b)
}

// specWord draws one word for a specification.
func (g *gctx) specWord() string {
	switch g.r.N(14) {
	case 0:
		return pick(g.r, "x", "a", "s", "_", "Z")
	case 1:
		return pick(g.r, "asset", "asc", "basic", "ASIDE", "as_", "_as", "sa", "alias", "has")
	case 2:
		return pick(g.r, "пользователи", "日本", "ñandú", "Straße")
	case 3:
		return "w" + strings.Repeat("x", g.r.Between(1, 400))
	case 4:
		return pick(g.r, "select", "from", "table", "order", "group", "where", "null", "on", "count")
	case 5:
		return pick(g.r, "na-me", "na$me", "n@me", "a:b", "#x", "x'", "[x]", "`x`", "a/b", "%d", "%s%v")
	case 6:
		return fmt.Sprint(g.r.N(1000))
	}
	return g.freshName(pick(g.r, "t", "f", "n"))
}

// related draws a word close to another one but different from it.
func (g *gctx) related(w string) string {
	rs := []rune(w)
	fold := make([]rune, len(rs))
	for i, r := range rs {
		fold[i] = unicode.SimpleFold(r)
	}
	one := append([]rune{}, rs...)
	i := g.r.N(len(one))
	one[i] = unicode.SimpleFold(one[i])
	x := pick(g.r,
		strings.ToUpper(w), strings.ToLower(w), strings.Title(w), string(fold), string(one),
		w+"s", w+"_", "_"+w, w+w, string(rs[:len(rs)/2]), string(rs[len(rs)/2:]), string(rs[:1]),
		w[strings.LastIndexByte(w, '.')+1:], strings.Split(w, ".")[0], strings.ReplaceAll(w, ".", "_"), strings.ReplaceAll(w, "_", ""))
	if strings.Contains(x, ".") || x == "" || strings.EqualFold(x, "as") {
		return strings.ReplaceAll(w, ".", "_") + "2"
	}
	return x
}

func (g *gctx) asWord() string { return pick(g.r, "AS", "as", "As", "aS") }

func runC11(c *Case) {
	g := c.ctx()
	switch c.r.N(9) {
	case 0, 1:
		c11Table(c, g)
	case 2:
		c11BadTable(c, g)
	case 3, 4, 5:
		c11Field(c, g)
	case 6:
		c11BadField(c, g)
	default:
		c11Any(c, g)
	}
}

func checkTable(c *Case, what string, t query.TableIdent, name, alias string) {
	if alias == name {
		alias = ""
	}
	want := name
	if alias != "" {
		want += " AS " + alias
	}
	c.check(string(t.TableName()) == name, "%s: table name is %q, want %q", what, t.TableName(), name)
	c.check(string(t.Alias()) == alias, "%s: alias is %q, want %q", what, t.Alias(), alias)
	c.check(t.RenderFrom() == want, "%s: renders %q, want %q", what, t.RenderFrom(), want)
}

func plainWord(s string) bool {
	for _, r := range s {
		if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	r, _ := utf8.DecodeRuneInString(s)
	return s != "" && !unicode.IsDigit(r) && !reserved[strings.ToUpper(s)]
}

func c11Table(c *Case, g *gctx) {
	name := g.specWord()
	if g.r.P(10) {
		name = g.specWord() + "." + g.specWord()
	}
	alias, spec := "", name
	switch g.r.N(3) {
	case 0:
		alias = g.specWord()
		if g.r.P(15) {
			alias = name
		} else if g.r.P(20) {
			alias = g.related(name)
		}
		spec = name + g.gap(1) + alias
	case 1:
		alias = g.specWord()
		if g.r.P(15) {
			alias = name
		} else if g.r.P(20) {
			alias = g.related(name)
		}
		spec = name + g.gap(1) + g.asWord() + g.gap(1) + alias
	}
	if g.r.P(40) {
		spec = g.gap(0) + spec + g.gap(0)
	}
	g.step("table specification %q", spec)
	c.seen("t", spec)
	c11TableAccepted(c, g, spec, name, alias)
	c.count("tables accepted")
}

func c11TableAccepted(c *Case, g *gctx, spec, name, alias string) {
	tn := query.TableName(spec)
	var ts []query.TableIdent
	p, err := query.TableOrError(spec)
	c.check(err == nil && p != nil, "TableOrError(%q): %v", spec, err)
	ts = append(ts, *p)
	p, err = query.TableOrError(tn)
	c.check(err == nil && p != nil, "TableOrError(TableName(%q)): %v", spec, err)
	ts = append(ts, *p, query.Table(spec), query.Table(tn), tn.Ident(), query.Table(query.Table(spec)))
	p, err = query.TableOrError(ts[0])
	c.check(err == nil && p != nil, "TableOrError of a parsed table: %v", err)
	ts = append(ts, *p)
	if alias != "" {
		ts = append(ts, query.Table(name).As(query.TableName(alias)), query.Table(spec).As("other").As(query.TableName(alias)))
	}
	ts = append(ts, query.Table(ts[0].RenderFrom()))
	for _, t := range ts {
		checkTable(c, "table "+spec, t, name, alias)
	}
	t := ts[g.r.N(len(ts))]
	// changing a copy
	a2 := g.newName("al")
	checkTable(c, "table with another alias", t.As(query.TableName(a2)), name, a2)
	checkTable(c, "table with alias equal to its name", t.As(query.TableName(name)), name, "")
	checkTable(c, "original table", t, name, alias)
	// a table passed on with what was set on it is not parsed again
	checkTable(c, "parsed table", query.Table(t.As(query.TableName(a2))), name, a2)
	ref := name
	if alias != "" && alias != name {
		ref = alias
	}
	f := t.Field("fld")
	c.check(string(f.TableName()) == ref && f.FieldName() == "fld", "field of table %q is %q", spec, f.RenderSpec())
	if !plainWord(strings.Replace(name, ".", "", 1)) || alias != "" && !plainWord(alias) || strings.Contains(name, ".") && !plainWord(strings.Split(name, ".")[0]) {
		return
	}
	// sources of statements
	wantRef := normTable(TableRef{name, alias})
	type fr interface {
		RenderFrom() string
		RenderSQL() string
		TableName() query.TableName
	}
	var f1 fr
	switch g.r.N(9) {
	case 0:
		f1 = query.SelectFrom(spec)
	case 1:
		f1 = query.SelectManyFrom(spec)
	case 2:
		f1 = query.SelectSingleFrom(spec)
	case 3:
		f1 = query.SelectFrom(tn)
	case 4:
		f1 = query.SelectManyFrom(t)
	case 5:
		f1 = query.SelectSingleFrom(t)
	case 6:
		f1 = tn.Select()
	case 7:
		f1 = tn.SelectMany()
	default:
		f1 = t.SelectOne()
	}
	st, err := parseStmt(f1.RenderSQL())
	c.check(err == nil && st.From == wantRef, "table specification %q in %q: %v", spec, f1.RenderSQL(), err)
	c.check(string(f1.TableName()) == name, "table name of a SELECT from %q is %q", spec, f1.TableName())
	lf, rf := query.Field("zz.a"), query.Field("yy.b")
	var j fr
	switch g.r.N(5) {
	case 0:
		j = query.SelectFrom("zz").Join(t, query.LeftJoin).On(lf, rf)
	case 1:
		j = query.SelectManyFrom("zz").Join(tn, query.LeftJoin).On(lf, rf)
	case 2:
		j = query.SelectSingleFrom("zz").Join(tn, query.LeftJoin).On(lf, rf)
	case 3:
		j = query.TableName("zz").LeftJoin(t).On(lf, rf)
	default:
		j = query.LeftJoin.Tables(query.Table("zz"), t).On(lf, rf)
	}
	st, err = parseStmt(j.RenderSQL())
	c.check(err == nil && len(st.Joins) == 1 && st.Joins[0].Table == wantRef, "joined table specification %q in %q: %v", spec, j.RenderSQL(), err)
	if g.r.P(30) {
		nt := query.NewTableJoiner(t, query.InnerJoin, query.JoinFields(lf, rf)).RenderFrom()
		st, err = parseStmt("SELECT * FROM zz " + nt)
		c.check(err == nil && len(st.Joins) == 1 && st.Joins[0].Table == wantRef, "joiner of table %q: %q: %v", spec, nt, err)
	}
	// write statements made from a parsed table address it by name
	upd, _, err := t.Update(query.FieldName("x").Value(1)).Where(query.IsNull("y")).BuildQueryAndParams()
	c.check(err == nil, "UPDATE of table %q: %v", spec, err)
	st, err = parseStmt(upd)
	c.check(err == nil && st.From.Name == name, "UPDATE of table %q: %q", spec, upd)
}

func mustFail(c *Case, what string, f func()) {
	p := panics(f)
	c.check(p != nil, "%s does not panic", what)
	rt, crashed := p.(runtime.Error)
	c.check(!crashed, "%s crashes instead of being refused: %v", what, rt)
}

func (g *gctx) badTable() string {
	switch g.r.N(6) {
	case 0:
		return ""
	case 1:
		return g.gap(1)
	case 2: // three words without AS
		return g.specWord() + g.gap(1) + pick(g.r, "ass", "a", "s", "TO", "=", "A.S", "as.", "IS", "ASAS", "азс") + g.gap(1) + g.specWord()
	case 3: // too many words
		return g.specWord() + g.gap(1) + g.asWord() + g.gap(1) + g.specWord() + g.gap(1) + g.specWord() + g.gap(0)
	case 4:
		return g.specWord() + g.gap(1) + g.specWord() + g.gap(1) + g.asWord() + g.gap(1) + g.specWord()
	default:
		w := []string{}
		for n := g.r.Between(4, 9); n > 0; n-- {
			w = append(w, g.specWord())
		}
		return strings.Join(w, g.gap(1))
	}
}

func c11BadTable(c *Case, g *gctx) {
	spec := g.badTable()
	g.step("malformed table specification %q", spec)
	c.seen("bt", spec)
	c11TableRefused(c, g, spec)
	c.count("tables refused")
}

func c11TableRefused(c *Case, g *gctx, spec string) {
	tn := query.TableName(spec)
	p, err := query.TableOrError(spec)
	c.check(err != nil && p == nil, "malformed table specification %q is accepted as %+v", spec, p)
	c.check(errors.Is(err, query.Error), "error for table specification %q does not match the package's Error: %v", spec, err)
	p, err = query.TableOrError(tn)
	c.check(err != nil && p == nil && errors.Is(err, query.Error), "malformed table specification %q is accepted as %+v (%v)", spec, p, err)
	mustFail(c, fmt.Sprintf("Table(%q)", spec), func() { query.Table(spec) })
	mustFail(c, fmt.Sprintf("TableName(%q).Ident", spec), func() { tn.Ident() })
	switch g.r.N(6) {
	case 0:
		mustFail(c, fmt.Sprintf("SelectFrom(%q)", spec), func() { query.SelectFrom(spec) })
	case 1:
		mustFail(c, fmt.Sprintf("SelectManyFrom(%q)", spec), func() { query.SelectManyFrom(tn) })
	case 2:
		mustFail(c, fmt.Sprintf("SelectSingleFrom(%q)", spec), func() { query.SelectSingleFrom(spec) })
	case 3:
		mustFail(c, fmt.Sprintf("TableName(%q).Select", spec), func() { tn.Select() })
	case 4:
		mustFail(c, fmt.Sprintf("SelectMany.LeftJoin(%q)", spec), func() { query.SelectManyFrom("t").LeftJoin(tn) })
	default:
		mustFail(c, fmt.Sprintf("SelectSingle.InnerJoin(%q)", spec), func() { query.SelectSingleFrom("t").InnerJoin(tn) })
	}
}

// ---------------------------------------------------------------- fields

func checkField(c *Case, what string, f query.FieldDefinition, it FieldItem) {
	got := FieldItem{Col{string(f.TableName()), string(f.FieldName())}, string(f.Alias())}
	c.check(got.Col == it.Col && got.Alias == it.Alias, "%s: parsed as %+v, want %+v", what, got, it)
	col := it.Col.String()
	spec, ref := col, col
	if it.Alias != "" && (it.Alias != it.Name || it.Table != "") {
		spec += " AS " + it.Alias
	}
	if it.Alias != "" && it.Alias != it.Name {
		ref = it.Alias
	}
	c.check(f.RenderSpec() == spec, "%s: renders %q in a field list, want %q", what, f.RenderSpec(), spec)
	c.check(f.RenderField() == ref, "%s: renders %q in a reference, want %q", what, f.RenderField(), ref)
	if it.Table != "" {
		c.check(f.RenderTableSpec() == col, "%s: renders %q table-qualified, want %q", what, f.RenderTableSpec(), col)
		c.check(string(f.TableFieldName()) == col, "%s: table field name is %q, want %q", what, f.TableFieldName(), col)
	}
}

// fieldUses are all ways of naming a field by its specification, other than the
// plain constructors.
var fieldUses = []struct {
	name string
	use  func(fn query.FieldName) string // gives the '?' text; column first
}{
	{"EqualTo", func(fn query.FieldName) string { return query.EqualTo(fn, 1).RenderSQL() }},
	{".EqualTo", func(fn query.FieldName) string { return fn.EqualTo(1).RenderSQL() }},
	{"GreaterThan", func(fn query.FieldName) string { return query.GreaterThan(fn, 1).RenderSQL() }},
	{"GreaterOrEqual", func(fn query.FieldName) string { return query.GreaterOrEqual(fn, 1).RenderSQL() }},
	{"Less", func(fn query.FieldName) string { return query.Less(fn, 1).RenderSQL() }},
	{"LessOrEqual", func(fn query.FieldName) string { return query.LessOrEqual(fn, 1).RenderSQL() }},
	{"Contains", func(fn query.FieldName) string { return query.Contains(fn, "x").RenderSQL() }},
	{".Contains", func(fn query.FieldName) string { return fn.Contains("x").RenderSQL() }},
	{"IContains", func(fn query.FieldName) string { return query.IContains(fn, "x").RenderSQL() }},
	{".IContains", func(fn query.FieldName) string { return fn.IContains("x").RenderSQL() }},
	{"In", func(fn query.FieldName) string { return query.In(fn, []int{1, 2}).RenderSQL() }},
	{".In", func(fn query.FieldName) string { return fn.In([]string{"1"}).RenderSQL() }},
	{"IsNull", func(fn query.FieldName) string { return query.IsNull(fn).RenderSQL() }},
	{".IsNull", func(fn query.FieldName) string { return fn.IsNull().RenderSQL() }},
}

func c11Field(c *Case, g *gctx) {
	it := FieldItem{Col: Col{"", g.specWord()}}
	if g.r.P(45) {
		it.Table = g.specWord()
		if g.r.P(10) {
			it.Table = pick(g.r, it.Name, g.related(it.Name))
		}
	}
	spec := it.Col.String()
	if g.r.P(45) {
		it.Alias = g.specWord()
		if g.r.P(15) {
			it.Alias = it.Name
		} else if g.r.P(20) {
			it.Alias = g.related(pick(g.r, it.Name, it.Name, it.Col.String()))
		}
		spec += g.gap(1) + g.asWord() + g.gap(1) + it.Alias
	}
	if g.r.P(40) {
		spec = g.gap(0) + spec + g.gap(0)
	}
	g.step("field specification %q", spec)
	c.seen("f", spec)
	c11FieldAccepted(c, g, spec, it)
	c.count("fields accepted")
}

func c11FieldAccepted(c *Case, g *gctx, spec string, it FieldItem) {
	fn := query.FieldName(spec)
	p, err := query.FieldOrError(spec)
	c.check(err == nil && p != nil, "FieldOrError(%q): %v", spec, err)
	fs := []query.FieldDefinition{*p}
	p, err = query.FieldOrError(fn)
	c.check(err == nil && p != nil, "FieldOrError(FieldName(%q)): %v", spec, err)
	fs = append(fs, *p, query.Field(spec), query.Field(fn), fn.Field(), query.Field(query.Field(spec)))
	p, err = query.FieldOrError(fs[0])
	c.check(err == nil && p != nil, "FieldOrError of a parsed field: %v", err)
	fs = append(fs, *p)
	fs = append(fs, query.NewFields(spec, fn, fs[0]).FieldDefinitions()...)
	for _, f := range fs {
		checkField(c, fmt.Sprintf("field %q", spec), f, it)
	}
	f := fs[g.r.N(len(fs))]
	// changed copies
	t2, a2 := g.newName("tt"), g.newName("aa")
	checkField(c, "field of another table", f.Of(query.TableName(t2)), FieldItem{Col{t2, it.Name}, it.Alias})
	checkField(c, "field with another alias", f.As(query.FieldName(a2)), FieldItem{it.Col, a2})
	checkField(c, "already parsed field", query.Field(f.Of(query.TableName(t2)).As(query.FieldName(a2))), FieldItem{Col{t2, it.Name}, a2})
	checkField(c, "field of a table", query.TableName(t2).Field(fn), FieldItem{Col{t2, it.Name}, it.Alias})
	checkField(c, "field of a table", query.Table(t2).Field(fn), FieldItem{Col{t2, it.Name}, it.Alias})
	checkField(c, "original field", f, it)
	back := it
	if back.Table == "" && back.Alias == back.Name {
		back.Alias = ""
	}
	checkField(c, "field parsed from what it renders", query.Field(f.RenderSpec()), back)
	// set-values
	for _, v := range []query.FieldValue{fn.Value(1), *query.NewFieldValue(fn, 1), f.Value(1)} {
		c.check(string(v.FieldName()) == it.Name && string(v.TableName()) == it.Table, "value of field %q is for %q.%q", spec, v.TableName(), v.FieldName())
	}
	// conditions name the column without alias
	col := it.Col.String()
	u := fieldUses[g.r.N(len(fieldUses))]
	sql := u.use(fn)
	rest, ok := strings.CutPrefix(sql, col)
	c.check(ok && (rest == "" || strings.ContainsAny(rest[:1], " =<>")), "condition %s on field %q renders %q, column is %q", u.name, spec, sql, col)
	// join conditions
	if it.Table != "" {
		j := query.JoinFields(f, query.Field("o.k")).Render()
		c.check(strings.ReplaceAll(j, " ", "") == strings.ReplaceAll(col, " ", "")+"=o.k", "join condition on field %q renders %q", spec, j)
		j = query.JoinFields(query.Field("o.k"), f).Render()
		c.check(strings.ReplaceAll(j, " ", "") == "o.k="+strings.ReplaceAll(col, " ", ""), "join condition on field %q renders %q", spec, j)
	}
	// ordering keeps the reference
	s := query.ASC(query.FieldName("q")).ApplyFieldSpec(query.Field("q").Of("z"))
	c.check(s.Render() == "z.q ASC", "ordering by z.q renders %q", s.Render())
	cnt, _, err := query.Count(query.SelectFrom("tt"), fn).BuildQueryAndParams()
	c.check(err == nil && strings.Contains(cnt, "("+col+")"), "COUNT of field %q: %q", spec, cnt)
	if plainWord(it.Name) && (it.Table == "" || plainWord(it.Table)) && (it.Alias == "" || plainWord(it.Alias)) {
		var sql string
		switch g.r.N(3) {
		case 0:
			sql = query.SelectFrom("zz").Fields(query.Field("k1"), f, query.Field("k2")).RenderSQL()
		case 1:
			sql = query.SelectManyFrom("zz").Fields(query.Field("k1"), f, query.Field("k2")).RenderSQL()
		default:
			sql = query.SelectSingleFrom("zz").Fields(query.Field("k1"), f, query.Field("k2")).RenderSQL()
		}
		st, err := parseStmt(sql)
		c.check(err == nil && len(st.Fields) == 3 && normAlias(st.Fields[1]) == normAlias(it), "field %q selected: %q: %v", spec, sql, err)
	}
}

func (g *gctx) badField() string {
	w := func() string {
		// a word with wrong dots
		a, b, c := g.specWord(), g.specWord(), g.specWord()
		return pick(g.r, a+"."+b+"."+c, "."+b, a+".", ".", "..", a+".."+b, "."+a+".", a+"."+b+".", "."+a+"."+b, a+"."+b+"."+c+"."+a)
	}
	switch g.r.N(9) {
	case 0:
		return ""
	case 1:
		return g.gap(1)
	case 2:
		return g.specWord() + g.gap(1) + g.specWord()
	case 3:
		return g.specWord() + g.gap(1) + pick(g.r, "ass", "a", "s", "TO", "=", "A.S", "as.", "IS", "ASAS") + g.gap(1) + g.specWord()
	case 4:
		return g.specWord() + g.gap(1) + g.asWord() + g.gap(1) + g.specWord() + g.gap(1) + g.specWord()
	case 5, 6:
		return g.gap(0) + w() + g.gap(0)
	case 7:
		return w() + g.gap(1) + g.asWord() + g.gap(1) + g.specWord()
	default:
		return g.specWord() + g.gap(1) + g.specWord() + g.gap(1) + g.asWord() + g.gap(1) + g.specWord()
	}
}

func c11BadField(c *Case, g *gctx) {
	spec := g.badField()
	g.step("malformed field specification %q", spec)
	c.seen("bf", spec)
	c11FieldRefused(c, g, spec)
	c.count("fields refused")
}

func c11FieldRefused(c *Case, g *gctx, spec string) {
	fn := query.FieldName(spec)
	p, err := query.FieldOrError(spec)
	c.check(err != nil && p == nil, "malformed field specification %q is accepted as %+v", spec, p)
	c.check(errors.Is(err, query.Error), "error for field specification %q does not match the package's Error: %v", spec, err)
	p, err = query.FieldOrError(fn)
	c.check(err != nil && p == nil && errors.Is(err, query.Error), "malformed field specification %q is accepted as %+v (%v)", spec, p, err)
	mustFail(c, fmt.Sprintf("Field(%q)", spec), func() { query.Field(spec) })
	mustFail(c, fmt.Sprintf("FieldName(%q).Field", spec), func() { fn.Field() })
	switch g.r.N(7) {
	case 0:
		odd := pick(g.r, any(1), any(nil), any(2.5), any([]byte("f")), any([]string{"f"}), any(struct{}{}), any(true))
		mustFail(c, fmt.Sprintf("NewFields(%#v)", odd), func() { query.NewFields("ok", odd) })
		mustFail(c, fmt.Sprintf("NewFields(%q)", spec), func() { query.NewFields("ok", spec) })
	case 1:
		mustFail(c, fmt.Sprintf("NewFields(FieldName(%q))", spec), func() { query.NewFields(fn) })
	case 2:
		mustFail(c, fmt.Sprintf("NewFieldValue(%q)", spec), func() { query.NewFieldValue(fn, 1) })
	case 3:
		mustFail(c, fmt.Sprintf("FieldName(%q).Value", spec), func() { fn.Value(1) })
	case 4:
		mustFail(c, fmt.Sprintf("TableName.Field(%q)", spec), func() { query.TableName("t").Field(fn) })
	case 5:
		mustFail(c, fmt.Sprintf("Count(%q)", spec), func() { query.Count(query.SelectFrom("t"), fn) })
	default:
		u := fieldUses[g.r.N(len(fieldUses))]
		mustFail(c, fmt.Sprintf("condition %s(%q)", u.name, spec), func() { u.use(fn) })
	}
}

// c11Any: random text; the harness's own reading decides.
func c11Any(c *Case, g *gctx) {
	alphabet := []string{"a", "b", "AS", "as", ".", " ", " ", "\t", "x1", "é"}
	var b strings.Builder
	for n := g.r.Between(0, 12); n > 0; n-- {
		b.WriteString(pick(g.r, alphabet...))
	}
	spec := b.String()
	g.step("random specification %q", spec)
	c.seen("a", spec)
	words := strings.FieldsFunc(spec, func(r rune) bool { return strings.ContainsRune(asciiSpaces, r) })
	for i, w := range words {
		if strings.EqualFold(w, "as") && !(i == 1 && len(words) == 3) {
			c.trivial = true
			return // AS in an odd place: open
		}
	}
	isAs := len(words) == 3 && strings.EqualFold(words[1], "as")
	switch {
	case len(words) == 1:
		c11TableAccepted(c, g, spec, words[0], "")
	case len(words) == 2:
		c11TableAccepted(c, g, spec, words[0], words[1])
	case isAs:
		c11TableAccepted(c, g, spec, words[0], words[2])
	default:
		c11TableRefused(c, g, spec)
	}
	if isAs && strings.Contains(words[2], ".") {
		return // alias with dots: open
	}
	if len(words) == 1 || isAs {
		col, ok := splitCol(words[0])
		if !ok {
			c11FieldRefused(c, g, spec)
			return
		}
		it := FieldItem{Col: col}
		if isAs {
			it.Alias = words[2]
		}
		c11FieldAccepted(c, g, spec, it)
		return
	}
	c11FieldRefused(c, g, spec)
}

// ---------------------------------------------------------------- C14

var unicodeSpaces = []string{" ", "\t", "\n", "\r", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2003", "\u2009", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"}

func (g *gctx) plainPart() string {
	letters := []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
	more := []rune("абвЯéñßñ漢字0123456789")
	n := g.r.Size(8, 60) + 1
	b := make([]rune, n)
	for i := range b {
		b[i] = letters[g.r.N(len(letters))]
		if i > 0 && g.r.P(25) {
			b[i] = more[g.r.N(len(more))]
		}
	}
	return string(b)
}

func (g *gctx) goodName() string {
	n := g.plainPart()
	if g.r.P(30) {
		n += "." + g.plainPart()
	}
	return n
}

func (g *gctx) badName() (string, string) {
	n := g.goodName()
	insert := func(s string) string {
		rs := []rune(n)
		i := g.r.N(len(rs) + 1)
		return string(rs[:i]) + s + string(rs[i:])
	}
	switch g.r.N(10) {
	case 0:
		return "", "empty"
	case 8:
		if g.r.P(25) {
			return pick(g.r, "$1", "$2", "$0", fmt.Sprint("$", g.r.N(1000)), "$9.a", "$3x"), "placeholder"
		}
		return insert(pick(g.r, "`", "\\", "#", "?", "*/")), "character of a quote, comment or placeholder"
	case 1, 2:
		return insert(pick(g.r, unicodeSpaces...)), "white space"
	case 3:
		return insert(pick(g.r, "'", "\"")), "quote"
	case 4:
		a := g.plainPart() + "." + g.plainPart() + "." + g.plainPart()
		if g.r.P(30) {
			last := pick(g.r, "*", "id", "ID", "0", "a", "count", n, n[:1])
			return pick(g.r, g.plainPart()+"."+g.plainPart()+"."+last, g.plainPart()+".."+last, last+"."+g.plainPart()+"."+g.plainPart()), "more than one dot"
		}
		return pick(g.r, a, g.plainPart()+".."+g.plainPart(), a+"."+g.plainPart()), "more than one dot"
	case 5:
		return pick(g.r, "."+g.plainPart(), "."), "leading dot"
	case 6:
		return g.plainPart() + ".", "trailing dot"
	case 7:
		return insert(pick(g.r, ";", ",", "(", ")", "--", "/*")), "clause-ending character"
	default:
		return insert(string(rune(pick(g.r, 0, 1, 7, 8, 27, 31, 127)))), "control character"
	}
}

func mustReject(n string) string {
	switch {
	case n == "":
		return "empty"
	case strings.ContainsFunc(n, unicode.IsSpace):
		return "white space"
	case strings.ContainsAny(n, "'\""):
		return "quote"
	case strings.Count(n, ".") > 1:
		return "more than one dot"
	case strings.HasPrefix(n, "."), strings.HasSuffix(n, "."):
		return "leading or trailing dot"
	case strings.ContainsAny(n, ";,()"), strings.Contains(n, "--"), strings.Contains(n, "/*"):
		return "clause-ending character"
	case strings.ContainsAny(n, "`\\#?"), strings.Contains(n, "*/"):
		return "character of a quote, comment or placeholder"
	case len(n) > 1 && n[0] == '$' && n[1] >= '0' && n[1] <= '9':
		return "placeholder"
	case strings.ContainsFunc(n, unicode.IsControl):
		return "control character"
	}
	return ""
}

func runC14(c *Case) {
	g := c.ctx()
	switch c.r.N(10) {
	case 0, 1, 2:
		n := g.goodName()
		g.step("name %q", n)
		c.seen(n)
		err := query.FieldName(n).Validate()
		c.check(err == nil, "plain name %q is rejected: %v", n, err)
		c14Accepted(c, g, n)
		c.count("names accepted")
	case 3, 4, 5:
		n, why := g.badName()
		g.step("name %q (%s)", n, why)
		c.seen(n)
		c14Rejected(c, g, n, why)
		c.count("names rejected: " + why)
	case 6:
		c14Map(c, g)
	case 7:
		dir := query.SortDirection(pick(g.r, "", "asc", "desc", "ASC ", " DESC", "ASCENDING", "Asc", "DESC; DROP", "random", "1", "ASC,", "DESC NULLS LAST"))
		n := g.goodName()
		g.step("direction %q of %q", dir, n)
		c.seen(string(dir), n)
		mustFail(c, fmt.Sprintf("OrderBy(%q, %q)", n, dir), func() { query.OrderBy(query.FieldName(n), dir) })
		c.count("directions refused")
	default:
		// random text
		alphabet := []string{"a", "b", "_", ".", "'", "\"", " ", "\t", ";", ",", "(", ")", "-", "/", "*", "0", "й", "$", "?", "\\", "`", "#", "=", "<", "\x00", "\u00a0", "\u200b", "\xff", "@", ":", "+", "|", "%", "[", "]", "{", "}", "~", "^", "&", "!"}
		var b strings.Builder
		for k := g.r.Between(0, 7); k > 0; k-- {
			if g.r.P(45) {
				b.WriteString(g.plainPart())
			} else {
				b.WriteString(pick(g.r, alphabet...))
			}
		}
		n := b.String()
		g.step("name %q", n)
		c.seen(n)
		if why := mustReject(n); why != "" {
			c14Rejected(c, g, n, why)
			c.count("random names rejected")
			return
		}
		if err := query.FieldName(n).Validate(); err != nil {
			c.check(errors.Is(err, query.Error), "rejection of %q does not match the package's Error: %v", n, err)
			c14Refused(c, g, n)
			c.count("unusual names rejected")
			return
		}
		c14Accepted(c, g, n)
		c.count("unusual names accepted")
	}
}

func c14Rejected(c *Case, g *gctx, n, why string) {
	err := query.FieldName(n).Validate()
	c.check(err != nil, "name %q (%s) passes validation", n, why)
	c.check(errors.Is(err, query.Error), "rejection of %q does not match the package's Error: %v", n, err)
	c14Refused(c, g, n)
}

// c14Refused: ordering and values maps refuse what validation rejects.
func c14Refused(c *Case, g *gctx, n string) {
	fn := query.FieldName(n)
	mustFail(c, fmt.Sprintf("ASC(%q)", n), func() { query.ASC(fn) })
	mustFail(c, fmt.Sprintf("DESC(%q)", n), func() { query.DESC(fn) })
	mustFail(c, fmt.Sprintf("OrderBy(%q)", n), func() { query.OrderBy(fn) })
	mustFail(c, fmt.Sprintf("OrderBy(%q, ASC)", n), func() { query.OrderBy(fn, query.Ascending) })
	mustFail(c, fmt.Sprintf("OrderBy(%q, DESC)", n), func() { query.OrderBy(fn, query.Descending) })
	m := query.ValuesMap{n: 1}
	for k := g.r.N(12); k > 0; k-- {
		m[g.newName("k")] = k
	}
	fv, err := m.FieldValues()
	c.check(err != nil, "values map with key %q is accepted", n)
	c.check(len(fv) == 0, "values map with key %q fails but returns %d values", n, len(fv))
	c.check(errors.Is(err, query.Error), "refusal of values map key %q does not match the package's Error: %v", n, err)
}

func c14Accepted(c *Case, g *gctx, n string) {
	fn := query.FieldName(n)
	bare := n
	if i := strings.IndexByte(n, '.'); i >= 0 {
		bare = n[i+1:]
	}
	f := fn.Field()
	c.check(f.RenderSpec() == n, "valid name %q renders %q in a field list", n, f.RenderSpec())
	c.check(f.RenderField() == n, "valid name %q renders %q in a reference", n, f.RenderField())
	p, err := query.FieldOrError(n)
	c.check(err == nil && p.RenderSpec() == n, "valid name %q: FieldOrError gives %v %v", n, p, err)
	c.check(query.NewFields(fn).FieldList() == n, "valid name %q in a field list: %q", n, query.NewFields(fn).FieldList())
	for _, u := range fieldUses {
		sql := u.use(fn)
		rest, ok := strings.CutPrefix(sql, n)
		c.check(ok && rest != "" && strings.ContainsAny(rest[:1], " =<>"), "valid name %q in condition %s: %q", n, u.name, sql)
	}
	for _, s := range []query.FieldSorting{query.ASC(fn), query.OrderBy(fn), query.OrderBy(fn, query.Ascending)} {
		c.check(s.Render() == n+" ASC" && s.Direction() == query.Ascending, "valid name %q ordered ascending: %q", n, s.Render())
	}
	for _, s := range []query.FieldSorting{query.DESC(fn), query.OrderBy(fn, query.Descending)} {
		c.check(s.Render() == n+" DESC" && s.Direction() == query.Descending, "valid name %q ordered descending: %q", n, s.Render())
	}
	sql, _, err := query.SelectManyFrom("t").Fields(f).Where(fn.IsNull()).OrderBy(query.DESC(fn)).BuildQueryAndParams()
	c.check(err == nil && strings.Contains(sql, " ORDER BY "+n+" DESC"), "valid name %q in ORDER BY: %q", n, sql)
	for _, v := range []query.FieldValue{fn.Value(1), *query.NewFieldValue(fn, 1), f.Value(1)} {
		sql, params, err := query.InsertInto("t").Values(v).BuildQueryAndParams()
		c.check(err == nil && len(params) == 1 && strings.Contains(sql, "("+bare+")"), "valid name %q in INSERT: %q %v", n, sql, err)
		sql, params, err = query.Update("t").Set(v).Where(fn.EqualTo(2)).BuildQueryAndParams()
		c.check(err == nil && len(params) == 2 && strings.Contains(sql, "SET "+bare) && strings.Contains(sql, "WHERE "+n), "valid name %q in UPDATE: %q %v", n, sql, err)
	}
	sql, _, err = query.Count(query.SelectFrom("t"), fn).BuildQueryAndParams()
	c.check(err == nil && strings.Contains(sql, "("+n+")"), "valid name %q counted: %q", n, sql)
	fv, err := query.ValuesMap{n: 5}.FieldValues()
	c.check(err == nil && len(fv) == 1 && string(fv[0].FieldName()) == bare, "valid name %q as values map key: %v %v", n, fv, err)
}

func c14Map(c *Case, g *gctx) {
	m := query.ValuesMap{}
	bad := ""
	for k := g.r.Size(6, 60); k > 0; k-- {
		m[g.goodName()] = k
	}
	for k := g.r.N(3); k > 0; k-- {
		var why string
		bad, why = g.badName()
		m[bad] = nil
		g.step("key %q (%s)", bad, why)
		bad = fmt.Sprintf("%q", bad)
	}
	g.step("map of %d keys", len(m))
	fv, err := m.FieldValues()
	if bad == "" {
		c.check(err == nil && len(fv) == len(m), "values map of %d valid names: %d values, %v", len(m), len(fv), err)
	} else {
		c.check(err != nil && len(fv) == 0 && errors.Is(err, query.Error), "values map of %d keys with invalid name %s: %d values, %v", len(m), bad, len(fv), err)
	}
	c.seen(bad, fmt.Sprint(len(m)))
	c.count("values maps")
}

// ---------------------------------------------------------------- C18

// colliding are pairs of names with the same value of some usual hash or checksum.
var colliding = []string{
	"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", // times 31
	"costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "altarages", "zinkes", // FNV-1a, FNV-1
	"creamwove", "quists", "hetairas", "mentioner", "heliotropes", "neurospora", "depravement", "serafins", "stylist", "subgenera", // djb2
	"codding", "gnu", "exhibiters", "schlager", "plumless", "buckeroo", // CRC-32
	"ab_c", "a_bc", "bac_", "cab_", "ad", "bc", "stop", "pots", "tops", "abc", "acb", // sums and products of letters
}

func runC18(c *Case) {
	r := c.r
	n := r.Size(12, 400)
	if r.P(1) {
		n = 2000
	}
	kinds := r.Between(1, n+1)
	thousands := r.N(8000) == 0
	if thousands {
		n = r.Between(5000, 10000)
		kinds = r.Between(n/2, n-5)
		c.count("thousands of names")
	}
	in := make([]query.FieldName, n, n+r.N(5))
	variants := []string{"id", "ID", "Id", " id", "id ", "", " ", "i d", "t.id", "id.", "\t", "ид", "id\x00", "naïve", "nai\u0308ve", "\xff"}
	short, alphabet, collide := r.P(2), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", r.P(5)
	long, at, stem := 0, 0, strings.Repeat("abcd_efg", 51)
	if r.P(6) {
		long = r.Size(80, 400) + 1
		at = pick(r, 0, long-1, long/2, r.N(long))
	}
	if short { // most short names at once
		n = r.Between(300, 1500)
		in = make([]query.FieldName, n)
	}
	for i := range in {
		if short {
			name := make([]byte, r.Between(1, 3))
			for k := range name {
				name[k] = alphabet[r.N(len(alphabet))]
			}
			in[i] = query.FieldName(name)
		} else if collide {
			in[i] = query.FieldName(pick(r, colliding...))
			if r.P(30) {
				in[i] += query.FieldName(fmt.Sprint("_", r.N(3)))
			}
		} else if long > 0 { // differ in one place only
			name := []byte(stem[:long])
			name[at] = alphabet[r.N(3)]
			in[i] = query.FieldName(name)
		} else if thousands {
			in[i] = query.FieldName(fmt.Sprint("f", i%kinds))
		} else if r.P(40) {
			in[i] = query.FieldName(pick(r, variants...))
		} else {
			in[i] = query.FieldName(fmt.Sprint("f", r.N(kinds)))
		}
	}
	if r.P(3) {
		in = nil
	}
	if n < 50 && r.P(20) { // the first names of a longer list
		in = append(make([]query.FieldName, 0, 2*len(in)+3), in...)
	}
	spare := in[len(in):cap(in)]
	for i := range spare {
		spare[i] = query.FieldName(fmt.Sprint("behind", i))
	}
	orig := append([]query.FieldName{}, in...)
	var want []query.FieldName
	seen := map[query.FieldName]bool{}
	for _, f := range in {
		if !seen[f] {
			seen[f] = true
			want = append(want, f)
		}
	}
	got := query.UniqFieldNames(in)
	c.tracef("input %q", in)
	c.tracef("result %q", got)
	c.check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want) || len(got) == 0 && len(want) == 0, "unique names of %q are %q, want %q", orig, got, want)
	same := func() bool {
		for i := range orig {
			if in[i] != orig[i] {
				return false
			}
		}
		for i := range spare {
			if spare[i] != query.FieldName(fmt.Sprint("behind", i)) {
				return false
			}
		}
		return true
	}
	c.check(same(), "input (or the list it is the beginning of) changed from %q to %q", orig, in)
	// no shared storage, spare capacity included
	full := got[:cap(got)]
	for i := range full {
		full[i] = "overwritten"
	}
	c.check(same(), "writing to the result changes the input to %q", in)
	got2 := query.UniqFieldNames(in)
	for i := range in {
		in[i] = "overwritten too"
	}
	c.check(len(got2) == len(want), "second result %q, want %q", got2, want)
	for i := range got2 {
		c.check(got2[i] == want[i], "writing to the input changes the result to %q", got2)
	}
	for _, f := range orig {
		c.seen(string(f))
	}
	c.trivial = len(want) == len(orig)
	c.max("length", n)
	c.max("distinct names", len(want))
	c.count("lists")
}
