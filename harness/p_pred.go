package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/amarin/query"
)

// ---------------------------------------------------------------- C03

func init() {
	register(&Prop{
		id: "C03", quick: 800000, thorough: 15000000,
		rule: "A case is a random composition of library and custom conditions (groups, method and function And/Or, Not/Negate, WithBrackets, Join, chains, empty groups, several Where calls) rendered alone in both dialects or inside SELECT/COUNT/UPDATE/DELETE; non-trivial with at least two elementary conditions; distinct by composed structure.",
		assumptions: []string{
			"SQL precedence NOT > AND > OR as implemented by the harness's parser",
			"equivalence is decided by the normal form of read-once formulas, or by truth table (at most 16 elementary conditions) and otherwise 20000 sampled assignments when a condition object occurs more than once",
			"a first list mixing AND and OR members means what its bare text means to SQL (AND binds tighter)",
			"not asserted: negated empty groups used as receivers; nil conditions; negating a condition that was only passed through And()/Or() with nothing to add",
		},
		run: runC03,
	})
	register(&Prop{
		id: "C13", quick: 800000, thorough: 10000000,
		rule: "A case retargets a random condition tree, WHERE clause, ordering or set-value with a sequence of table names and field specifications; non-trivial when at least one elementary condition (or the ordering/value) had to change; distinct by resulting text.",
		run:  runC13,
	})
	register(&Prop{
		id: "C15", quick: 600000, thorough: 12000000,
		rule: "A case is a random statement, WHERE clause or condition in which about half of the elementary conditions are of user-defined value, pointer or wrapping types recording every call; non-trivial when at least one of them is in the text; distinct by SQL text.",
		run:  runC15,
	})
}

func checkPred(c *Case, what string, want *Pred, sql string, params []any, numbered bool, base int) {
	if want == nil {
		c.check(strings.TrimSpace(sql) == "", "%s: nothing was composed but it renders %q", what, sql)
		return
	}
	n, ph, err := parsePredicate(sql)
	c.check(err == nil, "%s: %q cannot be read as a predicate: %v", what, sql, err)
	st := &Stmt{Where: n, PH: make([]int, len(ph)), Offset: -1, Limit: -1}
	for i := range ph {
		st.PH[i] = i + 1
		if numbered {
			st.PH[i] = ph[i] - base
		}
	}
	err = resolvePH(st)
	c.check(err == nil, "%s: %v in %q", what, err, sql)
	d, err := diffWhere(want, st.Where, params)
	if err != nil {
		panic(err)
	}
	c.check(d == "", "%s: %s; SQL: %q", what, d, sql)
}

func runC03(c *Case) {
	g := c.bigCtx()
	g.reuse = c.r.P(12)
	var pred *Pred
	switch k := c.r.N(10); {
	case k < 5:
		m := g.cond(c.r.Size(3, 6))
		pred = m.full()
		g.step("condition %s", m.src)
		base := pick(c.r, 0, 0, 3, 11)
		vals := m.obj.Values()
		sql := m.obj.Render(base)
		c.tracef("Render(%d): %s  %s", base, sql, descValues(vals))
		checkPred(c, "condition", pred, sql, vals, true, base)
		sql = m.obj.RenderSQL()
		c.tracef("RenderSQL(): %s", sql)
		checkPred(c, "condition ('?')", pred, sql, vals, false, 0)
	case k < 7:
		w, p := g.whereClause(c.r.Size(2, 5))
		pred = p
		vals := w.Values()
		sql := w.Render(0)
		c.tracef("Render(0): %s  %s", sql, descValues(vals))
		checkPred(c, "WHERE clause", pred, sql, vals, true, 0)
		checkPred(c, "WHERE clause ('?')", pred, w.RenderSQL(), vals, false, 0)
	default:
		b := g.statement(pick(g.r, "SELECT", "SELECT", "COUNT", "UPDATE", "DELETE"))
		pred = b.where
		sql, params, ok := c.mustBuild(b)
		if !ok {
			c.trivial = true
			return
		}
		s, err := parseStmt(sql)
		c.check(err == nil, "statement cannot be read: %v: %q", err, sql)
		err = resolvePH(s)
		c.check(err == nil, "%v in %q", err, sql)
		d, err := diffWhere(pred, s.Where, params)
		if err != nil {
			panic(err)
		}
		c.check(d == "", "%s: %s; SQL: %q", b.kind, d, sql)
	}
	c.seen(pred.shape())
	n := len(pred.leaves())
	if n < 2 {
		c.trivial = true
	}
	c.max("elementary conditions", n)
	c.max("depth", pred.depth())
	c.countN("elementary conditions compared", n)
}

// ---------------------------------------------------------------- C13

// retargetPred is the model's version of a predicate with columns changed.
func retargetPred(p *Pred, f func(l *MLeaf) Col) *Pred {
	if p == nil {
		return nil
	}
	n := *p
	if p.Leaf != nil {
		l := *p.Leaf
		l.Col = f(p.Leaf)
		n.Leaf = &l
	}
	n.Kids = nil
	for _, k := range p.Kids {
		n.Kids = append(n.Kids, retargetPred(k, f))
	}
	return &n
}

// bareColumns drops the table part of every word, so that only structure, names,
// operators and placeholders remain.
func bareColumns(sql string) string {
	toks, err := lexSQL(sql)
	if err != nil {
		return sql
	}
	var b strings.Builder
	for _, t := range toks {
		s := t.text
		if i := strings.LastIndex(s, "."); t.kind == tkWord && i >= 0 {
			s = s[i+1:]
		}
		b.WriteString(s)
		b.WriteByte(' ')
	}
	return b.String()
}

// nearName is a name which resembles another one but differs from it.
func nearName(r *Rng, name string) string {
	n := name
	switch r.N(8) {
	case 0:
		n = strings.ToUpper(name)
	case 1:
		n = strings.ToLower(name)
	case 2:
		n = strings.Title(name)
	case 3:
		n = name + "s"
	case 4:
		n = "x" + name
	case 5:
		n = name[:len(name)-1]
	case 6:
		n = name + "_"
	default:
		n = "_" + name
	}
	if n == "" || !utf8.ValidString(n) || reserved[strings.ToUpper(n)] {
		return name
	}
	return n
}

// someSpec draws a field specification, often naming one of the given columns.
func (g *gctx) someSpec(names []string) (query.FieldDefinition, FieldItem) {
	it := FieldItem{}
	if len(names) > 0 && g.r.P(85) {
		it.Name = pick(g.r, names...)
	} else {
		it.Name = g.newName("zz")
	}
	if g.r.P(15) {
		it.Name = nearName(g.r, it.Name)
	}
	if g.r.P(75) {
		it.Table = g.newName("nt")
		if g.r.P(20) {
			it.Table = pick(g.r, "t1", "t2", it.Name)
		}
	}
	if g.r.P(40) {
		it.Alias = g.newName("na")
		if len(names) > 0 && g.r.P(30) { // an alias which is the name of something else
			it.Alias = pick(g.r, names...)
		}
	}
	f := query.Field(it.Name)
	if it.Table != "" {
		f = f.Of(query.TableName(it.Table))
	}
	if it.Alias != "" {
		f = f.As(query.FieldName(it.Alias))
	}
	return f, it
}

func runC13(c *Case) {
	g := c.ctx()
	g.budget = c.r.Size(8, 30)
	g.customPct = 15
	if c.r.P(30) {
		g.customPct = 0
	}
	g.wraps = c.r.P(50)
	switch c.r.N(10) {
	case 0:
		c13Sorting(c, g)
	case 1:
		c13Value(c, g)
	case 2, 3:
		w, pred := g.whereClause(c.r.Size(2, 5))
		before := w.Render(0) + "|" + w.RenderSQL() + "|" + descValues(w.Values())
		cur, cw := pred, w
		for n := c.r.Between(1, 3); n > 0; n-- {
			f, it := g.someSpec(leafNames(cur))
			g.step("ApplyFieldSpec(%+v)", it)
			cw = cw.ApplyFieldSpec(f)
			cur = retargetPred(cur, specChange(c, it))
		}
		vals := cw.Values()
		c.check(sameValues(vals, w.Values()), "values changed: %s before, %s after", descValues(w.Values()), descValues(vals))
		c.check(bareColumns(cw.Render(0)) == bareColumns(w.Render(0)), "structure changed: %q before, %q after", w.Render(0), cw.Render(0))
		checkPred(c, "retargeted WHERE clause", cur, cw.Render(0), vals, true, 0)
		checkPred(c, "retargeted WHERE clause ('?')", cur, cw.RenderSQL(), vals, false, 0)
		after := w.Render(0) + "|" + w.RenderSQL() + "|" + descValues(w.Values())
		c.check(before == after, "original changed: %s before, %s after", before, after)
		c.seen(cw.RenderSQL())
		c.count("retargeted WHERE clauses")
	default:
		c13Condition(c, g)
	}
}

// c13Condition: a condition retargeted several times.
func c13Condition(c *Case, g *gctx) {
	m := g.cond(c.r.Size(3, 6))
	g.step("condition %s", m.src)
	before := m.obj.Render(0) + "|" + m.obj.RenderSQL() + "|" + descValues(m.obj.Values())
	cur, obj := m.full(), m.obj
	for n := c.r.Between(1, 3); n > 0; n-- {
		if g.r.P(50) {
			t := g.someTable(cur)
			g.step("ApplyFieldTable(%q)", t)
			obj = obj.ApplyFieldTable(query.TableName(t))
			cur = retargetPred(cur, func(l *MLeaf) Col {
				if l.Op == "fn" {
					return l.Col
				}
				c.count("elementary conditions retargeted by table")
				return Col{t, l.Col.Name}
			})
		} else {
			f, it := g.someSpec(leafNames(cur))
			g.step("ApplyFieldSpec(%+v)", it)
			obj = obj.ApplyFieldSpec(f)
			cur = retargetPred(cur, specChange(c, it))
		}
		if n > 1 && g.r.P(30) {
			// compose further between applications
			x := g.cond(1)
			if !x.empty() && cur != nil {
				g.step(".And(%s)", x.src)
				obj = obj.And(x.obj)
				cur = pFold("and", cur, x.full())
				before2 := m.obj.Render(0) + "|" + m.obj.RenderSQL() + "|" + descValues(m.obj.Values())
				c.check(before == before2, "original changed: %s before, %s after", before, before2)
				m = &MC{obj: obj, inner: cur}
				before = m.obj.Render(0) + "|" + m.obj.RenderSQL() + "|" + descValues(m.obj.Values())
			}
		}
	}
	vals := obj.Values()
	c.tracef("before: %s", m.obj.RenderSQL())
	c.tracef("after: %s", obj.RenderSQL())
	c.check(sameValues(vals, m.obj.Values()), "values changed: %s before, %s after", descValues(m.obj.Values()), descValues(vals))
	c.check(bareColumns(obj.Render(0)) == bareColumns(m.obj.Render(0)), "structure changed: %q before, %q after", m.obj.Render(0), obj.Render(0))
	c.check(obj.IsNegate() == m.obj.IsNegate() && obj.JoinType() == m.obj.JoinType(), "negation or join operator changed: %q before, %q after", m.obj.Render(0), obj.Render(0))
	checkPred(c, "retargeted condition", cur, obj.Render(0), vals, true, 0)
	checkPred(c, "retargeted condition ('?')", cur, obj.RenderSQL(), vals, false, 0)
	after := m.obj.Render(0) + "|" + m.obj.RenderSQL() + "|" + descValues(m.obj.Values())
	c.check(before == after, "original changed: %s before, %s after", before, after)
	if cur == nil || len(cur.leaves()) == 0 {
		c.trivial = true
	}
	c.seen(obj.RenderSQL())
	c.count("retargeted conditions")
}

// someTable draws a table to apply: mostly new, at times none, one in use already, or
// the name of a column.
func (g *gctx) someTable(p *Pred) string {
	switch {
	case g.r.P(6):
		return ""
	case g.r.P(10):
		for _, l := range p.leaves() {
			if l.Op != "fn" && l.Col.Table != "" {
				return l.Col.Table
			}
		}
	case g.r.P(6):
		if names := leafNames(p); len(names) > 0 {
			return pick(g.r, names...)
		}
	}
	return g.newName("nt")
}

func leafNames(p *Pred) (res []string) {
	for _, l := range p.leaves() {
		if l.Op != "fn" {
			res = append(res, l.Col.Name)
		}
	}
	return
}

func specChange(c *Case, it FieldItem) func(l *MLeaf) Col {
	return func(l *MLeaf) Col {
		if l.Op != "fn" && l.Col.Name == it.Name {
			c.count("elementary conditions retargeted by specification")
			return it.Col
		}
		return l.Col
	}
}

func c13Sorting(c *Case, g *gctx) {
	g.plainSort = true
	s, it := g.sorting()
	orig := s.Render()
	dir := s.Direction()
	col, _ := splitCol(it.Col)
	want := it.Col
	cur := s
	c.trivial = true
	for n := c.r.Between(1, 3); n > 0; n-- {
		names := []string{col.Name, col.Name, col.Name}
		for _, n := range []string{col.Table, string(cur.Alias()), string(cur.TableName())} {
			if n != "" {
				names = append(names, n)
			}
		}
		f, spec := g.someSpec(names)
		g.step("sorting %q ApplyFieldSpec(%+v)", cur.Render(), spec)
		cur = cur.ApplyFieldSpec(f)
		if spec.Name == col.Name {
			c.trivial = false
			want = spec.Col.String()
			if spec.Alias != "" && spec.Alias != spec.Name {
				want = spec.Alias
			}
		}
	}
	c.tracef("%s => %s", orig, cur.Render())
	c.check(cur.Render() == want+" "+string(dir), "sorting %q retargeted renders %q, want %q", orig, cur.Render(), want+" "+string(dir))
	c.check(cur.Direction() == dir, "direction changed from %s to %s", dir, cur.Direction())
	c.check(s.Render() == orig, "original sorting changed from %q to %q", orig, s.Render())
	// and inside a statement
	sql, _, err := query.SelectManyFrom("t").OrderBy(s, cur).BuildQueryAndParams()
	c.check(err == nil, "%v", err)
	st, err := parseStmt(sql)
	c.check(err == nil && len(st.Order) == 2 && st.Order[1] == OrderItem{want, string(dir)}, "ORDER BY of retargeted sorting: %q", sql)
	c.seen(cur.Render())
	c.count("retargeted sortings")
}

func c13Value(c *Case, g *gctx) {
	f, m := g.setPair()
	orig := fmt.Sprintf("%s.%s AS %s = %s", f.TableName(), f.FieldName(), f.Alias(), descValues(f.Values()))
	want := FieldItem{Col: Col{string(f.TableName()), m.Col}, Alias: string(f.Alias())}
	cur := f
	c.trivial = true
	spec0 := FieldItem{}
	for n := c.r.Between(1, 3); n > 0; n-- {
		if g.r.P(50) {
			t := g.someTable(nil)
			cur = cur.ApplyFieldTable(query.TableName(t))
			want.Table = t
			c.trivial = false
			continue
		}
		names := []string{m.Col, m.Col, m.Col}
		for _, n := range []string{want.Alias, want.Table, spec0.Name} {
			if n != "" {
				names = append(names, n)
			}
		}
		sf, spec := g.someSpec(names)
		spec0 = spec
		cur = cur.ApplyFieldSpec(sf)
		if spec.Name == m.Col {
			want = spec
			c.trivial = false
		}
	}
	got := FieldItem{Col: Col{string(cur.TableName()), string(cur.FieldName())}, Alias: string(cur.Alias())}
	c.tracef("%s => %+v", orig, got)
	c.check(got == want, "retargeted value is %+v, want %+v", got, want)
	c.check(sameValues(cur.Values(), f.Values()), "value changed from %s to %s", descValues(f.Values()), descValues(cur.Values()))
	now := fmt.Sprintf("%s.%s AS %s = %s", f.TableName(), f.FieldName(), f.Alias(), descValues(f.Values()))
	c.check(now == orig, "original value changed from %s to %s", orig, now)
	sql, params, err := query.InsertInto("t").Values(f, cur).BuildQueryAndParams()
	c.check(err == nil && len(params) == 2 && sameValue(params[0], params[1]), "INSERT of retargeted value: %q %s %v", sql, descValues(params), err)
	c.seen(fmt.Sprint(got))
	c.count("retargeted values")
}

// ---------------------------------------------------------------- C15

// c15Joins: one list of conditions, some of which write their join operator themselves.
func c15Joins(c *Case) {
	g := c.ctx()
	op, word := query.LogicalAND, "AND"
	if c.r.P(50) {
		op, word = query.LogicalOR, "OR"
	}
	n := c.r.Between(2, 7)
	var cs []query.Condition
	var want []string // text of conditions, as if rendered alone
	var joins []string
	var vals []any
	var subjects []joinMarked
	k := pick(c.r, 0, 0, 3, 11)
	for i := 0; i < n; i++ {
		if i != 0 && c.r.P(45) {
			name := g.newName("j")
			m := g.leafOf("=", name, Col{"", name}, "")
			cs, joins = append(cs, m.obj), append(joins, word)
		} else {
			m := joinMarked{cust: cust{newCustCore("fn", g.newName("fn"), "", nil, nil)}, mark: fmt.Sprintf("/* %d AND */", i), pad: c.r.P(30)}
			for j := c.r.N(4); j > 0; j-- {
				m.vals = append(m.vals, g.uniq())
			}
			joins = append(joins, word+m.mark)
			subjects = append(subjects, m)
			if c.r.P(50) {
				cs = append(cs, m)
			} else {
				cs = append(cs, &m)
			}
		}
		x := cs[len(cs)-1]
		want = append(want, x.Render(k+len(vals)), x.RenderSQL())
		vals = append(vals, x.Values()...)
	}
	var whole query.Condition
	how := c.r.N(4)
	first, rest := cs[0], cs[1:]
	switch {
	case n == 2 && how == 0 && op == query.LogicalAND:
		whole = query.And(first, rest...)
	case how == 0 && n == 2:
		whole = query.Or(first, rest...)
	case n == 2 && how == 1 && op == query.LogicalAND:
		whole = first.And(rest...)
	default:
		whole = query.NewGroup(op, cs...)
	}
	expect := func(raw int) string {
		var b strings.Builder
		for i := range cs {
			if i > 0 {
				b.WriteString(" " + joins[i] + " ")
			}
			b.WriteString(want[2*i+raw])
		}
		return squeezeSpace(b.String())
	}
	for raw, sql := range []string{whole.Render(k), whole.RenderSQL()} {
		c.tracef("list: %s", sql)
		got := squeezeSpace(sql)
		c.check(got == expect(raw), "list of conditions which write their join operators themselves is %q, want %q", got, expect(raw))
	}
	c.check(sameValues(whole.Values(), vals), "values of the list are %s, want %s", descValues(whole.Values()), descValues(vals))
	k = 0
	sql, params, err := query.SelectFrom("t").Where(cs...).BuildQueryAndParams()
	c.check(err == nil && sameValues(params, vals), "SELECT: %v %s", err, descValues(params))
	c.tracef("SELECT: %s", sql)
	for i, j := range joins {
		if i > 0 && j != word {
			c.check(strings.Contains(squeezeSpace(sql), " AND"+strings.TrimPrefix(j, word)+" "), "SELECT lost the join text AND%s of a condition: %q", strings.TrimPrefix(j, word), sql)
		}
	}
	c.seen(expect(0))
	c.countN("conditions writing their join operator", len(subjects))
}

// squeezeSpace drops brackets, which may be added freely around a list, and blanks.
func squeezeSpace(s string) string {
	return strings.Join(strings.Fields(strings.NewReplacer("(", "", ")", "").Replace(s)), " ")
}

// joinMarked is a user-defined condition that writes its join operator itself.
type joinMarked struct {
	cust
	mark string
	pad  bool // with spaces around, as some do
}

func (j joinMarked) RenderJoin(first bool) string {
	if first {
		return ""
	}
	if j.pad {
		return " " + string(j.JoinType()) + j.mark + " "
	}
	return string(j.JoinType()) + j.mark
}
func (j joinMarked) Join(t query.JoinType) query.Condition {
	j.BaseCondition = j.BaseCondition.Join(t)
	return j
}
func (j joinMarked) Negate(n bool) query.Condition {
	j.BaseCondition = j.BaseCondition.Negate(n)
	return j
}
func (j joinMarked) And(cs ...query.Condition) query.Condition { return query.And(j, cs...) }
func (j joinMarked) Or(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalOR, j).Or(cs...)
}
func (j joinMarked) ApplyFieldSpec(query.FieldDefinition) query.Condition { return j }
func (j joinMarked) ApplyFieldTable(query.TableName) query.Condition      { return j }

func runC15(c *Case) {
	if c.r.P(6) {
		c15Joins(c)
		return
	}
	if c.r.P(8) {
		g := c.ctx()
		g.budget = c.r.Size(8, 30)
		g.customPct = 60
		g.wraps = true
		c13Condition(c, g)
		return
	}
	g := c.bigCtx()
	if c.r.P(12) {
		defer nestedBuilds(c)()
		g.yield = true
		c.count("programs whose conditions build statements themselves")
	}
	g.uniqueCols = true
	g.customPct = 50
	g.wraps = true
	g.trackCustom = true
	var sql string
	var params []any
	var pred *Pred
	var n *Node
	var ph []int
	numbered, base := true, 0
	kind := ""
	// originals must stay as they are: look at them before anything is built
	switch c.r.N(8) {
	case 0, 1, 2:
		m := g.cond(c.r.Size(3, 6))
		g.step("condition %s", m.src)
		pred = m.full()
		base = pick(c.r, 0, 1, 7, 10, 120)
		params = m.obj.Values()
		g.customRecord(true)
		if c.r.P(30) {
			numbered = false
			sql = m.obj.RenderSQL()
		} else {
			sql = m.obj.Render(base)
		}
		kind = "condition"
	case 3:
		w, p := g.whereClause(c.r.Size(2, 5))
		pred = p
		params = w.Values()
		g.customRecord(true)
		sql = w.Render(0)
		kind = "WHERE clause"
	default:
		b := g.statement(pick(g.r, "SELECT", "COUNT", "UPDATE", "DELETE"))
		pred = b.where
		g.customRecord(true)
		var ok bool
		sql, params, ok = c.mustBuild(b)
		if !ok {
			c.trivial = true
			return
		}
		kind = b.kind
	}
	g.customRecord(false)
	c.tracef("%s: %s %s", kind, sql, descValues(params))
	// texts only their makers understand are replaced before the statement is read
	orig := sql
	sql = g.canonical(sql)
	c.seen(sql)
	if pred == nil {
		c.trivial = true
		return
	}
	if kind == "condition" || kind == "WHERE clause" {
		var err error
		n, ph, err = parsePredicate(sql)
		c.check(err == nil, "%s cannot be read: %v: %q", kind, err, sql)
		checkPred(c, kind, pred, sql, params, numbered, base)
	} else {
		s, err := parseStmt(sql)
		c.check(err == nil, "statement cannot be read: %v: %q", err, sql)
		n, ph = s.Where, s.PH
		c.check(n != nil, "%s has no WHERE clause: %q", kind, sql)
		checkPlaces(c, n, ph, 0, params, pred)
		err = resolvePH(s)
		c.check(err == nil, "%v in %q", err, sql)
		d, err := diffWhere(pred, s.Where, params)
		if err != nil {
			panic(err)
		}
		c.check(d == "", "%s: %s; SQL: %q", kind, d, sql)
	}
	inText := map[string]bool{}
	for _, l := range pred.leaves() {
		inText[l.place()] = true
	}
	found := 0
	for _, t := range g.customs {
		// nothing the library did may change the condition the user made
		c.check(t.snapshot == t.describe(), "the library modified a user-defined condition: was %s, is %s", t.snapshot, t.describe())
		if t.leaf != nil && !inText[t.leaf.place()] {
			continue
		}
		ok := false
		for _, call := range t.log.calls {
			if call.text == "" {
				continue
			}
			c.check(call.state == t.state, "a user-defined condition lost its own state on the way into the text")
			i := strings.Index(orig, call.text)
			if i < 0 {
				continue
			}
			if !numbered {
				ok = ok || call.param < 0
				continue
			}
			before, err := placeholdersOf(g.canonical(orig[:i]))
			if err != nil {
				continue
			}
			if call.param == base+len(before) {
				ok = true
			}
		}
		c.check(ok, "no call rendered user-defined condition %s with the number of parameters that precede it, embedded verbatim; calls: %s; text: %q", t.describe(), t.log.describe(), orig)
		found++
	}
	c.countN("user-defined conditions in texts", found)
	c.max("user-defined conditions in one text", found)
	if found == 0 {
		c.trivial = true
	}
}
