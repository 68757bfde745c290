package main

import (
	"fmt"
	"strings"

	"github.com/amarin/query"
)

// built is one statement of any kind with what is known about it.
type built struct {
	kind   string // SELECT base|many|single, COUNT, INSERT, UPDATE, DELETE
	build  func() (string, []interface{}, error)
	sel    *Sel
	w      *Write
	count  string // counted column
	where  *Pred
	sets   []SetModel
	cntObj query.CountBuilder
}

// statement draws a complete statement of any kind.
func (g *gctx) statement(kind string) *built {
	if kind == "" {
		kind = pick(g.r, "SELECT", "SELECT", "SELECT", "COUNT", "INSERT", "UPDATE", "UPDATE", "DELETE")
	}
	b := &built{kind: kind}
	switch kind {
	case "SELECT":
		s := g.sel(g.r.Size(5, 14))
		b.sel, b.where = s, s.m.where
		o := s.obj()
		b.build = o.BuildQueryAndParams
		g.op("stmt:SELECT " + s.kind)
	case "COUNT":
		if g.r.P(12) {
			t := g.table()
			g.tables = []string{t.ref2()}
			cs, pred, src := g.addWhere(nil, g.whereMembers(2))
			id := t.ident(g.r)
			g.step("Table(%q).Count(%s)", t.spec, src)
			b.sel = &Sel{kind: "base", base: id.Select(cs...), m: SelModel{table: t.ref, where: pred, limit: -1}}
			b.where = pred
			b.cntObj, b.count = id.Count(cs...), "*"
			b.build = b.cntObj.BuildQueryAndParams
			g.op("stmt:COUNT")
			break
		}
		b.sel = g.sel(g.r.Size(4, 12))
		b.where = b.sel.m.where
		b.cntObj, b.count = g.countOf(b.sel)
		b.build = b.cntObj.BuildQueryAndParams
		g.op("stmt:COUNT")
	default:
		w := g.write(kind, false)
		b.w, b.where, b.sets = w, w.where, w.sets
		b.build = w.obj().BuildQueryAndParams
		g.op("stmt:" + kind)
	}
	return b
}

// countOf draws a way to count a select.
func (g *gctx) countOf(s *Sel) (query.CountBuilder, string) {
	switch g.r.N(3) {
	case 0:
		switch s.kind {
		case "base":
			return s.base.Count(), "*"
		case "many":
			return s.many.Count(), "*"
		default:
			return s.single.Count(), "*"
		}
	case 1:
		return query.Count(s.asBase()), "*"
	}
	col := ""
	if g.sch != nil {
		col = g.sch.anyColumn(g.r, g.tables).String()
	} else {
		col = g.newName("n")
		if g.r.P(40) {
			col = "t1." + col
		}
	}
	spec := col
	if g.r.P(15) {
		spec += " AS " + g.newName("na")
	}
	g.step("Count(%q)", spec)
	if g.r.P(20) {
		return query.Count(s.asBase(), query.FieldName(spec), "ignored"), col
	}
	return query.Count(s.asBase(), query.FieldName(spec)), col
}

// whereClause draws a WhereClause object.
func (g *gctx) whereClause(depth int) (query.WhereClause, *Pred) {
	w := query.NewWhere()
	var pred *Pred
	for n := g.r.Between(1, 4); n > 0; n-- {
		ms := g.whereMembers(depth)
		if pred != nil && len(ms) > 0 && g.r.P(30) {
			add := conj(ms)
			g.step("where.GroupOR(%s)", srcs(ms))
			w = w.GroupOR(objs(ms)...)
			if add != nil {
				pred = pFold("or", pred, add)
			}
			continue
		}
		cs, np, src := g.addWhere(pred, ms)
		g.step("where.GroupAND(%s)", src)
		w = w.GroupAND(cs...)
		pred = np
	}
	return w, pred
}

func (c *Case) bigCtx() *gctx {
	g := c.ctx()
	switch k := c.r.N(100); {
	case k < 70:
		g.budget = c.r.Between(1, 8)
	case k < 95:
		g.budget = c.r.Between(6, 25)
	default:
		g.budget = c.r.Between(25, 70)
		g.maxIn = 90
	}
	if c.r.P(3) {
		g.maxIn = 150
	}
	return g
}

// ---------------------------------------------------------------- C01

func init() {
	register(&Prop{
		id: "C01", quick: 1000000, thorough: 20000000,
		rule:        "A case is a random program over the public API giving one statement of any kind, or one clause (condition, WHERE, limiter, SELECT) rendered after k parameters; non-trivial when the text has at least one placeholder; distinct by SQL text and k.",
		assumptions: []string{"placeholders are recognised by the harness's own SQL tokenizer", "a parameter belongs to the place (column and operator, SET column, OFFSET, LIMIT) in which the parsed placeholder stands; columns are unique per case"},
		run:         runC01,
	})
	register(&Prop{
		id: "C02", quick: 1000000, thorough: 25000000,
		rule:        "A case is a random condition, group, WHERE clause, limiter or SELECT builder rendered in both dialects; non-trivial when it has at least one placeholder; distinct by '?' text.",
		assumptions: []string{"identifiers generated by the workload contain neither '$' nor '?'"},
		run:         runC02,
	})
}

func (c *Case) mustBuild(b *built) (string, []any, bool) {
	sql, params, err := b.build()
	if err != nil {
		c.tracef("build error: %v", err)
		c.count("builds refused")
		return "", nil, false
	}
	c.tracef("SQL: %s", sql)
	c.tracef("params: %s", descValues(params))
	return sql, params, true
}

func checkNumbering(c *Case, what, sql string, k int, params []any) {
	ph, err := placeholdersOf(sql)
	c.check(err == nil, "%s: %v in %q", what, err, sql)
	for i, n := range ph {
		c.check(n == k+i+1, "%s: placeholder number %d in order of appearance is $%d, want $%d: %q", what, i+1, n, k+i+1, sql)
	}
	c.check(len(ph) == len(params), "%s: %d placeholders but %d parameters: %q %s", what, len(ph), len(params), sql, descValues(params))
	if len(ph) == 0 {
		c.trivial = true
	}
	c.max("placeholders", len(ph))
	c.countN("placeholders seen", len(ph))
}

// checkPlaces: each parameter is the value attached to the place of its placeholder.
// base is the number of parameters before the text.
func checkPlaces(c *Case, n *Node, ph []int, base int, params []any, model *Pred) {
	exp := map[string]*MLeaf{}
	if model != nil {
		for _, l := range model.leaves() {
			exp[l.place()] = l
		}
	}
	at := func(pos int) any {
		i := ph[pos] - 1 - base
		if i < 0 || i >= len(params) {
			c.violate("placeholder $%d has no parameter", ph[pos])
		}
		return params[i]
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n == nil {
			return
		}
		if n.Op == "leaf" {
			l := exp[n.Leaf.Op+"|"+n.Leaf.Col]
			if l == nil {
				c.count("places not attributed")
				return
			}
			c.check(len(n.Leaf.PH) == len(l.Params), "condition %s has %d placeholders for %d values", l.place(), len(n.Leaf.PH), len(l.Params))
			for i, pos := range n.Leaf.PH {
				v := at(pos)
				c.check(sameValue(v, l.Params[i]), "condition %s: value %d bound is %s, the caller attached %s", l.place(), i+1, descValue(v), descValue(l.Params[i]))
			}
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
}

func runC01(c *Case) {
	g := c.bigCtx()
	g.uniqueCols = true
	if c.r.P(65) {
		b := g.statement("")
		sql, params, ok := c.mustBuild(b)
		if !ok {
			c.trivial = true
			return
		}
		c.seen(sql)
		checkNumbering(c, b.kind, sql, 0, params)
		s, err := parseStmt(sql)
		c.check(err == nil, "statement cannot be read: %v: %q", err, sql)
		checkPlaces(c, s.Where, s.PH, 0, params, b.where)
		sets := map[string]any{}
		for _, m := range b.sets {
			sets[m.Col] = m.Exp
		}
		c.check(len(s.Vals) == len(s.Cols), "%d columns, %d values", len(s.Cols), len(s.Vals))
		for i, col := range s.Cols {
			exp, known := sets[col]
			if !known {
				continue
			}
			v := params[s.PH[s.Vals[i]]-1]
			c.check(sameValue(v, exp), "column %q: bound value is %s, the caller attached %s", col, descValue(v), descValue(exp))
		}
		if b.sel != nil && b.kind == "SELECT" {
			if s.Offset >= 0 {
				v := params[s.PH[s.Offset]-1]
				c.check(numEq(v, uint64(b.sel.m.offset)), "OFFSET is bound to %s, requested %d", descValue(v), b.sel.m.offset)
			}
			if s.Limit >= 0 {
				v := params[s.PH[s.Limit]-1]
				c.check(numEq(v, uint64(max(b.sel.m.limit, 0))), "LIMIT is bound to %s, requested %d", descValue(v), b.sel.m.limit)
			}
		}
		return
	}
	k := pick(c.r, 0, 1, 2, 8, 9, 10, 98, 99, 100, 999, 65000, c.r.N(300))
	var sql string
	var vals []any
	switch c.r.N(5) {
	case 0, 1:
		m := g.cond(c.r.Size(2, 6))
		g.step("condition %s", m.src)
		sql, vals = m.obj.Render(k), m.obj.Values()
		c.tracef("Render(%d): %s", k, sql)
		c.seen(sql)
		checkNumbering(c, "condition", sql, k, vals)
		if sql != "" {
			n, ph, err := parsePredicate(sql)
			c.check(err == nil, "condition cannot be read: %v: %q", err, sql)
			checkPlaces(c, n, ph, k, vals, m.inner)
		}
	case 2:
		w, pred := g.whereClause(c.r.Size(2, 5))
		sql, vals = w.Render(k), w.Values()
		c.tracef("Render(%d): %s", k, sql)
		c.seen(sql)
		checkNumbering(c, "WHERE clause", sql, k, vals)
		if sql != "" {
			n, ph, err := parsePredicate(sql)
			c.check(err == nil, "WHERE clause cannot be read: %v: %q", err, sql)
			checkPlaces(c, n, ph, k, vals, pred)
		}
	case 3:
		l, off, lim := g.limiter()
		sql, vals = l.Render(k), l.Values()
		c.tracef("Render(%d): %s", k, sql)
		c.seen(sql)
		checkNumbering(c, "limiter", sql, k, vals)
		toks, _ := lexSQL(sql)
		for i := 0; i+1 < len(toks); i++ {
			if toks[i+1].kind != tkPH {
				continue
			}
			v := vals[toks[i+1].num-k-1]
			switch strings.ToUpper(toks[i].text) {
			case "OFFSET":
				c.check(numEq(v, uint64(off)), "OFFSET is bound to %s, requested %d", descValue(v), off)
			case "LIMIT":
				c.check(numEq(v, uint64(lim)), "LIMIT is bound to %s, requested %d", descValue(v), lim)
			}
		}
	default:
		s := g.sel(g.r.Size(5, 14))
		o := s.obj()
		sql, vals = o.Render(k), o.Values()
		c.tracef("Render(%d): %s", k, sql)
		c.seen(sql)
		checkNumbering(c, "SELECT "+s.kind, sql, k, vals)
		st, err := parseStmt(sql)
		c.check(err == nil, "statement cannot be read: %v: %q", err, sql)
		checkPlaces(c, st.Where, st.PH, k, vals, s.m.where)
		if st.Offset >= 0 {
			v := vals[st.PH[st.Offset]-1-k]
			c.check(numEq(v, uint64(s.m.offset)), "OFFSET is bound to %s, requested %d", descValue(v), s.m.offset)
		}
		if st.Limit >= 0 {
			v := vals[st.PH[st.Limit]-1-k]
			c.check(numEq(v, uint64(max(s.m.limit, 0))), "LIMIT is bound to %s, requested %d", descValue(v), s.m.limit)
		}
	}
	c.seen(fmt.Sprint(k))
}

// limiter draws a Limiter.
func (g *gctx) limiter() (l query.Limiter, off, lim uint) {
	for n := g.r.N(4); n > 0; n-- {
		if g.r.P(50) {
			off = g.offset()
			l = l.Offset(off)
			g.step("limiter.Offset(%d)", off)
		} else {
			lim = g.offset()
			l = l.Limit(lim)
			g.step("limiter.Limit(%d)", lim)
		}
	}
	return
}

// ---------------------------------------------------------------- C02

// toQuestion spells every $N as ?.
func toQuestion(sql string) string {
	var b strings.Builder
	for i := 0; i < len(sql); i++ {
		inName := i > 0 && (sql[i-1] == '_' || sql[i-1] == '$' || sql[i-1] >= 0x80 || sql[i-1] >= '0' && sql[i-1] <= '9' || sql[i-1]|32 >= 'a' && sql[i-1]|32 <= 'z')
		if sql[i] == '$' && !inName && i+1 < len(sql) && sql[i+1] >= '0' && sql[i+1] <= '9' {
			b.WriteByte('?')
			for i+1 < len(sql) && sql[i+1] >= '0' && sql[i+1] <= '9' {
				i++
			}
			continue
		}
		b.WriteByte(sql[i])
	}
	return b.String()
}

type dual interface {
	Render(int) string
	RenderSQL() string
	Values() []any
}

func checkDual(c *Case, what string, d dual, k int) {
	numbered, raw, vals := d.Render(k), d.RenderSQL(), d.Values()
	c.tracef("%s Render(%d): %s", what, k, numbered)
	c.tracef("%s RenderSQL(): %s", what, raw)
	c.tracef("values: %s", descValues(vals))
	c.check(toQuestion(numbered) == raw, "%s: dialects differ: %q against %q", what, numbered, raw)
	q := strings.Count(raw, "?")
	c.check(q == len(vals), "%s: %d '?' but %d values: %q %s", what, q, len(vals), raw, descValues(vals))
	// the numbered form's parameters in order of appearance
	ph, err := placeholdersOf(numbered)
	c.check(err == nil, "%s: %v", what, err)
	for i, n := range ph {
		c.check(n == k+i+1, "%s: the %d-th placeholder is $%d after %d parameters, so the value lists of the dialects are in different order: %q", what, i+1, n, k, numbered)
	}
	if q == 0 {
		c.trivial = true
	}
	c.seen(raw)
	c.count("compared: " + what)
}

func runC02(c *Case) {
	g := c.bigCtx()
	k := pick(c.r, 0, 0, 1, 9, 99, c.r.N(40))
	switch c.r.N(6) {
	case 0, 1:
		m := g.cond(c.r.Size(2, 6))
		g.step("condition %s", m.src)
		checkDual(c, "condition", m.obj, k)
	case 2:
		w, _ := g.whereClause(c.r.Size(2, 5))
		checkDual(c, "WHERE clause", w, k)
	case 3:
		l, _, _ := g.limiter()
		checkDual(c, "limiter", l, k)
	default:
		s := g.sel(g.r.Size(5, 14))
		o := s.obj()
		checkDual(c, "SELECT "+s.kind, o, k)
		sql, params, err := o.BuildQueryAndParams()
		if err == nil {
			c.check(toQuestion(sql) == o.RenderSQL(), "SELECT %s: built statement and '?' rendering differ: %q against %q", s.kind, sql, o.RenderSQL())
			c.check(sameValues(params, o.Values()), "SELECT %s: parameters %s but values of the '?' form %s", s.kind, descValues(params), descValues(o.Values()))
		}
	}
}
