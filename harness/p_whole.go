package main

import (
	"errors"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C19", quick: 500000, thorough: 8000000,
		rule:        "A case is a SELECT program of any variant, or statements derived from it, in which the base table or a joined table may be without a name (zero-value builders and table identifiers from every entry point, then fields, conditions, joins, ordering, pagination and conversions on top); distinct by outcome, structure and text; trivial when nothing was missing and nothing was added.",
		assumptions: []string{"field definitions come from constructors (which refuse empty names)"},
		run:         runC19,
	})
}

// newHollow starts a SELECT whose table may be without a name.
func (g *gctx) newHollow() (s *Sel, missing string) {
	var none query.TableIdent
	switch g.r.N(5) {
	case 0: // an alias, but of nothing
		none = none.As("na")
	case 1:
		none = query.Table(none)
	case 2:
		if t, err := query.TableOrError(none); err == nil {
			none = *t
		}
	}
	s = &Sel{m: SelModel{limit: -1}}
	g.tables = []string{"t1"}
	conds := func() []query.Condition {
		cs, pred, _ := g.addWhere(nil, g.whereMembers(2))
		s.m.where = pred
		return cs
	}
	good := g.table()
	l, lc := g.joinField("t1")
	r, rc := g.joinField(good.ref2())
	typ := g.joinType()
	missing = "table"
	k := g.r.N(14)
	g.step("start %d without table name", k)
	switch k {
	case 0:
		s.kind = "base"
	case 1:
		s.kind = "many"
	case 2:
		s.kind = "single"
	case 3:
		s.kind, s.base = "base", query.SelectFrom(none)
	case 4:
		s.kind, s.many = "many", query.SelectManyFrom(none)
	case 5:
		s.kind, s.single = "single", query.SelectSingleFrom(none)
	case 6:
		s.kind, s.base = "base", none.Select(conds()...)
	case 7:
		s.kind, s.many = "many", none.SelectMany(conds()...)
	case 8:
		s.kind, s.single = "single", none.SelectOne(conds()...)
	case 9:
		s.kind, s.base = "base", none.InnerJoin(good.ident(g.r)).On(l, r)
		s.m.joins = []JoinItem{{"INNER", good.ref, lc, rc}}
	case 10:
		s.kind, s.base = "base", typ.Tables(none, good.ident(g.r)).On(l, r)
		s.m.joins = []JoinItem{{joinWord(typ), good.ref, lc, rc}}
	case 11:
		missing = "joined table"
		s.kind, s.base = "base", typ.Tables(good.ident(g.r), none).On(l, r)
		s.m.table = good.ref
	case 12:
		missing = "joined table"
		gi := good.ident(g.r)
		s.kind = "base"
		s.m.table = good.ref
		s.base = pickJoin(typ, func() query.IncompleteSelectJoin { return gi.InnerJoin(none) },
			func() query.IncompleteSelectJoin { return gi.LeftJoin(none) },
			func() query.IncompleteSelectJoin { return gi.RightJoin(none) },
			func() query.IncompleteSelectJoin { return gi.FullJoin(none) }).On(l, r)
	default:
		missing = "joined table"
		n := g.newSel()
		for k := g.r.Size(2, 8); k > 0; k-- {
			g.stepJoin(n)
		}
		b := n.asBase()
		m := n.m
		m.order, m.offset, m.limit = nil, 0, -1
		s.m, s.kind = m, "base"
		if g.r.P(50) {
			s.base = b.Join(none, typ).On(l, r)
		} else {
			s.base = pickJoin(typ, func() query.BaseSelectBuilder { return b.InnerJoin(none).On(l, r) },
				func() query.BaseSelectBuilder { return b.LeftJoin(none).On(l, r) },
				func() query.BaseSelectBuilder { return b.RightJoin(none).On(l, r) },
				func() query.BaseSelectBuilder { return b.FullJoin(none).On(l, r) })
		}
	}
	return s, missing
}

func runC19(c *Case) {
	g := c.bigCtx()
	var s *Sel
	missing := ""
	if c.r.P(60) {
		s, missing = g.newHollow()
	} else {
		s = g.newSel()
	}
	depth := g.r.Size(2, 4)
	steps := g.r.Size(4, 12)
	for i := 0; i < steps; i++ {
		g.selStep(s, depth)
	}
	// the same builder is asked again after others were derived from it
	for i := 0; i < 2; i++ {
		sql, params, err := s.obj().BuildQueryAndParams()
		c19Outcome(c, "SELECT "+s.kind, missing, sql, params, err)
		if missing == "" {
			c19Whole(c, s, sql, params)
		}
		c.seen(missing, s.kind, sql, s.m.where.shape())
		cnt, name := g.countOf(s)
		sql, params, err = cnt.BuildQueryAndParams()
		c19Outcome(c, "COUNT", missing, sql, params, err)
		if missing == "" {
			st, err := parseStmt(sql)
			c.check(err == nil && st.Kind == "COUNT", "COUNT cannot be read: %v: %q", err, sql)
			c.check(st.From.Name == s.m.table.Name && len(st.Joins) == len(s.m.joins), "COUNT of %s is incomplete: %q", name, sql)
			c.check((st.Where != nil) == (s.m.where != nil), "COUNT with or without filter: %q", sql)
		}
	}
	if g.r.P(30) {
		c19Derived(c, g, s)
	}
	if g.r.P(3) {
		var zero query.CountBuilder
		sql, params, err := zero.BuildQueryAndParams()
		c19Outcome(c, "zero COUNT builder", "table", sql, params, err)
	}
	c.trivial = missing == "" && steps == 0
}

func c19Outcome(c *Case, what, missing, sql string, params []any, err error) {
	c.tracef("%s => %q %s err=%v", what, sql, descValues(params), err)
	if missing == "" {
		c.check(err == nil, "complete %s refused: %v", what, err)
		c.count("built: " + what)
		return
	}
	c.check(err != nil, "%s without name of %s is built: %q", what, missing, sql)
	c.check(errors.Is(err, query.Error), "%s without name of %s fails with %q which does not match the package's Error", what, missing, err)
	c.check(sql == "", "%s without name of %s fails (%v) but returns statement %q", what, missing, err, sql)
	c.check(len(params) == 0, "%s without name of %s fails (%v) but returns parameters %s", what, missing, err, descValues(params))
	c.count("refused: " + what + " without " + missing)
}

// c19Whole: every part that is named has content, and the parts are those asked for.
func c19Whole(c *Case, s *Sel, sql string, params []any) {
	st, err := parseStmt(sql)
	c.check(err == nil, "SELECT cannot be read: %v: %q", err, sql)
	c.check(st.From.Name == s.m.table.Name && st.From.Name != "", "SELECT from %q: %q", s.m.table.Name, sql)
	c.check(len(st.Joins) == len(s.m.joins), "%d joins made, statement has %d: %q", len(s.m.joins), len(st.Joins), sql)
	for _, j := range st.Joins {
		c.check(j.Table.Name != "" && j.Left.Name != "" && j.Right.Name != "", "join lacks a name: %q", sql)
	}
	for _, f := range st.Fields {
		c.check(f.Name != "", "field without name: %q", sql)
	}
	c.check((st.Where != nil) == (s.m.where != nil), "filter requested: %v, statement: %q", s.m.where != nil, sql)
	for _, o := range st.Order {
		c.check(o.Col != "", "ordering without name: %q", sql)
	}
	ph, err := placeholdersOf(sql)
	c.check(err == nil && len(ph) == len(params), "%d placeholders, %d parameters: %q", len(ph), len(params), sql)
}

// c19Derived: writes derived from a SELECT whose own table has no name fail too.
func c19Derived(c *Case, g *gctx, s *Sel) {
	w := &Write{kind: pick(g.r, "INSERT", "UPDATE", "DELETE"), table: s.m.table.Name}
	fs, ms := g.setPairs(1, 2, 5)
	b := s.asBase()
	switch w.kind {
	case "INSERT":
		w.sets, w.ins = ms, b.InsertInto(fs...)
	case "UPDATE":
		w.sets, w.where, w.upd = ms, s.m.where, b.Update(fs...)
	default:
		w.where, w.del = s.m.where, b.Delete()
	}
	c06Build(c, w)
}
