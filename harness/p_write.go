package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C06", quick: 1500000, thorough: 30000000,
		rule: "A case is an INSERT, UPDATE or DELETE program in which table, set-values and conditions may each be missing (no call, empty lists, empty and nested empty groups, zero-value builders), from every entry point; distinct by outcome, structure and text.",
		assumptions: []string{
			"'no table name' is the empty name; blank names of white space are not generated",
			"an IN condition over an empty list is a real condition",
		},
		run: runC06,
	})
	register(&Prop{
		id: "C08", quick: 1000000, thorough: 25000000,
		rule: "A case is a complete INSERT or UPDATE program with values of every kind (lists included) added over several calls, or a values map; non-trivial with at least two columns; distinct by SQL text.",
		run:  runC08,
	})
	register(&Prop{
		id: "C10", quick: 500000, thorough: 25000000,
		rule: "A case is one program executed twice with different values in the same places (one run with harmless, one with hostile values in half of the cases); non-trivial when at least one parameter is bound; distinct by SQL text.",
		assumptions: []string{
			"every generated value carries a number of at least six digits found nowhere in identifiers, so any leak of a value into the text shows",
			"list lengths and presence of pagination belong to the structure and are equal in both runs",
		},
		run: runC10,
	})
}

// ---------------------------------------------------------------- C06

// outcome of one build against what must happen
func c06Build(c *Case, w *Write) {
	sql, params, err := w.obj().BuildQueryAndParams()
	c.tracef("%s => %q %s err=%v", w.kind, sql, descValues(params), err)
	missing := []string{}
	if w.table == "" {
		missing = append(missing, "table")
	}
	if w.kind != "DELETE" && len(w.sets) == 0 {
		missing = append(missing, "values")
	}
	if w.kind != "INSERT" && w.where == nil {
		missing = append(missing, "conditions")
	}
	c.seen(w.kind, strings.Join(missing, "+"), w.where.shape(), sql)
	if len(missing) > 0 {
		what := strings.Join(missing, " and ")
		c.check(err != nil, "%s without %s is built: %q", w.kind, what, sql)
		c.check(sql == "", "%s without %s fails (%v) but returns statement %q", w.kind, what, err, sql)
		c.check(len(params) == 0, "%s without %s fails (%v) but returns parameters %s", w.kind, what, err, descValues(params))
		c.check(errors.Is(err, query.Error), "%s without %s fails with %q which does not match the package's Error", w.kind, what, err)
		c.count(fmt.Sprintf("refused: %s without %s", w.kind, what))
		return
	}
	c.check(err == nil, "complete %s refused: %v", w.kind, err)
	st, err := parseStmt(sql)
	c.check(err == nil, "%s cannot be read: %v: %q", w.kind, err, sql)
	c.check(st.Kind == w.kind, "%s builds a %s: %q", w.kind, st.Kind, sql)
	c.check(st.From.Name == w.table, "%s of table %q: %q", w.kind, w.table, sql)
	if w.kind != "INSERT" {
		c.check(st.Where != nil, "%s is built without restriction: %q", w.kind, sql)
		mustResolve(c, st, sql)
		checkFilter(c, w.kind, w.where, st, params, sql)
	}
	if w.kind != "DELETE" {
		c.check(len(st.Cols) == len(w.sets), "%d values set, statement has %d columns: %q", len(w.sets), len(st.Cols), sql)
	}
	c.count("built: " + w.kind)
}

func runC06(c *Case) {
	g := c.ctx()
	g.budget = c.r.Size(4, 16)
	if c.r.P(6) {
		c06Zero(c, g)
		return
	}
	w := g.write(pick(g.r, "INSERT", "UPDATE", "UPDATE", "DELETE", "DELETE"), true)
	c06Build(c, w)
	// supplying what was missing makes it complete; an earlier failure leaves nothing behind
	if g.r.P(50) && w.table != "" {
		if w.kind != "DELETE" && len(w.sets) == 0 {
			g.addSets(w, 1)
		}
		for i := 0; w.kind != "INSERT" && w.where == nil && i < 20; i++ {
			g.budget = max(g.budget, 3)
			g.addFilter(w, func() []query.Condition {
				cs, pred, src := g.addWhere(w.where, g.members(1, 2))
				g.step("  later filter: %s", src)
				w.where = pred
				return cs
			})
		}
		c06Build(c, w)
	}
}

func c06Zero(c *Case, g *gctx) {
	w := &Write{kind: pick(g.r, "INSERT", "UPDATE", "DELETE")}
	g.step("zero value %s builder", w.kind)
	if w.kind != "DELETE" && g.r.P(60) {
		g.addSets(w, 0)
	}
	if w.kind != "INSERT" && g.r.P(60) {
		g.addFilter(w, func() []query.Condition {
			cs, pred, _ := g.addWhere(nil, g.whereMembers(1))
			w.where = pred
			return cs
		})
	}
	c06Build(c, w)
}

// ---------------------------------------------------------------- C08

func runC08(c *Case) {
	g := c.bigCtx()
	g.budget = min(g.budget, 10)
	g.dupCols = c.r.P(15)
	kind := pick(g.r, "INSERT", "UPDATE")
	w := g.write(kind, false)
	if g.r.P(25) {
		c08Map(c, g, w)
	}
	sql, params, err := w.obj().BuildQueryAndParams()
	c.tracef("%s %s err=%v", sql, descValues(params), err)
	c.check(err == nil, "%s refused: %v", kind, err)
	st, err := parseStmt(sql)
	c.check(err == nil, "%s cannot be read: %v: %q", kind, err, sql)
	c.check(st.Kind == kind && st.From.Name == w.table, "%s of table %q: %q", kind, w.table, sql)
	mustResolve(c, st, sql)
	d := diffSets(w.sets, st, params)
	c.check(d == "", "%s: %s; SQL: %q %s", kind, d, sql, descValues(params))
	nw := 0
	if kind == "UPDATE" {
		checkFilter(c, kind, w.where, st, params, sql)
		nw = len(w.where.params())
	}
	c.check(len(params) == len(w.sets)+nw, "%d columns and %d filter values but %d parameters: %q", len(w.sets), nw, len(params), sql)
	c.seen(sql)
	if len(w.sets) < 2 {
		c.trivial = true
	}
	c.max("columns", len(w.sets))
	c.countN("columns compared", len(w.sets))
}

// c08Map adds a values map to the program.
func c08Map(c *Case, g *gctx, w *Write) {
	m := query.ValuesMap{}
	exp := map[string]any{}
	want := map[string]Val{}
	var keys []string
	for n := g.r.Size(4, 20); n > 0; n-- {
		k := g.newName("m")
		if len(keys) > 0 && g.r.P(25) { // a key close to one there already
			near := nearName(g.r, pick(g.r, keys...))
			if _, have := want[near]; !have {
				k = near
			}
		}
		keys = append(keys, k)
		v := g.setValue(false)
		key := k
		if g.r.P(10) {
			key = "tm." + k
		}
		m[key] = v.v
		exp[k] = v.exp
		want[k] = v
	}
	before := mapText(m)
	fv, err := m.FieldValues()
	c.check(err == nil, "values map of valid names refused: %v", err)
	c.check(len(fv) == len(exp), "values map of %d keys gives %d values", len(exp), len(fv))
	c.check(mapText(m) == before, "values map was %s, reading its pairs made it %s", before, mapText(m))
	got := map[string]bool{}
	for _, f := range fv {
		name := string(f.FieldName())
		_, known := exp[name]
		c.check(known, "values map gives column %q that is no key", name)
		c.check(!got[name], "values map gives column %q twice", name)
		got[name] = true
		if !isList(want[name].exp) {
			vs := f.Values()
			c.check(len(vs) == 1 && sameValue(vs[0], exp[name]), "values map key %q gives %s, want %s", name, descValues(vs), descValue(exp[name]))
		}
	}
	// use them in name order or as they come
	if g.r.P(50) {
		sort.Slice(fv, func(i, j int) bool { return fv[i].FieldName() < fv[j].FieldName() })
	}
	for _, f := range fv {
		w.sets = append(w.sets, SetModel{Col: string(f.FieldName()), Exp: exp[string(f.FieldName())]})
	}
	g.step("values map of %d keys", len(fv))
	if w.kind == "INSERT" {
		w.ins = w.ins.Values(fv...)
	} else {
		w.upd = w.upd.Set(fv...)
	}
	c.count("values maps")
}

// ---------------------------------------------------------------- C10

type c10Result struct {
	texts  []string
	params []any
	exp    []any
	err    error
}

func c10Program(c *Case, g *gctx, form int) (res c10Result) {
	switch form {
	case 0:
		m := g.cond(g.r.Size(3, 6))
		g.step("condition %s", m.src)
		res.params, res.exp = m.obj.Values(), m.inner.params()
		res.texts = []string{m.obj.Render(0), m.obj.RenderSQL(), m.obj.Render(5)}
	case 1:
		w, p := g.whereClause(g.r.Size(2, 4))
		res.params, res.exp = w.Values(), p.params()
		res.texts = []string{w.Render(0), w.RenderSQL()}
	case 2:
		l, off, lim := g.limiter()
		res.params = l.Values()
		if off > 0 {
			res.exp = append(res.exp, off)
		}
		if lim > 0 {
			res.exp = append(res.exp, lim)
		}
		res.texts = []string{l.Render(0), l.RenderSQL()}
	default:
		b := g.statement("")
		sql, params, err := b.build()
		if err != nil {
			res.err = err
			return
		}
		res.texts, res.params = []string{sql}, params
		for _, s := range b.sets {
			res.exp = append(res.exp, s.Exp)
		}
		res.exp = append(res.exp, b.where.params()...)
		if b.sel != nil && b.kind == "SELECT" {
			o := b.sel.obj()
			res.texts = append(res.texts, o.Render(0), o.RenderSQL())
			if b.sel.kind == "many" {
				if b.sel.m.offset > 0 {
					res.exp = append(res.exp, b.sel.m.offset)
				}
				if b.sel.m.limit > 0 {
					res.exp = append(res.exp, uint(b.sel.m.limit))
				}
			}
		}
	}
	return
}

func longDigits(s string) string {
	run := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] >= '0' && s[i] <= '9' {
			run++
			continue
		}
		if run >= 6 {
			return s[i-run : i]
		}
		run = 0
	}
	return ""
}

// unmatched removes equal values pairwise and gives back what remains.
func unmatched(a, b []any) (ra, rb []any) {
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for i, y := range b {
			if !used[i] && (sameValue(x, y) || sameNumber(x, y)) {
				used[i] = true
				continue next
			}
		}
		ra = append(ra, x)
	}
	for i, y := range b {
		if !used[i] {
			rb = append(rb, y)
		}
	}
	return
}

// sameNumber: pagination may be bound in any integer type.
func sameNumber(x, y any) bool {
	u, ok := y.(uint)
	return ok && numEq(x, uint64(u))
}

func runC10(c *Case) {
	g1, g2 := c.bigCtx(), c.ctx()
	vr := g2.vr
	*g2 = *g1
	r := *g1.r
	g2.r = &r
	g2.vr = vr
	g2.ops = map[string]int{}
	g1.plain = c.r.P(50)
	form := c.r.N(8)
	a := c10Program(c, g1, form)
	b := c10Program(c, g2, form)
	c.check((a.err == nil) == (b.err == nil), "with some values the build fails, with others it does not: %v / %v", a.err, b.err)
	if a.err != nil {
		c.trivial = true
		return
	}
	for i := range a.texts {
		c.tracef("text: %s", a.texts[i])
		c.check(a.texts[i] == b.texts[i], "text depends on values: %q with %s, %q with %s", a.texts[i], descValues(a.params), b.texts[i], descValues(b.params))
		d := longDigits(a.texts[i])
		c.check(d == "", "part of a value (%s) is in the text: %q", d, a.texts[i])
		j := strings.IndexAny(a.texts[i], "'\"\\;`%\x00\xff{}/-@:")
		c.check(j < 0, "character of a value in the text: %q", a.texts[i])
	}
	for _, x := range []c10Result{a, b} {
		c.tracef("params: %s", descValues(x.params))
		lost, extra := unmatched(x.exp, x.params)
		c.check(len(lost) == 0 && len(extra) == 0, "values do not come back as they were given: missing %s, unexpected %s; text %q", descValues(lost), descValues(extra), x.texts[0])
	}
	c.check(len(a.params) == len(b.params), "number of parameters depends on values: %d and %d", len(a.params), len(b.params))
	c.seen(a.texts...)
	if len(a.params) == 0 {
		c.trivial = true
	}
	c.countN("values compared", len(a.params)+len(b.params))
	c.max("parameters", len(a.params))
}
