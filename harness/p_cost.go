package main

import (
	"database/sql/driver"
	"fmt"
	"strings"
	"time"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C20", quick: 20000, thorough: 600000,
		rule:        "A case composes one shape (deep nesting of every kind, long lists, long chains of calls, many joins, fields, values or list elements) at growing sizes from counting conditions and counting values, and builds statements from it; the monitor counts every call the library makes on them and the size of the text and compares with the bounds; statements inside the conditions of others and builds made while another goes on are among the shapes; one case in seven compares a composition with the same one four times as large; distinct by shape, size and text.",
		assumptions: []string{"work is measured in calls the library makes on user-defined conditions and values at the bottom of the composition and in bytes of SQL text; a build that has not returned in a minute at these sizes does not terminate in practice"},
		run:         runC20,
	})
}

// work counts the calls the library made.
type work struct{ cond, value, limit int }

// excess is thrown out of the library when it made too many calls: there is no
// point in waiting for the end.
type excess struct{ what string }

func (w *work) onCond() {
	if w.cond++; w.cond > w.limit {
		panic(excess{"calls on conditions"})
	}
}

func (w *work) onValue() {
	if w.value++; w.value > w.limit {
		panic(excess{"requests for values"})
	}
}

// countCond is an elementary user-defined condition which counts calls on it.
type countCond struct {
	query.BaseCondition
	w    *work
	name string
	tab  string
	vals []any
}

func (c countCond) col() string {
	if c.tab != "" {
		return c.tab + "." + c.name
	}
	return c.name
}
func (c countCond) Render(n int) string {
	c.w.onCond()
	neg := ""
	if c.IsNegate() {
		neg = "NOT "
	}
	if len(c.vals) == 0 {
		return neg + c.col() + " IS TRUE"
	}
	return fmt.Sprintf("%s%s = $%d", neg, c.col(), n+1)
}
func (c countCond) RenderSQL() string {
	c.w.onCond()
	neg := ""
	if c.IsNegate() {
		neg = "NOT "
	}
	if len(c.vals) == 0 {
		return neg + c.col() + " IS TRUE"
	}
	return neg + c.col() + " = ?"
}
func (c countCond) Values() []any {
	c.w.onCond()
	return append([]any{}, c.vals...)
}
func (c countCond) Join(j query.JoinType) query.Condition {
	c.w.onCond()
	c.BaseCondition = c.BaseCondition.Join(j)
	return c
}
func (c countCond) Negate(b bool) query.Condition {
	c.w.onCond()
	c.BaseCondition = c.BaseCondition.Negate(b)
	return c
}
func (c countCond) FieldName() query.FieldName                { return query.FieldName(c.name) }
func (c countCond) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c countCond) Or(cs ...query.Condition) query.Condition  { return query.Or(c, cs...) }
func (c countCond) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	c.w.onCond()
	if string(f.FieldName()) == c.name {
		c.tab = string(f.TableName())
	}
	return c
}
func (c countCond) ApplyFieldTable(t query.TableName) query.Condition {
	c.w.onCond()
	c.tab = string(t)
	return c
}

// subSelect is a user-defined condition around a statement.
type subSelect struct {
	query.BaseCondition
	inner selectBuilder
	texts func() string // builds other statements
}

func (c subSelect) put(s string) string {
	if c.texts != nil {
		c.texts()
	}
	if c.IsNegate() {
		return "NOT EXISTS(" + s + ")"
	}
	return "EXISTS(" + s + ")"
}
func (c subSelect) Render(n int) string        { return c.put(c.inner.Render(n)) }
func (c subSelect) RenderSQL() string          { return c.put(c.inner.RenderSQL()) }
func (c subSelect) Values() []any              { return c.inner.Values() }
func (c subSelect) FieldName() query.FieldName { return "" }
func (c subSelect) Join(j query.JoinType) query.Condition {
	c.BaseCondition = c.BaseCondition.Join(j)
	return c
}
func (c subSelect) Negate(b bool) query.Condition {
	c.BaseCondition = c.BaseCondition.Negate(b)
	return c
}
func (c subSelect) And(cs ...query.Condition) query.Condition            { return query.And(c, cs...) }
func (c subSelect) Or(cs ...query.Condition) query.Condition             { return query.Or(c, cs...) }
func (c subSelect) ApplyFieldSpec(query.FieldDefinition) query.Condition { return c }
func (c subSelect) ApplyFieldTable(query.TableName) query.Condition      { return c }

// countValue is a value which counts requests for its database form.
type countValue struct {
	w *work
	n int
}

func (v countValue) Value() (driver.Value, error) {
	v.w.onValue()
	return int64(v.n), nil
}

// countProvider is the same with the package's own interface.
type countProvider struct {
	w *work
	n int
}

func (v countProvider) DatabaseValue() interface{} {
	v.w.onValue()
	return int64(v.n)
}

// c20Growth is how many times more calls four times the parts may cause.
const c20Growth = 21

// c20Limit bounds the calls made on n parts: far above what is needed, far below
// anything that doubles per level.
func c20Limit(n int) int { return 60 * (n + 5) * (n + 5) }

// within runs f and tells whether it returned in time.
func within(d time.Duration, f func()) (ok bool) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return true
	case <-t.C:
		return false
	}
}

func runC20(c *Case) {
	sizes := []int{8, 16, 28}
	if c.r.P(30) {
		sizes = append(sizes, c.r.Between(40, 90))
	}
	shape := c.r.N(13)
	growth := c.r.P(15)
	if growth { // how it grows, at sizes where lower terms no longer matter
		n := c.r.Between(36, 44)
		sizes = []int{n, 4 * n}
	}
	seed := *c.r
	var first work
	firstText := 0
	for i, n := range sizes {
		r := seed // the same choices again, more of them
		w := work{limit: c20Limit(n)}
		var text string
		what := ""
		var p any
		ok := within(30*time.Second, func() { p = panics(func() { text = c20Build(c, &r, &w, shape, n, growth, &what) }) })
		c.stop = !ok
		c.check(ok, "shape %d with %d parts is not built within half a minute", shape, n)
		if e, is := p.(excess); is {
			c.violate("%s of size %d: more than %d %s of the library", what, n, w.limit, e.what)
		}
		if p != nil {
			panic(p)
		}
		c.tracef("%s n=%d: %d calls on conditions, %d on values, %d bytes", what, n, w.cond, w.value, len(text))
		c.check(w.cond <= w.limit && w.value <= w.limit, "%s of size %d: %d calls on conditions, %d requests for values", what, n, w.cond, w.value)
		c.check(len(text) <= 400*(n+5), "%s of size %d: text has %d bytes", what, n, len(text))
		if growth && i == 0 {
			first, firstText = w, len(text)
		}
		if growth && i == 1 {
			// four times the parts may mean sixteen times the calls; cubic growth means sixty-four
			was, now := first.cond+first.value, w.cond+w.value
			c.check(now <= c20Growth*was+2000, "%s: %d calls on conditions and values for %d parts, %d for %d", what, was, sizes[0], now, n)
			c.check(len(text) <= 7*firstText+2000, "%s: %d bytes of text for %d parts, %d for %d", what, firstText, sizes[0], len(text), n)
			c.count("growth compared")
			c.max("growth of calls, percent, "+what, 100*now/max(1, was))
			c.max("growth of text, percent, "+what, 100*len(text)/max(1, firstText))
		}
		c.seen(fmt.Sprint(shape, n), text)
		c.max("calls on conditions, "+what, w.cond)
		c.max("calls on values, "+what, w.value)
		c.countN("calls on conditions observed", w.cond)
		c.countN("requests for values observed", w.value)
		c.count("shape " + what)
	}
}

// c20Build composes one shape of size n and builds statements from it.
func c20Build(c *Case, r *Rng, w *work, shape, n int, even bool, what *string) (text string) {
	id := 0
	// drawn at random, or evenly spread so that sizes compare
	p := func(pct int) bool {
		if even {
			return id*37%100 < pct
		}
		return r.P(pct)
	}
	leaf := func() query.Condition {
		id++
		name := fmt.Sprintf("c%d", id)
		var v any = countValue{w, id}
		if p(40) {
			v = countProvider{w, id}
		}
		kind := id * 3 % 4
		if !even {
			kind = r.N(4)
		}
		switch kind {
		case 0:
			return query.EqualTo(query.FieldName(name), v)
		case 1:
			return query.In(query.FieldName(name), []any{v, v})
		default:
			x := countCond{w: w, name: name}
			x.BaseCondition = x.BaseCondition.Join(query.LogicalAND)
			if p(60) {
				x.vals = []any{id}
			}
			return x
		}
	}
	var cond query.Condition = countCond{w: w, name: "c0", vals: []any{0}}.Join(query.LogicalAND)
	switch shape {
	case 0, 1, 2, 3, 4: // nesting
		*what = "nesting"
		ops := []int{r.N(9), r.N(9), r.N(9)}
		if shape < 2 {
			ops = ops[:1] // the same step again and again
		}
		cond = query.And(cond, leaf())
		for i := 0; i < n; i++ {
			switch ops[i%len(ops)] {
			case 0:
				cond = query.And(cond, leaf())
			case 1:
				cond = query.Or(leaf(), cond)
			case 2:
				cond = query.Not(query.Or(cond, leaf()))
			case 3:
				cond = query.NewGroup(query.LogicalOR, leaf(), cond)
			case 4:
				cond = query.NewGroup(query.LogicalAND, cond)
			case 5:
				cond = leaf().Or(cond)
			case 6:
				cond = newWrap(cond, nil)
			case 7:
				g := query.NewGroup(query.LogicalOR, cond, leaf())
				cond = &g
			default:
				cond = leaf().And(cond, query.NewGroup(query.LogicalAND))
			}
		}
	case 5: // chain on one receiver
		*what = "chain"
		and := r.P(50)
		for i := 0; i < n; i++ {
			if and != p(30) {
				cond = cond.And(leaf())
			} else {
				cond = cond.Or(leaf())
			}
		}
	case 6: // long list
		*what = "list"
		var l []query.Condition
		for i := 0; i < n; i++ {
			l = append(l, leaf())
		}
		cond = query.NewGroup(pick(r, query.LogicalAND, query.LogicalOR), l...)
	case 7: // long IN
		*what = "IN list"
		l := make([]any, n)
		for i := range l {
			l[i] = countValue{w, i}
		}
		cond = query.And(cond, query.In("l", l))
	case 8: // many Where calls
		*what = "filters"
		s := query.SelectFrom("t")
		d := query.Delete("t")
		for i := 0; i < n; i++ {
			x := leaf()
			s, d = s.Where(x), d.Where(x)
		}
		text = c20Must(c, s, s.Count(), s.Many().Limit(3), s.Single(), d, s.Delete())
		return text
	case 9: // many joins and fields
		*what = "joins and fields"
		s := query.SelectFrom("t").Where(cond)
		var fs []query.FieldDefinition
		for i := 0; i < n; i++ {
			s = s.LeftJoin(query.Table(fmt.Sprintf("t%d", i))).On(query.Field("t.id"), query.Field(fmt.Sprintf("t%d.id", i)))
			fs = append(fs, query.Field(fmt.Sprintf("t%d.f%d AS x%d", i, i, i)))
		}
		m := s.Fields(fs...).Many()
		for i := 0; i < n; i++ {
			m = m.OrderBy(query.ASC(query.FieldName(fmt.Sprintf("t%d.o", i))))
		}
		return c20Must(c, m, s.Count(), s.Single())
	case 10: // many values
		*what = "column values"
		ins, upd := query.InsertInto("t"), query.Update("t").Where(cond)
		for i := 0; i < n; i++ {
			v := query.FieldName(fmt.Sprintf("f%d", i)).Value(countValue{w, i})
			ins, upd = ins.Values(v), upd.Set(v)
		}
		return c20Must(c, ins, upd)
	case 11: // statements inside conditions of statements
		*what = "statements within"
		var inner selectBuilder = query.SelectFrom("t0").Where(leaf())
		// the innermost ones are built for themselves, while another build goes on
		texts := func() string {
			return c20Must(c, query.SelectFrom("i"), query.SelectFrom("i").Count(), query.SelectManyFrom("i").OrderBy(query.ASC("o")), query.SelectSingleFrom("i"),
				query.Delete("i").Where(query.IsNull("x")), query.InsertInto("i").Values(query.FieldName("f").Value(1)), query.Update("i").Set(query.FieldName("f").Value(1)).Where(query.IsNull("x")))
		}
		for i := 0; i < n; i++ {
			sub := subSelect{inner: inner, texts: texts}
			sub.BaseCondition = sub.BaseCondition.Join(query.LogicalAND)
			if i > 0 {
				sub.texts = nil
			}
			s := query.SelectFrom(fmt.Sprintf("t%d", i)).Where(leaf(), sub)
			switch i % 3 {
			case 0:
				inner = s
			case 1:
				inner = s.Single()
			default:
				inner = s.Many().OrderBy(query.ASC("o"))
			}
		}
		cond = query.And(subSelect{inner: inner, texts: texts, BaseCondition: query.BaseCondition{}.Join(query.LogicalAND)}, cond)
	default: // conversions back and forth
		*what = "conversions"
		s := query.SelectFrom("t").Where(cond, leaf())
		for i := 0; i < n; i++ {
			s = s.Many().Single().BaseSelectBuilder.Where(leaf())
		}
		return c20Must(c, s, s.Count())
	}
	switch r.N(4) {
	case 0:
		cond = cond.ApplyFieldTable("q")
	case 1:
		cond = cond.ApplyFieldSpec(query.Field("q.c0"))
	case 2:
		cond = query.Not(query.Not(cond))
	}
	numbered, raw := cond.Render(0), cond.RenderSQL()
	c.check(strings.Count(raw, "?") == len(cond.Values()), "%s: %d placeholders for %d values", *what, strings.Count(raw, "?"), len(cond.Values()))
	c.check(toQuestion(numbered) == raw, "%s: dialects differ", *what)
	s := query.SelectFrom("t").Where(cond)
	text = c20Must(c, s, s.Count(), query.Delete("t").Where(cond), query.Update("t").Set(query.FieldName("f").Value(1)).Where(cond))
	return text
}

type builder interface {
	BuildQueryAndParams() (string, []interface{}, error)
}

// c20Must builds everything and gives back the longest text.
func c20Must(c *Case, bs ...builder) (text string) {
	for _, b := range bs {
		sql, params, err := b.BuildQueryAndParams()
		c.check(err == nil, "building failed: %v", err)
		ph, err := placeholdersOf(sql)
		c.check(err == nil && len(ph) == len(params), "%d placeholders for %d parameters: %v", len(ph), len(params), err)
		if len(sql) > len(text) {
			text = sql
		}
	}
	return text
}
