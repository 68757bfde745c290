package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

// Custom conditions: implementations of query.Condition the library has never
// seen. cust is a value type, pcust a pointer type; both share the behaviour and
// record what the library asks of them in a custLog.

type custCall struct {
	what  string // Render RenderSQL Values
	param int    // parameters said to precede; -1 when not told
	neg   bool
	join  string
	text  string
	canon string // the same in a form the reader understands
	state *int
}

type custLog struct {
	calls  []custCall
	record bool
}

func (l *custLog) describe() string {
	var s []string
	for _, c := range l.calls {
		if c.text != "" {
			s = append(s, fmt.Sprintf("%s(%d) = %q", c.what, c.param, c.text))
		}
	}
	return "[" + strings.Join(s, "; ") + "]"
}

// custTracker watches one user-defined condition of a program.
type custTracker struct {
	leaf     *MLeaf // an elementary condition that is in the text iff this one is
	log      *custLog
	state    *int
	odd      bool
	snapshot string
	describe func() string
}

func (g *gctx) track(leaf *MLeaf, log *custLog, state *int, odd bool, describe func() string) {
	if !g.trackCustom {
		return
	}
	g.customs = append(g.customs, &custTracker{leaf, log, state, odd, describe(), describe})
}

// customRecord switches recording of calls on all user-defined conditions.
func (g *gctx) customRecord(on bool) {
	for _, t := range g.customs {
		t.log.record = on
	}
}

func (l *custLog) add(c custCall) {
	if l == nil {
		return
	}
	if l.record {
		l.calls = append(l.calls, c)
	}
}

type custCore struct {
	query.BaseCondition
	form   string // fn between istrue
	name   string // function name or field
	table  string
	vals   []any
	log    *custLog
	state  *int // dynamic state that must travel with the condition
	yield  bool
	noData bool
	odd    int   // strange text, see oddText
	raw    []any // what Values hands out, with room behind it, when not nil
}

func newCustCore(form, name, table string, vals []any, log *custLog) custCore {
	st := new(int)
	c := custCore{form: form, name: name, table: table, vals: vals, log: log, state: st}
	c.BaseCondition = c.BaseCondition.Join(query.LogicalAND)
	return c
}

func (c custCore) desc() string {
	return fmt.Sprintf("%s(%s.%s)%s%s neg=%v join=%s state=%p", c.form, c.table, c.name, descValues(c.vals), descValues(c.raw[:cap(c.raw)]), c.IsNegate(), c.JoinType(), c.state)
}

func (c custCore) col() string {
	if c.table != "" {
		return c.table + "." + c.name
	}
	return c.name
}

func (c custCore) text(ph func(i int) string) string {
	neg := ""
	if c.IsNegate() {
		neg = "NOT "
	}
	switch c.form {
	case "between":
		return neg + c.col() + " BETWEEN " + ph(0) + " AND " + ph(1)
	case "istrue":
		return neg + c.col() + " IS TRUE"
	}
	p := make([]string, len(c.vals))
	for i := range c.vals {
		p[i] = ph(i)
	}
	return neg + c.name + "(" + strings.Join(p, ", ") + ")"
}

// oddForms is the number of strange texts a condition can have.
const oddForms = 9

// oddText is a text whose relation to its parameters cannot be guessed from the
// text: parameters used twice or backwards, things that look like placeholders,
// operators or brackets inside literals and comments, blanks around it. It stays
// one elementary condition. In the '?' form every parameter is used once, in order.
func (c custCore) oddText(numbered bool, ph func(i int) string) string {
	canon := c.plainText(ph)
	call := func(order func(i int) int) string {
		p := make([]string, len(c.vals))
		for i := range p {
			p[i] = ph(order(i))
		}
		return c.name + "(" + strings.Join(p, ", ") + ")"
	}
	last := len(c.vals) - 1
	same := func(i int) int { return i }
	neg := ""
	if c.IsNegate() {
		neg = "NOT "
	}
	switch c.odd {
	case 1:
		if numbered {
			return neg + call(func(i int) int { return last - i })
		}
	case 2:
		if numbered {
			return neg + "(" + call(same) + " OR " + call(same) + " IS NULL)"
		}
		return neg + "(" + call(same) + " OR FALSE)"
	case 3:
		return canon + " <> 'AND $1 OR ? ($2 '' '"
	case 4:
		return canon + " /* $9 ? AND ( */"
	case 5:
		return "\n\t " + canon + "  \n"
	case 6:
		return neg + "((" + call(same) + ")) = $$ it's $7 $$"
	case 7:
		return neg + "\"$1 ? OR\" @? " + call(same)
	case 8:
		return canon + "::text LIKE '%d %s %!(EXTRA) \\' || E'\\x00é'"
	}
	return canon
}

func (c custCore) plainText(ph func(i int) string) string {
	c.odd = 0
	return c.text(ph)
}

func (c custCore) render(n int) string {
	if c.yield {
		calledBack()
	}
	ph := func(i int) string { return "$" + strconv.Itoa(n+i+1) }
	s, canon := c.oddText(true, ph), c.plainText(ph)
	c.log.add(custCall{"Render", n, c.IsNegate(), string(c.JoinType()), s, canon, c.state})
	return s
}

func (c custCore) renderSQL() string {
	ph := func(int) string { return "?" }
	s, canon := c.oddText(false, ph), c.plainText(ph)
	c.log.add(custCall{"RenderSQL", -1, c.IsNegate(), string(c.JoinType()), s, canon, c.state})
	return s
}

// canonical replaces the strange texts the library was given.
func (g *gctx) canonical(sql string) string {
	for _, t := range g.customs {
		if !t.odd {
			continue
		}
		for _, call := range t.log.calls {
			if call.text != "" {
				sql = strings.ReplaceAll(sql, call.text, call.canon)
			}
		}
	}
	return sql
}

func (c custCore) values() []any {
	c.log.add(custCall{what: "Values"})
	if c.yield {
		calledBack()
	}
	if len(c.vals) == 0 && c.noData {
		return nil
	}
	if c.raw != nil {
		return c.raw
	}
	return append([]any{}, c.vals...)
}

func (c custCore) FieldName() query.FieldName {
	if c.form == "fn" {
		return ""
	}
	return query.FieldName(c.name)
}

func (c custCore) withSpec(f query.FieldDefinition) custCore {
	if c.form != "fn" && string(f.FieldName()) == c.name {
		c.table = string(f.TableName())
	}
	return c
}

func (c custCore) withTable(t query.TableName) custCore {
	if c.form != "fn" {
		c.table = string(t)
	}
	return c
}

// ------------------------------------------------ value type

type cust struct{ custCore }

func (c cust) Join(j query.JoinType) query.Condition {
	c.BaseCondition = c.BaseCondition.Join(j)
	return c
}
func (c cust) Negate(n bool) query.Condition {
	c.BaseCondition = c.BaseCondition.Negate(n)
	return c
}
func (c cust) Render(n int) string                       { return c.render(n) }
func (c cust) RenderSQL() string                         { return c.renderSQL() }
func (c cust) Values() []any                             { return c.values() }
func (c cust) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c cust) Or(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalOR, c).Or(cs...)
}
func (c cust) ApplyFieldSpec(f query.FieldDefinition) query.Condition { return cust{c.withSpec(f)} }
func (c cust) ApplyFieldTable(t query.TableName) query.Condition      { return cust{c.withTable(t)} }

// ------------------------------------------------ pointer type

type pcust struct{ custCore }

func (c *pcust) Join(j query.JoinType) query.Condition {
	n := *c
	n.BaseCondition = n.BaseCondition.Join(j)
	return &n
}
func (c *pcust) Negate(b bool) query.Condition {
	n := *c
	n.BaseCondition = n.BaseCondition.Negate(b)
	return &n
}
func (c *pcust) Render(n int) string                       { return c.render(n) }
func (c *pcust) RenderSQL() string                         { return c.renderSQL() }
func (c *pcust) Values() []any                             { return c.values() }
func (c *pcust) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c *pcust) Or(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalOR, c).Or(cs...)
}
func (c *pcust) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	return &pcust{c.withSpec(f)}
}
func (c *pcust) ApplyFieldTable(t query.TableName) query.Condition { return &pcust{c.withTable(t)} }

// ------------------------------------------------ wrapping type

// wrap puts any condition in brackets.
type wrap struct {
	query.BaseCondition
	inner query.Condition
	log   *custLog
	state *int
}

func newWrap(inner query.Condition, log *custLog) *wrap {
	w := &wrap{inner: inner, log: log, state: new(int)}
	w.BaseCondition = w.BaseCondition.Join(query.LogicalAND)
	return w
}

func (w *wrap) desc() string {
	return fmt.Sprintf("wrap(%s) neg=%v join=%s state=%p", w.inner.RenderSQL(), w.IsNegate(), w.JoinType(), w.state)
}

func (w *wrap) put(s string) string {
	if w.IsNegate() {
		return "NOT (" + s + ")"
	}
	return "(" + s + ")"
}

func (w *wrap) Join(j query.JoinType) query.Condition {
	n := *w
	n.BaseCondition = n.BaseCondition.Join(j)
	return &n
}
func (w *wrap) Negate(b bool) query.Condition {
	n := *w
	n.BaseCondition = n.BaseCondition.Negate(b)
	return &n
}
func (w *wrap) Render(k int) string {
	s := w.put(w.inner.Render(k))
	w.log.add(custCall{"Render", k, w.IsNegate(), string(w.JoinType()), s, "", w.state})
	return s
}
func (w *wrap) RenderSQL() string {
	s := w.put(w.inner.RenderSQL())
	w.log.add(custCall{"RenderSQL", -1, w.IsNegate(), string(w.JoinType()), s, "", w.state})
	return s
}
func (w *wrap) Values() []any                             { return w.inner.Values() }
func (w *wrap) FieldName() query.FieldName                { return "" }
func (w *wrap) And(cs ...query.Condition) query.Condition { return query.And(w, cs...) }
func (w *wrap) Or(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalOR, w).Or(cs...)
}
func (w *wrap) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	n := *w
	n.inner = n.inner.ApplyFieldSpec(f)
	return &n
}
func (w *wrap) ApplyFieldTable(t query.TableName) query.Condition {
	n := *w
	n.inner = n.inner.ApplyFieldTable(t)
	return &n
}

var (
	_ query.Condition = (*wrap)(nil)
	_ query.Condition = cust{}
	_ query.Condition = (*pcust)(nil)
)
