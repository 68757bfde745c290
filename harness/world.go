package main

import (
	"database/sql/driver"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

// world is a pool of objects of every kind derived from each other, as a program
// which keeps everything it ever made. The same random numbers make the same world.

type wobj struct {
	id   int
	kind string
	v    any
	src  string
	fp   string // what was observed when it was made
	kids int    // objects derived from it

	looks []looked
}

// join is an unfinished join with the fields it is observed with.
type wjoin struct {
	b query.IncompleteSelectJoin
	m query.IncompleteSelectManyJoiner
	s query.IncompleteSelectSingleJoiner
}

// held is a list the program passed as arguments or got as a result and still owns.
type held struct {
	what     string
	scribble func(w *world)
	check    func() string // library changed the list of the caller?
}

type world struct {
	g     *gctx
	r     *Rng
	objs  []*wobj
	held  []*held
	lists []func() string // lists given as values, must stay as they are
	by    map[string][]*wobj
	// what happened
	ops      map[string]int
	noHeld   bool
	readOnly int  // objects before this index came from elsewhere
	quiet    bool // no formatting while running: looks are kept as they came
	hot      map[string]*wobj
	unseen   bool // quiet, and not even looked at when made
}

func newWorld(g *gctx) *world {
	g.reuse = false
	g.ownLists = true
	w := &world{g: g, r: g.r, by: map[string][]*wobj{}, ops: map[string]int{}}
	g.keepList = func(v any, what string) {
		if w.noHeld {
			return
		}
		was := descValue(v)
		w.lists = append(w.lists, func() string {
			if now := descValue(v); now != was {
				return fmt.Sprintf("list of values (%s) given to IN was %s, is now %s", what, was, now)
			}
			return ""
		})
	}
	return w
}

func (w *world) add(kind string, v any, format string, a ...any) *wobj {
	o := &wobj{id: len(w.objs), kind: kind, v: v}
	if w.g.verbose {
		o.src = fmt.Sprintf(format, a...)
		w.g.step("o%d %s := %s", o.id, kind, o.src)
	}
	if w.quiet {
		if !w.unseen {
			o.looks = lookAll(o, w.r, nil)
		}
	} else {
		o.fp = fingerprint(o)
	}
	w.objs = append(w.objs, o)
	w.by[kind] = append(w.by[kind], o)
	w.ops["made:"+kind]++
	return o
}

// adopt takes over objects of another world.
func (w *world) adopt(objs []*wobj) {
	for _, o := range objs {
		n := *o
		n.id, n.kids = len(w.objs), 0
		w.objs = append(w.objs, &n)
		w.by[n.kind] = append(w.by[n.kind], &n)
	}
	w.readOnly = len(w.objs)
}

// pick takes an object of a kind, often one which many others came from.
func (w *world) pick(kind string) *wobj {
	l := w.by[kind]
	if len(l) == 0 {
		return nil
	}
	o := l[w.r.N(len(l))]
	if h := w.hot[kind]; h != nil && w.r.P(40) {
		return h
	}
	switch w.r.N(3) {
	case 0: // the one with most children of three
		for i := 0; i < 2; i++ {
			if p := l[w.r.N(len(l))]; p.kids > o.kids {
				o = p
			}
		}
	case 1: // a recent one
		o = l[max(0, len(l)-1-w.r.N(3))]
	}
	o.kids++
	return o
}

// ---------------------------------------------------------------- observing

// looked is what one look at an object gave, not formatted yet.
type looked []any

func (l looked) text() string {
	var b strings.Builder
	for _, x := range l {
		switch v := x.(type) {
		case string:
			b.WriteString(v)
		case []any:
			b.WriteString(descValues(v))
		default:
			fmt.Fprint(&b, x)
		}
		b.WriteByte(' ')
	}
	return b.String()
}

// given is a list the library returned: it belongs to the caller, who may overwrite
// it (spare storage included) or keep it.
type given struct {
	scribble func()
	again    func() looked // what is in it now
}

var nothingGiven = given{scribble: func() {}}

// observation is one way to look at an object.
type observation struct {
	name string
	look func() (l looked, list given)
}

// fill overwrites a list with its spare storage.
func fill[T any](l []T, v ...T) {
	full := l[:cap(l)]
	for i := range full {
		if len(v) > 0 {
			full[i] = v[i%len(v)]
		} else {
			var zero T
			full[i] = zero
		}
	}
}

// listLook makes the look at a returned list.
func listLook[T any](l []T, text func(T) looked, junk func() []T, before ...any) (looked, given) {
	again := func() looked {
		res := append(looked{}, before...)
		for _, x := range l {
			res = append(res, text(x)...)
		}
		return res
	}
	return again(), given{func() { fill(l, junk()...) }, again}
}

func junkParams() []any { return []any{"junk", nil} }

// What lists are overwritten with. Functions, so that nothing of the library runs
// before the first case does.
func junkCond() query.Condition { return query.EqualTo("junk_field", "junk-value") }
func junkCond2() query.Condition {
	return query.NewGroup(query.LogicalOR, query.IsNull("junk1"), query.IsNull("junk2"))
}
func junkField() query.FieldDefinition { return query.Field("junk.junk_field") }
func junkValue() query.FieldValue      { return query.FieldName("junk_field").Value("junk-value") }
func junkSort() query.FieldSorting     { return query.DESC("junk_field") }

func str(name string, f func() string) observation {
	return observation{name, func() (looked, given) { return looked{f()}, nothingGiven }}
}

func look(name string, f func() looked) observation {
	return observation{name, func() (looked, given) { return f(), nothingGiven }}
}

func vals(name string, f func() []any) observation {
	return observation{name, func() (looked, given) { return paramLook(f()) }}
}

func paramLook(v []any, before ...any) (looked, given) {
	again := func() looked { return append(append(looked{}, before...), append([]any{}, v...)) }
	return again(), given{func() { fill(v, junkParams()...) }, again}
}

func builds(f func() (string, []any, error)) observation {
	return observation{"BuildQueryAndParams", func() (looked, given) {
		sql, params, err := f()
		return paramLook(params, sql, err)
	}}
}

func defs(f func() []query.FieldDefinition) observation {
	return observation{"FieldDefinitions", func() (looked, given) {
		return listLook(f(), func(x query.FieldDefinition) looked { return looked{x.RenderSpec()} },
			func() []query.FieldDefinition { return []query.FieldDefinition{junkField()} })
	}}
}

func condLook(x query.Condition) looked {
	return looked{x.Render(3), "|", x.RenderSQL(), "|", append([]any{}, x.Values()...), x.JoinType(), x.IsNegate(), x.FieldName(), x.RenderJoin(false), x.RenderNegate()}
}

func condText(x query.Condition) string { return condLook(x).text() }

func fieldLook(x query.FieldDefinition) looked {
	return looked{x.RenderSpec(), "|", x.RenderField(), "|", x.RenderTableSpec(), "|", x.TableName(), "|", x.FieldName(), "|", x.Alias()}
}

func fieldText(x query.FieldDefinition) string { return fieldLook(x).text() }

func valueLook(x query.FieldValue) looked {
	return append(fieldLook(x.FieldDefinition), append([]any{}, x.Values()...))
}

func valueText(x query.FieldValue) string { return valueLook(x).text() }

func observations(o *wobj) []observation {
	switch v := o.v.(type) {
	case query.BaseSelectBuilder:
		return selObs(v)
	case query.SelectManyBuilder:
		return append(selObs(v), str("FieldList", v.FieldList))
	case query.SelectSingleBuilder:
		return append(selObs(v), str("FieldList", v.FieldList))
	case wjoin:
		return []observation{builds(func() (string, []any, error) {
			onLeft, onRight := query.Field("probe.l"), query.Field("probe.r")
			switch {
			case v.b != nil:
				return v.b.On(onLeft, onRight).BuildQueryAndParams()
			case v.m != nil:
				return v.m.On(onLeft, onRight).BuildQueryAndParams()
			}
			return v.s.On(onLeft, onRight).BuildQueryAndParams()
		})}
	case query.InsertBuilder:
		return append(writeObs(v), setObs(v.SetValues))
	case query.UpdateBuilder:
		return append(writeObs(v), setObs(v.SetValues))
	case query.DeleteBuilder:
		return writeObs(v)
	case query.CountBuilder:
		return []observation{builds(v.BuildQueryAndParams), str("RenderFrom", v.RenderFrom)}
	case query.WhereClause:
		return []observation{
			str("Render", func() string { return v.Render(5) }), str("RenderSQL", v.RenderSQL), vals("Values", v.Values), str("String", v.String),
			{"Conditions", func() (looked, given) {
				return listLook(v.Conditions(), condLook, func() []query.Condition { return []query.Condition{junkCond(), junkCond2()} })
			}},
		}
	case query.Fields:
		return []observation{defs(v.FieldDefinitions), str("FieldList", v.FieldList), look("String", func() looked { return looked{v.String(), v.Len()} })}
	case query.FieldDefinition:
		return []observation{look("field", func() looked { return fieldLook(v) })}
	case query.FieldValue:
		return []observation{look("value", func() looked { return valueLook(v) }), vals("Values", v.Values)}
	case query.FieldSorting:
		return []observation{str("sorting", func() string { return v.Render() + string(v.Direction()) })}
	case query.TableIdent:
		return []observation{look("table", func() looked { return looked{v.RenderFrom(), "|", v.TableName(), "|", v.Alias()} })}
	case query.Limiter:
		return []observation{str("Render", func() string { return v.Render(2) }), str("RenderSQL", v.RenderSQL), vals("Values", v.Values)}
	case query.TableJoiner:
		return []observation{look("joiner", func() looked { return looked{v.RenderFrom(), v.JoinType(), v.JoinCondition().Render()} })}
	case query.JoinCondition:
		return []observation{str("on", v.Render)}
	case said:
		return []observation{look("outcome", func() looked { return v.ask() })}
	case query.Condition:
		values := vals("Values", v.Values)
		switch v.(type) {
		case cust, *pcust, *wrap: // answered by the program itself, which may give its own list
			values = look("Values", func() looked { return append(looked{}, v.Values()...) })
		}
		return []observation{look("condition", func() looked { return condLook(v) }), values}
	}
	panic(fmt.Sprintf("no observations of %T", o.v))
}

func selObs(v selectBuilder) []observation {
	return []observation{
		builds(v.BuildQueryAndParams), str("Render", func() string { return v.Render(4) }), str("RenderSQL", v.RenderSQL), vals("Values", v.Values),
		str("RenderFrom", v.RenderFrom), str("TableName", func() string { return string(v.TableName()) }), defs(v.FieldDefinitions),
		str("String", v.String), str("Operation", func() string { return v.Operation().String() }),
	}
}

func writeObs(v writeBuilder) []observation {
	return []observation{builds(v.BuildQueryAndParams), str("RenderFrom", v.RenderFrom),
		str("TableName", func() string { return string(v.TableName()) }), str("Operation", func() string { return v.Operation().String() })}
}

func setObs(f func() []query.FieldValue) observation {
	return observation{"SetValues", func() (looked, given) {
		return listLook(f(), valueLook, func() []query.FieldValue { return []query.FieldValue{junkValue()} })
	}}
}

func fingerprint(o *wobj) string {
	var b strings.Builder
	for _, ob := range observations(o) {
		l, _ := ob.look()
		b.WriteString(ob.name)
		b.WriteString(": ")
		b.WriteString(l.text())
		b.WriteByte('\n')
	}
	return b.String()
}

// keptList is a returned list its owner keeps.
type keptList struct {
	o    *wobj
	name string
	was  looked
	list given
}

// lookAll looks in every way, the ways which format text only sometimes.
func lookAll(o *wobj, r *Rng, kept *[]keptList) (ls []looked) {
	for _, ob := range observations(o) {
		if ob.name == "String" && !r.P(5) {
			continue
		}
		l, list := ob.look()
		ls = append(ls, l)
		switch k := r.N(100); {
		case k < 30:
			list.scribble()
		case k < 50 && list.again != nil && kept != nil && len(*kept) < 40:
			*kept = append(*kept, keptList{o, ob.name, l, list})
		}
	}
	return
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			return fmt.Sprintf("was %q, is now %q", la[i], lb[min(i, len(lb)-1)])
		}
	}
	return "same"
}

// ---------------------------------------------------------------- argument lists

// keep makes the argument list the program keeps and may write to later; spare is
// what stands in the storage after its end.
func keep[T any](w *world, what string, args []T, text func(T) string, junk ...T) []T {
	l := make([]T, len(args), len(args)+w.r.N(4))
	copy(l, args)
	full := l[:cap(l)]
	for i := len(l); i < len(full); i++ {
		full[i] = junk[i%len(junk)]
	}
	if w.noHeld {
		return l
	}
	was := make([]string, len(full))
	for i := range full {
		was[i] = text(full[i])
	}
	h := &held{what: what}
	h.check = func() string {
		for i := range full {
			if now := text(full[i]); now != was[i] {
				return fmt.Sprintf("element %d of a list passed by the caller to %s was %s, is now %s", i, what, was[i], now)
			}
		}
		return ""
	}
	h.scribble = func(w *world) {
		// overwrite, reverse or rotate the caller's own list
		switch w.r.N(3) {
		case 0:
			for i := range full {
				full[i] = junk[w.r.N(len(junk))]
			}
		case 1:
			for i, j := 0, len(full)-1; i < j; i, j = i+1, j-1 {
				full[i], full[j] = full[j], full[i]
			}
		default:
			if len(full) > 0 {
				full[w.r.N(len(full))] = junk[w.r.N(len(junk))]
			}
		}
		for i := range full {
			was[i] = text(full[i])
		}
	}
	w.held = append(w.held, h)
	return l
}

func (w *world) condArgs(what string, max int) ([]query.Condition, string) {
	var cs []query.Condition
	var ids []string
	size := 0
	n := w.r.Between(1, max)
	if w.r.P(5) {
		n = 0
	}
	if w.r.P(5) {
		n += 6
	}
	for i := 0; i < n; i++ {
		o := w.pick("cond")
		if size += len(o.v.(query.Condition).RenderSQL()); len(cs) > 0 && size > 2500 {
			break
		}
		cs = append(cs, o.v.(query.Condition))
		ids = append(ids, "o"+strconv.Itoa(o.id))
	}
	return keep(w, what, cs, condTextSafe, junkCond(), junkCond2()), strings.Join(ids, ",")
}

func condTextSafe(x query.Condition) string {
	if x == nil {
		return "nil"
	}
	return condText(x)
}

// howMany is the length of an argument list: up to max, seldom long.
func (w *world) howMany(max int) int {
	if w.r.P(3) {
		return w.r.Between(max, 40)
	}
	return w.r.N(max + 1)
}

func (w *world) fieldArgs(what string, max int) []query.FieldDefinition {
	var fs []query.FieldDefinition
	for n := w.howMany(max); n > 0; n-- {
		fs = append(fs, w.pick("field").v.(query.FieldDefinition))
	}
	return keep(w, what, fs, fieldText, junkField())
}

func (w *world) valueArgs(what string, max int) []query.FieldValue {
	var fs []query.FieldValue
	for n := w.howMany(max); n > 0; n-- {
		fs = append(fs, w.pick("value").v.(query.FieldValue))
	}
	return keep(w, what, fs, valueText, junkValue())
}

func (w *world) sortArgs(what string, max int) []query.FieldSorting {
	var fs []query.FieldSorting
	for n := w.howMany(max); n > 0; n-- {
		fs = append(fs, w.pick("sort").v.(query.FieldSorting))
	}
	return keep(w, what, fs, func(s query.FieldSorting) string { return s.Render() }, junkSort())
}

// ---------------------------------------------------------------- steps

// seed puts some objects of every kind into the pool.
func (w *world) seed() {
	g := w.g
	for i := 0; i < 3; i++ {
		g.budget = 4
		m := g.cond(w.r.N(3))
		w.add("cond", m.obj, "%s", m.src)
		f, _ := g.field()
		w.add("field", f, "%s", f.RenderSpec())
		w.newValue()
		s, _ := g.sorting()
		w.add("sort", s, "%s", s.Render())
		t := g.table()
		w.add("table", t.ident(g.r), "%q", t.spec)
	}
	w.add("where", query.NewWhere(), "NewWhere()")
	w.add("fields", query.NewFields(), "NewFields()")
	w.add("limiter", query.Limiter{}, "Limiter{}")
	w.add("on", query.JoinFields(query.Field("a.x"), query.Field("b.y")), "JoinFields")
	w.newSelect()
	w.newSelect()
	w.newWrite()
}

// mapText is everything in a values map.
func mapText(m query.ValuesMap) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		keys[i] = fmt.Sprintf("%s=%s", k, descValue(m[k]))
	}
	return "{" + strings.Join(keys, ", ") + "}"
}

func (w *world) newValue() {
	v := w.g.setValue(false)
	f := query.FieldName(w.g.newName("v")).Value(v.v)
	w.add("value", f, "%s %s", f.FieldName(), descValue(v.v))
}

// newPiece parses a specification or makes another small object.
func (w *world) newPiece() {
	g := w.g
	switch w.r.N(6) {
	case 0:
		f, _ := g.field()
		w.add("field", f, "field")
	case 1:
		t := g.table()
		w.add("table", t.ident(g.r), "%q", t.spec)
	case 2:
		s, _ := g.sorting()
		w.add("sort", s, "sorting")
	case 3:
		w.newValue()
	case 4:
		m := query.ValuesMap{"k1": g.setValue(false).v, "k2": g.setValue(false).v, g.newName("vmkey"): 5}
		was := mapText(m)
		vs, err := m.FieldValues()
		if err != nil || len(vs) != 3 {
			panic("values map of three good names is not converted")
		}
		h := &held{what: "ValuesMap.FieldValues"}
		h.check = func() string {
			if now := mapText(m); now != was {
				return fmt.Sprintf("values map of the caller was %s, is now %s", was, now)
			}
			return ""
		}
		h.scribble = func(w *world) {
			m["k1"], m["junk"] = "junk", 1
			delete(m, "k2")
			was = mapText(m)
		}
		if d := h.check(); d != "" {
			panic(d)
		}
		if !w.noHeld {
			w.held = append(w.held, h)
		}
		for _, name := range []query.FieldName{"k1", "k2"} {
			for _, v := range vs {
				if v.FieldName() == name {
					w.add("value", v, "values map element %s", name)
				}
			}
		}
	default:
		u := query.UniqFieldNames([]query.FieldName{"a", "b", "a", query.FieldName(g.newName("u")), "b"})
		if len(u) != 3 || u[0] != "a" || u[1] != "b" {
			panic("wrong unique names")
		}
		w.add("fields", query.NewFields(u[0], u[1], u[2]), "NewFields of unique names")
	}
	w.ops["pieces"]++
}

func (w *world) newSelect() {
	t := w.pick("table")
	id := t.v.(query.TableIdent)
	switch w.r.N(7) {
	case 0, 1:
		w.add("base", query.SelectFrom(id), "SelectFrom(o%d)", t.id)
	case 2:
		w.add("many", query.SelectManyFrom(id), "SelectManyFrom(o%d)", t.id)
	case 3:
		w.add("single", query.SelectSingleFrom(id), "SelectSingleFrom(o%d)", t.id)
	case 4:
		cs, ids := w.condArgs("Select", 3)
		w.add("base", id.Select(cs...), "o%d.Select(%s)", t.id, ids)
	case 5:
		cs, ids := w.condArgs("SelectMany", 3)
		w.add("many", id.SelectMany(cs...), "o%d.SelectMany(%s)", t.id, ids)
	default:
		cs, ids := w.condArgs("SelectOne", 3)
		w.add("single", id.SelectOne(cs...), "o%d.SelectOne(%s)", t.id, ids)
	}
}

func (w *world) newWrite() {
	t := w.pick("table")
	id := t.v.(query.TableIdent)
	switch w.r.N(6) {
	case 0:
		w.add("ins", query.InsertInto(id), "InsertInto(o%d)", t.id)
	case 1:
		w.add("ins", id.InsertInto(w.valueArgs("InsertInto", 3)...), "o%d.InsertInto(...)", t.id)
	case 2:
		w.add("upd", query.Update(id), "Update(o%d)", t.id)
	case 3:
		w.add("upd", id.Update(w.valueArgs("Update", 3)...), "o%d.Update(...)", t.id)
	case 4:
		w.add("del", query.Delete(id), "Delete(o%d)", t.id)
	default:
		cs, ids := w.condArgs("Delete", 3)
		w.add("del", id.Delete(cs...), "o%d.Delete(%s)", t.id, ids)
	}
}

// step derives one more object.
func (w *world) step() {
	g, r := w.g, w.r
	switch r.N(60) {
	case 0:
		w.stepGrow()
		return
	case 1:
		w.stepSaid()
		return
	}
	switch k := r.N(100); {
	case k < 26:
		w.stepCond()
	case k < 34:
		w.stepWhere()
	case k < 66:
		w.stepSelect()
	case k < 74:
		w.stepJoin()
	case k < 86:
		w.stepWrite()
	case k < 88:
		w.newSelect()
	case k < 89:
		w.newWrite()
	case k < 90:
		w.newPiece()
	case k < 92:
		o := w.pick("fields")
		v := o.v.(query.Fields)
		w.add("fields", v.Fields(w.fieldArgs("Fields.Fields", 4)...), "o%d.Fields(...)", o.id)
		w.ops["Fields.Fields"]++
	case k < 94:
		o := w.pick("field")
		v := o.v.(query.FieldDefinition)
		switch r.N(4) {
		case 0:
			w.add("field", v.Of(query.TableName(g.newName("t"))), "o%d.Of", o.id)
		case 1:
			w.add("field", v.As(query.FieldName(g.newName("a"))), "o%d.As", o.id)
		case 2:
			x := g.setValue(false)
			w.add("value", v.Value(x.v), "o%d.Value(%s)", o.id, descValue(x.v))
		default:
			p, err := query.FieldOrError(v)
			if err != nil {
				panic(err)
			}
			w.add("field", *p, "FieldOrError(o%d)", o.id)
			*p = junkField() // the caller's own copy
		}
		w.ops["field derivations"]++
	case k < 95:
		o, f := w.pick("value"), w.pick("field")
		v := o.v.(query.FieldValue)
		if r.P(50) {
			w.add("value", v.ApplyFieldTable(query.TableName(g.newName("t"))), "o%d.ApplyFieldTable", o.id)
		} else {
			w.add("value", v.ApplyFieldSpec(f.v.(query.FieldDefinition)), "o%d.ApplyFieldSpec(o%d)", o.id, f.id)
		}
		w.ops["value derivations"]++
	case k < 96:
		o, f := w.pick("sort"), w.pick("field")
		w.add("sort", o.v.(query.FieldSorting).ApplyFieldSpec(f.v.(query.FieldDefinition)), "o%d.ApplyFieldSpec(o%d)", o.id, f.id)
		w.ops["sorting derivations"]++
	case k < 97:
		o := w.pick("limiter")
		v := o.v.(query.Limiter)
		if r.P(50) {
			w.add("limiter", v.Limit(g.offset()), "o%d.Limit", o.id)
		} else {
			w.add("limiter", v.Offset(g.offset()), "o%d.Offset", o.id)
		}
		w.ops["limiter derivations"]++
	case k < 98:
		o := w.pick("table")
		v := o.v.(query.TableIdent)
		w.add("table", v.As(query.TableName(g.newName("ta"))), "o%d.As", o.id)
		w.ops["table derivations"]++
	default:
		o, t := w.pick("on"), w.pick("table")
		on := o.v.(query.JoinCondition)
		l, _ := g.joinField("a")
		rr, _ := g.joinField("b")
		switch r.N(3) {
		case 0:
			w.add("joiner", on.Using(g.joinType()), "o%d.Using", o.id)
		case 1:
			w.add("joiner", query.NewTableJoiner(t.v.(query.TableIdent), g.joinType(), on), "NewTableJoiner(o%d, o%d)", t.id, o.id)
		default:
			if j := w.pick("joiner"); j != nil {
				w.add("joiner", j.v.(query.TableJoiner).By(l, rr), "o%d.By", j.id)
			} else {
				w.add("on", query.JoinFields(l, rr), "JoinFields")
			}
		}
		w.ops["joiner derivations"]++
	}
}

// said is a question which has the same answer whenever it is asked.
type said struct {
	what string
	ask  func() looked
}

// stepSaid asks what makes no object: refusals, failures and names of things.
func (w *world) stepSaid() {
	g, r := w.g, w.r
	refused := func(f func()) func() looked {
		return func() (l looked) {
			defer func() { l = looked{recover()} }()
			f()
			return
		}
	}
	name := w.g.newName("t")
	fine := query.FieldName(name)
	bads := []string{"a.b." + name, name + ".", "." + name, "a b c d" + name, "", name + ";", name + "'", name + "\"", name + "\x01", name + " x", name + "--", name + "#", "$1" + name}
	bad := bads[r.N(len(bads))]
	text := pick(r, bad, "a.b."+name, name+" "+name+" "+name+" y", "", ". as "+name, name+" of "+name)
	var s said
	switch k := r.N(13); k {
	case 12:
		fail := pick(r, any(vFail{name}), any(&vFailPtr{name}), any([]driver.Valuer{vFail{name}}), any(vFailVal{name}))
		x := query.In(fine, fail)
		s.what, s.ask = "failing conversions", refused(func() { panic(x.Values()[0]) })
	case 0:
		s.what, s.ask = "Validate", func() looked {
			l := looked{fine.Validate()}
			for _, n := range bads {
				l = append(l, query.FieldName(n).Validate())
			}
			return l
		}
	case 1:
		s.what, s.ask = "TableOrError", func() looked { _, err := query.TableOrError(text); return looked{err} }
	case 2:
		s.what, s.ask = "FieldOrError", func() looked { _, err := query.FieldOrError(text); return looked{err} }
	case 3:
		s.what, s.ask = "refused names", refused(func() { query.Table(text) })
	case 4:
		s.what, s.ask = "refused names", refused(func() { query.Field(text) })
	case 5:
		s.what, s.ask = "refused orderings", refused(func() {
			if r := len(bad) % 3; r == 0 {
				query.ASC(query.FieldName(bad))
			} else if r == 1 {
				query.DESC(query.FieldName(bad))
			}
			query.OrderBy(fine, query.SortDirection(bad))
		})
	case 6:
		s.what, s.ask = "refused fields", refused(func() { query.NewFields(name, 3) })
	case 7:
		m := query.ValuesMap{bad: 1}
		s.what, s.ask = "ValuesMap", func() looked { fs, err := m.FieldValues(); return looked{len(fs), err} }
	case 8:
		op, join := query.Operation(r.N(9)-2), query.TableJoinType(r.N(9)-2)
		s.what, s.ask = "names of operations", func() looked {
			return looked{op.String(), op.New().Operation().String(), join.String(), query.JoinType(name).String()}
		}
	case 9:
		tn := query.TableName(name)
		v := fine.Value(1)
		var none query.TableIdent
		f := pick(r, func() (string, []any, error) { return query.InsertInto(tn).BuildQueryAndParams() },
			func() (string, []any, error) { return query.InsertInto("").Values(v).BuildQueryAndParams() },
			func() (string, []any, error) { return query.Update(tn).Set(v).BuildQueryAndParams() },
			func() (string, []any, error) { return query.Update(tn).Where(fine.IsNull()).BuildQueryAndParams() },
			func() (string, []any, error) {
				return query.Update("").Set(v).Where(fine.IsNull()).BuildQueryAndParams()
			},
			func() (string, []any, error) { return query.Delete(tn).BuildQueryAndParams() },
			func() (string, []any, error) { return query.Delete("").Where(fine.IsNull()).BuildQueryAndParams() },
			func() (string, []any, error) { return none.Select().BuildQueryAndParams() },
			func() (string, []any, error) { return none.SelectMany().BuildQueryAndParams() },
			func() (string, []any, error) { return none.SelectOne().BuildQueryAndParams() },
			func() (string, []any, error) { return none.Count().BuildQueryAndParams() },
			func() (string, []any, error) {
				return tn.Select().Join(none, query.LeftJoin).On(fine.Field(), fine.Field()).BuildQueryAndParams()
			})
		s.what, s.ask = "failing builds", func() looked { sql, params, err := f(); return looked{sql, len(params), err} }
	case 10:
		names := []query.FieldName{fine, "a", fine, "b", "a"}
		s.what, s.ask = "UniqFieldNames", func() looked {
			l := looked{}
			for _, n := range query.UniqFieldNames(names) {
				l = append(l, n)
			}
			return l
		}
	default:
		f := query.Field(name).Of("t")
		s.what, s.ask = "names of fields", func() looked {
			return looked{f.TableFieldName(), f.RenderTableSpec(), f.RenderField(), query.TableName(name).Field("x").RenderSpec(), query.TableName(name).Ident().RenderFrom()}
		}
	}
	w.add("said", s, "%s (%q)", s.what, pick(r, bad, text))
	w.ops["asked: "+s.what]++
	if g.verbose {
		g.step("  %q %q", bad, text)
	}
}

// stepGrow extends one object in the same way many times over and then derives several
// objects from what came of it: lists which grow by one element keep spare storage only
// at certain lengths.
func (w *world) stepGrow() {
	g, r := w.g, w.r
	var o *wobj
	var what string
	var next func(v any) any
	op := pick(r, query.LogicalAND, query.LogicalOR)
	size := func(v any) int { return 0 }
	selSize := func(v any) int { return len(v.(selectBuilder).RenderSQL()) }
	condSize := func(v any) int { return len(v.(query.Condition).RenderSQL()) }
	cond := func() query.Condition { return w.pick("cond").v.(query.Condition) }
	value := func() query.FieldValue { return w.pick("value").v.(query.FieldValue) }
	sorting := func() query.FieldSorting { return w.pick("sort").v.(query.FieldSorting) }
	join := func(v any) any {
		id := w.pick("table").v.(query.TableIdent)
		typ := g.joinType()
		switch v := v.(type) {
		case query.BaseSelectBuilder:
			return wjoin{b: v.Join(id, typ)}
		case query.SelectManyBuilder:
			return wjoin{m: v.Join(id.TableName(), typ)}
		default:
			return wjoin{s: v.(query.SelectSingleBuilder).Join(id.TableName(), typ)}
		}
	}
	on := func(j any) any {
		l, _ := g.joinField("a")
		rr, _ := g.joinField("b")
		switch v := j.(wjoin); {
		case v.b != nil:
			return v.b.On(l, rr)
		case v.m != nil:
			return v.m.On(l, rr)
		default:
			return v.s.On(l, rr)
		}
	}
	joining := false
	switch r.N(9) {
	case 0, 1, 2:
		what, o, size, joining = "Join.On", w.pickSelect(), selSize, true
		next = func(v any) any { return on(join(v)) }
	case 3:
		what, o, size = "OrderBy", w.pick("many"), selSize
		next = func(v any) any { return v.(query.SelectManyBuilder).OrderBy(sorting()) }
	case 4:
		what, o, size = "Where", w.pickSelect(), selSize
		next = func(v any) any {
			switch v := v.(type) {
			case query.BaseSelectBuilder:
				return v.Where(cond())
			case query.SelectManyBuilder:
				return v.Where(cond())
			default:
				return v.(query.SelectSingleBuilder).Where(cond())
			}
		}
	case 5:
		kind := pick(r, "ins", "upd")
		what, o = "Values/Set", w.pick(kind)
		next = func(v any) any {
			if v, ok := v.(query.InsertBuilder); ok {
				return v.Values(value())
			}
			return v.(query.UpdateBuilder).Set(value())
		}
	case 6:
		what, o = "WhereClause.Group", w.pick("where")
		size = func(v any) int { return len(v.(query.WhereClause).RenderSQL()) }
		next = func(v any) any {
			if op == query.LogicalAND {
				return v.(query.WhereClause).GroupAND(cond())
			}
			return v.(query.WhereClause).GroupOR(cond())
		}
	case 7:
		what, o, size = "Group.Group", w.pick("cond"), condSize
		next = func(v any) any {
			grp, ok := v.(query.Group)
			if !ok {
				return query.NewGroup(op, v.(query.Condition))
			}
			if op == query.LogicalAND {
				return grp.GroupAND(cond())
			}
			return grp.GroupOR(cond())
		}
	default:
		what, o, size = "And/Or", w.pick("cond"), condSize
		next = func(v any) any {
			if op == query.LogicalAND {
				return v.(query.Condition).And(cond())
			}
			return v.(query.Condition).Or(cond())
		}
	}
	if o == nil || w.big(o) {
		w.newWrite()
		return
	}
	v, n := o.v, 0
	for k := 1 + r.N(20); n < k && size(v) < 3000; n++ {
		v = next(v)
	}
	p := w.add(o.kind, v, "o%d, %s %d times", o.id, what, n)
	var begun []*wobj
	for i := 2 + r.N(2); i > 0; i-- {
		if p.kids++; joining && r.P(70) {
			begun = append(begun, w.add("join", join(v), "o%d.Join()", p.id))
		} else {
			w.add(o.kind, next(v), "o%d.%s", p.id, what)
		}
	}
	for i := 0; i < len(begun); i++ {
		j := begun[r.N(len(begun))]
		w.add(o.kind, on(j.v), "o%d.On()", j.id)
	}
	w.ops["grown and forked"]++
}

func tooBig(x query.Condition) bool { return len(x.RenderSQL()) > 1500 }

func (w *world) stepCond() {
	g, r := w.g, w.r
	o := w.pick("cond")
	x := o.v.(query.Condition)
	if r.P(25) || tooBig(x) {
		g.budget = 3
		m := g.cond(r.N(2))
		w.add("cond", m.obj, "%s", m.src)
		return
	}
	grp, isGroup := o.v.(query.Group)
	add := func(v query.Condition, format string, a ...any) {
		w.add("cond", v, format, a...)
	}
	op := pick(r, query.LogicalAND, query.LogicalOR)
	switch k := r.N(16); {
	case k < 5 && isGroup:
		cs, ids := w.condArgs("Group.GroupAND/OR", 3)
		if op == query.LogicalAND {
			add(grp.GroupAND(cs...), "o%d.GroupAND(%s)", o.id, ids)
		} else {
			add(grp.GroupOR(cs...), "o%d.GroupOR(%s)", o.id, ids)
		}
		w.ops["group extended"]++
	case k < 6:
		cs, ids := w.condArgs("Condition.And/Or", 3)
		if op == query.LogicalAND {
			add(x.And(cs...), "o%d.And(%s)", o.id, ids)
		} else {
			add(x.Or(cs...), "o%d.Or(%s)", o.id, ids)
		}
		w.ops["condition extended"]++
	case k < 8:
		cs, ids := w.condArgs("And/Or", 3)
		if op == query.LogicalAND {
			add(query.And(x, cs...), "And(o%d; %s)", o.id, ids)
		} else {
			add(query.Or(x, cs...), "Or(o%d; %s)", o.id, ids)
		}
		w.ops["condition extended"]++
	case k < 11:
		cs, ids := w.condArgs("NewGroup", 4)
		add(query.NewGroup(op, cs...), "NewGroup(%s; %s)", op, ids)
		w.ops["NewGroup"]++
	case k < 12:
		cs, ids := w.condArgs("SetToAll", 4)
		out := op.SetToAll(cs...)
		for i, y := range out {
			add(y, "%s.SetToAll(%s)[%d]", op, ids, i)
		}
		// the result belongs to the caller
		for i := range out {
			out[i] = junkCond()
		}
		w.ops["SetToAll"]++
	case k < 13:
		cs, ids := w.condArgs("JoinType.Join", 3)
		if len(cs) > 0 {
			add(op.Join(cs...), "%s.Join(%s)", op, ids)
			w.ops["JoinType.Join"]++
		}
	case k < 14 && isGroup:
		add(grp.WithBrackets(), "o%d.WithBrackets()", o.id)
		w.ops["WithBrackets"]++
	case k < 14:
		add(x.Negate(r.P(70)), "o%d.Negate", o.id)
		w.ops["Negate"]++
	case k < 15:
		add(x.ApplyFieldTable(query.TableName(g.newName("t"))), "o%d.ApplyFieldTable", o.id)
		w.ops["ApplyFieldTable"]++
	default:
		spec := w.specOf(x)
		add(x.ApplyFieldSpec(spec), "o%d.ApplyFieldSpec(%s)", o.id, spec.RenderSpec())
		w.ops["ApplyFieldSpec"]++
	}
}

// specOf draws a field specification that probably matches something inside x.
func (w *world) specOf(x query.Condition) query.FieldDefinition {
	n, _, err := parsePredicate(x.Render(0))
	var names []string
	if err == nil && n != nil {
		var walk func(*Node)
		walk = func(n *Node) {
			if n.Leaf != nil {
				if c, ok := splitCol(n.Leaf.Col); ok {
					names = append(names, c.Name)
				}
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(n)
	}
	if len(names) == 0 {
		return w.pick("field").v.(query.FieldDefinition)
	}
	f := query.Field(names[w.r.N(len(names))]).Of(query.TableName(w.g.newName("t")))
	if w.r.P(30) {
		f = f.As(query.FieldName(w.g.newName("a")))
	}
	return f
}

// big objects are not extended any further.
func (w *world) big(o *wobj) bool {
	switch v := o.v.(type) {
	case selectBuilder:
		return len(v.RenderSQL()) > 4000
	case writeBuilder:
		sql, _, _ := v.BuildQueryAndParams()
		return len(sql) > 4000
	}
	return false
}

func (w *world) stepWhere() {
	o := w.pick("where")
	v := o.v.(query.WhereClause)
	if len(v.RenderSQL()) > 3000 {
		w.add("where", query.NewWhere(), "NewWhere()")
		return
	}
	switch w.r.N(5) {
	case 0, 1, 2:
		cs, ids := w.condArgs("WhereClause.GroupAND", 3)
		w.add("where", v.GroupAND(cs...), "o%d.GroupAND(%s)", o.id, ids)
	case 3:
		cs, ids := w.condArgs("WhereClause.GroupOR", 3)
		w.add("where", v.GroupOR(cs...), "o%d.GroupOR(%s)", o.id, ids)
	default:
		spec := w.pick("field").v.(query.FieldDefinition)
		if cs := v.Conditions(); len(cs) > 0 {
			spec = w.specOf(cs[w.r.N(len(cs))])
		}
		w.add("where", v.ApplyFieldSpec(spec), "o%d.ApplyFieldSpec(%s)", o.id, spec.RenderSpec())
	}
	w.ops["where derivations"]++
}

func (w *world) pickSelect() *wobj {
	kind := pick(w.r, "base", "many", "many", "single")
	if len(w.by[kind]) == 0 {
		for _, kind = range []string{"base", "many", "single"} {
			if len(w.by[kind]) > 0 {
				break
			}
		}
	}
	o := w.pick(kind)
	if w.big(o) {
		w.newSelect()
		return w.objs[len(w.objs)-1]
	}
	return o
}

func (w *world) stepSelect() {
	g, r := w.g, w.r
	o := w.pickSelect()
	w.ops["select derivations"]++
	switch v := o.v.(type) {
	case query.BaseSelectBuilder:
		switch r.N(12) {
		case 0, 1:
			w.add("base", v.Fields(w.fieldArgs("Fields", 5)...), "o%d.Fields(...)", o.id)
		case 2, 3, 4:
			cs, ids := w.condArgs("Where", 3)
			w.add("base", v.Where(cs...), "o%d.Where(%s)", o.id, ids)
		case 5:
			w.add("many", v.Many(), "o%d.Many()", o.id)
		case 6:
			w.add("single", v.Single(), "o%d.Single()", o.id)
		case 7:
			w.add("many", v.OrderBy(w.sortArgs("OrderBy", 3)...), "o%d.OrderBy(...)", o.id)
		case 8:
			w.add("many", pick(r, v.Limit(g.limit()), v.Offset(g.offset())), "o%d.Limit/Offset", o.id)
		case 9:
			w.add("count", v.Count(), "o%d.Count()", o.id)
		case 10:
			w.add("upd", v.Update(w.valueArgs("select.Update", 3)...), "o%d.Update(...)", o.id)
		default:
			w.add("del", v.Delete(), "o%d.Delete()", o.id)
		}
	case query.SelectManyBuilder:
		switch r.N(14) {
		case 0, 1:
			w.add("many", v.Fields(w.fieldArgs("Fields", 5)...), "o%d.Fields(...)", o.id)
		case 2, 3, 4:
			cs, ids := w.condArgs("Where", 3)
			w.add("many", v.Where(cs...), "o%d.Where(%s)", o.id, ids)
		case 5, 6, 7:
			w.add("many", v.OrderBy(w.sortArgs("OrderBy", 3)...), "o%d.OrderBy(...)", o.id)
		case 8:
			w.add("many", v.Limit(g.limit()), "o%d.Limit", o.id)
		case 9:
			w.add("many", v.Offset(g.offset()), "o%d.Offset", o.id)
		case 10:
			w.add("count", pick(r, v.Count(), query.Count(v.BaseSelectBuilder, "n")), "o%d.Count()", o.id)
		case 11:
			w.add("upd", v.Update(w.valueArgs("select.Update", 3)...), "o%d.Update(...)", o.id)
		case 12:
			w.add("del", v.Delete(), "o%d.Delete()", o.id)
		default:
			w.add("base", v.BaseSelectBuilder, "o%d.BaseSelectBuilder", o.id)
		}
	case query.SelectSingleBuilder:
		switch r.N(10) {
		case 0, 1:
			w.add("single", v.Fields(w.fieldArgs("Fields", 5)...), "o%d.Fields(...)", o.id)
		case 2, 3, 4:
			cs, ids := w.condArgs("Where", 3)
			w.add("single", v.Where(cs...), "o%d.Where(%s)", o.id, ids)
		case 5:
			w.add("many", v.OrderBy(w.sortArgs("OrderBy", 3)...), "o%d.OrderBy(...)", o.id)
		case 6:
			w.add("count", v.Count(), "o%d.Count()", o.id)
		case 7:
			w.add("upd", v.Update(w.valueArgs("select.Update", 3)...), "o%d.Update(...)", o.id)
		case 8:
			w.add("ins", v.InsertInto(w.valueArgs("select.InsertInto", 3)...), "o%d.InsertInto(...)", o.id)
		default:
			w.add("many", v.Many(), "o%d.Many()", o.id)
		}
	}
}

func (w *world) stepJoin() {
	g, r := w.g, w.r
	if j := w.pick("join"); j != nil && r.P(55) {
		l, _ := g.joinField("a")
		rr, _ := g.joinField("b")
		v := j.v.(wjoin)
		switch {
		case v.b != nil:
			w.add("base", v.b.On(l, rr), "o%d.On(%s, %s)", j.id, l.RenderSpec(), rr.RenderSpec())
		case v.m != nil:
			w.add("many", v.m.On(l, rr), "o%d.On(%s, %s)", j.id, l.RenderSpec(), rr.RenderSpec())
		default:
			w.add("single", v.s.On(l, rr), "o%d.On(%s, %s)", j.id, l.RenderSpec(), rr.RenderSpec())
		}
		w.ops["joins finished"]++
		return
	}
	t := w.pick("table")
	id := t.v.(query.TableIdent)
	typ := g.joinType()
	w.ops["joins begun"]++
	if r.P(10) {
		t2 := w.pick("table")
		left := t2.v.(query.TableIdent)
		switch r.N(4) {
		case 0:
			w.add("join", wjoin{b: typ.Tables(left, id)}, "%s.Tables(o%d, o%d)", typ, t2.id, t.id)
		case 1:
			w.add("join", wjoin{b: left.TableName().Join(id, typ)}, "o%d.TableName().Join(o%d)", t2.id, t.id)
		case 2:
			w.add("join", wjoin{b: pickJoin(typ, func() query.IncompleteSelectJoin { return left.InnerJoin(id) },
				func() query.IncompleteSelectJoin { return left.LeftJoin(id) },
				func() query.IncompleteSelectJoin { return left.RightJoin(id) },
				func() query.IncompleteSelectJoin { return left.FullJoin(id) })}, "o%d.%s(o%d)", t2.id, typ, t.id)
		default:
			w.add("join", wjoin{b: left.Join(id, typ)}, "o%d.Join(o%d)", t2.id, t.id)
		}
		return
	}
	o := w.pickSelect()
	switch v := o.v.(type) {
	case query.BaseSelectBuilder:
		w.add("join", wjoin{b: v.Join(id, typ)}, "o%d.Join(o%d)", o.id, t.id)
	case query.SelectManyBuilder:
		w.add("join", wjoin{m: v.Join(id.TableName(), typ)}, "o%d.Join(o%d)", o.id, t.id)
	case query.SelectSingleBuilder:
		w.add("join", wjoin{s: v.Join(id.TableName(), typ)}, "o%d.Join(o%d)", o.id, t.id)
	}
}

func (w *world) stepWrite() {
	r := w.r
	kind := pick(r, "ins", "upd", "upd", "del")
	o := w.pick(kind)
	if o == nil || w.big(o) {
		w.newWrite()
		return
	}
	w.ops["write derivations"]++
	switch v := o.v.(type) {
	case query.InsertBuilder:
		w.add("ins", v.Values(w.valueArgs("Values", 3)...), "o%d.Values(...)", o.id)
	case query.UpdateBuilder:
		if r.P(50) {
			w.add("upd", v.Set(w.valueArgs("Set", 3)...), "o%d.Set(...)", o.id)
			return
		}
		cs, ids := w.condArgs("UpdateBuilder.Where", 3)
		w.add("upd", v.Where(cs...), "o%d.Where(%s)", o.id, ids)
	case query.DeleteBuilder:
		cs, ids := w.condArgs("DeleteBuilder.Where", 3)
		w.add("del", v.Where(cs...), "o%d.Where(%s)", o.id, ids)
	}
}
