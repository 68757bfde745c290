package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/amarin/query"
)

// SelModel is what a SELECT program requested.
type SelModel struct {
	table  TableRef
	joins  []JoinItem
	fields []FieldItem
	where  *Pred
	order  []OrderItem
	offset uint
	limit  int
}

// Sel is a SELECT builder of one of the three kinds with its model.
type Sel struct {
	kind   string // base many single
	base   query.BaseSelectBuilder
	many   query.SelectManyBuilder
	single query.SelectSingleBuilder
	m      SelModel
}

type selectBuilder interface {
	BuildQueryAndParams() (string, []interface{}, error)
	Render(int) string
	RenderSQL() string
	Values() []any
	RenderFrom() string
	TableName() query.TableName
	Operation() query.Operation
	FieldDefinitions() []query.FieldDefinition
	String() string
}

func (s *Sel) obj() selectBuilder {
	switch s.kind {
	case "many":
		return s.many
	case "single":
		return s.single
	}
	return s.base
}

// asBase is the base builder inside any kind.
func (s *Sel) asBase() query.BaseSelectBuilder {
	switch s.kind {
	case "many":
		return s.many.BaseSelectBuilder
	case "single":
		return s.single.BaseSelectBuilder
	}
	return s.base
}

// ---------------------------------------------------------------- pieces

type tableArg struct {
	ref  TableRef
	spec string // textual form
}

func (g *gctx) table() tableArg {
	name := ""
	if g.sch != nil {
		name = g.sch.take(g.r)
	} else {
		name = g.newName("t")
	}
	t := tableArg{ref: TableRef{Name: name}, spec: name}
	switch g.r.N(6) {
	case 0:
		t.ref.Alias = g.newName("ta")
		t.spec = name + pick(g.r, " AS ", " as ", " aS  ", "\tAS ") + t.ref.Alias
	case 1:
		t.ref.Alias = g.newName("ta")
		t.spec = name + pick(g.r, " ", "  ", "\t") + t.ref.Alias
	case 2:
		if g.r.P(30) { // alias equal to name is dropped
			t.spec = name + pick(g.r, " AS ", " ") + name
		}
	}
	if g.sch != nil {
		g.sch.real[t.ref2()] = name
	}
	return t
}

func (t tableArg) ident(r *Rng) query.TableIdent {
	if t.ref.Alias != "" && r.P(50) {
		return query.Table(query.TableName(t.ref.Name)).As(query.TableName(t.ref.Alias))
	}
	switch r.N(3) {
	case 0:
		return query.Table(t.spec)
	case 1:
		return query.Table(query.TableName(t.spec))
	default:
		return query.TableName(t.spec).Ident()
	}
}

func (t tableArg) ref2() string {
	if t.ref.Alias != "" {
		return t.ref.Alias
	}
	return t.ref.Name
}

// joinField draws a table-qualified field for ON.
// joinFieldAny also draws columns named without a table.
func (g *gctx) joinFieldAny(table string) (query.FieldDefinition, Col) {
	if !g.r.P(8) {
		return g.joinField(table)
	}
	name := g.joinName(table)
	g.op("join column without table")
	switch g.r.N(3) {
	case 0:
		return query.Field(name), Col{"", name}
	case 1:
		return query.Field(name + " AS " + g.newName("x")), Col{"", name}
	default:
		return query.TableName(table).Field(query.FieldName(name)).Of(""), Col{"", name}
	}
}

func (g *gctx) joinName(table string) string {
	if g.sch != nil {
		return g.sch.column(g.r, table, "int")
	}
	return g.newName("j")
}

func (g *gctx) joinField(table string) (query.FieldDefinition, Col) {
	name := g.joinName(table)
	col := Col{table, name}
	switch g.r.N(6) {
	case 0:
		return query.Field(table + "." + name), col
	case 1:
		return query.Field(query.FieldName(table + "." + name + " AS " + g.newName("x"))), col
	case 2:
		return query.TableName(table).Field(query.FieldName(name)), col
	case 3:
		return query.Field(name).Of(query.TableName(table)).As("zz"), col
	case 4:
		return query.Table(table).Field(query.FieldName(name)), col
	default:
		return query.FieldName(name).Field().Of(query.TableName(table)), col
	}
}

// field draws a field for the SELECT list.
func (g *gctx) field() (query.FieldDefinition, FieldItem) {
	it := FieldItem{Col: Col{"", ""}}
	if g.sch != nil {
		it.Col = g.sch.anyColumn(g.r, g.tables)
	} else {
		it.Name = g.newName("f")
		if g.r.P(10) {
			it.Name = pick(g.r, "id", "name")
		}
		if g.r.P(40) {
			it.Table = pick(g.r, append([]string{"t1"}, g.tables...)...)
		}
	}
	if g.sch == nil && g.r.P(3) {
		it.Name = "*" // every column, perhaps of one table
	} else if g.r.P(35) {
		it.Alias = g.newName("fa")
		if g.r.P(10) {
			it.Alias = it.Name
		}
	}
	spec := it.Col.String()
	if it.Alias != "" {
		spec += pick(g.r, " AS ", " as ") + it.Alias
	}
	var f query.FieldDefinition
	switch g.r.N(5) {
	case 0:
		f = query.Field(spec)
	case 1:
		f = query.Field(query.FieldName(spec))
	case 2:
		f = query.FieldName(spec).Field()
	case 3:
		p, err := query.FieldOrError(spec)
		if err != nil {
			panic(fmt.Sprintf("FieldOrError(%q): %v", spec, err))
		}
		f = *p
	default:
		f = query.Field(it.Name)
		if it.Table != "" {
			f = f.Of(query.TableName(it.Table))
		}
		if it.Alias != "" {
			f = f.As(query.FieldName(it.Alias))
		}
	}
	return f, it
}

func (g *gctx) fields(max int) (fs []query.FieldDefinition, items []FieldItem) {
	n := g.many(min(4, max), max)
	for i := 0; i < n; i++ {
		if i > 0 && g.r.P(5) {
			k := g.r.N(i)
			fs, items = append(fs, fs[k]), append(items, items[k])
			continue
		}
		f, it := g.field()
		fs, items = append(fs, f), append(items, it)
	}
	return
}

func (g *gctx) sorting() (query.FieldSorting, OrderItem) {
	name := ""
	if g.sch != nil {
		name = g.sch.anyColumn(g.r, g.tables).String()
	} else {
		name = g.newName("o")
	}
	if g.sch == nil && g.r.P(30) {
		name = pick(g.r, append([]string{"t1"}, g.tables...)...) + "." + name
	}
	f := query.FieldName(name)
	if !g.plainSort && g.r.P(12) { // retargeted: by alias or by column of some table
		s, dir := query.ASC(f), "ASC"
		if g.r.P(50) {
			s, dir = query.DESC(f), "DESC"
		}
		bare := string(s.FieldName())
		spec := pick(g.r, "t1", "t2", "tz") + "." + bare
		want := spec
		if g.r.P(60) {
			want = g.newName("oa")
			if want == bare { // an alias which is the name anyway is none
				want = g.freshName("oa")
			}
			spec += " AS " + want
		}
		g.op("retargeted sorting")
		return s.ApplyFieldSpec(query.Field(spec)), OrderItem{want, dir}
	}
	switch g.r.N(5) {
	case 0:
		return query.ASC(f), OrderItem{name, "ASC"}
	case 1:
		return query.DESC(f), OrderItem{name, "DESC"}
	case 2:
		return query.OrderBy(f), OrderItem{name, "ASC"}
	case 3:
		return query.OrderBy(f, query.Ascending), OrderItem{name, "ASC"}
	default:
		return query.OrderBy(f, query.Descending), OrderItem{name, "DESC"}
	}
}

func (g *gctx) sortings() (fs []query.FieldSorting, items []OrderItem) {
	for n := g.many(2, 6); n > 0; n-- {
		if len(fs) > 0 && g.r.P(8) {
			fs, items = append(fs, fs[0]), append(items, items[0])
			continue
		}
		f, it := g.sorting()
		fs, items = append(fs, f), append(items, it)
	}
	return
}

// whereMembers draws the argument list of one Where call.
func (g *gctx) whereMembers(depth int) []*MC {
	if g.r.P(5) || g.budget <= 0 {
		return nil
	}
	return g.members(depth, 3)
}

// addWhere prepares a Where call on a builder whose predicate is cur.
func (g *gctx) addWhere(cur *Pred, ms []*MC) (cs []query.Condition, pred *Pred, src string) {
	if cur == nil {
		if g.r.P(6) {
			for n := g.r.Between(2, 6); len(ms) < n; {
				ms = append(ms, g.cond(g.r.N(2)))
			}
		}
		return g.rawList(ms)
	}
	add := conj(ms)
	if add == nil {
		return objs(ms), cur, srcs(ms)
	}
	return objs(ms), pFold("and", cur, add), srcs(ms)
}

func (g *gctx) offset() uint {
	if g.sch != nil {
		return pick(g.r, uint(0), 0, 0, 1, 1, 2, 3, 5, 100)
	}
	if g.r.N(8) == 0 {
		return 0
	}
	n := g.positive(math.MaxUint)
	g.pages[0] = n
	return n
}

func (g *gctx) limit() int {
	if g.sch != nil {
		return pick(g.r, -1, 0, 1, 1, 2, 3, 4, 6, 50)
	}
	switch g.r.N(10) {
	case 0:
		return 0
	case 1:
		return pick(g.vr, -1, 0, -1-g.vr.N(100000), math.MinInt)
	}
	n := g.positive(math.MaxInt)
	g.pages[1] = n
	return int(n)
}

// positive draws a number of rows up to max. What is drawn for offsets and limits may
// coincide or be close.
func (g *gctx) positive(max uint) uint {
	r := g.vr
	var n uint
	switch r.N(8) {
	case 0:
		n = 1
	case 1:
		n = max
	case 2:
		n = uint(r.Between(2, 40))
	case 3:
		n = pick(r, uint(math.MaxInt32), 1<<31, 1<<32, math.MaxInt64, 1<<63, 100, 128, 255, 256, 1000)
	case 4:
		n = g.pages[r.N(2)] + pick(r, uint(0), 0, 0, 1, math.MaxUint)
	case 5:
		n = uint(g.valID) // as many as values
	default:
		n = 1000000 + uint(g.uniq())
	}
	if n == 0 || n > max {
		n = max
	}
	return n
}

// ---------------------------------------------------------------- SELECT programs

func (g *gctx) newSel() *Sel {
	if g.sch != nil {
		g.sch.begin()
	}
	t := g.table()
	if g.sch != nil {
		g.sch.target = t.ref.Name
	}
	s := &Sel{m: SelModel{table: t.ref, limit: -1}}
	g.tables = append([]string{}, t.ref2())
	depth := g.r.Size(2, 5)
	form := g.r.N(3)
	conds := func() []query.Condition {
		cs, pred, src := g.addWhere(nil, g.whereMembers(depth))
		s.m.where = pred
		g.step("  filter: %s", src)
		return cs
	}
	switch g.r.N(10) {
	case 0, 1, 2:
		s.kind = "base"
		switch form {
		case 0:
			s.base = query.SelectFrom(t.spec)
		case 1:
			s.base = query.SelectFrom(query.TableName(t.spec))
		default:
			s.base = query.SelectFrom(t.ident(g.r))
		}
		g.step("SelectFrom(%q)", t.spec)
	case 3:
		s.kind = "base"
		g.step("Table(%q).Select", t.spec)
		if form == 0 {
			s.base = query.TableName(t.spec).Select(conds()...)
		} else {
			s.base = t.ident(g.r).Select(conds()...)
		}
	case 4:
		s.kind = "base"
		jt := g.table()
		l, lc := g.joinFieldAny(t.ref2())
		r, rc := g.joinFieldAny(jt.ref2())
		typ := g.joinType()
		g.step("Table(%q) %s %q ON %v=%v", t.spec, typ, jt.spec, lc, rc)
		var inc query.IncompleteSelectJoin
		ji := jt.ident(g.r)
		switch {
		case form == 0:
			inc = typ.Tables(t.ident(g.r), ji)
		case form == 1 && g.r.P(50):
			inc = query.TableName(t.spec).Join(ji, typ)
		case form == 1:
			tn := query.TableName(t.spec)
			inc = pickJoin(typ, func() query.IncompleteSelectJoin { return tn.InnerJoin(ji) },
				func() query.IncompleteSelectJoin { return tn.LeftJoin(ji) },
				func() query.IncompleteSelectJoin { return tn.RightJoin(ji) },
				func() query.IncompleteSelectJoin { return tn.FullJoin(ji) })
		default:
			ti := t.ident(g.r)
			inc = pickJoin(typ, func() query.IncompleteSelectJoin { return ti.InnerJoin(ji) },
				func() query.IncompleteSelectJoin { return ti.LeftJoin(ji) },
				func() query.IncompleteSelectJoin { return ti.RightJoin(ji) },
				func() query.IncompleteSelectJoin { return ti.FullJoin(ji) })
		}
		s.base = inc.On(l, r)
		s.m.joins = append(s.m.joins, JoinItem{joinWord(typ), jt.ref, lc, rc})
		g.tables = append(g.tables, jt.ref2())
	case 5, 6:
		s.kind = "many"
		switch form {
		case 0:
			s.many = query.SelectManyFrom(t.spec)
		case 1:
			s.many = query.SelectManyFrom(query.TableName(t.spec))
		default:
			s.many = query.SelectManyFrom(t.ident(g.r))
		}
		g.step("SelectManyFrom(%q)", t.spec)
	case 7:
		g.step("Table(%q).SelectMany/SelectOne", t.spec)
		switch g.r.N(4) {
		case 0:
			s.kind, s.many = "many", query.TableName(t.spec).SelectMany(conds()...)
		case 1:
			s.kind, s.many = "many", t.ident(g.r).SelectMany(conds()...)
		case 2:
			s.kind, s.single = "single", query.TableName(t.spec).SelectOne(conds()...)
		default:
			s.kind, s.single = "single", t.ident(g.r).SelectOne(conds()...)
		}
	default:
		s.kind = "single"
		switch form {
		case 0:
			s.single = query.SelectSingleFrom(t.spec)
		case 1:
			s.single = query.SelectSingleFrom(query.TableName(t.spec))
		default:
			s.single = query.SelectSingleFrom(t.ident(g.r))
		}
		g.step("SelectSingleFrom(%q)", t.spec)
	}
	return s
}

func (g *gctx) joinType() query.TableJoinType {
	return pick(g.r, query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin)
}

func joinWord(t query.TableJoinType) string {
	switch t {
	case query.InnerJoin:
		return "INNER"
	case query.LeftJoin:
		return "LEFT"
	case query.RightJoin:
		return "RIGHT"
	}
	return "FULL"
}

func pickJoin[T any](t query.TableJoinType, in, le, ri, fu func() T) T {
	switch t {
	case query.InnerJoin:
		return in()
	case query.LeftJoin:
		return le()
	case query.RightJoin:
		return ri()
	}
	return fu()
}

func (g *gctx) stepFields(s *Sel) {
	fs, items := g.fields(9)
	g.step(".Fields(%v)", items)
	switch s.kind {
	case "base":
		s.base = s.base.Fields(fs...)
	case "many":
		s.many = s.many.Fields(fs...)
	default:
		s.single = s.single.Fields(fs...)
	}
	s.m.fields = items
	g.op("sel:Fields")
}

func (g *gctx) stepWhere(s *Sel, depth int) {
	cs, pred, src := g.addWhere(s.m.where, g.whereMembers(depth))
	g.step(".Where(%s)", src)
	switch s.kind {
	case "base":
		s.base = s.base.Where(cs...)
	case "many":
		s.many = s.many.Where(cs...)
	default:
		s.single = s.single.Where(cs...)
	}
	s.m.where = pred
	g.op("sel:Where")
}

// joinArgs are what a join was made with.
type joinArgs struct {
	jt     tableArg
	l, r   query.FieldDefinition
	lc, rc Col
}

func (g *gctx) stepJoin(s *Sel) {
	if g.sch != nil && g.sch.left() == 0 {
		return
	}
	jt := g.table()
	typ := g.joinType()
	l, lc := g.joinFieldAny(pick(g.r, g.tables...))
	r, rc := g.joinFieldAny(jt.ref2())
	if p := g.lastJoin; p != nil && g.sch == nil && g.r.P(12) { // the same table again, by the same columns or by others
		jt = p.jt
		if g.r.P(60) {
			l, r, lc, rc = p.l, p.r, p.lc, p.rc
			if g.r.P(30) {
				l, r, lc, rc = p.r, p.l, p.rc, p.lc
			}
		}
		g.op("table joined again")
	}
	if g.r.P(15) { // joined table first
		l, r, lc, rc = r, l, rc, lc
	}
	g.lastJoin = &joinArgs{jt, l, r, lc, rc}
	direct := g.r.P(40)
	g.step(".%s(%q).On(%v, %v)", typ, jt.spec, lc, rc)
	switch s.kind {
	case "base":
		b, ti := s.base, jt.ident(g.r)
		if direct {
			s.base = b.Join(ti, typ).On(l, r)
		} else {
			s.base = pickJoin(typ, func() query.BaseSelectBuilder { return b.InnerJoin(ti).On(l, r) },
				func() query.BaseSelectBuilder { return b.LeftJoin(ti).On(l, r) },
				func() query.BaseSelectBuilder { return b.RightJoin(ti).On(l, r) },
				func() query.BaseSelectBuilder { return b.FullJoin(ti).On(l, r) })
		}
	case "many":
		b, tn := s.many, query.TableName(jt.spec)
		if direct {
			s.many = b.Join(tn, typ).On(l, r)
		} else {
			s.many = pickJoin(typ, func() query.SelectManyBuilder { return b.InnerJoin(tn).On(l, r) },
				func() query.SelectManyBuilder { return b.LeftJoin(tn).On(l, r) },
				func() query.SelectManyBuilder { return b.RightJoin(tn).On(l, r) },
				func() query.SelectManyBuilder { return b.FullJoin(tn).On(l, r) })
		}
	default:
		b, tn := s.single, query.TableName(jt.spec)
		if direct {
			s.single = b.Join(tn, typ).On(l, r)
		} else {
			s.single = pickJoin(typ, func() query.SelectSingleBuilder { return b.InnerJoin(tn).On(l, r) },
				func() query.SelectSingleBuilder { return b.LeftJoin(tn).On(l, r) },
				func() query.SelectSingleBuilder { return b.RightJoin(tn).On(l, r) },
				func() query.SelectSingleBuilder { return b.FullJoin(tn).On(l, r) })
		}
	}
	s.m.joins = append(append([]JoinItem{}, s.m.joins...), JoinItem{joinWord(typ), jt.ref, lc, rc})
	g.tables = append(append([]string{}, g.tables...), jt.ref2())
	g.op("sel:Join " + joinWord(typ))
}

func (g *gctx) stepOrder(s *Sel) {
	fs, items := g.sortings()
	g.step(".OrderBy(%v)", items)
	switch s.kind {
	case "many":
		s.many = s.many.OrderBy(fs...)
	case "base":
		s.many = s.base.OrderBy(fs...)
	default:
		s.many = s.single.OrderBy(fs...)
	}
	s.kind = "many"
	s.m.order = append(append([]OrderItem{}, s.m.order...), items...)
	g.op("sel:OrderBy")
}

func (g *gctx) stepOffset(s *Sel) {
	o := g.offset()
	g.step(".Offset(%d)", o)
	switch s.kind {
	case "many":
		s.many = s.many.Offset(o)
	case "base":
		s.many = s.base.Offset(o)
	default:
		s.many = s.single.Offset(o)
	}
	s.kind, s.m.offset = "many", o
	g.op("sel:Offset")
}

func (g *gctx) stepLimit(s *Sel) {
	l := g.limit()
	g.step(".Limit(%d)", l)
	switch s.kind {
	case "many":
		s.many = s.many.Limit(l)
	case "base":
		s.many = s.base.Limit(l)
	default:
		s.many = s.single.Limit(l)
	}
	s.kind, s.m.limit = "many", l
	g.op("sel:Limit")
}

// stepConvert changes the kind of the builder. From a many-row builder only when
// it has no ordering or pagination (what happens to those is not specified).
func (g *gctx) stepConvert(s *Sel) {
	plain := len(s.m.order) == 0 && s.m.offset == 0 && s.m.limit <= 0
	b := s.asBase()
	switch s.kind {
	case "base":
		switch g.r.N(4) {
		case 0:
			s.kind, s.many = "many", b.Many()
		case 1:
			s.kind, s.many = "many", query.SelectManyFromBase(b)
		case 2:
			s.kind, s.single = "single", b.Single()
		default:
			s.kind, s.single = "single", query.SelectSingleFromBase(b)
		}
	case "many":
		if !plain {
			return
		}
		switch g.r.N(3) {
		case 0:
			s.kind, s.single = "single", s.many.Single()
		case 1:
			s.kind, s.base = "base", b
		default:
			s.kind, s.single = "single", query.SelectSingleFromBase(b)
		}
		s.m.limit, s.m.offset = -1, 0
	default:
		switch g.r.N(3) {
		case 0:
			s.kind, s.many = "many", s.single.Many()
		case 1:
			s.kind, s.base = "base", b
		default:
			s.kind, s.single = "single", s.single.Single()
		}
	}
	g.step(" => %s", s.kind)
	g.op("sel:convert")
}

// sel draws a SELECT program with about n steps.
func (g *gctx) sel(n int) *Sel {
	s := g.newSel()
	depth := g.r.Size(2, 5)
	if g.bulk > 0 && g.r.P(30) {
		n = g.r.Between(n, g.bulk)
	}
	for ; n > 0; n-- {
		g.selStep(s, depth)
	}
	return s
}

func (g *gctx) selStep(s *Sel, depth int) {
	switch k := g.r.N(20); {
	case k < 3:
		g.stepFields(s)
	case k < 9:
		g.stepWhere(s, depth)
	case k < 12:
		g.stepJoin(s)
	case k < 14:
		g.stepConvert(s)
	case s.kind == "many" && k < 16 || k == 14 && g.r.P(40):
		g.stepOrder(s)
	case s.kind == "many" && k < 18 || k == 16 && g.r.P(40):
		g.stepOffset(s)
	case s.kind == "many" || k == 18 && g.r.P(40):
		g.stepLimit(s)
	default:
		g.stepWhere(s, depth)
	}
}

// ---------------------------------------------------------------- write statements

// SetModel is one column of an INSERT or UPDATE.
type SetModel struct {
	Col   string
	Exp   any
	Table string // as given
}

func (g *gctx) setPair() (query.FieldValue, SetModel) {
	name, v := "", Val{}
	if g.sch != nil {
		name, v = g.schSet()
	} else {
		name = g.newName("s")
		if g.dupCols && g.r.P(40) {
			name = pick(g.r, "dup", "dup2")
		}
		v = g.setValue(false)
	}
	m := SetModel{Col: name, Exp: v.exp}
	if g.sch == nil && !g.dupCols && g.r.P(30) {
		g.remember(&compared{spec: name, col: Col{"", name}, val: v})
	}
	spec := name
	if g.r.P(20) {
		m.Table = pick(g.r, "t1", "tt", name)
		spec = m.Table + "." + name
	}
	if g.r.P(6) {
		spec += " AS " + g.newName("sa")
	}
	var f query.FieldValue
	switch g.r.N(5) {
	case 0:
		f = query.FieldName(spec).Value(v.v)
	case 1:
		f = query.Field(spec).Value(v.v)
	case 2:
		f = *query.NewFieldValue(query.FieldName(spec), v.v)
	case 3:
		f = query.FieldName(name).Value(v.v).ApplyFieldTable("tx")
		m.Table = "tx"
	default:
		m.Table = "ty"
		f = query.TableName("ty").Field(query.FieldName(name)).Value(v.v)
	}
	g.op("set:" + v.kind)
	g.step("  %s := %s %s", spec, v.kind, descValue(v.v))
	return f, m
}

func (g *gctx) setPairs(min, small, max int) (fs []query.FieldValue, ms []SetModel) {
	n := g.many(small, max)
	if n < min {
		n = min
	}
	if g.sch != nil {
		if left := g.sch.setsLeft(); n > left {
			n = left
		}
	}
	for ; n > 0; n-- {
		f, m := g.setPair()
		fs, ms = append(fs, f), append(ms, m)
	}
	return
}

// Write is an INSERT, UPDATE or DELETE builder with its model.
type Write struct {
	kind   string
	ins    query.InsertBuilder
	upd    query.UpdateBuilder
	del    query.DeleteBuilder
	table  string
	sets   []SetModel
	where  *Pred
	viaSel bool
}

type writeBuilder interface {
	BuildQueryAndParams() (string, []interface{}, error)
	RenderFrom() string
	TableName() query.TableName
	Operation() query.Operation
}

func (w *Write) obj() writeBuilder {
	switch w.kind {
	case "INSERT":
		return w.ins
	case "UPDATE":
		return w.upd
	}
	return w.del
}

// write draws an INSERT, UPDATE or DELETE program. With incomplete, any part may
// be missing.
func (g *gctx) write(kind string, incomplete bool) *Write {
	w := &Write{kind: kind}
	name := ""
	if g.sch != nil {
		g.sch.begin()
		name = g.sch.take(g.r)
		g.sch.target, g.sch.real[name] = name, name
		g.tables = []string{name}
	} else {
		name = g.newName("t")
	}
	w.table = name
	noTable := incomplete && g.r.P(15)
	if noTable {
		name, w.table = "", ""
	}
	depth := g.r.Size(2, 5)
	ident := func() query.TableIdent {
		if g.r.P(40) {
			return query.Table(name).As(query.TableName(g.newName("ta")))
		}
		return query.Table(query.TableName(name))
	}
	minSet := 1
	if incomplete && g.r.P(25) {
		minSet = 0
	}
	firstSets := func() []query.FieldValue {
		if minSet == 0 {
			return nil
		}
		fs, ms := g.setPairs(0, 2, 12)
		w.sets = append(w.sets, ms...)
		return fs
	}
	noWhere := incomplete && g.r.P(30)
	filter := func() []query.Condition {
		var ms []*MC
		if noWhere {
			for g.r.P(50) {
				ms = append(ms, g.emptyMember())
			}
		} else {
			ms = g.whereMembers(depth)
		}
		cs, pred, src := g.addWhere(w.where, ms)
		g.step("  filter: %s", src)
		w.where = pred
		return cs
	}
	src := g.r.N(9)
	if noTable && src >= 2 && src != 3 {
		src = pick(g.r, 0, 1, 3)
	}
	g.step("%s on %q via %d", kind, name, src)
	switch kind {
	case "INSERT":
		switch src {
		case 0:
			w.ins = query.InsertInto(name)
		case 1:
			w.ins = query.InsertInto(query.TableName(name))
		case 2:
			w.ins = query.InsertInto(ident())
		case 3:
			w.ins = query.TableName(name).InsertInto(firstSets()...)
		case 4:
			w.ins = ident().InsertInto(firstSets()...)
		case 5:
			w.ins = query.SelectFrom(ident()).InsertInto(firstSets()...)
		case 6:
			w.ins = query.SelectManyFrom(name).Limit(3).InsertInto(firstSets()...)
		case 7:
			w.ins = query.SelectSingleFrom(name).InsertInto(firstSets()...)
		default:
			w.viaSel = true
			s := g.sel(g.r.N(4))
			w.table = s.m.table.Name
			w.ins = s.asBase().InsertInto(firstSets()...)
		}
	case "UPDATE":
		switch src {
		case 0:
			w.upd = query.Update(name)
		case 1:
			w.upd = query.Update(query.TableName(name))
		case 2:
			w.upd = query.Update(ident())
		case 3:
			w.upd = query.TableName(name).Update(firstSets()...)
		case 4:
			w.upd = ident().Update(firstSets()...)
		case 5:
			w.upd = query.SelectFrom(ident()).Where(filter()...).Update(firstSets()...)
		case 6:
			w.upd = query.SelectManyFrom(name).Where(filter()...).Update(firstSets()...)
		case 7:
			w.upd = query.SelectSingleFrom(ident()).Where(filter()...).Update(firstSets()...)
		default:
			if noWhere {
				w.upd = query.SelectFrom(name).Update(firstSets()...)
				break
			}
			w.viaSel = true
			s := g.sel(g.r.N(5))
			w.table, w.where = s.m.table.Name, s.m.where
			fs := firstSets()
			switch s.kind {
			case "base":
				w.upd = s.base.Update(fs...)
			case "many":
				w.upd = s.many.Update(fs...)
			default:
				w.upd = s.single.Update(fs...)
			}
		}
	case "DELETE":
		switch src {
		case 0:
			w.del = query.Delete(name)
		case 1:
			w.del = query.Delete(query.TableName(name))
		case 2:
			w.del = query.Delete(ident())
		case 3:
			w.del = query.TableName(name).Delete(filter()...)
		case 4:
			w.del = ident().Delete(filter()...)
		case 5:
			w.del = query.SelectFrom(ident()).Where(filter()...).Delete()
		case 6:
			w.del = query.SelectManyFrom(name).Where(filter()...).Delete()
		case 7:
			w.del = query.SelectSingleFrom(ident()).Where(filter()...).Delete()
		default:
			if noWhere {
				w.del = query.SelectFrom(name).Delete()
				break
			}
			w.viaSel = true
			s := g.sel(g.r.N(5))
			w.table, w.where = s.m.table.Name, s.m.where
			switch s.kind {
			case "base":
				w.del = s.base.Delete()
			case "many":
				w.del = s.many.Delete()
			default:
				w.del = s.single.Delete()
			}
		}
	}
	// further additions, in any order
	for n := g.r.Size(2, 5); n > 0; n-- {
		if kind != "DELETE" && (kind == "INSERT" || g.r.P(50)) {
			if minSet == 0 {
				continue
			}
			g.addSets(w, 0)
		} else if kind != "INSERT" {
			g.addFilter(w, filter)
		}
	}
	if kind != "DELETE" && minSet > 0 && len(w.sets) == 0 {
		g.addSets(w, 1)
	}
	for i := 0; kind != "INSERT" && !noWhere && !incomplete && w.where == nil && i < 50; i++ {
		g.budget = max(g.budget, 2)
		g.addFilter(w, filter)
	}
	return w
}

func (g *gctx) addSets(w *Write, min int) {
	fs, ms := g.setPairs(min, 3, 14)
	w.sets = append(w.sets, ms...)
	if w.kind == "INSERT" {
		w.ins = w.ins.Values(fs...)
	} else {
		w.upd = w.upd.Set(fs...)
	}
}

func (g *gctx) addFilter(w *Write, filter func() []query.Condition) {
	cs := filter()
	if w.kind == "UPDATE" {
		w.upd = w.upd.Where(cs...)
	} else {
		w.del = w.del.Where(cs...)
	}
}

// ---------------------------------------------------------------- comparing with parsed statements

var everyColumn = FieldItem{Col: Col{"", "*"}}

func normAlias(f FieldItem) FieldItem {
	if f.Alias == f.Name {
		f.Alias = ""
	}
	return f
}

func normTable(t TableRef) TableRef {
	if t.Alias == t.Name {
		t.Alias = ""
	}
	return t
}

func diffFields(m SelModel, s *Stmt) string {
	if len(m.fields) == 0 {
		if !s.Star || len(s.Fields) > 0 {
			return fmt.Sprintf("no fields requested, statement selects %v", s.Fields)
		}
		return ""
	}
	if s.Star && len(m.fields) == 1 && m.fields[0] == everyColumn {
		return ""
	}
	if s.Star || len(s.Fields) != len(m.fields) {
		return fmt.Sprintf("requested fields %v, statement selects %v (star %v)", m.fields, s.Fields, s.Star)
	}
	for i := range m.fields {
		if normAlias(m.fields[i]) != normAlias(s.Fields[i]) {
			return fmt.Sprintf("field %d requested %+v, statement has %+v", i+1, m.fields[i], s.Fields[i])
		}
	}
	return ""
}

func diffSource(m SelModel, s *Stmt) string {
	if normTable(m.table) != normTable(s.From) {
		return fmt.Sprintf("requested table %+v, statement reads %+v", m.table, s.From)
	}
	if len(m.joins) != len(s.Joins) {
		return fmt.Sprintf("%d joins requested, statement has %d: %+v", len(m.joins), len(s.Joins), s.Joins)
	}
	for i := range m.joins {
		a, b := m.joins[i], s.Joins[i]
		a.Table, b.Table = normTable(a.Table), normTable(b.Table)
		if a != b {
			return fmt.Sprintf("join %d requested %+v, statement has %+v", i+1, a, b)
		}
	}
	return ""
}

func diffWhere(want *Pred, n *Node, params []any) (string, error) {
	switch {
	case want == nil && n == nil:
		return "", nil
	case want == nil:
		return "no condition was composed but the statement has a WHERE clause", nil
	case n == nil:
		return "conditions were composed but the statement has no WHERE clause: " + want.String(), nil
	}
	res, err := comparePred(want, n, params)
	if err != nil {
		return err.Error(), nil
	}
	if len(res.missing)+len(res.extra) > 0 {
		return fmt.Sprintf("elementary conditions lost: [%s]; not composed: [%s]", strings.Join(res.missing, " ; "), strings.Join(res.extra, " ; ")), nil
	}
	if !res.equivalent {
		return "predicate means something else: " + res.witness + " (composed " + want.String() + ")", nil
	}
	return "", nil
}

func diffOrder(m SelModel, s *Stmt) string {
	if len(m.order) != len(s.Order) {
		return fmt.Sprintf("requested ordering %v, statement has %v", m.order, s.Order)
	}
	for i := range m.order {
		if m.order[i] != s.Order[i] {
			return fmt.Sprintf("ordering %d requested %v, statement has %v", i+1, m.order[i], s.Order[i])
		}
	}
	return ""
}

// numEq tells whether a bound pagination value is the number n.
func numEq(v any, n uint64) bool {
	switch t := v.(type) {
	case int:
		return t >= 0 && uint64(t) == n
	case int64:
		return t >= 0 && uint64(t) == n
	case uint:
		return uint64(t) == n
	case uint64:
		return t == n
	case int32:
		return t >= 0 && uint64(t) == n
	case uint32:
		return uint64(t) == n
	}
	return false
}

func diffPage(kind string, m SelModel, s *Stmt, params []any) string {
	get := func(pos int, lit string) (string, bool) {
		switch {
		case lit != "":
			return lit, true
		case pos < 0:
			return "", false
		case pos >= len(params):
			return "unbound", true
		}
		for _, n := range []uint64{uint64(m.offset), uint64(max(m.limit, 0))} {
			if numEq(params[pos], n) {
				return fmt.Sprint(n), true
			}
		}
		return descValue(params[pos]), true
	}
	off, hasOff := get(s.Offset, s.OffsetLit)
	lim, hasLim := get(s.Limit, s.LimitLit)
	wantOff, wantLim := "", ""
	switch kind {
	case "single":
		wantLim = "1"
	case "many":
		if m.offset > 0 {
			wantOff = fmt.Sprint(m.offset)
		}
		if m.limit > 0 {
			wantLim = fmt.Sprint(m.limit)
		}
	}
	if hasOff != (wantOff != "") || off != wantOff {
		return fmt.Sprintf("requested offset %q, statement has %q", wantOff, off)
	}
	if hasLim != (wantLim != "") || lim != wantLim {
		return fmt.Sprintf("requested limit %q, statement has %q", wantLim, lim)
	}
	return ""
}

// diffSets compares INSERT/UPDATE columns and bound values with the model.
func diffSets(sets []SetModel, s *Stmt, params []any) string {
	if len(s.Cols) != len(sets) || len(s.Vals) != len(sets) {
		return fmt.Sprintf("%d columns set, statement lists %d columns and %d values", len(sets), len(s.Cols), len(s.Vals))
	}
	for i, m := range sets {
		if s.Cols[i] != m.Col {
			return fmt.Sprintf("column %d set is %q, statement has %q", i+1, m.Col, s.Cols[i])
		}
		pos := s.Vals[i]
		if pos >= len(params) {
			return fmt.Sprintf("column %q has placeholder without parameter", m.Col)
		}
		if !sameValue(params[pos], m.Exp) {
			return fmt.Sprintf("column %q is bound to %s, want %s", m.Col, descValue(params[pos]), descValue(m.Exp))
		}
	}
	return ""
}

// resolvePH turns placeholder positions into parameter positions using the
// written numbers: position p stands for parameter PH[p]-1.
func resolvePH(s *Stmt) error {
	idx := func(p int) (int, error) {
		if p < 0 {
			return p, nil
		}
		if p >= len(s.PH) || s.PH[p] < 1 {
			return 0, fmt.Errorf("placeholder at position %d is not numbered", p+1)
		}
		return s.PH[p] - 1, nil
	}
	var err error
	fix := func(p *int) {
		n, e := idx(*p)
		if e != nil && err == nil {
			err = e
		}
		*p = n
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n == nil {
			return
		}
		if n.Leaf != nil {
			for i := range n.Leaf.PH {
				fix(&n.Leaf.PH[i])
			}
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(s.Where)
	for i := range s.Vals {
		fix(&s.Vals[i])
	}
	fix(&s.Offset)
	fix(&s.Limit)
	return err
}
