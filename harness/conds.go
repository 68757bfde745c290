package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

// gctx carries the random sources and options of one generated program. r decides
// structure; vr decides values only, so that the same structure can be generated
// with other values (C10).
type gctx struct {
	r, vr   *Rng
	verbose bool
	plain   bool // plain values only
	valID   int
	colID   int
	budget  int // elementary conditions left

	customPct   int
	emptyIn     bool
	emptyGroups bool
	reuse       bool // the same condition object may be used several times
	uniqueCols  bool
	maxIn       int
	tables      []string
	shortNames  bool
	log         *custLog
	yield       bool
	mixed       bool
	salt        string // part of names, to make them new in this process
	ownLists    bool   // user-defined conditions may hand out the list they keep
	wraps       bool   // also user-defined conditions that wrap others
	trackCustom bool
	dupCols     bool    // the same column may be set more than once
	plainSort   bool    // sorting by fields as they are named
	bulk        int     // how many fields, columns, joins at most, when unusually many
	huge        int     // length of one list, when unusually long
	sch         *schema // names and values are those of a database, see p_db.go
	lastJoin    *joinArgs
	pages       [2]uint                  // offset and limit drawn last
	prev        []Val                    // values drawn before
	keepList    func(v any, what string) // told about lists used as values
	recent      []*compared
	relNames    bool // names of different kinds may coincide
	names       []string
	claimed     map[string]bool // columns of conditions and set columns do not repeat
	deep        bool            // one composition is nested unusually deeply
	customs     []*custTracker

	pool   []*MC
	leaves []*MLeaf
	ops    map[string]int
	src    []string
}

func newGctx(c *Case) *gctx {
	g := &gctx{
		r: c.r.Fork(), vr: c.r.Fork(), verbose: c.verbose,
		budget: 12, maxIn: 6, emptyIn: true, emptyGroups: true,
		tables: []string{"t1", "t2"}, ops: c.counts, customPct: 8,
	}
	if g.r.P(2) {
		g.bulk = g.r.Between(20, 140)
		g.op("unusually many parts")
	}
	g.deep = g.r.N(200) == 0
	if g.r.P(12) {
		g.relNames, g.claimed = true, map[string]bool{}
	}
	switch k := g.r.N(20000); {
	case k == 0:
		g.huge = 65000 + g.r.N(1500)
	case k < 80:
		g.huge = g.r.Between(200, 1200)
	}
	return g
}

// many is a number of parts: up to small usually, up to max sometimes, more in bulk.
func (g *gctx) many(small, max int) int {
	if g.bulk > 0 && g.r.P(60) {
		return g.r.Between(small, g.bulk)
	}
	return g.r.Size(small, max)
}

func (g *gctx) op(name string) { g.ops["op:"+name]++ }

// s builds a piece of program text when a trace is wanted.
func (g *gctx) s(format string, a ...any) string {
	if !g.verbose {
		return ""
	}
	return fmt.Sprintf(format, a...)
}

func (g *gctx) step(format string, a ...any) {
	if g.verbose {
		g.src = append(g.src, fmt.Sprintf(format, a...))
	}
}

// MC is a condition object together with its meaning.
type MC struct {
	obj      query.Condition
	inner    *Pred // meaning before the object's own negation; nil when empty
	neg      bool
	ext      string // own join operator when known: AND / OR
	group    bool
	noNegate bool
	src      string
}

func (m *MC) empty() bool { return m.inner == nil }

func (m *MC) full() *Pred {
	if m.inner == nil {
		return nil
	}
	if m.neg {
		return pNot(m.inner)
	}
	return m.inner
}

func srcs(ms []*MC) string {
	s := make([]string, len(ms))
	for i, m := range ms {
		s[i] = m.src
	}
	return strings.Join(s, ", ")
}

func objs(ms []*MC) []query.Condition {
	r := make([]query.Condition, len(ms))
	for i, m := range ms {
		r[i] = m.obj
	}
	return r
}

// conj is the conjunction of the non-empty members, nil if there is none.
func conj(ms []*MC) *Pred { return foldMC("and", ms) }

func foldMC(op string, ms []*MC) *Pred {
	var ps []*Pred
	for _, m := range ms {
		if !m.empty() {
			ps = append(ps, m.full())
		}
	}
	if len(ps) == 0 {
		return nil
	}
	return pFold(op, ps...)
}

// ---------------------------------------------------------------- names

func (g *gctx) newName(prefix string) string {
	if !g.relNames {
		return g.freshName(prefix)
	}
	column := false
	switch prefix {
	case "c", "fn", "k", "s", "m":
		column = true
	case "t", "ta", "j", "x", "f", "fa", "o", "oa", "sa", "a", "n", "nt", "na", "zz":
	default:
		return g.freshName(prefix)
	}
	if len(g.names) > 0 && g.r.P(40) {
		name := g.names[g.r.N(len(g.names))]
		if !column || !g.claimed[name] {
			g.claimed[name] = g.claimed[name] || column
			g.op("name of something else used again")
			return name
		}
	}
	name := g.freshName(prefix)
	g.names = append(g.names, name)
	g.claimed[name] = column
	return name
}

func (g *gctx) freshName(prefix string) string {
	g.colID++
	if g.shortNames {
		return prefix + strconv.Itoa(g.colID)
	}
	id := strconv.Itoa(g.colID) + g.salt
	switch g.r.N(13) {
	case 12:
		return pick(g.r, prefix+"$"+id, prefix+"$1_"+id, prefix+id+"$", prefix+"_"+id+"_$12")
	case 0:
		return strings.ToUpper(prefix) + "Col_" + id
	case 1:
		return "поле" + id
	case 2:
		return "_" + prefix + id + "_"
	case 3:
		return prefix + "_" + id + "_" + strings.Repeat("long", g.r.Between(1, 30))
	case 4:
		return "and" + id
	case 5:
		return "select_" + id
	default:
		return prefix + id
	}
}

// fieldSpec draws a field specification for conditions: the text to pass, the
// column it means and its alias.
func (g *gctx) fieldSpec() (spec string, col Col, alias string) {
	if g.uniqueCols || g.r.P(75) {
		col.Name = g.newName("c")
	} else {
		col.Name = pick(g.r, "age", "name", "id")
	}
	spec = col.Name
	if len(g.tables) > 0 && g.r.P(35) {
		col.Table = pick(g.r, g.tables...)
		spec = col.Table + "." + spec
	}
	if g.r.P(10) {
		alias = g.newName("a")
		spec += pick(g.r, " AS ", " as ", " As ", "  AS\t") + alias
	}
	return
}

// ---------------------------------------------------------------- elementary conditions

var cmpOps = []string{"=", ">", ">=", "<", "<=", "LIKE", "ILIKE", "IN", "ISNULL"}

func (g *gctx) leaf() *MC {
	g.budget--
	if g.sch != nil {
		return g.schLeaf()
	}
	if g.r.P(g.customPct) {
		return g.customLeaf()
	}
	if len(g.recent) > 0 && g.r.P(6) {
		if m := g.twin(); m != nil {
			return m
		}
	}
	op := pick(g.r, cmpOps...)
	if g.huge > 0 && g.r.P(50) {
		op = "IN"
	}
	spec, col, alias := g.fieldSpec()
	return g.leafOf(op, spec, col, alias)
}

// compared is a column and a value it was compared with or set to.
type compared struct {
	spec  string
	col   Col
	alias string
	val   Val
	used  []string
}

func (g *gctx) remember(x *compared) {
	if len(g.recent) < 6 {
		g.recent = append(g.recent, x)
	} else {
		g.recent[g.r.N(len(g.recent))] = x
	}
}

// twin compares a column with a value it was already compared with or set to,
// by the same or by another operator.
func (g *gctx) twin() *MC {
	x := g.recent[g.r.N(len(g.recent))]
	op := pick(g.r, "=", "=", "=", ">", ">=", "<", "<=")
	for _, u := range x.used {
		if u == op && g.uniqueCols {
			return nil
		}
	}
	x.used = append(x.used, op)
	g.op("leaf: value of another place")
	return g.compare(op, x.spec, x.col, x.alias, x.val, g.r.P(40))
}

func (g *gctx) compare(op, spec string, col Col, alias string, v Val, method bool) *MC {
	f := query.FieldName(spec)
	l := &MLeaf{ID: len(g.leaves), Op: op, Col: col, Alias: alias, Params: []any{v.exp}}
	m := &MC{ext: "AND", inner: pLeaf(l)}
	switch op {
	case "=":
		if method {
			m.obj = f.EqualTo(v.v)
		} else {
			m.obj = query.EqualTo(f, v.v)
		}
	case ">":
		m.obj = query.GreaterThan(f, v.v)
	case ">=":
		m.obj = query.GreaterOrEqual(f, v.v)
	case "<":
		m.obj = query.Less(f, v.v)
	case "<=":
		m.obj = query.LessOrEqual(f, v.v)
	}
	m.src = g.s("%q%s(%s %s)", spec, op, v.kind, descValue(v.v))
	g.op("leaf:" + op)
	g.leaves = append(g.leaves, l)
	return m
}

func (g *gctx) leafOf(op, spec string, col Col, alias string) *MC {
	shared := col.Name == "age" || col.Name == "name" || col.Name == "id"
	l := &MLeaf{ID: len(g.leaves), Op: op, Col: col, Alias: alias}
	if op == "ISNULL" && shared {
		op = "="
		l.Op = "="
	}
	f := query.FieldName(spec)
	m := &MC{ext: "AND"}
	method := g.r.P(40)
	switch op {
	case "=", ">", ">=", "<", "<=":
		v := g.setValue(shared)
		if g.r.P(30) {
			g.remember(&compared{spec, col, alias, v, []string{op}})
		}
		return g.compare(op, spec, col, alias, v, method)
	case "LIKE", "ILIKE":
		s := g.str()
		if !shared && g.vr.P(8) {
			s = g.edgeStr()
		}
		l.Params = []any{"%" + s + "%"}
		switch {
		case op == "LIKE" && method:
			m.obj = f.Contains(s)
		case op == "LIKE":
			m.obj = query.Contains(f, s)
		case method:
			m.obj = f.IContains(s)
		default:
			m.obj = query.IContains(f, s)
		}
		m.src = g.s("%q %s %q", spec, op, clip(s))
	case "IN":
		var v any
		var kind string
		n := g.r.Size(min(4, g.maxIn), g.maxIn)
		scalar := g.r.P(10)
		if g.huge > 0 {
			n, scalar, g.huge = g.huge, false, 0
			g.op("unusually long list")
		}
		if n == 0 && (!g.emptyIn || shared) {
			n = 1
		}
		if scalar {
			sv := g.scalar(shared)
			if sv.v == nil {
				sv = Val{1, 1, "int", true}
			}
			v, l.Params, kind = sv.v, []any{sv.exp}, sv.kind
		} else {
			v, l.Params, kind = g.list(n)
		}
		if g.keepList != nil && !scalar {
			g.keepList(v, kind)
		}
		if method {
			m.obj = f.In(v)
		} else {
			m.obj = query.In(f, v)
		}
		m.src = g.s("%q IN (%s %s)", spec, kind, descValue(v))
		g.op("in:" + kind)
		if len(l.Params) == 0 {
			g.op("empty IN")
			m.inner = pConst(false)
			return m
		}
	case "ISNULL":
		if method {
			m.obj = f.IsNull()
		} else {
			m.obj = query.IsNull(f)
		}
		m.src = g.s("%q IS NULL", spec)
	}
	g.op("leaf:" + op)
	g.leaves = append(g.leaves, l)
	m.inner = pLeaf(l)
	return m
}

func (g *gctx) customLeaf() *MC {
	form := pick(g.r, "fn", "fn", "between", "istrue")
	l := &MLeaf{ID: len(g.leaves)}
	var core custCore
	n := 0
	switch form {
	case "fn":
		l.Op = "fn"
		l.Col = Col{"", g.newName("fn")}
		n = g.r.Size(3, 12)
	case "between":
		l.Op = "BETWEEN"
		n = 2
	case "istrue":
		l.Op = "ISTRUE"
	}
	if form != "fn" {
		l.Col.Name = g.newName("k")
		if len(g.tables) > 0 && g.r.P(30) {
			l.Col.Table = pick(g.r, g.tables...)
		}
	}
	for i := 0; i < n; i++ {
		// raw parameters of a custom condition are passed through untouched
		v := pick(g.vr, any(g.uniq()), any(g.str()), any(fmt.Sprint("c", g.uniq())))
		l.Params = append(l.Params, v)
	}
	log := g.log
	if g.trackCustom {
		log = &custLog{}
	}
	core = newCustCore(form, l.Col.Name, l.Col.Table, l.Params, log)
	core.yield = g.yield
	core.noData = g.r.P(50)
	if g.trackCustom {
		if form == "fn" && g.r.P(40) {
			core.odd = 1 + g.r.N(oddForms-1)
			g.op("strange text")
		}
	}
	if (g.trackCustom || g.ownLists) && g.r.P(40) {
		core.raw = make([]any, len(l.Params), len(l.Params)+g.r.N(4))
		copy(core.raw, l.Params)
		for i := len(core.raw); i < cap(core.raw); i++ {
			core.raw[:cap(core.raw)][i] = "not a value"
		}
		g.op("own list handed out")
	}
	m := &MC{ext: "AND", inner: pLeaf(l)}
	if g.r.P(50) {
		m.obj = cust{core}
		g.track(l, log, core.state, core.odd > 0, core.desc)
		m.src = g.s("custom %s", core.text(func(i int) string { return descValue(core.vals[i]) }))
	} else {
		p := &pcust{core}
		m.obj = p
		g.track(l, log, core.state, core.odd > 0, func() string { return p.desc() })
		m.src = g.s("*custom %s", core.text(func(i int) string { return descValue(core.vals[i]) }))
	}
	g.op("leaf:custom " + form)
	g.leaves = append(g.leaves, l)
	return m
}

// wrapped puts a condition into a user-defined one.
func (g *gctx) wrapped(m *MC) *MC {
	ls := m.full().leaves()
	if m.empty() || len(ls) == 0 {
		return m
	}
	log := &custLog{}
	w := newWrap(m.obj, log)
	g.track(ls[0], log, w.state, false, w.desc)
	g.op("leaf:custom wrap")
	return &MC{obj: w, inner: m.full(), ext: "AND", src: g.s("wrap(%s)", m.src)}
}

// ---------------------------------------------------------------- compositions

// emptyMember is an empty group among other conditions, possibly after an operation
// which leaves it empty.
func (g *gctx) emptyMember() *MC {
	m := g.emptyGroup()
	if !g.r.P(40) {
		return m
	}
	n := *m
	switch g.r.N(8) {
	case 0, 1:
		n.obj, n.src = query.Not(m.obj), "Not("+m.src+")"
	case 2:
		n.obj, n.src = m.obj.Negate(true).Join(query.LogicalOR), "OR:Not("+m.src+")"
	case 3:
		n.obj, n.src = query.Or(m.obj), "Or("+m.src+")"
	case 4:
		n.obj, n.src = m.obj.And(), m.src+".And()"
	case 5:
		n.obj, n.src = m.obj.Or(query.NewGroup(query.LogicalOR)), m.src+".Or(NewGroup(OR))"
	case 6:
		n.obj, n.src = m.obj.ApplyFieldTable("nowhere"), m.src+".ApplyFieldTable()"
	default:
		n.obj, n.src = query.LogicalOR.Join(m.obj, query.Group{}), "OR.Join("+m.src+", Group{})"
	}
	g.op("empty group after an operation")
	return g.pointed(&n)
}

func (g *gctx) emptyGroup() *MC {
	g.op("empty group")
	m := &MC{group: true}
	switch g.r.N(5) {
	case 0:
		m.obj, m.src = query.NewGroup(query.LogicalAND), "NewGroup(AND)"
	case 1:
		m.obj, m.src = query.NewGroup(query.LogicalOR), "NewGroup(OR)"
	case 2:
		m.obj, m.src = query.Group{}, "Group{}"
	case 3:
		m.obj, m.src = query.NewGroup(query.LogicalAND, query.NewGroup(query.LogicalOR)), "NewGroup(AND,NewGroup(OR))"
	default:
		m.obj, m.src = query.NewGroup(query.LogicalOR, query.Group{}).WithBrackets(), "NewGroup(OR,Group{}).WithBrackets()"
	}
	return g.pointed(m)
}

// pointed passes some groups by pointer, which is a Condition as well.
func (g *gctx) pointed(m *MC) *MC {
	grp, ok := m.obj.(query.Group)
	if !ok || !g.r.P(5) {
		return m
	}
	n := *m
	n.obj, n.src = &grp, "&("+m.src+")"
	g.op("group by pointer")
	return &n
}

func (g *gctx) wantEmpty() bool { return g.emptyGroups && g.r.P(5) }

// list draws 1..max members (possibly with empty groups among them).
func (g *gctx) members(depth, max int) []*MC {
	n := g.r.Between(1, max)
	if g.r.P(4) {
		n = g.r.Between(max, max*3)
	}
	var ms []*MC
	for i := 0; i < n; i++ {
		if g.wantEmpty() {
			ms = append(ms, g.emptyMember())
		}
		ms = append(ms, g.cond(depth))
		if g.budget <= 0 {
			break
		}
	}
	if g.wantEmpty() {
		ms = append(ms, g.emptyMember())
	}
	return ms
}

// rawList prepares the first list given to an empty Where or group, in which a
// member prefixed with single-argument Or is joined with OR.
func (g *gctx) rawList(ms []*MC) (cs []query.Condition, pred *Pred, src string) {
	or, mixed, one := g.r.P(25), g.r.P(14), -1
	if g.r.P(50) {
		one = g.r.Between(1, len(ms))
	}
	first := true
	runs := [][]*MC{nil} // the members between one OR and the next
	out := make([]*MC, len(ms))
	for i, m := range ms {
		out[i] = m
		if m.empty() {
			continue
		}
		last := len(runs) - 1
		if first {
			first = false
			if g.r.P(15) {
				out[i] = g.prefix(m, pick(g.r, query.LogicalAND, query.LogicalOR))
			}
			runs[last] = append(runs[last], out[i])
			continue
		}
		if mixed {
			if or = g.r.P(40); one >= 0 {
				or = i == one
			}
		}
		if or {
			if m.ext != "OR" || g.r.P(30) {
				out[i] = g.prefix(m, query.LogicalOR)
			}
		} else if m.ext != "AND" || g.r.P(10) {
			out[i] = g.prefix(m, query.LogicalAND)
		}
		if or {
			runs, last = append(runs, nil), last+1
		}
		runs[last] = append(runs[last], out[i])
	}
	var alt []*Pred
	long := false
	for _, run := range runs {
		if p := conj(run); p != nil {
			alt, long = append(alt, p), long || len(run) > 1
		}
	}
	if len(alt) == 0 {
		return objs(out), nil, srcs(out)
	}
	switch {
	case len(ms) < 2:
	case len(alt) > 1 && long:
		g.op("first list of ORs and ANDs")
	case len(alt) > 1:
		g.op("first list or")
	default:
		g.op("first list and")
	}
	return objs(out), pFold("or", alt...), srcs(out)
}

// prefix sets the explicit join operator of a condition, meaning unchanged.
func (g *gctx) prefix(m *MC, op query.JoinType) *MC {
	n := *m
	n.ext = string(op)
	switch g.r.N(4) {
	case 0:
		n.obj = m.obj.Join(op)
	case 1:
		n.obj = op.Join(m.obj)
	case 2:
		n.obj = op.SetToAll(m.obj)[0]
	default:
		if op == query.LogicalAND {
			n.obj = query.And(m.obj)
		} else {
			n.obj = query.Or(m.obj)
		}
	}
	n.src = g.s("%s:[%s]", op, m.src)
	return &n
}

func (g *gctx) negated(m *MC) *MC {
	if m.empty() || m.noNegate {
		return m
	}
	n := *m
	switch g.r.N(5) {
	case 0:
		n.obj, n.neg = m.obj.Negate(true), true
		n.src = g.s("(%s).Negate(true)", m.src)
	case 1:
		n.obj, n.neg = m.obj.Negate(false), false
		n.src = g.s("(%s).Negate(false)", m.src)
	default:
		n.obj, n.neg = query.Not(m.obj), true
		n.src = g.s("Not(%s)", m.src)
	}
	g.op("negate")
	if m.group {
		g.op("negate group")
	}
	return &n
}

// extend composes a receiver with further conditions the various ways the API
// offers.
func (g *gctx) extend(recv *MC, isAnd bool, args []*MC) *MC {
	res := &MC{group: true}
	if !recv.empty() {
		op := "or"
		if isAnd {
			op = "and"
		}
		a := conj(args)
		if a == nil {
			// nothing added: meaning stays; whether the object is a new group is open
			res.inner, res.neg = recv.inner, recv.neg
			res.noNegate = true
		} else {
			res.inner = pFold(op, recv.full(), a)
		}
	}
	cs := objs(args)
	asrc := srcs(args)
	if recv.empty() {
		cs, res.inner, asrc = g.rawList(args)
	}
	if recv.ext == "AND" && !recv.empty() {
		res.ext = "AND"
	}
	grp, isGroup := recv.obj.(query.Group)
	how := g.r.N(3)
	switch {
	case isGroup && how == 0 && isAnd:
		res.obj = grp.GroupAND(cs...)
		res.src = g.s("(%s).GroupAND(%s)", recv.src, asrc)
		g.op("GroupAND")
	case isGroup && how == 0:
		res.obj = grp.GroupOR(cs...)
		res.src = g.s("(%s).GroupOR(%s)", recv.src, asrc)
		g.op("GroupOR")
	case how == 1 && isAnd:
		res.obj = query.And(recv.obj, cs...)
		res.src = g.s("And(%s; %s)", recv.src, asrc)
		g.op("And()")
	case how == 1:
		if len(cs) > 0 {
			res.ext = "OR"
		}
		res.obj = query.Or(recv.obj, cs...)
		res.src = g.s("Or(%s; %s)", recv.src, asrc)
		g.op("Or()")
	case isAnd:
		res.obj = recv.obj.And(cs...)
		res.src = g.s("(%s).And(%s)", recv.src, asrc)
		g.op(".And")
	default:
		res.obj = recv.obj.Or(cs...)
		res.src = g.s("(%s).Or(%s)", recv.src, asrc)
		g.op(".Or")
	}
	return res
}

func (g *gctx) newGroup(isAnd bool, ms []*MC) *MC {
	op, word := query.LogicalOR, "or"
	if isAnd {
		op, word = query.LogicalAND, "and"
	}
	res := &MC{group: true, inner: foldMC(word, ms), ext: "AND"}
	switch {
	case len(ms) > 1 && g.r.P(25):
		res.obj = op.Join(objs(ms)...)
		res.src = g.s("%s.Join(%s)", op, srcs(ms))
		g.op("JoinType.Join")
	case g.r.P(20):
		res.obj = query.NewGroup(op, op.SetToAll(objs(ms)...)...)
		res.src = g.s("NewGroup(%s, SetToAll(%s))", op, srcs(ms))
		g.op("NewGroup(SetToAll)")
	default:
		res.obj = query.NewGroup(op, objs(ms)...)
		res.src = g.s("NewGroup(%s; %s)", op, srcs(ms))
		g.op("NewGroup")
	}
	return g.pointed(res)
}

func (g *gctx) brackets(m *MC) *MC {
	grp, ok := m.obj.(query.Group)
	if !ok {
		return m
	}
	n := *m
	n.obj = grp.WithBrackets()
	n.src = g.s("(%s).WithBrackets()", m.src)
	g.op("WithBrackets")
	return &n
}

// cond draws a condition of at most the given depth.
func (g *gctx) cond(depth int) *MC {
	if g.reuse && len(g.pool) > 0 && g.r.P(8) {
		g.op("reuse of an object")
		return pick(g.r, g.pool...)
	}
	var m *MC
	if g.deep && depth > 1 {
		g.deep = false
		m = g.deepCond()
	} else {
		m = g.cond0(depth)
	}
	if g.reuse && !m.empty() {
		g.pool = append(g.pool, m)
	}
	return m
}

// deepCond nests a condition into others again and again.
func (g *gctx) deepCond() *MC {
	g.op("unusually deep nesting")
	n := g.r.Between(10, 60)
	g.budget += 2 * n
	m := g.leaf()
	one := func() []*MC { return []*MC{g.leaf()} }
	for i := 0; i < n; i++ {
		and := g.r.P(50)
		switch g.r.N(9) {
		case 0, 1:
			m = g.extend(m, and, one())
		case 2:
			m = g.extend(g.leaf(), and, []*MC{m})
		case 3:
			m = g.newGroup(and, []*MC{g.leaf(), m})
		case 4:
			m = g.newGroup(and, []*MC{m, g.leaf()})
		case 5:
			m = g.newGroup(and, []*MC{m})
		case 6:
			m = g.extend(m, and, []*MC{g.newGroup(g.r.P(50), []*MC{g.leaf(), g.leaf()})})
		case 7:
			if m.group {
				m = g.brackets(m)
			}
		default:
			m = g.prefix(m, pick(g.r, query.LogicalAND, query.LogicalOR))
		}
		if g.wraps && g.r.P(12) {
			m = g.wrapped(m)
		}
		if g.r.P(22) {
			m = g.negated(m)
		}
	}
	return m
}

func (g *gctx) cond0(depth int) *MC {
	if depth <= 0 || g.budget <= 1 {
		m := g.leaf()
		if g.r.P(25) {
			m = g.negated(m)
		}
		return m
	}
	var m *MC
	switch k := g.r.N(20); {
	case k < 3:
		m = g.leaf()
	case k < 10:
		recv := g.cond(depth - 1)
		if g.wantEmpty() {
			recv = g.emptyGroup()
		}
		m = g.extend(recv, g.r.P(50), g.members(depth-1, 3))
	case k < 14:
		m = g.newGroup(g.r.P(50), g.members(depth-1, 4))
	case k < 17:
		// a chain of extensions
		m = g.cond(depth - 1)
		for n := g.r.Size(4, 18); n > 0 && g.budget > 0; n-- {
			m = g.extend(m, g.r.P(50), g.members(min(depth-1, 1), 2))
			if g.r.P(8) {
				m = g.negated(m)
			}
		}
	default:
		m = g.cond(depth - 1)
		m = g.prefix(m, pick(g.r, query.LogicalAND, query.LogicalOR))
	}
	if m.group && g.r.P(15) {
		m = g.brackets(m)
	}
	if g.wraps && g.r.P(12) {
		m = g.wrapped(m)
	}
	if g.r.P(22) {
		m = g.negated(m)
	}
	return m
}
