package main

import (
	"reflect"
	"strings"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C07", quick: 1200000, thorough: 20000000,
		rule: "A case is a random SELECT program on one of the three builders (from any constructor, with conversions), or a join piece or field list on its own; non-trivial when it requested at least one field, join, condition, ordering or pagination; distinct by SQL text.",
		assumptions: []string{
			"not asserted: ordering and pagination after converting a many-row builder to another variant",
			"OFFSET and LIMIT values are told apart from other parameters by their position in the parsed statement",
		},
		run: runC07,
	})
	register(&Prop{
		id: "C09", quick: 300000, thorough: 6000000,
		rule: "A case is a random SELECT program from which every kind of statement is derived (COUNT, UPDATE, DELETE, INSERT, single-row, many-row), some extended afterwards; non-trivial when the SELECT has a condition, a join or fields; distinct by the SELECT's text.",
		assumptions: []string{
			"not asserted: table alias in UPDATE/DELETE/INSERT, joins in UPDATE/DELETE, ordering and pagination of conversions",
		},
		run: runC09,
	})
	register(&Prop{
		id: "C17", quick: 900000, thorough: 20000000,
		rule: "A case is a random builder of any kind (or condition, or WHERE clause of elementary conditions) whose reports are compared with what it builds; distinct by SQL text.",
		assumptions: []string{
			"source text is compared with white space and letter case of keywords normalised",
		},
		run: runC17,
	})
}

func selTrivial(m SelModel) bool {
	return len(m.fields) == 0 && len(m.joins) == 0 && m.where == nil && len(m.order) == 0 && m.offset == 0 && m.limit <= 0
}

// checkSelect compares a built SELECT with its model.
func checkSelect(c *Case, what, kind string, m SelModel, sql string, params []any, page bool) *Stmt {
	st, err := parseStmt(sql)
	c.check(err == nil, "%s cannot be read: %v: %q", what, err, sql)
	c.check(st.Kind == "SELECT", "%s is a %s: %q", what, st.Kind, sql)
	err = resolvePH(st)
	c.check(err == nil, "%s: %v in %q", what, err, sql)
	d := diffFields(m, st)
	c.check(d == "", "%s: %s; SQL: %q", what, d, sql)
	d = diffSource(m, st)
	c.check(d == "", "%s: %s; SQL: %q", what, d, sql)
	d, err = diffWhere(m.where, st.Where, params)
	if err != nil {
		panic(err)
	}
	c.check(d == "", "%s: %s; SQL: %q", what, d, sql)
	if page {
		d = diffOrder(m, st)
		c.check(d == "", "%s: %s; SQL: %q", what, d, sql)
		d = diffPage(kind, m, st, params)
		c.check(d == "", "%s: %s; SQL: %q %s", what, d, sql, descValues(params))
	}
	return st
}

func runC07(c *Case) {
	g := c.bigCtx()
	switch c.r.N(12) {
	case 0:
		c07Joiner(c, g)
		return
	case 1:
		c07Fields(c, g)
		return
	}
	n := g.r.Size(6, 20)
	s := g.sel(n)
	sql, params, err := s.obj().BuildQueryAndParams()
	c.check(err == nil, "building a complete SELECT failed: %v", err)
	c.tracef("SQL: %s", sql)
	c.tracef("params: %s", descValues(params))
	checkSelect(c, "SELECT "+s.kind, s.kind, s.m, sql, params, true)
	c.seen(sql)
	c.trivial = selTrivial(s.m)
	c.max("joins", len(s.m.joins))
	c.max("fields", len(s.m.fields))
	c.max("orderings", len(s.m.order))
	c.max("steps", n)
	c.countN("joins compared", len(s.m.joins))
	c.countN("fields compared", len(s.m.fields))
	c.countN("orderings compared", len(s.m.order))
}

func c07Joiner(c *Case, g *gctx) {
	lt, rt := g.newName("l"), g.newName("r")
	l, lc := g.joinFieldAny(lt)
	r, rc := g.joinField(rt)
	typ := g.joinType()
	jc := query.JoinFields(l, r)
	want := JoinItem{joinWord(typ), TableRef{Name: rt}, lc, rc}
	var j query.TableJoiner
	switch g.r.N(5) {
	case 0:
		j = jc.Using(typ)
	case 1:
		j = typ.By(l, r)
	case 2:
		j = pickJoin(typ, jc.InnerJoin, jc.LeftJoin, jc.RightJoin, jc.FullJoin)
	case 3:
		t := g.table()
		want.Table = t.ref
		j = query.NewTableJoiner(t.ident(g.r), typ, jc)
	default:
		t := g.table()
		want.Table = t.ref
		x, _ := g.joinField("xx")
		j = query.NewTableJoiner(t.ident(g.r), typ, query.JoinFields(x, x)).By(l, r)
	}
	c.check(j.JoinType() == typ, "joiner reports join type %s, was made with %s", j.JoinType(), typ)
	c.check(j.JoinCondition().Render() == jc.Render(), "joiner reports join condition %q, was made with %q", j.JoinCondition().Render(), jc.Render())
	sql := "SELECT * FROM zz " + j.RenderFrom()
	c.tracef("%s", sql)
	st, err := parseStmt(sql)
	c.check(err == nil, "join clause cannot be read: %v: %q", err, sql)
	d := diffSource(SelModel{table: TableRef{Name: "zz"}, joins: []JoinItem{want}}, st)
	c.check(d == "", "joiner: %s; SQL: %q", d, sql)
	c.seen(sql)
	c.count("join clauses on their own")
}

func c07Fields(c *Case, g *gctx) {
	var args []any
	var items []FieldItem
	for n := g.r.Size(4, 20); n > 0; n-- {
		f, it := g.field()
		switch g.r.N(3) {
		case 0:
			args = append(args, f)
		case 1:
			args = append(args, f.RenderSpec())
			if it.Alias == it.Name && it.Table == "" {
				it.Alias = ""
			}
		default:
			args = append(args, query.FieldName(f.RenderSpec()))
			if it.Alias == it.Name && it.Table == "" {
				it.Alias = ""
			}
		}
		items = append(items, it)
	}
	fl := query.NewFields(args...)
	for g.r.P(30) {
		var fs []query.FieldDefinition
		fs, items = g.fields(8)
		fl = fl.Fields(fs...)
	}
	c.check(fl.Len() == len(items), "field list of %d fields reports length %d", len(items), fl.Len())
	sql := "SELECT " + fl.FieldList() + " FROM zz"
	c.tracef("%s", sql)
	st, err := parseStmt(sql)
	c.check(err == nil, "field list cannot be read: %v: %q", err, sql)
	d := diffFields(SelModel{fields: items}, st)
	c.check(d == "", "field list: %s; SQL: %q", d, sql)
	c.seen(sql)
	c.trivial = len(items) == 0
	c.count("field lists on their own")
}

// ---------------------------------------------------------------- C09

func runC09(c *Case) {
	g := c.bigCtx()
	g.reuse = c.r.P(8)
	g.wraps = c.r.P(10)
	if c.r.P(5) {
		c09Table(c, g)
		return
	}
	s := g.sel(g.r.Size(6, 16))
	base := s.asBase()
	m := s.m
	selSQL, selParams, err := base.BuildQueryAndParams()
	c.check(err == nil, "building a complete SELECT failed: %v", err)
	c.tracef("SELECT: %s %s", selSQL, descValues(selParams))
	c.seen(selSQL)
	c.trivial = selTrivial(m)
	checkSelect(c, "base SELECT", "base", m, selSQL, selParams, false)

	// COUNT
	cb, col := g.countOf(s)
	c09Count(c, cb, col, m, selParams)

	// UPDATE and DELETE
	extra := func() (cs []query.Condition, p *Pred) {
		p = m.where
		if g.r.P(30) {
			var src string
			g.budget = max(g.budget, 3)
			cs, p, src = g.addWhere(m.where, g.members(1, 2))
			g.step("  then .Where(%s)", src)
		}
		return
	}
	sets, sm := g.setPairs(1, 2, 6)
	var u query.UpdateBuilder
	switch s.kind {
	case "base":
		u = s.base.Update(sets...)
	case "many":
		u = s.many.Update(sets...)
	default:
		u = s.single.Update(sets...)
	}
	cs, up := extra()
	if cs != nil {
		u = u.Where(cs...)
	}
	sql, params, err := u.BuildQueryAndParams()
	var st *Stmt
	d := ""
	if up == nil {
		c.check(err != nil, "UPDATE derived from an unfiltered SELECT is built: %q", sql)
	} else {
		c.check(err == nil, "UPDATE failed: %v", err)
		c.tracef("UPDATE: %s", sql)
		st, err = parseStmt(sql)
		c.check(err == nil, "UPDATE cannot be read: %v: %q", err, sql)
		c.check(st.Kind == "UPDATE" && st.From.Name == m.table.Name, "statement derived by Update from SELECT of table %q: %q", m.table.Name, sql)
		d = diffSets(sm, mustResolve(c, st, sql), params)
		c.check(d == "", "UPDATE: %s; SQL: %q", d, sql)
		checkFilter(c, "UPDATE", up, st, params, sql)
		if cs == nil {
			c.check(sameValues(params[len(sm):], selParams), "UPDATE binds %s for its filter, the SELECT binds %s", descValues(params[len(sm):]), descValues(selParams))
		}
	}
	var del query.DeleteBuilder
	switch s.kind {
	case "base":
		del = s.base.Delete()
	case "many":
		del = s.many.Delete()
	default:
		del = s.single.Delete()
	}
	cs, up = extra()
	if cs != nil {
		del = del.Where(cs...)
	}
	sql, params, err = del.BuildQueryAndParams()
	if up == nil {
		c.check(err != nil, "DELETE derived from an unfiltered SELECT is built: %q", sql)
	} else {
		c.check(err == nil, "DELETE failed: %v", err)
		c.tracef("DELETE: %s", sql)
		st, err = parseStmt(sql)
		c.check(err == nil, "DELETE cannot be read: %v: %q", err, sql)
		c.check(st.Kind == "DELETE" && st.From.Name == m.table.Name, "statement derived by Delete from SELECT of table %q: %q", m.table.Name, sql)
		mustResolve(c, st, sql)
		checkFilter(c, "DELETE", up, st, params, sql)
		if cs == nil {
			c.check(sameValues(params, selParams), "DELETE binds %s for its filter, the SELECT binds %s", descValues(params), descValues(selParams))
		}
	}

	// INSERT
	var ins query.InsertBuilder
	switch s.kind {
	case "base":
		ins = s.base.InsertInto(sets...)
	case "many":
		ins = s.many.InsertInto(sets...)
	default:
		ins = s.single.InsertInto(sets...)
	}
	sql, params, err = ins.BuildQueryAndParams()
	c.check(err == nil, "INSERT failed: %v", err)
	c.tracef("INSERT: %s", sql)
	st, err = parseStmt(sql)
	c.check(err == nil, "INSERT cannot be read: %v: %q", err, sql)
	c.check(st.Kind == "INSERT" && st.From.Name == m.table.Name, "statement derived by InsertInto from SELECT of table %q: %q", m.table.Name, sql)
	d = diffSets(sm, mustResolve(c, st, sql), params)
	c.check(d == "", "INSERT: %s; SQL: %q", d, sql)

	// other SELECT variants
	var single query.SelectSingleBuilder
	var many query.SelectManyBuilder
	switch s.kind {
	case "base":
		single, many = s.base.Single(), s.base.Many()
	case "many":
		single, many = s.many.Single(), s.many.Many()
	default:
		single, many = s.single.Single(), s.single.Many()
	}
	if g.r.P(40) {
		single = query.SelectSingleFromBase(base)
	}
	if g.r.P(40) {
		many = query.SelectManyFromBase(base)
	}
	sql, params, err = single.BuildQueryAndParams()
	c.check(err == nil, "single-row SELECT failed: %v", err)
	st = checkSelect(c, "single-row SELECT", "single", m, sql, params, false)
	c.check(st.LimitLit == "1" || st.Limit >= 0 && numEq(params[st.Limit], 1), "single-row SELECT is not limited to one row: %q", sql)
	sql, params, err = many.BuildQueryAndParams()
	c.check(err == nil, "many-row SELECT failed: %v", err)
	checkSelect(c, "many-row SELECT", "many", m, sql, params, false)
	c.count("SELECTs derived from")
	c.max("joins", len(m.joins))
	c.max("conditions", len(m.where.leaves()))
}

func c09Count(c *Case, cb query.CountBuilder, col string, m SelModel, selParams []any) {
	sql, params, err := cb.BuildQueryAndParams()
	c.check(err == nil, "COUNT failed: %v", err)
	c.tracef("COUNT: %s", sql)
	st, err := parseStmt(sql)
	c.check(err == nil, "COUNT cannot be read: %v: %q", err, sql)
	c.check(st.Kind == "COUNT" && st.Count == col, "COUNT counts %q, requested %q: %q", st.Count, col, sql)
	d := diffSource(m, st)
	c.check(d == "", "COUNT: %s; SQL: %q", d, sql)
	c.check(len(st.Order) == 0 && st.Offset < 0 && st.Limit < 0 && st.LimitLit == "" && st.OffsetLit == "", "COUNT keeps ordering or pagination: %q", sql)
	checkSameFilter(c, "COUNT", m.where, st, params, params, selParams, sql)
}

// c09Table: counting rows of a table is counting what selecting from it selects.
func c09Table(c *Case, g *gctx) {
	t := g.table()
	g.tables = []string{t.ref2()}
	cs, pred, src := g.addWhere(nil, g.whereMembers(4))
	id := t.ident(g.r)
	g.step("Table(%q).Count(%s)", t.spec, src)
	m := SelModel{table: t.ref, where: pred, limit: -1}
	sql, selParams, err := id.Select(cs...).BuildQueryAndParams()
	c.check(err == nil, "building a complete SELECT failed: %v", err)
	c.seen(sql)
	checkSelect(c, "base SELECT", "base", m, sql, selParams, false)
	c09Count(c, id.Count(cs...), "*", m, selParams)
	c.count("tables counted")
}

func mustResolve(c *Case, st *Stmt, sql string) *Stmt {
	err := resolvePH(st)
	c.check(err == nil, "%v in %q", err, sql)
	return st
}

func checkFilter(c *Case, what string, want *Pred, st *Stmt, params []any, sql string) {
	d, err := diffWhere(want, st.Where, params)
	if err != nil {
		panic(err)
	}
	c.check(d == "", "%s: %s; SQL: %q", what, d, sql)
}

func checkSameFilter(c *Case, what string, want *Pred, st *Stmt, params, filter, selParams []any, sql string) {
	mustResolve(c, st, sql)
	checkFilter(c, what, want, st, params, sql)
	c.check(sameValues(filter, selParams), "%s binds %s for its filter, the SELECT binds %s", what, descValues(filter), descValues(selParams))
}

// ---------------------------------------------------------------- C17

func squeeze(s string) string { return strings.ToUpper(strings.Join(strings.Fields(s), " ")) }

func runC17(c *Case) {
	g := c.bigCtx()
	switch k := c.r.N(10); {
	case k < 2:
		c17Condition(c, g)
	case k == 2:
		c17Where(c, g)
	default:
		c17Builder(c, g)
	}
}

func c17Builder(c *Case, g *gctx) {
	b := g.statement("")
	sql, params, ok := c.mustBuild(b)
	if !ok {
		c.trivial = true
		return
	}
	st, err := parseStmt(sql)
	c.check(err == nil, "statement cannot be read: %v: %q", err, sql)
	mustResolve(c, st, sql)
	c.seen(sql)
	verb := strings.Fields(sql)[0]
	checkOp := func(op query.Operation) {
		want := map[string]query.Operation{"SELECT": query.DoSelect, "INSERT": query.DoInsert, "UPDATE": query.DoUpdate, "DELETE": query.DoDelete}[strings.ToUpper(verb)]
		c.check(op == want, "reports operation %d, statement is %s: %q", op, verb, sql)
		c.check(strings.EqualFold(op.String(), verb), "operation prints as %q, statement is %s: %q", op, verb, sql)
	}
	c.count("reports of " + b.kind)
	switch b.kind {
	case "SELECT":
		o := b.sel.obj()
		checkOp(o.Operation())
		c.check(string(o.TableName()) == st.From.Name, "reports table %q, statement reads %q: %q", o.TableName(), st.From.Name, sql)
		c.check(squeeze(o.RenderFrom()) == squeeze(st.FromText), "reports source %q, statement has %q", o.RenderFrom(), st.FromText)
		defs := o.FieldDefinitions()
		c17Fields(c, defs, st, sql)
		if fl, ok := o.(interface{ FieldList() string }); ok {
			from := strings.Index(sql, " FROM ")
			c.check(from >= 7 && squeeze(fl.FieldList()) == squeeze(sql[7:from]), "reports field list %q: %q", fl.FieldList(), sql)
		}
		// a further restriction changes nothing reported
		c.check(strings.Contains(o.String(), o.RenderFrom()), "String() %q does not name the source %q", o.String(), o.RenderFrom())
	case "COUNT":
		c.check(squeeze(b.cntObj.RenderFrom()) == squeeze(st.FromText), "COUNT reports source %q, statement has %q", b.cntObj.RenderFrom(), st.FromText)
	default:
		o := b.w.obj()
		checkOp(o.Operation())
		c.check(string(o.TableName()) == st.From.Name, "reports table %q, statement has %q: %q", o.TableName(), st.From.Name, sql)
		c.check(o.RenderFrom() == st.From.Name, "reports target %q, statement has %q: %q", o.RenderFrom(), st.From.Name, sql)
		if sv, ok := o.(interface{ SetValues() []query.FieldValue }); ok {
			vs := sv.SetValues()
			c.check(len(vs) == len(st.Cols), "reports %d set-values, statement has %d columns: %q", len(vs), len(st.Cols), sql)
			for i, v := range vs {
				c.check(string(v.FieldName()) == st.Cols[i], "set-value %d is reported for column %q, statement has %q", i+1, v.FieldName(), st.Cols[i])
				c.check(string(v.TableName()) == b.sets[i].Table, "set-value %d is reported for table %q, it was given %q", i+1, v.TableName(), b.sets[i].Table)
				bound := params[st.Vals[i]]
				rep := v.Values()
				if isList(b.sets[i].Exp) {
					// a list is reported by its elements but bound as one parameter
					c.count("list set-values reported")
					continue
				}
				c.check(len(rep) == 1 && sameValue(rep[0], bound), "set-value %d is reported as %s, statement binds %s", i+1, descValues(rep), descValue(bound))
			}
		}
	}
}

func c17Fields(c *Case, defs []query.FieldDefinition, st *Stmt, sql string) {
	if st.Star {
		every := len(defs) == 1 && defs[0] == query.Field("*")
		c.check(len(defs) == 0 || every, "reports %d fields, statement selects *: %q", len(defs), sql)
		return
	}
	c.check(len(defs) == len(st.Fields), "reports %d fields, statement selects %d: %q", len(defs), len(st.Fields), sql)
	for i, f := range defs {
		it := FieldItem{Col{string(f.TableName()), string(f.FieldName())}, string(f.Alias())}
		c.check(normAlias(it) == normAlias(st.Fields[i]), "field %d is reported as %+v, statement has %+v: %q", i+1, it, st.Fields[i], sql)
	}
}

func c17Condition(c *Case, g *gctx) {
	if c.r.P(60) {
		// elementary condition
		m := g.leaf()
		for c.r.P(40) {
			if c.r.P(50) {
				m = g.negated(m)
			} else {
				m = g.prefix(m, pick(g.r, query.LogicalAND, query.LogicalOR))
			}
		}
		g.step("condition %s", m.src)
		sql := m.obj.Render(0)
		c.seen(sql)
		n, _, err := parsePredicate(sql)
		c.check(err == nil, "condition cannot be read: %v: %q", err, sql)
		neg := false
		for n.Op == "not" {
			neg, n = !neg, n.Kids[0]
		}
		if n.Op == "leaf" {
			neg = neg != n.Leaf.Neg
			if n.Leaf.Op != "fn" {
				col, _ := splitCol(n.Leaf.Col)
				c.check(string(m.obj.FieldName()) == col.Name, "reports field %q, renders %q", m.obj.FieldName(), sql)
			}
		} else {
			neg = n.Val // an empty IN renders a constant
		}
		c.check(m.obj.IsNegate() == neg, "reports negation %v, renders %q", m.obj.IsNegate(), sql)
		c17Join(c, g, m)
		c.count("reports of elementary conditions")
		return
	}
	m := g.cond(c.r.Size(2, 4))
	if m.empty() {
		c.trivial = true
		return
	}
	if m.ext == "" {
		m = g.prefix(m, pick(g.r, query.LogicalAND, query.LogicalOR))
	}
	g.step("condition %s", m.src)
	c.seen(m.obj.RenderSQL())
	if !m.noNegate {
		c.check(m.obj.IsNegate() == m.neg, "reports negation %v, was made with %v: %q", m.obj.IsNegate(), m.neg, m.obj.RenderSQL())
	}
	c17Join(c, g, m)
	c.count("reports of groups")
}

// c17Join compares the reported join operator with the one the condition gets when
// it follows another one.
func c17Join(c *Case, g *gctx, m *MC) {
	j := m.obj.JoinType()
	c.check(string(j) == m.ext, "reports join operator %q, has %q: %q", j, m.ext, m.obj.RenderSQL())
	c.check(squeeze(m.obj.RenderNegate()) == map[bool]string{true: "NOT"}[m.obj.IsNegate()], "reports negation %v, renders negation as %q", m.obj.IsNegate(), m.obj.RenderNegate())
	c.check(m.obj.RenderJoin(true) == "", "first condition renders join operator %q", m.obj.RenderJoin(true))
	c.check(squeeze(m.obj.RenderJoin(false)) == m.ext, "following condition renders join operator %q, reports %q", m.obj.RenderJoin(false), j)
	w := query.SelectFrom("t").Where(query.IsNull("zzfirst"), m.obj)
	st, err := parseStmt(w.RenderSQL())
	c.check(err == nil, "cannot be read: %v: %q", err, w.RenderSQL())
	mf := m.full()
	if mf == nil || st.Where == nil {
		return
	}
	want := pFold(strings.ToLower(string(j)), pLeaf(&MLeaf{Op: "ISNULL", Col: Col{"", "zzfirst"}}), mf)
	vals := w.Values()
	d, derr := diffWhere(want, st.Where, vals)
	if derr != nil {
		panic(derr)
	}
	c.check(d == "", "reports join operator %s but renders otherwise: %s; %q", j, d, w.RenderSQL())
}

func c17Where(c *Case, g *gctx) {
	// WHERE clauses of elementary conditions report them one by one, in order
	var ms []*MC
	for n := c.r.Between(1, 6); n > 0; n-- {
		ms = append(ms, g.leaf())
	}
	w := query.NewWhere().GroupAND(objs(ms)...)
	g.step("where %s", srcs(ms))
	cs := w.Conditions()
	c.check(len(cs) == len(ms), "WHERE clause of %d conditions reports %d", len(ms), len(cs))
	var parts []string
	for i, x := range cs {
		c.check(x.RenderSQL() == ms[i].obj.RenderSQL(), "condition %d is reported as %q, was added as %q", i+1, x.RenderSQL(), ms[i].obj.RenderSQL())
		c.check(sameValues(x.Values(), ms[i].obj.Values()), "condition %d reports values %s, was added with %s", i+1, descValues(x.Values()), descValues(ms[i].obj.Values()))
		parts = append(parts, x.RenderSQL())
	}
	c.check(squeeze(w.RenderSQL()) == squeeze(strings.Join(parts, " AND ")), "reported conditions %v, rendered %q", parts, w.RenderSQL())
	c.check(strings.Contains(w.String(), w.RenderSQL()), "String() is %q, rendered %q", w.String(), w.RenderSQL())
	c.seen(w.RenderSQL())
	c.count("reports of WHERE clauses")
}

// isList tells whether a bound value is a list (byte slices are single values).
func isList(v any) bool {
	t := reflect.TypeOf(v)
	return t != nil && t.Kind() == reflect.Slice && t.Elem() != reflect.TypeOf(byte(0))
}
