package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C22", quick: 120000, thorough: 2500000,
		rule: "A case is a history of 4-14 operations on four tables of 0-7 rows: SELECT, COUNT, INSERT, UPDATE and DELETE statements made by random programs and from builders retained since earlier operations, each executed through database/sql on an in-memory engine which knows only text and parameters. After each one the result and all tables are compared with a reference which knows only what was asked for; counts, pages and affected rows are also compared with each other. Distinct by statements and results; trivial when no statement selected or changed some but not all rows.",
		assumptions: []string{
			"the engine implements SQL as the harness understands it: three-valued logic, NULL sorted last ascending, rows of a source without ORDER BY in any order",
			"statements whose conditions name columns which their target does not have (made from SELECTs with joins or aliases) are not executed",
		},
		run: runC22,
	})
}

// ---------------------------------------------------------------- tables

var dbTables = []string{"users", "orders", "parts", "quotes"}

// columns of a table carry its first letter, so that a bare name is never ambiguous
var dbColumns = []struct{ name, typ string }{{"id", "int"}, {"n", "int"}, {"m", "int"}, {"s", "text"}, {"f", "bool"}}

func dbColumn(table string, i int) string { return table[:1] + "_" + dbColumns[i].name }

func dbColumnIndex(table, col string) int {
	for i := range dbColumns {
		if dbColumn(table, i) == col {
			return i
		}
	}
	return -1
}

type dbRow [5]any // nil, int64, string, bool

type dbState map[string][]dbRow

func (d dbState) clone() dbState {
	n := dbState{}
	for k, v := range d {
		n[k] = append([]dbRow(nil), v...)
	}
	return n
}

// schema makes generators use names and values of the tables.
type schema struct {
	taken  map[string]bool
	real   map[string]string // alias or name to table
	target string
	sets   map[string]bool
}

func (s *schema) begin() {
	s.taken, s.sets, s.real = map[string]bool{}, map[string]bool{}, map[string]string{}
}
func (s *schema) left() int     { return len(dbTables) - len(s.taken) }
func (s *schema) setsLeft() int { return len(dbColumns) - len(s.sets) }

func (s *schema) take(r *Rng) string {
	for {
		if t := pick(r, dbTables...); !s.taken[t] {
			s.taken[t] = true
			return t
		}
	}
}

func (s *schema) column(r *Rng, ref, typ string) string {
	for {
		i := r.N(len(dbColumns))
		if typ == "" || dbColumns[i].typ == typ {
			return dbColumn(s.real[ref], i)
		}
	}
}

func (s *schema) anyColumn(r *Rng, refs []string) Col {
	ref := pick(r, refs...)
	c := Col{"", s.column(r, ref, "")}
	if r.P(50) {
		c.Table = ref
	}
	return c
}

// schVal draws a value for a column, and what a driver is to receive for it.
func (g *gctx) schVal(typ string) (raw any, want any) {
	if g.r.P(4) {
		return nil, nil
	}
	switch typ {
	case "int":
		n := g.r.N(5)
		return pick[any](g.r, n, int64(n), uint8(n), myInt(n), &n, sql.NullInt64{Int64: int64(n), Valid: true}), int64(n)
	case "text":
		s := pick(g.r, "", "a", "b", "ab", "aB", "Ba", "abc", "b a")
		return pick[any](g.r, s, s, myStr(s), &s), s
	}
	b := g.r.P(50)
	return pick[any](g.r, b, myBool(b), &b), b
}

func (g *gctx) schSet() (string, Val) {
	for {
		i := g.r.N(len(dbColumns))
		name := dbColumn(g.sch.target, i)
		if g.sch.sets[name] {
			continue
		}
		g.sch.sets[name] = true
		raw, want := g.schVal(dbColumns[i].typ)
		return name, Val{raw, want, "column value", false}
	}
}

// schLeaf draws an elementary condition over the tables in use.
func (g *gctx) schLeaf() *MC {
	col := g.sch.anyColumn(g.r, g.tables)
	typ := dbColumns[dbColumnIndex(g.sch.tableOf(col), col.Name)].typ
	f := query.FieldName(col.String())
	l := &MLeaf{ID: len(g.leaves), Col: col}
	m := &MC{ext: "AND", inner: pLeaf(l)}
	g.leaves = append(g.leaves, l)
	op := pick(g.r, "=", "=", ">", ">=", "<", "<=", "LIKE", "ILIKE", "IN", "IN", "ISNULL")
	if typ != "text" && (op == "LIKE" || op == "ILIKE") || typ == "bool" && op[0] != 'I' {
		op = "="
	}
	l.Op = op
	switch op {
	case "ISNULL":
		m.obj = query.IsNull(f)
	case "LIKE", "ILIKE":
		s := pick(g.r, "a", "b", "A", "ab", "", "c", " ")
		l.Params = []any{"%" + s + "%"}
		if op == "LIKE" {
			m.obj = query.Contains(f, s)
		} else {
			m.obj = query.IContains(f, s)
		}
	case "IN":
		n := g.r.Size(3, 5)
		if n == 0 {
			m.inner = pConst(false)
		}
		var list any
		switch k := g.r.N(4); {
		case typ == "int" && k == 0:
			ints := make([]int, n)
			for i := range ints {
				ints[i] = g.r.N(5)
				l.Params = append(l.Params, int64(ints[i]))
			}
			list = ints
		case typ == "text" && k == 0:
			texts := make([]string, n)
			for i := range texts {
				texts[i] = pick(g.r, "", "a", "b", "ab", "abc")
				l.Params = append(l.Params, texts[i])
			}
			list = texts
		default:
			anys := make([]any, n)
			for i := range anys {
				raw, want := g.schVal(typ)
				anys[i] = raw
				l.Params = append(l.Params, want)
			}
			list = anys
		}
		if g.r.P(50) {
			m.obj = query.In(f, list)
		} else {
			m.obj = f.In(list)
		}
	default:
		raw, want := g.schVal(typ)
		l.Params = []any{want}
		switch op {
		case "=":
			m.obj = pick(g.r, query.EqualTo(f, raw), f.EqualTo(raw))
		case ">":
			m.obj = query.GreaterThan(f, raw)
		case ">=":
			m.obj = query.GreaterOrEqual(f, raw)
		case "<":
			m.obj = query.Less(f, raw)
		case "<=":
			m.obj = query.LessOrEqual(f, raw)
		}
	}
	m.src = g.s("%s %s %s", col, op, descValues(l.Params))
	g.op("leaf:" + op)
	return m
}

func (s *schema) tableOf(c Col) string {
	if c.Table != "" {
		return s.real[c.Table]
	}
	for _, t := range dbTables {
		if strings.HasPrefix(c.Name, t[:1]+"_") {
			return t
		}
	}
	return ""
}

// ---------------------------------------------------------------- evaluation

type tri int

const (
	no tri = iota
	unknown
	yes
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

// scope is one row of a source: a row of every table of it, or nil.
type scope []struct {
	ref TableRef
	row *dbRow
}

var errNoColumn = errors.New("no such column")

func (s scope) get(c Col) any {
	for _, t := range s {
		if c.Table == "" || c.Table == t.ref.Alias || c.Table == t.ref.Name && (t.ref.Alias == "" || t.ref.Alias == t.ref.Name) {
			if i := dbColumnIndex(t.ref.Name, c.Name); i >= 0 {
				if t.row == nil {
					return nil
				}
				return t.row[i]
			}
		}
	}
	panic(fmt.Errorf("%w: %s", errNoColumn, c))
}

// cmp compares two values which are not NULL.
func cmp(a, b any) int {
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	}
	panic(fmt.Errorf("cannot compare %T", a))
}

// like matches a pattern in which only % is special.
func like(s, pattern string) bool {
	parts := strings.Split(pattern, "%")
	if len(parts) == 1 {
		return s == pattern
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, last)
}

func evalLeaf(op string, v any, ps []any) tri {
	if op == "ISNULL" {
		return triOf(v == nil)
	}
	if v == nil {
		return unknown
	}
	if op == "IN" {
		res := no
		for _, p := range ps {
			if p == nil {
				res = max(res, unknown)
			} else if cmp(v, p) == 0 {
				return yes
			}
		}
		return res
	}
	p := ps[0]
	if p == nil {
		return unknown
	}
	switch op {
	case "LIKE":
		return triOf(like(v.(string), p.(string)))
	case "ILIKE":
		return triOf(like(strings.ToLower(v.(string)), strings.ToLower(p.(string))))
	}
	d := cmp(v, p)
	switch op {
	case "=":
		return triOf(d == 0)
	case ">":
		return triOf(d > 0)
	case ">=":
		return triOf(d >= 0)
	case "<":
		return triOf(d < 0)
	case "<=":
		return triOf(d <= 0)
	}
	panic(fmt.Errorf("operator %q", op))
}

func fold(op string, n int, kid func(int) tri) tri {
	if op == "not" {
		return yes - kid(0)
	}
	res := no
	if op == "and" {
		res = yes
	}
	for i := 0; i < n; i++ {
		if op == "and" {
			res = min(res, kid(i))
		} else {
			res = max(res, kid(i))
		}
	}
	return res
}

// evalPred evaluates what was composed.
func evalPred(p *Pred, s scope) tri {
	switch {
	case p == nil:
		return yes
	case p.Op == "leaf":
		return evalLeaf(p.Leaf.Op, s.get(p.Leaf.Col), p.Leaf.Params)
	case p.Op == "const":
		return triOf(p.Val)
	}
	return fold(p.Op, len(p.Kids), func(i int) tri { return evalPred(p.Kids[i], s) })
}

// evalNode evaluates what was written.
func evalNode(n *Node, s scope, args []any) tri {
	switch {
	case n == nil:
		return yes
	case n.Op == "leaf":
		c, ok := splitCol(n.Leaf.Col)
		if !ok {
			panic(fmt.Errorf("%w: %s", errNoColumn, n.Leaf.Col))
		}
		var ps []any
		for _, i := range n.Leaf.PH {
			ps = append(ps, args[i])
		}
		r := evalLeaf(n.Leaf.Op, s.get(c), ps)
		if n.Leaf.Neg {
			return yes - r
		}
		return r
	case n.Op == "const":
		return triOf(n.Val)
	}
	return fold(n.Op, len(n.Kids), func(i int) tri { return evalNode(n.Kids[i], s, args) })
}

func (d dbState) source(from TableRef, joins []JoinItem) []scope {
	rows := func(t TableRef) (res []*dbRow) {
		list, ok := d[t.Name]
		if !ok {
			panic(fmt.Errorf("no table %q", t.Name))
		}
		for i := range list {
			res = append(res, &list[i])
		}
		return
	}
	with := func(s scope, ref TableRef, row *dbRow) scope {
		n := append(scope(nil), s...)
		return append(n, struct {
			ref TableRef
			row *dbRow
		}{ref, row})
	}
	var res []scope
	for _, r := range rows(from) {
		res = append(res, with(nil, from, r))
	}
	refs := with(nil, from, nil)
	for _, j := range joins {
		var next []scope
		right := rows(j.Table)
		matched := make([]bool, len(right))
		for _, l := range res {
			any := false
			for i, r := range right {
				s := with(l, j.Table, r)
				a, b := s.get(j.Left), s.get(j.Right)
				if a != nil && b != nil && cmp(a, b) == 0 {
					any, matched[i] = true, true
					next = append(next, s)
				}
			}
			if !any && (j.Type == "LEFT" || j.Type == "FULL") {
				next = append(next, with(l, j.Table, nil))
			}
		}
		if j.Type == "RIGHT" || j.Type == "FULL" {
			for i, r := range right {
				if !matched[i] {
					next = append(next, with(refs, j.Table, r))
				}
			}
		}
		with(refs, j.Table, nil).get(j.Left) // columns exist even if there are no rows
		with(refs, j.Table, nil).get(j.Right)
		res, refs = next, with(refs, j.Table, nil)
	}
	return res
}

// empty is the scope of a source without any row, for finding unknown columns.
func emptyScope(from TableRef, joins []JoinItem) scope {
	s := scope{{ref: from}}
	for _, j := range joins {
		s = append(s, struct {
			ref TableRef
			row *dbRow
		}{ref: j.Table})
	}
	return s
}

type sortKey []any

// less orders keys: NULL last ascending, first descending.
func sortLess(a, b sortKey, order []OrderItem) bool {
	for i, o := range order {
		x, y := a[i], b[i]
		d := 0
		switch {
		case x == nil && y == nil:
		case x == nil:
			d = 1
		case y == nil:
			d = -1
		default:
			d = cmp(x, y)
		}
		if o.Dir == "DESC" {
			d = -d
		}
		if d != 0 {
			return d < 0
		}
	}
	return false
}

type outRow struct {
	vals []any
	key  sortKey
}

// rowsOf selects, projects and sorts.
func rowsOf(src []scope, where func(scope) tri, star bool, fields []FieldItem, order []OrderItem, empty scope) (cols []string, out []outRow) {
	project := func(s scope) (o outRow) {
		if star || len(fields) == 0 {
			for _, t := range s {
				for i := range dbColumns {
					if t.row == nil {
						o.vals = append(o.vals, nil)
					} else {
						o.vals = append(o.vals, t.row[i])
					}
				}
			}
		}
		for _, f := range fields {
			o.vals = append(o.vals, s.get(f.Col))
		}
		for _, k := range order {
			c, ok := splitCol(k.Col)
			if !ok {
				panic(fmt.Errorf("%w: %s", errNoColumn, k.Col))
			}
			o.key = append(o.key, s.get(c))
		}
		return
	}
	if star || len(fields) == 0 {
		for _, t := range empty {
			for i := range dbColumns {
				cols = append(cols, dbColumn(t.ref.Name, i))
			}
		}
	}
	for _, f := range fields {
		if f.Alias != "" {
			cols = append(cols, f.Alias)
		} else {
			cols = append(cols, f.Name)
		}
	}
	where(empty)
	project(empty)
	for _, s := range src {
		if where(s) == yes {
			out = append(out, project(s))
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return sortLess(out[i].key, out[j].key, order) })
	return
}

// ---------------------------------------------------------------- engine

// memDB executes statements knowing only their text and parameters.
type memDB struct {
	state dbState
}

var mem memDB
var memPool *sql.DB

func memOpen() *sql.DB {
	if memPool == nil {
		memPool = sql.OpenDB(&mem)
		memPool.SetMaxOpenConns(1)
	}
	return memPool
}

func (d *memDB) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *memDB) Driver() driver.Driver                        { return recOpener{} }
func (d *memDB) Close() error                                 { return nil }
func (d *memDB) Begin() (driver.Tx, error)                    { return nil, errors.New("no transactions") }
func (d *memDB) Prepare(q string) (driver.Stmt, error) {
	s, err := parseStmt(q)
	if err == nil {
		err = resolvePH(s)
	}
	if err != nil {
		return nil, fmt.Errorf("syntax error: %w", err)
	}
	n := 0
	for _, p := range s.PH {
		n = max(n, p)
	}
	return memStmt{d, s, n}, nil
}

type memStmt struct {
	d *memDB
	s *Stmt
	n int
}

func (s memStmt) Close() error  { return nil }
func (s memStmt) NumInput() int { return s.n }

func guarded(f func()) (err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case error:
			err = fmt.Errorf("execution failed: %w", r)
		default:
			err = fmt.Errorf("execution failed: %v", r)
		}
	}()
	f()
	return nil
}

func anys(args []driver.Value) []any {
	res := make([]any, len(args))
	for i, a := range args {
		res[i] = a
	}
	return res
}

func (s memStmt) Exec(values []driver.Value) (driver.Result, error) {
	args := anys(values)
	affected := 0
	err := guarded(func() {
		t := s.s.From
		rows, ok := s.d.state[t.Name]
		if !ok {
			panic(fmt.Errorf("no table %q", t.Name))
		}
		set := func(row *dbRow) {
			for i, c := range s.s.Cols {
				k := dbColumnIndex(t.Name, c)
				if k < 0 {
					panic(fmt.Errorf("%w: %s", errNoColumn, c))
				}
				row[k] = args[s.s.Vals[i]]
			}
		}
		one := scope{{ref: t}}
		var kept []dbRow
		switch s.s.Kind {
		case "INSERT":
			var row dbRow
			set(&row)
			kept, affected = append(append(kept, rows...), row), 1
		case "UPDATE", "DELETE":
			evalNode(s.s.Where, one, args)
			set(&dbRow{})
			for i := range rows {
				row := rows[i]
				one[0].row = &rows[i]
				if evalNode(s.s.Where, one, args) == yes {
					affected++
					if s.s.Kind == "DELETE" {
						continue
					}
					set(&row)
				}
				kept = append(kept, row)
			}
		default:
			panic(fmt.Errorf("%s executed", s.s.Kind))
		}
		s.d.state[t.Name] = kept
	})
	return driver.RowsAffected(affected), err
}

type memRows struct {
	cols []string
	out  []outRow
}

func (r *memRows) Columns() []string { return r.cols }
func (r *memRows) Close() error      { return nil }
func (r *memRows) Next(dest []driver.Value) error {
	if len(r.out) == 0 {
		return io.EOF
	}
	for i, v := range r.out[0].vals {
		dest[i] = v
	}
	r.out = r.out[1:]
	return nil
}

func page(out []outRow, offset, limit uint64) []outRow {
	if offset >= uint64(len(out)) {
		return nil
	}
	out = out[offset:]
	if limit < uint64(len(out)) {
		out = out[:limit]
	}
	return out
}

func (s memStmt) Query(values []driver.Value) (driver.Rows, error) {
	args := anys(values)
	res := &memRows{}
	err := guarded(func() {
		st := s.s
		where := func(sc scope) tri { return evalNode(st.Where, sc, args) }
		src, empty := s.d.state.source(st.From, st.Joins), emptyScope(st.From, st.Joins)
		switch st.Kind {
		case "COUNT":
			var fields []FieldItem
			if st.Count != "*" {
				c, ok := splitCol(st.Count)
				if !ok {
					panic(errNoColumn)
				}
				fields = []FieldItem{{Col: c}}
			}
			_, out := rowsOf(src, where, st.Count == "*", fields, nil, empty)
			n := int64(0)
			for _, o := range out {
				if st.Count == "*" || o.vals[0] != nil {
					n++
				}
			}
			res.cols, res.out = []string{"count"}, []outRow{{vals: []any{n}}}
		case "SELECT":
			cols, out := rowsOf(src, where, st.Star, st.Fields, st.Order, empty)
			num := func(pos int, lit string, absent uint64) uint64 {
				switch {
				case lit != "":
					n, err := strconv.ParseUint(lit, 10, 64)
					if err != nil {
						panic(err)
					}
					return n
				case pos < 0:
					return absent
				}
				n, ok := args[pos].(int64)
				if !ok || n < 0 {
					panic(fmt.Errorf("pagination by %v", args[pos]))
				}
				return uint64(n)
			}
			res.cols, res.out = cols, page(out, num(st.Offset, st.OffsetLit, 0), num(st.Limit, st.LimitLit, 1<<63))
		default:
			panic(fmt.Errorf("%s queried", st.Kind))
		}
	})
	return res, err
}

// ---------------------------------------------------------------- histories

type history struct {
	c     *Case
	g     *gctx
	want  dbState
	kept  []keptSel
	some  bool // something but not everything was selected or changed
	texts []string
}

type keptSel struct {
	s      *Sel
	tables []string
	sch    schema
}

func (h *history) hold(s *Sel) keptSel {
	n := *s
	sch := *h.g.sch
	sch.taken, sch.sets = map[string]bool{}, map[string]bool{}
	for k := range h.g.sch.taken {
		sch.taken[k] = true
	}
	sch.real = map[string]string{}
	for k, v := range h.g.sch.real {
		sch.real[k] = v
	}
	return keptSel{&n, append([]string{}, h.g.tables...), sch}
}

func (h *history) resume(k keptSel) *Sel {
	h.g.tables = append([]string{}, k.tables...)
	tmp := *h.g.sch
	*h.g.sch = k.sch
	own := h.hold(k.s)
	*h.g.sch = tmp
	*h.g.sch = own.sch
	return own.s
}

type queryBuilder interface {
	BuildQueryAndParams() (string, []interface{}, error)
}

func (h *history) build(b queryBuilder) (string, []any) {
	text, params, err := b.BuildQueryAndParams()
	h.c.check(err == nil, "building a complete statement failed: %v", err)
	h.c.tracef("   %s  %s", text, descValues(params))
	h.texts = append(h.texts, text)
	h.c.seen(text)
	return text, params
}

func (h *history) query(b queryBuilder) (cols []string, out [][]any) {
	text, params := h.build(b)
	rows, err := memOpen().Query(text, params...)
	h.c.check(err == nil, "statement failed: %v: %q %s", err, text, descValues(params))
	defer rows.Close()
	cols, err = rows.Columns()
	for err == nil && rows.Next() {
		vals, ptrs := make([]any, len(cols)), make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		err = rows.Scan(ptrs...)
		out = append(out, vals)
	}
	h.c.check(err == nil && rows.Err() == nil, "reading the result failed: %v %v: %q", err, rows.Err(), text)
	h.c.countN("rows returned", len(out))
	return
}

func (h *history) exec(b queryBuilder) int {
	text, params := h.build(b)
	res, err := memOpen().Exec(text, params...)
	h.c.check(err == nil, "statement failed: %v: %q %s", err, text, descValues(params))
	n, _ := res.RowsAffected()
	h.c.countN("rows changed", int(n))
	return int(n)
}

func (h *history) last() string { return h.texts[len(h.texts)-1] }

func rowKey(vals []any) string { return fmt.Sprintf("%#v", vals) }

// sameBag tells whether every row of a occurs in b as often, or at most as often.
func sameBag(a, b [][]any, subset bool) bool {
	m := map[string]int{}
	for _, r := range b {
		m[rowKey(r)]++
	}
	for _, r := range a {
		k := rowKey(r)
		if m[k]--; m[k] < 0 {
			return false
		}
	}
	return subset || len(a) == len(b)
}

// all is what a SELECT gives without pagination, by the reference.
func (h *history) all(m SelModel) (cols []string, out []outRow) {
	return rowsOf(h.want.source(m.table, m.joins), func(s scope) tri { return evalPred(m.where, s) },
		len(m.fields) == 0, m.fields, m.order, emptyScope(m.table, m.joins))
}

func plain(out []outRow) (res [][]any) {
	for _, o := range out {
		res = append(res, o.vals)
	}
	return
}

func (h *history) total(m SelModel) int { return len(h.want.source(m.table, m.joins)) }

// selects executes a SELECT and compares.
func (h *history) selects(s *Sel) {
	m := s.m
	cols, all := h.all(m)
	gotCols, got := h.query(s.obj())
	h.c.check(fmt.Sprint(gotCols) == fmt.Sprint(cols), "result has columns %v, want %v: %q", gotCols, cols, h.last())
	offset, limit := uint64(0), uint64(1<<63)
	switch s.kind {
	case "single":
		limit = 1
	case "many":
		offset = uint64(m.offset)
		if m.limit > 0 {
			limit = uint64(m.limit)
		}
	}
	want := page(all, offset, limit)
	h.c.check(len(got) == len(want), "%d rows, want %d: %q: %s, want some of %s", len(got), len(want), h.last(), rowsText(got), rowsText(plain(all)))
	h.c.check(sameBag(got, plain(all), len(want) < len(all)), "rows %s are not those asked for: %s: %q", rowsText(got), rowsText(plain(all)), h.last())
	if len(m.order) > 0 && s.kind == "many" {
		// equal keys may come in any order: keys tell the rest
		keys := map[string]string{}
		for _, o := range all {
			k := rowKey(o.key)
			if old, ok := keys[rowKey(o.vals)]; ok && old != k {
				k = "several"
			}
			keys[rowKey(o.vals)] = k
		}
		for i, r := range got {
			k := keys[rowKey(r)]
			h.c.check(k == "several" || k == rowKey(want[i].key), "row %d is %s, want one sorted by %s: %q", i+1, rowKey(r), rowKey(want[i].key), h.last())
		}
		h.c.count("sorted results")
	}
	if len(got) > 0 && len(got) < h.total(m) {
		h.some = true
	}
	h.c.count("SELECT executed")
	h.c.seen(rowsText(got))
}

func rowsText(rows [][]any) string {
	var b []string
	for _, r := range rows {
		b = append(b, descValues(r))
	}
	return clip(strings.Join(b, " "))
}

func (h *history) count(b queryBuilder, col string, m SelModel) int {
	if col == "*" {
		m.fields = nil
	} else {
		c, _ := splitCol(col)
		m.fields = []FieldItem{{Col: c}}
	}
	m.order = nil
	_, all := h.all(m)
	want := int64(0)
	for _, o := range all {
		if col == "*" || o.vals[0] != nil {
			want++
		}
	}
	_, got := h.query(b)
	h.c.check(len(got) == 1 && len(got[0]) == 1 && got[0][0] == any(want), "COUNT gives %s, want %d: %q", rowsText(got), want, h.last())
	h.c.count("COUNT executed")
	return int(want)
}

// pages reads a result page by page.
func (h *history) pages(s *Sel) {
	if s.kind == "many" && len(s.m.order) == 0 && (s.m.offset > 0 || s.m.limit > 0) {
		return
	}
	m := s.m
	if s.kind != "many" || m.order == nil { // a total order of the base table
		m.order = nil
	}
	var b query.SelectManyBuilder
	switch s.kind {
	case "base":
		b = s.base.Many()
	case "single":
		b = s.single.Many()
	default:
		b = s.many
	}
	refs := append([]string{m.table.ref2()}, nil...)
	for _, j := range m.joins {
		refs = append(refs, j.Table.ref2())
	}
	for _, r := range refs { // all columns, so that equal keys are equal rows
		for i := range dbColumns {
			col := r + "." + dbColumn(h.g.sch.real[r], i)
			b = b.OrderBy(query.DESC(query.FieldName(col)))
			m.order = append(append([]OrderItem{}, m.order...), OrderItem{col, "DESC"})
		}
	}
	_, all := h.all(m)
	size := h.g.r.Between(1, 4)
	var got [][]any
	for at := 0; ; at += size {
		_, part := h.query(b.Offset(uint(at)).Limit(size))
		h.c.check(len(part) <= size, "page of %d rows, want at most %d: %q", len(part), size, h.last())
		got = append(got, part...)
		if len(part) < size || at > 5000 {
			break
		}
		if len(got) > 60 { // large joins
			return
		}
	}
	h.c.check(rowsTextFull(got) == rowsTextFull(plain(all)), "pages of %d rows put together give %s, want %s: %q", size, rowsText(got), rowsText(plain(all)), h.last())
	h.c.count("results read page by page")
}

func (t TableRef) ref2() string {
	if t.Alias != "" {
		return t.Alias
	}
	return t.Name
}

func rowsTextFull(rows [][]any) string {
	var b strings.Builder
	for _, r := range rows {
		b.WriteString(rowKey(r))
	}
	return b.String()
}

// executable tells whether the target alone has all columns the conditions name.
func executable(table string, where *Pred) bool {
	return guarded(func() { evalPred(where, scope{{ref: TableRef{Name: table}}}) }) == nil
}

func (h *history) changes(kind, table string, sets []SetModel, where *Pred, b queryBuilder) {
	if kind != "INSERT" && (where == nil || !executable(table, where)) {
		h.c.count("not executable on the target alone")
		return
	}
	var kept []dbRow
	n := 0
	set := func(row *dbRow) {
		for _, s := range sets {
			row[dbColumnIndex(table, s.Col)] = s.Exp
		}
	}
	rows := h.want[table]
	if kind == "INSERT" {
		var row dbRow
		set(&row)
		kept, n = append(append(kept, rows...), row), 1
	} else {
		for i := range rows {
			row := rows[i]
			if evalPred(where, scope{{ref: TableRef{Name: table}, row: &row}}) == yes {
				n++
				if kind == "DELETE" {
					continue
				}
				set(&row)
			}
			kept = append(kept, row)
		}
		if n > 0 && n < len(rows) {
			h.some = true
		}
	}
	h.want[table] = kept
	got := h.exec(b)
	h.c.check(got == n, "%s changed %d rows, want %d: %q", kind, got, n, h.last())
	for _, t := range dbTables {
		h.c.check(bagOf(mem.state[t]) == bagOf(h.want[t]), "after %q table %s holds %v, want %v", h.last(), t, mem.state[t], h.want[t])
	}
	h.c.count(kind + " executed")
	h.c.seen(fmt.Sprint(n))
}

func bagOf(rows []dbRow) string {
	s := make([]string, len(rows))
	for i, r := range rows {
		s[i] = fmt.Sprintf("%#v", r)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func (h *history) sets(b func(...query.FieldValue)) []SetModel {
	h.g.sch.sets = map[string]bool{}
	fs, ms := h.g.setPairs(1, 2, 5)
	b(fs...)
	return ms
}

func runC22(c *Case) {
	g := c.ctx()
	g.sch, g.customPct, g.plainSort = &schema{}, 0, true
	g.bulk, g.huge, g.relNames = 0, 0, false
	h := &history{c: c, g: g, want: dbState{}}
	for _, t := range dbTables {
		rows := make([]dbRow, g.r.Between(0, 7))
		for i := range rows {
			for k := range dbColumns {
				_, rows[i][k] = g.schVal(dbColumns[k].typ)
				if g.r.P(12) {
					rows[i][k] = nil
				}
			}
		}
		h.want[t] = rows
		c.tracef("%s: %v", t, rows)
	}
	mem.state = h.want.clone()
	n := g.r.Between(4, 14)
	for i := 0; i < n; i++ {
		g.budget = g.r.Between(1, 6)
		var s *Sel
		if len(h.kept) > 0 && g.r.P(60) {
			s = h.resume(pick(g.r, h.kept...))
			g.step("retained %s of %v:", s.kind, s.m.table)
			for k := g.r.Size(1, 3); k > 0; k-- {
				g.selStep(s, 2)
			}
			c.count("operations on retained builders")
		} else if k := g.r.N(10); k < 4 {
			w := g.write(pick(g.r, "INSERT", "INSERT", "UPDATE", "UPDATE", "DELETE"), false)
			h.changes(w.kind, w.table, w.sets, w.where, w.obj())
			continue
		} else {
			s = g.sel(g.r.Size(4, 8))
		}
		h.kept = append(h.kept, h.hold(s))
		c.max("joins", len(s.m.joins))
		switch k := g.r.N(16); {
		case k < 5:
			h.selects(s)
		case k < 8:
			b, col := g.countOf(s)
			h.count(b, col, s.m)
		case k < 10:
			h.pages(s)
		case k < 12: // the same conditions to look at rows, change them and look again
			if s.m.where == nil || !executable(s.m.table.Name, s.m.where) || len(s.m.joins) > 0 {
				h.selects(s)
				continue
			}
			before := h.count(s.asBase().Count(), "*", s.m)
			var del query.DeleteBuilder
			switch s.kind {
			case "base":
				del = s.base.Delete()
			case "many":
				del = s.many.Delete()
			default:
				del = s.single.Delete()
			}
			size := len(mem.state[s.m.table.Name])
			h.changes("DELETE", s.m.table.Name, nil, s.m.where, del)
			c.check(size-len(mem.state[s.m.table.Name]) == before, "COUNT gave %d, DELETE by the same conditions removed %d: %q", before, size-len(mem.state[s.m.table.Name]), h.last())
			after := h.count(s.asBase().Count(), "*", s.m)
			c.check(after == 0, "%d rows left after deleting by the same conditions: %q", after, h.last())
			c.count("count, delete, count")
		case k < 14:
			g.sch.target = s.m.table.Name
			var b query.UpdateBuilder
			ms := h.sets(func(fs ...query.FieldValue) {
				switch s.kind {
				case "base":
					b = s.base.Update(fs...)
				case "many":
					b = s.many.Update(fs...)
				default:
					b = s.single.Update(fs...)
				}
			})
			h.changes("UPDATE", s.m.table.Name, ms, s.m.where, b)
		default:
			g.sch.target = s.m.table.Name
			var b query.InsertBuilder
			ms := h.sets(func(fs ...query.FieldValue) { b = s.asBase().InsertInto(fs...) })
			h.changes("INSERT", s.m.table.Name, ms, nil, b)
		}
	}
	// everything retained still means what it did
	for _, k := range h.kept {
		if g.r.P(30) {
			h.selects(h.resume(k))
		}
	}
	c.trivial = !h.some
	c.max("operations", n)
	c.countN("statements executed", len(h.texts))
}
