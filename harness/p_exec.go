package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C21", quick: 500000, thorough: 8000000,
		rule: "A case builds a statement twice from one plan (places of 1-7 comparisons, LIKE, IN lists, column values, pagination, in groups and negations) with different values of about 90 kinds, prepares its text once with database/sql over a recording driver and executes it with both parameter lists; what the driver receives at each place is compared with what it receives when the attached value is passed to database/sql directly; distinct by text and value kinds; trivial when nothing was executed.",
		assumptions: []string{
			"the driver does no conversions of its own (database/sql's defaults apply), as with drivers which do not implement NamedValueChecker",
			"values which database/sql itself refuses may be refused, or delivered in the form the library converted them to, but never as NULL",
		},
		run: runC21,
	})
}

// A driver which records what it is given.

type recDriver struct {
	prepared, executed int
	query              string
	args               []driver.Value
}

var rec recDriver
var recDB *sql.DB

func recOpen() *sql.DB {
	if recDB == nil {
		recDB = sql.OpenDB(&rec)
		recDB.SetMaxOpenConns(1)
	}
	return recDB
}

var phRe = regexp.MustCompile(`\$\d+`)

func (d *recDriver) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *recDriver) Driver() driver.Driver                        { return recOpener{} }
func (d *recDriver) Prepare(q string) (driver.Stmt, error) {
	d.prepared++
	distinct := map[string]bool{}
	for _, p := range phRe.FindAllString(q, -1) {
		distinct[p] = true
	}
	return recStmt{d, q, len(distinct)}, nil
}
func (d *recDriver) Close() error              { return nil }
func (d *recDriver) Begin() (driver.Tx, error) { return nil, errors.New("no transactions") }

type recOpener struct{}

func (recOpener) Open(string) (driver.Conn, error) { return &rec, nil }

type recStmt struct {
	d *recDriver
	q string
	n int
}

func (s recStmt) Close() error  { return nil }
func (s recStmt) NumInput() int { return s.n }
func (s recStmt) note(args []driver.Value) {
	s.d.executed++
	s.d.query, s.d.args = s.q, append([]driver.Value(nil), args...)
}
func (s recStmt) Exec(args []driver.Value) (driver.Result, error) {
	s.note(args)
	return driver.ResultNoRows, nil
}
func (s recStmt) Query(args []driver.Value) (driver.Rows, error) { s.note(args); return noRows{}, nil }

type noRows struct{}

func (noRows) Columns() []string         { return []string{"c"} }
func (noRows) Close() error              { return nil }
func (noRows) Next([]driver.Value) error { return io.EOF }

// delivered is what the driver receives for a value passed directly.
func delivered(v any) (driver.Value, error) {
	st, err := recOpen().Prepare("$1")
	if err != nil {
		return nil, err
	}
	defer st.Close()
	if _, err = st.Exec(v); err != nil {
		return nil, err
	}
	return rec.args[0], nil
}

// arrival tells what may arrive at one place.
type arrival struct {
	place string
	kind  string
	want  []driver.Value
	err   error // database/sql refuses the value itself
}

func (a arrival) ok(got driver.Value) bool {
	if a.err != nil {
		return got != nil
	}
	for _, w := range a.want {
		if f, ok := w.(float64); ok {
			g, ok := got.(float64)
			if ok && (math.Float64bits(f) == math.Float64bits(g) || math.IsNaN(f) && math.IsNaN(g)) {
				return true
			}
			continue
		}
		if reflect.DeepEqual(w, got) {
			return true
		}
	}
	return false
}

func arrive(place string, e convExp) arrival {
	a := arrival{place: place, kind: e.kind}
	v := e.v
	if e.fails {
		a.err = errConv
		return a
	}
	if _, isV := v.(driver.Valuer); !isV {
		if p, ok := v.(query.ValueProvider); ok {
			rv := reflect.ValueOf(p)
			if rv.Kind() == reflect.Pointer && rv.IsNil() {
				a.want = append(a.want, nil)
				if panics(func() { v = p.DatabaseValue() }) != nil {
					return a
				}
			} else {
				v = p.DatabaseValue()
			}
		}
	}
	d, err := delivered(v)
	if err != nil {
		a.err = err
		return a
	}
	a.want = append(a.want, d)
	return a
}

// fillValue draws a value; usually one which database/sql takes.
func (g *gctx) fillValue(in bool) convExp {
	hard := g.vr.P(6)
	for i := 0; ; i++ {
		e := g.convValue()
		if _, twice := e.v.(pWrap); twice { // how often it is converted is open
			continue
		}
		if in && (e.noIn || e.v == nil) {
			continue
		}
		if hard || i > 20 || arrive("", e).err == nil {
			return e
		}
	}
}

type filled struct {
	sql    string
	params []any
	err    error
	panic  any
	places []arrival // in the order of the text; pagination is added after
	offset uint
	limit  int
	bad    bool // some value cannot be converted
}

// fillPlan makes one statement of a plan: r decides on the structure, g on the values.
func fillPlan(g *gctx, r *Rng, kind string) (f filled) {
	g.colID = 0
	var conds []query.Condition
	var csl, ssl []arrival
	note := func(sl *[]arrival, place string, e convExp) {
		a := arrive(place, e)
		f.bad = f.bad || a.err != nil
		*sl = append(*sl, a)
	}
	f.panic = panics(func() {
		name := func() query.FieldName {
			g.colID++
			n := fmt.Sprintf("c%d", g.colID)
			return query.FieldName(pick(r, n, n, "t."+n))
		}
		leaf := func() query.Condition {
			n := name()
			switch k := r.N(14); {
			case k < 6:
				e := g.fillValue(false)
				op := []string{"=", ">", ">=", "<", "<="}[r.N(5)]
				g.step("%s %s %s", n, op, descValue(e.v))
				note(&csl, op, e)
				switch op {
				case "=":
					return pick(r, query.EqualTo(n, e.v), n.EqualTo(e.v))
				case ">":
					return query.GreaterThan(n, e.v)
				case ">=":
					return query.GreaterOrEqual(n, e.v)
				case "<":
					return query.Less(n, e.v)
				}
				return query.LessOrEqual(n, e.v)
			case k < 8:
				s := g.str()
				note(&csl, "LIKE", conv("pattern", "%"+s+"%", nil))
				g.step("%s LIKE %q", n, s)
				if r.P(50) {
					return query.Contains(n, s)
				}
				return query.IContains(n, s)
			case k < 9:
				return query.IsNull(n)
			case k < 10:
				e := g.fillValue(true)
				g.step("%s IN %s", n, descValue(e.v))
				note(&csl, "IN scalar", e)
				return query.In(n, e.v)
			}
			want := r.Size(4, 25)
			if r.P(30) { // mixed kinds
				l := make([]any, want)
				for i := range l {
					e := g.fillValue(false)
					l[i] = e.v
					note(&csl, "IN []any", e)
				}
				g.step("%s IN %s", n, descValue(l))
				return query.In(n, l)
			}
			v, es, kind := g.convList(want)
			for tries := 0; len(es) != want || es != nil && (arrive("", es[0]).err != nil && tries < 10); tries++ {
				v, es, kind = g.convList(want)
			}
			g.step("%s IN %s", n, descValue(v))
			for i, e := range es {
				if e.v == nil && reflect.TypeOf(v).Kind() == reflect.Slice {
					e.v = reflect.ValueOf(v).Index(i).Interface()
				}
				note(&csl, "IN "+kind, e)
			}
			return pick(r, query.In(n, v), n.In(v))
		}
		n := r.Between(1, 5)
		if kind == "INSERT" {
			n = 0
		}
		for ; n > 0; n-- {
			x := leaf()
			for r.P(25) {
				switch r.N(4) {
				case 0:
					x = query.Not(x)
				case 1:
					x = x.And(leaf())
				case 2:
					x = x.Or(leaf())
				default:
					x = query.NewGroup(query.LogicalOR, x, leaf())
				}
			}
			conds = append(conds, x)
		}
		var sets []query.FieldValue
		if kind == "INSERT" || kind == "UPDATE" {
			for n := r.Between(1, 5); n > 0; n-- {
				nm := name()
				e := g.fillValue(false)
				g.step("%s := %s", nm, descValue(e.v))
				note(&ssl, "column", e)
				switch r.N(3) {
				case 0:
					sets = append(sets, nm.Value(e.v))
				case 1:
					sets = append(sets, query.Field(nm).Value(e.v))
				default:
					sets = append(sets, *query.NewFieldValue(nm, e.v))
				}
			}
		}
		f.places = append(ssl, csl...)
		cut := 0
		if len(conds) > 0 {
			cut = r.N(len(conds) + 1)
		}
		s := query.SelectFrom("t").Where(conds[:cut]...).Where(conds[cut:]...)
		switch kind {
		case "SELECT":
			f.sql, f.params, f.err = s.BuildQueryAndParams()
		case "SELECT MANY":
			m := s.Many()
			if r.P(70) {
				f.offset = uint(1 + g.vr.N(1000000))
				m = m.Offset(f.offset)
			}
			if r.P(70) {
				f.limit = 1 + g.vr.N(1000000)
				m = m.Limit(f.limit)
			}
			f.sql, f.params, f.err = m.BuildQueryAndParams()
		case "SELECT SINGLE":
			f.sql, f.params, f.err = s.Single().BuildQueryAndParams()
		case "COUNT":
			f.sql, f.params, f.err = s.Count().BuildQueryAndParams()
		case "DELETE":
			f.sql, f.params, f.err = query.Delete("t").Where(conds[:cut]...).Where(conds[cut:]...).BuildQueryAndParams()
		case "INSERT":
			f.sql, f.params, f.err = query.InsertInto("t").Values(sets...).BuildQueryAndParams()
		default:
			f.sql, f.params, f.err = query.Update("t").Set(sets...).Where(conds[:cut]...).Where(conds[cut:]...).BuildQueryAndParams()
		}
	})
	if f.panic == nil && f.err == nil { // pagination stands at the end, in either order
		var tail []arrival
		if f.offset > 0 {
			tail = append(tail, arrival{place: "OFFSET", want: []driver.Value{int64(f.offset)}})
		}
		if f.limit > 0 {
			tail = append(tail, arrival{place: "LIMIT", want: []driver.Value{int64(f.limit)}})
		}
		if len(tail) == 2 && strings.LastIndex(f.sql, "OFFSET") > strings.LastIndex(f.sql, "LIMIT") {
			tail[0], tail[1] = tail[1], tail[0]
		}
		f.places = append(f.places, tail...)
	}
	return f
}

func runC21(c *Case) {
	g := c.ctx()
	kind := pick(c.r, "SELECT", "SELECT MANY", "SELECT MANY", "SELECT SINGLE", "COUNT", "DELETE", "INSERT", "INSERT", "UPDATE", "UPDATE")
	plan := *c.r.Fork()
	c.trivial = true
	var st *sql.Stmt
	var text string
	for round := 0; round < 2; round++ {
		r := plan
		f := fillPlan(g, &r, kind)
		c.tracef("%s: %q %s err=%v panic=%v", kind, f.sql, descValues(f.params), f.err, f.panic)
		if f.panic != nil || f.err != nil {
			c.check(f.bad, "values which database/sql takes are refused: %v %v", f.panic, f.err)
			c.count("refused before execution")
			continue
		}
		if st == nil {
			var err error
			text = f.sql
			st, err = recOpen().Prepare(f.sql)
			c.check(err == nil, "statement cannot be prepared: %v: %q", err, f.sql)
			defer st.Close()
		} else {
			c.check(f.sql == text, "the same structure with other values gives another statement: %q, %q", text, f.sql)
			c.count("executions of a statement prepared for other values")
		}
		before := rec.executed
		var err error
		if strings.HasPrefix(kind, "SELECT") || kind == "COUNT" {
			var rows *sql.Rows
			if rows, err = st.Query(f.params...); err == nil {
				rows.Close()
			}
		} else {
			_, err = st.Exec(f.params...)
		}
		if err != nil {
			c.check(f.bad, "database/sql refuses the parameters: %v: %q with %s", err, f.sql, descValues(f.params))
			c.check(rec.executed == before, "statement reached the driver although execution failed: %v", err)
			c.count("failures reported by database/sql")
			continue
		}
		c.check(rec.query == text, "driver got %q, built %q", rec.query, text)
		c.check(len(rec.args) == len(f.places), "driver got %d values for %d places: %s in %q", len(rec.args), len(f.places), descValues(f.params), f.sql)
		for i, a := range f.places {
			c.check(a.ok(rec.args[i]), "place %d (%s) of kind %q: driver got %s, want %s: %q", i+1, a.place, a.kind, descValue(rec.args[i]), describeArrival(a), f.sql)
			c.count("delivered: " + a.place)
			c.seen(a.kind)
		}
		c.countN("values delivered", len(f.places))
		c.seen(kind, f.sql)
		c.trivial = false
	}
}

func describeArrival(a arrival) string {
	if a.err != nil {
		return "anything but NULL (" + a.err.Error() + ")"
	}
	var s []string
	for _, w := range a.want {
		s = append(s, descValue(w))
	}
	return strings.Join(s, " or ")
}
