package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/amarin/query"
)

// More value types for the conversion workload.

type vByte uint8 // one byte wide, knows its database form

func (v vByte) Value() (driver.Value, error) { return fmt.Sprint("vb", uint8(v)), nil }

type pByte uint8

func (p pByte) DatabaseValue() interface{} { return fmt.Sprint("pb", uint8(p)) }

type myByte uint8

type myBool bool

type pNil struct{} // provider giving NULL

func (pNil) DatabaseValue() interface{} { return nil }

type pSlice struct{ N int } // provider giving a list

func (p pSlice) DatabaseValue() interface{} { return []int64{int64(p.N), int64(p.N) + 1} }

type vMap map[string]int // map kind valuer

func (v vMap) Value() (driver.Value, error) { return fmt.Sprintf("map%d", len(v)), nil }

type vFunc func() string // func kind valuer

func (v vFunc) Value() (driver.Value, error) { return v(), nil }

type pMap map[string]int

func (p pMap) DatabaseValue() interface{} { return fmt.Sprintf("pmap%d", len(p)) }

type vOuter struct{ vText } // conversion by embedding

type pOuter struct{ *pPtr }

type vWrap struct{ V driver.Valuer } // Valuer giving a Valuer

func (w vWrap) Value() (driver.Value, error) { return w.V, nil }

type pWrap struct{ V any } // provider giving what wants conversion itself

func (w pWrap) DatabaseValue() interface{} { return w.V }

type namer interface{ Name() string }

type vNamer struct{ S string } // element of a list of another interface

func (v vNamer) Name() string                 { return v.S }
func (v vNamer) Value() (driver.Value, error) { return "named:" + v.S, nil }

type plainNamer struct{ S string }

func (v plainNamer) Name() string { return v.S }

// convExp tells which parameters may stand for a value.
type convExp struct {
	v     any
	kind  string
	want  string
	ok    func(p any) bool
	fails bool // the conversion fails: a panic or a build error is fine too
	noIn  bool // what the IN position does with it is open
}

func exactly(want any) func(any) bool {
	return func(p any) bool {
		if w, ok := want.(float64); ok && math.IsNaN(w) {
			f, ok := p.(float64)
			return ok && math.IsNaN(f)
		}
		if reflect.TypeOf(p) != reflect.TypeOf(want) {
			return false
		}
		if t := reflect.TypeOf(want); t != nil && t.Kind() == reflect.Pointer {
			return p == want
		}
		if w, ok := want.(float64); ok {
			return math.Float64bits(w) == math.Float64bits(p.(float64))
		}
		return reflect.DeepEqual(p, want)
	}
}

func conv(kind string, v, want any) convExp {
	return convExp{v: v, kind: kind, want: descValue(want), ok: exactly(want)}
}

// nilOr accepts NULL in the forms in which a driver understands it: nil, a nil
// pointer, or the value the type itself gives for nil.
func nilOr(kind string, v any, own ...any) convExp {
	return convExp{v: v, kind: kind, want: "NULL", ok: func(p any) bool {
		if p == nil {
			return true
		}
		for _, o := range own {
			if exactly(o)(p) {
				return true
			}
		}
		rv := reflect.ValueOf(p)
		return rv.Kind() == reflect.Pointer && rv.IsNil() && rv.Type() == reflect.TypeOf(v)
	}}
}

// failing accepts only what lets the failure surface: a parameter that is a Valuer
// which fails when the driver asks it.
func failing(kind string, v any) convExp {
	return convExp{v: v, kind: kind, want: "a failure", fails: true, ok: func(p any) bool {
		vv, ok := p.(driver.Valuer)
		if !ok {
			return false
		}
		x, err := vv.Value()
		if inner, again := x.(driver.Valuer); again && err == nil {
			_, err = inner.Value()
		}
		return errors.Is(err, errConv)
	}}
}

// convValue draws a value of any kind with the parameter it must become.
func (g *gctx) convValue() convExp {
	n := g.uniq()
	s := g.str()
	switch g.vr.N(82) {
	case 0:
		return conv("int8", int8(n), int8(n))
	case 1:
		return conv("int16", int16(n), int16(n))
	case 2:
		return conv("uint8", uint8(n), uint8(n))
	case 3:
		return conv("float32", float32(n), float32(n))
	case 4:
		return conv("complex", complex(float64(n), 1), complex(float64(n), 1))
	case 5:
		return conv("rune", 'ж', 'ж')
	case 6:
		return conv("duration", time.Duration(n), time.Duration(n))
	case 7:
		return conv("NaN", math.NaN(), math.NaN())
	case 8:
		a := [2]int{n, n}
		return withNoIn(conv("array", a, a))
	case 9:
		m := map[string]int{s: n}
		return conv("map", m, m)
	case 10:
		p := &s
		return conv("*string", p, p)
	case 11:
		pp := &n
		ppp := &pp
		return conv("**int", ppp, ppp)
	case 12:
		p := &[]int{n}
		return withNoIn(conv("*[]int", p, p))
	case 13:
		b := big.NewInt(int64(n))
		return conv("*big.Int", b, b)
	case 14:
		r := json.RawMessage(s)
		return conv("json.RawMessage", r, r)
	case 15:
		ip := net.IPv4(byte(n), byte(n>>8), 1, 2)
		return conv("net.IP", ip, ip)
	case 16:
		return conv("NullString", sql.NullString{String: s, Valid: true}, s)
	case 17:
		return conv("invalid NullString", sql.NullString{String: s}, nil)
	case 18:
		return conv("NullInt64", sql.NullInt64{Int64: int64(n), Valid: true}, int64(n))
	case 19:
		return conv("*NullString", &sql.NullString{String: s, Valid: true}, s)
	case 20:
		return conv("sql.Null", sql.Null[int64]{V: int64(n), Valid: true}, int64(n))
	case 21:
		return nilOr("nil *int", (*int)(nil))
	case 22:
		return nilOr("nil *string", (*string)(nil))
	case 23:
		return nilOr("nil *time.Time", (*time.Time)(nil))
	case 24:
		return nilOr("nil *struct", (*myStruct)(nil))
	case 25:
		return nilOr("nil *Valuer by value", (*vText)(nil))
	case 26:
		return nilOr("nil *Valuer by pointer", (*vPtr)(nil), "nil-vPtr")
	case 27:
		return nilOr("nil *provider by value", (*pText)(nil))
	case 28:
		return nilOr("nil *provider by pointer", (*pPtr)(nil), "nil-pPtr")
	case 29:
		return nilOr("nil *NullString", (*sql.NullString)(nil))
	case 30:
		v := vText(s)
		return conv("*Valuer by value", &v, "valuer:"+s)
	case 31:
		v := pText(s)
		return conv("*provider by value", &v, "provided:"+s)
	case 32:
		return conv("struct, Valuer on pointer only", vPtr{n}, vPtr{n})
	case 33:
		return conv("struct, provider on pointer only", pPtr{n}, pPtr{n})
	case 34:
		return conv("byte Valuer", vByte(n), fmt.Sprint("vb", uint8(n)))
	case 35:
		return conv("byte provider", pByte(n), fmt.Sprint("pb", uint8(n)))
	case 36:
		return conv("provider giving NULL", pNil{}, nil)
	case 37:
		return withNoIn(conv("provider giving a list", pSlice{n}, []int64{int64(n), int64(n) + 1}))
	case 38:
		return conv("map Valuer", vMap{s: n}, "map1")
	case 39:
		return conv("func Valuer", vFunc(func() string { return s }), s)
	case 40:
		return conv("map provider", pMap{s: n}, "pmap1")
	case 41:
		return conv("embedded Valuer", vOuter{vText(s)}, "valuer:"+s)
	case 42:
		return conv("embedded provider", pOuter{&pPtr{n}}, int32(n))
	case 43:
		return conv("slice provider", pList{n}, fmt.Sprintf("plist%v", []int{n}))
	case 44:
		return conv("empty slice Valuer", vList{}, "{}")
	case 45:
		return conv("nil slice Valuer", vList(nil), "{}")
	case 46, 47:
		return failing("failing Valuer", vFail{s})
	case 48:
		return failing("failing Valuer with a value", vFailVal{s})
	case 49:
		return failing("failing *Valuer by pointer", &vFailPtr{s})
	case 50:
		return failing("failing *Valuer by value", &vFail{s})
	case 51:
		return conv("nil bytes", []byte(nil), []byte(nil))
	case 52:
		return conv("empty bytes", []byte{}, []byte{})
	case 53:
		return conv("nil named bytes", myBytes(nil), myBytes(nil))
	case 54:
		return conv("nil map", map[int]int(nil), map[int]int(nil))
	case 55:
		return conv("zero time", time.Time{}, time.Time{})
	case 56:
		t := baseTime.In(time.FixedZone("Z"+s, n%80000-40000))
		return conv("time in a zone", t, t)
	case 57:
		t := baseTime.Add(time.Duration(n) * time.Nanosecond)
		return conv("*time.Time", &t, &t)
	case 58:
		return conv("least int64", int64(math.MinInt64), int64(math.MinInt64))
	case 59:
		return conv("negative zero", math.Copysign(0, -1), math.Copysign(0, -1))
	case 60:
		return conv("empty named string", myStr(""), myStr(""))
	case 61:
		return conv("NullTime", sql.NullTime{Time: baseTime, Valid: true}, baseTime)
	case 62:
		return conv("NullBool", sql.NullBool{Bool: n%2 == 0, Valid: true}, n%2 == 0)
	case 63:
		l := s + strings.Repeat(s, 200)
		return conv("long string", l, l)
	case 64:
		return conv("named bool", myBool(n%2 == 0), myBool(n%2 == 0))
	case 65:
		return conv("least float", math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat64)
	case 66:
		sp := "  " + s + "\t\n "
		return conv("string with spaces around", sp, sp)
	case 67:
		return conv("uint", uint(n), uint(n))
	case 68:
		e := ""
		return conv("pointer to empty string", &e, &e)
	case 69:
		return either("Valuer giving a Valuer", vWrap{vText(s)}, vText(s), "valuer:"+s)
	case 70:
		return either("provider giving a Valuer", pWrap{vText(s)}, vText(s), "valuer:"+s)
	case 71:
		return either("provider giving a provider", pWrap{pText(s)}, pText(s), "provided:"+s)
	case 72:
		return failing("Valuer giving a failing Valuer", vWrap{vFail{s}})
	case 73:
		return failing("provider giving a failing Valuer", pWrap{vFail{s}})
	}
	x := g.scalar(false)
	e := conv(x.kind, x.v, x.exp)
	if x.v == nil {
		e.noIn = true
	}
	return e
}

// either accepts a form which asks for conversion itself, or what it converts to.
func either(kind string, v any, wants ...any) convExp {
	return convExp{v: v, kind: kind, want: descValues(wants), ok: func(p any) bool {
		return slices.ContainsFunc(wants, func(w any) bool { return exactly(w)(p) })
	}}
}

func withNoIn(e convExp) convExp { e.noIn = true; return e }

// convList draws a list for IN with what each element must become.
func (g *gctx) convList(n int) (v any, es []convExp, kind string) {
	add := func(e convExp) { es = append(es, e) }
	switch g.vr.N(26) {
	case 0, 1, 2, 3:
		l := make([]any, n)
		for i := range l {
			e := g.convValue()
			l[i] = e.v
			add(e)
		}
		return l, es, "[]any of any kind"
	case 4:
		l := make([]vFail, n)
		for i := range l {
			l[i] = vFail{g.str()}
			add(failing("element", l[i]))
		}
		return l, es, "[]failing Valuer"
	case 5:
		l := make([]driver.Valuer, n)
		for i := range l {
			e := g.convValue()
			vv, ok := e.v.(driver.Valuer)
			if !ok {
				vv = nil
				e = nilOr("nil element", nil)
			}
			l[i] = vv
			add(e)
		}
		return l, es, "[]driver.Valuer with nil and failing ones"
	case 6:
		l := make([]query.ValueProvider, n)
		for i := range l {
			e := g.convValue()
			vv, ok := e.v.(query.ValueProvider)
			if !ok {
				vv = nil
				e = nilOr("nil element", nil)
			}
			l[i] = vv
			add(e)
		}
		return l, es, "[]ValueProvider with nil ones"
	case 7:
		l := make([]*vText, n)
		for i := range l {
			if g.vr.P(30) {
				add(nilOr("nil element", l[i]))
				continue
			}
			s := vText(g.str())
			l[i] = &s
			add(conv("element", nil, "valuer:"+string(s)))
		}
		return l, es, "[]*Valuer with nil ones"
	case 8:
		l := make([]*vPtr, n)
		for i := range l {
			if g.vr.P(30) {
				add(nilOr("nil element", l[i], "nil-vPtr"))
				continue
			}
			l[i] = &vPtr{g.uniq()}
			add(conv("element", nil, int64(l[i].N)+7))
		}
		return l, es, "[]*Valuer by pointer with nil ones"
	case 9:
		l := make([]*pText, n)
		for i := range l {
			if g.vr.P(30) {
				add(nilOr("nil element", l[i]))
				continue
			}
			s := pText(g.str())
			l[i] = &s
			add(conv("element", nil, "provided:"+string(s)))
		}
		return l, es, "[]*provider with nil ones"
	case 10:
		l := make([]*string, n)
		for i := range l {
			if g.vr.P(30) {
				add(nilOr("nil element", l[i]))
				continue
			}
			s := g.str()
			l[i] = &s
			add(conv("element", nil, &s))
		}
		return l, es, "[]*string with nil ones"
	case 11:
		l := make([]vByte, n)
		for i := range l {
			l[i] = vByte(g.uniq())
			add(conv("element", nil, fmt.Sprint("vb", uint8(l[i]))))
		}
		return l, es, "[]byte-wide Valuer"
	case 12:
		l := make([]pByte, n)
		for i := range l {
			l[i] = pByte(g.uniq())
			add(conv("element", nil, fmt.Sprint("pb", uint8(l[i]))))
		}
		return l, es, "[]byte-wide provider"
	case 13:
		l := make([]myByte, n)
		for i := range l {
			l[i] = myByte(g.uniq())
			add(conv("element", nil, l[i]))
		}
		return l, es, "[]byte-wide enumeration"
	case 14:
		l := make([]namer, n)
		for i := range l {
			s := g.str()
			switch g.vr.N(3) {
			case 0:
				l[i] = vNamer{s}
				add(conv("element", nil, "named:"+s))
			case 1:
				l[i] = plainNamer{s}
				add(conv("element", nil, l[i]))
			default:
				add(nilOr("nil element", nil))
			}
		}
		return l, es, "[]other interface"
	case 15:
		l := make([]sql.NullString, n)
		for i := range l {
			if g.vr.P(40) {
				add(conv("element", nil, nil))
				continue
			}
			l[i] = sql.NullString{String: g.str(), Valid: true}
			add(conv("element", nil, l[i].String))
		}
		return l, es, "[]NullString"
	case 16:
		l := make([][]int, n)
		for i := range l {
			l[i] = []int{g.uniq(), 2}
			add(conv("element", nil, l[i]))
		}
		return l, es, "[][]int"
	case 17:
		l := make([]pList, n)
		for i := range l {
			l[i] = pList{g.uniq()}
			add(conv("element", nil, fmt.Sprintf("plist%v", []int(l[i]))))
		}
		return l, es, "[]slice provider"
	case 18:
		l := make([]myBytes, n)
		for i := range l {
			l[i] = myBytes(g.str())
			add(conv("element", nil, l[i]))
		}
		return l, es, "[]named bytes"
	case 19:
		l := make([]bool, n)
		for i := range l {
			l[i] = g.vr.P(50)
			add(conv("element", nil, l[i]))
		}
		return l, es, "[]bool"
	case 20:
		l := make([]vOuter, n)
		for i := range l {
			s := g.str()
			l[i] = vOuter{vText(s)}
			add(conv("element", nil, "valuer:"+s))
		}
		return l, es, "[]embedded Valuer"
	case 21:
		return pick(g.vr, any([]int(nil)), any([]string(nil)), any([]any(nil)), any([]driver.Valuer(nil)), any([]query.ValueProvider(nil)),
			any([]vText(nil)), any([]*vPtr(nil)), any([]pText(nil)), any(myStrs(nil)), any([][]byte(nil)), any([]myByte{}), any([]vByte{}), any([]int{}), any([]string{})), nil, "empty list"
	}
	l, exp, kind := g.list(n)
	for _, x := range exp {
		add(conv("element", nil, x))
	}
	return l, es, kind
}

func init() {
	register(&Prop{
		id: "C12", quick: 2000000, thorough: 30000000,
		rule: "A case puts 1-8 values of any Go kind (scalars, pointers, lists, bytes, Valuers and providers by value and pointer, nil and failing ones) into value positions (five comparisons, IN scalar and list, INSERT and UPDATE values by every constructor, values maps) of one statement or reads them back from the condition; every bound parameter is compared by type and content, pointers by identity; distinct by kinds and positions.",
		assumptions: []string{
			"a nil pointer may be bound as nil, as a typed nil pointer (drivers bind both as NULL), or as what a pointer-receiver conversion itself returns for nil",
			"a failed conversion may surface as a panic, a build error, or a parameter that fails when the driver converts it",
			"what IN does with nil, arrays and pointers to lists, and types which are both Valuer and provider, is left open",
		},
		run: runC12,
	})
}

// slot is one value position and what it must be bound to.
type slot struct {
	where string
	es    []convExp
}

func runC12(c *Case) {
	g := c.ctx()
	g.shortNames = true
	var conds []query.Condition
	var csl []slot
	var sets []query.FieldValue
	var ssl []slot
	name := func() query.FieldName {
		n := g.newName("c")
		return query.FieldName(pick(g.r, n, n, "t."+n, n+" AS z"))
	}
	// a constructor may itself fail for a value whose conversion fails
	try := func(es []convExp, f func()) bool {
		p := panics(f)
		if p == nil {
			return true
		}
		fails := false
		for _, e := range es {
			fails = fails || e.fails
		}
		c.check(fails, "panic for convertible values: %v", p)
		c.count("conversion failures: panic when attached")
		return false
	}
	addCond := func() {
		f := name()
		switch k := c.r.N(10); {
		case k < 4: // comparison, possibly with a list
			var e convExp
			if c.r.P(15) {
				v, _, kind := g.convList(c.r.N(4))
				if _, isV := v.(driver.Valuer); isV {
					return
				}
				if _, isP := v.(query.ValueProvider); isP {
					return
				}
				e = conv("list "+kind, v, v)
			} else {
				e = g.convValue()
			}
			which := c.r.N(6)
			sl := slot{[]string{"EqualTo", "FieldName.EqualTo", "GreaterThan", "GreaterOrEqual", "Less", "LessOrEqual"}[which], []convExp{e}}
			g.step("%s %s(%s %s)", f, sl.where, e.kind, descValue(e.v))
			var cond query.Condition
			if try(sl.es, func() {
				cond = []func() query.Condition{
					func() query.Condition { return query.EqualTo(f, e.v) }, func() query.Condition { return f.EqualTo(e.v) },
					func() query.Condition { return query.GreaterThan(f, e.v) }, func() query.Condition { return query.GreaterOrEqual(f, e.v) },
					func() query.Condition { return query.Less(f, e.v) }, func() query.Condition { return query.LessOrEqual(f, e.v) },
				}[which]()
			}) {
				conds, csl = append(conds, cond), append(csl, sl)
			}
		case k < 6:
			e := g.convValue()
			if e.noIn {
				return
			}
			g.step("%s IN(%s %s)", f, e.kind, descValue(e.v))
			sl := slot{"IN scalar", []convExp{e}}
			var cond query.Condition
			if try(sl.es, func() { cond = pick(g.r, query.In(f, e.v), f.In(e.v)) }) {
				conds, csl = append(conds, cond), append(csl, sl)
			}
		default:
			n := c.r.Size(4, 40)
			v, es, kind := g.convList(n)
			g.step("%s IN(%s %s)", f, kind, descValue(v))
			sl := slot{"IN " + kind, es}
			var cond query.Condition
			if try(es, func() { cond = pick(g.r, query.In(f, v), f.In(v)) }) {
				if len(es) == 0 {
					c12Empty(c, cond)
				}
				conds, csl = append(conds, cond), append(csl, sl)
			}
		}
	}
	addSet := func() {
		f := name()
		e := g.convValue()
		if c.r.P(15) {
			v, _, kind := g.convList(c.r.N(4))
			_, isV := v.(driver.Valuer)
			_, isP := v.(query.ValueProvider)
			if !isV && !isP {
				e = conv("list "+kind, v, v)
			}
		}
		which := c.r.N(5)
		sl := slot{[]string{"FieldName.Value", "FieldDefinition.Value", "NewFieldValue", "ValuesMap", "FieldName.Value retargeted"}[which], []convExp{e}}
		g.step("%s := %s(%s %s)", f, sl.where, e.kind, descValue(e.v))
		var fv query.FieldValue
		if try(sl.es, func() {
			switch which {
			case 0:
				fv = f.Value(e.v)
			case 1:
				fv = query.Field(f).Value(e.v)
			case 2:
				fv = *query.NewFieldValue(f, e.v)
			case 3:
				vs, err := query.ValuesMap{g.newName("m"): e.v}.FieldValues()
				if err != nil || len(vs) != 1 {
					c.violate("values map of one good name gives %d values, %v", len(vs), err)
				}
				fv = vs[0]
			default:
				fv = f.Value(e.v).ApplyFieldTable("x")
			}
		}) {
			sets, ssl = append(sets, fv), append(ssl, sl)
		}
	}
	kind := pick(c.r, "cond", "SELECT", "SELECT", "COUNT", "DELETE", "INSERT", "INSERT", "UPDATE", "UPDATE")
	n := c.r.Between(1, 5)
	if kind != "INSERT" {
		for i := 0; i < n; i++ {
			addCond()
		}
	}
	if kind == "INSERT" || kind == "UPDATE" {
		for i := 0; i < n; i++ {
			addSet()
		}
	}
	if len(conds) == 0 && kind != "INSERT" || len(sets) == 0 && (kind == "INSERT" || kind == "UPDATE") {
		c.trivial = true
		return
	}
	var slots []slot
	var all []convExp
	for _, s := range append(append([]slot{}, ssl...), csl...) {
		slots = append(slots, s)
		all = append(all, s.es...)
	}
	fails := false
	for _, e := range all {
		fails = fails || e.fails
	}
	var params []any
	var sql string
	var err error
	p := panics(func() {
		switch kind {
		case "cond":
			for _, x := range conds {
				sql += x.Render(len(params)) + " "
				params = append(params, x.Values()...)
			}
		case "SELECT":
			switch c.r.N(3) {
			case 0:
				sql, params, err = query.SelectFrom("t").Where(conds...).BuildQueryAndParams()
			case 1:
				sql, params, err = query.SelectManyFrom("t").Where(conds...).BuildQueryAndParams()
			default:
				b := query.SelectSingleFrom("t").Where(query.NewGroup(query.LogicalOR, conds...))
				sql, params, err = b.RenderSQL(), b.Values(), nil
			}
		case "COUNT":
			sql, params, err = query.Count(query.SelectFrom("t").Where(conds...)).BuildQueryAndParams()
		case "DELETE":
			sql, params, err = query.Delete("t").Where(conds...).BuildQueryAndParams()
		case "INSERT":
			sql, params, err = query.InsertInto("t").Values(sets...).BuildQueryAndParams()
		default:
			sql, params, err = query.Update("t").Set(sets...).Where(conds...).BuildQueryAndParams()
		}
	})
	c.tracef("%s: %q %s err=%v panic=%v", kind, sql, descValues(params), err, p)
	c.seen(kind)
	for _, s := range slots {
		c.seen(s.where)
		for _, e := range s.es {
			c.seen(e.kind)
			c.count("value: " + e.kind)
		}
	}
	if p != nil || err != nil {
		c.check(fails, "convertible values are refused: %v %v", p, err)
		c.count("conversion failures: reported by the build")
		return
	}
	c.check(len(params) == len(all), "%d values bind %d parameters: %s in %q", len(all), len(params), descValues(params), sql)
	i := 0
	for _, s := range slots {
		for j, e := range s.es {
			c.check(e.ok(params[i]), "%s, value %d of kind %q is bound as %s, want %s", s.where, j+1, e.kind, descValue(params[i]), e.want)
			if e.fails {
				c.count("conversion failures: left to the driver")
			}
			i++
		}
	}
	// the values reported by a field value: the single one (lists report elements)
	for i, fv := range sets {
		e := ssl[i].es[0]
		if isList(e.v) && e.want == descValue(e.v) || e.kind == "provider giving a list" {
			continue
		}
		var vs []any
		if pp := panics(func() { vs = fv.Values() }); pp != nil {
			c.check(e.fails, "FieldValue.Values panics for kind %q: %v", e.kind, pp)
			continue
		}
		c.check(len(vs) == 1 && e.ok(vs[0]), "FieldValue.Values of kind %q gives %s, want %s", e.kind, descValues(vs), e.want)
	}
	c.countN("values bound", len(all))
}

// c12Empty: IN over an empty list is valid SQL matching no row.
func c12Empty(c *Case, cond query.Condition) {
	for _, neg := range []bool{false, true} {
		x := cond.Negate(neg)
		for _, sql := range []string{x.Render(4), x.RenderSQL(), query.SelectFrom("t").Where(query.IsNull("a"), x).RenderSQL()[len("SELECT * FROM t WHERE a IS NULL AND "):]} {
			n, ph, err := parsePredicate(sql)
			c.check(err == nil && len(ph) == 0, "empty IN is not valid SQL: %q: %v", sql, err)
			d, derr := diffWhere(pConst(neg), n, nil)
			c.check(derr == nil && d == "", "empty IN (negated %v) means something else: %q %s", neg, sql, d)
		}
		c.check(len(x.Values()) == 0, "empty IN has values %s", descValues(x.Values()))
	}
	c.count("empty IN")
}
