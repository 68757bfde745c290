package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/amarin/query"
)

// What the library calls back into may yield or build other queries itself.
var callbacks struct {
	on     bool // set before goroutines start
	shared query.SelectManyBuilder
	sql    string // what the nested build gives
	params int
}

func nestedBuild() (string, []any, error) {
	return callbacks.shared.Where(query.IsNull("inner"), query.FieldName("k").EqualTo(7)).BuildQueryAndParams()
}

func calledBack() {
	if !callbacks.on {
		return
	}
	runtime.Gosched()
	if sql, params, err := nestedBuild(); err != nil || len(params) != callbacks.params || sql != callbacks.sql {
		panic("nested build gave " + sql + " instead of " + callbacks.sql)
	}
}

// Value types the workloads bind.

type vText string // driver.Valuer, value receiver

func (v vText) Value() (driver.Value, error) {
	calledBack()
	return "valuer:" + string(v), nil
}

type vPtr struct{ N int } // driver.Valuer, pointer receiver

func (v *vPtr) Value() (driver.Value, error) {
	if v == nil {
		return "nil-vPtr", nil
	}
	return int64(v.N) + 7, nil
}

type vUUID [4]byte // array kind valuer

func (v vUUID) Value() (driver.Value, error) { return "uuid-" + hex.EncodeToString(v[:]), nil }

type vList []string // slice kind valuer: one parameter

func (v vList) Value() (driver.Value, error) { return "{" + strings.Join(v, "|") + "}", nil }

type vNull struct{} // valuer giving NULL

func (vNull) Value() (driver.Value, error) { return nil, nil }

type pText string // provider, value receiver

func (p pText) DatabaseValue() interface{} {
	calledBack()
	return "provided:" + string(p)
}

type pPtr struct{ N int } // provider, pointer receiver

func (p *pPtr) DatabaseValue() interface{} {
	if p == nil {
		return "nil-pPtr"
	}
	return int32(p.N)
}

type pBytes struct{ S string } // provider giving a byte slice

func (p pBytes) DatabaseValue() interface{} { return []byte("pb:" + p.S) }

type pList []int // slice kind provider: one parameter

func (p pList) DatabaseValue() interface{} { return fmt.Sprintf("plist%v", []int(p)) }

type vPtrList []string // slice kind, valuer on pointer only: an ordinary slice when passed by value

func (v *vPtrList) Value() (driver.Value, error) { return "ptrlist", nil }

type oddErr struct{ S string }

func (e oddErr) Error() string { return "error " + e.S }

// odd draws a value of a type which programs seldom bind.
func (g *gctx) odd() Val {
	n := g.uniq()
	s := "odd" + strconv.Itoa(n)
	same := func(v any, kind string) Val { return Val{v, v, "odd: " + kind, true} }
	switch g.vr.N(22) {
	case 0:
		return same(query.FieldName(s), "FieldName")
	case 1:
		return same(query.Field("t."+s), "FieldDefinition")
	case 2:
		return same(query.TableName(s), "TableName")
	case 3:
		return same(query.Table(s+" x"), "TableIdent")
	case 4:
		return same(query.FieldName(s).Value(n), "FieldValue")
	case 5:
		return same(query.ASC(query.FieldName(s)), "FieldSorting")
	case 6:
		return same(query.EqualTo(query.FieldName(s), n), "Condition")
	case 7:
		return same(query.NewGroup(query.LogicalOR, query.IsNull(query.FieldName(s))), "Group")
	case 8:
		return same(query.SelectFrom(s).Where(query.IsNull("a")), "SELECT")
	case 9:
		return same(query.SortDirection(s), "SortDirection")
	case 10:
		return same(query.JoinType(s), "JoinType")
	case 11:
		return same(query.Limiter{}.Limit(uint(n)), "Limiter")
	case 12:
		return same(oddErr{s}, "error")
	case 13:
		return same(error(&oddErr{s}), "*error")
	case 14:
		return same(sql.Named("p"+s, n), "sql.NamedArg")
	case 15:
		return same(sql.RawBytes(s), "sql.RawBytes")
	case 16:
		return same(map[string]any{s: n}, "map")
	case 17:
		return same(map[string]string{s: "'"}, "map of strings")
	case 18:
		return same([2]string{s, "'"}, "array")
	case 19:
		return same(&[]string{s}, "pointer to list")
	case 20:
		return same(json.Number(strconv.Itoa(n)), "json.Number")
	default:
		return same(complex(float64(n), 1), "complex")
	}
}

type myStr string
type myInt int64
type myBytes []byte
type myStrs []myStr
type myStruct struct {
	A int
	B string
}

var errConv = errors.New("conversion refused")

type vFail struct{ S string }

func (v vFail) Value() (driver.Value, error) { return nil, errConv }

type vFailVal struct{ S string } // fails but returns some value too

func (v vFailVal) Value() (driver.Value, error) { return "partial-" + v.S, errConv }

type vFailPtr struct{ S string }

func (v *vFailPtr) Value() (driver.Value, error) { return nil, errConv }

// hostile strings; %d is replaced by a unique number
var hostile = []string{
	"'; DROP TABLE t%d; --", "\" OR 1=1 -- %d", "$1 %d", "? %d", "$%d", "%%_%d", "a\x00b%d", "\xff\xfe%d",
	"/*%d*/", ") OR (1=%d", "x%d\n\r\tWHERE", "NULL%d", "NOT %d", " AND %d", "\\%d", "`%d`", "%d LIMIT 1",
	"{{.%d}}", "%%s%d", "й%dЖ漢", "ASC, (SELECT %d)", "${%d}", ":p%d", "@p%d", " lead%d trail ",
}

func (g *gctx) uniq() int { g.valID++; return 100000 + g.valID*1009 + g.vr.N(1000) }

// str draws a text. No fmt here: its buffers synchronise goroutines (C05).
func (g *gctx) str() string {
	n := strconv.Itoa(g.uniq())
	switch k := g.vr.N(10); {
	case k < 4:
		return "val" + n + "z"
	case k < 9:
		return strings.ReplaceAll(strings.Replace(pick(g.vr, hostile...), "%d", n, 1), "%%", "%")
	default:
		return "big" + n + strings.Repeat(pick(g.vr, "x", "'", "$1", "?", "%"), g.vr.Between(1, 300))
	}
}

// edgeStr draws a text which says nothing about its place.
func (g *gctx) edgeStr() string {
	switch g.vr.N(3) {
	case 0:
		return pick(g.vr, "", "", " ", "%", "%%", "_", "\\", "\x00", "\n", "*", "0", "x", "X", "null", "true", "?", "$1", "'", "''", "\"")
	default:
		odd := string(rune(' ' + g.vr.N(95)))
		if g.vr.P(50) {
			odd = pick(g.vr, " ", "\t", "\n", "\x00", "%", "_", "\\", "'", "\"", ".", "\u00a0", ";", "$", "?", "\ufeff")
		}
		s := pick(g.vr, "Straße", "ABC", "abc", "i", "İ", "e\u0301", "1.50", "007", "1e3", "2020-01-02")
		switch g.vr.N(4) {
		case 0:
			return odd + s
		case 1:
			return odd + s + odd
		case 2:
			return s + odd + s
		}
		return s + odd
	}
}

// Val is a bound value with the parameters it must turn into.
type Val struct {
	v    any
	exp  any
	kind string
	uniq bool // value identifies its place
}

var baseTime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

func small(v any) Val { return Val{v, v, "short or special", false} }

// scalar draws a value that binds exactly one parameter in any position.
// onlyUnique keeps out nil, booleans and similar values.
func (g *gctx) scalar(onlyUnique bool) Val {
	if len(g.prev) > 0 && !onlyUnique && g.vr.P(5) { // a value used before
		v := g.prev[g.vr.N(len(g.prev))]
		v.uniq = false
		return v
	}
	v := g.newScalar(onlyUnique)
	if len(g.prev) < 8 {
		g.prev = append(g.prev, v)
	} else {
		g.prev[g.vr.N(len(g.prev))] = v
	}
	return v
}

func (g *gctx) newScalar(onlyUnique bool) Val {
	n := g.uniq()
	k := g.vr.N(26)
	if onlyUnique && k >= 20 {
		k = g.vr.N(20)
	}
	if g.plain {
		k = g.vr.N(4)
	} else if g.vr.N(40) == 0 {
		return g.odd()
	}
	switch k {
	case 0, 1:
		return Val{n, n, "int", true}
	case 2, 3, 4:
		s := g.str()
		return Val{s, s, "string", true}
	case 5:
		return Val{int64(n), int64(n), "int64", true}
	case 6:
		return Val{uint32(n), uint32(n), "uint32", true}
	case 7:
		f := float64(n) + 0.5
		return Val{f, f, "float64", true}
	case 8:
		b := []byte(g.str())
		return Val{b, b, "[]byte", true}
	case 9:
		t := baseTime.Add(time.Duration(n) * time.Second)
		if g.vr.P(30) {
			t = t.In(time.FixedZone("", g.vr.N(80000)-40000))
		}
		return Val{t, t, "time.Time", true}
	case 10:
		s := myStr(g.str())
		return Val{s, s, "named string", true}
	case 11:
		p := &n
		return Val{p, p, "*int", true}
	case 12:
		s := vText(g.str())
		return Val{s, "valuer:" + string(s), "Valuer", true}
	case 13:
		v := &vPtr{n}
		return Val{v, int64(n) + 7, "*Valuer(ptr receiver)", true}
	case 14:
		s := pText(g.str())
		return Val{s, "provided:" + string(s), "ValueProvider", true}
	case 15:
		v := &pPtr{n}
		return Val{v, int32(n), "*ValueProvider(ptr receiver)", true}
	case 16:
		u := vUUID{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
		return Val{u, fmt.Sprintf("uuid-%x", u[:]), "array Valuer", true}
	case 17:
		l := vList{fmt.Sprint("e", n), "'x"}
		return Val{l, "{" + strings.Join(l, "|") + "}", "slice Valuer", true}
	case 18:
		v := pBytes{fmt.Sprint(n)}
		return Val{v, []byte("pb:" + fmt.Sprint(n)), "ValueProvider giving bytes", true}
	case 19:
		b := myBytes(g.str())
		return Val{b, b, "named bytes", true}
	case 20:
		return Val{nil, nil, "nil", false}
	case 21:
		b := n%2 == 0
		return Val{b, b, "bool", false}
	case 22:
		return Val{vNull{}, nil, "Valuer giving NULL", false}
	case 23:
		return Val{(*vText)(nil), nil, "nil pointer to Valuer", false}
	case 24:
		return pick(g.vr, Val{0, 0, "zero", false}, Val{"", "", "empty string", false},
			small(-1), small(1), small(2), small(int64(1)), small(int8(-128)), small(0.5), small(float32(1)), small(true), small(uint(1)), small(uint64(0)),
			small("true"), small("null"), small("NULL"), small("0"), small("1"), small("now()"), small("DEFAULT"), small("*"), small("%"), small("_"), small("'"), small("\\"), small("a'b"), small(" "), small("$1"), small("?"),
			small([]byte{}), small([]byte("'")), small((*string)(nil)), small((*int)(nil)), small((*time.Time)(nil)), small((*myStruct)(nil)), small([]byte(nil)), small(new(string)), small(new(bool)), small(myStr("x")), small(myInt(-3)), small(time.Unix(0, 0).UTC()), small(time.Time{}), Val{math.Inf(1), math.Inf(1), "inf", false}, Val{uint64(math.MaxUint64), uint64(math.MaxUint64), "maxuint64", false})
	default:
		v := myStruct{n, g.str()}
		return Val{v, v, "struct", true}
	}
}

// list draws a value for IN that binds n parameters (n drawn by the caller).
// Elements may repeat.
func (g *gctx) list(n int) (v any, exp []any, kind string) {
	v, exp, kind = g.newList(n)
	if n > 1 && !g.plain && kind[0] == '[' && g.vr.P(10) { // at least one keeps its own text
		for k := g.vr.Between(1, min(n-1, 4)); k > 0; k-- {
			i, s := g.vr.N(n-1), g.edgeStr()
			switch l := v.(type) {
			case []string:
				l[i], exp[i] = s, s
			case []any:
				l[i], exp[i] = s, s
			case []vText:
				l[i], exp[i] = vText(s), "valuer:"+s
			case []pText:
				l[i], exp[i] = pText(s), "provided:"+s
			case [][]byte:
				l[i] = []byte(s)
				exp[i] = l[i]
			case []driver.Valuer:
				l[i], exp[i] = vText(s), "valuer:"+s
			case []*vPtr:
				l[i] = &vPtr{g.vr.N(3) - 8}
				exp[i] = int64(l[i].N) + 7
			case []myInt:
				l[i] = myInt(g.vr.N(3) - 1)
				exp[i] = l[i]
			case []int:
				l[i] = g.vr.N(3) - 1
				exp[i] = l[i]
			case []float64:
				l[i] = pick(g.vr, 0, -1, 0.1, math.Inf(-1), math.MaxFloat64, 1<<53)
				exp[i] = l[i]
			case []time.Time:
				l[i] = pick(g.vr, time.Time{}, time.Unix(0, 1), baseTime.In(time.FixedZone("z", 3600)))
				exp[i] = l[i]
			case []uint64:
				l[i] = pick(g.vr, uint64(0), 1, math.MaxInt64, 1<<63)
				exp[i] = l[i]
			}
		}
		g.op("list with special elements")
	}
	if n > 1 && g.vr.P(12) {
		l := reflect.ValueOf(v)
		for k := g.vr.Between(1, min(n, 5)); k > 0; k-- {
			i, j := g.vr.N(n), g.vr.N(n)
			if g.vr.P(60) {
				j = (i + 1) % n // neighbours
			}
			l.Index(j).Set(l.Index(i))
			exp[j] = exp[i]
		}
		g.op("list with equal elements")
	}
	return
}

func (g *gctx) newList(n int) (v any, exp []any, kind string) {
	exp = make([]any, 0, n)
	k := g.vr.N(20)
	if g.plain {
		k = g.vr.N(2)
	}
	switch k {
	case 0:
		l := make([]int, n)
		for i := range l {
			l[i] = g.uniq()
			exp = append(exp, l[i])
		}
		return l, exp, "[]int"
	case 1, 2:
		l := make([]string, n)
		for i := range l {
			l[i] = g.str()
			exp = append(exp, l[i])
		}
		return l, exp, "[]string"
	case 3, 4:
		l := make([]any, n)
		for i := range l {
			e := g.scalar(false)
			l[i] = e.v
			exp = append(exp, e.exp)
		}
		return l, exp, "[]any"
	case 5:
		l := make([]driver.Valuer, n)
		for i := range l {
			s := g.str()
			l[i] = vText(s)
			exp = append(exp, "valuer:"+s)
		}
		return l, exp, "[]driver.Valuer"
	case 6:
		l := make([]vText, n)
		for i := range l {
			s := g.str()
			l[i] = vText(s)
			exp = append(exp, "valuer:"+s)
		}
		return l, exp, "[]Valuer type"
	case 7:
		l := make([]*vPtr, n)
		for i := range l {
			u := g.uniq()
			l[i] = &vPtr{u}
			exp = append(exp, int64(u)+7)
		}
		return l, exp, "[]*Valuer type"
	case 8:
		l := make([]pText, n)
		for i := range l {
			s := g.str()
			l[i] = pText(s)
			exp = append(exp, "provided:"+s)
		}
		return l, exp, "[]ValueProvider type"
	case 9:
		l := make([]*pPtr, n)
		for i := range l {
			u := g.uniq()
			l[i] = &pPtr{u}
			exp = append(exp, int32(u))
		}
		return l, exp, "[]*ValueProvider type"
	case 10:
		l := make([][]byte, n)
		for i := range l {
			l[i] = []byte(g.str())
			exp = append(exp, l[i])
		}
		return l, exp, "[][]byte"
	case 11:
		l := make([]time.Time, n)
		for i := range l {
			l[i] = baseTime.Add(time.Duration(g.uniq()) * time.Minute)
			exp = append(exp, l[i])
		}
		return l, exp, "[]time.Time"
	case 12:
		l := make(myStrs, n)
		for i := range l {
			l[i] = myStr(g.str())
			exp = append(exp, l[i])
		}
		return l, exp, "named slice of named strings"
	case 13:
		l := make([]myInt, n)
		for i := range l {
			l[i] = myInt(g.uniq())
			exp = append(exp, l[i])
		}
		return l, exp, "[]named int"
	case 14:
		l := make([]float64, n)
		for i := range l {
			l[i] = float64(g.uniq()) / 4
			exp = append(exp, l[i])
		}
		return l, exp, "[]float64"
	case 15:
		l := make([]uint64, n)
		for i := range l {
			l[i] = math.MaxUint64 - uint64(g.uniq())
			exp = append(exp, l[i])
		}
		return l, exp, "[]uint64"
	case 16:
		l := make([]*int, n)
		for i := range l {
			u := g.uniq()
			l[i] = &u
			exp = append(exp, l[i])
		}
		return l, exp, "[]*int"
	case 17:
		l := make(vPtrList, n)
		for i := range l {
			l[i] = g.str()
			exp = append(exp, l[i])
		}
		return l, exp, "named []string (pointer Valuer)"
	case 18:
		l := make([]vUUID, n)
		for i := range l {
			u := g.uniq()
			l[i] = vUUID{byte(u), byte(u >> 8), byte(u >> 16), 9}
			exp = append(exp, fmt.Sprintf("uuid-%x", l[i][:]))
		}
		return l, exp, "[]array Valuer"
	default:
		l := make([]vList, n)
		for i := range l {
			l[i] = vList{g.str()}
			exp = append(exp, "{"+l[i][0]+"}")
		}
		return l, exp, "[]slice Valuer"
	}
}

// setValue draws a value for INSERT/UPDATE/comparison: scalars, and lists which
// bind as one parameter.
func (g *gctx) setValue(onlyUnique bool) Val {
	if !g.plain && g.vr.P(12) {
		v, _, kind := g.list(g.vr.Between(0, 4))
		return Val{v, v, "list " + kind, true}
	}
	return g.scalar(onlyUnique)
}
