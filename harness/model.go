package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/amarin/query"
)

// ---------------------------------------------------------------- model of predicates

// MLeaf is an elementary condition the program attached.
type MLeaf struct {
	ID     int
	Op     string // "=" ">" ">=" "<" "<=" LIKE ILIKE IN ISNULL fn BETWEEN ISTRUE
	Col    Col    // for fn: Name is the function name
	Alias  string
	Params []any // expected bound parameters
}

func (l *MLeaf) key() string { return leafKey(l.Op, l.Col.String(), l.Params) }

// place identifies the spot of a leaf without looking at its parameters.
func (l *MLeaf) place() string { return l.Op + "|" + l.Col.String() }

func leafKey(op, col string, params []any) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(col)
	for _, p := range params {
		b.WriteByte('|')
		b.WriteString(descValue(p))
	}
	return b.String()
}

// Pred is the meaning of a composition.
type Pred struct {
	Op   string // leaf and or not const
	Kids []*Pred
	Leaf *MLeaf
	Val  bool
}

func pLeaf(l *MLeaf) *Pred { return &Pred{Op: "leaf", Leaf: l} }
func pConst(v bool) *Pred  { return &Pred{Op: "const", Val: v} }
func pNot(p *Pred) *Pred   { return &Pred{Op: "not", Kids: []*Pred{p}} }
func pFold(op string, ps ...*Pred) *Pred {
	if len(ps) == 1 {
		return ps[0]
	}
	return &Pred{Op: op, Kids: append([]*Pred{}, ps...)}
}

func (p *Pred) walk(f func(*MLeaf)) {
	if p == nil {
		return
	}
	if p.Op == "leaf" {
		f(p.Leaf)
	}
	for _, k := range p.Kids {
		k.walk(f)
	}
}

// leaves lists leaves in composition order.
func (p *Pred) leaves() (res []*MLeaf) {
	p.walk(func(l *MLeaf) { res = append(res, l) })
	return
}

func (p *Pred) params() (res []any) {
	for _, l := range p.leaves() {
		res = append(res, l.Params...)
	}
	return
}

func (p *Pred) depth() int {
	if p == nil {
		return 0
	}
	d := 0
	for _, k := range p.Kids {
		if kd := k.depth(); kd > d {
			d = kd
		}
	}
	return d + 1
}

func (p *Pred) String() string {
	if p == nil {
		return "<none>"
	}
	switch p.Op {
	case "const":
		return fmt.Sprint(p.Val)
	case "leaf":
		return p.Leaf.key()
	case "not":
		return "NOT{" + p.Kids[0].String() + "}"
	}
	var s []string
	for _, k := range p.Kids {
		s = append(s, k.String())
	}
	return "{" + strings.Join(s, " "+strings.ToUpper(p.Op)+" ") + "}"
}

// shape is the structure without columns or values.
func (p *Pred) shape() string {
	if p == nil {
		return "-"
	}
	switch p.Op {
	case "const":
		return "0"
	case "leaf":
		return p.Leaf.Op
	}
	var s []string
	for _, k := range p.Kids {
		s = append(s, k.shape())
	}
	return p.Op + "(" + strings.Join(s, ",") + ")"
}

// ---------------------------------------------------------------- comparison by meaning

// bnode is the common form used for comparing model and parsed predicates.
type bnode struct {
	op   string // leaf and or not const
	kids []*bnode
	key  string
	val  bool
}

func bFromPred(p *Pred) *bnode {
	b := &bnode{op: p.Op, val: p.Val}
	if p.Op == "leaf" {
		b.key = p.Leaf.key()
	}
	for _, k := range p.Kids {
		b.kids = append(b.kids, bFromPred(k))
	}
	return b
}

// bFromNode converts a parsed predicate; params are the parameters bound to the
// placeholders by position.
func bFromNode(n *Node, params []any) (*bnode, error) {
	b := &bnode{op: n.Op, val: n.Val}
	if n.Op == "leaf" {
		var ps []any
		for _, pos := range n.Leaf.PH {
			if pos < 0 || pos >= len(params) {
				return nil, fmt.Errorf("placeholder %d of condition on %q has no parameter (%d parameters)", pos+1, n.Leaf.Col, len(params))
			}
			ps = append(ps, params[pos])
		}
		b.key = leafKey(n.Leaf.Op, n.Leaf.Col, ps)
		if n.Leaf.Neg {
			return &bnode{op: "not", kids: []*bnode{b}}, nil
		}
		return b, nil
	}
	for _, k := range n.Kids {
		kb, err := bFromNode(k, params)
		if err != nil {
			return nil, err
		}
		b.kids = append(b.kids, kb)
	}
	return b, nil
}

func (b *bnode) keys(m map[string]int) {
	if b.op == "leaf" {
		m[b.key]++
	}
	for _, k := range b.kids {
		k.keys(m)
	}
}

func (b *bnode) eval(a map[string]bool) bool {
	switch b.op {
	case "leaf":
		return a[b.key]
	case "const":
		return b.val
	case "not":
		return !b.kids[0].eval(a)
	case "and":
		for _, k := range b.kids {
			if !k.eval(a) {
				return false
			}
		}
		return true
	default:
		for _, k := range b.kids {
			if k.eval(a) {
				return true
			}
		}
		return false
	}
}

// canon gives the normal form: negations pushed to the leaves, same operators
// merged, constants folded, children sorted. For read-once formulas (each leaf
// once) equal normal forms is the same as logical equivalence.
func (b *bnode) canon(neg bool) *bnode {
	switch b.op {
	case "leaf":
		k := b.key
		if neg {
			k = "!" + k
		}
		return &bnode{op: "leaf", key: k}
	case "const":
		return &bnode{op: "const", val: b.val != neg}
	case "not":
		return b.kids[0].canon(!neg)
	}
	op := b.op
	if neg {
		op = map[string]string{"and": "or", "or": "and"}[op]
	}
	absorbing := op == "or" // constant that decides the node
	res := &bnode{op: op}
	for _, k := range b.kids {
		c := k.canon(neg)
		if c.op == "const" {
			if c.val == absorbing {
				return c
			}
			continue
		}
		if c.op == op {
			res.kids = append(res.kids, c.kids...)
		} else {
			res.kids = append(res.kids, c)
		}
	}
	switch len(res.kids) {
	case 0:
		return &bnode{op: "const", val: !absorbing}
	case 1:
		return res.kids[0]
	}
	return res
}

func (b *bnode) text() string {
	switch b.op {
	case "leaf":
		return b.key
	case "const":
		return fmt.Sprint(b.val)
	}
	var s []string
	for _, k := range b.kids {
		s = append(s, k.text())
	}
	sort.Strings(s)
	return b.op + "(" + strings.Join(s, ";") + ")"
}

type eqResult struct {
	missing, extra []string // elementary conditions lost / invented (with multiplicity)
	equivalent     bool
	witness        string // assignment on which they differ
	method         string
}

// comparePred decides whether the rendered predicate means the composed one.
func comparePred(model *Pred, n *Node, params []any) (eqResult, error) {
	var res eqResult
	got, err := bFromNode(n, params)
	if err != nil {
		return res, err
	}
	want := bFromPred(model)
	mk, gk := map[string]int{}, map[string]int{}
	want.keys(mk)
	got.keys(gk)
	unique := true
	for k, c := range mk {
		if c > 1 {
			unique = false
		}
		if gk[k] < c {
			res.missing = append(res.missing, k)
		}
	}
	for k, c := range gk {
		if c > 1 {
			unique = false
		}
		if mk[k] < c {
			res.extra = append(res.extra, k)
		}
	}
	sort.Strings(res.missing)
	sort.Strings(res.extra)
	if len(res.missing)+len(res.extra) > 0 {
		return res, nil
	}
	canonEqual := want.canon(false).text() == got.canon(false).text()
	if canonEqual {
		res.equivalent, res.method = true, "normal form"
		return res, nil
	}
	keys := make([]string, 0, len(mk))
	for k := range mk {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	a := map[string]bool{}
	differ := func() bool {
		if want.eval(a) == got.eval(a) {
			return false
		}
		var tr []string
		for _, k := range keys {
			if a[k] {
				tr = append(tr, k)
			}
		}
		res.witness = fmt.Sprintf("with exactly these conditions true: [%s] composition is %v, SQL is %v",
			strings.Join(tr, ", "), want.eval(a), got.eval(a))
		return true
	}
	if len(keys) <= 16 {
		res.method = "truth table"
		for m := 0; m < 1<<len(keys); m++ {
			for i, k := range keys {
				a[k] = m>>i&1 == 1
			}
			if differ() {
				return res, nil
			}
		}
		res.equivalent = true
		if unique {
			return res, fmt.Errorf("normal forms differ but truth tables agree: %s / %s", want.canon(false).text(), got.canon(false).text())
		}
		return res, nil
	}
	res.method = "sampled assignments"
	r := newRng(hashString(want.text()))
	for i := 0; i < 20000; i++ {
		pct := pick(r, 5, 15, 30, 50, 70, 85, 95)
		for _, k := range keys {
			a[k] = r.P(pct)
		}
		if differ() {
			return res, nil
		}
	}
	if unique {
		// distinct read-once normal forms always differ somewhere
		res.witness = "normal forms differ: composed " + want.canon(false).text() + " / rendered " + got.canon(false).text()
		return res, nil
	}
	res.equivalent = true
	return res, nil
}

// ---------------------------------------------------------------- values

// descValue writes a value out with its type, following pointers.
func descValue(v any) string {
	switch t := v.(type) {
	case nil:
		return "nil"
	case string:
		return "string:" + fmt.Sprintf("%q", clip(t))
	case int:
		return fmt.Sprintf("int:%d", t)
	case query.Condition: // no addresses
		return fmt.Sprintf("%T:%s", v, clip(t.RenderSQL()))
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Pointer {
		if rv.IsNil() {
			return fmt.Sprintf("%T:nil", v)
		}
		return "&" + descValue(rv.Elem().Interface())
	}
	if rv.Kind() == reflect.Slice && (rv.Type().Elem().Kind() == reflect.Pointer || rv.Type().Elem().Kind() == reflect.Interface) {
		parts := make([]string, rv.Len())
		for i := range parts {
			parts[i] = descValue(rv.Index(i).Interface())
		}
		return fmt.Sprintf("%T:[%s]", v, strings.Join(parts, " "))
	}
	return clip(fmt.Sprintf("%T:%v", v, v))
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:120] + fmt.Sprintf("...(%d bytes, %x)", len(s), hashString(s))
	}
	return s
}

// sameValue is equality of bound values: same type, same content.
func sameValue(a, b any) bool {
	if fa, ok := a.(float64); ok {
		if fb, ok := b.(float64); ok && math.IsNaN(fa) && math.IsNaN(fb) {
			return true
		}
	}
	return reflect.DeepEqual(a, b)
}

func sameValues(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameValue(a[i], b[i]) {
			return false
		}
	}
	return true
}

func descValues(vs []any) string {
	s := make([]string, len(vs))
	for i, v := range vs {
		s[i] = descValue(v)
	}
	return "[" + strings.Join(s, ", ") + "]"
}
