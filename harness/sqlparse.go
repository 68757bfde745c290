package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- tokens

type tokKind int

const (
	tkWord tokKind = iota
	tkNum
	tkPH
	tkOp
	tkEOF
)

type token struct {
	kind tokKind
	text string
	num  int // placeholder number; 0 for '?'
	pos  int
}

func lexSQL(s string) ([]token, error) {
	var out []token
	rs := []rune(s)
	i := 0
	isWord := func(c rune) bool {
		return !unicode.IsSpace(c) && !strings.ContainsRune("(),=<>?;'\"!", c)
	}
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '?':
			out = append(out, token{tkPH, "?", 0, i})
			i++
		case c == '$' && i+1 < len(rs) && rs[i+1] >= '0' && rs[i+1] <= '9':
			j := i + 1
			for j < len(rs) && rs[j] >= '0' && rs[j] <= '9' {
				j++
			}
			n, err := strconv.Atoi(string(rs[i+1 : j]))
			if err != nil {
				return nil, fmt.Errorf("placeholder number %q", string(rs[i:j]))
			}
			if rs[i+1] == '0' {
				return nil, fmt.Errorf("placeholder %q has leading zero", string(rs[i:j]))
			}
			if j < len(rs) && isWord(rs[j]) {
				return nil, fmt.Errorf("placeholder %q glued to following text", string(rs[i:j+1]))
			}
			out = append(out, token{tkPH, string(rs[i:j]), n, i})
			i = j
		case strings.ContainsRune("(),;", c):
			out = append(out, token{tkOp, string(c), 0, i})
			i++
		case strings.ContainsRune("=<>!", c):
			j := i + 1
			for j < len(rs) && strings.ContainsRune("=<>!", rs[j]) {
				j++
			}
			out = append(out, token{tkOp, string(rs[i:j]), 0, i})
			i = j
		case c == '\'' || c == '"':
			return nil, fmt.Errorf("quote character in SQL text")
		default:
			j := i
			digits := true
			for j < len(rs) && isWord(rs[j]) {
				if rs[j] < '0' || rs[j] > '9' {
					digits = false
				}
				j++
			}
			k := tkWord
			if digits {
				k = tkNum
			}
			out = append(out, token{k, string(rs[i:j]), 0, i})
			i = j
		}
	}
	out = append(out, token{kind: tkEOF, pos: len(rs)})
	return out, nil
}

// placeholdersOf lists placeholder numbers in order of appearance (0 for '?').
func placeholdersOf(sql string) ([]int, error) {
	toks, err := lexSQL(sql)
	if err != nil {
		return nil, err
	}
	var res []int
	for _, t := range toks {
		if t.kind == tkPH {
			res = append(res, t.num)
		}
	}
	return res, nil
}

// ---------------------------------------------------------------- AST

type Col struct{ Table, Name string }

func (c Col) String() string {
	if c.Table == "" {
		return c.Name
	}
	return c.Table + "." + c.Name
}

type FieldItem struct {
	Col
	Alias string
}

type TableRef struct{ Name, Alias string }

type JoinItem struct {
	Type        string // INNER LEFT RIGHT FULL
	Table       TableRef
	Left, Right Col
}

type OrderItem struct {
	Col string
	Dir string
}

// Node is a predicate as read from SQL text.
type Node struct {
	Op   string // and or not leaf const
	Kids []*Node
	Leaf *PLeaf
	Val  bool
}

// PLeaf is an elementary condition as read. PH are positions (0-based, in order
// of appearance over the whole text) of its placeholders.
type PLeaf struct {
	Op  string
	Col string
	Neg bool
	PH  []int
}

type Stmt struct {
	Kind   string // SELECT COUNT INSERT UPDATE DELETE
	Star   bool
	Fields []FieldItem
	Count  string
	From   TableRef
	Joins  []JoinItem
	Where  *Node
	Order  []OrderItem
	// placeholder positions or -1 if absent; literal if lit
	Offset, Limit       int
	OffsetLit, LimitLit string
	Cols                []string
	Vals                []int // positions of placeholders in VALUES or SET
	PH                  []int // numbers in order of appearance
	FromText            string
}

type parser struct {
	src  []rune
	toks []token
	i    int
	ph   []int
}

type parseError struct{ msg string }

func (p *parser) fail(format string, a ...any) {
	t := p.toks[p.i]
	panic(parseError{fmt.Sprintf(format, a...) + fmt.Sprintf(" (at %d near %q)", t.pos, t.text)})
}

func (p *parser) peek() token { return p.toks[p.i] }
func (p *parser) peekAt(n int) token {
	if p.i+n < len(p.toks) {
		return p.toks[p.i+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *parser) next() token {
	t := p.toks[p.i]
	if t.kind != tkEOF {
		p.i++
	}
	if t.kind == tkPH {
		p.ph = append(p.ph, t.num)
	}
	return t
}
func (p *parser) isKw(n int, kw string) bool {
	t := p.peekAt(n)
	return t.kind == tkWord && strings.EqualFold(t.text, kw)
}
func (p *parser) acceptKw(kw string) bool {
	if p.isKw(0, kw) {
		p.i++
		return true
	}
	return false
}
func (p *parser) needKw(kw string) {
	if !p.acceptKw(kw) {
		p.fail("expected %s", kw)
	}
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.kind == tkOp && t.text == s }
func (p *parser) acceptOp(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) needOp(s string) {
	if !p.acceptOp(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) needPH() int {
	if p.peek().kind != tkPH {
		p.fail("expected placeholder")
	}
	p.next()
	return len(p.ph) - 1
}

var reserved = map[string]bool{}

func init() {
	for _, k := range strings.Fields("SELECT FROM WHERE ORDER BY OFFSET LIMIT INNER LEFT RIGHT FULL OUTER JOIN ON AND OR NOT IN IS NULL LIKE ILIKE BETWEEN AS ASC DESC INSERT INTO VALUES UPDATE SET DELETE") {
		reserved[k] = true
	}
}

func (p *parser) ident() string {
	t := p.peek()
	if t.kind != tkWord || reserved[strings.ToUpper(t.text)] {
		p.fail("expected identifier")
	}
	p.i++
	return t.text
}

func splitCol(s string) (Col, bool) {
	parts := strings.Split(s, ".")
	switch {
	case len(parts) == 1:
		return Col{"", parts[0]}, true
	case len(parts) == 2 && parts[0] != "" && parts[1] != "":
		return Col{parts[0], parts[1]}, true
	}
	return Col{}, false
}

func (p *parser) column() Col {
	s := p.ident()
	c, ok := splitCol(s)
	if !ok {
		p.fail("malformed column %q", s)
	}
	return c
}

func (p *parser) tableRef() TableRef {
	name := p.ident()
	r := TableRef{Name: name}
	if p.acceptKw("AS") {
		r.Alias = p.ident()
	} else if t := p.peek(); t.kind == tkWord && !reserved[strings.ToUpper(t.text)] {
		r.Alias = p.ident()
	}
	return r
}

// ---------------------------------------------------------------- predicates

func (p *parser) expr() *Node {
	n := p.andExpr()
	for p.acceptKw("OR") {
		m := p.andExpr()
		n = &Node{Op: "or", Kids: []*Node{n, m}}
	}
	return n
}

func (p *parser) andExpr() *Node {
	n := p.notExpr()
	for p.acceptKw("AND") {
		m := p.notExpr()
		n = &Node{Op: "and", Kids: []*Node{n, m}}
	}
	return n
}

func (p *parser) notExpr() *Node {
	if p.acceptKw("NOT") {
		return &Node{Op: "not", Kids: []*Node{p.notExpr()}}
	}
	return p.primary()
}

func (p *parser) leaf(l PLeaf) *Node { return &Node{Op: "leaf", Leaf: &l} }

func (p *parser) primary() *Node {
	if p.acceptOp("(") {
		n := p.expr()
		p.needOp(")")
		return n
	}
	if p.peek().kind == tkNum {
		a := p.next().text
		p.needOp("=")
		if p.peek().kind != tkNum {
			p.fail("expected number")
		}
		b := p.next().text
		return &Node{Op: "const", Val: a == b}
	}
	if p.acceptKw("TRUE") {
		return &Node{Op: "const", Val: true}
	}
	if p.acceptKw("FALSE") {
		return &Node{Op: "const", Val: false}
	}
	// custom function-like condition
	if t := p.peek(); t.kind == tkWord && !reserved[strings.ToUpper(t.text)] &&
		p.peekAt(1).kind == tkOp && p.peekAt(1).text == "(" {
		name := p.ident()
		p.needOp("(")
		l := PLeaf{Op: "fn", Col: name}
		for !p.acceptOp(")") {
			if len(l.PH) > 0 {
				p.needOp(",")
			}
			l.PH = append(l.PH, p.needPH())
		}
		return p.leaf(l)
	}
	col := p.column().String()
	if t := p.peek(); t.kind == tkOp {
		switch t.text {
		case "=", ">", ">=", "<", "<=":
			p.i++
			return p.leaf(PLeaf{Op: t.text, Col: col, PH: []int{p.needPH()}})
		case "<>", "!=":
			p.i++
			return p.leaf(PLeaf{Op: "=", Neg: true, Col: col, PH: []int{p.needPH()}})
		}
		p.fail("unexpected operator")
	}
	if p.acceptKw("IS") {
		neg := p.acceptKw("NOT")
		if p.acceptKw("TRUE") {
			return p.leaf(PLeaf{Op: "ISTRUE", Col: col, Neg: neg})
		}
		p.needKw("NULL")
		return p.leaf(PLeaf{Op: "ISNULL", Col: col, Neg: neg})
	}
	neg := p.acceptKw("NOT")
	switch {
	case p.acceptKw("LIKE"):
		return p.leaf(PLeaf{Op: "LIKE", Col: col, Neg: neg, PH: []int{p.needPH()}})
	case p.acceptKw("ILIKE"):
		return p.leaf(PLeaf{Op: "ILIKE", Col: col, Neg: neg, PH: []int{p.needPH()}})
	case p.acceptKw("BETWEEN"):
		a := p.needPH()
		p.needKw("AND")
		b := p.needPH()
		return p.leaf(PLeaf{Op: "BETWEEN", Col: col, Neg: neg, PH: []int{a, b}})
	case p.acceptKw("IN"):
		p.needOp("(")
		l := PLeaf{Op: "IN", Col: col, Neg: neg}
		l.PH = append(l.PH, p.needPH())
		for p.acceptOp(",") {
			l.PH = append(l.PH, p.needPH())
		}
		p.needOp(")")
		return p.leaf(l)
	}
	p.fail("expected an elementary condition after %q", col)
	return nil
}

// ---------------------------------------------------------------- statements

func (p *parser) joins(s *Stmt) {
	for {
		typ := ""
		switch {
		case p.acceptKw("JOIN"):
			typ = "INNER"
		case p.acceptKw("INNER"):
			typ = "INNER"
			p.needKw("JOIN")
		case p.isKw(0, "LEFT"), p.isKw(0, "RIGHT"), p.isKw(0, "FULL"):
			typ = strings.ToUpper(p.next().text)
			p.acceptKw("OUTER")
			p.needKw("JOIN")
		default:
			return
		}
		j := JoinItem{Type: typ, Table: p.tableRef()}
		p.needKw("ON")
		j.Left = p.column()
		p.needOp("=")
		j.Right = p.column()
		s.Joins = append(s.Joins, j)
	}
}

func (p *parser) number(dst *int, lit *string) {
	if p.peek().kind == tkNum {
		*lit = p.next().text
		return
	}
	*dst = p.needPH()
}

func (p *parser) statement() *Stmt {
	s := &Stmt{Offset: -1, Limit: -1}
	switch {
	case p.acceptKw("SELECT"):
		s.Kind = "SELECT"
		if p.isKw(0, "COUNT") && p.peekAt(1).text == "(" {
			p.i += 2
			s.Kind = "COUNT"
			s.Count = p.ident()
			p.needOp(")")
		} else if p.peek().text == "*" && p.peekAt(1).text != "," {
			p.i++
			s.Star = true
		} else {
			for {
				f := FieldItem{Col: p.column()}
				if p.acceptKw("AS") {
					f.Alias = p.ident()
				}
				s.Fields = append(s.Fields, f)
				if !p.acceptOp(",") {
					break
				}
			}
		}
		p.needKw("FROM")
		from := p.peek().pos
		s.From = p.tableRef()
		p.joins(s)
		s.FromText = strings.TrimSpace(string(p.src[from:p.peek().pos]))
		if p.acceptKw("WHERE") {
			s.Where = p.expr()
		}
		if p.acceptKw("ORDER") {
			p.needKw("BY")
			for {
				o := OrderItem{Col: p.ident(), Dir: "ASC"}
				if p.acceptKw("DESC") {
					o.Dir = "DESC"
				} else {
					p.acceptKw("ASC")
				}
				s.Order = append(s.Order, o)
				if !p.acceptOp(",") {
					break
				}
			}
		}
		for {
			if p.isKw(0, "OFFSET") && s.Offset < 0 && s.OffsetLit == "" {
				p.i++
				p.number(&s.Offset, &s.OffsetLit)
			} else if p.isKw(0, "LIMIT") && s.Limit < 0 && s.LimitLit == "" {
				p.i++
				p.number(&s.Limit, &s.LimitLit)
			} else {
				break
			}
		}
	case p.acceptKw("INSERT"):
		s.Kind = "INSERT"
		p.needKw("INTO")
		s.From.Name = p.ident()
		p.needOp("(")
		for {
			s.Cols = append(s.Cols, p.ident())
			if !p.acceptOp(",") {
				break
			}
		}
		p.needOp(")")
		p.needKw("VALUES")
		p.needOp("(")
		for {
			s.Vals = append(s.Vals, p.needPH())
			if !p.acceptOp(",") {
				break
			}
		}
		p.needOp(")")
	case p.acceptKw("UPDATE"):
		s.Kind = "UPDATE"
		s.From = p.tableRef()
		p.needKw("SET")
		for {
			s.Cols = append(s.Cols, p.ident())
			p.needOp("=")
			s.Vals = append(s.Vals, p.needPH())
			if !p.acceptOp(",") {
				break
			}
		}
		if p.acceptKw("WHERE") {
			s.Where = p.expr()
		}
	case p.acceptKw("DELETE"):
		s.Kind = "DELETE"
		p.needKw("FROM")
		s.From = p.tableRef()
		if p.acceptKw("WHERE") {
			s.Where = p.expr()
		}
	default:
		p.fail("unknown statement")
	}
	return s
}

func withParser(sql string, f func(p *parser)) (err error) {
	toks, err := lexSQL(sql)
	if err != nil {
		return err
	}
	p := &parser{src: []rune(sql), toks: toks}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	f(p)
	if p.peek().kind != tkEOF {
		p.fail("trailing text")
	}
	return nil
}

func parseStmt(sql string) (s *Stmt, err error) {
	err = withParser(sql, func(p *parser) {
		s = p.statement()
		if p.peek().kind == tkEOF {
			s.PH = p.ph
		}
	})
	return
}

func parsePredicate(sql string) (n *Node, ph []int, err error) {
	err = withParser(sql, func(p *parser) {
		n = p.expr()
		ph = p.ph
	})
	return
}
