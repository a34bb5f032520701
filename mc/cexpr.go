package main

// Independent evaluator of gettext plural expressions with C precedence, used as oracle.

type cnode struct {
	op      string // "n", "num", "?", or a binary operator
	v       int64
	a, b, c *cnode
}

type cparse struct {
	t       []string
	i       int
	chained bool // the text uses a chain (a<b<c, a==b==c, a%b%c) that a reader may reject
}

func (p *cparse) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}

// parseC parses a token list as a C expression; ok is false if it is not one.
func parseC(t []string) (root *cnode, chained, ok bool) {
	p := &cparse{t: t}
	n := p.tern()
	if n == nil || p.i != len(t) {
		return nil, false, false
	}
	return n, p.chained, true
}

func (p *cparse) tern() *cnode {
	c := p.bin(0)
	if c == nil || p.peek() != "?" {
		return c
	}
	p.i++
	a := p.tern()
	if a == nil || p.peek() != ":" {
		return nil
	}
	p.i++
	b := p.tern()
	if b == nil {
		return nil
	}
	return &cnode{op: "?", a: c, b: a, c: b}
}

var cprec = [][]string{{"||"}, {"&&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"%"}}

func (p *cparse) bin(level int) *cnode {
	if level == len(cprec) {
		return p.prim()
	}
	x := p.bin(level + 1)
	if x == nil {
		return nil
	}
	for k := 0; ; k++ {
		op := p.peek()
		found := false
		for _, o := range cprec[level] {
			found = found || o == op
		}
		if !found || op == "" {
			return x
		}
		if k > 0 && level >= 2 {
			p.chained = true
		}
		p.i++
		y := p.bin(level + 1)
		if y == nil {
			return nil
		}
		x = &cnode{op: op, a: x, b: y}
	}
}

func (p *cparse) prim() *cnode {
	tok := p.peek()
	switch {
	case tok == "":
		return nil
	case tok == "n":
		p.i++
		return &cnode{op: "n"}
	case tok == "(":
		p.i++
		x := p.tern()
		if x == nil || p.peek() != ")" {
			return nil
		}
		p.i++
		return x
	case tok[0] >= '0' && tok[0] <= '9':
		p.i++
		var v int64
		for _, ch := range tok {
			v = v*10 + int64(ch-'0')
		}
		return &cnode{op: "num", v: v}
	}
	return nil
}

// eval reports the value; def is false if a division by zero happens on the way.
func (c *cnode) eval(n int64) (v int64, def bool) {
	bl := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch c.op {
	case "n":
		return n, true
	case "num":
		return c.v, true
	case "?":
		k, d := c.a.eval(n)
		if !d {
			return 0, false
		}
		if k != 0 {
			return c.b.eval(n)
		}
		return c.c.eval(n)
	}
	x, d := c.a.eval(n)
	if !d {
		return 0, false
	}
	if c.op == "&&" && x == 0 {
		return 0, true
	}
	if c.op == "||" && x != 0 {
		return 1, true
	}
	y, d := c.b.eval(n)
	if !d {
		return 0, false
	}
	switch c.op {
	case "&&", "||":
		return bl(y != 0)
	case "==":
		return bl(x == y)
	case "!=":
		return bl(x != y)
	case "<":
		return bl(x < y)
	case "<=":
		return bl(x <= y)
	case ">":
		return bl(x > y)
	case ">=":
		return bl(x >= y)
	case "%":
		if y == 0 {
			return 0, false
		}
		return x % y, true
	}
	panic("op " + c.op)
}

// tokenizeC splits an expression text into tokens.
func tokenizeC(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case i+1 < len(s) && (s[i:i+2] == "&&" || s[i:i+2] == "||" || s[i:i+2] == "==" || s[i:i+2] == "!=" || s[i:i+2] == "<=" || s[i:i+2] == ">="):
			out = append(out, s[i:i+2])
			i += 2
		default:
			out = append(out, string(ch))
			i++
		}
	}
	return out
}
