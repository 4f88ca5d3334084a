package main

import (
	"fmt"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// C15: templates and macros. Templates of every shape are evaluated with
// changing bindings and compared with plain substitution; macros made of
// them are called from everywhere a form may stand and compared with the
// evaluation of the form they stand for.

type t15 struct {
	g *G
	p *pgen
	n int // unquotes and splices made
	// holes for parameters when the template is the body of a macro
	hole func(splice bool) X
}

var t15syms = []string{"a", "x", "foo", "if", "cond", "let", "def", "quote", "unquoted", "?x", "+", "f1"}

// hx is the expression of an unquote.
func (t *t15) hx(splice bool, d int) X {
	t.n++
	if t.hole != nil {
		return t.hole(splice)
	}
	g, p := t.g, t.p
	p.noBrk++
	defer func() { p.noBrk-- }()
	if splice {
		if g.Chance(1, 5) {
			return li{sy("list")}
		}
		if g.Chance(1, 6) {
			// elements that look like templates themselves
			return li{sy("quote"), li{li{sy("list"), sy("a")}, li{1, sy("x")}, sy("y")}}
		}
		return p.expr(tList, minInt(d, 2))
	}
	switch g.Intn(8) {
	case 0:
		return li{sy("quote"), li{sy("a"), li{sy("b"), 1}, "s"}}
	case 1: // a template inside what is unquoted
		return li{sy("syntaxQuote"), t.tpl(minInt(d-1, 2), false)}
	case 2:
		return li{sy("list"), p.expr(tInt, 1), li{sy("syntaxQuote"), t.tpl(minInt(d-1, 1), false)}}
	}
	return p.expr(p.anyTyVal(), minInt(d, 2))
}

// tpl is a template; in a sequence it may be a splice.
func (t *t15) tpl(d int, elem bool) X {
	g := t.g
	w := 0
	if d > 0 {
		w = 1
	}
	switch g.Weighted(5, 5, 4*b2i(elem), 6*w, 4*w, 2*w, 1*w, 1*w, 2*w) {
	case 1:
		return li{sy("unquote"), t.hx(false, d)}
	case 2:
		return li{sy("unquote-splicing"), t.hx(true, d)}
	case 3:
		return t.seq(d, 4)
	case 4:
		return ar(t.seq(d, 4))
	case 5:
		x := dt{xs: t.seq(d, 2)}
		x.xs = append(li{t.tpl(d-1, false)}, x.xs...)
		switch g.Intn(4) {
		case 0:
			x.tail = ar(t.seq(d-1, 2))
		case 1:
			x.tail = li{sy("unquote"), t.hx(false, d)}
		default:
			x.tail = t.atom()
		}
		if x.tail == nil {
			x.tail = 7
		}
		return x
	case 6:
		return ix{[]X{sy("a"), li{sy("unquote"), t.hx(false, 1)}}[g.Intn(2)], sy(pickS(g, "+", "=", "*")), []X{1, li{sy("unquote"), t.hx(false, 1)}}[g.Intn(2)]}
	case 7:
		x := hl{}
		for i := g.Range(1, 3); i > 0; i-- {
			x.ks = append(x.ks, fmt.Sprintf("k%d", i))
			x.vs = append(x.vs, t.tpl(d-1, false))
		}
		return x
	case 8:
		return li{sy("quote"), t.tpl(d-1, false)}
	}
	return t.atom()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (t *t15) seq(d, max int) li {
	x := li{}
	for k := t.g.Intn(max + 1); k > 0; k-- {
		if t.g.Chance(1, 15) {
			x = append(x, sy("a.b"))
			continue
		}
		x = append(x, t.tpl(d-1, true))
	}
	if len(x) == 2 && x[0] == X(sy("quote")) {
		x = x[:1]
	}
	return x
}

func (t *t15) atom() X {
	g := t.g
	switch g.Intn(9) {
	case 0:
		return g.Range(-3, 99)
	case 1:
		return pickS(g, "", "s", "~a", "(x)")
	case 2:
		return []X{ch('a'), ch('~'), ch('@')}[g.Intn(3)]
	case 3:
		return kw(pickS(g, "a", "key"))
	case 4:
		return []X{true, false, 1.5, nil}[g.Intn(4)]
	}
	return sy(pickS(g, t15syms...))
}

// mutators changes the data in a value in place, to show sharing.
func mutators(r *revl, env *Zlisp) {
	r.global.vars["mutate"] = &rBi{name: "mutate", f: func(r *revl, a []val) (val, *sig) {
		rmutate(a[0], 0)
		return a[0], nil
	}}
	env.AddFunction("mutate", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		imutate(args[0], 0)
		return args[0], nil
	})
}

func rmutate(v val, d int) {
	if d > 20 {
		return
	}
	switch x := v.(type) {
	case *rPair:
		rmutate(x.h, d+1)
		rmutate(x.t, d+1)
	case *rArr:
		for _, y := range x.v {
			rmutate(y, d+1)
		}
		if len(x.v) > 0 {
			x.v[0] = int64(4711)
		}
	case *rHash:
		for _, k := range x.keys {
			rmutate(x.m[rdesc(k)], d+1)
		}
		x.set("mut", int64(4712))
	}
}

func imutate(v Sexp, d int) {
	if d > 20 {
		return
	}
	switch x := v.(type) {
	case *SexpPair:
		imutate(x.Head, d+1)
		imutate(x.Tail, d+1)
	case *SexpArray:
		for _, y := range x.Val {
			imutate(y, d+1)
		}
		if len(x.Val) > 0 {
			x.Val[0] = &SexpInt{Val: 4711}
		}
	case *SexpHash:
		for _, k := range append([]Sexp(nil), x.KeyOrder...) {
			if y, err := x.HashGet(nil, k); err == nil {
				imutate(y, d+1)
			}
		}
		x.HashSet(&SexpStr{S: "mut"}, &SexpInt{Val: 4712})
	}
}

// templates: a program that evaluates templates with changing bindings.
func (t *t15) templates() []X {
	g, p := t.g, t.p
	out := []X{li{sy("def"), sy("a"), p.small()}, li{sy("def"), sy("l"), p.leaf(tList)}, li{sy("def"), sy("v"), p.leaf(tArr)}, li{sy("def"), sy("h"), p.leaf(tHash)}}
	for n, ty := range map[string]gty{"a": tInt, "l": tList, "v": tArr, "h": tHash} {
		_ = n
		_ = ty
	}
	p.bind(gvar{name: "a", t: tInt})
	p.bind(gvar{name: "l", t: tList})
	p.bind(gvar{name: "v", t: tArr})
	p.bind(gvar{name: "h", t: tHash})
	whole := func(d int) X {
		t.n = 0
		for i := 0; ; i++ {
			x := li{sy("syntaxQuote"), t.tpl(d, false)}
			if t.n > 0 || i > 3 {
				return x
			}
		}
	}
	for k := g.Range(1, 4); k > 0; k-- {
		switch g.Intn(6) {
		case 0, 1:
			out = append(out, p.emit(whole(4)))
		case 2: // in a function, called with one value and another
			f := p.fresh()
			p.push(true)
			p.bind(gvar{name: "x", t: tInt})
			p.bind(gvar{name: "l", t: tList})
			d := li{sy("defn"), sy(f), ar{sy("x"), sy("&"), sy("l")}, whole(3)}
			p.pop()
			r := p.fresh()
			out = append(out, d, li{sy("def"), sy(r), li{sy(f), 1, 2, 3}}, p.emit(sy(r)))
			if g.Chance(1, 2) {
				out = append(out, li{sy("mutate"), sy(r)})
			}
			out = append(out, p.emit(li{sy(f), 9}), p.emit(li{sy(f), 1, 2, 3}), p.emit(sy(r)))
		case 3: // in a loop
			p.push(false)
			p.bind(gvar{name: "i", t: tInt, fixed: true})
			b := p.emit(whole(3))
			p.pop()
			out = append(out, li{sy("for"), ar{li{sy("def"), sy("i"), 0}, li{sy("<"), sy("i"), 3}, li{sy("set"), sy("i"), li{sy("+"), sy("i"), 1}}}, b})
		case 4: // a hash as template
			h := li{sy("hash")}
			for i := g.Range(1, 3); i > 0; i-- {
				h = append(h, []X{kw(fmt.Sprintf("k%d", i)), i, fmt.Sprintf("s%d", i)}[g.Intn(3)])
				t.hole = func(splice bool) X { // no effects: nothing says which value is first
					return p.leaf([]gty{tInt, tList}[b2i(splice)])
				}
				x := t.tpl(3, false)
				t.hole = nil
				switch x.(type) {
				case li, sy, ar, dt, ix, hl:
					h = append(h, li{sy("quote"), x})
				default:
					h = append(h, x)
				}
			}
			hv := p.fresh()
			ev := p.emit(li{sy("eval"), li{sy("list"), li{sy("quote"), sy("syntaxQuote")}, sy(hv)}})
			out = append(out, li{sy("def"), sy(hv), h}, ev, li{sy("set"), sy("a"), 55}, ev)
			if g.Chance(1, 2) {
				out = append(out, p.emit(li{sy("eval"), li{sy("list"), li{sy("quote"), sy("syntaxQuote")}, li{sy("list"), sy("a"), sy(hv), ar{sy(hv), 1}}}}))
			}
			out = append(out, p.emit(sy(hv)))
		case 5: // as an argument and inside other values
			out = append(out, p.emit(li{sy("list"), p.expr(tInt, 1), whole(3), ar{whole(2)}}))
		}
	}
	if g.Chance(1, 12) { // a splice of what is no list
		out = append(out, p.emit(li{sy("syntaxQuote"), li{sy("x"), li{sy("unquote-splicing"), p.lit(tInt)}}}))
	}
	return append(out, li{sy("list"), sy("a"), sy("l"), sy("v"), sy("h")})
}

// ---- macros

type mac15 struct {
	name string
	ps   string // e expression, b body forms (&), n name, l list of names, i small literal
	t    gty    // what a call is worth
	stmt bool   // does not stand inside expressions
	q    bool   // gives back its arguments as data
}

type m15 struct {
	g     *G
	p     *pgen
	ms    []mac15
	deep  int
	again int
}

// holes puts ~ before the parameters of a macro in code that uses them as
// variables.
func holes(x X, ps map[string]bool) X {
	switch v := x.(type) {
	case sy:
		if ps[string(v)] {
			return li{sy("unquote"), v}
		}
	case li:
		if len(v) == 3 && v[0] == X(sy("set")) {
			if n, ok := v[1].(sy); ok && ps[string(n)] {
				return holes(v[2], ps)
			}
		}
		out := li{}
		for _, y := range v {
			out = append(out, holes(y, ps))
		}
		return out
	case ar:
		out := ar{}
		for _, y := range v {
			out = append(out, holes(y, ps))
		}
		return out
	case ix:
		out := ix{}
		for _, y := range v {
			out = append(out, holes(y, ps))
		}
		return out
	}
	return x
}

func uq15(n string) X { return li{sy("unquote"), sy(n)} }

func hasTemplate(x X) bool {
	switch v := x.(type) {
	case li:
		for _, y := range v {
			if y == X(sy("syntaxQuote")) || hasTemplate(y) {
				return true
			}
		}
	case ar:
		for _, y := range v {
			if hasTemplate(y) {
				return true
			}
		}
	}
	return false
}

func (m *m15) one(ms []mac15) *mac15 {
	if len(ms) == 0 {
		return nil
	}
	return &ms[m.g.Intn(len(ms))]
}

// defmac defines another macro.
func (m *m15) defmac() X {
	g, p := m.g, m.p
	name := fmt.Sprintf("m%d", len(m.ms)+1)
	uq := func(n string) X { return li{sy("unquote"), sy(n)} }
	sp := func(n string) X { return li{sy("unquote-splicing"), sy(n)} }
	tq := func(x X) X { return li{sy("syntaxQuote"), x} }
	mk := func(d mac15, ps ar, body ...X) X {
		d.name = name
		m.ms = append(m.ms, d)
		return append(li{sy("defmac"), sy(name), ps}, body...)
	}
	p1, p2 := sy("p1"), sy("p2")
	bd := ar{p1, sy("&"), sy("body")}
	switch g.Intn(17) {
	case 14: // the body looks at a global, the template at what has its name at the call
		return mk(mac15{ps: "ee", t: tInt}, ar{p1, p2}, []X{
			li{sy("cond"), li{sy("=="), sy("gm"), 3}, tq(li{sy("+"), uq("p1"), sy("gm"), uq("p2")}), tq(li{sy("emit"), "other", sy("gm"), uq("p1")})},
			tq(li{sy("list"), uq("gm"), sy("gm"), uq("p1"), uq("p2")}),
			li{sy("let"), ar{sy("gm"), li{sy("+"), sy("gm"), 1}}, tq(li{sy("+"), uq("gm"), sy("gm"), uq("p1"), uq("p2")})},
			tq(li{sy("+"), li{sy("unquote"), li{sy("hlp"), sy("gm")}}, li{sy("hlp"), uq("p1")}, uq("p2")}),
		}[g.Intn(4)])
	case 15: // a body with loops and calls of its own
		return mk(mac15{ps: "ib", t: tInt}, bd, []X{
			li{sy("let"), ar{sy("acc"), li{sy("list")}},
				li{sy("for"), ar{li{sy("def"), sy("i"), 0}, li{sy("<"), sy("i"), li{sy("hlp"), p1}}, li{sy("set"), sy("i"), li{sy("+"), sy("i"), 1}}},
					li{sy("cond"), li{sy("=="), sy("i"), 2}, li{sy("continue")}, li{sy("=="), sy("i"), 5}, li{sy("break")}, 0},
					li{sy("set"), sy("acc"), li{sy("cons"), li{sy("first"), sy("body")}, sy("acc")}}},
				tq(li{sy("begin"), sp("acc"), 7})},
			li{sy("begin"), li{sy("def"), sy("loc"), li{sy("map"), sy("hlp"), li{sy("list"), p1, 2}}}, tq(li{sy("begin"), sp("body"), li{sy("quote"), uq("loc")}, uq("p1")})},
			li{sy("let"), ar{sy("f"), li{sy("fn"), ar{sy("k"), sy("o")}, li{sy("cond"), li{sy("<="), sy("k"), 0}, sy("o"), li{sy("list"), li{sy("quote"), sy("begin")}, sy("o"), sy("k")}}}},
				tq(li{sy("begin"), sp("body"), li{sy("unquote"), li{sy("f"), p1, 9}}})},
			li{sy("begin"), li{sy("emit"), kw("x"), p1}, tq(li{sy("begin"), sp("body")})},
		}[g.Weighted(3, 2, 2, 0)])
	case 16: // the body fails inside and forgives it
		return mk(mac15{ps: "ee", t: tInt}, ar{p1, p2}, li{sy("let"), ar{sy("r"), li{sy("try"), li{sy("fn"), ar{}, li{sy("let"), ar{sy("q"), 1}, li{sy("list"), 1, li{sy("fail"), 2}}}}, 41}},
			tq(li{sy("+"), uq("r"), uq("p1"), uq("p2")})})
	case 0, 1: // an expression with holes
		ps := map[string]bool{"p1": true, "p2": true}
		p.push(false)
		p.bind(gvar{name: "p1", t: tInt})
		p.bind(gvar{name: "p2", t: tInt})
		e := p.expr(tInt, 3)
		p.pop()
		if hasTemplate(e) {
			e = li{sy("+"), p1, p2}
		}
		return mk(mac15{ps: "ee", t: tInt}, ar{p1, p2}, tq(holes(e, ps)))
	case 2:
		wrap := []X{
			li{sy("let"), ar{sy(pickS(g, p.pool()...)), uq("p1")}, sp("body")},
			li{sy("letseq"), ar{sy("x"), uq("p1"), sy("y"), sy("x")}, sp("body")},
			li{sy("cond"), li{sy("<"), uq("p1"), 5}, li{sy("begin"), sp("body")}, uq("p1")},
			li{sy("begin"), li{sy("emit"), uq("p1")}, sp("body")},
			li{sy("newScope"), sp("body"), uq("p1")},
			li{li{sy("fn"), ar{sy("x")}, sp("body")}, uq("p1")},
			li{sy("begin"), sp("body"), sp("body"), uq("p1")},
			li{sy("and"), true, uq("p1"), li{sy("begin"), sp("body")}},
		}[g.Intn(8)]
		return mk(mac15{ps: "eb", t: tInt}, bd, tq(wrap))
	case 3: // a loop
		v := sy(pickS(g, "i", "j"))
		return mk(mac15{ps: "ib", t: tInt, stmt: true}, bd,
			tq(li{sy("for"), ar{li{sy("def"), v, 0}, li{sy("<"), v, uq("p1")}, li{sy("set"), v, li{sy("+"), v, 1}}}, sp("body")}))
	case 4: // definitions
		if g.Chance(1, 2) {
			return mk(mac15{ps: "ne", stmt: true}, ar{p1, p2}, tq(li{sy(pickS(g, "def", "set")), uq("p1"), uq("p2")}))
		}
		return mk(mac15{ps: "nlb", stmt: true}, ar{p1, p2, sy("&"), sy("body")},
			tq([]X{li{sy("defn"), uq("p1"), ar{sp("p2")}, sp("body")}, li{sy("def"), uq("p1"), li{sy("fn"), ar{sp("p2")}, sp("body")}}}[g.Intn(2)]))
	case 5: // computed, without template
		return mk(mac15{ps: "ee", t: tInt}, ar{p1, p2}, []X{
			li{sy("list"), li{sy("quote"), sy("+")}, p1, p2},
			li{sy("cons"), li{sy("quote"), sy("*")}, li{sy("cons"), p2, li{sy("list"), p1}}},
			li{sy("let"), ar{sy("q"), tq(li{uq("p1"), uq("p2")})}, tq(li{sy("-"), sp("q")})},
			li{sy("cond"), li{sy("int?"), p1}, tq(li{sy("+"), 1000, uq("p1")}), tq(li{sy("begin"), uq("p1"), uq("p2")})},
			p1,
			li{sy("first"), li{sy("list"), p2, p1}},
			li{sy("concat"), li{sy("quote"), li{sy("list"), 1}}, li{sy("list"), p1, p2}},
			g.Range(3, 9),
		}[g.Intn(8)])
	case 6: // recursive
		return mk(mac15{ps: "ib", t: tInt}, bd, li{sy("cond"), li{sy("<="), p1, 0}, tq(li{sy("begin"), sp("body"), 0}),
			tq(li{sy("begin"), sp("body"), li{sy(name), li{sy("unquote"), li{sy("-"), p1, 1}}, sp("body")}})})
	case 7: // built on another macro
		if o := m.one(m.ms); o != nil && o.ps == "ee" {
			return mk(mac15{ps: "ee", t: o.t, q: o.q}, ar{p1, p2}, tq([]X{
				li{sy(o.name), uq("p2"), uq("p1")},
				li{sy("begin"), li{sy("emit"), li{sy(o.name), uq("p1"), 2}}, li{sy(o.name), li{sy(o.name), uq("p1"), 3}, uq("p2")}},
			}[g.Intn(2)]))
		}
		return mk(mac15{ps: "ee", t: tInt}, ar{p1, p2}, tq(li{sy("let"), ar{sy("a"), uq("p1"), sy("b"), uq("p2")}, li{sy("-"), sy("a"), sy("b")}}))
	case 8: // an array, a hash
		return mk(mac15{ps: "eb", t: tArr, q: true}, bd, tq([]X{ar{uq("p1"), sp("body"), 3}, ar{sp("body"), ar{uq("p1")}, sp("body")},
			hl{ks: []string{"k", "j"}, vs: []X{uq("p1"), ar{sp("body")}}},
			li{sy("hash"), kw("a"), uq("p1"), kw("b"), li{sy("list"), sp("body")}}}[g.Intn(4)]))
	case 9: // gives the forms back
		return mk(mac15{ps: "eb", t: tList, q: true}, bd, tq([]X{li{sy("quote"), uq("p1")}, li{sy("quote"), li{uq("p1"), sp("body")}},
			li{sy("quote"), ar{sp("body"), li{sp("body")}}}, li{sy("list"), li{sy("quote"), uq("p1")}, uq("p1")}}[g.Intn(4)]))
	case 10: // infix
		return mk(mac15{ps: "ee", t: tInt}, ar{p1, p2}, tq(ix{uq("p1"), sy(pickS(g, "+", "-", "*")), uq("p2")}))
	case 11: // any template as data
		t := &t15{g: g, p: p, hole: func(splice bool) X {
			if splice {
				return sy("body")
			}
			return []X{p1, sy("body"), li{sy("list"), p1, 1}}[g.Weighted(3, 1, 1)]
		}}
		return mk(mac15{ps: "eb", t: tList, q: true}, bd, tq(li{sy("quote"), t.tpl(3, false)}))
	case 12: // changes a variable of the caller
		return mk(mac15{ps: "n", t: tInt}, ar{p1}, tq([]X{
			li{sy("set"), uq("p1"), li{sy("+"), uq("p1"), 1}},
			li{sy("begin"), li{sy("set"), uq("p1"), li{sy("*"), 2, uq("p1")}}, uq("p1")},
			ix{uq("p1"), sy("="), li{sy("-"), uq("p1"), 1}},
		}[g.Intn(3)]))
	default: // a closure
		return mk(mac15{ps: "lb", t: tInt, stmt: false, q: true}, ar{p1, sy("&"), sy("body")}, tq(li{li{sy("fn"), ar{sp("p1")}, sp("body")}, 4, 5}))
	}
}

// call calls a macro.
func (m *m15) call(o *mac15, d int) X {
	g, p := m.g, m.p
	m.deep++
	defer func() { m.deep-- }()
	x := li{sy(o.name)}
	var body func() X = func() X { return p.expr(tInt, d-1) }
	pushed := false
	for _, c := range o.ps {
		switch c {
		case 'e':
			x = append(x, p.expr(tInt, d-1))
		case 'i':
			x = append(x, g.Intn(4))
		case 'n':
			var vs []gvar
			for _, v := range p.visible(tInt) {
				if !v.fixed {
					vs = append(vs, v)
				}
			}
			if o.ps == "n" {
				if len(vs) == 0 {
					return nil
				}
				x = append(x, sy(vs[g.Intn(len(vs))].name))
				continue
			}
			n := p.fresh()
			x = append(x, sy(n))
			if o.ps == "nlb" {
				p.bind(gvar{name: n, t: tF2})
			} else {
				defer p.bind(gvar{name: n, t: tInt})
			}
		case 'l':
			x = append(x, li{sy("u"), sy("w")})
			p.push(true)
			pushed = true
			p.bind(gvar{name: "u", t: tInt})
			p.bind(gvar{name: "w", t: tInt})
		case 'b':
			for k := g.Range(1, 3); k > 0; k-- {
				if k > 1 && g.Chance(1, 2) {
					x = append(x, p.emitE(tInt, d-1))
					continue
				}
				x = append(x, body())
			}
		}
	}
	if pushed {
		p.pop()
	}
	return x
}

// expr is a macro call of type t, if there is one.
func (m *m15) expr(t gty, d int) X {
	if m.deep > 2 || d < 1 || t != tInt {
		return nil
	}
	var ms []mac15
	for _, o := range m.ms {
		if o.t == tInt && !o.stmt && o.ps != "" {
			ms = append(ms, o)
		}
	}
	o := m.one(ms)
	if o == nil {
		return nil
	}
	p := m.p
	l := p.loops
	p.noBrk++
	p.loops = nil
	defer func() { p.noBrk--; p.loops = l }()
	return m.call(o, minInt(d, 3))
}

func (m *m15) program(errs bool) []X {
	g, p := m.g, m.p
	var out []X
	for _, n := range []string{"a", "b", "x"} {
		out = append(out, li{sy("def"), sy(n), p.small()})
		p.bind(gvar{name: n, t: tInt})
	}
	out = append(out, li{sy("def"), sy("gm"), 3}, li{sy("defn"), sy("hlp"), ar{sy("q")}, li{sy("cond"), li{sy("int?"), sy("q")}, li{sy("*"), 2, sy("q")}, sy("q")}})
	for i := g.Range(1, 5); i > 0; i-- {
		out = append(out, m.defmac())
	}
	p.mac = m.expr
	// where names of the macros' bodies mean something else
	hide := func(c X) X {
		switch g.Intn(8) {
		case 0:
			return li{sy("let"), ar{sy("gm"), 50}, li{sy("list"), c, sy("gm")}}
		case 1:
			return li{li{sy("fn"), ar{sy("gm"), sy("hlp")}, li{sy("list"), c, sy("gm")}}, 60, li{sy("fn"), ar{sy("q")}, 70}}
		case 2:
			return li{sy("let"), ar{sy("p1"), 80, sy("acc"), 5, sy("i"), 6, sy("body"), li{sy("list"), 1}, sy("gm"), 3}, li{sy("list"), c, li{sy("list"), sy("p1"), sy("acc"), sy("i"), sy("body")}}}
		}
		return c
	}
	for i := g.Range(2, 6); i > 0; i-- {
		o := m.one(m.ms)
		switch g.Intn(13) {
		case 0, 1, 2:
			if c := m.call(o, 3); c != nil {
				if o.stmt {
					out = append(out, c)
				} else {
					out = append(out, p.emit(hide(c)))
				}
			}
			continue
		case 3: // inside a function
			f := p.fresh()
			p.push(true)
			p.bind(gvar{name: "a", t: tInt})
			c := m.call(o, 2)
			e := p.expr(tInt, 2)
			p.pop()
			if c == nil {
				continue
			}
			d := li{sy("defn"), sy(f), ar{sy("a")}, c, e}
			if !o.stmt && g.Chance(1, 2) {
				d = li{sy("defn"), sy(f), ar{sy("a")}, c}
			}
			out = append(out, d, p.emit(li{sy(f), 7}), p.emit(li{sy(f), 3}))
		case 4: // a local of the function shadows a global
			p.push(false)
			p.bind(gvar{name: "x", t: tInt})
			p.bind(gvar{name: "b", t: tInt})
			c := m.call(o, 2)
			p.pop()
			if c != nil {
				out = append(out, p.emit(li{sy("let"), ar{sy("x"), 31, sy("b"), 32}, c, li{sy("list"), sy("x"), sy("b")}}))
			}
		case 5: // in a loop
			p.push(false)
			p.bind(gvar{name: "k", t: tInt, fixed: true})
			c := m.call(o, 2)
			p.pop()
			if c != nil {
				out = append(out, li{sy("for"), ar{li{sy("def"), sy("k"), 0}, li{sy("<"), sy("k"), 3}, li{sy("set"), sy("k"), li{sy("+"), sy("k"), 1}}}, c, p.emit(sy("k"))})
			}
		case 6: // the tail call of a recursive function
			var ms []mac15
			for _, o := range m.ms {
				if o.t == tInt && (o.ps == "ee" || o.ps == "eb") {
					ms = append(ms, o)
				}
			}
			if o := m.one(ms); o != nil {
				f := p.fresh()
				rec := li{sy(f), li{sy("-"), sy("n"), 1}}
				c := li{sy(o.name), []X{rec, 2, sy("n")}[g.Intn(3)], rec}
				out = append(out, li{sy("defn"), sy(f), ar{sy("n")}, li{sy("cond"), li{sy("<="), sy("n"), 0}, 1, c}}, p.emit(li{sy(f), g.Range(1, 4)}))
			}
		case 7: // built-in macros
			n := sy(pickS(g, "a", "b", "x"))
			out = append(out, p.emit([]X{li{sy("++"), n}, li{sy("--"), n}, li{sy("+="), n, p.expr(tInt, 2)}, li{sy("-="), n, p.expr(tInt, 2)}}[g.Intn(4)]), p.emit(n))
		case 8: // what it expands to, as data
			if c := m.call(o, 2); c != nil {
				out = append(out, p.emit(li{sy("macexpand"), c}))
			}
		case 9: // the arguments of a call
			if c := m.call(o, 2); c != nil && !o.stmt {
				out = append(out, p.emit(hide(li{sy("list"), p.expr(tInt, 2), c, p.expr(tInt, 2), ar{c}})))
			}
		case 10:
			out = append(out, p.stmt(3))
		case 12: // the same form, evaluated again after the macro has changed
			m.again++
			mr, frm, gq := sy(fmt.Sprintf("mr%d", m.again)), sy(fmt.Sprintf("frm%d", m.again)), sy(fmt.Sprintf("gq%d", m.again))
			def := func() X {
				return li{sy("defmac"), mr, ar{sy("p1"), sy("p2")}, []X{
					li{sy("syntaxQuote"), li{sy("list"), uq15("p1"), uq15("p2")}},
					li{sy("syntaxQuote"), li{sy("begin"), li{sy("emit"), uq15("p2")}, uq15("p1")}},
					li{sy("begin"), li{sy("set"), gq, li{sy("+"), gq, 1}}, li{sy("syntaxQuote"), ar{uq15(string(gq)), gq, uq15("p1")}}},
					li{sy("cond"), li{sy("=="), gq, 0}, li{sy("syntaxQuote"), li{sy("+"), uq15("p1"), uq15("p2")}}, sy("p2")},
				}[g.Intn(4)]}
			}
			var c X = li{mr, p.expr(tInt, 2), p.expr(tInt, 2)}
			if g.Chance(1, 3) {
				c = li{sy("list"), c, li{mr, 1, 2}}
			}
			out = append(out, li{sy("def"), gq, 0}, def(), li{sy("def"), frm, li{sy("quote"), c}})
			for k := g.Range(2, 4); k > 0; k-- {
				out = append(out, p.emit(li{sy("eval"), frm}))
				switch g.Intn(3) {
				case 0:
					out = append(out, def())
				case 1:
					out = append(out, li{sy("set"), gq, li{sy("+"), gq, 1}})
				}
			}
		case 11: // an argument evaluated later, or not
			if c := m.call(o, 2); c != nil && !o.stmt {
				f := p.fresh()
				out = append(out, li{sy("defn"), sy(f), ar{sy("#z"), sy("a")}, li{sy("emit"), li{sy("substitute"), sy("#z")}}, li{sy("list"), li{sy("force"), sy("#z")}, sy("a")}},
					p.emit(li{sy(f), c, 8}))
			}
		}
	}
	if errs { // expansions that fail
		bad := []X{
			li{sy("defmac"), sy("bad"), ar{sy("q")}, li{sy("fail"), sy("q")}},
			li{sy("defmac"), sy("bad"), ar{sy("q")}, li{sy("syntaxQuote"), li{sy("+"), li{sy("unquote"), sy("nowhere")}, 1}}},
			li{sy("defmac"), sy("bad"), ar{sy("q")}, li{sy("syntaxQuote"), ar{li{sy("unquote-splicing"), 5}}}},
			li{sy("defmac"), sy("bad"), ar{sy("q")}, li{sy("let"), ar{sy("z"), 1}, li{sy("syntaxQuote"), li{sy("list"), li{sy("unquote"), li{sy("fail"), 3}}}}}},
		}[g.Intn(4)]
		use := []X{
			li{sy("bad"), 1}, li{sy("emit"), li{sy("bad"), 1}}, li{sy("macexpand"), li{sy("bad"), 2}},
			li{li{sy("fn"), ar{sy("a")}, li{sy("list"), 1, li{sy("emit"), li{sy("bad"), sy("a")}}}}, 5},
			li{sy("let"), ar{sy("a"), li{sy("list"), li{sy("bad"), 4}}}, 6},
		}
		at := g.Range(3, len(out))
		out = append(out[:at:at], append([]X{bad, use[g.Intn(len(use))], use[g.Intn(len(use))]}, out[at:]...)...)
	}
	return append(out, li{sy("list"), sy("a"), sy("b"), sy("x")})
}

func init() {
	cfg := pcfg{loops: 1, funcs: 2, closure: 1, tail: 1, effects: 3, maxd: 3, names: []string{"a", "b", "x", "y"}}
	tpl := func(name string, n, th int) Part {
		return Part{Name: name, Quick: n, Thorough: th, Run: func(g *G) Res {
			t := &t15{g: g, p: &pgen{g: g, c: cfg, budget: 60}}
			t.p.sc = []gscope{{}}
			xs := t.templates()
			res, ref := cmpWith(xs, mutators, nil)
			res.NonTrivial = ref.substs >= 2
			return res
		}}
	}
	mac := func(name string, errs bool, n, th int) Part {
		return Part{Name: name, Quick: n, Thorough: th, Run: func(g *G) Res {
			m := &m15{g: g, p: &pgen{g: g, c: cfg, budget: 120}}
			m.p.sc = []gscope{{}}
			xs := m.program(errs)
			res, ref := cmpWith(xs, mutators, func(env *Zlisp, x X, before, after []int, err error) string {
				if !strings.Contains(render(x), "macexpand") {
					return ""
				}
				if fmt.Sprint(before) != fmt.Sprint(after) {
					return fmt.Sprintf("state: expanding left the stacks at %v, were %v", after, before)
				}
				return ""
			})
			res.NonTrivial = ref.expands >= 2 && ref.substs >= 2
			return res
		}}
	}
	register(&Prop{
		ID: "C15", Level: "exploration",
		Rule:  "at least two unquotes or splices were replaced (and at least two macro calls expanded, in the macro parts)",
		Parts: []Part{tpl("templates", 60000, 800000), mac("macros", false, 60000, 800000), mac("failing", true, 30000, 300000)},
	})
}
