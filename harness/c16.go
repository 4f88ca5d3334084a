package main

import "fmt"

// C16: lazy parameters. Functions with strict, lazy and variadic parameters
// called by every route, forced never, once or often, here or later, in
// scopes where the names mean something else; arguments announce their
// evaluation through emit.

type l16 struct {
	p     *pgen
	g     *G
	fns   []l16fn
	saved []string // closures that force later
	boxes int
	try   bool // may forgive a failure while forcing
}

type l16fn struct {
	name string
	ps   []bool // lazy?
	rest bool
}

var l16names = []string{"a", "b", "c", "x"}

// arg is an argument expression that shows when it is evaluated.
func (t *l16) arg(d int) X {
	g, p := t.g, t.p
	if g.Chance(1, 12) { // any other value
		return p.emit([]X{nil, nil, false, 0, "", 1.5, u64(0), li{sy("list")}, ar{}, true, ch('a'), li{sy("list"), 1}}[g.Intn(12)])
	}
	if t.try && g.Chance(1, 5) { // fails the first time or times, deep inside
		n, v := sy(pickS(g, l16names...)), g.Range(70, 99)
		bad := X(li{sy("begin"), li{sy("emit"), n}, li{sy("fail"), 1}})
		wrap := []X{
			li{sy("let"), ar{n, v}, bad},
			li{sy("letseq"), ar{n, v, sy("b"), n}, li{sy("newScope"), li{sy("def"), sy("a"), 4}, bad}},
			li{li{sy("fn"), ar{n}, li{sy("list"), 1, bad}}, v},
			li{sy("newScope"), li{sy("def"), n, v}, bad},
			li{sy("begin"), li{sy("for"), ar{li{sy("def"), n, 0}, li{sy("<"), n, 2}, li{sy("set"), n, li{sy("+"), n, 1}}}, li{sy("cond"), li{sy("=="), n, 1}, bad, 0}}, 5},
		}[g.Intn(5)]
		return li{sy("begin"), li{sy("set"), sy("cnt"), li{sy("+"), sy("cnt"), 1}},
			li{sy("cond"), li{sy("<"), sy("cnt"), g.Range(2, 4)}, wrap, li{sy("+"), sy(pickS(g, l16names[:3]...)), li{sy("*"), 100, n}}}}
	}
	switch g.Intn(7) {
	case 0:
		return p.leaf(tInt)
	case 1:
		if vs := p.visible(tInt); len(vs) > 0 { // changes a variable
			v := sy(vs[g.Intn(len(vs))].name)
			return li{sy("begin"), p.emit(v), li{sy("set"), v, li{sy("mod"), li{sy("+"), v, g.Range(1, 9)}, 1000}}}
		}
	case 2:
		if d > 0 && len(t.fns) > 0 {
			return t.call(d-1, t.fns[g.Intn(len(t.fns))])
		}
	case 3:
		if len(p.lazyX) > 0 {
			return li{sy("force"), sy(p.lazyX[g.Intn(len(p.lazyX))])}
		}
	}
	return p.emit(p.expr(tInt, minInt(d, 2)))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// call calls f by some route.
func (t *l16) call(d int, f l16fn) X {
	g, p := t.g, t.p
	p.noBrk++
	defer func() { p.noBrk-- }()
	var args []X
	for range f.ps {
		args = append(args, t.arg(d))
	}
	if f.rest {
		for k := g.Intn(3); k > 0; k-- {
			args = append(args, t.arg(d))
		}
	}
	n := X(sy(f.name))
	fresh := func() X { return sy(p.fresh()) }
	with := func(c X) X { return append(li{c}, args...) }
	switch g.Weighted(8, 3, 3, 3, 2, 2, 2, 3, 1) {
	case 1: // an alias
		a := fresh()
		return li{sy("let"), ar{a, n}, with(a)}
	case 2: // a parameter, with the arguments inside the function that has it
		a := fresh()
		return li{li{sy("fn"), ar{a}, with(a)}, n}
	case 3: // computed
		return with([]X{li{sy("begin"), n}, li{sy("cond"), true, n, 1}, li{sy("begin"), li{sy("emit"), kw("callee")}, n},
			li{li{sy("fn"), ar{}, n}}}[g.Intn(4)])
	case 4: // out of data
		a := fresh()
		return li{sy("let"), ar{a, li{sy("hash"), kw("f"), n}}, with(li{sy("hget"), a, kw("f")})}
	case 5:
		a := fresh()
		return li{sy("let"), ar{a, ar{n}}, with(li{sy("aget"), a, 0})}
	case 6: // from a function that returns it
		a := fresh()
		return li{sy("let"), ar{a, li{sy("fn"), ar{}, n}}, with(li{a})}
	case 7:
		if g.Chance(1, 2) {
			return li{sy("apply"), n, append(li{sy("list")}, args...)}
		}
		if len(args) > 0 {
			return li{sy("apply"), n, ar(args)}
		}
	case 8:
		if len(f.ps) == 1 {
			return li{sy("begin"), li{sy("emit"), kw("map"), li{sy("map"), n, append(li{sy("list"), 7}, args...)}}, 0}
		}
	}
	return with(n)
}

func (t *l16) uses(d int) []X {
	g, p := t.g, t.p
	var b []X
	for k := g.Range(0, 3); k > 0; k-- {
		lz := p.lazyX
		if len(lz) == 0 {
			b = append(b, p.emitE(tInt, 1))
			continue
		}
		l := sy(lz[g.Intn(len(lz))])
		force := li{sy("force"), l}
		if t.try && g.Chance(1, 2) {
			force = li{sy("tryforce"), l, p.leaf(tInt)}
		}
		switch g.Intn(10) {
		case 0, 1:
			b = append(b, p.emit(force))
		case 2:
			b = append(b, li{sy("emit"), kw("src"), li{sy("substitute"), l}})
		case 3: // where the caller's names mean something else
			n := sy(pickS(g, l16names...))
			b = append(b, p.emit(li{sy("let"), ar{n, 77}, li{sy("list"), force, n}}))
		case 4:
			b = append(b, p.emit(li{sy("map"), li{sy("fn"), ar{sy(pickS(g, l16names...))}, force}, ar{1, 2}}))
		case 5: // later
			b = append(b, li{sy("set"), sy("saved"), li{sy("cons"), li{sy("fn"), ar{}, force}, sy("saved")}})
		case 6:
			b = append(b, li{sy("cond"), p.expr(tBool, 1), p.emit(force), p.emit(p.leaf(tInt))})
		case 7: // in a loop
			v := sy(p.fresh())
			b = append(b, li{sy("for"), ar{li{sy("def"), v, 0}, li{sy("<"), v, 2}, li{sy("set"), v, li{sy("+"), v, 1}}}, p.emit(force)})
		case 8: // handed on to a lazy parameter
			if n := t.byKind(true); n != "" {
				b = append(b, p.emit(li{sy(n), []X{force, l}[g.Weighted(3, 1)]}))
			}
		case 9: // handed on to a strict parameter
			if n := t.byKind(false); n != "" {
				b = append(b, p.emit(li{sy(n), force}))
			}
		}
	}
	return b
}

// byKind is a function of one parameter, lazy or strict.
func (t *l16) byKind(lazy bool) string {
	var out []string
	for _, f := range t.fns {
		if len(f.ps) == 1 && f.ps[0] == lazy && !f.rest {
			out = append(out, f.name)
		}
	}
	if len(out) == 0 {
		return ""
	}
	return out[t.g.Intn(len(out))]
}

func (t *l16) defn(d int, f l16fn) X {
	g, p := t.g, t.p
	old := p.lazyX
	p.lazyX = nil
	p.push(true)
	ps := ar{}
	used := map[string]bool{}
	for _, lz := range f.ps {
		n := pickS(g, l16names...)
		for used[n] {
			n = p.fresh()
		}
		used[n] = true
		if lz {
			p.lazyX = append(p.lazyX, "#"+n)
			ps = append(ps, sy("#"+n))
			continue
		}
		p.bind(gvar{name: n, t: tInt})
		ps = append(ps, sy(n))
	}
	if f.rest {
		n := p.fresh()
		fixed := false
		if g.Chance(1, 3) { // the arguments of the tail are strict all the same
			n, fixed = "#"+n, true
		}
		ps = append(ps, sy("&"), sy(n))
		p.bind(gvar{name: n, t: tList, fixed: fixed})
	}
	var body []X
	if g.Chance(1, 3) {
		n := pickS(g, l16names...)
		if !used[n] {
			p.bind(gvar{name: n, t: tInt})
			body = append(body, li{sy("def"), sy(n), g.Range(100, 999)})
		}
	}
	if g.Chance(1, 4) {
		if vs := p.visible(tList); f.rest && len(vs) > 0 {
			body = append(body, p.emit(sy(vs[0].name)))
		}
	}
	body = append(body, t.uses(d)...)
	last := p.expr(tInt, 1)
	if len(p.lazyX) > 0 && g.Chance(1, 2) {
		last = li{sy("force"), sy(p.lazyX[g.Intn(len(p.lazyX))])}
		switch g.Intn(5) {
		case 0:
			last = li{sy("+"), last, last}
		case 1: // in tail position of a call of another function
			if n := t.byKind(false); n != "" {
				last = li{sy(n), last}
			}
		}
	}
	body = append(body, last)
	p.pop()
	p.lazyX = old
	if g.Chance(1, 5) {
		return li{sy("def"), sy(f.name), append(li{sy("fn"), ps}, body...)}
	}
	return append(li{sy("defn"), sy(f.name), ps}, body...)
}

// genLazy is a program with lazy functions.
func genLazy(g *G, errs int) []X {
	t := &l16{g: g, try: errs < 0}
	if errs < 0 {
		errs = -errs
	}
	t.p = &pgen{g: g, c: pcfg{loops: 0, funcs: 2, closure: 1, effects: 3, maxd: 3, simple: true, names: l16names, errs: errs}, budget: 150}
	t.p.sc = []gscope{{}}
	out := []X{li{sy("def"), sy("saved"), li{sy("list")}}, li{sy("def"), sy("cnt"), 0}, li{sy("def"), sy("x"), 8}}
	for _, n := range l16names[:3] {
		out = append(out, li{sy("def"), sy(n), g.Range(0, 9)})
		t.p.bind(gvar{name: n, t: tInt})
	}
	for i := g.Range(1, 4); i > 0; i-- {
		f := l16fn{name: fmt.Sprintf("f%d", i), rest: g.Chance(1, 4)}
		for k := g.Weighted(1, 5, 4, 2); k > 0; k-- {
			f.ps = append(f.ps, g.Chance(2, 3))
		}
		out = append(out, t.defn(2, f))
		t.fns = append(t.fns, f)
	}
	for k := g.Range(1, 3); k > 0; k-- {
		f := t.fns[g.Intn(len(t.fns))]
		x := t.call(2, f)
		switch g.Intn(5) {
		case 0: // from inside a function with locals of the same names
			n := pickS(g, l16names...)
			t.p.push(true)
			t.p.bind(gvar{name: n, t: tInt})
			x = t.call(2, f)
			t.p.pop()
			x = li{li{sy("fn"), ar{sy(n)}, x}, g.Range(20, 60)}
		case 1:
			n := pickS(g, l16names...)
			t.p.push(false)
			t.p.bind(gvar{name: n, t: tInt})
			x = t.call(2, f)
			t.p.pop()
			x = li{sy("let"), ar{sy(n), g.Range(20, 60)}, x}
		case 2: // in a loop, its variable in reach of the argument
			v := pickS(g, l16names...)
			t.p.push(false)
			t.p.bind(gvar{name: v, t: tInt, fixed: true})
			t.p.noBrk++
			x = t.call(1, f)
			t.p.noBrk--
			t.p.pop()
			x = li{sy("for"), ar{li{sy("def"), sy(v), 0}, li{sy("<"), sy(v), 2}, li{sy("set"), sy(v), li{sy("+"), sy(v), 1}}}, li{sy("emit"), kw("lp"), x}}
		}
		out = append(out, li{sy("emit"), kw("r"), x})
	}
	out = append(out, li{sy("for"), ar{nil, li{sy("not"), li{sy("null?"), sy("saved")}}, li{sy("set"), sy("saved"), li{sy("rest"), sy("saved")}}},
		li{sy("emit"), kw("late"), li{li{sy("first"), sy("saved")}}}, li{sy("emit"), kw("again"), li{li{sy("first"), sy("saved")}}}})
	return append(out, li{sy("list"), sy("a"), sy("b"), sy("c")})
}

func init() {
	part := func(name string, errs, quick, thorough int) Part {
		return Part{Name: name, Quick: quick, Thorough: thorough, Run: func(g *G) Res {
			xs := genLazy(g, errs)
			res, ref := cmpProg(xs)
			res.NonTrivial = ref.lazies >= 1 && len(ref.log) >= 2
			return res
		}}
	}
	register(&Prop{
		ID: "C16", Level: "exploration",
		Rule: "an argument expression is bound to a lazy parameter at least once and the program has at least 2 effects",
		Parts: []Part{
			part("routes", 0, 90000, 1200000),
			part("errors", 15, 40000, 500000),
			part("retry", -1, 30000, 400000),
		},
	})
}
