package main

// A generator of core-language programs. Programs are mostly well typed, so
// that they run deep; mistakes are put in on purpose at chosen places.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

type gty int

const (
	tInt gty = iota
	tBool
	tStr
	tFlt
	tArr  // of ints
	tList // of ints, nil when empty
	tHash // symbol -> int
	tF0   // -> int
	tF1   // int -> int
	tF2   // int int -> int
	tFV   // int & ints -> int
	tM0   // -> F0 (maker of closures)
	tM1   // int -> F1
	tL1   // [#x] -> int (lazy)
	tL2   // [a #x] -> int
	tRec  // recursive: small int -> int
	nTy
)

type gvar struct {
	name  string
	t     gty
	fixed bool // not to be set (loop counters, recursion arguments)
}

type gscope struct {
	vars []gvar
	fn   bool
}

type pcfg struct {
	errs    int // 0..100: chance of a mistake per expression, in 1/1000
	lazy    bool
	loops   int // weights
	funcs   int
	closure int
	tail    int
	effects int
	macros  bool
	comment bool
	maxd    int
	names   []string // names to bind (pNames when nil)
	wild    int      // chance in 1/1000 of any name at all instead of one in reach
	simple  bool     // mostly ints and functions
	eval    int      // weight of eval of quoted code, and of func
	try     int      // weight of calls of try
	nest    int      // chance in 1/100 that a top-level form is a scope with locals
}

type pgen struct {
	g      *G
	c      pcfg
	sc     []gscope
	loops  []string // labels of the loops open in the current function
	budget int
	emits  int
	noBrk  int
	lazyX  []string // lazy parameters in reach
	inFn   int
	macs   []string
	uniq   int
	mac    func(t gty, d int) X // calls of macros, for C15
}

var pNames = []string{"a", "b", "c", "d", "p", "q", "x", "y", "z", "n"}

func (p *pgen) pool() []string {
	if p.c.names != nil {
		return p.c.names
	}
	return pNames
}

func (p *pgen) poolFn() []string {
	if p.c.names != nil {
		return p.c.names
	}
	return pFnNames
}

var pFnNames = []string{"f", "g", "h", "k", "a", "b"}

func (p *pgen) push(fn bool) { p.sc = append(p.sc, gscope{fn: fn}) }
func (p *pgen) pop()         { p.sc = p.sc[:len(p.sc)-1] }

// resolve gives the visible variables: the innermost of each name.
func (p *pgen) visible(t gty) []gvar {
	seen := map[string]bool{}
	var out []gvar
	for i := len(p.sc) - 1; i >= 0; i-- {
		v := p.sc[i].vars
		for j := len(v) - 1; j >= 0; j-- {
			if seen[v[j].name] {
				continue
			}
			seen[v[j].name] = true
			if v[j].t == t {
				out = append(out, v[j])
			}
		}
	}
	return out
}

func (p *pgen) bind(v gvar) {
	s := &p.sc[len(p.sc)-1]
	for i := range s.vars {
		if s.vars[i].name == v.name {
			s.vars[i] = v
			return
		}
	}
	s.vars = append(s.vars, v)
}

// here says whether a name is bound in the innermost scope.
func (p *pgen) here(n string) (gvar, bool) {
	for _, v := range p.sc[len(p.sc)-1].vars {
		if v.name == n {
			return v, true
		}
	}
	return gvar{}, false
}

func isFnTy(t gty) bool { return t >= tF0 }

// name picks a name that may be bound here with type t.
func (p *pgen) name(t gty) string {
	for i := 0; i < 8; i++ {
		n := pickS(p.g, p.pool()...)
		if isFnTy(t) && p.g.Chance(2, 3) {
			n = pickS(p.g, p.poolFn()...)
		}
		v, ok := p.here(n)
		if !ok || v.t == t && !v.fixed && t != tArr {
			return n
		}
	}
	p.uniq++
	return fmt.Sprintf("v%d", p.uniq)
}

func (p *pgen) fresh() string {
	p.uniq++
	return fmt.Sprintf("w%d", p.uniq)
}

func (p *pgen) small() X { return []X{0, 1, 2, 3, -1, 5, 7, 10}[p.g.Intn(8)] }

func (p *pgen) lit(t gty) X {
	g := p.g
	switch t {
	case tInt:
		if g.Chance(1, 20) {
			return []X{int64(math.MaxInt64), int64(math.MinInt64) + 1, 1 << 53, 1000003}[g.Intn(4)]
		}
		return p.small()
	case tBool:
		return g.Chance(1, 2)
	case tStr:
		return []X{"", "s", "ab", "z z"}[g.Intn(4)]
	case tFlt:
		return []X{1.5, 0.25, -2.0, 10.5}[g.Intn(4)]
	}
	return nil
}

// expr makes an expression of type t.
func (p *pgen) expr(t gty, d int) X {
	g := p.g
	p.budget--
	if p.c.errs > 0 && g.Chance(p.c.errs, 1000) {
		return p.mistake(d)
	}
	if d <= 0 || p.budget <= 0 {
		return p.leaf(t)
	}
	if p.mac != nil && g.Chance(1, 6) {
		if x := p.mac(t, d); x != nil {
			return x
		}
	}
	// leaf, specific, cond, begin/let/.., and/or, emit, call, set, immediate fn
	c := p.c
	switch g.Weighted(6, 10, 3, 4, 2, c.effects, c.funcs, 2, 1, c.eval, c.try) {
	case 10:
		return p.tryE(t, d)
	case 0:
		return p.leaf(t)
	case 1:
		if t == tArr && g.Chance(1, 3) {
			return ar{p.expr(tInt, d-1), p.expr(tInt, d-1)}
		}
		return p.special(t, d)
	case 2:
		x := li{sy("cond")}
		for k := g.Range(1, 2); k > 0; k-- {
			x = append(x, p.test(d-1), p.expr(t, d-1))
		}
		return append(x, p.expr(t, d-1))
	case 3:
		return p.block(t, d, true)
	case 4:
		op := []X{sy("and"), sy("or")}[g.Intn(2)]
		if t == tInt || t == tBool {
			x := li{op}
			for k := g.Range(1, 3); k > 0; k-- {
				x = append(x, p.expr(t, d-1))
			}
			return x
		}
		if op == sy("or") {
			return li{op, p.test(d - 1), p.expr(t, d-1)}
		}
		return li{op, p.small0(g), p.expr(t, d-1)}
	case 5:
		return p.emitE(t, d-1)
	case 6:
		if x := p.call(t, d); x != nil {
			return x
		}
		return p.special(t, d)
	case 7:
		vs := p.visible(t)
		var w []gvar
		for _, v := range vs {
			if !v.fixed && t != tArr {
				w = append(w, v)
			}
		}
		if len(w) == 0 || t == tRec {
			return p.leaf(t)
		}
		return li{sy("set"), sy(w[g.Intn(len(w))].name), p.expr(t, d-1)}
	case 8:
		// ((fn [x y] body) args)
		p.noBrk++
		defer func() { p.noBrk-- }()
		n := g.Intn(3)
		f, args := p.lambda(n, t, d-1), li{}
		args = append(args, f)
		for i := 0; i < n; i++ {
			args = append(args, p.expr(tInt, d-2))
		}
		return args
	case 9:
		if t == tFlt { // quoting keeps no difference between 2.0 and 2
			return p.leaf(t)
		}
		l := p.loops
		p.noBrk++
		p.loops = nil
		x := p.expr(t, d-1)
		p.loops = l
		p.noBrk--
		switch x.(type) {
		case li, sy, ar:
			return li{sy("eval"), li{sy("quote"), x}}
		}
		return li{sy("eval"), x}
	}
	return nil
}

// test is an expression used for its truth: mostly a boolean, sometimes any
// other value, since 0, nil and false alone are false.
func (p *pgen) test(d int) X {
	g := p.g
	if !g.Chance(1, 8) {
		return p.expr(tBool, d)
	}
	x := []X{0, u64(0), u64(3), ch('a'), "", "s", nil, ar{}, ar{0}, 0.0, 0.5, li{sy("list")}, li{sy("list"), 0}, li{sy("hash")}, -1}[g.Intn(15)]
	if g.Chance(1, 3) {
		return p.emit(x)
	}
	if g.Chance(1, 4) {
		return li{sy(pickS(g, "and", "or")), x, p.expr(tBool, d-1)}
	}
	return x
}

func (p *pgen) small0(g *G) X {
	return []X{1, true, "s"}[g.Intn(3)]
}

func (p *pgen) emit(x X) X {
	p.emits++
	if p.g.Chance(1, 2) {
		return li{sy("emit"), x}
	}
	return li{sy("emit"), kw("m" + strconv.Itoa(p.emits)), x}
}

// emitE is (emit e) with e of type t.
func (p *pgen) emitE(t gty, d int) X {
	p.noBrk++ // break in an argument of a call is not in the loop
	defer func() { p.noBrk-- }()
	return p.emit(p.expr(t, d))
}

func (p *pgen) leaf(t gty) X {
	g := p.g
	if p.c.wild > 0 && g.Chance(p.c.wild, 1000) {
		n := sy(pickS(g, p.pool()...))
		if isFnTy(t) || g.Chance(1, 2) {
			return n
		}
		return li{n}
	}
	if vs := p.visible(t); len(vs) > 0 && g.Chance(4, 5) {
		return sy(vs[g.Intn(len(vs))].name)
	}
	switch t {
	case tInt, tBool, tStr, tFlt:
		return p.lit(t)
	case tArr:
		x := ar{p.small()}
		for k := g.Intn(3); k > 0; k-- {
			x = append(x, p.small())
		}
		return x
	case tList:
		if g.Chance(1, 5) {
			return li{sy("list")}
		}
		x := li{sy("list"), p.small()}
		for k := g.Intn(3); k > 0; k-- {
			x = append(x, p.small())
		}
		if g.Chance(1, 3) {
			return li{sy("quote"), x[1:]}
		}
		return x
	case tHash:
		return li{sy("hash"), kw("a"), p.small()}
	case tF0:
		return p.lambda(0, tInt, 1)
	case tF1:
		if g.Chance(1, 12) {
			return sy("emit")
		}
		return p.lambda(1, tInt, 1)
	case tF2:
		if g.Chance(1, 4) {
			return sy(pickS(g, "+", "-", "*"))
		}
		return p.lambda(2, tInt, 1)
	case tFV:
		return p.fnx(tFV, 1)
	case tM0, tM1, tL1, tL2:
		return p.fnx(t, 1)
	case tRec:
		return p.fnx(tF1, 1)
	}
	return nil
}

// special makes an expression particular to its type.
func (p *pgen) special(t gty, d int) X {
	g := p.g
	p.noBrk++
	defer func() { p.noBrk-- }()
	e := func(t gty) X { return p.expr(t, d-1) }
	if g.Chance(1, 5) {
		if x := p.more(t, d); x != nil {
			return x
		}
	}
	switch t {
	case tInt:
		switch g.Weighted(8, 2, 2, 2, 2, 2, 1, 1, 1, 1) {
		case 0:
			x := li{sy(pickS(g, "+", "-", "*", "+"))}
			for k := g.Range(2, 3); k > 0; k-- {
				x = append(x, e(tInt))
			}
			return x
		case 1:
			return li{sy("mod"), e(tInt), []X{3, 2, 5, 7}[g.Intn(4)]}
		case 2:
			return li{sy("len"), e([]gty{tStr, tArr, tList, tHash}[g.Intn(4)])}
		case 3:
			return li{sy("aget"), e(tArr), p.index(d), e(tInt)}
		case 4:
			return li{sy("hget"), e(tHash), kw(pickS(g, "a", "b", "c")), e(tInt)}
		case 5:
			if g.Chance(1, 2) {
				return li{sy("first"), li{sy("cons"), e(tInt), e(tList)}}
			}
			return li{sy("aget"), e(tArr), 0}
		case 6:
			if g.Chance(1, 3) {
				return li{sy("apply"), e(tFV), ar{e(tInt), e(tInt)}}
			}
			if g.Chance(1, 2) {
				return li{sy("apply"), e(tF2), ar{e(tInt), e(tInt)}}
			}
			return li{sy("apply"), e(tF1), li{sy("list"), e(tInt)}}
		case 7:
			if len(p.lazyX) > 0 {
				return li{sy("force"), sy(p.lazyX[g.Intn(len(p.lazyX))])}
			}
			return li{sy("+"), e(tInt), e(tInt)}
		case 8:
			if x := p.block(tInt, d, true); x != nil {
				return x
			}
			return p.leaf(t)
		case 9:
			return li{sy("cond"), li{sy(pickS(g, "int?", "string?", "array?", "null?")), e([]gty{tInt, tStr, tArr, tList}[g.Intn(4)])}, e(tInt), e(tInt)}
		}
	case tBool:
		switch g.Intn(4) {
		case 0:
			return li{sy(pickS(g, "<", ">", "<=", ">=", "==", "!=")), e(tInt), e(tInt)}
		case 1:
			if g.Chance(1, 3) {
				return li{sy("not"), p.test(d - 1)}
			}
			return li{sy("not"), e([]gty{tBool, tInt, tList}[g.Intn(3)])}
		case 2:
			return li{sy(pickS(g, "==", "<")), e(tStr), e(tStr)}
		default:
			return li{sy(pickS(g, "and", "or")), e(tBool), e(tBool)}
		}
	case tStr:
		switch g.Intn(3) {
		case 0:
			return li{sy("concat"), e(tStr), e(tStr)}
		case 1:
			return li{sy("append"), e(tStr), e(tStr)}
		default:
			return li{sy("str"), e(tInt)}
		}
	case tFlt:
		return li{sy(pickS(g, "+", "-", "*")), e([]gty{tFlt, tInt}[g.Intn(2)]), e(tFlt)}
	case tArr:
		switch g.Intn(5) {
		case 0:
			x := ar{e(tInt)}
			for k := g.Intn(3); k > 0; k-- {
				x = append(x, e(tInt))
			}
			return x
		case 1:
			return li{sy("map"), e(tF1), e(tArr)}
		case 2:
			if g.Chance(1, 4) {
				return li{sy("append"), e(tArr), e(tInt)}
			}
			return li{sy("array"), e(tInt), e(tInt)}
		case 3:
			return li{sy("map"), p.emitFn(d), ar{e(tInt), e(tInt), e(tInt)}}
		default:
			return li{sy("array"), e(tInt), e(tInt), e(tInt)}
		}
	case tList:
		switch g.Intn(5) {
		case 0:
			return li{sy("cons"), e(tInt), e(tList)}
		case 1:
			return li{sy("map"), e(tF1), li{sy("list"), e(tInt), e(tInt)}}
		case 2:
			return li{sy("rest"), li{sy("cons"), e(tInt), e(tList)}}
		case 3:
			return li{sy("concat"), li{sy("list"), e(tInt)}, e(tList)}
		default:
			return li{sy("list"), e(tInt), e(tInt)}
		}
	case tHash:
		x := li{sy("hash")}
		for k := g.Intn(3); k >= 0; k-- {
			x = append(x, kw(pickS(g, "a", "b", "c", "d")), e(tInt))
		}
		return x
	}
	if isFnTy(t) && t != tRec {
		if g.Chance(1, 4) {
			switch t {
			case tF0:
				if vs := p.visible(tM0); len(vs) > 0 {
					return li{sy(vs[g.Intn(len(vs))].name)}
				}
			case tF1:
				if vs := p.visible(tM1); len(vs) > 0 {
					return li{sy(vs[g.Intn(len(vs))].name), e(tInt)}
				}
			}
		}
		return p.fnx(t, d-1)
	}
	return p.leaf(t)
}

func (p *pgen) emitFn(d int) X {
	n := p.name(tInt)
	p.push(true)
	p.bind(gvar{name: n, t: tInt})
	defer p.pop()
	return li{sy("fn"), ar{sy(n)}, li{sy("emit"), kw("mp"), sy(n)}, p.inner(tInt, d-2)}
}

func (p *pgen) index(d int) X {
	if p.g.Chance(1, 2) {
		return []X{0, 1, 2, -1, 9}[p.g.Intn(5)]
	}
	return p.expr(tInt, d-2)
}

// inner is an expression in a new function: loops outside are out of reach.
func (p *pgen) inner(t gty, d int) X {
	l, n := p.loops, p.noBrk
	p.loops, p.noBrk = nil, 0
	p.inFn++
	x := p.expr(t, d)
	p.inFn--
	p.loops, p.noBrk = l, n
	return x
}

func (p *pgen) innerBody(t gty, d int) []X {
	l, n := p.loops, p.noBrk
	p.loops, p.noBrk = nil, 0
	p.inFn++
	b := p.body(t, d)
	p.inFn--
	p.loops, p.noBrk = l, n
	return b
}

// lambda makes (fn [n ints] ... t).
func (p *pgen) lambda(n int, t gty, d int) X {
	p.push(true)
	defer p.pop()
	ps := ar{}
	for i := 0; i < n; i++ {
		v := p.param(ps)
		ps = append(ps, sy(v))
		p.bind(gvar{name: v, t: tInt})
	}
	return append(li{sy("fn"), ps}, p.innerBody(t, d)...)
}

// param is a name not among the parameters so far.
func (p *pgen) param(ps ar) string {
	for i := 0; i < 6; i++ {
		n := pickS(p.g, p.pool()...)
		dup := false
		for _, q := range ps {
			if q == X(sy(n)) {
				dup = true
			}
		}
		if !dup {
			return n
		}
	}
	return p.fresh()
}

// fnx is a function expression of function type t.
func (p *pgen) fnx(t gty, d int) X {
	ps, body := p.fnParts(t, d, "")
	return append(li{sy("fn"), ps}, body...)
}

// fnParts makes parameters and body of a function of type t; self is its
// name when it may call itself.
func (p *pgen) fnParts(t gty, d int, self string) (ar, []X) {
	g := p.g
	oldLazy := p.lazyX
	p.push(true)
	defer func() { p.pop(); p.lazyX = oldLazy }()
	ps := ar{}
	add := func(t gty) string {
		v := p.param(ps)
		ps = append(ps, sy(v))
		p.bind(gvar{name: v, t: t})
		return v
	}
	switch t {
	case tF0:
		return ps, p.innerBody(tInt, d)
	case tF1:
		add(tInt)
		return ps, p.innerBody(tInt, d)
	case tF2:
		add(tInt)
		add(tInt)
		return ps, p.innerBody(tInt, d)
	case tFV:
		add(tInt)
		ps = append(ps, sy("&"))
		r := add(tList)
		if g.Chance(1, 2) {
			look := p.emit(sy(r))
			return ps, append([]X{look}, p.innerBody(tInt, d)...)
		}
		return ps, p.innerBody(tInt, d)
	case tM0:
		return ps, p.innerBody(tF0, d)
	case tM1:
		add(tInt)
		return ps, p.innerBody(tF1, d)
	case tL1, tL2:
		if t == tL2 {
			add(tInt)
		}
		lz := "#" + pickS(g, "x", "y", "e")
		ps = append(ps, sy(lz))
		p.lazyX = append(append([]string{}, p.lazyX...), lz)
		return ps, p.innerBody(tInt, d)
	case tRec:
		n := p.param(ps)
		ps = append(ps, sy(n))
		p.bind(gvar{name: n, t: tInt, fixed: true})
		l, nb := p.loops, p.noBrk
		p.loops, p.noBrk = nil, 0
		p.inFn++
		body := p.recBody(self, n, d)
		p.inFn--
		p.loops, p.noBrk = l, nb
		return ps, body
	}
	panic("harness: fnParts")
}

// recBody is the body of a function named self that calls itself with a
// smaller first argument, in tail position or elsewhere.
func (p *pgen) recBody(self, n string, d int) []X {
	g := p.g
	again := func() X {
		c := li{sy(self), li{sy("-"), sy(n), 1}}
		if g.Chance(1, 4) {
			c[1] = p.emit(c[1])
		}
		return c
	}
	var wrap func(x X, k int) X
	wrap = func(x X, k int) X { // a tail context around x
		if k <= 0 {
			return x
		}
		x = wrap(x, k-1)
		// what is generated here must not shadow self or n where x is
		safe := func(t gty) (string, X) {
			v := p.fresh()
			return v, p.expr(t, d-1)
		}
		switch g.Intn(8) {
		case 0:
			return li{sy("begin"), p.stmtNoDef(d - 1), x}
		case 1:
			v, e := safe(tInt)
			return li{sy("let"), ar{sy(v), e}, x}
		case 2:
			v, e := safe(tInt)
			w, f := safe(tF0)
			return li{sy("letseq"), ar{sy(v), e, sy(w), f}, x}
		case 3:
			return li{sy("newScope"), p.stmtNoDef(d - 1), x}
		case 4:
			return li{sy("cond"), p.test(d - 2), x, p.expr(tInt, d-2)}
		case 5:
			return li{sy("cond"), p.test(d - 2), p.expr(tInt, d-2), x}
		case 6:
			return li{sy("and"), p.expr(tInt, d-2), x}
		default:
			return li{sy("or"), p.test(d - 2), x}
		}
	}
	var x X = again()
	if g.Chance(1, 3) { // not a tail call
		x = li{sy("+"), p.expr(tInt, d-2), x}
		if g.Chance(1, 3) {
			x = li{sy("+"), again(), again()}
		}
	}
	x = wrap(x, g.Intn(4))
	var body []X
	for k := g.Intn(3); k > 0; k-- {
		body = append(body, p.stmtNoDef(d-1))
	}
	guard := []X{li{sy("<="), sy(n), 0}, li{sy("<"), sy(n), 1}, li{sy("not"), li{sy(">"), sy(n), 0}}}[g.Intn(3)]
	return append(body, li{sy("cond"), guard, p.expr(tInt, d-1), x})
}

// stmtNoDef is a statement that leaves the names in reach as they are.
func (p *pgen) stmtNoDef(d int) X {
	g := p.g
	switch g.Intn(4) {
	case 0:
		return p.emitE(tInt, d-1)
	case 1: // remember a closure made here
		if vs := p.visible(tF0); len(vs) > 0 {
			v := vs[g.Intn(len(vs))]
			if !v.fixed {
				return li{sy("set"), sy(v.name), p.fnx(tF0, 1)}
			}
		}
	case 2:
		if vs := p.visible(tInt); len(vs) > 0 {
			v := vs[g.Intn(len(vs))]
			if !v.fixed {
				return li{sy("set"), sy(v.name), p.expr(tInt, d-1)}
			}
		}
	}
	return p.emit(p.leaf(tInt))
}

// call calls a function in reach that gives t.
func (p *pgen) call(t gty, d int) X {
	g := p.g
	if t == tF0 || t == tF1 {
		m := tM0
		if t == tF1 {
			m = tM1
		}
		vs := p.visible(m)
		if len(vs) == 0 {
			return nil
		}
		x := li{sy(vs[g.Intn(len(vs))].name)}
		if t == tF1 {
			x = append(x, p.expr(tInt, d-1))
		}
		return x
	}
	if t != tInt {
		return nil
	}
	var cands []gvar
	for ft := tF0; ft <= tRec; ft++ {
		if (ft == tL1 || ft == tL2) && !p.c.lazy {
			continue
		}
		cands = append(cands, p.visible(ft)...)
	}
	if len(cands) == 0 {
		return nil
	}
	v := cands[g.Intn(len(cands))]
	e := func() X { return p.expr(tInt, d-1) }
	f := X(sy(v.name))
	p.noBrk++
	defer func() { p.noBrk-- }()
	switch v.t {
	case tF0:
		if g.Chance(1, 8) {
			return li{sy("apply"), f, li{sy("array")}}
		}
		return li{f}
	case tF1:
		if g.Chance(1, 8) {
			return li{sy("apply"), f, li{sy("list"), e()}}
		}
		return li{f, e()}
	case tF2:
		return li{f, e(), e()}
	case tFV:
		x := li{f, e()}
		for k := g.Intn(3); k > 0; k-- {
			if g.Chance(1, 5) { // the values that are easily taken for no value
				x = append(x, []X{nil, li{sy("list")}, li{sy("list"), nil}, ar{}, false, "", li{sy("quote"), li{}}}[g.Intn(7)])
				continue
			}
			x = append(x, e())
		}
		return x
	case tM0:
		return li{li{f}}
	case tM1:
		return li{li{f, e()}, e()}
	case tL1:
		return li{f, e()}
	case tL2:
		return li{f, e(), e()}
	case tRec:
		return li{f, g.Range(0, 5)}
	}
	return nil
}

// block is begin, let, letseq or newScope ending in an expression of type t.
func (p *pgen) block(t gty, d int, any bool) X {
	g := p.g
	switch g.Intn(4) {
	case 0:
		x := li{sy("begin")}
		for k := g.Range(1, 2); k > 0; k-- {
			x = append(x, p.stmt(d-1))
		}
		return append(x, p.expr(t, d-1))
	case 1:
		b := ar{}
		var vs []gvar
		used := map[string]bool{}
		for k := g.Range(1, 3); k > 0; k-- {
			v := gvar{t: p.anyTy()}
			v.name = pickS(g, p.pool()...)
			if used[v.name] {
				continue
			}
			used[v.name] = true
			if v.t == tRec {
				v.t = tInt
			}
			b = append(b, sy(v.name), p.expr(v.t, d-1))
			vs = append(vs, v)
		}
		p.push(false)
		for _, v := range vs {
			p.bind(v)
		}
		x := append(li{sy("let"), b}, p.body(t, d-1)...)
		p.pop()
		return x
	case 2:
		b := ar{}
		p.push(false)
		used := map[string]bool{}
		for k := g.Range(1, 3); k > 0; k-- {
			v := gvar{t: p.anyTy()}
			v.name = pickS(g, p.pool()...)
			if used[v.name] {
				continue
			}
			used[v.name] = true
			if v.t == tRec {
				v.t = tInt
			}
			b = append(b, sy(v.name), p.expr(v.t, d-1))
			p.bind(v)
		}
		x := append(li{sy("letseq"), b}, p.body(t, d-1)...)
		p.pop()
		return x
	default:
		p.push(false)
		x := append(li{sy("newScope")}, p.body(t, d-1)...)
		p.pop()
		return x
	}
}

func (p *pgen) anyTy() gty {
	g := p.g
	if g.Chance(p.c.closure, p.c.closure+6) {
		return []gty{tF0, tF1, tF0, tM0, tM1, tF2, tFV, tF1}[g.Intn(8)]
	}
	if p.c.simple && g.Chance(3, 4) {
		return tInt
	}
	return []gty{tInt, tInt, tInt, tStr, tBool, tFlt, tArr, tList, tHash}[g.Intn(9)]
}

// body is statements and a final expression of type t, in the scope on top.
func (p *pgen) body(t gty, d int) []X {
	var b []X
	for k := p.g.Weighted(5, 4, 2, 1); k > 0; k-- {
		b = append(b, p.stmt(d-1))
		if p.c.comment && p.g.Chance(1, 6) {
			b = append(b, cm("note"))
		}
	}
	return append(b, p.expr(t, d-1))
}

func (p *pgen) stmt(d int) X {
	g := p.g
	p.budget--
	if d < 0 || p.budget <= 0 {
		return p.emit(p.leaf(tInt))
	}
	c := p.c
	switch g.Weighted(6, 6, 4, c.funcs, c.loops, 3, 2, 2, 2, c.closure, 1) {
	case 0:
		return p.emitE([]gty{tInt, tInt, tStr, tArr, tList, tHash, tBool, tFlt}[g.Intn(8)], d-1)
	case 1: // def
		t := p.anyTy()
		e := p.expr(t, d-1)
		n := p.name(t)
		p.bind(gvar{name: n, t: t})
		op := "def"
		if g.Chance(1, 6) {
			if _, ok := p.here(n); !ok {
				op = "set" // unbound or outer
			}
		}
		return li{sy(op), sy(n), e}
	case 2: // set
		t := p.anyTy()
		vs := p.visible(t)
		for _, v := range vs {
			if !v.fixed && t != tArr && g.Chance(1, 2) {
				return li{sy("set"), sy(v.name), p.expr(t, d-1)}
			}
		}
		return p.emitE(tInt, d-1)
	case 3: // defn
		return p.defn(d)
	case 4:
		return p.forLoop(d)
	case 5:
		x := li{sy("cond"), p.test(d - 1), p.stmtIn(d - 1), p.stmtIn(d - 1)}
		return x
	case 6: // change data in place
		p.noBrk++
		defer func() { p.noBrk-- }()
		if vs := p.visible(tHash); len(vs) > 0 {
			v := sy(vs[g.Intn(len(vs))].name)
			if g.Chance(1, 4) {
				return li{sy("hdel"), v, kw(pickS(g, "a", "b", "c"))}
			}
			return li{sy("hset"), v, kw(pickS(g, "a", "b", "c")), p.expr(tInt, d-1)}
		}
		if vs := p.visible(tArr); len(vs) > 0 {
			return li{sy("aset"), sy(vs[g.Intn(len(vs))].name), 0, p.expr(tInt, d-1)}
		}
		return p.emitE(tInt, d-1)
	case 7: // leave or go on
		if len(p.loops) > 0 && p.noBrk == 0 {
			return li{sy("cond"), p.test(d - 1), p.brk(), nil}
		}
		return p.emitE(tBool, d-1)
	case 8:
		return p.block(tInt, d, true)
	case 9: // keep a closure in data, or a recursive function
		if g.Chance(1, 2) {
			return p.recDef(d)
		}
		return p.closureData(d)
	case 10:
		if p.c.errs > 0 {
			return li{sy("assert"), p.expr(tBool, d-1)}
		}
		vs := []X{}
		for i := 0; i < 2; i++ {
			n := p.name(tInt)
			p.bind(gvar{name: n, t: tInt})
			vs = append(vs, sy(n))
		}
		return li{sy("mdef"), vs[0], vs[1], li{sy("list"), p.leaf2(), p.leaf2()}}
	}
	return nil
}

func (p *pgen) leaf2() X { return p.small() }

// stmtIn is a statement in a branch; what it defines may not exist after it.
func (p *pgen) stmtIn(d int) X {
	g := p.g
	if len(p.loops) > 0 && p.noBrk == 0 && g.Chance(1, 3) {
		return p.brk()
	}
	switch g.Intn(3) {
	case 0:
		return p.stmtNoDef(d)
	case 1:
		return p.block(tInt, d, true)
	}
	return p.expr(tInt, d)
}

// chain is a nest of scopes with a way out of the loop in the middle.
func (p *pgen) chain(n int, count string) X {
	g := p.g
	if n <= 0 {
		return li{sy("cond"), li{sy(pickS(g, "==", "==", ">")), sy(count), g.Intn(3)}, p.brk(), p.emit(sy(count))}
	}
	switch g.Intn(6) {
	case 0, 1:
		b := ar{}
		m := pickS(g, p.pool()...)
		if m == count {
			return p.chain(n-1, count)
		}
		b = append(b, sy(m), p.small())
		p.push(false)
		p.bind(gvar{name: m, t: tInt})
		x := li{sy(pickS(g, "let", "letseq")), b, p.chain(n-1, count)}
		if g.Chance(1, 3) {
			x = append(x, p.emit(sy(m)))
		}
		p.pop()
		return x
	case 2, 3:
		p.push(false)
		x := li{sy("newScope")}
		if m := pickS(g, p.pool()...); m != count && g.Chance(1, 2) {
			x = append(x, li{sy("def"), sy(m), p.small()})
			p.bind(gvar{name: m, t: tInt})
		}
		x = append(x, p.chain(n-1, count))
		p.pop()
		return x
	case 4:
		return li{sy("begin"), p.emit(sy(count)), p.chain(n-1, count)}
	default:
		return li{sy("cond"), false, 1, p.chain(n-1, count)}
	}
}

func (p *pgen) brk() X {
	g := p.g
	x := li{sy(pickS(g, "break", "continue"))}
	if g.Chance(1, 2) {
		var ls []string
		for _, l := range p.loops {
			if l != "" {
				ls = append(ls, l)
			}
		}
		if len(ls) > 0 {
			x = append(x, kw(ls[g.Intn(len(ls))]))
		}
	}
	return x
}

func (p *pgen) defn(d int) X {
	g := p.g
	if p.c.tail > 0 && g.Chance(p.c.tail, p.c.tail+8) {
		return p.recDef(d)
	}
	ts := []gty{tF0, tF1, tF1, tF2, tFV, tM0, tM1}
	if p.c.lazy {
		ts = append(ts, tL1, tL2, tL1, tL2)
	}
	t := ts[g.Intn(len(ts))]
	ps, body := p.fnParts(t, d-1, "")
	n := p.name(t)
	p.bind(gvar{name: n, t: t})
	if (t == tF0 || t == tF1 || t == tF2) && g.Chance(c10(p.c.eval), 10) {
		ts := ar{}
		for _, q := range ps {
			ts = append(ts, sy(string(q.(sy))+":int64"))
		}
		return append(li{sy("func"), sy(n), ts, ar{sy("r:int64")}}, body...)
	}
	return append(li{sy("defn"), sy(n), ps}, body...)
}

func c10(n int) int {
	if n > 4 {
		return 4
	}
	return n
}

func (p *pgen) recDef(d int) X {
	n := p.fresh()
	if p.g.Chance(1, 3) {
		n = p.name(tRec)
	}
	ps, body := p.fnParts(tRec, d-1, n)
	p.bind(gvar{name: n, t: tRec, fixed: true})
	return append(li{sy("defn"), sy(n), ps}, body...)
}

// closureData stores closures in an array or hash and calls them.
func (p *pgen) closureData(d int) X {
	g := p.g
	p.noBrk++
	defer func() { p.noBrk-- }()
	n := p.fresh()
	if g.Chance(1, 2) {
		a := ar{}
		for k := g.Range(1, 3); k > 0; k-- {
			a = append(a, p.fnx(tF0, d-1))
		}
		return li{sy("let"), ar{sy(n), a}, p.emit(li{li{sy("aget"), sy(n), g.Intn(len(a))}}),
			li{sy("map"), li{sy("fn"), ar{sy("w")}, li{sy("emit"), kw("cd"), li{sy("w")}}}, sy(n)}}
	}
	return li{sy("let"), ar{sy(n), li{sy("hash"), kw("m"), p.fnx(tF1, d-1), kw("n"), p.fnx(tF0, d-1)}},
		p.emit(li{li{sy("hget"), sy(n), kw("m")}, p.expr(tInt, d-2)}),
		p.emit(li{li{sy("hget"), sy(n), kw("n")}})}
}

func (p *pgen) forLoop(d int) X {
	g := p.g
	v := pickS(g, p.pool()...)
	label := ""
	x := li{sy("for")}
	if g.Chance(1, 3) {
		label = pickS(g, "outer", "inner", "lp")
		x = append(x, kw(label))
	}
	p.push(false)
	defer p.pop()
	lim := g.Range(0, 4)
	p.noBrk++
	init := X(li{sy("def"), sy(v), 0})
	if g.Chance(1, 6) {
		init = li{sy("def"), sy(v), p.emit(0)}
	}
	p.bind(gvar{name: v, t: tInt, fixed: true})
	test := X(li{sy("<"), sy(v), lim})
	if g.Chance(1, 6) {
		test = li{sy("and"), p.expr(tInt, 1), test}
	}
	step := X(li{sy("set"), sy(v), li{sy("+"), sy(v), 1}})
	if g.Chance(1, 6) {
		step = li{sy("begin"), p.emit(sy(v)), step}
	}
	p.noBrk--
	x = append(x, ar{init, test, step})
	old, oldLoops := p.noBrk, p.loops
	if old > 0 { // inside an argument of a call: the loops around are out of reach
		p.loops = nil
	}
	p.loops = append(append([]string{}, p.loops...), label)
	p.noBrk = 0
	for k := g.Range(1, 3); k > 0; k-- {
		if g.Chance(1, 3) {
			x = append(x, li{sy("cond"), p.test(d - 1), p.brk(), p.stmtNoDef(d - 1)})
			continue
		}
		if g.Chance(1, 8) {
			x = append(x, p.chain(g.Range(2, 8), v))
			continue
		}
		x = append(x, p.stmt(d-1))
	}
	p.noBrk, p.loops = old, oldLoops
	return x
}

// mistake is an expression that fails when it is evaluated.
func (p *pgen) mistake(d int) X {
	g := p.g
	p.emits++
	switch g.Intn(12) {
	case 0:
		return sy("unboundvar")
	case 1, 2, 3:
		return li{sy("fail"), p.emits}
	case 4:
		return li{sy("fn0unknown"), p.leaf(tInt)}
	case 5:
		return li{sy("/"), p.leaf(tInt), 0}
	case 6:
		return li{sy("aget"), ar{1}, 5}
	case 7:
		return li{sy("+"), p.leaf(tInt), "s"}
	case 8:
		return li{sy("hget"), li{sy("hash"), kw("a"), 1}, kw("zz")}
	case 9:
		return li{li{sy("fn"), ar{sy("x")}, sy("x")}, p.leaf(tInt), 2}
	case 10:
		return li{3, p.leaf(tInt)}
	default:
		return li{sy("assert"), false}
	}
}

// program makes a list of top-level forms.
func (p *pgen) program(n int) []X {
	p.sc = []gscope{{}}
	p.c.maxd = maxInt(p.c.maxd, 3)
	var out []X
	for i := 0; i < n; i++ {
		if p.c.nest > 0 && p.g.Chance(p.c.nest, 100) {
			out = append(out, p.nested(p.c.maxd))
			continue
		}
		if p.g.Chance(1, 4) {
			out = append(out, p.expr(p.anyTyVal(), p.c.maxd))
			continue
		}
		out = append(out, p.stmt(p.c.maxd))
	}
	// look at what the program left in its variables
	fin := li{sy("list")}
	for _, v := range p.sc[0].vars {
		switch v.t {
		case tInt, tStr, tBool, tFlt, tArr, tList, tHash:
			fin = append(fin, sy(v.name))
		case tF0:
			fin = append(fin, li{sy(v.name)})
		case tF1, tRec, tFV:
			fin = append(fin, li{sy(v.name), 2})
		case tM0:
			fin = append(fin, li{li{sy(v.name)}})
		}
	}
	return append(out, fin)
}

// nested is a let or function around several statements, so that what they
// define is local; closures made in it are called there and may escape.
func (p *pgen) nested(d int) X {
	g := p.g
	esc := ""
	t := []gty{tF0, tF1}[g.Intn(2)]
	if g.Chance(1, 2) {
		esc = p.name(t)
	}
	body := func() []X {
		var b []X
		for k := g.Range(2, 5); k > 0; k-- {
			switch g.Intn(4) {
			case 0:
				n := pickS(g, p.pool()...)
				v, ok := p.here(n)
				if ok && v.t != tInt {
					continue
				}
				e := p.expr(tInt, d-2)
				p.bind(gvar{name: n, t: tInt})
				b = append(b, li{sy("def"), sy(n), e})
			case 1:
				t := []gty{tF0, tF1, tM0, tM1}[g.Intn(4)]
				e := p.fnx(t, d-2)
				n := p.name(t)
				p.bind(gvar{name: n, t: t})
				b = append(b, li{sy("def"), sy(n), e})
			case 2:
				b = append(b, p.defn(d-1))
			default:
				b = append(b, p.stmt(d-1))
			}
		}
		for k := g.Range(1, 3); k > 0; k-- {
			if x := p.call(tInt, d-1); x != nil {
				b = append(b, p.emit(x))
			}
		}
		if esc != "" {
			return append(b, p.expr(t, d-1))
		}
		return append(b, p.expr(tInt, d-1))
	}
	wrap := func(x X) X {
		if esc == "" {
			return x
		}
		p.bind(gvar{name: esc, t: t})
		return li{sy("def"), sy(esc), x}
	}
	switch g.Intn(4) {
	case 0:
		x := li{sy("let"), ar{}}
		p.push(false)
		b := ar{}
		for _, n := range p.pool()[:2] {
			p.bind(gvar{name: n, t: tInt})
			b = append(b, sy(n), p.small())
		}
		x[1] = b
		x = append(x, body()...)
		p.pop()
		return wrap(x)
	case 1:
		p.push(true)
		ps, as := ar{}, li{}
		for _, n := range p.pool()[:2] {
			p.bind(gvar{name: n, t: tInt})
			ps = append(ps, sy(n))
			as = append(as, p.small())
		}
		l, nb := p.loops, p.noBrk
		p.loops, p.noBrk = nil, 0
		p.inFn++
		f := append(li{sy("fn"), ps}, body()...)
		p.inFn--
		p.loops, p.noBrk = l, nb
		p.pop()
		return wrap(append(li{f}, as...))
	case 2: // a maker, used twice: its activations are apart
		mk := p.fresh()
		p.push(true)
		n := pickS(g, p.pool()...)
		p.bind(gvar{name: n, t: tInt})
		old := esc
		esc = "-"
		l, nb := p.loops, p.noBrk
		p.loops, p.noBrk = nil, 0
		p.inFn++
		f := append(li{sy("defn"), sy(mk), ar{sy(n)}}, body()...)
		p.inFn--
		p.loops, p.noBrk = l, nb
		esc = old
		p.pop()
		u, v := p.fresh(), p.fresh()
		p.bind(gvar{name: u, t: t})
		p.bind(gvar{name: v, t: t})
		use := func(f string) X {
			if t == tF0 {
				return p.emit(li{sy(f)})
			}
			return p.emit(li{sy(f), p.small()})
		}
		return li{sy("begin"), f, li{sy("def"), sy(u), li{sy(mk), 1}}, li{sy("def"), sy(v), li{sy(mk), 2}}, use(u), use(v), use(u), use(v)}
	default:
		x := li{sy("newScope")}
		p.push(false)
		x = append(x, body()...)
		p.pop()
		return wrap(x)
	}
}

func (p *pgen) anyTyVal() gty {
	return []gty{tInt, tInt, tStr, tBool, tFlt, tArr, tList, tHash}[p.g.Intn(8)]
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// tryE calls a function, or something in its place if it fails.
func (p *pgen) tryE(t gty, d int) X {
	p.noBrk++
	defer func() { p.noBrk-- }()
	was := p.c.errs
	p.c.errs += 60
	if t != tFlt && p.g.Chance(1, 3) {
		l := p.loops
		p.loops = nil
		x := p.expr(t, d-1)
		p.loops, p.c.errs = l, was
		return li{sy("tryeval"), p.expr(t, d-2), li{sy("quote"), x}}
	}
	n := p.g.Intn(3)
	f := p.lambda(n, t, d-1)
	p.c.errs = was
	x := li{sy("try"), f, p.expr(t, d-2)}
	for ; n > 0; n-- {
		x = append(x, p.expr(tInt, d-2))
	}
	return x
}

// ---- the other side: running a program in an interpreter

type irun struct {
	env    *Zlisp
	emits  int // calls of emit
	failAt int // the call of emit that fails
	panics bool
	load   bool // by LoadString and Run instead of EvalString
	log    []string
	steps  int
	max    int
}

// idesc writes a value of the interpreter the way rdesc writes one of the
// reference evaluator.
func idesc(x Sexp) string {
	var b strings.Builder
	idescTo(&b, x, 0)
	return b.String()
}

func idescTo(b *strings.Builder, x Sexp, depth int) {
	if depth > 200 {
		b.WriteString("...")
		return
	}
	switch v := x.(type) {
	case nil:
		b.WriteString("<Go nil>")
	case *SexpSentinel:
		if v == SexpNull {
			b.WriteString("nil")
		} else {
			b.WriteString("<" + v.SexpString(nil) + ">")
		}
	case *SexpInt:
		fmt.Fprintf(b, "%d", v.Val)
	case *SexpFloat:
		fmt.Fprintf(b, "f%s", strconv.FormatFloat(v.Val, 'g', -1, 64))
	case *SexpUint64:
		fmt.Fprintf(b, "u%d", v.Val)
	case *SexpStr:
		b.WriteString(strconv.Quote(v.S))
	case *SexpBool:
		fmt.Fprint(b, v.Val)
	case *SexpSymbol:
		b.WriteString("'" + v.Name())
	case *SexpComma:
		b.WriteString("',")
	case *SexpChar:
		fmt.Fprintf(b, "c%d", v.Val)
	case *SexpPair:
		b.WriteByte('(')
		for {
			idescTo(b, v.Head, depth+1)
			n, ok := v.Tail.(*SexpPair)
			if !ok {
				if v.Tail != SexpNull {
					b.WriteString(" . ")
					idescTo(b, v.Tail, depth+1)
				}
				break
			}
			b.WriteByte(' ')
			v = n
		}
		b.WriteByte(')')
	case *SexpArray:
		b.WriteByte('[')
		for i, y := range v.Val {
			if i > 0 {
				b.WriteByte(' ')
			}
			idescTo(b, y, depth+1)
		}
		b.WriteByte(']')
	case *SexpHash:
		b.WriteString("{")
		for i, k := range v.KeyOrder {
			if i > 0 {
				b.WriteByte(' ')
			}
			idescTo(b, k, depth+1)
			b.WriteByte(':')
			e, err := v.HashGet(nil, k)
			if err != nil {
				b.WriteString("<" + err.Error() + ">")
				continue
			}
			idescTo(b, e, depth+1)
		}
		b.WriteString("}")
	case *SexpFunction:
		b.WriteString("fn")
	case *SexpLazyArg:
		b.WriteString("lazy")
	default:
		fmt.Fprintf(b, "<%T %s>", x, x.SexpString(nil))
	}
}

// errSteps stops a program that runs far longer than the reference did.
type errSteps struct{}

func (errSteps) Error() string { return "harness: step budget used up" }

func newRun(env *Zlisp) *irun {
	r := &irun{env: env, max: 1 << 60}
	r.attach(env)
	return r
}

func (r *irun) attach(env *Zlisp) {
	env.AddFunction("emit", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		r.emits++
		if r.emits == r.failAt {
			if r.panics {
				panic("failing on purpose")
			}
			return SexpNull, fmt.Errorf("fail:emit;")
		}
		var d []string
		for _, x := range args {
			d = append(d, idesc(x))
		}
		r.log = append(r.log, strings.Join(d, " "))
		if len(args) == 0 {
			return SexpNull, nil
		}
		return args[len(args)-1], nil
	})
	env.AddFunction("try", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if len(args) < 2 {
			return SexpNull, fmt.Errorf("try")
		}
		f, ok := args[0].(*SexpFunction)
		if !ok {
			return SexpNull, fmt.Errorf("try")
		}
		x, err := env.Apply(f, args[2:])
		if err != nil {
			return args[1], nil
		}
		return x, nil
	})
	env.AddFunction("tryeval", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if len(args) < 2 {
			return SexpNull, fmt.Errorf("tryeval")
		}
		x, err := EvalFunction(env, "tryeval", args[1:])
		if err != nil {
			return args[0], nil
		}
		return x, nil
	})
	env.AddFunction("tryforce", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if len(args) != 2 {
			return SexpNull, fmt.Errorf("tryforce")
		}
		l, ok := args[0].(*SexpLazyArg)
		if !ok {
			return args[0], nil
		}
		x, err := l.Force(env)
		if err != nil {
			return args[1], nil
		}
		return x, nil
	})
	env.AddFunction("fail", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		t := "fail"
		for _, x := range args {
			t += ":" + idesc(x)
		}
		return SexpNull, fmt.Errorf("%s;", t)
	})
}

// eval evaluates a text with at most max VM steps.
func (r *irun) eval(text string, max int) (Sexp, error, bool) {
	return r.limited(max, func() (Sexp, error) {
		if r.load {
			if err := r.env.LoadString(text); err != nil {
				return SexpNull, err
			}
			return r.env.Run()
		}
		return r.env.EvalString(text)
	})
}

// limited runs an evaluation with at most max VM steps.
func (r *irun) limited(max int, do func() (Sexp, error)) (Sexp, error, bool) {
	r.steps = 0
	over := false
	VerifStep = func(env *Zlisp) error {
		r.steps++
		if r.steps > max {
			over = true
			return errSteps{}
		}
		return nil
	}
	defer func() { VerifStep = nil }()
	x, err := do()
	return x, err, over
}

func renderProg(xs []X) string {
	var b strings.Builder
	for i, x := range xs {
		if i > 0 {
			b.WriteByte('\n')
		}
		renderTo(&b, x)
	}
	return b.String()
}

// rprog evaluates a program with the reference evaluator.
type rout struct {
	v     val
	s     *sig
	ref   *revl
	at    int // form at which it failed
	after [][]string
}

func refProg(r *revl, xs []X) (v val, s *sig, at int) {
	for i, x := range xs {
		if _, ok := x.(cm); ok {
			continue
		}
		v, s = r.eval(x, r.global)
		if s != nil {
			if s.kind == sBreak || s.kind == sContinue {
				s = undet("break outside")
			}
			return nil, s, i
		}
	}
	return v, nil, len(xs)
}

func diffLogs(a, b []string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("effect %d is %q, should be %q", i, clip(a[i], 200), clip(b[i], 200))
		}
	}
	if len(a) != len(b) {
		more, what := a, "more"
		if len(b) > len(a) {
			more, what = b, "fewer"
		}
		return fmt.Sprintf("%d effects, should be %d (%s: %s)", len(a), len(b), what, clip(more[n], 200))
	}
	return ""
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
