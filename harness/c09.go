package main

import (
	"fmt"
	"runtime"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// C09: tail calls. Self-recursive functions whose self calls sit at the end
// of random nests of cond, begin, let, letseq, newScope, and, or. Small
// depths are compared with the reference evaluator, which has no tail
// calls; the stacks are watched for two depths; some run very deep.

type t9 struct {
	p      *pgen
	g      *G
	self   string
	ps     []string // parameters, the counter first
	rest   string
	pure   bool // no calls of itself other than in tail position
	keep   bool // may keep closures of earlier iterations
	shadow bool // bindings may shadow the function and its parameters
	lazy   bool
	ends   int // arms that end the recursion early
	ctxs   int
	caps   int
	sides  int    // self calls in other places, left to make
	peer   string // a parameter that holds a function like this one
	other  string // a function that the name may stand for from some point on
	np     int
}

var t9names = []string{"a", "b", "c", "u", "v"}

// val is an int expression without calls of the function itself.
func (t *t9) val(d int) X { return t.p.expr(tInt, d) }

func (t *t9) again() X {
	g := t.g
	c := li{sy(t.self), li{sy("-"), sy(t.ps[0]), 1}}
	if g.Chance(1, 6) {
		c[1] = t.p.emit(c[1])
	}
	for _, p := range t.ps[1:] {
		switch g.Intn(5) {
		case 0:
			c = append(c, sy(p))
		case 1:
			c = append(c, li{sy("+"), sy(p), sy(t.ps[0])})
		case 2:
			c = append(c, li{sy("mod"), li{sy("+"), sy(p), li{sy("*"), 3, sy(t.ps[g.Intn(len(t.ps))])}}, 101})
		case 3:
			c = append(c, t.p.emit(li{sy("+"), sy(p), 1}))
		default:
			c = append(c, t.val(1))
		}
	}
	if t.rest != "" {
		for k := g.Intn(3); k > 0; k-- {
			c = append(c, t.val(1))
		}
	}
	if t.peer != "" {
		if g.Chance(1, 3) {
			c[0] = sy(t.peer)
		}
		a := sy(t.peer)
		if g.Chance(1, 3) {
			a = sy(t.self)
		}
		c = append(c[:1+len(t.ps):1+len(t.ps)], append([]X{a}, c[1+len(t.ps):]...)...)
	}
	if !t.pure && g.Chance(1, 25) { // not the number of arguments it takes
		if len(c) > 2 && g.Chance(1, 2) {
			return c[:len(c)-1]
		}
		return append(c, 1)
	}
	return c
}

// side gives, sometimes, a self call for a place where what follows the call
// in the function remains to be done.
func (t *t9) side() X {
	if t.pure || t.sides <= 0 || !t.g.Chance(1, 4) {
		return nil
	}
	t.sides--
	c := li{sy(t.self), li{sy("-"), sy(t.ps[0]), t.g.Range(2, 4)}}
	for _, p := range t.ps[1:] {
		c = append(c, sy(p))
	}
	if t.peer != "" {
		c = append(c, sy(pickS(t.g, t.peer, t.self)))
	}
	switch t.g.Intn(6) {
	case 0:
		return t.p.emit(c)
	case 1:
		return li{sy("begin"), sy(t.ps[0]), c}
	case 2:
		return li{sy("let"), ar{sy("sv"), c}, sy("sv")}
	case 3:
		return li{sy("cond"), c, c[1], 0}
	}
	return c
}

// tail is an expression whose value comes from a self call or a plain value.
func (t *t9) tail(d int) X {
	g, p := t.g, t.p
	if d <= 0 {
		if g.Chance(1, 8) {
			t.ends++
			return t.val(1)
		}
		if !t.pure && g.Chance(1, 6) {
			return li{sy("+"), t.val(1), t.again()}
		}
		if !t.pure && g.Chance(1, 10) {
			c := append(li{}, li{sy("list"), li{sy("-"), sy(t.ps[0]), 1}, 1, 2}[:1+len(t.ps)]...)
			if t.peer != "" {
				c = append(c, sy(t.peer))
			}
			return li{sy("apply"), sy(t.self), c}
		}
		return t.again()
	}
	t.ctxs++
	test := func() X {
		if c := t.side(); c != nil {
			switch g.Intn(4) {
			case 0:
				return c
			case 1:
				return li{sy("not"), c}
			case 2:
				return li{sy(pickS(g, "and", "or")), c, li{sy(">"), sy(t.ps[0]), g.Intn(4)}}
			}
			return li{sy(pickS(g, "==", "!=")), c, g.Intn(3)}
		}
		switch g.Intn(4) {
		case 0:
			return li{sy("=="), li{sy("mod"), sy(t.ps[0]), g.Range(2, 4)}, g.Intn(2)}
		case 1:
			return li{sy(">"), sy(t.ps[g.Intn(len(t.ps))]), g.Intn(20)}
		case 2:
			return p.expr(tBool, 1)
		default:
			return g.Chance(1, 2)
		}
	}
	switch g.Intn(9) {
	case 0, 1:
		x := li{sy("cond")}
		for k := g.Range(1, 2); k > 0; k-- {
			x = append(x, test(), t.tail(d-1-g.Intn(2)))
		}
		return append(x, t.tail(d-1))
	case 2:
		x := li{sy("begin")}
		for k := g.Range(1, 2); k > 0; k-- {
			x = append(x, t.stmt(d-1))
		}
		return append(x, t.tail(d-1))
	case 3, 4:
		op := pickS(g, "let", "letseq")
		b := ar{}
		used := map[string]bool{}
		seq := op == "letseq"
		if seq {
			p.push(false)
		}
		var vs []gvar
		for k := g.Range(1, 2); k > 0; k-- {
			n := pickS(g, t9names...)
			if t.shadow && g.Chance(1, 12) {
				n = t.ps[0]
			}
			if used[n] {
				continue
			}
			used[n] = true
			ty := tInt
			if g.Chance(1, 4) {
				ty = tF0
				t.caps++
			}
			var e X
			if n == t.ps[0] { // keep the count going down
				e = li{sy("-"), sy(n), 1}
				ty = tInt
			} else {
				e = p.expr(ty, d-1)
				if c := t.side(); c != nil && ty == tInt {
					e = c
				}
			}
			b = append(b, sy(n), e)
			v := gvar{name: n, t: ty, fixed: n == t.ps[0]}
			vs = append(vs, v)
			if seq {
				p.bind(v)
			}
		}
		if !seq {
			p.push(false)
			for _, v := range vs {
				p.bind(v)
			}
		}
		hidden := t.hide(vs)
		x := li{sy(op), b}
		if g.Chance(1, 2) {
			x = append(x, t.stmt(d-1))
		}
		x = append(x, t.tail(d-1))
		t.ps = hidden
		p.pop()
		return x
	case 5:
		p.push(false)
		x := li{sy("newScope")}
		if g.Chance(1, 2) {
			n := pickS(g, t9names...)
			if !t.param(n) {
				e := t.val(d - 1)
				p.bind(gvar{name: n, t: tInt})
				x = append(x, li{sy("def"), sy(n), e})
			}
		}
		if g.Chance(1, 2) {
			x = append(x, t.stmt(d-1))
		}
		x = append(x, t.tail(d-1))
		p.pop()
		return x
	case 6:
		if c := t.side(); c != nil {
			return li{sy("and"), c, t.tail(d - 1)}
		}
		return li{sy("and"), []X{1, true, li{sy(">"), sy(t.ps[0]), -5}}[g.Intn(3)], t.tail(d - 1)}
	case 7:
		if c := t.side(); c != nil {
			return li{sy("or"), li{sy("not"), c}, t.tail(d - 1)}
		}
		return li{sy("or"), []X{false, nil, p.expr(tBool, 1)}[g.Intn(3)], t.tail(d - 1)}
	default:
		if t.shadow && g.Chance(1, 3) { // the name of the function means something else here
			p.push(false)
			f := li{sy("fn"), ar{}, t.val(1)}
			ps := f[1].(ar)
			for range t.ps {
				ps = append(ps, sy(p.fresh()))
			}
			if t.peer != "" {
				ps = append(ps, sy(p.fresh()))
			}
			f[1] = ps
			x := li{sy("let"), ar{sy(t.self), f}, t.again0()}
			p.pop()
			return x
		}
		return t.tail(d - 1)
	}
}

func (t *t9) again0() X {
	c := li{sy(t.self)}
	for range t.ps {
		c = append(c, t.val(1))
	}
	if t.peer != "" {
		c = append(c, sy(t.self))
	}
	return c
}

func (t *t9) param(n string) bool {
	for _, q := range t.ps {
		if q == n {
			return true
		}
	}
	return false
}

// hide takes the parameters out of use that a binding of another kind hides.
func (t *t9) hide(vs []gvar) []string {
	old := t.ps
	var now []string
	for i, q := range t.ps {
		for _, v := range vs {
			if v.name == q && v.t != tInt {
				q = t.ps[0]
			}
		}
		_ = i
		now = append(now, q)
	}
	t.ps = now
	return old
}

func (t *t9) stmt(d int) X {
	g, p := t.g, t.p
	if t.other != "" && g.Chance(1, 3) { // the name stands for another function from here on
		return li{sy("cond"), li{sy("=="), sy(t.ps[0]), g.Intn(4)}, li{sy("set"), sy(t.self), sy(t.other)}, 0}
	}
	if c := t.side(); c != nil {
		switch g.Intn(6) {
		case 0:
			return li{sy("for"), ar{li{sy("def"), sy("si"), 0}, li{sy("and"), c, li{sy("<"), sy("si"), 2}}, li{sy("set"), sy("si"), li{sy("+"), sy("si"), 1}}}, p.emit(sy("si"))}
		case 1:
			return li{sy("for"), ar{li{sy("def"), sy("si"), 0}, li{sy("<"), sy("si"), 2}, li{sy("set"), sy("si"), li{sy("+"), sy("si"), 1}}}, c}
		case 2:
			return li{sy("set"), sy("glob"), c}
		case 3:
			return li{sy("def"), sy("sd"), c}
		}
		return c
	}
	switch g.Intn(6) {
	case 0:
		return p.emitE(tInt, d-1)
	case 1:
		if t.keep { // a closure over this iteration, kept
			t.caps++
			f := p.fnx(tF0, 1)
			if g.Chance(1, 2) && len(t.ps) > 1 {
				q := t.ps[1+g.Intn(len(t.ps)-1)]
				f = li{sy("fn"), ar{}, li{sy("set"), sy(q), li{sy("+"), sy(q), 10}}, li{sy("list"), sy(q), sy(t.ps[0])}}
			}
			return li{sy("set"), sy("kept"), li{sy("cons"), f, sy("kept")}}
		}
	case 2:
		if t.keep {
			return li{sy("emit"), kw("k"), li{sy("cond"), li{sy("null?"), sy("kept")}, 0, li{li{sy("first"), sy("kept")}}}}
		}
	case 3:
		if len(t.ps) > 1 {
			return li{sy("set"), sy(t.ps[1]), t.val(d - 1)}
		}
	case 4:
		return li{sy("set"), sy("glob"), li{sy("mod"), li{sy("+"), sy("glob"), t.val(d - 1)}, 1009}}
	case 5:
		if d > 1 {
			return p.forLoop(1)
		}
	}
	return p.emit(sy(t.ps[0]))
}

// make builds the function; the program calls it with (self n ...).
func (t *t9) make(depth int) (def X, call func(n int) X) {
	g, p := t.g, t.p
	if t.self == "" {
		t.self = pickS(g, "f", "again", "w")
	}
	np := t.np
	if np == 0 {
		np = g.Range(1, 3)
		t.np = np
	}
	for i := 0; i < np; i++ {
		t.ps = append(t.ps, []string{"n", "acc", "x"}[i])
	}
	p.push(true)
	ps := ar{}
	for i, q := range t.ps {
		ps = append(ps, sy(q))
		p.bind(gvar{name: q, t: tInt, fixed: i == 0})
	}
	if t.peer != "" {
		ps = append(ps, sy(t.peer))
	}
	if g.Chance(1, 5) {
		t.rest = "more"
		ps = append(ps, sy("&"), sy("more"))
		p.bind(gvar{name: "more", t: tList})
	}
	p.inFn++
	var body []X
	for k := g.Weighted(4, 3, 1); k > 0; k-- {
		body = append(body, t.stmt(depth-1))
	}
	base := t.val(2)
	if g.Chance(1, 3) {
		base = sy(t.ps[len(t.ps)-1])
	}
	guard := li{sy("<="), sy(t.ps[0]), 0}
	if g.Chance(1, 8) { // guard in or/and form
		body = append(body, li{sy("or"), li{sy("and"), guard, li{sy("begin"), base, true}}, t.tail(depth)})
	} else {
		body = append(body, li{sy("cond"), guard, base, t.tail(depth)})
	}
	p.inFn--
	p.pop()
	form := append(li{sy("defn"), sy(t.self), ps}, body...)
	if g.Chance(1, 6) { // by another way of naming it
		form = li{sy("def"), sy(t.self), append(li{sy("fn"), ps}, body...)}
	}
	inits := []X{}
	for range t.ps[1:] {
		inits = append(inits, t.p.small())
	}
	if t.peer != "" {
		inits = append(inits, sy(t.self))
	}
	def = form
	call = func(n int) X { return append(li{sy(t.self), n}, inits...) }
	if t.peer == "" && t.other == "" && g.Chance(1, 3) { // inside another function
		def = li{sy("defn"), sy("run"), ar{sy("n0")}, form, append(li{sy(t.self), sy("n0")}, inits...)}
		call = func(n int) X { return li{sy("run"), n} }
	}
	return def, call
}

func newT9(g *G) *t9 {
	t := &t9{g: g}
	t.p = &pgen{g: g, c: pcfg{loops: 2, funcs: 0, closure: 2, effects: 2, maxd: 3, simple: true, names: t9names}, budget: 200}
	t.p.sc = []gscope{{}}
	t.p.bind(gvar{name: "glob", t: tInt})
	return t
}

var t9head = []X{li{sy("def"), sy("glob"), 1}, li{sy("def"), sy("kept"), li{sy("list")}}}

// t9fin looks at what closures of the iterations see in the end.
var t9fin = []X{
	li{sy("defn"), sy("look"), ar{sy("l")}, li{sy("cond"), li{sy("null?"), sy("l")}, 0,
		li{sy("begin"), li{sy("emit"), kw("kept"), li{li{sy("first"), sy("l")}}}, li{sy("look"), li{sy("rest"), sy("l")}}}}},
	li{sy("look"), sy("kept")}, li{sy("emit"), kw("glob"), sy("glob")},
}

// watch runs a text and gives the high-water mark of every stack.
func (r *irun) watch(text string, max int) (high []int, x Sexp, err error, over bool) {
	steps := 0
	VerifStep = func(env *Zlisp) error {
		steps++
		if steps > max {
			over = true
			return errSteps{}
		}
		for i, n := range stackSizes(r.env) {
			if i >= len(high) {
				high = append(high, 0)
			}
			if n > high[i] {
				high[i] = n
			}
		}
		return nil
	}
	defer func() { VerifStep = nil }()
	x, err = r.env.EvalString(text)
	return high, x, err, over
}

func init() {
	semantic := func(g *G) Res {
		t := newT9(g)
		t.keep = g.Chance(2, 3)
		t.shadow = g.Chance(1, 3)
		t.pure = g.Chance(1, 2)
		t.sides = g.Intn(3)
		def, call := t.make(g.Range(1, 4))
		xs := append(append([]X{}, t9head...), def)
		n := g.Range(0, 6)
		xs = append(xs, li{sy("emit"), kw("r"), call(n)})
		if g.Chance(1, 2) {
			xs = append(xs, li{sy("emit"), kw("r"), call(g.Range(0, 4))})
		}
		xs = append(xs, t9fin...)
		res, ref := cmpProg(xs)
		if !res.Skip && g.Chance(1, 5) { // the two modes of the reference agree
			r2 := newRef()
			r2.tco = true
			v1, s1, _ := refProg(newRef(), xs)
			v2, s2, _ := refProg(r2, xs)
			if (s1 == nil) != (s2 == nil) || rdesc(v1) != rdesc(v2) || diffLogs(r2.log, ref.log) != "" {
				panic("harness: the reference evaluator disagrees with itself on " + res.Key)
			}
		}
		res.NonTrivial = n >= 2 && ref.calls >= 6 && t.ctxs >= 1
		return res
	}
	// several functions of one name: a maker's, a redefined one and the one it
	// was before, a name that is set to another function on the way
	named := func(g *G) Res {
		xs := append([]X{}, t9head...)
		mk := func(self string, np int, peer, other string) (*t9, X, func(n int) X) {
			t := newT9(g)
			t.keep, t.pure, t.sides = g.Chance(1, 3), g.Chance(2, 3), g.Intn(2)
			t.self, t.np, t.peer, t.other = self, np, peer, other
			t.p.bind(gvar{name: "kk", t: tInt, fixed: true})
			def, call := t.make(g.Range(1, 3))
			return t, def, call
		}
		xs = append(xs, li{sy("def"), sy("kk"), 7})
		show := func(c X) { xs = append(xs, li{sy("emit"), kw("r"), c}) }
		as := func(c X, name, peer string) X { // the same call under another name, with another peer
			l := append(li{}, c.(li)...)
			l[0] = sy(name)
			if peer != "" {
				l[len(l)-1] = sy(peer)
			}
			return l
		}
		ctxs := 0
		n := g.Range(1, 6)
		switch g.Intn(3) {
		case 0: // made twice by one maker
			t, def, call := mk("", 0, "o", "")
			ctxs = t.ctxs
			xs = append(xs, li{sy("defn"), sy("mk"), ar{sy("kk")}, def, sy(t.self)},
				li{sy("def"), sy("p1"), li{sy("mk"), 10}}, li{sy("def"), sy("p2"), li{sy("mk"), 20}})
			show(as(call(n), "p1", "p2"))
			show(as(call(g.Range(0, 4)), "p2", "p1"))
			if g.Chance(1, 2) {
				show(as(call(n), "p1", "p1"))
			}
		case 1: // defined again
			peer := ""
			if g.Chance(1, 2) {
				peer = "o"
			}
			t, def, call := mk(pickS(g, "f", "again"), 0, peer, "")
			if l, ok := def.(li); ok && l[1] == sy("run") {
				t.self = "run"
			}
			xs = append(xs, def, li{sy("def"), sy("old"), sy(t.self)})
			show(call(n))
			t2, def2, call2 := mk(pickS(g, "f", "again"), t.np, peer, "")
			ctxs = t.ctxs + t2.ctxs
			xs = append(xs, def2)
			if peer == "" {
				show(as(call(n), "old", ""))
			} else {
				show(as(call(n), "old", pickS(g, "old", t.self)))
			}
			show(call2(g.Range(0, 4)))
			if peer != "" {
				show(as(call2(n), t2.self, "old"))
			}
		default: // set to another on the way
			t1, def1, _ := mk("g2", g.Range(1, 3), "", "")
			if l := def1.(li); l[1] == sy("run") { // g2 is inside it
				l[1], l[2] = sy("g2"), ar{sy("n0")}
				t1.np = 1
			}
			t, def, call := mk("f", t1.np, "", "g2")
			ctxs = t.ctxs
			xs = append(xs, def1, def)
			show(call(n))
			show(call(n))
		}
		xs = append(xs, t9fin...)
		res, ref := cmpProg(xs)
		res.NonTrivial = n >= 2 && ref.calls >= 6 && ctxs >= 1
		return res
	}
	space := func(g *G) Res {
		t := newT9(g)
		t.pure = true
		t.keep = g.Chance(1, 4)
		def, call := t.make(g.Range(1, 4))
		prog := renderProg(append(append([]X{}, t9head...), def))
		var res Res
		n1, n2 := 24, 24*g.Range(4, 12)
		res.Key = prog + render(call(n2))
		res.Sample = res.Key
		ref := newRef()
		ref.tco, ref.maxSteps = g.Chance(1, 2), 400000
		ref.maxDepth = 40000
		xs := append(append(append([]X{}, t9head...), def), call(n2))
		v, s, _ := refProg(ref, xs)
		if s != nil && s.kind != sErr {
			res.Skip = true
			return res
		}
		var marks [2][]int
		for i, n := range []int{n1, n2} {
			run := newRun(newIn())
			if _, err, _ := run.eval(prog, 20000); err != nil {
				res.Fail, res.Sig = "the definition fails: "+err.Error(), "error"
				return res
			}
			run.log = nil
			high, x, err, over := run.watch(render(call(n)), ref.steps*80+50000)
			marks[i] = high
			if i == 1 {
				if f := judge(v, s, ref.log, x, err, over, run.log); f != "" {
					res.Fail = fmt.Sprintf("%s\nprogram:\n%s\n%s", f, prog, render(call(n)))
					res.Sig = sigOf(f)
					return res
				}
			}
		}
		// steps that stop short of the whole depth say nothing
		res.NonTrivial = ref.calls > n2/2 && t.ctxs >= 1
		for i := range marks[0] {
			// what a base case or another arm needs does not grow with depth
			if marks[1][i] > marks[0][i]+12 {
				res.Fail = fmt.Sprintf("stacks grow with the depth of tail recursion: high-water marks %v for n=%d, %v for n=%d\nprogram:\n%s\n%s", marks[0], n1, marks[1], n2, prog, render(call(n2)))
				res.Sig = "space"
				return res
			}
		}
		return res
	}
	deep := func(n1, n2 int) func(g *G) Res {
		return func(g *G) Res {
			t := newT9(g)
			t.pure = true
			t.p.budget = 25
			t.p.c.loops = 0
			def, call := t.make(g.Range(1, 3))
			prog := renderProg(append(append([]X{}, t9head...), def))
			var res Res
			n := g.Range(n1, n2)
			text := render(call(n))
			res.Key = prog + text
			res.Sample = res.Key
			ref := newRef()
			ref.tco, ref.maxSteps = true, 20000000
			v, s, _ := refProg(ref, append(append(append([]X{}, t9head...), def), call(n)))
			if s != nil && s.kind != sErr {
				res.Skip = true
				return res
			}
			if ref.calls < n {
				res.Skip = true // ended early
				return res
			}
			run := newRun(newIn())
			if _, err, _ := run.eval(prog, 20000); err != nil {
				res.Fail, res.Sig = "the definition fails: "+err.Error(), "error"
				return res
			}
			run.log = nil
			count := 0
			VerifStep = func(env *Zlisp) error {
				count++
				if count > ref.steps*80+50000 {
					return errSteps{}
				}
				return nil
			}
			x, err := run.env.EvalString(text)
			VerifStep = nil
			res.NonTrivial = true
			_, over := err.(errSteps)
			if f := judge(v, s, ref.log, x, err, over, run.log); f != "" {
				res.Fail = fmt.Sprintf("at depth %d: %s\nprogram:\n%s\n%s", n, f, prog, text)
				res.Sig = sigOf(f)
			}
			return res
		}
	}
	heap := func(g *G) Res {
		t := newT9(g)
		t.pure = true
		t.p.budget = 25
		t.p.c.loops = g.Intn(2)
		t.p.c.effects = 0
		def, call := t.make(g.Range(1, 3))
		prog := renderProg(append(append([]X{}, t9head...), def))
		var res Res
		const n = 6000
		text := render(call(n))
		res.Key = prog + text
		res.Sample = res.Key
		run := newRun(newIn())
		run.env.AddFunction("emit", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
			return args[len(args)-1], nil
		})
		if _, err, _ := run.eval(prog, 20000); err != nil {
			res.Fail, res.Sig = "the definition fails: "+err.Error(), "error"
			return res
		}
		// steps needed in all, then the live heap at two points on the way
		total := 0
		VerifStep = func(env *Zlisp) error {
			total++
			if total > 3000000 {
				return errSteps{}
			}
			return nil
		}
		_, err := run.env.EvalString(text)
		VerifStep = nil
		if err != nil || total < 6*n {
			res.Skip = true // ended early or failed
			return res
		}
		var at [2]uint64
		steps := 0
		VerifStep = func(env *Zlisp) error {
			steps++
			if steps == total/10 || steps == total*9/10 {
				var m runtime.MemStats
				runtime.GC()
				runtime.ReadMemStats(&m)
				if steps == total/10 {
					at[0] = m.HeapAlloc
				} else {
					at[1] = m.HeapAlloc
				}
			}
			return nil
		}
		run.env.EvalString(text)
		VerifStep = nil
		res.NonTrivial = true
		if grow := int64(at[1]) - int64(at[0]); grow > n*8/10*24 {
			res.Fail = fmt.Sprintf("the live heap grows by %d bytes over %d iterations\nprogram:\n%s\n%s", grow, n*8/10, prog, text)
			res.Sig = "heap"
		}
		return res
	}
	register(&Prop{
		ID: "C09", Level: "exploration",
		Rule: "the function recurses at least twice (small depths) or to more than half of the depth asked for, through at least one tail context",
		Parts: []Part{
			{Name: "same", Quick: 70000, Thorough: 900000, Run: semantic},
			{Name: "named", Quick: 25000, Thorough: 500000, Run: named},
			{Name: "space", Quick: 6000, Thorough: 80000, Run: space},
			{Name: "deep", Quick: 120, Thorough: 400, Run: deep(20000, 30000)},
			{Name: "deeper", Quick: 8, Thorough: 60, Run: deep(100000, 150000)},
			{Name: "heap", Quick: 240, Thorough: 3000, Run: heap},
		},
	})
}
