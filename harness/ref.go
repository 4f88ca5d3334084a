package main

// A direct reference evaluator for the core language, written from the
// language's description and used as the oracle of C02, C03, C05, C09, C15
// and C16. Scopes are plain linked maps, control flow is plain recursion.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// ---- programs

type (
	X   interface{}
	sy  string   // symbol
	kw  string   // a: (a symbol that evaluates to itself)
	li  []X      // (a b c)
	ar  []X      // [a b c]
	cm  string   // a comment
	ch  rune     // a character
	u64 uint64   // 5ULL
	ix  []X      // {a + b}, which reads as (infix [a + b])
	dt  struct { // (a b \ t)
		xs   li
		tail X
	}
	hl struct { // {"k": v}
		ks []string
		vs []X
	}
)

func render(x X) string {
	var b strings.Builder
	renderTo(&b, x)
	return b.String()
}

func renderTo(b *strings.Builder, x X) {
	seq := func(xs []X, open, cl string) {
		b.WriteString(open)
		for i, y := range xs {
			if i > 0 {
				b.WriteByte(' ')
			}
			renderTo(b, y)
		}
		b.WriteString(cl)
	}
	switch v := x.(type) {
	case nil:
		b.WriteString("nil")
	case sy:
		b.WriteString(string(v))
	case kw:
		b.WriteString(string(v) + ":")
	case cm:
		b.WriteString("/* " + string(v) + " */")
	case li:
		if len(v) == 2 {
			if s, ok := v[0].(sy); ok {
				switch s {
				case "unquote":
					b.WriteByte('~')
					renderTo(b, v[1])
					return
				case "unquote-splicing":
					b.WriteString("~@")
					renderTo(b, v[1])
					return
				case "syntaxQuote":
					b.WriteByte('^')
					renderTo(b, v[1])
					return
				}
			}
		}
		seq(v, "(", ")")
	case ar:
		seq(v, "[", "]")
	case ix:
		seq(v, "{", "}")
	case ch:
		b.WriteString(strconv.QuoteRune(rune(v)))
	case dt:
		seq(append(v.xs[:len(v.xs):len(v.xs)], sy("\\"), v.tail), "(", ")")
	case hl:
		b.WriteByte('{')
		for i, k := range v.ks {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(strconv.Quote(k) + ": ")
			renderTo(b, v.vs[i])
		}
		b.WriteByte('}')
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case int:
		b.WriteString(strconv.Itoa(v))
	case float64:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		b.WriteString(s)
	case string:
		b.WriteString(strconv.Quote(v))
	case bool:
		fmt.Fprint(b, v)
	case u64:
		fmt.Fprintf(b, "%dULL", v)
	default:
		panic(fmt.Sprintf("harness: cannot render %T", x))
	}
}

// ---- values

type (
	val   interface{} // nil int64 float64 string bool sy *rPair *rArr *rHash *rFn *rBi *rLazy
	rPair struct{ h, t val }
	rArr  struct {
		v   []val
		hot *bool // memory that appends may share; see touch
	}
	rHash struct {
		keys []val
		m    map[string]val
	}
	rFn struct {
		name   string
		params []string
		typed  bool   // every parameter is int64
		rest   string // "" without variadic tail
		body   []X
		sc     *rscope
	}
	rBi struct {
		name string
		f    func(r *revl, a []val) (val, *sig)
	}
	rLazy struct {
		x      X
		sc     *rscope
		forced bool
		v      val
	}
	rscope struct {
		fn     bool // the scope of a function call
		vars   map[string]val
		parent *rscope
	}
)

func rdesc(v val) string {
	var b strings.Builder
	rdescTo(&b, v, 0)
	return b.String()
}

func rdescTo(b *strings.Builder, v val, depth int) {
	if depth > 200 {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("nil")
	case int64:
		fmt.Fprintf(b, "%d", x)
	case float64:
		fmt.Fprintf(b, "f%s", strconv.FormatFloat(x, 'g', -1, 64))
	case string:
		b.WriteString(strconv.Quote(x))
	case bool:
		fmt.Fprint(b, x)
	case sy:
		b.WriteString("'" + string(x))
	case kw:
		b.WriteString("'" + string(x))
	case punct:
		b.WriteString("'" + string(x))
	case ch:
		fmt.Fprintf(b, "c%d", x)
	case *rPair:
		b.WriteByte('(')
		for {
			rdescTo(b, x.h, depth+1)
			n, ok := x.t.(*rPair)
			if !ok {
				if x.t != nil {
					b.WriteString(" . ")
					rdescTo(b, x.t, depth+1)
				}
				break
			}
			b.WriteByte(' ')
			x = n
		}
		b.WriteByte(')')
	case *rArr:
		b.WriteByte('[')
		for i, y := range x.v {
			if i > 0 {
				b.WriteByte(' ')
			}
			rdescTo(b, y, depth+1)
		}
		b.WriteByte(']')
	case *rHash:
		b.WriteString("{")
		for i, k := range x.keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			rdescTo(b, k, depth+1)
			b.WriteByte(':')
			rdescTo(b, x.m[rdesc(k)], depth+1)
		}
		b.WriteString("}")
	case u64:
		fmt.Fprintf(b, "u%d", x)
	case *rFn, *rBi:
		b.WriteString("fn")
	case *rLazy:
		b.WriteString("lazy")
	default:
		panic(fmt.Sprintf("harness: rdesc %T", v))
	}
}

// ---- evaluation

type sigKind int

const (
	sErr sigKind = iota
	sBreak
	sContinue
	sBudget
	sUndet
)

type sig struct {
	kind  sigKind
	label string
	msg   string
	tag   string // fail:N
}

func rerr(format string, a ...interface{}) *sig {
	return &sig{kind: sErr, msg: fmt.Sprintf(format, a...)}
}
func undet(why string) *sig { return &sig{kind: sUndet, msg: why} }

type revl struct {
	global   *rscope
	log      []string
	steps    int
	maxSteps int
	depth    int
	maxDepth int
	macros   map[string]*rFn
	calls    int
	loops    int
	closures int
	errs     int
	lazies   int
	expands  int // macro calls expanded
	substs   int // unquotes and splices replaced
	deepest  int
	shadows  int  // bindings of a name that is bound further out too
	tco      bool // run tail calls without nesting, for deep recursion
	next     *rcont
	free     int // uses of variables from outside the running function
	emits    int
	tries    int // failures forgiven by try
	failAt   int // the call of emit that fails
}

// rcont is what remains to be evaluated in tail position.
type rcont struct {
	x  X
	sc *rscope
}

// tail evaluates the last thing of a form; only form may call it, as the
// last thing it does.
func (r *revl) tail(x X, sc *rscope) (val, *sig) {
	if r.tco {
		r.next = &rcont{x, sc}
		return nil, nil
	}
	return r.eval(x, sc)
}

func (r *revl) tailBegin(xs []X, sc *rscope) (val, *sig) {
	xs = nocm(xs)
	if !r.tco || len(xs) == 0 {
		return r.begin(xs, sc)
	}
	if _, s := r.begin(xs[:len(xs)-1], sc); s != nil {
		return nil, s
	}
	return r.tail(xs[len(xs)-1], sc)
}

func newRef() *revl {
	r := &revl{maxSteps: 60000, maxDepth: 400, macros: map[string]*rFn{}}
	r.global = &rscope{vars: map[string]val{}}
	for n, f := range rBuiltins {
		r.global.vars[n] = &rBi{n, f}
	}
	return r
}

func (s *rscope) find(n string) *rscope {
	for ; s != nil; s = s.parent {
		if _, ok := s.vars[n]; ok {
			return s
		}
	}
	return nil
}

// rtype is the type that a second def of a name in one scope must repeat;
// "" goes with everything.
func rtype(v val) string {
	switch x := v.(type) {
	case int64:
		return "int64"
	case float64:
		return "float64"
	case string:
		return "string"
	case bool:
		return "bool"
	case sy, kw:
		return "symbol"
	case u64:
		return "uint64"
	case ch:
		return "char"
	case *rHash:
		return "hash"
	case *rArr:
		if len(x.v) == 0 {
			return "arr?"
		}
		t := rtype(x.v[0])
		if t == "" || t == "arr?" {
			return "arr?"
		}
		return "arr:" + t
	}
	return ""
}

func (r *revl) bind(sc *rscope, n string, v val) *sig {
	if old, ok := sc.vars[n]; ok {
		a, b := rtype(old), rtype(v)
		if a == "arr?" && strings.HasPrefix(b, "arr") || b == "arr?" && strings.HasPrefix(a, "arr") {
			return undet("array types") // an array remembers the type it had first
		}
		if a != "" && b != "" && a != b {
			if a == "arr?" || b == "arr?" || strings.HasPrefix(a, "arr") && strings.HasPrefix(b, "arr") {
				return undet("array types")
			}
			return rerr("cannot assign %s to %s", b, a)
		}
	}
	if sc.parent != nil && sc.parent.find(n) != nil {
		r.shadows++
	}
	sc.vars[n] = v
	return nil
}

func rtruthy(v val) bool {
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case int64:
		return x != 0
	case u64:
		return x != 0
	case ch:
		return x != 0
	}
	return true
}

func rlist(xs []val) val {
	var l val
	for i := len(xs) - 1; i >= 0; i-- {
		l = &rPair{xs[i], l}
	}
	return l
}

func rslice(l val) ([]val, bool) {
	var out []val
	for l != nil {
		p, ok := l.(*rPair)
		if !ok {
			return nil, false
		}
		out = append(out, p.h)
		l = p.t
	}
	return out, true
}

// quoted turns program text into data.
func quoted(x X) val {
	switch v := x.(type) {
	case li:
		var xs []val
		for _, y := range v {
			if _, ok := y.(cm); ok {
				continue
			}
			xs = append(xs, quoted(y))
		}
		return rlist(xs)
	case ar:
		a := &rArr{hot: new(bool)}
		for _, y := range v {
			a.v = append(a.v, quoted(y))
		}
		return a
	case ix:
		return rlist([]val{sy("infix"), quoted(ar(v))})
	case dt:
		t := quoted(v.tail)
		for i := len(v.xs) - 1; i >= 0; i-- {
			t = &rPair{quoted(v.xs[i]), t}
		}
		return t
	case hl:
		return quoted(v.list())
	case int:
		return int64(v)
	}
	return x
}

// list is what {"k": v} reads as.
func (v hl) list() li {
	l := li{sy("hash")}
	for i, k := range v.ks {
		if i > 0 {
			l = append(l, punct(","))
		}
		l = append(l, k, punct(":"), v.vs[i])
	}
	return l
}

// punct is a colon or comma as data.
type punct string

func newRHash() *rHash { return &rHash{m: map[string]val{}} }

func isSym(v val) bool {
	switch v.(type) {
	case sy, kw:
		return true
	}
	return false
}

func nocm(xs []X) []X {
	out := xs[:0:0]
	for _, x := range xs {
		if _, ok := x.(cm); !ok {
			out = append(out, x)
		}
	}
	return out
}

func (r *revl) begin(xs []X, sc *rscope) (val, *sig) {
	var v val
	for _, x := range nocm(xs) {
		var s *sig
		if v, s = r.eval(x, sc); s != nil {
			return nil, s
		}
	}
	return v, nil
}

func (r *revl) lookup(n string, sc *rscope) (val, *sig) {
	if s := sc.find(n); s != nil {
		r.use(sc, s)
		return s.vars[n], nil
	}
	return nil, rerr("symbol `%s` not found", n)
}

// use counts uses of variables from outside the running function, the
// global scope apart.
func (r *revl) use(at, found *rscope) {
	if found.parent == nil {
		return
	}
	for ; at != found; at = at.parent {
		if at.fn {
			r.free++
			return
		}
	}
}

func (r *revl) eval(x X, sc *rscope) (val, *sig) {
	r.steps++
	if r.steps > r.maxSteps {
		return nil, &sig{kind: sBudget}
	}
	r.depth++
	if r.depth > r.deepest {
		r.deepest = r.depth
	}
	defer func() { r.depth-- }()
	if r.depth > r.maxDepth {
		return nil, &sig{kind: sBudget}
	}
	switch v := x.(type) {
	case sy:
		if strings.HasPrefix(string(v), "?") {
			return v, nil
		}
		return r.lookup(string(v), sc)
	case kw:
		return v, nil
	case int:
		return int64(v), nil
	case ar:
		a := &rArr{hot: new(bool)}
		for _, y := range v {
			if _, ok := y.(cm); ok {
				continue
			}
			e, s := r.eval(y, sc)
			if s != nil {
				return nil, s
			}
			a.v = append(a.v, e)
		}
		return a, nil
	case li:
		w, s := r.form(nocm(v), sc)
		for r.next != nil {
			n := r.next
			r.next = nil
			l, ok := n.x.(li)
			if !ok {
				return r.eval(n.x, n.sc)
			}
			if r.steps++; r.steps > r.maxSteps {
				return nil, &sig{kind: sBudget}
			}
			w, s = r.form(nocm(l), n.sc)
		}
		return w, s
	case rval:
		return v.v, nil
	case punct:
		return nil, undet("punctuation")
	case ix:
		return r.form(li{sy("infix"), ar(v)}, sc)
	case hl:
		return r.form(v.list(), sc)
	case dt:
		return nil, undet("dotted form")
	}
	return x, nil
}

// rval is a value in program position (a macro expansion holds them)
type rval struct{ v val }

func (r *revl) form(v li, sc *rscope) (val, *sig) {
	if len(v) == 0 {
		return nil, nil
	}
	if h, ok := v[0].(sy); ok {
		switch h {
		case "hash": // a literal with punctuation
			if len(v) > 2 && v[2] == X(punct(":")) {
				h := newRHash()
				for i := 1; i < len(v); i += 4 {
					k, ok := v[i].(string)
					if !ok || i+2 >= len(v) || v[i+1] != X(punct(":")) || i+3 < len(v) && v[i+3] != X(punct(",")) {
						return nil, undet("hash literal")
					}
					e, s := r.eval(v[i+2], sc)
					if s != nil {
						return nil, s
					}
					h.set(k, e)
				}
				return h, nil
			}
		case "++", "--", "+=", "-=": // macros of the standard setup
			n, ok := v[1].(sy)
			if !ok || len(v) != 2+b2i(h[1] == '=') {
				return nil, undet("increment")
			}
			r.expands++
			by := X(1)
			if h[1] == '=' {
				by = v[2]
			}
			return r.form(li{sy("set"), n, li{h[:1], n, by}}, sc)
		case "infix": // two operands only
			if len(v) != 2 {
				return nil, undet("infix")
			}
			c, ok := v[1].(ar)
			if !ok || len(c) != 3 {
				return nil, undet("infix")
			}
			for _, y := range []X{c[0], c[2]} {
				switch y.(type) {
				case sy, li, int, int64:
				default:
					return nil, undet("infix")
				}
			}
			op, ok := c[1].(sy)
			switch {
			case ok && op == "=":
				if _, isSy := c[0].(sy); !isSy {
					return nil, undet("infix")
				}
				return r.form(li{sy("set"), c[0], c[2]}, sc)
			case ok && (op == "+" || op == "-" || op == "*" || op == "<" || op == "=="):
				return r.form(li{op, c[0], c[2]}, sc)
			}
			return nil, undet("infix")
		case "macexpand":
			if l, ok := v[1].(li); ok && len(l) > 0 {
				if n, ok := l[0].(sy); ok && r.macros[string(n)] != nil {
					e, s := r.expand(r.macros[string(n)], l[1:])
					return &rPair{sy("quote"), e}, s
				}
			}
			return nil, undet("macexpand of something else")
		case "def", "set":
			n, ok := v[1].(sy)
			if !ok {
				n = sy(v[1].(kw))
			}
			e, s := r.eval(v[2], sc)
			if s != nil {
				return nil, s
			}
			if h == "set" {
				if f := sc.find(string(n)); f != nil {
					r.use(sc, f)
					f.vars[string(n)] = e
					return e, nil
				}
			}
			return e, r.bind(sc, string(n), e)
		case "mdef":
			e, s := r.eval(v[len(v)-1], sc)
			if s != nil {
				return nil, s
			}
			xs, ok := rslice(e)
			if !ok || len(xs) < len(v)-2 {
				return nil, rerr("mdef")
			}
			for i, n := range v[1 : len(v)-1] {
				if s := r.bind(sc, string(n.(sy)), xs[i]); s != nil {
					return nil, s
				}
			}
			return e, nil
		case "quote":
			return quoted(v[1]), nil
		case "begin":
			return r.tailBegin(v[1:], sc)
		case "newScope":
			return r.tailBegin(v[1:], &rscope{vars: map[string]val{}, parent: sc})
		case "let", "letseq":
			in := &rscope{vars: map[string]val{}, parent: sc}
			b := nocm(v[1].(ar))
			var vs []val
			for i := 0; i < len(b); i += 2 {
				at := sc
				if h == "letseq" {
					at = in
				}
				e, s := r.eval(b[i+1], at)
				if s != nil {
					return nil, s
				}
				if h == "letseq" {
					if s := r.bind(in, string(b[i].(sy)), e); s != nil {
						return nil, s
					}
				}
				vs = append(vs, e)
			}
			if h == "let" {
				for i := len(vs) - 1; i >= 0; i-- {
					if s := r.bind(in, string(b[2*i].(sy)), vs[i]); s != nil {
						return nil, s
					}
				}
			}
			return r.tailBegin(v[2:], in)
		case "cond":
			for i := 1; i+1 < len(v); i += 2 {
				c, s := r.eval(v[i], sc)
				if s != nil {
					return nil, s
				}
				if rtruthy(c) {
					return r.tail(v[i+1], sc)
				}
			}
			return r.tail(v[len(v)-1], sc)
		case "and", "or":
			var e val
			for i, x := range v[1:] {
				if i == len(v)-2 {
					return r.tail(x, sc)
				}
				var s *sig
				if e, s = r.eval(x, sc); s != nil {
					return nil, s
				}
				if rtruthy(e) == (h == "or") {
					return e, nil
				}
			}
			return e, nil
		case "assert":
			e, s := r.eval(v[1], sc)
			if s == nil && !rtruthy(e) {
				s = rerr("Assertion failed")
			}
			return nil, s
		case "for":
			return r.loop(v[1:], sc)
		case "break", "continue":
			k := sBreak
			if h == "continue" {
				k = sContinue
			}
			l := ""
			if len(v) > 1 {
				switch n := v[1].(type) {
				case sy:
					l = string(n)
				case kw:
					l = string(n)
				}
			}
			return nil, &sig{kind: k, label: l}
		case "fn":
			return r.closure("", v[1].(ar), v[2:], sc), nil
		case "defn":
			n := string(v[1].(sy))
			return nil, r.bind(sc, n, r.closure(n, v[2].(ar), v[3:], sc))
		case "syntaxQuote":
			return r.template(v[1], sc)
		case "defmac":
			n := string(v[1].(sy))
			r.macros[n] = r.closure(n, v[2].(ar), v[3:], r.global)
			return nil, nil
		case "func":
			ps := ar{}
			for _, p := range nocm(v[2].(ar)) {
				ps = append(ps, sy(strings.SplitN(string(p.(sy)), ":", 2)[0]))
			}
			n := string(v[1].(sy))
			f := r.closure(n, ps, v[4:], sc)
			f.typed = true
			return f, r.bind(sc, n, f)
		}
		if m := r.macros[string(h)]; m != nil {
			e, s := r.expand(m, v[1:])
			if s != nil {
				return nil, s
			}
			return r.eval(unquoted(e), sc)
		}
	}
	f, s := r.eval(v[0], sc)
	if s != nil {
		return nil, s
	}
	switch f.(type) {
	case *rFn, *rBi:
	case *rLazy:
		return nil, undet("lazy callee")
	default:
		switch f.(type) {
		case *rArr, sy, kw:
			return nil, undet("callee kind")
		}
		if len(v) == 1 {
			return f, nil
		}
		return nil, rerr("not a function")
	}
	if b, ok := f.(*rBi); ok && (b.name == "eval" || b.name == "tryeval") { // in the scope of the call
		if len(v) < 2 {
			return nil, rerr("eval")
		}
		var es []X
		for _, a := range v[1:] {
			e, s := r.eval(a, sc)
			if s != nil {
				if s.kind == sBreak || s.kind == sContinue {
					s = undet("break in a call argument")
				}
				return nil, s
			}
			if len(es) == 0 && b.name == "tryeval" {
				es = append(es, rval{e})
				continue
			}
			es = append(es, unquoted(e))
		}
		e, s := r.begin(es, sc)
		if s != nil && s.kind == sErr && b.name == "tryeval" {
			r.tries++
			return es[0].(rval).v, nil
		}
		if s != nil && (s.kind == sBreak || s.kind == sContinue) {
			s = undet("break in eval")
		}
		return e, s
	}
	var args []val
	fn, _ := f.(*rFn)
	for i, a := range v[1:] {
		if fn != nil && i < len(fn.params) && strings.HasPrefix(fn.params[i], "#") {
			r.lazies++
			args = append(args, &rLazy{x: a, sc: sc})
			continue
		}
		e, s := r.eval(a, sc)
		if s != nil {
			if s.kind == sBreak || s.kind == sContinue {
				return nil, undet("break in a call argument")
			}
			return nil, s
		}
		args = append(args, e)
	}
	if r.tco && fn != nil {
		in, s := r.enter(fn, args)
		if s != nil {
			return nil, s
		}
		return r.tailBegin(fn.body, in)
	}
	return r.call(f, args)
}

// expand calls a macro on unevaluated arguments.
func (r *revl) expand(m *rFn, xs []X) (val, *sig) {
	r.expands++
	var args []val
	for _, a := range nocm(xs) {
		args = append(args, quoted(a))
	}
	e, s := r.call(m, args)
	if s != nil && (s.kind == sBreak || s.kind == sContinue) {
		s = undet("break in a macro")
	}
	return e, s
}

// unquoted turns data back into program text.
func unquoted(v val) X {
	switch x := v.(type) {
	case *rPair:
		out := li{}
		var t val = x
		for {
			c, ok := t.(*rPair)
			if !ok {
				break
			}
			out = append(out, unquoted(c.h))
			t = c.t
		}
		if t != nil {
			return dt{out, unquoted(t)}
		}
		if n := len(out); n > 2 && out[n-2] == X(sy("unquote")) { // (a \ ~b)
			return dt{out[:n-2], out[n-2:]}
		}
		return out
	case *rArr:
		out := ar{}
		for _, y := range x.v {
			out = append(out, unquoted(y))
		}
		return out
	case nil, int64, float64, string, bool, sy, kw, ch, u64, punct:
		return v
	}
	return rval{v}
}

// isForm1 says whether x is (name y).
func isForm1(x X, name sy) (X, bool) {
	if l, ok := x.(li); ok && len(l) == 2 && l[0] == X(name) {
		return l[1], true
	}
	return nil, false
}

// template substitutes in a template.
func (r *revl) template(x X, sc *rscope) (val, *sig) {
	each := func(xs []X) ([]val, *sig) {
		var out []val
		for _, y := range nocm(xs) {
			if z, ok := isForm1(y, "unquote-splicing"); ok {
				r.substs++
				e, s := r.eval(z, sc)
				if s != nil {
					return nil, s
				}
				es, ok := rslice(e)
				if !ok {
					switch e.(type) {
					case *rArr, *rPair:
						return nil, undet("splice of an array or dotted list")
					}
					return nil, rerr("not a list")
				}
				out = append(out, es...)
				continue
			}
			e, s := r.template(y, sc)
			if s != nil {
				return nil, s
			}
			out = append(out, e)
		}
		return out, nil
	}
	switch v := x.(type) {
	case li:
		if y, ok := isForm1(x, "unquote"); ok {
			r.substs++
			return r.eval(y, sc)
		}
		xs, s := each(v)
		return rlist(xs), s
	case ar:
		xs, s := each(v)
		return &rArr{v: xs, hot: new(bool)}, s
	case ix:
		xs, s := each(v)
		if s != nil {
			return nil, s
		}
		return rlist([]val{sy("infix"), &rArr{v: xs, hot: new(bool)}}), nil
	case dt:
		xs, s := each(v.xs)
		if s != nil {
			return nil, s
		}
		t, s := r.template(v.tail, sc)
		for i := len(xs) - 1; i >= 0; i-- {
			t = &rPair{xs[i], t}
		}
		return t, s
	case hl:
		return r.template(v.list(), sc)
	case rval:
		if h, ok := v.v.(*rHash); ok { // in the order of its keys
			n := newRHash()
			for _, k := range h.keys {
				e, s := r.template(unquoted(h.m[rdesc(k)]), sc)
				if s != nil {
					return nil, s
				}
				n.set(k, e)
			}
			return n, nil
		}
		return v.v, nil
	}
	return quoted(x), nil
}

func (r *revl) loop(v []X, sc *rscope) (val, *sig) {
	r.loops++
	label := ""
	switch l := v[0].(type) {
	case sy:
		label, v = string(l), v[1:]
	case kw:
		label, v = string(l), v[1:]
	}
	c := nocm(v[0].(ar))
	in := &rscope{vars: map[string]val{}, parent: sc}
	if _, s := r.eval(c[0], in); s != nil {
		if s.kind == sBreak || s.kind == sContinue {
			s = undet("break in loop head")
		}
		return nil, s
	}
	for {
		t, s := r.eval(c[1], in)
		if s != nil {
			if s.kind == sBreak || s.kind == sContinue {
				s = undet("break in loop head")
			}
			return nil, s
		}
		if !rtruthy(t) {
			return nil, nil
		}
		if _, s := r.begin(v[1:], in); s != nil {
			mine := s.label == "" || s.label == label
			if s.kind == sBreak && mine {
				return nil, nil
			}
			if s.kind != sContinue || !mine {
				return nil, s
			}
		}
		if _, s := r.eval(c[2], in); s != nil {
			if s.kind == sBreak || s.kind == sContinue {
				s = undet("break in loop head")
			}
			return nil, s
		}
	}
}

func (r *revl) closure(name string, ps ar, body []X, sc *rscope) *rFn {
	r.closures++
	f := &rFn{name: name, body: body, sc: sc}
	ps = ar(nocm(ps))
	for i := 0; i < len(ps); i++ {
		p := string(ps[i].(sy))
		if p == "&" {
			f.rest = string(ps[i+1].(sy))
			break
		}
		f.params = append(f.params, p)
	}
	return f
}

// enter makes the scope of a call.
func (r *revl) enter(fn *rFn, args []val) (*rscope, *sig) {
	r.calls++
	in := &rscope{vars: map[string]val{}, parent: fn.sc, fn: true}
	n := len(fn.params)
	if len(args) < n || fn.rest == "" && len(args) > n {
		return nil, rerr("expected %d arguments, got %d", n, len(args))
	}
	for i := range args {
		if _, ok := args[i].(int64); fn.typed && !ok {
			return nil, rerr("type mismatch")
		}
	}
	for i, p := range fn.params {
		if fn.sc.find(p) != nil {
			r.shadows++
		}
		in.vars[p] = args[i]
		if strings.HasPrefix(p, "#") {
			if _, ok := args[i].(*rLazy); !ok {
				in.vars[p] = &rLazy{x: rval{args[i]}, forced: true, v: args[i]}
			}
		}
	}
	if fn.rest != "" {
		in.vars[fn.rest] = rlist(args[n:])
	}
	return in, nil
}

// rOddOK are the builtins that treat a uint64 or a char like any other value.
var rOddOK = map[string]bool{"emit": true, "fail": true, "try": true, "not": true, "list": true, "array": true,
	"cons": true, "apply": true, "map": true, "force": true, "tryforce": true, "eval": true, "tryeval": true, "null?": true}

func (r *revl) call(f val, args []val) (val, *sig) {
	switch fn := f.(type) {
	case *rBi:
		r.calls++
		if !rOddOK[fn.name] {
			for _, x := range args {
				switch x.(type) {
				case u64, ch:
					return nil, undet(fn.name + " of uint64 or char")
				}
			}
		}
		return fn.f(r, args)
	case *rFn:
		in, s := r.enter(fn, args)
		if s != nil {
			return nil, s
		}
		v, s := r.begin(fn.body, in)
		if s != nil && (s.kind == sBreak || s.kind == sContinue) {
			s = undet("break across a function")
		}
		return v, s
	}
	return nil, rerr("not a function")
}

// ---- builtins

func rnum(op string, a, b val) (val, *sig) {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		switch op {
		case "+":
			return x + y, nil
		case "-":
			return x - y, nil
		case "*":
			return x * y, nil
		case "/":
			if y == 0 {
				return nil, rerr("division by zero")
			}
			if y == -1 {
				return -x, nil
			}
			if x%y == 0 {
				return x / y, nil
			}
			return float64(x) / float64(y), nil
		case "mod":
			if y == 0 {
				return nil, rerr("division by zero")
			}
			if y == -1 {
				return int64(0), nil
			}
			return x % y, nil
		}
	}
	f := func(v val) (float64, bool) {
		switch n := v.(type) {
		case int64:
			return float64(n), true
		case float64:
			return n, true
		}
		return 0, false
	}
	for _, v := range []val{a, b} {
		switch v.(type) {
		case u64, ch:
			return nil, undet("arithmetic on uint64 or char")
		}
	}
	p, ok1 := f(a)
	q, ok2 := f(b)
	if !ok1 || !ok2 || op == "mod" {
		return nil, rerr("%s of %s and %s", op, rdesc(a), rdesc(b))
	}
	switch op {
	case "+":
		return p + q, nil
	case "-":
		return p - q, nil
	case "*":
		return p * q, nil
	}
	if q == 0 {
		return nil, undet("float division by zero")
	}
	return p / q, nil
}

func rcmp(a, b val) (int, bool, *sig) { // order, ordered
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			switch {
			case x < y:
				return -1, true, nil
			case x > y:
				return 1, true, nil
			}
			return 0, true, nil
		case float64:
			return rcmp(float64(x), y)
		}
	case float64:
		switch y := b.(type) {
		case int64:
			return rcmp(x, float64(y))
		case float64:
			switch {
			case math.IsNaN(x) || math.IsNaN(y):
				return 0, false, nil
			case x < y:
				return -1, true, nil
			case x > y:
				return 1, true, nil
			}
			return 0, true, nil
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), true, nil
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0, true, nil
			}
			if !x {
				return -1, true, nil
			}
			return 1, true, nil
		}
	}
	return 0, false, undet(fmt.Sprintf("comparison of %s with %s", rtype(a), rtype(b)))
}

func argc(a []val, lo, hi int) *sig {
	if len(a) < lo || len(a) > hi {
		return rerr("wrong number of arguments")
	}
	return nil
}

// touch marks an operation that may write memory shared with another array:
// whether it shows there depends on spare capacity, as in Go.
func (a *rArr) touch() *sig {
	if *a.hot {
		return undet("append aliasing")
	}
	return nil
}

func (r *revl) apply(f val, args []val) (val, *sig) {
	r.depth += 2
	defer func() { r.depth -= 2 }()
	if r.depth > r.maxDepth {
		return nil, &sig{kind: sBudget}
	}
	return r.call(f, args)
}

func isFn(v val) bool {
	switch v.(type) {
	case *rFn, *rBi:
		return true
	}
	return false
}

var rBuiltins map[string]func(r *revl, a []val) (val, *sig)

func init() {
	rBuiltins = map[string]func(r *revl, a []val) (val, *sig){
		"emit": func(r *revl, a []val) (val, *sig) {
			if r.emits++; r.emits == r.failAt {
				return nil, &sig{kind: sErr, msg: "fail:emit;"}
			}
			var d []string
			for _, x := range a {
				d = append(d, rdesc(x))
			}
			r.log = append(r.log, strings.Join(d, " "))
			if len(a) == 0 {
				return nil, nil
			}
			return a[len(a)-1], nil
		},
		"fail": func(r *revl, a []val) (val, *sig) {
			t := "fail"
			for _, x := range a {
				t += ":" + rdesc(x)
			}
			return nil, &sig{kind: sErr, msg: t + ";", tag: t + ";"}
		},
		// a host function that calls back and forgives a failure
		"try": func(r *revl, a []val) (val, *sig) {
			if len(a) < 2 || !isFn(a[0]) {
				return nil, rerr("try")
			}
			v, s := r.apply(a[0], a[2:])
			if s != nil && s.kind == sErr {
				r.tries++
				return a[1], nil
			}
			return v, s
		},
		"not": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			return !rtruthy(a[0]), nil
		},
		"mod": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			return rnum("mod", a[0], a[1])
		},
		"list":  func(r *revl, a []val) (val, *sig) { return rlist(a), nil },
		"array": func(r *revl, a []val) (val, *sig) { return &rArr{v: append([]val{}, a...), hot: new(bool)}, nil },
		"cons": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			return &rPair{a[0], a[1]}, nil
		},
		"len": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			switch x := a[0].(type) {
			case nil:
				return int64(0), nil
			case string:
				return int64(len(x)), nil
			case *rArr:
				return int64(len(x.v)), nil
			case *rHash:
				return int64(len(x.keys)), nil
			case *rPair:
				if xs, ok := rslice(x); ok {
					return int64(len(xs)), nil
				}
				return nil, rerr("len")
			case sy, kw:
				return nil, undet("len of symbol")
			}
			return nil, rerr("len")
		},
		"append": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			switch x := a[0].(type) {
			case *rArr:
				if s := x.touch(); s != nil {
					return nil, s
				}
				*x.hot = true // a second append may write the same cell
				return &rArr{v: append(append([]val{}, x.v...), a[1]), hot: x.hot}, nil
			case string:
				if y, ok := a[1].(string); ok {
					return x + y, nil
				}
			}
			return nil, rerr("append")
		},
		"concat": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 99); s != nil {
				return nil, s
			}
			switch x := a[0].(type) {
			case string:
				for _, y := range a[1:] {
					z, ok := y.(string)
					if !ok {
						return nil, rerr("concat")
					}
					x += z
				}
				return x, nil
			case *rArr:
				v := append([]val{}, x.v...)
				for _, y := range a[1:] {
					z, ok := y.(*rArr)
					if !ok {
						return nil, rerr("concat")
					}
					v = append(v, z.v...)
				}
				if s := x.touch(); s != nil {
					return nil, s
				}
				*x.hot = true
				return &rArr{v: v, hot: x.hot}, nil
			case *rPair:
				xs, ok := rslice(x)
				for _, y := range a[1:] {
					ys, ok2 := rslice(y)
					if !ok2 {
						if isSym(y) {
							return nil, undet("concat of symbol")
						}
						return nil, rerr("concat")
					}
					xs = append(xs, ys...)
				}
				if !ok {
					return nil, rerr("concat")
				}
				return rlist(xs), nil
			case sy, kw:
				return nil, undet("concat of symbol")
			}
			return nil, rerr("concat")
		},
		"aget": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 3); s != nil {
				return nil, s
			}
			x, ok := a[0].(*rArr)
			if !ok {
				return nil, rerr("aget")
			}
			i, ok := a[1].(int64)
			if !ok {
				return nil, undet("aget index")
			}
			if i < 0 || i >= int64(len(x.v)) {
				if len(a) == 3 {
					return a[2], nil
				}
				return nil, rerr("out of bounds")
			}
			return x.v[i], nil
		},
		"aset": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 3, 3); s != nil {
				return nil, s
			}
			x, ok := a[0].(*rArr)
			if !ok {
				return nil, rerr("aset")
			}
			i, ok := a[1].(int64)
			if !ok {
				return nil, undet("aset index")
			}
			if i < 0 || i >= int64(len(x.v)) {
				return nil, rerr("out of bounds")
			}
			if s := x.touch(); s != nil {
				return nil, s
			}
			x.v[i] = a[2]
			return nil, nil
		},
		"hash": func(r *revl, a []val) (val, *sig) {
			h := &rHash{m: map[string]val{}}
			if len(a)%2 != 0 {
				return nil, rerr("hash")
			}
			for i := 0; i < len(a); i += 2 {
				h.set(a[i], a[i+1])
			}
			return h, nil
		},
		"hset": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 3, 3); s != nil {
				return nil, s
			}
			h, ok := a[0].(*rHash)
			if !ok {
				return nil, rerr("hset")
			}
			h.set(a[1], a[2])
			return nil, nil
		},
		"hget": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 3); s != nil {
				return nil, s
			}
			h, ok := a[0].(*rHash)
			if !ok {
				if _, isArr := a[0].(*rArr); isArr {
					return nil, undet("hget of array")
				}
				return nil, rerr("hget")
			}
			if v, ok := h.m[rdesc(a[1])]; ok {
				return v, nil
			}
			if len(a) == 3 {
				return a[2], nil
			}
			return nil, rerr("not found")
		},
		"hdel": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			h, ok := a[0].(*rHash)
			if !ok {
				return nil, rerr("hdel")
			}
			d := rdesc(a[1])
			if _, ok := h.m[d]; ok {
				delete(h.m, d)
				for i, k := range h.keys {
					if rdesc(k) == d {
						h.keys = append(h.keys[:i:i], h.keys[i+1:]...)
						break
					}
				}
			}
			return nil, nil
		},
		"keys": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			h, ok := a[0].(*rHash)
			if !ok {
				return nil, rerr("keys")
			}
			return &rArr{v: append([]val{}, h.keys...), hot: new(bool)}, nil
		},
		"str": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			if i, ok := a[0].(int64); ok {
				return strconv.FormatInt(i, 10), nil
			}
			return nil, undet("str")
		},
		"apply": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			if !isFn(a[0]) {
				return nil, rerr("apply")
			}
			switch x := a[1].(type) {
			case *rArr:
				return r.apply(a[0], append([]val{}, x.v...))
			case *rPair:
				xs, ok := rslice(x)
				if !ok {
					return nil, rerr("apply")
				}
				return r.apply(a[0], xs)
			case nil:
				return nil, undet("apply to nil")
			}
			return nil, rerr("apply")
		},
		"map": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			if !isFn(a[0]) {
				return nil, rerr("map")
			}
			switch x := a[1].(type) {
			case *rArr:
				out := &rArr{hot: new(bool)}
				n := len(x.v)
				for i := 0; i < n; i++ {
					v, s := r.apply(a[0], []val{x.v[i]})
					if s != nil {
						return nil, s
					}
					out.v = append(out.v, v)
				}
				return out, nil
			case *rPair:
				xs, ok := rslice(x)
				if !ok {
					return nil, undet("map over improper list")
				}
				var out []val
				for _, y := range xs {
					v, s := r.apply(a[0], []val{y})
					if s != nil {
						return nil, s
					}
					out = append(out, v)
				}
				return rlist(out), nil
			case nil:
				return nil, undet("map over nil")
			}
			return nil, rerr("map")
		},
		"force": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			l, ok := a[0].(*rLazy)
			if !ok {
				return a[0], nil
			}
			if !l.forced {
				v, s := r.eval(l.x, l.sc)
				if s != nil {
					if s.kind == sBreak || s.kind == sContinue {
						s = undet("break in lazy")
					}
					return nil, s
				}
				l.v, l.forced = v, true
			}
			return l.v, nil
		},
		"substitute": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			l, ok := a[0].(*rLazy)
			if !ok {
				return a[0], nil
			}
			if v, ok := l.x.(rval); ok {
				return v.v, nil
			}
			return quoted(l.x), nil
		},
		"eval": func(r *revl, a []val) (val, *sig) {
			return nil, undet("eval")
		},
		"tryeval": func(r *revl, a []val) (val, *sig) {
			return nil, undet("eval")
		},
		"tryforce": func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			v, s := rBuiltins["force"](r, a[:1])
			if s != nil && s.kind == sErr {
				r.tries++
				return a[1], nil
			}
			return v, s
		},
	}
	for _, op := range []string{"+", "-", "*", "/"} {
		op := op
		rBuiltins[op] = func(r *revl, a []val) (val, *sig) {
			if len(a) < 2 {
				return nil, undet("unary " + op)
			}
			x := a[0]
			for _, y := range a[1:] {
				for _, z := range []val{x, y} {
					if isSym(z) {
						return nil, undet("arithmetic on a symbol")
					}
				}
				var s *sig
				if x, s = rnum(op, x, y); s != nil {
					return nil, s
				}
			}
			return x, nil
		}
	}
	for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
		op := op
		rBuiltins[op] = func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			c, ok, s := rcmp(a[0], a[1])
			if s != nil {
				return nil, s
			}
			if !ok {
				return op == "!=", nil
			}
			switch op {
			case "<":
				return c < 0, nil
			case ">":
				return c > 0, nil
			case "<=":
				return c <= 0, nil
			case ">=":
				return c >= 0, nil
			case "==":
				return c == 0, nil
			}
			return c != 0, nil
		}
	}
	for n, f := range map[string]func(p *rPair) (val, *sig){
		"first": func(p *rPair) (val, *sig) { return p.h, nil },
		"rest":  func(p *rPair) (val, *sig) { return p.t, nil },
		"second": func(p *rPair) (val, *sig) {
			if q, ok := p.t.(*rPair); ok {
				return q.h, nil
			}
			return nil, rerr("list too small")
		},
	} {
		n, f := n, f
		rBuiltins[n] = func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			switch x := a[0].(type) {
			case *rPair:
				return f(x)
			case *rArr:
				i := 0
				if n == "second" {
					i = 1
				}
				if n == "rest" {
					if len(x.v) == 0 {
						return x, nil
					}
					if s := x.touch(); s != nil {
						return nil, s
					}
					*x.hot = true // shares its memory with x
					return &rArr{v: append([]val{}, x.v[1:]...), hot: x.hot}, nil
				}
				if i >= len(x.v) {
					return nil, rerr("array too small")
				}
				return x.v[i], nil
			case nil:
				if n == "rest" {
					return nil, nil
				}
			}
			return nil, rerr("%s", n)
		}
	}
	for n, f := range map[string]func(v val) bool{
		"int?":    func(v val) bool { _, ok := v.(int64); return ok },
		"string?": func(v val) bool { _, ok := v.(string); return ok },
		"float?":  func(v val) bool { _, ok := v.(float64); return ok },
		"array?":  func(v val) bool { _, ok := v.(*rArr); return ok },
		"hash?":   func(v val) bool { _, ok := v.(*rHash); return ok },
		"null?":   func(v val) bool { return v == nil },
	} {
		n, f := n, f
		rBuiltins[n] = func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			if isSym(a[0]) {
				return nil, undet(n + " of a symbol")
			}
			return f(a[0]), nil
		}
	}
}

func (h *rHash) set(k, v val) {
	d := rdesc(k)
	if _, ok := h.m[d]; !ok {
		h.keys = append(h.keys, k)
	}
	h.m[d] = v
}
