package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// C04: what an evaluation leaves behind. Programs of the core language go
// through the reference evaluator with the stacks looked at after every
// form; programs of the whole surface language are evaluated one form at a
// time, together, and over and over in one interpreter.

// ---- a generator of surface programs, as text

type sgen struct {
	g      *G
	p      *pgen
	ints   []string // int variables in reach
	recs   []string // record variables
	types  []string // struct types declared
	funcs  []string // (func name [a:int64 b:int64] ..)
	pkgs   []string
	uniq   int
	loops  []string
	inLoop int
	grow   bool // only forms that may be repeated
	errs   int  // 0..100
	inPkg  int
	inFn   int
	inExpr int
}

func (s *sgen) id(p string) string {
	s.uniq++
	return fmt.Sprintf("%s%d", p, s.uniq)
}

func (s *sgen) pick(xs []string) string { return xs[s.g.Intn(len(xs))] }

// iexp is an int expression in prefix text.
func (s *sgen) iexp(d int) string {
	g := s.g
	if s.errs > 0 && g.Chance(s.errs, 400) {
		return pickS(g, "(fail 1)", "nowhere", "(/ 1 0)", "(first 1)", "(aget [1] 5)", "(+ 1 \"a\")", "(quote)", "(let [a] 1)", "(hget (hash) k:)", "{1 + }",
			"(begin (quote a b))", "(Nope a:1)", "(eval (quote (let 3)))", "(cond 1)", "(fn 3)", "((fn [a] a))", "(range 1)", "(source \"/nonexistent/x\")", "(var q Nope)", "(struct 3)",
			"(func 3)", "(func fq [a:Nope] [] 1)", "(package 3 4)", "(asUint64 \"x\")", "(unjson (raw \"{\"))", "{x++ = 3}", "(break)", "(set 3 4)", "(map 1 2)", "(apply + 3)", "(force 3)")
	}
	if d <= 0 {
		if len(s.ints) > 0 && g.Chance(1, 2) {
			return s.pick(s.ints)
		}
		return fmt.Sprint(g.Intn(10))
	}
	switch g.Intn(17) {
	case 0:
		return fmt.Sprintf("(%s %s %s)", pickS(g, "+", "-", "*"), s.iexp(d-1), s.iexp(d-1))
	case 1:
		return "{" + s.inf(d-1) + "}"
	case 2:
		return fmt.Sprintf("(emit %s)", s.iexp(d-1))
	case 3:
		return fmt.Sprintf("(cond (< %s %s) %s %s)", s.iexp(d-1), s.iexp(d-1), s.iexp(d-1), s.iexp(d-1))
	case 4:
		n := s.id("l")
		return fmt.Sprintf("(let [%s %s] %s (+ %s 1))", n, s.iexp(d-1), s.stmt(d-1), n)
	case 5:
		return fmt.Sprintf("((fn [q r] %s (+ q r)) %s %s)", s.inFnText(func() string { return s.stmt(d - 1) }), s.iexp(d-1), s.iexp(d-1))
	case 6:
		if len(s.funcs) > 0 {
			f := s.pick(s.funcs)
			if g.Chance(1, 3) {
				return fmt.Sprintf("(%s b:%s a:%s)", f, s.iexp(0), s.iexp(0))
			}
			return fmt.Sprintf("(%s %s %s)", f, s.iexp(d-1), s.iexp(d-1))
		}
	case 7:
		if len(s.recs) > 0 {
			r := s.pick(s.recs)
			return pickS(g, "(+ 0 "+r+".n)", "(:n "+r+")", "(hget "+r+" n:)", "{"+r+".n + 1}", "(+ "+r+".n "+r+".n)")
		}
	case 8:
		if len(s.pkgs) > 0 {
			k := s.pick(s.pkgs)
			return pickS(g, "(+ 0 "+k+".Pub)", "("+k+".Get 2)", "{"+k+".Pub + 1}")
		}
	case 9:
		return fmt.Sprintf("(begin %s %s)", s.stmt(d-1), s.iexp(d-1))
	case 10:
		return fmt.Sprintf("((func [z:int64] [r:int64] %s (+ z 1)) %s)", s.inFnText(func() string { return s.stmt(d - 1) }), s.iexp(d-1))
	case 11:
		return fmt.Sprintf("(eval (quote (+ %s %s)))", s.iexp(d-1), s.iexp(0))
	case 12:
		return fmt.Sprintf("(foldl2 %s)", s.iexp(d-1))
	case 13:
		return fmt.Sprintf("(len (map (fn [q] %s) [1 2]))", s.inFnText(func() string { return s.iexp(d - 1) }))
	case 14:
		return fmt.Sprintf("(lazy2 %s %s)", s.iexp(d-1), s.iexp(d-1))
	case 15:
		return fmt.Sprintf("(apply (fn [q & r] %s q) (list %s %s))", s.inFnText(func() string { return s.stmt(d - 1) }), s.iexp(d-1), s.iexp(0))
	case 16:
		return fmt.Sprintf("(newScope (def %s %s) %s)", s.id("n"), s.iexp(d-1), s.iexp(d-1))
	}
	return fmt.Sprint(g.Intn(10))
}

// inFnText makes text inside a function body, where outer loops are not in reach.
func (s *sgen) inFnText(f func() string) string {
	l := s.inLoop
	ll := s.loops
	s.inLoop, s.loops = 0, nil
	s.inFn++
	x := f()
	s.inFn--
	s.inLoop, s.loops = l, ll
	return x
}

// inf is an int expression in infix text.
func (s *sgen) inf(d int) string {
	g := s.g
	if d <= 0 {
		return s.iexp(0)
	}
	switch g.Intn(5) {
	case 0:
		return s.inf(d-1) + pickS(g, " + ", " - ", " * ") + s.inf(d-1)
	case 1:
		return s.iexp(d - 1)
	case 2:
		return "[4 5 6][" + fmt.Sprint(g.Intn(3)) + "]"
	case 3:
		return "(" + "+ 1 " + s.iexp(d-1) + ")"
	}
	return s.iexp(0)
}

func (s *sgen) infb(d int) string {
	return s.inf(d-1) + pickS(s.g, " < ", " > ", " == ", " <= ", " != ") + s.inf(d-1)
}

// istmts are statements of an infix block.
func (s *sgen) istmts(d int) string {
	var b []string
	for k := s.g.Range(1, 3); k > 0; k-- {
		b = append(b, s.istmt(d))
	}
	return strings.Join(b, pickS(s.g, "; ", "\n", ";\n"))
}

func (s *sgen) istmt(d int) string {
	g := s.g
	if d <= 0 {
		return "(emit " + s.iexp(0) + ")"
	}
	v := ""
	if len(s.ints) > 0 {
		v = s.pick(s.ints)
	}
	switch g.Intn(11) {
	case 0:
		if v != "" {
			return v + pickS(g, " = ", " += ", " -= ") + s.inf(d-1)
		}
	case 1:
		if v != "" {
			return v + pickS(g, "++", "--")
		}
	case 2:
		return "if " + s.infb(d-1) + " { " + s.istmts(d-1) + " }"
	case 3:
		return "if " + s.infb(d-1) + " { " + s.istmts(d-1) + " } else { " + s.istmts(d-1) + " }"
	case 4, 5:
		return s.ifor(d)
	case 6:
		if s.inLoop > 0 && s.inExpr == 0 {
			l := ""
			if len(s.loops) > 0 && g.Chance(1, 2) {
				l = " " + s.pick(s.loops)
			}
			return "if " + s.infb(d-1) + " { " + pickS(g, "break", "continue") + l + " }"
		}
	case 7:
		return s.stmt(d - 1)
	case 8:
		n := s.id("i")
		s.ints = append(s.ints, n)
		return n + " := " + s.inf(d-1)
	case 9:
		if len(s.recs) > 0 {
			return s.pick(s.recs) + ".n = " + s.inf(d-1)
		}
	}
	return "(emit " + s.iexp(d-1) + ")"
}

func (s *sgen) ifor(d int) string {
	g := s.g
	v := s.id("k")
	lab := ""
	if g.Chance(1, 3) {
		l := s.id("lab")
		lab = l + ": "
		s.loops = append(s.loops, l)
		defer func() { s.loops = s.loops[:len(s.loops)-1] }()
	}
	n := len(s.ints)
	body := func() string {
		s.inLoop++
		e := s.inExpr
		s.inExpr = 0
		x := s.istmts(d - 1)
		s.inExpr = e
		s.inLoop--
		s.ints = s.ints[:n]
		return x
	}
	switch g.Intn(5) {
	case 0:
		h := fmt.Sprintf("for %s := 0; %s < %d; %s++ {", v, v, g.Range(1, 3), v)
		return lab + h + body() + "}"
	case 1:
		w := s.id("v")
		s.ints = append(s.ints, w)
		return lab + "for " + v + ", " + w + " := range [3 4 5] {" + body() + "}"
	case 2:
		return lab + "for " + v + " := range (hash a:1 b:2) { (emit " + v + "); " + body() + "}"
	case 3:
		w := s.id("v")
		return lab + "for " + v + ", " + w + " := range (hash a:1 b:\"x\") {" + body() + "}"
	}
	return lab + "for " + v + " := 0; " + v + " < 2; " + v + " += 1 { " + body() + "}"
}

// stmt is a statement in prefix text, anywhere.
func (s *sgen) stmt(d int) string {
	g := s.g
	if d <= 0 {
		return "(emit " + s.iexp(0) + ")"
	}
	n := len(s.ints)
	keep := func() { s.ints = s.ints[:n] }
	switch g.Intn(19) {
	case 0:
		v := s.id("d")
		return "(def " + v + " " + s.iexp(d-1) + ")"
	case 1:
		if len(s.ints) > 0 {
			return "(set " + s.pick(s.ints) + " " + s.iexp(d-1) + ")"
		}
	case 2:
		defer keep()
		return "{" + s.istmts(d-1) + "}"
	case 3, 4: // a loop
		v := s.id("k")
		lab := ""
		if g.Chance(1, 3) {
			lab = s.id("lab")
			s.loops = append(s.loops, lab)
			defer func() { s.loops = s.loops[:len(s.loops)-1] }()
			lab += ": "
		}
		defer keep()
		s.ints = append(s.ints, v)
		s.inLoop++
		e := s.inExpr
		s.inExpr = 0
		b := s.stmt(d-1) + " " + s.stmt(d-1)
		s.inExpr = e
		s.inLoop--
		return fmt.Sprintf("(for %s[(def %s 0) (< %s %d) (set %s (+ %s 1))] %s)", lab, v, v, g.Range(1, 3), v, v, b)
	case 5:
		if s.inLoop > 0 && s.inExpr == 0 {
			l := ""
			if len(s.loops) > 0 && g.Chance(1, 2) {
				l = " " + s.pick(s.loops) + ":"
			}
			return fmt.Sprintf("(cond (> %s %s) (%s%s) nil)", s.iexp(0), s.iexp(0), pickS(g, "break", "continue"), l)
		}
	case 6:
		f := s.id("f")
		x := fmt.Sprintf("(defn %s [a b] %s)", f, s.inFnText(func() string { return s.stmt(d-1) + " " + s.iexp(d-1) }))
		return x + " (emit (" + f + " 1 2))"
	case 7: // func
		f := s.id("fu")
		x := fmt.Sprintf("(func %s [a:int64 b:int64] [r:int64] %s)", f, s.inFnText(func() string { return s.stmt(d-1) + " " + pickS(g, "(+ a b)", "(return (* a b))", s.iexp(d-1)) }))
		return x + " (emit (" + f + " 1 2)) (emit (" + f + " b:3 a:4))"
	case 8: // struct
		t := s.id("Ty")
		v := s.id("r")
		return fmt.Sprintf("(struct %s [(field n: int64 e:0) (field s: string e:1)%s]) (def %s (%s n:%s%s)) (emit (:n %s))",
			t, pickS(g, "", " (field t: ([]string) e:2)", " (field o: (* "+t+") e:2)"), v, t, s.iexp(0), pickS(g, "", ` s:"a"`), v)
	case 9:
		return fmt.Sprintf("(var %s %s)", s.id("va"), pickS(g, "int64", "string", "bool", "float64", "(* int64)", "([]string)", "([]int64)", "uint64", "int32"))
	case 10: // package
		k := s.id("pk")
		s.inPkg++
		x := fmt.Sprintf("(def %s (package \"%s\" %s(def Pub %s) (def priv 2) (defn Get [x] (+ x priv)) %s)) (emit (+ 0 %s.Pub)) (emit (%s.Get 4))", k, k,
			pickS(g, "", "{ Aa := 3; bb := 4 } "), s.iexp(1), s.stmt(d-1), k, k)
		s.inPkg--
		return x
	case 11:
		v := s.id("r")
		w := s.id("r")
		defer keep()
		s.inLoop += 0
		l, ll := s.inLoop, s.loops
		s.inLoop, s.loops = 0, nil
		x := fmt.Sprintf("(let [hh (hash a:1 b:2)] (range %s %s hh (emit %s) %s))", v, w, w, s.stmt(d-1))
		s.inLoop, s.loops = l, ll
		return x
	case 12:
		return fmt.Sprintf("(interface %s [(func Fly [w:int64] [r:int64])])", s.id("If"))
	case 13:
		return "(begin)"
	case 14:
		return "(cond (> " + s.iexp(0) + " 4) (begin " + s.stmt(d-1) + ") (begin " + s.stmt(d-1) + "))"
	case 15:
		return pickS(g, `(expectError "Error calling '/': division by zero" (/ 1 0))`, "(assert (== 1 1))", "(expectError \"\" 3)", "(quote (a b))", "(infixExpand {a + b})",
			"(macexpand (++ a))", "(mdef ma mb (list 1 2))", "()", "{}", "(newScope)", "(raw \"abc\")", "(json (hash a:1))", "(unjson (json (hash a:1)))",
			"(msgpack (hash a:1))", "(let [p (& (hash a:1))] (* p))", "[]", "(sliceOf int64)", "(type? 3)", "(fn [] 3)", "(func [] [] 3)", "(hash)", "%a", "^(a ~(+ 1 2))",
			"(str 3)", "/* c */", "(return)", "(return 3)", "(substitute 3)", "(gensym)", "\"a\"", "(comma 1 2)", "(cons 1 2)", "(method [p: (* Nope)] mm [] [] 3)",
			"(:0 [4 5])", "(str2sym \"abc\")", "(split \"a b\" \" \")", "(sort < [3 1 2])", "(map str [1 2])", "(let [h (hash b:1)] (set h.b 3) h.b)", "(togo rp)", "(json2 (hash a:1))", "(concat [1] [2])", "(append [1] 2)", "(slice [1 2 3] 0 1)", "(ptr int64)", "(printf \"\")", "(typelist)", "(let [x 3] (:x [1 2 3 4]))", "{[1 2 3][1]}", "(sget \"abc\" 1)", "(defmap ranch)", "(macexpand (defmap r))", "(eval (list (quote +) 1 2))")
	case 16:
		t := s.id("Me")
		m := s.id("meth")
		return fmt.Sprintf("(struct %s [(field n: int64 e:0)]) (method [p: (* %s)] %s [a:int64] [r:int64] %s)", t, t, m, s.inFnText(func() string { return s.iexp(d - 1) }))
	case 17:
		return fmt.Sprintf("(let [%s %s] %s)", s.id("l"), s.iexp(d-1), s.stmt(d-1))
	case 18:
		f := s.id("mac")
		return fmt.Sprintf("(eval (quote %s))", strings.Replace(s.inFnText(func() string { return s.iexp(d - 1) }), "#", f, -1))
	}
	return "(emit " + s.iexp(d-1) + ")"
}

const sPrelude = `(defn foldl2 [n] (let [acc 0] (for [(def i 0) (< i 2) (set i (+ i 1))] (set acc (+ acc n))) acc))
(defn lazy2 [a #b] (cond (> a 4) (force #b) a))
(def a 3) (def b 4)
(struct TyP [(field n: int64 e:0) (field s: string e:1)])
(def rp (TyP n:5 s:"z"))
(func fup [a:int64 b:int64] [r:int64] (+ a b))
(def pkp (package "pkp" (def Pub 7) (def hid 3) (defn Get [x] (+ x hid))))
(defmac twice [x] ^(begin ~x ~x))`

func newSgen(g *G, errs int) *sgen {
	return &sgen{g: g, errs: errs, ints: []string{"a", "b"}, recs: []string{"rp"}, types: []string{"TyP"}, funcs: []string{"fup"}, pkgs: []string{"pkp"}}
}

// top is a form, or several, at top level.
func (s *sgen) top(d int) string {
	if s.g.Chance(1, 6) {
		return s.iexp(d)
	}
	if s.g.Chance(1, 12) {
		return "(twice " + s.stmt(d-1) + ")"
	}
	return s.stmt(d)
}

// surfRun evaluates a text with effects noted.
func surfEnv() (*Zlisp, *irun, string) {
	env := newIn()
	run := newRun(env)
	if _, err, _ := run.eval(sPrelude, 1<<40); err != nil {
		return env, run, err.Error()
	}
	run.log = nil
	return env, run, ""
}

// sdesc is idesc without what holds addresses.
func sdesc(x Sexp) string {
	switch x.(type) {
	case *SexpPointer, *SexpReflect, *RegisteredType, *SexpRaw, *Stack:
		return fmt.Sprintf("<%T>", x)
	}
	d := idesc(x)
	if i := strings.Index(d, "0x"); i >= 0 || strings.Contains(d, "__gensym") {
		return fmt.Sprintf("<%T>", x)
	}
	return d
}

// ---- the size of what an interpreter holds

type sizer struct {
	seen map[unsafe.Pointer]bool
	n    int
	by   map[string]int
}

// envSize counts what is reachable from an interpreter: objects, elements
// of slices and maps. Registered types are shared by all interpreters and
// not counted.
func envSize(env *Zlisp) int { n, _ := envSizeBy(env); return n }

func envSizeBy(env *Zlisp) (int, map[string]int) {
	z := &sizer{seen: map[unsafe.Pointer]bool{}, by: map[string]int{}}
	z.walk(reflect.ValueOf(env))
	return z.n, z.by
}

func (z *sizer) add(n int, t reflect.Type) {
	z.n += n
	z.by[t.String()] += n
}

func (z *sizer) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		p := v.UnsafePointer()
		if z.seen[p] {
			return
		}
		if v.Type() == reflect.TypeOf((*RegisteredType)(nil)) {
			return
		}
		if s := v.Type().String(); s == "*bytes.Buffer" || strings.HasPrefix(s, "*reflect.") || strings.HasPrefix(s, "*sync.") || s == "*regexp.Regexp" {
			return
		}
		z.seen[p] = true
		z.add(1, v.Type())
		z.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			z.walk(v.Elem())
		}
	case reflect.Struct:
		if v.Type().String() == "reflect.Value" || v.Type().String() == "time.Time" || v.Type().String() == "bytes.Buffer" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			z.walk(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		z.add(v.Len(), v.Type())
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Map, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				z.walk(v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			z.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		p := v.UnsafePointer()
		if z.seen[p] {
			return
		}
		z.seen[p] = true
		z.add(v.Len(), v.Type())
		it := v.MapRange()
		for it.Next() {
			z.walk(it.Key())
			z.walk(it.Value())
		}
	}
}

// refSize is the like for the reference evaluator.
func refSize(r *revl) int {
	z := &sizer{seen: map[unsafe.Pointer]bool{}, by: map[string]int{}}
	z.walk(reflect.ValueOf(r.global))
	return z.n
}

func grown(env *Zlisp, round func() bool, rounds int) (string, bool) {
	for i := 0; i < 3; i++ {
		if !round() {
			return "", false
		}
	}
	n1, _ := envSizeBy(env)
	for i := 0; i < rounds; i++ {
		if !round() {
			return "", false
		}
	}
	n2, b2 := envSizeBy(env)
	if n2 <= n1 {
		return "", true
	}
	for i := 0; i < 2*rounds; i++ {
		if !round() {
			return "", false
		}
	}
	n3, b3 := envSizeBy(env)
	if n3 < n2+rounds {
		return "", true
	}
	var what []string
	for k := range b3 {
		if b3[k] > b2[k] {
			what = append(what, fmt.Sprintf("%s %d to %d", k, b2[k], b3[k]))
		}
	}
	return fmt.Sprintf("growth: the interpreter holds %d objects after 3 evaluations, %d after %d, %d after %d (%v)", n1, n2, 3+rounds, n3, 3+3*rounds, sortedS(what)), true
}

func sortedS(x []string) []string {
	m := map[string]bool{}
	for _, s := range x {
		m[s] = true
	}
	return sortedKeys(m)
}

// hostForms evaluates a program form by form, each by another of the ways
// that a Go program has to make an interpreter evaluate something.
func hostForms(g *G, xs []X, errs bool) (res Res, ref *revl, by map[string]int) {
	ref = newRef()
	by = map[string]int{}
	env := newIn()
	run := newRun(env)
	idle := stackSizes(env)
	var text string
	quote := func(t string) Sexp {
		q, err := env.EvalString("(quote " + t + ")")
		if err != nil {
			panic("harness: quoting " + t + ": " + err.Error())
		}
		return q
	}
	for i, y := range xs {
		if _, ok := y.(cm); ok {
			continue
		}
		t := render(y)
		var do func() (Sexp, error)
		z := y
		route := pickS(g, "EvalString", "LoadString", "EvalExpressions", "LoadExpressions", "Apply", "Apply", "ApplyArgs", "EvalFunction", "MapArray", "Force")
		if strings.Contains(t, "/*") || strings.Contains(t, "//") {
			route = "EvalString"
		}
		fn := func(t string) (*SexpFunction, error) {
			x, err := env.EvalString(t)
			f, _ := x.(*SexpFunction)
			if err == nil && f == nil {
				panic("harness: no function: " + t)
			}
			return f, err
		}
		switch route {
		case "EvalString":
			do = func() (Sexp, error) { return env.EvalString(t) }
		case "LoadString":
			do = func() (Sexp, error) {
				if err := env.LoadString(t); err != nil {
					return SexpNull, err
				}
				return env.Run()
			}
		case "EvalExpressions", "LoadExpressions":
			do = func() (Sexp, error) {
				q := quote(t)
				if route == "EvalExpressions" {
					return env.EvalExpressions([]Sexp{q})
				}
				if err := env.LoadExpressions([]Sexp{q}); err != nil {
					return SexpNull, err
				}
				return env.Run()
			}
		case "Apply":
			z = li{li{sy("fn"), ar{}, y}}
			do = func() (Sexp, error) {
				f, err := fn("(fn [] " + t + ")")
				if err != nil {
					return SexpNull, err
				}
				return env.Apply(f, nil)
			}
		case "ApplyArgs":
			z = li{li{sy("fn"), ar{sy("hq"), sy("&"), sy("hr")}, y}, 1, 2, 3}
			do = func() (Sexp, error) {
				f, err := fn("(fn [hq & hr] " + t + ")")
				if err != nil {
					return SexpNull, err
				}
				return env.Apply(f, []Sexp{&SexpInt{Val: 1}, &SexpInt{Val: 2}, &SexpInt{Val: 3}})
			}
		case "EvalFunction":
			z = li{sy("eval"), li{sy("quote"), y}}
			do = func() (Sexp, error) { return EvalFunction(env, "eval", []Sexp{quote(t)}) }
		case "MapArray":
			z = li{sy("map"), li{sy("fn"), ar{sy("hq")}, y}, ar{1, 2}}
			do = func() (Sexp, error) {
				f, err := fn("(fn [hq] " + t + ")")
				if err != nil {
					return SexpNull, err
				}
				return MapArray(env, f, &SexpArray{Val: []Sexp{&SexpInt{Val: 1}, &SexpInt{Val: 2}}, Env: env})
			}
		case "Force":
			do = func() (Sexp, error) { return NewSourceLazyArg(env, quote(t)).Force(env) }
		}
		text += fmt.Sprintf("by %s: %s\n", route, t)
		was, steps := len(ref.log), ref.steps
		v, s, _ := refProg(ref, []X{z})
		if s != nil && s.kind != sErr {
			res.Skip = i == 0
			break
		}
		if s != nil {
			ref.errs++
			if !errs {
				break
			}
		}
		by[route]++
		run.log = nil
		x, err, over := run.limited(ref.limit(steps), do)
		if over && len(ref.macros) > 0 {
			break
		}
		if f := judge(v, s, ref.log[was:], x, err, over, run.log); f != "" {
			res.Fail = fmt.Sprintf("form %d: %s\nby the host, form by form:\n%s\nshould be: %s\neffects: %q\ngot: %s\neffects: %q", i, f, text, outText(v, s), clipS(ref.log[was:]), implText(x, err), clipS(run.log))
			res.Sig = sigOf(f)
			break
		}
		if after := stackSizes(env); fmt.Sprint(after) != fmt.Sprint(idle) {
			res.Fail = fmt.Sprintf("form %d leaves the stacks at %v, were %v\nby the host, form by form:\n%s", i, after, idle, text)
			res.Sig = "stacks"
			break
		}
		if x, err := env.EvalString(""); err != nil || x != SexpNull {
			res.Fail = fmt.Sprintf("after form %d evaluating nothing gives %s, error %v\nby the host, form by form:\n%s", i, show(x), err, text)
			res.Sig = "empty"
			break
		}
		if x, err := env.EvalString("(+ 40 2)"); err != nil || show(x) != "42" {
			res.Fail = fmt.Sprintf("after form %d evaluating (+ 40 2) gives %s, error %v\nby the host, form by form:\n%s", i, show(x), err, text)
			res.Sig = "answer"
			break
		}
	}
	res.Key, res.Sample = text, text
	return res, ref, by
}

func init() {
	core := pcfg{loops: 3, funcs: 4, closure: 2, tail: 2, effects: 3, maxd: 4, comment: true, eval: 1}
	rest := func(withErrs bool) func(env *Zlisp, x X, before, after []int, err error) string {
		var idle []int
		var first *Zlisp
		return func(env *Zlisp, x X, before, after []int, err error) string {
			if first != env {
				first, idle = env, before
			}
			if err != nil && !withErrs {
				return ""
			}
			if fmt.Sprint(after) != fmt.Sprint(idle) {
				return fmt.Sprintf("stacks: at %v after the form, at %v before the program", after, idle)
			}
			v, e := env.EvalString("")
			if e != nil || v != SexpNull {
				return fmt.Sprintf("empty: evaluating nothing gave %s, error %v", show(v), e)
			}
			if s := stackSizes(env); fmt.Sprint(s) != fmt.Sprint(idle) {
				return fmt.Sprintf("empty: evaluating nothing left the stacks at %v, were %v", s, idle)
			}
			return ""
		}
	}
	coreRun := func(c pcfg, forms, size int) func(g *G) Res {
		return func(g *G) Res {
			xs, _ := progCase(g, c, forms, size)
			res, ref := cmpWith(xs, nil, rest(false))
			res.NonTrivial = ref.calls >= 2 && ref.steps >= 20
			return res
		}
	}
	loops := core
	loops.loops, loops.closure = 12, 1
	macros := func(g *G) Res {
		m := &m15{g: g, p: &pgen{g: g, c: pcfg{loops: 1, funcs: 2, closure: 1, tail: 1, effects: 3, maxd: 3, names: []string{"a", "b", "x", "y"}}, budget: 120}}
		m.p.sc = []gscope{{}}
		res, ref := cmpWith(m.program(false), mutators, rest(false))
		res.NonTrivial = ref.expands >= 2
		return res
	}
	forms := func(g *G, errs int) []string {
		s := newSgen(g, errs)
		var fs []string
		for k := g.Range(1, 5); k > 0; k-- {
			fs = append(fs, s.top(g.Range(1, 4)))
		}
		return fs
	}
	surface := func(g *G) Res {
		fs := forms(g, 0)
		text := strings.Join(fs, "\n")
		res := Res{Key: text, Sample: text}
		env, run, bad := surfEnv()
		if bad != "" {
			return Res{Fail: "prelude: " + bad}
		}
		idle := stackSizes(env)
		var last string
		good := 0
		for i, f := range fs {
			v, err, over := run.eval(f, 200000)
			if over {
				return Res{Skip: true}
			}
			if err != nil {
				good = -1
				break
			}
			good++
			last = sdesc(v)
			if s := stackSizes(env); fmt.Sprint(s) != fmt.Sprint(idle) {
				res.Fail = fmt.Sprintf("form %d leaves the stacks at %v, were %v\nprogram:\n%s", i, s, idle, text)
				res.Sig = "stacks"
				return res
			}
			v, err = env.EvalString(pickS(g, "", " \n", "// nothing", "/* nothing */"))
			if v != SexpNull || err != nil {
				res.Fail = fmt.Sprintf("after form %d evaluating nothing gives %s, error %v\nprogram:\n%s", i, show(v), err, text)
				res.Sig = "empty"
				return res
			}
		}
		res.Evals = len(fs)
		res.NonTrivial = good > 0 && (len(run.log) > 0 || len(text) > 40)
		if good < 0 {
			res.NonTrivial = false
			return res
		}
		for k, whole := range []string{text, "(begin " + text + "\n)"} {
			env2, run2, _ := surfEnv()
			v, err, over := run2.eval(whole, 400000)
			if over {
				return res
			}
			how := []string{"together", "in a begin"}[k]
			if err != nil {
				res.Fail = fmt.Sprintf("evaluated %s: error %s; one at a time: no error\nprogram:\n%s", how, clip(err.Error(), 500), text)
			} else if d := diffLogs(run2.log, run.log); d != "" {
				res.Fail = fmt.Sprintf("evaluated %s: %s\nprogram:\n%s", how, d, text)
			} else if d := sdesc(v); d != last && k == 0 && fs[len(fs)-1] != "/* c */" {
				res.Fail = fmt.Sprintf("evaluated %s: value is %s; one at a time: %s\nprogram:\n%s", how, clip(d, 300), clip(last, 300), text)
			} else if s := stackSizes(env2); fmt.Sprint(s) != fmt.Sprint(idle) {
				res.Fail = fmt.Sprintf("evaluated %s it leaves the stacks at %v, were %v\nprogram:\n%s", how, s, idle, text)
			}
			if res.Fail != "" {
				res.Sig = how
				return res
			}
		}
		return res
	}
	growS := func(g *G) Res {
		s := newSgen(g, 0)
		var f string
		for f == "" || strings.Contains(f, "gensym") {
			f = s.top(g.Range(1, 3))
		}
		res := Res{Key: f, Sample: f}
		env, run, bad := surfEnv()
		if bad != "" {
			return Res{Fail: "prelude: " + bad}
		}
		fail, ok := grown(env, func() bool {
			_, err, over := run.eval(f, 100000)
			run.log = nil
			return err == nil && !over
		}, 4)
		res.NonTrivial = ok && len(f) > 12
		if fail != "" {
			res.Fail = fail + "\nevaluating over and over:\n" + f
			res.Sig = "growth"
		}
		return res
	}
	growC := func(g *G) Res {
		xs, _ := progCase(g, core, 4, 60)
		text := renderProg(xs)
		res := Res{Key: text, Sample: text}
		ref := newRef()
		ref.maxSteps = 400000
		env := newIn()
		run := newRun(env)
		rsize := []int{}
		round := func() bool {
			steps := ref.steps
			_, s, _ := refProg(ref, xs)
			ref.log = nil
			if s != nil {
				return false
			}
			_, err, over := run.eval(text, (ref.steps-steps)*60+20000)
			run.log = nil
			rsize = append(rsize, refSize(ref))
			return err == nil && !over
		}
		fail, ok := grown(env, round, 4)
		res.NonTrivial = ok && ref.calls >= 8
		if fail != "" {
			if n := len(rsize); rsize[n-1] > rsize[2] {
				return res // the program keeps more and more
			}
			res.Fail = fail + "\nevaluating over and over:\n" + text
			res.Sig = "growth"
		}
		return res
	}
	register(&Prop{
		ID: "C04", Level: "exploration",
		Rule: "the program makes calls or effects and every form succeeds (growth parts: every repetition succeeds)",
		Parts: []Part{
			{Name: "core", Quick: 40000, Thorough: 500000, Run: coreRun(core, 6, 120)},
			{Name: "loops", Quick: 20000, Thorough: 300000, Run: coreRun(loops, 5, 120)},
			{Name: "macros", Quick: 15000, Thorough: 200000, Run: macros},
			{Name: "surface", Quick: 25000, Thorough: 400000, Run: surface},
			{Name: "host", Quick: 15000, Thorough: 250000, Run: func(g *G) Res {
				xs, _ := progCase(g, core, 6, 120)
				res, ref, by := hostForms(g, xs, false)
				res.NonTrivial = ref.calls >= 2 && ref.steps >= 20 && len(by) >= 2
				return res
			}},
			{Name: "growth-surface", Quick: 8000, Thorough: 120000, Run: growS},
			{Name: "growth-core", Quick: 6000, Thorough: 100000, Run: growC},
		},
	})
}
