package main

// C17: declared struct types. Histories of declarations, constructions and
// writes by every route; after each step every instance is judged against
// the declaration it was made by, and compared with how it was.

import (
	"fmt"
	"sort"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// sdef is one declaration of a struct.
type sdef struct {
	name string
	ver  int
	fs   []sfield
}

type sfield struct {
	name string
	ty   *sty
}

// sty is the type of a field.
type sty struct {
	kind string // a base type, or slice, ptr, struct
	el   *sty
	def  *sdef
}

func (t *sty) text() string {
	switch t.kind {
	case "slice":
		return "([]" + t.el.text() + ")"
	case "ptr":
		return "(* " + t.el.text() + ")"
	case "struct":
		return t.def.name
	}
	return t.kind
}

func (t *sty) show() string {
	if t.kind == "struct" {
		return fmt.Sprintf("%s#%d", t.def.name, t.def.ver)
	}
	if t.el != nil {
		return map[string]string{"slice": "[]", "ptr": "*"}[t.kind] + t.el.show()
	}
	return t.kind
}

func (d *sdef) field(n string) *sty {
	for _, f := range d.fs {
		if f.name == n {
			return f.ty
		}
	}
	return nil
}

// w17 is a world of declarations and instances.
type w17 struct {
	g     *G
	env   *Zlisp
	r     *irun
	log   []string
	cur   map[string]*sdef // declarations in force
	order []string
	defs  int
	of    map[*SexpHash]*sdef // which declaration an instance was made by
	vars  []string            // variables that hold instances
	hold  map[string]*SexpHash
	ptrs  []string // variables that hold pointers to instances
	n     int
	acc   int
	rej   int
	known string
}

func (w *w17) run(text string) (Sexp, error) {
	w.log = append(w.log, text)
	v, err, over := w.r.eval(text, 200000)
	if over {
		panic("harness: C17 step does not end: " + text)
	}
	if err != nil {
		w.log[len(w.log)-1] += "  // error"
		w.env.Clear()
	}
	return v, err
}

// judge says whether a value may be in a field of a type.
func (w *w17) judge(x Sexp, t *sty) string {
	bad := func() string { return fmt.Sprintf("%s (%T) where %s belongs", sdesc(x), x, t.show()) }
	if x == SexpNull {
		return "" // nil
	}
	if a, ok := x.(*SexpArray); ok && len(a.Val) == 0 && t.kind == "slice" {
		return ""
	}
	ok := false
	if r, isR := x.(*SexpReflect); isR { // made by var
		if ty := r.Type(); ty != nil && ty.RegisteredName == t.show() && t.kind != "struct" {
			return ""
		}
		return bad()
	}
	switch t.kind {
	case "int64":
		_, ok = x.(*SexpInt)
	case "uint64":
		_, ok = x.(*SexpUint64)
	case "float64":
		_, ok = x.(*SexpFloat)
	case "string":
		_, ok = x.(*SexpStr)
	case "bool":
		_, ok = x.(*SexpBool)
	case "symbol":
		_, ok = x.(*SexpSymbol)
	case "rune", "int32":
		_, ok = x.(*SexpChar)
	case "struct":
		h, isH := x.(*SexpHash)
		ok = isH && w.of[h] == t.def
	case "ptr":
		p, isP := x.(*SexpPointer)
		if isP {
			h, isH := p.Target.(*SexpHash)
			if t.el.kind == "struct" {
				ok = isH && w.of[h] == t.el.def
			} else {
				ok = w.judge(p.Target, t.el) == ""
			}
		}
	case "slice":
		a, isA := x.(*SexpArray)
		ok = isA
		if isA {
			for _, e := range a.Val {
				if m := w.judge(e, t.el); m != "" {
					return m + " in a slice"
				}
			}
		}
	}
	if !ok {
		return bad()
	}
	return ""
}

// identity of a value, for telling whether a field was changed.
func ident(x Sexp) string {
	switch x := x.(type) {
	case *SexpHash:
		return fmt.Sprintf("hash at %p", x)
	case *SexpPointer:
		if h, ok := x.Target.(*SexpHash); ok {
			return fmt.Sprintf("pointer to hash at %p", h)
		}
		return "pointer to " + sdesc(x.Target)
	case *SexpArray:
		var s []string
		for _, e := range x.Val {
			s = append(s, ident(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return sdesc(x)
}

func (w *w17) snap(h *SexpHash) string {
	s := "type " + h.TypeName
	for _, k := range h.KeyOrder {
		v, err := h.HashGetDefault(w.env, k, SexpEnd)
		if err != nil {
			s += fmt.Sprintf("\n %s !%v", sdesc(k), err)
			continue
		}
		s += fmt.Sprintf("\n %s = %s", sdesc(k), ident(v))
	}
	return s
}

func (w *w17) snaps() map[*SexpHash]string {
	m := map[*SexpHash]string{}
	for h := range w.of {
		m[h] = w.snap(h)
	}
	return m
}

// check judges all instances.
func (w *w17) check() string {
	var out []string
	for h, d := range w.of {
		if h.TypeName != d.name {
			out = append(out, fmt.Sprintf("an instance of %s has the type %s", d.name, h.TypeName))
			continue
		}
		seen := map[string]bool{}
		for _, k := range h.KeyOrder {
			s, ok := k.(*SexpSymbol)
			if !ok {
				out = append(out, fmt.Sprintf("an instance of %s#%d has the key %s", d.name, d.ver, sdesc(k)))
				continue
			}
			if seen[s.Name()] {
				out = append(out, fmt.Sprintf("an instance of %s has the field %s twice", d.name, s.Name()))
			}
			seen[s.Name()] = true
			t := d.field(s.Name())
			if t == nil {
				out = append(out, fmt.Sprintf("an instance of %s#%d has the field %s, which is not declared", d.name, d.ver, s.Name()))
				continue
			}
			v, err := h.HashGetDefault(w.env, k, SexpEnd)
			if err != nil || v == SexpEnd {
				out = append(out, fmt.Sprintf("field %s of %s has no value: %v", s.Name(), d.name, err))
				continue
			}
			if m := w.judge(v, t); m != "" {
				out = append(out, fmt.Sprintf("field %s of an instance of %s#%d holds %s", s.Name(), d.name, d.ver, m))
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	sort.Strings(out)
	return out[0]
}

func (w *w17) fail(what, sig string) Res {
	return Res{Fail: strings.Join(w.log, "\n") + "\n" + what, Sig: sig}
}

// ---- types and values

var c17base = []string{"int64", "string", "bool", "float64", "uint64", "symbol", "rune"}

func (w *w17) fieldType(self string, d int) *sty {
	g := w.g
	switch k := g.Weighted(8, 3, 3, 3); {
	case k == 1 && d > 0:
		return &sty{kind: "slice", el: w.fieldType("", d-1)}
	case k == 2 && len(w.order) > 0:
		return &sty{kind: "struct", def: w.cur[w.order[g.Intn(len(w.order))]]}
	case k == 3:
		if self != "" && g.Chance(1, 3) {
			return &sty{kind: "ptr", el: &sty{kind: "struct", def: &sdef{name: self, ver: -1}}}
		}
		if len(w.order) > 0 {
			return &sty{kind: "ptr", el: &sty{kind: "struct", def: w.cur[w.order[g.Intn(len(w.order))]]}}
		}
	}
	return &sty{kind: c17base[g.Weighted(5, 4, 2, 2, 1, 1, 1)]}
}

var c17fields = []string{"a", "b", "c", "Dd", "fe"}

// declare declares a struct, maybe once more. The declaration before it is
// changed a little, or replaced.
func (w *w17) declare() *Res {
	g := w.g
	name := pickS(g, "Ta", "Tb", "Tc")
	old := w.cur[name]
	d := &sdef{name: name}
	w.defs++
	d.ver = w.defs
	if old != nil && g.Chance(2, 3) {
		d.fs = append(d.fs, old.fs...)
		for i := range d.fs {
			if g.Chance(1, 3) {
				d.fs[i].ty = w.fieldType(name, 2)
			}
		}
		if len(d.fs) > 1 && g.Chance(1, 3) {
			d.fs = d.fs[1:]
		}
	} else {
		for _, f := range c17fields {
			if g.Chance(2, 3) {
				d.fs = append(d.fs, sfield{f, w.fieldType(name, 2)})
			}
		}
	}
	// what is declared anew refers to what is in force now, and to itself
	for i, f := range d.fs {
		d.fs[i].ty = w.refresh(f.ty, name)
		fixSelf(d.fs[i].ty, d)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(struct %s [", name)
	for i, f := range d.fs {
		if f.ty.kind == "struct" && f.ty.def.name == name {
			// by value inside itself: what it refers to is not stated
			d.fs[i].ty = &sty{kind: "int64"}
			f = d.fs[i]
		}
		fmt.Fprintf(&b, "(field %s: %s e:%d) ", f.name, f.ty.text(), i)
	}
	b.WriteString("])")
	before := w.snaps()
	if _, err := w.run(b.String()); err != nil {
		r := w.fail("the declaration failed: "+err.Error(), "declaration")
		return &r
	}
	if m := w.changed(before, nil); m != "" {
		r := w.fail("the declaration changed an instance: "+m, "declaration changes")
		return &r
	}
	if old == nil {
		w.order = append(w.order, name)
	}
	w.cur[name] = d
	return nil
}

// refresh makes a type refer to the declarations in force.
func (w *w17) refresh(t *sty, self string) *sty {
	switch {
	case t.el != nil:
		return &sty{kind: t.kind, el: w.refresh(t.el, self)}
	case t.kind == "struct" && t.def.name == self:
		return &sty{kind: "struct", def: &sdef{name: self, ver: -1}}
	case t.kind == "struct":
		return &sty{kind: "struct", def: w.cur[t.def.name]}
	}
	return t
}

func fixSelf(t *sty, d *sdef) {
	if t.el != nil {
		fixSelf(t.el, d)
	}
	if t.kind == "struct" && t.def.ver == -1 {
		t.def = d
	}
}

// someVar is a variable with an instance of a declaration (nil for any).
func (w *w17) someVar(d *sdef) string {
	var c []string
	for _, v := range w.vars {
		if d == nil || w.of[w.hold[v]] == d {
			c = append(c, v)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return c[w.g.Intn(len(c))]
}

// good is an expression of a type, "" when there is none.
func (w *w17) good(t *sty, d int) string {
	g := w.g
	switch t.kind {
	case "int64":
		return pickS(g, "0", "1", "-7", "42", "9223372036854775807", "(+ 1 2)")
	case "uint64":
		return pickS(g, "0ULL", "7ULL", "18446744073709551615ULL")
	case "float64":
		return pickS(g, "0.0", "2.5", "-1e9", "(/ 1 2)")
	case "string":
		return pickS(g, `""`, `"x"`, "`y`", `(concat "a" "b")`)
	case "bool":
		return pickS(g, "true", "false", "(== 1 1)")
	case "symbol":
		return pickS(g, "(quote w)", "%v1")
	case "rune":
		return pickS(g, "'a'", "'z'")
	case "struct":
		if v := w.someVar(t.def); v != "" {
			return v
		}
		if w.cur[t.def.name] == t.def && d > 0 {
			return w.literal(t.def, d-1, false)
		}
	case "ptr":
		if t.el.kind == "struct" {
			if v := w.someVar(t.el.def); v != "" {
				return "(& " + v + ")"
			}
			if w.cur[t.el.def.name] == t.el.def && d > 0 {
				return "(& " + w.literal(t.el.def, d-1, false) + ")"
			}
		}
	case "slice":
		if g.Chance(1, 4) {
			return "[]"
		}
		var s []string
		for n := g.Range(1, 3); n > 0; n-- {
			e := w.good(t.el, d-1)
			if e == "" || e == "[]" && len(s) == 0 {
				return "[]"
			}
			s = append(s, e)
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return ""
}

// literal makes an instance; complete ones have every field they can have.
func (w *w17) literal(d *sdef, depth int, full bool) string {
	s := "(" + d.name
	for _, f := range d.fs {
		if full || w.g.Chance(1, 2) {
			if e := w.good(f.ty, depth); e != "" {
				s += fmt.Sprintf(" %s: %s", f.name, e)
			}
		}
	}
	return s + ")"
}

// any is an expression of any type.
func (w *w17) any(d int) string {
	g := w.g
	switch g.Weighted(4, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1) {
	case 0:
		return w.good(&sty{kind: c17base[g.Intn(len(c17base))]}, 0)
	case 1:
		return pickS(g, "[]", "[1 2]", `["s"]`, "[[1] [2]]", "[[]]", "[2.5]")
	case 2:
		return pickS(g, `[1 "s"]`, `["s" 1]`, "[1 2.5]", "[[1] [\"s\"]]", "[nil]")
	case 3:
		return pickS(g, "(list 1 2)", "(quote (a \\ b))", "(raw \"x\")", "println", "(fn [x] x)", "(hash a:1)", "int64")
	case 4:
		return pickS(g, "(& 5)", "(& \"s\")", "(& (hash a:1))", "(& [1])")
	case 5:
		if len(w.vars) > 0 {
			return "[" + w.someVar(nil) + "]"
		}
	case 6:
		if len(w.vars) > 0 {
			return w.someVar(nil)
		}
	case 7:
		if len(w.vars) > 0 {
			return "(& " + w.someVar(nil) + ")"
		}
	case 8:
		if len(w.order) > 0 {
			return w.literal(w.cur[w.order[g.Intn(len(w.order))]], 1, false)
		}
	case 9:
		return "nil"
	case 10:
		if len(w.vars) > 1 {
			return "[" + w.someVar(nil) + " " + w.someVar(nil) + "]"
		}
	case 11:
		return pickS(g, "zi", "zu", "zb", "zf", "zp", "zq", "zs", "zt", "ze")
	}
	return "17"
}

// changed tells how the instances differ from before, but for one.
func (w *w17) changed(before map[*SexpHash]string, but *SexpHash) string {
	for h, s := range before {
		if h == but {
			continue
		}
		if n := w.snap(h); n != s {
			return fmt.Sprintf("%s\nbecame\n%s", s, n)
		}
	}
	return ""
}

// learn finds the instances a value holds that were not known. What was made
// just now was made by the declaration in force.
func (w *w17) learn(x Sexp, depth int) {
	if depth > 12 {
		return
	}
	switch x := x.(type) {
	case *SexpHash:
		if d := w.cur[x.TypeName]; d != nil {
			if _, ok := w.of[x]; ok {
				return
			}
			w.of[x] = d
		}
		for _, k := range x.KeyOrder {
			if v, err := x.HashGetDefault(w.env, k, SexpEnd); err == nil && v != SexpEnd {
				w.learn(v, depth+1)
			}
		}
	case *SexpArray:
		for _, e := range x.Val {
			w.learn(e, depth+1)
		}
	case *SexpPointer:
		w.learn(x.Target, depth+1)
	case *SexpPair:
		w.learn(x.Head, depth+1)
		w.learn(x.Tail, depth+1)
	}
}

// keep binds a variable to a new instance.
func (w *w17) keep(expr string) (*SexpHash, error) {
	w.n++
	v := fmt.Sprintf("v%d", w.n)
	x, err := w.run(pickS(w.g, "(def "+v+" "+expr+")", "{"+v+" = "+expr+"}", "(set "+v+" "+expr+")", "(begin (def "+v+" "+expr+") "+v+")"))
	if err != nil {
		return nil, err
	}
	x, err, _ = w.r.eval(v, 1000)
	h, ok := x.(*SexpHash)
	if err != nil || !ok {
		return nil, fmt.Errorf("not an instance")
	}
	w.learn(h, 0)
	w.vars = append(w.vars, v)
	w.hold[v] = h
	return h, nil
}

// ---- steps

func (w *w17) construct() *Res {
	g := w.g
	d := w.cur[w.order[g.Intn(len(w.order))]]
	before := w.snaps()
	if g.Chance(1, 2) { // nothing wrong
		text := w.literal(d, 2, g.Chance(1, 2))
		h, err := w.keep(text)
		if err != nil {
			r := w.fail("a correct construction failed: "+err.Error(), "construction refused")
			return &r
		}
		w.acc++
		return w.after(before, nil, h)
	}
	// one field is wrong, or may be
	s := "(" + d.name
	at := g.Intn(len(d.fs) + 1)
	wrong := ""
	for i, f := range d.fs {
		if i == at {
			e := w.any(2)
			s += fmt.Sprintf(" %s: %s", f.name, e)
			wrong = f.name
			continue
		}
		if e := w.good(f.ty, 1); e != "" && g.Chance(1, 2) {
			s += fmt.Sprintf(" %s: %s", f.name, e)
		}
	}
	if wrong == "" {
		s += pickS(g, " zz: 1", " \"a\" 1", " 7 1", " zz: nil", " Zz: \"s\"", " %zz 1")
	}
	s += ")"
	h, err := w.keep(s)
	if err != nil {
		w.rej++
		return w.after(before, err, nil)
	}
	if wrong == "" {
		r := w.fail("a construction with a field that is not declared was accepted", "undeclared field accepted")
		return &r
	}
	return w.after(before, nil, h)
}

// after is what must hold after every step.
func (w *w17) after(before map[*SexpHash]string, err error, but *SexpHash) *Res {
	if m := w.check(); m != "" {
		sig := "an instance is not as declared"
		if strings.Contains(m, "in a slice") {
			sig += ": slice"
		}
		if strings.Contains(m, "has the key") {
			sig += ": key"
		}
		r := w.fail(m, sig)
		return &r
	}
	if err != nil {
		but = nil
	}
	if m := w.changed(before, but); m != "" {
		what := "another instance was changed: "
		if err != nil {
			what = "a step that failed (" + err.Error() + ") changed an instance: "
		}
		r := w.fail(what+m, "changed")
		return &r
	}
	return nil
}

// places are expressions for instances, with the instance.
func (w *w17) place() (string, *SexpHash) {
	v := w.someVar(nil)
	h := w.hold[v]
	for w.g.Chance(1, 3) { // further down
		type opt struct {
			s string
			h *SexpHash
		}
		var o []opt
		for _, k := range h.KeyOrder {
			s, ok := k.(*SexpSymbol)
			if !ok {
				continue
			}
			x, err := h.HashGetDefault(w.env, k, SexpEnd)
			if err != nil {
				continue
			}
			if in, ok := x.(*SexpHash); ok {
				if _, known := w.of[in]; known {
					o = append(o, opt{v + "." + s.Name(), in})
				}
			}
		}
		if len(o) == 0 {
			break
		}
		p := o[w.g.Intn(len(o))]
		v, h = p.s, p.h
	}
	return v, h
}

func (w *w17) write() *Res {
	g := w.g
	p, h := w.place()
	d := w.of[h]
	f := "zz"
	var t *sty
	if len(d.fs) > 0 && g.Chance(7, 8) {
		fd := d.fs[g.Intn(len(d.fs))]
		f, t = fd.name, fd.ty
	} else if g.Chance(1, 2) {
		f = c17fields[g.Intn(len(c17fields))]
		t = d.field(f)
	}
	val := ""
	isGood := false
	if t != nil && g.Chance(2, 5) {
		if val = w.good(t, 2); val != "" {
			isGood = true
		}
	}
	if val == "" {
		val = w.any(2)
	}
	nested := strings.Contains(p, ".")
	routes := []string{
		"(hset P (quote F) V)", "(hset P F: V)", "{P.F = V}", "(set P.F V)", "{P.F := V}", "(hset (* (& P)) F: V)",
		"{P[%F] = V}", "(set (hashidx P .F) V)", "((fn [o x] (hset o F: x)) P V)", "((fn [o x] (set o.F x)) P V)",
		"{h0 = (hash q:P); (hset h0.q F: V)}", "(let [o P] (set o.F V))", "{h0 = (hash q:P); h0.q.F = V}", "(let [pp (& P)] (hset (* pp) F: V))",
		"(apply hset [P (quote F) V])", "(eval (quote (hset P F: V)))", "(map (fn [o] (hset o F: V)) [P])",
		"(for [(def i 0) (< i 1) (set i 1)] (set P.F V))", "(cond true {P.F = V} 0)",
		"{h0 = (hash q:(hash r:P)); h0.q.r.F = V}", "(begin (defn wr [o] {o.F = V}) (wr P))",
	}
	kind := g.Weighted(16, 2, 2)
	var text string
	switch kind {
	case 0:
		text = routes[g.Intn(len(routes))]
		if nested && (strings.Contains(text, "hash q:") || strings.Contains(text, "[P")) {
			text = "{P.F = V}" // a path within an array or a call of a builtin is not followed
		}
	case 1: // by a key that is no symbol
		text = pickS(g, `(hset P "F" V)`, `{P["F"] = V}`, "(hset P 7 V)", "(hset P 'c' V)", "(hset P [F] V)", "(hset P `F` V)")
	case 2: // forms that may or may not write
		text = pickS(g, "{P.F++}", "{P.F += V}", "(mdef P.F nn (list V 1))", "(def P.F V)", "{P.F, nn = V, 1}", "(derefSet (& P.F) V)", "{pz = (& P.F); *pz = V}",
			"(hdel P F:)", "{P.F -= 1}", "{for P.F, nn = range [V] {}}", "(begin (def w1 P) (def w1.F V))", "(hset P V 1)", "(let [P.F V] P.F)",
			"(hset (hset P F: V) F: V)", "(_ls P)", "(aset [P] 0 V)", "(let [pp (& P)] (set pp.F V))", "{pq = (& P); pq.F = V}", "((fn [p] (derefSet p (hash F:V))) (& P))", "(set (* (& P)) V)",
			"(hset P (quote F) (hget P (quote F) V))", "(let [pp (& P)] {pp.F = V})", "(map (fn [k] (hset P k V)) (keys P))", "(for [(def k 0) (< k (len (keys P))) (set k (+ k 1))] (hset P (aget (keys P) k) V))",
			"(hset P (str2sym \"F\") V)", "(hset P %F: V)", "(hset P 'F' V)", "(hset P (list F:) V)", "(hset P (hash) V)", "(hset P nil V)", "(hset P true V)", "(hset P 1.5 V)", "(hset P [1 F] V)", "{P[0] = V}", "{P[F] = V}", "(hset P P V)", "(set P V)", "{P.F[0] = V}", "(aset P.F 0 V)")
		if strings.Contains(text, "P.F[0]") || strings.Contains(text, "aset P.F") {
			if t == nil || t.kind != "slice" || !isGood {
				text = "(hset P F: V)"
			} else {
				val = w.good(t.el, 1) // elements of another type: a known finding
				if val == "" || val == "[]" {
					val = "nil"
				}
			}
		}
		if text == "(set P V)" && nested {
			text = "{P.F++}"
		}
	}
	// Writes into a value that others may hold as well.
	shared := strings.Contains(text, "derefSet") || strings.Contains(text, "*pz") || strings.Contains(text, "F[0]") || strings.Contains(text, "aset")
	text = strings.NewReplacer("P", p, "F", f, "V", val).Replace(text)
	w.n++
	before := w.snaps()
	_, err := w.run(text)
	w.learnAll()
	if err == nil {
		w.acc++
	} else {
		w.rej++
	}
	// a variable may hold another instance now
	var vars []string
	for _, v := range w.vars {
		if x, err, _ := w.r.eval(v, 1000); err == nil {
			if hh, ok := x.(*SexpHash); ok && w.of[hh] != nil {
				w.hold[v] = hh
				vars = append(vars, v)
			}
		}
	}
	w.vars = vars
	if kind == 2 {
		if shared {
			if err != nil {
				return w.after(before, err, nil)
			}
			if m := w.check(); m != "" {
				r := w.fail(m, "an instance is not as declared: through a pointer")
				return &r
			}
			return nil
		}
		return w.after(before, nil2(err, text), h)
	}
	if kind == 0 {
		if err == nil && t == nil {
			r := w.fail("a write to a field that is not declared was accepted", "undeclared field accepted")
			return &r
		}
		if err != nil && isGood {
			r := w.fail("a correct write was refused: "+err.Error(), "write refused")
			return &r
		}
		if err == nil && isGood {
			x, gerr := h.HashGetDefault(w.env, w.env.MakeSymbol(f), SexpEnd)
			y, verr, _ := w.r.eval(val, 10000)
			if gerr != nil || x == SexpEnd || verr != nil || !strings.Contains(val, "(T") && ident(x) != ident(y) {
				r := w.fail(fmt.Sprintf("after the write field %s is %s", f, ident(x)), "write lost")
				return &r
			}
		}
	}
	return w.after(before, err, h)
}

// nil2 forgets the errors of forms that consist of several writes.
func nil2(err error, text string) error {
	if strings.HasPrefix(text, "(hset (hset") || strings.HasPrefix(text, "{for") || strings.HasPrefix(text, "(map (fn [k]") || strings.HasPrefix(text, "(for [(def k") || strings.Contains(text, ", nn = ") || strings.HasPrefix(text, "(mdef") {
		return nil
	}
	return err
}

// learnAll looks for new instances in what the known ones hold.
func (w *w17) learnAll() {
	var hs []*SexpHash
	for h := range w.of {
		hs = append(hs, h)
	}
	for _, h := range hs {
		for _, k := range h.KeyOrder {
			if v, err := h.HashGetDefault(w.env, k, SexpEnd); err == nil && v != SexpEnd {
				w.learn(v, 0)
			}
		}
	}
}

// overwrite replaces all of an instance through a pointer.
func (w *w17) overwrite() *Res {
	g := w.g
	a, b := w.someVar(nil), w.someVar(nil)
	val := b
	switch g.Weighted(6, 2, 2, 1) {
	case 1:
		val = w.literal(w.cur[w.order[g.Intn(len(w.order))]], 1, false)
	case 2:
		val = w.any(1)
	case 3:
		val = "(hash " + c17fields[g.Intn(len(c17fields))] + ": 1)"
	}
	w.n++
	text := strings.NewReplacer("A", a, "V", val, "N", fmt.Sprint(w.n)).Replace(pickS(g, "(derefSet (& A) V)", "(derefSet (& A) V)", "{pN = (& A); *pN = V}", "(let [q (& A)] (derefSet q V))"))
	h := w.hold[a]
	before := w.snaps()
	want, same := "", false
	if val == b {
		same = w.of[w.hold[a]] == w.of[w.hold[b]]
		want = w.snap(w.hold[b])
	}
	_, err := w.run(text)
	w.learnAll()
	if err == nil {
		w.acc++
	} else {
		w.rej++
	}
	if same && err != nil && strings.Contains(text, "derefSet") {
		r := w.fail("a correct write was refused: "+err.Error(), "pointer write refused")
		return &r
	}
	if same && err == nil && w.snap(h) != want {
		r := w.fail("after the write the instance is\n"+w.snap(h)+"\nnot\n"+want, "pointer write lost")
		return &r
	}
	if val == b && !same && err == nil {
		r := w.fail(fmt.Sprintf("an instance of %s was overwritten by one of %s", w.of[h].name, w.of[w.hold[b]].name), "pointer write accepted")
		return &r
	}
	return w.after(before, err, h)
}

// decode makes an instance from JSON or msgpack.
func (w *w17) decode() *Res {
	g := w.g
	d := w.cur[w.order[g.Intn(len(w.order))]]
	before := w.snaps()
	if len(w.vars) > 0 && g.Chance(1, 4) { // there and back
		v := w.someVar(nil)
		_, err := w.keep(pickS(g, "(unjson (json "+v+"))", "(unmsgpack (msgpack "+v+"))"))
		return w.after(before, err, nil)
	}
	js := func(t *sty) string {
		if t == nil {
			return pickS(g, "1", `"s"`, "true", "null", "[]", "[1]", "2.5", "{}", `["s", 1]`, `[1, "s"]`, "[null]", "[[1]]", "[2.5, 1]", `{"Atype":"hash"}`, `[{"Atype":"`+d.name+`"}]`, `{"Atype":"`+d.name+`"}`)
		}
		switch t.kind {
		case "int64":
			return "3"
		case "string":
			return `"s"`
		case "bool":
			return "true"
		case "float64":
			return "2.5"
		case "slice":
			switch t.el.kind {
			case "int64":
				return "[1, 2]"
			case "string":
				return `["s"]`
			}
			return "[]"
		case "struct":
			return fmt.Sprintf(`{"Atype":"%s"}`, t.def.name)
		}
		return "null"
	}
	var fs []string
	for _, f := range d.fs {
		if g.Chance(1, 2) {
			t := f.ty
			if g.Chance(1, 5) {
				t = nil
				if g.Chance(1, 2) && len(d.fs) > 0 {
					t = d.fs[g.Intn(len(d.fs))].ty
				}
			}
			fs = append(fs, fmt.Sprintf(`"%s":%s`, f.name, js(t)))
		}
	}
	if g.Chance(1, 6) {
		fs = append(fs, pickS(g, `"zz":1`, `"zz":null`, `"7":1`, `"":0`))
	}
	at := g.Intn(len(fs) + 1)
	fs = append(fs[:at:at], append([]string{fmt.Sprintf(`"Atype":"%s"`, d.name)}, fs[at:]...)...)
	if g.Chance(1, 3) {
		var ks []string
		for _, f := range fs {
			if k := strings.SplitN(f, ":", 2)[0]; k != `"Atype"` {
				ks = append(ks, k)
			}
		}
		if g.Chance(1, 4) {
			ks = append(ks, `"zz"`)
		}
		fs = append(fs, `"zKeyOrder":[`+strings.Join(ks, ", ")+"]")
	}
	text := "{" + strings.Join(fs, ", ") + "}"
	expr := "(unjson (raw `" + text + "`))"
	switch g.Intn(4) {
	case 1:
		expr = "(unmsgpack (msgpack " + strings.ReplaceAll(text, "null", "nil") + "))"
	case 2:
		expr = "(:q (unjson (raw `{\"Atype\":\"hash\", \"q\":" + text + "}`)))"
	case 3:
		expr = "(unjson (json " + strings.ReplaceAll(text, "null", "nil") + "))"
	}
	h, err := w.keep(expr)
	if err == nil && h.TypeName != d.name {
		r := w.fail("the decoded record is of the type "+h.TypeName, "decoded type")
		if !strings.Contains(expr, "json (json") && !strings.Contains(expr, "unmsgpack") {
			return &r
		}
	}
	if err == nil {
		w.acc++
	} else {
		w.rej++
	}
	return w.after(before, err, nil)
}

// c17goVars has values that live in Go variables.
const c17goVars = "(var zi int32) (var zu uint8) (var zb byte) (var zf float32) (var zp (* int64)) (var zq (* string)) (var zs ([] int64)) (var zt ([] string)) (var ze error)"

func newW17(g *G) *w17 {
	env := newIn()
	if _, err := env.EvalString(c17goVars); err != nil {
		panic("harness: C17: " + err.Error())
	}
	w := &w17{g: g, env: env, r: newRun(env), cur: map[string]*sdef{}, of: map[*SexpHash]*sdef{}, hold: map[string]*SexpHash{}}
	return w
}

func c17history(steps int) func(g *G) Res {
	return func(g *G) Res {
		w := newW17(g)
		defer w.env.Close()
		for i := g.Range(1, 2); i > 0; i-- {
			if r := w.declare(); r != nil {
				return *r
			}
		}
		if r := w.construct(); r != nil {
			return *r
		}
		for i := 0; i < steps; i++ {
			var r *Res
			nv := len(w.vars)
			if nv == 0 {
				r = w.construct()
			} else {
				switch g.Weighted(10, 3, 2, 2, 1) {
				case 0:
					r = w.write()
				case 1:
					r = w.construct()
				case 2:
					r = w.overwrite()
				case 3:
					r = w.decode()
				case 4:
					r = w.declare()
				}
			}
			if r != nil {
				return *r
			}
			if len(w.of) > 40 {
				break
			}
		}
		g.Label(fmt.Sprintf("declarations %d", w.defs))
		return Res{NonTrivial: w.acc >= 3 && w.rej >= 2, Sample: strings.Join(w.log, "\n"), Key: strings.Join(w.log, "\n"), Evals: len(w.log)}
	}
}

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration",
		Rule: "at least 3 accepted and 2 rejected constructions or writes",
		Assumptions: []string{
			"nil in a field of a base type is neither demanded nor refused",
			"a struct that contains itself by value is not generated",
		},
		Findings: map[string]func() string{"C17-elements": func() string {
			for _, src := range []string{`(aset (hget t a:) 0 "s")`, `{t.a[0] = "s"}`} {
				r := newRun(newIn())
				x, err, _ := r.eval(`(struct T [(field a: ([]int64) e:0)]) (def t (T a:[1])) `+src+` (aget (hget t a:) 0)`, 10000)
				if _, isStr := x.(*SexpStr); err == nil && isStr {
					return src
				}
			}
			return ""
		}},
		Parts: []Part{
			{Name: "short histories", Quick: 40000, Thorough: 300000, Run: c17history(5)},
			{Name: "histories", Quick: 24000, Thorough: 200000, Run: c17history(18)},
			{Name: "long histories", Quick: 4000, Thorough: 30000, Run: c17history(60)},
		},
	})
}
