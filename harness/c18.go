package main

// C18: members of packages. A model knows every member of a tree of packages;
// paths into it are read, called and assigned by every route, and after each
// step the members are fetched by functions defined inside the packages.

import (
	"fmt"
	"os"
	"strings"
	"unicode"

	. "github.com/glycerine/zygomys/v9/zygo"
)

type pk18 struct {
	id    int
	mems  []*mem18
	outer *pk18
	val   Sexp
	reach string // a path to it from outside, over packages only
	tries []try18
}

type mem18 struct {
	name string
	kind string // int fn hash pkg
	n    int    // of an int its value, of a fn what it returns
	keys []*mem18
	p    *pk18
	in   *pk18 // the package it is a member of, nil for what a hash holds
	ref  int   // number of the functions that get it and set it
	val  Sexp
}

type try18 struct {
	id   int
	path string
	m    *mem18
	ok   bool
	own  *mem18 // the member the path goes through, and its kind then
	kind string
}

type w18 struct {
	g     *G
	r     *irun
	env   *Zlisp
	log   []string
	next  int
	root  *pk18
	pkgs  []*pk18
	mems  []*mem18
	bases []base18
	ok    int
	no    int
}

// base18 is a global variable with a package or a hash with packages.
type base18 struct {
	name string
	m    *mem18
}

func upper18(s string) bool { return unicode.IsUpper([]rune(s)[0]) }

var c18private = []string{"hid", "val2", "étoile", "_us", "日本", "z", "ǆo", "ßa", "__x", "ωm", "aB", "pUB"}
var c18public = []string{"Pub", "Étage", "X9", "P", "Ωm", "Hid", "Val_2", "Ünder", "PUB"}

func (w *w18) num() int { w.next++; return 700000 + w.next*13 }

func (w *w18) freshName(used map[string]bool) string {
	for {
		s := ""
		if w.g.Chance(1, 2) {
			s = pickS(w.g, c18private...)
		} else {
			s = pickS(w.g, c18public...)
		}
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

func (w *w18) mkHash(depth int, pkgs []*mem18) []*mem18 {
	used := map[string]bool{}
	var ks []*mem18
	for i := w.g.Range(1, 3); i > 0; i-- {
		k := &mem18{name: w.freshName(used), kind: "int", n: w.num()}
		switch {
		case depth > 0 && w.g.Chance(1, 3):
			k.kind, k.keys = "hash", w.mkHash(depth-1, pkgs)
		case len(pkgs) > 0 && w.g.Chance(1, 4):
			k.kind, k.p = "pkg", pkgs[w.g.Intn(len(pkgs))].p
		}
		ks = append(ks, k)
	}
	return ks
}

func (w *w18) mk(outer *pk18, depth int) *pk18 {
	p := &pk18{id: len(w.pkgs), outer: outer}
	w.pkgs = append(w.pkgs, p)
	used := map[string]bool{}
	for i := w.g.Range(2, 5); i > 0; i-- {
		m := &mem18{name: w.freshName(used), kind: "int", n: w.num(), in: p}
		w.next++
		m.ref = w.next
		switch w.g.Weighted(4, 2, 3, 3) {
		case 1:
			m.kind = "fn"
		case 2:
			m.kind = "hash"
			var pkgs []*mem18
			for _, q := range p.mems {
				if q.kind == "pkg" {
					pkgs = append(pkgs, q)
				}
			}
			m.keys = w.mkHash(2, pkgs)
		case 3:
			if depth > 0 {
				m.kind = "pkg"
				m.p = w.mk(p, depth-1)
			}
		}
		p.mems = append(p.mems, m)
		w.mems = append(w.mems, m)
	}
	return p
}

func (w *w18) hashText(ks []*mem18, p *pk18) string {
	var s []string
	for _, k := range ks {
		v := fmt.Sprint(k.n)
		switch k.kind {
		case "hash":
			v = w.hashText(k.keys, p)
		case "pkg":
			for _, m := range p.mems {
				if m.kind == "pkg" && m.p == k.p {
					v = m.name
				}
			}
		}
		s = append(s, k.name+":"+v)
	}
	return "(hash " + strings.Join(s, " ") + ")"
}

// text is the form that makes a package.
func (w *w18) text(p *pk18) string {
	g := w.g
	infix := g.Chance(1, 4)
	var defs, fns []string
	for _, m := range p.mems {
		v := ""
		switch m.kind {
		case "int":
			v = fmt.Sprint(m.n)
		case "hash":
			v = w.hashText(m.keys, p)
		case "pkg":
			v = w.text(m.p)
		}
		switch {
		case m.kind == "fn":
			defs = append(defs, pickS(g, fmt.Sprintf("(defn %s [] %d)", m.name, m.n), fmt.Sprintf("(def %s (fn [] %d))", m.name, m.n), fmt.Sprintf("(func %s [] [r:int64] (return %d))", m.name, m.n)))
		case infix && m.kind == "int" && p.outer == nil: // it sets a variable of the outer package, if there is one
			defs = append(defs, m.name+" := "+v)
		default:
			defs = append(defs, "(def "+m.name+" "+v+")")
		}
		fns = append(fns, fmt.Sprintf("(defn Ref%d [] %s)", m.ref, pickS(g, m.name, "(begin "+m.name+")", "(cond true "+m.name+" 0)", "(let [it "+m.name+"] it)", "((fn [] "+m.name+"))")),
			fmt.Sprintf("(defn Put%d [v] %s)", m.ref, pickS(g, "(set "+m.name+" v)", "(begin (set "+m.name+" v) v)", "((fn [w] (set "+m.name+" w)) v)", "(for [(def i 0) (< i 1) (set i 1)] (set "+m.name+" v))")))
		// what the code of the outer package may see of the inner one
		if m.kind == "pkg" {
			for _, q := range m.p.mems {
				path := m.name + "." + q.name
				if q.kind == "hash" {
					k := q.keys[0]
					if k.kind == "int" {
						w.next++
						p.tries = append(p.tries, try18{w.next, path, k, upper18(q.name), q, q.kind})
						fns = append(fns, fmt.Sprintf("(defn Try%d [] (+ 0 %s.%s))", w.next, path, k.name))
					}
					continue
				}
				if q.kind == "pkg" {
					continue
				}
				w.next++
				p.tries = append(p.tries, try18{w.next, path, q, upper18(q.name), q, q.kind})
				if q.kind == "fn" {
					fns = append(fns, fmt.Sprintf("(defn Try%d [] (%s))", w.next, path))
				} else {
					fns = append(fns, fmt.Sprintf("(defn Try%d [] (+ 0 %s))", w.next, path))
				}
			}
		}
	}
	var body []string
	if g.Chance(1, 3) { // functions before what they use
		body = append(fns, defs...)
	} else {
		body = append(defs, fns...)
	}
	nm := pickS(g, fmt.Sprintf(`"pk%d"`, p.id), fmt.Sprintf("pk%d", p.id))
	if infix {
		return "(package " + nm + " {" + strings.Join(body, "; ") + "})"
	}
	return "(package " + nm + " " + strings.Join(body, " ") + ")"
}

func (w *w18) run(text string) (Sexp, error) {
	w.log = append(w.log, text)
	v, err, over := w.r.eval(text, 300000)
	if over {
		panic("harness: C18 step does not end: " + text)
	}
	if err != nil {
		w.log[len(w.log)-1] += "  // error"
		w.env.Clear()
	}
	return v, err
}

func (w *w18) fail(what, sig string) *Res {
	return &Res{Fail: strings.Join(w.log, "\n") + "\n" + what, Sig: sig}
}

// reaches gives every package a path over packages.
func (w *w18) reaches(p *pk18, path string) {
	p.reach = path
	for _, m := range p.mems {
		if m.kind == "pkg" && m.p.outer == p {
			w.reaches(m.p, path+"."+m.name)
		}
	}
}

// fetch gets a member by the function inside.
func (w *w18) fetch(m *mem18) (Sexp, error) {
	x, err, _ := w.r.eval(fmt.Sprintf("(%s.Ref%d)", m.in.reach, m.ref), 20000)
	if err != nil {
		w.env.Clear()
	}
	return x, err
}

// as compares a value with the model.
func (m *mem18) as(env *Zlisp, x Sexp) string {
	switch m.kind {
	case "int":
		if i, ok := x.(*SexpInt); !ok || i.Val != int64(m.n) {
			return fmt.Sprintf("%s is %s, not %d", m.name, sdesc(x), m.n)
		}
	case "fn", "pkg":
		if m.val != nil && x != m.val {
			return m.name + " is another " + m.kind
		}
		if m.kind == "fn" {
			if _, ok := x.(*SexpFunction); !ok {
				return fmt.Sprintf("%s is %T", m.name, x)
			}
		} else if s, ok := x.(*Stack); !ok || !s.IsPackage {
			return fmt.Sprintf("%s is %T", m.name, x)
		}
	case "hash":
		h, ok := x.(*SexpHash)
		if !ok || m.val != nil && x != m.val {
			return fmt.Sprintf("%s is another hash, or %T", m.name, x)
		}
		if len(h.KeyOrder) != len(m.keys) {
			return fmt.Sprintf("%s has %d keys", m.name, len(h.KeyOrder))
		}
		for _, k := range m.keys {
			v, err := h.HashGetDefault(env, env.MakeSymbol(k.name), SexpEnd)
			if err != nil || v == SexpEnd {
				return fmt.Sprintf("%s has lost %s", m.name, k.name)
			}
			if k.kind == "pkg" {
				if v != k.p.val && k.p.val != nil {
					return m.name + "." + k.name + " is another package"
				}
				continue
			}
			if s := k.as(env, v); s != "" {
				return m.name + "." + s
			}
		}
	}
	return ""
}

// check fetches all members.
func (w *w18) check() *Res {
	for _, m := range w.mems {
		if m.in.reach == "" {
			continue
		}
		x, err := w.fetch(m)
		if err != nil {
			return w.fail(fmt.Sprintf("(%s.Ref%d) of %s: %v", m.in.reach, m.ref, m.name, err), "function inside fails")
		}
		if s := m.as(w.env, x); s != "" {
			return w.fail(fmt.Sprintf("inside %s, %s", m.in.reach, s), "a member is not as it should be")
		}
		if m.val == nil {
			m.val = x
			if m.kind == "pkg" {
				m.p.val = x
			}
		}
	}
	return nil
}

// leaks tells whether a value holds the member.
func leaks18(x Sexp, m *mem18, depth int) bool {
	if depth > 6 || x == nil {
		return false
	}
	if m.kind == "int" || m.kind == "fn" {
		num := fmt.Sprint(m.n)
		switch x := x.(type) {
		case *SexpInt:
			if x.Val == int64(m.n) {
				return true
			}
		case *SexpStr:
			if strings.Contains(x.S, num) {
				return true
			}
		case *SexpRaw:
			if strings.Contains(string(x.Val), num) {
				return true
			}
		}
	}
	if m.kind != "int" && x == m.val && m.val != nil {
		return true
	}
	switch x := x.(type) {
	case *SexpArray:
		for _, e := range x.Val {
			if leaks18(e, m, depth+1) {
				return true
			}
		}
	case *SexpPair:
		return leaks18(x.Head, m, depth+1) || leaks18(x.Tail, m, depth+1)
	case *SexpPointer:
		return leaks18(x.Target, m, depth+1)
	case *SexpHash:
		for _, k := range x.KeyOrder {
			if s, ok := k.(*SexpSymbol); ok {
				if v, err := x.HashGetDefault(x.Env, s, SexpEnd); err == nil && v != SexpEnd && leaks18(v, m, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// path18 is a way into the packages, with what it leads to.
type path18 struct {
	parts []string
	m     *mem18 // what the last part is
	may   bool   // all but the last hop are allowed
	pub   bool   // of the last hop
	hops  int
}

// walk goes down at random from a value that is a package or a hash.
func (w *w18) walk(from *mem18) path18 {
	g := w.g
	p := path18{may: true, pub: true}
	at := from
	for {
		var next []*mem18
		inPkg := at.kind == "pkg"
		if inPkg {
			next = at.p.mems
		} else {
			next = at.keys
		}
		m := next[g.Intn(len(next))]
		if g.Chance(1, 2) { // rather one that goes on
			for _, q := range next {
				if (q.kind == "hash" || q.kind == "pkg") && g.Chance(1, 2) {
					m = q
				}
			}
		}
		p.parts = append(p.parts, m.name)
		p.hops++
		p.m = m
		pub := !inPkg || upper18(m.name)
		if m.kind != "hash" && m.kind != "pkg" || p.hops > 6 || g.Chance(1, 6) {
			p.pub = pub
			return p
		}
		if m.kind == "hash" && !pub {
			p.may = false
		}
		at = m
	}
}

func (w *w18) base() base18 { return w.bases[w.g.Intn(len(w.bases))] }

// place puts an access into a context; B stands for the base variable.
func (w *w18) place(expr string, b string) string {
	g := w.g
	e := expr
	v := "B"
	switch g.Weighted(12, 2, 2, 1, 1, 1, 1) {
	case 0:
		v = b
	case 1:
		v = "p"
		e = "(let [p " + b + "] " + e + ")"
	case 2:
		v = "p"
		e = "((fn [p] " + e + ") " + b + ")"
	case 3:
		v = "p"
		e = "(let [p (aget [" + b + "] 0)] " + e + ")"
	case 4:
		v = "p"
		e = "(let [p (first (list " + b + "))] " + e + ")"
	case 5:
		v = "pz.q"
		e = "(let [pz (hash q:" + b + ")] " + e + ")"
	case 6:
		v = "pz.Q.r"
		e = "(let [pz (hash Q:(hash r:" + b + "))] " + e + ")"
	}
	e = strings.ReplaceAll(e, "BASE", v)
	w.next++
	n := fmt.Sprint(w.next)
	switch g.Weighted(10, 2, 1, 1, 2, 1, 1, 1, 1) {
	case 1:
		e = "(defn fN [] " + e + ") (fN)"
	case 2:
		e = "(let [q 1] " + e + ")"
	case 3:
		e = "(begin 1 " + e + ")"
	case 4: // from another package
		e = "(def otN (package \"other\" (defn Run [] " + e + "))) (otN.Run)"
	case 5:
		e = "(eval (quote " + e + "))"
	case 6:
		e = "(cond true " + e + " 0)"
	case 7:
		e = "(defmac mN [] (quote " + e + ")) (mN)"
	case 8:
		e = "(begin (defn fN [k] (cond (== k 0) " + e + " (fN (- k 1)))) (fN 3))"
	}
	return strings.NewReplacer("fN", "f"+n, "otN", "ot"+n, "mN", "m"+n, "yN", "y"+n).Replace(e)
}

// read reads what a path leads to.
func (w *w18) read() *Res {
	g := w.g
	b := w.base()
	p := w.walk(b.m)
	path := "BASE." + strings.Join(p.parts, ".")
	allowed := p.may && (p.pub || p.m.kind == "pkg")
	var text string
	must := true // the route follows the path
	whole := false
	switch p.m.kind {
	case "int":
		switch g.Weighted(6, 3) {
		case 0:
			text = pickS(g, "(+ X 0)", "(+ 0 X)", "(- X 0)", "(* 1 X)", "{X + 0}", "{0 + X}", "{yN = X; yN + 0}", "{yN := X; yN + 0}", "(begin (def yN X) (+ yN 0))", "(begin (set yN X) (+ yN 0))", "(let [yN X] (+ yN 0))",
				"(letseq [yN X zz 1] (+ yN 0))", "((fn [a] (+ a 0)) X)", "(+ 0 ((fn [] X)))", "(cond (== X LEAF) (+ 0 X) 0)", "(+ 0 (cond true X 0))", "(+ 0 (begin X))", "{X * 1}")
		case 1:
			must = false
			text = pickS(g, "X", "(bitAnd X X)", "(list X)", "[X]", "(str X)", "(first (list X))", "(aget [X] 0)", "(hash k:X)", "(sprintf \"%v\" X)", "(deref (& X))", "(* (& X))", "(quote X)", "(apply + [X 0])", "(map (fn [a] (+ a 0)) [X])", "(eval (quote X))", "(eval X)",
				"(json X)", "(concat \"\" X)", "(symnum X)", "(raw X)", "(str2sym X)", "(-> X str)", "(hget (hash k:X) k:)", "(macexpand X)", "(type? X)", "(syntaxQuote (list ~X))", "^(~X)", "{X}", "{X == LEAF}", "(X)", "(BASE (quote "+p.parts[len(p.parts)-1]+"))", "(:X)", "(return X)",
				"(and X X)", "(or false X)", "(not X)", "(cons X (list))", "(append [] X)", "(array X)", "{[X]}", "{yN, zz = X, 1; yN}", "(mdef yN zz (list X 1))", "(begin (mdef yN zz (list X 1)) (+ 0 yN))", "(hget BASE (quote "+p.parts[0]+"))", "(:"+p.parts[0]+" BASE)", "{BASE[%"+p.parts[0]+"]}", "(hashidx BASE (quote "+p.parts[0]+"))")
		}
	case "fn":
		switch g.Weighted(6, 3) {
		case 0:
			text = pickS(g, "(X)", "(+ 0 (X))", "{(X)}", "(begin (def yN X) (yN))", "{yN = X; (yN)}", "((fn [a] (a)) X)", "(let [yN X] (yN))", "(begin (set yN X) (yN))", "(let [r (X)] r)", "(cond true (X) 0)")
		case 1:
			must = false
			text = pickS(g, "X", "(list X)", "[X]", "(apply X [])", "(map X [])", "((begin X))", "((cond true X X))", "(str X)", "(deref (& X))", "(eval (list X))", "(eval (list (quote X)))", "({X})", "(hget (hash k:X) k:)", "((first (list X)))", "(type? X)", "{yN, zz = X, 1; (yN)}", "{X()}")
		}
	case "hash":
		switch g.Weighted(6, 3) {
		case 0:
			whole = true
			text = pickS(g, "(begin (def yN X) yN)", "{yN = X; yN}", "(let [yN X] yN)", "((fn [a] (begin (def yN a) yN)) X)", "(begin (set yN X) yN)", "{yN := X; yN}")
		case 1:
			must = false
			text = pickS(g, "X", "(hget X K)", "(keys X)", "(list X)", "[X]", "(hpair X 0)", "{X[%K]}", "(json X)", "(str X)", "(deref (& X))", "(len X)", "(hashidx X (quote K))", "(== X X)", "(hget (hash k:X) k:)", "(map (fn [k] (hget X k)) (keys X))", "{for k, v = range X { yN = v }; yN}", "(:K X)", "(hdel X zz:)")
			text = strings.ReplaceAll(strings.ReplaceAll(text, "%K", "%"+p.m.keys[0].name), "K", p.m.keys[0].name+":")
		}
	case "pkg":
		switch g.Weighted(6, 3) {
		case 0:
			whole = true
			text = pickS(g, "(begin (def yN X) yN)", "{yN = X; yN}", "(let [yN X] yN)", "(begin (set yN X) yN)", "{yN := X; yN}")
		case 1:
			must = false
			text = pickS(g, "X", "(list X)", "(type? X)", "(deref (& X))", "(== X 1)")
		}
	}
	text = strings.ReplaceAll(strings.ReplaceAll(text, "X", path), "LEAF", fmt.Sprint(p.m.n))
	x, err := w.run(w.place(text, b.name))
	if !allowed {
		w.no++
		if err == nil && leaks18(x, p.m, 0) {
			return w.fail(fmt.Sprintf("%s is private and was read: %s", path, sdesc(x)), "private member read")
		}
		if must && err == nil {
			return w.fail(fmt.Sprintf("%s is private; the access gave %s and no error", path, sdesc(x)), "private access without an error")
		}
		return w.check()
	}
	if must {
		w.ok++
		if err != nil {
			return w.fail(fmt.Sprintf("%s may be read: %v", path, err), "public member refused")
		}
		if whole {
			if x != p.m.val && p.m.kind != "pkg" && p.m.val != nil || p.m.kind == "pkg" && x != p.m.p.val {
				return w.fail(fmt.Sprintf("%s gave %s", path, sdesc(x)), "public member read wrongly")
			}
			if p.m.kind == "hash" {
				if s := p.m.as(w.env, x); s != "" {
					return w.fail(fmt.Sprintf("%s gave %s: %s", path, sdesc(x), s), "public member read wrongly")
				}
			}
		} else if i, ok := x.(*SexpInt); !ok || i.Val != int64(p.m.n) {
			return w.fail(fmt.Sprintf("%s gave %s, not %d", path, sdesc(x), p.m.n), "public member read wrongly")
		}
	}
	return w.check()
}

// write assigns to what a path leads to.
func (w *w18) write() *Res {
	g := w.g
	b := w.base()
	p := w.walk(b.m)
	path := "BASE." + strings.Join(p.parts, ".")
	inHash := p.m.in == nil
	if inHash && p.m.kind != "int" {
		return w.read()
	}
	allowed := p.may && p.pub
	must := g.Chance(2, 3)
	v := w.num()
	if p.m.kind != "int" && allowed && (p.m.kind == "pkg" || !g.Chance(1, 3)) {
		return w.read() // it would be gone
	}
	var text string
	if must {
		text = pickS(g, "{X = V}", "(set X V)", "{X := V}", "((fn [x] (set X x)) V)", "{zz = V; X = zz}", "(let [zz V] (set X zz))", "{X = V + 0}", "(for [(def i 0) (< i 1) (set i 1)] (set X V))", "(= X V)", "{if true { X = V }}")
	} else {
		text = pickS(g, "(def X V)", "(mdef X zz (list V 1))", "{X, zz = V, 1}", "(derefSet (& X) V)", "{*X = V}", "{X++}", "{X--}", "{X += D}", "{X -= (0 - D)}", "(let [X V] X)", "((fn [X] X) V)", "(defn X [] V)", "(var X int64)", "{for X = range [V] {}}", "(hset X zz: V)", "(aset X 0 V)", "(rmsym (quote X))", "(hdel X zz:)",
			"(defmac X [] V)", "(:= X V)", "(apply set [(quote X) V])", "(eval (list (quote set) (quote X) V))", "(letseq [X V] X)", "(undefine X)", "{X[0] = V}", "(struct X [])")
		if b.m.kind == "pkg" && g.Chance(1, 6) {
			text = pickS(g, "(hset BASE (quote "+p.parts[0]+") V)", "{BASE[%"+p.parts[0]+"] = V}", "(set (hashidx BASE (quote "+p.parts[0]+")) V)")
		}
	}
	d := v - p.m.n
	if d < 0 {
		d = 1
		v = p.m.n + 1
	}
	text = strings.NewReplacer("X", path, "V", fmt.Sprint(v), "D", fmt.Sprint(d)).Replace(text)
	before := len(w.log)
	_, err := w.run(w.place(text, b.name))
	if !must {
		// may do it or not; what it does to a public member is not stated
		if allowed || inHash && p.may {
			return w.resync(p.m)
		}
		return w.check()
	}
	if !allowed {
		w.no++
		if err == nil {
			return w.fail(fmt.Sprintf("%s is private; it was assigned to without an error (step %d)", path, before), "private member assigned without an error")
		}
		return w.check()
	}
	w.ok++
	if err != nil {
		return w.fail(fmt.Sprintf("%s may be assigned: %v", path, err), "public member not assigned")
	}
	w.becomes(p.m, v)
	return w.check()
}

// becomes is an integer in the place of a member. Aliases of the hash there
// was before still have it.
func (w *w18) becomes(m *mem18, v int) {
	if m.kind == "int" {
		m.n = v
		return
	}
	n := &mem18{name: m.name, kind: "int", n: v, in: m.in, ref: m.ref}
	for i := range m.in.mems {
		if m.in.mems[i] == m {
			m.in.mems[i] = n
		}
	}
	for i := range w.mems {
		if w.mems[i] == m {
			w.mems[i] = n
		}
	}
	m.kind += ", replaced"
	old := *m
	old.kind = strings.TrimSuffix(m.kind, ", replaced")
	for i := range w.bases {
		if w.bases[i].m == m {
			w.bases[i].m = &old
		}
	}
}

// resync takes over the value a public member has.
func (w *w18) resync(m *mem18) *Res {
	if m.in == nil {
		// find the hash it is in
		for _, t := range w.mems {
			if t.kind == "hash" && t.val != nil {
				if h := m.holder(w.env, t, t.val); h != nil {
					v, err := h.HashGetDefault(w.env, w.env.MakeSymbol(m.name), SexpEnd)
					if i, ok := v.(*SexpInt); err == nil && ok {
						m.n = int(i.Val)
					} else {
						return &Res{Skip: true} // no longer an integer
					}
					return w.check()
				}
			}
		}
		return &Res{Skip: true}
	}
	x, err := w.fetch(m)
	if err != nil {
		return w.fail(err.Error(), "function inside fails")
	}
	if i, ok := x.(*SexpInt); ok {
		w.becomes(m, int(i.Val))
		return w.check()
	}
	if m.as(w.env, x) != "" {
		return &Res{Skip: true}
	}
	return w.check()
}

func (m *mem18) holder(env *Zlisp, t *mem18, x Sexp) *SexpHash {
	h, ok := x.(*SexpHash)
	if !ok {
		return nil
	}
	for _, k := range t.keys {
		if k == m {
			return h
		}
		if k.kind == "hash" {
			v, err := h.HashGetDefault(env, env.MakeSymbol(k.name), SexpEnd)
			if err == nil && v != SexpEnd {
				if r := m.holder(env, k, v); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

// inside uses the functions defined in a package.
func (w *w18) inside() *Res {
	g := w.g
	p := w.pkgs[g.Intn(len(w.pkgs))]
	if p.reach == "" {
		return nil
	}
	if len(p.tries) > 0 && g.Chance(1, 2) {
		t := p.tries[g.Intn(len(p.tries))]
		if t.m.kind != "int" && t.m.kind != "fn" || t.own.kind != t.kind {
			return nil
		}
		x, err := w.run(fmt.Sprintf("(%s.Try%d)", p.reach, t.id))
		if !t.ok {
			w.no++
			if err == nil {
				return w.fail(fmt.Sprintf("the outer package may not read %s, and got %s", t.path, sdesc(x)), "private member of an inner package read")
			}
			return w.check()
		}
		w.ok++
		if i, ok := x.(*SexpInt); err != nil || !ok || i.Val != int64(t.m.n) {
			return w.fail(fmt.Sprintf("the outer package may read %s: %v, %v", t.path, sdesc(x), err), "public member of an inner package refused")
		}
		return w.check()
	}
	m := p.mems[g.Intn(len(p.mems))]
	if m.kind != "int" {
		return nil
	}
	v := w.num()
	if _, err := w.run(w.place(fmt.Sprintf("(BASE%s.Put%d %d)", strings.TrimPrefix(p.reach, "pk"), m.ref, v), "pk")); err != nil {
		return w.fail("a function inside could not set a member: "+err.Error(), "function inside fails")
	}
	w.ok++
	m.n = v
	return w.check()
}

// alias binds another name to a package or a hash.
func (w *w18) alias() *Res {
	g := w.g
	b := w.base()
	w.next++
	v := pickS(g, fmt.Sprintf("al%d", w.next), fmt.Sprintf("Al%d", w.next))
	if g.Chance(1, 4) { // in a hash
		if _, err := w.run("(def " + v + " (hash q:" + b.name + " R:(hash s:" + b.name + ")))"); err != nil {
			return w.fail(err.Error(), "alias")
		}
		in := *b.m
		w.bases = append(w.bases, base18{v, &mem18{name: v, kind: "hash", keys: []*mem18{alias18("q", &in), {name: "R", kind: "hash", keys: []*mem18{alias18("s", &in)}}}}})
		return nil
	}
	p := w.walk(b.m)
	if p.m.kind != "pkg" && p.m.kind != "hash" || g.Chance(1, 4) {
		p = path18{m: b.m, may: true, pub: true}
	}
	path := strings.Join(append([]string{b.name}, p.parts...), ".")
	_, err := w.run(pickS(g, "(def "+v+" "+path+")", "{"+v+" = "+path+"}", "(set "+v+" "+path+")", "{"+v+" := "+path+"}"))
	if !(p.may && (p.pub || p.m.kind == "pkg")) {
		w.no++
		if err == nil {
			return w.fail(path+" is private and was bound to "+v, "private member read")
		}
		return nil
	}
	w.ok++
	if err != nil {
		return w.fail(path+" may be read: "+err.Error(), "public member refused")
	}
	w.bases = append(w.bases, base18{v, p.m})
	return nil
}

// alias18 is the same thing by another name.
func alias18(name string, m *mem18) *mem18 {
	return &mem18{name: name, kind: m.kind, keys: m.keys, p: m.p, val: m.val}
}

func c18world(g *G, depth int) (*w18, *Res) {
	env := newIn()
	w := &w18{g: g, env: env, r: newRun(env)}
	w.root = w.mk(nil, depth)
	text := w.text(w.root)
	form := g.Weighted(6, 2, 1, 1, 1)
	var err error
	switch form {
	case 0:
		_, err = w.run("(def pk " + text + ")")
	case 1:
		_, err = w.run("{pk = " + text + "}")
	case 2:
		_, err = w.run("(defn mk [] " + text + ") (def pk (mk))")
	case 3: // from a file
		f := fmt.Sprintf("c18_%d.zy", os.Getpid())
		if werr := os.WriteFile(f, []byte(text), 0o666); werr != nil {
			panic("harness: " + werr.Error())
		}
		w.log = append(w.log, "// file: "+text)
		t := pickS(g, `(def pk (source "FILE"))`, `(import pk "FILE")`, `(def pk (begin (source "FILE")))`)
		w.log = append(w.log, t)
		_, err, _ = w.r.eval(strings.ReplaceAll(t, "FILE", f), 300000)
		os.Remove(f)
	case 4:
		_, err = w.run("(def pk (let [x 1] " + text + "))")
	}
	if err != nil {
		return w, w.fail("the package could not be made: "+err.Error(), "package refused")
	}
	w.reaches(w.root, "pk")
	rootM := &mem18{name: "pk", kind: "pkg", p: w.root}
	x, _, _ := w.r.eval("pk", 1000)
	w.root.val = x
	w.bases = []base18{{"pk", rootM}}
	return w, w.check()
}

func c18history(depth, steps int) func(g *G) Res {
	return func(g *G) Res {
		w, r := c18world(g, depth)
		defer w.env.Close()
		for i := 0; r == nil && i < steps; i++ {
			switch g.Weighted(10, 5, 3, 2) {
			case 0:
				r = w.read()
			case 1:
				r = w.write()
			case 2:
				r = w.inside()
			case 3:
				r = w.alias()
			}
		}
		if r != nil {
			return *r
		}
		all := strings.Join(w.log, "\n")
		return Res{NonTrivial: w.ok >= 1 && w.no >= 1, Sample: all, Key: all, Evals: len(w.log)}
	}
}

func init() {
	register(&Prop{
		ID: "C18", Level: "exploration",
		Rule: "at least 1 permitted access that gave the right value and 1 access that had to be refused",
		Assumptions: []string{
			"a name that starts with no letter, or a letter without case, is private, as the title says",
			"the keys of a hash that is a capitalised member are no members of the package: they may be read and set",
			"paths that name no member are not generated",
		},
		Findings: map[string]func() string{"C18-late-dot": func() string {
			r := newRun(newIn())
			src := `(def pk (package "pk" (def hid 3) (defn Plus [x] (+ x 0)))) (pk.Plus .hid)`
			x, err, _ := r.eval(src, 10000)
			if i, ok := x.(*SexpInt); err == nil && ok && i.Val == 3 {
				return src
			}
			return ""
		}},
		Parts: []Part{
			{Name: "flat packages", Quick: 8000, Thorough: 100000, Run: c18history(0, 8)},
			{Name: "nested packages", Quick: 16000, Thorough: 200000, Run: c18history(2, 10)},
			{Name: "deep packages", Quick: 4000, Thorough: 60000, Run: c18history(5, 16)},
		},
	})
}
