package main

// C03: lexical scoping. Programs over few names, so that nearly every binding
// shadows another, with closures escaping in every way, against the
// reference evaluator, whose scopes are plain linked maps.

func init() {
	base := pcfg{loops: 2, funcs: 6, closure: 6, tail: 3, effects: 2, maxd: 5, simple: true, nest: 70, names: []string{"a", "b", "f"}}
	form := func(name string, c pcfg, forms, size int, each bool, quick, thorough int) Part {
		return Part{Name: name, Quick: quick, Thorough: thorough, Run: func(g *G) Res {
			xs, _ := progCase(g, c, forms, size)
			if g.Chance(1, 4) {
				for i := range xs {
					xs[i] = hideBuiltins(g, xs[i])
				}
			}
			var res Res
			var ref *revl
			if each {
				res, ref = cmpForms(xs)
			} else {
				res, ref = cmpProg(xs)
			}
			res.NonTrivial = ref.shadows >= 1 && ref.free >= 2 && ref.closures >= 2
			return res
		}}
	}
	wild := base
	wild.wild = 120
	wide := base
	wide.names = []string{"a", "b", "c", "f", "g"}
	evals := base
	evals.eval = 3
	evals.names = []string{"a", "b", "c", "f"}
	tail := base
	tail.tail = 30
	tail.names = []string{"a", "b", "f", "n"}
	register(&Prop{
		ID: "C03", Level: "exploration",
		Rule: "the program makes at least 2 closures, reads or writes at least 2 times a variable of a scope outside the running function, and has a binding that shadows another in reach",
		Parts: []Part{
			form("small", base, 4, 40, false, 50000, 700000),
			form("nested", base, 8, 150, false, 30000, 400000),
			form("wide", wide, 8, 200, false, 15000, 200000),
			form("tail", tail, 6, 120, false, 20000, 300000),
			form("eval", evals, 5, 80, true, 25000, 300000),
			form("unbound", wild, 8, 100, true, 40000, 500000),
		},
	})
}

// Builtins the reference evaluator does not know and no generated program
// names: a parameter or let variable may hide them.
var c03builtins = []string{"flatten", "isbase64", "copyraw", "symnum", "typelist", "json", "fieldls", "gensym", "unjson"}

// hideBuiltins renames, in some functions and lets, a variable that is only
// read there to the name of a builtin, which it then hides.
func hideBuiltins(g *G, x X) X {
	v, ok := x.(li)
	if !ok {
		if a, ok := x.(ar); ok {
			o := make(ar, len(a))
			for i := range a {
				o[i] = hideBuiltins(g, a[i])
			}
			return o
		}
		return x
	}
	if at := bindersAt(v); at > 0 && g.Chance(1, 2) {
		var names []sy
		for i, y := range v[at].(ar) {
			n, ok := y.(sy)
			if !ok || n == "&" || n[0] == '#' || v[0] != sy("fn") && v[0] != sy("defn") && i%2 == 1 {
				continue
			}
			names = append(names, n)
		}
		if len(names) > 0 {
			n := names[g.Intn(len(names))]
			to := sy(c03builtins[g.Intn(len(c03builtins))])
			ok := !mentions(v, to)
			if at == 2 && v[1] == n {
				ok = false
			}
			if v[0] == sy("let") || v[0] == sy("letseq") {
				for i, y := range v[at].(ar) {
					ok = ok && (i%2 == 0 || !mentions(y, n))
				}
			}
			if ok && onlyRead(v[at+1:], n) {
				v = renameIn(v, n, to).(li)
			}
		}
	}
	o := make(li, len(v))
	for i := range v {
		o[i] = hideBuiltins(g, v[i])
	}
	return o
}

// bindersAt says where in a form the array is that binds its variables.
func bindersAt(v li) int {
	if len(v) < 3 {
		return 0
	}
	at := 0
	switch v[0] {
	case sy("let"), sy("letseq"), sy("fn"):
		at = 1
	case sy("defn"):
		at = 2
	default:
		return 0
	}
	if _, ok := v[at].(ar); !ok || at+1 >= len(v) {
		return 0
	}
	return at
}

func mentions(x X, n sy) bool {
	switch v := x.(type) {
	case sy:
		return v == n
	case li:
		for _, y := range v {
			if mentions(y, n) {
				return true
			}
		}
	case ar:
		return mentions(li(v), n)
	case nil, bool, int, int64, float64, string, kw, cm, ch, u64:
		return false
	default:
		return true // not looked into
	}
	return false
}

// onlyRead says that nothing in the body quotes, sets or defines n, which
// the compiler refuses for the name of a builtin, and that nothing there is
// a form renameIn does not look into.
func onlyRead(xs []X, n sy) bool {
	for _, x := range xs {
		switch v := x.(type) {
		case li:
			if len(v) > 1 {
				switch v[0] {
				case sy("quote"), sy("syntaxQuote"), sy("eval"), sy("macexpand"), sy("defmac"), sy("infix"):
					return false
				case sy("set"), sy("def"), sy("defn"), sy("func"), sy("method"), sy("mdef"), sy("range"), sy("="), sy(":="), sy("++"), sy("--"), sy("+="), sy("-="):
					for _, y := range v[1:] {
						if y == X(n) {
							return false
						}
						if a, ok := y.(li); ok && v[0] == sy("mdef") && mentions(a, n) {
							return false
						}
					}
				}
				for _, y := range v[1:] {
					if s, ok := y.(sy); ok && s == n && (v[1] == sy("=") || v[1] == sy(":=")) {
						return false
					}
				}
			}
			if !onlyRead(v, n) {
				return false
			}
		case ar:
			if !onlyRead(v, n) {
				return false
			}
		case sy, nil, bool, int, int64, float64, string, kw, cm, ch, u64:
		default:
			return false
		}
	}
	return true
}

func renameIn(x X, n, to sy) X {
	switch v := x.(type) {
	case sy:
		if v == n {
			return to
		}
	case li:
		o := make(li, len(v))
		for i := range v {
			o[i] = renameIn(v[i], n, to)
		}
		return o
	case ar:
		return ar(renameIn(li(v), n, to).(li))
	}
	return x
}
