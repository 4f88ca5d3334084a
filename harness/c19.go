package main

import (
	"fmt"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

var c19Names = []string{"a", "b", "a1", "", "a.b", ".a", "#a", "?a", "$a", "x:", "12", "__gensym", "__anon", "é", "A", "nil", "true", "quote", "+", "a b", "\x00", "def", "infix", "(", "p", "__loop"}

type c19Sym struct {
	s    *SexpSymbol
	name string
	how  string
}

type c19State struct {
	envs  []*Zlisp
	kinds []string
	syms  []c19Sym
	names map[string]bool
	log   []string
	fail  string
	sig   string
}

func (s *c19State) bad(sig, f string, a ...interface{}) {
	if s.fail == "" {
		s.fail, s.sig = fmt.Sprintf(f, a...)+"\nhistory: "+strings.Join(s.log, "; "), sig
	}
}

func (s *c19State) note(x Sexp, name, how string, gen bool) {
	y, ok := x.(*SexpSymbol)
	if !ok {
		s.bad("not a symbol", "%s gave %s, not a symbol", how, show(x))
		return
	}
	if !gen && y.Name() != name {
		s.bad("name", "%s gave a symbol named %q", how, y.Name())
	}
	if gen {
		if s.names[y.Name()] {
			s.bad("generated exists", "%s gave %q, which exists already", how, y.Name())
		}
		for _, z := range s.syms {
			if z.s.Number() == y.Number() {
				s.bad("generated number", "%s gave %q with number %d, which is that of %q (%s)", how, y.Name(), y.Number(), z.name, z.how)
			}
		}
	}
	s.names[y.Name()] = true
	s.syms = append(s.syms, c19Sym{y, y.Name(), how})
}

// one operation; k counts the operations, so that the exhaustive part can use it
func (s *c19State) op(env int, op int, name string, g *G) {
	e := s.envs[env]
	how := fmt.Sprintf("%s: ", s.kinds[env])
	ev := func(src string) Sexp {
		x, err := e.EvalString(src)
		if err != nil {
			s.bad("error", "%s: %v", src, err)
			e.Clear()
			return nil
		}
		return x
	}
	s.log = append(s.log, fmt.Sprintf("[%d] op %d %q", env, op, name))
	switch op {
	case 0:
		s.note(e.MakeSymbol(name), name, how+"MakeSymbol "+name, false)
	case 1:
		e.AddGlobal("str_arg", &SexpStr{S: name})
		s.note(ev("(str2sym str_arg)"), name, how+"str2sym "+name, false)
	case 2: // generated
		if name == "__gensym" {
			x := ev("(gensym)")
			if x != nil {
				s.note(x, "", how+"(gensym)", true)
			}
			return
		}
		e.AddGlobal("str_arg", &SexpStr{S: name})
		x := ev("(gensym str_arg)")
		if x != nil {
			s.note(x, "", how+"(gensym "+name+")", true)
		}
	case 3:
		s.note(e.GenSymbol(name), "", how+"GenSymbol "+name, true)
	case 4: // a name that a generated symbol may get: prefix and a number coming up
		n := e.MakeSymbol("probe" + fmt.Sprint(len(s.syms), len(s.log))).Number()
		k := g.Intn(4)
		name = fmt.Sprintf("%s%d", name, n+k)
		if g.Chance(1, 2) {
			s.note(e.MakeSymbol(name), name, how+"MakeSymbol "+name, false)
			return
		}
		e.AddGlobal("str_arg", &SexpStr{S: name})
		s.note(ev("(str2sym str_arg)"), name, how+"str2sym "+name, false)
	case 5: // as read
		n := name
		if !plainSym.MatchString(n) || n == "nil" || n == "true" {
			n = "rd_" + fmt.Sprint(len(name))
		}
		s.note(ev("(quote "+n+")"), n, how+"quote "+n, false)
	case 6:
		n := name
		if !plainSym.MatchString(n) || n == "nil" || n == "true" || n == "quote" || n == "def" || n == "infix" {
			n = "col_" + fmt.Sprint(len(name))
		}
		if x := ev("(first (quote (" + n + ": 3)))"); x != nil { // (quote (a: 3))
			if y, ok := x.(*SexpSymbol); ok {
				s.note(y, n, how+"read "+n+":", false)
			} else {
				p, ok := x.(*SexpPair) // a: reads as (quote a)
				if ok {
					if q, ok := p.Tail.(*SexpPair); ok {
						s.note(q.Head, n, how+"read "+n+":", false)
					}
				}
			}
		}
	case 7: // a key decoded from JSON
		if name == "Atype" || strings.ContainsAny(name, "\"\\\x00") {
			return
		}
		e.AddGlobal("str_arg", &SexpStr{S: `{"Atype":"hash", "` + name + `":1, "zKeyOrder":["` + name + `"]}`})
		x := ev("(first (keys (unjson (raw str_arg))))")
		if x != nil {
			s.note(x, name, how+"JSON key "+name, false)
		}
	case 8: // a generated symbol inside a macro, expanded in a duplicate
		if x := ev("(begin (defmac mg [] (let [s (gensym)] ^(quote ~s))) (mg))"); x != nil {
			s.note(x, "", how+"gensym in a macro", true)
		}
	case 9: // anonymous functions, loops and packages generate names behind the scenes
		ev("(begin (fn [q] q) (for [(def i 0) (< i 1) (set i (+ i 1))] nil))")
	case 10:
		d := e.Duplicate()
		s.envs = append(s.envs, d)
		s.kinds = append(s.kinds, fmt.Sprintf("dup%d of %s", len(s.envs)-1, s.kinds[env]))
	case 11:
		d := e.Clone()
		s.envs = append(s.envs, d)
		s.kinds = append(s.kinds, fmt.Sprintf("clone%d of %s", len(s.envs)-1, s.kinds[env]))
	case 12: // a global set through one interpreter is found through another
		n := name
		if !plainSym.MatchString(n) || n == "nil" || n == "true" || n == "quote" || n == "def" || n == "infix" {
			n = "glob_" + fmt.Sprint(len(name))
		}
		v := int64(len(s.log)*1000 + 7)
		e.AddGlobal(n, &SexpInt{Val: v})
		o := s.envs[g.Intn(len(s.envs))]
		x, err := o.EvalString(n)
		if err != nil {
			o.Clear()
		}
		if err != nil || describe(x) != fmt.Sprint(v) {
			s.bad("global", "%s bound to %d through %s is %v %v through another", n, v, s.kinds[env], show(x), err)
		}
		s.note(e.MakeSymbol(n), n, how+"MakeSymbol "+n, false)
	}
}

func (s *c19State) judge() {
	if s.fail != "" {
		return
	}
	for i := range s.syms {
		e := s.envs[i%len(s.envs)]
		for j := i; j < len(s.syms); j++ {
			a, b := s.syms[i], s.syms[j]
			same := a.name == b.name
			if (a.s.Number() == b.s.Number()) != same {
				s.bad("numbers", "%q (%s) has number %d and %q (%s) has %d", a.name, a.how, a.s.Number(), b.name, b.how, b.s.Number())
				return
			}
			c, err := e.Compare(a.s, b.s)
			if err != nil || (c == 0) != same {
				s.bad("compare", "%q (%s) against %q (%s): %v %v", a.name, a.how, b.name, b.how, c, err)
				return
			}
		}
	}
	// through scripts, and as hash keys
	e := s.envs[len(s.envs)-1]
	if n := len(s.syms); n > 1 {
		for k := 0; k < 3; k++ {
			a, b := s.syms[(k*7)%n], s.syms[(k*5+1)%n]
			e.AddGlobal("sa", a.s)
			e.AddGlobal("sb", b.s)
			x, err := e.EvalString("[(== sa sb) (!= sa sb) (hget (hash) sa 0) (let [h (hash)] (hset h sa 1) (hget h sb 0)) (sym2str sa)]")
			if err != nil {
				e.Clear()
				s.bad("script", "comparing %q and %q: %v", a.name, b.name, err)
				return
			}
			w := "[false true 0 0 "
			if a.name == b.name {
				w = "[true false 0 1 "
			}
			w += describe(&SexpStr{S: a.name}) + "]"
			if describe(x) != w {
				s.bad("script", "comparing %q (%s) and %q (%s): %s, should be %s", a.name, a.how, b.name, b.how, describe(x), w)
				return
			}
		}
	}
}

func c19Fresh() *c19State {
	return &c19State{envs: []*Zlisp{newIn()}, kinds: []string{"original"}, names: map[string]bool{}}
}

func (s *c19State) res() Res {
	s.judge()
	r := Res{Fail: s.fail, Sig: s.sig, Key: strings.Join(s.log, ";"), Sample: strings.Join(s.log, "; "), NonTrivial: len(s.syms) > 1}
	return r
}

var c19ShortOps = []int{0, 1, 2, 3, 4, 5, 9, 10, 11}

func c19Short(g *G) Res {
	s := c19Fresh()
	i := g.I
	n := len(c19ShortOps)
	per := n * 2 * 2 // operation, which interpreter, which name
	depth := 3
	for k := 0; k < depth; k++ {
		c := i % per
		i /= per
		op := c19ShortOps[c%n]
		e := (c / n) % 2 * (len(s.envs) - 1)
		s.op(e, op, []string{"a", "__gensym"}[c/n/2], g)
	}
	// then one of each in every interpreter
	for e := range s.envs {
		s.op(e, 2, "a", g)
		s.op(e, 3, "__gensym", g)
		s.op(e, 0, "b", g)
	}
	return s.res()
}

func c19Random(g *G) Res {
	s := c19Fresh()
	n := 2 + g.Intn(25)
	for i := 0; i < n && s.fail == ""; i++ {
		op := g.Weighted(4, 3, 4, 3, 5, 3, 1, 1, 2, 1, 2, 2, 2)
		if op >= 10 && op <= 11 && len(s.envs) > 5 {
			op = 3
		}
		name := c19Names[g.Intn(len(c19Names))]
		if g.Chance(1, 2) {
			name = pickS(g, "a", "b", "__gensym", "p")
		}
		if g.Chance(1, 4) && len(s.syms) > 0 {
			name = s.syms[g.Intn(len(s.syms))].name
		}
		s.op(g.Intn(len(s.envs)), op, name, g)
	}
	return s.res()
}

func init() {
	register(&Prop{ID: "C19", Level: "exploration",
		Rule: "the history makes at least two symbols",
		Parts: []Part{
			{Name: "short", Enum: func(tier string) int {
				n := len(c19ShortOps) * 4
				if tier == "thorough" {
					return n * n * n
				}
				return n * n * 6
			}, Run: c19Short},
			{Name: "random", Quick: 16000, Thorough: 400000, Run: c19Random},
		}})
}
