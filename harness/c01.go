package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// C01: whatever text an interpreter is given, the caller gets a value or an
// error. Texts are evaluated the way EvalString, LoadString+Run and the REPL
// do, values and errors are printed, and the interpreter must answer after.

// hostIn is an interpreter without the functions that end the process, wait
// for ever or run commands on purpose.
func hostIn() *Zlisp {
	env := newIn()
	no := func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		return SexpNull, fmt.Errorf("%s is not for this test", name)
	}
	for _, n := range []string{"exit", "system", "timeit", "<!", "send", "registerDemoFunctions"} {
		env.AddFunction(n, no)
	}
	env.AddBuilder("sys", no)
	env.AddFunction("emit", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		for _, x := range args {
			_ = x.SexpString(nil)
		}
		if len(args) == 0 {
			return SexpNull, nil
		}
		return args[len(args)-1], nil
	})
	env.AddFunction("fail", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		return SexpNull, errors.New("fail")
	})
	return env
}

// where finds the innermost function of the library in a panic's stack.
func where(stack string) string {
	ls := strings.Split(stack, "\n")
	seen := false
	for _, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "zygomys") && !strings.Contains(l, "panicOn") && strings.Contains(l, "/zygo.") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return "?"
}

type answer struct {
	val   string
	err   string
	over  bool
	steps int
	fail  string
	sig   string
}

const (
	byEval = iota
	byLoad
	byRepl
	nBy
)

var byNames = []string{"EvalString", "LoadString and Run", "REPL"}

// ask gives text to the interpreter.
func ask(env *Zlisp, text string, by, max int) (a answer) {
	stage := "evaluating"
	defer func() {
		VerifStep = nil
		if e := recover(); e != nil {
			st := string(debug.Stack())
			a.fail = fmt.Sprintf("panic while %s (%s): %v\nin %s\n%s", stage, byNames[by], clip(fmt.Sprint(e), 300), where(st), clip(st, 3000))
			a.sig = "panic " + where(st)
		}
	}()
	VerifStep = func(*Zlisp) error {
		a.steps++
		if a.steps > max {
			a.over = true
			return errSteps{}
		}
		return nil
	}
	var x Sexp
	var err error
	switch by {
	case byEval:
		x, err = env.EvalString(text)
	case byLoad:
		if err = env.LoadString(text); err == nil {
			x, err = env.Run()
		}
	case byRepl:
		// as Repl does with a line that parses
		stage = "parsing"
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text + "\n"))
		xs, perr := p.ParseTokens()
		stage = "evaluating"
		if perr != nil {
			err = perr
			env.Clear()
			break
		}
		var in []Sexp
		for _, y := range xs {
			if y != SexpEnd {
				in = append(in, y)
			}
		}
		if len(in) > 0 {
			x, err = env.EvalExpressions([]Sexp{MakeList([]Sexp{env.MakeSymbol("infix"), &SexpArray{Val: in, Env: env}})})
		} else {
			x, err = env.EvalString(env.ReplLineInfixWrap(text) + " ")
		}
		if err != nil {
			_ = env.GetStackTrace(err)
			env.Clear()
		} else if s, ok := x.(Selector); ok {
			stage = "reading a selector"
			y, e := s.RHS(env)
			if e == nil {
				x = y
			}
		}
	}
	if err != nil {
		stage = "writing the error"
		a.err = err.Error()
		return
	}
	if x == nil {
		a.fail = fmt.Sprintf("%s returned neither a value nor an error", byNames[by])
		a.sig = "nil"
		return
	}
	stage = "printing the value"
	a.val = x.SexpString(nil)
	x.Type()
	return
}

// alive asks for a sum the way a host would go on using the interpreter.
func alive(env *Zlisp) (a answer) {
	a = ask(env, "(quote (1 2 \"ok\"))", byEval, 100000)
	if a.fail == "" && (a.err != "" || a.val != "(1 2 \"ok\")") {
		a.fail = fmt.Sprintf("the interpreter does not work any more: (quote (1 2 \"ok\")) gives %q, error %q", a.val, clip(a.err, 300))
		a.sig = "dead"
	}
	return
}

// askAll evaluates texts in order in one interpreter.
func askAll(texts []string, by, max int) (res Res) {
	env := hostIn()
	res.Key = byNames[by] + "\x00" + strings.Join(texts, "\x00")
	res.Sample = byNames[by] + ":\n" + strings.Join(texts, "\n---\n")
	ran := false
	for _, t := range texts {
		a := ask(env, t, by, max)
		res.Evals++
		if a.fail == "" {
			if a.steps >= 3 {
				ran = true
			}
			if a.over {
				continue
			}
			b := alive(env)
			a.fail, a.sig = b.fail, b.sig
		}
		if a.fail != "" {
			res.Fail = fmt.Sprintf("text: %q\n%s", t, a.fail)
			res.Sig = a.sig
			return
		}
	}
	res.NonTrivial = ran
	return
}

// ---- the forms

var c01special = strings.Fields(`and or cond quote def mdef fn defn begin let letseq assert defmac macexpand syntaxQuote include for set
	break continue newScope package return _ls infix infixExpand struct func method interface var expectError import : comma raw64 unquote unquote-splicing
	defmap range req ++ += -- -= declare-msgpack-map random regexpCompile regexpFindIndex regexpFind regexpMatch makeChan now astm millis date
	nextBusinessDay dur eval int64 string error int float64 time.Time Weather . , ; & & #`)

// some operands, as source text
var c01args = []string{
	"0", "1", "-1", "70", "9223372036854775807", "-9223372036854775808", "5ULL", "18446744073709551615ULL", "1.5", "1e300", "true", "nil",
	`"str"`, `""`, "`b`", "'c'", "%sym", "%#x", "a", "hh", "a.b", "hh.k", "unk", "unk.b", "a:", "()", "[]", "[1 2]", `["a" "b"]`, "[a]", "[a 1]", "[1 a]", "[a b]", "[& a]", "[a &]", "[& & a]", "[#a]", "[[a] 1]", `["s" 1]`,
	"(quote (1 2))", "(quote (a \\ b))", "(quote (f a))", "(a)", "(1)", "(quote ())", "(hash)", "(hash a:1)", `(hash "a" [1 (hash b:2)])`, "(fn [x] x)", "(fn [& r] (/ 1 0))", "(fn [#x] 1)", "+", "first", "cond",
	"rec", "TyP", "int64", "(& hh)", "(& rec)", "(& a)", "pk", "pk.Pub", "(raw \"ab\")", "(now)", "(regexpCompile \"a+\")", "(makeChan)", "{1 + 2}", "{}", "{a}", "{arr[1]}", "{hh[k:]}", "(quote {a[1]})", "arr", "sp", "(* int64)", "([]string)",
	"[a:int64]", "[(field a:int64)]", "[(field a: int64 e:0) (field b: ([]TyP) e:1)]", "[(func Fl [w:int64] [r:int64])]", "[p: (* TyP)]", "~a", "~@a", "^(a ~b)", "^a", "%%a", ";", ",", "/*c*/", ":", ".", "=", ":=", "(def a 2)", "(a [1] 2)", "Iff", "ff", "lp:",
}

var c01prelude = []string{"(def a 1)", "(def b 2)", "(def x 3)", "(def arr [1 2 3])", "(def sp (append (append arr 4) 5))", "(def hh (hash k:(hash j:1) 5 6))", `(struct TyP [(field n: int64 e:0) (field s: string e:1) (field t: ([]string) e:2) (field p: (* int64) e:3)])`,
	`(def rec (TyP n:1 s:"s"))`, `(def pk (package "pk" { Pub := 3; hid := 4 } (defn Get [x] (+ x hid))))`, "(interface Iff [(func Fly [w:int64] [r:int64])])", "(func ff [a:int64 b:int64] [r:int64] (return (+ a b)))", "(defn f [x & r] x)", "(defmac m [x & r] ^(list ~x ~@r))"}

var c01names []string

const c01chars = "()[]{}\"'`%^~@.:;,+-*/=<>!&|#$\\ \n0123456789abexULL"

func c01Init() {
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			c01names = append(c01names, n)
		}
	}
	var ns []string
	for n := range AllBuiltinFunctions() {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range c01special {
		add(n)
	}
	for _, n := range ns {
		add(n)
	}
	// callees that are not names of builtins
	for _, n := range []string{"f", "m", "ff", "rec", "hh", "arr", "TyP", "pk", "pk.Get", "a.b", "hh.k", "unk", "k:", "1", `"s"`, "nil", "()", "[]", "(fn [x] x)", "(fn [#x] (force #x))", "{a}", "^", "~", "%", "%sym"} {
		add(n)
	}
	c13Init()
}

// formCase evaluates every call of one name with up to two operands, the
// first of which is fixed, in one interpreter that has seen the prelude.
// In the quick tier a third of the second operands is used, another one for
// every name and first operand.
func formTexts(name string, first int, all bool) []string {
	var out []string
	if first < 0 {
		return []string{fmt.Sprintf("(%s)", name), fmt.Sprintf("{%s}", name), name, fmt.Sprintf("[%s]", name), fmt.Sprintf("{(%s)}", name)}
	}
	a := c01args[first]
	out = append(out, fmt.Sprintf("(%s %s)", name, a), fmt.Sprintf("{%s %s}", name, a), fmt.Sprintf("{%s %s}", a, name), fmt.Sprintf("(quote (%s %s))", name, a))
	for j, b := range c01args {
		if !all && (j+first+len(name)+int(name[0]))%3 != 0 {
			continue
		}
		out = append(out, fmt.Sprintf("(%s %s %s)", name, a, b))
	}
	return out
}

func forms(texts []string, by int) (res Res) {
	res.Key = fmt.Sprint(by, texts)
	res.Sample = fmt.Sprintf("%s, %d texts: %s", byNames[by], len(texts), clip(strings.Join(texts, "   "), 600))
	var env *Zlisp
	fresh := func() {
		env = hostIn()
		for _, t := range c01prelude {
			if a := ask(env, t, byEval, 100000); a.fail != "" {
				res.Fail = fmt.Sprintf("prelude %q: %s", t, a.fail)
				res.Sig = a.sig
			}
		}
	}
	fresh()
	if res.Fail != "" {
		return
	}
	for _, t := range texts {
		cur = t
		a := ask(env, t, by, 20000)
		res.Evals++
		if a.fail == "" {
			a = alive(env)
		}
		if a.fail != "" {
			fresh()
			b := ask(env, t, by, 20000)
			if b.fail == "" {
				b = alive(env)
			}
			note := ""
			if b.fail == "" {
				b = a
				note = fmt.Sprintf("(only after the texts before it in this list: %s)\n", clip(strings.Join(texts, "   "), 4000))
			}
			res.Fail = fmt.Sprintf("text: %q\nafter the prelude: %s\n%s%s", t, strings.Join(c01prelude, " "), note, b.fail)
			res.Sig = b.sig
			return
		}
		if err := redefined(env); err {
			fresh()
		}
	}
	res.NonTrivial = true
	return
}

var cur string // the text being evaluated, for post-mortems

// redefined says whether a text changed what the next ones rely on.
func redefined(env *Zlisp) bool {
	a := ask(env, "(list a b x (len arr) (len hh) rec)", byEval, 1000)
	return !strings.HasPrefix(a.val, "(1 2 3 3 2 ")
}

// ---- tokens

var c01toks = []string{"(", ")", "[", "]", "{", "}", "a", "1", "-1", "2.5", `"s"`, "'c'", "%", "^", "~", "~@", "@", ".b", "a.b", "a:", ":", ";", ",", "+", "-", "*", "**", "/", "=", ":=", "==", "<", "and", "or", "not", "mod", "++", "--", "+=", "->", "\\", "&", "#a", "$", "?", "!",
	"if", "else", "for", "range", "break", "continue", "return", "func", "def", "set", "fn", "let", "cond", "quote", "begin", "defmac", "package", "struct", "infix", "hash", "nil", "true", "//c\n", "/*c*/", "\n", "`", "\"", "'", "a[", "f(", "else if", "1.", ".5", "0x", "1ULL", "1e", "%a", "^a", "~a", "_", "\x00", "é", "\xff", "=>", "<-", "<!", "|", "||", "&&", "lbl:", "`r`", "\"\\", "0b2", "'\\", "(infix", "{}", "()", "[]", "%()", "(fn []"}

func init() {
	nt := len(c01toks)
	tokens := Part{Name: "tokens", Enum: func(tier string) int {
		if tier == "thorough" {
			return nt + nt*nt + nt*nt
		}
		return nt + nt*nt
	}, Run: func(g *G) Res {
		// every text of up to two tokens; thorough: and all of three
		i := g.I
		var texts []string
		join := func(ts ...string) {
			texts = append(texts, strings.Join(ts, " "), strings.Join(ts, ""))
			if len(ts) < 3 {
				texts = append(texts, "{"+strings.Join(ts, " ")+"}", "("+strings.Join(ts, " ")+")", "["+strings.Join(ts, " ")+"]")
			}
		}
		switch {
		case i < nt:
			join(c01toks[i])
		case i < nt+nt*nt:
			i -= nt
			join(c01toks[i/nt], c01toks[i%nt])
		default:
			i -= nt + nt*nt
			for _, t := range c01toks {
				join(c01toks[i/nt], c01toks[i%nt], t)
				texts = append(texts, "{"+c01toks[i/nt]+" "+c01toks[i%nt]+" "+t+"}")
			}
		}
		var res Res
		for by := 0; by < nBy; by++ {
			r := forms(texts, by)
			res.Evals += r.Evals
			if r.Fail != "" {
				return r
			}
			if by == 0 {
				res.Key, res.Sample = r.Key, r.Sample
			}
		}
		res.NonTrivial = true
		return res
	}}
	calls := Part{Name: "forms", Enum: func(string) int { return len(c01names) * (len(c01args) + 1) }, Run: func(g *G) Res {
		n := len(c01args) + 1
		by := byEval
		if (g.I/n+g.I%n)%4 == 3 {
			by = byRepl
		}
		return forms(formTexts(c01names[g.I/n], g.I%n-1, g.Tier == "thorough"), by)
	}}
	// containers at the edge of their memory, at all positions in and around them
	conts := []string{"arr", "sp", "[]", "(rest sp)", "(slice sp 1 2)", `"héy"`, "\"\"", "(hash)", "hh", "(quote (1 2))", "(quote (a b))", "(raw \"ab\")", "rec.t", "rec", "(keys hh)", "(appendslice sp sp)"}
	ats := []string{"-1", "0", "1", "2", "3", "4", "5", "9223372036854775807"}
	positions := Part{Name: "positions", Enum: func(string) int { return len(c01names) * len(conts) }, Run: func(g *G) Res {
		n, c := c01names[g.I/len(conts)], conts[g.I%len(conts)]
		var texts []string
		for i, a := range ats {
			texts = append(texts, fmt.Sprintf("(%s %s %s)", n, c, a), fmt.Sprintf("(%s %s %s)", n, a, c), fmt.Sprintf("(%s %s %s %s)", n, c, a, c))
			for j, b := range ats {
				if g.Tier != "thorough" && (i+j+g.I)%3 != 0 {
					continue
				}
				texts = append(texts, fmt.Sprintf("(%s %s %s %s)", n, c, a, b))
			}
		}
		return forms(texts, byEval)
	}}
	// three operands of every kind
	kinds := []string{"0", "-1", "1.5", "5ULL", `"str"`, "'c'", "%sym", "nil", "[1 a]", "(quote (a 1))", "hh", "rec", "(fn [x] x)", "TyP", "k:", "(& a)"}
	three := Part{Name: "three", Enum: func(string) int { return len(c01names) * len(kinds) }, Run: func(g *G) Res {
		n, c := c01names[g.I/len(kinds)], kinds[g.I%len(kinds)]
		var texts []string
		for i, a := range kinds {
			for j, b := range kinds {
				if g.Tier != "thorough" && (i*len(kinds)+j+g.I)%5 != 0 {
					continue
				}
				texts = append(texts, fmt.Sprintf("(%s %s %s %s)", n, c, a, b))
			}
		}
		return forms(texts, byEval)
	}}
	randCalls := func(g *G) Res {
		var texts []string
		var form func(d int) string
		form = func(d int) string {
			if d <= 0 || g.Chance(1, 2) {
				return pickS(g, c01args...)
			}
			name := pickS(g, c01names...)
			n := g.Weighted(1, 2, 4, 6, 4, 2)
			s := []string{name}
			for ; n > 0; n-- {
				s = append(s, form(d-1))
			}
			t := strings.Join(s, " ")
			return [][2]string{{"(", ")"}, {"(", ")"}, {"(", ")"}, {"{", "}"}, {"[", "]"}, {"(quote (", "))"}}[g.Intn(6)][0] + t + [][2]string{{"(", ")"}, {"(", ")"}, {"(", ")"}, {"{", "}"}, {"[", "]"}, {"(quote (", "))"}}[0][1]
		}
		for k := g.Range(1, 6); k > 0; k-- {
			name := pickS(g, c01names...)
			s := []string{name}
			for n := g.Range(1, 5); n > 0; n-- {
				s = append(s, form(2))
			}
			texts = append(texts, "("+strings.Join(s, " ")+")")
		}
		return forms(texts, g.Weighted(4, 1, 2))
	}

	programs := func(g *G) Res {
		var text string
		switch g.Intn(3) {
		case 0:
			xs, _ := progCase(g, pcfg{loops: 3, funcs: 4, closure: 2, tail: 2, effects: 3, maxd: 4, eval: 1, errs: 40, wild: 30}, 6, 100)
			text = renderProg(mutateProg(g, xs))
		case 1:
			s := newSgen(g, 30)
			text = sPrelude + "\n" + s.top(g.Range(1, 3)) + "\n" + s.top(g.Range(1, 4))
			if g.Chance(1, 2) {
				text = mutateText(g, text)
			}
		default:
			m := &m15{g: g, p: &pgen{g: g, c: pcfg{loops: 1, funcs: 2, closure: 1, tail: 1, effects: 3, maxd: 3, errs: 30}, budget: 120}}
			m.p.sc = []gscope{{}}
			text = renderProg(mutateProg(g, m.program(true)))
		}
		return askAll([]string{text, "(set a 1)"}, g.Weighted(4, 1, 2), 20000)
	}
	texts := func(g *G) Res {
		var ts []string
		for k := g.Range(1, 3); k > 0; k-- {
			t := ""
			switch g.Intn(4) {
			case 0:
				t = genAnyText(g)
			case 1:
				t = mutateText(g, genAnyText(g))
			case 2:
				if len(c13corpus) > 0 {
					t = c13corpus[g.Intn(len(c13corpus))]
					if len(t) > 3000 {
						i := g.Intn(len(t) - 1500)
						t = t[i : i+g.Range(100, 1500)]
					}
					for n := g.Range(1, 5); n > 0; n-- {
						t = mutateText(g, t)
					}
				}
			default:
				for n := g.Range(2, 9); n > 0; n-- {
					t += pickS(g, c01toks...) + pickS(g, "", " ")
				}
			}
			ts = append(ts, t)
		}
		return askAll(ts, g.Weighted(3, 1, 3), 20000)
	}
	bytesP := func(g *G) Res {
		n := g.Range(1, 40)
		b := make([]byte, n)
		for i := range b {
			switch g.Intn(3) {
			case 0:
				b[i] = byte(g.Intn(256))
			case 1:
				b[i] = byte(32 + g.Intn(95))
			default:
				b[i] = c01chars[g.Intn(len(c01chars))]
			}
		}
		r := askAll([]string{string(b)}, g.Weighted(3, 1, 3), 20000)
		r.Sample = fmt.Sprintf("%q", b)
		return r
	}
	deepCalls := Part{Name: "deep", Enum: func(tier string) int {
		if tier == "thorough" {
			return len(c01names) * len(c01deep)
		}
		return len(c01names) * len(c01deep) / 2
	}, Run: func(g *G) Res {
		at := g.I
		if g.Tier != "thorough" {
			at = 2*at + at/len(c01deep)%2 // every other value, alternating
		}
		n := "5200"
		if g.Tier == "thorough" && (at/len(c01deep)+at)%8 == 0 {
			n = "25000"
		}
		d := c01deep[at%len(c01deep)]
		d[1] = strings.Replace(d[1], "< N;", "< "+n+";", 1)
		return deepCase(c01names[at/len(c01deep)], d, g.Tier == "thorough", at+at/len(c01deep))
	}}
	sizes := func(tier string) []int {
		if tier == "thorough" {
			return []int{10, 1000, 4000, 6000, 20000, 100000, 400000}
		}
		return []int{10, 4000, 6000, 50000}
	}
	deepTexts := Part{Name: "nesting", Enum: func(tier string) int { return len(c01nests) * len(sizes(tier)) * nBy }, Run: func(g *G) Res {
		sz := sizes(g.Tier)
		n := c01nests[g.I/nBy/len(sz)]
		d := sz[g.I/nBy%len(sz)]
		r := askAll([]string{strings.Repeat(n[0], d) + n[1] + strings.Repeat(n[2], d)}, g.I%nBy, 400000)
		r.Sample = fmt.Sprintf("%d times %q around %q, by %s", d, n[0]+" ... "+n[2], n[1], byNames[g.I%nBy])
		if r.Fail != "" {
			r.Fail = r.Sample + "\n" + r.Fail
		}
		r.NonTrivial = true
		return r
	}}
	recursion := Part{Name: "recursion", Enum: func(tier string) int {
		if tier == "thorough" {
			return len(c01endless) * nBy
		}
		return len(c01endless)
	}, Run: func(g *G) Res {
		r := askAll([]string{c01endless[g.I%len(c01endless)], "(+ 1 2)"}, (g.I/len(c01endless)+g.I)%nBy, 3000000)
		r.NonTrivial = true
		return r
	}}
	register(&Prop{
		ID: "C01", Level: "exploration",
		Rule: "the text was compiled and at least 3 instructions ran (token and form grids: all)",
		Init: c01Init,
		Parts: []Part{
			tokens, calls, positions, three,
			{Name: "calls", Quick: 30000, Thorough: 600000, Run: randCalls},
			deepCalls, deepTexts, recursion,
			{Name: "codec", Quick: 20000, Thorough: 400000, Run: codecCase},
			{Name: "programs", Quick: 30000, Thorough: 600000, Run: programs},
			{Name: "texts", Quick: 60000, Thorough: 1500000, Run: texts},
			{Name: "bytes", Quick: 60000, Thorough: 1500000, Run: bytesP},
			{Name: "cli", Quick: 400, Thorough: 6000, Run: cliCase},
		},
	})
}

// mutateProg damages a program: parts of it are replaced, dropped, doubled
// or exchanged.
func mutateProg(g *G, xs []X) []X {
	if g.Chance(1, 3) {
		return xs
	}
	var all []li
	var walk func(x X)
	walk = func(x X) {
		switch v := x.(type) {
		case li:
			if len(v) > 0 {
				all = append(all, v)
			}
			for _, y := range v {
				walk(y)
			}
		case ar:
			for _, y := range v {
				walk(y)
			}
		}
	}
	out := make([]X, len(xs))
	for i, x := range xs {
		out[i] = copyX(x)
		walk(out[i])
	}
	if len(all) == 0 {
		return out
	}
	for k := g.Range(1, 4); k > 0; k-- {
		l := all[g.Intn(len(all))]
		i := g.Intn(len(l))
		switch g.Intn(4) {
		case 0:
			l[i] = sy(pickS(g, "a", "f", "nil", "cond", "let", "break", "fn", "quote", "unk", "a.b", "#x", "&", "for"))
		case 1:
			l[i] = []X{li{}, ar{}, 0, "s", ar{sy("a")}, li{sy("quote")}, li{1, 2}, 2.5, nil}[g.Intn(9)]
		case 2:
			l[i], l[0] = l[0], l[i]
		case 3:
			// not a list out of an outer one, which could close a cycle
			if y := all[g.Intn(len(all))]; len(y) > 0 {
				l[i] = copyX(y)
			}
		}
	}
	return out
}

func copyX(x X) X {
	switch v := x.(type) {
	case li:
		o := make(li, len(v))
		for i := range v {
			o[i] = copyX(v[i])
		}
		return o
	case ar:
		o := make(ar, len(v))
		for i := range v {
			o[i] = copyX(v[i])
		}
		return o
	}
	return x
}

func mutateText(g *G, t string) string {
	if len(t) == 0 {
		return t
	}
	i := g.Intn(len(t) + 1)
	j := i + g.Intn(12)
	if j > len(t) {
		j = len(t)
	}
	switch g.Intn(6) {
	case 0:
		return t[:i] + t[j:]
	case 1:
		return t[:i] + pickS(g, c01toks...) + t[i:]
	case 2:
		return t[:i] + pickS(g, c01toks...) + t[j:]
	case 3:
		return t[:i] + t[i:j] + t[i:j] + t[j:]
	case 4:
		return t[:i]
	default:
		k := g.Intn(len(t) + 1)
		return t[:k] + t[i:j] + t[k:]
	}
}

// cliCase gives texts to the command-line tool: by -c, as a script file, and
// as lines of an interactive session.
func cliCase(g *G) Res {
	var t string
	switch g.Intn(4) {
	case 0:
		t = genAnyText(g)
	case 1:
		s := newSgen(g, 40)
		t = mutateText(g, s.top(2))
	case 2:
		for n := g.Range(2, 9); n > 0; n-- {
			t += pickS(g, c01toks...) + pickS(g, "", " ")
		}
	default:
		t = fmt.Sprintf("(%s %s %s)", pickS(g, c01names...), pickS(g, c01args...), pickS(g, c01args...))
	}
	for _, w := range []string{"exit", "system", "sys", "timeit", "<!", "send", ".quit", ".cd", "slurp", "writef", "save", "source", "req", "import", "include"} {
		if strings.Contains(t, w) {
			return Res{Skip: true}
		}
	}
	t = strings.ReplaceAll(t, "\x00", "")
	how := g.Intn(3)
	res := Res{Key: fmt.Sprint(how, t), Sample: fmt.Sprintf("%s: %q", []string{"-c", "script", "session"}[how], t)}
	fail, done := runCli(how, t)
	res.NonTrivial = done
	if fail != "" {
		res.Fail = fail + "\n" + res.Sample
		res.Sig = "cli"
	}
	return res
}

func runCli(how int, t string) (fail string, done bool) {
	cli := os.Getenv("VERIF_CLI")
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	args := []string{"-quiet"}
	in := ""
	switch how {
	case 0:
		args = append(args, "-c", t)
	case 1:
		f := filepath.Join(dir, "s.zy")
		if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		args = append(args, "-exitonfail", f)
	case 2:
		args = append(args, "-no-liner")
		in = t + "\n)]})]}\n\"\n`\n*/\n\n(+ 70000 7)\n"
	}
	cmd := exec.CommandContext(ctx, cli, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(in)
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if ctx.Err() != nil {
		// a program may run for ever; only those known to end count
		return "", false
	}
	both := out.String() + serr.String()
	if code < 0 || strings.Contains(serr.String(), "\ngoroutine ") && strings.Contains(serr.String(), "runtime") && code == 2 {
		return fmt.Sprintf("the tool was killed (exit code %d, %v):\n%s", code, err, clip(serr.String(), 3000)), true
	}
	want := map[int][]int{0: {0, 1}, 1: {0, 255}, 2: {0}}[how]
	ok := false
	for _, w := range want {
		ok = ok || w == code
	}
	if !ok {
		return fmt.Sprintf("exit code %d\n%s", code, clip(both, 3000)), true
	}
	return "", true
}

var _ = runtime.NumCPU

// values that contain themselves, or are nested deeply
var c01deep = [][2]string{
	{"ca", "(def ca [1 2]) (aset ca 0 ca)"},
	{"ch", "(def ch (hash a:1)) (hset ch %me ch)"},
	{"ch2", "(def ch2 (hash)) (def ca2 [ch2 1]) (hset ch2 %me (list 1 ca2))"},
	{"cl", "(def clx [1]) (def cl (list 1 clx 2)) (aset clx 0 cl)"},
	{"cr", "(struct Cyc [(field n: int64 e:0) (field p: (* Cyc) e:1)]) (def cr (Cyc n:1)) (hset cr p: (& cr))"},
	{"ck", "(def ck (hash)) (hset ck [1 2] ck)"},
	{"dl", "(def dl ()) {for i := 0; i < N; i++ { dl = (list dl) }}"},
	{"da", "(def da []) {for i := 0; i < N; i++ { da = [da] }}"},
	{"dh", "(def dh (hash)) {for i := 0; i < N; i++ { dh = (hash k:dh) }}"},
	{"dq", "(def dq 1) {for i := 0; i < N; i++ { dq = (list (quote quote) dq) }}"},
	{"dp", "(def dp 1) {for i := 0; i < N; i++ { dp = (list (quote +) 1 dp) }}"},
	{"dx", "(def dx 1) {for i := 0; i < N; i++ { dx = (list (quote cond) true dx 2) }}"},
	{"df", "(def df (fn [] 1)) {for i := 0; i < N; i++ { (def g df) df = ((fn [g] (fn [] (+ 1 (g)))) df) }}"},
	{"ci", "(def ci (quote {a + 1})) (aset (second ci) 0 ci)"},
	{"ce", "(def ce (list (quote +) 1 [2])) (aset (first (rest (rest ce))) 0 ce)"},
	{"we", "(def we ()) {for i := 0; i < N; i++ { we = (cons i we) }}"},
}

// deepCase gives one such value to one name in all ways, in the quick tier in
// four of them.
func deepCase(name string, d [2]string, all bool, rot int) (res Res) {
	v := d[0]
	var texts []string
	for i, f := range []string{"(%[1]s %[2]s)", "(%[1]s %[2]s %[2]s)", "(%[1]s 0 %[2]s)", "(%[1]s %[2]s 0)", "(%[1]s [%[2]s] %[2]s)", "(%[1]s (fn [x & r] x) %[2]s)", "(%[1]s (hash) %[2]s 1)", "(%[1]s (hash) k: %[2]s)",
		"(%[1]s [x y] %[2]s)", "(%[1]s rec %[2]s)", "(%[1]s (list (quote quote) %[2]s))", "(%[1]s (quote x) %[2]s)", "(eval (list (quote %[1]s) %[2]s))", "(%[1]s {%[2]s[0]})", "(%[1]s (& %[2]s))", "(%[1]s \"s\" %[2]s)"} {
		if all || (i+rot)%4 == 0 {
			texts = append(texts, fmt.Sprintf(f, name, v))
		}
	}
	env := hostIn()
	set := func() bool {
		for _, t := range append(append([]string{}, c01prelude...), d[1]) {
			if a := ask(env, t, byEval, 100000000); a.fail != "" || a.err != "" {
				res.Fail = fmt.Sprintf("prelude %q: %s%s", t, a.fail, a.err)
				res.Sig = "prelude"
				return false
			}
		}
		return true
	}
	res.Key = name + v
	res.Sample = fmt.Sprintf("with %s: %s", d[1], clip(strings.Join(texts, "   "), 700))
	if !set() {
		return
	}
	for _, t := range texts {
		cur = t
		a := ask(env, t, byEval, 1000000)
		res.Evals++
		if a.fail == "" {
			a = alive(env)
		}
		if a.fail != "" {
			res.Fail = fmt.Sprintf("text: %q after %s\n%s", t, d[1], a.fail)
			res.Sig = a.sig
			return
		}
		if b := ask(env, fmt.Sprintf("(list a b x (len arr) (len hh) rec (first (list 1 %s)))", v), byEval, 1000); !strings.HasPrefix(b.val, "(1 2 3 3 2 ") {
			env = hostIn()
			if !set() {
				return
			}
		}
	}
	res.NonTrivial = true
	return
}

// texts that are nested deeply: before, middle, after
var c01nests = [][3]string{
	{"(", "1", ")"}, {"[", "1", "]"}, {"{", "1", "}"}, {"%", "1", ""}, {"^", "1", ""}, {"~", "1", ""}, {"(list ", "1", ")"}, {"(+ 1 ", "1", ")"}, {"{1 + ", "1", "}"}, {"(quote ", "1", ")"}, {"(", "1", ""}, {"[", "", ""}, {"{", "", ""}, {"", "1", ")"},
	{"(cond true ", "1", " 2)"}, {"(cond false 1 ", "1", ")"}, {"(and 1 ", "1", ")"}, {"(begin ", "1", ")"}, {"(let [a ", "1", "] a)"}, {"(let [a 1] ", "1", ")"}, {"(fn [] ", "1", ")"}, {"((fn [] ", "1", "))"}, {"(defn f [] ", "1", ")"},
	{"(hash a:", "1", ")"}, {"{-", "1", "}"}, {"{not ", "1", "}"}, {"{1 ** ", "1", "}"}, {"{a = ", "1", "}"}, {"{1 + (", "1", ")}"}, {"{(", "1", ")}"}, {"1 + ", "1", ""}, {"{a[", "1", "]}"}, {"{if true ", "1", "}"}, {"{if true {", "1", "} else {2}}"}, {"{for i := 0; i < 1; i++ {", "1", "}}"},
	{"(eval (quote ", "1", "))"}, {"(eval ", "1", ")"}, {"^(a ~(list ", "1", "))"}, {"(assert ", "1", ")"}, {"(defmac m [] ", "1", ")"}, {"(a \\ ", "1", ")"}, {"(package \"p\" ", "1", ")"}, {"(newScope ", "1", ")"}, {"/*", "1", "*/"}, {"\"", "1", ""}, {"(for [() false ()] ", "1", ")"}, {"(def a ", "1", ")"}, {"a.", "b", ""}, {"-", "1", ""},
	{"{a.b", "", "[1]}"}, {"(struct S [(field a:", "int64", ")])"}, {"(func f [] [r:int64] ", "1", ")"}, {"(& ", "1", ")"}, {"([]", "int64", ")"}, {"(* ", "int64", ")"}, {"(macexpand ", "1", ")"}, {"(infixExpand ", "1", ")"}, {"// ", "1", "\n"}, {"1 ", "1", ""}, {"(set a ", "1", ")"}, {"(return ", "1", ")"}, {"(str ", "1", ")"}, {"(raw64 ", "\"1\"", ")"},
}

// programs that recurse without end through every way one piece of code runs
// another
var c01endless = []string{
	"(defn f [x] (+ 1 (f x))) (f 1)",
	"(defn f [x] (begin (f x) 1)) (f 1)",
	"(defn f [] (f) 1) (f)",
	"(defn f [x] (let [y (f x)] y)) (f 1)",
	"(defn f [x] (cond (f x) 1 2)) (f 1)",
	"(defn f [x] [(f x)]) (f 1)",
	"(defn f [x] {1 + (f x)}) (f 1)",
	"(defn f [x] (hash a:(f x))) (f 1)",
	"(defn f [x] (apply f (list x))) (f 1)",
	"(defn f [x] (+ 1 (apply f [x]))) (f 1)",
	"(defn f [x] (map f [x])) (f 1)",
	"(defn f [x] (map f (list x))) (f 1)",
	"(defn f [x] (eval (quote (f 1)))) (f 1)",
	"(defn f [x] (eval (list f 1))) (f 1)",
	"(defn f [x] (assert (f x))) (f 1)",
	"(defn f [#x] (force #x)) (defn g [x] (f (g x))) (g 1)",
	"(defn f [#x] (f #x)) (f 1)",
	"(defn f [#x] (+ 1 (f (force #x)))) (f 1)",
	"(defn f [#x] (+ 1 (f #x))) (f 1)",
	"(defn f [#x] (force (f (force #x)))) (f (f 1))",
	"(defmac m [x] ^(m ~x)) (m 1)",
	"(defmac m [x] ^(+ 1 (m ~x))) (m 1)",
	"(defmac m [x] (list (quote m) (list (quote m) x))) (m 1)",
	"(defmac m [] (m)) (m)",
	"(defmac m [x] (eval (quote (m 1)))) (m 1)",
	"(defmac m [x] ^(fn [] (m ~x))) (m 1)",
	"(defmac m [x] ^(let [a (m ~x)] a)) (m 1)",
	"(defn f [x] (macexpand (f x))) (f 1)",
	"(defn f [x] ^(a ~(f x))) (f 1)",
	"(defn f [x] ^[a ~(f x)]) (f 1)",
	"(defn f [x] ^(a ~@(f x))) (f 1)",
	"(defn f [x] (expectError \"a\" (f x))) (f 1)",
	"(defn f [x] (def y (f x)) y) (f 1)",
	"(defn f [x] (package \"p\" (f x))) (f 1)",
	"(defn f [x] (newScope (f x))) (f 1)",
	"(defn f [x] (for [(f x) false 1] 1)) (f 1)",
	"(defn f [x] (for [1 (f x) 1] 1)) (f 1)",
	"(defn f [x] (for [(def i 0) (< i 1) (def i (+ i 1))] (f x))) (f 1)",
	"(defn f [x] {for k := range [1 2] { (f x) }}) (f 1)",
	"(defn f [x] (range k v [1 2] (f x))) (f 1)",
	"(defn f [x] (fn [] (f x))) (defn g [] (((f 1)))) (g)",
	"(def f (fn [x] (+ 1 (f x)))) (f 1)",
	"(func f [a:int64] [r:int64] (return (+ 1 (f a)))) (f 1)",
	"(func f [a:int64] [r:int64] (f a:(f a))) (f 1)",
	"(defn f [x] (struct S [(field a: (f x))])) (f 1)",
	"(defn f [x] (var q (f x))) (f 1)",
	"(defn f [x] (* (f x))) (f 1)",
	"(defn f [x] (raw (f x))) (f 1)",
	"(defn f [x] (str (f x))) (f 1)",
	"(defn f [x] (source (f x))) (f 1)",
	"(defn f [x] (arrayidx (f x) [(f x)])) (f 1)",
	"(defn f [x] {x[(f x)]}) (f [1])",
	"(defn f [x] {(f x)[1]}) (f [1])",
	"(defn f [x] {x[(f x)] = 1}) (f [1])",
	"(defn f [x] (hset h k: (f x))) (def h (hash)) (f 1)",
	"(defn f [x] (read (f x))) (f 1)",
	"(defn f [x] (and 1 (or nil (f x) 1) 1)) (f 1)",
	"(defn f [x] (sort f [3 2 1])) (f 1)",
	"(defn f [x y] (sort f [3 2 1])) (f 1 2)",
	"(defn f [x y] (cond (foldl f 1 [3 2 1]) 1 2)) (f 1 2)",
	"(defn f [x] (flatmap f [1 2])) (f 1)",
	"(defn f [x] (filter f [1 2])) (f 1)",
	"(defn f [x] (hmap f (hash a:1))) (f 1)",
	"(defn f [x] (-> x f)) (f 1)",
	"(defn f [x] (macexpand (range k v [1] (f x)))) (f 1)",
	"(defn f [x] (infixExpand {(f x)})) (f 1)",
	"(def h (hash)) (hset h f: (fn [] (+ 1 (h.f)))) (h.f)",
	"(def p (package \"p\" (defn F [] (+ 1 (F))))) (p.F)",
	"(defn f [x] (g x)) (defn g [x] (+ 1 (f x))) (f 1)",
	"(defn f [& r] (+ 1 (apply f r))) (f 1 2 3)",
	"(defn f [x] (defn g [] (f x)) (+ 1 (g))) (f 1)",
	"(defn f [x] (set y (f x)) 1) (f 1)",
	"(defn f [x] (not (f x))) (f 1)",
	"(def d 1) (defn f [x] (eval (list (quote f) (list (quote f) x)))) (f 1)",
}

// codecCase decodes damaged JSON and msgpack.
func codecCase(g *G) Res {
	env := hostIn()
	v := genData(g, &dOpt{env: env, hash: true, strKeys: true}, 4)
	var b []byte
	var fn string
	res := Res{}
	run := func(t string) bool {
		a := ask(env, t, byEval, 100000)
		if a.fail == "" {
			a = alive(env)
		}
		if a.fail != "" {
			res.Fail = fmt.Sprintf("%s\n%s", t, a.fail)
			res.Sig = a.sig
		}
		return a.fail == ""
	}
	env.AddGlobal("vv", v)
	kind := g.Intn(2)
	x, err := env.EvalString([]string{"(json vv)", "(msgpack vv)"}[kind])
	if err == nil {
		if r, ok := x.(*SexpRaw); ok {
			b = append(b, r.Val...)
		}
	}
	fn = []string{"unjson", "unmsgpack"}[kind]
	for n := g.Range(0, 4); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = g.Intn(len(b))
		}
		switch g.Intn(4) {
		case 0:
			if len(b) > 0 {
				b[i] = byte(g.Intn(256))
			}
		case 1:
			b = b[:i]
		case 2:
			b = append(b[:i:i], append([]byte{byte(g.Intn(256))}, b[i:]...)...)
		case 3:
			b = append(b[:i:i], append([]byte(pickS(g, "\"Atype\":", "{\"Atype\":\"TyP\"}", "{\"zKeyOrder\":[1]}", "[", "{", "\x81", "\xdf\xff\xff\xff\xff", "\xdd\x7f\xff\xff\xff", "\xc7", "null", "1e999", "\"\\ud800\"", "\xa5Atype\xa3TyP", "\xa5Atype\x01", "\xa9zKeyOrder\x92\x01\x02")), b[i:]...)...)
		}
	}
	env.AddGlobal("rr", &SexpRaw{Val: b})
	for _, p := range c01prelude {
		if !run(p) {
			return res
		}
	}
	res.Key = string(b)
	res.Sample = fmt.Sprintf("%s of %q", fn, b)
	ok := run(fmt.Sprintf("(def dd (%s rr))", fn)) && run("(str dd)") && run("(json dd)") && run("(msgpack dd)") && run("(togo dd)") && run("(hset dd q: 1)") && run("(gob dd)") && run("(hget dd a:)") && run("(first dd)") && run("(TyP p:dd)") && run("(== dd dd)") && run("(fromgo dd)")
	_ = ok
	res.NonTrivial = len(b) > 2
	return res
}
