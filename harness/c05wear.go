package main

import (
	"fmt"
	"regexp"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// C05: what a failure leaves behind may be as small as a count of open
// levels that is one too high. Deeply nested texts fail thousands of times;
// then nested texts of every kind must work as in a fresh interpreter.

var wearLayers = []string{
	"(begin 1 %s)", "(let [q 1] %s)", "(letseq [q 1 r q] %s)", "(newScope %s)", "(cond true %s 0)", "(cond %s 1 2)", "(and true %s)", "(or false %s)",
	"((fn [z] %s) 1)", "(list 1 %s)", "(map (fn [z] %s) [1])", "(map (fn [z] %s) (list 1))", "(apply (fn [z] %s) [1])", "(eval (quote %s))",
	"((fn [#z] (force #z)) %s)", "(wm %s)", "(for [(def i 0) (< i 1) (set i (+ i 1))] %s)", "[1 %s]", "(hash a: %s)", "(def w %s)", "(set wv %s)",
	"(defn wg [] %s)", "{1 + %s}", "{wv = %s}", "^(1 ~%s)", "(call1 (fn [] %s))", "(list? (package \"wp\" (def X %s)))", "(aget [%s] 0)", "(str %s)", "(range k v [1] %s)", "(macexpand (wm %s))",
	"((begin %s list) 1)",
}

var wearCores = []string{
	"(fail 1)", "unboundvar", "(break)", "(continue nowhere:)", "(let [x] 1)", "(wbad 1)", "(/ 1 0)", "(eval (quote (let [x] 1)))", "(aget [1] 5)", "(wboom)",
	"((fn [x] x))", "(unknownfn 1)", "(force ((fn [#z] #z) (fail 2)))", "(fn [1] 2)", "(for [1] 2)", "(assert false)", "(1 2)", "{1 +}", "^(~@5)", "(wlate 5)",
	"(", "\"abc", ")", "{", "/* x", "(quote (1 \\ 2 3))", "'abc'", "0x",
}

var anonRe = regexp.MustCompile(`__anon[0-9]+`)

func addBoom(r *irun) {
	r.env.AddFunction("wboom", func(env *Zlisp, name string, args []Sexp) (Sexp, error) { panic("wboom") })
	r.env.AddFunction("wtry", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		if f, ok := args[0].(*SexpFunction); ok {
			if _, err := env.Apply(f, nil); err == nil {
				return SexpNull, fmt.Errorf("no failure")
			}
		}
		return SexpNull, nil
	})
}

func wearP(g *G) Res {
	depth := g.Range(8, 40)
	all := wearLayers
	if g.Chance(1, 2) { // mostly one kind of level
		k := pickS(g, all...)
		all = []string{k, k, k, pickS(g, wearLayers...)}
	}
	nest := func(core string, n int, of []string) string {
		for i := 0; i < n; i++ {
			core = strings.Replace(pickS(g, of...), "%s", core, 1)
		}
		return core
	}
	text := nest(pickS(g, wearCores...), depth, all)
	forgiven := g.Chance(1, 4)
	if forgiven {
		text = "(wtry (fn [] " + nest(pickS(g, wearCores[:18]...), depth, all) + "))"
	}
	res := Res{Key: text}
	run, twin := newRun(newIn()), newRun(newIn())
	res.Sample = text
	prelude := "(def wv 0) (defmac wm [x] ^(begin ~x)) (defmac wbad [x] (fail x)) (defn wlate [n] (cond (== n 0) (fail n) (+ 1 (wlate (- n 1))))) (defn call1 [f] (f)) (defn wrec [n] (cond (== n 0) 0 (+ 1 (wrec (- n 1)))))"
	for _, r := range []*irun{run, twin} {
		addBoom(r)
		if _, err, _ := r.eval(prelude, 100000); err != nil {
			panic("harness: " + err.Error())
		}
	}
	sizes := stackSizes(run.env)
	reps := 30000 / depth
	for i := 0; i < reps; i++ {
		_, err, over := run.eval(text, 20000)
		run.log = nil
		if over {
			res.Skip = true
			return res
		}
		if (err == nil) != forgiven { // not a failure after all
			res.Skip = i == 0
			if i > 0 {
				res.Fail, res.Sig = fmt.Sprintf("the %d. evaluation of this text is unlike those before (error %v):\n%s", i+1, err, text), "swallowed"
			}
			return res
		}
	}
	res.Evals = reps
	res.NonTrivial = true
	if now := stackSizes(run.env); fmt.Sprint(now) != fmt.Sprint(sizes) {
		res.Fail, res.Sig = fmt.Sprintf("after %d failures the stacks are at %v, were at %v:\n%s", reps, now, sizes, text), "stacks"
		return res
	}
	probes := []string{"(wrec 900)", "(quote " + strings.Repeat("(", 300) + strings.Repeat(")", 300) + ")"}
	for k := 0; k < 4; k++ {
		probes = append(probes, nest("(+ 40 2)", g.Range(15, 30), wearLayers))
	}
	probes = append(probes, nest("7", 30, all))
	for _, p := range probes {
		x, err, over := run.eval(p, 200000)
		y, err2, over2 := twin.eval(p, 200000)
		if over || over2 {
			continue
		}
		d := ""
		switch {
		case (err == nil) != (err2 == nil):
			d = fmt.Sprintf("error %v, in a fresh interpreter %v", err, err2)
		case err == nil && anonRe.ReplaceAllString(show(x), "fn") != anonRe.ReplaceAllString(show(y), "fn"):
			a, b := anonRe.ReplaceAllString(show(x), "fn"), anonRe.ReplaceAllString(show(y), "fn")
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			k = maxInt(0, k-80)
			d = fmt.Sprintf("gives ...%s\nin a fresh interpreter ...%s", clip(a[minInt(k, len(a)):], 300), clip(b[minInt(k, len(b)):], 300))
		}
		if d != "" {
			res.Fail, res.Sig = fmt.Sprintf("after this failed %d times:\n%s\nthe text\n%s\n%s", reps, text, p, clip(d, 800)), "wear"
			return res
		}
	}
	return res
}

// A break or continue in a function inside a loop does not belong to the
// loop: it is an error, and one that leaves the interpreter as it was.
func misplacedP(g *G) Res {
	pick := func(of []string, n int, x string) string {
		for ; n > 0; n-- {
			x = strings.Replace(pickS(g, of...), "%s", x, 1)
		}
		return x
	}
	plain := []string{"(begin 1 %s)", "(let [q 1] %s)", "(letseq [q 1 r q] %s)", "(newScope %s)", "(cond true %s 0)", "(cond false 1 %s)", "(and true %s)", "(or false %s)", "(begin (wg 1) %s)"}
	fns := []string{"((fn [z] %s) 1)", "(map (fn [z] %s) [1])", "(map (fn [z] %s) (list 1 2))", "(apply (fn [z] %s) [1])", "(call1 (fn [] %s))", "(begin (defn wl [] %s) (wl))", "(let [h (fn [] %s)] (h))", "(eval (quote %s))", "((fn [z & r] %s) 1 2)"}
	core := pickS(g, "(break)", "(continue)", "(break lp:)", "(continue lp:)")
	if g.Chance(1, 3) {
		core = fmt.Sprintf("(cond (== i %d) %s i)", g.Intn(2), core)
	}
	x := pick(plain, g.Intn(4), core)
	x = pick(fns, g.Range(1, 2), x)
	x = pick(plain, g.Intn(4), x)
	x = fmt.Sprintf("(for %s[(def i 0) (< i 3) (set i (+ i 1))] %s %s)", pickS(g, "", "lp: ", "lp: "), pickS(g, "", "(set wv i)"), x)
	x = pick(append(append([]string{}, plain...), fns[:6]...), g.Intn(3), x)
	if g.Chance(1, 4) {
		x = "(for lp: [(def j 0) (< j 2) (set j (+ j 1))] " + x + ")"
	}
	res := Res{Key: x, Sample: x, NonTrivial: true}
	run := newRun(newIn())
	if _, err, _ := run.eval("(def wv 0) (defn call1 [f] (f)) (defn wg [n] n)", 100000); err != nil {
		panic("harness: " + err.Error())
	}
	sizes := stackSizes(run.env)
	for i := 0; i < 2; i++ {
		v, err, over := run.eval(x, 50000)
		d := ""
		switch {
		case over:
			d = "does not end"
		case err == nil:
			d = "is no error, gives " + clip(show(v), 200)
		case fmt.Sprint(stackSizes(run.env)) != fmt.Sprint(sizes):
			d = fmt.Sprintf("leaves the stacks at %v, they were at %v", stackSizes(run.env), sizes)
		default:
			v, err, _ := run.eval("(let [t 0] (for [(def i 0) (< i 5) (set i (+ i 1))] (cond (== i 3) (break) (== i 1) (continue) (set t (+ t i)))) (list t (call1 (fn [] 9))))", 50000)
			if err != nil || show(v) != "(2 9)" {
				d = fmt.Sprintf("a loop afterwards gives %s, error %v", show(v), err)
			}
		}
		if d != "" {
			res.Fail, res.Sig = fmt.Sprintf("%s\n%s", clip(d, 600), x), "misplaced"
			return res
		}
	}
	return res
}
