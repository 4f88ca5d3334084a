package main

import (
	"fmt"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// C05: evaluations that fail. A host function fails, or panics, at its k-th
// call somewhere inside a program of the core language, which the reference
// evaluator follows; inside surface programs a host call or any VM
// instruction fails, and what follows is compared with an interpreter that
// did not see the failure.

// failing compares form by form with the k-th effect failing in both.
func failing(xs []X, set func(r *revl, env *Zlisp), k int, panics, whole bool) (res Res, ref *revl) {
	text := renderProg(xs)
	res.Key = fmt.Sprintf("%d %v %v %s", k, panics, whole, text)
	res.Sample = fmt.Sprintf("effect %d fails (panic: %v):\n%s", k, panics, text)
	ref = newRef()
	ref.failAt = k
	env := newIn()
	run := newRun(env)
	run.failAt, run.panics = k, panics
	if set != nil {
		set(ref, env)
	}
	idle := stackSizes(env)
	var parts [][]X
	for _, y := range xs {
		if _, ok := y.(cm); !ok {
			parts = append(parts, []X{y})
		}
	}
	if whole && len(parts) > 2 { // all but the last, which looks at what is left
		parts = [][]X{xs[:len(xs)-1], xs[len(xs)-1:]}
	}
	for i, ys := range parts {
		was := len(ref.log)
		steps := ref.steps
		v, s, _ := refProg(ref, ys)
		if s != nil && s.kind != sErr {
			if i == 0 {
				res.Skip = true
			}
			return res, ref
		}
		if s != nil {
			ref.errs++
		}
		run.log = nil
		x, err, over := run.eval(renderProg(ys), (ref.steps-steps)*60+20000)
		f := judge(v, s, ref.log[was:], x, err, over, run.log)
		if strings.HasPrefix(f, "panic inside") && panics && strings.Contains(f, "failing on purpose") {
			f = ""
		}
		if f == "" {
			if z := stackSizes(env); fmt.Sprint(z) != fmt.Sprint(idle) {
				f = fmt.Sprintf("stacks: at %v after the form, at %v before the program", z, idle)
			}
		}
		if f != "" {
			res.Fail = fmt.Sprintf("part %d: %s\neffect %d fails (panic: %v); program, form by form (in one: %v):\n%s\nshould be: %s\neffects: %q\ngot: %s\neffects: %q", i, f, k, panics, whole, text, outText(v, s), clipS(ref.log[was:]), implText(x, err), clipS(run.log))
			res.Sig = sigOf(f)
			return res, ref
		}
	}
	return res, ref
}

func init() {
	core := pcfg{loops: 3, funcs: 4, closure: 2, tail: 2, effects: 6, maxd: 4, eval: 1, try: 2}
	// every k: count the effects first
	inject := func(g *G, xs []X, set func(r *revl, env *Zlisp)) Res {
		cnt := newRef()
		if set != nil {
			set(cnt, newIn())
		}
		for _, x := range xs {
			if _, s, _ := refProg(cnt, []X{x}); s != nil && s.kind != sErr {
				return Res{Skip: true}
			}
		}
		n := cnt.emits
		if n == 0 {
			return Res{Key: "none"}
		}
		var res Res
		whole := g.Chance(1, 3) && set == nil
		ks := []int{1 + g.Intn(n)}
		if n <= 6 {
			ks = nil
			for k := 1; k <= n; k++ {
				ks = append(ks, k)
			}
		}
		evals := 0
		for _, k := range ks {
			r, ref := failing(xs, set, k, g.Chance(1, 4), whole)
			evals++
			r.NonTrivial = ref.errs+ref.tries >= 1 && ref.steps >= 15
			if r.Fail != "" {
				return r
			}
			if !res.NonTrivial {
				res = r
			}
		}
		res.Evals = evals
		return res
	}
	coreP := func(g *G) Res {
		xs, _ := progCase(g, core, 6, 110)
		return inject(g, xs, nil)
	}
	mistakes := core
	mistakes.errs = 25
	errP := func(g *G) Res {
		xs, _ := progCase(g, mistakes, 8, 110)
		return inject(g, xs, nil)
	}
	// the host applies, evaluates and forces programs with mistakes
	hostP := func(g *G) Res {
		xs, _ := progCase(g, mistakes, 6, 100)
		res, ref, by := hostForms(g, xs, true)
		res.NonTrivial = ref.errs+ref.tries >= 1 && ref.steps >= 15 && len(by) >= 2
		return res
	}
	lazyP := func(g *G) Res { return inject(g, genLazy(g, -1-15*g.Intn(2)), nil) }
	macP := func(g *G) Res {
		m := &m15{g: g, p: &pgen{g: g, c: pcfg{loops: 1, funcs: 2, closure: 1, tail: 1, effects: 3, maxd: 3, names: []string{"a", "b", "x", "y"}}, budget: 120}}
		m.p.sc = []gscope{{}}
		return inject(g, m.program(g.Chance(1, 4)), mutators)
	}

	// surface programs: a failure of any kind at any point, then the same
	// follow-up as in an interpreter that never failed
	surf := func(g *G) Res {
		s := newSgen(g, 0)
		var before []string
		for k := g.Intn(3); k > 0; k-- {
			before = append(before, s.top(g.Range(1, 2)))
		}
		kind := g.Intn(6)
		if kind == 3 {
			s.errs = 60
		}
		bad := s.top(g.Range(2, 4))
		s.errs = 0
		after := []string{"(set a 3)", "(set b 4)", "(def rp (TyP n:5 s:\"z\"))"}
		s.ints, s.recs = []string{"a", "b"}, []string{"rp"}
		for k := g.Range(1, 3); k > 0; k-- {
			after = append(after, s.top(g.Range(1, 3)))
		}
		at := g.Draw(1 << 16)
		panics := g.Chance(1, 4)
		how := []string{"host function fails", "host function fails", "an instruction fails", "mistake inside", "text ends early", "an instruction fails"}[kind]
		text := fmt.Sprintf("%s\n// failing (%s at %d):\n%s\n// after:\n%s", strings.Join(before, "\n"), how, at, bad, strings.Join(after, "\n"))
		res := Res{Key: text, Sample: text}
		env, run, p := surfEnv()
		_, trun, _ := surfEnv()
		if p != "" {
			return Res{Fail: "prelude: " + p}
		}
		if run.load = g.Chance(1, 4); run.load {
			res.Key = "load " + res.Key
			res.Sample = "by LoadString and Run:\n" + res.Sample
		}
		idle := stackSizes(env)
		for _, f := range before {
			_, e1, o1 := run.eval(f, 100000)
			_, e2, o2 := trun.eval(f, 100000)
			if o1 || o2 || e1 != nil || e2 != nil {
				return Res{Skip: true}
			}
		}
		// how long the form takes
		_, prun, _ := surfEnv()
		for _, f := range before {
			prun.eval(f, 100000)
		}
		_, perr, over := prun.eval(bad, 100000)
		if over {
			return Res{Skip: true}
		}
		steps, emits := prun.steps, prun.emits
		var err error
		failed := false
		switch kind {
		case 0, 1:
			if emits == 0 {
				return Res{Key: "none"}
			}
			run.failAt, run.panics = 1+int(at)%emits, panics
			run.emits = 0
			_, err, over = run.eval(bad, 100000)
			failed = run.emits >= run.failAt
			run.failAt = 0
		case 2, 5:
			if steps < 2 {
				return Res{Key: "none"}
			}
			k := 1 + int(at)%steps
			n := 0
			VerifStep = func(*Zlisp) error {
				if n++; n == k {
					failed = true
					return fmt.Errorf("fail:step;")
				}
				if n > 100000 {
					return errSteps{}
				}
				return nil
			}
			_, err = env.EvalString(bad)
			VerifStep = nil
		case 3:
			if perr == nil {
				return Res{Key: "none"}
			}
			_, err, over = run.eval(bad, 100000)
			failed = true
		case 4:
			cut := 1 + int(at)%len(bad)
			bad = bad[:cut] + []string{"", "(", "\"", "(a b", "[", "{", ")", "%", "'a"}[int(at>>4)%9]
			_, err, over = run.eval(bad, 100000)
			failed = err != nil
		}
		if over || !failed {
			return Res{Key: "none"}
		}
		res.NonTrivial = true
		if err == nil {
			res.Fail = fmt.Sprintf("swallowed: the failure did not come back as an error\n%s", text)
			res.Sig = "swallowed"
			return res
		}
		if kind != 3 && kind != 4 && !strings.Contains(err.Error(), "fail:") && !strings.Contains(err.Error(), "failing on purpose") {
			res.Fail = fmt.Sprintf("the error does not say what failed: %s\n%s", clip(err.Error(), 300), text)
			res.Sig = "other error"
			return res
		}
		if s := stackSizes(env); fmt.Sprint(s) != fmt.Sprint(idle) {
			res.Fail = fmt.Sprintf("stacks at %v after the failure, %v before\nerror: %s\n%s", s, idle, clip(err.Error(), 300), text)
			res.Sig = "stacks"
			return res
		}
		if v, e := env.EvalString(""); e != nil || v != SexpNull {
			res.Fail = fmt.Sprintf("after the failure evaluating nothing gives %s, error %v\n%s", show(v), e, text)
			res.Sig = "empty"
			return res
		}
		for _, f := range after {
			run.log, trun.log = nil, nil
			v1, e1, o1 := run.eval(f, 100000)
			v2, e2, o2 := trun.eval(f, 100000)
			d := ""
			switch {
			case o1 != o2:
				d = "one of them does not end"
			case (e1 == nil) != (e2 == nil):
				d = fmt.Sprintf("error %v, without the failure %v", e1, e2)
			case e1 == nil && sdesc(v1) != sdesc(v2):
				d = fmt.Sprintf("value %s, without the failure %s", sdesc(v1), sdesc(v2))
			default:
				d = diffLogs(run.log, trun.log)
				if z := stackSizes(env); d == "" && fmt.Sprint(z) != fmt.Sprint(idle) {
					d = fmt.Sprintf("stacks at %v, were %v", z, idle)
				}
			}
			if d != "" {
				res.Fail = fmt.Sprintf("after the failure %q: %s\n%s", f, clip(d, 500), text)
				res.Sig = "after"
				return res
			}
		}
		return res
	}
	growP := func(g *G) Res {
		s := newSgen(g, 80)
		f := s.top(g.Range(1, 3))
		if g.Chance(1, 5) {
			f = f[:1+g.Intn(len(f))] + pickS(g, "", "(", "\"", "{", ")", "]")
		}
		res := Res{Key: f, Sample: f}
		env, run, bad := surfEnv()
		if bad != "" {
			return Res{Fail: "prelude: " + bad}
		}
		var failed bool
		fail, ok := grown(env, func() bool {
			_, err, over := run.eval(f, 100000)
			failed = err != nil
			run.log = nil
			return !over && !strings.Contains(f, "gensym")
		}, 4)
		res.NonTrivial = ok && failed
		if fail != "" {
			res.Fail = fail + "\nevaluating over and over:\n" + f
			res.Sig = "growth"
		}
		return res
	}
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule: "a failure was injected (or a mistake made), reached, and followed by further evaluations",
		Parts: []Part{
			{Name: "core", Quick: 25000, Thorough: 400000, Run: coreP},
			{Name: "mistakes", Quick: 20000, Thorough: 300000, Run: errP},
			{Name: "host", Quick: 15000, Thorough: 250000, Run: hostP},
			{Name: "lazy", Quick: 15000, Thorough: 200000, Run: lazyP},
			{Name: "macros", Quick: 12000, Thorough: 150000, Run: macP},
			{Name: "surface", Quick: 25000, Thorough: 400000, Run: surf},
			{Name: "growth", Quick: 4000, Thorough: 60000, Run: growP},
			{Name: "wear", Quick: 160, Thorough: 4000, Run: wearP},
			{Name: "misplaced", Quick: 6000, Thorough: 60000, Run: misplacedP},
		},
	})
}
