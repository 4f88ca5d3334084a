package main

import (
	"fmt"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

var _ = SexpNull

// cmpProg runs a program in the reference evaluator and in a fresh
// interpreter and compares outcome and effects.
func cmpProg(xs []X) (res Res, ref *revl) {
	text := renderProg(xs)
	res.Key = text
	res.Sample = text
	ref = newRef()
	v, s, _ := refProg(ref, xs)
	if s != nil && s.kind != sErr {
		res.Skip = true
		return res, ref
	}
	env := newIn()
	run := newRun(env)
	x, err, over := run.eval(text, ref.limit(0))
	if over && len(ref.macros) > 0 {
		res.Skip = true
		return res, ref
	}
	if f := judge(v, s, ref.log, x, err, over, run.log); f != "" {
		res.Fail = fmt.Sprintf("%s\nprogram:\n%s\nshould be: %s\neffects: %q\ngot: %s\neffects: %q", f, text, outText(v, s), clipS(ref.log), implText(x, err), clipS(run.log))
		res.Sig = sigOf(f)
	}
	return res, ref
}

// limit is the number of instructions the interpreter may take for what the
// reference did since it had taken so many steps. Compiling a form expands
// every call of a macro in it, also those evaluation never gets to, so with
// macros it may take many more, and running over it says nothing.
func (r *revl) limit(since int) int {
	n := (r.steps-since)*60 + 20000
	if len(r.macros) > 0 {
		n += 2000000
	}
	return n
}

// cmpForms evaluates the forms of a program one by one, going on after
// errors, and compares outcome and effects of each. at most says how many
// forms may be left out for want of a determined outcome.
func cmpForms(xs []X) (res Res, ref *revl) { return cmpWith(xs, nil, nil) }

// cmpWith also lets set add to both sides, and judge look at the stacks
// before and after each form.
func cmpWith(xs []X, set func(r *revl, env *Zlisp), stacks func(env *Zlisp, x X, before, after []int, err error) string) (res Res, ref *revl) {
	text := renderProg(xs)
	res.Key = text
	res.Sample = text
	ref = newRef()
	env := newIn()
	run := newRun(env)
	if set != nil {
		set(ref, env)
	}
	for i, y := range xs {
		if _, ok := y.(cm); ok {
			continue
		}
		was := len(ref.log)
		steps := ref.steps
		v, s, _ := refProg(ref, xs[i:i+1])
		if s != nil && s.kind != sErr {
			if i == 0 {
				res.Skip = true
			}
			return res, ref // what follows may depend on it
		}
		if s != nil {
			ref.errs++
		}
		run.log = nil
		var sizes []int
		if stacks != nil {
			sizes = stackSizes(env)
		}
		x, err, over := run.eval(render(y), ref.limit(steps))
		if over && len(ref.macros) > 0 {
			return res, ref
		}
		if f := judge(v, s, ref.log[was:], x, err, over, run.log); f != "" {
			res.Fail = fmt.Sprintf("form %d: %s\nprogram, form by form:\n%s\nshould be: %s\neffects: %q\ngot: %s\neffects: %q", i, f, text, outText(v, s), clipS(ref.log[was:]), implText(x, err), clipS(run.log))
			res.Sig = sigOf(f)
			return res, ref
		}
		if stacks != nil {
			if f := stacks(env, y, sizes, stackSizes(env), err); f != "" {
				res.Fail = fmt.Sprintf("form %d: %s\nprogram, form by form:\n%s", i, f, text)
				res.Sig = "stacks"
				return res, ref
			}
		}
	}
	return res, ref
}

func clipS(l []string) []string {
	if len(l) > 40 {
		return l[:40]
	}
	return l
}

func outText(v val, s *sig) string {
	if s != nil {
		return "error " + s.msg
	}
	return clip(rdesc(v), 400)
}

func implText(x Sexp, err error) string {
	if err != nil {
		return "error " + clip(err.Error(), 400)
	}
	return clip(idesc(x), 400)
}

func sigOf(f string) string {
	for _, p := range []string{"value", "effect", "error", "no error", "steps", "panic"} {
		if strings.HasPrefix(f, p) {
			return p
		}
	}
	if strings.Contains(f, "effects, should") {
		return "effect"
	}
	return "other"
}

// judge compares an outcome with the reference.
func judge(v val, s *sig, rlog []string, x Sexp, err error, over bool, ilog []string) string {
	if over {
		return "steps: does not end"
	}
	if d := diffLogs(ilog, rlog); d != "" {
		return d
	}
	if s != nil {
		if err == nil {
			return "no error: should fail with " + s.msg + ", gave " + clip(idesc(x), 200)
		}
		if s.tag != "" && !strings.Contains(err.Error(), s.tag) {
			return "error should contain " + s.tag + ": " + clip(err.Error(), 300)
		}
		if strings.Contains(err.Error(), "caught panic") {
			return "panic inside: " + clip(err.Error(), 900)
		}
		return ""
	}
	if err != nil {
		return "error: " + clip(err.Error(), 600)
	}
	if d, w := idesc(x), rdesc(v); d != w {
		return fmt.Sprintf("value is %s, should be %s", clip(d, 300), clip(w, 300))
	}
	return ""
}

func progCase(g *G, c pcfg, forms int, size int) ([]X, *pgen) {
	p := &pgen{g: g, c: c, budget: size}
	n := g.Range(1, forms)
	return p.program(n), p
}

func init() {
	base := pcfg{loops: 3, funcs: 4, closure: 2, tail: 2, effects: 3, maxd: 4, comment: true}
	mk := func(name string, c pcfg, forms, size int, quick, thorough int) Part {
		return Part{Name: name, Quick: quick, Thorough: thorough, Run: func(g *G) Res {
			xs, _ := progCase(g, c, forms, size)
			res, ref := cmpProg(xs)
			res.NonTrivial = ref.calls >= 3 && len(ref.log) >= 2 && ref.steps >= 20
			return res
		}}
	}
	errs := base
	errs.errs = 12
	loops := base
	loops.loops = 10
	register(&Prop{
		ID: "C02", Level: "exploration",
		Rule: "the program makes at least 3 calls and 2 observable effects and evaluates at least 20 expressions in the reference evaluator",
		Parts: []Part{
			mk("small", base, 3, 30, 60000, 800000),
			mk("general", base, 8, 150, 40000, 500000),
			mk("loops", loops, 6, 120, 30000, 400000),
			mk("errors", errs, 8, 120, 30000, 400000),
		},
	})
}
