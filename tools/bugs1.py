import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
HOST = '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	env := zygo.NewZlisp()
	env.StandardSetup()
	env.AddFunction("orelse", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		x, err := env.Apply(args[0].(*zygo.SexpFunction), nil)
		if err != nil {
			return args[1], nil
		}
		return x, nil
	})
	x, err := env.EvalString(`(defn g [] (let [p 1] (+ p (nosuch))))
(defn f [a] (let [b (orelse (fn [] (g)) 5)] (+ a b)))
(list (f 1) (f 10))`)
	got := fmt.Sprint(err)
	if err == nil {
		got = x.SexpString(nil)
	}
	if got != "(6 15)" {
		fmt.Println("gives", got)
		os.Exit(1)
	}
}
'''
B = {}
B["C07-div-by-float"] = lambda: plant("C07-div-by-float", "C07",
 [("zygo/numerictower.go", "		if a.Val%b.Val == 0 {\n			return &SexpInt{Val: a.Val / b.Val}\n		} else {\n			return &SexpFloat{Val: float64(a.Val) / float64(b.Val)}\n		}",
   "		if b.Val == 0 {\n			return &SexpInt{Val: a.Val / b.Val}\n		}\n		quo := float64(a.Val) / float64(b.Val)\n		if quo == math.Trunc(quo) {\n			return &SexpInt{Val: a.Val / b.Val}\n		}\n		return &SexpFloat{Val: quo}")],
 [[["(/ 9007199254740993 2)", "4503599627370496.0"], ["(/ 7 2)", "3.5"], ["(/ 6 3)", "2"]]],
 "an inexact quotient of ints too large for the difference to show in a float64", "an inexact quotient of two large ints is truncated to an int instead of giving the float")
B["C14-collision"] = lambda: plant("C14-collision", "C14",
 [("zygo/hashutils.go", "	found := false\n	for i, pair := range arr {\n		res, err := hash.Env.Compare(pair.Head, key)\n		if err == nil && res == 0 {",
   "	found := false\n	for i, pair := range arr {\n		res, _ := hash.Env.Compare(pair.Head, key)\n		if res == 0 {")],
 [[["(def h (hash))", "*"], ["(hset h %zq 1)", "*"], ["(hset h (symnum %zq) 2)", "*"], ["(list (hget h %zq 0) (hget h (symnum %zq) 0) (len h))", "(1 2 2)"]]],
 "two keys of different kinds with the same hash code in one hash", "the second of two keys that only share their hash code overwrites the first")
B["C05-apply-keeps-frames"] = lambda: plant("C05-apply-keeps-frames", "C05",
 [("zygo/environment.go", "	res, err := env.Run()\n	env.restoreControlState(callState)\n	if err != nil {\n		return SexpNull, err\n	}\n	return res, nil\n}\n\n// maxNesting",
   "	res, err := env.Run()\n	if err != nil {\n		env.pc = callState.pc\n		env.curfunc = callState.curfunc\n		return SexpNull, err\n	}\n	env.restoreControlState(callState)\n	return res, nil\n}\n\n// maxNesting")],
 HOST, "a host function that calls a script function through Apply, which fails in a nested call, and goes on", "a failed Apply leaves return addresses behind; the code after the builtin that forgave the failure returns to the wrong place")
B["C16-nil-not-kept"] = lambda: plant("C16-nil-not-kept", "C16",
 [("zygo/expressions.go", "	lazy.Value = res\n	lazy.Forced = true", "	lazy.Value = res\n	lazy.Forced = lazy.Value != SexpNull")],
 [[["(def n 0)", "*"], ["(defn f [#x] (force #x) (force #x) (force #x))", "*"], ["(f (begin (set n (+ n 1)) nil))", "nil"], ["n", "1"], ["(f (begin (set n (+ n 1)) 7))", "7"], ["n", "2"]]],
 "a lazy argument whose value is nil, forced more than once", "an argument whose value is nil is evaluated again by every force")
B["C02-uint-truth"] = lambda: plant("C02-uint-truth", "C02",
 [("zygo/expressions.go", "	case *SexpUint64:\n		return e.Val != 0\n", "")],
 [[["(cond 0ULL 1 2)", "2"], ["(cond 3ULL 1 2)", "1"], ["(and 1 0ULL 5)", "0ULL"], ["(or 0ULL 5)", "5"]]],
 "a uint64 zero as a condition", "zero of type uint64 counts as true in cond, and, or, for")
for n in sys.argv[1:] or B:
    B[n]()
