import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
B = {}
def bug(id, edits, demo, needs, breaks, **k):
    B[id] = lambda: plant(id, id[:3], edits, demo, needs, breaks, **k)
bug("C03-empty-scope",
 [("zygo/closing.go", """	for _, elem := range env.linearstack.elements[from : env.linearstack.tos+1] {
		stk.Push(elem)
	}

	return &Closing{""", """	for i, elem := range env.linearstack.elements[from : env.linearstack.tos+1] {
		if scop, ok := elem.(*Scope); ok && i > 0 && len(scop.Map) == 0 {
			continue // has nothing to capture
		}
		stk.Push(elem)
	}

	return &Closing{""")],
 [[["(def x 1)", "1"], ["(newScope (defn f [] x) (f))", "1"], ["(defn mk [] (newScope (def f (fn [] x)) (def x 5) (f)))", "*"], ["(mk)", "5"],
   ["(let [] (set g (fn [] x)) 1)", "*"], ["(newScope (array (begin (set g (fn [] x)) (def x 7) (g))))", "[7]"]]],
 "a closure made in a scope that has no variables yet and gets one that the closure uses", "closures do not capture a scope that is empty when they are made, so they see the outer variable of the name")
bug("C04-label-break-mark",
 [("zygo/vm.go", """func (s ClearStackmarkInstr) Execute(env *Zlisp) error {
toploop:
	for {
		expr, err := env.datastack.PopExpr()
		if err != nil {
			return err
		}
		switch m := expr.(type) {
		case *SexpStackmark:
			if m.sym.number == s.sym.number {
				break toploop
			}
		}
	}
	env.pc++
	return nil""", """func (s ClearStackmarkInstr) Execute(env *Zlisp) error {
	for {
		expr, err := env.datastack.PopExpr()
		if err != nil {
			return err
		}
		if _, isMark := expr.(*SexpStackmark); isMark {
			break
		}
	}
	env.pc++
	return nil""")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	env := zygo.NewZlisp()
	env.StandardSetup()
	x, err := env.EvalString(`(def r 0) (for outer: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (cond (== j 1) (break outer:) nil) (set r (+ r 1)))) r`)
	if err != nil || x.SexpString(nil) != "1" {
		fmt.Println("gives", x, err)
		os.Exit(1)
	}
	x, err = env.EvalString("(list 1 2 (begin (for o: [(def i 0) (< i 3) (set i (+ i 1))] (for [nil true nil] (break o:))) 3))")
	if err != nil || x.SexpString(nil) != "(1 2 3)" {
		fmt.Println("gives", x, err)
		os.Exit(1)
	}
	if rest, err := env.EvalString(""); err != nil || rest != zygo.SexpNull {
		fmt.Println("empty input gives", rest.SexpString(nil), err)
		os.Exit(1)
	}
	x, err = env.EvalString("(defn f [] (for o: [(def i 0) (< i 3) (set i (+ i 1))] (for [nil true nil] (break o:))) 3) (f)")
	if err != nil || x.SexpString(nil) != "3" {
		fmt.Println("gives", x, err)
		os.Exit(1)
	}
	if rest, err := env.Run(); err != nil || rest != zygo.SexpNull {
		fmt.Println("an operand is left behind:", rest.SexpString(nil), err)
		os.Exit(1)
	}
}
''',
 "a labelled break out of an inner loop", "the mark of the outer loop stays on the data stack")
bug("C05-loop-left",
 [("zygo/generator.go", """	gen.env.loopstack.Push(loop)
	defer gen.env.loopstack.Pop()
""", """	gen.env.loopstack.Push(loop)
"""), ("zygo/generator.go", """	loop.breakOffset = bottomPos - startPos // previously loop.loopLen
	loop.continueOffset = continuePos - startPos
""", """	loop.breakOffset = bottomPos - startPos // previously loop.loopLen
	loop.continueOffset = continuePos - startPos
	gen.env.loopstack.Pop()
""")],
 [[["(for [(def i 0) (< i 3) (set i (+ i 1))] (let [a] 1))", "error"], ["(break)", "error Error generating (break):\n(break) found but not inside a loop."]]],
 "a loop whose body does not compile, then a break or continue outside of any loop", "the loop that failed to compile stays on the loop stack, and a later stray break is compiled against it")
bug("C09-subgen-tail",
 [("zygo/generator.go", """	subgen := NewGenerator(gen.env)
	subgen.scopes = gen.scopes
""", """	subgen := NewGenerator(gen.env)
	subgen.scopes = gen.scopes
	subgen.Tail = gen.Tail
""")],
 [[["(defn f [n] (cond (== n 0) true (and (f (- n 1)) (> n 1))))", "*"], ["(f 1)", "false"], ["(f 2)", "false"]],
  [["(defn g [n] (cond (<= n 0) false (g (- n 1)) 1 2))", "*"], ["(g 1)", "2"], ["(g 3)", "1"]]],
 "a self call in the test of a cond, an early argument of and/or or in a loop, where the construct is in tail position", "the self call is compiled as a tail call, so what should be done with its value is not done")
bug("C16-eager-symbol",
 [("zygo/environment.go", """			env.datastack.PushExpr(NewSourceLazyArg(env, expr))
			continue
""", """			lazy := NewSourceLazyArg(env, expr)
			if sym, isSym := expr.(*SexpSymbol); isSym {
				// reading a variable has no effects, it can be done at once
				if val, err, _ := env.LexicalLookupSymbol(sym, nil); err == nil {
					lazy.Value, lazy.Forced = val, true
				}
			}
			env.datastack.PushExpr(lazy)
			continue
""")],
 [[["(def x 1)", "1"], ["(defn f [#a] (set x 5) (force #a))", "*"], ["(f x)", "5"], ["(defn g [#a] (force #a))", "*"], ["(g x)", "5"]]],
 "a lazy argument that is a variable, which changes between the call and the force", "the variable is read at the call and not when the argument is forced")
bug("C14-in-place",
 [("zygo/hashutils.go", "			arr[i] = Cons(key, val)\n			found = true", "			pair.Tail = val\n			_ = i\n			found = true")],
 [[["(def a (hash x:1 y:2)) (def b (hash z:3))", "*"], ["(def p (& b))", "*"], ["(derefSet p a)", "*"], ["(hset b x: 9)", "*"], ["(list (hget a x:) (hget b x:))", "(1 9)"]]],
 "an update of an existing key after the hash was copied through a pointer", "the copy and its source share their pairs, so an update of one changes the other", )
bug("C01-quote-label",
 [("zygo/generator.go", """		return &SexpSymbol{}, ErrBadQuotedSym
	}
	if n != 2 {
		return &SexpSymbol{}, ErrBadQuotedSym
	}
	qu,""", """		return &SexpSymbol{}, ErrBadQuotedSym
	}
	if n < 1 || n > 2 {
		return &SexpSymbol{}, ErrBadQuotedSym
	}
	qu,""")],
 [[["(for (quote) [1 2 3] 4)", "error"], ["(+ 1 2)", "3"]], [["(def (quote) 4)", "error"], ["(+ 1 2)", "3"]]],
 "an empty quote form where the name or label of a definition or loop is expected", "the compiler panics out of the interpreter")
bug("C02-rest-list",
 [("zygo/environment.go", "		env.datastack.PushExpr(MakeList(optargs))\n", """		rest := MakeList(optargs)
		if len(optargs) == 1 && optargs[0] == SexpNull {
			rest = SexpNull // passing an empty rest list on
		}
		env.datastack.PushExpr(rest)
""")],
 [[["(defn f [a & r] (list a r))", "*"], ["(f 1)", "(1 nil)"], ["(f 1 2)", "(1 (2))"], ["(f 1 nil)", "(1 (nil))"]]],
 "a variadic function given exactly one extra argument, which is nil", "the nil is dropped from the rest list")
bug("C06-same-bounds",
 [("zygo/pratt.go", """		end, err := parseArraySelectorSegment(env, tokens[colonPos+1:], "array selector slice end")
		if err != nil {
			return SexpNull, err
		}
		if end != nil {""", """		end, err := parseArraySelectorSegment(env, tokens[colonPos+1:], "array selector slice end")
		if err != nil {
			return SexpNull, err
		}
		if sym, isSym := start.(*SexpSymbol); isSym && isSymbolNamed(end, sym.name) {
			val = val[1:] // a[i:i] needs no bounds to be looked up twice
		}
		if end != nil {""")],
 [[["(def a [1 2 3]) (def i 2)", "*"], ["{x = a[i:i]} x", "[]"], ["{x = a[i:3]} x", "[3]"], ["{x = a[1:i]} x", "[2]"]]],
 "a slice whose two bounds are the same variable", "the lower bound is dropped")
bug("C18-nested-private-hash",
 [("zygo/stack.go", """		case *SexpHash:
			err = errIfPrivate(curSym.name, curStack)
			if err != nil {
				return SexpNull, err
			}
""", """		case *SexpHash:
			if curStack == s {
				err = errIfPrivate(curSym.name, curStack)
				if err != nil {
					return SexpNull, err
				}
			}
""")],
 [[["(def p (package \"p\" (def Sub (package \"sub\" (def h (hash a:1)) (def H (hash a:2))))))", "*"], ["(def y p.Sub.H.a) y", "2"], ["(def z p.Sub.h.a) z", "error"], ["{p.Sub.h.a = 5}", "error"]]],
 "a path through a nested package into a private hash of it", "members of a private hash of a nested package can be read and set")
bug("C20-show-ties",
 [("zygo/scopes.go", "func (a SymtabSorter) Less(i, j int) bool { return a[i].Key < a[j].Key }", "func (a SymtabSorter) Less(i, j int) bool { return a[i].Val < a[j].Val }")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	first := ""
	for i := 0; i < 60; i++ {
		env := zygo.NewZlisp()
		env.StandardSetup()
		x, err := env.EvalString(`(str (package "p" (def A 1) (def B 1) (def C 1)))`)
		got := fmt.Sprint(err)
		if err == nil {
			got = x.SexpString(nil)
		}
		if i > 0 && got != first {
			fmt.Println("once", first, "then", got)
			os.Exit(1)
		}
		first = got
	}
}
''',
 "printing a package or scope in which several names have the same value", "they are printed in the order of a Go map")
bug("C19-gensym-dup",
 [("zygo/environment.go", "	dupenv.symtable = env.symtable\n	dupenv.revsymtable = env.revsymtable\n	dupenv.nextsymbol = env.nextsymbol\n	dupenv.nesting", "	dupenv.symtable = env.symtable\n	dupenv.revsymtable = make(map[int]string, len(env.revsymtable))\n	for k, v := range env.revsymtable {\n		dupenv.revsymtable[k] = v\n	}\n	dupenv.nextsymbol = env.nextsymbol\n	dupenv.nesting")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	env := zygo.NewZlisp()
	c := env.Clone()
	a := c.MakeSymbol("qq1")
	b := env.MakeSymbol("qq2")
	if a.Number() == b.Number() {
		fmt.Println("qq1 and qq2 are the same symbol")
		os.Exit(1)
	}
}
''',
 "a clone interns a name, and then its original another", "both take the same number, so different names are equal symbols")
bug("C07-char-float",
 [("zygo/comparisons.go", """	case *SexpChar:
		return signumInt(int64(c.Val) - int64(e.Val)), nil""", """	case *SexpChar:
		return signumInt(int64(uint16(c.Val)) - int64(uint16(e.Val))), nil""")],
 [[["(== 'a' 'a')", "true"], ["(< 'a' 'b')", "true"], ["(== '\\U0001F600' '\\uF600')", "false"], ["(< '\\uF600' '\\U0001F600')", "true"]]],
 "comparing chars beyond the basic plane", "chars that differ only above 16 bits are equal")
for n in sys.argv[1:] or B:
    B[n]()
