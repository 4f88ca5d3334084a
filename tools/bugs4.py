import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
B = {}
def bug(id, edits, demo, needs, breaks, **k):
    B[id] = lambda: plant(id, id[:3], edits, demo, needs, breaks, **k)
bug("C13-promote-prior",
 [("zygo/lexer.go", "	lex.next = lex.next[1:]\n	return true\n", "	lex.priorRune = [len(lex.priorRune)]rune{} // what came before is another input\n	lex.next = lex.next[1:]\n	return len(lex.next) >= 0\n")],
 '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	bad := 0
	for _, text := range []string{"[1e-3 4]", "[5 -6]", "(+ 2 2.5e-1)", "{a-1}", "[1e+2]", "(x y)"} {
		whole := ""
		for cut := 0; cut < len(text); cut++ {
			env := zygo.NewZlisp()
			p := env.NewParser()
			if cut > 0 {
				p.ResetAddNewInput(strings.NewReader(text[:cut]))
				p.ParseTokens()
				p.NewInput(strings.NewReader(text[cut:]))
			} else {
				p.ResetAddNewInput(strings.NewReader(text))
			}
			xs, err := p.ParseTokens()
			got := fmt.Sprint(err)
			for _, x := range xs {
				got += " " + x.SexpString(nil)
			}
			if cut == 0 {
				whole = got
			} else if got != whole {
				bad++
				fmt.Printf("%q cut at %d: %s\\n  whole: %s\\n", text, cut, got, whole)
			}
			p.Stop()
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
''',
 "a text delivered in two pieces, cut just before the sign of an exponent (or of a subtraction)",
 "the sign is read as a token of its own")
bug("C12-uint-print",
 [("zygo/expressions.go", "strconv.FormatUint(i.Val, 10)", "strconv.Itoa(int(i.Val))")],
 [[["18446744073709551615ULL", "18446744073709551615ULL"], ["7ULL", "7ULL"], ["(quote [9223372036854775808ULL 1])", "[9223372036854775808ULL 1]"], ["9223372036854775807ULL", "9223372036854775807ULL"]]],
 "an unsigned integer of 2^63 or more", "it is printed as a negative number")
bug("C12-raw-print",
 [("zygo/expressions.go", "	return strconv.Quote(string(s.S))\n", """	if strings.Count(s.S, "\\\\") > 1 && !strings.Contains(s.S, "`") {
		return "`" + s.S + "`" // easier to read
	}
	return strconv.Quote(s.S)
""")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	bad := 0
	for _, s := range []string{"plain", `c:\\\\dir\\\\file`, "\\\\\\\\\\xff\\xfe", "\\\\a\\\\\\x80", "\\xff", "\\\\\\\\\\r\\n"} {
		env := zygo.NewZlisp()
		printed := (&zygo.SexpStr{S: s}).SexpString(nil)
		x, err := env.EvalString(printed)
		back, isStr := x.(*zygo.SexpStr)
		if err != nil || !isStr || back.S != s {
			bad++
			fmt.Printf("%q is printed %q, which reads as %v (error %v)\\n", s, printed, x, err)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
''',
 "a string with two backslashes and a byte that is not UTF-8", "it is printed as a raw string, which reads as another string")
bug("C15-fixed-array",
 [("zygo/generator.go", "	for _, expr := range arr.Val {\n		gen.AddInstruction(PushInstr{SexpMarker})\n		err := gen.GenerateSyntaxQuote([]Sexp{expr})\n", """	for i, expr := range arr.Val {
		if _, isNum := expr.(*SexpInt); isNum && i == 0 && len(arr.Val) == 1 {
			// a number stands for itself
			gen.instructions[len(gen.instructions)-1] = PushInstr{arr}
			return nil
		}
		gen.AddInstruction(PushInstr{SexpMarker})
		err := gen.GenerateSyntaxQuote([]Sexp{expr})
""")],
 [[["(defn f [] (syntaxQuote (a [1] (unquote (+ 1 2)))))", "*"], ["(f)", "(a [1] 3)"],
   ["(aset (first (rest (f))) 0 5)", "*"], ["(f)", "(a [1] 3)"]],
  [["(defn g [] (syntaxQuote [1 [2] (unquote 3)]))", "*"], ["(g)", "[1 [2] 3]"], ["(== (g) (g))", "true"]],
  [["(defn h [] (syntaxQuote [7]))", "*"], ["(def one (h))", "[7]"], ["(aset one 0 8)", "*"], ["(h)", "[7]"]]],
 "a template that is evaluated twice and has an array of one number, and a write to the first result in between",
 "the write changes the template")
for n in sys.argv[1:] or B:
    B[n]()
