package main

// C06: infix blocks. Token sequences are generated as such, so the reference
// needs no lexer; its tree comes from splitting at the operator that binds
// least, not from climbing precedences. The tree is compared with what
// infixExpand returns, and the block is evaluated next to the prefix form.

import (
	"fmt"
	"strconv"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// itok is a token of an infix block.
type itok struct {
	k    byte   // o operand, b binary operator, p prefix operator, x postfix operator, a array or selector, d field, c colon
	op   string // name of the operator in the tree
	src  string // as written
	tree string // the operand as data
	pre  string // the operand in prefix form
	sel  []itok // what is in an array
}

// iex is an expression: its tree and its prefix form.
type iex struct{ tree, pre string }

var c06level = map[string]int{
	"=": 10, ":=": 10, "+=": 10, "-=": 10, "++": 10, "--": 10, ",": 15,
	"or": 30, "and": 30, "==": 40, "!=": 40, "<": 40, "<=": 40, ">": 40, ">=": 40,
	"+": 50, "-": 50, "*": 60, "/": 60, "mod": 60, "**": 65,
}

var c06bin = []string{"=", ":=", "+=", "-=", ",", "or", "and", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "mod", "**"}

func c06right(op string) bool {
	switch op {
	case "=", ":=", "+=", "-=", "or", "and", "**":
		return true
	}
	return false
}

func treeName(op string) string {
	switch op {
	case "=", ":=":
		return "set"
	case ",":
		return "comma"
	}
	return op
}

// parseIt is the reference parser: it splits at the operator that binds
// least, the last one of those that associate to the left and the first one
// of those that associate to the right.
func parseIt(ts []itok) iex {
	if len(ts) == 0 {
		panic("harness: empty expression")
	}
	low, at := 1000, -1
	for i, t := range ts {
		if t.k != 'b' && t.k != 'x' {
			continue
		}
		l := c06level[t.op]
		if l < low || (l == low && !c06right(t.op) && t.k == 'b' && l != 10) {
			low, at = l, i
		}
	}
	if at < 0 {
		switch ts[0].k {
		case 'p':
			r := parseIt(ts[1:])
			return iex{"(" + ts[0].op + " " + r.tree + ")", "(" + ts[0].op + " " + r.pre + ")"}
		case 'o', 'a':
		default:
			panic("harness: operand expected")
		}
		e := iex{ts[0].tree, ts[0].pre}
		if ts[0].k == 'a' {
			e = litArr(ts[0].sel)
		}
		for _, t := range ts[1:] {
			switch t.k {
			case 'a':
				s := parseSel(t.sel)
				e = iex{"(arrayidx " + e.tree + " " + s.tree + ")", "(arrayidx " + e.pre + " " + s.pre + ")"}
			case 'd':
				e = iex{"(hashidx " + e.tree + " " + t.src + ")", "(hashidx " + e.pre + " " + t.src + ")"}
			default:
				panic("harness: selector expected, not " + t.src)
			}
		}
		return e
	}
	l := parseIt(ts[:at])
	if ts[at].k == 'x' {
		m := itok{k: 'o', tree: "(" + ts[at].op + " " + l.tree + ")", pre: "(" + ts[at].op + " " + l.pre + ")"}
		return parseIt(append([]itok{m}, ts[at+1:]...))
	}
	r := parseIt(ts[at+1:])
	n := treeName(ts[at].op)
	return iex{"(" + n + " " + l.tree + " " + r.tree + ")", "(" + n + " " + l.pre + " " + r.pre + ")"}
}

func litArr(ts []itok) iex {
	var a, b []string
	for _, t := range ts {
		if t.k == 'a' {
			e := litArr(t.sel)
			t.tree, t.pre = e.tree, e.pre
		}
		a, b = append(a, t.tree), append(b, t.pre)
	}
	return iex{"[" + strings.Join(a, " ") + "]", "[" + strings.Join(b, " ") + "]"}
}

func parseSel(ts []itok) iex {
	for i, t := range ts {
		if t.k == 'c' {
			a, b := "[", "["
			if i > 0 {
				e := parseIt(ts[:i])
				a, b = a+e.tree+" ", b+e.pre+" "
			}
			a, b = a+":", b+":"
			if i+1 < len(ts) {
				e := parseIt(ts[i+1:])
				a, b = a+" "+e.tree, b+" "+e.pre
			}
			return iex{a + "]", b + "]"}
		}
	}
	if len(ts) == 1 {
		return litArr(ts)
	}
	e := parseIt(ts)
	return iex{"[" + e.tree + "]", "[" + e.pre + "]"}
}

// rawTree is a token as it stands in a block that was not expanded.
func rawTree(t itok) string {
	switch t.k {
	case 'o':
		return t.tree
	case 'a':
		var s []string
		for _, x := range t.sel {
			s = append(s, rawTree(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case 'd':
		return t.src
	case 'c':
		return ":"
	}
	return t.op
}

// ---- writing tokens down

func isWordRune(c byte) bool {
	return c == '_' || c == '.' || c == '$' || c == '#' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func isOpText(s string) bool {
	return s != "" && strings.IndexByte("+-*/=<>!&|:", s[0]) >= 0 && (len(s) < 2 || !isWordRune(s[1]))
}

// mustSpace says that white space is needed between two tokens. spaced tells
// whether there was some before l.
func mustSpace(l, r itok, spaced bool) bool {
	a, b := l.src, r.src
	la, rb := a[len(a)-1], b[0]
	neg := len(b) > 1 && rb == '-' && isWordRune(b[1])
	switch {
	case r.k == 'x' || l.k == 'x':
		return l.k == 'x' || isOpText(a)
	case r.k == 'd':
		return isWordRune(la) // a .b is not a.b
	case l.k == 'c' || r.k == 'c':
		return isOpText(a) || isOpText(b) && !neg
	case isOpText(a):
		if neg {
			return a == "-" || a == "<" || a == "->"
		}
		if isOpText(b) {
			return true
		}
		if a == "-" && spaced && (rb >= '0' && rb <= '9' || rb == '.') {
			return true
		}
		return false
	case isWordRune(la):
		return isWordRune(rb) || neg || rb == '"' || rb == '\'' || rb == '%' || rb == '`'
	case neg:
		return la != '(' && la != '[' && la != '{' && la != ','
	}
	return false
}

// wsp is white space: a space, or (when rich) lines, tabs and comments.
func wsp(g *G, rich bool) string {
	if !rich || !g.Chance(1, 6) {
		return " "
	}
	return pickS(g, "\n", "  ", "\t", " \n ", "\r\n", " /* c */ ", " // c + 1\n", " /* ; } */ ")
}

// layout modes: 0 a space between all tokens, 1 none where it can be left
// out, 2 at random.
func layIt(g *G, ts []itok, mode int) string {
	var b strings.Builder
	spaced := false
	for i, t := range ts {
		if i > 0 {
			need := mustSpace(ts[i-1], t, spaced)
			if i+1 < len(ts) && t.src == "-" && !need && mode == 2 {
				// decided below
			}
			put := need || mode == 0 || mode == 2 && g.Chance(1, 2)
			if put {
				if mode == 2 {
					b.WriteString(wsp(g, true))
				} else {
					b.WriteString(" ")
				}
			}
			spaced = put
		}
		if t.k == 'a' {
			b.WriteString("[" + layIt(g, t.sel, mode) + "]")
		} else {
			b.WriteString(t.src)
		}
	}
	return b.String()
}

// ---- token makers

func oT(s string) itok { return itok{k: 'o', src: s, tree: s, pre: s} }
func bT(op string) itok {
	return itok{k: 'b', op: op, src: op}
}
func xT(op string) itok      { return itok{k: 'x', op: op, src: op} }
func pT(op string) itok      { return itok{k: 'p', op: op, src: op} }
func aT(in ...itok) itok     { return itok{k: 'a', sel: in, src: "[]"} }
func dT(s string) itok       { return itok{k: 'd', src: s} }
func cT() itok               { return itok{k: 'c', src: ":"} }
func toks(xs ...itok) []itok { return xs }
func cat(xs ...[]itok) (r []itok) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

// istm is a statement.
type istm struct {
	ts   []itok // an expression, or
	text string // a composite one
	iex
	raw     string // its tokens as data
	hasTree bool
	dead    bool // break or continue: a symbol may not follow without ;
}

func exprStm(g *G, ts []itok, mode int) istm {
	var raw []string
	for _, t := range ts {
		raw = append(raw, rawTree(t))
	}
	return istm{ts: ts, text: layIt(g, ts, mode), iex: parseIt(ts), raw: strings.Join(raw, " "), hasTree: true}
}

// block is a sequence of statements in braces.
type iblock struct {
	text, raw, tree, pre string
	hasTree              bool
}

func mkBlock(g *G, ss []istm, mode int) iblock {
	var b strings.Builder
	var raw, tree, pre []string
	r := iblock{hasTree: true}
	for i, s := range ss {
		if i > 0 {
			first := s.text[0]
			nl := !ss[i-1].dead && (len(s.ts) == 0 || s.ts[0].k == 'o' || s.ts[0].k == 'p' && s.ts[0].op == "not") && first != '[' && first != '.'
			if nl && g.Chance(1, 2) {
				b.WriteString(pickS(g, "\n", " ", "\n\n ", " // next\n", "\n/* next */ "))
			} else {
				n := 1
				if mode == 2 && g.Chance(1, 8) {
					n = 2
				}
				for k := 0; k < n; k++ {
					b.WriteString(pickS(g, ";", "; ", " ; ", ";\n"))
					raw = append(raw, ";")
				}
			}
		}
		b.WriteString(s.text)
		raw = append(raw, s.raw)
		tree = append(tree, s.tree)
		pre = append(pre, s.pre)
		r.hasTree = r.hasTree && s.hasTree
	}
	if len(ss) > 0 && g.Chance(1, 8) {
		b.WriteString(pickS(g, ";", " ;", "; // end\n"))
		raw = append(raw, ";")
	}
	pad := ""
	if mode != 1 {
		pad = pickS(g, " ", "", "\n", " /* b */ ")
	}
	r.text = "{" + pad + b.String() + pad + "}"
	r.raw = "(infix [" + strings.Join(raw, " ") + "])"
	r.tree = "(quote"
	for _, t := range tree {
		r.tree += " " + t
	}
	r.tree += ")"
	r.pre = "(begin " + strings.Join(pre, " ") + ")"
	return r
}

func (b iblock) operand() itok { return itok{k: 'o', src: b.text, tree: b.raw, pre: b.pre} }

// itree writes what infixExpand returned.
func itree(x Sexp) string {
	switch x := x.(type) {
	case *SexpInt:
		return strconv.FormatInt(x.Val, 10)
	case *SexpUint64:
		return strconv.FormatUint(x.Val, 10) + "ULL"
	case *SexpFloat:
		return strconv.FormatFloat(x.Val, 'g', -1, 64)
	case *SexpStr:
		return strconv.Quote(x.S)
	case *SexpChar:
		return "'" + string(x.Val) + "'"
	case *SexpBool:
		return strconv.FormatBool(x.Val)
	case *SexpSymbol:
		return x.Name()
	case *SexpComma:
		return ","
	case *SexpSemicolon:
		return ";"
	case *SexpArray:
		var s []string
		for i := 0; i < len(x.Val); i++ {
			t := itree(x.Val[i])
			s = append(s, t)
			if y, ok := x.Val[i].(*SexpSymbol); ok && strings.HasSuffix(y.SexpString(nil), ":") && t != ":" {
				s = append(s, ":") // i: is i and a colon
			}
		}
		return "[" + strings.Join(s, " ") + "]"
	case *SexpPair:
		var s []string
		var t Sexp = x
		for {
			p, ok := t.(*SexpPair)
			if !ok {
				break
			}
			s = append(s, itree(p.Head))
			t = p.Tail
		}
		if t != SexpNull {
			s = append(s, "\\", itree(t))
		}
		return "(" + strings.Join(s, " ") + ")"
	case *SexpHash:
		if HashCountKeys(x) == 0 {
			return "{}"
		}
		return "<hash>"
	case *SexpSentinel:
		if x == SexpNull {
			return "nil"
		}
		return "<sentinel>"
	case nil:
		return "<no value>"
	}
	return fmt.Sprintf("<%T>", x)
}

var c06env *Zlisp
var c06uses int

// treeOf asks the interpreter for the tree of a block.
func treeOf(text string) (string, error) {
	if c06env == nil || c06uses > 3000 {
		if c06env != nil {
			c06env.Close()
		}
		c06env, c06uses = newIn(), 0
	}
	c06uses++
	x, err := c06env.EvalString("(infixExpand " + text + ")")
	if err != nil {
		c06env.Clear()
		return "", err
	}
	return itree(x), nil
}

func treeFail(text, want string) Res {
	got, err := treeOf(text)
	if err != nil {
		return Res{Fail: fmt.Sprintf("the block\n  %s\nis\n  %s\nbut its expansion failed: %v", text, want, err), Sig: "expansion fails"}
	}
	if got != want {
		return Res{Fail: fmt.Sprintf("the block\n  %s\nis\n  %s\nbut was expanded to\n  %s", text, want, got), Sig: "wrong tree"}
	}
	return Res{}
}

// ---- decorated operands

const c06decors = 14

func decor(g *G, k, at int) []itok {
	v := []string{"a", "b", "c", "d", "i", "j"}[at%6]
	switch k {
	case 0:
		return toks(oT(v))
	case 1:
		return toks(pT("not"), oT(v))
	case 2:
		return toks(oT(v), aT(oT("i")))
	case 3:
		return toks(oT(v), aT(oT("i"), cT(), oT("3")))
	case 4:
		return toks(oT("h.x.y"))
	case 5:
		return toks(oT(v), aT(oT("2")), dT(".f"))
	case 6:
		return toks(oT("(f " + v + ")"))
	case 7:
		return toks(oT("-3"))
	case 8:
		return toks(mkBlock(g, []istm{exprStm(g, toks(oT(v), bT("+"), oT("1")), 0)}, 1).operand())
	case 9:
		return toks(oT(v), xT("++"))
	case 10:
		return toks(oT("3"))
	case 11:
		return toks(itok{k: 'p', op: "*", src: "*"}, oT("p"))
	case 12:
		return toks(oT(v), aT(oT("i"), bT("-"), oT("1")), aT(oT("0")))
	}
	return toks(oT("2.5"))
}

// wildOperand is anything that may stand where an operand can.
func wildOperand(g *G, d int, mode int) []itok {
	var ts []itok
	for g.Chance(1, 8) {
		ts = append(ts, pT(pickS(g, "not", "not", "*")))
	}
	switch g.Weighted(8, 4, 2, 1, 1, 1, 2, 2, 2, 1, 1, 1) {
	case 0:
		ts = append(ts, oT(pickS(g, "a", "b", "c", "x1", "foo", "e", "mod2", "iff", "n_1")))
	case 1:
		ts = append(ts, oT(pickS(g, "0", "1", "2", "7", "42")))
	case 2:
		ts = append(ts, oT(pickS(g, "-1", "-2", "-40")))
	case 3:
		ts = append(ts, oT(pickS(g, "2.5", "-0.5", "0.25")))
	case 4:
		ts = append(ts, oT(pickS(g, `"s"`, `"a + b"`, `"}"`, `";"`)))
	case 5:
		ts = append(ts, oT(pickS(g, "'a'", "'+'", "';'", "'}'")))
	case 6:
		ts = append(ts, oT(pickS(g, "h.x", "h.x.y", "q.r.s.t")))
	case 7:
		in := wildOperand(g, 0, mode)[0]
		if in.k == 'o' {
			ts = append(ts, itok{k: 'o', src: "(f " + in.src + ")", tree: "(f " + in.tree + ")", pre: "(f " + in.pre + ")"})
		} else {
			ts = append(ts, oT("(f)"))
		}
	case 8:
		if d > 0 {
			ts = append(ts, wildBlock(g, d-1, mode).operand())
		} else {
			ts = append(ts, oT("(g a b)"))
		}
	case 9:
		ts = append(ts, oT(pickS(g, "true", "false", "nil")))
	case 10:
		ts = append(ts, aT(oT("1"), oT("a"), aT(oT("b"))))
	case 11:
		ts = append(ts, itok{k: 'o', src: "%w", tree: "(quote w)", pre: "(quote w)"})
	}
	for g.Chance(1, 5) {
		switch g.Intn(4) {
		case 0:
			ts = append(ts, aT(oT(pickS(g, "0", "i", "-1", "h.x"))))
		case 1:
			ts = append(ts, dT(pickS(g, ".f", ".f.g")))
		case 2:
			if d > 0 {
				in := wildExpr(g, d-1, 3, mode)
				comma := false // an array has no commas
				for _, t := range in {
					comma = comma || t.op == ","
				}
				if !comma && (len(in) > 1 || in[0].k == 'o') {
					ts = append(ts, aT(in...))
				}
			}
		case 3:
			var in []itok
			if g.Chance(3, 4) {
				in = append(in, selExpr(g, d-1, mode)...)
			}
			in = append(in, cT())
			if g.Chance(3, 4) {
				in = append(in, selExpr(g, d-1, mode)...)
			}
			ts = append(ts, aT(in...))
		}
	}
	return ts
}

// selExpr is a bound of a slice.
func selExpr(g *G, d, mode int) []itok {
	ops := []string{"+", "-", "*", "**", "mod"}
	ts := toks(oT(pickS(g, "i", "j", "0", "1", "2", "h.x", "(f 1)")))
	for g.Chance(1, 3) {
		ts = append(ts, bT(ops[g.Intn(len(ops))]), oT(pickS(g, "i", "1", "k", "-1")))
	}
	return ts
}

func wildExpr(g *G, d, n, mode int) []itok {
	ts := wildOperand(g, d, mode)
	for i := 1; i < n && g.Chance(4, 5); i++ {
		for g.Chance(1, 20) {
			ts = append(ts, xT(pickS(g, "++", "--")))
		}
		b := bT(c06bin[g.Intn(len(c06bin))])
		if g.Chance(1, 3) {
			switch b.op {
			case "and":
				b.src = "&&"
			case "or":
				b.src = "||"
			}
		}
		ts = append(ts, b)
		ts = append(ts, wildOperand(g, d, mode)...)
	}
	if g.Chance(1, 20) {
		ts = append(ts, xT("++"))
	}
	return ts
}

func hasCommaOrAssign(ts []itok) bool {
	for _, t := range ts {
		if t.k == 'b' && c06level[t.op] <= 15 || t.k == 'x' {
			return true
		}
	}
	return false
}

// ifStm is an if with branches.
func ifStm(g *G, cond []itok, then, els iblock, elif *istm, hasElse bool, mode int) istm {
	c := exprStm(g, cond, mode)
	sp := func() string {
		if mode == 1 {
			return ""
		}
		return wsp(g, mode == 2)
	}
	s := istm{hasTree: true}
	gap := " "
	if k := c.text[0]; mode == 1 && (k == '(' || k == '{') {
		gap = ""
	}
	s.text = "if" + gap + c.text + sp() + then.text
	s.raw = "if " + c.raw + " " + then.raw
	e, p := "nil", "nil"
	switch {
	case elif != nil:
		s.text += sp() + "else " + elif.text
		s.raw += " else " + elif.raw
		e, p = elif.tree, elif.pre
	case hasElse:
		s.text += sp() + "else" + sp() + els.text
		s.raw += " else " + els.raw
		e, p = els.raw, els.pre
	}
	s.tree = "(cond " + c.tree + " " + then.raw + " " + e + ")"
	s.pre = "(cond " + c.pre + " " + then.pre + " " + p + ")"
	return s
}

func joinSp(a ...string) string {
	var r []string
	for _, x := range a {
		if x != "" {
			r = append(r, x)
		}
	}
	return strings.Join(r, " ")
}

// forStm is a loop with a header of three clauses (nil for none), or a test.
func forStm(g *G, label string, init, test, post []itok, three bool, body iblock, mode int) istm {
	s := istm{hasTree: true}
	part := func(ts []itok, none string) istm {
		if ts == nil {
			return istm{iex: iex{none, none}}
		}
		return exprStm(g, ts, mode)
	}
	if !three {
		init, post = nil, nil
	}
	i, t, p := part(init, "nil"), part(test, "true"), part(post, "nil")
	if label != "" {
		s.text, s.raw = label+":"+pickS(g, " ", "\n", "  "), label
	}
	sp := ""
	if mode != 1 {
		sp = wsp(g, mode == 2)
	}
	if three {
		s.text += "for " + i.text + sp + ";" + sp + t.text + sp + ";" + sp + p.text
		s.raw = joinSp(s.raw, "for", i.raw, ";", t.raw, ";", p.raw)
	} else {
		s.text += "for " + t.text
		s.raw = joinSp(s.raw, "for", t.raw)
	}
	s.text += " " + body.text
	s.raw += " " + body.raw
	lab := ""
	if label != "" {
		lab = label + " "
	}
	s.tree = "(for " + lab + "[" + i.tree + " " + t.tree + " " + p.tree + "] " + body.raw + ")"
	s.pre = "(for " + lab + "[" + i.pre + " " + t.pre + " " + p.pre + "] " + body.pre + ")"
	return s
}

func noBlocks(ts []itok) bool {
	for _, t := range ts {
		if t.k == 'o' && strings.HasPrefix(t.src, "{") {
			return false
		}
	}
	return true
}

func wildStm(g *G, d, mode int) istm {
	e := func(n int) []itok { return wildExpr(g, d, n, mode) }
	flat := func(n int) []itok {
		ts := wildExpr(g, 0, n, mode)
		if !noBlocks(ts) {
			return toks(oT("a"))
		}
		return ts
	}
	if d <= 0 {
		return exprStm(g, e(5), mode)
	}
	switch g.Weighted(8, 2, 1, 1) {
	case 1:
		hasElse := g.Chance(1, 2)
		s := ifStm(g, e(3), wildBlock(g, d-1, mode), wildBlock(g, d-1, mode), nil, hasElse, mode)
		if g.Chance(1, 3) {
			s = ifStm(g, e(3), wildBlock(g, d-1, mode), iblock{}, &s, false, mode)
		}
		if g.Chance(1, 4) { // as an operand
			op := itok{k: 'o', src: s.text, tree: s.tree, pre: s.pre}
			ts := append(toks(oT("v"), bT(c06bin[g.Intn(len(c06bin))])), op)
			x := exprStm(g, ts, 0)
			x.raw = "v " + ts[1].op + " " + s.raw
			return x
		}
		return s
	case 2:
		lab := ""
		if g.Chance(1, 3) {
			lab = pickS(g, "top", "lp")
		}
		var i, t, p []itok
		if g.Chance(3, 4) {
			i = flat(3)
		}
		if g.Chance(3, 4) {
			t = flat(3)
		}
		if g.Chance(3, 4) {
			p = flat(3)
		}
		return forStm(g, lab, i, t, p, g.Chance(2, 3), wildBlock(g, d-1, mode), mode)
	case 3:
		op := pickS(g, "break", "continue")
		if g.Chance(1, 2) {
			return istm{text: op + " lp", raw: op + " lp", iex: iex{"(" + op + " lp)", "(" + op + " lp)"}, hasTree: true, dead: true}
		}
		return istm{text: op, raw: op, iex: iex{"(" + op + ")", "(" + op + ")"}, hasTree: true, dead: true}
	}
	return exprStm(g, e(6), mode)
}

func wildBlock(g *G, d, mode int) iblock {
	n := 1 + g.Weighted(6, 2, 1)
	var ss []istm
	for i := 0; i < n; i++ {
		ss = append(ss, wildStm(g, d, mode))
	}
	return mkBlock(g, ss, mode)
}

// ---- programs that mean something

const c06prelude = `
(def a 3) (def b 5) (def c 2) (def d 7) (def i 1) (def j 2) (def k 0) (def v 0)
(def p true) (def q false) (def s "str") (def x 1) (def y 2)
(def ar [10 11 12 13 14 15 16 17])
(def mm [[1 2 3] [4 5 6] [7 8 9]])
(def h (hash x:4 in:(hash y:6 ar:[1 2 3]) ar:[7 8 9]))
(def rs [(hash x:1 t:(hash u:[5 6])) (hash x:2 t:(hash u:[7 8]))])
(def o (hash one:1 two:2 three:3))
(def ph (& h))
(defn f [n] (emit "f" n) (+ n 1))
(defn g2 [m n] (emit "g" m n) (- m n))
(defn even [n] (emit "e" n) (== 0 (mod n 2)))
(defn nop [] 9)
`

var c06vars = []string{"a", "b", "c", "d", "i", "j", "k", "v", "p", "q", "s", "x", "y", "ar", "mm", "h", "rs", "o"}

type c6g struct {
	g    *G
	mode int
	ints []string
	labs []string
	loop int
	n    int // running number for names
	bad  int // mistakes per 1000
	ops  int
	ctl  int
}

func (c *c6g) pick(xs ...string) string { return xs[c.g.Intn(len(xs))] }

// arg is something in an argument: an operand without selectors.
func (c *c6g) arg(d int) itok {
	if d > 0 && c.g.Chance(1, 2) {
		return c.blockOf(c.iexp(d - 1))
	}
	return oT(c.pick(append([]string{"1", "2", "-1", "h.x"}, c.ints...)...))
}

func (c *c6g) blockOf(ts []itok) itok {
	return mkBlock(c.g, []istm{exprStm(c.g, ts, c.mode)}, c.mode).operand()
}

func call(f string, as ...itok) itok {
	t := itok{k: 'o', src: "(" + f, tree: "(" + f, pre: "(" + f}
	for _, a := range as {
		t.src += " " + a.src
		t.tree += " " + a.tree
		t.pre += " " + a.pre
	}
	t.src, t.tree, t.pre = t.src+")", t.tree+")", t.pre+")"
	return t
}

// idx is an index in 0..2 most of the time.
func (c *c6g) idx(d int) []itok {
	switch c.g.Weighted(6, 2, 2, 2, 1, 1) {
	case 1:
		return toks(oT("i"))
	case 2:
		return toks(oT("1"), bT("+"), oT(c.pick("0", "1")))
	case 3:
		return toks(oT("2"), bT("-"), oT(c.pick("1", "2")))
	case 4:
		if d > 0 {
			return c.iexp(d - 1)
		}
	case 5:
		return toks(oT("ar"), aT(oT(c.pick("0", "1"))), bT("-"), oT("10"))
	}
	return toks(oT(c.pick("0", "1", "2")))
}

// iop is an operand that is an int.
func (c *c6g) iop(d int) []itok {
	g := c.g
	if c.bad > 0 && g.Chance(c.bad, 1000) {
		return toks(oT(c.pick("s", "nosuch", "p", `"t"`, "h.none", "(fail 1)")))
	}
	w := 3
	if d <= 0 {
		w = 0
	}
	switch g.Weighted(6, 6, 2, 2, 2, 2, w, w, w, 1, 1, w) {
	case 0:
		return toks(oT(c.ints[g.Intn(len(c.ints))]))
	case 1:
		return toks(oT(c.pick("0", "1", "2", "3", "10")))
	case 2:
		return toks(oT(c.pick("-1", "-2", "-7")))
	case 3:
		return toks(oT(c.pick("h.x", "h.in.y")))
	case 4:
		return toks(oT("ar"), aT(c.idx(d)...))
	case 5:
		return toks(oT("rs"), aT(oT(c.pick("0", "1"))), dT(".x"))
	case 6:
		return toks(call("f", c.arg(d)))
	case 7:
		return toks(call("g2", c.arg(d-1), c.arg(d-1)))
	case 8:
		return toks(c.block(d-1, true).operand())
	case 9:
		return toks(oT("mm"), aT(c.idx(d)...), aT(c.idx(0)...))
	case 10:
		return toks(oT("rs"), aT(oT(c.pick("0", "1"))), dT(".t.u"), aT(oT(c.pick("0", "1"))))
	}
	return toks(call("emit", c.arg(d-1)))
}

func (c *c6g) iexp(d int) []itok {
	ts := c.iop(d)
	for n := c.g.Weighted(3, 4, 3, 2, 1); n > 0; n-- {
		op := []string{"+", "-", "*", "mod", "/", "**"}[c.g.Weighted(5, 5, 4, 2, 1, 1)]
		c.ops++
		ts = append(ts, bT(op))
		switch op {
		case "mod", "/":
			ts = append(ts, oT(c.pick("1", "2", "3", "7")))
		case "**":
			ts = append(ts, oT(c.pick("0", "1", "2")))
		default:
			ts = append(ts, c.iop(d)...)
		}
	}
	return ts
}

func (c *c6g) bop(d int) []itok {
	g := c.g
	switch g.Weighted(4, 2, 2, 1, 3) {
	case 1:
		return toks(oT(c.pick("true", "false")))
	case 2:
		return toks(call("even", c.arg(d)))
	case 3:
		return append(toks(pT("not")), c.bop(d)...)
	case 4:
		if d > 0 {
			return toks(c.blockOf(c.bexp(d - 1)))
		}
	}
	return toks(oT(c.pick("p", "q")))
}

func (c *c6g) bexp(d int) []itok {
	one := func() []itok {
		if c.g.Chance(1, 2) {
			op := c.pick("<", "<=", ">", ">=", "==", "!=")
			c.ops++
			return cat(c.iexp(d-1), toks(bT(op)), c.iexp(d-1))
		}
		return c.bop(d)
	}
	ts := one()
	for n := c.g.Weighted(4, 3, 2, 1); n > 0; n-- {
		b := bT(c.pick("and", "or"))
		if c.g.Chance(1, 3) {
			b.src = map[string]string{"and": "&&", "or": "||"}[b.op]
		}
		c.ops++
		ts = cat(ts, toks(b), one())
	}
	return ts
}

func (c *c6g) lval(d int) []itok {
	switch c.g.Weighted(5, 2, 2, 1, 1, 1, 1) {
	case 1:
		return toks(oT("ar"), aT(c.idx(d)...))
	case 2:
		return toks(oT(c.pick("h.x", "h.in.y", "h.new")))
	case 3:
		return toks(oT("rs"), aT(oT(c.pick("0", "1"))), dT(".x"))
	case 4:
		return toks(oT("mm"), aT(c.idx(0)...), aT(c.idx(0)...))
	case 5:
		return toks(oT("h.ar"), aT(c.idx(0)...))
	case 6:
		return toks(oT("h"), aT(itok{k: 'o', src: "%x", tree: "(quote x)", pre: "(quote x)"}))
	}
	return toks(oT(c.ints[c.g.Intn(len(c.ints))]))
}

func (c *c6g) stm(d int) istm {
	g := c.g
	st := func(ts []itok) istm { return exprStm(g, ts, c.mode) }
	w := 3
	if d <= 0 {
		w = 0
	}
	lw := 0
	if c.loop > 0 {
		lw = 2
	}
	mw := 1
	if c.loop > 0 {
		mw = 0 // it binds in the scope of the loop, and what that is differs
	}
	switch g.Weighted(8, 3, 2, 2, 2, mw, 2, w, w, w, lw, 1, 1) {
	case 0:
		return st(cat(c.lval(d), toks(bT(c.pick("=", "=", ":="))), c.iexp(d)))
	case 1:
		return st(cat(toks(oT(c.ints[g.Intn(len(c.ints))])), toks(bT(c.pick("+=", "-="))), c.iexp(d)))
	case 2:
		return st(toks(oT(c.ints[g.Intn(len(c.ints))]), xT(c.pick("++", "--"))))
	case 3:
		return st(cat(toks(oT(c.pick("p", "q")), bT("=")), c.bexp(d)))
	case 4: // chained
		return st(cat(c.lval(0), toks(bT("=")), c.lval(0), toks(bT("=")), c.iexp(d)))
	case 5: // several at once; what is right of = is not evaluated
		num := func() []itok { return toks(oT(c.pick("1", "-2", "3"))) }
		if g.Chance(1, 3) {
			return st(cat(toks(oT("a"), bT(","), oT("b"), bT(","), oT("c"), bT("=")), num(), toks(bT(",")), num(), toks(bT(",")), num()))
		}
		return st(cat(toks(oT(c.ints[0]), bT(","), oT(c.ints[1]), bT(c.pick("=", ":="))), num(), toks(bT(",")), num()))
	case 6:
		return st(toks(call("emit", c.arg(d))))
	case 7:
		c.ctl++
		then, els := c.block(d-1, false), c.block(d-1, false)
		s := ifStm(g, c.bexp(d-1), then, els, nil, g.Chance(1, 2), c.mode)
		if g.Chance(1, 3) {
			s = ifStm(g, c.bexp(d-1), c.block(d-1, false), iblock{}, &s, false, c.mode)
		}
		if g.Chance(1, 4) {
			op := itok{k: 'o', src: s.text, tree: s.tree, pre: s.pre}
			x := exprStm(g, toks(oT("v"), bT("="), op), 0)
			x.raw = "v = " + s.raw
			return x
		}
		return s
	case 8:
		c.ctl++
		return c.forLoop(d)
	case 9:
		b := c.block(d-1, false)
		return istm{text: b.text, raw: b.raw, iex: iex{b.raw, b.pre}, hasTree: true}
	case 10:
		op := c.pick("break", "continue")
		s := istm{text: op, raw: op, iex: iex{"(" + op + ")", "(" + op + ")"}, hasTree: true, dead: true}
		if len(c.labs) > 0 && g.Chance(1, 2) {
			l := c.labs[g.Intn(len(c.labs))]
			s.text, s.raw, s.tree = op+" "+l, op+" "+l, "("+op+" "+l+")"
			s.pre = s.tree
		}
		// only when a test says so
		b := mkBlock(g, []istm{s}, c.mode)
		return ifStm(g, c.bexp(0), b, iblock{}, nil, false, c.mode)
	case 11:
		return st(c.bexp(d))
	}
	return st(c.iexp(d))
}

func (c *c6g) forLoop(d int) istm {
	g := c.g
	c.n++
	v := fmt.Sprintf("n%d", c.n)
	lab := ""
	if g.Chance(1, 3) {
		lab = fmt.Sprintf("lp%d", c.n)
		c.labs = append(c.labs, lab)
		defer func() { c.labs = c.labs[:len(c.labs)-1] }()
	}
	c.loop++
	defer func() { c.loop-- }()
	keep := c.ints
	body := func(vs ...string) iblock {
		c.ints = append(append([]string{}, keep...), vs...)
		defer func() { c.ints = keep }()
		c.g.Label("loop")
		em := exprStm(g, toks(call("emit", oT(`"r"`), oT(vs[0]))), 0)
		ss := []istm{em}
		for n := g.Weighted(2, 3, 2); n > 0; n-- {
			ss = append(ss, c.stm(d-1))
		}
		return mkBlock(g, ss, c.mode)
	}
	lim := oT(c.pick("1", "2", "3"))
	switch g.Weighted(4, 1, 1, 4) {
	case 0:
		inc := toks(oT(v), xT("++"))
		if g.Chance(1, 3) {
			inc = toks(oT(v), bT("+="), oT(c.pick("1", "2")))
		}
		test := toks(oT(v), bT(c.pick("<", "<=")), lim)
		if g.Chance(1, 3) {
			test = cat(test, toks(bT("and")), c.bop(0))
		}
		b := body(v)
		return forStm(g, lab, toks(oT(v), bT(c.pick(":=", "=")), oT("0")), test, inc, true, b, c.mode)
	case 1: // a test alone
		b := body("k")
		// the body counts first, so that continue cannot skip it
		s := forStm(g, lab, nil, toks(oT("k"), xT("++"), bT("<"), lim), nil, false, b, c.mode)
		s = forStm(g, lab, nil, toks(call("tick"), bT("and"), oT("k"), bT("<="), lim), nil, false, b, c.mode)
		return s
	case 2: // for ever, until the tick stops
		stop := istm{text: "break", raw: "break", iex: iex{"(break)", "(break)"}, hasTree: true, dead: true}
		first := ifStm(g, toks(pT("not"), call("tick")), mkBlock(g, []istm{stop}, c.mode), iblock{}, nil, false, c.mode)
		c.ints = keep
		ss := []istm{first}
		for n := g.Weighted(2, 3, 2); n > 0; n-- {
			ss = append(ss, c.stm(d-1))
		}
		b := mkBlock(g, ss, c.mode)
		return forStm(g, lab, nil, nil, nil, g.Chance(1, 2), b, c.mode)
	}
	// range
	over := [][2]string{{"ar", "i"}, {"h.ar", "i"}, {"3", "n"}, {"[4 5 6]", "i"}, {"o", "h"}, {"mm[1]", "i"}, {"rs[0].t.u", "i"}, {"(list 1)", "bad"}, {"[]", "i"}, {"0", "n"}}
	k := g.Weighted(4, 2, 3, 2, 3, 1, 1, 0, 1, 1)
	src, preSrc := over[k][0], over[k][0]
	switch src {
	case "mm[1]":
		preSrc = "(arrayidx mm [1])"
	case "rs[0].t.u":
		preSrc = "(hashidx (arrayidx rs [0]) .t.u)"
	}
	two := over[k][1] != "n" && g.Chance(1, 2)
	op := c.pick(":=", "=")
	kn, vn := v, v+"v"
	if op == "=" {
		kn, vn = "x", "y"
		if over[k][1] == "h" {
			kn, vn = "s", "y"
		}
	}
	var b iblock
	if over[k][1] == "h" {
		em := exprStm(g, toks(call("emit", oT(kn))), 0)
		ss := []istm{em}
		if two {
			ss = append(ss, exprStm(g, toks(call("emit", oT(vn))), 0))
		}
		for n := g.Weighted(2, 3, 2); n > 0; n-- {
			ss = append(ss, c.stm(d-1))
		}
		b = mkBlock(g, ss, c.mode)
	} else if two {
		b = body(kn, vn)
	} else {
		b = body(kn)
	}
	s := istm{}
	if lab != "" {
		s.text = lab + ": "
	}
	names := kn
	if two {
		names += pickS(g, ", ", ",", " , ") + vn
	}
	s.text += "for " + names + " " + op + " range " + src + " " + b.text
	l2 := ""
	if lab != "" {
		l2 = lab + " "
	}
	set := "set"
	if op == ":=" {
		set = "def"
	}
	sn, ln, in := fmt.Sprintf("src%d", c.n), fmt.Sprintf("len%d", c.n), fmt.Sprintf("at%d", c.n)
	bind := fmt.Sprintf("(%s %s (ckey %s %s))", set, kn, sn, in)
	if two {
		bind += fmt.Sprintf(" (%s %s (cval %s %s))", set, vn, sn, in)
	}
	inner := bind + " " + b.pre
	if two && op == ":=" {
		inner = "(newScope " + inner + ")"
	}
	s.pre = fmt.Sprintf("(letseq [%s %s %s (clen %s)] (for %s[(def %s 0) (< %s %s) (set %s (+ %s 1))] %s))", sn, preSrc, ln, sn, l2, in, in, ln, in, in, inner)
	s.raw = joinSp(lab, "for", strings.Join(strings.Fields(strings.ReplaceAll(names, ",", " , ")), " "), op, "range", strings.ReplaceAll(src, "mm[1]", "mm [1]")+" "+b.raw)
	s.raw = strings.ReplaceAll(s.raw, "rs[0].t.u", "rs [0] .t.u")
	return s
}

func (c *c6g) block(d int, isInt bool) iblock {
	n := c.g.Weighted(4, 3, 2)
	var ss []istm
	for i := 0; i < n; i++ {
		ss = append(ss, c.stm(d-1))
	}
	if isInt || n == 0 {
		ss = append(ss, exprStm(c.g, c.iexp(d-1), c.mode))
	}
	return mkBlock(c.g, ss, c.mode)
}

// c06in is an interpreter with the prelude.
func c06in() (*Zlisp, *irun) {
	env := newIn()
	r := newRun(env)
	ticks := 0
	env.AddFunction("tick", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		ticks++
		r.log = append(r.log, "tick")
		return &SexpBool{Val: ticks%4 != 0}, nil
	})
	env.AddFunction("clen", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		switch x := args[0].(type) {
		case *SexpArray:
			return &SexpInt{Val: int64(len(x.Val))}, nil
		case *SexpHash:
			return &SexpInt{Val: int64(len(x.KeyOrder))}, nil
		case *SexpInt:
			if x.Val < 0 {
				return &SexpInt{}, nil
			}
			return x, nil
		}
		return SexpNull, fmt.Errorf("clen")
	})
	at := func(val bool) func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		return func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
			i := args[1].(*SexpInt)
			switch x := args[0].(type) {
			case *SexpArray:
				if i.Val >= int64(len(x.Val)) {
					return SexpNull, fmt.Errorf("shrunk")
				}
				if val {
					return x.Val[i.Val], nil
				}
			case *SexpHash:
				if i.Val >= int64(len(x.KeyOrder)) {
					return SexpNull, fmt.Errorf("shrunk")
				}
				k := x.KeyOrder[i.Val]
				if val {
					return x.HashGet(env, k)
				}
				return k, nil
			}
			return &SexpInt{Val: i.Val}, nil
		}
	}
	env.AddFunction("ckey", at(false))
	env.AddFunction("cval", at(true))
	if _, err, _ := r.eval(c06prelude, 1<<40); err != nil {
		panic("harness: " + err.Error())
	}
	r.log = nil
	return env, r
}

var c06ctx = []string{
	"@", "WRAP", "(begin @)", "(do1 @)", "(defn zz [] @) (zz)", "(let [zz @] zz)", "(eval (quote @))",
	"[@ 1]", "(cond true @ nil)", "(newScope @)", "(def zz @)", "(defmac zm [] ^@) (zm)", "{@}", "{w1 = @ ; w1}",
	"((fn [] @))", "(zq @)", "((fn [] 1 @))", "(letseq [z1 1 z2 @] z2)", "(and true @)", "{(do1 @)}", "(list @)", "(begin 1 @ 2)",
	"(apply do1 [@])", "(hash k:@)",
}

func c06after(env *Zlisp, r *irun, val Sexp, err error) string {
	var b strings.Builder
	if err != nil {
		b.WriteString("error\n")
		env.Clear()
	} else {
		b.WriteString("value " + sdesc(val) + "\n")
	}
	b.WriteString("effects " + strings.Join(r.log, " | ") + "\n")
	for _, v := range c06vars {
		x, err, _ := r.eval(v, 10000)
		if err != nil {
			fmt.Fprintf(&b, "%s: error\n", v)
			env.Clear()
			continue
		}
		b.WriteString(v + " " + sdesc(x) + "\n")
	}
	return b.String()
}

// evalCase compares the block with its prefix form.
func evalCase(g *G, b iblock, ctx string) Res {
	wrap := ctx == "WRAP" // as the REPL reads its input
	if wrap {
		ctx = "@"
	}
	ta, tb := strings.Replace(ctx, "@", b.text, 1), strings.Replace(ctx, "@", b.pre, 1)
	if wrap {
		ta = b.text[1 : len(b.text)-1]
	}
	ea, ra := c06in()
	eb, rb := c06in()
	defer ea.Close()
	defer eb.Close()
	for _, e := range []*Zlisp{ea, eb} {
		if _, err := e.EvalString("(defn do1 [x] x) (defn zq [#x] (force x))"); err != nil {
			panic("harness: " + err.Error())
		}
	}
	ea.WrapLoadExpressionsInInfix = wrap
	va, erra, overa := ra.eval(ta, 20000)
	ea.WrapLoadExpressionsInInfix = false
	if overa {
		return Res{Skip: true}
	}
	da := ""
	da = c06after(ea, ra, va, erra)
	vb, errb, overb := rb.eval(tb, 20000)
	if overb {
		return Res{Fail: fmt.Sprintf("%s\nends, its prefix form\n%s\ndoes not", ta, tb), Sig: "block ends, prefix form does not"}
	}
	db := c06after(eb, rb, vb, errb)
	if da != db {
		return Res{Fail: fmt.Sprintf("%s\ndoes not do what its prefix form\n%s\ndoes: %s\nerrors: %v, %v", ta, tb, firstDiff(da, db), erra, errb), Sig: "block and prefix form differ"}
	}
	return Res{NonTrivial: erra == nil, Sample: ta}
}

// sliceCase reads, and writes, elements and slices of a row of numbers,
// against a Go slice.
func sliceCase(g *G) Res {
	n := g.Intn(7)
	xs := make([]int64, n)
	var txt []string
	for i := range xs {
		xs[i] = int64(10 + i)
		txt = append(txt, strconv.Itoa(10+i))
	}
	env, r := c06in()
	defer env.Close()
	pos := []string{"0", "1", "2", "3", "4", "5", "6", "7"}
	vals := map[string]int{}
	for i, p := range pos {
		vals[p] = i
	}
	prog := "{ z = [" + strings.Join(txt, " ") + "]; hz = (hash r:z); nz = [z [1]]; i0 = 0; i1 = 1; i2 = 2; i3 = 3 }"
	if _, err, _ := r.eval(prog, 1000); err != nil {
		return Res{Fail: prog + ": " + err.Error(), Sig: "setup"}
	}
	bound := func() ([]itok, int) {
		switch g.Weighted(4, 2, 1, 1, 1) {
		case 1:
			k := g.Intn(4)
			return toks(oT(fmt.Sprintf("i%d", k))), k
		case 2:
			a, b := g.Intn(4), g.Intn(4)
			return toks(oT(strconv.Itoa(a)), bT("+"), oT(fmt.Sprintf("i%d", b))), a + b
		case 3:
			a, b := g.Intn(4), g.Intn(2)
			return toks(oT(fmt.Sprintf("i%d", a)), bT("*"), oT("2"), bT("-"), oT(strconv.Itoa(b))), 2*a - b
		case 4:
			k := g.Intn(3)
			return toks(call("f", oT(strconv.Itoa(k)))), k + 1
		}
		k := g.Intn(8)
		return toks(oT(strconv.Itoa(k))), k
	}
	base := []([]itok){toks(oT("z")), toks(oT("hz.r")), toks(oT("nz"), aT(oT("0"))), toks(oT("{z}")), toks(oT("hz"), dT(".r"))}[g.Weighted(4, 2, 2, 1, 1)]
	mode := g.Intn(3)
	if g.Chance(1, 3) { // an element
		ts, k := bound()
		text := "{ " + layIt(g, append(append([]itok{}, base...), aT(ts...)), mode) + " + 0 }"
		v, err, _ := r.eval(text, 1000)
		ok := k >= 0 && k < n
		got, isInt := v.(*SexpInt)
		if (err == nil) != ok || ok && (!isInt || got.Val != xs[k]) {
			return Res{Fail: fmt.Sprintf("%s\n%s is %v (%v), index %d of %d", prog, text, v, err, k, n), Sig: "index"}
		}
		if ok && base[0].src != "{z}" {
			set := "{ " + layIt(g, append(append([]itok{}, base...), aT(ts...), bT("="), oT("99")), mode) + " }"
			_, err, _ := r.eval(set, 1000)
			v, err2, _ := r.eval("z", 1000)
			xs[k] = 99
			if want := fmt.Sprint(xs); err != nil || err2 != nil || v.SexpString(nil) != want {
				return Res{Fail: fmt.Sprintf("%s\nafter %s z is %v (%v), not %s", prog, set, v.SexpString(nil), err, want), Sig: "index set"}
			}
		}
		return Res{NonTrivial: ok, Key: prog + text, Sample: text}
	}
	lo, hi := 0, n
	var in []itok
	if g.Chance(3, 4) {
		ts, k := bound()
		in, lo = append(in, ts...), k
	}
	in = append(in, cT())
	if g.Chance(3, 4) {
		ts, k := bound()
		in, hi = append(in, ts...), k
	}
	text := "{ w = " + layIt(g, append(append([]itok{}, base...), aT(in...)), mode) + "; w }"
	v, err, _ := r.eval(text, 1000)
	ok := 0 <= lo && lo <= hi && hi <= n
	if (err == nil) != ok {
		return Res{Fail: fmt.Sprintf("%s\n%s is %v (%v), for %d:%d of %d", prog, text, v, err, lo, hi, n), Sig: "slice"}
	}
	if ok {
		if a, isArr := v.(*SexpArray); !isArr || a.SexpString(nil) != fmt.Sprint(xs[lo:hi]) {
			return Res{Fail: fmt.Sprintf("%s\n%s is %v, not %v", prog, text, v.SexpString(nil), xs[lo:hi]), Sig: "slice"}
		}
	}
	return Res{NonTrivial: ok, Key: prog + text, Sample: text}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := ""
			if i < len(y) {
				w = y[i]
			}
			return fmt.Sprintf("%q against %q", x[i], w)
		}
	}
	return ""
}

func init() {
	nb := len(c06bin)
	// all operator sequences of one length, with the operands decorated
	seq := func(ops int, decors func(at int, h uint64) int, reps int) func(g *G) Res {
		return func(g *G) Res {
			var res Res
			n := int(g.I)
			for rep := 0; rep < reps; rep++ {
				k := n
				h := mix64(uint64(n)*977 + uint64(rep))
				ts := decor(g, decors(0, h), 0)
				for i := 0; i < ops; i++ {
					h = mix64(h)
					b := bT(c06bin[k%nb])
					k /= nb
					if h>>60&1 == 1 {
						switch b.op {
						case "and":
							b.src = "&&"
						case "or":
							b.src = "||"
						}
					}
					ts = append(ts, b)
					ts = append(ts, decor(g, decors(i+1, mix64(h)), i+1)...)
				}
				want := "(quote " + parseIt(ts).tree + ")"
				for mode := 0; mode < 2; mode++ {
					text := "{" + layIt(g, ts, mode) + "}"
					if f := treeFail(text, want); f.Fail != "" {
						return f
					}
					res.Evals++
					res.Sample = text
				}
			}
			res.NonTrivial = true
			return res
		}
	}
	pow := func(n int) int {
		r := 1
		for ; n > 0; n-- {
			r *= nb
		}
		return r
	}
	plain := func(at int, h uint64) int { return 0 }
	anyD := func(at int, h uint64) int { return int(h>>20) % c06decors }
	tree := func(name string, quick, thorough, depth, stms int) Part {
		return Part{Name: name, Quick: quick, Thorough: thorough, Run: func(g *G) Res {
			mode := g.Intn(3)
			var ss []istm
			n := g.Range(1, stms)
			for i := 0; i < n; i++ {
				ss = append(ss, wildStm(g, depth, mode))
			}
			b := mkBlock(g, ss, mode)
			res := treeFail(b.text, b.tree)
			res.NonTrivial = strings.Count(b.tree, "(") > 3
			res.Key, res.Sample = b.text, b.text
			return res
		}}
	}
	prog := func(name string, quick, thorough, depth, stms, bad int) Part {
		return Part{Name: name, Quick: quick, Thorough: thorough, Run: func(g *G) Res {
			c := &c6g{g: g, mode: g.Intn(3), ints: []string{"a", "b", "c", "d", "i", "j"}, bad: bad}
			ctx := c06ctx[0]
			if g.Chance(1, 2) {
				ctx = c06ctx[g.Intn(len(c06ctx))]
			}
			var ss []istm
			for n := g.Range(1, stms); n > 0; n-- {
				ss = append(ss, c.stm(depth))
			}
			ss = append(ss, exprStm(g, [][]itok{c.iexp(depth), c.bexp(depth)}[g.Intn(2)], c.mode))
			if k := len(ss); g.Chance(1, 5) {
				ss = ss[:k-1]
			}
			b := mkBlock(g, ss, c.mode)
			if b.hasTree {
				if f := treeFail(b.text, b.tree); f.Fail != "" {
					return f
				}
			}
			res := evalCase(g, b, ctx)
			res.NonTrivial = res.NonTrivial && c.ops >= 2
			if c.ctl > 0 {
				g.Label("if or for")
			}
			if res.NonTrivial {
				g.Label("no error")
			}
			res.Key = ctx + b.text
			return res
		}}
	}
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule: "trees: at least 3 applications; programs: at least 2 operators, evaluated without an error",
		Assumptions: []string{
			"a line that begins with an operator, [ or .field carries on the statement before it, as the parser does not see ends of lines",
			"a minus after white space and directly before a digit begins a literal (6 -1 is two statements), as the test scripts say",
			"what a block with a missing operand means is not stated",
		},
		Parts: []Part{
			{Name: "one", Enum: func(string) int { return nb * c06decors * c06decors }, Run: func(g *G) Res {
				n := int(g.I)
				d0, d1, op := n%c06decors, n/c06decors%c06decors, n/c06decors/c06decors
				g2 := *g
				g2.I = op
				return seq(1, func(at int, h uint64) int { return []int{d0, d1}[at] }, 1)(&g2)
			}},
			{Name: "two", Enum: func(string) int { return pow(2) }, Run: seq(2, anyD, 40)},
			{Name: "three plain", Enum: func(string) int { return pow(3) }, Run: seq(3, plain, 1)},
			{Name: "three", Enum: func(string) int { return pow(3) }, Run: seq(3, anyD, 5)},
			{Name: "four", Enum: func(tier string) int {
				if tier == "thorough" {
					return pow(4)
				}
				return pow(4) / 8
			}, Run: func(g *G) Res {
				g2 := *g
				if g.Tier != "thorough" {
					g2.I = int(mix64(uint64(g.I)) % uint64(pow(4)))
				}
				return seq(4, anyD, 1)(&g2)
			}},
			tree("trees", 60000, 1500000, 2, 3),
			tree("deep trees", 8000, 300000, 4, 4),
			{Name: "indexes and slices", Quick: 8000, Thorough: 200000, Run: sliceCase},
			prog("short programs", 20000, 400000, 1, 2, 5),
			prog("programs", 15000, 400000, 3, 4, 0),
			prog("programs with mistakes", 8000, 200000, 3, 4, 30),
		},
	})
}
