package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

var c12env *Zlisp
var c12uses int

func c12Env() *Zlisp {
	if c12env == nil || c12uses > 400 {
		c12env, c12uses = newIn(), 0
	}
	c12uses++
	return c12env
}

func c12Opt(env *Zlisp) *dOpt {
	return &dOpt{env: env, sym: true, char: true, list: true, dotted: true, uint: true, special: true, badUTF8: true}
}

// c12Ambiguous is true for values whose printed form has a meaning of its own:
// (infix [...]) is what braces read as, and the tests pin that a minus sign in
// front of Inf is part of it.
func c12Ambiguous(x Sexp) bool {
	isMinus := func(y Sexp) bool {
		s, ok := y.(*SexpSymbol)
		return ok && s.Name() == "-"
	}
	isInf := func(y Sexp) bool {
		f, ok := y.(*SexpFloat)
		return ok && math.IsInf(f.Val, 0)
	}
	switch v := x.(type) {
	case *SexpPair:
		var y Sexp = v
		for {
			p, ok := y.(*SexpPair)
			if !ok {
				return c12Ambiguous(y)
			}
			if c12Ambiguous(p.Head) {
				return true
			}
			if isMinus(p.Head) {
				if q, ok := p.Tail.(*SexpPair); ok && isInf(q.Head) {
					return true
				}
			}
			y = p.Tail
		}
	case *SexpArray:
		for i, e := range v.Val {
			if c12Ambiguous(e) || i > 0 && isMinus(v.Val[i-1]) && isInf(e) {
				return true
			}
		}
	}
	return false
}

func c12Read(env *Zlisp, text string) (x Sexp, err error) {
	env.AddGlobal("txt", &SexpStr{S: text})
	return env.EvalString("(read txt)")
}

// readAll parses a text with the interpreter's own parser.
func c12ReadAll(env *Zlisp, text string) ([]Sexp, error) {
	p := env.NewParser()
	p.ResetAddNewInput(strings.NewReader(text))
	return p.ParseTokens()
}

func c12Data(g *G) Res {
	env := c12Env()
	o := c12Opt(env)
	v := genData(g, o, g.Intn(5))
	env.Pretty = g.Chance(1, 5)
	defer func() { env.Pretty = false }()
	return c12CheckData(env, v, g)
}

func c12CheckData(env *Zlisp, v Sexp, g *G) Res {
	if c12Ambiguous(v) {
		return Res{Skip: true}
	}
	text := show(v)
	res := Res{Key: text, Sample: text, NonTrivial: dSize(v) > 1 || len(text) > 2}
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = fmt.Sprintf(f, a...), sig
		return res
	}
	x, err := c12Read(env, text)
	res.Evals++
	if err != nil {
		env.Clear()
		return bad("read error "+c12Kind(v), "%s prints as %q, which reads as error %v", describe(v), text, err)
	}
	if d := deepDiff(v, x, 0); d != "" {
		return bad("read differs "+c12Kind(v), "%s prints as %q, which reads as %s: %s", describe(v), text, describe(x), d)
	}
	if show(x) != text {
		return bad("second print differs", "%q read and printed again is %q", text, show(x))
	}
	// the same text among others
	pre, post := pickS(g, "", " ", "\n", "7 ", "[", "(", "\"s\" "), pickS(g, "", " ", "\n", " 8", "]", ")", " \"s\"", "\n// c\n")
	if strings.HasPrefix(pre, "[") != strings.HasPrefix(post, "]") || strings.HasPrefix(pre, "(") != strings.HasPrefix(post, ")") {
		pre, post = "[", "]"
	}
	xs, err := c12ReadAll(env, pre+text+post)
	res.Evals++
	if err != nil {
		return bad("read error in context", "%q: %v", pre+text+post, err)
	}
	want := []Sexp{v}
	switch pre {
	case "[":
		want = []Sexp{env.NewSexpArray(want)}
	case "(":
		want = []Sexp{Cons(v, SexpNull)}
	case "7 ":
		want = []Sexp{&SexpInt{Val: 7}, v}
	case "\"s\" ":
		want = []Sexp{&SexpStr{S: "s"}, v}
	}
	switch post {
	case " 8":
		want = append(want, &SexpInt{Val: 8})
	case " \"s\"":
		want = append(want, &SexpStr{S: "s"})
	}
	if d := deepDiff(env.NewSexpArray(want), env.NewSexpArray(noComments(xs)), 0); d != "" {
		return bad("read differs in context", "%q reads as %s: %s", pre+text+post, describe(env.NewSexpArray(xs)), d)
	}
	// quoted in a program
	q := "(quote " + text + ")"
	y, err := env.EvalString(q)
	res.Evals++
	if err != nil {
		env.Clear()
		return bad("quote error", "%s: %v", q, err)
	}
	if d := deepDiff(v, y, 0); d != "" {
		return bad("quote differs", "%s gave %s: %s", q, describe(y), d)
	}
	return res
}

func noComments(xs []Sexp) []Sexp {
	var out []Sexp
	for _, x := range xs {
		switch x.(type) {
		case *SexpComment, *SexpSemicolon, *SexpComma:
			continue
		}
		out = append(out, x)
	}
	return out
}

func c12Kind(v Sexp) string {
	switch v.(type) {
	case *SexpPair:
		return "list"
	case *SexpArray:
		return "array"
	case *SexpHash:
		return "hash"
	case *SexpInt, *SexpFloat, *SexpUint64:
		return "number"
	case *SexpStr:
		return "string"
	case *SexpChar:
		return "char"
	case *SexpSymbol:
		return "symbol"
	}
	return "other"
}

// every code point, alone, as a char, in a string and (where it can be) in a symbol
func c12Runes(g *G) Res {
	env := c12Env()
	const per = 0x110000 / 2176 // 512
	lo := g.I * 512
	res := Res{Key: fmt.Sprint("runes ", lo), NonTrivial: true, Sample: fmt.Sprintf("runes %#x..%#x as chars and strings", lo, lo+511)}
	var arr []Sexp
	for r := rune(lo); r < rune(lo+512) && r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		arr = append(arr, &SexpChar{Val: r}, &SexpStr{S: string(r)}, &SexpStr{S: "a" + string(r) + "b"})
		res.Evals++
	}
	if len(arr) == 0 {
		return Res{Skip: true}
	}
	all := env.NewSexpArray(arr)
	x, err := c12Read(env, show(all))
	if err != nil {
		env.Clear()
	} else if deepDiff(all, x, 0) == "" {
		// raw, too: as written by hand
		var b strings.Builder
		b.WriteString("[")
		for r := rune(lo); r < rune(lo+512) && r <= 0x10ffff; r++ {
			if r >= 0xd800 && r <= 0xdfff {
				continue
			}
			s := string(r)
			if r == '\'' || r == '\\' || r == '"' {
				s = "\\" + s
			}
			fmt.Fprintf(&b, "'%s' \"%s\" \"a%sb\" ", s, s, s)
		}
		b.WriteString("]")
		x, err := c12Read(env, b.String())
		if err != nil {
			env.Clear()
		} else if deepDiff(all, x, 0) == "" {
			return res
		}
	}
	// find which
	for r := rune(lo); r < rune(lo+512) && r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		esc := string(r)
		if r == '\'' || r == '\\' || r == '"' {
			esc = "\\" + esc
		}
		for _, c := range []struct {
			t string
			v Sexp
		}{
			{show(&SexpChar{Val: r}), &SexpChar{Val: r}}, {show(&SexpStr{S: string(r)}), &SexpStr{S: string(r)}},
			{show(&SexpStr{S: "a" + string(r) + "b"}), &SexpStr{S: "a" + string(r) + "b"}},
			{"'" + esc + "'", &SexpChar{Val: r}}, {`"` + esc + `"`, &SexpStr{S: string(r)}}, {`"a` + esc + `b"`, &SexpStr{S: "a" + string(r) + "b"}},
		} {
			x, err := c12Read(env, c.t)
			if err != nil {
				env.Clear()
				res.Fail, res.Sig = fmt.Sprintf("%q (rune %#x): %v", c.t, r, err), "rune"
				return res
			}
			if d := deepDiff(c.v, x, 0); d != "" {
				res.Fail, res.Sig = fmt.Sprintf("%q (rune %#x) reads as %s", c.t, r, describe(x)), "rune"
				return res
			}
		}
	}
	res.Fail, res.Sig = fmt.Sprintf("runes %#x.. differ only together", lo), "rune"
	return res
}

// ---- numerals

type numeral struct {
	text string
	kind string // int, uint, float
	val  *big.Rat
	neg0 bool
	inf  int
}

func digitsU(g *G, set string, n int, under bool) (text, plain string) {
	var t, p strings.Builder
	for i := 0; i < n; i++ {
		c := set[g.Intn(len(set))]
		t.WriteByte(c)
		p.WriteByte(c)
		for under && g.Chance(1, 6) {
			t.WriteByte('_')
		}
	}
	return t.String(), p.String()
}

func ratPow10(e int64) *big.Rat {
	a := e
	if a < 0 {
		a = -a
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(a), nil)
	if e < 0 {
		return new(big.Rat).SetFrac(big.NewInt(1), p)
	}
	return new(big.Rat).SetInt(p)
}

func genNumeral(g *G) numeral {
	count := func() int {
		if g.Chance(1, 5) {
			return 1 + g.Intn(25)
		}
		return 1 + g.Intn(6)
	}
	ratInt := func(s string, base int) *big.Rat {
		z, ok := new(big.Int).SetString(s, base)
		if !ok {
			panic("harness: digits " + s)
		}
		return new(big.Rat).SetInt(z)
	}
	sign := func(n *numeral) {
		if g.Chance(1, 3) {
			n.text = "-" + n.text
			n.val.Neg(n.val)
			n.neg0 = true
		}
	}
	switch g.Weighted(4, 2, 1, 1, 2, 4, 4, 1, 2) {
	case 0: // decimal
		t, p := digitsU(g, "0123456789", count(), true)
		n := numeral{text: t, kind: "int", val: ratInt(p, 10)}
		sign(&n)
		return n
	case 1:
		t, p := digitsU(g, "0123456789abcdefABCDEF", g.Range(1, 17), false)
		return numeral{text: "0x" + t, kind: "int", val: ratInt(p, 16)}
	case 2:
		t, p := digitsU(g, "01234567", g.Range(1, 23), false)
		return numeral{text: "0o" + t, kind: "int", val: ratInt(p, 8)}
	case 3:
		t, p := digitsU(g, "01", g.Range(1, 65), false)
		return numeral{text: "0b" + t, kind: "int", val: ratInt(p, 2)}
	case 4: // uint64
		switch g.Intn(3) {
		case 0:
			t, p := digitsU(g, "0123456789", g.Range(1, 21), false)
			return numeral{text: t + "ULL", kind: "uint", val: ratInt(p, 10)}
		case 1:
			t, p := digitsU(g, "0123456789abcdefABCDEF", g.Range(1, 17), false)
			return numeral{text: "0x" + t + "ULL", kind: "uint", val: ratInt(p, 16)}
		}
		t, p := digitsU(g, "01234567", g.Range(1, 23), false)
		return numeral{text: "0o" + t + "ULL", kind: "uint", val: ratInt(p, 8)}
	case 5: // fraction
		var ti, pi, tf, pf string
		form := g.Intn(4)
		if form != 3 {
			ti, pi = digitsU(g, "0123456789", count(), true)
		}
		if form != 2 {
			tf, pf = digitsU(g, "0123456789", count(), true)
		}
		n := numeral{text: ti + "." + tf, kind: "float"}
		n.val = ratInt("0"+pi+pf, 10)
		n.val.Mul(n.val, ratPow10(-int64(len(pf))))
		sign(&n)
		return n
	case 6: // exponent
		ti, pi := digitsU(g, "0123456789", count(), true)
		var tf, pf, dot string
		if g.Chance(1, 2) {
			dot = "."
			if g.Chance(3, 4) {
				tf, pf = digitsU(g, "0123456789", count(), true)
			}
		}
		e := int64(g.Intn(10))
		if g.Chance(1, 3) {
			e = int64(g.Intn(340))
		}
		es := pickS(g, "", "+", "-")
		et := strconv.FormatInt(e, 10)
		if g.Chance(1, 8) && len(et) > 1 {
			et = et[:1] + "_" + et[1:]
		}
		if es == "-" {
			e = -e
		}
		n := numeral{text: ti + dot + tf + pickS(g, "e", "E") + es + et, kind: "float"}
		n.val = ratInt("0"+pi+pf, 10)
		n.val.Mul(n.val, ratPow10(e-int64(len(pf))))
		sign(&n)
		return n
	case 7:
		k := g.Intn(4)
		return numeral{text: []string{"Inf", "+Inf", "-Inf", "inf"}[k], kind: "float", inf: []int{1, 1, -1, 1}[k]}
	}
	// near the limits
	base := new(big.Int)
	kind := pickS(g, "int", "uint", "float")
	switch kind {
	case "int":
		base.Lsh(big.NewInt(1), 63)
	case "uint":
		base.Lsh(big.NewInt(1), 64)
	default:
		base.Lsh(big.NewInt(1), uint(53+g.Intn(20)))
	}
	base.Add(base, big.NewInt(int64(g.Intn(5))-2))
	n := numeral{kind: kind, val: new(big.Rat).SetInt(base)}
	switch kind {
	case "int":
		switch g.Intn(4) {
		case 0:
			n.text = base.String()
			sign(&n)
		case 1:
			n.text = "0x" + base.Text(16)
		case 2:
			n.text = "0o" + base.Text(8)
		case 3:
			n.text = "0b" + base.Text(2)
		}
	case "uint":
		n.text = pickS(g, base.String(), "0x"+base.Text(16), "0o"+base.Text(8)) + "ULL"
	default:
		n.text = base.String() + pickS(g, ".", ".0", "e0", ".5")
		if strings.HasSuffix(n.text, ".5") {
			n.val.Add(n.val, big.NewRat(1, 2))
		}
		sign(&n)
	}
	return n
}

// expect gives the value a numeral denotes, or nil when it has none.
func (n numeral) expect() Sexp {
	if n.inf != 0 {
		return &SexpFloat{Val: math.Inf(n.inf)}
	}
	switch n.kind {
	case "int":
		if z := n.val.Num(); z.IsInt64() {
			return &SexpInt{Val: z.Int64()}
		}
	case "uint":
		if z := n.val.Num(); z.IsUint64() {
			return &SexpUint64{Val: z.Uint64()}
		}
	default:
		f, _ := n.val.Float64()
		if !math.IsInf(f, 0) {
			return &SexpFloat{Val: f}
		}
	}
	return nil
}

func c12Numerals(g *G) Res {
	env := c12Env()
	n := genNumeral(g)
	ctx := pickS(g, "%", " % ", "\n%\n", "[%]", "(quote (%))", "[1 % 2]", "{%}", "[[%] [%]]", "{x = %}", "(begin %)", "%//c", "% // c\n", "(+ 0 %)", "(quote (a \\ %))", "(quote (% a))", "{[%]}", "(quote (- %))", "(quote (x %))", "(quote [% %])")
	src := strings.ReplaceAll(ctx, "%", n.text)
	res := Res{Key: src, Sample: src, NonTrivial: true}
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = fmt.Sprintf(f, a...), sig
		return res
	}
	if n.inf != 0 && strings.Contains(ctx, "- %") {
		return Res{Skip: true}
	}
	want := n.expect()
	if strings.HasPrefix(ctx, "{x") {
		src = "(newScope " + src + ")"
	}
	x, err := env.EvalString(src)
	if err != nil {
		env.Clear()
		if want == nil {
			g.Label("out of range")
			return res
		}
		return bad("numeral error "+n.kind, "%s: %v (should denote %s)", src, clip(err.Error(), 300), describe(want))
	}
	if want == nil {
		return bad("numeral out of range "+n.kind, "%s gave %s, but the literal is out of range", src, describe(x))
	}
	zero := Sexp(&SexpSymbol{})
	_ = zero
	num := func(y Sexp) string {
		if d := deepDiff(want, y, 0); d != "" {
			return "the literal should be " + describe(want) + ", is " + describe(y)
		}
		return ""
	}
	var got []Sexp
	switch y := x.(type) {
	case *SexpArray:
		for _, e := range y.Val {
			if a, ok := e.(*SexpArray); ok {
				got = append(got, a.Val...)
			} else {
				got = append(got, e)
			}
		}
	case *SexpPair:
		var z Sexp = y
		for {
			p, ok := z.(*SexpPair)
			if !ok {
				if z != SexpNull {
					got = append(got, z)
				}
				break
			}
			got = append(got, p.Head)
			z = p.Tail
		}
	default:
		got = []Sexp{x}
	}
	if strings.HasPrefix(ctx, "(+ 0") {
		// through arithmetic: 0 + literal
		if n.kind == "uint" {
			return res // mixed signs are C07's business
		}
		if f, ok := want.(*SexpFloat); ok && f.Val == 0 {
			return res
		}
	}
	wantN := strings.Count(ctx, "%")
	var rest []Sexp
	for _, e := range got {
		if _, isSym := e.(*SexpSymbol); isSym {
			continue
		}
		rest = append(rest, e)
	}
	if strings.HasPrefix(ctx, "[1 % 2]") {
		if len(rest) != 3 || describe(rest[0]) != "1" || describe(rest[2]) != "2" {
			return bad("numeral context", "%s gave %s", src, describe(x))
		}
		rest = rest[1:2]
	}
	if len(rest) != wantN {
		return bad("numeral count", "%s gave %s", src, describe(x))
	}
	for _, e := range rest {
		if d := num(e); d != "" {
			return bad("numeral value "+n.kind, "%s gave %s: %s", src, describe(x), d)
		}
	}
	return res
}

// ---- string and char literals

func c12Literals(g *G) Res {
	env := c12Env()
	var src, want strings.Builder
	kind := g.Intn(3) // string, char, raw
	n := g.Intn(8)
	if kind == 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		r := genRune(g)
		if kind == 2 {
			if r == '`' {
				r = '"'
			}
			src.WriteRune(r)
			want.WriteRune(r)
			continue
		}
		quote := map[int]rune{0: '"', 1: '\''}[kind]
		simple := map[rune]string{'\n': "n", '\r': "r", '\t': "t", '\\': "\\", '"': "\"", '\'': "'", '#': "#", 7: "a", 8: "b", 12: "f", 11: "v"}
		form := g.Intn(4)
		switch {
		case form == 1 && simple[r] != "":
			src.WriteString("\\" + simple[r])
		case form == 2 && r < 0x80:
			fmt.Fprintf(&src, "\\x%02x", r)
		case form == 2 && r < 0x10000:
			fmt.Fprintf(&src, "\\u%04x", r)
		case form == 3:
			fmt.Fprintf(&src, pickS(g, "\\U%08x", "\\U%08X"), r)
		case r == quote || r == '\\':
			src.WriteString("\\" + string(r))
		default:
			src.WriteRune(r)
		}
		want.WriteRune(r)
	}
	var lit string
	var w Sexp
	switch kind {
	case 0:
		lit, w = `"`+src.String()+`"`, &SexpStr{S: want.String()}
	case 1:
		lit, w = "'"+src.String()+"'", &SexpChar{Val: []rune(want.String())[0]}
	case 2:
		lit, w = "`"+src.String()+"`", &SexpStr{S: want.String()}
	}
	ctx := pickS(g, "%", "[%]", "(quote (%))", "{%}", "[1 % 2]", "% // c", "(begin %)", "[% %]", "(quote [a % b])")
	text := strings.ReplaceAll(ctx, "%", lit)
	text = ctx
	text = strings.Join(strings.Split(ctx, "%"), lit)
	res := Res{Key: text, Sample: text, NonTrivial: n > 0}
	x, err := env.EvalString(text)
	if err != nil {
		env.Clear()
		res.Fail, res.Sig = fmt.Sprintf("%q: %v", text, clip(err.Error(), 300)), "literal error"
		return res
	}
	var full Sexp = w
	switch ctx {
	case "[%]":
		full = env.NewSexpArray([]Sexp{w})
	case "(quote (%))":
		full = Cons(w, SexpNull)
	case "[1 % 2]":
		full = env.NewSexpArray([]Sexp{&SexpInt{Val: 1}, w, &SexpInt{Val: 2}})
	case "[% %]":
		full = env.NewSexpArray([]Sexp{w, w})
	case "(quote [a % b])":
		full = env.NewSexpArray([]Sexp{env.MakeSymbol("a"), w, env.MakeSymbol("b")})
	}
	if d := deepDiff(full, x, 0); d != "" {
		res.Fail, res.Sig = fmt.Sprintf("%q gave %s: %s", text, describe(x), d), "literal value"
	}
	return res
}

// ---- JSON-like data as source

func c12Source(g *G) Res {
	env := c12Env()
	o := &dOpt{env: env, hash: true, strKeys: true}
	v := genData(g, o, g.Intn(5))
	env.Pretty = g.Chance(1, 5)
	defer func() { env.Pretty = false }()
	text := show(v)
	res := Res{Key: text, Sample: text, NonTrivial: dSize(v) > 1}
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = fmt.Sprintf(f, a...), sig
		return res
	}
	route := g.Intn(4)
	var x Sexp
	var err error
	name := "EvalString"
	switch route {
	case 0:
		x, err = env.EvalString(text)
	case 1:
		name = "def"
		x, err = env.EvalString("(newScope (def zz " + text + ") zz)")
	case 2:
		name = "save and source"
		dir := os.Getenv("VERIF_SCRATCH")
		p := filepath.Join(dir, "saved.zy")
		os.Remove(p)
		if _, isStr := v.(*SexpStr); isStr { // owritef writes strings as they are
			err = os.WriteFile(p, []byte(text), 0o666)
		} else {
			env.AddGlobal("val", env.NewSexpArray([]Sexp{v}))
			_, err = env.EvalString(fmt.Sprintf("(owritef val %q)", p))
		}
		if err == nil {
			x, err = env.EvalString(fmt.Sprintf("(source %q)", p))
		}
		os.Remove(p)
	case 3:
		name = "eval of read"
		env.AddGlobal("txt", &SexpStr{S: text})
		x, err = env.EvalString("(eval (read txt))")
	}
	res.Evals++
	if err != nil {
		env.Clear()
		return bad("eval error via "+name, "%s prints as %q; %s: %v", describe(v), text, name, clip(err.Error(), 300))
	}
	if d := deepDiff(v, x, 0); d != "" {
		return bad("eval differs via "+name, "%s prints as %q; %s gave %s: %s", describe(v), text, name, describe(x), d)
	}
	// and again, after a change to the first copy: the text must not share data
	return res
}

// symbols: whatever the reader makes of an atom prints as an atom that reads
// as the same symbol.
func c12Symbols(g *G) Res {
	env := c12Env()
	n := 1 + g.Intn(5)
	var b strings.Builder
	const set = "abcxyzABCXYZ0123456789_!?$.<>=+*/-:&|#ELUein"
	for i := 0; i < n; i++ {
		if g.Chance(1, 15) {
			b.WriteRune(genRune(g))
		} else {
			b.WriteByte(set[g.Intn(len(set))])
		}
	}
	atom := b.String()
	res := Res{Key: atom, Sample: atom}
	xs, err := c12ReadAll(env, atom)
	if err != nil || len(xs) != 1 {
		return Res{Skip: true}
	}
	switch xs[0].(type) {
	case *SexpSymbol, *SexpInt, *SexpFloat, *SexpUint64, *SexpBool, *SexpSentinel, *SexpChar:
	default:
		return Res{Skip: true}
	}
	res.NonTrivial = true
	return mergeRes(res, c12CheckData(env, xs[0], g))
}

func mergeRes(a, b Res) Res {
	a.Fail, a.Sig, a.Evals = b.Fail, b.Sig, b.Evals
	a.Skip = b.Skip
	return a
}

func init() {
	register(&Prop{ID: "C12", Level: "exploration",
		Rule:        "the value has more than one node or a printed form longer than two bytes; the literal is a numeral, or a non-empty string or char",
		Assumptions: []string{"lists named infix and a minus sign directly before Inf have a meaning of their own", "hash keys are plain symbols or strings"},
		Parts: []Part{
			{Name: "runes", Enum: func(string) int { return 0x110000 / 512 }, Run: c12Runes},
			{Name: "data", Quick: 40000, Thorough: 2000000, Run: c12Data},
			{Name: "source", Quick: 24000, Thorough: 1200000, Run: c12Source},
			{Name: "numerals", Quick: 40000, Thorough: 2000000, Run: c12Numerals},
			{Name: "literals", Quick: 30000, Thorough: 1500000, Run: c12Literals},
			{Name: "symbols", Quick: 30000, Thorough: 1500000, Run: c12Symbols},
		}})
}
