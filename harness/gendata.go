package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// Generators of data values, shared by several properties.

type dOpt struct {
	env                                     *Zlisp
	sym, char, list, dotted, hash, uint, nl bool
	special                                 bool // NaN and infinities
	badUTF8                                 bool
	strKeys                                 bool
	arrUniform                              bool // array elements of one kind
}

var dRunes = []rune{'a', 'b', 'Z', '0', ' ', '"', '\\', '\'', '`', '\n', '\t', '\r', 0, 7, 8, 11, 12, 27, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xe9, 0x2028, 0x2029,
	0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff, 0xd7ff, 0xe000, 0x5d0, 0x4e2d, '#', '%', '^', '~', '@', ';', ':', '/', '*', '(', ')', '[', ']', '{', '}', ',', '.', '&', '$', '<', '>', '=', '+', '-', '_', '?', '!', '|'}

func genRune(g *G) rune {
	switch g.Weighted(3, 5, 1) {
	case 0:
		return rune('a' + g.Intn(26))
	case 1:
		return dRunes[g.Intn(len(dRunes))]
	}
	for {
		r := rune(g.Intn(0x110000))
		if r < 0xd800 || r > 0xdfff {
			return r
		}
		return 'S'
	}
}

var dStrings = []string{"", "a", "abc", "//", "/* x", "*/", `\`, `\\`, `"`, "a\"b\\c", "\n", "{}", "(", "]", "`", "nil", "true", "1", "a b", "é", "日本", "\x00", "%d", "\\u0041", "\\n", "'", "😀"}

func genStr(g *G, badUTF8 bool) string {
	if g.Chance(1, 3) {
		return dStrings[g.Intn(len(dStrings))]
	}
	n := g.Intn(6)
	if g.Chance(1, 12) {
		n = g.Intn(60)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if badUTF8 && g.Chance(1, 12) {
			b.WriteByte(byte(128 + g.Intn(128)))
			continue
		}
		b.WriteRune(genRune(g))
	}
	return b.String()
}

func genInt(g *G) int64 {
	switch g.Weighted(4, 3, 2) {
	case 0:
		return int64(g.Intn(20)) - 5
	case 1:
		return c07Ints[g.Intn(len(c07Ints))]
	}
	return int64(g.Draw(0)) >> uint(g.Intn(64))
}

func genFloat(g *G, special bool) float64 {
	for {
		var f float64
		switch g.Weighted(3, 4, 2, 2, 1) {
		case 0:
			f = float64(g.Intn(40)-20) / 4
		case 1:
			f = c07Floats[g.Intn(len(c07Floats))]
		case 2:
			f = math.Float64frombits(g.Draw(0))
		case 3:
			f = math.Pow(10, float64(g.Intn(60)-30)) * float64(1+g.Intn(9))
		case 4:
			f = float64(int64(g.Draw(0)) >> uint(g.Intn(64)))
		}
		if special || !(math.IsNaN(f) || math.IsInf(f, 0)) {
			return f
		}
		if g.fixed {
			return 0.5
		}
	}
}

var dSymNames = []string{"a", "b", "x", "foo", "a1", "a_b", "Zed", "y?", "$s", "?q", "#h", "a.b", ".c", ".a.b", "a.b.c", "é", "日", "+", "*", "==", "<=", "<", ">", "!=", "not", "**", "++", "dULL", "e5", "E", "_", "x2e5", "i", "Infx", "trueish", "nilly", "NaNs", "ax", "and", "mod", "quote", ":=", "->", "lambda", "=", "+=", "truex", "O", "b01"}

var plainSym = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

func genSymName(g *G) string {
	if g.Chance(2, 3) {
		return dSymNames[g.Intn(len(dSymNames))]
	}
	n := 1 + g.Intn(6)
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$?"
	const rest = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789?"
	b := []byte{first[g.Intn(len(first))]}
	for i := 1; i < n; i++ {
		b = append(b, rest[g.Intn(len(rest))])
	}
	if s := string(b); s != "?" && s != "$" && s != "_" && !(s[0] == '?' && len(s) > 1 && (s[1] == '?' || s[1] >= '0' && s[1] <= '9')) {
		return s
	}
	return "q"
}

func genScalar(g *G, o *dOpt) Sexp {
	w := []int{4, 4, 2, 2, 4, 0, 0, 0}
	if o.sym {
		w[5] = 4
	}
	if o.char {
		w[6] = 3
	}
	if o.uint {
		w[7] = 2
	}
	switch g.Weighted(w...) {
	case 0:
		return &SexpInt{Val: genInt(g)}
	case 1:
		return &SexpFloat{Val: genFloat(g, o.special)}
	case 2:
		return &SexpBool{Val: g.Chance(1, 2)}
	case 3:
		return SexpNull
	case 4:
		return &SexpStr{S: genStr(g, o.badUTF8)}
	case 5:
		for i := 0; i < 20; i++ {
			n := genSymName(g)
			switch strings.TrimSuffix(n, ":") {
			case "nil", "true", "false", "NaN", "nan", "Inf", "inf", "+Inf", "-Inf", "-inf", "+inf":
				continue
			}
			return o.env.MakeSymbol(n)
		}
		return o.env.MakeSymbol("a")
	case 6:
		return &SexpChar{Val: genRune(g)}
	}
	return &SexpUint64{Val: c07Uints[g.Intn(len(c07Uints))]}
}

func genKey(g *G, o *dOpt) Sexp {
	if o.strKeys && g.Chance(1, 2) {
		return &SexpStr{S: genStr(g, false)}
	}
	for i := 0; i < 10; i++ {
		n := genSymName(g)
		if plainSym.MatchString(n) && n != "nil" && n != "true" && n != "false" {
			return o.env.MakeSymbol(n)
		}
	}
	return o.env.MakeSymbol("k")
}

func genData(g *G, o *dOpt, depth int) Sexp {
	if depth <= 0 || g.Chance(1, 3) {
		return genScalar(g, o)
	}
	w := []int{3, 0, 0, 0}
	if o.list {
		w[1] = 3
	}
	if o.dotted {
		w[2] = 1
	}
	if o.hash {
		w[3] = 3
	}
	switch g.Weighted(w...) {
	case 1:
		n := g.Intn(5)
		var l Sexp = SexpNull
		for i := 0; i < n; i++ {
			l = Cons(genData(g, o, depth-1), l)
		}
		return l
	case 2:
		return Cons(genData(g, o, depth-1), genScalar(g, o))
	case 3:
		return genHash(g, o, depth)
	}
	n := g.Intn(5)
	var xs []Sexp
	for i := 0; i < n; i++ {
		xs = append(xs, genData(g, o, depth-1))
	}
	return o.env.NewSexpArray(xs)
}

func genHash(g *G, o *dOpt, depth int) *SexpHash {
	h, err := MakeHash(nil, "hash", o.env)
	if err != nil {
		panic("harness: MakeHash: " + err.Error())
	}
	n := g.Intn(5)
	for i := 0; i < n; i++ {
		k := genKey(g, o)
		if err := h.HashSet(k, genData(g, o, depth-1)); err != nil {
			panic("harness: HashSet: " + err.Error())
		}
	}
	return h
}

// size counts the nodes of a value.
func dSize(x Sexp) int {
	switch v := x.(type) {
	case *SexpPair:
		return 1 + dSize(v.Head) + dSize(v.Tail)
	case *SexpArray:
		n := 1
		for _, e := range v.Val {
			n += dSize(e)
		}
		return n
	case *SexpHash:
		n := 1
		for _, k := range v.KeyOrder {
			e, err := v.HashGet(nil, k)
			if err == nil {
				n += 1 + dSize(e)
			}
		}
		return n
	}
	return 1
}

// describe is a printer independent of the library's.
func describe(x Sexp) string {
	switch v := x.(type) {
	case nil:
		return "<Go nil>"
	case *SexpInt:
		return strconv.FormatInt(v.Val, 10)
	case *SexpUint64:
		return strconv.FormatUint(v.Val, 10) + "ULL"
	case *SexpFloat:
		return "float:" + strconv.FormatFloat(v.Val, 'g', -1, 64)
	case *SexpBool:
		return fmt.Sprint(v.Val)
	case *SexpChar:
		return fmt.Sprintf("char:%d", v.Val)
	case *SexpStr:
		return strconv.QuoteToASCII(v.S)
	case *SexpSymbol:
		return "'" + v.Name()
	case *SexpSentinel:
		if v == SexpNull {
			return "nil"
		}
		return show(v)
	case *SexpPair:
		var b strings.Builder
		b.WriteString("(")
		var y Sexp = v
		for {
			p, ok := y.(*SexpPair)
			if !ok {
				break
			}
			if b.Len() > 1 {
				b.WriteString(" ")
			}
			b.WriteString(describe(p.Head))
			y = p.Tail
		}
		if y != SexpNull {
			b.WriteString(" \\ " + describe(y))
		}
		return b.String() + ")"
	case *SexpArray:
		var p []string
		for _, e := range v.Val {
			p = append(p, describe(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *SexpHash:
		var p []string
		for _, k := range v.KeyOrder {
			e, err := v.HashGet(nil, k)
			if err != nil {
				p = append(p, describe(k)+"=>ERR")
				continue
			}
			p = append(p, describe(k)+"=>"+describe(e))
		}
		return v.TypeName + "{" + strings.Join(p, ", ") + "}"
	}
	return show(x)
}
