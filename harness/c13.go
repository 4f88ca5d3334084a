package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// canon writes an expression down without its comments.
func canon(x Sexp) string {
	var b strings.Builder
	canonTo(&b, x)
	return b.String()
}

func canonTo(b *strings.Builder, x Sexp) {
	switch v := x.(type) {
	case nil:
		b.WriteString("<Go nil>")
	case *SexpPair:
		b.WriteString("(")
		var y Sexp = v
		for {
			p, ok := y.(*SexpPair)
			if !ok {
				break
			}
			if _, c := p.Head.(*SexpComment); !c {
				canonTo(b, p.Head)
				b.WriteString(" ")
			}
			y = p.Tail
		}
		if y != SexpNull {
			b.WriteString(". ")
			canonTo(b, y)
		}
		b.WriteString(")")
	case *SexpArray:
		kind := "["
		if v.Infix {
			kind = "infix["
		}
		b.WriteString(kind)
		for _, e := range v.Val {
			if _, c := e.(*SexpComment); c {
				continue
			}
			canonTo(b, e)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case *SexpComma:
		b.WriteString("<comma>")
	case *SexpSemicolon:
		b.WriteString("<semi>")
	default:
		b.WriteString(describe(x))
	}
}

// pReply is what one delivery of text gave.
type pReply struct {
	more bool
	err  bool
	text string // error text
	xs   string
}

func (r pReply) String() string {
	switch {
	case r.more:
		return "more input needed after " + r.xs
	case r.err:
		return "error " + r.text
	}
	return r.xs
}

func (r pReply) same(q pReply) bool {
	if r.more != q.more || r.err != q.err {
		return false
	}
	if r.err || r.more {
		return true
	}
	return r.xs == q.xs
}

func reply(xs []Sexp, err error) pReply {
	var b strings.Builder
	for _, x := range xs {
		if _, c := x.(*SexpComment); c {
			continue
		}
		canonTo(&b, x)
		b.WriteString("\n")
	}
	r := pReply{xs: b.String()}
	if err == ErrMoreInputNeeded {
		r.more = true
	} else if err != nil {
		r.err, r.text = true, err.Error()
	}
	return r
}

var c13env *Zlisp
var c13uses int

func c13Env() *Zlisp {
	if c13env == nil || c13uses > 500 {
		c13env, c13uses = newIn(), 0
	}
	c13uses++
	return c13env
}

// whole is the reference: a fresh parser gets the whole text at once.
func whole(env *Zlisp, text string) pReply {
	p := env.NewParser()
	p.ResetAddNewInput(strings.NewReader(text))
	r := reply(p.ParseTokens())
	p.Stop()
	return r
}

var c13Pool = []string{"a", "(", ")", "[", "]", "{", "}", " ", "\n", "12", "foo", "-3", "1.5", "\"s t\"", "'c'", "// c\n", "/* c */", "`r w`", "%", "\"", "`", "/*", "*/", "//",
	"-", "+", "--", "->", ":", "a:", "a.b", ".x", "\"q\\\"(\"", "\"\"", "'\\n'", "`r(\"`", "/**/", "/* ** x */", "/* \n ( */", "^", "~", "~@", "\\", ",", ";", "=", "==", ":=", "<-", "&", "$", "#x", "?x",
	"0x1f", "2ULL", "true", "nil", "Inf", "-Inf", "*", "**", "/", "!", "!=", "é", "\"é\"", "1e5", "1e", "1e-", "e5", "-.5", ".", "..", "a..b", "\\n", "'", "'\\''", "'\"'", "'('", "\"//\"", "\"/*\"", "// (\n", "// \"\n", "0o17", "0b1", "1_000", "a_b", "<=", "++", "+=", "-=", "a[0]", "a[0:1]", "1:2", "||", "&&", "|", "@", "not", "and", "\t", "\r\n", "\"\n\"", "\\\"", "func", "for", "package", "\"\\x41\"", "'\\u00e9'", "\"\\", "x:1", "-a", "a-b", "3-2", "1-", "-1-1"}

func genSoup(g *G, max int) string {
	n := 1 + g.Intn(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(c13Pool[g.Intn(len(c13Pool))])
		switch g.Intn(4) {
		case 0:
			b.WriteString(" ")
		case 1:
			if g.Chance(1, 3) {
				b.WriteString("\n")
			}
		}
	}
	return b.String()
}

var c13Atoms = []string{"a", "foo", "12", "-3", "1.5", "\"s t\"", "'c'", "`r w`", "a:", "a.b", ".x", "\"q\\\"(\"", "\"\"", "'\\n'", "`r(\"`", "#x", "?x", "0x1f", "2ULL", "true", "nil", "Inf", "*", "+", "-", "1e5", "-.5", "'('", "\"//\"", "\"/*\"", "'\"'", "é", "\"é\\\\\"", "%b", "^c", "~d", "~@e", "==", "1e-5", "-7.25e+3", "\"\n\"", "\"\\x41\"", "`\n//`", "x1", "/", "'\\\\'"}
var c13Space = []string{" ", "\n", "  ", " // c (\n", " /* c \" */ ", "\t", "\n\n", " /* a\n * b **/ "}

func genText(g *G, depth int) string {
	if depth <= 0 || g.Chance(1, 2) {
		return c13Atoms[g.Intn(len(c13Atoms))]
	}
	open, cl := "(", ")"
	switch g.Intn(4) {
	case 1:
		open, cl = "[", "]"
	case 2:
		open, cl = "{", "}"
	case 3:
		if g.Chance(1, 3) {
			return "(" + genText(g, depth-1) + c13Space[g.Intn(3)] + "\\ " + genText(g, depth-1) + ")"
		}
	}
	var b strings.Builder
	b.WriteString(open)
	n := g.Intn(4)
	for i := 0; i < n; i++ {
		if i > 0 || g.Chance(1, 4) {
			b.WriteString(c13Space[g.Intn(len(c13Space))])
		}
		b.WriteString(genText(g, depth-1))
		if open == "{" && g.Chance(1, 3) {
			b.WriteString(pickS(g, ";", ",", " ; "))
		}
	}
	if g.Chance(1, 4) {
		b.WriteString(c13Space[g.Intn(len(c13Space))])
	}
	b.WriteString(cl)
	return b.String()
}

func genTexts(g *G) string {
	n := 1 + g.Intn(4)
	var b strings.Builder
	if g.Chance(1, 5) {
		b.WriteString(c13Space[g.Intn(len(c13Space))])
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(c13Space[g.Intn(len(c13Space))])
		}
		b.WriteString(genText(g, 3))
	}
	if g.Chance(1, 4) {
		b.WriteString(c13Space[g.Intn(len(c13Space))])
	}
	return b.String()
}

var c13corpus []string

func c13Init() {
	files, _ := filepath.Glob(filepath.Join(repoDir(), "tests", "*.zy"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil && len(b) < 100000 {
			c13corpus = append(c13corpus, string(b))
		}
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func genAnyText(g *G) string {
	switch g.Weighted(5, 5, 2) {
	case 0:
		return genSoup(g, 10)
	case 1:
		return genTexts(g)
	}
	if len(c13corpus) == 0 {
		return genTexts(g)
	}
	c := []rune(c13corpus[g.Intn(len(c13corpus))])
	if len(c) == 0 {
		return "a"
	}
	lo := g.Intn(len(c))
	if g.Chance(1, 2) { // at a line start
		for lo > 0 && c[lo-1] != '\n' {
			lo--
		}
	}
	n := 1 + g.Intn(120)
	if lo+n > len(c) {
		n = len(c) - lo
	}
	s := append([]rune(nil), c[lo:lo+n]...)
	if g.Chance(1, 3) {
		t := []rune(c13Pool[g.Intn(len(c13Pool))])
		k := g.Intn(len(s))
		s = append(append(append([]rune(nil), s[:k]...), t...), s[k:]...)
	}
	return string(s)
}

// deliver gives the parser the text in pieces, and compares every reply with
// what a fresh parser says about the text so far.
func c13Deliver(env *Zlisp, p *Parser, rs []rune, cuts []int, ask []bool) string {
	prev := 0
	cuts = append(append([]int(nil), cuts...), len(rs))
	for i, c := range cuts {
		piece := string(rs[prev:c])
		if i == 0 {
			p.ResetAddNewInput(strings.NewReader(piece))
		} else {
			p.NewInput(bytes.NewBuffer([]byte(piece)))
		}
		prev = c
		if i < len(cuts)-1 && i < len(ask) && !ask[i] {
			continue
		}
		got := reply(p.ParseTokens())
		want := whole(env, string(rs[:c]))
		if !got.same(want) {
			return fmt.Sprintf("after %q in pieces cut at %v (in runes):\n got  %s\n want %s", string(rs[:c]), cuts[:i+1], got, want)
		}
		if got.err {
			return "" // what comes after an error is a new text
		}
		if !got.more && i < len(cuts)-1 {
			// complete so far; the parser may be asked to go on
			continue
		}
	}
	return ""
}

func c13Cuts(g *G) Res {
	env := c13Env()
	text := genAnyText(g)
	return c13CutsOf(g, env, text)
}

func c13CutsOf(g *G, env *Zlisp, text string) Res {
	rs := []rune(text)
	res := Res{Key: text, Sample: fmt.Sprintf("%q", text), NonTrivial: len(rs) > 1}
	p := env.NewParser()
	if g.Chance(1, 2) { // a parser with a past
		for i := g.Intn(3); i >= 0; i-- {
			p.ResetAddNewInput(strings.NewReader(genSoup(g, 5)))
			p.ParseTokens()
		}
	}
	defer p.Stop()
	if len(rs) <= 40 {
		for c := 0; c <= len(rs); c++ {
			res.Evals++
			if d := c13Deliver(env, p, rs, []int{c}, nil); d != "" {
				res.Fail, res.Sig = d, c13Sig("one cut", d)
				return res
			}
		}
	}
	for k := 0; k < 3; k++ {
		var cuts []int
		var ask []bool
		at := 0
		for at < len(rs) {
			at += g.Intn(6)
			if k == 2 {
				at = at + 1
			}
			if at <= len(rs) {
				cuts = append(cuts, at)
				ask = append(ask, !g.Chance(1, 4))
			}
			if len(cuts) > 60 {
				break
			}
		}
		res.Evals++
		if d := c13Deliver(env, p, rs, cuts, ask); d != "" {
			res.Fail, res.Sig = d, c13Sig("many cuts", d)
			return res
		}
	}
	return res
}

func c13Sig(s, d string) string {
	if strings.Contains(d, "got  error") {
		return s + ": error"
	}
	if strings.Contains(d, "got  more") {
		return s + ": more"
	}
	if strings.Contains(d, "want error") {
		return s + ": no error"
	}
	if strings.Contains(d, "want more") {
		return s + ": not more"
	}
	return s
}

// every sequence of one or two pool tokens, joined in two ways (three tokens
// of a smaller pool in the thorough tier), with every single cut.
func c13Short(g *G) Res {
	env := c13Env()
	n := len(c13Pool)
	i := g.I
	var text string
	if i < n*n*2 {
		text = c13Pool[i%n] + []string{"", " "}[i/(n*n)] + c13Pool[i/n%n]
	} else {
		i -= n * n * 2
		m := 44
		text = c13Pool[i%m] + c13Pool[i/m%m] + c13Pool[i/m/m%m]
	}
	res := Res{Key: text, Sample: fmt.Sprintf("%q", text), NonTrivial: len(text) > 1}
	rs := []rune(text)
	p := env.NewParser()
	defer p.Stop()
	for c := 0; c <= len(rs); c++ {
		res.Evals++
		if d := c13Deliver(env, p, rs, []int{c}, nil); d != "" {
			res.Fail, res.Sig = d, c13Sig("one cut", d)
			return res
		}
	}
	if d := c13Complete(env, text); d != "" {
		res.Fail, res.Sig = d, "complete"
	}
	return res
}

// scanText tells whether a text is an unfinished prefix, independently of the
// lexer. unclear: ends in a quote mark or inside a char literal.
func scanText(text string) (open, unclear, inAtom bool) {
	rs := []rune(text)
	depth := 0
	var last rune
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		inAtom = false
		switch {
		case r == '"':
			i++
			for ; i < len(rs) && rs[i] != '"'; i++ {
				if rs[i] == '\\' {
					i++
				}
			}
			if i >= len(rs) {
				return true, false, false
			}
			last = r
		case r == '`':
			i++
			for ; i < len(rs) && rs[i] != '`'; i++ {
			}
			if i >= len(rs) {
				return true, false, false
			}
			last = r
		case r == '\'':
			i++
			for ; i < len(rs) && rs[i] != '\''; i++ {
				if rs[i] == '\\' {
					i++
				}
			}
			if i >= len(rs) {
				return false, true, false
			}
			last = r
		case r == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for ; i < len(rs) && rs[i] != '\n'; i++ {
			}
		case r == '/' && i+1 < len(rs) && rs[i+1] == '*':
			i += 2
			for ; i < len(rs) && !(rs[i] == '*' && i+1 < len(rs) && rs[i+1] == '/'); i++ {
			}
			if i >= len(rs) {
				return true, false, false
			}
			i++
		case r == '(' || r == '[' || r == '{':
			depth++
			last = r
		case r == ')' || r == ']' || r == '}':
			depth--
			last = r
		case unicode.IsSpace(r):
		default:
			last = r
			inAtom = true
		}
	}
	if depth > 0 {
		return true, false, inAtom
	}
	return false, strings.ContainsRune("%^~@", last), inAtom
}

// c13Complete: does the parser ask for more exactly when the text is unfinished?
func c13Complete(env *Zlisp, text string) string {
	r := whole(env, text)
	if r.err {
		return ""
	}
	open, unclear, _ := scanText(text)
	if unclear {
		return ""
	}
	if r.more != open {
		return fmt.Sprintf("%q is unfinished: %v, but the parser says: %s", text, open, r)
	}
	if open {
		return ""
	}
	// the last token is there: one more expression is one more expression
	want := r.xs + "7\n"
	for _, t := range []string{"\n7", "\n7\n"} {
		q := whole(env, text+t)
		if q.err || q.more || q.xs != want {
			return fmt.Sprintf("%q reads as %s but with %q after it as %s", text, r, t, q)
		}
	}
	for _, t := range []string{"\n", " ", "\n// end", " \n\n"} {
		q := whole(env, text+t)
		if !q.same(r) {
			return fmt.Sprintf("%q reads as %s but with %q after it as %s", text, r, t, q)
		}
	}
	return ""
}

// prefixes of well-formed texts: never an error inside a bracket, more input
// asked for exactly inside, and the whole text is fine.
func c13Prefix(g *G) Res {
	env := c13Env()
	text := genTexts(g)
	res := Res{Key: text, Sample: fmt.Sprintf("%q", text), NonTrivial: len(text) > 1}
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = fmt.Sprintf(f, a...), sig
		return res
	}
	rs := []rune(text)
	if r := whole(env, text); r.err || r.more {
		return bad("well-formed", "%q is well-formed but gave: %s", text, r)
	}
	for c := 0; c <= len(rs); c++ {
		t := string(rs[:c])
		res.Evals++
		open, unclear, inAtom := scanText(t)
		r := whole(env, t)
		if r.err && (open || !inAtom && !unclear) {
			return bad("prefix error", "%q, a prefix of the well-formed %q, gave %s", t, text, r)
		}
		if d := c13Complete(env, t); d != "" {
			return bad("complete", "%s", d)
		}
	}
	return res
}

func c13Soup(g *G) Res {
	env := c13Env()
	text := genAnyText(g)
	res := Res{Key: text, Sample: fmt.Sprintf("%q", text), NonTrivial: len(text) > 1}
	if d := c13Complete(env, text); d != "" {
		res.Fail, res.Sig = d, "complete"
	}
	return res
}

// layout prints known data with any white space and comments between tokens.
func c13Layout(g *G, b *strings.Builder, x Sexp) {
	sp := func() { b.WriteString(c13Space[g.Intn(len(c13Space))]) }
	osp := func() {
		if g.Chance(1, 3) {
			sp()
		}
	}
	switch v := x.(type) {
	case *SexpPair:
		b.WriteString("(")
		osp()
		var y Sexp = v
		for first := true; ; first = false {
			p, ok := y.(*SexpPair)
			if !ok {
				break
			}
			if !first {
				sp()
			}
			c13Layout(g, b, p.Head)
			y = p.Tail
		}
		if y != SexpNull { // comments are expressions, so none here
			b.WriteString(c13Space[g.Intn(3)] + "\\" + c13Space[g.Intn(3)])
			c13Layout(g, b, y)
			b.WriteString(")")
			return
		}
		osp()
		b.WriteString(")")
	case *SexpArray:
		b.WriteString("[")
		osp()
		for i, e := range v.Val {
			if i > 0 {
				if g.Chance(1, 5) {
					osp()
					b.WriteString(",")
					osp()
				} else {
					sp()
				}
			}
			c13Layout(g, b, e)
		}
		osp()
		b.WriteString("]")
	default:
		b.WriteString(show(x))
	}
}

// c13Known: texts whose expressions are known beforehand, whole and in pieces.
func c13Known(g *G) Res {
	env := c13Env()
	o := &dOpt{env: env, sym: true, char: true, list: true, dotted: true, uint: true}
	n := 1 + g.Intn(4)
	var vals []Sexp
	var b strings.Builder
	for i := 0; i < n; i++ {
		v := genData(g, o, 3)
		if c12Ambiguous(v) || i > 0 && c12Ambiguous(env.NewSexpArray([]Sexp{vals[i-1], v})) {
			v = SexpNull
		}
		vals = append(vals, v)
		if i > 0 {
			b.WriteString(c13Space[g.Intn(len(c13Space))])
		}
		c13Layout(g, &b, v)
	}
	text := b.String()
	res := Res{Key: text, Sample: fmt.Sprintf("%q", text), NonTrivial: dSize(env.NewSexpArray(vals)) > 2}
	want := reply(vals, nil)
	got := whole(env, text)
	// commas between array elements are tokens of their own to the reader
	got.xs = strings.ReplaceAll(got.xs, "<comma> ", "")
	if !got.same(want) {
		res.Fail, res.Sig = fmt.Sprintf("%q should read as %s\nbut reads as %s", text, want, got), "known text"
		return res
	}
	r2 := c13CutsOf(g, env, text)
	res.Fail, res.Sig, res.Evals = r2.Fail, r2.Sig, r2.Evals
	return res
}

// ---- what was read before does not matter

func c13History(g *G) Res {
	env := newIn()
	var hist []string
	nh := 1 + g.Intn(5)
	for i := 0; i < nh; i++ {
		t := genAnyText(g)
		if strings.ContainsAny(t, "<") && strings.Contains(t, "<-") || len(t) > 300 {
			t = "(" // may block on a channel
		}
		switch g.Intn(6) {
		case 0: // only parsed, in pieces, left unfinished
			hist = append(hist, "ParseTokens "+fmt.Sprintf("%q", t))
			p := env.NewParser()
			p.ResetAddNewInput(strings.NewReader(t))
			p.ParseTokens()
			if g.Chance(1, 2) {
				p.Stop()
			}
		case 1:
			hist = append(hist, "read "+fmt.Sprintf("%q", t))
			env.AddGlobal("txt", &SexpStr{S: t})
			if _, err := env.EvalString("(read txt)"); err != nil {
				env.Clear()
			}
		case 2:
			hist = append(hist, "LoadString (quote "+fmt.Sprintf("%q", t)+")")
			env.LoadString("(quote [" + t + "])")
			env.Clear()
		case 3:
			bad := pickS(g, "(", ")", "\"abc", "`raw", "/* c", "(a [b", "{", "'a", "'", "(]", "1e", "~", "%", "(% ", "\"\\", "/", "(a //", "x 'q", "(def zz", "[1 2", "{a = ", "// c", "\"\\x4", "'\\u00", "- ", "1-", "12 .5.", "a:")
			hist = append(hist, "EvalString "+fmt.Sprintf("%q", bad))
			if _, err := env.EvalString(bad); err != nil {
				env.Clear()
			}
		case 4:
			p := filepath.Join(os.Getenv("VERIF_SCRATCH"), "h.zy")
			bad := pickS(g, "(", ")", "\"abc", "`raw", "/* c", "1 2", "(def qq 1)", "(]", "x: ")
			os.WriteFile(p, []byte(bad), 0o666)
			hist = append(hist, "source "+fmt.Sprintf("%q", bad))
			if _, err := env.EvalString(fmt.Sprintf(pickS(g, "(source %q)", "(include %q)"), p)); err != nil {
				env.Clear()
			}
			os.Remove(p)
		case 5:
			hist = append(hist, "runtime error")
			if _, err := env.EvalString(pickS(g, "(first 1)", "[1 (undefinedfn 3)]", "(begin (/ 1 0) 2)", "(read \"(\")", "(eval (read \"1 2\"))", "(read \"1 2 3\")", "(read \"a b\")")); err != nil {
				env.Clear()
			}
		}
	}
	text := genAnyText(g)
	res := Res{Key: fmt.Sprintf("%q after %q", text, hist), NonTrivial: true}
	res.Sample = res.Key
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = fmt.Sprintf(f, a...), sig
		return res
	}
	fresh := newIn()
	want := whole(fresh, text)
	if got := whole(env, text); !got.same(want) {
		return bad("new parser", "%q after %q:\n got  %s\n want %s", text, hist, got, want)
	}
	read := func(e *Zlisp, t string) pReply {
		e.AddGlobal("txt", &SexpStr{S: t})
		x, err := e.EvalString("(read txt)")
		if err != nil {
			e.Clear()
		}
		return reply([]Sexp{x}, err)
	}
	q := func(e *Zlisp, t string) pReply {
		x, err := e.EvalString("(quote [" + t + "\n])")
		if err != nil {
			e.Clear()
		}
		return reply([]Sexp{x}, err)
	}
	file := func(e *Zlisp, t string) pReply {
		p := filepath.Join(os.Getenv("VERIF_SCRATCH"), "t.zy")
		os.WriteFile(p, []byte(t), 0o666)
		defer os.Remove(p)
		return reply(e.ParseFile(p))
	}
	for i, f := range []func(*Zlisp, string) pReply{file, read, q, file} {
		got, w := f(env, text), f(fresh, text)
		if !got.same(w) {
			return bad([]string{"file", "read", "eval", "file"}[i], "%s of %q after %q:\n got  %s\n want %s", []string{"ParseFile", "read", "EvalString of quoted", "ParseFile"}[i], text, hist, got, w)
		}
		if i == 0 && (got.err || got.more) != (want.err || want.more) {
			return bad("file against parser", "ParseFile of %q gave %s, the parser %s", text, got, want)
		}
		if i == 0 && !got.err && got.xs != want.xs {
			return bad("file against parser", "ParseFile of %q gave %s, the parser %s", text, got, want)
		}
	}
	return res
}

func init() {
	register(&Prop{ID: "C13", Level: "exploration",
		Rule:        "the text has at least two runes (known: data of more than two nodes)",
		Assumptions: []string{"pieces are cut between runes", "a text ending in a quote mark or inside a char literal is neither demanded to be complete nor to be unfinished", "error texts are not compared"},
		Init:        c13Init,
		Parts: []Part{
			{Name: "short", Enum: func(tier string) int {
				n := len(c13Pool) * len(c13Pool) * 2
				if tier == "thorough" {
					n += 44 * 44 * 44
				}
				return n
			}, Run: c13Short},
			{Name: "cuts", Quick: 12000, Thorough: 600000, Run: c13Cuts},
			{Name: "prefix", Quick: 6000, Thorough: 300000, Run: c13Prefix},
			{Name: "soup", Quick: 20000, Thorough: 1000000, Run: c13Soup},
			{Name: "known", Quick: 8000, Thorough: 400000, Run: c13Known},
			{Name: "history", Quick: 2500, Thorough: 120000, Run: c13History},
		}})
}
