package main

// C20: evaluation is deterministic.
//
// A case is a batch of programs. Each is run in fresh interpreters of this
// process, in different orders and after other interpreters were made, and in
// a fresh process; value, output and error text must be the same every time.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// p20 is a program: texts given to one interpreter in turn.
type p20 struct {
	Texts []string
	By    int
	Conf  int // 0 standard setup, 1 bare, 2 sandbox, 3 with demo data
}

func (p p20) String() string {
	return fmt.Sprintf("%s (%s):\n%s", []string{"standard setup", "bare", "sandbox", "demo"}[p.Conf], byNames[p.By], strings.Join(p.Texts, "\n"))
}

// what a program may not name: explicit random, time and pointer printing,
// what is outside of the interpreter, and what may block
var c20skip = regexp.MustCompile(`random|now|timeit|millis|makeChan|<!|send|_ls|dump|_closdump|system|\bsys\b|source|slurpf|writef|owritef|save|bsave|bload|greenpack|exit|getenv|setenv|import|include|\breq\b|Sideeffect|stop|rand|zz20`)

// programs that make pointers may print them: addresses are not compared
var c20ptr = regexp.MustCompile(`&|ptr|\(\* |\(var `)

type out20 struct{ Val, Out, Err string }

func (a out20) diff(b out20) string {
	one := func(n, x, y string) string {
		if x == y {
			return ""
		}
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		k := max(0, i-120)
		return fmt.Sprintf("%s:\n  ...%q\n  ...%q", n, clip(x[k:], 400), clip(y[k:], 400))
	}
	for _, d := range []string{one("value", a.Val, b.Val), one("error text", a.Err, b.Err), one("printed", a.Out, b.Out)} {
		if d != "" {
			return d
		}
	}
	return ""
}

func env20(conf int) *Zlisp {
	switch conf {
	case 1:
		return NewZlisp()
	case 2:
		return NewZlispSandbox()
	}
	env := NewZlisp()
	env.StandardSetup()
	if conf == 3 {
		env.ImportDemoData()
	}
	env.AddFunction("emit", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		for _, a := range args {
			fmt.Fprintf(os.Stdout, "<%s>", a.SexpString(nil))
		}
		if len(args) == 0 {
			return SexpNull, nil
		}
		return args[len(args)-1], nil
	})
	return env
}

// run20 runs a program in a fresh interpreter.
func run20(p p20) (outs []out20) {
	env := env20(p.Conf)
	ptrs := false
	for _, t := range p.Texts {
		var a answer
		var o out20
		o.Out = capture(func() {
			old := OurStdout
			OurStdout = os.Stdout
			defer func() { OurStdout = old }()
			a = ask(env, t, p.By, 20000)
			if a.err != "" && p.By != byRepl {
				if a.fail == "" {
					fmt.Fprint(os.Stdout, "trace: ", env.GetStackTrace(fmt.Errorf("x")))
				}
				env.Clear()
			}
		})
		o.Val, o.Err = a.val, a.err
		if ptrs = ptrs || c20ptr.MatchString(t); ptrs {
			o.Val, o.Out, o.Err = addr20.ReplaceAllString(o.Val, "ADDR"), addr20.ReplaceAllString(o.Out, "ADDR"), addr20.ReplaceAllString(o.Err, "ADDR")
		}
		if a.fail != "" {
			o.Err = "fails: " + a.sig // C01's to judge
		}
		if len(o.Val) > 1<<16 || len(o.Out) > 1<<16 {
			o.Val, o.Out = clip(o.Val, 1<<16), clip(o.Out, 1<<16)
		}
		outs = append(outs, o)
	}
	return
}

// c20child runs the programs it reads, in the order given, and writes what
// they gave.
func c20child() {
	var ps []p20
	if err := json.NewDecoder(os.Stdin).Decode(&ps); err != nil {
		os.Exit(3)
	}
	var outs [][]out20
	real := os.Stdout
	for _, p := range ps {
		outs = append(outs, run20(p))
	}
	b, _ := json.Marshal(outs)
	real.Write(b)
	os.Exit(0)
}

// other runs programs in a process of their own.
func other20(ps []p20) ([][]out20, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_EXE"))
	cmd.Env = append(os.Environ(), "VERIF_CHILD20=1", "VERIF_CUR=", "VERIF_CASE=")
	b, _ := json.Marshal(ps)
	cmd.Stdin = bytes.NewReader(b)
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, clip(serr.String(), 500))
	}
	var outs [][]out20
	if err := json.Unmarshal(out.Bytes(), &outs); err != nil || len(outs) != len(ps) {
		return nil, fmt.Errorf("bad answer of the child: %v", err)
	}
	return outs, nil
}

// through JSON bytes that are no UTF-8 come out changed
func (o out20) clean() out20 {
	return out20{strings.ToValidUTF8(o.Val, "\uFFFD"), strings.ToValidUTF8(o.Out, "\uFFFD"), strings.ToValidUTF8(o.Err, "\uFFFD")}
}

// addresses, also in the bytes of an encoding of a text that has one
var addr20 = regexp.MustCompile(`0x[0-9a-f]{8,}|\[\]byte\{[^}]*0x30, 0x78, [^}]*\}`)

// batch20 compares the runs of the programs. A fresh process is used only
// when asked for.
func batch20(ps []p20, proc bool) (res Res) {
	var kept []p20
	for _, p := range ps {
		ok := true
		for _, t := range p.Texts {
			ok = ok && !c20skip.MatchString(t)
		}
		if ok {
			kept = append(kept, p)
		}
	}
	ps = kept
	if len(ps) == 0 {
		res.Skip = true
		return
	}
	res.Sample = ps[0].String()
	res.Key = fmt.Sprint(ps)
	first := make([][]out20, len(ps))
	fail := func(i int, how string, got []out20) bool {
		for k := range first[i] {
			a, b := first[i][k], got[k]
			if how == procs20 {
				a, b = a.clean(), b.clean()
			}
			if d := a.diff(b); d != "" {
				res.Fail = fmt.Sprintf("two runs of a program differ (%s)\nprogram, %s\ntext %d: %s\n%s", how, clip(ps[i].String(), 6000), k, clip(ps[i].Texts[k], 3000), d)
				res.Sig = "differ " + sig20(d)
				return true
			}
		}
		return false
	}
	for i, p := range ps {
		first[i] = run20(p)
		for _, o := range first[i] {
			if len(o.Val) > 3 || o.Err != "" || o.Out != "" {
				res.NonTrivial = true
			}
		}
		for r := 0; r < 2; r++ {
			got := run20(p)
			res.Evals++
			if fail(i, "fresh interpreters of one process", got) {
				return
			}
		}
	}
	// again, the other way round, with interpreters made in between
	var idle []*Zlisp
	for i := len(ps) - 1; i >= 0; i-- {
		idle = append(idle, NewZlisp())
		got := run20(ps[i])
		res.Evals++
		if fail(i, "after other interpreters", got) {
			return
		}
	}
	_ = idle
	if proc {
		outs, err := other20(ps)
		if err != nil {
			res.Fail, res.Sig = "in a process of their own the programs end it: "+err.Error()+"\n"+clip(fmt.Sprint(ps), 3000), "child"
			return
		}
		res.Evals += len(ps)
		for i := range ps {
			if fail(i, procs20, outs[i]) {
				return
			}
		}
	}
	return
}

const procs20 = "in a fresh process"

func sig20(d string) string {
	d = addr20.ReplaceAllString(d, "ADDR")
	if i := strings.Index(d, "ADDR"); i >= 0 {
		return clip(d[max(0, i-40):], 60)
	}
	return clip(d, 40)
}

// ---- programs that look at maps, several mistakes at once, many keys

func h20(g *G, d int) string {
	var b strings.Builder
	b.WriteString("(hash")
	used := map[string]bool{}
	for n := g.Range(0, 9); n > 0; n-- {
		k := pickS(g, "a", "b", "cc", "Dd", "id", "pid", "name", "chld", "when", "speed", "first", "x1", "x2", "x3")
		if used[k] {
			continue
		}
		used[k] = true
		fmt.Fprintf(&b, " %s:%s", k, v20(g, d-1))
	}
	for n := g.Intn(3); n > 0; n-- {
		fmt.Fprintf(&b, " %s %s", pickS(g, `"s p"`, "5", "'c'", "[1 2]", "true", "-7"), v20(g, d-1))
	}
	return b.String() + ")"
}

func v20(g *G, d int) string {
	n := 16
	if d <= 0 {
		n = 10
	}
	switch g.Intn(n) {
	case 0, 1:
		return strconv.Itoa(g.Range(-3, 300))
	case 2:
		return pickS(g, "1.5", "-2.25", "1e30")
	case 3:
		return strconv.Quote(pickS(g, "", "abc", "q\"r", "é"))
	case 4:
		return pickS(g, "true", "false")
	case 5:
		return "nil"
	case 6:
		return pickS(g, "'c'", "%sym", "7ULL")
	case 7:
		return pickS(g, "[1 2 3]", `["a" "b"]`, "[]")
	case 8:
		return pickS(g, "(fn [x] x)", "first", "+", "int64")
	case 9:
		return pickS(g, "(raw \"ab\")", "(list 1 2)", "()")
	case 10, 11, 12:
		return h20(g, d)
	case 13:
		return fmt.Sprintf("[%s %s]", v20(g, d-1), v20(g, d-1))
	case 14:
		return fmt.Sprintf("(list %s %s)", v20(g, d-1), v20(g, d-1))
	}
	t := pickS(g, "T20", "U20", "snoopy", "weather", "plane", "nestouter", "eventdemo", "event")
	return fmt.Sprintf("(%s %s", t, strings.TrimPrefix(h20(g, d), "(hash "))
}

var j20ops = []string{
	"(str H)", "(json H)", "(unjson (json H))", "(msgpack H)", "(unmsgpack (msgpack H))", "(keys H)", "(len H)", "(println H)", "(print H)", "(begin (def h H) (togo h))", "(togo H)", "(fromgo H)", "(hdel H %a)", "(hget H %nope)", "(hget H x1:)", "(hpair H 0)", "(begin (def h H) (hset h Z V) h)",
	"(json2 H)", "(range k v H (emit k v))", "{for k, v := range H { emit(k) }}", "(range k v H (println k))", "(map (fn [k] (emit k)) (keys H))", "(-> H a: b:)", "(type? H)", "(== H H)", "(methodls H)", "(_method H Fly:)", "(fieldls H)", "(list H H)", "(concat H H)", "(+ H 1)", "(aget H 0)", "(H)", "(H 1)", "(V H)", "(apply H [])",
	"(map H [1])", "(map V H)", "(apply V H)", "(first H)", "(not H)", "(sort H)", "(append H V)", "(unjson (raw \"{\\\"b\\\":1,\\\"a\\\":{\\\"d\\\":2,\\\"c\\\":[1,{\\\"z\\\":1,\\\"y\\\":2}]}}\"))", "(unjson (raw \"{\\\"b\\\":1,\\\"a\\\":{\\\"d\\\":2,\\\"c\\\":\"))", "(unjson V)", "(unmsgpack (raw \"\\x83abc\"))", "(typelist)",
	"(T20 n:V s:V t:V)", "(T20 n:V q:V r:V)", "(U20 a:V b:V c:V d:V)", "(struct U20 [(field a: int64) (field b: string) (field c: V)])", "(U20 H)", "(hset (T20 n:1) s: V)", "T20", "(str T20)", "(snoopy of:V pack:V)", "(togo (snoopy cry:V speed:V zz:V zy:V))", "(togo (event id:V user:V flight:V pilot:V cancelled:V))",
	"(_method (snoopy cry:\"x\") EchoWeather: (weather type:\"s\" size:4 time:V))", "(togo (nestouter inner:(nestinner hello:V) bad:V))", "(sym2str V)", "(substitute V)", "(macexpand H)", "(assert (== V V))", "(expectError \"x\" (V H))", "(gensym)", "(list (gensym) (gensym))", "(def q (gensym))", "(defmac mq [] (begin (gensym))) (macexpand (mq))",
	"(cond V H)", "(nosuch V)", "(nosuch20 H)", "(undefined? nosuch)", "(defined? %a)", "(fn [a b] (+ a b))", "(str (fn [a b] H))", "(defn f20 [a] (nosuch a)) (f20 H)", "(let [a V b V] (list a b nosuch))", "(package \"p20\" (def A V) (def b H) (defn C [] 1))", "(begin (def p (package \"p20\" (def A V) (def b H))) (list p.A p.b))", "(str (package \"p20\" (def A V) (def B H)))", "(str (package \"p20\" (def A 1) (def B 1) (def C 1) (def d V) (def e 1)))", "(begin (def P20 (package \"p20\" (def A nil) (def B nil) (defn C [] V) (defn D [] V) (def E (package \"q20\" (def X H) (def Y H) (def Z H))))) (list P20 (str P20)))", "(let [f (let [a 1 b 1 c 1 d 1] (fn [] (list a b c d)))] (str f))", "(hash a:(package \"p20\" (def C V) (def B V) (def A V)))",
	"(flatten V H)", "(flattenToWords V H)", "(split \"a b\" V)", "(hash V V V)", "(hash V)", "(array V H)", "(makeArray V H)", "(slice V 1 2)", "(aset V 0 H)", "(str2sym V)", "(bitAnd V V)", "(mod V V)", "(< V V)", "(== V V)", "(sll V H)", "(symnum %abc20)", "(symnum V)", "(chomp V)", "(read V)", "(eval V)", "(eval H)", "(infixExpand V)", "(astm V)", "(date V)", "(dur V)", "(GOOS)",
	"(regexpFind V H)", "(regexpMatch (regexpCompile \"a\") V)", "(func ff20 [a:int64 b:string] [r:int64] (return V)) (ff20 V V)", "(interface I20 [(func Q [w:int64] [r:int64]) (func P [w:int64])])", "(method [p: T20] M20 [a:int64] [r:int64] V)", "(sliceOf V)", "(arrayOf V H)", "(defmap dm20) (dm20 a:V b:V)", "(msgmap V H)", "(declare-msgpack-map V)", "(.)", "h.a", "(begin (def h H) (def h.a V) (str h))", "{h = H; h.x1 = V; h[V] = 2; h}",
	"(_method (hub10) EchoColl: (coll10 in:(inner10 n:V s:V) msf:H mss:H sh:(sq10 side:V next:(circ10 r:V))))", "(_method (hub10) EchoTree: (tree10 val:V left:(tree10 any:V)))", "(togo (coll10 zz:1 zy:V mss:H))", "(_method (hub10) EchoScal: (scal10 i:V u8:V s:V b:V))", "(togo (tree10 kids:V left:V any:(inner10 n:V)))", "(_method (hub10) EchoInner: (sq10 side:V))", "(_method (nestouter inner:(nestinner hello:V)) V)", "(aget (_method (hub10) EchoShape: (circ10 r:2.5 mid:V)) 0)", "(methodls (hub10))", "(fieldls (coll10))",
	"(_method H Nope:)", "(_method (snoopy cry:V friends:[(hellcat speed:V) (hornet SpanCm:4)]) Fly: (weather type:\"s\" size:V))", "(_method (hornet id:V) Fly: H)", "(_method (weather type:V) IsSunny:)", "(_method (snoopy cry:V) GetCry:)", "(_method (snoopy cry:V) H V)", "(fromgo (aget (_method (snoopy cry:V) EchoWeather: (weather type:V details:(raw V))) 0))", "(* int64)", "(var v20 (* T20)) (str v20)", "(begin (def h H) (& h))", "(derefSet (& H) V)", "(let [p (& V)] (deref p))", "(* (& V))", "(defmac w20 [x] ^(list ~x V)) (w20 H)", "(comma V)", "(raw64 V)", "(raw64 \"YWJj\")", "(: a H)", "(: nope H)", "(:a H)", "(quote (a V H))", "^(a ~V ~@H)", "^(hash a: ~V b: ~H)", "(return V)", "(break V)", "(continue)", "(for [(def i 0) (< i 3) (def i (+ i 1))] (emit i))", "(def [a b] V)", "(mdef a b V)", "(mdef a b [1])", "(set a.b V)", "(defn V [a] a)", "(let [V V] V)",
}

func text20(g *G) string {
	var form func(d int) string
	form = func(d int) string {
		t := j20ops[g.Intn(len(j20ops))]
		var b strings.Builder
		for i := 0; i < len(t); i++ {
			word := (i == 0 || strings.IndexByte(" ([{~@:;", t[i-1]) >= 0) && (i+1 == len(t) || strings.IndexByte(" )]}.;", t[i+1]) >= 0)
			switch {
			case word && t[i] == 'H':
				b.WriteString(h20(g, 2))
			case word && t[i] == 'V':
				if d > 0 && g.Chance(1, 6) {
					b.WriteString(form(d - 1))
				} else {
					b.WriteString(v20(g, 2))
				}
			case word && t[i] == 'Z':
				b.WriteString(pickS(g, "a:", "zz:", "5", `"s"`))
			default:
				b.WriteByte(t[i])
			}
		}
		return b.String()
	}
	return form(2)
}

var c20pre = []string{
	"(struct T20 [(field n: int64 e:0) (field s: string e:1) (field t: ([]string) e:2)])",
	"(struct U20 [(field a: int64 e:0) (field b: string e:1) (field c: float64 e:2) (field d: T20 e:3)])",
}

// any20 is a program of any of the generators.
func any20(g *G) p20 {
	p := p20{By: g.Weighted(4, 1, 2)}
	switch g.Weighted(6, 2, 2, 2, 2, 2, 1, 1) {
	case 0:
		if g.Chance(1, 2) {
			p.Conf = 3
		}
		p.Texts = append(p.Texts, c20pre...)
		for k := g.Range(1, 5); k > 0; k-- {
			p.Texts = append(p.Texts, text20(g))
		}
	case 1:
		xs, _ := progCase(g, pcfg{loops: 3, funcs: 4, closure: 2, tail: 2, effects: 3, maxd: 4, eval: 1, errs: 40, wild: 30}, 6, 100)
		p.Texts = []string{renderProg(mutateProg(g, xs))}
	case 2:
		s := newSgen(g, 30)
		p.Texts = []string{sPrelude, s.top(g.Range(1, 3)), s.top(g.Range(1, 4)), s.top(3)}
		if g.Chance(1, 2) {
			p.Texts[2] = mutateText(g, p.Texts[2])
		}
	case 3:
		m := &m15{g: g, p: &pgen{g: g, c: pcfg{loops: 1, funcs: 2, closure: 1, tail: 1, effects: 3, maxd: 3, errs: 30}, budget: 120}}
		m.p.sc = []gscope{{}}
		p.Texts = []string{renderProg(mutateProg(g, m.program(true)))}
	case 4:
		p.Texts = append(p.Texts, c01prelude...)
		for k := g.Range(1, 6); k > 0; k-- {
			name := c01names[g.Intn(len(c01names))]
			s := []string{name}
			for n := g.Intn(4); n > 0; n-- {
				s = append(s, pickS(g, c01args...))
			}
			t := "(" + strings.Join(s, " ") + ")"
			if g.Chance(1, 4) {
				t = "{" + strings.Join(s, " ") + "}"
			}
			if !c20skip.MatchString(t) {
				p.Texts = append(p.Texts, t)
			}
		}
	case 5:
		for k := g.Range(1, 3); k > 0; k-- {
			t := genAnyText(g)
			if g.Chance(1, 2) {
				t = mutateText(g, t)
			}
			p.Texts = append(p.Texts, t)
		}
	case 6:
		p.Texts = []string{renderProg(genLazy(g, 30))}
	default:
		p.Conf = g.Range(1, 2)
		for k := g.Range(1, 3); k > 0; k-- {
			p.Texts = append(p.Texts, text20(g))
		}
	}
	return p
}

func c20Init() {
	c01Init()
	if len(c13corpus) == 0 {
		c13Init()
	}
	c10reg() // registers types for the whole process
	sort.Strings(c13corpus)
}

func init() {
	register(&Prop{ID: "C20", Level: "exploration",
		Rule: "a case is non-trivial if some program of it gives a value that is longer than three characters, an error, or output",
		Assumptions: []string{
			"left out: random numbers, clocks, channels, programs that make pointers or print addresses by design (_ls, dump), and what reads or changes files, processes or the environment",
			"orders of Go maps are drawn anew by the runtime for every walk; a difference between two of n entries shows in half of the runs, and each program runs five times",
		},
		Init: c20Init,
		Parts: []Part{
			{Name: "forms", Enum: func(string) int { return len(c01names) * (len(c01args) + 1) }, Run: func(g *G) Res {
				n := len(c01args) + 1
				var ts []string
				for _, t := range formTexts(c01names[g.I/n], g.I%n-1, g.Tier == "thorough") {
					if !c20skip.MatchString(t) {
						ts = append(ts, t)
					}
				}
				pre := []string{}
				for _, t := range c01prelude {
					if !c20skip.MatchString(t) {
						pre = append(pre, t)
					}
				}
				if len(ts) == 0 {
					return Res{Skip: true}
				}
				return batch20([]p20{{Texts: append(pre, ts...), By: (g.I / n % 2) * byRepl}}, false)
			}},
			{Name: "programs", Quick: 1600, Thorough: 40000, Run: func(g *G) Res {
				var ps []p20
				for k := g.Range(1, 12); k > 0; k-- {
					ps = append(ps, any20(g))
				}
				return batch20(ps, true)
			}},
			{Name: "corpus", Enum: func(string) int { return len(c13corpus) }, Run: func(g *G) Res {
				return batch20([]p20{{Texts: []string{c13corpus[g.I]}}}, true)
			}},
		},
	})
}
