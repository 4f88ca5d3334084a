package main

import (
	"fmt"
	"math"
	"math/big"

	. "github.com/glycerine/zygomys/v9/zygo"
)

var c07Ints = []int64{0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 100, 127, 128, 255, 256, 1000, -1000,
	math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MinInt32, math.MinInt32 + 1,
	math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1, -math.MaxUint32 - 1,
	1<<53 - 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, -(1 << 53), 1 << 62, 1<<62 + 1, -(1 << 62), -(1 << 62) - 1,
	math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 2, math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 2, 1000000007, 97, 65, 1114111}
var c07Uints = []uint64{0, 1, 2, 3, 10, 97, math.MaxUint32, math.MaxUint32 + 1, 1<<53 + 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - 2, 6, 1<<64 - 1<<32}
var c07Chars = []rune{0, 1, 'A', 'a', 'b', 'z', 0x7f, 0xe9, 0xffff, 0x10000, 0x10ffff, 3, 2}
var c07Floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2, 3, 10, 97, 0.1, 65.5, 1<<53 - 1, 1 << 53, 1<<53 + 2, -(1 << 53), 1 << 62, 1 << 63, -(1 << 63), 1<<63 - 1024, 1 << 64,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e300, 1e-300, 4294967296, 2147483647.5,
	9223372036854774784, 1.0000000000000002}

func c07Pool() []Sexp {
	var out []Sexp
	for _, v := range c07Ints {
		out = append(out, &SexpInt{Val: v})
	}
	for _, v := range c07Uints {
		out = append(out, &SexpUint64{Val: v})
	}
	for _, v := range c07Chars {
		out = append(out, &SexpChar{Val: v})
	}
	for _, v := range c07Floats {
		out = append(out, &SexpFloat{Val: v})
	}
	return out
}

func numKind(x Sexp) string {
	switch x.(type) {
	case *SexpInt:
		return "int"
	case *SexpUint64:
		return "uint"
	case *SexpChar:
		return "char"
	case *SexpFloat:
		return "float"
	}
	return "?"
}

func numText(x Sexp) string {
	switch v := x.(type) {
	case *SexpInt:
		return fmt.Sprintf("int %d", v.Val)
	case *SexpUint64:
		return fmt.Sprintf("uint64 %d", v.Val)
	case *SexpChar:
		return fmt.Sprintf("char %d", v.Val)
	case *SexpFloat:
		return fmt.Sprintf("float %v(%016x)", v.Val, math.Float64bits(v.Val))
	}
	return fmt.Sprintf("%T %s", x, show(x))
}

func numBig(x Sexp) *big.Int {
	switch v := x.(type) {
	case *SexpInt:
		return big.NewInt(v.Val)
	case *SexpUint64:
		return new(big.Int).SetUint64(v.Val)
	case *SexpChar:
		return big.NewInt(int64(v.Val))
	}
	return nil
}

func numF(x Sexp) float64 {
	switch v := x.(type) {
	case *SexpInt:
		return float64(v.Val)
	case *SexpUint64:
		return float64(v.Val)
	case *SexpChar:
		return float64(v.Val)
	case *SexpFloat:
		return v.Val
	}
	return 0
}

// refOrder: -1,0,1 or 2 for unordered; ok=false where the property says nothing.
func refOrder(a, b Sexp) (int, bool) {
	ka, kb := numKind(a), numKind(b)
	if ka == "float" || kb == "float" {
		if ka == "uint" || kb == "uint" {
			if math.IsNaN(numF(a)) || math.IsNaN(numF(b)) {
				return 2, false
			}
			return 0, false
		}
		x, y := numF(a), numF(b)
		switch {
		case math.IsNaN(x) || math.IsNaN(y):
			return 2, true
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	}
	if (ka == "uint") != (kb == "uint") {
		return 0, false
	}
	return numBig(a).Cmp(numBig(b)), true
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func wrapEq(got Sexp, want *big.Int) bool {
	g := numBig(got)
	if g == nil {
		return false
	}
	return new(big.Int).Mod(g, two64).Cmp(new(big.Int).Mod(want, two64)) == 0
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

var c07env *Zlisp
var c07count int

var c07Cmp = []string{"<", ">", "<=", ">=", "==", "!="}

// c07Eval evaluates op over the operands bound to a, b through one of the routes.
var c07Routes = []string{"prefix", "infix", "apply", "map", "alias", "inlist", "selector"}

func c07Expr(route, op string) string {
	switch route {
	case "infix":
		return "{va " + op + " vb}"
	case "apply":
		return "(apply " + op + " [va vb])"
	case "map":
		return "(car (map (fn [x] (" + op + " x vb)) (list va)))"
	case "alias":
		return "(let [o " + op + "] (o va vb))"
	case "inlist":
		return "(" + op + " (first (list va)) (second (list 0 vb)))"
	case "selector":
		return "(" + op + " (aget [va] 0) (hget (hash k: vb) k:))"
	}
	return "(" + op + " va vb)"
}

func c07Run(a, b Sexp, src string) (Sexp, error) {
	if c07env == nil || c07count > 3000 {
		c07env, c07count = newIn(), 0
	}
	c07count++
	c07env.AddGlobal("va", a)
	c07env.AddGlobal("vb", b)
	r, err := c07env.EvalString(src)
	if err != nil {
		c07env.Clear()
	}
	return r, err
}

func c07Pair(a, b Sexp, full bool, route string) (fail string, sig string, evals int) {
	say := func(op, got string) string {
		return fmt.Sprintf("%s with va = %s, vb = %s: %s", op, numText(a), numText(b), got)
	}
	routes := []string{route}
	if full {
		routes = c07Routes
	}
	ord, known := refOrder(a, b)
	for _, rt := range routes {
		res := map[string]bool{}
		nerr := 0
		for _, op := range c07Cmp {
			src := c07Expr(rt, op)
			r, err := c07Run(a, b, src)
			evals++
			if err != nil {
				nerr++
				if known {
					return say(src, "error: "+clip(err.Error(), 300)), "compare error " + numKind(a) + " " + numKind(b), evals
				}
				continue
			}
			bv, ok := r.(*SexpBool)
			if !ok {
				return say(src, "not a boolean: "+show(r)), "not bool", evals
			}
			res[op] = bv.Val
			if known {
				want := false
				switch op {
				case "<":
					want = ord == -1
				case ">":
					want = ord == 1
				case "<=":
					want = ord == -1 || ord == 0
				case ">=":
					want = ord == 1 || ord == 0
				case "==":
					want = ord == 0
				case "!=":
					want = ord != 0
				}
				if want != bv.Val {
					return say(src, fmt.Sprintf("gave %v, exact order says %v", bv.Val, want)), "order " + op + " " + numKind(a) + " " + numKind(b), evals
				}
			}
		}
		if nerr != 0 && nerr != len(c07Cmp) {
			return say("comparison", "some operators compare and some do not"), "partial", evals
		}
		if nerr == 0 && !known {
			// whatever the answer, it must be consistent
			n := 0
			for _, op := range []string{"<", "==", ">"} {
				if res[op] {
					n++
				}
			}
			nan := ord == 2
			if nan && (n != 0 || !res["!="]) || !nan && n != 1 || res["=="] == res["!="] {
				return say("comparison", fmt.Sprintf("inconsistent: %v", res)), "trichotomy " + numKind(a) + " " + numKind(b), evals
			}
			for _, pr := range [][2]string{{"<", ">"}, {"==", "=="}, {"<=", ">="}} {
				r, err := c07Run(b, a, c07Expr(rt, pr[1]))
				evals++
				if err != nil {
					return say("comparison", "compares one way round only: "+err.Error()), "one way", evals
				}
				if bv, ok := r.(*SexpBool); !ok || bv.Val != res[pr[0]] {
					return say("comparison", fmt.Sprintf("(%s a b) is %v but (%s b a) is %s", pr[0], res[pr[0]], pr[1], show(r))), "antisymmetry", evals
				}
			}
		}
		// arithmetic
		ka, kb := numKind(a), numKind(b)
		if ka == "char" || kb == "char" {
			continue
		}
		for _, op := range []string{"+", "-", "*", "/", "mod"} {
			src := c07Expr(rt, op)
			if op == "mod" && rt == "selector" {
				continue
			}
			r, err := c07Run(a, b, src)
			evals++
			if ka == "float" || kb == "float" {
				if op == "mod" {
					if err == nil {
						return say(src, "modulo of a float gave "+show(r)), "float mod", evals
					}
					continue
				}
				x, y := numF(a), numF(b)
				if op == "/" && y == 0 {
					continue // error or IEEE value; both are fine
				}
				var want float64
				switch op {
				case "+":
					want = x + y
				case "-":
					want = x - y
				case "*":
					want = x * y
				case "/":
					want = x / y
				}
				if err != nil {
					return say(src, "error: "+clip(err.Error(), 300)), "float arith error", evals
				}
				f, ok := r.(*SexpFloat)
				if !ok || !sameFloat(f.Val, want) {
					return say(src, "gave "+numText(r)+", float64 says "+fmt.Sprint(want)), "float " + op, evals
				}
				continue
			}
			x, y := numBig(a), numBig(b)
			mixed := ka != kb // int with uint64: carried out in uint64
			if mixed {
				x, y = new(big.Int).Mod(x, two64), new(big.Int).Mod(y, two64)
			}
			if (op == "/" || op == "mod") && y.Sign() == 0 {
				if err == nil {
					return say(src, "division by zero gave "+show(r)), "zero " + op, evals
				}
				continue
			}
			if err != nil {
				return say(src, "error: "+clip(err.Error(), 300)), "int arith error " + op, evals
			}
			wantKind := "int"
			if ka == "uint" || kb == "uint" {
				wantKind = "uint"
			}
			var want *big.Int
			switch op {
			case "+":
				want = new(big.Int).Add(x, y)
			case "-":
				want = new(big.Int).Sub(x, y)
			case "*":
				want = new(big.Int).Mul(x, y)
			case "/":
				q, m := new(big.Int).QuoRem(x, y, new(big.Int))
				if m.Sign() != 0 {
					fx, _ := new(big.Float).SetInt(x).Float64()
					fy, _ := new(big.Float).SetInt(y).Float64()
					f, ok := r.(*SexpFloat)
					if !ok || !sameFloat(f.Val, fx/fy) {
						return say(src, fmt.Sprintf("gave %s, want float %v", numText(r), fx/fy)), "inexact /", evals
					}
					continue
				}
				if f, ok := r.(*SexpFloat); ok && q.BitLen() > 63 && wantKind == "int" && f.Val == 1<<63 {
					continue
				}
				want = q
			case "mod":
				want = new(big.Int).Rem(x, y)
			}
			if numKind(r) != wantKind || !wrapEq(r, want) {
				return say(src, fmt.Sprintf("gave %s, want %s mod 2^64 (%s)", numText(r), want, wantKind)), "int " + op + " " + wantKind, evals
			}
		}
	}
	return "", "", evals
}

func c07Rand(g *G, near Sexp) Sexp {
	bits := func() uint64 {
		switch g.Weighted(3, 3, 2, 2) {
		case 0: // small
			return uint64(int64(g.Intn(41)) - 20)
		case 1: // near a power of two
			return uint64(1)<<uint(g.Intn(64)) + uint64(int64(g.Intn(5))-2)
		case 2:
			return -(uint64(1)<<uint(g.Intn(64)) + uint64(int64(g.Intn(5))-2))
		}
		return g.Draw(0)
	}
	if near != nil && g.Chance(1, 3) {
		d := bits()
		if g.Chance(1, 2) {
			d = uint64(1) << 63
		}
		switch v := near.(type) {
		case *SexpInt:
			if g.Chance(1, 3) {
				f := float64(v.Val)
				if g.Chance(1, 2) {
					f = math.Nextafter(f, math.Inf(1-2*g.Intn(2)))
				}
				return &SexpFloat{Val: f}
			}
			return &SexpInt{Val: int64(uint64(v.Val) + d)}
		case *SexpUint64:
			return &SexpUint64{Val: v.Val + d}
		case *SexpFloat:
			if g.Chance(1, 2) {
				return &SexpFloat{Val: math.Nextafter(v.Val, math.Inf(1-2*g.Intn(2)))}
			}
			if math.Abs(v.Val) < 9e18 {
				return &SexpInt{Val: int64(v.Val) + int64(g.Intn(3)) - 1}
			}
		}
	}
	switch g.Weighted(4, 2, 3, 1) {
	case 0:
		return &SexpInt{Val: int64(bits())}
	case 1:
		return &SexpUint64{Val: bits()}
	case 2:
		switch g.Intn(4) {
		case 0:
			return &SexpFloat{Val: float64(int64(bits()))}
		case 1:
			return &SexpFloat{Val: c07Floats[g.Intn(len(c07Floats))]}
		case 2:
			return &SexpFloat{Val: float64(int64(bits())) / 8}
		}
		return &SexpFloat{Val: math.Float64frombits(g.Draw(0))}
	}
	return &SexpChar{Val: rune(g.Intn(0x110000))}
}

func init() {
	pool := c07Pool()
	run := func(a, b Sexp, full bool, route string) Res {
		fail, sig, ev := c07Pair(a, b, full, route)
		return Res{Fail: fail, Sig: sig, NonTrivial: true, Key: numText(a) + "|" + numText(b) + route, Evals: ev,
			Sample: "va = " + numText(a) + ", vb = " + numText(b) + " via " + route}
	}
	register(&Prop{
		ID: "C07", Level: "exploration",
		Rule: "A case is an ordered pair of numeric values (int, uint64, char, float) put through <,>,<=,>=,==,!=,+,-,*,/,mod by one call route or all of them; the grid enumerates all pairs of boundary values, the rest are random bit patterns and neighbours. Every distinct pair and route counts.",
		Assumptions: []string{"math/big and Go's float64 operations are exact/IEEE", "float division by zero may be an error or the IEEE value", "int against uint64 and uint64 against float are only required to be consistent where they compare at all",
			"minimum int divided by -1 may wrap or become a float"},
		Parts: []Part{
			{Name: "grid", Enum: func(string) int { return len(pool) * len(pool) }, Run: func(g *G) Res {
				i := g.I
				a, b := pool[i/len(pool)], pool[i%len(pool)]
				return run(a, b, g.Tier == "thorough", c07Routes[(i/len(pool)+i)%len(c07Routes)])
			}},
			{Name: "random", Quick: 40000, Thorough: 2000000, Run: func(g *G) Res {
				a := c07Rand(g, nil)
				b := c07Rand(g, a)
				g.Label(numKind(a) + "-" + numKind(b))
				return run(a, b, false, c07Routes[g.Intn(len(c07Routes))])
			}},
			{Name: "containers", Quick: 4000, Thorough: 200000, Run: c07Containers},
			{Name: "chains", Quick: 6000, Thorough: 300000, Run: c07Chains},
		},
	})
}

// c07Containers: lists and arrays of numbers compare through the same order.
func c07Containers(g *G) Res {
	n := g.Range(1, 4)
	var xs, ys []Sexp
	want := 0
	for i := 0; i < n; i++ {
		a := c07Rand(g, nil)
		b := a
		if g.Chance(1, 2) {
			b = c07Rand(g, a)
		}
		o, ok := refOrder(a, b)
		if !ok {
			return Res{Skip: true}
		}
		if want == 0 {
			want = o
		}
		xs, ys = append(xs, a), append(ys, b)
	}
	c := g.Intn(2)
	var a, b Sexp
	if c == 0 {
		a, b = &SexpArray{Val: xs}, &SexpArray{Val: ys}
	} else {
		a, b = MakeList(xs), MakeList(ys)
	}
	txt := ""
	for i := range xs {
		txt += numText(xs[i]) + " ~ " + numText(ys[i]) + "; "
	}
	res := Res{NonTrivial: n > 1, Key: fmt.Sprint(c, txt), Sample: fmt.Sprintf("container %d of pairs %s", c, txt), Evals: 4}
	for _, t := range []struct {
		op   string
		want bool
	}{{"==", want == 0}, {"!=", want != 0}, {"<", want == -1}, {">", want == 1}} {
		r, err := c07Run(a, b, "("+t.op+" va vb)")
		if err != nil {
			res.Fail, res.Sig = "("+t.op+" va vb): "+err.Error(), "container error"
			return res
		}
		if bv, ok := r.(*SexpBool); !ok || bv.Val != t.want {
			res.Fail, res.Sig = fmt.Sprintf("(%s va vb) gave %s, element order says %v", t.op, show(r), t.want), "container "+t.op
			return res
		}
	}
	return res
}

// c07Chains: n-ary arithmetic folds from the left.
func c07Chains(g *G) Res {
	n := g.Range(2, 5)
	op := pickS(g, "+", "-", "*", "/")
	var args []Sexp
	for i := 0; i < n; i++ {
		var a Sexp
		for {
			a = c07Rand(g, nil)
			if k := numKind(a); k == "int" || k == "float" {
				break
			}
			a = &SexpInt{Val: int64(g.Intn(9))}
			break
		}
		args = append(args, a)
	}
	txt := op
	for _, a := range args {
		txt += " " + numText(a)
	}
	res := Res{NonTrivial: n > 2, Key: txt, Sample: "(" + txt + ")"}
	acc := args[0]
	for _, b := range args[1:] {
		if op == "/" && numF(b) == 0 {
			return Res{Skip: true}
		}
		_, af := acc.(*SexpFloat)
		_, bf := b.(*SexpFloat)
		if af || bf {
			x, y := numF(acc), numF(b)
			switch op {
			case "+":
				acc = &SexpFloat{Val: x + y}
			case "-":
				acc = &SexpFloat{Val: x - y}
			case "*":
				acc = &SexpFloat{Val: x * y}
			case "/":
				acc = &SexpFloat{Val: x / y}
			}
			continue
		}
		x, y := acc.(*SexpInt).Val, b.(*SexpInt).Val
		switch op {
		case "+":
			acc = &SexpInt{Val: x + y}
		case "-":
			acc = &SexpInt{Val: x - y}
		case "*":
			acc = &SexpInt{Val: x * y}
		case "/":
			if x == math.MinInt64 && y == -1 {
				return Res{Skip: true}
			}
			if x%y == 0 {
				acc = &SexpInt{Val: x / y}
			} else {
				acc = &SexpFloat{Val: float64(x) / float64(y)}
			}
		}
	}
	src := "(" + op
	if c07env == nil {
		c07env = newIn()
	}
	for i, a := range args {
		nm := fmt.Sprintf("vc%d", i)
		c07env.AddGlobal(nm, a)
		src += " " + nm
	}
	src += ")"
	c07count++
	r, err := c07env.EvalString(src)
	if err != nil {
		c07env = nil
		res.Fail, res.Sig = src+": "+err.Error(), "chain error"
		return res
	}
	if numText(r) != numText(acc) && !(numKind(r) == "float" && numKind(acc) == "float" && sameFloat(numF(r), numF(acc))) {
		res.Fail, res.Sig = fmt.Sprintf("%s gave %s, want %s", src, numText(r), numText(acc)), "chain "+op
	}
	return res
}
