package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	. "github.com/glycerine/zygomys/v9/zygo"
)

var c11env *Zlisp
var c11uses int

var c11Types = []string{"hash", "hash", "ranch", "Car", "t2", "émile"}

func c11Env() *Zlisp {
	if c11env == nil || c11uses > 300 {
		c11env, c11uses = newIn(), 0
		for _, t := range []string{"ranch", "t2"} {
			if _, err := c11env.EvalString("(defmap " + t + ")"); err != nil {
				panic("harness: " + err.Error())
			}
		}
		if _, err := c11env.EvalString("(struct Car [(field wheels: int64 e:0) (field name: string e:1) (field tags: ([]string) e:2)])"); err != nil {
			panic("harness: " + err.Error())
		}
	}
	c11uses++
	return c11env
}

var c11Names = []string{"a", "b", "zz", "Key", "id", "a.b", "a b", "", "\"", "\\", "\n", "é", "日本", "\x00", "1", "nil", "true", "a:", ":", ",", "#x", "?y", "Atyp", "AType", "zkeyorder", "hash", "<&>", "\u2028", "'", "`", "/", "😀", "type", "TypeName"}

func c11Name(g *G) string {
	if g.Chance(1, 2) {
		return c11Names[g.Intn(5)]
	}
	if g.Chance(2, 3) {
		return c11Names[g.Intn(len(c11Names))]
	}
	s := genStr(g, false)
	if s == "Atype" || s == "zKeyOrder" {
		return "q"
	}
	return s
}

func c11Value(g *G, env *Zlisp, depth int, strKeys bool) Sexp {
	o := &dOpt{env: env, uint: true}
	if depth <= 0 || g.Chance(1, 4) {
		x := genScalar(g, o)
		return x
	}
	if g.Chance(1, 3) {
		n := g.Intn(5)
		var xs []Sexp
		for i := 0; i < n; i++ {
			xs = append(xs, c11Value(g, env, depth-1, strKeys))
		}
		return env.NewSexpArray(xs)
	}
	typ := c11Types[g.Intn(len(c11Types))]
	if strKeys {
		typ = "hash"
	}
	h, err := MakeHash(nil, typ, env)
	if err != nil {
		panic("harness: MakeHash " + typ + ": " + err.Error())
	}
	set := func(k string, v Sexp) {
		var key Sexp = env.MakeSymbol(k)
		if strKeys {
			key = &SexpStr{S: k}
		}
		if err := h.HashSet(key, v); err != nil {
			panic("harness: HashSet " + k + ": " + err.Error())
		}
	}
	if typ == "Car" {
		for _, k := range [][]string{{"name", "wheels", "tags"}, {"tags", "wheels"}, {"name"}, {}}[g.Intn(4)] {
			switch k {
			case "wheels":
				set(k, &SexpInt{Val: genInt(g)})
			case "name":
				set(k, &SexpStr{S: genStr(g, false)})
			case "sub":
				s := c11Value(g, env, depth-1, strKeys)
				if y, ok := s.(*SexpHash); !ok || y.TypeName != "hash" {
					s = SexpNull
				}
				set(k, s)
			case "tags":
				var xs []Sexp
				for i := g.Intn(3); i > 0; i-- {
					xs = append(xs, &SexpStr{S: genStr(g, false)})
				}
				set(k, env.NewSexpArray(xs))
			}
		}
		return h
	}
	n := g.Intn(6)
	for i := 0; i < n; i++ {
		k := c11Name(g)
		set(k, c11Value(g, env, depth-1, strKeys))
	}
	if g.Chance(1, 6) && h.NumKeys > 0 { // a history of its own
		k := h.KeyOrder[g.Intn(len(h.KeyOrder))]
		v, _ := h.HashGet(nil, k)
		h.HashDelete(k)
		if g.Chance(1, 2) {
			h.HashSet(k, v)
		}
	}
	return h
}

func sexpRat(x Sexp) *big.Rat {
	switch v := x.(type) {
	case *SexpInt:
		return new(big.Rat).SetInt64(v.Val)
	case *SexpUint64:
		return new(big.Rat).SetInt(new(big.Int).SetUint64(v.Val))
	case *SexpFloat:
		return new(big.Rat).SetFloat64(v.Val)
	}
	return nil
}

// jsonDiff compares a value with its decoded form: numbers by value.
func jsonDiff(a, b Sexp) string {
	if p := sexpRat(a); p != nil {
		q := sexpRat(b)
		if q == nil || p.Cmp(q) != 0 {
			return fmt.Sprintf("%s became %s", describe(a), describe(b))
		}
		return ""
	}
	switch x := a.(type) {
	case *SexpArray:
		y, ok := b.(*SexpArray)
		if !ok || len(x.Val) != len(y.Val) {
			return fmt.Sprintf("%s became %s", describe(a), describe(b))
		}
		for i := range x.Val {
			if d := jsonDiff(x.Val[i], y.Val[i]); d != "" {
				return d
			}
		}
		return ""
	case *SexpHash:
		y, ok := b.(*SexpHash)
		if !ok || x.TypeName != y.TypeName || len(x.KeyOrder) != len(y.KeyOrder) {
			return fmt.Sprintf("%s became %s", describe(a), describe(b))
		}
		for i := range x.KeyOrder {
			if d := deepDiff(x.KeyOrder[i], y.KeyOrder[i], 0); d != "" {
				return "field order or name: " + d
			}
			xv, e1 := x.HashGet(nil, x.KeyOrder[i])
			yv, e2 := y.HashGet(nil, y.KeyOrder[i])
			if e1 != nil || e2 != nil {
				return fmt.Sprintf("field %s: %v %v", describe(x.KeyOrder[i]), e1, e2)
			}
			if d := jsonDiff(xv, yv); d != "" {
				return "in field " + describe(x.KeyOrder[i]) + ": " + d
			}
		}
		return ""
	}
	return deepDiff(a, b, 0)
}

// denotes compares a value with what encoding/json makes of its JSON.
func denotes(x Sexp, j interface{}, meta bool) string {
	bad := func() string { return fmt.Sprintf("%s is written as %#v", describe(x), j) }
	if p := sexpRat(x); p != nil {
		n, ok := j.(json.Number)
		if !ok {
			return bad()
		}
		// a decoder gives a float its nearest double
		q, ok := new(big.Rat).SetString(n.String())
		if !ok {
			return bad()
		}
		if _, isF := x.(*SexpFloat); isF {
			f1, _ := p.Float64()
			f2, _ := q.Float64()
			if f1 != f2 {
				return bad()
			}
			return ""
		}
		if p.Cmp(q) != 0 {
			return bad()
		}
		return ""
	}
	switch v := x.(type) {
	case *SexpStr:
		if s, ok := j.(string); !ok || s != v.S {
			return bad()
		}
	case *SexpBool:
		if s, ok := j.(bool); !ok || s != v.Val {
			return bad()
		}
	case *SexpSentinel:
		if j != nil {
			return bad()
		}
	case *SexpArray:
		s, ok := j.([]interface{})
		if !ok || len(s) != len(v.Val) {
			return bad()
		}
		for i := range s {
			if d := denotes(v.Val[i], s[i], meta); d != "" {
				return d
			}
		}
	case *SexpHash:
		m, ok := j.(map[string]interface{})
		if !ok {
			return bad()
		}
		extra := 0
		if meta {
			if m["Atype"] != v.TypeName {
				return bad()
			}
			extra = 1
			if len(v.KeyOrder) > 0 {
				extra = 2
				ko, ok := m["zKeyOrder"].([]interface{})
				if !ok || len(ko) != len(v.KeyOrder) {
					return bad()
				}
				for i := range ko {
					if ko[i] != c11KeyName(v.KeyOrder[i]) {
						return bad()
					}
				}
			}
		}
		if len(m) != len(v.KeyOrder)+extra {
			return bad()
		}
		for _, k := range v.KeyOrder {
			e, err := v.HashGet(nil, k)
			if err != nil {
				return err.Error()
			}
			f, has := m[c11KeyName(k)]
			if !has {
				return bad()
			}
			if d := denotes(e, f, meta); d != "" {
				return d
			}
		}
	default:
		return "harness: " + bad()
	}
	return ""
}

func c11KeyName(k Sexp) string {
	switch v := k.(type) {
	case *SexpSymbol:
		return v.Name()
	case *SexpStr:
		return v.S
	}
	return show(k)
}

func stdJSON(text []byte) (interface{}, error) {
	if !utf8.Valid(text) {
		return nil, fmt.Errorf("not UTF-8")
	}
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var j interface{}
	if err := d.Decode(&j); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return j, nil
}

func c11Run(g *G) Res {
	env := c11Env()
	v := c11Value(g, env, g.Intn(5), false)
	desc := describe(v)
	res := Res{Key: desc, Sample: desc, NonTrivial: dSize(v) > 1}
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = clip(fmt.Sprintf(f, a...), 3000), sig
		return res
	}
	env.AddGlobal("v", v)
	ev := func(src string) (Sexp, error) {
		x, err := env.EvalString(src)
		if err != nil {
			env.Clear()
		}
		return x, err
	}
	before := desc
	for _, c := range [][2]string{{"json", "(unjson (json v))"}, {"msgpack", "(unmsgpack (msgpack v))"}, {"twice", "(unjson (json (unmsgpack (msgpack (unjson (json v))))))"}} {
		res.Evals++
		x, err := ev(c[1])
		if err != nil {
			return bad(c[0]+" error", "%s of %s: %v", c[1], desc, clip(err.Error(), 500))
		}
		if d := jsonDiff(v, x); d != "" {
			return bad(c[0]+" differs", "%s of %s: %s", c[1], desc, d)
		}
		if y, ok := x.(*SexpHash); ok && HashCountKeys(y) != len(v.(*SexpHash).KeyOrder) {
			return bad(c[0]+" length", "%s of %s has length %d", c[1], desc, HashCountKeys(y))
		}
	}
	raw, err := ev("(raw2str (json v))")
	if err != nil {
		return bad("json text", "(raw2str (json v)) of %s: %v", desc, err)
	}
	text := raw.(*SexpStr).S
	if j, err := stdJSON([]byte(text)); err != nil {
		return bad("not JSON", "%s is written as %q: %v", desc, text, err)
	} else if d := denotes(v, j, true); d != "" {
		return bad("JSON denotes", "%s is written as %q: %s", desc, text, d)
	}
	if t2 := SexpToJson(v); t2 != text {
		return bad("SexpToJson", "SexpToJson of %s gives %q, (json v) gives %q", desc, t2, text)
	}
	// a standard encoder's rendering of the same JSON is read, too
	j, _ := stdJSON([]byte(text))
	std, _ := json.Marshal(j)
	if x, err := JsonToSexp(std, env); err != nil || jsonDiff(v, x) != "" {
		return bad("JsonToSexp", "%q read by JsonToSexp is %s, %v; should be %s", std, describe(x), err, desc)
	}
	if j2 := c11json2(env, ev, g); j2.err != "" {
		return bad("json2 error", "(json2 v) of %s: %s", desc, j2.err)
	} else if j, err := stdJSON([]byte(j2.text)); err != nil {
		return bad("json2 not JSON", "(json2 v) of %s is %q: %v", desc, j2.text, err)
	} else if d := denotes(v, j, false); d != "" {
		return bad("json2 denotes", "(json2 v) of %s is %q: %s", desc, j2.text, d)
	}
	if describe(v) != before {
		return bad("changed", "encoding changed %s to %s", before, describe(v))
	}
	return res
}

type j2res struct{ text, err string }

func c11json2(env *Zlisp, ev func(string) (Sexp, error), g *G) j2res {
	pretty := g.Chance(1, 6)
	if pretty {
		if _, err := ev("(pretty true)"); err != nil {
			return j2res{err: err.Error()}
		}
		defer ev("(pretty false)")
	}
	x, err := ev("(json2 v)")
	if err != nil {
		return j2res{err: err.Error()}
	}
	return j2res{text: x.(*SexpStr).S}
}

// JSON-style source text, as found in .json files
func c11Source(g *G) Res {
	env := c11Env()
	v := c11Value(g, env, 1+g.Intn(4), true)
	var b strings.Builder
	c11Text(g, &b, v)
	src := b.String()
	res := Res{Key: src, Sample: src, NonTrivial: dSize(v) > 1}
	bad := func(sig, f string, a ...interface{}) Res {
		res.Fail, res.Sig = clip(fmt.Sprintf(f, a...), 3000), sig
		return res
	}
	ev := func(src string) (Sexp, error) {
		x, err := env.EvalString(src)
		if err != nil {
			env.Clear()
		}
		return x, err
	}
	x, err := ev(src)
	if err != nil {
		return bad("source error", "%s: %v", src, clip(err.Error(), 500))
	}
	if d := jsonDiff(v, x); d != "" {
		return bad("source differs", "%s gave %s: %s", src, describe(x), d)
	}
	env.AddGlobal("v", x)
	raw, err := ev("(raw2str (json v))")
	if err != nil {
		return bad("json error", "(json v) for %s: %v", src, err)
	}
	text := raw.(*SexpStr).S
	if j, err := stdJSON([]byte(text)); err != nil {
		return bad("not JSON", "%s is written as %q: %v", src, text, err)
	} else if d := denotes(v, j, true); d != "" {
		return bad("JSON denotes", "%s is written as %q: %s", src, text, d)
	}
	if j2 := c11json2(env, ev, g); j2.err != "" {
		return bad("json2 error", "(json2 v) of %s: %s", src, j2.err)
	} else if j, err := stdJSON([]byte(j2.text)); err != nil {
		return bad("json2 not JSON", "(json2 v) of %s is %q: %v", src, j2.text, err)
	} else if d := denotes(v, j, false); d != "" {
		return bad("json2 denotes", "(json2 v) of %s is %q: %s", src, j2.text, d)
	}
	// and through the encodings: the keys come back as symbols of the same names
	for _, s := range []string{"(json2 (unjson (json v)))", "(json2 (unmsgpack (msgpack v)))"} {
		x, err := ev(s)
		if err != nil {
			return bad("round trip error", "%s for %s: %v", s, src, err)
		}
		j, err := stdJSON([]byte(x.(*SexpStr).S))
		if err != nil {
			return bad("round trip JSON", "%s for %s: %v", s, src, err)
		}
		if d := denotes(v, j, false); d != "" {
			return bad("round trip denotes", "%s for %s: %s", s, src, d)
		}
	}
	return res
}

func c11Text(g *G, b *strings.Builder, x Sexp) {
	sp := func() { b.WriteString(pickS(g, " ", "", "\n", "  ")) }
	switch v := x.(type) {
	case *SexpHash:
		b.WriteString("{")
		sp()
		for i, k := range v.KeyOrder {
			if i > 0 {
				b.WriteString(", ")
				sp()
			}
			c11Text(g, b, k)
			b.WriteString(":")
			sp()
			e, _ := v.HashGet(nil, k)
			c11Text(g, b, e)
		}
		sp()
		b.WriteString("}")
	case *SexpArray:
		b.WriteString("[")
		sp()
		for i, e := range v.Val {
			if i > 0 {
				b.WriteString(", ")
			}
			c11Text(g, b, e)
		}
		b.WriteString("]")
	default:
		b.WriteString(show(x))
	}
}

func init() {
	register(&Prop{ID: "C11", Level: "exploration",
		Rule:        "the value has more than one node",
		Assumptions: []string{"strings are valid UTF-8", "floats are finite (JSON has no others; encoding them is an error)"},
		Parts: []Part{
			{Name: "values", Quick: 30000, Thorough: 1200000, Run: c11Run},
			{Name: "source", Quick: 15000, Thorough: 600000, Run: c11Source},
		},
		Findings: map[string]func() string{"C11-reserved-keys": func() string {
			for _, src := range []string{"(unjson (json (hash Atype:1)))", "(unmsgpack (msgpack (hash zKeyOrder:[])))"} {
				if x, err := newIn().EvalString(src); err != nil || HashCountKeys(x.(*SexpHash)) != 1 {
					return src
				}
			}
			return ""
		}},
	})
}
