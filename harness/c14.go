package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"strings"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// ordered-map model
type hEnt struct {
	k string // canonical key text
	v string // value text as printed
}
type hModel struct{ ents []hEnt }

func (m *hModel) find(k string) int {
	for i, e := range m.ents {
		if e.k == k {
			return i
		}
	}
	return -1
}
func (m *hModel) set(k, v string) {
	if i := m.find(k); i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, hEnt{k, v})
}
func (m *hModel) del(k string) {
	if i := m.find(k); i >= 0 {
		m.ents = append(append([]hEnt(nil), m.ents[:i]...), m.ents[i+1:]...)
	}
}
func (m *hModel) clone() *hModel { return &hModel{append([]hEnt(nil), m.ents...)} }
func (m *hModel) print() string {
	if len(m.ents) == 0 {
		return "{}"
	}
	var p []string
	for _, e := range m.ents {
		p = append(p, c14Keys[e.k].printed+":"+e.v)
	}
	return "{" + strings.Join(p, " ") + "}"
}

// a key: source text (an expression giving the key), the printed form, kind
type hKey struct {
	src     string
	printed string
	kind    string
	name    string // symbol or string content
}

var c14Keys = map[string]hKey{}
var c14Order []string

func c14fnv(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() }

func c14AddKey(k hKey) {
	c14Keys[k.src] = k
	c14Order = append(c14Order, k.src)
}

// c14Init builds the key pool; symbol numbers are looked up so that integer
// keys can be made to fall into the same bucket.
func c14Init() {
	env := newIn()
	sym := func(s string) int { return env.MakeSymbol(s).Number() }
	for _, s := range []string{"a", "b", "key", "zz9"} {
		c14AddKey(hKey{"(quote " + s + ")", s, "sym", s})
	}
	for _, s := range []string{"a", "b", "", "long key", "é"} {
		c14AddKey(hKey{`"` + s + `"`, `"` + s + `"`, "str", s})
	}
	for _, n := range []int{0, 1, -1, 7, 9223372036854775807, sym("a"), sym("b"), int(c14fnv("a")), int(c14fnv("")), int(c14fnv("b"))} {
		t := fmt.Sprint(n)
		if _, dup := c14Keys[t]; !dup {
			c14AddKey(hKey{t, t, "int", ""})
		}
	}
	for _, c := range []string{"x", "Q"} {
		c14AddKey(hKey{"'" + c + "'", "'" + c + "'", "char", ""})
	}
	for _, a := range []string{"[1 2]", "[2 1]", `["a" 1]`, "[]", "[[1] 2]"} {
		c14AddKey(hKey{a, a, "arr", ""})
	}
}

var c14env *Zlisp
var c14uses int

func c14Env() *Zlisp {
	if c14env == nil || c14uses > 150 {
		c14env, c14uses = newIn(), 0
		addEmit(c14env)
	}
	c14uses++
	return c14env
}

var c14KeyVals = map[*Zlisp]map[string]Sexp{}

func c14KeyVal(env *Zlisp, src string) Sexp {
	m := c14KeyVals[env]
	if m == nil {
		c14KeyVals = map[*Zlisp]map[string]Sexp{}
		m = map[string]Sexp{}
		c14KeyVals[env] = m
	}
	if v, ok := m[src]; ok {
		return v
	}
	v, err := env.EvalString(src)
	if err != nil {
		panic("harness: key " + src + ": " + err.Error())
	}
	m[src] = v
	return v
}

type c14State struct {
	env  *Zlisp
	h    []*SexpHash
	m    []*hModel
	log  []string
	fail string
	sig  string

	pretty bool // the current operation is done with pretty printing on
}

func (s *c14State) ev(src string) (Sexp, error) {
	s.log = append(s.log, src)
	r, err := s.env.EvalString(src)
	if err != nil {
		s.env.Clear()
	}
	return r, err
}

func (s *c14State) bad(sig, f string, a ...interface{}) bool {
	if s.fail == "" {
		s.fail, s.sig = fmt.Sprintf(f, a...), sig
	}
	return false
}

// cheap checks after every operation, through the Go API
func (s *c14State) api(i int) bool {
	h, m := s.h[i], s.m[i]
	if n := HashCountKeys(h); n != len(m.ents) {
		return s.bad("count", "h%d has length %d, should be %d (%s)", i, n, len(m.ents), m.print())
	}
	if h.NumKeys != len(m.ents) || len(h.KeyOrder) != len(m.ents) {
		return s.bad("order length", "h%d lists %d keys and counts %d, should be %d (%s)", i, len(h.KeyOrder), h.NumKeys, len(m.ents), m.print())
	}
	if HashIsEmpty(h) != (len(m.ents) == 0) {
		return s.bad("empty", "h%d: empty is wrong", i)
	}
	for j, e := range m.ents {
		kv := c14KeyVal(s.env, e.k)
		if d := deepDiff(h.KeyOrder[j], kv, 0); d != "" {
			return s.bad("order", "h%d key %d: %s (should be %s)", i, j, d, m.print())
		}
		p, err := h.HashPairi(j)
		if err != nil || show(p.Head) != show(kv) {
			return s.bad("pair", "h%d pair %d is %v %v, key should be %s", i, j, show(p), err, e.k)
		}
		v, err := h.HashGet(s.env, kv)
		if err != nil || show(v) != e.v {
			return s.bad("get", "h%d[%s] is %s (%v), should be %s", i, e.k, show(v), err, e.v)
		}
	}
	return true
}

// every way of looking, through scripts
func (s *c14State) full(i int, g *G) bool {
	h, m := fmt.Sprintf("h%d", i), s.m[i]
	if !s.api(i) {
		return false
	}
	want := func(src, w string) bool {
		r, err := s.ev(src)
		if err != nil {
			return s.bad("view error "+strings.Fields(src)[0], "%s: %v (h%d should be %s)", src, clip(err.Error(), 500), i, m.print())
		}
		if show(r) != w {
			return s.bad("view "+strings.Fields(src)[0], "%s gave %s, should be %s", src, show(r), w)
		}
		return true
	}
	n := len(m.ents)
	var ks, pairs []string
	for _, e := range m.ents {
		pk := show(c14KeyVal(s.env, e.k))
		ks = append(ks, pk)
		pairs = append(pairs, pk, e.v)
	}
	emptyRange := "[]"
	if n > 0 {
		emptyRange = "[" + strings.Join(pairs, " ") + "]"
	}
	if !want("(len "+h+")", fmt.Sprint(n)) || !want("(keys "+h+")", "["+strings.Join(ks, " ")+"]") ||
		!want("(empty? "+h+")", fmt.Sprint(n == 0)) || !want("(str "+h+")", show(&SexpStr{S: m.print()})) || !want(h, m.print()) {
		return false
	}
	if !want("(begin (range ka va "+h+" (emit ka va)) (emitted))", emptyRange) {
		return false
	}
	if !want("{ for ka, va := range "+h+" { (emit ka va) }; (emitted) }", emptyRange) {
		return false
	}
	oneType := true
	for _, e := range m.ents {
		if c14Keys[e.k].kind != c14Keys[m.ents[0].k].kind || c14Keys[e.k].kind == "arr" {
			oneType = false // single-variable range over mixed key types: known finding
		}
	}
	if oneType && !want("{ for ka := range "+h+" { (emit ka) }; (emitted) }", "["+strings.Join(ks, " ")+"]") {
		return false
	}
	for j, e := range m.ents {
		if !want(fmt.Sprintf("(hpair %s %d)", h, j), "("+show(c14KeyVal(s.env, e.k))+" "+e.v+")") {
			return false
		}
	}
	for _, pos := range []int{-1, n, n + 1} {
		src := fmt.Sprintf("(hpair %s %d)", h, pos)
		if r, err := s.ev(src); err == nil {
			return s.bad("hpair bounds", "%s gave %s", src, show(r))
		}
	}
	// every key of the pool
	for _, k := range c14Order {
		j := m.find(k)
		key := c14Keys[k]
		routes := []string{"(hget " + h + " " + k + ")"}
		if key.kind == "int" || key.kind == "str" {
			routes = append(routes, "(+ 0 {"+h+"["+k+"]})", "(hget "+h+" ["+k+"])")
		}
		if key.kind == "sym" {
			routes = append(routes, h+"."+key.name, "(:"+key.name+" "+h+")", "{"+h+"."+key.name+"}")
		}
		dflt := "(hget " + h + " " + k + " 4321)"
		if (key.kind == "int" || key.kind == "str") && g.Chance(1, 3) {
			dflt = "(hget " + h + " [" + k + "] 4321)"
		}
		src := routes[g.Intn(len(routes))]
		if strings.HasPrefix(src, "(+ 0") {
			src = "(first (list {" + h + "[" + k + "]}))"
		}
		r, err := s.ev(src)
		if j < 0 {
			_, isSel := r.(Selector)
			if err == nil && !isSel {
				return s.bad("missing", "%s gave %s although the key is not there", src, show(r))
			}
			if err == nil {
				if x, e := r.(Selector).RHS(s.env); e == nil {
					return s.bad("missing", "%s gave %s although the key is not there", src, show(x))
				}
			}
			if !want(dflt, "4321") {
				return false
			}
			continue
		}
		if sel, ok := r.(Selector); ok && err == nil {
			r, err = sel.RHS(s.env)
		}
		if err != nil || show(r) != m.ents[j].v {
			return s.bad("lookup", "%s gave %s (%v), should be %s", src, show(r), err, m.ents[j].v)
		}
		if !want(dflt, m.ents[j].v) {
			return false
		}
	}
	// encodings, where the keys are all symbols
	syms := true
	for _, e := range m.ents {
		if c14Keys[e.k].kind != "sym" {
			syms = false
		}
	}
	if syms {
		g.Label("encoded")
		r, err := s.ev("(json " + h + ")")
		if err != nil {
			return s.bad("json", "(json %s): %v", h, err)
		}
		raw, ok := r.(*SexpRaw)
		if !ok {
			return s.bad("json", "(json %s) is %T", h, r)
		}
		got, err := c14JSON(raw.Val)
		if err != nil {
			return s.bad("json", "(json %s) is %q: %v", h, raw.Val, err)
		}
		w := []string{"Atype=hash"}
		var ord []string
		for _, e := range m.ents {
			w = append(w, c14Keys[e.k].name+"="+e.v)
			ord = append(ord, c14Keys[e.k].name)
		}
		if n > 0 {
			w = append(w, "zKeyOrder="+strings.Join(ord, ","))
		} else if len(got) == 2 && got[1] == "zKeyOrder=" {
			got = got[:1]
		}
		if strings.Join(got, ";") != strings.Join(w, ";") {
			return s.bad("json", "(json %s) is %q: read as %v, should be %v", h, raw.Val, got, w)
		}
		if !want("(unjson (json "+h+"))", m.print()) || !want("(unmsgpack (msgpack "+h+"))", m.print()) {
			return false
		}
		if !want("(keys (unmsgpack (msgpack "+h+")))", "["+strings.Join(ks, " ")+"]") {
			return false
		}
	}
	return s.api(i)
}

// c14JSON flattens a one-level JSON object, keeping the order of the text.
func c14JSON(b []byte) ([]string, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var out []string
	if t, err := d.Token(); err != nil || t != json.Delim('{') {
		return nil, fmt.Errorf("not an object")
	}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		v, err := d.Token()
		if err != nil {
			return nil, err
		}
		txt := fmt.Sprint(v)
		if s, ok := v.(string); ok && k != "Atype" {
			txt = `"` + s + `"`
		}
		if v == json.Delim('[') {
			var xs []string
			for d.More() {
				x, err := d.Token()
				if err != nil {
					return nil, err
				}
				xs = append(xs, fmt.Sprint(x))
			}
			d.Token()
			txt = strings.Join(xs, ",")
			if k != "zKeyOrder" {
				txt = "[" + strings.Join(xs, " ") + "]"
			}
		}
		out = append(out, fmt.Sprint(k)+"="+txt)
	}
	return out, nil
}

var c14Bad = []string{"1.5", "true", "nil", "(hash q: 1)", "(list 1 2)", "(raw \"x\")"}

func (s *c14State) op(g *G, keys []string, nv *int) bool {
	i := g.Intn(len(s.h))
	h, m := fmt.Sprintf("h%d", i), s.m[i]
	k := keys[g.Intn(len(keys))]
	key := c14Keys[k]
	ks := k // how the key is written
	if (key.kind == "int" || key.kind == "str" || key.kind == "char") && g.Chance(1, 8) {
		ks = "[" + k + "]"
		g.Label("one-element array key")
	}
	had := m.find(k) >= 0
	if alt := c14Other[k]; len(alt) > 0 && had && g.Chance(1, 6) {
		ks = alt[g.Intn(len(alt))]
		g.Label("key spelled otherwise")
	}
	if s.pretty = g.Chance(1, 10); s.pretty {
		if _, err := s.ev("(pretty true)"); err != nil {
			return s.bad("pretty", "%v", err)
		}
		g.Label("pretty printing on")
		defer func() {
			if _, err := s.ev("(pretty false)"); err != nil {
				s.bad("pretty", "%v", err)
			}
		}()
	}
	switch w := g.Weighted(8, 6, 1, 1, 1, 1); w {
	case 0: // set
		*nv++
		v := fmt.Sprint(*nv)
		switch g.Weighted(6, 2, 1) {
		case 1:
			v = `"s` + v + `"`
		case 2:
			v = "[" + v + " 1]"
		}
		routes := []string{"(hset " + h + " " + ks + " " + v + ")", "api"}
		if key.kind == "int" || key.kind == "str" {
			routes = append(routes, "{"+h+"["+k+"] = "+v+"}", "(set (hashidx "+h+" "+k+") "+v+")")
		}
		if key.kind == "sym" {
			routes = append(routes, "{"+h+"."+key.name+" = "+v+"}", "(set "+h+"."+key.name+" "+v+")", "(hset "+h+" "+key.name+": "+v+")")
		}
		changed := ""
		if key.kind == "arr" && k != "[]" && g.Chance(1, 3) {
			routes = []string{"(begin (def kv " + ks + ") (hset " + h + " kv " + v + ") (aset kv 0 77))"}
			changed = "the array that was the key is changed"
		}
		src := routes[g.Intn(len(routes))]
		if changed != "" {
			g.Label(changed)
		}
		if src == "api" {
			s.log = append(s.log, "Go: "+h+".HashSet("+ks+", "+v+")")
			vv, err := s.env.EvalString(v)
			if err == nil {
				err = s.h[i].HashSet(c14KeyVal(s.env, ks), vv)
			}
			if err != nil {
				return s.bad("set error", "HashSet %s: %v", ks, err)
			}
		} else if _, err := s.ev(src); err != nil {
			return s.bad("set error", "%s: %v", src, err)
		}
		if had {
			g.Label("update")
		} else {
			g.Label("insert")
		}
		m.set(k, v)
	case 1: // delete
		if g.Chance(1, 3) {
			s.log = append(s.log, "Go: "+h+".HashDelete("+ks+")")
			if err := s.h[i].HashDelete(c14KeyVal(s.env, ks)); err != nil {
				return s.bad("delete error", "HashDelete %s: %v", ks, err)
			}
		} else if _, err := s.ev("(hdel " + h + " " + ks + ")"); err != nil {
			return s.bad("delete error", "hdel %s: %v", ks, err)
		}
		if had {
			g.Label("delete present")
		} else {
			g.Label("delete missing")
		}
		m.del(k)
	case 2: // a key that cannot be hashed
		b := c14Bad[g.Intn(len(c14Bad))]
		src := "(hset " + h + " " + b + " 1)"
		if g.Chance(1, 3) {
			src = "(hdel " + h + " " + b + ")"
		}
		if r, err := s.ev(src); err == nil {
			return s.bad("bad key", "%s gave %s", src, show(r))
		}
		g.Label("unhashable key")
	case 3: // copy through a pointer
		j := g.Intn(len(s.h))
		if j == i {
			return true
		}
		if _, err := s.ev(fmt.Sprintf("(derefSet (& h%d) h%d)", i, j)); err != nil {
			return s.bad("copy", "%v", err)
		}
		s.m[i] = s.m[j].clone()
		g.Label("copy")
	case 4: // start over with a literal
		*nv += 2
		k2 := keys[g.Intn(len(keys))]
		src := fmt.Sprintf("(def %s (hash %s %d %s %d))", h, k, *nv-1, k2, *nv)
		s.m[i] = &hModel{}
		s.m[i].set(k, fmt.Sprint(*nv-1))
		s.m[i].set(k2, fmt.Sprint(*nv))
		r, err := s.ev(src)
		if err != nil {
			return s.bad("literal", "%s: %v", src, err)
		}
		s.h[i] = r.(*SexpHash)
		g.Label("literal")
	case 5:
		if j := m.find(k); j >= 0 && key.kind == "arr" && k != "[]" && g.Chance(1, 2) {
			src := fmt.Sprintf("(aset (aget (keys %s) %d) 0 77)", h, j)
			if g.Chance(1, 2) {
				src = fmt.Sprintf("(aset (first (hpair %s %d)) 0 77)", h, j)
			}
			if _, err := s.ev(src); err != nil {
				return s.bad("key list", "%s: %v", src, err)
			}
			g.Label("a key given out is changed")
			return true
		}
		if s.pretty {
			r, err := s.ev("(hget " + h + " " + ks + " 4321)")
			s.env.Pretty = false
			w := "4321"
			if had {
				w = m.ents[m.find(k)].v
			}
			if err != nil || show(r) != w {
				return s.bad("lookup while pretty", "(hget %s %s 4321) gave %s (%v), should be %s", h, ks, show(r), err, w)
			}
			return true
		}
		return s.full(i, g)
	}
	return true
}

// c14Other has other ways to write a key.
var c14Other = map[string][]string{
	"[1 2]":     {"[1.0 2]", "[0x1 0b10]", "(append [1] 2)"},
	`["a" 1]`:   {"[`a` 1]", `[(concat "" "a") 1.0]`},
	"[[1] 2]":   {"[[1.0] 2]", "(array (array 1) 2)"},
	`"a"`:       {"`a`", `(slice "xa" 1 2)`},
	`""`:        {"``", `(slice "xa" 1 1)`},
	"7":         {"0x7", "(+ 3 4)", "7_"},
	"-1":        {"(- 0 1)"},
	"'x'":       {`'\x78'`, `'\u0078'`},
	"(quote a)": {"%a", `(str2sym "a")`},
	`"é"`:       {"`é`", `"\u00e9"`},
}

func (s *c14State) start(n int) {
	s.env = c14Env()
	for i := 0; i < n; i++ {
		r, err := s.ev(fmt.Sprintf("(def h%d (hash))", i))
		if err != nil {
			panic("harness: " + err.Error())
		}
		s.h = append(s.h, r.(*SexpHash))
		s.m = append(s.m, &hModel{})
	}
}

func (s *c14State) result(nt bool) Res {
	txt := strings.Join(s.log, "\n")
	if s.fail != "" {
		c14env = nil
	}
	return Res{Fail: s.fail, Sig: s.sig, NonTrivial: nt, Key: txt, Sample: txt, Evals: len(s.log)}
}

func c14Random(g *G) Res {
	s := &c14State{}
	s.start(g.Range(1, 2))
	var keys []string
	for i, n := 0, g.Range(1, 6); i < n; i++ {
		if g.Chance(1, 3) { // one kind, so that encodings are looked at
			keys = append(keys, c14Order[g.Intn(4)])
			continue
		}
		keys = append(keys, c14Order[g.Intn(len(c14Order))])
	}
	if g.Chance(1, 3) {
		keys = c14Order[:4]
	}
	nv, dels := 0, 0
	n := g.Range(1, 24)
	for j := 0; j < n && s.fail == ""; j++ {
		if !s.op(g, keys, &nv) {
			break
		}
		for i := range s.h {
			if !s.api(i) {
				break
			}
		}
	}
	for _, l := range s.log {
		if strings.Contains(l, "hdel") || strings.Contains(l, "Delete") {
			dels++
		}
	}
	if s.fail == "" {
		for i := range s.h {
			s.full(i, g)
		}
	}
	return s.result(dels > 0 && nv > 1)
}

// c14Enum runs every sequence of sets and deletes over three keys.
func c14Enum(depth int, keys []string) func(g *G) Res {
	return func(g *G) Res {
		s := &c14State{}
		s.start(1)
		x := g.I
		nops := 2 * len(keys)
		for d := 0; d < depth && s.fail == ""; d++ {
			o := x % nops
			x /= nops
			k := keys[o/2]
			kv := c14KeyVal(s.env, k)
			if o%2 == 0 {
				s.log = append(s.log, fmt.Sprintf("HashSet %s %d", k, d))
				if err := s.h[0].HashSet(kv, &SexpInt{Val: int64(d)}); err != nil {
					s.bad("set error", "%v", err)
				}
				s.m[0].set(k, fmt.Sprint(d))
			} else {
				s.log = append(s.log, "HashDelete "+k)
				if err := s.h[0].HashDelete(kv); err != nil {
					s.bad("delete error", "%v", err)
				}
				s.m[0].del(k)
			}
			s.api(0)
		}
		if s.fail == "" && g.I%64 == 7 {
			s.full(0, g)
		}
		return s.result(true)
	}
}

func init() {
	c14Init()
	pow := func(b, e int) int {
		n := 1
		for ; e > 0; e-- {
			n *= b
		}
		return n
	}
	envSyms := []string{"(quote a)", fmt.Sprint(newIn().MakeSymbol("a").Number()), `"a"`}
	coll := []string{`"a"`, fmt.Sprint(int(c14fnv("a"))), "[1 2]"}
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule:        "A case is a history of set/update/delete/copy/literal operations (through hset, index, dot path, pointer copy, Go API, one-element-array spellings, unhashable keys) over a pool of symbol, string, int, char and array keys with bucket collisions built in; after each step length, key order, pairs and values are compared with an ordered-map model, and every view (len, keys, hpair, range macro, go range, str, print, json, msgpack, lookups of all pool keys) at the end. Non-trivial: at least one delete and two sets. The enumerated parts run every sequence of set/delete over three keys up to the given length.",
		Assumptions: []string{"keys that compare equal across kinds (a char and its code) are not mixed", "the hash is not changed while it is being iterated"},
		Parts: []Part{
			{Name: "all sequences, symbol/int collision", Enum: func(t string) int { return pow(6, map[string]int{"quick": 5, "thorough": 7}[t]) },
				Run: func(g *G) Res { return c14Enum(map[string]int{"quick": 5, "thorough": 7}[g.Tier], envSyms)(g) }},
			{Name: "all sequences, string/int collision", Enum: func(t string) int { return pow(6, map[string]int{"quick": 5, "thorough": 7}[t]) },
				Run: func(g *G) Res { return c14Enum(map[string]int{"quick": 5, "thorough": 7}[g.Tier], coll)(g) }},
			{Name: "random", Quick: 5000, Thorough: 300000, Run: c14Random},
		},
		Findings: map[string]func() string{
			"C14-single-range-mixed-keys": func() string {
				env := newIn()
				_, err := env.EvalString(`{ h = (hash a: 1 "b" 2); for k := range h { 1 } }`)
				if err != nil {
					return err.Error()
				}
				return ""
			},
		},
	})
}
