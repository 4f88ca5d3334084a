package main

import (
	"math"
	"strings"
)

// The rest of the core builtins, for the reference evaluator.

func init() {
	b := rBuiltins
	b["car"], b["cdr"] = b["first"], b["rest"]
	for n, f := range map[string]func(v val) bool{
		"list?": func(v val) bool { _, ok := rslice(v); return ok },
		"number?": func(v val) bool {
			switch v.(type) {
			case int64, float64, ch:
				return true
			}
			return false
		},
		"char?": func(v val) bool { _, ok := v.(ch); return ok },
		"zero?": func(v val) bool {
			switch x := v.(type) {
			case int64:
				return x == 0
			case float64:
				return x == 0
			case ch:
				return x == 0
			}
			return false
		},
		"empty?": func(v val) bool {
			switch x := v.(type) {
			case nil:
				return true
			case *rArr:
				return len(x.v) == 0
			case *rHash:
				return len(x.keys) == 0
			}
			return false
		},
		"func?": isFn,
		"isnan": func(v val) bool { f, ok := v.(float64); return ok && math.IsNaN(f) },
	} {
		n, f := n, f
		b[n] = func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			if _, isU := a[0].(u64); isU || isSym(a[0]) {
				return nil, undet(n + " of a symbol")
			}
			if s, isS := a[0].(string); isS && s == "" && n == "empty?" {
				return nil, undet("empty? of a string")
			}
			return f(a[0]), nil
		}
	}
	b["isNaN"] = b["isnan"]
	b["type?"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 1, 1); s != nil {
			return nil, s
		}
		switch x := a[0].(type) {
		case int64, float64, string, bool, ch, u64:
			return rtype(x), nil
		case *rArr:
			return "array", nil
		case *rPair:
			return "list", nil
		case *rFn, *rBi:
			return "func", nil
		case *rHash:
			return "hash", nil
		case nil:
			return "nil", nil
		}
		return nil, undet("type? of a symbol")
	}
	for n, f := range map[string]func(x, y int64) int64{
		"bitAnd": func(x, y int64) int64 { return x & y },
		"bitOr":  func(x, y int64) int64 { return x | y },
		"bitXor": func(x, y int64) int64 { return x ^ y },
		"sll": func(x, y int64) int64 {
			if uint64(y) > 63 {
				return 0
			}
			return x << uint64(y)
		},
		"srl": func(x, y int64) int64 {
			if uint64(y) > 63 {
				return 0
			}
			return int64(uint64(x) >> uint64(y))
		},
		"sra": func(x, y int64) int64 {
			if uint64(y) > 63 {
				y = 63
			}
			return x >> uint64(y)
		},
	} {
		n, f := n, f
		b[n] = func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 2, 2); s != nil {
				return nil, s
			}
			for _, x := range a {
				switch x.(type) {
				case u64, ch, sy, kw:
					return nil, undet(n)
				}
			}
			x, ok := a[0].(int64)
			y, ok2 := a[1].(int64)
			if !ok || !ok2 {
				return nil, rerr("%s", n)
			}
			if y < 0 && n[0] == 's' {
				return nil, undet("shift by a negative number")
			}
			return f(x, y), nil
		}
	}
	b["bitNot"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 1, 1); s != nil {
			return nil, s
		}
		switch x := a[0].(type) {
		case int64:
			return ^x, nil
		case u64, ch, sy, kw:
			return nil, undet("bitNot")
		}
		return nil, rerr("bitNot")
	}
	b["slice"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 3, 3); s != nil {
			return nil, s
		}
		i, ok := a[1].(int64)
		j, ok2 := a[2].(int64)
		if !ok || !ok2 {
			return nil, undet("slice at what is no integer")
		}
		switch x := a[0].(type) {
		case *rArr:
			if i < 0 || j < i || j > int64(len(x.v)) {
				return nil, rerr("slice")
			}
			if s := x.touch(); s != nil {
				return nil, s
			}
			*x.hot = true // shares its memory with x
			return &rArr{v: append([]val{}, x.v[i:j]...), hot: x.hot}, nil
		case string:
			if i < 0 || j < i || j > int64(len(x)) {
				return nil, rerr("slice")
			}
			return x[i:j], nil
		}
		return nil, rerr("slice")
	}
	b["sget"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 2, 2); s != nil {
			return nil, s
		}
		x, ok := a[0].(string)
		i, ok2 := a[1].(int64)
		if !ok2 {
			return nil, undet("sget at what is no integer")
		}
		if !ok {
			return nil, rerr("sget")
		}
		if i < 0 || i >= int64(len(x)) {
			return nil, undet("sget out of range") // an error, by way of a panic
		}
		if x[i] >= 0x80 {
			return nil, undet("sget of a byte")
		}
		return ch(x[i]), nil
	}
	one := b["append"]
	b["append"] = func(r *revl, a []val) (val, *sig) {
		if len(a) == 2 {
			if s, ok := a[0].(string); ok {
				if c, ok := a[1].(ch); ok {
					return s + string(rune(c)), nil
				}
			}
		}
		return one(r, a)
	}
	b["appendslice"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 2, 2); s != nil {
			return nil, s
		}
		x, ok := a[0].(*rArr)
		y, ok2 := a[1].(*rArr)
		if !ok {
			if _, isStr := a[0].(string); isStr {
				return nil, undet("appendslice to a string")
			}
			return nil, rerr("appendslice")
		}
		if !ok2 {
			return nil, rerr("appendslice")
		}
		if s := x.touch(); s != nil {
			return nil, s
		}
		*x.hot = true
		return &rArr{v: append(append([]val{}, x.v...), y.v...), hot: x.hot}, nil
	}
	b["makeArray"] = func(r *revl, a []val) (val, *sig) {
		if len(a) < 1 {
			return nil, rerr("makeArray")
		}
		n, ok := a[0].(int64)
		if !ok {
			if isSym(a[0]) {
				return nil, undet("makeArray")
			}
			return nil, rerr("makeArray")
		}
		if n > 1000 || len(a) > 2 {
			return nil, undet("makeArray")
		}
		if n < 0 {
			return nil, rerr("makeArray")
		}
		v := make([]val, n)
		if len(a) == 2 {
			for i := range v {
				v[i] = a[1]
			}
		}
		return &rArr{v: v, hot: new(bool)}, nil
	}
	b["hpair"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 2, 2); s != nil {
			return nil, s
		}
		i, ok := a[1].(int64)
		if !ok {
			return nil, undet("hpair at what is no integer")
		}
		switch x := a[0].(type) {
		case *rHash:
			if i < 0 || i >= int64(len(x.keys)) {
				return nil, rerr("hpair")
			}
			return rlist([]val{x.keys[i], x.m[rdesc(x.keys[i])]}), nil
		case *rArr:
			if i < 0 || i >= int64(len(x.v)) {
				return nil, rerr("hpair")
			}
			return rlist([]val{i, x.v[i]}), nil
		case sy, kw:
			return nil, undet("hpair")
		}
		return nil, rerr("hpair")
	}
	split := func(s, sep string) val {
		x := &rArr{hot: new(bool)}
		for _, y := range strings.Split(s, sep) {
			x.v = append(x.v, y)
		}
		return x
	}
	b["split"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 2, 2); s != nil {
			return nil, s
		}
		x, ok := a[0].(string)
		y, ok2 := a[1].(string)
		if !ok || !ok2 {
			if isSym(a[0]) || isSym(a[1]) {
				return nil, undet("split")
			}
			return nil, rerr("split")
		}
		return split(x, y), nil
	}
	for n, f := range map[string]func(s string) val{
		"nsplit": func(s string) val { return split(s, "\n") },
		"chomp":  func(s string) val { return strings.TrimSuffix(s, "\n") },
		"trim":   func(s string) val { return strings.TrimSpace(s) },
		"str2sym": func(s string) val {
			if strings.HasSuffix(s, ":") {
				return kw(s)
			}
			return sy(s)
		},
	} {
		n, f := n, f
		b[n] = func(r *revl, a []val) (val, *sig) {
			if s := argc(a, 1, 1); s != nil {
				return nil, s
			}
			if isSym(a[0]) {
				return nil, undet(n)
			}
			x, ok := a[0].(string)
			if !ok {
				return nil, rerr("%s", n)
			}
			return f(x), nil
		}
	}
	b["sym2str"] = func(r *revl, a []val) (val, *sig) {
		if s := argc(a, 1, 1); s != nil {
			return nil, s
		}
		switch x := a[0].(type) {
		case sy:
			return string(x), nil
		case kw:
			return nil, undet("sym2str of a key")
		}
		return nil, rerr("sym2str")
	}
}

// more is an expression of type t that calls one of these; nil when t has none.
func (p *pgen) more(t gty, d int) X {
	g := p.g
	e := func(t gty) X { return p.expr(t, d-1) }
	any := func() X { return e([]gty{tInt, tBool, tStr, tFlt, tArr, tList, tHash, tF1}[g.Intn(8)]) }
	sl := func(t gty) X {
		i, j := g.Weighted(4, 3, 1, 1), g.Weighted(2, 4, 4, 1, 1)
		return li{sy("slice"), e(t), i, j}
	}
	switch t {
	case tInt:
		switch g.Intn(9) {
		case 0:
			return li{sy(pickS(g, "bitAnd", "bitOr", "bitXor")), e(tInt), e(tInt)}
		case 1:
			return li{sy(pickS(g, "sll", "sra", "srl")), e(tInt), []X{0, 1, 3, 31, 32, 63, 64, 70}[g.Intn(8)]}
		case 2:
			return li{sy("bitNot"), e(tInt)}
		case 3:
			return li{sy("second"), li{sy("hpair"), e([]gty{tArr, tHash}[g.Intn(2)]), g.Intn(3)}}
		case 4:
			return li{sy("len"), li{sy("split"), e(tStr), []X{"", " ", "s", "b"}[g.Intn(4)]}}
		case 5:
			return li{sy("len"), sl([]gty{tArr, tStr}[g.Intn(2)])}
		case 6:
			return li{sy("second"), []X{e(tArr), e(tList)}[g.Intn(2)]}
		case 7:
			return li{sy("len"), li{sy("appendslice"), e(tArr), e(tArr)}}
		default:
			return li{sy(pickS(g, "car", "first")), []X{e(tArr), e(tList), li{sy("cdr"), e(tList)}}[g.Intn(3)]}
		}
	case tBool:
		if g.Chance(1, 6) {
			return li{sy("=="), li{sy("type?"), any()}, []X{"int64", "string", "array", "list", "func", "hash", "nil", "bool"}[g.Intn(8)]}
		}
		return li{sy(pickS(g, "list?", "number?", "zero?", "empty?", "func?", "null?", "int?", "string?", "float?", "array?", "hash?", "isnan")), any()}
	case tStr:
		switch g.Intn(6) {
		case 0:
			return sl(tStr)
		case 1:
			return li{sy(pickS(g, "chomp", "trim")), li{sy("concat"), " ", e(tStr), []X{"\n", " \n", "\n\n", "\tx"}[g.Intn(4)]}}
		case 2:
			return li{sy("aget"), li{sy("split"), e(tStr), []X{" ", "a", "", "ss"}[g.Intn(4)]}, 0, "none"}
		case 3:
			return li{sy("sym2str"), li{sy("quote"), sy("a")}}
		case 4:
			return li{sy("append"), e(tStr), li{sy("sget"), "héxyz"[:4+g.Intn(3)], []X{0, 3, 4, 5, 6}[g.Weighted(4, 4, 1, 1, 1)]}}
		default:
			return li{sy("type?"), any()}
		}
	case tArr:
		switch g.Intn(4) {
		case 0:
			return sl(tArr)
		case 1:
			return li{sy("appendslice"), e(tArr), e(tArr)}
		case 2:
			return li{sy("makeArray"), []X{0, 1, 2, 3}[g.Intn(4)], e(tInt)}
		default:
			return li{sy("concat"), e(tArr), e(tArr)}
		}
	case tList:
		switch g.Intn(3) {
		case 0:
			return li{sy("cdr"), e(tList)}
		case 1:
			return li{sy("hpair"), e(tArr), 0}
		default:
			return li{sy("concat"), e(tList), e(tList)}
		}
	}
	return nil
}
