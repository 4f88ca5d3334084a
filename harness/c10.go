package main

// C10: records convert to Go structs and back without loss.
//
// Go struct types covering the supported kinds of fields are registered here.
// A case draws a graph of Go values of these types and, along with it, a
// script that makes the corresponding records; the conversions by every route
// must give that graph, with one Go object for each record; records that come
// back from Go methods must hold what the graph holds; and one mistake
// anywhere must be reported.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	. "github.com/glycerine/zygomys/v9/zygo"
)

type Shape10 interface{ Area() float64 }

type Base10 struct {
	Bid   int `json:"bid"`
	Bname string
}
type Mid10 struct {
	Base10
	M  float64 `json:"m"`
	Sq *Sq10   `json:"sq"`
}
type Inner10 struct {
	N int64  `json:"n"`
	S string `json:"s,omitempty"`
	P *Inner10
}
type Sq10 struct {
	Side float64 `json:"side"`
	Next Shape10 `json:"next"`
	Tag  []byte
}
type Circ10 struct {
	Mid10 `json:"mid"`
	R     float64 `json:"r"`
	Peer  *Sq10   `json:"peer"`
}
type (
	Color10 string
	Level10 int16
	Names10 []string
)
type Scal10 struct {
	I   int
	I8  int8   `json:"i8"`
	I16 int16  `json:"i16"`
	I32 int32  `json:"i32"`
	I64 int64  `json:"i64"`
	U   uint   `json:"u"`
	U8  uint8  `json:"u8"`
	U16 uint16 `json:"u16"`
	U32 uint32
	U64 uint64        `json:"u64"`
	F32 float32       `json:"f32"`
	F64 float64       `json:"f64"`
	B   bool          `json:"b"`
	S   string        `json:"s"`
	Ru  rune          `json:"ru"`
	By  []byte        `json:"by"`
	Tm  time.Time     `json:"tm"`
	Dur time.Duration `json:"dur"`
	Col Color10       `json:"col"`
	Lev Level10
	hid int64 `json:"hid"`
	h2  string
}
type Coll10 struct {
	Mid10 `json:"mid"`
	Ss    []string           `json:"ss"`
	Is    []int64            `json:"is"`
	I8s   []int16            `json:"i8s"`
	Fs    []float64          `json:"fs"`
	Bs    []bool             `json:"bs"`
	Bys   [][]byte           `json:"bys"`
	Iss   [][]int            `json:"iss"`
	Tms   []time.Time        `json:"tms"`
	Nms   Names10            `json:"nms"`
	In    *Inner10           `json:"in"`
	InV   Inner10            `json:"inv"`
	Ins   []*Inner10         `json:"ins"`
	InVs  []Inner10          `json:"invs"`
	Inss  [][]*Inner10       `json:"inss"`
	Sh    Shape10            `json:"sh"`
	Shs   []Shape10          `json:"shs"`
	Sc    *Scal10            `json:"sc"`
	ScV   Scal10             `json:"scv"`
	Mss   map[string]string  `json:"mss"`
	Msf   map[string]float64 `json:"msf"`
	Mif   map[int64]float64  `json:"mif"`
	Msh   map[string]Shape10 `json:"msh"`
}
type Tree10 struct {
	Val   int64     `json:"val"`
	Kids  []*Tree10 `json:"kids"`
	Left  *Tree10   `json:"left"`
	Right *Tree10
	Shape Shape10     `json:"shape"`
	Coll  *Coll10     `json:"coll"`
	Arr   [2]int64    `json:"arr"`
	Any   interface{} `json:"any"`
}

// structs embedded in structs, with fields before and after
type Low10 struct {
	La, Lb int64
	Lc     string `json:"lc"`
	Ld     *Inner10
}
type Lower10 struct {
	Lf float64
	Low10
	Lg bool `json:"lg"`
	Lh uint8
}
type Side10 struct {
	Sa, Sb string
	Sc     []int64 `json:"sc"`
}
type Low3x10 struct {
	Lower10
	Side10
	Li int32
}
type Low4x10 struct {
	Lj string `json:"lj"`
	Low3x10
	Lk map[string]string
}
type Deep10 struct {
	Low4x10
	Dz  int64 `json:"dz"`
	Alt Shape10
}
type Hub10 struct {
	Name string `json:"name"`
	took interface{}
}

func (s *Sq10) Area() float64   { return s.Side * s.Side }
func (c *Circ10) Area() float64 { return c.R }

var took10 []interface{}

func (h *Hub10) EchoInner(x *Inner10) *Inner10      { took10 = append(took10, x); return x }
func (h *Hub10) EchoSq(x *Sq10) *Sq10               { took10 = append(took10, x); return x }
func (h *Hub10) EchoCirc(x *Circ10) *Circ10         { took10 = append(took10, x); return x }
func (h *Hub10) EchoScal(x *Scal10) *Scal10         { took10 = append(took10, x); return x }
func (h *Hub10) EchoColl(x *Coll10) *Coll10         { took10 = append(took10, x); return x }
func (h *Hub10) EchoTree(x *Tree10) *Tree10         { took10 = append(took10, x); return x }
func (h *Hub10) EchoDeep(x *Deep10) *Deep10         { took10 = append(took10, x); return x }
func (h *Hub10) EchoShape(x Shape10) Shape10        { took10 = append(took10, x); return x }
func (h *Hub10) EchoInnerV(x Inner10) Inner10       { took10 = append(took10, &x); return x }
func (h *Hub10) EchoCollV(x Coll10) Coll10          { took10 = append(took10, &x); return x }
func (h *Hub10) EchoScalV(x Scal10) (Scal10, error) { took10 = append(took10, &x); return x, nil }
func (h *Hub10) Pair(x *Tree10, n int64, s Shape10, y *Tree10) (*Tree10, *Tree10) {
	took10 = append(took10, x, y)
	return x, y
}

// what the Give methods hand out
var give10 reflect.Value

func (h *Hub10) GiveInner() *Inner10          { return give10.Interface().(*Inner10) }
func (h *Hub10) GiveSq() *Sq10                { return give10.Interface().(*Sq10) }
func (h *Hub10) GiveCirc() *Circ10            { return give10.Interface().(*Circ10) }
func (h *Hub10) GiveScal() *Scal10            { return give10.Interface().(*Scal10) }
func (h *Hub10) GiveColl() *Coll10            { return give10.Interface().(*Coll10) }
func (h *Hub10) GiveDeep() *Deep10            { return give10.Interface().(*Deep10) }
func (h *Hub10) GiveTree() (*Tree10, error)   { return give10.Interface().(*Tree10), nil }
func (h *Hub10) GiveShape() (int64, Shape10)  { return 7, give10.Interface().(Shape10) }
func (h *Hub10) GiveAny() interface{}         { return give10.Interface() }
func (h *Hub10) GiveNone() (*Tree10, Shape10) { return nil, nil }

func (x *Inner10) Self() *Inner10 { took10 = append(took10, x); return x }
func (x *Sq10) Self() *Sq10       { took10 = append(took10, x); return x }
func (x *Circ10) Self() *Circ10   { took10 = append(took10, x); return x }
func (x *Scal10) Self() *Scal10   { took10 = append(took10, x); return x }
func (x *Coll10) Self() *Coll10   { took10 = append(took10, x); return x }
func (x *Deep10) Self() *Deep10   { took10 = append(took10, x); return x }
func (x *Tree10) Self() *Tree10   { took10 = append(took10, x); return x }

// the types, by the name they are registered by
var c10types = map[string]reflect.Type{}
var c10names = map[reflect.Type]string{}
var c10impl []reflect.Type // those that are shapes

var c10echo = map[string][]string{"inner10": {"EchoInner", "EchoInnerV"}, "sq10": {"EchoSq", "EchoShape"}, "circ10": {"EchoCirc", "EchoShape"},
	"scal10": {"EchoScal", "EchoScalV"}, "coll10": {"EchoColl", "EchoCollV"}, "tree10": {"EchoTree"}, "deep10": {"EchoDeep"}}

func c10reg() {
	if len(c10types) > 0 {
		return
	}
	RegisterDemoStructs()
	reg := func(v interface{}, names ...string) {
		t := reflect.TypeOf(v)
		c10types[names[0]], c10names[t] = t, names[0]
		GoStructRegistry.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
			return reflect.New(t).Interface(), nil
		}}, true, names...)
	}
	reg(Base10{}, "base10")
	reg(Mid10{}, "mid10")
	reg(Inner10{}, "inner10")
	reg(Sq10{}, "sq10")
	reg(Circ10{}, "circ10")
	reg(Scal10{}, "scal10")
	reg(Coll10{}, "coll10")
	reg(Tree10{}, "tree10")
	reg(Deep10{}, "deep10")
	reg(Hub10{}, "hub10")
	// the demo structs are registered already, or for the asking
	NewZlisp().ImportDemoData()
	for n, v := range map[string]interface{}{"nestouter": NestOuter{}, "nestinner": NestInner{}, "snoopy": Snoopy{}, "hornet": Hornet{}, "hellcat": Hellcat{}, "weather": Weather{}, "eventdemo": Event{}, "persondemo": Person{}, "setOfPlanes": SetOfPlanes{}, "plane": Plane{}} {
		if rt := GoStructRegistry.Lookup(n); rt != nil {
			c10types[n], c10names[reflect.TypeOf(v)] = reflect.TypeOf(v), n
		}
	}
	var ns []string
	for n := range c10types {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	shape, flyer := reflect.TypeOf((*Shape10)(nil)).Elem(), reflect.TypeOf((*Flyer)(nil)).Elem()
	for _, n := range ns {
		p := reflect.PtrTo(c10types[n])
		if p.Implements(shape) || p.Implements(flyer) {
			c10impl = append(c10impl, c10types[n])
		}
	}
}

var (
	tTime10 = reflect.TypeOf(time.Time{})
	tDur10  = reflect.TypeOf(time.Duration(0))
)

// field10 is a field of a record: its names there, and the way to it.
type field10 struct {
	names []string
	path  []int
	typ   reflect.Type
}

// fields10 lists the fields that a record of a Go struct type has, by the
// rules the documentation gives: embedded structs lend theirs; the name is
// the json tag, or the field's name, which may be given in lower case.
func fields10(t reflect.Type) (fs []field10) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			for _, in := range fields10(f.Type) {
				in.path = append([]int{i}, in.path...)
				fs = append(fs, in)
			}
			continue
		}
		n, _, _ := strings.Cut(f.Tag.Get("json"), ",")
		names := []string{n}
		if n == "" {
			names = []string{f.Name}
			if lo := strings.ToLower(f.Name[:1]) + f.Name[1:]; lo != f.Name {
				names = append(names, lo)
			}
		}
		fs = append(fs, field10{names, []int{i}, f.Type})
	}
	return
}

func at10(v reflect.Value, path []int) reflect.Value {
	for _, i := range path {
		v = v.Field(i)
	}
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// a record made by the script, and its Go value
type rec10 struct {
	name string
	typ  reflect.Type
	ptr  reflect.Value

	copied bool // the Go value was copied: a change of the record is not in the copies
}

type w10 struct {
	g      *G
	env    *Zlisp
	forms  []string
	recs   []*rec10
	n      int
	budget int
	times  bool

	// the mistake to make: at the bad-th place a value is written
	places int
	bad    int
	what   string
}

// leaf binds a value that is awkward to write.
func (w *w10) leaf(x Sexp) string {
	w.n++
	n := fmt.Sprintf("v%d", w.n)
	w.env.AddGlobal(n, x)
	return n
}

func (w *w10) str() (string, string) {
	s := genStr(w.g, true)
	return s, w.leaf(&SexpStr{S: s})
}

// value draws a value for dst (which is settable), sets it, and gives the
// text that makes it. ok is false for "leave the field out".
func (w *w10) value(dst reflect.Value, depth int) string {
	g, t := w.g, dst.Type()
	w.places++
	if w.places == w.bad {
		if s := w.mistake(t); s != "" {
			return s
		}
		w.bad++ // the next place, then
	}
	switch t {
	case tTime10:
		w.times = true
		tm := time.Unix(genInt(g)>>24, int64(g.Intn(1e9))).UTC()
		dst.Set(reflect.ValueOf(tm))
		return w.leaf(&SexpTime{Tm: tm})
	case tDur10:
		d := time.Duration(genInt(g))
		dst.SetInt(int64(d))
		return w.leaf(&SexpDur{Dur: d})
	}
	switch t.Kind() {
	case reflect.Bool:
		b := g.Chance(1, 2)
		dst.SetBool(b)
		return strconv.FormatBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := genInt(g)
		for dst.OverflowInt(i) {
			i >>= 8
		}
		dst.SetInt(i)
		if t.Kind() == reflect.Int32 && i > 0 && i < 0xd800 && g.Chance(1, 2) {
			return w.leaf(&SexpChar{Val: rune(i)})
		}
		if g.Chance(1, 12) && i >= 0 {
			return w.leaf(&SexpUint64{Val: uint64(i)})
		}
		if i == math.MinInt64 {
			return w.leaf(&SexpInt{Val: i})
		}
		return strconv.FormatInt(i, 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := uint64(genInt(g))
		for dst.OverflowUint(u) {
			u >>= 8
		}
		dst.SetUint(u)
		if u <= math.MaxInt64 && g.Chance(1, 2) {
			return strconv.FormatUint(u, 10)
		}
		return w.leaf(&SexpUint64{Val: u})
	case reflect.Float32, reflect.Float64:
		f := genFloat(g, false)
		if t.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		if g.Chance(1, 12) {
			f = math.Inf(1 - 2*g.Intn(2))
		}
		if g.Chance(1, 4) {
			i := genInt(g) >> uint(11+30*g.Intn(2))
			if t.Kind() == reflect.Float64 || (i < 1<<24 && i > -1<<24) {
				dst.SetFloat(float64(i))
				return w.leaf(&SexpInt{Val: i})
			}
		}
		dst.SetFloat(f)
		return w.leaf(&SexpFloat{Val: f})
	case reflect.String:
		s, text := w.str()
		dst.SetString(s)
		return text
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b := []byte(genStr(g, true))
			dst.SetBytes(b)
			return w.leaf(&SexpRaw{Val: append([]byte{}, b...)})
		}
		if g.Chance(1, 10) {
			return "nil"
		}
		n := g.Intn(4)
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, w.value(s.Index(i), depth-1))
		}
		dst.Set(s)
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Map:
		if g.Chance(1, 10) {
			return "nil"
		}
		n := g.Intn(4)
		m := reflect.MakeMap(t)
		var b strings.Builder
		b.WriteString("(hash")
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			var kt string
			if t.Key().Kind() == reflect.String {
				s := pickS(g, "a", "b", "cc", "d", "Ee") + strconv.Itoa(i)
				k.SetString(s)
				kt = s + ":"
				if g.Chance(1, 3) {
					kt = strconv.Quote(s)
				}
			} else {
				k.SetInt(genInt(g)>>8 + int64(i))
				kt = strconv.FormatInt(k.Int(), 10)
			}
			if m.MapIndex(k).IsValid() {
				continue
			}
			v := reflect.New(t.Elem()).Elem()
			b.WriteString(" " + kt + " " + w.value(v, depth-1))
			m.SetMapIndex(k, v)
		}
		dst.Set(m)
		return b.String() + ")"
	case reflect.Array:
		var parts []string
		for i := 0; i < t.Len(); i++ {
			parts = append(parts, w.value(dst.Index(i), depth-1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Interface:
		if depth <= 0 || g.Chance(1, 8) {
			return "nil"
		}
		if t.NumMethod() == 0 {
			switch g.Intn(5) {
			case 0:
				dst.Set(reflect.ValueOf(g.Chance(1, 2)))
				return strconv.FormatBool(dst.Elem().Bool())
			case 1:
				s, text := w.str()
				dst.Set(reflect.ValueOf(s))
				return text
			case 2:
				i := int64(g.Range(-1000, 1<<40))
				dst.Set(reflect.ValueOf(i))
				return strconv.FormatInt(i, 10)
			case 3:
				f := genFloat(g, false)
				dst.Set(reflect.ValueOf(f))
				return w.leaf(&SexpFloat{Val: f})
			}
			text, ptr := w.record(c10types[pickS(g, "inner10", "sq10", "circ10", "scal10", "coll10", "deep10")], depth, false)
			dst.Set(ptr)
			return text
		}
		var fit []reflect.Type
		for _, it := range c10impl {
			if reflect.PtrTo(it).Implements(t) {
				fit = append(fit, it)
			}
		}
		text, ptr := w.record(fit[g.Intn(len(fit))], depth, false)
		dst.Set(ptr)
		return text
	case reflect.Ptr:
		if depth <= 0 || g.Chance(1, 8) {
			return "nil"
		}
		text, ptr := w.record(t.Elem(), depth, false)
		dst.Set(ptr)
		return text
	case reflect.Struct:
		text, ptr := w.record(t, depth, true)
		dst.Set(ptr.Elem())
		return text
	}
	panic("harness: no value for " + t.String())
}

// record makes a record of a Go type, or names one made before.
func (w *w10) record(t reflect.Type, depth int, byVal bool) (string, reflect.Value) {
	g := w.g
	if g.Chance(1, 3) {
		var have []*rec10
		for _, r := range w.recs {
			if r.typ == t {
				have = append(have, r)
			}
		}
		if len(have) > 0 {
			r := have[g.Intn(len(have))]
			r.copied = r.copied || byVal
			return r.name, r.ptr
		}
	}
	ptr := reflect.New(t)
	var b strings.Builder
	b.WriteString("(" + c10names[t])
	fs := fields10(t)
	w.budget--
	for k := len(fs) - 1; k > 0; k-- { // any order
		j := g.Intn(k + 1)
		fs[k], fs[j] = fs[j], fs[k]
	}
	for _, f := range fs {
		if w.budget <= 0 || g.Chance(1, 2) && len(fs) > 4 || g.Chance(1, 6) {
			continue
		}
		if k := f.typ.Kind(); depth <= 0 && (k == reflect.Struct && f.typ != tTime10) {
			continue
		}
		b.WriteString(" " + pickS(g, f.names...) + ":" + w.value(at10(ptr.Elem(), f.path), depth-1))
	}
	w.places++
	if w.places == w.bad {
		w.what = "a field that the struct does not have"
		b.WriteString(" " + pickS(g, "nosuch", "Nosuch", "zz", c10names[t], "bids", "sides") + ":" + pickS(g, "1", "nil", `"s"`, "[]"))
	}
	b.WriteString(")")
	text := b.String()
	if g.Chance(1, 2) {
		w.n++
		r := &rec10{name: fmt.Sprintf("r%d", w.n), typ: t, ptr: ptr, copied: byVal}
		w.forms = append(w.forms, "(def "+r.name+" "+text+")")
		w.recs = append(w.recs, r)
		text = r.name
	}
	return text, ptr
}

// mistake is the text of a value of the wrong kind for a Go type.
func (w *w10) mistake(t reflect.Type) string {
	g := w.g
	odd := []string{"(fn [x] x)", "(list 1 2)", `(regexpCompile "a")`, "(& w10x)", "first", "int64", "(quote (a \\ b))", "(package \"pk10\" (def A 1))"}
	num := []string{"1", "2.5", "7ULL"}
	rec := func(fit func(reflect.Type) bool) (rs []string) {
		for _, n := range []string{"inner10", "sq10", "circ10", "scal10", "coll10", "tree10", "hub10", "base10", "deep10", "weather", "persondemo"} {
			if rt, ok := c10types[n]; ok && !fit(rt) {
				rs = append(rs, "("+n+")")
			}
		}
		return append(rs, "(own10 a:1)", "(decl10 q:1)")
	}
	none := func(reflect.Type) bool { return false }
	var c []string
	switch {
	case t == tTime10:
		c = append(append(append(append(odd, num...), rec(none)...), `"s"`, "true", "[1]", "(hash a:1)", "(raw \"ab\")"), "(dur \"1s\")")
	case t == tDur10:
		c = append(append(append(odd, rec(none)...), `"s"`, "true", "[1]", "(hash a:1)", "(raw \"ab\")"), "(now)", "2.5")
	case t.Kind() == reflect.Bool:
		c = append(append(append(append(odd, num...), rec(none)...), `"s"`, "[1]", "(hash a:1)", "(raw \"ab\")", "'c'"), "(now)", "%sym", "[]", "0")
	case t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64:
		c = append(append(append(odd, rec(none)...), `"s"`, "true", "[1]", "(hash a:1)", "(raw \"ab\")"), "(now)", "%sym", "2.5", "1e300", "-0.25", "NaN", "Inf", "18446744073709551615ULL", "[]", `"1"`)
		if t.Kind() >= reflect.Uint {
			c = append(c, "-1", "-1.0", "-9223372036854775808")
			c = append(c[:len(odd)], without10(c[len(odd):], "18446744073709551615ULL", t.Kind() == reflect.Uint64 || t.Kind() == reflect.Uint)...)
		}
		if b := t.Bits(); b < 64 {
			c = append(c, strconv.FormatInt(1<<uint(b), 10), strconv.FormatInt(-1<<uint(b-1)-1, 10), "9223372036854775807", strconv.FormatInt(1<<uint(b), 10)+".0", "4294967296")
		} else {
			c = append(c, "1e19", "1e20")
			if t.Kind() >= reflect.Uint {
				c = without10(c, "1e19", true)
			}
		}
	case t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64:
		c = append(append(append(odd, rec(none)...), `"s"`, "true", "[1]", "(hash a:1)", "(raw \"ab\")"), "(now)", "%sym", "[]", `"1.5"`, "9007199254740993", "'c'")
		if t.Kind() == reflect.Float32 {
			c = append(c, "1e39", "16777217", "-1e300")
		}
	case t.Kind() == reflect.String:
		c = append(append(odd, num...), "true", "[1]", "[]", "(raw \"ab\")", "(now)", "'c'")
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		c = append(append(append(append(odd, num...), rec(none)...), `"s"`, "true", "(hash a:1)"), "(now)", "%sym", "'c'")
	case t.Kind() == reflect.Slice:
		c = append(append(append(append(odd, num...), rec(none)...), `"s"`, "true", "(hash a:1)", "(hash)", "(raw \"ab\")"), "(now)", "%sym")
	case t.Kind() == reflect.Map:
		c = append(append(append(append(odd, num...), rec(none)...), `"s"`, "true", "[1]", "[]", "(raw \"ab\")", "(hash [1 2] 2)", "(hash true 2)"), "(now)", "%sym", "(hash a:(list 1))")
		if t.Key().Kind() == reflect.String {
			c = append(c, "(hash 5 6)", "(hash a:1 7 8)", `(hash a:1 "a" 2)`)
		} else {
			c = append(c, "(hash a:1)", `(hash "1" 1)`, `(hash 1 2.5 "x" 3)`)
		}
	case t.Kind() == reflect.Interface && t.NumMethod() == 0:
		c = append(c, "(decl10 q:1)", "(own10 a:1)", "(fn [x] x)", "(list 1 2)")
	case t.Kind() == reflect.Array:
		c = append(append(append(append(odd, num...), rec(none)...), `"s"`, "true", "(hash a:1)", "(hash)", "(raw \"ab\")"), "(now)", "%sym", "[]", "[1]", "[1 2 3]")
	case t.Kind() == reflect.Interface:
		c = append(append(append(append(odd, num...), rec(func(r reflect.Type) bool { return reflect.PtrTo(r).Implements(t) })...), `"s"`, "true", "[1]", "[]", "(hash a:1)", "(hash)", "(raw \"ab\")"), "(now)", "%sym")
	case t.Kind() == reflect.Ptr:
		c = append(append(append(append(odd, num...), rec(func(r reflect.Type) bool { return r == t.Elem() })...), `"s"`, "true", "[1]", "[]", "(hash a:1)", "(hash)", "(raw \"ab\")"), "(now)", "%sym")
	case t.Kind() == reflect.Struct:
		c = append(append(append(append(odd, num...), rec(func(r reflect.Type) bool { return r == t })...), `"s"`, "true", "[1]", "[]", "(hash a:1)", "(hash)", "(raw \"ab\")"), "(now)", "%sym")
	default:
		return ""
	}
	s := c[g.Intn(len(c))]
	w.what = s + " for a Go " + t.String()
	return s
}

func without10(xs []string, x string, yes bool) []string {
	if !yes {
		return xs
	}
	var r []string
	for _, s := range xs {
		if s != x {
			r = append(r, s)
		}
	}
	return r
}

type obj10 struct {
	addr uintptr
	typ  reflect.Type
}

// iso10 compares a Go graph with the one expected: equal values, and one
// object where one is expected.
func iso10(want, got reflect.Value, a, b map[obj10]obj10, path string, depth int) string {
	if depth > 400 {
		return ""
	}
	if want.Type() != got.Type() {
		return fmt.Sprintf("%s: a %v, want a %v", path, got.Type(), want.Type())
	}
	if want.Type() == tTime10 {
		x, y := want.Interface().(time.Time), got.Interface().(time.Time)
		if x != y {
			return fmt.Sprintf("%s: %v, want %v", path, y, x)
		}
		return ""
	}
	switch want.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		if a == nil && want.Kind() == reflect.Slice && want.Len() == 0 && got.Len() == 0 {
			return ""
		}
		if want.IsNil() != got.IsNil() {
			return fmt.Sprintf("%s: nil %v, want %v", path, got.IsNil(), want.IsNil())
		}
		if want.IsNil() {
			return ""
		}
	}
	switch want.Kind() {
	case reflect.Ptr:
		p, q := obj10{want.Pointer(), want.Type()}, obj10{got.Pointer(), got.Type()}
		if a == nil {
			return iso10(want.Elem(), got.Elem(), a, b, path, depth+1)
		}
		pq, seen := a[p]
		qp, seen2 := b[q]
		if seen && pq == q && qp == p {
			return ""
		}
		if seen || seen2 {
			how := "one Go object for two records"
			if seen {
				how = "two Go objects for one record"
			}
			return path + ": " + how
		}
		a[p], b[q] = q, p
		return iso10(want.Elem(), got.Elem(), a, b, path, depth+1)
	case reflect.Interface:
		return iso10(want.Elem(), got.Elem(), a, b, path+"!", depth+1)
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			if d := iso10(at10(want, []int{i}), at10(got, []int{i}), a, b, path+"."+want.Type().Field(i).Name, depth+1); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s: %d elements, want %d", path, got.Len(), want.Len())
		}
		for i := 0; i < want.Len(); i++ {
			if d := iso10(want.Index(i), got.Index(i), a, b, fmt.Sprintf("%s[%d]", path, i), depth+1); d != "" {
				return d
			}
		}
	case reflect.Map:
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s: %d keys, want %d", path, got.Len(), want.Len())
		}
		ks := want.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			v := got.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s: no key %v", path, k)
			}
			if d := iso10(want.MapIndex(k), v, a, b, fmt.Sprintf("%s[%v]", path, k), depth+1); d != "" {
				return d
			}
		}
	default:
		same := false
		switch {
		case want.CanInt():
			same = want.Int() == got.Int()
		case want.CanUint():
			same = want.Uint() == got.Uint()
		case want.CanFloat():
			same = want.Float() == got.Float() && math.Signbit(want.Float()) == math.Signbit(got.Float())
		case want.Kind() == reflect.String:
			same = want.String() == got.String()
		case want.Kind() == reflect.Bool:
			same = want.Bool() == got.Bool()
		default:
			panic("harness: iso10 " + want.Type().String())
		}
		if !same {
			return fmt.Sprintf("%s: %v, want %v", path, got, want)
		}
	}
	return ""
}

func sameGo(want reflect.Value, got interface{}) string {
	g := reflect.ValueOf(got)
	if !g.IsValid() {
		return "no Go value"
	}
	return iso10(want, g, map[obj10]obj10{}, map[obj10]obj10{}, want.Type().String(), 0)
}

// back10 compares a value of the script with the Go value it came from.
// Times come back as nil: the known finding.
func back10(x Sexp, v reflect.Value, seen map[[2]uintptr]bool, path string, timesLost *bool) string {
	no := func() string {
		return fmt.Sprintf("%s: came back as %s (%T), from %v", path, clip(show(x), 200), x, clip(fmt.Sprintf("%+v", v), 200))
	}
	if v.Type() == tTime10 {
		switch y := x.(type) {
		case *SexpTime:
			if y.Tm.Equal(v.Interface().(time.Time)) {
				return ""
			}
		case *SexpSentinel:
			if !v.Interface().(time.Time).IsZero() {
				*timesLost = true
			}
			return ""
		}
		return no()
	}
	num := func(ok func(f *SexpFloat) bool, i int64, u uint64, signed bool) string {
		same := false
		switch y := x.(type) {
		case *SexpInt:
			same = signed && y.Val == i || !signed && y.Val >= 0 && uint64(y.Val) == u
		case *SexpUint64:
			same = signed && i >= 0 && y.Val == uint64(i) || !signed && y.Val == u
		case *SexpChar:
			same = signed && int64(y.Val) == i
		case *SexpDur:
			same = v.Type() == tDur10 && int64(y.Dur) == i
		}
		if !same {
			return no()
		}
		return ""
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		if v.IsNil() {
			switch y := x.(type) {
			case *SexpSentinel:
				return ""
			case *SexpRaw:
				if len(y.Val) == 0 {
					return ""
				}
			case *SexpArray:
				if len(y.Val) == 0 && v.Kind() == reflect.Slice {
					return ""
				}
			case *SexpHash:
				if len(y.KeyOrder) == 0 && v.Kind() == reflect.Map {
					return ""
				}
			}
			return no()
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if y, ok := x.(*SexpBool); ok && y.Val == v.Bool() {
			return ""
		}
		return no()
	case reflect.String:
		if y, ok := x.(*SexpStr); ok && y.S == v.String() {
			return ""
		}
		return no()
	case reflect.Float32, reflect.Float64:
		if y, ok := x.(*SexpFloat); ok && y.Val == v.Float() {
			return ""
		}
		if y, ok := x.(*SexpInt); ok && float64(y.Val) == v.Float() {
			return ""
		}
		return no()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return num(nil, v.Int(), 0, true)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return num(nil, 0, v.Uint(), false)
	case reflect.Interface:
		return back10(x, v.Elem(), seen, path, timesLost)
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if y, ok := x.(*SexpRaw); ok && string(y.Val) == string(v.Bytes()) {
				return ""
			}
			return no()
		}
		y, ok := x.(*SexpArray)
		if !ok || len(y.Val) != v.Len() {
			return no()
		}
		for i := range y.Val {
			if d := back10(y.Val[i], v.Index(i), seen, fmt.Sprintf("%s[%d]", path, i), timesLost); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		y, ok := x.(*SexpHash)
		if !ok || y.TypeName != "hash" || len(y.KeyOrder) != v.Len() {
			return no()
		}
		for _, k := range y.KeyOrder {
			kv := reflect.New(v.Type().Key()).Elem()
			switch kk := k.(type) {
			case *SexpInt:
				kv.SetInt(kk.Val)
			case *SexpStr:
				kv.SetString(kk.S)
			case *SexpSymbol:
				kv.SetString(kk.Name())
			default:
				return no()
			}
			el := v.MapIndex(kv)
			if !el.IsValid() {
				return no()
			}
			xe, err := y.HashGet(nil, k)
			if err != nil {
				return no()
			}
			if d := back10(xe, el, seen, fmt.Sprintf("%s[%v]", path, kv), timesLost); d != "" {
				return d
			}
		}
		return ""
	case reflect.Ptr:
		return back10(x, v.Elem(), seen, path, timesLost)
	case reflect.Struct:
		y, ok := x.(*SexpHash)
		if !ok {
			return no()
		}
		if y.TypeName != c10names[v.Type()] {
			return fmt.Sprintf("%s: came back as a %s record, from a %v", path, y.TypeName, v.Type())
		}
		id := [2]uintptr{reflect.ValueOf(y).Pointer(), v.UnsafeAddr()}
		if seen[id] {
			return ""
		}
		seen[id] = true
		known := map[string]bool{}
		for _, f := range fields10(v.Type()) {
			known[f.names[0]] = true
			fx, err := y.HashGet(nil, y.Env.MakeSymbol(f.names[0]))
			if err != nil {
				if f.names[0] == "hid" || f.names[0] == "h2" || f.names[0] == "took" {
					continue // not exported
				}
				return fmt.Sprintf("%s: the record has no field %s", path, f.names[0])
			}
			if d := back10(fx, at10(v, f.path), seen, path+"."+f.names[0], timesLost); d != "" {
				return d
			}
		}
		for _, k := range y.KeyOrder {
			if s, ok := k.(*SexpSymbol); !ok || !known[s.Name()] {
				return fmt.Sprintf("%s: the record has a field %s", path, show(k))
			}
		}
		return ""
	}
	panic("harness: back10 " + v.Type().String())
}

func backTo(x Sexp, want reflect.Value, lost *bool) string {
	return back10(x, want, map[[2]uintptr]bool{}, want.Elem().Type().String(), lost)
}

func (w *w10) script() string { return strings.Join(w.forms, "\n") }

// eval10 evaluates; errors of any kind come back as text.
func eval10(env *Zlisp, text string) (x Sexp, err error) {
	defer func() {
		if r := recover(); r != nil {
			x, err = SexpNull, fmt.Errorf("panic: %v", r)
		}
	}()
	capture(func() { x, err = env.EvalString(text) })
	if err != nil {
		env.Clear()
	}
	return
}

func go10(env *Zlisp, x Sexp, target interface{}) (res interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	capture(func() { res, err = SexpToGoStructs(x, target, env, nil, 0, target) })
	return
}

func newW10(g *G) *w10 {
	w := &w10{g: g, env: newIn(), budget: 40}
	if _, err := eval10(w.env, `(def w10x 5) (struct decl10 [(field q: int64 e:0)]) (defmap own10)`); err != nil {
		panic("harness: " + err.Error())
	}
	return w
}

var c10roots = []string{"inner10", "sq10", "circ10", "scal10", "coll10", "tree10", "coll10", "tree10", "scal10", "deep10", "snoopy", "hornet", "hellcat", "weather", "eventdemo", "setOfPlanes", "plane", "nestouter"}

func (w *w10) root() (string, reflect.Value) {
	for {
		n := pickS(w.g, c10roots...)
		if t, ok := c10types[n]; ok {
			text, ptr := w.record(t, w.g.Range(1, 5), false)
			return text, ptr
		}
	}
}

func name10(ptr reflect.Value) string { return c10names[ptr.Type().Elem()] }

// c10good converts a graph by every route.
func c10good(g *G) (res Res) {
	w := newW10(g)
	text, want := w.root()
	tn := name10(want)
	w.forms = append(w.forms, "(def root "+text+")")
	fail := func(route, d string) Res {
		res.Fail = fmt.Sprintf("%s\nroute: %s\nscript:\n%s\nexpected Go value: %s", d, route, clip(w.script(), 8000), clip(fmt.Sprintf("%+v", want.Elem()), 3000))
		i := strings.Index(d, ":")
		res.Sig = route + " " + clip(d[i+1:], 24)
		return res
	}
	res.Sample = clip(w.script(), 600)
	res.Key = w.script() + fmt.Sprintf("%+v", want.Elem())
	res.NonTrivial = len(w.script()) > 40
	root, err := eval10(w.env, w.script())
	if err != nil {
		return fail("making the records", "the records: "+err.Error())
	}
	before := show(root)
	lost := false
	shadow := func() interface{} { return root.(*SexpHash).GoShadowStruct }
	order := []int{0, 1, 2, 3, 4, 5, 6}
	for k := len(order) - 1; k > 0; k-- {
		j := g.Intn(k + 1)
		order[k], order[j] = order[j], order[k]
	}
	for _, route := range order {
		res.Evals++
		switch route {
		case 0:
			x, err := eval10(w.env, "(togo root)")
			if err != nil {
				return fail("togo", "togo: "+err.Error())
			}
			if d := sameGo(want, shadow()); d != "" {
				return fail("togo", d)
			}
			if s, ok := x.(*SexpStr); !ok || !strings.Contains(s.S, want.Type().Elem().Name()) {
				return fail("togo", "value: "+show(x))
			}
		case 1:
			got, err := go10(w.env, root, reflect.New(want.Type().Elem()).Interface())
			if err != nil {
				return fail("SexpToGoStructs", "error: "+err.Error())
			}
			if d := sameGo(want, got); d != "" {
				return fail("SexpToGoStructs", d)
			}
		case 2, 3:
			ms := c10echo[tn]
			if tn == "weather" {
				ms = []string{"EchoWeather"}
			}
			if len(ms) == 0 {
				continue
			}
			m := pickS(g, ms...)
			took10 = nil
			recv := "(hub10)"
			if tn == "weather" {
				recv = "(snoopy)"
			}
			x, err := eval10(w.env, "(def back (_method "+recv+" "+m+": root))")
			if err != nil {
				return fail(m, "error: "+err.Error())
			}
			if tn != "weather" {
				if len(took10) != 1 {
					return fail(m, "method: not called")
				}
				if d := sameGo(want, took10[0]); d != "" {
					return fail(m, d)
				}
			}
			arr, ok := x.(*SexpArray)
			if !ok || len(arr.Val) < 1 {
				return fail(m, "result: "+show(x))
			}
			if d := backTo(arr.Val[0], want, &lost); d != "" {
				return fail(m+" back", d)
			}
			// and again, through the record that came back
			if !w.times && tn != "weather" {
				took10 = nil
				if _, err := eval10(w.env, "(_method "+recv+" "+m+": (aget back 0))"); err != nil {
					return fail(m+" twice", "error: "+err.Error())
				}
				if d := loose10(want, took10[0]); d != "" {
					return fail(m+" twice", d)
				}
				if x, err := eval10(w.env, "(togo (aget back 0))"); err != nil {
					return fail(m+" togo", "error: "+err.Error()+show(x))
				}
				if d := loose10(want, arr.Val[0].(*SexpHash).GoShadowStruct); d != "" {
					return fail(m+" togo", d)
				}
			}
			g.Label("echo")
		case 4:
			if _, own := c10echo[tn]; !own {
				continue
			}
			took10 = nil
			x, err := eval10(w.env, "(_method root Self:)")
			if err != nil {
				return fail("receiver", "error: "+err.Error())
			}
			if d := sameGo(want, took10[0]); d != "" {
				return fail("receiver", d)
			}
			if d := backTo(x.(*SexpArray).Val[0], want, &lost); d != "" {
				return fail("receiver back", d)
			}
		case 6:
			// handed out by Go, without a record before
			ms := []string{"GiveAny"}
			if echo, own := c10echo[tn]; own {
				ms = append(ms, strings.Replace(echo[0], "Echo", "Give", 1))
				if len(echo) > 1 && echo[1] == "EchoShape" {
					ms = append(ms, "GiveShape")
				}
			}
			m := pickS(g, ms...)
			give10 = want
			x, err := eval10(w.env, "(_method (hub10) "+m+":)")
			if err != nil {
				return fail(m, "error: "+err.Error())
			}
			if x, err := eval10(w.env, "(_method (hub10) GiveNone:)"); err != nil || show(x) != "[nil nil]" {
				return fail("GiveNone", fmt.Sprintf("nil pointers: %s %v", show(x), err))
			}
			arr := x.(*SexpArray).Val
			k := 0
			if m == "GiveShape" {
				k = 1
			}
			if d := backTo(arr[k], want, &lost); d != "" {
				return fail(m, d)
			}
		case 5:
			if tn != "tree10" {
				continue
			}
			// one record as two arguments, with others
			took10 = nil
			x, err := eval10(w.env, "(_method (hub10) Pair: root 5 (sq10 side:2.5) root)")
			if err != nil {
				return fail("two arguments", "error: "+err.Error())
			}
			for i := 0; i < 2; i++ {
				if d := sameGo(want, took10[i]); d != "" {
					return fail("two arguments", d)
				}
				if d := backTo(x.(*SexpArray).Val[i], want, &lost); d != "" {
					return fail("two arguments back", d)
				}
			}
		}
		if now := show(root); now != before {
			return fail("conversion", fmt.Sprintf("record: changed by a conversion, from %s\nto %s", clip(before, 1500), clip(now, 1500)))
		}
	}
	if lost {
		res.Known = "C10-time-back"
	}
	// changes afterwards, of the record or of ones inside, are seen by the next
	// conversion
	var did []string
	for k := g.Weighted(0, 4, 2, 1); k > 0; k-- {
		obj, name := want, "root"
		if g.Chance(1, 2) {
			for _, r := range w.recs {
				if !r.copied && g.Chance(1, 3) {
					obj, name = r.ptr, r.name
				}
			}
		}
		var sets []field10
		for _, f := range fields10(obj.Type().Elem()) {
			if f.typ.Kind() != reflect.Struct || f.typ == tTime10 {
				sets = append(sets, f)
			}
		}
		f := sets[g.Intn(len(sets))]
		dst := at10(obj.Elem(), f.path)
		dst.Set(reflect.Zero(dst.Type()))
		w.bad, w.forms = 0, nil
		t := "nil"
		if !g.Chance(1, 6) {
			t = w.value(dst, 2)
		}
		key := f.names[0]
		x, _ := eval10(w.env, name)
		for _, k := range x.(*SexpHash).KeyOrder {
			if s, ok := k.(*SexpSymbol); ok && (s.Name() == f.names[0] || s.Name() == f.names[len(f.names)-1]) {
				key = s.Name()
			}
		}
		w.forms = append(w.forms, "(hset "+name+" "+key+": "+t+")")
		if _, err := eval10(w.env, w.script()); err != nil {
			return fail("a change", "error: "+err.Error())
		}
		did = append(did, w.forms...)
		w.forms = did
		if _, err := eval10(w.env, "(togo root)"); err != nil {
			if t == "nil" {
				return // whether a scalar may be nil is left open, but not what it then is
			}
			return fail("togo after a change", "error: "+err.Error())
		}
		if d := sameGo(want, shadow()); d != "" {
			return fail("togo after a change", d)
		}
		if ms := c10echo[tn]; len(ms) > 0 {
			took10 = nil
			m := pickS(g, ms...)
			cp := want
			if strings.HasSuffix(m, "V") { // gets a copy: what leads back to the record leads to the original
				cp = reflect.New(want.Type().Elem())
				cp.Elem().Set(want.Elem())
			}
			x, err := eval10(w.env, "(_method (hub10) "+m+": root)")
			if err != nil {
				return fail(m+" after a change", "error: "+err.Error())
			}
			if d := sameGo(cp, took10[0]); d != "" {
				return fail(m+" after a change", d)
			}
			if d := backTo(x.(*SexpArray).Val[0], cp, &lost); d != "" {
				return fail(m+" back after a change", d)
			}
		}
	}
	return
}

// loose10 compares without regard for objects that are one: what comes back
// from Go may hold a record per use, and empty slices for nil ones.
func loose10(want reflect.Value, got interface{}) string {
	g := reflect.ValueOf(got)
	if !g.IsValid() {
		return "value: no Go value"
	}
	return iso10(want, g, nil, nil, want.Type().String(), 0)
}

// c10bad makes one mistake somewhere in the graph.
func c10bad(g *G) (res Res) {
	w := newW10(g)
	w.bad = 1 + g.Intn(12)
	if g.Chance(1, 3) {
		w.bad = 1 + g.Intn(60)
	}
	text, want := w.root()
	if w.what == "" {
		res.Skip = true
		return
	}
	tn := name10(want)
	w.forms = append(w.forms, "(def root "+text+")")
	res.Sample = w.what + " in\n" + clip(w.script(), 500)
	res.Key = w.script()
	res.NonTrivial = true
	root, err := eval10(w.env, w.script())
	if err != nil {
		return // reported already
	}
	fail := func(route, d string) Res {
		res.Fail = fmt.Sprintf("%s is not reported\nroute: %s\nscript:\n%s\n%s", w.what, route, clip(w.script(), 8000), d)
		res.Sig = route + " " + clip(w.what, 30)
		return res
	}
	res.Evals += 3
	if x, err := eval10(w.env, "(togo root)"); err == nil {
		return fail("togo", show(x))
	}
	if x, err := go10(w.env, root, reflect.New(want.Type().Elem()).Interface()); err == nil {
		return fail("SexpToGoStructs", fmt.Sprintf("%+v", x))
	}
	for _, m := range c10echo[tn] {
		took10 = nil
		if x, err := eval10(w.env, "(_method (hub10) "+m+": root)"); err == nil {
			return fail(m, show(x))
		}
	}
	return
}

func init() {
	register(&Prop{ID: "C10", Level: "exploration",
		Rule: "a case is non-trivial if the script makes a record with a field, or holds the mistake",
		Assumptions: []string{
			"nil for a scalar, a symbol or a record for a Go string, an integer for a duration, and rounding to a float32 are left open",
			"numbers are equal by value: an integer in a float field comes back as a float, a char in an int32 field as an integer; string and symbol keys of a Go map are the same",
		},
		Init: c10reg,
		Parts: []Part{
			{Name: "good", Quick: 12000, Thorough: 400000, Run: c10good},
			{Name: "bad", Quick: 12000, Thorough: 400000, Run: c10bad},
		},
		Findings: map[string]func() string{"C10-time-back": func() string {
			env := newIn()
			x, err := eval10(env, `(hget (aget (_method (snoopy) EchoWeather: (weather time:(now))) 0) time:)`)
			if err == nil && x == SexpNull {
				return `(_method (snoopy) EchoWeather: (weather time:(now)))`
			}
			return ""
		}},
	})
}
