package main

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"unsafe"

	. "github.com/glycerine/zygomys/v9/zygo"
)

// newIn is an interpreter as the command-line tool sets one up.
func newIn() *Zlisp {
	env := NewZlisp()
	env.StandardSetup()
	return env
}

// capture collects what f prints to os.Stdout.
var capFile *os.File

func capture(f func()) string {
	if capFile == nil {
		cf, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "out")
		if err != nil {
			panic(err)
		}
		os.Remove(cf.Name())
		capFile = cf
	}
	capFile.Truncate(0)
	capFile.Seek(0, 0)
	old := os.Stdout
	os.Stdout = capFile
	defer func() { os.Stdout = old }()
	f()
	os.Stdout = old
	n, _ := capFile.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	capFile.ReadAt(b, 0)
	return string(b)
}

// panicErr is returned when an entry point panicked instead of returning.
type panicErr struct{ msg string }

func (p panicErr) Error() string { return p.msg }

// errText makes an error comparable between runs: the first line, no positions.
func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// stackSizes reports the sizes of all run-time stacks of an interpreter, found
// by type so that renaming a field does not matter.
func stackSizes(env *Zlisp) []int {
	v := reflect.ValueOf(env).Elem()
	st := reflect.TypeOf((*Stack)(nil))
	var out []int
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == st && !f.IsNil() {
			s := (*Stack)(unsafe.Pointer(f.Pointer()))
			out = append(out, s.Size())
		}
	}
	return out
}

func stackSum(env *Zlisp) int {
	n := 0
	for _, x := range stackSizes(env) {
		n += x
	}
	return n
}

// show prints a value the way the REPL does.
func show(x Sexp) string {
	if x == nil {
		return "<Go nil>"
	}
	return x.SexpString(nil)
}

func quoteLines(ss []string) string {
	var b strings.Builder
	for i, s := range ss {
		fmt.Fprintf(&b, "%d: %s\n", i, s)
	}
	return b.String()
}

// deepSame compares two values by type and content. Numbers, strings, chars,
// bools and symbols compare by kind and value; containers element by element.
func deepSame(a, b Sexp) bool { return deepDiff(a, b, 0) == "" }

func deepDiff(a, b Sexp, depth int) string {
	if depth > 10000 {
		return "too deep"
	}
	if a == nil || b == nil {
		if a == nil && b == nil {
			return ""
		}
		return fmt.Sprintf("%s against %s", show(a), show(b))
	}
	if s, ok := a.(*SexpSentinel); ok {
		if t, ok := b.(*SexpSentinel); ok && s.Val == t.Val {
			return ""
		}
		return fmt.Sprintf("%s against %s (%T)", show(a), show(b), b)
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return fmt.Sprintf("%T %s against %T %s", a, clip(show(a), 200), b, clip(show(b), 200))
	}
	bad := func() string { return fmt.Sprintf("%T %s against %s", a, clip(show(a), 300), clip(show(b), 300)) }
	switch x := a.(type) {
	case *SexpInt:
		if x.Val != b.(*SexpInt).Val {
			return bad()
		}
	case *SexpUint64:
		if x.Val != b.(*SexpUint64).Val {
			return bad()
		}
	case *SexpFloat:
		y := b.(*SexpFloat)
		if x.Val != y.Val && !(x.Val != x.Val && y.Val != y.Val) {
			return bad()
		}
	case *SexpBool:
		if x.Val != b.(*SexpBool).Val {
			return bad()
		}
	case *SexpChar:
		if x.Val != b.(*SexpChar).Val {
			return bad()
		}
	case *SexpStr:
		if x.S != b.(*SexpStr).S {
			return fmt.Sprintf("string %q against %q", x.S, b.(*SexpStr).S)
		}
	case *SexpRaw:
		if string(x.Val) != string(b.(*SexpRaw).Val) {
			return bad()
		}
	case *SexpSymbol:
		if x.Name() != b.(*SexpSymbol).Name() {
			return bad()
		}
	case *SexpPair:
		y := b.(*SexpPair)
		for {
			if d := deepDiff(x.Head, y.Head, depth+1); d != "" {
				return d
			}
			xt, ok1 := x.Tail.(*SexpPair)
			yt, ok2 := y.Tail.(*SexpPair)
			if ok1 && ok2 {
				x, y = xt, yt
				continue
			}
			return deepDiff(x.Tail, y.Tail, depth+1)
		}
	case *SexpArray:
		y := b.(*SexpArray)
		if len(x.Val) != len(y.Val) {
			return bad()
		}
		for i := range x.Val {
			if d := deepDiff(x.Val[i], y.Val[i], depth+1); d != "" {
				return d
			}
		}
	case *SexpHash:
		y := b.(*SexpHash)
		if x.TypeName != y.TypeName {
			return fmt.Sprintf("record type %q against %q", x.TypeName, y.TypeName)
		}
		if len(x.KeyOrder) != len(y.KeyOrder) {
			return bad()
		}
		for i := range x.KeyOrder {
			if d := deepDiff(x.KeyOrder[i], y.KeyOrder[i], depth+1); d != "" {
				return "key: " + d
			}
			xv, err1 := x.HashGet(nil, x.KeyOrder[i])
			yv, err2 := y.HashGet(nil, y.KeyOrder[i])
			if (err1 == nil) != (err2 == nil) {
				return fmt.Sprintf("key %s: %v against %v", show(x.KeyOrder[i]), err1, err2)
			}
			if err1 == nil {
				if d := deepDiff(xv, yv, depth+1); d != "" {
					return "at " + show(x.KeyOrder[i]) + ": " + d
				}
			}
		}
	default:
		if show(a) != show(b) {
			return bad()
		}
	}
	return ""
}

// addEmit gives scripts (emit x ...), which records its arguments, and
// (emitted), which returns what was recorded since it was last called.
func addEmit(env *Zlisp) {
	var rec []Sexp
	env.AddFunction("emit", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		rec = append(rec, args...)
		return SexpNull, nil
	})
	env.AddFunction("emitted", func(env *Zlisp, name string, args []Sexp) (Sexp, error) {
		r := env.NewSexpArray(rec)
		rec = nil
		return r, nil
	})
}
