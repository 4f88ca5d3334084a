import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
B = {}
def bug(id, edits, demo, needs, breaks, **k):
    B[id] = lambda: plant(id, id[:3], edits, demo, needs, breaks, **k)
bug("C08-flag-command",
 [("zygo/repl.go", """	if cfg.Sandboxed {
		env = NewZlispSandbox()""", """	if cfg.Sandboxed && cfg.Command == "" {
		env = NewZlispSandbox()""")],
 '''package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	if len(os.Args) > 1 {
		cfg := zygo.NewZlispConfig("zygo")
		cfg.DefineFlags()
		if err := cfg.Flags.Parse(os.Args[1:]); err != nil {
			panic(err)
		}
		zygo.ReplMain(cfg)
		return
	}
	os.WriteFile("secret.txt", []byte("the-secret"), 0600)
	for _, args := range [][]string{{"-sandbox", "-c", "(println (slurpf \\"secret.txt\\"))"}, {"-sandbox", "-quiet", "-c", "(println (slurpf \\"secret.txt\\"))"}} {
		out, _ := exec.Command(os.Args[0], args...).CombinedOutput()
		if strings.Contains(string(out), "the-secret") {
			fmt.Println(args, "shows the file:", string(out))
			os.Exit(1)
		}
	}
	out, err := exec.Command(os.Args[0], "-sandbox", "-c", "(println (+ 1 2))").CombinedOutput()
	if err != nil || strings.TrimSpace(string(out)) != "3" {
		fmt.Println(string(out), err)
		os.Exit(1)
	}
}
''',
 "the command line tool with both -sandbox and -c", "the command runs outside of the sandbox")
bug("C10-embed-alias",
 [("zygo/hashutils.go", """		// avoid cross talk between paths with a copy.
		epath := make([]EmbedPath, len(embedPath)+1)
		copy(epath, embedPath)
		epath[len(embedPath)] = EmbedPath{ChildName: fld.Name, ChildFieldNum: i}
		det.EmbedPath = epath
""", """		det.EmbedPath = append(embedPath, EmbedPath{ChildName: fld.Name, ChildFieldNum: i})
""")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

type A4 struct{ P, Q, R int }
type A3 struct {
	A4
	S int
}
type A2 struct {
	A3
	T int
}
type A1 struct {
	A2
	U int
}

func main() {
	zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true,
		Factory: func(env *zygo.Zlisp, h *zygo.SexpHash) (interface{}, error) { return &A1{}, nil }}, true, "a1demo", "A1")
	env := zygo.NewZlisp()
	env.StandardSetup()
	x, err := env.EvalString("(a1demo P:1 Q:2 R:3 S:4 T:5 U:6)")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	got := &A1{}
	if _, err := zygo.SexpToGoStructs(x, got, env, nil, 0, got); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if got.P != 1 || got.Q != 2 || got.R != 3 || got.S != 4 || got.T != 5 || got.U != 6 {
		fmt.Printf("the struct is %+v\\n", *got)
		os.Exit(1)
	}
}
''',
 "a struct that embeds structs three levels deep, the innermost with several fields", "the paths of the innermost fields share memory, so all of them lead to the last field")
bug("C10-stale-nil",
 [("zygo/jsonmsgp.go", """		// set to nil
		targVa.Elem().Set(reflect.Zero(targVa.Type().Elem()))
""", """		// set to nil
		switch targElemKind {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
			targVa.Elem().Set(reflect.Zero(targVa.Type().Elem()))
		}
""")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

type Bdemo struct {
	N int
	S string
}

func main() {
	zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true,
		Factory: func(env *zygo.Zlisp, h *zygo.SexpHash) (interface{}, error) { return &Bdemo{}, nil }}, true, "bdemo", "Bdemo")
	env := zygo.NewZlisp()
	env.StandardSetup()
	x, err := env.EvalString(`(def b (bdemo N:5 S:"s")) (togo b) (hset b N: nil) (hset b S: "t") (togo b) b`)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	got := x.(*zygo.SexpHash).GoShadowStruct.(*Bdemo)
	if got.N != 0 || got.S != "t" {
		fmt.Printf("the struct is %+v\\n", *got)
		os.Exit(1)
	}
}
''',
 "a record that has its Go struct already, one of whose scalar fields becomes nil", "the struct keeps the old value of the field")
bug("C11-empty-array",
 [("zygo/jsonmsgp.go", """		slice := []Sexp{}
		for i := range val {""", """		var slice []Sexp
		if depth > 0 && len(val) == 0 {
			return SexpNull, nil
		}
		for i := range val {""")],
 [[['(len (hget (unjson (json (hash a:[] b:[1]))) a:))', "0"], ['(unjson (json (hash a:[] b:[1])))', "{a:[] b:[1]}"], ['(unmsgpack (msgpack (hash a:[[]])))', "{a:[[]]}"]]],
 "an empty array inside other data", "it decodes as nil")
bug("C17-derefset-name",
 [("zygo/functions.go", "				if tt == pt && tt.RegisteredName == pt.RegisteredName {", "				if tt.RegisteredName == pt.RegisteredName {")],
 [[["(struct Car [(field w: int64)])", "*"], ["(def c (Car w:1)) (def p (& c))", "*"], ["(derefSet p (Car w:2)) (hget c w:)", "2"],
   ["(struct Car [(field w: string)])", "*"], ["(def d (Car w:\"x\"))", "*"], ["(derefSet p d)", "error"], ["(hget c w:)", "2"]]],
 "a pointer to a record of a struct that has been declared again by the same name, set to an instance of the new declaration", "the old record takes a value that its own declaration does not allow")
bug("C20-msgpack-order",
 [("zygo/jsonmsgp.go", "	m.mh.Canonical = true // sort maps before writing them\n", "")],
 '''package main

import (
	"fmt"
	"os"

	"github.com/glycerine/zygomys/v9/zygo"
)

func main() {
	first := ""
	for i := 0; i < 60; i++ {
		env := zygo.NewZlisp()
		env.StandardSetup()
		x, err := env.EvalString(`(raw2str (msgpack (hash aa:1 bb:2 cc:3 dd:4 ee:5)))`)
		got := fmt.Sprint(err)
		if err == nil {
			got = x.SexpString(nil)
		}
		if i > 0 && got != first {
			fmt.Println("once", first, "then", got)
			os.Exit(1)
		}
		first = got
	}
}
''',
 "msgpack of a hash with several keys", "the bytes are in the order of a Go map")
for n in sys.argv[1:] or B:
    B[n]()
