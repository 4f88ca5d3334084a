package main

// C08: a sandboxed interpreter cannot reach the outside world.
//
// Every case runs as an unprivileged user in a scratch directory of its own
// that holds canary files. After every evaluation the directory's inotify
// events, its listing, the environment and the resource usage of children are
// looked at, and value, output and error text are searched for the canaries.

import (
	"bytes"
	"context"
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	. "github.com/glycerine/zygomys/v9/zygo"
)

const c08mark = "CANARYQ7"

var c08names []string // every name a script might try
var c08core = []string{"sys", "system", "source", "include", "import", "req", "slurpf", "writef", "owritef", "save", "bsave", "greenpack", "bload", "exit", "getenv", "setenv", "dump", "quit", "flattenToWords", "readf", "load", "require", "open", "togo", "fromgo"}

func c08Init() {
	c13Init()
	seen := map[string]bool{}
	add := func(n string) {
		if n != "" && len(n) <= 24 && !seen[n] && !strings.ContainsAny(n, " \t\n\r()[]{}\"'`;,\\%$/^~@") || n == "/" || n == "%" || n == "^" {
			seen[n] = true
			c08names = append(c08names, n)
		}
	}
	for _, n := range c08core {
		add(n)
	}
	for _, n := range c01special {
		add(n)
	}
	var ns []string
	for n := range AllBuiltinFunctions() {
		ns = append(ns, n)
	}
	// every string in the source that might be a name
	files, _ := filepath.Glob(filepath.Join(repoDir(), "zygo", "*.go"))
	name := regexp.MustCompile(`^[\pL_<>=+*!?:&|.#-][\pL0-9_<>=+*!?:&|.#-]*$`)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(f, fs.Base(), len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			if tok != token.STRING {
				continue
			}
			t, err := strconv.Unquote(lit)
			if err != nil {
				continue
			}
			if name.MatchString(t) {
				ns = append(ns, t)
			} else if strings.Contains(t, "(def") {
				// zygo source inside the Go source: macros and functions
				for _, w := range strings.FieldsFunc(t, func(r rune) bool { return strings.ContainsRune(" \t\n()[]{}^~@'`\"", r) }) {
					if name.MatchString(w) {
						ns = append(ns, w)
					}
				}
			}
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		add(n)
	}
	if len(c08names) < 100 {
		panic("harness: no names found in " + repoDir())
	}
	for _, k := range []string{"HOME", "USER", "LOGNAME", "SHELL", "LANG", "PWD", "HOSTNAME", "ZYGO", "VERIFCAN"} {
		os.Setenv(k, c08mark+"-env")
	}
}

// yard is a directory of canaries.
type yard struct {
	dir   string
	fd    int // inotify, -1 without
	list  string
	env   string
	usage syscall.Rusage
}

func newYard() *yard {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "yard")
	if err != nil {
		panic("harness: " + err.Error())
	}
	y := &yard{dir: dir, fd: -1}
	for n, t := range map[string]string{
		"can.zy":            "(def canleak \"" + c08mark + "-zy\")\n\"" + c08mark + "-zy\"\n",
		"pk.zy":             "(def pk (package \"pk\" (def Leak \"" + c08mark + "-pk\")))\n",
		"can.txt":           c08mark + "-txt\n" + c08mark + "-txt\n",
		"can.json":          "{\"a\":\"" + c08mark + "-json\"}\n",
		"can.msgp":          "\x81\xa1a\xacCANARYQ7-msg",
		c08mark + "-name.d": "x\n",
	} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	os.Setenv("TMPDIR", dir)
	if fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC); err == nil {
		_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_ATTRIB|syscall.IN_CLOSE_WRITE|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE_SELF|syscall.IN_MOVE_SELF)
		if err == nil {
			y.fd = fd
		} else {
			syscall.Close(fd)
		}
	}
	y.list = y.look()
	y.env = strings.Join(os.Environ(), "\x00")
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &y.usage)
	y.events()
	return y
}

// close leaves the directory's files to the end of the worker when deleting
// them is not needed.
func (y *yard) close() {
	if y.fd >= 0 {
		syscall.Close(y.fd)
	}
	os.RemoveAll(y.dir)
	os.Setenv("TMPDIR", os.Getenv("VERIF_SCRATCH"))
}

func (y *yard) look() string {
	var b strings.Builder
	es, err := os.ReadDir(y.dir)
	if err != nil {
		return "gone: " + err.Error()
	}
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			continue
		}
		fmt.Fprintf(&b, "%s %v %d %d\n", e.Name(), fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
	}
	return b.String()
}

var c08mask = []struct {
	m    uint32
	what string
}{{syscall.IN_ACCESS, "read"}, {syscall.IN_MODIFY, "written"}, {syscall.IN_ATTRIB, "changed"}, {syscall.IN_CLOSE_WRITE, "opened for writing"}, {syscall.IN_CREATE, "created"}, {syscall.IN_DELETE, "deleted"}, {syscall.IN_MOVED_FROM, "moved away"}, {syscall.IN_MOVED_TO, "moved"}}

func (y *yard) events() string {
	if y.fd < 0 {
		return ""
	}
	buf := make([]byte, 8192)
	n, err := syscall.Read(y.fd, buf)
	if err != nil || n <= 0 {
		return ""
	}
	for off := 0; off+syscall.SizeofInotifyEvent <= n; {
		e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
		nm := string(bytes.TrimRight(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(e.Len)], "\x00"))
		off += syscall.SizeofInotifyEvent + int(e.Len)
		if e.Mask&syscall.IN_ISDIR != 0 && e.Mask&syscall.IN_ACCESS != 0 {
			continue // a listing, which the names judge
		}
		for _, c := range c08mask {
			if e.Mask&c.m != 0 {
				if nm == "" {
					nm = "the directory"
				}
				return nm + " was " + c.what
			}
		}
	}
	return ""
}

// effects says what happened outside since the last time, "" for nothing.
func (y *yard) effects(texts ...string) string {
	if ev := y.events(); ev != "" {
		return "file: " + ev
	}
	if e := strings.Join(os.Environ(), "\x00"); e != y.env {
		return "environment changed"
	}
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &u)
	if u.Maxrss != y.usage.Maxrss || u.Minflt != y.usage.Minflt || u.Nvcsw != y.usage.Nvcsw {
		return "a process was started"
	}
	for _, t := range texts {
		if i := strings.Index(t, c08mark); i >= 0 {
			return "a canary was seen: " + clip(t[i:], 60)
		}
	}
	return ""
}

func (y *yard) final() string {
	if l := y.look(); l != y.list {
		return "files: before\n" + y.list + "after\n" + l
	}
	var ws syscall.WaitStatus
	if pid, err := syscall.Wait4(-1, &ws, syscall.WNOHANG, nil); err == nil && pid >= 0 {
		return "a process was started and left"
	}
	return ""
}

// shapes of arguments; D stands for the directory
var c08args = [][]string{
	{},
	{`"D/can.zy"`},
	{`"can.zy"`},
	{`"D/can.txt"`},
	{`"D/pk.zy"`},
	{`pkq`, `"D/pk.zy"`},
	{`"D/can.json"`},
	{`"D/can.msgp"`},
	{`["D/can.zy"]`},
	{`(list "D/can.zy")`},
	{`["D/can.txt" "D/pk.zy"]`},
	{`"D/new.txt"`, `"text"`},
	{`"text"`, `"D/new2.txt"`},
	{`["line" "two"]`, `"D/new3.txt"`},
	{`"D/new4.txt"`, `["line"]`},
	{`(hash a:1)`, `"D/new5.txt"`},
	{`"D/can.txt"`, `"text"`},
	{`"text"`, `"D/can.txt"`},
	{`"D/can.txt"`, `0`},
	{`"D/can.txt"`, `"D/new6.txt"`},
	{`"touch D/ran1"`},
	{`"touch"`, `"D/ran2"`},
	{`["touch" "D/ran3"]`},
	{`[touch "D/ran4"]`},
	{`touch`, `"D/ran5"`},
	{`"cat D/can.txt"`},
	{`"/bin/sh"`, `"-c"`, `"touch D/ran6"`},
	{`"VERIFCAN"`},
	{`"HOME"`},
	{`VERIFCAN`},
	{`"VERIFCAN"`, `"changed"`},
	{`VERIFCAN`, `"changed"`},
	{`"VERIFNEW"`, `"new"`},
	{`"VERIFNEW=new"`},
	{`["VERIFNEW" "new"]`},
	{`0`},
	{`7`},
	{`true`},
	{`(fn [x] x)`, `"D/can.txt"`},
	{`"D/can.txt"`, `(fn [x] x)`},
	{`"."`},
	{`"D"`},
	{`"D/can.txt"`, `"r"`},
	{`"D/new7.txt"`, `"w"`},
	{`(raw "D/can.txt")`},
	{`(hash path:"D/can.txt" file:"D/can.txt" name:"D/new8.txt" body:"x")`},
	{`can.txt`},
	{`new9.txt`, `"x"`},
	{`can`},
}

var c08routes = []string{
	"(N A)",
	"(begin (def al N) (al A))",
	"(eval (quote (N A)))",
	"(apply N [A])",
	"(begin (defmac mac8 [& a] (cons (quote N) a)) (mac8 A))",
	"(begin (defn fun8 [] (N A)) (fun8))",
	"{N A}",
	"(map N [A])",
}

const (
	cBare = iota
	cSetup
	cDemo
	cDup
)

var c08conf = []string{"bare sandbox", "sandbox with the standard setup", "sandbox with the standard setup and demo data", "duplicate of a sandbox with the standard setup"}

func c08env(conf int) *Zlisp {
	env := NewZlispSandbox()
	switch conf {
	case cSetup:
		env.StandardSetup()
	case cDemo:
		env.StandardSetup()
		env.ImportDemoData()
	case cDup:
		env.StandardSetup()
		env = env.Duplicate()
	}
	return env
}

func (y *yard) text(t string) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "\"D\"", "\""+y.dir+"\""), "D/", y.dir+"/")
}

func c08show(x Sexp) (s string) {
	defer func() {
		if recover() != nil {
			s = ""
		}
	}()
	if x == nil {
		return ""
	}
	return x.SexpString(nil)
}

// c08run evaluates one text and reports what it did to the world.
func (y *yard) run(env *Zlisp, text string) (bad string, known bool) {
	note(text)
	var x Sexp
	var err error
	out := capture(func() {
		old := OurStdout
		OurStdout = os.Stdout
		defer func() {
			OurStdout = old
			VerifStep = nil
			if e := recover(); e != nil {
				err = fmt.Errorf("panic: %v", e) // C01's to judge
				env.Clear()
			}
		}()
		n := 0
		VerifStep = func(*Zlisp) error {
			if n++; n > 20000 {
				return errSteps{}
			}
			return nil
		}
		x, err = env.EvalString(text)
		if err != nil {
			env.Clear()
		}
	})
	et := ""
	if err != nil {
		et = err.Error()
	}
	return y.effects(out, et, c08show(x)), err == nil || !strings.Contains(et, "not found") && !strings.Contains(et, "undefined") && !strings.Contains(et, "could not find")
}

func (y *yard) leaked(env *Zlisp) string {
	for _, n := range []string{"canleak", "pk", "pkq", "al"} {
		if bad, _ := y.run(env, n); bad != "" {
			return bad
		}
	}
	return ""
}

func c08place(y *yard, f func() Res) Res {
	wd, _ := os.Getwd()
	if err := os.Chdir(y.dir); err != nil {
		panic("harness: " + err.Error())
	}
	defer func() {
		os.Chdir(wd)
		y.close()
	}()
	return f()
}

func c08names1(name string, conf int, all bool) Res {
	y := newYard()
	return c08place(y, func() (res Res) {
		res.Key = fmt.Sprintf("%s %d", name, conf)
		res.Sample = fmt.Sprintf("%s with %d shapes of arguments by %d routes in a %s", name, len(c08args), len(c08routes), c08conf[conf])
		env := c08env(conf)
		for ri, r := range c08routes {
			for ai, a := range c08args {
				if !all && ri > 3 && (ai+ri+len(name))%3 != 0 {
					continue
				}
				t := y.text(strings.ReplaceAll(strings.ReplaceAll(r, "N", name), "A", strings.Join(a, " ")))
				if strings.Contains(r, "N") && strings.Contains(name, "A") {
					// the name holds the letter that stands for the arguments
					t = y.text(strings.ReplaceAll(strings.ReplaceAll(r, "A", strings.Join(a, " ")), "N", name))
				}
				bad, known := y.run(env, t)
				res.Evals++
				res.NonTrivial = res.NonTrivial || known
				if bad != "" {
					res.Fail = fmt.Sprintf("in a %s:\n%s\n%s", c08conf[conf], t, bad)
					res.Sig = "names " + name
					return
				}
			}
		}
		if bad := y.leaked(env); bad != "" {
			res.Fail = fmt.Sprintf("in a %s, after calls of %s: %s", c08conf[conf], name, bad)
			return
		}
		if bad := y.final(); bad != "" {
			res.Fail = fmt.Sprintf("in a %s, after calls of %s: %s", c08conf[conf], name, bad)
		}
		return
	})
}

// ---- generated programs

func quoteZ(s string) string { return strconv.Quote(s) }

// wrap8 hides the call of a name in a program.
func wrap8(g *G, name string, args []string, d int) string {
	a := strings.Join(args, " ")
	call := "(" + name + " " + a + ")"
	if d > 0 && g.Chance(2, 3) {
		call = wrap8(g, name, args, d-1)
	}
	half := len(name) / 2
	id := g.Intn(50)
	q := func(f string, xs ...interface{}) string { return fmt.Sprintf(f, xs...) }
	switch g.Intn(48) {
	case 0:
		return call
	case 1:
		return q("(begin (def al%d %s) (al%d %s))", id, name, id, a)
	case 2:
		return q("(eval (quote %s))", call)
	case 3:
		return q("(eval (read %s))", quoteZ(call))
	case 4:
		return q("(apply %s [%s])", name, a)
	case 5:
		return q("(map %s [%s])", name, a)
	case 6:
		return q("(map (fn [x] %s) [1])", call)
	case 7:
		return q("(begin (defmac mm%d [] (quote %s)) (mm%d))", id, call, id)
	case 8:
		return q("(begin (defmac mm%d [& a] ^(%s ~@a)) (mm%d %s))", id, name, id, a)
	case 9:
		return q("(begin (defmac mm%d [] (begin %s 1)) (mm%d))", id, call, id)
	case 10:
		return q("(macexpand %s)", call)
	case 11:
		return q("(begin (defn ff%d [] %s) (ff%d))", id, call, id)
	case 12:
		return q("((fn [] %s))", call)
	case 13:
		return q("((fn [f] (f %s)) %s)", a, name)
	case 14:
		return q("((fn [#x] (force #x)) %s)", call)
	case 15:
		return q("((fn [#x] (eval (substitute #x))) %s)", call)
	case 16:
		return q("(eval (cons (str2sym (concat %s %s)) (quote (%s))))", quoteZ(name[:half]), quoteZ(name[half:]), a)
	case 17:
		return q("(eval ^(%s ~@(list %s)))", name, a)
	case 18:
		return q("(let [f %s] (f %s))", name, a)
	case 19:
		return q("(letseq [f %s g f] (g %s))", name, a)
	case 20:
		return q("(cond true %s nil)", call)
	case 21:
		return q("(for [(def i 0) (< i 1) (def i (+ i 1))] %s)", call)
	case 22:
		return q("(newScope %s)", call)
	case 23:
		return q("(begin (def pk%d (package \"pk%d\" (defn Go [] %s))) (pk%d.Go))", id, id, call, id)
	case 24:
		return q("(begin (def pk%d (package \"pk%d\" (def Fun %s))) (pk%d.Fun %s))", id, id, name, id, a)
	case 25:
		return q("(package \"pk%d\" (def X %s))", id, call)
	case 26:
		return q("(begin (def hh%d (hash f: %s)) ((hget hh%d f:) %s))", id, name, id, a)
	case 27:
		return q("(begin (def hh%d (hash f: %s)) (hh%d.f %s))", id, name, id, a)
	case 28:
		return q("(expectError \"x\" %s)", call)
	case 29:
		return q("(assert (== 1 %s))", call)
	case 30:
		return q("(begin (func fu%d [] [] %s) (fu%d))", id, call, id)
	case 31:
		return q("(infixExpand %s)", call)
	case 32:
		return q("{x%d := %s}", id, call)
	case 33:
		return q("{if true { %s } }", call)
	case 34:
		return q("(begin (def qq%d (quote %s)) (eval qq%d))", id, call, id)
	case 35:
		return q("(and true %s)", call)
	case 36:
		return q("(or nil %s)", call)
	case 37:
		return q("(hash a: %s)", call)
	case 38:
		return q("[%s]", call)
	case 39:
		return q("(str %s)", call)
	case 40:
		return q("((aget [%s] 0) %s)", name, a)
	case 41:
		return q("((first (list %s)) %s)", name, a)
	case 42:
		return q("(begin (defmac mm%d [#q] %s) (mm%d %s))", id, call, id, call)
	case 43:
		return q("(eval (list (quote %s) %s))", name, a)
	case 44:
		return q("(begin (def h%d (hash path: %s)) (%s h%d.path))", id, pickS(g, append(args, "1")...), name, id)
	case 45:
		return q("(begin (def v%d %s) (%s v%d))", id, pickS(g, append(args, "1")...), name, id)
	case 46:
		return q("(begin (defmac %s2 [& a] ^(%s ~@a)) (%s2 %s))", name, name, name, a)
	}
	return q("(begin (set %s %s) %s)", name, pickS(g, "nil", name, "(fn [& x] x)"), call)
}

func prog8(g *G) (texts []string, names []string) {
	for k := g.Range(1, 4); k > 0; k-- {
		n := c08core[g.Intn(len(c08core))]
		if g.Chance(1, 3) {
			n = c08names[g.Intn(len(c08names))]
		}
		names = append(names, n)
		texts = append(texts, wrap8(g, n, c08args[g.Intn(len(c08args))], g.Intn(4)))
	}
	return
}

var c08bad = regexp.MustCompile(`timeit|makeChan|<!`)

func c08prog(g *G) Res {
	conf := g.Intn(4)
	texts, names := prog8(g)
	y := newYard()
	return c08place(y, func() (res Res) {
		res.Sample = c08conf[conf] + ":\n" + strings.Join(texts, "\n")
		res.Key = res.Sample
		if c08bad.MatchString(res.Sample) {
			res.Skip = true
			return
		}
		env := c08env(conf)
		for i, t := range texts {
			if g.labels != nil {
				g.Label("name " + names[i])
			}
			bad, known := y.run(env, y.text(t))
			res.NonTrivial = res.NonTrivial || known
			if bad != "" {
				res.Fail = fmt.Sprintf("in a %s:\n%s\n%s", c08conf[conf], strings.Join(texts[:i+1], "\n"), bad)
				res.Sig = bad
				return
			}
		}
		bad := y.leaked(env)
		if bad == "" {
			bad = y.final()
		}
		if bad != "" {
			res.Fail = fmt.Sprintf("in a %s, after\n%s\n%s", c08conf[conf], strings.Join(texts, "\n"), bad)
			res.Sig = bad
		}
		return
	})
}

// ---- the command-line tool

// c08end asks whether the loop goes on, also if the text before it ended in
// the middle of something.
const c08alive = "(concat \"ALIVE\" (str (* 70007 3)))\n"
const c08end = "\n" + c08alive + ")]}\n" + c08alive + "\"\n" + c08alive + "`\n" + c08alive + "*/\n" + c08alive + "\n"

// cli8 gives texts to zygo -sandbox: on standard input, by -c, or as a script.
func cli8(how int, texts []string, demo bool) (res Res) {
	y := newYard()
	defer y.close()
	texts = append([]string(nil), texts...)
	for i := range texts {
		texts[i] = y.text(texts[i])
	}
	res.NonTrivial = true
	alive := "ALIVE" + strconv.Itoa(70007*3)
	work, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(work)
	args := []string{"-sandbox", "-quiet"}
	if demo {
		args = append(args, "-demo")
	}
	in := ""
	all := strings.Join(texts, "\n")
	switch how {
	case 0:
		args = append(args, "-no-liner")
		in = all + c08end
	case 1:
		args = append(args, "-c", all)
	case 2:
		f := filepath.Join(work, "s.zy")
		if err := os.WriteFile(f, []byte(all), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		args = append(args, "-exitonfail", f)
	case 3:
		f := filepath.Join(work, "s.zy")
		if err := os.WriteFile(f, []byte(all), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		args = append(args, "-no-liner", "-i", f)
		in = "\n" + all + c08end
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), args...)
	cmd.Dir = y.dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + c08mark + "-env", "VERIFCAN=" + c08mark + "-env", "USER=" + c08mark + "-env", "TMPDIR=" + y.dir, "LANG=C.UTF-8", "GOMAXPROCS=2"}
	cmd.Stdin = strings.NewReader(in)
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	cmd.Run()
	if ctx.Err() != nil {
		res.Skip = true
		return
	}
	both := out.String() + serr.String()
	res.Sample = "zygo " + strings.Join(args, " ")
	say := func(what string) {
		res.Fail = fmt.Sprintf("zygo %s with\n%s\n%s\n--- printed\n%s", strings.Join(args, " "), all, what, clip(both, 1500))
		res.Sig = what
	}
	if ev := y.events(); ev != "" {
		say("file: " + ev)
		return
	}
	if i := strings.Index(both, c08mark); i >= 0 {
		say("a canary was seen: " + clip(both[max(0, i-40):], 100))
		return
	}
	if l := y.look(); l != y.list {
		say("files changed:\n" + l)
		return
	}
	// a script that ends early for an error is not an exit it asked for, so
	// only the loop that goes on after errors is judged
	if (how == 0 || how == 3) && !strings.Contains(both, alive) && !strings.Contains(serr.String(), "goroutine ") {
		say("the tool ended before its input")
	}
	return
}

func init() {
	conf := 4
	group := 12
	register(&Prop{ID: "C08", Level: "exploration",
		Rule: "a case is non-trivial if a name it calls is bound or is a special form there (some call ends in another way than an unbound symbol); a run of the tool counts always",
		Assumptions: []string{
			"outside effects are those that a canary directory, the environment, the resource usage of children and the exit of the process show: reading or writing elsewhere with none of the arguments given would go unseen",
			"finding out that a path exists, the working directory, the clock and random numbers are not counted as reading a file",
			"crashes of the host are C01's",
		},
		Init: c08Init,
		Parts: []Part{
			{Name: "names", Enum: func(string) int { return len(c08names) * conf }, Run: func(g *G) Res {
				return c08names1(c08names[g.I/conf], g.I%conf, g.Tier == "thorough")
			}},
			{Name: "programs", Quick: 30000, Thorough: 600000, Run: c08prog},
			{Name: "tool, every name", Enum: func(string) int { return (len(c08names) + group - 1) / group }, Run: func(g *G) Res {
				var ts []string
				for i := g.I * group; i < (g.I+1)*group && i < len(c08names); i++ {
					n := c08names[i]
					if c08bad.MatchString(n) {
						continue
					}
					for _, a := range c08args {
						ts = append(ts, "("+n+" "+strings.Join(a, " ")+")")
					}
					ts = append(ts, "."+n, "."+n+" D/can.txt", n+" D/can.txt", ":"+n+" D/can.txt", "!"+n+" D/can.txt")
				}
				r := cli8(0, ts, false)
				r.Key = strconv.Itoa(g.I)
				if r.Fail != "" {
					for _, t := range ts { // which of them was it?
						if one := cli8(0, []string{t}, false); one.Fail != "" {
							r.Fail, r.Sig = one.Fail, one.Sig+strings.Fields(t)[0]
							break
						}
					}
				}
				return r
			}},
			{Name: "tool, programs", Quick: 600, Thorough: 8000, Run: func(g *G) Res {
				how := g.Intn(4)
				demo := g.Chance(1, 4)
				ts, _ := prog8(g)
				s := strings.Join(ts, "\n")
				if c08bad.MatchString(s) {
					return Res{Skip: true}
				}
				r := cli8(how, ts, demo)
				r.Key = fmt.Sprint(how, demo, s)
				return r
			}},
		},
	})
}
