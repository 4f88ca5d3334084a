From 552039ebb3c0c1015b8c0372b2a911faf6748186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 01/48] verif hook: step callback in the VM run loop, built
 only with the verif tag

---
 zygo/environment.go    |  5 ++++-
 zygo/verif_hook_off.go |  7 +++++++
 zygo/verif_hook_on.go  | 16 ++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)
 create mode 100644 zygo/verif_hook_off.go
 create mode 100644 zygo/verif_hook_on.go

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..215518c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -893,7 +893,10 @@ func (env *Zlisp) Run() (Sexp, error) {
 			fmt.Printf("\n ====== in '%s', now running the above.\n",
 				env.curfunc.name)
 		}
-		err := instr.Execute(env)
+		err := verifStep(env)
+		if err == nil {
+			err = instr.Execute(env)
+		}
 		if err != nil {
 			env.restoreControlState(runState)
 			env.pc = functionSize(env.curfunc)
diff --git a/zygo/verif_hook_off.go b/zygo/verif_hook_off.go
new file mode 100644
index 0000000..4222b57
--- /dev/null
+++ b/zygo/verif_hook_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package zygo
+
+// verifStep is the verification hook of the VM run loop; it does nothing
+// unless the package is built with the 'verif' tag.
+func verifStep(env *Zlisp) error { return nil }
diff --git a/zygo/verif_hook_on.go b/zygo/verif_hook_on.go
new file mode 100644
index 0000000..6085a3e
--- /dev/null
+++ b/zygo/verif_hook_on.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package zygo
+
+// VerifStep, when set, runs before every VM instruction. A non-nil error
+// stops the running evaluation as if the instruction had failed with it;
+// checks use it to bound programs that would not terminate and to sample
+// stack depths.
+var VerifStep func(env *Zlisp) error
+
+func verifStep(env *Zlisp) error {
+	if VerifStep == nil {
+		return nil
+	}
+	return VerifStep(env)
+}
-- 
2.43.0


From cdff8268c1cf5cae842c9904877e6d9b366c213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 02/48] fix: compare integers without overflow, and uint64
 below as well as above

---
 zygo/comparisons.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..f57a4cf 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -53,6 +53,17 @@ func signumInt(i int64) int {
 	return 0
 }
 
+// compareInts orders without subtracting, which could overflow.
+func compareInts(a, b int64) int {
+	switch {
+	case a < b:
+		return -1
+	case a > b:
+		return 1
+	}
+	return 0
+}
+
 func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
@@ -85,17 +96,17 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return compareInts(i.Val, e.Val), nil
 	case *SexpFloat:
 		return signumFloat(float64(i.Val) - e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return compareInts(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return compareInts(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,7 +121,7 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return compareInts(int64(c.Val), e.Val), nil
 	case *SexpFloat:
 		return signumFloat(float64(c.Val) - e.Val), nil
 	case *SexpChar:
@@ -312,18 +323,14 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		switch {
+		case i.Val < e.Val:
+			return -1, nil
+		case i.Val > e.Val:
+			return 1, nil
+		}
+		return 0, nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
-
-func signumUint64(i uint64) int {
-	if i > 0 {
-		return 1
-	}
-	if i < 0 {
-		return -1
-	}
-	return 0
-}
-- 
2.43.0


From 145885f316f84110c38a890d77f708a2dbb4c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 03/48] fix: an integer or char on the left of a NaN is
 unordered too

---
 zygo/comparisons.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index f57a4cf..a525062 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -98,6 +98,9 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	case *SexpInt:
 		return compareInts(i.Val, e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(i.Val) - e.Val), nil
 	case *SexpChar:
 		return compareInts(i.Val, int64(e.Val)), nil
@@ -123,6 +126,9 @@ func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	case *SexpInt:
 		return compareInts(int64(c.Val), e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(c.Val) - e.Val), nil
 	case *SexpChar:
 		return signumInt(int64(c.Val) - int64(e.Val)), nil
-- 
2.43.0


From 543ff05d170e4c919b59e14aae0c47b0d917c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 04/48] fix: integer division and modulo by zero return an
 error instead of a recovered panic with a stack trace

---
 zygo/numerictower.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/zygo/numerictower.go b/zygo/numerictower.go
index 4012fd5..62ca250 100644
--- a/zygo/numerictower.go
+++ b/zygo/numerictower.go
@@ -19,6 +19,7 @@ const (
 )
 
 var WrongType error = errors.New("operands have invalid type")
+var DivisionByZero error = errors.New("division by zero")
 
 func IntegerDo(op IntegerOp, a, b Sexp) (Sexp, error) {
 	var ia *SexpInt
@@ -46,6 +47,10 @@ func IntegerDo(op IntegerOp, a, b Sexp) (Sexp, error) {
 		return SexpNull, WrongType
 	}
 
+	if op == Modulo && ib.Val == 0 {
+		return SexpNull, DivisionByZero
+	}
+
 	switch op {
 	case ShiftLeft:
 		return &SexpInt{Val: ia.Val << uint(ib.Val)}, nil
@@ -79,6 +84,10 @@ func UintegerDo(op IntegerOp, ia *SexpUint64, b Sexp) (Sexp, error) {
 		return SexpNull, WrongType
 	}
 
+	if op == Modulo && ib.Val == 0 {
+		return SexpNull, DivisionByZero
+	}
+
 	switch op {
 	case ShiftLeft:
 		return &SexpUint64{Val: ia.Val << ib.Val}, nil
@@ -271,7 +280,29 @@ func NumericMatchTime(op NumericOp, a *SexpTime, b Sexp) (Sexp, error) {
 	return SexpNull, WrongType
 }
 
+// isIntegerDivisionByZero is true for a division that Go would panic on.
+func isIntegerDivisionByZero(op NumericOp, a, b Sexp) bool {
+	if op != Div {
+		return false
+	}
+	if _, isFloat := a.(*SexpFloat); isFloat {
+		return false
+	}
+	switch tb := b.(type) {
+	case *SexpInt:
+		return tb.Val == 0
+	case *SexpUint64:
+		return tb.Val == 0
+	case *SexpChar:
+		return tb.Val == 0
+	}
+	return false
+}
+
 func NumericDo(op NumericOp, a, b Sexp) (Sexp, error) {
+	if isIntegerDivisionByZero(op, a, b) {
+		return SexpNull, DivisionByZero
+	}
 	switch ta := a.(type) {
 	case *SexpFloat:
 		return NumericMatchFloat(op, ta, b)
-- 
2.43.0


From 4e415abc2f115e3eca482d2ce9293a00daf46fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 05/48] fix: deleting a hash key removes it from the key order,
 counts only keys that were there, and finds one-element array keys

---
 zygo/hashutils.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..c16078e 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -397,22 +397,19 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	if arr, isArray := key.(*SexpArray); isArray && len(arr.Val) == 1 {
+		key = arr.Val[0] // as in HashSet and HashGet
+	}
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
 	}
-	arr, ok := hash.Map[hashval]
 
 	// if it doesn't exist, no need to delete it
-	if !ok {
-		return nil
-	}
-
-	hash.NumKeys--
-	for i, pair := range arr {
+	for i, pair := range hash.Map[hashval] {
 		res, err := hash.Env.Compare(pair.Head, key)
 		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			hash.removePair(hashval, i)
 			break
 		}
 	}
@@ -420,6 +417,32 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 	return nil
 }
 
+// removePair takes the i-th pair out of a bucket, and its key out of the key order.
+func (hash *SexpHash) removePair(hashval int, i int) {
+	bucket := hash.Map[hashval]
+	key := bucket[i].Head
+
+	rest := make([]*SexpPair, 0, len(bucket)-1)
+	rest = append(rest, bucket[:i]...)
+	rest = append(rest, bucket[i+1:]...)
+	if len(rest) == 0 {
+		delete(hash.Map, hashval)
+	} else {
+		hash.Map[hashval] = rest
+	}
+	hash.NumKeys--
+
+	for k, ordered := range hash.KeyOrder {
+		res, err := hash.Env.Compare(ordered, key)
+		if err == nil && res == 0 {
+			order := make([]Sexp, 0, len(hash.KeyOrder)-1)
+			order = append(order, hash.KeyOrder[:k]...)
+			hash.KeyOrder = append(order, hash.KeyOrder[k+1:]...)
+			break
+		}
+	}
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
-- 
2.43.0


From c2adbe925ed8e2837ce182a9e4ec5212a1cfa831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 06/48] fix: range over a hash with values of mixed types no
 longer repeats the previous pair; mdef reports binding errors

---
 zygo/pratt.go | 5 +++++
 zygo/repl.go  | 2 +-
 zygo/vm.go    | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..1460f60 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -499,6 +499,11 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 	if !(len(targets) == 2 && op == "=") {
 		forBody = append(forBody, body...)
 	}
+	if len(targets) == 2 && op == ":=" {
+		// fresh variables each time round, since elements can differ in type
+		scoped := append([]Sexp{env.MakeSymbol("newScope")}, forBody...)
+		forBody = []Sexp{MakeList(scoped)}
+	}
 	forLoop := prattForList(env, label, control, forBody)
 	return prattCall(env, "letseq", letBindings, forLoop), true, nil
 }
diff --git a/zygo/repl.go b/zygo/repl.go
index 652584a..1179426 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -404,7 +404,7 @@ func (env *Zlisp) StandardSetup() {
 	rangeMacro := `(defmac range [key value myhash & body]
   ^(let [n (len ~myhash)]
       (for [(def i 0) (< i n) (def i (+ i 1))]
-        (begin
+        (newScope
           (mdef (quote ~key) (quote ~value) (hpair ~myhash i))
           ~@body))))`
 	_, err = env.EvalString(rangeMacro)
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..a81fc28 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,7 +550,9 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		if err := env.LexicalBindSymbol(bindThisSym, arr[i]); err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
-- 
2.43.0


From 0833982f0a1cbf7a1cdbbf311aef5c47fc28c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 07/48] fix: copying a hash through a pointer no longer shares
 buckets and key order with the source

---
 zygo/hashutils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index c16078e..e512bb0 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -981,7 +981,7 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		cp[k] = append([]*SexpPair(nil), v...)
 	}
 	return &cp
 }
@@ -993,7 +993,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp(nil), src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
-- 
2.43.0


From 02bced94f5ed76ecc4195e133166f47e7d8b2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 08/48] fix: resetting the lexer forgets the runes, tokens and
 streams of earlier input

---
 zygo/lexer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..2c924b9 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -193,13 +193,10 @@ func (lexer *Lexer) Linenum() int {
 	return lexer.linenum
 }
 
+// Reset forgets everything about earlier input: how a text is
+// read must not depend on what was read before it.
 func (lex *Lexer) Reset() {
-	lex.stream = nil
-	lex.tokens = lex.tokens[:0]
-	lex.state = LexerNormal
-	lex.linenum = 1
-	lex.preBuiltinRune = 0
-	lex.buffer.Reset()
+	*lex = *NewLexer(lex.parser)
 }
 
 func (lex *Lexer) EmptyToken() Token {
-- 
2.43.0


From 34626d6d71182fc1fd32a3271b2684250a97926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 09/48] fix: the last token of a text is not lost, and a pause
 between pieces of input never changes how it is read

---
 zygo/lexer.go  |  41 +++++++++
 zygo/parser.go | 222 +++++++++++++++++++++++++++++++------------------
 2 files changed, 184 insertions(+), 79 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 2c924b9..28e3a8e 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -144,6 +144,8 @@ type Lexer struct {
 	next           []io.RuneScanner
 	linenum        int
 
+	taken []Token // consumed since the current top-level expression began
+
 	priori    int
 	priorRune [20]rune
 }
@@ -866,9 +868,48 @@ func (lexer *Lexer) GetNextToken() (tok Token, err error) {
 		return EndTk, err
 	}
 	lexer.tokens = lexer.tokens[1:]
+	lexer.taken = append(lexer.taken, tok)
 	return tok, nil
 }
 
+// beginExpression starts a new top-level expression.
+func (lexer *Lexer) beginExpression() {
+	lexer.taken = lexer.taken[:0]
+}
+
+// rewindExpression puts back the tokens consumed so far
+// by the current top-level expression.
+func (lexer *Lexer) rewindExpression() {
+	lexer.tokens = append(append([]Token{}, lexer.taken...), lexer.tokens...)
+	lexer.taken = lexer.taken[:0]
+}
+
+// inDelimited is true inside a string, raw string, char literal
+// or block comment, whose end has not been seen yet.
+func (lexer *Lexer) inDelimited() bool {
+	switch lexer.state {
+	case LexerStrLit, LexerStrEscaped, LexerBacktickString,
+		LexerRuneLit, LexerRuneEscaped,
+		LexerCommentBlock, LexerCommentBlockAsterisk:
+		return true
+	}
+	return false
+}
+
+// snapshot returns a function that brings the lexer back to where it is
+// now, as far as that does not concern its input streams.
+func (lexer *Lexer) snapshot() (restore func()) {
+	saved := *lexer
+	saved.tokens = append([]Token{}, lexer.tokens...)
+	saved.taken = append([]Token{}, lexer.taken...)
+	buffered := append([]byte{}, lexer.buffer.Bytes()...)
+	return func() {
+		*lexer = saved
+		lexer.buffer.Reset()
+		lexer.buffer.Write(buffered)
+	}
+}
+
 func (lex *Lexer) PromoteNextStream() (ok bool) {
 	/*
 		Q("entering PromoteNextStream()!\n")
diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..513561c 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -27,6 +27,9 @@ type Parser struct {
 
 	inBacktick bool
 	recur      int64
+
+	open  int  // brackets open around the expression being read
+	final bool // reading the last tokens of the text so far
 }
 
 type ParserReply struct {
@@ -97,6 +100,9 @@ func (p *Parser) ResetAddNewInput(s io.RuneScanner) {
 
 var UnexpectedEnd error = errors.New("Unexpected end of input")
 
+// errTextEnds: the text so far ends where it may be complete, and may go on.
+var errTextEnds = errors.New("text so far ends here")
+
 const SliceDefaultCap = 10
 
 func (p *Parser) getRecur() int64 {
@@ -124,7 +130,7 @@ tokFilled:
 		parser.sendMe.Err = ErrMoreInputNeeded
 		ok := parser.yield(parser.sendMe)
 		if !ok {
-			return SexpEnd, nil
+			return SexpEnd, ParserHaltRequested
 		}
 		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
@@ -147,7 +153,7 @@ tokFilled:
 
 	start.Head = expr
 
-	tok, err = lexer.PeekNextToken(0)
+	tok, err = parser.ParserPeekNextToken(0)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -162,6 +168,10 @@ tokFilled:
 		}
 
 		// eat up the end paren
+		_, err = parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpNull, err
+		}
 		tok, err = lexer.GetNextToken()
 		if err != nil {
 			return SexpNull, err
@@ -214,7 +224,7 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 				parser.sendMe.Err = ErrMoreInputNeeded
 				ok := parser.yield(parser.sendMe)
 				if !ok {
-					return SexpEnd, nil
+					return SexpEnd, ParserHaltRequested
 				}
 			}
 		}
@@ -250,12 +260,25 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	lexer := parser.lexer
 	env := parser.env
 
+	if depth > 0 {
+		// something has to follow.
+		if _, err = parser.ParserPeekNextToken(0); err != nil {
+			return SexpEnd, err
+		}
+	}
+
 	//getAnother:
 	tok, err := lexer.GetNextToken()
 	if err != nil {
 		return SexpEnd, err
 	}
 
+	switch tok.typ {
+	case TokenLParen, TokenLSquare, TokenLCurly:
+		parser.open++
+		defer func() { parser.open-- }()
+	}
+
 	switch tok.typ {
 	case TokenLParen:
 		exp, err := parser.ParseList(depth+1, TokenRParen)
@@ -265,92 +288,54 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		return exp, err
 	case TokenLCurly:
 		// allow `{ symbol: ` to initiate a `(hash symbol:` so we can parse JSON type {} hashmaps.
-		tok2, err := parser.ParserPeekNextToken(0)
+		at := 0 // the first token past any comments
+		tok2, err := parser.peekToken(at)
+		for err == nil && (tok2.typ == TokenComment || tok2.typ == TokenBeginBlockComment || tok2.typ == TokenEndBlockComment) {
+			at++
+			tok2, err = parser.peekToken(at)
+		}
 		if err != nil {
 			return SexpNull, err
 		}
 
-		extra := 1
-		// skip past comments
-		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment {
-			if tok2.typ == TokenBeginBlockComment {
-				_, err = parser.ParserPeekNextToken(extra + 2)
-				if err != nil {
-					return SexpNull, err
-				}
-				// to discern the pattern:
-				//tok2 = lexer.tokens[extra]    // TokenComment
-				//tok3 := lexer.tokens[extra+1] // TokenEndBlockComment
-				//vv("tok2 = '%v' / '%#v' (extra=%v)", tok2.String(), tok2, extra)
-				//vv("tok3 = '%v' / '%#v'", tok3.String(), tok3)
-
-				tok2 = lexer.tokens[extra+2]
-				extra += 3
-			}
-			if tok2.typ == TokenComment {
-				_, err = parser.ParserPeekNextToken(extra)
-				if err != nil {
-					return SexpNull, err
-				}
-				//vv("tok2 = '%v' / '%#v'", tok2.String(), tok2)
-				tok2 = lexer.tokens[extra]
-				extra++
-			}
-		}
-
+		isHash := false
 		switch tok2.typ {
 		case TokenSymbolColon:
-			_, err = parser.ParserPeekNextToken(extra)
+			second, err := parser.peekToken(at + 1)
 			if err != nil {
 				return SexpNull, err
 			}
-			second := lexer.tokens[extra]
-			if second.typ == TokenSymbol && second.str == "for" {
-				break
-			}
+			isHash = second.typ != TokenSymbol || second.str != "for"
 			//vv("saw TokenLCurly followed by TokenSymbolColon, tok2 = '%v', typ='%v'", tok2.String(), tok2.typ)
-			lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
-			exp, err := parser.ParseList(depth+1, TokenRCurly)
-			if err != nil {
-				return SexpNull, err
-			}
-			return exp, err
 		case TokenRCurly:
-			_, _ = lexer.GetNextToken()       // dicard '}'
+			for i := 0; i <= at; i++ {
+				_, _ = lexer.GetNextToken() // discard comments and '}'
+			}
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
-
 			// are we { "name": value }, as in JSON?
-			second := lexer.tokens[extra]
-			if second.typ == TokenColonOperator {
-				//vv(`we see { "%v" : `, tok2.str)
-				lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
-				exp, err := parser.ParseList(depth+1, TokenRCurly)
-				if err != nil {
-					return SexpNull, err
-				}
-				return exp, err
+			second, err := parser.peekToken(at + 1)
+			if err != nil {
+				return SexpNull, err
 			}
-
+			isHash = second.typ == TokenColonOperator
 		case TokenBeginBacktickString:
-			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
-
 			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
-			second := lexer.tokens[extra]
-			third := lexer.tokens[extra+1]
-
 			// if second is the keyname and third is ':', then create anonymous hash, like JSON.
-			if second.typ == TokenBacktickString && third.typ == TokenColonOperator {
-				lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
-				exp, err := parser.ParseList(depth+1, TokenRCurly)
-				if err != nil {
-					return SexpNull, err
-				}
-				return exp, err
+			second, err := parser.peekToken(at + 1)
+			if err != nil {
+				return SexpNull, err
+			}
+			third, err := parser.peekToken(at + 2)
+			if err != nil {
+				return SexpNull, err
 			}
+			isHash = second.typ == TokenBacktickString && third.typ == TokenColonOperator
+		}
+		if isHash {
+			lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
+			return parser.ParseList(depth+1, TokenRCurly)
 		}
 
 		exp, err := parser.ParseInfix(depth + 1)
@@ -468,6 +453,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
 			tok2, err := parser.ParserPeekNextToken(0)
+			if err == errTextEnds && parser.final {
+				return env.MakeSymbol(tok.str), nil
+			}
 			if err != nil {
 				return SexpEnd, err
 			}
@@ -546,6 +534,12 @@ func (p *Parser) ParseTokens() (sx []Sexp, err error) {
 				}
 			}
 			if err != nil {
+				if err != ErrMoreInputNeeded && p.stop != nil {
+					// this iteration is over; what comes next starts another.
+					p.next = nil
+					p.stop()
+					p.stop = nil
+				}
 				return
 			}
 		}
@@ -561,24 +555,81 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		// allow ParseExpression to yield when deep
 		// down the stack (half way through a parse)
 		// and we need more input.
-		p.yield = yield
+		halted := false
+		p.yield = func(reply *ParserReply) bool {
+			if !halted && !yield(reply) {
+				halted = true
+			}
+			return !halted
+		}
+		p.open = 0
+		p.final = false
 
 		var expr Sexp
 		var err error
 		const depth0 int = 0
 		for {
+			p.lexer.beginExpression()
 			expr, err = p.ParseExpression(depth0)
-			if err != nil || expr == SexpEnd {
+			if err == nil && expr != SexpEnd {
+				p.sendMe.Expr = append(p.sendMe.Expr, expr)
+				continue
+			}
+			if err == errTextEnds {
+				p.lexer.rewindExpression()
+				err = nil
+			}
+			var last []Sexp
+			if err == nil {
+				last, err = p.parseTextEnd()
+			}
+			if err == ErrMoreInputNeeded {
 				p.sendMe.Err = err
-				yield(p.sendMe)
-				return
+				if !p.yield(p.sendMe) {
+					return
+				}
+				continue
 			}
-			p.sendMe.Expr = append(p.sendMe.Expr, expr)
+			p.sendMe.Err = err
+			n := len(p.sendMe.Expr)
+			p.yield(&ParserReply{Expr: append(p.sendMe.Expr[:n:n], last...), Err: err})
+			return
 		}
 		// never reached.
 	}
 }
 
+// parseTextEnd reads what is left when the input runs out outside of any
+// bracket: an atom, operator or line comment that nothing has ended yet, and
+// the quote marks before it. Should more input follow after all, it is
+// read again together with that, so the lexer is put back as it was.
+func (p *Parser) parseTextEnd() (last []Sexp, err error) {
+	if p.lexer.inDelimited() {
+		return nil, ErrMoreInputNeeded
+	}
+	restore := p.lexer.snapshot()
+	p.final = true
+	defer func() {
+		p.final = false
+		restore()
+	}()
+	err = p.lexer.LexNextRune('\n')
+	for err == nil {
+		var expr Sexp
+		expr, err = p.ParseExpression(0)
+		if err == nil {
+			if expr == SexpEnd {
+				break
+			}
+			last = append(last, expr)
+		}
+	}
+	if err == errTextEnds {
+		err = ErrMoreInputNeeded
+	}
+	return
+}
+
 var ErrShuttingDown error = fmt.Errorf("lexer shutting down")
 
 func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
@@ -605,7 +656,7 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 			parser.sendMe.Err = ErrMoreInputNeeded
 			ok := parser.yield(parser.sendMe)
 			if !ok {
-				return SexpEnd, nil
+				return SexpEnd, ParserHaltRequested
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -627,7 +678,7 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 		case TokenComment:
 			block.Comment += tok.str
 		default:
-			panic("internal error: inside a block comment, we should only see TokenComment and TokenEndBlockComment tokens")
+			return SexpNull, fmt.Errorf("internal error: inside a block comment, we should only see TokenComment and TokenEndBlockComment tokens")
 		}
 	}
 	//return block, nil
@@ -650,7 +701,7 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 			parser.sendMe.Err = ErrMoreInputNeeded
 			ok := parser.yield(parser.sendMe)
 			if !ok {
-				return SexpEnd, nil
+				return SexpEnd, ParserHaltRequested
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -666,7 +717,7 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 		case TokenBacktickString:
 			return &SexpStr{S: tok.str, backtick: true}, nil
 		default:
-			panic("internal error: inside a backtick string, we should only see TokenBacktickString token")
+			return SexpNull, fmt.Errorf("internal error: inside a backtick string, we should only see TokenBacktickString token")
 		}
 	}
 }
@@ -695,7 +746,7 @@ func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 				parser.sendMe.Err = ErrMoreInputNeeded
 				ok := parser.yield(parser.sendMe)
 				if !ok {
-					return SexpEnd, nil
+					return SexpEnd, ParserHaltRequested
 				}
 			}
 		}
@@ -730,6 +781,15 @@ func (parser *Parser) Linenum() int {
 	return parser.lexer.Linenum()
 }
 
+// peekToken returns the token at position i of those not consumed yet.
+func (parser *Parser) peekToken(i int) (tok Token, err error) {
+	_, err = parser.ParserPeekNextToken(i)
+	if err != nil {
+		return EndTk, err
+	}
+	return parser.lexer.tokens[i], nil
+}
+
 func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 
 	lexer := parser.lexer
@@ -741,6 +801,10 @@ func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 		}
 		if tok.typ != TokenEnd {
 			return
+		} else if parser.open == 0 && !lexer.inDelimited() {
+			// nothing is left open: this may be all.
+			err = errTextEnds
+			return
 		} else {
 			//instead of return SexpEnd, UnexpectedEnd
 			// we ask for more, and then loop
-- 
2.43.0


From d9167ce39551bb32d70e44fc994b9281135ccca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 10/48] fix: the lexer keeps a rune after a tilde, ends a
 comment at **/, and does not drop an unrecognized atom before a colon

---
 zygo/lexer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 28e3a8e..51aa907 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -371,7 +371,7 @@ func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
 		return x.Token(TokenChar, char), nil
 	}
 
-	if endColon {
+	if endColon && atom == "" {
 		return x.Token(TokenColonOperator, ":"), nil
 	}
 
@@ -475,6 +475,9 @@ top:
 		if err != nil {
 			return err
 		}
+		if r == '*' {
+			return nil // this one may end the comment too
+		}
 		lexer.state = LexerCommentBlock
 		goto writeRuneToBuffer
 
@@ -575,14 +578,13 @@ top:
 		return nil
 
 	case LexerUnquote:
+		lexer.state = LexerNormal
 		if r == '@' {
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
-		} else {
-			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			return nil
 		}
-		lexer.state = LexerNormal
-		return nil
+		lexer.AppendToken(lexer.Token(TokenTilde, ""))
+		goto top // process r in Normal mode
 	case LexerFreshAssignOrColon:
 		lexer.state = LexerNormal
 
-- 
2.43.0


From d59baaaf5320b4872cd6fbef71a8714f87e2411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 11/48] fix: whole floats print with a decimal point, string
 keys of a hash print quoted

---
 zygo/expressions.go | 6 +++++-
 zygo/hashutils.go   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..61330e9 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -505,7 +505,11 @@ func (f *SexpFloat) SexpString(ps *PrintState) string {
 	if f.Scientific {
 		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
 	}
-	return strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	str := strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	if !strings.ContainsAny(str, ".IN") {
+		str += ".0" // neither Inf nor NaN: do not read back as an integer
+	}
+	return str
 }
 
 func (c *SexpChar) SexpString(ps *PrintState) string {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e512bb0..604efd3 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -924,7 +925,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				str += indInner + strconv.Quote(s.S) + ":"
 			case *SexpSymbol:
 				if asJSON {
 					str += indInner + `"` + s.name + `":`
-- 
2.43.0


From 6837cf9feb513a13f42a22619f5d345a906f0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 12/48] fix: char and string literals take every escape the
 printer writes and any rune; -.5, 1_0.5 and symbols like dULL read as written

---
 zygo/lexer.go  | 86 +++++++++++++++++++++++++++++++++++++++++++++-----
 zygo/parser.go |  4 +--
 2 files changed, 80 insertions(+), 10 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 51aa907..c66733d 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"regexp"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -128,6 +129,7 @@ const (
 	LexerBuiltinOperator
 	LexerRuneLit
 	LexerRuneEscaped
+	LexerHexEscape // the digits of \xHH, \uHHHH or \UHHHHHHHH
 )
 
 type Lexer struct {
@@ -144,6 +146,11 @@ type Lexer struct {
 	next           []io.RuneScanner
 	linenum        int
 
+	// for LexerHexEscape
+	hexDigits   string
+	hexWant     int
+	hexInString bool
+
 	taken []Token // consumed since the current top-level expression began
 
 	priori    int
@@ -215,7 +222,7 @@ func (lex *Lexer) Token(typ TokenType, str string) Token {
 
 var (
 	BoolRegex    = regexp.MustCompile("^(true|false)$")
-	Uint64Regex  = regexp.MustCompile("^(0x|0o)?[0-9a-fA-F]+ULL$")
+	Uint64Regex  = regexp.MustCompile("^(0x[0-9a-fA-F]+|0o[0-7]+|[0-9]+)ULL$")
 	DecimalRegex = regexp.MustCompile("^-?[0-9][_0-9]*$") // allow underscores now, like go1.13
 	HexRegex     = regexp.MustCompile("^0x[0-9a-fA-F]+$")
 	OctRegex     = regexp.MustCompile("^0o[0-7]+$")
@@ -284,10 +291,29 @@ func EscapeChar(char rune) (rune, error) {
 		return '\'', nil
 	case '#':
 		return '#', nil
+	case 'b':
+		return '\b', nil
+	case 'f':
+		return '\f', nil
+	case 'v':
+		return '\v', nil
 	}
 	return ' ', errors.New("invalid escape sequence")
 }
 
+// hexEscapeLen returns how many hex digits follow \x, \u and \U.
+func hexEscapeLen(char rune) int {
+	switch char {
+	case 'x':
+		return 2
+	case 'u':
+		return 4
+	case 'U':
+		return 8
+	}
+	return 0
+}
+
 func DecodeChar(atom string) (string, error) {
 	runes := StringToRunes(atom)
 	n := len(runes)
@@ -384,7 +410,13 @@ func (lexer *Lexer) dumpBuffer() error {
 		return nil
 	}
 
-	tok, err := lexer.DecodeAtom(lexer.buffer.String())
+	atom := lexer.buffer.String()
+	if strings.HasPrefix(atom, "-.") && !FloatRegex.MatchString(atom) {
+		// a minus sign that did not begin a number after all
+		lexer.AppendToken(lexer.Token(TokenSymbol, "-"))
+		atom = atom[1:]
+	}
+	tok, err := lexer.DecodeAtom(atom)
 	if err != nil {
 		return err
 	}
@@ -545,6 +577,11 @@ top:
 		return nil
 
 	case LexerStrEscaped:
+		if n := hexEscapeLen(r); n > 0 {
+			lexer.hexDigits, lexer.hexWant, lexer.hexInString = "", n, true
+			lexer.state = LexerHexEscape
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -554,21 +591,33 @@ top:
 		return nil
 
 	case LexerRuneLit:
-		if r == '\\' {
+		if r == '\\' && lexer.buffer.Len() == 1 {
 			lexer.state = LexerRuneEscaped
 			return nil
 		}
 		if r == '\'' {
-			// closing single quote
-			lexer.buffer.WriteRune(r)
-			lexer.dumpBuffer()
+			// closing single quote; the opening one is in the buffer too.
+			char := StringToRunes(lexer.buffer.String())[1:]
+			if len(char) != 1 {
+				return errors.New("not a char literal")
+			}
+			lexer.buffer.Reset()
 			lexer.state = LexerNormal
+			lexer.AppendToken(lexer.Token(TokenChar, string(char)))
 			return nil
 		}
+		if lexer.buffer.Len() > 1 {
+			return errors.New("not a char literal")
+		}
 		lexer.buffer.WriteRune(r)
 		return nil
 
 	case LexerRuneEscaped:
+		if n := hexEscapeLen(r); n > 0 {
+			lexer.hexDigits, lexer.hexWant, lexer.hexInString = "", n, false
+			lexer.state = LexerHexEscape
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -577,6 +626,27 @@ top:
 		lexer.state = LexerRuneLit
 		return nil
 
+	case LexerHexEscape:
+		lexer.hexDigits += string(r)
+		lexer.hexWant--
+		if lexer.hexWant > 0 {
+			return nil
+		}
+		code, err := strconv.ParseUint(lexer.hexDigits, 16, 32)
+		if err != nil || len(lexer.hexDigits) > 2 && !utf8.ValidRune(rune(code)) {
+			return errors.New("invalid escape sequence")
+		}
+		if lexer.hexInString && len(lexer.hexDigits) == 2 {
+			lexer.buffer.WriteByte(byte(code)) // \xHH is a byte, as in Go
+		} else {
+			lexer.buffer.WriteRune(rune(code))
+		}
+		lexer.state = LexerRuneLit
+		if lexer.hexInString {
+			lexer.state = LexerStrLit
+		}
+		return nil
+
 	case LexerUnquote:
 		lexer.state = LexerNormal
 		if r == '@' {
@@ -634,7 +704,7 @@ top:
 		//vv("in LexerBuiltinOperator, first='%s', atom='%s', lexer.prevrune='%c'", first, atom, lexer.prevrune)
 		// are we a negative number -1 or -.1 rather than  ->, --, -= operator?
 		if lexer.prevrune == '-' && canStartSignedNumberAfter(lexer.preBuiltinRune) {
-			if FloatRegex.MatchString(atom) || DecimalRegex.MatchString(atom) {
+			if DecimalRegex.MatchString(atom) || atom == "-." {
 				//Q("'%s' is the beginning of a negative number", atom)
 				_, err := lexer.buffer.WriteString(atom)
 				if err != nil {
@@ -891,7 +961,7 @@ func (lexer *Lexer) rewindExpression() {
 func (lexer *Lexer) inDelimited() bool {
 	switch lexer.state {
 	case LexerStrLit, LexerStrEscaped, LexerBacktickString,
-		LexerRuneLit, LexerRuneEscaped,
+		LexerRuneLit, LexerRuneEscaped, LexerHexEscape,
 		LexerCommentBlock, LexerCommentBlockAsterisk:
 		return true
 	}
diff --git a/zygo/parser.go b/zygo/parser.go
index 513561c..ddd25ee 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -422,7 +422,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		return &SexpChar{Val: StringToRunes(tok.str)[0]}, nil
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
@@ -436,7 +436,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "NaN" {
 			f = NaN
 		} else {
-			f, err = strconv.ParseFloat(tok.str, SexpFloatSize)
+			f, err = strconv.ParseFloat(strings.ReplaceAll(tok.str, "_", ""), SexpFloatSize)
 			if err != nil {
 				return SexpNull, err
 			}
-- 
2.43.0


From 980e66bff899da3b3fea1383e1576cf2d4eb5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 13/48] fix: nil reads as nil, and any literal may begin a new
 infix statement

---
 zygo/parser.go | 3 +++
 zygo/pratt.go  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index ddd25ee..fbf5fb9 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -472,6 +472,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 				}
 			}
 		}
+		if tok.str == "nil" {
+			return SexpNull, nil
+		}
 		return env.MakeSymbol(tok.str), nil
 	case TokenSymbolColon:
 		sym := env.MakeSymbol(tok.str)
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 1460f60..9d5c161 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -1110,7 +1110,8 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	}
 
-	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%#v", sx)
+	// any other literal, such as a char or nil, begins a new expression.
+	return 0, nil
 }
 
 func (p *Pratt) ShowCnodeStack() {
-- 
2.43.0


From 5d75455d9f62599664969c3099a41cf97cfdf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 14/48] fix: pointers to and slices of plain hashes no longer
 panic for want of a Go type

---
 zygo/gotypereg.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..459ae87 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -423,6 +423,16 @@ func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// newTypeWithoutGoType makes a type for pointers to, or slices of, values
+// such as plain hashes, whose type has no Go type behind it either.
+func newTypeWithoutGoType(name string) *RegisteredType {
+	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		return nil, nil
+	})
+	rt.ReflectName = name
+	return rt
+}
+
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
 	Q("pointedToType = %#v", pointedToType)
 	ptrName := "*" + pointedToType.RegisteredName
@@ -431,10 +441,14 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		Q("type named '%v' already registered, reusing the pointer type", ptrName)
 	} else {
 		Q("registering new pointer type '%v'", ptrName)
-		derivedType := reflect.PtrTo(pointedToType.TypeCache)
-		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-			return reflect.New(derivedType), nil
-		})
+		if pointedToType.TypeCache == nil {
+			ptrRt = newTypeWithoutGoType(ptrName)
+		} else {
+			derivedType := reflect.PtrTo(pointedToType.TypeCache)
+			ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+				return reflect.New(derivedType), nil
+			})
+		}
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
 		ptrRt.RegisteredName = ptrName
 		gsr.RegisterUserdef(ptrRt, false, ptrName)
@@ -450,10 +464,14 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		Q("type named '%v' already registered, re-using the type", sliceName)
 	} else {
 		Q("registering new slice type '%v'", sliceName)
-		derivedType := reflect.SliceOf(rt.TypeCache)
-		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-			return reflect.MakeSlice(derivedType, 0, 0), nil
-		})
+		if rt.TypeCache == nil {
+			sliceRt = newTypeWithoutGoType(sliceName)
+		} else {
+			derivedType := reflect.SliceOf(rt.TypeCache)
+			sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+				return reflect.MakeSlice(derivedType, 0, 0), nil
+			})
+		}
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.RegisteredName = sliceName
 		gsr.RegisterUserdef(sliceRt, false, sliceName)
-- 
2.43.0


From 7adb9f2a59d3c76e4ec548a58f14c19d1cdbf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 15/48] fix: a generated symbol never takes a name that exists
 already

---
 zygo/environment.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 215518c..fde0a09 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -266,8 +266,12 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 }
 
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
-	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for n := env.nextsymbol; ; n++ {
+		symname := prefix + strconv.Itoa(n)
+		if _, taken := env.symtable[symname]; !taken {
+			return env.MakeSymbol(symname)
+		}
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From e67a6e9cfeaca9836a08abb197b927fcc6f01058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 16/48] fix: a hash made by one interpreter does not become a
 global of the next

MakeHash registered the names of undeclared hash types, hash and field
among them, for ImportBaseTypes; the interpreters set up after the first
hash was made had registered types in place of those functions.
---
 zygo/gotypereg.go | 11 +++++++++++
 zygo/hashutils.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 459ae87..abeabe1 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -138,6 +138,17 @@ func (r *GoStructRegistryType) RegisterUserdef(
 	}
 }
 
+// registerImplicit records the type of a hash whose type name nothing has
+// declared. Unlike RegisterUserdef it does not offer the type to the
+// interpreters set up later: a global of theirs by this name, such as
+// hash or field, has to stay what it is.
+func (r *GoStructRegistryType) registerImplicit(e *RegisteredType, name string) {
+	r.register(name, e, true)
+	delete(r.Userdef, name)
+	e.IsUser = true
+	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+}
+
 func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
 	return r.Registry[name]
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 604efd3..3d5b8ee 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -166,7 +166,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		GoStructRegistry.registerImplicit(factory, typename)
 	}
 
 	return &hash, nil
-- 
2.43.0


From 4d958ae0df6739a42500ee1ac220f948e130fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 17/48] fix: JSON and msgpack keep strings, key order, numbers
 and types

Strings and keys were not escaped, string and char keys were quoted
twice, uint64 and the order and type names of nested records were lost,
exponents were read modulo 256, and deep or cyclic data panicked.
---
 zygo/expressions.go |   6 +-
 zygo/functions.go   |   6 +-
 zygo/hashutils.go   |  65 ++------
 zygo/jsonmsgp.go    | 387 +++++++++++++++++++++++++++++++-------------
 4 files changed, 298 insertions(+), 166 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 61330e9..3206d05 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -300,7 +300,7 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 	opn := "["
 	cls := "]"
 
-	if arr.Infix {
+	if arr.Infix && comma == "" {
 		opn = "{"
 		cls = "}"
 	}
@@ -313,13 +313,13 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 	if n == 0 {
 		return opn + cls
 	}
-	ta := arr.IsFuncDeclTypeArray
+	ta := arr.IsFuncDeclTypeArray && comma == ""
 	str := opn
 
 	last := n - 1
 	var comma2 string
 	for i, sexp := range arr.Val {
-		str += indInner + sexp.SexpString(ps)
+		str += indInner + elementString(sexp, ps)
 		comma2 = comma
 		if i == last {
 			comma2 = ""
diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..6529597 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1350,10 +1350,12 @@ func SimpleJSONStringFunction(env *Zlisp, name string, args []Sexp) (Sexp, error
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
+	if err := checkJsonForm(args[0], nil); err != nil {
+		return SexpNull, err
+	}
 	ps := NewPrintState()
 	ps.PrintJSON = true
-	s := args[0].SexpString(ps)
-	return &SexpStr{S: s}, nil
+	return &SexpStr{S: elementString(args[0], ps)}, nil
 }
 
 func GensymFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 3d5b8ee..5e2754f 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -778,41 +778,9 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 		return &SexpArray{Val: slice, Env: env}, nil
 
 	case map[string]interface{}:
-
-		//Q("depth %d found map[string]interface case: val = %#v\n", depth, val)
-		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
-
-		pairs := make([]Sexp, 0)
-
-		typeName := "hash"
-		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//Q("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//Q("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
-				tn, isString := sortedMapVal[i].(string)
-				if isString {
-					typeName = string(tn)
-				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
-			}
-		}
-		hash, err := MakeHash(pairs, typeName, env)
-		if foundzKeyOrder {
-			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
-		}
-		panicOn(err)
-		return hash, nil
+		return goMapToHash(val, env, func(ele interface{}) (Sexp, error) {
+			return decodeGoToSexpHelper(ele, depth+1, env)
+		})
 
 	case []byte:
 		//Q("depth %d found []byte case: val = %#v\n", depth, val)
@@ -908,13 +876,13 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 	displayHashInCurly := false
 	comma := ""
 	asJSON := false
-	if hash.TypeName == "hash" {
+	if ps != nil && ps.PrintJSON {
+		comma = "," // be valid JSON
+		asJSON = true
+	}
+	if hash.TypeName == "hash" || asJSON {
 		displayHashInCurly = true
 		str = "{" + prettyEnd
-		if ps != nil && ps.PrintJSON {
-			comma = "," // be valid JSON
-			asJSON = true
-		}
 	}
 
 	lastKey := hash.NumKeys
@@ -923,23 +891,24 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		val, err := hash.HashGet(hash.Env, key)
 		if err == nil {
 			onKey++
+			keyStr := ""
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + strconv.Quote(s.S) + ":"
+				keyStr = strconv.Quote(s.S)
 			case *SexpSymbol:
-				if asJSON {
-					str += indInner + `"` + s.name + `":`
-				} else {
-					str += indInner + s.name + ":"
-				}
+				keyStr = s.name
 			default:
-				str += indInner + key.SexpString(innerPs) + ":"
+				keyStr = key.SexpString(innerPs)
+			}
+			if asJSON {
+				keyStr = jsonKey(key)
 			}
+			str += indInner + keyStr + ":"
 			comma2 := comma
 			if onKey == lastKey {
 				comma2 = ""
 			}
-			str += val.SexpString(innerPs) + comma2 + " " + prettyEnd
+			str += elementString(val, innerPs) + comma2 + " " + prettyEnd
 
 		} else {
 			// ignore deleted keys
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..0427069 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,11 +2,14 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 	"unsafe"
@@ -66,8 +69,10 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str := SexpToJson(args[0])
-			return &SexpRaw{Val: []byte(str)}, nil
+			if err := checkJsonForm(args[0], nil); err != nil {
+				return SexpNull, err
+			}
+			return &SexpRaw{Val: []byte(sexpToJson(args[0]))}, nil
 		case "unjson":
 			raw, isRaw := args[0].(*SexpRaw)
 			if !isRaw {
@@ -75,6 +80,9 @@ func JsonFunction(name string) ZlispUserFunction {
 			}
 			return JsonToSexp([]byte(raw.Val), env)
 		case "msgpack":
+			if err := checkJsonForm(args[0], nil); err != nil {
+				return SexpNull, err
+			}
 			by, _ := SexpToMsgpack(args[0])
 			return &SexpRaw{Val: []byte(by)}, nil
 		case "unmsgpack":
@@ -93,71 +101,165 @@ func JsonFunction(name string) ZlispUserFunction {
 func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 	iface, err := JsonToGo(json)
 	if err != nil {
-		return nil, err
+		return SexpNull, err
 	}
 	return GoToSexp(iface, env)
 }
 
-// sexp -> json
+// sexp -> json. Panics when exp has no JSON form; see checkJsonForm().
 func SexpToJson(exp Sexp) string {
+	panicOn(checkJsonForm(exp, nil))
+	return sexpToJson(exp)
+}
+
+// checkJsonForm returns an error if exp holds something that
+// JSON cannot express: an infinity, a NaN, or itself.
+func checkJsonForm(exp Sexp, within map[Sexp]bool) error {
 	switch e := exp.(type) {
-	case *SexpHash:
-		return e.jsonHashHelper()
-	case *SexpArray:
-		return e.jsonArrayHelper()
-	case *SexpSymbol:
-		return `"` + e.name + `"`
+	case *SexpFloat:
+		if math.IsInf(e.Val, 0) || math.IsNaN(e.Val) {
+			return fmt.Errorf("cannot write %s as JSON", e.SexpString(nil))
+		}
+		return nil
+	case *SexpHash, *SexpArray:
 	default:
-		return exp.SexpString(nil)
+		return nil
 	}
+	if within == nil {
+		within = make(map[Sexp]bool)
+	}
+	if within[exp] {
+		return fmt.Errorf("cannot write a value that contains itself as JSON")
+	}
+	within[exp] = true
+	defer delete(within, exp)
+	switch e := exp.(type) {
+	case *SexpArray:
+		for _, ele := range e.Val {
+			if err := checkJsonForm(ele, within); err != nil {
+				return err
+			}
+		}
+	case *SexpHash:
+		for _, key := range e.KeyOrder {
+			val, err := e.HashGetDefault(nil, key, SexpNull)
+			if err == nil {
+				err = checkJsonForm(val, within)
+			}
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return nil
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
-	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
+// jsonQuote writes str as a JSON string.
+func jsonQuote(str string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for _, r := range str { // invalid UTF-8 becomes U+FFFD
+		switch {
+		case r == '"' || r == '\\':
+			b.WriteByte('\\')
+			b.WriteRune(r)
+		case r < 0x20:
+			fmt.Fprintf(&b, `\u%04x`, r)
+		default:
+			b.WriteRune(r)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
 
-	ko := []string{}
-	n := len(hash.KeyOrder)
-	if n == 0 {
-		return str[:len(str)-2] + "}"
+// jsonScalar writes anything but hashes and arrays as JSON.
+func jsonScalar(exp Sexp) string {
+	switch e := exp.(type) {
+	case *SexpSymbol:
+		return jsonQuote(e.name)
+	case *SexpStr:
+		return jsonQuote(e.S)
+	case *SexpChar:
+		return jsonQuote(string(e.Val))
+	case *SexpUint64:
+		return strconv.FormatUint(e.Val, 10)
+	case *SexpInt, *SexpFloat, *SexpBool:
+		return exp.SexpString(nil)
 	}
+	if exp == SexpNull {
+		return "null"
+	}
+	return jsonQuote(exp.SexpString(nil))
+}
 
-	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
-		ko = append(ko, keyst)
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
-			panic(err)
+// elementString prints exp as SexpString does, and as JSON if ps says so.
+func elementString(exp Sexp, ps *PrintState) string {
+	if ps != nil && ps.PrintJSON {
+		switch exp.(type) {
+		case *SexpHash, *SexpArray:
+		default:
+			return jsonScalar(exp)
 		}
 	}
+	return exp.SexpString(ps)
+}
 
-	str += `"zKeyOrder":[`
-	for _, key := range ko {
-		str += `"` + key + `", `
+// jsonKey writes a hash key as JSON.
+func jsonKey(key Sexp) string {
+	switch key.(type) {
+	case *SexpSymbol, *SexpStr:
+		return jsonScalar(key)
 	}
-	if n > 0 {
-		str = str[:len(str)-2]
-	}
-	str += "]}"
+	return jsonQuote(key.SexpString(nil))
+}
 
-	//VPrintf("\n\n final ToJson() str = '%s'\n", str)
-	return str
+func sexpToJson(exp Sexp) string {
+	switch e := exp.(type) {
+	case *SexpHash:
+		return e.jsonHashHelper()
+	case *SexpArray:
+		return e.jsonArrayHelper()
+	default:
+		return jsonScalar(exp)
+	}
 }
 
-func (arr *SexpArray) jsonArrayHelper() string {
-	if len(arr.Val) == 0 {
-		return "[]"
+func (hash *SexpHash) jsonHashHelper() string {
+	var str, order strings.Builder
+	str.WriteString(`{"Atype":` + jsonQuote(hash.TypeName))
+	if len(hash.KeyOrder) == 0 {
+		return str.String() + "}"
 	}
 
-	str := "[" + SexpToJson(arr.Val[0])
-	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+	for i, key := range hash.KeyOrder {
+		val, err := hash.HashGetDefault(nil, key, SexpNull)
+		panicOn(err)
+		keyst := jsonKey(key)
+		str.WriteString(`, ` + keyst + `:` + sexpToJson(val))
+		if i > 0 {
+			order.WriteString(`, `)
+		}
+		order.WriteString(keyst)
 	}
-	return str + "]"
+	return str.String() + `, "zKeyOrder":[` + order.String() + `]}`
 }
 
+func (arr *SexpArray) jsonArrayHelper() string {
+	var str strings.Builder
+	str.WriteString("[")
+	for i, sexp := range arr.Val {
+		if i > 0 {
+			str.WriteString(", ")
+		}
+		str.WriteString(sexpToJson(sexp))
+	}
+	return str.String() + "]"
+}
+
+// how deeply nested may encoded data be
+const codecMaxDepth = math.MaxInt16
+
 type msgpackHelper struct {
 	initialized bool
 	mh          codec.MsgpackHandle
@@ -177,11 +279,13 @@ func (m *msgpackHelper) init() {
 	m.mh.RawToString = true
 	m.mh.WriteExt = true
 	m.mh.SignedInteger = true
+	m.mh.MaxDepth = codecMaxDepth
 	m.mh.Canonical = true // sort maps before writing them
 
 	// JSON
 	m.jh.MapType = reflect.TypeOf(map[string]interface{}(nil))
 	m.jh.SignedInteger = true
+	m.jh.MaxDepth = codecMaxDepth
 	m.jh.Canonical = true // sort maps before writing them
 
 	m.initialized = true
@@ -206,17 +310,48 @@ func SexpToMsgpack(exp Sexp) ([]byte, interface{}) {
 }
 
 // json -> go
-func JsonToGo(json []byte) (interface{}, error) {
+//
+// Numbers are taken from their text: the codec package reads
+// exponents modulo 256.
+func JsonToGo(text []byte) (interface{}, error) {
 	var iface interface{}
 
-	decoder := codec.NewDecoderBytes(json, &msgpHelper.jh)
+	decoder := json.NewDecoder(bytes.NewReader(text))
+	decoder.UseNumber()
 	err := decoder.Decode(&iface)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	//VPrintf("\n decoded type : %T\n", iface)
-	//VPrintf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return fromJsonNumbers(iface)
+}
+
+// fromJsonNumbers replaces each json.Number in v by an int64, a uint64
+// or a float64.
+func fromJsonNumbers(v interface{}) (interface{}, error) {
+	var err error
+	switch x := v.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
+			return i, nil
+		}
+		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
+			return u, nil
+		}
+		return x.Float64()
+	case []interface{}:
+		for i := range x {
+			if x[i], err = fromJsonNumbers(x[i]); err != nil {
+				return nil, err
+			}
+		}
+	case map[string]interface{}:
+		for k := range x {
+			if x[k], err = fromJsonNumbers(x[k]); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return v, nil
 }
 
 func GoToMsgpack(iface interface{}) ([]byte, error) {
@@ -244,11 +379,11 @@ func GoToJson(iface interface{}) []byte {
 func MsgpackToSexp(msgp []byte, env *Zlisp) (Sexp, error) {
 	iface, err := MsgpackToGo(msgp)
 	if err != nil {
-		return nil, fmt.Errorf("MsgpackToSexp failed at MsgpackToGo step: '%s", err)
+		return SexpNull, fmt.Errorf("MsgpackToSexp failed at MsgpackToGo step: '%s", err)
 	}
 	sexp, err := GoToSexp(iface, env)
 	if err != nil {
-		return nil, fmt.Errorf("MsgpackToSexp failed at GoToSexp step: '%s", err)
+		return SexpNull, fmt.Errorf("MsgpackToSexp failed at GoToSexp step: '%s", err)
 	}
 	return sexp, nil
 }
@@ -271,98 +406,61 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 // convert iface, which will typically be map[string]interface{},
 // into an s-expression
 func GoToSexp(iface interface{}, env *Zlisp) (Sexp, error) {
-	return decodeGoToSexpHelper(iface, 0, env, false), nil
+	return decodeGoToSexpHelper(iface, 0, env)
 }
 
-func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (s Sexp) {
+func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp) (s Sexp, err error) {
 
 	//VPrintf("decodeHelper() at depth %d, decoded type is %T\n", depth, r)
 	switch val := r.(type) {
 	case string:
-		//VPrintf("depth %d found string case: val = %#v\n", depth, val)
-		if preferSym {
-			return env.MakeSymbol(val)
-		}
-		return &SexpStr{S: val}
+		return &SexpStr{S: val}, nil
 
 	case int:
-		//VPrintf("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case int32:
-		//VPrintf("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case int64:
-		//VPrintf("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: val}
+		return &SexpInt{Val: val}, nil
+
+	case uint64:
+		return &SexpUint64{Val: val}, nil
 
 	case float64:
-		//VPrintf("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}
+		return &SexpFloat{Val: val}, nil
 
 	case []interface{}:
-		//VPrintf("depth %d found []interface{} case: val = %#v\n", depth, val)
-
 		slice := []Sexp{}
 		for i := range val {
-			slice = append(slice, decodeGoToSexpHelper(val[i], depth+1, env, preferSym))
+			ele, err := decodeGoToSexpHelper(val[i], depth+1, env)
+			if err != nil {
+				return SexpNull, err
+			}
+			slice = append(slice, ele)
 		}
-		return &SexpArray{Val: slice, Env: env}
+		return &SexpArray{Val: slice, Env: env}, nil
 
 	case map[string]interface{}:
-
-		//VPrintf("depth %d found map[string]interface case: val = %#v\n", depth, val)
-		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
-
-		pairs := make([]Sexp, 0)
-
-		typeName := "hash"
-		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//VPrintf("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//VPrintf("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
-				tn, isString := sortedMapVal[i].(string)
-				if isString {
-					typeName = string(tn)
-				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
-			}
-		}
-		hash, err := MakeHash(pairs, typeName, env)
-		if foundzKeyOrder {
-			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
-		}
-		panicOn(err)
-		return hash
+		return goMapToHash(val, env, func(ele interface{}) (Sexp, error) {
+			return decodeGoToSexpHelper(ele, depth+1, env)
+		})
 
 	case []byte:
-		//VPrintf("depth %d found []byte case: val = %#v\n", depth, val)
-
-		return &SexpRaw{Val: val}
+		return &SexpRaw{Val: val}, nil
 
 	case nil:
-		return SexpNull
+		return SexpNull, nil
 
 	case bool:
-		return &SexpBool{Val: val}
+		return &SexpBool{Val: val}, nil
 
 	case *SexpReflect:
-		return decodeGoToSexpHelper(val.Val.Interface(), depth+1, env, preferSym)
+		return decodeGoToSexpHelper(val.Val.Interface(), depth+1, env)
 
 	case time.Time:
-		return &SexpTime{Tm: val}
+		return &SexpTime{Tm: val}, nil
 
 	default:
 		// do we have a struct for it?
@@ -373,10 +471,73 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		} else {
 			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
 		}
-		return SexpNull
+		return SexpNull, nil
+	}
+}
+
+// goMapToHash makes a record from a Go map, as written by SexpToGo() or by
+// jsonHashHelper(): "Atype" holds the name of the record (defmap) type, and
+// "zKeyOrder" the order of the fields. Without the latter they are sorted.
+func goMapToHash(m map[string]interface{}, env *Zlisp, decode func(interface{}) (Sexp, error)) (Sexp, error) {
+	typeName := "hash"
+	fields := make(map[string]Sexp)
+	order := []string{}
+
+	sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(m)
+	for i, key := range sortedMapKey {
+		switch key {
+		case "Atype":
+			tn, isString := sortedMapVal[i].(string)
+			if isString {
+				typeName = tn
+			}
+			continue
+		case "zKeyOrder":
+			continue
+		}
+		val, err := decode(sortedMapVal[i])
+		if err != nil {
+			return SexpNull, err
+		}
+		fields[key] = val
+		order = append(order, key)
+	}
+
+	if keyOrd, found := m["zKeyOrder"]; found {
+		given, isSlice := keyOrd.([]interface{})
+		if !isSlice {
+			return SexpNull, fmt.Errorf("must have an array for zKeyOrder, but instead we have: %T", keyOrd)
+		}
+		first := []string{}
+		placed := make(map[string]bool)
+		for _, k := range given {
+			key, isString := k.(string)
+			if !isString {
+				return SexpNull, fmt.Errorf("zKeyOrder must hold strings, but we have: %T", k)
+			}
+			if _, exists := fields[key]; exists && !placed[key] {
+				first = append(first, key)
+				placed[key] = true
+			}
+		}
+		for _, key := range order {
+			if !placed[key] {
+				first = append(first, key)
+			}
+		}
+		order = first
 	}
 
-	return s
+	hash, err := MakeHash(nil, typeName, env)
+	if err != nil {
+		return SexpNull, err
+	}
+	for _, key := range order {
+		if err := hash.HashSet(env.MakeSymbol(key), fields[key]); err != nil {
+			return SexpNull, err
+		}
+	}
+	return hash, nil
 }
 
 //msgp:ignore mapsorter KiSlice
-- 
2.43.0


From 0b487147709e6139a46fe666733ae0043c9d0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 18/48] fix: the array made by map has no remembered element
 type, and calls get their own argument slice

---
 zygo/arrayutils.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..b6bde53 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -3,21 +3,15 @@ package zygo
 import "fmt"
 
 func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
-	result := make([]Sexp, len(arr.Val))
-	var err error
-
-	var firstTyp *RegisteredType
+	result := make([]Sexp, 0, len(arr.Val))
 	for i := range arr.Val {
-		result[i], err = env.Apply(fun, arr.Val[i:i+1])
+		res, err := env.Apply(fun, []Sexp{arr.Val[i]})
 		if err != nil {
-			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
-		}
-		if firstTyp == nil {
-			firstTyp = result[i].Type()
+			return &SexpArray{Val: result, Env: env}, err
 		}
+		result = append(result, res)
 	}
-
-	return &SexpArray{Val: result, Typ: firstTyp, Env: env}, nil
+	return &SexpArray{Val: result, Env: env}, nil
 }
 
 func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
-- 
2.43.0


From 2762244a755c4ad12fb55fc1f5aabc304224f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 19/48] fix: making a closure no longer prints it

---
 zygo/expressions.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 3206d05..d65e867 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -753,16 +753,6 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 }
 
 func (sf *SexpFunction) SetClosing(clos *Closing) {
-	ps4 := NewPrintStateWithIndent(4)
-	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-	_ = pre
-	panicOn(err)
-	newnew, err := sf.ShowClosing(clos.env, ps4, "newnew")
-	_ = newnew
-	panicOn(err)
-	//P("99999 for sfun = %p, in sfun.SetClosing(), prev value is %p = '%s'\n",
-	//	sf, sf.closingOverScopes, pre)
-	//P("88888 in sfun.SetClosing(), new  value is %p = '%s'\n", clos, newnew)
 	sf.closingOverScopes = clos
 	//P("in SetClosing() for '%s'/%p: my stack is: '%s'", sf.name, sf, clos.Stack.SexpString(nil))
 }
-- 
2.43.0


From fb1c4e102f1d3cf3e87f2060d831474b49ee14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 20/48] fix: tail calls, let initialisers, loop exits in
 predicates and forms in value positions compile to what they mean

Tail calls resolve their callee at run time; let evaluates its initialisers
outside the new scope; break and continue pop the right scopes from anywhere
in a loop body; empty begin, newScope and return push nil; errors in and/or
arms and in templates are no longer swallowed.
---
 zygo/environment.go |  19 ++-
 zygo/func.go        |   1 +
 zygo/generator.go   | 321 +++++++++++++++++++-------------------------
 zygo/vm.go          | 154 +++++++--------------
 4 files changed, 207 insertions(+), 288 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index fde0a09..c384c5a 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -317,6 +317,14 @@ func (env *Zlisp) restoreControlState(state vmControlState) {
 	env.pc = state.pc
 }
 
+// hideLoops keeps break and continue from finding the loops being compiled
+// so far, until the function it returns is called.
+func (env *Zlisp) hideLoops() func() {
+	loops := env.loopstack
+	env.loopstack = env.NewStack(LoopStackSize)
+	return func() { env.loopstack = loops }
+}
+
 func (env *Zlisp) wrangleOptargs(fnargs, nargs int) error {
 	if nargs < fnargs {
 		return errors.New(
@@ -507,7 +515,9 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
 }
 
-func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+// prepareFrame checks the arguments on the datastack and arranges them as the
+// body of function expects them.
+func (env *Zlisp) prepareFrame(function *SexpFunction, nargs int) error {
 	for _, prehook := range env.before {
 		expressions, err := env.datastack.GetExpressions(nargs)
 		if err != nil {
@@ -539,6 +549,13 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 			fmt.Sprintf("%s expected %d arguments, got %d",
 				function.name, function.nargs, nargs))
 	}
+	return nil
+}
+
+func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+	if err := env.prepareFrame(function, nargs); err != nil {
+		return err
+	}
 
 	if env.linearstack.IsEmpty() {
 		panic("where's the global scope?")
diff --git a/zygo/func.go b/zygo/func.go
index 2462754..1d69d74 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -153,6 +153,7 @@ func FuncBuilder(env *Zlisp, name string,
 	gen.Tail = true
 
 	gen.funcname = funcName
+	defer env.hideLoops()()
 
 	afsHelper := &AddFuncScopeHelper{}
 	gen.AddInstruction(AddFuncScopeInstr{Name: "runtime " + gen.funcname, Helper: afsHelper})
diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..2b1f0c8 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -7,12 +7,11 @@ import (
 var NoExpressionsFound = fmt.Errorf("No expressions found")
 
 type Generator struct {
-	env            *Zlisp
-	funcname       string
-	Tail           bool
-	scopes         int
-	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
+	env          *Zlisp
+	funcname     string
+	Tail         bool
+	scopes       int
+	instructions []Instruction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -41,7 +39,8 @@ func NewGenerator(env *Zlisp) *Generator {
 
 func (gen *Generator) NewSubGenerator() *Generator {
 	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
+	subgen.scopes = gen.scopes
+	subgen.funcname = gen.funcname
 	return subgen
 }
 
@@ -58,23 +57,19 @@ func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	oldtail := gen.Tail
 	gen.Tail = false
 	if size == 0 {
+		// every expression leaves exactly one value
+		gen.AddInstruction(PushInstr{SexpNull})
+		gen.Tail = oldtail
 		return nil
-		//return NoExpressionsFound
 	}
-	startInstructionCount := 0
 	for _, expr := range expressions[:size-1] {
-		startInstructionCount = len(gen.instructions)
 		err := gen.Generate(expr)
 		if err != nil {
 			return err
 		}
 		// insert pops after all but the last instruction
 		// that way the stack remains clean.
-		// Without the (conditional) pop here, we really mess up
-		// the closure.zy tests.
-		if len(gen.instructions) > startInstructionCount {
-			gen.AddInstruction(PopInstr(0))
-		}
+		gen.AddInstruction(PopInstr(0))
 	}
 	gen.Tail = oldtail
 	return gen.Generate(expressions[size-1])
@@ -85,17 +80,16 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	orig Sexp) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
+	// a function body is outside of any loop around the definition
+	defer env.hideLoops()()
+
 	if len(name) == 0 {
 		gen.funcname = env.GenSymbol("__anon").name
 	} else {
@@ -129,9 +123,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -174,7 +165,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
 	if err != nil {
 		return err
 	}
@@ -194,6 +185,9 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	}
 	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
 	dup := true
+	oldtail := gen.Tail
+	gen.Tail = false
+	defer func() { gen.Tail = oldtail }()
 	var instr Instruction
 	switch args[0].(type) {
 	case *SexpPair:
@@ -220,7 +214,6 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	gen.Tail = false
 	err := gen.Generate(args[1])
 	if err != nil {
 		return err
@@ -268,7 +261,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -317,7 +310,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -383,17 +376,24 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 
 func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
 	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
 
 	subgen := gen.NewSubGenerator()
-	subgen.scopes = gen.scopes
 	subgen.Tail = gen.Tail
-	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	err := subgen.Generate(args[size-1])
+	if err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
 		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		err = subgen.Generate(args[i])
+		if err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -411,8 +411,6 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 
 	subgen := gen.NewSubGenerator()
 	subgen.Tail = gen.Tail
-	subgen.scopes = gen.scopes
-	subgen.funcname = gen.funcname
 	err := subgen.Generate(args[len(args)-1])
 	if err != nil {
 		return err
@@ -421,24 +419,22 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
-		subgen.Reset()
+		subgen = gen.NewSubGenerator()
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
 		}
 		pred_code := subgen.instructions
 
-		subgen.Reset()
+		subgen = gen.NewSubGenerator()
 		subgen.Tail = gen.Tail
-		subgen.scopes = gen.scopes
-		subgen.funcname = gen.funcname
 		err = subgen.Generate(args[2*i+1])
 		if err != nil {
 			return err
 		}
 		body_code := subgen.instructions
 
-		subgen.Reset()
+		subgen = gen.NewSubGenerator()
 		subgen.AddInstructions(pred_code)
 		subgen.AddInstruction(BranchInstr{false, len(body_code) + 2})
 		subgen.AddInstructions(body_code)
@@ -453,9 +449,10 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) != 1 {
+		return WrongNargs
 	}
+	gen.AddInstruction(PushInstr{args[0]})
 	return nil
 }
 
@@ -489,10 +486,13 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		rstatements = append(rstatements, bindings[2*i+1])
 	}
 
-	gen.AddInstruction(AddScopeInstr{Name: "runtime " + name})
-	gen.scopes++
+	// only the body is in tail position, the initializers are not
+	oldtail := gen.Tail
+	gen.Tail = false
 
 	if name == "letseq" {
+		gen.AddInstruction(AddScopeInstr{Name: "runtime " + name})
+		gen.scopes++
 		for i, rs := range rstatements {
 			err := gen.Generate(rs)
 			if err != nil {
@@ -501,16 +501,21 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 			gen.AddInstruction(PopStackPutEnvInstr{lstatements[i]})
 		}
 	} else if name == "let" {
+		// the initializers belong to the scope around the let: what they
+		// define stays there, and closures in them do not see the bindings.
 		for _, rs := range rstatements {
 			err := gen.Generate(rs)
 			if err != nil {
 				return err
 			}
 		}
+		gen.AddInstruction(AddScopeInstr{Name: "runtime " + name})
+		gen.scopes++
 		for i := len(lstatements) - 1; i >= 0; i-- {
 			gen.AddInstruction(PopStackPutEnvInstr{lstatements[i]})
 		}
 	}
+	gen.Tail = oldtail
 	err := gen.GenerateBegin(args[1:])
 	if err != nil {
 		return err
@@ -525,7 +530,10 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
+	oldtail := gen.Tail
+	gen.Tail = false
 	err := gen.Generate(args[0])
+	gen.Tail = oldtail
 	if err != nil {
 		return err
 	}
@@ -543,9 +551,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		return WrongNargs
 	}
 
-	var err error
-	var exps []Sexp
-
+	var all []Sexp
 	var sourceItem func(item Sexp) error
 
 	sourceItem = func(item Sexp) error {
@@ -557,40 +563,37 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				}
 			}
 		case *SexpPair:
-			expr := item
-			for expr != SexpNull {
-				list := expr.(*SexpPair)
-				if err := sourceItem(list.Head); err != nil {
+			items, err := ListToArray(t)
+			if err != nil {
+				return err
+			}
+			for _, v := range items {
+				if err := sourceItem(v); err != nil {
 					return err
 				}
-				expr = list.Tail
 			}
 		case *SexpStr:
-			exps, err = gen.env.ParseFile(t.S)
-			if err != nil {
-				return err
-			}
-
-			err = gen.GenerateBegin(exps)
+			exps, err := gen.env.ParseFile(t.S)
 			if err != nil {
 				return err
 			}
+			exps = gen.env.FilterArray(exps, RemoveCommentsFilter)
+			all = append(all, gen.env.FilterArray(exps, RemoveEndsFilter)...)
 
 		default:
-			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
+			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item.SexpString(nil))
 		}
 
 		return nil
 	}
 
 	for _, v := range args {
-		err = sourceItem(v)
-		if err != nil {
+		if err := sourceItem(v); err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return gen.GenerateBegin(all)
 }
 
 func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Sexp) error {
@@ -624,6 +627,9 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	case "macexpand":
 		return gen.GenerateMacexpand(args)
 	case "syntaxQuote":
+		if len(args) == 1 && isUnquoteSplicing(args[0]) {
+			return fmt.Errorf("unquote-splicing is only possible inside a list, array or hash template")
+		}
 		return gen.GenerateSyntaxQuote(args)
 	case "include":
 		return gen.GenerateInclude(args)
@@ -665,25 +671,12 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
+	callArgs := append([]Sexp(nil), args...)
+	if gen.Tail && sym.name == gen.funcname {
+		gen.AddInstruction(TailCallInstr{callee: sym, args: callArgs, scopes: gen.scopes})
 	} else {
-		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
+		gen.AddInstruction(CallExprInstr{callee: sym, args: callArgs})
 	}
-	gen.Tail = oldtail
 	return nil
 }
 
@@ -693,41 +686,11 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	gen.AddInstruction(PushInstr{fun})
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
@@ -778,6 +741,9 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 	// of return value flow, rather than exact lhs to rhs count equality.
 
 	for i := range rhs {
+		if i > 0 {
+			gen.AddInstruction(PopInstr(0)) // only the last value stays
+		}
 		err = gen.GenerateDef([]Sexp{lhs[i], rhs[i]}, "def")
 		if err != nil {
 			return err
@@ -810,7 +776,10 @@ func (gen *Generator) GenerateCall(expr *SexpPair) error {
 }
 
 func (gen *Generator) GenerateArray(arr *SexpArray) error {
+	oldtail := gen.Tail
+	gen.Tail = false
 	err := gen.GenerateAll(arr.Val)
+	gen.Tail = oldtail
 	if err != nil {
 		return err
 	}
@@ -970,9 +939,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 
 	// generate the body of the loop
 	subgenBody := gen.NewSubGenerator()
-	subgenBody.Tail = false
-	subgenBody.scopes = gen.scopes
-	subgenBody.funcname = gen.funcname
 	err = subgenBody.GenerateBegin(args[startgen:])
 	if err != nil {
 		return err
@@ -983,9 +949,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 
 	// generate the init code
 	subgenInit := gen.NewSubGenerator()
-	subgenInit.Tail = false
-	subgenInit.scopes = gen.scopes
-	subgenInit.funcname = gen.funcname
 	err = subgenInit.Generate(controlargs.Val[0])
 	if err != nil {
 		return err
@@ -996,9 +959,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 
 	// generate the test
 	subgenT := gen.NewSubGenerator()
-	subgenT.Tail = false
-	subgenT.scopes = gen.scopes
-	subgenT.funcname = gen.funcname
 
 	err = subgenT.Generate(controlargs.Val[1])
 	if err != nil {
@@ -1010,9 +970,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 
 	// generate the increment code
 	subgenIncr := gen.NewSubGenerator()
-	subgenIncr.Tail = false
-	subgenIncr.scopes = gen.scopes
-	subgenIncr.funcname = gen.funcname
 
 	err = subgenIncr.Generate(controlargs.Val[2])
 	if err != nil {
@@ -1126,16 +1083,19 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not: '%s'", i+1, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
 	}
 
+	oldtail := gen.Tail
 	gen.Tail = false
 	err := gen.Generate(args[lastpos])
+	gen.Tail = oldtail
 	if err != nil {
 		return err
 	}
@@ -1148,26 +1108,22 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 }
 
 func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
-	head := list.Head
-	switch h := head.(type) {
-	case *SexpSymbol:
-		if h.name != "quote" {
-			return SexpNull, false
-		}
+	sym, err := getQuotedSymbol(list)
+	if err != nil {
+		return SexpNull, false
 	}
-	// good, keep going to tail
-	t := list.Tail
-	switch tt := t.(type) {
-	case *SexpPair:
-		// good, keep going to head
-		hh := tt.Head
-		switch hhh := hh.(type) {
-		case *SexpSymbol:
-			// grab the symbol
-			return hhh, true
-		}
+	return sym, true
+}
+
+// isUnquoteSplicing detects (unquote-splicing x)
+func isUnquoteSplicing(arg Sexp) bool {
+	pair, isPair := arg.(*SexpPair)
+	if !isPair {
+		return false
 	}
-	return SexpNull, false
+	head, isSym := pair.Head.(*SexpSymbol)
+	n, err := ListLen(pair)
+	return isSym && err == nil && n == 2 && head.name == "unquote-splicing"
 }
 
 // side-effect (or main effect) has to be pushing an expression on the top of
@@ -1180,21 +1136,23 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	}
 	arg := args[0]
 
+	// the template is evaluated piece by piece, none is in tail position
+	oldtail := gen.Tail
+	gen.Tail = false
+	defer func() { gen.Tail = oldtail }()
+
 	// need to handle arrays, since they can have unquotes
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1232,10 +1190,12 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
-				return nil
+				return gen.Generate(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				err := gen.Generate(quotebody[1])
+				if err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1245,7 +1205,10 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		err := gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1268,7 +1231,10 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		err := gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1298,12 +1264,18 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		err = gen.GenerateSyntaxQuote([]Sexp{val})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		err = gen.GenerateSyntaxQuote([]Sexp{key})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1458,27 +1430,9 @@ scanUpTheLoops:
 
 // like begin, but puts its contents in a new scope
 func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
-	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
-	if size == 0 {
-		return nil
-		//return NoExpressionsFound
-	}
-
 	gen.AddInstruction(AddScopeInstr{Name: "newScope"})
 	gen.scopes++
-	for _, expr := range expressions[:size-1] {
-		err := gen.Generate(expr)
-		if err != nil {
-			return err
-		}
-		// insert pops after all but the last instruction
-		// that way the stack remains clean... Q: how does this extra popping not mess up the expressions?
-		gen.AddInstruction(PopInstr(0))
-	}
-	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
+	err := gen.GenerateBegin(expressions)
 	if err != nil {
 		return err
 	}
@@ -1508,26 +1462,21 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	// to aim at when cleaning up.
 	symPkgName := gen.env.GenSymbol(pkgName)
 
+	// the package is made after its last expression, which is
+	// therefore not in tail position.
 	oldtail := gen.Tail
 	gen.Tail = false
 
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
+	gen.scopes++
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
 
-	if size > 1 {
-		for _, expr := range expressions[1 : size-1] {
-			err := gen.Generate(expr)
-			if err != nil {
-				return err
-			}
-		}
-	}
-
-	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
+	err := gen.GenerateBegin(expressions[1:])
 	if err != nil {
 		return err
 	}
+	gen.scopes--
+	gen.Tail = oldtail
 	gen.AddInstruction(PopUntilStackmarkInstr{sym: symPkgName})
 	gen.AddInstruction(PopInstr(0)) // remove the stackmark itself now
 	gen.AddInstruction(PopScopeTransferToDataStackInstr{PackageName: pkgName})
@@ -1570,10 +1519,14 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	n := len(xs)
 	if n == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 
 	if n > 1 {
+		oldtail := gen.Tail
+		gen.Tail = false
+		defer func() { gen.Tail = oldtail }()
 		gen.AddInstruction(PushInstr{SexpMarker})
 	}
 	for i := range xs {
diff --git a/zygo/vm.go b/zygo/vm.go
index a81fc28..f3aa497 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -87,23 +87,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -364,6 +347,48 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
+// TailCallInstr calls the function with the name of the one that is being
+// compiled, in tail position. When the name really stands for the running
+// function, the finished frame is replaced instead of another one being
+// stacked on top of it.
+type TailCallInstr struct {
+	callee *SexpSymbol
+	args   []Sexp
+	scopes int // extra (non-function) scopes open at the call
+}
+
+func (c TailCallInstr) InstrString() string {
+	return fmt.Sprintf("tailCall %s %d", c.callee.name, len(c.args))
+}
+
+func (c TailCallInstr) Execute(env *Zlisp) error {
+	funcobj, err := env.EvalCallExpression(c.callee)
+	if err != nil {
+		return err
+	}
+	function, isFunc := funcobj.(*SexpFunction)
+	if !isFunc || function != env.curfunc {
+		funcobj, callName, err := env.ResolveCallable(funcobj)
+		if err != nil {
+			return err
+		}
+		return env.CallResolved(funcobj, callName, c.args)
+	}
+	if err := env.PrepareCallExprArgs(function, c.args); err != nil {
+		return err
+	}
+	if err := env.prepareFrame(function, len(c.args)); err != nil {
+		return err
+	}
+	for i := 0; i <= c.scopes; i++ { // and the function's own scope
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	env.pc = 0
+	return nil
+}
+
 type DispatchInstr struct {
 	nargs int
 }
@@ -819,17 +844,6 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
 	}
 
-	ps8 := NewPrintStateWithIndent(8)
-	shown, err := myInvok.ShowClosing(env, ps8, fmt.Sprintf("closedOverScopes of '%s'", myInvok.name))
-	_ = shown
-	if err != nil {
-		return err
-	}
-	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
-	top := cls.TopScope()
-	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
-
 	env.datastack.PushExpr(myInvok)
 	return nil
 }
@@ -841,6 +855,7 @@ func (a AssignInstr) InstrString() string {
 	return "assign stack top to stack top -1"
 }
 
+// Execute assigns, and leaves the assigned value on the stack.
 func (a AssignInstr) Execute(env *Zlisp) error {
 	env.pc++
 	rhs, err := env.datastack.PopExpr()
@@ -855,6 +870,14 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	if err := a.assign(env, lhs, rhs); err != nil {
+		return err
+	}
+	env.datastack.PushExpr(rhs)
+	return nil
+}
+
+func (a AssignInstr) assign(env *Zlisp, lhs, rhs Sexp) (err error) {
 	switch x := lhs.(type) {
 	case *SexpSymbol:
 		return env.LexicalBindSymbol(x, rhs)
@@ -913,78 +936,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From 5edcfa94a01cadfbb540a65808c855b0b3830114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 21/48] fix: code evaluated by eval and functions declared by
 func see the variables of the function they are in

The parent of a closure is the innermost running function that is not a
builtin; making a closure copies only the scopes it keeps.
---
 zygo/closing.go     | 19 ++++++++-----------
 zygo/environment.go | 23 +++++++++++++++++++----
 zygo/expressions.go |  2 +-
 zygo/func.go        | 10 ----------
 zygo/functions.go   |  1 +
 zygo/source.go      |  5 +++--
 zygo/vm.go          |  7 ++-----
 7 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/zygo/closing.go b/zygo/closing.go
index 1a20a9a..5513cb4 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,22 +8,19 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
-	stk := env.linearstack.Clone()
 	// Be strict: only store scopes from the current lexical function outward
 	// to the current top. Caller scopes below that function are dynamic state.
-	for i := stk.tos; i >= 0; i-- {
-		scop, ok := stk.elements[i].(*Scope)
-		if ok && scop.IsFunction {
-			if i > 0 {
-				trimmed := env.NewStack(stk.Size() - i)
-				for _, elem := range stk.elements[i : stk.tos+1] {
-					trimmed.Push(elem)
-				}
-				stk = trimmed
-			}
+	from := 0
+	for i := env.linearstack.tos; i >= 0; i-- {
+		if scop, ok := env.linearstack.elements[i].(*Scope); ok && scop.IsFunction {
+			from = i
 			break
 		}
 	}
+	stk := env.NewStack(env.linearstack.tos + 1 - from)
+	for _, elem := range env.linearstack.elements[from : env.linearstack.tos+1] {
+		stk.Push(elem)
+	}
 
 	return &Closing{
 		Stack: stk,
diff --git a/zygo/environment.go b/zygo/environment.go
index c384c5a..02f8dd5 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -378,7 +378,7 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 
 	callState := env.captureControlState()
 	sfun := env.MakeFunction("callExprEval", 0, false, ZlispFunction(gen.instructions), expr)
-	sfun.parent = callState.curfunc
+	sfun.parent = env.lexicalFunction()
 
 	env.pc = -2
 	if err := env.CallFunction(sfun, 0); err != nil {
@@ -394,6 +394,20 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 	return res, nil
 }
 
+// lexicalFunction is the running function that the code being evaluated
+// belongs to: the innermost one that is not a builtin.
+func (env *Zlisp) lexicalFunction() *SexpFunction {
+	if env.curfunc == nil || !env.curfunc.user {
+		return env.curfunc
+	}
+	for i := env.addrstack.tos; i >= 0; i-- {
+		if addr, ok := env.addrstack.elements[i].(Address); ok && !addr.function.user {
+			return addr.function
+		}
+	}
+	return env.mainfunc
+}
+
 func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
 	switch f := funcobj.(type) {
 	case *SexpSymbol:
@@ -1046,10 +1060,11 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 	}
 
 	// check the parent function lexical captured scopes, if parent available.
-	if env.curfunc.parent != nil {
+	curfunc := env.lexicalFunction()
+	if curfunc.parent != nil {
 		//P("checking non-nil parent...")
 		//exp, err, whichScope := env.curfunc.parent.ClosingLookupSymbol(sym, setVal)
-		exp, err, whichScope := env.curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
+		exp, err, whichScope := curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
 		switch err {
 		case nil:
 			//P("LookupSymbolUntilFunction('%s') found in curfunc.parent.ClosingLookupSymbol() scope '%s'\n", sym.name, whichScope.Name)
@@ -1062,7 +1077,7 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 
 		//fmt.Printf(" *** env.curfunc has closure of: %s\n", ClosureToString(env.curfunc, env))
 		//exp, err, scope = env.curfunc.ClosingLookupSymbol(sym, setVal)
-		exp, err, scope = env.curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
+		exp, err, scope = curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
 		switch err {
 		case nil:
 			//P("LexicalLookupSymbol('%s') found in env.curfunc.ClosingLookupSymbolUnfilFunc(1, false) in scope '%s'\n", sym.name, scope.Name)
diff --git a/zygo/expressions.go b/zygo/expressions.go
index d65e867..105bc71 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -582,7 +582,7 @@ func NewSourceLazyArg(env *Zlisp, expr Sexp) *SexpLazyArg {
 	lazy := &SexpLazyArg{Expr: expr}
 	if env != nil {
 		lazy.Stack = env.linearstack.Clone()
-		lazy.CurFunc = env.curfunc
+		lazy.CurFunc = env.lexicalFunction()
 	}
 	return lazy
 }
diff --git a/zygo/func.go b/zygo/func.go
index 1d69d74..ed18f6b 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -126,8 +126,6 @@ func FuncBuilder(env *Zlisp, name string,
 	}
 	//Q("retHash = '%v'", retHash.SexpString(nil))
 
-	env.datastack.PushExpr(SexpNull)
-
 	//Q("FuncBuilder() about to call buildSexpFun")
 
 	// ===================================
@@ -187,14 +185,6 @@ func FuncBuilder(env *Zlisp, name string,
 		return MissingFunction, err
 	}
 
-	// minimal sanity check that we return the number of arguments
-	// on the stack that are declared
-	if len(body) == 0 {
-		for range retHash.KeyOrder {
-			gen.AddInstruction(PushInstr{expr: SexpNull})
-		}
-	}
-
 	gen.AddInstruction(RemoveScopeInstr{})
 	gen.AddInstruction(ReturnInstr{nil}) // nil is the error returned
 
diff --git a/zygo/functions.go b/zygo/functions.go
index 6529597..051faec 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -717,6 +717,7 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	newfunc := ZlispFunction(gen.instructions)
 	orig := &SexpArray{Val: args}
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
+	sfun.parent = env.lexicalFunction()
 
 	err = env.CallFunction(sfun, 0)
 	if err != nil {
diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..af5c030 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -62,8 +62,9 @@ func (env *Zlisp) SourceExpressions(expressions []Sexp) error {
 		env.curfunc = curfunc
 	}()
 
-	env.curfunc = env.MakeFunction("__source", 0, false,
-		gen.instructions, nil)
+	sfun := env.MakeFunction("__source", 0, false, gen.instructions, nil)
+	sfun.parent = env.lexicalFunction()
+	env.curfunc = sfun
 	env.pc = 0
 
 	result, err := env.Run()
diff --git a/zygo/vm.go b/zygo/vm.go
index f3aa497..1bbec7c 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -838,11 +838,8 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 	cls := NewClosing(a.sfun.name, env)
 	myInvok := a.sfun.Copy()
 	myInvok.SetClosing(cls)
-	if env.curfunc != nil {
-		a.sfun.parent = env.curfunc
-		myInvok.parent = env.curfunc
-		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
-	}
+	a.sfun.parent = env.lexicalFunction()
+	myInvok.parent = a.sfun.parent
 
 	env.datastack.PushExpr(myInvok)
 	return nil
-- 
2.43.0


From 523a3b4125386ae043c1bbfdf387676b7a92b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 22/48] fix: a tail call of the running function by any name
 reuses its frame, and compiling code no longer fills the symbol table

---
 zygo/environment.go |  9 +++++++++
 zygo/generator.go   | 13 ++++++-------
 zygo/vm.go          |  7 +++----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 02f8dd5..d0901e7 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -34,6 +34,7 @@ type Zlisp struct {
 	mainfunc    *SexpFunction
 	pc          int
 	nextsymbol  int
+	nlocal      int // symbols made by localSymbol
 	before      []PreHook
 	after       []PostHook
 
@@ -265,6 +266,14 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 	return symbol
 }
 
+// localSymbol makes a symbol for the compiler's own use. It is not in the
+// symbol table, which would otherwise grow whenever code is compiled, and
+// its number is none of those there. Scripts never get to see it.
+func (env *Zlisp) localSymbol(prefix string) *SexpSymbol {
+	env.nlocal++
+	return &SexpSymbol{name: prefix + strconv.Itoa(env.nlocal), number: -env.nlocal}
+}
+
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
 	for n := env.nextsymbol; ; n++ {
 		symname := prefix + strconv.Itoa(n)
diff --git a/zygo/generator.go b/zygo/generator.go
index 2b1f0c8..3b216fb 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -40,7 +40,6 @@ func NewGenerator(env *Zlisp) *Generator {
 func (gen *Generator) NewSubGenerator() *Generator {
 	subgen := NewGenerator(gen.env)
 	subgen.scopes = gen.scopes
-	subgen.funcname = gen.funcname
 	return subgen
 }
 
@@ -91,7 +90,7 @@ func buildSexpFun(
 	defer env.hideLoops()()
 
 	if len(name) == 0 {
-		gen.funcname = env.GenSymbol("__anon").name
+		gen.funcname = env.localSymbol("__anon").name
 	} else {
 		gen.funcname = name
 	}
@@ -672,7 +671,7 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	}
 
 	callArgs := append([]Sexp(nil), args...)
-	if gen.Tail && sym.name == gen.funcname {
+	if gen.Tail {
 		gen.AddInstruction(TailCallInstr{callee: sym, args: callArgs, scopes: gen.scopes})
 	} else {
 		gen.AddInstruction(CallExprInstr{callee: sym, args: callArgs})
@@ -908,14 +907,14 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	var loop *Loop
 	if foundSym {
 		loop = &Loop{
-			stmtname: gen.env.GenSymbol("__loop_" + labelsym.name + "_"),
+			stmtname: gen.env.localSymbol("__loop_" + labelsym.name + "_"),
 			//label:    &labelsym,
 			label:      labelsym,
 			scopeDepth: gen.scopes,
 		}
 	} else {
 		loop = &Loop{
-			stmtname:   gen.env.GenSymbol("__loop"),
+			stmtname:   gen.env.localSymbol("__loop"),
 			scopeDepth: gen.scopes,
 		}
 	}
@@ -1458,9 +1457,9 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		return fmt.Errorf("package name must be symbol or string")
 	}
 
-	// use GenSymbol so we are sure to have a unique point
+	// use localSymbol so we are sure to have a unique point
 	// to aim at when cleaning up.
-	symPkgName := gen.env.GenSymbol(pkgName)
+	symPkgName := gen.env.localSymbol(pkgName)
 
 	// the package is made after its last expression, which is
 	// therefore not in tail position.
diff --git a/zygo/vm.go b/zygo/vm.go
index 1bbec7c..0eed9e4 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -347,10 +347,9 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
-// TailCallInstr calls the function with the name of the one that is being
-// compiled, in tail position. When the name really stands for the running
-// function, the finished frame is replaced instead of another one being
-// stacked on top of it.
+// TailCallInstr is a call by name in tail position. When the name stands for
+// the running function, the finished frame is replaced instead of another
+// one being stacked on top of it.
 type TailCallInstr struct {
 	callee *SexpSymbol
 	args   []Sexp
-- 
2.43.0


From 96fcc9adc58b0f42ea5ae89ba21db8bf697d4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 23/48] fix: an unquote in or before the tail of a dotted list
 in a template is replaced

---
 zygo/generator.go | 39 +++++++++++++++++++++++++++++++--------
 zygo/vm.go        |  7 +++++++
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 3b216fb..fda756e 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1146,9 +1146,6 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	case *SexpArray:
 		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
-		if !IsList(arg) {
-			break
-		}
 		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
 		return gen.generateSyntaxQuoteHash(arg)
@@ -1173,10 +1170,20 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	// list of length 2 exactly, with first atom
 	// being "unquote" and second being the symbol
 	// to substitute.
-	quotebody, _ := ListToArray(arg)
-	//Q("quotebody = '%#v'", quotebody)
+	// The tail is what ends a dotted list: (a \ b), or (a \ ~b), which
+	// reads as (a unquote b).
+	var quotebody []Sexp
+	tail := arg
+	for {
+		pair, isPair := tail.(*SexpPair)
+		if !isPair || (len(quotebody) > 0 && isUnquote(pair)) {
+			break
+		}
+		quotebody = append(quotebody, pair.Head)
+		tail = pair.Tail
+	}
 
-	if len(quotebody) == 2 {
+	if len(quotebody) == 2 && tail == SexpNull {
 		var issymbol bool
 		var sym *SexpSymbol
 		switch t := quotebody[0].(type) {
@@ -1210,11 +1217,27 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		}
 	}
 
-	gen.AddInstruction(SquashInstr(0))
-
+	if tail == SexpNull {
+		gen.AddInstruction(SquashInstr(0))
+		return nil
+	}
+	if err := gen.GenerateSyntaxQuote([]Sexp{tail}); err != nil {
+		return err
+	}
+	gen.AddInstruction(SquashInstr(1))
 	return nil
 }
 
+// isUnquote tells whether pair is a list (unquote x).
+func isUnquote(pair *SexpPair) bool {
+	sym, isSym := pair.Head.(*SexpSymbol)
+	if !isSym || sym.name != "unquote" {
+		return false
+	}
+	arg, isPair := pair.Tail.(*SexpPair)
+	return isPair && arg.Tail == SexpNull
+}
+
 func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	//VPrintf("\n GenerateSyntaxQuoteArray() called with arg='%#v'\n", arg)
 
diff --git a/zygo/vm.go b/zygo/vm.go
index 0eed9e4..be537a8 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -526,6 +526,13 @@ func (s SquashInstr) InstrString() string {
 
 func (s SquashInstr) Execute(env *Zlisp) error {
 	var list Sexp = SexpNull
+	if s == 1 { // the tail is on top
+		var err error
+		list, err = env.datastack.PopExpr()
+		if err != nil {
+			return err
+		}
+	}
 
 	for {
 		expr, err := env.datastack.PopExpr()
-- 
2.43.0


From 1baad98a48bac3aa7ba0f112ed201957f85c4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:11 +0000
Subject: [PATCH 24/48] fix: a negative literal may follow quote and unquote
 marks

---
 zygo/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index c66733d..1455da2 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -181,7 +181,8 @@ func canStartSignedNumberAfter(r rune) bool {
 	switch r {
 	case 0, ' ', '\t', '\n', '\r',
 		'(', '[', '{', ',', ';', ':',
-		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|':
+		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|',
+		'%', '^', '~', '@': // what is quoted or unquoted
 		return true
 	default:
 		return false
-- 
2.43.0


From b776b9b20fb5285f0d95dd20b1d079a880478aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:11 +0000
Subject: [PATCH 25/48] fix: a keyword named like a macro is still a keyword

---
 zygo/environment.go | 2 +-
 zygo/vm.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index d0901e7..4540993 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -366,7 +366,7 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 	}
 	if sym, isSym := expr.(*SexpSymbol); isSym {
 		macxpr, isMacro := env.macros[sym.number]
-		if isMacro {
+		if isMacro && !sym.colonTail {
 			if macxpr.orig != nil {
 				return SexpNull, fmt.Errorf("'%s' is a macro, with definition: %s\n", sym.name, macxpr.orig.SexpString(nil))
 			}
diff --git a/zygo/vm.go b/zygo/vm.go
index be537a8..a4d169c 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -131,7 +131,7 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 	//defer VPrintf("leaving EnvToStackInstr env.pc =%v\n", env.pc)
 
 	macxpr, isMacro := env.macros[g.sym.number]
-	if isMacro {
+	if isMacro && !g.sym.colonTail {
 		if macxpr.orig != nil {
 			return fmt.Errorf("'%s' is a macro, with definition: %s\n", g.sym.name, macxpr.orig.SexpString(nil))
 		}
-- 
2.43.0


From c5eef960b26cd0a48ef3dfc2a9f8f4aa731f1dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 26/48] fix: running a program frees the code of earlier ones;
 builtins leave only their result on the stack; anonymous funcs and range
 loops leave no names behind

---
 zygo/environment.go | 10 +++++++++-
 zygo/func.go        | 11 ++++++-----
 zygo/pratt.go       |  8 ++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 4540993..16f852c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -671,6 +671,8 @@ func (env *Zlisp) CallUserFunction(
 			fmt.Sprintf("Error calling '%s': %v", name, err))
 	}
 
+	// only the result stays on the stack
+	env.datastack.TruncateToSize(callState.datastackSize)
 	env.datastack.PushExpr(res)
 
 	for _, posthook := range env.after {
@@ -713,7 +715,13 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 		return err
 	}
 
-	env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
+	if env.curfunc == env.mainfunc && env.ReachedEnd() {
+		// what was loaded before has run and is not needed again
+		env.mainfunc.fun = gen.instructions
+		env.pc = 0
+	} else {
+		env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
+	}
 	env.curfunc = env.mainfunc
 
 	return nil
diff --git a/zygo/func.go b/zygo/func.go
index ed18f6b..ed107b9 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -25,7 +25,6 @@ func FuncBuilder(env *Zlisp, name string,
 	returnsLoc := 2
 	bodyLoc := 3
 	isAnon := false
-	_ = isAnon
 
 	var symN *SexpSymbol
 	switch b := args[0].(type) {
@@ -51,7 +50,7 @@ func FuncBuilder(env *Zlisp, name string,
 			bodyLoc++
 		} else {
 			// anonymous function
-			symN = env.GenSymbol("__anon")
+			symN = env.localSymbol("__anon")
 			isAnon = true
 			inputsLoc--
 			returnsLoc--
@@ -206,9 +205,11 @@ func FuncBuilder(env *Zlisp, name string,
 	invok, err := env.datastack.PopExpr()
 	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
 	env.pc = notePc
-	err = env.LexicalBindSymbol(symN, invok)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+	if !isAnon {
+		err = env.LexicalBindSymbol(symN, invok)
+		if err != nil {
+			return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+		}
 	}
 
 	if len(body) > 0 {
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 9d5c161..4118fc0 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -438,7 +438,7 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 		return prattCall(env, "mdef", targets[0], targets[1], pair)
 	}
 
-	pairSym := env.GenSymbol("__range_pair")
+	pairSym := env.localSymbol("__range_pair")
 	pairBindings := &SexpArray{Val: []Sexp{pairSym, pair}, Env: env}
 	beginArgs := []Sexp{
 		env.MakeSymbol("begin"),
@@ -478,9 +478,9 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 		return SexpNull, true, err
 	}
 
-	sourceSym := env.GenSymbol("__range_src")
-	lenSym := env.GenSymbol("__range_len")
-	indexSym := env.GenSymbol("__range_i")
+	sourceSym := env.localSymbol("__range_src")
+	lenSym := env.localSymbol("__range_len")
+	indexSym := env.localSymbol("__range_i")
 	letBindings := &SexpArray{
 		Val: []Sexp{
 			sourceSym, source,
-- 
2.43.0


From e29c07631187024a43b8c7f391d12cade453ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:07 +0000
Subject: [PATCH 27/48] fix: evaluating an expression from a builtin restores
 the interpreter when it fails

---
 zygo/functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/functions.go b/zygo/functions.go
index 051faec..248cc68 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -719,14 +719,17 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
 	sfun.parent = env.lexicalFunction()
 
+	callState := env.captureControlState()
 	err = env.CallFunction(sfun, 0)
 	if err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 
 	var resultSexp Sexp
 	resultSexp, err = env.Run()
 	if err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 
-- 
2.43.0


From ab7a26374af6ee033200dd24f88da0af498a4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 28/48] fix: debug output that is off printed whole values,
 exponentially long for shared data

---
 zygo/generator.go | 10 +++++-----
 zygo/gotypereg.go |  2 +-
 zygo/scopes.go    |  4 ++--
 zygo/vm.go        |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index fda756e..b5f6094 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -182,7 +182,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	if len(args) != 2 {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
-	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
+	//Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
 	dup := true
 	oldtail := gen.Tail
 	gen.Tail = false
@@ -206,7 +206,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		case "def":
 			instr = PopStackPutEnvInstr{lhs}
 		case "set":
-			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
+			//Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
 		default:
 			panic(fmt.Errorf("unknown opname '%s'", opname))
@@ -1024,7 +1024,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 }
 
 func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
-	Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
+	//Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
 	var lhs *SexpSymbol
 	switch expr := arg.(type) {
 	case *SexpSymbol:
@@ -1055,7 +1055,7 @@ func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
 	}
 
 	if lhs.isDot {
-		Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
+		//Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
 		//return nil, fmt.Errorf("illegal to %s dot-symbol, attempted on '%s'", opname, lhs.name)
 	}
 
@@ -1552,7 +1552,7 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 		gen.AddInstruction(PushInstr{SexpMarker})
 	}
 	for i := range xs {
-		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
+		//Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
 		err := gen.Generate(xs[i])
 		if err != nil {
 			return err
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index abeabe1..f4ea3e3 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -209,7 +209,7 @@ type RegisteredType struct {
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
-	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
+	//Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
 		Q("in RegisteredType.TypeCheckRecord, TypeName == field, skipping.")
 		return nil
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..8761b9c 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -192,7 +192,7 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	}
 	cur, already := stack.elements[stack.tos].(*Scope).Map[sym.number]
 	if already {
-		Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
+		//Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
 
 		lhsTy := cur.Type()
 		rhsTy := expr.Type()
@@ -212,7 +212,7 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 		}
 
 		// both sides have type
-		Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
+		//Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
 
 		if lhsTy == rhsTy {
 			Q("BindSymbol: YES types match exactly. Good.")
diff --git a/zygo/vm.go b/zygo/vm.go
index a4d169c..40f4b56 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -196,7 +196,7 @@ func (p UpdateInstr) Execute(env *Zlisp) error {
 	env.pc++
 
 	if p.sym.isSigil {
-		Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
+		//Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
 		return nil
 	}
 	if p.sym.isDot {
-- 
2.43.0


From 405b6d859ca07082879915590650cf1ec200ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 29/48] fix: long and deeply nested texts overflowed the stack
 of the parser

---
 zygo/parser.go | 131 ++++++++++++++++++++++++++-----------------------
 1 file changed, 70 insertions(+), 61 deletions(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index fbf5fb9..910cf6a 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -115,82 +115,84 @@ func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err
 
 	lexer := parser.lexer
 	var tok Token
+	var first, last *SexpPair
 
-tokFilled:
 	for {
-		tok, err = lexer.PeekNextToken(0)
-		//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
-		if err != nil {
-			return SexpNull, err
-		}
-		if tok.typ != TokenEnd {
-			break tokFilled
-		}
-		// instead of returning UnexpectedEnd, we:
-		parser.sendMe.Err = ErrMoreInputNeeded
-		ok := parser.yield(parser.sendMe)
-		if !ok {
-			return SexpEnd, ParserHaltRequested
-		}
-		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
-
-		// have to still fill tok, so
-		// loop to the top to PeekNextToken
-	}
-
-	// allow TokenRCurly to end a list too, for the JSON {} style hashes.
-	if tok.typ == endTokenTyp {
-		_, _ = lexer.GetNextToken()
-		return SexpNull, nil
-	}
-
-	var start = &SexpPair{}
-
-	expr, err := parser.ParseExpression(depth + 1)
-	if err != nil {
-		return SexpNull, err
-	}
+	tokFilled:
+		for {
+			tok, err = lexer.PeekNextToken(0)
+			//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
+			if err != nil {
+				return SexpNull, err
+			}
+			if tok.typ != TokenEnd {
+				break tokFilled
+			}
+			// instead of returning UnexpectedEnd, we:
+			parser.sendMe.Err = ErrMoreInputNeeded
+			ok := parser.yield(parser.sendMe)
+			if !ok {
+				return SexpEnd, ParserHaltRequested
+			}
+			//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
-	start.Head = expr
+			// have to still fill tok, so
+			// loop to the top to PeekNextToken
+		}
 
-	tok, err = parser.ParserPeekNextToken(0)
-	if err != nil {
-		return SexpNull, err
-	}
+		// allow TokenRCurly to end a list too, for the JSON {} style hashes.
+		if tok.typ == endTokenTyp {
+			_, _ = lexer.GetNextToken()
+			if first == nil {
+				return SexpNull, nil
+			}
+			return first, nil
+		}
 
-	// backslash '\' replaces dot '.'
-	if tok.typ == TokenBackslash {
-		// eat up the backslash
-		_, _ = lexer.GetNextToken()
-		expr, err = parser.ParseExpression(depth + 1)
+		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 
-		// eat up the end paren
-		_, err = parser.ParserPeekNextToken(0)
-		if err != nil {
-			return SexpNull, err
+		pair := &SexpPair{Head: expr, Tail: SexpNull}
+		if first == nil {
+			first = pair
+		} else {
+			last.Tail = pair
 		}
-		tok, err = lexer.GetNextToken()
+		last = pair
+
+		tok, err = parser.ParserPeekNextToken(0)
 		if err != nil {
 			return SexpNull, err
 		}
-		// make sure it was actually an end paren
-		if tok.typ != TokenRParen {
-			return SexpNull, errors.New("extra value in dotted pair")
-		}
-		start.Tail = expr
-		return start, nil
-	}
 
-	expr, err = parser.ParseList(depth+1, endTokenTyp)
-	if err != nil {
-		return start, err
-	}
-	start.Tail = expr
+		// backslash '\' replaces dot '.'
+		if tok.typ == TokenBackslash {
+			// eat up the backslash
+			_, _ = lexer.GetNextToken()
+			expr, err = parser.ParseExpression(depth + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
-	return start, nil
+			// eat up the end paren
+			_, err = parser.ParserPeekNextToken(0)
+			if err != nil {
+				return SexpNull, err
+			}
+			tok, err = lexer.GetNextToken()
+			if err != nil {
+				return SexpNull, err
+			}
+			// make sure it was actually an end paren
+			if tok.typ != TokenRParen {
+				return SexpNull, errors.New("extra value in dotted pair")
+			}
+			last.Tail = expr
+			return first, nil
+		}
+	}
 }
 
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
@@ -245,6 +247,10 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	return &SexpArray{Val: arr, Env: parser.env}, nil
 }
 
+// maxParseDepth limits how deeply expressions may be nested in a text.
+// A pair of brackets takes two of it, a quote mark one.
+const maxParseDepth = 5000
+
 func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
@@ -260,6 +266,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	lexer := parser.lexer
 	env := parser.env
 
+	if depth > maxParseDepth {
+		return SexpNull, errors.New("expressions are nested too deeply")
+	}
 	if depth > 0 {
 		// something has to follow.
 		if _, err = parser.ParserPeekNextToken(0); err != nil {
-- 
2.43.0


From e0b65fb20763f382584b8415517d8afb8274fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 30/48] fix: printing, comparing and typing values that contain
 themselves overflowed the stack

---
 zygo/arrayutils.go  |  5 +++++
 zygo/builders.go    | 11 ++++++---
 zygo/comparisons.go | 55 ++++++++++++++++++++++++++++-----------------
 zygo/expressions.go | 33 ++++++++++++++++++++++++++-
 zygo/hashutils.go   | 12 +++++++++-
 zygo/printstate.go  | 39 ++++++++++++++++++++++++++++++++
 6 files changed, 130 insertions(+), 25 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index b6bde53..cb8a3ba 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -140,6 +140,11 @@ type SexpArraySelector struct {
 
 func (si *SexpArraySelector) SexpString(ps *PrintState) string {
 	//Q("in SexpArraySelector.SexpString(), si.Container.Env = %p", si.Container.Env)
+	ps, ok := ps.enter(si)
+	if !ok {
+		return "(arraySelector ...)"
+	}
+	defer ps.leave(si)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
 		return fmt.Sprintf("(arraySelector %v %v)", si.Container.SexpString(ps), si.Select.SexpString(ps))
diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..506c43c 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -218,6 +218,11 @@ func (f *SexpField) AlignString(pad []int) string {
 }
 
 func (f *SexpField) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(f)
+	if !ok {
+		return "(field ...)"
+	}
+	defer ps.leave(f)
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
 
@@ -230,12 +235,12 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 			case *SexpSymbol:
 				str += s.name + ":"
 			default:
-				str += key.SexpString(nil) + ":"
+				str += key.SexpString(ps) + ":"
 			}
 			if i > 0 {
-				str += val.SexpString(nil) + " "
+				str += val.SexpString(ps) + " "
 			} else {
-				str += val.SexpString(nil) + "    "
+				str += val.SexpString(ps) + "    "
 			}
 		} else {
 			panic(err)
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index a525062..e8b15d8 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -163,26 +163,32 @@ func (env *Zlisp) compareSymbol(sym *SexpSymbol, expr Sexp) (int, error) {
 	return 0, errors.New(errmsg)
 }
 
-func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
-	var bp *SexpPair
-	switch t := b.(type) {
-	case *SexpPair:
-		bp = t
-	default:
-		errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
-		return 0, errors.New(errmsg)
-	}
-	res, err := env.Compare(a.Head, bp.Head)
-	if err != nil {
-		return 0, err
-	}
-	if res != 0 {
-		return res, nil
+func (env *Zlisp) comparePair(a *SexpPair, b Sexp, depth int) (int, error) {
+	for {
+		var bp *SexpPair
+		switch t := b.(type) {
+		case *SexpPair:
+			bp = t
+		default:
+			errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
+			return 0, errors.New(errmsg)
+		}
+		res, err := env.compare(a.Head, bp.Head, depth)
+		if err != nil {
+			return 0, err
+		}
+		if res != 0 {
+			return res, nil
+		}
+		tail, isPair := a.Tail.(*SexpPair)
+		if !isPair {
+			return env.compare(a.Tail, bp.Tail, depth)
+		}
+		a, b = tail, bp.Tail
 	}
-	return env.Compare(a.Tail, bp.Tail)
 }
 
-func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
+func (env *Zlisp) compareArray(a *SexpArray, b Sexp, depth int) (int, error) {
 	var ba *SexpArray
 	switch t := b.(type) {
 	case *SexpArray:
@@ -199,7 +205,7 @@ func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
 	}
 
 	for i := 0; i < length; i++ {
-		res, err := env.Compare(a.Val[i], ba.Val[i])
+		res, err := env.compare(a.Val[i], ba.Val[i], depth)
 		if err != nil {
 			return 0, err
 		}
@@ -249,8 +255,17 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// maxCompareDepth is how deeply nested data may be and still be compared.
+const maxCompareDepth = 20000
+
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
+	return env.compare(a, b, 0)
+}
 
+func (env *Zlisp) compare(a Sexp, b Sexp, depth int) (int, error) {
+	if depth > maxCompareDepth {
+		return 0, errors.New("cannot compare data that is nested too deeply or part of itself")
+	}
 	var err error
 	if sel, isSel := a.(Selector); isSel {
 		a, err = sel.RHS(env)
@@ -281,9 +296,9 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 	case *SexpSymbol:
 		return env.compareSymbol(at, b)
 	case *SexpPair:
-		return env.comparePair(at, b)
+		return env.comparePair(at, b, depth+1)
 	case *SexpArray:
-		return env.compareArray(at, b)
+		return env.compareArray(at, b, depth+1)
 	case *SexpHash:
 		return compareHash(at, b)
 	case *RegisteredType:
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 105bc71..89144ab 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -224,6 +224,11 @@ func Cons(a Sexp, b Sexp) *SexpPair {
 }
 
 func (pair *SexpPair) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(pair)
+	if !ok {
+		return "(...)"
+	}
+	defer ps.leave(pair)
 	str := "("
 
 	for {
@@ -262,10 +267,26 @@ type SexpArray struct {
 }
 
 func (r *SexpArray) Type() *RegisteredType {
+	return r.typeWithin(maxSliceTypeDepth)
+}
+
+// maxSliceTypeDepth is how many array dimensions a slice type may have.
+// Arrays nested deeper, or inside themselves, have no type.
+const maxSliceTypeDepth = 100
+
+func (r *SexpArray) typeWithin(depth int) *RegisteredType {
 	if r.Typ == nil {
 		if len(r.Val) > 0 {
+			if depth == 0 {
+				return nil
+			}
 			// take type from first element
-			ty := r.Val[0].Type()
+			var ty *RegisteredType
+			if a, isArray := r.Val[0].(*SexpArray); isArray {
+				ty = a.typeWithin(depth - 1)
+			} else {
+				ty = r.Val[0].Type()
+			}
 			if ty != nil {
 				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
 			}
@@ -279,6 +300,11 @@ func (r *SexpArray) Type() *RegisteredType {
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(arr)
+	if !ok {
+		return "[...]"
+	}
+	defer ps.leave(arr)
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -602,6 +628,11 @@ func (lazy *SexpLazyArg) SexpString(ps *PrintState) string {
 	if lazy.Expr == nil {
 		return "(lazyArg nil)"
 	}
+	ps, ok := ps.enter(lazy)
+	if !ok {
+		return "(lazyArg ...)"
+	}
+	defer ps.leave(lazy)
 	return "(lazyArg " + lazy.Expr.SexpString(ps) + ")"
 }
 
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 5e2754f..98a8f0a 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -860,13 +860,18 @@ func (hash *SexpHash) ShortName() string {
 }
 
 func (hash *SexpHash) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(hash)
+	if !ok {
+		return " (" + hash.TypeName + " ...)"
+	}
+	defer ps.leave(hash)
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
 	inner := indent + 4
 	prettyEnd := ""
 	origIndInner := ""
-	if hash.Env.Pretty {
+	if hash.Env != nil && hash.Env.Pretty {
 		prettyEnd = "\n"
 		indInner = strings.Repeat(" ", inner)
 		origIndInner = strings.Repeat(" ", indent)
@@ -1040,6 +1045,11 @@ func (h *SexpHash) NewSexpHashSelector(sym *SexpSymbol) *SexpHashSelector {
 }
 
 func (si *SexpHashSelector) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(si)
+	if !ok {
+		return "(hashSelector ...)"
+	}
+	defer ps.leave(si)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
 		return fmt.Sprintf("SexpHashSelector error: could not get RHS: '%v'",
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 16cec97..441339d 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -13,6 +13,44 @@ type PrintState struct {
 	Indent    int
 	Seen      Seen
 	PrintJSON bool
+
+	// the containers being printed now, shared by the
+	// PrintStates that AddIndent derives from this one.
+	open *openContainers
+}
+
+// maxPrintDepth is how deeply nested data may be and still be printed
+// in full.
+const maxPrintDepth = 20000
+
+type openContainers struct {
+	inside Seen
+	depth  int
+}
+
+// enter notes that the display of the container x begins. It returns
+// false if x must not be descended into: because the display of x is
+// already under way, x being part of itself, or because x is nested
+// too deeply. After true, leave(x) must follow.
+func (ps *PrintState) enter(x interface{}) (*PrintState, bool) {
+	if ps == nil {
+		ps = NewPrintState()
+	}
+	if ps.open == nil {
+		ps.open = &openContainers{inside: NewSeen()}
+	}
+	if _, already := ps.open.inside[x]; already || ps.open.depth >= maxPrintDepth {
+		return ps, false
+	}
+	ps.open.inside[x] = struct{}{}
+	ps.open.depth++
+	return ps, true
+}
+
+// leave notes that the display of x is complete.
+func (ps *PrintState) leave(x interface{}) {
+	delete(ps.open.inside, x)
+	ps.open.depth--
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
@@ -48,6 +86,7 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		Indent:    ps.Indent + addme,
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
+		open:      ps.open,
 	}
 }
 
-- 
2.43.0


From 2cd059fe74bc80cebfe0c228e7f7ac60824a3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 31/48] fix: dump of a function or hash walked the whole
 interpreter, without end

---
 zygo/jsonmsgp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 0427069..25b0766 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -769,7 +769,13 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
-	goon.Dump(args[0])
+	switch x := args[0].(type) {
+	case *SexpInt, *SexpUint64, *SexpFloat, *SexpChar, *SexpStr, *SexpBool, *SexpSymbol, *SexpRaw, *SexpSentinel:
+		goon.Dump(x)
+	default:
+		// x may hold the interpreter: too much to dump
+		fmt.Printf("(%T)(%s)\n", x, x.SexpString(nil))
+	}
 	return SexpNull, nil
 }
 
-- 
2.43.0


From 12d105943928342f7d1295881a53492fb33e45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 32/48] fix: endless recursion overflowed the stack of the
 host; it is an error now

---
 zygo/closing.go     | 31 ++++++++++++++++++++-----
 zygo/environment.go | 56 +++++++++++++++++++++++++++++++++++++++++++++
 zygo/expressions.go |  3 ++-
 zygo/generator.go   | 10 ++++++++
 zygo/pratt.go       |  4 ++++
 5 files changed, 97 insertions(+), 7 deletions(-)

diff --git a/zygo/closing.go b/zygo/closing.go
index 5513cb4..9947e5d 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -7,16 +7,35 @@ type Closing struct {
 	env   *Zlisp
 }
 
-func NewClosing(name string, env *Zlisp) *Closing {
-	// Be strict: only store scopes from the current lexical function outward
-	// to the current top. Caller scopes below that function are dynamic state.
-	from := 0
+// lexicalFrom is where on the linearstack the scopes of the current
+// lexical function begin. Caller scopes below are dynamic state.
+func lexicalFrom(env *Zlisp) int {
 	for i := env.linearstack.tos; i >= 0; i-- {
 		if scop, ok := env.linearstack.elements[i].(*Scope); ok && scop.IsFunction {
-			from = i
-			break
+			return i
 		}
 	}
+	return 0
+}
+
+// lexicalStack is a copy of the linearstack without the dynamic state
+// between the global scope and the current lexical function.
+func lexicalStack(env *Zlisp) *Stack {
+	from := lexicalFrom(env)
+	stk := env.NewStack(env.linearstack.tos + 2 - from)
+	if from > 0 {
+		stk.Push(env.linearstack.elements[0])
+	}
+	for _, elem := range env.linearstack.elements[from : env.linearstack.tos+1] {
+		stk.Push(elem)
+	}
+	return stk
+}
+
+func NewClosing(name string, env *Zlisp) *Closing {
+	// Be strict: only store scopes from the current lexical function outward
+	// to the current top. Caller scopes below that function are dynamic state.
+	from := lexicalFrom(env)
 	stk := env.NewStack(env.linearstack.tos + 1 - from)
 	for _, elem := range env.linearstack.elements[from : env.linearstack.tos+1] {
 		stk.Push(elem)
diff --git a/zygo/environment.go b/zygo/environment.go
index 16f852c..a439758 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -35,6 +35,7 @@ type Zlisp struct {
 	pc          int
 	nextsymbol  int
 	nlocal      int // symbols made by localSymbol
+	nesting     int // evaluations under way inside each other
 	before      []PreHook
 	after       []PostHook
 
@@ -162,6 +163,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -196,6 +198,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.nesting = env.nesting
 
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
@@ -360,6 +363,9 @@ func (env *Zlisp) prepareLazyFinalArgs(function *SexpFunction, args []Sexp) ([]S
 	return args, nil
 }
 
+// maxScopes is how many scopes may be open inside each other in one function.
+const maxScopes = 5000
+
 func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 	if expr == nil {
 		return SexpNull, nil
@@ -376,6 +382,9 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 		return val, err
 	}
 
+	if env.linearstack.tos-lexicalFrom(env) > maxScopes {
+		return SexpNull, ErrNestedTooDeeply
+	}
 	gen := NewGenerator(env)
 	if err := gen.Generate(expr); err != nil {
 		return SexpNull, err
@@ -387,7 +396,13 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 
 	callState := env.captureControlState()
 	sfun := env.MakeFunction("callExprEval", 0, false, ZlispFunction(gen.instructions), expr)
+	sfun.isArg = true
 	sfun.parent = env.lexicalFunction()
+	if sfun.parent.isArg {
+		// an argument inside an argument: its closing has the
+		// scopes of the outer one already.
+		sfun.parent = sfun.parent.parent
+	}
 
 	env.pc = -2
 	if err := env.CallFunction(sfun, 0); err != nil {
@@ -575,7 +590,13 @@ func (env *Zlisp) prepareFrame(function *SexpFunction, nargs int) error {
 	return nil
 }
 
+// maxCalls is how many calls of functions may be under way.
+const maxCalls = 500000
+
 func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+	if env.addrstack.Size() >= maxCalls {
+		return ErrNestedTooDeeply
+	}
 	if err := env.prepareFrame(function, nargs); err != nil {
 		return err
 	}
@@ -667,6 +688,9 @@ func (env *Zlisp) CallUserFunction(
 	}
 	if err != nil {
 		env.restoreControlState(callState)
+		if noMoreContext(err) {
+			return 0, err
+		}
 		return 0, errors.New(
 			fmt.Sprintf("Error calling '%s': %v", name, err))
 	}
@@ -933,7 +957,39 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	return res, nil
 }
 
+// maxNesting is how many evaluations, and expressions being compiled,
+// may be under way inside each other, so that endless recursion is an
+// error before it exhausts the stack of the host.
+const maxNesting = 20000
+
+var ErrNestedTooDeeply = errors.New("evaluation is nested too deeply: endless recursion?")
+
+// maxErrorText is how long the text of an error may be before no more
+// context is put around it: every level of a deep recursion adds some.
+const maxErrorText = 16384
+
+func noMoreContext(err error) bool {
+	return errors.Is(err, ErrNestedTooDeeply) || len(err.Error()) >= maxErrorText
+}
+
+func (env *Zlisp) enter() error {
+	if env.nesting >= maxNesting {
+		return ErrNestedTooDeeply
+	}
+	env.nesting++
+	return nil
+}
+
+func (env *Zlisp) leave() {
+	env.nesting--
+}
+
 func (env *Zlisp) Run() (Sexp, error) {
+	if err := env.enter(); err != nil {
+		env.pc = functionSize(env.curfunc)
+		return SexpNull, err
+	}
+	defer env.leave()
 	runState := env.captureControlState()
 
 	for env.pc != -1 && !env.ReachedEnd() {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 89144ab..cf80b49 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -607,7 +607,7 @@ type SexpLazyArg struct {
 func NewSourceLazyArg(env *Zlisp, expr Sexp) *SexpLazyArg {
 	lazy := &SexpLazyArg{Expr: expr}
 	if env != nil {
-		lazy.Stack = env.linearstack.Clone()
+		lazy.Stack = lexicalStack(env)
 		lazy.CurFunc = env.lexicalFunction()
 	}
 	return lazy
@@ -734,6 +734,7 @@ type SexpFunction struct {
 	orig              Sexp
 	closingOverScopes *Closing
 	parent            *SexpFunction
+	isArg             bool // the code of a call argument, run in the scopes of the caller
 	isBuilder         bool // see defbuild; builders are builtins that receive un-evaluated expressions
 	argSyms           []*SexpSymbol
 	lazyFormals       []bool
diff --git a/zygo/generator.go b/zygo/generator.go
index b5f6094..3145993 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -787,6 +787,10 @@ func (gen *Generator) GenerateArray(arr *SexpArray) error {
 }
 
 func (gen *Generator) Generate(expr Sexp) error {
+	if err := gen.env.enter(); err != nil {
+		return err
+	}
+	defer gen.env.leave()
 	if _, isComment := expr.(*SexpComment); isComment {
 		return nil
 	}
@@ -807,6 +811,9 @@ func (gen *Generator) Generate(expr Sexp) error {
 			if isAssign && pos > 0 && legalLeftHandSide {
 				err := gen.GenerateAssignment(e, pos)
 				if err != nil {
+					if noMoreContext(err) {
+						return err
+					}
 					return fmt.Errorf("Error generating %s:\n%v",
 						expr.SexpString(nil), err)
 				}
@@ -814,6 +821,9 @@ func (gen *Generator) Generate(expr Sexp) error {
 			}
 			err := gen.GenerateCall(e)
 			if err != nil {
+				if noMoreContext(err) {
+					return err
+				}
 				return fmt.Errorf("Error generating %s:\n%v",
 					expr.SexpString(nil), err)
 			}
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 4118fc0..bf065ee 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -928,6 +928,10 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 		//Q("Expression sees IsEOF, returning cnode = %v", cnode.SexpString(nil))
 		return cnode, nil
 	}
+	if err := env.enter(); err != nil {
+		return SexpNull, err
+	}
+	defer env.leave()
 	p.CnodeStack = append([]Sexp{p.NextToken}, p.CnodeStack...)
 	//p.ShowCnodeStack()
 
-- 
2.43.0


From df968f9939e91c2452d43dfe6ed06dbff0a22951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 33/48] fix: functions that walk through data overflowed the
 stack of the host when it contains itself; printing a field or reading
 nothing panicked

---
 zygo/builders.go   | 25 ++++++-----------
 zygo/comment.go    | 30 +++++++++++++++++---
 zygo/functions.go  |  3 ++
 zygo/generator.go  |  8 ++++++
 zygo/hashutils.go  | 41 ++++++++++++++++++---------
 zygo/jsonmsgp.go   | 26 ++++++++++++++---
 zygo/printstate.go | 69 ++++++++++++++++++++++++++++++++++++++++++++++
 zygo/source.go     |  3 ++
 8 files changed, 167 insertions(+), 38 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 506c43c..5c67401 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -157,9 +157,9 @@ func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, ok := hash.valueOf(key)
 		str := ""
-		if err == nil {
+		if ok {
 			switch s := key.(type) {
 			case *SexpStr:
 				str += s.S + ":"
@@ -170,8 +170,6 @@ func (f *SexpField) FieldWidths() []int {
 			}
 			wide = append(wide, len(str))
 			wide = append(wide, len(val.SexpString(nil))+1)
-		} else {
-			panic(err)
 		}
 	}
 	return wide
@@ -182,9 +180,9 @@ func (f *SexpField) AlignString(pad []int) string {
 	str := " (" + hash.TypeName + " "
 	spc := " "
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, ok := hash.valueOf(key)
 		r := ""
-		if err == nil {
+		if ok {
 			switch s := key.(type) {
 			case *SexpStr:
 				r += s.S + ":"
@@ -194,20 +192,15 @@ func (f *SexpField) AlignString(pad []int) string {
 				r += key.SexpString(nil) + ":"
 			}
 			xtra := pad[i*2] - len(r)
-			if xtra < 0 {
-				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
-			}
-			leftpad := strings.Repeat(" ", xtra)
+			leftpad := strings.Repeat(" ", maxi(xtra, 0))
 			vs := val.SexpString(nil)
-			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
+			rightpad := strings.Repeat(" ", maxi(pad[(i*2)+1]-len(vs), 0))
 			if i == 0 {
 				spc = " "
 			} else {
 				spc = ""
 			}
 			r = leftpad + r + spc + vs + rightpad
-		} else {
-			panic(err)
 		}
 		str += r
 	}
@@ -227,8 +220,8 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 	str := " (" + hash.TypeName + " "
 
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
+		val, ok := hash.valueOf(key)
+		if ok {
 			switch s := key.(type) {
 			case *SexpStr:
 				str += s.S + ":"
@@ -242,8 +235,6 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 			} else {
 				str += val.SexpString(ps) + "    "
 			}
-		} else {
-			panic(err)
 		}
 	}
 	if len(hash.Map) > 0 {
diff --git a/zygo/comment.go b/zygo/comment.go
index fc51d05..4e51e4e 100644
--- a/zygo/comment.go
+++ b/zygo/comment.go
@@ -48,12 +48,20 @@ func RemoveCommasFilter(x Sexp) bool {
 }
 
 func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
+	if checkNestingWithin(x, maxNesting) != nil {
+		// not an expression: neither read nor compiled is one nested so deeply
+		return x, true
+	}
+	return env.filterAny(x, f)
+}
+
+func (env *Zlisp) filterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
 	switch ele := x.(type) {
 	case *SexpArray:
-		res := &SexpArray{Val: env.FilterArray(ele.Val, f), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
+		res := &SexpArray{Val: env.filterArray(ele.Val, f), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
 		return res, true
 	case *SexpPair:
-		return env.FilterList(ele, f), true
+		return env.filterList(ele, f), true
 	case *SexpHash:
 		return env.FilterHash(ele, f), true
 	default:
@@ -70,9 +78,16 @@ func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
 	//for i := range x {
 	//P("x[i=%d] = %v", i, x[i].SexpString())
 	//}
+	if checkNestingWithin(&SexpArray{Val: x}, maxNesting) != nil {
+		return x
+	}
+	return env.filterArray(x, f)
+}
+
+func (env *Zlisp) filterArray(x []Sexp, f Filter) []Sexp {
 	res := []Sexp{}
 	for i := range x {
-		filtered, keep := env.FilterAny(x[i], f)
+		filtered, keep := env.filterAny(x[i], f)
 		if keep {
 			res = append(res, filtered)
 		}
@@ -93,6 +108,13 @@ func (env *Zlisp) FilterHash(h *SexpHash, f Filter) *SexpHash {
 }
 
 func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
+	if checkNestingWithin(h, maxNesting) != nil {
+		return h
+	}
+	return env.filterList(h, f)
+}
+
+func (env *Zlisp) filterList(h *SexpPair, f Filter) Sexp {
 	//P("in FilterList")
 	arr, err := ListToArray(h)
 	res := []Sexp{}
@@ -100,6 +122,6 @@ func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
 		// don't filter pair lists
 		return h
 	}
-	res = env.FilterArray(arr, f)
+	res = env.filterArray(arr, f)
 	return MakeList(res)
 }
diff --git a/zygo/functions.go b/zygo/functions.go
index 248cc68..4333de5 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -672,6 +672,9 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 		}
 		break
 	}
+	if sx == nil {
+		sx = SexpNull
+	}
 	return
 }
 
diff --git a/zygo/generator.go b/zygo/generator.go
index 3145993..07b3e77 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -587,6 +587,9 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	}
 
 	for _, v := range args {
+		if err := checkNesting(v); err != nil {
+			return err
+		}
 		if err := sourceItem(v); err != nil {
 			return err
 		}
@@ -1145,6 +1148,11 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	}
 	arg := args[0]
 
+	if err := gen.env.enter(); err != nil {
+		return err
+	}
+	defer gen.env.leave()
+
 	// the template is evaluated piece by piece, none is in tail position
 	oldtail := gen.Tail
 	gen.Tail = false
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 98a8f0a..997c69f 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -223,6 +223,28 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 	return val, nil
 }
 
+// valueOf finds the value of one of the keys in KeyOrder. Unlike HashGet it
+// does not take a symbol with dots for a path, and finds keys that cannot be
+// compared.
+func (hash *SexpHash) valueOf(key Sexp) (Sexp, bool) {
+	hashval, err := HashExpression(hash.Env, key)
+	if err != nil {
+		return SexpNull, false
+	}
+	for _, pair := range hash.Map[hashval] {
+		if pair.Head == key {
+			return pair.Tail, true
+		}
+	}
+	for _, pair := range hash.Map[hashval] {
+		res, err := hash.Env.Compare(pair.Head, key)
+		if err == nil && res == 0 {
+			return pair.Tail, true
+		}
+	}
+	return SexpNull, false
+}
+
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
 	hashval, err := HashExpression(env, key)
 	if err != nil {
@@ -481,26 +503,19 @@ func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 
 func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
 	nk := hash.NumKeys
-	if pos > nk {
+	if pos < 0 || pos >= nk {
 		return &SexpPair{}, fmt.Errorf("hpair error: pos %d is beyond our key count %d",
 			pos, nk)
 	}
 	lenKeyOrder := len(hash.KeyOrder)
-	var err error
 	var key, val Sexp
 	found := false
-	for k := pos; k < lenKeyOrder; k++ {
+	for k := pos; k < lenKeyOrder && !found; k++ {
 		key = hash.KeyOrder[k]
-		val, err = hash.HashGet(nil, key)
-
-		if err == nil {
-			found = true
-			break
-		}
-		// what about deleted keys? just skip to the next!
+		val, found = hash.valueOf(key)
 	}
 	if !found {
-		panic(fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder))
+		return &SexpPair{}, fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder)
 	}
 
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
@@ -893,8 +908,8 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(hash.Env, key)
-		if err == nil {
+		val, ok := hash.valueOf(key)
+		if ok {
 			onKey++
 			keyStr := ""
 			switch s := key.(type) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 25b0766..48856bd 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -69,6 +69,9 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
+			if err := checkNesting(args[0]); err != nil {
+				return SexpNull, err
+			}
 			if err := checkJsonForm(args[0], nil); err != nil {
 				return SexpNull, err
 			}
@@ -80,6 +83,9 @@ func JsonFunction(name string) ZlispUserFunction {
 			}
 			return JsonToSexp([]byte(raw.Val), env)
 		case "msgpack":
+			if err := checkNesting(args[0]); err != nil {
+				return SexpNull, err
+			}
 			if err := checkJsonForm(args[0], nil); err != nil {
 				return SexpNull, err
 			}
@@ -577,7 +583,13 @@ func makeSortedSlicesFromMap(m map[string]interface{}) ([]string, []interface{})
 //
 //	same pointer for a SexpHash used in more than one place.
 func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result interface{}) {
+	return sexpToGo(sexp, env, dedup, 0)
+}
 
+func sexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}, depth int) (result interface{}) {
+	if depth > maxDataDepth {
+		panic(ErrNestedTooDeeply)
+	}
 	cacheHit := false
 	if dedup == nil {
 		dedup = make(map[*SexpHash]interface{})
@@ -615,7 +627,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		//P("*SexpArray decoding! e.Val='%#v'", e.Val)
 		ar := make([]interface{}, len(e.Val))
 		for i, ele := range e.Val {
-			ar[i] = SexpToGo(ele, env, dedup)
+			ar[i] = sexpToGo(ele, env, dedup, depth+1)
 		}
 		return ar
 	case *SexpInt:
@@ -641,8 +653,8 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		m := make(map[string]interface{})
 		for _, arr := range e.Map {
 			for _, pair := range arr {
-				key := SexpToGo(pair.Head, env, dedup)
-				val := SexpToGo(pair.Tail, env, dedup)
+				key := sexpToGo(pair.Head, env, dedup, depth+1)
+				val := sexpToGo(pair.Tail, env, dedup, depth+1)
 				keyString, isStringKey := key.(string)
 				if !isStringKey {
 					panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
@@ -653,7 +665,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		m["Atype"] = e.TypeName
 		ko := make([]interface{}, 0)
 		for _, k := range e.KeyOrder {
-			ko = append(ko, SexpToGo(k, env, dedup))
+			ko = append(ko, sexpToGo(k, env, dedup, depth+1))
 		}
 		m["zKeyOrder"] = ko
 		return m
@@ -794,6 +806,9 @@ func SexpToGoStructs(
 	//defer func() {
 	//vv("returning from SexpToGoStructs, target='%p'/'%#v'", target, target)
 	//}()
+	if calldepth > maxDataDepth {
+		return nil, ErrNestedTooDeeply
+	}
 	cacheHit := false
 	if dedup == nil {
 		dedup = make(map[*SexpHash]interface{})
@@ -824,6 +839,9 @@ func SexpToGoStructs(
 			}
 		}
 		if recov != nil {
+			if recov == ErrNestedTooDeeply {
+				panic(recov)
+			}
 			panic(fmt.Errorf("last recordKey field name was '%s'. Caught panic: '%v'", recordKey, recov))
 		} else {
 			tc, ok := result.(TypeCheckable)
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 441339d..6b5b369 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"fmt"
+	"math"
 )
 
 // begin supporting SexpString structs
@@ -23,6 +24,74 @@ type PrintState struct {
 // in full.
 const maxPrintDepth = 20000
 
+// maxDataDepth is how deeply nested data may be for functions that walk
+// through all of it, such as json.
+const maxDataDepth = 5000
+
+// checkNesting returns an error if x is nested more deeply than that, or
+// contains itself.
+func checkNesting(x Sexp) error {
+	return checkNestingWithin(x, maxDataDepth)
+}
+
+func checkNestingWithin(x Sexp, max int) error {
+	_, err := dataHeight(x, max, make(map[Sexp]int))
+	return err
+}
+
+// dataHeight says how deeply nested x is. known has the heights of the
+// containers seen so far, max is how high x may be.
+func dataHeight(x Sexp, max int, known map[Sexp]int) (height int, err error) {
+	under := func(ele Sexp) {
+		if err == nil {
+			var h int
+			h, err = dataHeight(ele, max-1, known)
+			height = maxi(height, h+1)
+		}
+	}
+	switch x.(type) {
+	case *SexpArray, *SexpHash, *SexpPair:
+	default:
+		return 0, nil
+	}
+	if h, already := known[x]; already {
+		if h > max {
+			return 0, ErrNestedTooDeeply
+		}
+		return h, nil
+	}
+	if max < 0 {
+		return 0, ErrNestedTooDeeply
+	}
+	known[x] = math.MaxInt32 // if it is met again inside of itself
+	switch e := x.(type) {
+	case *SexpArray:
+		for _, ele := range e.Val {
+			under(ele)
+		}
+	case *SexpHash:
+		for _, key := range e.KeyOrder {
+			under(key)
+			if val, ok := e.valueOf(key); ok {
+				under(val)
+			}
+		}
+	case *SexpPair:
+		var at Sexp = e
+		for err == nil {
+			pair, isPair := at.(*SexpPair)
+			if !isPair {
+				under(at)
+				break
+			}
+			under(pair.Head)
+			at = pair.Tail
+		}
+	}
+	known[x] = height
+	return height, err
+}
+
 type openContainers struct {
 	inside Seen
 	depth  int
diff --git a/zygo/source.go b/zygo/source.go
index af5c030..e804547 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -105,6 +105,9 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 
 	for _, v := range args {
+		if err := checkNesting(v); err != nil {
+			return SexpNull, err
+		}
 		if err := env.sourceItem(v); err != nil {
 			return SexpNull, err
 		}
-- 
2.43.0


From f98abbcb41cbe29b2477d2e166ed393cadba29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 34/48] fix: the error text of a recovered panic, and the
 numbers of symbols, differed from run to run

---
 zygo/callgo.go      |  9 +++------
 zygo/environment.go | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index feea898..bcf8965 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"fmt"
 	"reflect"
-	"runtime"
 )
 
 // call Go methods
@@ -18,15 +17,13 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	// protect against bad calls/bad reflection
 	var wasPanic bool
 	var recovered interface{}
-	tr := make([]byte, 16384)
-	trace := &tr
+	var trace string
 	sx, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				nbyte := runtime.Stack(*trace, false)
-				*trace = (*trace)[:nbyte]
+				trace = panicTrace("CallGoMethodFunction")
 			}
 		}()
 
@@ -195,7 +192,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if wasPanic {
 		return SexpNull, fmt.Errorf("\n recovered from panic "+
 			"during CallGo. panic on = '%v'\n"+
-			"stack trace:\n%s\n", recovered, string(*trace))
+			"stack trace:\n%s\n", recovered, trace)
 	}
 	return sx, err
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index a439758..3c84917 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -8,7 +8,9 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
+	"strings"
 )
 
 type PreHook func(*Zlisp, string, []Sexp)
@@ -120,7 +122,9 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// in order, so that the numbers of the symbols are always the same.
+	for _, key := range sortedKeys(funcs) {
+		function := funcs[key]
 		sym := env.MakeSymbol(key)
 		env.builtins[sym.number] = MakeUserFunction(key, function)
 		env.AddFunction(key, function)
@@ -634,6 +638,30 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// panicTrace says where a panic came from, up to the function named upto.
+// It has no addresses, so it is the same in every run.
+func panicTrace(upto string) string {
+	pcs := make([]uintptr, 100)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs)])
+	var s strings.Builder
+	for {
+		f, more := frames.Next()
+		fmt.Fprintf(&s, "%s\n\t%s:%d\n", f.Function, f.File, f.Line)
+		if !more || strings.HasSuffix(f.Function, "."+upto) {
+			return s.String()
+		}
+	}
+}
+
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -662,15 +690,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = panicTrace("CallUserFunction")
 			}
 		}()
 
@@ -684,7 +710,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
-- 
2.43.0


From 6d760c22735b06beda3bbebba2ed9d8b09707f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 35/48] fix: types declared by the program of one interpreter
 leaked into the others

---
 zygo/builders.go    | 17 +++++-----
 zygo/environment.go |  8 +++--
 zygo/expressions.go |  4 +++
 zygo/gotypereg.go   | 75 ++++++++++++++++++++++++++++++++++++---------
 zygo/hashutils.go   | 13 ++++----
 zygo/jsonmsgp.go    |  8 ++---
 6 files changed, 89 insertions(+), 36 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 5c67401..40d5f62 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -63,6 +63,7 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+	rt        *RegisteredType
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -85,9 +86,7 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 }
 
 func (p *RecordDefn) Type() *RegisteredType {
-	rt := GoStructRegistry.Registry[p.Name]
-	//Q("RecordDefn) Type() sees rt = %v", rt)
-	return rt
+	return p.rt
 }
 
 // pretty print a struct
@@ -286,7 +285,8 @@ func StructBuilder(env *Zlisp, name string,
 		})
 		rtR.UserStructDefn = udsR
 		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
+		udsR.rt = rtR
+		env.declareType(structName, rtR)
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
@@ -364,7 +364,8 @@ func StructBuilder(env *Zlisp, name string,
 	})
 	rt.UserStructDefn = uds
 	rt.DisplayAs = structName
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
+	uds.rt = rt
+	env.declareType(structName, rt)
 	//Q("good: registered new userdefined struct '%s'", structName)
 
 	// replace our recursive-reference-enabling symbol with the real one.
@@ -672,7 +673,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
 	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	GoStructRegistry.setDerived(rt, arrayName, arrayRt)
 	return arrayRt, nil
 }
 
@@ -739,9 +740,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/environment.go b/zygo/environment.go
index 3c84917..9984e79 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -36,8 +36,9 @@ type Zlisp struct {
 	mainfunc    *SexpFunction
 	pc          int
 	nextsymbol  int
-	nlocal      int // symbols made by localSymbol
-	nesting     int // evaluations under way inside each other
+	nlocal      int                        // symbols made by localSymbol
+	nesting     int                        // evaluations under way inside each other
+	types       map[string]*RegisteredType // declared by the program, see declareType
 	before      []PreHook
 	after       []PostHook
 
@@ -119,6 +120,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.before = []PreHook{}
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
+	env.types = make(map[string]*RegisteredType)
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
@@ -168,6 +170,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
 	dupenv.nesting = env.nesting
+	dupenv.types = env.types
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -203,6 +206,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
 	dupenv.nesting = env.nesting
+	dupenv.types = env.types
 
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
diff --git a/zygo/expressions.go b/zygo/expressions.go
index cf80b49..b992d0c 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -136,9 +136,13 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+	Typ *RegisteredType // of a declared variable
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.Typ != nil {
+		return r.Typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index f4ea3e3..aea56bd 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -138,15 +138,59 @@ func (r *GoStructRegistryType) RegisterUserdef(
 	}
 }
 
-// registerImplicit records the type of a hash whose type name nothing has
-// declared. Unlike RegisterUserdef it does not offer the type to the
-// interpreters set up later: a global of theirs by this name, such as
-// hash or field, has to stay what it is.
-func (r *GoStructRegistryType) registerImplicit(e *RegisteredType, name string) {
-	r.register(name, e, true)
-	delete(r.Userdef, name)
+// declareType registers a type that the program of an interpreter declares,
+// or the type of a hash whose type name nothing has declared. Unlike
+// GoStructRegistry, which all interpreters share, these types are known to
+// this interpreter (and its duplicates) only.
+func (env *Zlisp) declareType(name string, e *RegisteredType) {
+	if env == nil {
+		return
+	}
+	e.RegisteredName = name
+	e.home = env.types
+	if e.Aliases == nil {
+		e.Aliases = make(map[string]bool)
+	}
+	e.Aliases[name] = true
+	e.IsUser = true
+	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	if e.DisplayAs == "" {
+		e.DisplayAs = name
+	}
+	env.types[name] = e
+}
+
+// lookupType finds a type by name: one declared in this interpreter, or one
+// in the GoStructRegistry.
+func (env *Zlisp) lookupType(name string) *RegisteredType {
+	if env != nil {
+		if rt := env.types[name]; rt != nil {
+			return rt
+		}
+	}
+	return GoStructRegistry.Lookup(name)
+}
+
+// derived is the type by this name that is made from rt: a slice of it, or a
+// pointer to it. It belongs where rt does.
+func (r *GoStructRegistryType) derived(rt *RegisteredType, name string) *RegisteredType {
+	if rt.home != nil {
+		return rt.home[name]
+	}
+	return r.Lookup(name)
+}
+
+func (r *GoStructRegistryType) setDerived(rt *RegisteredType, name string, e *RegisteredType) {
+	e.RegisteredName = name
+	e.Aliases[name] = true
 	e.IsUser = true
 	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	if rt.home != nil {
+		e.home = rt.home
+		rt.home[name] = e
+		return
+	}
+	r.Registry[name] = e
 }
 
 func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
@@ -206,6 +250,7 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+	home           map[string]*RegisteredType // the types of the interpreter it was declared in
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
@@ -408,11 +453,13 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
+	for _, name := range sortedKeys(GoStructRegistry.Builtin) {
+		e := GoStructRegistry.Builtin[name]
 		env.AddGlobal(e.RegisteredName, e)
 	}
 
-	for _, e := range GoStructRegistry.Userdef {
+	for _, name := range sortedKeys(GoStructRegistry.Userdef) {
+		e := GoStructRegistry.Userdef[name]
 		env.AddGlobal(e.RegisteredName, e)
 	}
 }
@@ -447,7 +494,7 @@ func newTypeWithoutGoType(name string) *RegisteredType {
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
 	Q("pointedToType = %#v", pointedToType)
 	ptrName := "*" + pointedToType.RegisteredName
-	ptrRt := gsr.Lookup(ptrName)
+	ptrRt := gsr.derived(pointedToType, ptrName)
 	if ptrRt != nil {
 		Q("type named '%v' already registered, reusing the pointer type", ptrName)
 	} else {
@@ -461,8 +508,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 			})
 		}
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
-		ptrRt.RegisteredName = ptrName
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		gsr.setDerived(pointedToType, ptrName, ptrRt)
 	}
 	return ptrRt
 }
@@ -470,7 +516,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
 	//sliceName := "sliceOf" + rt.RegisteredName
 	sliceName := "[]" + rt.RegisteredName
-	sliceRt := gsr.Lookup(sliceName)
+	sliceRt := gsr.derived(rt, sliceName)
 	if sliceRt != nil {
 		Q("type named '%v' already registered, re-using the type", sliceName)
 	} else {
@@ -484,8 +530,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 			})
 		}
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
-		sliceRt.RegisteredName = sliceName
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		gsr.setDerived(rt, sliceName, sliceRt)
 	}
 	return sliceRt
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 997c69f..2decf6b 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -93,7 +93,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
+	factory := env.lookupType(typename)
 	if factory == nil {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
@@ -141,9 +141,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		k++
 	}
 
-	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
+	factoryShad := env.lookupType(typename)
+	if factoryShad != nil {
 		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
 		if factoryShad.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
@@ -166,7 +165,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.registerImplicit(factory, typename)
+		env.declareType(typename, factory)
 	}
 
 	return &hash, nil
@@ -295,7 +294,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
 
 		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
+		rt := h.Env.lookupType(h.TypeName)
 
 		// was it found? If so, use it!
 		if rt != nil && rt.UserStructDefn != nil {
@@ -948,7 +947,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	return GoStructRegistry.Registry[r.TypeName]
+	return r.Env.lookupType(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 48856bd..75f15b9 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -721,8 +721,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.lookupType(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -1092,8 +1092,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.lookupType(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
-- 
2.43.0


From 6062556526c8d073b61e72171c3f7b9f44cf8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 36/48] fix: in an infix block, a statement beginning with a
 dotted path or not swallowed the one on the line before it; an array after an
 empty statement was taken for an index

---
 zygo/pratt.go | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index bf065ee..8aff64e 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 // Pratt parsing. see http://javascript.crockford.com/tdop/tdop.html
@@ -263,6 +264,12 @@ func arrayOpMunchLeft(env *Zlisp, pr *Pratt, left Sexp) (Sexp, error) {
 	return list, nil
 }
 
+// isFieldSelector tells the .b of a[0] .b from the path a.b, which is an
+// operand by itself.
+func isFieldSelector(sym *SexpSymbol) bool {
+	return sym.isDot && strings.HasPrefix(sym.name, ".")
+}
+
 func dotOpMunchLeft(env *Zlisp, pr *Pratt, left Sexp) (Sexp, error) {
 	//Q("dotOp MunchLeft, left = '%v'. NextToken='%v'. pr.CnodeStack[0]='%v'", left.SexpString(nil), pr.NextToken.SexpString(nil), pr.CnodeStack[0].SexpString(nil))
 	list := MakeList([]Sexp{
@@ -753,7 +760,8 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 	pr := NewPratt(arr.Val)
 	xs := []Sexp{}
 
-	for {
+	pr.skipSemicolons()
+	for !pr.IsEOF() {
 		x, ok, err := pr.LabeledFor(env)
 		if err != nil {
 			return nil, err
@@ -769,19 +777,9 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 		//} else {
 		//	Q("x back is not nil and is of type %T/val = '%v', err = %v", x, x.SexpString(nil), err)
 		//}
-		_, isSemi := x.(*SexpSemicolon)
-		if !isSemi {
-			xs = append(xs, x)
-		}
+		xs = append(xs, x)
 		//Q("end of infix builder loop, pr.NextToken = '%v'", pr.NextToken.SexpString(nil))
-		if pr.IsEOF() {
-			break
-		}
-
-		_, nextIsSemi := pr.NextToken.(*SexpSemicolon)
-		if nextIsSemi {
-			pr.Advance() // skip over the semicolon
-		}
+		pr.skipSemicolons()
 	}
 	return xs, nil
 }
@@ -989,7 +987,7 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 				//Q("assigning curOp <- cnode '%s'", x.name)
 				curOp = op
 			} else {
-				if x.isDot {
+				if isFieldSelector(x) {
 					curOp = env.infixOps["."]
 					//Q("assigning curOp <- dotInfixOp; then curOp = %#v", curOp)
 				}
@@ -1054,6 +1052,16 @@ func (p *Pratt) Advance() error {
 	return nil
 }
 
+// skipSemicolons goes on to the next statement.
+func (p *Pratt) skipSemicolons() {
+	for !p.IsEOF() {
+		if _, isSemi := p.NextToken.(*SexpSemicolon); !isSemi {
+			return
+		}
+		p.Advance()
+	}
+}
+
 func (p *Pratt) IsEOF() bool {
 	if p.Pos >= len(p.Stream) {
 		return true
@@ -1072,18 +1080,16 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	case *SexpSymbol:
 		op, found := env.infixOps[x.name]
-		if x.name == "if" {
-			// we don't want if to be doing any binding to the left,
-			// so we enforce that it has zero left-binding power. It
-			// gets a right-binding power of 5 since it is a prefix operator.
-			//Q("LeftBindingPower: found if, return 0 left-binding-power")
-			return 0, nil
-		}
 		if found {
+			if op.MunchLeft == nil {
+				// a prefix operator such as if or not does not bind to
+				// the left; it begins a new expression.
+				return 0, nil
+			}
 			//Q("LeftBindingPower: found op '%#v', returning op.Bp = %v", op, op.Bp)
 			return op.Bp, nil
 		}
-		if x.isDot {
+		if isFieldSelector(x) {
 			//Q("LeftBindingPower: dot symbol '%v', "+
 			//	"giving it binding-power 80", x.name)
 			return 80, nil
-- 
2.43.0


From 2a068490559ff8b1c691e00d152c35d2e2d25506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 37/48] fix: fields of declared structs took types, mixed
 arrays, values for keys that are no symbols, and instances of another
 declaration by the same name; an array of nil crashed the check

---
 zygo/builders.go  |  6 ++++
 zygo/gotypereg.go | 11 ++++++-
 zygo/hashutils.go | 77 ++++++++++++++++++++++++-----------------------
 zygo/scopes.go    |  6 ++++
 4 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 40d5f62..62026e6 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -275,6 +275,7 @@ func StructBuilder(env *Zlisp, name string,
 	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
+	var itself *RegisteredType // what the fields know it by
 	{
 		// begin enable recursion -- add ourselves to the env early, then
 		// update later, so that structs can refer to themselves.
@@ -287,6 +288,7 @@ func StructBuilder(env *Zlisp, name string,
 		rtR.DisplayAs = structName
 		udsR.rt = rtR
 		env.declareType(structName, rtR)
+		itself = rtR
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
@@ -366,6 +368,10 @@ func StructBuilder(env *Zlisp, name string,
 	rt.DisplayAs = structName
 	uds.rt = rt
 	env.declareType(structName, rt)
+	rt.made = itself.made // the fields' pointers to itself and slices of itself
+	for _, e := range rt.made {
+		e.of = rt
+	}
 	//Q("good: registered new userdefined struct '%s'", structName)
 
 	// replace our recursive-reference-enabling symbol with the real one.
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index aea56bd..637e872 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -175,7 +175,7 @@ func (env *Zlisp) lookupType(name string) *RegisteredType {
 // pointer to it. It belongs where rt does.
 func (r *GoStructRegistryType) derived(rt *RegisteredType, name string) *RegisteredType {
 	if rt.home != nil {
-		return rt.home[name]
+		return rt.made[name] // rt.home may have one made from an earlier declaration
 	}
 	return r.Lookup(name)
 }
@@ -185,8 +185,13 @@ func (r *GoStructRegistryType) setDerived(rt *RegisteredType, name string, e *Re
 	e.Aliases[name] = true
 	e.IsUser = true
 	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	e.of = rt
 	if rt.home != nil {
 		e.home = rt.home
+		if rt.made == nil {
+			rt.made = make(map[string]*RegisteredType)
+		}
+		rt.made[name] = e
 		rt.home[name] = e
 		return
 	}
@@ -250,6 +255,9 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+	of             *RegisteredType            // what a slice, pointer or array type is made from
+	made           map[string]*RegisteredType // the types made from it, when it has a home
+	isSlice        bool
 	home           map[string]*RegisteredType // the types of the interpreter it was declared in
 }
 
@@ -530,6 +538,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 			})
 		}
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
+		sliceRt.isSlice = true
 		gsr.setDerived(rt, sliceName, sliceRt)
 	}
 	return sliceRt
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 2decf6b..fe3b62d 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -273,15 +273,7 @@ var KeyNotSymbol = fmt.Errorf("key is not a symbol")
 func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 	//Q("in TypeCheckField, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
 
-	var keySym *SexpSymbol
-	wasSym := false
-	switch ks := key.(type) {
-	case *SexpSymbol:
-		keySym = ks
-		wasSym = true
-	default:
-		return KeyNotSymbol
-	}
+	keySym, wasSym := key.(*SexpSymbol)
 	p := h.GoStructFactory
 	if p == nil {
 		//Q("SexpHash.TypeCheckField() sees nil GoStructFactory, bailing out.")
@@ -318,49 +310,57 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 
 	// type-check record updates here, if we are a record with a
 	// registered type associated.
-	if wasSym && h.TypeName != "hash" && h.TypeName != "field" && p != nil {
+	if h.TypeName != "hash" && h.TypeName != "field" && p != nil {
+		if !wasSym {
+			return fmt.Errorf("%s has no field '%s': %w",
+				p.UserStructDefn.Name, key.SexpString(nil), KeyNotSymbol)
+		}
 		k := keySym.name
 		//Q("is key '%s' defined?", k)
 		declaredTyp, ok := p.UserStructDefn.FieldType[k]
 		if !ok {
 			return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, k)
 		}
-		obsTyp := val.Type()
-		if obsTyp == nil {
-			// allow certain types to be nil, e.g. [] and nil itself
-			switch a := val.(type) {
-			case *SexpArray:
-				if len(a.Val) == 0 {
-					return nil // okay
-				}
-			case *SexpSentinel:
-				return nil // okay
-			default:
-				return fmt.Errorf("%v has nil Type", val.SexpString(nil))
-			}
-		}
-
-		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
-		//Q("declaredTyp is %T / val = %#v", declaredTyp, declaredTyp)
-		if obsTyp != declaredTyp {
-			if obsTyp.RegisteredName == "[]" {
-				if strings.HasPrefix(declaredTyp.RegisteredName, "[]") {
-					// okay to assign empty slice to typed slice
-					goto done
-				}
+		if !declaredTyp.holds(val) {
+			obs := "a value of no type"
+			if obsTyp := val.Type(); obsTyp != nil {
+				obs = obsTyp.SexpString(nil)
 			}
 			return fmt.Errorf("field %v.%v is %v, cannot assign %v '%v'",
 				p.UserStructDefn.Name,
 				k,
 				declaredTyp.SexpString(nil),
-				obsTyp.SexpString(nil),
+				obs,
 				val.SexpString(nil))
 		}
 	}
-done:
 	return nil
 }
 
+// holds tells whether val may be in a field of the type p. nil may always be,
+// and the empty array in every slice.
+func (p *RegisteredType) holds(val Sexp) bool {
+	switch x := val.(type) {
+	case *SexpSentinel:
+		return true
+	case *RegisteredType:
+		return false // its type is itself, but it is no value of it
+	case *SexpArray:
+		// The Typ of an array is that of its first element, when it was
+		// first asked for.
+		if !p.isSlice {
+			return false
+		}
+		for _, e := range x.Val {
+			if !p.of.holds(e) {
+				return false
+			}
+		}
+		return true
+	}
+	return val.Type() == p
+}
+
 func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	//vv("in HashSet, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
 
@@ -379,9 +379,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
-		if err != KeyNotSymbol {
-			return err
-		}
+		return err
 	}
 
 	hashval, err := HashExpression(nil, key)
@@ -947,6 +945,9 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
+	if f := r.GoStructFactory; f != nil && f.UserStructDefn != nil {
+		return f // what the name stands for now may have been declared since
+	}
 	return r.Env.lookupType(r.TypeName)
 }
 
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8761b9c..ccbbca5 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -220,6 +220,12 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 			return nil
 		}
 
+		if rhsTy.UserStructDefn != nil && lhsTy.UserStructDefn != nil && rhsTy.UserStructDefn.Name == lhsTy.UserStructDefn.Name {
+			// another declaration of the same struct
+			stack.elements[stack.tos].(*Scope).Map[sym.number] = expr
+			return nil
+		}
+
 		if rhsTy.UserStructDefn != nil && rhsTy.UserStructDefn != lhsTy.UserStructDefn {
 			return fmt.Errorf("cannot assign %v to %v", rhsTy.ShortName(), lhsTy.ShortName())
 		}
-- 
2.43.0


From b7bbbffe5602015ba5a31edb9d02683a10117815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 38/48] fix: a dot path through a nested package into a hash,
 or through a hash into a package, lost its place

---
 zygo/hashutils.go | 2 +-
 zygo/stack.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index fe3b62d..e66fccc 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -847,7 +847,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..314fc35 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -272,7 +272,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From d4d2e409cb18de968ef5e859e38aa1c67cc3e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 39/48] fix: include, import and sys reached files and
 processes from a sandboxed interpreter

---
 zygo/builders.go    |  6 ++++--
 zygo/environment.go | 10 +++++++++-
 zygo/generator.go   |  3 +++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 62026e6..f2389fd 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -29,7 +29,6 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.ImportMinimalBuilder()
 	env.AddBuilder("infixExpand", InfixBuilder)
 	env.AddBuilder("infix", InfixBuilder)
-	env.AddBuilder("sys", SystemBuilder)
 	env.AddBuilder("struct", StructBuilder)
 	env.AddBuilder("func", FuncBuilder)
 	env.AddBuilder("method", FuncBuilder)
@@ -40,7 +39,10 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.AddBuilder("expectError", ExpectErrorBuilder)
 	//	env.AddBuilder("&", AddressOfBuilder)
 
-	env.AddBuilder("import", ImportPackageBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("sys", SystemBuilder)
+		env.AddBuilder("import", ImportPackageBuilder)
+	}
 
 	env.AddFunction("sliceOf", SliceOfFunction)
 	env.AddFunction("ptr", PointerToFunction)
diff --git a/zygo/environment.go b/zygo/environment.go
index 9984e79..19be104 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -54,6 +54,10 @@ type Zlisp struct {
 
 	booter Booter
 
+	// sandboxed interpreters offer scripts nothing that reaches
+	// outside of the interpreter. See NewZlispSandbox.
+	sandboxed bool
+
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 }
@@ -94,7 +98,9 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -185,6 +191,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 	return dupenv
 }
 
@@ -219,6 +226,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.sandboxed = env.sandboxed
 
 	return dupenv
 }
diff --git a/zygo/generator.go b/zygo/generator.go
index 07b3e77..7bcecec 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -546,6 +546,9 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateInclude(args []Sexp) error {
+	if gen.env.sandboxed {
+		return fmt.Errorf("include: not available in a sandbox")
+	}
 	if len(args) < 1 {
 		return WrongNargs
 	}
-- 
2.43.0


From b255d38c74deab959d7abfe363cb315a8df2b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 40/48] fix: converting records to Go and back took fields and
 registered types in map order, and togo's result held addresses

---
 zygo/callgo.go    |  41 +++----
 zygo/gosyntax.go  | 113 +++++++++++++++++++
 zygo/gotypereg.go |  16 +++
 zygo/hashutils.go |  45 ++++----
 zygo/jsonmsgp.go  | 270 ++++++++++++++++++++++------------------------
 5 files changed, 293 insertions(+), 192 deletions(-)
 create mode 100644 zygo/gosyntax.go

diff --git a/zygo/callgo.go b/zygo/callgo.go
index bcf8965..9af1b6f 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -155,36 +155,21 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			case rune:
 				r = append(r, &SexpChar{Val: e})
 			default:
-				// go through the type registry
-				found := false
-				for hashName, factory := range GoStructRegistry.Registry {
-					st, err := factory.Factory(env, nil)
-					if err != nil {
-						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
-							hashName, err)
-					}
-					//Q("got st from Factory, checking if types match")
-					if reflect.ValueOf(st).Type() == out[i].Type() {
-						//Q("types match")
-						retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
-						if err != nil {
-							return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-								hashName, err)
-						}
-
-						//Q("filling from shadow")
-						err = retHash.FillHashFromShadow(env, f)
-						if err != nil {
-							return SexpNull, err
-						}
-						r = append(r, retHash)
-						found = true
-						break
-					}
-				}
-				if !found {
+				rt := recordTypeOf(out[i].Type())
+				if rt == nil {
 					r = append(r, &SexpReflect{Val: out[i]})
+					continue
+				}
+				retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
+				if err != nil {
+					return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+						rt.RegisteredName, err)
+				}
+				err = retHash.FillHashFromShadow(env, f)
+				if err != nil {
+					return SexpNull, err
 				}
+				r = append(r, retHash)
 			}
 		}
 		return env.NewSexpArray(r), nil
diff --git a/zygo/gosyntax.go b/zygo/gosyntax.go
new file mode 100644
index 0000000..ad5a438
--- /dev/null
+++ b/zygo/gosyntax.go
@@ -0,0 +1,113 @@
+package zygo
+
+import (
+	"fmt"
+	"reflect"
+	"sort"
+	"strings"
+)
+
+// goSyntax is the %#v form of a Go value, with what pointers inside of it
+// point to in place of their addresses, which differ from run to run. What
+// several pointers point to is written once.
+func goSyntax(val interface{}) string {
+	var b strings.Builder
+	writeGoSyntax(&b, reflect.ValueOf(val), make(map[uintptr]bool))
+	return b.String()
+}
+
+func writeGoSyntax(b *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
+	if !v.IsValid() {
+		b.WriteString("<nil>")
+		return
+	}
+	if v.CanInterface() && v.Kind() != reflect.Ptr {
+		if g, ok := v.Interface().(fmt.GoStringer); ok {
+			b.WriteString(g.GoString())
+			return
+		}
+	}
+	typ := v.Type().String()
+	switch v.Kind() {
+	case reflect.Ptr:
+		switch {
+		case v.IsNil():
+			fmt.Fprintf(b, "(%s)(nil)", typ)
+		case seen[v.Pointer()]:
+			fmt.Fprintf(b, "(%s)(...)", typ)
+		default:
+			seen[v.Pointer()] = true
+			b.WriteString("&")
+			writeGoSyntax(b, v.Elem(), seen)
+		}
+	case reflect.Interface:
+		if v.IsNil() {
+			fmt.Fprintf(b, "%s(nil)", typ)
+		} else {
+			writeGoSyntax(b, v.Elem(), seen)
+		}
+	case reflect.Struct:
+		b.WriteString(typ + "{")
+		for i := 0; i < v.NumField(); i++ {
+			if i > 0 {
+				b.WriteString(", ")
+			}
+			b.WriteString(v.Type().Field(i).Name + ":")
+			writeGoSyntax(b, v.Field(i), seen)
+		}
+		b.WriteString("}")
+	case reflect.Slice, reflect.Array:
+		if v.Kind() == reflect.Slice {
+			if v.IsNil() {
+				fmt.Fprintf(b, "%s(nil)", typ)
+				return
+			}
+			if v.Type().Elem().Kind() == reflect.Uint8 {
+				fmt.Fprintf(b, "%#v", v)
+				return
+			}
+			if v.Len() > 0 {
+				// a slice may hold itself
+				if seen[v.Pointer()] {
+					fmt.Fprintf(b, "%s{...}", typ)
+					return
+				}
+				seen[v.Pointer()] = true
+				defer delete(seen, v.Pointer())
+			}
+		}
+		b.WriteString(typ + "{")
+		for i := 0; i < v.Len(); i++ {
+			if i > 0 {
+				b.WriteString(", ")
+			}
+			writeGoSyntax(b, v.Index(i), seen)
+		}
+		b.WriteString("}")
+	case reflect.Map:
+		if v.IsNil() {
+			fmt.Fprintf(b, "%s(nil)", typ)
+			return
+		}
+		if seen[v.Pointer()] {
+			fmt.Fprintf(b, "%s{...}", typ)
+			return
+		}
+		seen[v.Pointer()] = true
+		defer delete(seen, v.Pointer())
+		var pairs []string
+		for it := v.MapRange(); it.Next(); {
+			var p strings.Builder
+			writeGoSyntax(&p, it.Key(), seen)
+			p.WriteString(":")
+			writeGoSyntax(&p, it.Value(), seen)
+			pairs = append(pairs, p.String())
+		}
+		sort.Strings(pairs)
+		b.WriteString(typ + "{" + strings.Join(pairs, ", ") + "}")
+	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		fmt.Fprintf(b, "(%s)(...)", typ)
+	default:
+		fmt.Fprintf(b, "%#v", v)
+	}
+}
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 637e872..87200d5 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -202,6 +202,22 @@ func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
 	return r.Registry[name]
 }
 
+// recordTypeOf finds the record type whose factory makes values of the Go
+// type typ, a pointer to a struct. When several do, it is the one that was
+// registered first. It is nil when there is none.
+func recordTypeOf(typ reflect.Type) *RegisteredType {
+	if typ == nil || typ.Kind() != reflect.Ptr || typ.Elem().Kind() != reflect.Struct {
+		return nil
+	}
+	for _, name := range ListRegisteredTypes {
+		rt := GoStructRegistry.Registry[name]
+		if rt != nil && rt.hasShadowStruct && rt.TypeCache == typ {
+			return rt
+		}
+	}
+	return nil
+}
+
 // wait to AddFunction until EnvAvail()
 func (r *GoStructRegistryType) LazyAddFunction(name string, function ZlispUserFunction) {
 	if r.LazyFunc == nil {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e66fccc..bf3c539 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -244,6 +244,17 @@ func (hash *SexpHash) valueOf(key Sexp) (Sexp, bool) {
 	return SexpNull, false
 }
 
+// pairs lists the pairs of the hash in the order of its keys.
+func (hash *SexpHash) pairs() []*SexpPair {
+	r := make([]*SexpPair, 0, len(hash.KeyOrder))
+	for _, key := range hash.KeyOrder {
+		if val, found := hash.valueOf(key); found {
+			r = append(r, &SexpPair{Head: key, Tail: val})
+		}
+	}
+	return r
+}
+
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
 	hashval, err := HashExpression(env, key)
 	if err != nil {
@@ -489,7 +500,7 @@ func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
-		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
+		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%v'", keyOrd, keyOrd.SexpString(nil))
 	}
 	for _, key := range keys.Val {
 		hash.KeyOrder = append(hash.KeyOrder, key)
@@ -524,7 +535,7 @@ func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%#v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%v", args[0], args[0].SexpString(nil))
 	}
 	if h.NumMethod != -1 {
 		// use cached results
@@ -644,7 +655,7 @@ func GoFieldListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], args[0].SexpString(nil))
 	}
 
 	if !h.GoStructFactory.hasShadowStruct {
@@ -723,30 +734,18 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 
 	// check for one of our registered structs
 
-	// go through the type registry upfront
-	for hashName, factory := range GoStructRegistry.Registry {
-		//P("fillHashHelper is trying hashName='%s'", hashName)
-		st, err := factory.Factory(env, nil)
+	if rt := recordTypeOf(reflect.TypeOf(r)); rt != nil {
+		retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
 		if err != nil {
-			return SexpNull, err
+			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+				rt.RegisteredName, err)
 		}
-		if reflect.ValueOf(st).Type() == reflect.ValueOf(r).Type() {
-			//Q("we have a registered struct match for st=%T and r=%T", st, r)
-			retHash, err := MakeHash([]Sexp{}, hashName, env)
-			if err != nil {
-				return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-					hashName, err)
-			}
 
-			err = retHash.FillHashFromShadow(env, r)
-			if err != nil {
-				return SexpNull, err
-			}
-			//Q("retHash = %#v\n", retHash)
-			return retHash, nil // or return sx?
-		} else {
-			//Q("fillHashHelper: no match for st=%T and r=%T", st, r)
+		err = retHash.FillHashFromShadow(env, r)
+		if err != nil {
+			return SexpNull, err
 		}
+		return retHash, nil
 	}
 
 	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 75f15b9..ec0f5c8 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -473,9 +473,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp) (s Sexp, err err
 		nm := fmt.Sprintf("%T", val)
 		rt := GoStructRegistry.Lookup(nm)
 		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
+			fmt.Printf("unknown type '%s' in type switch.\n", nm)
 		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
+			fmt.Printf("TODO: known struct '%s' in GoToSexp(). TODO: make a record for it.\n", nm)
 		}
 		return SexpNull, nil
 	}
@@ -651,16 +651,14 @@ func sexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}, depth int)
 		}
 
 		m := make(map[string]interface{})
-		for _, arr := range e.Map {
-			for _, pair := range arr {
-				key := sexpToGo(pair.Head, env, dedup, depth+1)
-				val := sexpToGo(pair.Tail, env, dedup, depth+1)
-				keyString, isStringKey := key.(string)
-				if !isStringKey {
-					panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
-				}
-				m[keyString] = val
+		for _, pair := range e.pairs() {
+			key := sexpToGo(pair.Head, env, dedup, depth+1)
+			val := sexpToGo(pair.Tail, env, dedup, depth+1)
+			keyString, isStringKey := key.(string)
+			if !isStringKey {
+				panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
 			}
+			m[keyString] = val
 		}
 		m["Atype"] = e.TypeName
 		ko := make([]interface{}, 0)
@@ -683,7 +681,7 @@ func sexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}, depth int)
 	case *SexpBool:
 		return e.Val
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", e, e.SexpString(nil))
 	}
 	return nil
 }
@@ -702,7 +700,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	case *SexpReflect:
 		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see SexpReflect '%[1]T'", asHash.Val.Interface())
 	default:
-		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%[1]T'/val=%#[1]v", arg)
+		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%T'/val=%v", arg, arg.SexpString(nil))
 	case *SexpHash:
 		tn := asHash.TypeName
 		//vv("ToGo: SexpHash for tn='%s', shadowSet='%v'", tn, asHash.ShadowSet)
@@ -743,7 +741,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: fmt.Sprintf("%#v", newStruct)}, nil
+		return &SexpStr{S: goSyntax(newStruct)}, nil
 	}
 
 }
@@ -958,42 +956,38 @@ func SexpToGoStructs(
 			switch target.(type) {
 			case *map[string]string:
 				m := make(map[string]string)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						vals, isstr := val.(string)
-						if !isstr {
-							panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
-						}
-						m[keys] = vals
+				for _, pair := range src.pairs() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keys, isstr := key.(string)
+					if !isstr {
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
 					}
+					vals, isstr := val.(string)
+					if !isstr {
+						panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
+					}
+					m[keys] = vals
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
 				return target, nil
 
 			case *map[string]float64:
 				m := make(map[string]float64)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						switch x := val.(type) {
-						case float64:
-							m[keys] = x
-						case int64:
-							m[keys] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
+				for _, pair := range src.pairs() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keys, isstr := key.(string)
+					if !isstr {
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+					}
+					switch x := val.(type) {
+					case float64:
+						m[keys] = x
+					case int64:
+						m[keys] = float64(x)
+					default:
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -1003,22 +997,20 @@ func SexpToGoStructs(
 				//P("target is a map[int64]float64")
 
 				m := make(map[int64]float64)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keyint64, isint64Key := key.(int64)
-						if !isint64Key {
-							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
-						}
-						switch x := val.(type) {
-						case float64:
-							m[keyint64] = x
-						case int64:
-							m[keyint64] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
+				for _, pair := range src.pairs() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keyint64, isint64Key := key.(int64)
+					if !isint64Key {
+						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
+					}
+					switch x := val.(type) {
+					case float64:
+						m[keyint64] = x
+					case int64:
+						m[keyint64] = float64(x)
+					default:
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -1035,26 +1027,24 @@ func SexpToGoStructs(
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.Map {
-						for _, pair := range arr {
-							key := SexpToGo(pair.Head, env, dedup)
-							//val := SexpToGo(pair.Tail, env, dedup)
-							keys, isstr := key.(string)
-							if !isstr {
-								panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-							}
-							//vv("keys = '%v'", keys)
-
-							goElem := reflect.New(mapElemTyp) // returns pointer to new value
-							//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
-							if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
-								return nil, err
-							}
-							//P(" goElem = %#v after filling i=%d", goElem, i)
-							//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-							pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
-							//vv("pmap after set is now %#v", pmap)
+					for _, pair := range src.pairs() {
+						key := SexpToGo(pair.Head, env, dedup)
+						//val := SexpToGo(pair.Tail, env, dedup)
+						keys, isstr := key.(string)
+						if !isstr {
+							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+						}
+						//vv("keys = '%v'", keys)
+
+						goElem := reflect.New(mapElemTyp) // returns pointer to new value
+						//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
+						if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+							return nil, err
 						}
+						//P(" goElem = %#v after filling i=%d", goElem, i)
+						//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
+						pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
+						//vv("pmap after set is now %#v", pmap)
 					}
 					targVa.Elem().Set(pmap)
 					//vv("target returning = '%#v'", target)
@@ -1062,7 +1052,7 @@ func SexpToGoStructs(
 				}
 				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
 			}
-			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind))
+			panic(fmt.Sprintf("not done here yet, target has type = '%T'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
 			// but instead... what? just a map[string]interface{}
@@ -1154,70 +1144,68 @@ func SexpToGoStructs(
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
 		//maploop:
-		for _, arr := range src.Map {
-			for _, pair := range arr {
-				recordKey = ""
-				switch k := pair.Head.(type) {
-				case *SexpStr:
-					recordKey = k.S
-				case *SexpSymbol:
-					recordKey = k.name
-				default:
-					fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
-					continue
-				}
-				// We've got to match pair.Head to
-				// one of the struct fields: we'll use
-				// the json tags for that. Or their
-				// full exact name if they didn't have
-				// a json tag.
-				//vv(" JsonTagMap = %#v", src.JsonTagMap)
-				det, found := src.JsonTagMap[recordKey]
-				//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
+		for _, pair := range src.pairs() {
+			recordKey = ""
+			switch k := pair.Head.(type) {
+			case *SexpStr:
+				recordKey = k.S
+			case *SexpSymbol:
+				recordKey = k.name
+			default:
+				fmt.Printf(" skipping field '%v' which we don't know how to lookup.", pair.Head.SexpString(nil))
+				panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%v'", pair.Head.SexpString(nil)))
+				continue
+			}
+			// We've got to match pair.Head to
+			// one of the struct fields: we'll use
+			// the json tags for that. Or their
+			// full exact name if they didn't have
+			// a json tag.
+			//vv(" JsonTagMap = %#v", src.JsonTagMap)
+			det, found := src.JsonTagMap[recordKey]
+			//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
+			if !found {
+				// try once more, with uppercased version
+				// of record key
+				upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
+				det, found = src.JsonTagMap[upperKey]
+				//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 				if !found {
-					// try once more, with uppercased version
-					// of record key
-					upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
-					det, found = src.JsonTagMap[upperKey]
-					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
-					if !found {
-						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. src.JstonTagMap: '%#v'", recordKey, src.JsonTagMap))
-						continue
-					}
-				}
-				//vv(" ****  recordKey = '%s'\n", recordKey)
-				//vv(" we found in pair.Tail: %T !", pair.Tail)
-
-				dref := targVa.Elem()
-				//vv(" deref = %#v / type %T", dref, dref)
-
-				// fld should hold our target when
-				// done recursing through any embedded structs.
-				// TODO: handle embedded pointers to structs too.
-				var fld reflect.Value
-				//vv(" we have an det.EmbedPath of '%#v'", det.EmbedPath)
-				// drill down to the actual target
-				fld = dref
-				for _, p := range det.EmbedPath {
-					//vv("about to call fld.Field(%d) on fld = '%#v'/type=%T", p.ChildFieldNum, fld, fld)
-					fld = fld.Field(p.ChildFieldNum)
-					//vv(" dropping down i=%d through EmbedPath at '%s', fld = %#v ", i, p.ChildName, fld)
+					fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
+					panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. Known fields: '%v'", recordKey, sortedKeys(src.JsonTagMap)))
+					continue
 				}
-				//vv(" fld = %#v ", fld)
+			}
+			//vv(" ****  recordKey = '%s'\n", recordKey)
+			//vv(" we found in pair.Tail: %T !", pair.Tail)
+
+			dref := targVa.Elem()
+			//vv(" deref = %#v / type %T", dref, dref)
+
+			// fld should hold our target when
+			// done recursing through any embedded structs.
+			// TODO: handle embedded pointers to structs too.
+			var fld reflect.Value
+			//vv(" we have an det.EmbedPath of '%#v'", det.EmbedPath)
+			// drill down to the actual target
+			fld = dref
+			for _, p := range det.EmbedPath {
+				//vv("about to call fld.Field(%d) on fld = '%#v'/type=%T", p.ChildFieldNum, fld, fld)
+				fld = fld.Field(p.ChildFieldNum)
+				//vv(" dropping down i=%d through EmbedPath at '%s', fld = %#v ", i, p.ChildName, fld)
+			}
+			//vv(" fld = %#v ", fld)
 
-				// INVAR: fld points at our target to fill
-				ptrFld := fld.Addr()
-				tmp, needed := unexportHelper(&ptrFld, &fld)
-				if needed {
-					ptrFld = *tmp
-				}
-				_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
-				if err != nil {
-					panic(err)
-					//return nil, err
-				}
+			// INVAR: fld points at our target to fill
+			ptrFld := fld.Addr()
+			tmp, needed := unexportHelper(&ptrFld, &fld)
+			if needed {
+				ptrFld = *tmp
+			}
+			_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
+			if err != nil {
+				panic(err)
+				//return nil, err
 			}
 		}
 	case *SexpPair:
@@ -1240,7 +1228,7 @@ func SexpToGoStructs(
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", src, src)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", src, src.SexpString(nil))
 	}
 	return target, nil
 }
-- 
2.43.0


From 92ae89accb83146dae468103d234c4223cda421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 41/48] fix: error texts and printed scopes held addresses and
 times of day

---
 zygo/bsave.go       |  4 ++--
 zygo/builders.go    |  2 +-
 zygo/environment.go |  6 +++---
 zygo/functions.go   | 18 ++++++++++--------
 zygo/pratt.go       |  6 +++---
 zygo/rawutils.go    |  6 +++---
 zygo/repl.go        |  2 +-
 zygo/scopes.go      |  2 +-
 zygo/slurp.go       |  4 ++--
 zygo/source.go      |  2 +-
 zygo/stack.go       |  2 +-
 zygo/system.go      |  6 +++---
 zygo/typeutils.go   |  3 +--
 zygo/vm.go          |  2 +-
 14 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/zygo/bsave.go b/zygo/bsave.go
index a50af2c..6556101 100644
--- a/zygo/bsave.go
+++ b/zygo/bsave.go
@@ -55,7 +55,7 @@ func WriteShadowGreenpackToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1])
+			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1].SexpString(nil))
 		}
 
 		// don't overwrite existing file
@@ -111,7 +111,7 @@ func ReadGreenpackFromFileFunction(env *Zlisp, name string, args []Sexp) (Sexp,
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0])
+		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0].SexpString(nil))
 	}
 
 	if !FileExists(string(fn)) {
diff --git a/zygo/builders.go b/zygo/builders.go
index f2389fd..3fff35c 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -631,7 +631,7 @@ func baseConstruct(env *Zlisp, f *RegisteredType, nargs int) (Sexp, error) {
 		}
 		return mybool, nil
 	default:
-		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %#v/type=%T", arg, arg)
+		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %v/type=%T", f.RegisteredName, arg)
 	}
 	//return SexpNull, fmt.Errorf("unhandled no-arg case in baseConstruct, v has type=%T", v)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 19be104..c808531 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -566,7 +566,7 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	if funcobj == nil {
 		return fmt.Errorf("not a function on top of datastack: <nil>")
 	}
-	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("not a function on top of datastack: '%T/%v'", funcobj, funcobj.SexpString(nil))
 }
 
 // prepareFrame checks the arguments on the datastack and arranges them as the
@@ -801,7 +801,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	env.parser.NewInput(bufio.NewReader(in))
 	exp, err = env.parser.ParseTokens()
 	if err != nil {
-		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
+		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err)\n", env.parser.Linenum(), err)
 	}
 
 	in.Close()
@@ -813,7 +813,7 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 	env.parser.ResetAddNewInput(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
+		return fmt.Errorf("Error on line %d: %v (LoadStream err)\n", env.parser.Linenum(), err)
 	}
 	return env.LoadExpressions(expressions)
 }
diff --git a/zygo/functions.go b/zygo/functions.go
index 4333de5..61134c8 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -272,7 +272,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			case *SexpInt:
 				i = int(j.Val)
 			default:
-				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%#v'/type = %T", j, j)
+				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%v'/type = %T", j.SexpString(nil), j)
 			}
 		}
 
@@ -487,7 +487,7 @@ func LenFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		n, err := ListLen(t)
 		return &SexpInt{Val: int64(n)}, err
 	default:
-		P("in LenFunction with args[0] of type %T", t)
+		Q("in LenFunction with args[0] of type %T", t)
 	}
 	return &SexpInt{}, fmt.Errorf("argument must be string, list, hash, or array")
 }
@@ -843,8 +843,10 @@ func PrintFunction(name string) ZlispUserFunction {
 						ar[i] = x.S
 					case *SexpTime:
 						ar[i] = x.Tm.In(NYC)
+					case *SexpUint64:
+						ar[i] = x.Val
 					default:
-						ar[i] = args[i+1]
+						ar[i] = args[i+1].SexpString(nil)
 					}
 				}
 				if name == "printf" {
@@ -936,7 +938,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpFunction:
 		fun = e
 	default:
-		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%#v'", e, e)
+		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%v'", e, e.SexpString(nil))
 	}
 
 	switch e := args[1].(type) {
@@ -946,7 +948,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		x, err := MapList(env, fun, e)
 		return x, err
 	default:
-		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %#v", e, e)
+		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %v", e, e.SexpString(nil))
 	}
 }
 
@@ -1311,8 +1313,8 @@ func threadingHelper(env *Zlisp, hash *SexpHash, args []Sexp) (Sexp, error) {
 		h, isHash := field.(*SexpHash)
 		if !isHash {
 			return SexpNull, fmt.Errorf("request for field '%s' was "+
-				"not on a hash or defmap; instead type %T with value '%#v'",
-				args[1].SexpString(nil), field, field)
+				"not on a hash or defmap; instead type %T with value '%v'",
+				args[1].SexpString(nil), field, field.SexpString(nil))
 		}
 		return threadingHelper(env, h, args[1:])
 	}
@@ -1871,7 +1873,7 @@ func DotFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 2 {
 		return SexpNull, WrongNargs
 	}
-	P("in DotFunction(), name='%v', args[0] = '%v', args[1]= '%v'",
+	Q("in DotFunction(), name='%v', args[0] = '%v', args[1]= '%v'",
 		name,
 		args[0].SexpString(nil),
 		args[1].SexpString(nil))
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 8aff64e..068d854 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -742,12 +742,12 @@ func InfixArgsToArray(name string, args []Sexp) (*SexpArray, bool, error) {
 				return nil, false, fmt.Errorf("infixExpand expects (infix []) as its argument; instead we saw '%T'", v.Tail)
 			}
 		}
-		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%v'", name, args[0].SexpString(nil))
 	case *SexpHash:
 		// an empty basic block {} that turned into an empty hash.
 		return nil, true, nil
 	default:
-		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%v'", name, args[0].SexpString(nil))
 	}
 	return arr, false, nil
 }
@@ -1003,7 +1003,7 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 			//Q("Expression sees an SexpPair")
 			// leaving curOp nil seems to work just fine here.
 		default:
-			panic(fmt.Errorf("how to handle cnode type = %#v", cnode))
+			panic(fmt.Errorf("how to handle cnode type = %T", cnode))
 		}
 		//Q("curOp = %#v", curOp)
 
diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index 9adc714..c42a332 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -180,11 +180,11 @@ func Raw64Builder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				case *SexpStr:
 					joined += extractRawHelper(tt.S)
 				default:
-					vv("don't know what to do with rhs of symbol %T/val=%v", rhs, rhs)
+					return SexpNull, fmt.Errorf("raw64 takes only string arguments. We see %T: '%v'", rhs, rhs.SexpString(nil))
 				}
 
 			default:
-				vv("don't know what to do with %T/val=%v", x, x)
+				return SexpNull, fmt.Errorf("raw64 takes only string arguments. We see %T: '%v'", x, x.SexpString(nil))
 			}
 		}
 	}
@@ -218,7 +218,7 @@ func MakeRaw(args []Sexp) (*SexpRaw, error) {
 			return e, nil
 		default:
 			return &SexpRaw{},
-				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, e)
+				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, e.SexpString(nil))
 		}
 	}
 	return &SexpRaw{Val: raw}, nil
diff --git a/zygo/repl.go b/zygo/repl.go
index 1179426..cbaeb38 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -132,7 +132,7 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 			env.parser.NewInput(bytes.NewBuffer([]byte(nextline + "\n")))
 			continue
 		}
-		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %#v)\n", env.parser.Linenum(), err, err)
+		return "", nil, fmt.Errorf("Error on line %d: %v (repl err)\n", env.parser.Linenum(), err)
 	}
 	return strings.Join(lines, "\n"), xs, err
 }
diff --git a/zygo/scopes.go b/zygo/scopes.go
index ccbbca5..626d7fa 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -318,7 +318,7 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/slurp.go b/zygo/slurp.go
index 322af1c..2f7c534 100644
--- a/zygo/slurp.go
+++ b/zygo/slurp.go
@@ -18,7 +18,7 @@ func SlurpfileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0])
+		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0].SexpString(nil))
 	}
 
 	if !FileExists(string(fn)) {
@@ -75,7 +75,7 @@ func WriteToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1])
+			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1].SexpString(nil))
 		}
 
 		if name == "write" || name == "writef" || name == "save" {
diff --git a/zygo/source.go b/zygo/source.go
index e804547..612c16e 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -151,7 +151,7 @@ func (env *Zlisp) sourceItem(item Sexp) error {
 		}
 
 	default:
-		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item)
+		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item.SexpString(nil))
 	}
 
 	return nil
diff --git a/zygo/stack.go b/zygo/stack.go
index 314fc35..c5fe19f 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -161,7 +161,7 @@ func (stack *Stack) IsStackElem() {}
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return fmt.Sprintf("already-saw Stack '%s' in Show", stack.Name), nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..faf07a7 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -45,7 +45,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	flat, err := flattenToWordsHelper(args)
 	if err != nil {
-		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
+		return SexpNull, fmt.Errorf("flatten failed with error '%s'", err)
 	}
 	if len(flat) == 0 {
 		return SexpNull, WrongNargs
@@ -99,7 +99,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpPair:
 			carry, err := ListToArray(c)
 			if err != nil {
-				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
+				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%v'", err, c, c.SexpString(nil))
 			}
 			moreWords, err := flattenToWordsHelper(carry)
 			if err != nil {
@@ -107,7 +107,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 			}
 			stringArgs = append(stringArgs, moreWords...)
 		default:
-			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%#v'", c, c)
+			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%v'", c, c.SexpString(nil))
 		}
 	} // end i over args
 	// INVAR: stringArgs has our flattened list.
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..4014132 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -191,7 +191,6 @@ func TypeOf(expr Sexp) *SexpStr {
 		if kind == reflect.Ptr {
 			v = reflect.Value(e.Val).Elem().Type().Name()
 		} else {
-			P("kind = %v", kind)
 			v = "reflect.Value"
 		}
 	case *Stack:
@@ -203,7 +202,7 @@ func TypeOf(expr Sexp) *SexpStr {
 	case *SexpDur:
 		v = "time.Duration"
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", e, e.SexpString(nil))
 	}
 	return &SexpStr{S: v}
 }
diff --git a/zygo/vm.go b/zygo/vm.go
index 40f4b56..a4174f4 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -423,7 +423,7 @@ func (d DispatchInstr) Execute(env *Zlisp) error {
 		_, err := env.CallUserFunction(sxArrayOf, funcobj.SexpString(nil), d.nargs+1)
 		return err
 	}
-	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%v'", funcobj, funcobj.SexpString(nil))
 }
 
 type ReturnInstr struct {
-- 
2.43.0


From 59368a7194651e379df6bcd14b9671f348e2791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 42/48] fix: Go structs came back from methods with wrong,
 missing or nil fields

---
 zygo/callgo.go    |  24 ++---
 zygo/hashutils.go | 243 ++++++++++++++++++++++++++++++----------------
 2 files changed, 166 insertions(+), 101 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index 9af1b6f..5044b47 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -137,6 +137,14 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		r := make([]Sexp, 0)
 		for i := 0; i < nout; i++ {
 			f := out[i].Interface()
+			if recordTypeOf(reflect.TypeOf(f)) != nil || (out[i].Kind() == reflect.Struct && recordTypeOf(reflect.PtrTo(out[i].Type())) != nil) {
+				rec, err := goValueToSexp(out[i], env, nil, 0)
+				if err != nil {
+					return SexpNull, err
+				}
+				r = append(r, rec)
+				continue
+			}
 			switch e := f.(type) {
 			case nil:
 				r = append(r, SexpNull)
@@ -155,21 +163,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			case rune:
 				r = append(r, &SexpChar{Val: e})
 			default:
-				rt := recordTypeOf(out[i].Type())
-				if rt == nil {
-					r = append(r, &SexpReflect{Val: out[i]})
-					continue
-				}
-				retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
-				if err != nil {
-					return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-						rt.RegisteredName, err)
-				}
-				err = retHash.FillHashFromShadow(env, f)
-				if err != nil {
-					return SexpNull, err
-				}
-				r = append(r, retHash)
+				r = append(r, &SexpReflect{Val: out[i]})
 			}
 		}
 		return env.NewSexpArray(r), nil
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index bf3c539..6aeacd7 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,8 +5,11 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
+	"time"
+	"unsafe"
 )
 
 var NoAttachedGoStruct = fmt.Errorf("hash has no attach Go struct")
@@ -627,12 +630,14 @@ func fillJsonMap(json2ptr *map[string]*HashFieldDet, fx *[]Sexp, fl *[]reflect.S
 			FieldName:    fld.Name,
 			FieldJsonTag: fld.Name, // fallback. changed below if json tag available.
 		}
-		jsonTag := fld.Tag.Get("json")
-		if jsonTag != "" {
+		jsonTag, _, _ := strings.Cut(fld.Tag.Get("json"), ",")
+		if jsonTag != "" && jsonTag != "-" {
 			det.FieldJsonTag = jsonTag
-			(*json2ptr)[jsonTag] = det
-		} else {
-			(*json2ptr)[fld.Name] = det
+		}
+		// of fields by the same name, the one embedded least deeply has it
+		other, taken := (*json2ptr)[det.FieldJsonTag]
+		if !taken || len(other.EmbedPath) > len(embedPath) {
+			(*json2ptr)[det.FieldJsonTag] = det
 		}
 		*detOrder = append(*detOrder, det)
 
@@ -642,13 +647,19 @@ func fillJsonMap(json2ptr *map[string]*HashFieldDet, fx *[]Sexp, fl *[]reflect.S
 		epath[len(embedPath)] = EmbedPath{ChildName: fld.Name, ChildFieldNum: i}
 		det.EmbedPath = epath
 
-		if fld.Anonymous {
+		if det.promotes() {
 			// track how to get at embedded struct fields
 			fillJsonMap(json2ptr, fx, fl, det.EmbedPath, fld.Type, detOrder)
 		}
 	}
 }
 
+// promotes says that the field is an embedded struct, whose fields are fields
+// of the struct it is embedded in.
+func (det *HashFieldDet) promotes() bool {
+	return det.StructField.Anonymous && det.FieldType.Kind() == reflect.Struct
+}
+
 func GoFieldListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
@@ -702,22 +713,34 @@ func GenericHpairFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
-	//Q("in FillHashFromShadow, with src = %#v", src)
-	h.GoShadowStruct = src
+	return h.fillFromShadow(env, reflect.ValueOf(src), nil, 0)
+}
+
+func (h *SexpHash) fillFromShadow(env *Zlisp, ptr reflect.Value, seen map[interface{}]*SexpHash, depth int) error {
+	h.GoShadowStruct = ptr.Interface()
+	h.GoShadowStructVa = ptr
 	h.ShadowSet = true
-	vaSrc := reflect.ValueOf(src).Elem()
 
-	for i, det := range h.DetOrder {
-		_ = i
-		//Q("\n looking at det for %s; %v-th entry in h.DetOrder\n", det.FieldJsonTag, i)
-		goField := vaSrc.Field(det.FieldNum)
-		val, err := fillHashHelper(goField.Interface(), 0, env, false)
+	for _, det := range h.DetOrder {
+		if det.promotes() || h.JsonTagMap[det.FieldJsonTag] != det {
+			continue // the fields inside of it follow; or another one has the name
+		}
+		fld := ptr.Elem()
+		for _, p := range det.EmbedPath {
+			fld = fld.Field(p.ChildFieldNum)
+		}
+		hidden := !fld.CanInterface()
+		if hidden {
+			fld = reflect.NewAt(fld.Type(), unsafe.Pointer(fld.UnsafeAddr())).Elem()
+		}
+		val, err := goValueToSexp(fld, env, seen, depth+1)
 		if err != nil {
-			//Q("got err='%s' back from fillHashhelper", err)
 			return fmt.Errorf("error on GoToSexp for field '%s': '%s'",
 				det.FieldJsonTag, err)
 		}
-		//Q("got err==nil back from fillHashhelper; key=%#v, val=%#v", det.FieldJsonTag, val)
+		if _, isReflect := val.(*SexpReflect); isReflect && hidden {
+			continue // such as a mutex
+		}
 		key := env.MakeSymbol(det.FieldJsonTag)
 		err = h.HashSet(key, val)
 		if err != nil {
@@ -727,88 +750,136 @@ func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
 	return nil
 }
 
-// translate Go -> Sexp, assuming hard *T{} struct pointers
-// for all Go structs
-func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp, error) {
-	//Q("fillHashHelper() at depth %d, decoded type is %T\n", depth, r)
+// goValueToSexp makes a value of the script from a Go value, the reverse of
+// SexpToGoStructs: pointers to registered structs become records, and what
+// the script has no value for is kept as a SexpReflect. seen has the records
+// already made.
+func goValueToSexp(v reflect.Value, env *Zlisp, seen map[interface{}]*SexpHash, depth int) (Sexp, error) {
+	if depth > maxDataDepth {
+		return SexpNull, ErrNestedTooDeeply
+	}
+	if seen == nil {
+		seen = make(map[interface{}]*SexpHash)
+	}
+	if !v.IsValid() {
+		return SexpNull, nil
+	}
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
+		if v.IsNil() && v.Type() != reflect.TypeOf([]byte(nil)) {
+			return SexpNull, nil
+		}
+	}
+	switch val := v.Interface().(type) {
+	case Sexp:
+		return val, nil
+	case time.Time:
+		// not translated (Test018ReflectCallOnGoMethodsComplexReturnType)
+		return SexpNull, nil
+	case time.Duration:
+		return &SexpDur{Dur: val}, nil
+	case map[string]interface{}:
+		return goMapToHash(val, env, func(ele interface{}) (Sexp, error) {
+			return decodeGoToSexpHelper(ele, depth+1, env)
+		})
+	}
 
-	// check for one of our registered structs
+	switch v.Kind() {
+	case reflect.Interface:
+		return goValueToSexp(v.Elem(), env, seen, depth+1)
 
-	if rt := recordTypeOf(reflect.TypeOf(r)); rt != nil {
-		retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
-		if err != nil {
-			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-				rt.RegisteredName, err)
+	case reflect.Ptr:
+		rt := recordTypeOf(v.Type())
+		if rt == nil {
+			break
 		}
-
-		err = retHash.FillHashFromShadow(env, r)
+		if already, found := seen[v.Interface()]; found {
+			return already, nil
+		}
+		hash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
 		if err != nil {
+			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s", rt.RegisteredName, err)
+		}
+		seen[v.Interface()] = hash
+		if err := hash.fillFromShadow(env, v, seen, depth); err != nil {
 			return SexpNull, err
 		}
-		return retHash, nil
-	}
-
-	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
+		return hash, nil
 
-	// now handle basic non struct types:
-	switch val := r.(type) {
-	case string:
-		//Q("depth %d found string case: val = %#v\n", depth, val)
-		if preferSym {
-			return env.MakeSymbol(val), nil
+	case reflect.Struct:
+		if recordTypeOf(reflect.PtrTo(v.Type())) == nil {
+			break
 		}
-		return &SexpStr{S: val}, nil
-
-	case int:
-		//Q("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case int32:
-		//Q("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case int64:
-		//Q("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case float64:
-		//Q("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}, nil
-
-	case []interface{}:
-		//Q("depth %d found []interface{} case: val = %#v\n", depth, val)
-
-		slice := []Sexp{}
-		for i := range val {
-			sx2, err := fillHashHelper(val[i], depth+1, env, preferSym)
+		ptr := reflect.New(v.Type())
+		if v.CanAddr() {
+			ptr = v.Addr()
+		} else {
+			ptr.Elem().Set(v)
+		}
+		return goValueToSexp(ptr, env, seen, depth+1)
+
+	case reflect.Bool:
+		return &SexpBool{Val: v.Bool()}, nil
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &SexpInt{Val: v.Int()}, nil
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		return &SexpInt{Val: int64(v.Uint())}, nil
+	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
+		return &SexpUint64{Val: v.Uint()}, nil
+	case reflect.Float32, reflect.Float64:
+		return &SexpFloat{Val: v.Float()}, nil
+	case reflect.String:
+		return &SexpStr{S: v.String()}, nil
+
+	case reflect.Slice, reflect.Array:
+		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
+			return &SexpRaw{Val: v.Bytes()}, nil
+		}
+		elems := make([]Sexp, v.Len())
+		for i := range elems {
+			ele, err := goValueToSexp(v.Index(i), env, seen, depth+1)
 			if err != nil {
-				return SexpNull, fmt.Errorf("error in fillHashHelper() call: '%s'", err)
+				return SexpNull, err
 			}
-			slice = append(slice, sx2)
+			elems[i] = ele
 		}
-		return &SexpArray{Val: slice, Env: env}, nil
-
-	case map[string]interface{}:
-		return goMapToHash(val, env, func(ele interface{}) (Sexp, error) {
-			return decodeGoToSexpHelper(ele, depth+1, env)
-		})
-
-	case []byte:
-		//Q("depth %d found []byte case: val = %#v\n", depth, val)
-
-		return &SexpRaw{Val: val}, nil
-
-	case nil:
-		return SexpNull, nil
-
-	case bool:
-		return &SexpBool{Val: val}, nil
-
-	default:
-		//Q("unknown type in type switch, val = %#v.  type = %T.\n", val, val)
+		return env.NewSexpArray(elems), nil
+
+	case reflect.Map:
+		keys := v.MapKeys()
+		switch v.Type().Key().Kind() {
+		case reflect.String:
+			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			sort.Slice(keys, func(i, j int) bool { return keys[i].Int() < keys[j].Int() })
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			sort.Slice(keys, func(i, j int) bool { return keys[i].Uint() < keys[j].Uint() })
+		default:
+			return &SexpReflect{Val: v}, nil
+		}
+		hash, err := MakeHash([]Sexp{}, "hash", env)
+		if err != nil {
+			return SexpNull, err
+		}
+		for _, k := range keys {
+			key, err := goValueToSexp(k, env, seen, depth+1)
+			if err != nil {
+				return SexpNull, err
+			}
+			if str, isStr := key.(*SexpStr); isStr {
+				key = env.MakeSymbol(str.S)
+			}
+			val, err := goValueToSexp(v.MapIndex(k), env, seen, depth+1)
+			if err != nil {
+				return SexpNull, err
+			}
+			if err := hash.HashSet(key, val); err != nil {
+				return SexpNull, err
+			}
+		}
+		return hash, nil
 	}
-
-	return SexpNull, nil
+	return &SexpReflect{Val: v}, nil
 }
 
 func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (Sexp, error) {
-- 
2.43.0


From 9e93e1bfd7cd150c48a63db309a513b0094f943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 43/48] fix: records lost, truncated or misplaced values on the
 way to Go structs

---
 zygo/jsonmsgp.go | 313 +++++++++++++++++++++--------------------------
 1 file changed, 142 insertions(+), 171 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index ec0f5c8..53a9fdc 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -7,6 +7,7 @@ import (
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
 	"math"
+	"math/big"
 	"reflect"
 	"sort"
 	"strconv"
@@ -469,15 +470,10 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp) (s Sexp, err err
 		return &SexpTime{Tm: val}, nil
 
 	default:
-		// do we have a struct for it?
-		nm := fmt.Sprintf("%T", val)
-		rt := GoStructRegistry.Lookup(nm)
-		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch.\n", nm)
-		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(). TODO: make a record for it.\n", nm)
+		if recordTypeOf(reflect.TypeOf(val)) != nil {
+			return goValueToSexp(reflect.ValueOf(val), env, nil, depth+1)
 		}
-		return SexpNull, nil
+		return SexpNull, fmt.Errorf("cannot make a value of the script from a Go %T", val)
 	}
 }
 
@@ -807,35 +803,14 @@ func SexpToGoStructs(
 	if calldepth > maxDataDepth {
 		return nil, ErrNestedTooDeeply
 	}
-	cacheHit := false
 	if dedup == nil {
 		dedup = make(map[*SexpHash]interface{})
 	}
 
-	// elimintes all the decoding!
-	// add top-level primary target to the dedup cache too
-	//topAsHash, topIsHash := sexp.(*SexpHash)
-	//if topIsHash {
-	//dedup[topAsHash] = target
-	//vv("top target dedup caching in SexpToGoStructs '%T' for hash name='%s'", target, topAsHash.TypeName)
-	//}
-
 	var recordKey string
 
 	defer func() {
-		_ = cacheHit
 		recov := recover()
-		if !cacheHit && err == nil && recov == nil {
-			asHash, ok := sexp.(*SexpHash)
-			if ok {
-				// cache it. we might be overwriting with
-				// ourselves, but faster to just write again
-				// than to read and compare then write.
-				dedup[asHash] = result
-				//vv("dedup caching in SexpToGoStructs '%v' for hash name='%s'", result, asHash.TypeName)
-				//vv("dedup caching in SexpToGoStructs '%T' for hash name='%s'", result, asHash.TypeName)
-			}
-		}
 		if recov != nil {
 			if recov == ErrNestedTooDeeply {
 				panic(recov)
@@ -888,170 +863,81 @@ func SexpToGoStructs(
 		if targElemKind != reflect.Array && targElemKind != reflect.Slice {
 			panic(fmt.Errorf("tried to translate from SexpArray into non-array/type: %v", targKind))
 		}
-		// allocate the slice
-		n := len(src.Val)
-		slc := reflect.MakeSlice(targElemTyp, 0, n)
-		//P(" slc starts out as %v/type = %T", slc, slc.Interface())
-		// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-		eTyp := targElemTyp.Elem()
+		// allocate the slice, and fill its elements where they are, so that
+		// what points to them points into the slice.
+		slc := targVa.Elem()
+		if targElemKind == reflect.Slice {
+			slc = reflect.MakeSlice(targElemTyp, len(src.Val), len(src.Val))
+		} else if slc.Len() != len(src.Val) {
+			panic(fmt.Errorf("tried to translate %d array elements into a %v", len(src.Val), targElemTyp))
+		}
 		for i, ele := range src.Val {
-			_ = i
-			goElem := reflect.New(eTyp) // returns pointer to new value
-			//P(" goElem = %#v before filling i=%d", goElem, i)
-			if _, err := SexpToGoStructs(ele, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+			if _, err := SexpToGoStructs(ele, slc.Index(i).Addr().Interface(), env, dedup, calldepth+1, top); err != nil {
 				return nil, err
 			}
-			//P(" goElem = %#v after filling i=%d", goElem, i)
-			//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-			slc = reflect.Append(slc, goElem.Elem())
-			//P(" slc after i=%d is now %v", i, slc)
 		}
-		targVa.Elem().Set(slc)
-		//P(" targVa is now %v", targVa)
+		if targElemKind == reflect.Slice {
+			targVa.Elem().Set(slc)
+		}
 
 	case *SexpInt:
-		// ugorji msgpack will give us int64 not int,
-		// so match that to make the decodings comparable.
-		//vv("*SexpInt code src.Val='%#v'.. targVa.Elem()='%#v'/Type: %T", src.Val, targVa.Elem().Interface(), targVa.Elem().Interface())
-		switch targVa.Elem().Interface().(type) {
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		default:
-			targVa.Elem().SetInt(int64(src.Val))
-		}
+		return target, setGoNumber(targVa.Elem(), new(big.Float).SetInt64(src.Val), src.Val)
+	case *SexpUint64:
+		return target, setGoNumber(targVa.Elem(), new(big.Float).SetUint64(src.Val), src.Val)
 	case *SexpStr:
+		if isEmptyInterface(targElemTyp) {
+			targVa.Elem().Set(reflect.ValueOf(src.S))
+			return target, nil
+		}
 		targVa.Elem().SetString(src.S)
 	case *SexpChar:
+		if targElemKind == reflect.Int32 {
+			targVa.Elem().SetInt(int64(src.Val))
+			return target, nil
+		}
 		targVa.Elem().Set(reflect.ValueOf(rune(src.Val)))
 	case *SexpFloat:
-		switch targVa.Elem().Interface().(type) {
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
+		switch {
+		case targElemKind == reflect.Float32 || targElemKind == reflect.Float64:
+			if targVa.Elem().OverflowFloat(src.Val) {
+				return nil, fmt.Errorf("%v does not fit into a %v", src.Val, targElemTyp)
+			}
+			targVa.Elem().SetFloat(src.Val)
+		case isEmptyInterface(targElemTyp):
+			targVa.Elem().Set(reflect.ValueOf(src.Val))
+		case math.IsNaN(src.Val):
+			return nil, fmt.Errorf("%v does not fit into a %v", src.Val, targElemTyp)
 		default:
-			targVa.Elem().SetFloat(float64(src.Val))
+			return target, setGoNumber(targVa.Elem(), big.NewFloat(src.Val), src.Val)
 		}
 	case *SexpHash:
-		//P(" ==== found SexpHash")
-		// check dedup cache to see if we already generated a Go
-		// struct for this *SexpHash.
-		if alreadyGoStruct, already := dedup[src]; already {
-			//P("SexpToGoStructs dedup cache HIT! woot! alreadyGoStruct = '%v' for src.TypeName='%v'", alreadyGoStruct, src.TypeName)
-			// already did it. Return alreadyGoStruct.
-			cacheHit = true
-			vo := reflect.ValueOf(alreadyGoStruct).Elem()
-			targVa.Elem().Set(vo)
-
-			return target, nil
-		}
-
 		tn := src.TypeName
-		//P("dedup miss on src='%#v', tn='%s', target.(type) == %T", src, tn, target)
 		if tn == "hash" {
-			//  not done with 'hash' translation to Go, targTyp.Elem().Kind()='map', targTyp.Elem()='map[string]float64'
-			//P(fmt.Sprintf("not done with 'hash' translation to Go, targTyp.Elem().Kind()='%v', targTyp.Elem()='%v'", targTyp.Elem().Kind(), targTyp.Elem()))
-			switch target.(type) {
-			case *map[string]string:
-				m := make(map[string]string)
-				for _, pair := range src.pairs() {
-					key := SexpToGo(pair.Head, env, dedup)
-					val := SexpToGo(pair.Tail, env, dedup)
-					keys, isstr := key.(string)
-					if !isstr {
-						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-					}
-					vals, isstr := val.(string)
-					if !isstr {
-						panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
-					}
-					m[keys] = vals
+			if targKind == reflect.Ptr && targElemKind == reflect.Map {
+				// a hash that is used twice is one Go map
+				if pmap, already := dedup[src]; already && reflect.TypeOf(pmap) == targElemTyp {
+					targVa.Elem().Set(reflect.ValueOf(pmap))
+					return target, nil
 				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
-
-			case *map[string]float64:
-				m := make(map[string]float64)
+				pmap := reflect.MakeMap(targElemTyp)
+				dedup[src] = pmap.Interface()
 				for _, pair := range src.pairs() {
-					key := SexpToGo(pair.Head, env, dedup)
-					val := SexpToGo(pair.Tail, env, dedup)
-					keys, isstr := key.(string)
-					if !isstr {
-						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+					key := reflect.New(targElemTyp.Key())
+					if _, err := SexpToGoStructs(pair.Head, key.Interface(), env, dedup, calldepth+1, top); err != nil {
+						return nil, err
 					}
-					switch x := val.(type) {
-					case float64:
-						m[keys] = x
-					case int64:
-						m[keys] = float64(x)
-					default:
-						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-					}
-				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
-
-			case *map[int64]float64:
-				//P("target is a map[int64]float64")
-
-				m := make(map[int64]float64)
-				for _, pair := range src.pairs() {
-					key := SexpToGo(pair.Head, env, dedup)
-					val := SexpToGo(pair.Tail, env, dedup)
-					keyint64, isint64Key := key.(int64)
-					if !isint64Key {
-						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
+					if pmap.MapIndex(key.Elem()).IsValid() {
+						return nil, fmt.Errorf("two keys of the hash are one key '%v' of a %v", key.Elem(), targElemTyp)
 					}
-					switch x := val.(type) {
-					case float64:
-						m[keyint64] = x
-					case int64:
-						m[keyint64] = float64(x)
-					default:
-						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
+					val := reflect.New(targElemTyp.Elem())
+					if _, err := SexpToGoStructs(pair.Tail, val.Interface(), env, dedup, calldepth+1, top); err != nil {
+						return nil, err
 					}
+					pmap.SetMapIndex(key.Elem(), val.Elem())
 				}
-				targVa.Elem().Set(reflect.ValueOf(m))
+				targVa.Elem().Set(pmap)
 				return target, nil
 			}
-			if targKind == reflect.Ptr && targElemKind == reflect.Map {
-				mapKeyTyp := targElemTyp.Key()
-				mapKeyKind := mapKeyTyp.Kind()
-				mapElemTyp := targElemTyp.Elem()
-				mapElemKind := mapElemTyp.Kind()
-				if mapKeyKind == reflect.String && mapElemKind == reflect.Interface {
-					// we can try these, map[string]someInterface
-
-					pmap := reflect.MakeMap(targElemTyp)
-					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
-					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, pair := range src.pairs() {
-						key := SexpToGo(pair.Head, env, dedup)
-						//val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						//vv("keys = '%v'", keys)
-
-						goElem := reflect.New(mapElemTyp) // returns pointer to new value
-						//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
-						if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
-							return nil, err
-						}
-						//P(" goElem = %#v after filling i=%d", goElem, i)
-						//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-						pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
-						//vv("pmap after set is now %#v", pmap)
-					}
-					targVa.Elem().Set(pmap)
-					//vv("target returning = '%#v'", target)
-					return target, nil
-				}
-				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
-			}
 			panic(fmt.Sprintf("not done here yet, target has type = '%T'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
@@ -1059,6 +945,11 @@ func SexpToGoStructs(
 			//return nil, nil
 		}
 
+		// a record that is used twice is one Go struct
+		if made, already := dedup[src].(*goStructOf); already {
+			return target, made.assignTo(targVa.Elem(), tn)
+		}
+
 		switch targTyp.Elem().Kind() {
 		case reflect.Interface:
 			// could be an Interface like Flyer here, that contains the struct.
@@ -1092,7 +983,7 @@ func SexpToGoStructs(
 		// can we avoid making another top by a simple check that we are at depth 0?
 		var err error
 		var checkPtrStruct interface{}
-		if calldepth == 0 {
+		if calldepth == 0 && factory.TypeCache != nil && factory.TypeCache == reflect.TypeOf(top) {
 			checkPtrStruct = top
 		} else {
 			checkPtrStruct, err = factory.Factory(env, src)
@@ -1101,6 +992,9 @@ func SexpToGoStructs(
 			}
 		}
 		factOutputVal := reflect.ValueOf(checkPtrStruct)
+		if !factOutputVal.IsValid() {
+			return nil, fmt.Errorf("type '%s' has no Go struct", tn)
+		}
 		factType := factOutputVal.Type()
 		if targTyp.Kind() == reflect.Ptr && targTyp.Elem().Kind() == reflect.Interface && factType.Implements(targTyp.Elem()) {
 			//Q(" accepting type check: %v implements %v", factType, targTyp)
@@ -1143,6 +1037,9 @@ func SexpToGoStructs(
 
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
+		made := &goStructOf{ptr: targVa, filling: true}
+		dedup[src] = made
+		filled := make(map[*HashFieldDet]bool)
 		//maploop:
 		for _, pair := range src.pairs() {
 			recordKey = ""
@@ -1176,6 +1073,10 @@ func SexpToGoStructs(
 					continue
 				}
 			}
+			if filled[det] {
+				panic(fmt.Errorf("two fields of the record are the field '%s' of the struct", det.FieldName))
+			}
+			filled[det] = true
 			//vv(" ****  recordKey = '%s'\n", recordKey)
 			//vv(" we found in pair.Tail: %T !", pair.Tail)
 
@@ -1208,12 +1109,18 @@ func SexpToGoStructs(
 				//return nil, err
 			}
 		}
+		made.filling = false
 	case *SexpPair:
 		panic("unimplemented")
 		// no conversion
 		//return src
 	case *SexpSymbol:
 		targVa.Elem().SetString(src.name)
+	case *SexpReflect:
+		if !src.Val.IsValid() || !src.Val.Type().AssignableTo(targElemTyp) {
+			return nil, fmt.Errorf("cannot put a %v into a %v", src.Type().RegisteredName, targElemTyp)
+		}
+		targVa.Elem().Set(src.Val)
 	case *SexpFunction:
 		panic("unimplemented: *SexpFunction converstion.")
 		// no conversion done
@@ -1226,13 +1133,77 @@ func SexpToGoStructs(
 	case *SexpDur:
 		targVa.Elem().Set(reflect.ValueOf(src.Dur))
 	case *SexpBool:
+		if targElemKind == reflect.Bool {
+			targVa.Elem().SetBool(src.Val)
+			return target, nil
+		}
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%v'\n", src, src.SexpString(nil))
+		return nil, fmt.Errorf("cannot put a %T into a %v", src, targElemTyp)
 	}
 	return target, nil
 }
 
+// goStructOf is the Go struct that a record has been converted to, or is
+// being converted to.
+type goStructOf struct {
+	ptr     reflect.Value
+	filling bool
+}
+
+func (m *goStructOf) assignTo(dst reflect.Value, typeName string) error {
+	typ := m.ptr.Type()
+	switch {
+	case typ.AssignableTo(dst.Type()):
+		dst.Set(m.ptr)
+	case typ.Elem() == dst.Type() && m.filling:
+		return fmt.Errorf("a '%s' record contains itself by value", typeName)
+	case typ.Elem() == dst.Type():
+		dst.Set(m.ptr.Elem())
+	default:
+		return fmt.Errorf("type checking failed: a '%s' record is a '%v', and no '%v'", typeName, typ, dst.Type())
+	}
+	return nil
+}
+
+func isEmptyInterface(typ reflect.Type) bool {
+	return typ.Kind() == reflect.Interface && typ.NumMethod() == 0
+}
+
+// setGoNumber sets dst to the number x, if dst can hold exactly that. val is
+// the same number, for what takes any value.
+func setGoNumber(dst reflect.Value, x *big.Float, val interface{}) error {
+	switch dst.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if i, acc := x.Int64(); acc == big.Exact && !dst.OverflowInt(i) {
+			dst.SetInt(i)
+			return nil
+		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		if u, acc := x.Uint64(); acc == big.Exact && x.IsInt() && !dst.OverflowUint(u) {
+			dst.SetUint(u)
+			return nil
+		}
+	case reflect.Float32:
+		if f, acc := x.Float32(); acc == big.Exact {
+			dst.SetFloat(float64(f))
+			return nil
+		}
+	case reflect.Float64:
+		if f, acc := x.Float64(); acc == big.Exact {
+			dst.SetFloat(f)
+			return nil
+		}
+	default:
+		if isEmptyInterface(dst.Type()) {
+			dst.Set(reflect.ValueOf(val))
+			return nil
+		}
+		return fmt.Errorf("cannot put the number %v into a %v", val, dst.Type())
+	}
+	return fmt.Errorf("%v does not fit into a %v", val, dst.Type())
+}
+
 /*
 if accessing unexported fields, we'll recover from
 
-- 
2.43.0


From 0a6ef3cc83ec449fb98f3279d62975e4c97b82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 44/48] fix: a function applied by the host left the
 interpreter unable to run anything

---
 zygo/environment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index c808531..48f5578 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -988,8 +988,8 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	}
 
 	res, err := env.Run()
+	env.restoreControlState(callState)
 	if err != nil {
-		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 	return res, nil
-- 
2.43.0


From 89f5d0774f8e13a2819274e67888132650b13390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 45/48] fix: slice reached into the spare memory behind an
 array, where no values are

---
 zygo/functions.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zygo/functions.go b/zygo/functions.go
index 61134c8..eb71390 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -450,10 +450,24 @@ func SliceFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("Third argument of slice must be integer")
 	}
 
+	inRange := func(n int) error {
+		if start < 0 || end < start || end > n {
+			return fmt.Errorf("slice bounds [%d:%d] out of range with length %d", start, end, n)
+		}
+		return nil
+	}
+
 	switch t := args[0].(type) {
 	case *SexpArray:
+		// the capacity beyond the length holds no elements of t
+		if err := inRange(len(t.Val)); err != nil {
+			return SexpNull, err
+		}
 		return &SexpArray{Val: t.Val[start:end], Env: env, Typ: t.Typ}, nil
 	case *SexpStr:
+		if err := inRange(len(t.S)); err != nil {
+			return SexpNull, err
+		}
 		return &SexpStr{S: t.S[start:end]}, nil
 	}
 
-- 
2.43.0


From e28699be03a67e05dff65d02a4d937eb740db99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 46/48] fix: hget with a default did not find a key written as
 a one-element array

---
 zygo/hashutils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 6aeacd7..e654983 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -259,6 +259,9 @@ func (hash *SexpHash) pairs() []*SexpPair {
 }
 
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	if arr, isArray := key.(*SexpArray); isArray && len(arr.Val) == 1 {
+		key = arr.Val[0] // as in HashSet and HashGet
+	}
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
-- 
2.43.0


From 1e1d4109815f1debf28148f9f118cd5eed5c77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 47/48] fix: array keys of a hash were lost when printing or
 the array changed

---
 zygo/functions.go |  2 +-
 zygo/hashutils.go | 58 +++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index eb71390..4e21857 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -377,7 +377,7 @@ func HashAccessFunction(name string) ZlispUserFunction {
 			n := len(hash.KeyOrder)
 			arr := &SexpArray{Env: env}
 			for i := 0; i < n; i++ {
-				keys = append(keys, (hash.KeyOrder)[i])
+				keys = append(keys, ownKey(hash.KeyOrder[i]))
 
 				// try to get a .Typ value going too... from the first available.
 				if arr.Typ == nil {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e654983..082fe2c 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"hash/fnv"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -62,11 +63,63 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 	case *SexpPair:
 		return 0, true, nil
 	case *SexpArray:
-		return int(Blake2bUint64([]byte(e.SexpString(nil)))), false, nil
+		return hashArray(e, 0), false, nil
 	}
 	return 0, false, fmt.Errorf("cannot hash type %T", expr)
 }
 
+const maxArrayKeyDepth = 4
+
+// hashArray gives arrays that compare equal the same hash code, which does
+// not depend on how they are printed.
+func hashArray(arr *SexpArray, depth int) int {
+	hasher := fnv.New64a()
+	for _, elem := range arr.Val {
+		code := 0
+		switch e := elem.(type) {
+		case *SexpInt:
+			code = hashNumber(float64(e.Val))
+		case *SexpUint64:
+			code = hashNumber(float64(e.Val))
+		case *SexpChar:
+			code = hashNumber(float64(e.Val))
+		case *SexpFloat:
+			code = hashNumber(e.Val)
+		case *SexpStr, *SexpSymbol:
+			code, _, _ = hashHelper(e)
+		case *SexpArray:
+			if depth < maxArrayKeyDepth {
+				code = hashArray(e, depth+1)
+			}
+		}
+		fmt.Fprintf(hasher, "%d ", code)
+	}
+	return int(hasher.Sum64())
+}
+
+func hashNumber(f float64) int {
+	return int(math.Float64bits(f + 0)) // -0 equals 0
+}
+
+// ownKey is the key, copied if it is an array: a later change of the array
+// must not reach into the hash.
+func ownKey(key Sexp) Sexp {
+	return ownKeyWithin(key, 0)
+}
+
+func ownKeyWithin(key Sexp, depth int) Sexp {
+	arr, isArray := key.(*SexpArray)
+	if !isArray || depth > maxArrayKeyDepth {
+		return key
+	}
+	own := *arr
+	own.Val = make([]Sexp, len(arr.Val))
+	for i := range arr.Val {
+		own.Val[i] = ownKeyWithin(arr.Val[i], depth+1)
+	}
+	return &own
+}
+
 func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	//	Q("MakeHash called ")
 	//	for i := range args {
@@ -403,6 +456,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if err != nil {
 		return err
 	}
+	key = ownKey(key)
 	arr, ok := hash.Map[hashval]
 
 	if !ok {
@@ -532,7 +586,7 @@ func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
 		return &SexpPair{}, fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder)
 	}
 
-	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
+	return Cons(ownKey(key), &SexpPair{Head: val, Tail: SexpNull}), nil
 }
 
 func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
-- 
2.43.0


From 50bf644284c84f0882196e773ebf510c09c8606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:07 +0000
Subject: [PATCH 48/48] fix: msgpack decoding made large unsigned integers
 negative

---
 zygo/jsonmsgp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 53a9fdc..13f5086 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -285,7 +285,7 @@ func (m *msgpackHelper) init() {
 	//does this make a differenece? m.mh.AddExt(reflect.TypeOf(time.Time{}), 1, timeEncExt, timeDecExt)
 	m.mh.RawToString = true
 	m.mh.WriteExt = true
-	m.mh.SignedInteger = true
+	// not SignedInteger: what does not fit into an int64 would wrap around
 	m.mh.MaxDepth = codecMaxDepth
 	m.mh.Canonical = true // sort maps before writing them
 
@@ -433,6 +433,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp) (s Sexp, err err
 		return &SexpInt{Val: val}, nil
 
 	case uint64:
+		if val <= math.MaxInt64 {
+			return &SexpInt{Val: int64(val)}, nil
+		}
 		return &SexpUint64{Val: val}, nil
 
 	case float64:
-- 
2.43.0

