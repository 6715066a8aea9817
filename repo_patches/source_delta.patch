From aea48f8eb0767b06053dc6cf563d53d994d8d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 01/51] fix: attach modifiers that follow a parenthetical to
 its ki

They were attached to the end of the discourse inside of the
parenthetical, before the ki, so the words of the AST were out of order.
---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..afdd45a 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -619,7 +619,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From 1f126c0eb94ea20e7e99e3dc68b1764ff4ed0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 02/51] fix: don't panic in Predication.End if there are no
 terms

---
 ast/ast.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index afdd45a..7de2b5e 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -158,10 +158,16 @@ type Predication struct {
 }
 
 func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
+func (n *Predication) End() int {
+	if n.NA == nil && len(n.Terms) == 0 {
+		return n.Predicate.End()
+	}
+	return end(n.NA, n.Terms)
+}
+
 func (n Predication) mod(m *Mod) *Predication {
 	if n.NA != nil {
 		n.NA = n.NA.mod(m)
-- 
2.43.0


From 00be353b8355c9a36bec6314c2838ca8643fc40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 03/51] fix: don't panic in Start and End of a Text without any
 words

---
 ast/ast.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 7de2b5e..1e7bffc 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -34,15 +34,39 @@ type Text struct {
 	Discourse Discourse
 }
 
-func (n *Text) Start() int         { return n.Discourse.Start() }
-func (n *Text) End() int           { return n.Discourse.End() }
 func (n Text) modNode(m *Mod) Node { n.Discourse = *n.Discourse.mod(m); return &n }
 
-// A Discourse is a non-empty sequence of sentences and/or fragments.
+func (n *Text) Start() int {
+	if len(n.Discourse) == 0 && n.Leading != nil {
+		return n.Leading.Start()
+	}
+	return n.Discourse.Start()
+}
+
+func (n *Text) End() int {
+	if len(n.Discourse) == 0 && n.Leading != nil {
+		return n.Leading.End()
+	}
+	return n.Discourse.End()
+}
+
+// A Discourse is a sequence of sentences and/or fragments.
+// It is only empty if it is the Discourse of a Text without any words.
 type Discourse []Node
 
-func (n *Discourse) Start() int { return (*n)[0].Start() }
-func (n *Discourse) End() int   { return (*n)[len(*n)-1].End() }
+func (n *Discourse) Start() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[0].Start()
+}
+
+func (n *Discourse) End() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[len(*n)-1].End()
+}
 
 func (n Discourse) modNode(m *Mod) Node { return n.mod(m) }
 
-- 
2.43.0


From d871c32d8047937733e2a92462720a680d05d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 04/51] fix: don't take exponential time in Error.ByteOffset

The fail tree is a DAG with heavily shared nodes,
and ByteOffset walked every path through it.
For some short texts with a syntax error, it would never return.
The location of the error message is already that of the deepest error;
use its byte offset.
---
 ast/parser.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..213b205 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -22,21 +22,7 @@ func (err *parseError) Error() string { return err.err.Error() }
 
 // Tree returns the tree of all failed backtracks that lead to a deepest-error.
 func (err *parseError) Tree() *peg.Fail { return err.fail }
-func (err *parseError) ByteOffset() int { return byteOffset(err.fail) }
-
-func byteOffset(fail *peg.Fail) int {
-	if len(fail.Kids) == 0 {
-		return fail.Pos
-	}
-	max := -1
-	for _, k := range fail.Kids {
-		if o := byteOffset(k); o > max {
-			max = o
-		}
-	}
-	return max
-
-}
+func (err *parseError) ByteOffset() int { return err.err.Loc.Byte }
 
 // A Parser parses a given Toaq text.
 type Parser struct {
-- 
2.43.0


From a4bc2b871d92f6f40b965d6d069f4910ec84c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 05/51] fix: return a different *Word from each call to
 Parser.Word

Word reset the memoized parse tree nodes instead of actions,
so modifying the returned Word, or its modifiers,
changed the result of later calls.
---
 ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index 213b205..4942487 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -59,7 +59,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
-- 
2.43.0


From 29065f26691554a2644113e758850c91cf2cda8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 06/51] fix: report Word errors at their location, regardless
 of prior calls

The fail tree for a failed Word was that of the full text from offset 0
with an error position relative to the word,
giving a nonsense message and location.
The memoized fails and last fail position were also left-over
from prior calls to Text, Tree, or Word on the same Parser.
---
 ast/parser.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 4942487..8c5f43f 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -38,7 +38,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -52,7 +52,7 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
@@ -65,7 +65,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -76,12 +76,17 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
-	pos, perr := rule(p._Parser, start)
-	if pos >= 0 {
+func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
+	dpos, derr := accepts(p._Parser, start)
+	if dpos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	// Reset the fail state, so that the fail tree
+	// does not depend on previous calls for a different rule or offset,
+	// and so modifying it doesn't affect the trees of subsequent calls.
+	p._Parser.fail = make(map[_key]*peg.Fail)
+	p._Parser.lastFail = start + derr
+	_, failTree := fail(p._Parser, start, start+derr)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 814fd6f4ee3808c81b5eb5481e9708337bdd1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 07/51] fix: use Parser.FilePath in error messages

---
 ast/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 8c5f43f..2a8a0fc 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -87,8 +87,7 @@ func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parse
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	p._Parser.lastFail = start + derr
 	_, failTree := fail(p._Parser, start, start+derr)
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	err := peg.SimpleError(p._Parser.text, failTree)
+	err.FilePath = p.FilePath
+	return &parseError{fail: failTree, err: err}
 }
-- 
2.43.0


From 752072396502ed1e8990932e3b0c069ba814f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 08/51] fix: reject text with invalid UTF-8 or U+FFFD

The EOF rule of the grammar matches at an invalid UTF-8 byte or a U+FFFD,
so it and all of the text following it was silently dropped.
---
 ast/parser.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 2a8a0fc..a981436 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -38,7 +38,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseFullText(); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -65,7 +65,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseFullText(); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -76,6 +76,20 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
+// parseFullText parses the full_text rule, which must consume all of the text.
+//
+// The grammar's EOF rule matches not only the end of the text,
+// but also any invalid UTF-8 or U+FFFD, since neither is matched by `.`.
+func (p *Parser) parseFullText() Error {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+		return err
+	}
+	if end, _ := _full_textAccepts(p._Parser, 0); end < len(p._Parser.text) {
+		return p.error(&peg.Fail{Name: "full_text", Pos: end, Want: "EOF"})
+	}
+	return nil
+}
+
 func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
 	dpos, derr := accepts(p._Parser, start)
 	if dpos >= 0 {
@@ -87,6 +101,10 @@ func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parse
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	p._Parser.lastFail = start + derr
 	_, failTree := fail(p._Parser, start, start+derr)
+	return p.error(failTree)
+}
+
+func (p *Parser) error(failTree *peg.Fail) Error {
 	err := peg.SimpleError(p._Parser.text, failTree)
 	err.FilePath = p.FilePath
 	return &parseError{fail: failTree, err: err}
-- 
2.43.0


From bc3c9bdc90a5e7cdc58b97a22080edf5174a9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 09/51] fix: don't visit nil Terms

Visit says that it calls the visitor with non-nil nodes.
But it was called with the nil Terms of a predication without terms;
calling Start or End on such a node panics.
---
 ast/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/visit.go b/ast/visit.go
index 435f0a3..444212c 100644
--- a/ast/visit.go
+++ b/ast/visit.go
@@ -33,7 +33,7 @@ func Visit(n Node, v Visitor) {
 	if n == nil {
 		return
 	}
-	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
+	if v := reflect.ValueOf(n); (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil() {
 		return
 	}
 	if v = v.Visit(n); v == nil {
-- 
2.43.0


From 99bb1536ad7a1e888f7969e75c0c3fc218200357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 10/51] fix: support CoP and LUPhrase in Equal

---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From 3179a7b47f4d7d15d4b9f7749727dc54455a3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 11/51] fix: put the tone marker after a syllable-final capital
 Q in ToASCII
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

HÓAQ became HOA/Q instead of HOAQ/.
---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..add95ae 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,7 +160,7 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if !strings.ContainsRune(vowels, r) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-- 
2.43.0


From ab795ef8d662c09fb6a0438a5262d7382df5a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 12/51] fix: only consider the first syllable in Tone

If the first syllable is in neutral tone,
Tone returned the tone of the following syllable.
---
 tone/tone.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tone/tone.go b/tone/tone.go
index add95ae..08a821f 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -216,10 +216,18 @@ func WithTone(str string, t rune) string {
 
 // Tone returns the tone of first syllable of the string.
 func Tone(s string) rune {
-	ascii := ToASCII(s)
-	i := strings.IndexAny(ascii, toneNameRunes)
+	i := strings.IndexAny(s, vowels)
 	if i < 0 {
 		return None
 	}
-	return rune(ascii[i])
+	r, w := utf8.DecodeRuneInString(s[i:])
+	if t := tone[r]; t != None {
+		return t
+	}
+	// In ASCII form, the tone marker is at the end of the syllable.
+	rest := strings.TrimLeft(s[i+w:], vowels+"qQ")
+	if r, _ := utf8.DecodeRuneInString(rest); strings.ContainsRune(toneNameRunes, r) {
+		return r
+	}
+	return None
 }
-- 
2.43.0


From d8372f34643531c458a587e6e04c6d4d4ecf0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 13/51] fix: case of the breve diacritic of dotless i

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index 08a821f..81a2b58 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -40,7 +40,7 @@ var (
 			"u": {"ǔ", "ŭ"},
 			"U": {"Ǔ", "Ŭ"},
 			"i": {"ǐ", "ĭ"},
-			"ı": {"ǐ", "Ĭ"},
+			"ı": {"ǐ", "ĭ"},
 			"I": {"Ǐ", "Ĭ"},
 			"o": {"ǒ", "ŏ"},
 			"O": {"Ǒ", "Ŏ"},
-- 
2.43.0


From 532e96070cd1fb4338b363c6be8bf04a0555fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 14/51] fix: don't lose branches if multiple arguments are
 connected

Distributing a statement over a connected argument modified the slice of terms
shared with the other branch. The second branch of an outer connected argument
saw only the right-most argument of any inner connected arguments:
**mai? ji/ ru suq/ ho/ ru nuo/** had no mai(suq, ho).
---
 logic/interp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..be86ef8 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -515,7 +515,6 @@ func (interp *interpreter) poArgument(n ast.Node, pred Predicate, arg0 Argument,
 }
 
 // prenexStatement interprets a prenex statement using the given term list.
-// This function modifies the contents of the terms slice.
 func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatement, terms ast.Terms) Statement {
 	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
 
@@ -1088,10 +1087,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
-	ts[0] = t
-	return ts
+	return ts[1:].Prepend(t)
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-- 
2.43.0


From 526efd42e395769f0631647f9a5a62892ee741ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 15/51] fix: use the right-hand argument of a connected
 preposition argument

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index be86ef8..adb72be 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -680,7 +680,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From 8a9237da7985987ba131415f097cb507ecde4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 16/51] fix: don't panic on an argument with a forethought
 connected predicate

---
 logic/interp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index adb72be..ede63fe 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -374,9 +374,15 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 		// If we keep lo?, it's just a content: (λX X = {...})
 		return &Abstraction{Statement: bindScope(b, st), AST: n}
 	case *ast.CoPPredicate:
+		left := n.Left
+		if a, ok := left.(*ast.PredicateArgument); ok {
+			// The left-hand-side of a forethought predicate in an argument
+			// is itself wrapped in a bare PredicateArgument.
+			left = a.Predicate
+		}
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
+			left:  interp.predicate(left.(ast.Predicate)),
 			right: interp.predicate(n.Right.(ast.Predicate)),
 			AST:   n,
 		}
-- 
2.43.0


From a5bacc691726b4492d8ae9c469dc1534937a3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 17/51] fix: don't panic on a connected content clause

---
 logic/interp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index ede63fe..7fa83c0 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -395,10 +395,12 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	// but it's possible as an intermediate state during interpretation.
 	// Here, we reconcile it by converting to {abstraction}(·) form.
 	case *ast.CoPContent:
+		// The right-hand-side of a connected content clause is a statement.
+		right := n.Right.(ast.Statement)
 		return &predConnection{
 			con:   connector(n.RU),
 			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			right: interp.makeContentPred(right, interp.subordinateStatement(right)),
 			AST:   n,
 		}
 	case *ast.LUContent:
-- 
2.43.0


From 9cf1d2e20f0d28085b9ee482a73937935ab89725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 18/51] fix: don't panic on a relative clause connected to a
 statement

---
 logic/interp.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 7fa83c0..bfd6488 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -958,12 +958,18 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	case *ast.LURelative:
 		return interp.subordinateStatement(n.Statement)
 	case *ast.CoPRelative:
-		return &Connection{
+		c := &Connection{
 			Connector: connector(n.RU),
 			Left:      interp.relativeClause(nil, n.Left.(ast.Relative)),
-			Right:     interp.relativeClause(nil, n.Right.(ast.Relative)),
 			AST:       n,
 		}
+		if r, ok := n.Right.(ast.Relative); ok {
+			c.Right = interp.relativeClause(nil, r)
+		} else {
+			// The right-hand-side can also be a bare statement.
+			c.Right = interp.subordinateStatement(n.Right.(ast.Statement))
+		}
+		return c
 	default:
 		panic(fmt.Sprintf("unknown relative clause type %T", n))
 	}
-- 
2.43.0


From c7eb3ad198213d6ce34d09ed5cf32cb88c60bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 19/51] fix: only un-bind variables that a hi-binding is lifted
 over
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Variables bound within the hi-binding itself,
by a top-scope ι-binding, by an earlier hi-binding of the same statement,
or by the hoa of a containing relative clause
were also changed to un-bound variables.
---
 logic/interp.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index bfd6488..29ad9a0 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -167,13 +167,10 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 
 	st := f()
 
-	scope := interp.varScope
 	hiScope := interp.hiScope[len(interp.hiScope)-1]
 	for i := len(hiScope) - 1; i >= 0; i-- {
-		hi := hiScope[i]
-		scope = append(scope, varScope{"", hi})
-		interp.clearHiFreeVarDefs(scope, hi)
-		st = bindScope(hi, st)
+		interp.clearHiFreeVarDefs(hiScope[:i], hiScope[i])
+		st = bindScope(hiScope[i], st)
 	}
 	return st
 }
@@ -181,20 +178,32 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // clearHiFreeVarDefs clears the .Def field
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
-func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
-	hi.Visit(func(n Node) {
-		v, ok := n.(*Variable)
-		if !ok {
-			return
+// These are all variables that are neither bound within the hi-binding,
+// nor by a binding that the hi-binding is in the scope of:
+// the outer hi-bindings of the same subordinate,
+// bindings lifted to the top-most scope,
+// and the bindings of any containing statement.
+func (interp *interpreter) clearHiFreeVarDefs(outer []*Binding, hi *Binding) {
+	bound := make(map[*Binding]bool)
+	for _, bs := range [][]*Binding{outer, interp.theScope, interp.hoaScope} {
+		for _, b := range bs {
+			bound[b] = true
 		}
-		for _, s := range scope {
-			if v.Def == s.def {
+	}
+	for _, s := range interp.varScope {
+		bound[s.def] = true
+	}
+	hi.Visit(func(n Node) {
+		switch n := n.(type) {
+		case *Binding:
+			bound[n] = true
+		case *Variable:
+			if n.Def == nil || bound[n.Def] {
 				return
 			}
+			n.Def = nil
+			n.N = interp.newVar()
 		}
-		v.Def = nil
-		v.N = interp.n
-		interp.n++
 	})
 }
 
-- 
2.43.0


From 8119f30b216552b1969c03f7d153d1cf1fe5203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 20/51] fix: re-bind hi-arguments if a subordinate is
 interpreted again

If distributing a connective interprets a subordinate statement again,
its hi-arguments referred to the binding of the first interpretation,
which is not in scope in the second.
---
 logic/interp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 29ad9a0..e8a14a7 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -171,6 +171,9 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 	for i := len(hiScope) - 1; i >= 0; i-- {
 		interp.clearHiFreeVarDefs(hiScope[:i], hiScope[i])
 		st = bindScope(hiScope[i], st)
+		// The binding is out of scope at the end of the subordinate.
+		// If the subordinate is interpreted again, it needs a new one.
+		delete(interp.liftedScope, hiScope[i].AST.(ast.Argument))
 	}
 	return st
 }
-- 
2.43.0


From 41868f3791d6c51049e842714adf6f8af2723fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:01 +0000
Subject: [PATCH 21/51] =?UTF-8?q?fix:=20don't=20lift=20over=20=CE=B9-bindi?=
 =?UTF-8?q?ngs=20that=20are=20not=20in=20top-scope?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A ι-binding is not always lifted to top-scope:
not if it is from a variable (**ke do/**) or a roi connected argument,
and not yet while interpreting the relative clause of its argument.
Arguments, adverbs, and prepositions referring to it
were lifted to top-scope themselves, where it is not bound.
---
 logic/interp.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index e8a14a7..b451a76 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -605,7 +605,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -628,7 +628,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -843,7 +843,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1118,16 +1118,20 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 	return ts[1:].Prepend(t)
 }
 
-// hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// hasFreeVars returns whether a logic-sub-tree has variables
+// bound by neither the sub-tree nor the top-most scope.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From fae81edb3429097c6210d2aa82655fb0d50135fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 22/51] fix: end the scope of variables quantified by a roi
 argument

They are bound in the restriction of the roi binding,
but were also resolved in the terms following it, where they are not bound.
---
 logic/interp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index b451a76..6b01d61 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -753,6 +753,8 @@ func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
 }
 
 func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	x := interp.newVar()
 	b := &Binding{N: x, Quantifier: The, AST: n}
 	a := &Variable{N: x, Def: b, AST: n}
-- 
2.43.0


From b1af9b8b4721ca55f089d6842b3ae364ff0cc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 23/51] fix: allow variables to begin with a capital D

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 6b01d61..7220293 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1187,7 +1187,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || txt[0] != 'd' && txt[0] != 'D' {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 20b93c90c1bfef7df8e2437813e789bd381bbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 24/51] fix: bind variables quantified by the argument of a
 preposition

If the rest of the statement had no other free variables,
then it was interpreted without the variables of the preposition in scope:
**ne\ sa do/ bi fa? do/** gave an un-bound variable for the second do.
---
 logic/interp.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 7220293..3897da1 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -604,6 +604,10 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		st := interp.prenexStatement(args, n, terms[1:])
 		return bindScope(b, st)
 	case ast.Preposition:
+		if quantifiesVar(t) {
+			// The tail of the statement is in the scope of the variable.
+			return interp.preposition(t, &statementTail{args, n, terms[1:]})
+		}
 		sub := interp.prenexStatement(args, n, terms[1:])
 		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
@@ -654,7 +658,8 @@ type statementTail struct {
 // In this case, arg0 is fully-interpreted before the call to preposition;
 // it is a *Variable ι-bound to the subordinated sentence.
 //
-// If it does have free variables, then it cannot be moved to top-scope,
+// If it does have free variables, or the arguments of the preposition
+// quantify variables, then it cannot be moved to top-scope,
 // because that may move it over the binding of its free variables.
 // Instead, it must be Λ-bound and in the current scope.
 // In this case, arg0 is a *statementTail with the continuation
@@ -945,6 +950,18 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	return b, ay
 }
 
+// quantifiesVar returns whether an AST sub-tree has a quantified variable.
+func quantifiesVar(n ast.Node) bool {
+	found := false
+	ast.Visit(n, ast.FuncVisitor(func(n ast.Node) {
+		if a, ok := n.(*ast.PredicateArgument); ok && a.Quantifier != nil {
+			_, _, ok := isVariablePredicate(a.Predicate)
+			found = found || ok
+		}
+	}))
+	return found
+}
+
 func isHoaPredicate(n ast.Predicate) bool {
 	w, ok := n.(*ast.WordPredicate)
 	return ok && strings.ToLower(tone.WithTone(w.T, tone.None)) == "hoa"
-- 
2.43.0


From cdb267d957231c55ecb57c82953033b9893a7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 25/51] fix: keep the focus of an argument in each branch of a
 connective

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 3897da1..90946e0 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -827,7 +827,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 		// This was a ι- or hi-quantified predicate
 		// that already had its scope lifted
 		// by a previous conditional branch.
-		return nil, &Variable{N: b.N, Def: b, AST: n}
+		return nil, &Variable{N: b.N, Def: b, Focus: n.Focus != nil, AST: n}
 	}
 	if _, _, ok := isVariablePredicate(n.Predicate); ok {
 		return interp.varArgument(n)
-- 
2.43.0


From 0c3fbcbd91fc19eb4db360e00c92bb20b76e55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 26/51] fix: only substitute a variable that is defined by its
 restriction
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Simplification dropped a binding with a restriction like V=‹…›,
even if V is some other variable or if … contains V.
The bound variable then had no binding,
and a different variable was substituted instead.
---
 logic/simplify.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..5cb334b 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -157,10 +157,18 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.Def != n {
+		// This is not a definition of the variable being bound.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
 	}
+	if uses(right, n) {
+		// The definition refers to the variable itself; we cannot substitute it.
+		return false
+	}
 	switch right.(type) {
 	case *Quote, *Plurality, *Abstraction:
 		s.sub[l.N] = right
@@ -170,6 +178,17 @@ func sub(s *state, n *Binding) bool {
 	return true
 }
 
+// uses returns whether a node has a variable bound by the given binding.
+func uses(n Node, b *Binding) bool {
+	used := false
+	n.Visit(func(n Node) {
+		if v, ok := n.(*Variable); ok && v.Def == b {
+			used = true
+		}
+	})
+	return used
+}
+
 func (n *Connection) simplifyStatement(s *state) Statement {
 	n.Left = n.Left.simplifyStatement(s)
 	n.Right = n.Right.simplifyStatement(s)
-- 
2.43.0


From 4971ad2baa3f341c95e4a4817f5655e13e3a896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 27/51] =?UTF-8?q?fix:=20don't=20lose=20a=20linked=20argume?=
 =?UTF-8?q?nt=20of=20a=20=CE=BB-predicate?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

If an earlier place was un-filled, for example **mi? Hoaq? go ji/**,
then the empty place was substituted and the argument was dropped.
---
 logic/simplify.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 5cb334b..659a9f6 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -228,10 +228,9 @@ func swap(s *state, n *Predication, swap *Swap) Statement {
 }
 
 func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
-	var nargs int
 	for _, a := range n.Arguments {
-		if a != nil {
-			nargs++
+		if a == nil {
+			return nil
 		}
 	}
 	var nlambda int
@@ -240,7 +239,7 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-	if nlambda == 0 || nargs != nlambda {
+	if nlambda == 0 || len(n.Arguments) != nlambda {
 		return nil
 	}
 
-- 
2.43.0


From df55235f0c4e4449f207359fd567e469e7f3de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 28/51] =?UTF-8?q?fix:=20don't=20substitute=20=CE=BB-variab?=
 =?UTF-8?q?les=20that=20are=20used=20as=20a=20predicate?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only arguments are substituted, so the predicate was left un-bound:
**suq/ pa lu? hoa? ji/** became S0(J) without any binding for S0.
Also consider variables in serial predicates.
---
 logic/simplify.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 659a9f6..1625f0f 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -110,16 +110,21 @@ func newState(n Statement) *state {
 		sub:      make(map[int]Argument),
 		predVars: make(map[int]bool),
 	}
-	n.Visit(func(n Node) {
-		p, ok := n.(*Predication)
-		if !ok {
-			return
+	addPredVar := func(p Predicate) {
+		if v, ok := p.(*Variable); ok {
+			s.predVars[v.N] = true
 		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
+	}
+	n.Visit(func(n Node) {
+		switch n := n.(type) {
+		case *Predication:
+			addPredVar(n.Predicate)
+		case *Serial:
+			addPredVar(n.Left)
+			addPredVar(n.Right)
+		case *Swap:
+			addPredVar(n.Predicate)
 		}
-		s.predVars[v.N] = true
 	})
 	return s
 }
@@ -236,6 +241,10 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	var nlambda int
 	b, ok := pred.Statement.(*Binding)
 	for ok && b.Quantifier == Lambda && b.Restriction == nil {
+		if s.predVars[b.N] {
+			// This variable is used as a predicate; we cannot substitute it.
+			return nil
+		}
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-- 
2.43.0


From e7a7ce8d8403288502581d5e0686b3c7bbe0e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 29/51] fix: report all interpreter panics in the server

A panic with a value that is not a string, such as a runtime error,
was swallowed and reported as a fragment.
---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From 83241aedef871749e9c9bf96eb8bc4c05b613325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 30/51] fix: don't crash the bot if the interpreter panics

The interpreter panics on some things that are unimplemented,
so a message like **.miu mai? ji/ ro suq/** ended the bot.
---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ed9e6f3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From 4e4a01657e6a982390d02990d020dc2b6dbc0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 31/51] fix: don't panic if a dictionary response lacks an
 error or data

---
 dict/dict.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..9926928 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -3,6 +3,7 @@ package dict
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strings"
@@ -41,8 +42,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, errors.New("Toadua returned an unspecified error")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, errors.New("Toadua returned no data")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From 90c635acbcf1d53ac973f6618a355163fe654db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 32/51] fix: ignore the case of I in variables

---
 logic/interp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 90946e0..45320f5 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1225,7 +1225,8 @@ func splitVar(txt string) (rune, string, bool) {
 			return tone.None, "", false
 		}
 	}
-	return oTones[i], strings.ToLower("do" + txt[w:]), true
+	// The lower-case of I is i, but otherwise words use ı.
+	return oTones[i], strings.Replace(strings.ToLower("do"+txt[w:]), "ı", "i", -1), true
 }
 
 func toString(node ast.Node) string {
-- 
2.43.0


From fd126e4d255d84ad63a242ddda476f16e78ffef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 33/51] fix: don't panic on a digit tone marker after a
 multi-letter syllable

---
 ast/nodes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..fdf87f7 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -128,9 +128,15 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 	return &p
 }
 
+// digitTones are the tones denoted by the digits 1 through 7.
+var digitTones = []rune(`-/V?^\~`)
+
 // addTone swaps the first letter of des with its diacritic variant given the tone rune.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if '1' <= t && t <= '7' {
+		t = digitTones[t-'1']
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0


From f1d0a693c67029f8ddb55a9657fe3a915cb89a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:13 +0000
Subject: [PATCH 34/51] fix: don't move ByteOffset of an error to the start of
 the next letter

Word can be called with an offset that is inside of a letter.
The location of the error message is that of a whole letter,
but the byte offset is that of the failure itself.
---
 ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index a981436..bea8633 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -22,7 +22,7 @@ func (err *parseError) Error() string { return err.err.Error() }
 
 // Tree returns the tree of all failed backtracks that lead to a deepest-error.
 func (err *parseError) Tree() *peg.Fail { return err.fail }
-func (err *parseError) ByteOffset() int { return err.err.Loc.Byte }
+func (err *parseError) ByteOffset() int { return peg.LeafFails(err.fail)[0].Pos }
 
 // A Parser parses a given Toaq text.
 type Parser struct {
-- 
2.43.0


From 200c997477255bcb769ae1d81150540d15a8c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:13 +0000
Subject: [PATCH 35/51] fix: report errors where lookahead reaches beyond the
 deepest failure

For example, 'to ru-' gave the error ':1.1: want ; got ...'.
The deepest failure is the boundary missing before the -.
However, the lookahead for ru reaches beyond the -.
While making the fail tree, all rules were taken to fail there,
so the fail tree, and with it the list of what was wanted, was empty.
---
 ast/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index bea8633..89be4a0 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -99,7 +99,9 @@ func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parse
 	// does not depend on previous calls for a different rule or offset,
 	// and so modifying it doesn't affect the trees of subsequent calls.
 	p._Parser.fail = make(map[_key]*peg.Fail)
-	p._Parser.lastFail = start + derr
+	// Don't let the generated parser assume that everything fails
+	// beyond the deepest failure: lookahead can succeed there.
+	p._Parser.lastFail = len(p._Parser.text)
 	_, failTree := fail(p._Parser, start, start+derr)
 	return p.error(failTree)
 }
-- 
2.43.0


From caaa2fd8325382d63c18cd62c8e0f65d76e915b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:48 +0000
Subject: [PATCH 36/51] fix: read the tone marker of a function word in
 Parser.Word

If the tone marker of jei or tio follows the syllable, as in jei/,
Word returned the word without its tone, and with the length without the marker,
so the next call to Word failed at the marker.

toaq.go is generated from toaq.peggy.
---
 ast/toaq.go    | 410 +++++++++++++++++++++++++++++--------------------
 ast/toaq.peg   |   2 +-
 ast/toaq.peggy |   2 +-
 3 files changed, 248 insertions(+), 166 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index 1a0a4d6..70c9d89 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -19033,15 +19033,48 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		return dp, de
 	}
 	pos, perr := start, -1
-	// !neutral_syllable (LU/MI/MO/PO)
-	// !neutral_syllable
+	// &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
+	// &(LU/MI/MO/PO)
 	{
 		pos2 := pos
 		perr4 := perr
-		// neutral_syllable
-		if !_accept(parser, _neutral_syllableAccepts, &pos, &perr) {
-			goto ok1
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos9 := pos
+			// LU
+			if !_accept(parser, _LUAccepts, &pos, &perr) {
+				goto fail10
+			}
+			goto ok6
+		fail10:
+			pos = pos9
+			// MI
+			if !_accept(parser, _MIAccepts, &pos, &perr) {
+				goto fail11
+			}
+			goto ok6
+		fail11:
+			pos = pos9
+			// MO
+			if !_accept(parser, _MOAccepts, &pos, &perr) {
+				goto fail12
+			}
+			goto ok6
+		fail12:
+			pos = pos9
+			// PO
+			if !_accept(parser, _POAccepts, &pos, &perr) {
+				goto fail13
+			}
+			goto ok6
+		fail13:
+			pos = pos9
+			goto fail5
+		ok6:
 		}
+		goto ok1
+	fail5:
 		pos = pos2
 		perr = _max(perr4, pos)
 		goto fail
@@ -19049,40 +19082,26 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		pos = pos2
 		perr = perr4
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
 	{
-		pos8 := pos
-		// LU
-		if !_accept(parser, _LUAccepts, &pos, &perr) {
-			goto fail9
-		}
-		goto ok5
-	fail9:
-		pos = pos8
-		// MI
-		if !_accept(parser, _MIAccepts, &pos, &perr) {
-			goto fail10
-		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_accept(parser, _MOAccepts, &pos, &perr) {
-			goto fail11
+		pos17 := pos
+		// initial_syllable
+		if !_accept(parser, _initial_syllableAccepts, &pos, &perr) {
+			goto fail18
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_accept(parser, _POAccepts, &pos, &perr) {
-			goto fail12
+		goto ok14
+	fail18:
+		pos = pos17
+		// compound_syllable
+		if !_accept(parser, _compound_syllableAccepts, &pos, &perr) {
+			goto fail19
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok14
+	fail19:
+		pos = pos17
 		goto fail
-	ok5:
+	ok14:
 	}
 	return _memoize(parser, _toned_function_word, start, pos, perr)
 fail:
@@ -19101,67 +19120,94 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "toned_function_word"}
-	// !neutral_syllable (LU/MI/MO/PO)
-	// !neutral_syllable
+	// &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
+	// &(LU/MI/MO/PO)
 	{
 		pos2 := pos
 		nkids3 := len(node.Kids)
-		// neutral_syllable
-		if !_node(parser, _neutral_syllableNode, node, &pos) {
-			goto ok1
+		// (LU/MI/MO/PO)
+		{
+			nkids6 := len(node.Kids)
+			pos07 := pos
+			// LU/MI/MO/PO
+			{
+				pos11 := pos
+				nkids9 := len(node.Kids)
+				// LU
+				if !_node(parser, _LUNode, node, &pos) {
+					goto fail12
+				}
+				goto ok8
+			fail12:
+				node.Kids = node.Kids[:nkids9]
+				pos = pos11
+				// MI
+				if !_node(parser, _MINode, node, &pos) {
+					goto fail13
+				}
+				goto ok8
+			fail13:
+				node.Kids = node.Kids[:nkids9]
+				pos = pos11
+				// MO
+				if !_node(parser, _MONode, node, &pos) {
+					goto fail14
+				}
+				goto ok8
+			fail14:
+				node.Kids = node.Kids[:nkids9]
+				pos = pos11
+				// PO
+				if !_node(parser, _PONode, node, &pos) {
+					goto fail15
+				}
+				goto ok8
+			fail15:
+				node.Kids = node.Kids[:nkids9]
+				pos = pos11
+				goto fail5
+			ok8:
+			}
+			sub := _sub(parser, pos07, pos, node.Kids[nkids6:])
+			node.Kids = append(node.Kids[:nkids6], sub)
 		}
+		goto ok1
+	fail5:
 		pos = pos2
-		node.Kids = node.Kids[:nkids3]
 		goto fail
 	ok1:
 		pos = pos2
 		node.Kids = node.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
+	// (initial_syllable/compound_syllable)
 	{
-		nkids5 := len(node.Kids)
-		pos06 := pos
-		// LU/MI/MO/PO
+		nkids16 := len(node.Kids)
+		pos017 := pos
+		// initial_syllable/compound_syllable
 		{
-			pos10 := pos
-			nkids8 := len(node.Kids)
-			// LU
-			if !_node(parser, _LUNode, node, &pos) {
-				goto fail11
-			}
-			goto ok7
-		fail11:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MI
-			if !_node(parser, _MINode, node, &pos) {
-				goto fail12
-			}
-			goto ok7
-		fail12:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MO
-			if !_node(parser, _MONode, node, &pos) {
-				goto fail13
+			pos21 := pos
+			nkids19 := len(node.Kids)
+			// initial_syllable
+			if !_node(parser, _initial_syllableNode, node, &pos) {
+				goto fail22
 			}
-			goto ok7
-		fail13:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// PO
-			if !_node(parser, _PONode, node, &pos) {
-				goto fail14
+			goto ok18
+		fail22:
+			node.Kids = node.Kids[:nkids19]
+			pos = pos21
+			// compound_syllable
+			if !_node(parser, _compound_syllableNode, node, &pos) {
+				goto fail23
 			}
-			goto ok7
-		fail14:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
+			goto ok18
+		fail23:
+			node.Kids = node.Kids[:nkids19]
+			pos = pos21
 			goto fail
-		ok7:
+		ok18:
 		}
-		sub := _sub(parser, pos06, pos, node.Kids[nkids5:])
-		node.Kids = append(node.Kids[:nkids5], sub)
+		sub := _sub(parser, pos017, pos, node.Kids[nkids16:])
+		node.Kids = append(node.Kids[:nkids16], sub)
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -19180,21 +19226,54 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _toned_function_word}
-	// !neutral_syllable (LU/MI/MO/PO)
-	// !neutral_syllable
+	// &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
+	// &(LU/MI/MO/PO)
 	{
 		pos2 := pos
 		nkids3 := len(failure.Kids)
-		// neutral_syllable
-		if !_fail(parser, _neutral_syllableFail, errPos, failure, &pos) {
-			goto ok1
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos9 := pos
+			// LU
+			if !_fail(parser, _LUFail, errPos, failure, &pos) {
+				goto fail10
+			}
+			goto ok6
+		fail10:
+			pos = pos9
+			// MI
+			if !_fail(parser, _MIFail, errPos, failure, &pos) {
+				goto fail11
+			}
+			goto ok6
+		fail11:
+			pos = pos9
+			// MO
+			if !_fail(parser, _MOFail, errPos, failure, &pos) {
+				goto fail12
+			}
+			goto ok6
+		fail12:
+			pos = pos9
+			// PO
+			if !_fail(parser, _POFail, errPos, failure, &pos) {
+				goto fail13
+			}
+			goto ok6
+		fail13:
+			pos = pos9
+			goto fail5
+		ok6:
 		}
+		goto ok1
+	fail5:
 		pos = pos2
 		failure.Kids = failure.Kids[:nkids3]
 		if pos >= errPos {
 			failure.Kids = append(failure.Kids, &peg.Fail{
 				Pos:  int(pos),
-				Want: "!neutral_syllable",
+				Want: "&(LU/MI/MO/PO)",
 			})
 		}
 		goto fail
@@ -19202,40 +19281,26 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		pos = pos2
 		failure.Kids = failure.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
 	{
-		pos8 := pos
-		// LU
-		if !_fail(parser, _LUFail, errPos, failure, &pos) {
-			goto fail9
-		}
-		goto ok5
-	fail9:
-		pos = pos8
-		// MI
-		if !_fail(parser, _MIFail, errPos, failure, &pos) {
-			goto fail10
-		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_fail(parser, _MOFail, errPos, failure, &pos) {
-			goto fail11
+		pos17 := pos
+		// initial_syllable
+		if !_fail(parser, _initial_syllableFail, errPos, failure, &pos) {
+			goto fail18
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_fail(parser, _POFail, errPos, failure, &pos) {
-			goto fail12
+		goto ok14
+	fail18:
+		pos = pos17
+		// compound_syllable
+		if !_fail(parser, _compound_syllableFail, errPos, failure, &pos) {
+			goto fail19
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok14
+	fail19:
+		pos = pos17
 		goto fail
-	ok5:
+	ok14:
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -19257,18 +19322,57 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// !neutral_syllable (LU/MI/MO/PO)
+	// &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	{
 		var node0 string
-		// !neutral_syllable
+		// &(LU/MI/MO/PO)
 		{
 			pos2 := pos
-			// neutral_syllable
-			if p, n := _neutral_syllableAction(parser, pos); n == nil {
-				goto ok1
-			} else {
-				pos = p
+			// (LU/MI/MO/PO)
+			// LU/MI/MO/PO
+			{
+				pos9 := pos
+				// LU
+				if p, n := _LUAction(parser, pos); n == nil {
+					goto fail10
+				} else {
+					pos = p
+				}
+				goto ok6
+			fail10:
+				pos = pos9
+				// MI
+				if p, n := _MIAction(parser, pos); n == nil {
+					goto fail11
+				} else {
+					pos = p
+				}
+				goto ok6
+			fail11:
+				pos = pos9
+				// MO
+				if p, n := _MOAction(parser, pos); n == nil {
+					goto fail12
+				} else {
+					pos = p
+				}
+				goto ok6
+			fail12:
+				pos = pos9
+				// PO
+				if p, n := _POAction(parser, pos); n == nil {
+					goto fail13
+				} else {
+					pos = p
+				}
+				goto ok6
+			fail13:
+				pos = pos9
+				goto fail5
+			ok6:
 			}
+			goto ok1
+		fail5:
 			pos = pos2
 			goto fail
 		ok1:
@@ -19276,57 +19380,35 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 			node0 = ""
 		}
 		node, node0 = node+node0, ""
-		// (LU/MI/MO/PO)
-		// LU/MI/MO/PO
+		// (initial_syllable/compound_syllable)
+		// initial_syllable/compound_syllable
 		{
-			pos8 := pos
-			var node7 string
-			// LU
-			if p, n := _LUAction(parser, pos); n == nil {
-				goto fail9
-			} else {
-				node0 = *n
-				pos = p
-			}
-			goto ok5
-		fail9:
-			node0 = node7
-			pos = pos8
-			// MI
-			if p, n := _MIAction(parser, pos); n == nil {
-				goto fail10
-			} else {
-				node0 = *n
-				pos = p
-			}
-			goto ok5
-		fail10:
-			node0 = node7
-			pos = pos8
-			// MO
-			if p, n := _MOAction(parser, pos); n == nil {
-				goto fail11
+			pos17 := pos
+			var node16 string
+			// initial_syllable
+			if p, n := _initial_syllableAction(parser, pos); n == nil {
+				goto fail18
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail11:
-			node0 = node7
-			pos = pos8
-			// PO
-			if p, n := _POAction(parser, pos); n == nil {
-				goto fail12
+			goto ok14
+		fail18:
+			node0 = node16
+			pos = pos17
+			// compound_syllable
+			if p, n := _compound_syllableAction(parser, pos); n == nil {
+				goto fail19
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail12:
-			node0 = node7
-			pos = pos8
+			goto ok14
+		fail19:
+			node0 = node16
+			pos = pos17
 			goto fail
-		ok5:
+		ok14:
 		}
 		node, node0 = node+node0, ""
 	}
diff --git a/ast/toaq.peg b/ast/toaq.peg
index a9a9ffa..a0ace4b 100644
--- a/ast/toaq.peg
+++ b/ast/toaq.peg
@@ -101,7 +101,7 @@ word <- (non_function_word/toned_function_word/neutral_function_word) space_word
 predicate_word<syllable> <- (syllable compound_syllable+/!function_word syllable)
 non_function_word <- initial_syllable compound_syllable+/!function_word initial_syllable
 neutral_function_word <- !toned_function_word &function_word neutral_syllable
-toned_function_word <- !neutral_syllable (LU/MI/MO/PO)
+toned_function_word <- &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 initial_syllable <- arg_syllable/relative_syllable/verb_syllable/content_syllable/preposition_syllable/adverb_syllable
 focus <- &KU neutral_syllable
 end_quote <- &TEO neutral_syllable
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index 9ba1973..e67fd2b 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -368,7 +368,7 @@ non_function_word <-
 neutral_function_word <-
 	!toned_function_word &function_word neutral_syllable
 toned_function_word <-
-	!neutral_syllable ( LU / MI / MO / PO )
+	&( LU / MI / MO / PO ) ( initial_syllable / compound_syllable )
 initial_syllable <-
 	arg_syllable /
 	relative_syllable /
-- 
2.43.0


From c7f2c25b6507752dd3459e6fed8ec10cff5fab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:05 +0000
Subject: [PATCH 37/51] fix: number variables of shared nodes once

---
 logic/simplify.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 1625f0f..addc5e7 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -11,7 +11,13 @@ func simplify(n Statement) Statement {
 
 func sequenceVarNums(n Statement) {
 	var i int
+	// Connected branches can share nodes; number each only once.
+	seen := make(map[Node]bool)
 	n.Visit(func(n Node) {
+		if seen[n] {
+			return
+		}
+		seen[n] = true
 		switch n := n.(type) {
 		case *Binding:
 			n.N = i
-- 
2.43.0


From 307714c3888b5e80171f6f0dad20c0871b2c9c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:26 +0000
Subject: [PATCH 38/51] fix: keep the focus of variable and hoa arguments

---
 logic/interp.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 45320f5..361b5e6 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -888,7 +888,7 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 		b := &Binding{Quantifier: quantifier(n.Quantifier), AST: n}
 		x := interp.pushVar(s, b)
 		b.N = x
-		a := &Variable{N: x, Def: b, AST: n}
+		a := &Variable{N: x, Def: b, Focus: n.Focus != nil, AST: n}
 		if n.Relative != nil {
 			b.Restriction = interp.relativeClause(b, n.Relative)
 		}
@@ -898,12 +898,13 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 	x, def := interp.lookupVar(s)
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Connection{
 		Connector: And,
 		Left: &Predication{
@@ -922,19 +923,20 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	}
 	if len(interp.hoaScope) == 0 {
 		// This is an un-bound, would-be λ-bound variable.
-		return nil, &Variable{N: interp.newVar(), AST: n}
+		return nil, &Variable{N: interp.newVar(), Focus: n.Focus != nil, AST: n}
 	}
 
 	def := interp.hoaScope[len(interp.hoaScope)-1]
 	x := def.N
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Quantifier == nil && n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Predication{
 		Predicate: &Pred{Name: Among, AST: n},
 		Arguments: []Argument{ay, ax},
-- 
2.43.0


From 69f05b54c3fe1167037e7da2e57b71d71a7bef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 39/51] fix: don't reuse a lifted argument if its free variable
 is bound in another branch

---
 logic/interp.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 361b5e6..5eb5b17 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -823,7 +823,7 @@ func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argume
 }
 
 func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding, Argument) {
-	if b, ok := interp.liftedScope[n]; ok {
+	if b, ok := interp.liftedScope[n]; ok && !interp.bindsFreeVars(b) {
 		// This was a ι- or hi-quantified predicate
 		// that already had its scope lifted
 		// by a previous conditional branch.
@@ -1160,6 +1160,39 @@ func (interp *interpreter) hasFreeVars(n Node) bool {
 	return free
 }
 
+// bindsFreeVars returns whether any variable was un-bound
+// when a ι-binding was lifted, but is bound in the current scope.
+// This includes variables of other lifted bindings that it refers to.
+func (interp *interpreter) bindsFreeVars(b *Binding) bool {
+	if b.Quantifier != The {
+		return false
+	}
+	binds := false
+	b.Visit(func(n Node) {
+		v, ok := n.(*Variable)
+		if !ok {
+			return
+		}
+		if v.Def != nil {
+			for _, t := range interp.theScope {
+				if t == v.Def && t != b {
+					binds = binds || interp.bindsFreeVars(t)
+				}
+			}
+			return
+		}
+		pred, _ := v.AST.(ast.Predicate)
+		if a, ok := v.AST.(*ast.PredicateArgument); ok {
+			pred = a.Predicate
+		}
+		_, name, ok := isVariablePredicate(pred)
+		for _, s := range interp.varScope {
+			binds = binds || ok && s.v == name
+		}
+	})
+	return binds
+}
+
 // hasText returns whether the text of a word equals (case insensitive) a string.
 // If the word or string has tone markers, they are assumed to be of the same format
 // (both ASCII, both diacritics, both using compose runes, and so on).
-- 
2.43.0


From e0006eaf03d78ff8997f7c62d476ab3db638f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 40/51] fix: scope the variables of connected members of roi

---
 logic/interp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 5eb5b17..fa95872 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -768,6 +768,8 @@ func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
 }
 
 func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := left.(type) {
@@ -791,6 +793,8 @@ func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statem
 }
 
 func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := right.(type) {
-- 
2.43.0


From cb97017ecd664ca5a9be761eb71bfa8499b8252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:08 +0000
Subject: [PATCH 41/51] =?UTF-8?q?fix:=20print=20an=20empty=20first=20place?=
 =?UTF-8?q?=20of=20=3D=20and=20=E2=89=BA?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 logic/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/string.go b/logic/string.go
index 218228e..4842a4a 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -57,7 +57,7 @@ func parens(n *Connection, arg Statement) (string, string) {
 
 func (n *Predication) print(pr *printer) error {
 	if p, ok := n.Predicate.(*Pred); ok && len(n.Arguments) == 2 && isBinOp(p) {
-		return pr.write(n.Arguments[0], p.Name, n.Arguments[1])
+		return pr.write(n.Arguments[:1], p.Name, n.Arguments[1:])
 	}
 	return pr.write(n.Predicate, "(", n.Arguments, ")")
 }
-- 
2.43.0


From d708e77ca777a0c9d34d0bb569c0d70d148c5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:46 +0000
Subject: [PATCH 42/51] fix: ignore modifiers when looking for variables in a
 preposition

---
 logic/interp.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index fa95872..4c6c162 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -956,16 +956,25 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	return b, ay
 }
 
-// quantifiesVar returns whether an AST sub-tree has a quantified variable.
+// quantifiesVar returns whether an AST sub-tree has a quantified variable,
+// not considering the modifiers of words.
 func quantifiesVar(n ast.Node) bool {
-	found := false
-	ast.Visit(n, ast.FuncVisitor(func(n ast.Node) {
-		if a, ok := n.(*ast.PredicateArgument); ok && a.Quantifier != nil {
-			_, _, ok := isVariablePredicate(a.Predicate)
-			found = found || ok
-		}
-	}))
-	return found
+	var v varVisitor
+	ast.Visit(n, &v)
+	return v.found
+}
+
+type varVisitor struct{ found bool }
+
+func (v *varVisitor) Visit(n ast.Node) ast.Visitor {
+	switch n := n.(type) {
+	case *ast.Word:
+		return nil
+	case *ast.PredicateArgument:
+		_, _, ok := isVariablePredicate(n.Predicate)
+		v.found = v.found || ok && n.Quantifier != nil
+	}
+	return v
 }
 
 func isHoaPredicate(n ast.Predicate) bool {
-- 
2.43.0


From 9c9344ece5c6f4e34914613ddec5a6bb1369d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:59 +0000
Subject: [PATCH 43/51] fix: strip combining diacritics from the words of the
 dictionary

---
 dict/dict.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dict/dict.go b/dict/dict.go
index 9926928..69a4e79 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -53,8 +53,19 @@ func Load(url string, query string) (map[string]Word, error) {
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-		e.Word = strings.ToLower(tone.Strip(e.Word))
+		e.Word = strings.ToLower(tone.Strip(stripMarks(e.Word)))
 		ws[e.Word] = e
 	}
 	return ws, nil
 }
+
+// stripMarks returns the string without combining tone diacritics;
+// a tone on a dotless i, for example, is most often spelled with one.
+func stripMarks(s string) string {
+	return strings.Map(func(r rune) rune {
+		if strings.ContainsRune("\u0300\u0301\u0302\u0303\u0304\u0306\u0309\u030C", r) {
+			return -1
+		}
+		return r
+	}, s)
+}
-- 
2.43.0


From d8b66c6d6c639bec5103d682014ad3919eb0648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 44/51] fix: do not repeat a description whose hi-phrase was
 lifted over a variable's binding

Variables that a lifted hi-binding un-binds stay un-bound in every branch,
so they are no reason to interpret the description again.
---
 logic/interp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 4c6c162..330f783 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -41,6 +41,10 @@ type interpreter struct {
 	// even after branching into **mai? ji/ na ru pai? ji/ na**.
 	liftedScope map[ast.Argument]*Binding
 
+	// clearedVars holds the variables that were un-bound
+	// by lifting a hi-binding over their bindings.
+	clearedVars map[*Variable]bool
+
 	// hoaScope is a stack of hoa substitutions.
 	// The top is the variable that currently substitutes hoa.
 	// If the binding is nil, then the hoa becomes a λx.
@@ -59,6 +63,7 @@ type interpreter struct {
 func newInterp() *interpreter {
 	return &interpreter{
 		liftedScope:  make(map[ast.Argument]*Binding),
+		clearedVars:  make(map[*Variable]bool),
 		predications: make(map[ast.Predicate]ast.Node),
 	}
 }
@@ -206,6 +211,7 @@ func (interp *interpreter) clearHiFreeVarDefs(outer []*Binding, hi *Binding) {
 			}
 			n.Def = nil
 			n.N = interp.newVar()
+			interp.clearedVars[n] = true
 		}
 	})
 }
@@ -1183,7 +1189,7 @@ func (interp *interpreter) bindsFreeVars(b *Binding) bool {
 	binds := false
 	b.Visit(func(n Node) {
 		v, ok := n.(*Variable)
-		if !ok {
+		if !ok || interp.clearedVars[v] {
 			return
 		}
 		if v.Def != nil {
-- 
2.43.0


From 7e54448baef05cd62e0326bca9c463fe737c47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:41 +0000
Subject: [PATCH 45/51] fix: don't remove "dict." from the words of the
 dictionary's source

---
 dict/main.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 2ad08df..516d8cd 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -13,6 +13,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"sort"
 	"strings"
 	"time"
 
@@ -41,12 +42,27 @@ func main() {
 	}
 	defer f.Close()
 
-	src := fmt.Sprintf("package dict\n"+
+	var src strings.Builder
+	fmt.Fprintf(&src, "package dict\n"+
 		"// Words contains the dictionary of words.\n"+
 		"// Last updated: %v.\n"+
-		"var Words = %#v\n", time.Now(), ws)
-	src = strings.Replace(src, "dict.", "", -1)
-	if err := gofmt(f, src); err != nil {
+		"var Words = map[string]Word{", time.Now())
+	keys := make([]string, 0, len(ws))
+	for k := range ws {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for i, k := range keys {
+		if i > 0 {
+			src.WriteString(", ")
+		}
+		// Drop the package name of the type,
+		// but not what looks like it in the words themselves.
+		w := strings.TrimPrefix(fmt.Sprintf("%#v", ws[k]), "dict.")
+		fmt.Fprintf(&src, "%#v: %s", k, w)
+	}
+	src.WriteString("}\n")
+	if err := gofmt(f, src.String()); err != nil {
 		fmt.Printf(err.Error())
 		os.Exit(1)
 	}
-- 
2.43.0


From ae026020ab28c1a852cabe318d0a17b8fd28f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:41 +0000
Subject: [PATCH 46/51] fix: don't format the error messages of the
 dictionary's generator

---
 dict/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 516d8cd..cd0b40e 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -32,12 +32,12 @@ func main() {
 
 	ws, err := dict.Load(url, query)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Println(err)
 		os.Exit(1)
 	}
 	f, err := os.Create(*out)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Println(err)
 		os.Exit(1)
 	}
 	defer f.Close()
@@ -63,7 +63,7 @@ func main() {
 	}
 	src.WriteString("}\n")
 	if err := gofmt(f, src.String()); err != nil {
-		fmt.Printf(err.Error())
+		fmt.Println(err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 043847d22b3c9a73cde594005b5e17d13c3f21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:36 +0000
Subject: [PATCH 47/51] fix: print an interjection without a stray brace

PrettyPrint wrote Interjection("ha"}) for the word ha.
---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 1e7bffc..1a012f0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -688,7 +688,7 @@ func (n Vocative) mod(m *Mod) Mod {
 // An Interjection is an interjection word.
 type Interjection Word
 
-func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `"})` }
+func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `")` }
 func (n *Interjection) Start() int                 { return (*Word)(n).Start() }
 func (n *Interjection) End() int                   { return (*Word)(n).End() }
 func (n Interjection) modNode(m *Mod) Node         { return n.mod(m) }
-- 
2.43.0


From e78e04b844df1a67715d1f7138d67447c963714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:39 +0000
Subject: [PATCH 48/51] fix: keep the relative clause of an unbound hoa
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"mai? hoa/ jiV" was interpreted as mai(U), without ji,
unlike "mai? do/ jiV", which is [ΛX : X≺U ∧ ji(X)] mai(X).
---
 logic/interp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 330f783..c5265fb 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -931,14 +931,14 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	if !isHoaPredicate(n.Predicate) {
 		panic("impossible")
 	}
+	var ax *Variable
 	if len(interp.hoaScope) == 0 {
 		// This is an un-bound, would-be λ-bound variable.
-		return nil, &Variable{N: interp.newVar(), Focus: n.Focus != nil, AST: n}
+		ax = &Variable{N: interp.newVar(), AST: n}
+	} else {
+		def := interp.hoaScope[len(interp.hoaScope)-1]
+		ax = &Variable{N: def.N, Def: def, AST: n}
 	}
-
-	def := interp.hoaScope[len(interp.hoaScope)-1]
-	x := def.N
-	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Quantifier == nil && n.Relative == nil {
 		ax.Focus = n.Focus != nil
 		return nil, ax
-- 
2.43.0


From b6a4510f3f4e0d6cfe93c5ddc62da2ee8da67358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 49/51] fix: keep the quantifier of hoa
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"mai? ji/ poqV sa hoa/" was interpreted like "mai? ji/ poqV tu hoa/",
with Λ. As with other arguments, the quantifier now binds
the variable that is among hoa.
---
 logic/interp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index c5265fb..3e41cad 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -944,8 +944,12 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 		return nil, ax
 	}
 
+	q := Quantifier(All)
+	if n.Quantifier != nil {
+		q = quantifier(n.Quantifier)
+	}
 	y := interp.newVar()
-	b := &Binding{N: y, Quantifier: All, AST: n}
+	b := &Binding{N: y, Quantifier: q, AST: n}
 	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Predication{
 		Predicate: &Pred{Name: Among, AST: n},
-- 
2.43.0


From 6f6374b2204f9867fb38c481f81ecfa3ea0ca793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 50/51] fix: interpret the tail of a preposition only once

Interpreting it twice at each preposition took exponential time.
---
 logic/interp.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 3e41cad..8ebf7d9 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -612,11 +612,11 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 	case ast.Preposition:
 		if quantifiesVar(t) {
 			// The tail of the statement is in the scope of the variable.
-			return interp.preposition(t, &statementTail{args, n, terms[1:]})
+			return interp.preposition(t, &statementTail{args, n, terms[1:], nil})
 		}
 		sub := interp.prenexStatement(args, n, terms[1:])
 		if interp.hasFreeVars(sub) {
-			return interp.preposition(t, &statementTail{args, n, terms[1:]})
+			return interp.preposition(t, &statementTail{args, n, terms[1:], sub})
 		}
 		x := interp.newVar()
 		b := &Binding{N: x, Quantifier: The, AST: t}
@@ -654,6 +654,10 @@ type statementTail struct {
 	args   arguments
 	prenex *ast.PrenexStatement
 	terms  ast.Terms
+	// sub is nil or the interpretation of the tail
+	// from before the arguments of the preposition.
+	// It can be used only once, since each branch needs its own.
+	sub Statement
 }
 
 // arg0 is one of two things depending on whether
@@ -724,8 +728,11 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return bindScope(b, st)
 
 	case *statementTail:
-		args, prenex, terms := arg0.args, arg0.prenex, arg0.terms
-		sub := interp.prenexStatement(args, prenex, terms)
+		args, prenex, terms, sub := arg0.args, arg0.prenex, arg0.terms, arg0.sub
+		arg0.sub = nil
+		if sub == nil {
+			sub = interp.prenexStatement(args, prenex, terms)
+		}
 		x := interp.newVar()
 		b1 := &Binding{N: x, Quantifier: All, AST: prenex}
 		a0 := &Variable{N: x, Def: b1, AST: prenex}
-- 
2.43.0


From 9b91ee8bd3fbf77d75a5f2e7b41b184a9b8dba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:22 +0000
Subject: [PATCH 51/51] fix: count the column of an error in letters on the
 page

---
 server/template | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/template b/server/template
index a726723..04f89be 100644
--- a/server/template
+++ b/server/template
@@ -91,7 +91,8 @@
 				offs += lines[i].length;
 			}
 			offs += line - 1; // newlines
-			offs += col - 1; // 0-indexed
+			// The column is 0-indexed and in letters, but strings have UTF-16 units.
+			offs += Array.from(lines[line-1]).slice(0, col-1).join("").length;
 			textArea.selectionStart = offs;
 			textArea.selectionEnd = text.length;
 			textArea.focus();
-- 
2.43.0

