From e4f2e7fde762f6e4e849c6fabefdbd9b89f91743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:50 +0000
Subject: [PATCH 01/40] fix: end an unbounded repetition whose term matches
 without consuming input

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..203ed20 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -574,8 +574,13 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			}
 			break
 		}
+		progress := start.Offset() > input.Offset()
 		result = append(result, v)
 		*input = start
+		if p.t.Max == 0 && !progress && len(result) >= p.t.Min {
+			// An unbounded repetition of a match that consumes nothing would never end.
+			break
+		}
 	}
 
 	if len(result) >= p.t.Min {
-- 
2.43.0


From 48b15dd89b5d69b76fd289006dc5622dcfd5110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:45 +0000
Subject: [PATCH 02/40] fix: resolve rules that are only a reference to another
 rule

---
 parser/parser.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 203ed20..f65cb1c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,25 @@ func (c cache) registerRules(parsers []Parser) {
 	}
 }
 
+// resolveParsers replaces rules whose parser is just a reference to another rule
+// of this cache (e.g. `a -> x=b;`) with the parser of the rule they refer to.
+func (c cache) resolveParsers() {
+	for rule, p := range c.parsers {
+		for range c.parsers { // a chain of references is never longer than this
+			ref, ok := p.(ruleParser)
+			if !ok {
+				break
+			}
+			target, has := c.parsers[ref.t]
+			if !has {
+				break
+			}
+			p = target
+		}
+		c.parsers[rule] = p
+	}
+}
+
 func (c cache) makeParsers(terms []Term) []Parser {
 	parsers := make([]Parser, 0, len(terms))
 	for _, t := range terms {
@@ -121,6 +140,7 @@ func (g Grammar) Compile(node any) Parsers {
 		c.parsers[rule] = term.Parser(rule, c)
 	}
 
+	c.resolveParsers()
 	for rule, rulePtrs := range c.rulePtrses {
 		p := c.parsers[rule]
 		for _, rulePtr := range rulePtrs {
@@ -768,13 +788,16 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		for {
 			switch r := term.(type) {
 			case Rule:
-				term = t.Grammar[r]
-				continue
+				if local, has := t.Grammar[r]; has {
+					term = local
+					continue
+				}
 			}
 			break
 		}
 		cc.parsers[rule] = term.Parser(rule, cc)
 	}
+	cc.resolveParsers()
 
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
@@ -787,6 +810,8 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
+				// the local rule may itself just refer to a rule of the previous scope
+				c.registerRule(rulePtr)
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
@@ -808,5 +833,7 @@ func (t *cutPointParser) Parse(scope Scope, input *Scanner, output *TreeElement,
 }
 func (t *cutPointParser) AsTerm() Term { return t.t }
 func (t CutPoint) Parser(rule Rule, c cache) Parser {
-	return &cutPointParser{t.Term.Parser(rule, c), t}
+	p := &cutPointParser{t.Term.Parser(rule, c), t}
+	c.registerRule(&p.p)
+	return p
 }
-- 
2.43.0


From 9bb336ed8a9496e4996eb0194aec79a550ce5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:33 +0000
Subject: [PATCH 03/40] fix: keep nested grammar rules out of the caller's
 grammar when converting trees

---
 ast/from_parsernode.go | 5 ++++-
 ast/to_parsernode.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..8f5c26f 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -135,7 +135,10 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[string(t)])
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..19ffe06 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -105,7 +105,10 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
-- 
2.43.0


From 69952e5f5d66fe4141dc723b24a6b01364f1a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:42 +0000
Subject: [PATCH 04/40] fix: regex terms with several or unmatched capture
 groups

---
 parser/parser.go  | 6 +++++-
 parser/scanner.go | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f65cb1c..2dddda7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -214,9 +214,13 @@ func getErrorStrings(input *Scanner) string {
 }
 
 func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
+	// eaten[0] is the whole term, eaten[1] its first own capture group, if any.
 	var eaten [2]Scanner
 	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
-		*output = eaten[n-1]
+		*output = eaten[0]
+		if n > 1 && !eaten[1].IsNil() {
+			*output = eaten[1]
+		}
 		return true
 	}
 	return false
diff --git a/parser/scanner.go b/parser/scanner.go
index eb6334f..248e421 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -197,6 +197,11 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 			captures = captures[:n]
 		}
 		for i := range captures {
+			if loc[2*i] < 0 {
+				// the group took no part in the match
+				captures[i] = Scanner{}
+				continue
+			}
 			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
 		}
 
-- 
2.43.0


From f93fe8ea553d6be2456c2624fa74b71094b66810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:05 +0000
Subject: [PATCH 05/40] fix: do not commit to a separator that may be a
 trailing one

---
 wbnf/cutpoints.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..2d215a4 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -89,6 +89,10 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 				// ensure that a starting sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
+			if t.CanEndWithSep {
+				// ensure that a trailing sep will never be a cutpoint
+				out = out.Merge(forTerm(t.Sep), mergeFn)
+			}
 		case parser.Quant:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.Named:
-- 
2.43.0


From dec61ff2222ea080ced61ba3de9c3db1eee7ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 06/40] fix: a commit point inside a referenced rule does not
 commit the referring sequence

---
 parser/parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2dddda7..fce7702 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -358,6 +358,20 @@ func nodesEqual(a, b any) bool {
 	return false
 }
 
+// isCutPoint returns whether a term of a sequence is itself a cutpoint. A rule
+// whose body is a cutpoint commits only the rule, not the sequences that use it.
+func isCutPoint(term Term) bool {
+	switch t := term.(type) {
+	case CutPoint:
+		return true
+	case Named:
+		return isCutPoint(t.Term)
+	case ScopedGrammar:
+		return isCutPoint(t.Term)
+	}
+	return false
+}
+
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
 	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
@@ -379,7 +393,7 @@ func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk
 				func() error { return stk },
 			)
 		}
-		if _, ok := item.(*cutPointParser); ok {
+		if isCutPoint(p.t[i]) {
 			scope, _, _ = scope.ReplaceCutPoint(true)
 		}
 		scope = scope.WithVal(ident, p.parsers[i], v)
-- 
2.43.0


From 84d28c7482ff5bfcc12369911711971c0b6d9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:14 +0000
Subject: [PATCH 07/40] fix: convert and unparse associative and optionally
 delimited lists

---
 ast/from_parsernode.go | 16 ++++++----------
 parser/parser.go       | 26 +++++++++++++++++++++-----
 parser/unparse.go      |  6 +++++-
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 8f5c26f..20bf950 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -161,16 +161,12 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 			if _, ok := child.(parser.Empty); ok {
 				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
 			} else {
-				if lrTerm == t {
-					if _, ok := child.(parser.Node); ok {
-						childCtrs := newCounters(lrTerm)
-						b2 := Branch{}
-						childCtrs.termCountChildren(t, ctrs[""])
-						b2.fromParserNode(g, lrTerm, childCtrs, child)
-						b.one(tag, b2)
-					} else {
-						b.fromParserNode(g, t.Term, ctrs, child)
-					}
+				if tgen.IsChain() {
+					childCtrs := newCounters(lrTerm)
+					b2 := Branch{}
+					childCtrs.termCountChildren(t, ctrs[""])
+					b2.fromParserNode(g, lrTerm, childCtrs, child)
+					b.one(tag, b2)
 				} else {
 					b.fromParserNode(g, lrTerm, ctrs, child)
 				}
diff --git a/parser/parser.go b/parser/parser.go
index fce7702..eee1683 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -522,6 +522,8 @@ type LRTGen struct {
 	sep     Term
 	side    int
 	sepnext bool
+	chain   int // which side is a nested node of the same chain, -1 for neither
+	isChain bool
 }
 
 func (l *LRTGen) Next() Term {
@@ -529,7 +531,9 @@ func (l *LRTGen) Next() Term {
 	if l.sepnext {
 		out = l.sep
 		l.sepnext = !l.sepnext
+		l.isChain = false
 	} else {
+		l.isChain = l.side%2 == l.chain
 		out = l.sides[l.side%2]
 		l.side++
 		l.sepnext = true
@@ -537,15 +541,27 @@ func (l *LRTGen) Next() Term {
 	return out
 }
 
+// IsChain returns whether the term last returned by Next is the delimiter
+// itself, i.e. the corresponding child is the rest of an associative chain.
+func (l *LRTGen) IsChain() bool { return l.isChain }
+
 func (t Delim) LRTerms(node Node) LRTGen {
 	associativity := node.Extra.(Associativity)
+	// The innermost node of a chain has a plain term on both sides.
+	inChain := func(i int) bool {
+		if i < 0 || i >= len(node.Children) {
+			return false
+		}
+		child, ok := node.Children[i].(Node)
+		return ok && child.Tag == node.Tag && child.Extra == node.Extra
+	}
 	switch {
-	case associativity < 0:
-		return LRTGen{sides: [2]Term{t.Term, t}, sep: t.Sep}
-	case associativity > 0:
-		return LRTGen{sides: [2]Term{t, t.Term}, sep: t.Sep}
+	case associativity < 0 && inChain(len(node.Children)-1):
+		return LRTGen{sides: [2]Term{t.Term, t}, sep: t.Sep, chain: 1}
+	case associativity > 0 && inChain(0):
+		return LRTGen{sides: [2]Term{t, t.Term}, sep: t.Sep, chain: 0}
 	}
-	return LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
+	return LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep, chain: -1}
 }
 
 //-----------------------------------------------------------------------------
diff --git a/parser/unparse.go b/parser/unparse.go
index 529e085..4cbabca 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -47,7 +47,11 @@ func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 	node := e.(Node)
 	tgen := t.LRTerms(node)
 	for _, child := range node.Children {
-		if err = unparse(g, tgen.Next(), child, w, &n); err != nil {
+		term := tgen.Next()
+		if _, ok := child.(Empty); ok {
+			continue
+		}
+		if err = unparse(g, term, child, w, &n); err != nil {
 			return
 		}
 	}
-- 
2.43.0


From d609f452e46c5930b4c7ee0ec04a6da08054b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 08/40] fix: decode \x, \u, \U and octal string escapes

---
 wbnf/compile.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..fac8567 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -32,33 +32,33 @@ func parseString(s string) string {
 			i++
 			switch s[i] {
 			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
+				n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
 				if err != nil {
 					panic(err)
 				}
 				sb.WriteByte(uint8(n))
-				i++
+				i += 2
 			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
+				n, err := strconv.ParseUint(s[i+1:i+5], 16, 16)
 				if err != nil {
 					panic(err)
 				}
-				sb.WriteByte(uint8(n))
-				i += 2
+				sb.WriteRune(rune(n))
+				i += 4
 			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
+				n, err := strconv.ParseUint(s[i+1:i+9], 16, 31)
 				if err != nil {
 					panic(err)
 				}
-				sb.WriteByte(uint8(n))
-				i += 4
+				sb.WriteRune(rune(n))
+				i += 8
 			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
+				n, err := strconv.ParseUint(s[i:i+3], 8, 8)
 				if err != nil {
 					panic(err)
 				}
 				sb.WriteByte(uint8(n))
-				i++
+				i += 2
 			case 'a':
 				sb.WriteByte('\a')
 			case 'b':
-- 
2.43.0


From 936a615701642c79fc81019b0d68f92ed741ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:52 +0000
Subject: [PATCH 09/40] fix: validate the regex a term denotes rather than its
 source text

---
 wbnf/compile.go    | 21 +++++++++++++--------
 wbnf/validation.go |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index fac8567..3604c1c 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -92,6 +92,18 @@ func parseString(s string) string {
 var whitespaceRE = regexp.MustCompile(`\s`)
 var escapedSpaceRE = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`)
 
+// parseRegex returns the regex denoted by the source text of a regex term.
+func parseRegex(name string) string {
+	s := whitespaceRE.ReplaceAllString(name, "")
+	// Do this twice to cover adjacent escaped spaces `\_\_`.
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	if strings.HasPrefix(s, "/{") {
+		s = s[2 : len(s)-1]
+	}
+	return s
+}
+
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
 }
@@ -130,14 +142,7 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 	case "STR":
 		return parser.S(parseString(name))
 	case "RE":
-		s := whitespaceRE.ReplaceAllString(name, "")
-		// Do this twice to cover adjacent escaped spaces `\_\_`.
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		if strings.HasPrefix(s, "/{") {
-			s = s[2 : len(s)-1]
-		}
-		return parser.RE(s)
+		return parser.RE(parseRegex(name))
 	case "REF":
 		refNode := atom.OneRef()
 		ref := parser.REF{
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..1cffcc1 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -161,7 +161,7 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 			}
 		}
 	} else if x := tree.OneRe(); x != nil {
-		if _, err := regexp.Compile(x.String()); err != nil {
+		if _, err := regexp.Compile(parseRegex(x.String())); err != nil {
 			v.err = append(v.err, validationError{
 				s:    tree.OneRe().Scanner(),
 				msg:  "regex '%s' is not valid, %s",
-- 
2.43.0


From 5d8b225d24a78dcb76bdffef22866fb80b2a0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:11 +0000
Subject: [PATCH 10/40] fix: let an aborting walker callback abort the walk

---
 cmd/codegen/template.go | 2 +-
 wbnf/wbnfgrammar.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/template.go b/cmd/codegen/template.go
index 1346fb0..2cb78ce 100644
--- a/cmd/codegen/template.go
+++ b/cmd/codegen/template.go
@@ -40,7 +40,7 @@ func (n *nodeExiter) ExitNode() bool {return true }
 func (n *nodeExiter) Abort() bool {return false }
 
 type aborter struct{}
-func (n *aborter) ExitNode() bool {return true }
+func (n *aborter) ExitNode() bool {return false }
 func (n *aborter) Abort() bool {return true }
 var (
 	NodeExiter = &nodeExiter{}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..7f5f6f8 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -119,7 +119,7 @@ func (n *nodeExiter) Abort() bool    { return false }
 
 type aborter struct{}
 
-func (n *aborter) ExitNode() bool { return true }
+func (n *aborter) ExitNode() bool { return false }
 func (n *aborter) Abort() bool    { return true }
 
 var (
-- 
2.43.0


From e737ad48ee30ca6a6e659b14fccd730b06d85029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:32 +0000
Subject: [PATCH 11/40] fix: substitute macro parameters inside lookaheads

---
 wbnf/compile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 3604c1c..b550c51 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -113,7 +113,8 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[name]
 	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
 
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
+	var substitute func(t parser.Term) parser.Term
+	substitute = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
 		case parser.Rule:
 			for i, arg := range macro.AllArgs() {
@@ -121,9 +122,13 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 					return gb.buildTerm(node.AllTerm()[i])
 				}
 			}
+		case parser.LookAhead:
+			t.Term = fixTerm(t.Term, substitute)
+			return t
 		}
 		return t
-	})
+	}
+	newg := rebuildGrammar(g, substitute)
 	return newg[parser.Rule(name)]
 }
 
-- 
2.43.0


From aea9c3f455df5a62d2a075894cbc67bd7db5b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:39 +0000
Subject: [PATCH 12/40] fix: terminate on import cycles

---
 wbnf/compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index b550c51..7424b7b 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -357,6 +357,8 @@ func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 		if err != nil {
 			return GrammarNode{}, err
 		}
+		// An import cycle leads back here: its rules are already on their way in.
+		c.imports[filename] = GrammarNode{}
 		g, err := c.makeGrammar(filename, string(text))
 		if err != nil {
 			return GrammarNode{}, err
-- 
2.43.0


From c4af4bcea86e6ebc07df25e3c3e6e3d553efa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:03 +0000
Subject: [PATCH 13/40] fix: compute the span of a list whose items may be
 empty

---
 ast/node_string.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/node_string.go b/ast/node_string.go
index bd19985..6d3b11e 100644
--- a/ast/node_string.go
+++ b/ast/node_string.go
@@ -117,7 +117,10 @@ func (c One) Scanner() parser.Scanner {
 func (c Many) Scanner() parser.Scanner {
 	childrenScanners := make([]parser.Scanner, 0, len(c))
 	for _, n := range c {
-		childrenScanners = append(childrenScanners, n.Scanner())
+		// children without any tokens have no scanner
+		if s := n.Scanner(); !s.IsNil() {
+			childrenScanners = append(childrenScanners, s)
+		}
 	}
 
 	if len(childrenScanners) > 0 {
-- 
2.43.0


From 7b5a8f0d6f0a9e059b84a0af793b0c555260293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 14/40] fix: compare external references and back-reference
 defaults in grammar diffs

---
 parser/diff/terms.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..2d9f8de 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -111,7 +111,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
@@ -171,7 +171,10 @@ type RefDiff struct {
 
 func (d RefDiff) Equal() bool {
 	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
+		if d.A.Default == nil || d.B.Default == nil {
+			return d.A.Default == nil && d.B.Default == nil
+		}
+		return Terms(d.A.Default, d.B.Default).Equal()
 	}
 	return false
 }
-- 
2.43.0


From 8e417c6c3fc2636992376fe35b14176a0b4cdf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 15/40] fix: do not escape the internal parts of a delimited
 list

---
 parser/parser.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index eee1683..5047f3b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -316,6 +316,7 @@ type seqParser struct {
 	t       Seq
 	parsers []Parser
 	put     putter
+	noEsc   bool // not a term of the grammar as written, so never escaped
 }
 
 func identFromTerm(term Term) string {
@@ -374,8 +375,10 @@ func isCutPoint(term Term) bool {
 
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.noEsc {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, len(p.parsers))
 	furthest := *input
@@ -512,7 +515,23 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 		child: seq.Parser(rule, c),
 		put:   tag(rule, delimTag),
 	}
-	c.registerRule(&p.child)
+
+	// The desugared sequence is an implementation detail of the delim, whose
+	// tree is taken apart above: only the delim itself, its term and its
+	// separator may be replaced by an escape.
+	child := p.child.(*seqParser)
+	child.noEsc = true
+	for _, part := range child.parsers {
+		switch part := part.(type) {
+		case *quantParser: // optional separator
+			part.noEsc = true
+		case *seqParser: // x (y x)*
+			part.noEsc = true
+			rest := part.parsers[1].(*quantParser)
+			rest.noEsc = true
+			rest.term.(*seqParser).noEsc = true
+		}
+	}
 
 	return p
 }
@@ -603,16 +622,19 @@ func (t LookAhead) Parser(rule Rule, c cache) Parser {
 //-----------------------------------------------------------------------------
 
 type quantParser struct {
-	rule Rule
-	t    Quant
-	term Parser
-	put  putter
+	rule  Rule
+	t     Quant
+	term  Parser
+	put   putter
+	noEsc bool // not a term of the grammar as written, so never escaped
 }
 
 func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.noEsc {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, p.t.Min)
 	var v TreeElement
-- 
2.43.0


From bec0bd11ba428e7c26e9e6fb4a71654410dfd4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 16/40] fix: rendering the error of a failed repetition
 recursed forever

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5047f3b..65e48ab 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -663,10 +663,11 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	cause := out // out itself becomes the error returned below
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, func() error { return cause }, func() error { return stk })
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From 5f73ee68aeddc01a74ec9c830d821ae6d5098ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:40 +0000
Subject: [PATCH 17/40] fix: left recursion was missed when paths overwrote
 each other

---
 wbnf/recursion.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..69fb23f 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -59,13 +59,14 @@ func checkForRecursion(tree GrammarNode) error {
 }
 
 func findPaths(name string, node *gnode, seen frozen.Set[string], current []string) [][]string {
+	// Clip the slices so that paths never share the space they grow into.
 	if name != "" {
-		current = append(current, name)
+		current = append(current[:len(current):len(current)], name)
 	}
 	var possibles [][]string
 	for k, next := range node.next {
 		if seen.Has(k) {
-			possibles = append(possibles, append(current[:], k))
+			possibles = append(possibles, append(current[:len(current):len(current)], k))
 		} else {
 			possibles = append(possibles, findPaths(k, next, seen.With(k), current)...)
 		}
-- 
2.43.0


From fe13e0d4d8c08810ba7b373f49ec19842646765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:55 +0000
Subject: [PATCH 18/40] fix: left recursion behind a group of optional terms
 was missed

---
 wbnf/recursion.go | 58 +++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 69fb23f..0ae5b02 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -104,38 +104,52 @@ func (g *gnode) walkRule(start string, dangers *map[string]frozen.Set[string]) *
 }
 
 func getSequenceDangerTerms(tree TermNode) frozen.Set[string] {
+	dangers, _ := dangerTerms(tree)
+	return dangers
+}
+
+// dangerTerms returns the rules tree can start with and whether what follows
+// tree can come first, because nothing in tree is surely required.
+func dangerTerms(tree TermNode) (dangers frozen.Set[string], optional bool) {
 	result := frozen.NewSet[string]()
 
 	if tree.OneOp() == "|" {
 		// Any of the options could be dangerous, need to | them all
 		for _, term := range tree.AllTerm() {
-			result = result.Union(getSequenceDangerTerms(term))
+			d, opt := dangerTerms(term)
+			result = result.Union(d)
+			optional = optional || opt
 		}
-	} else if childTerms := tree.AllTerm(); len(childTerms) > 0 {
+		return result, optional
+	}
+
+	if childTerms := tree.AllTerm(); len(childTerms) > 0 {
 		// As soon as any term is required we can consider the whole tree safe
 		for _, term := range childTerms {
-			dangers := getSequenceDangerTerms(term)
-			if dangers.IsEmpty() {
-				return result
-			}
-			result = result.Union(dangers.Without(""))
-		}
-	} else {
-		for _, q := range tree.AllQuant() {
-			if q.OneOp() == "+" || (q.OneMin() != nil && q.OneMin().String() != "0") || q.OneNamed() != nil {
-				return result // Any of these mean at least one of this term is required
+			d, opt := dangerTerms(term)
+			result = result.Union(d)
+			if !opt {
+				return result, false
 			}
 		}
-		atom := tree.OneNamed().OneAtom()
-		if term := atom.OneTerm(); term != nil {
-			result = result.Union(getSequenceDangerTerms(*term))
-		} else if ident := atom.OneIdent(); ident != nil {
-			result = result.With(ident.String())
-		} else if len(tree.AllQuant()) == 0 { // no quant means its some form of required string
-			return result
-		} else {
-			result = result.With("")
+		return result, true
+	}
+
+	for _, q := range tree.AllQuant() { // from the outermost inwards
+		if q.OneOp() == "+" || (q.OneMin() != nil && q.OneMin().String() != "0") || q.OneNamed() != nil {
+			return result, optional // Any of these mean at least one of this term is required
 		}
+		optional = true
+	}
+	atom := tree.OneNamed().OneAtom()
+	if term := atom.OneTerm(); term != nil {
+		d, opt := dangerTerms(*term)
+		return d, optional || opt
+	}
+	if ident := atom.OneIdent(); ident != nil {
+		// The rule might match nothing.
+		return result.With(ident.String()), true
 	}
-	return result
+	// no quant means its some form of required string
+	return result, optional
 }
-- 
2.43.0


From 8c8ed4b1f80ac0aaed15460e2b0a8e71f3c1fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 19/40] fix: macro bodies were not validated

---
 wbnf/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 1cffcc1..dc4121f 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -216,7 +216,7 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 			v.knownRules = v.knownRules.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	return NodeExiter
 }
 
-- 
2.43.0


From 2a701856438b691c3424c10e1baad448121ebdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 20/40] fix: macro parameters inside nested grammars were not
 substituted

---
 wbnf/compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 7424b7b..f729da4 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -125,6 +125,9 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 		case parser.LookAhead:
 			t.Term = fixTerm(t.Term, substitute)
 			return t
+		case parser.ScopedGrammar:
+			t.Grammar = rebuildGrammar(t.Grammar, substitute)
+			return t
 		}
 		return t
 	}
-- 
2.43.0


From 2c786d78820f1c2db5ac92e38e08552fe3234eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 21/40] fix: a macro referred to as if it were a rule was
 accepted

---
 wbnf/validation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index dc4121f..031f2ec 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -155,7 +155,8 @@ func (v *validator) validateNamed(tree NamedNode) Stopper {
 func (v *validator) validateAtom(tree AtomNode) Stopper {
 	if ident := tree.OneIdent(); ident != nil {
 		if ident.String() != "@" {
-			if !v.knownRules.Has(ident.String()) {
+			_, isMacro := v.macros[ident.String()]
+			if isMacro || !v.knownRules.Has(ident.String()) {
 				v.err = append(v.err, validationError{s: tree.OneIdent().Scanner(),
 					msg: "identifier '%s' is not a defined rule", kind: UnknownRule})
 			}
-- 
2.43.0


From e366664ba551bce22fa148b5b715acb32a1d2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 22/40] fix: AST conversion lost track of stacks and of
 associative chains

---
 ast/counter.go         |  5 ++++-
 ast/from_parsernode.go | 10 +++++++---
 ast/node.go            | 11 ++++++++++-
 ast/to_parsernode.go   |  2 +-
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 3bb31a0..acbafe5 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -99,7 +99,7 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.S, parser.RE:
 		ctrs.count("", parent)
 	case parser.Rule:
-		ctrs.count(string(t), parent)
+		ctrs.count(stackName(string(t)), parent)
 	case parser.Seq:
 		for _, child := range t {
 			ctrs.termCountChildren(child, parent)
@@ -113,6 +113,9 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.Delim:
 		ctrs.termCountChildren(t.Term, parent.mul(oneOrMore))
 		ctrs.termCountChildren(t.Sep, parent.mul(zeroOrMore))
+		if t.Assoc != parser.NonAssociative {
+			ctrs.count(delimTag, parent.mul(zeroOrOne))
+		}
 	case parser.Quant:
 		ctrs.termCountChildren(t.Term, parent.mul(newCounterFromQuant(t)))
 	case parser.Named:
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 20bf950..10c120f 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -133,7 +133,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		// 	// TODO: zeroOrOne
 		// }
 		node = node.collapse(level)
-		b.add(unleveled, node, ctrs[string(t)])
+		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
 		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
 		for rule, terms := range g {
@@ -164,9 +164,13 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 				if tgen.IsChain() {
 					childCtrs := newCounters(lrTerm)
 					b2 := Branch{}
-					childCtrs.termCountChildren(t, ctrs[""])
 					b2.fromParserNode(g, lrTerm, childCtrs, child)
-					b.one(tag, b2)
+					tag = stackName(tag)
+					if _, has := ctrs[tag]; has && tag != delimTag {
+						b.many(tag, b2) // next to children of that name, which are a list too
+					} else {
+						b.add(tag, b2, ctrs[delimTag])
+					}
 				} else {
 					b.fromParserNode(g, lrTerm, ctrs, child)
 				}
diff --git a/ast/node.go b/ast/node.go
index 46b9c30..0e9ee40 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -104,7 +104,16 @@ func (e Extra) collapse(level int) Node {
 	return e
 }
 
-var stackLevelRE = regexp.MustCompile(`^(\w+)@(\d+)$`)
+var stackLevelRE = regexp.MustCompile(`^(\.?\w+)@(\d+)$`)
+
+// stackName returns the name that children parsed by a rule are stored under,
+// which for a layer of a stack is the name of the stack.
+func stackName(name string) string {
+	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
+		return m[1]
+	}
+	return name
+}
 
 func unlevel(name string, g parser.Grammar) (string, int) {
 	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 19ffe06..63b103b 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -86,7 +86,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		name := string(t)
 		term := g[t]
 		unleveled, level := unlevel(name, g)
-		if node := b.pull(unleveled, ctrs[name]); node != nil {
+		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
 			}
-- 
2.43.0


From deb0b8c72bb1052b7a2223e6dd179ebeb601e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 23/40] fix: AST conversion looked nested rules up in the wrong
 grammar

---
 ast/from_parsernode.go | 19 ++++++-------------
 ast/node.go            | 21 +++++++++++++++++++--
 ast/to_parsernode.go   | 19 ++++++-------------
 parser/parser.go       | 14 ++++++++++----
 4 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 10c120f..583a885 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -25,11 +25,11 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 		return result
 	}
 	rule := parser.NodeRule(e.(parser.Node))
-	term := g[rule]
+	term, global := (&scope{rules: g}).lookup(rule)
 	result := Branch{}
 	result.one("@rule", Extra{rule})
 	ctrs := newCounters(term)
-	result.fromParserNode(g, term, ctrs, e)
+	result.fromParserNode(global, term, ctrs, e)
 	return result.collapse(0).(Branch)
 }
 
@@ -115,18 +115,18 @@ func (b Branch) many(name string, node Node) {
 	}
 }
 
-func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters, e parser.TreeElement) {
+func (b Branch) fromParserNode(g *scope, term parser.Term, ctrs counters, e parser.TreeElement) {
 	var tag string
 	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("tag=%q, n=%v", &tag, &n)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		b.add("", Leaf(e.(parser.Scanner)), ctrs[""])
 	case parser.Rule:
-		rule := g[t]
+		rule, local := g.lookup(t)
 		childCtrs := newCounters(rule)
 		b2 := Branch{}
 		unleveled, level := unlevel(string(t), g)
-		b2.fromParserNode(g, rule, childCtrs, e)
+		b2.fromParserNode(local, rule, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -135,14 +135,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
-		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
-		for rule, terms := range g {
-			gcopy[rule] = terms
-		}
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		b.fromParserNode(gcopy, t.Term, ctrs, e)
+		b.fromParserNode(&scope{rules: t.Rules(), outer: g}, t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
 		for i, child := range node.Children {
diff --git a/ast/node.go b/ast/node.go
index 0e9ee40..23ec4e8 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -115,7 +115,7 @@ func stackName(name string) string {
 	return name
 }
 
-func unlevel(name string, g parser.Grammar) (string, int) {
+func unlevel(name string, g *scope) (string, int) {
 	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
 		i, err := strconv.Atoi(m[2])
 		if err != nil {
@@ -124,13 +124,30 @@ func unlevel(name string, g parser.Grammar) (string, int) {
 		return m[1], i
 	}
 	if !strings.Contains(name, parser.StackDelim) {
-		if _, has := g[parser.Rule(name+"@1")]; has {
+		if term, _ := g.lookup(parser.Rule(name + "@1")); term != nil {
 			return name, 0
 		}
 	}
 	return name, -1
 }
 
+// scope holds the rules of a grammar and of the grammars around it.
+type scope struct {
+	rules parser.Grammar
+	outer *scope
+}
+
+// lookup returns what a rule stands for and the scope it is defined in, which
+// is where the rules that it refers to are looked up in turn.
+func (g *scope) lookup(rule parser.Rule) (parser.Term, *scope) {
+	for ; g != nil; g = g.outer {
+		if term, has := g.rules[rule]; has {
+			return term, g
+		}
+	}
+	return nil, nil
+}
+
 func (c One) clone() Children {
 	return One{Node: c.Node.clone()}
 }
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 63b103b..997eee3 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -10,10 +10,10 @@ import (
 func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	branch = branch.clone().(Branch)
 	rule := branch.pullFromOne(RuleTag).(Extra).Data.(parser.Rule)
-	term := g[rule]
+	term, global := (&scope{rules: g}).lookup(rule)
 	ctrs := newCounters(term)
 	branch = expandNode(branch, string(rule)).(Branch)
-	return relabelNode(string(rule), branch.toParserNode(g, term, ctrs))
+	return relabelNode(string(rule), branch.toParserNode(global, term, ctrs))
 }
 
 func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
@@ -74,7 +74,7 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
-func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters) (out parser.TreeElement) {
+func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
@@ -84,7 +84,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		return nil
 	case parser.Rule:
 		name := string(t)
-		term := g[t]
+		term, local := g.lookup(t)
 		unleveled, level := unlevel(name, g)
 		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
@@ -96,7 +96,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(g, term, childCtrs))
+				return relabelNode(string(t), node.toParserNode(local, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -105,14 +105,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
-		for rule, terms := range g {
-			gcopy[rule] = terms
-		}
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		return b.toParserNode(gcopy, t.Term, ctrs)
+		return b.toParserNode(&scope{rules: t.Rules(), outer: g}, t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
 		for _, child := range t {
diff --git a/parser/parser.go b/parser/parser.go
index 65e48ab..a528a32 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -822,14 +822,20 @@ func (t ExtRef) AsTerm() Term { return t }
 
 //-----------------------------------------------------------------------------
 
-func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
+// Rules returns the rules of the nested grammar, with one for each layer of a stack.
+func (t ScopedGrammar) Rules() Grammar {
 	for _, term := range t.Grammar {
 		if _, ok := term.(Stack); ok {
-			t.Grammar = t.Grammar.clone()
-			t.Grammar.resolveStacks()
-			break
+			g := t.Grammar.clone()
+			g.resolveStacks()
+			return g
 		}
 	}
+	return t.Grammar
+}
+
+func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
+	t.Grammar = t.Rules()
 	if wrap, has := c.grammar[WrapRE]; has {
 		if _, has := t.Grammar[WrapRE]; !has {
 			t.Grammar[WrapRE] = wrap
-- 
2.43.0


From 7bf7dcf9ac38bb45aef2f42606220bf519fefb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 24/40] fix: converting an AST back panicked or lost labels

---
 ast/to_parsernode.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 997eee3..3e4b681 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -24,6 +24,20 @@ func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
 	return e
 }
 
+// hasOwnLabel returns whether a tree for term is labelled with a name in term
+// instead of the name given to term.
+func hasOwnLabel(term parser.Term) bool {
+	switch t := term.(type) {
+	case parser.Rule, parser.Named:
+		return true
+	case parser.CutPoint:
+		return hasOwnLabel(t.Term)
+	case parser.ScopedGrammar:
+		return hasOwnLabel(t.Term)
+	}
+	return false
+}
+
 func expandNode(n Node, name string) Node {
 	return n
 	// switch n := n.(type) {
@@ -140,6 +154,9 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 				break
 			}
 		}
+		if i == 0 {
+			return nil // inside an optional term that is not there
+		}
 		if i%2 == 0 {
 			panic(errors.Inconceivable)
 		}
@@ -154,6 +171,9 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 			}
 		}
 		if !t.Contains(len(result.Children)) {
+			if len(result.Children) == 0 {
+				return nil // inside an optional term that is not there
+			}
 			panic(errors.Inconceivable)
 		}
 		return result
@@ -165,7 +185,11 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(g, t.Term, childCtrs))
+				e := node.toParserNode(g, t.Term, childCtrs)
+				if hasOwnLabel(t.Term) {
+					return e
+				}
+				return relabelNode(t.Name, e)
 			case Leaf:
 				return parser.Scanner(node)
 			default:
-- 
2.43.0


From 96cd8ee766e2ec0784c2883ac6a70c68635ec56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 25/40] fix: unparsing a single token panicked

---
 parser/terms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/terms.go b/parser/terms.go
index 0142725..132efa7 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -19,6 +19,9 @@ type Grammar map[Rule]Term
 // the source it came from. Currently, it doesn't quite do that, and is only
 // being used for quick eyeballing to validate output.
 func (g Grammar) Unparse(e TreeElement, w io.Writer) (n int, err error) {
+	if token, ok := e.(Scanner); ok {
+		return w.Write([]byte(token.String()))
+	}
 	rule := NodeRule(e.(Node))
 	return g[rule].Unparse(g, e, w)
 }
-- 
2.43.0


From 7a42b7867cd7be50016f8d256639b47b770e88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 26/40] fix: describing a {1,1} repetition panicked

---
 parser/terms.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 132efa7..0cfcf99 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -245,8 +245,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
-- 
2.43.0


From 08d0d8a7ad1ec606d53be9d37f19570f0b331149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 27/40] fix: converting an AST back relabelled rules that are
 named terms

---
 ast/to_parsernode.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 3e4b681..c6595b6 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -38,6 +38,22 @@ func hasOwnLabel(term parser.Term) bool {
 	return false
 }
 
+// hasOwnLabel returns whether a tree for a rule that is defined as term is
+// labelled with a name in term. A rule that is only another name for a rule of
+// the same grammar labels the tree with its own name.
+func (g *scope) hasOwnLabel(term parser.Term) bool {
+	for {
+		rule, ok := term.(parser.Rule)
+		if !ok {
+			return hasOwnLabel(term)
+		}
+		if _, local := g.rules[rule]; !local {
+			return true
+		}
+		term = g.rules[rule]
+	}
+}
+
 func expandNode(n Node, name string) Node {
 	return n
 	// switch n := n.(type) {
@@ -110,7 +126,11 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(local, term, childCtrs))
+				e := node.toParserNode(local, term, childCtrs)
+				if local.hasOwnLabel(term) {
+					return e
+				}
+				return relabelNode(string(t), e)
 			case Leaf:
 				return parser.Scanner(node)
 			default:
-- 
2.43.0


From e4a9feaefaa1083bdf22402c4c7ecd5921bc6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 28/40] fix: converting an AST back took one item too many for
 a bounded repetition

---
 ast/to_parsernode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index c6595b6..e1ff002 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -183,7 +183,7 @@ func (b Branch) toParserNode(g *scope, term parser.Term, ctrs counters) (out par
 		return v
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
-		for i := 0; !t.MaxLessThan(i); i++ {
+		for i := 0; !t.MaxLessThan(i + 1); i++ {
 			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
 				result.Children = append(result.Children, v)
 			} else {
-- 
2.43.0


From 9b6a20d16b011a90458d1f504386946ca73feb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 29/40] fix: generated grammar with a bounded repetition is not
 valid Go (positional and keyed fields mixed)

---
 cmd/codegen/grammar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..52400ae 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -116,6 +116,7 @@ func walkTerm(term parser.Term) GoNode {
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
+			node.children[0] = prefixName("Term: ", node.children[0])
 			node.Add(stringNode("Min: %d", t.Min))
 			node.Add(stringNode("Max: %d", t.Max))
 		}
-- 
2.43.0


From 122b5a231b58d2c8e183d5043cf6fbd524b4cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:07 +0000
Subject: [PATCH 30/40] fix: generated grammar loses carriage returns, and does
 not compile with NULs or byte order marks in literals

---
 cmd/codegen/grammar.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 52400ae..98c7c69 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -44,8 +44,15 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
+// safeString makes src fit for a Go raw string literal, which cannot hold
+// backquotes, NULs or byte order marks and drops carriage returns.
 func safeString(src string) string {
-	r := strings.NewReplacer("`", "`+\"`\"+`")
+	r := strings.NewReplacer(
+		"`", "`+\"`\"+`",
+		"\r", "`+\"\\r\"+`",
+		"\x00", "`+\"\\x00\"+`",
+		"\ufeff", "`+\"\\ufeff\"+`",
+	)
 	return r.Replace(src)
 }
 
-- 
2.43.0


From 675007b87619dcd1f222ec1cfeed5624494d1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 31/40] fix: imports inside imported files resolved against a
 nonsense path on the command line

---
 cmd/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..7d931ba 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,7 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
-- 
2.43.0


From 73727733ef3823a455e85b9c819f987a255f0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 32/40] fix: generating code crashed on rules without content
 for the tree (empty or external only)

---
 cmd/codegen/typebuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4656c70..a91fa27 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -47,6 +47,11 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
 		newT := tm.findType(GoTypeName(typeName))
+		if newT == nil {
+			// Nothing in the rule ends up in the tree.
+			newT = rule{name: GoTypeName(typeName)}
+			(*tm)[GoTypeName(typeName)] = newT
+		}
 		var needStackAddition bool
 		for _, child := range newT.Children() {
 			if x, ok := child.(stackBackRef); ok {
-- 
2.43.0


From be71cae92672824e8e8457c5efc426ffbebcbfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 33/40] fix: generated packages did not compile for empty
 composites, repeated back references and stack references inside composites

---
 cmd/codegen/pushtype.go        |  5 ++++-
 cmd/codegen/typebuilder.go     | 30 +++++++++++++++++++-----------
 cmd/codegen/types.go           |  4 ++--
 cmd/codegen/walkerinterface.go |  2 +-
 4 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 469fb4d..5fb5ea1 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -83,7 +83,10 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			c = child
 			appendNext = false
 		case stackBackRef:
-			if _, ok := next.(stackBackRef); ok {
+			// It has an All getter already.
+			return children
+		case backRef:
+			if _, ok := next.(backRef); ok {
 				return children
 			}
 		case choice:
diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index a91fa27..5e899cf 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -46,12 +46,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
-		newT := tm.findType(GoTypeName(typeName))
-		if newT == nil {
-			// Nothing in the rule ends up in the tree.
-			newT = rule{name: GoTypeName(typeName)}
-			(*tm)[GoTypeName(typeName)] = newT
-		}
+		newT := tm.ensureType(typeName)
 		var needStackAddition bool
 		for _, child := range newT.Children() {
 			if x, ok := child.(stackBackRef); ok {
@@ -63,13 +58,23 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 			}
 		}
 		if needStackAddition {
-			tm.pushType("", typeName, stackBackRef{name: r.String(), parent: typeName})
+			tm.pushType("", typeName, stackBackRef{name: r.String(), parent: typeName, returnType: typeName})
 		}
 	}
 
 	return tm.merge(result)
 }
 
+// ensureType returns the type for name, which is a new one without children if
+// nothing in its term ends up in the tree.
+func (tm *TypeMap) ensureType(name string) GrammarType {
+	typeName := GoTypeName(name)
+	if tm.findType(typeName) == nil {
+		(*tm)[typeName] = rule{name: typeName}
+	}
+	return tm.findType(typeName)
+}
+
 func (tm *TypeMap) handleSeq(
 	terms []parser.Term,
 	parentName string,
@@ -94,8 +99,9 @@ func (tm *TypeMap) makeLeafType(
 		if t == parser.At {
 			si := knownRules.MustGet(t.String()).(stackInfo)
 			val = stackBackRef{
-				name:   si.ident,
-				parent: si.parentName,
+				name:       si.ident,
+				parent:     parentName,
+				returnType: si.parentName,
 			}
 		} else {
 			val = namedRule{
@@ -173,8 +179,9 @@ func (tm *TypeMap) walkTerm(
 			if term == parser.At {
 				si := knownRules.MustGet(term.String()).(stackInfo)
 				val = stackBackRef{
-					name:   t.Name,
-					parent: si.parentName,
+					name:       t.Name,
+					parent:     parentName,
+					returnType: si.parentName,
 				}
 			} else {
 				val = namedRule{
@@ -193,6 +200,7 @@ func (tm *TypeMap) walkTerm(
 			})
 		default:
 			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.ensureType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index d774694..0971829 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -66,7 +66,7 @@ type (
 		parent string
 	}
 	stackBackRef struct {
-		name, parent string
+		name, parent, returnType string
 	}
 	backRef struct {
 		name, parent string
@@ -194,7 +194,7 @@ func (t stackBackRef) toNamedRule() GrammarType {
 	return namedRule{
 		name:       t.name,
 		parent:     t.parent,
-		returnType: t.parent,
+		returnType: t.returnType,
 		count:      countManager{int: wantAllGetter},
 	}
 }
diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index 30c6ec1..fb62224 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -57,7 +57,7 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 		switch child := child.(type) {
 		case namedRule:
 			if r, ok := w.types[GoTypeName(child.returnType)]; ok {
-				if _, ok := r.(basicRule); ok {
+				if len(r.Children()) == 0 {
 					walker += getWalkerFuncs(funcs, false)
 					continue
 				}
-- 
2.43.0


From fe78520dce8159990c7bd4f634d024af42c09943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:12 +0000
Subject: [PATCH 34/40] fix: OneToken of a generated type panics when the only
 child is a list

---
 cmd/codegen/types.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 0971829..86cb0b0 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -270,8 +270,10 @@ func (c {{parent}}) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
-- 
2.43.0


From c85fd70fbf8db2131f48ad111b8c30f0cf9f4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:16 +0000
Subject: [PATCH 35/40] fix: accessors of labelled rule references gave a node
 without the rule's content

---
 cmd/codegen/typebuilder.go |  4 +++-
 cmd/codegen/types.go       | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 5e899cf..20f77d6 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -182,12 +182,14 @@ func (tm *TypeMap) walkTerm(
 					name:       t.Name,
 					parent:     parentName,
 					returnType: si.parentName,
+					rule:       si.ident,
 				}
 			} else {
 				val = namedRule{
 					name:       t.Name,
 					parent:     parentName,
-					returnType: term.String(),
+					returnType: knownRules.MustGet(term.String()).(string),
+					rule:       term.String(),
 					count:      quant,
 				}
 			}
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 86cb0b0..e86bd12 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -67,6 +67,7 @@ type (
 	}
 	stackBackRef struct {
 		name, parent, returnType string
+		rule                     string // the rule that name labels, if not called so
 	}
 	backRef struct {
 		name, parent string
@@ -81,6 +82,7 @@ type (
 	}
 	namedRule struct {
 		name, parent, returnType string
+		rule                     string // the rule that name labels, if not called so
 		count                    countManager
 	}
 	rule struct {
@@ -195,6 +197,7 @@ func (t stackBackRef) toNamedRule() GrammarType {
 		name:       t.name,
 		parent:     t.parent,
 		returnType: t.returnType,
+		rule:       t.rule,
 		count:      countManager{int: wantAllGetter},
 	}
 }
@@ -299,18 +302,29 @@ func (t unnamedToken) CallbackData() *callbackData { return nil }
 func (t namedRule) TypeName() string        { return "" /* not exported */ }
 func (t namedRule) Ident() string           { return t.name }
 func (t namedRule) Children() []GrammarType { return nil }
+
+// node returns the expression for the node of the rule in child, which holds
+// it under the rule's name if it has a label of its own.
+func (t namedRule) node() string {
+	if t.rule == "" {
+		return "child"
+	}
+	return fmt.Sprintf("ast.First(child, %s)", IdentName(t.rule))
+}
+
 func (t namedRule) String() string {
 	replacer := strings.NewReplacer("{{parent}}", GoTypeName(t.parent),
 		"{{child}}", GoName(t.name),
 		"{{returnType}}", GoTypeName(t.returnType),
 		"{{name}}", IdentName(t.name),
+		"{{node}}", t.node(),
 	)
 	out := ""
 	if t.count.wantOne() {
 		out += replacer.Replace(`
 func (c {{parent}}) One{{child}}() *{{returnType}} {
 	if child := ast.First(c.Node, {{name}}); child != nil {
-		return &{{returnType}}{child}
+		return &{{returnType}}{ {{node}} }
 	}
 	return nil
 }
@@ -320,7 +334,7 @@ func (c {{parent}}) One{{child}}() *{{returnType}} {
 		out += replacer.Replace(`func (c {{parent}}) All{{child}}() []{{returnType}} {
 	var out []{{returnType}}
 	for _, child := range ast.All(c.Node, {{name}}) {
-		out = append(out, {{returnType}}{child})
+		out = append(out, {{returnType}}{ {{node}} })
 	}
 	return out
 }
-- 
2.43.0


From 43ef4ba0c49f7a7bef2dbcb560a188608a5bfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 36/40] fix: generated types had no accessor for second tokens
 and labels that a sequence repeats

---
 cmd/codegen/typebuilder.go | 84 ++++++++++++++++++++++++++++++++++----
 cmd/codegen/types.go       |  9 ++++
 2 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 20f77d6..3abe62f 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -87,6 +87,69 @@ func (tm *TypeMap) handleSeq(
 	}
 }
 
+// addMany returns quant with the identifiers which more than one of the terms
+// (all of which are parsed) put into the node.
+func addMany(quant countManager, knownRules frozen.Map[string, any], terms ...parser.Term) countManager {
+	many := map[string]bool{}
+	for ident := range quant.many {
+		many[ident] = true
+	}
+	seen := map[string]bool{}
+	for _, t := range terms {
+		idents := map[string]bool{}
+		addIdents(idents, t, knownRules)
+		for ident := range idents {
+			if seen[ident] {
+				many[ident] = true
+			}
+			seen[ident] = true
+		}
+	}
+	quant.many = many
+	return quant
+}
+
+// addIdents adds the identifiers that a term puts into the node it is part of.
+func addIdents(idents map[string]bool, term parser.Term, knownRules frozen.Map[string, any]) {
+	switch t := term.(type) {
+	case parser.S, parser.RE:
+		idents[""] = true
+	case parser.Rule:
+		if t == parser.At {
+			idents[knownRules.MustGet(t.String()).(stackInfo).ident] = true
+		} else {
+			idents[t.String()] = true
+		}
+	case parser.REF:
+		idents[t.Ident] = true
+	case parser.Named:
+		idents[t.Name] = true
+	case parser.Seq:
+		for _, t := range t {
+			addIdents(idents, t, knownRules)
+		}
+	case parser.Oneof:
+		for _, t := range t {
+			addIdents(idents, t, knownRules)
+		}
+	case parser.Stack:
+		for _, t := range t {
+			addIdents(idents, t, knownRules)
+		}
+	case parser.Delim:
+		addIdents(idents, t.Term, knownRules)
+		addIdents(idents, t.Sep, knownRules)
+	case parser.Quant:
+		addIdents(idents, t.Term, knownRules)
+	case parser.CutPoint:
+		addIdents(idents, t.Term, knownRules)
+	case parser.LookAhead:
+		addIdents(idents, t.Term, knownRules)
+	case parser.ScopedGrammar:
+		addIdents(idents, t.Term, knownRules)
+	}
+}
+
 func (tm *TypeMap) makeLeafType(
 	term parser.Term,
 	parentName string,
@@ -128,7 +191,11 @@ func (tm *TypeMap) walkTerm(
 ) {
 	switch t := term.(type) {
 	case parser.S, parser.RE, parser.Rule:
-		tm.makeLeafType(term, parentName, quant.pushSingleNode(termID), knownRules)
+		ident := ""
+		if rule, ok := term.(parser.Rule); ok {
+			ident = rule.String()
+		}
+		tm.makeLeafType(term, parentName, quant.of(ident).pushSingleNode(termID), knownRules)
 	case parser.REF:
 		tm.pushType("", parentName, backRef{
 			name:   t.Ident,
@@ -140,7 +207,7 @@ func (tm *TypeMap) walkTerm(
 		scoped.walkTerm(t.Term, parentName, quant, knownRules, termID)
 		*tm = tm.merge(scoped)
 	case parser.Seq:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
+		tm.handleSeq(t, parentName, addMany(quant, knownRules, t...), knownRules, termID)
 	case parser.Oneof:
 		tm.pushType("", parentName, choice{parent: parentName})
 		for _, t := range t {
@@ -149,6 +216,7 @@ func (tm *TypeMap) walkTerm(
 	case parser.Stack:
 		tm.handleSeq(t, parentName, quant, knownRules, termID)
 	case parser.Delim:
+		quant = addMany(quant, knownRules, t.Term, t.Sep)
 		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, termID)
 		switch delim := t.Sep.(type) {
 		case parser.Named:
@@ -158,7 +226,7 @@ func (tm *TypeMap) walkTerm(
 				tm.pushType(childName, parentName, namedToken{
 					name:   delim.Name,
 					parent: parentName,
-					count:  quant,
+					count:  quant.of(delim.Name),
 				})
 			default:
 				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, termID)
@@ -190,7 +258,7 @@ func (tm *TypeMap) walkTerm(
 					parent:     parentName,
 					returnType: knownRules.MustGet(term.String()).(string),
 					rule:       term.String(),
-					count:      quant,
+					count:      quant.of(t.Name),
 				}
 			}
 			tm.pushType(childName, parentName, val)
@@ -198,16 +266,18 @@ func (tm *TypeMap) walkTerm(
 			tm.pushType(childName, parentName, namedToken{
 				name:   t.Name,
 				parent: parentName,
-				count:  quant,
+				count:  quant.of(t.Name),
 			})
 		default:
-			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			inner := quant
+			inner.many = nil // it is a node of its own
+			tm.walkTerm(t.Term, childName, inner, knownRules, termID)
 			tm.ensureType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
 				returnType: childName,
-				count:      quant,
+				count:      quant.of(t.Name),
 			})
 		}
 	case parser.Quant:
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index e86bd12..1fb2e20 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -113,6 +113,15 @@ const (
 type countManager struct {
 	int
 	nodes []int
+	many  map[string]bool // identifiers which occur more than once
+}
+
+// of returns the count to use for an identifier.
+func (c countManager) of(ident string) countManager {
+	if c.many[ident] {
+		return c.forceMany()
+	}
+	return c
 }
 
 func (c countManager) forceMany() countManager {
-- 
2.43.0


From b6df69c0bca8b62e9d3943851367624d9426fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:44 +0000
Subject: [PATCH 37/40] fix: generated token accessors panic on back references

---
 cmd/codegen/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 1fb2e20..6a51e07 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -240,7 +240,7 @@ func (t namedToken) String() string {
 		out += replacer.Replace(`
 func (c {{parent}}) One{{childtype}}() string {
 	if child := ast.First(c.Node, {{name}}); child != nil {
-		return ast.First(child, "").Scanner().String()
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -251,7 +251,7 @@ func (c {{parent}}) One{{childtype}}() string {
 func (c {{parent}}) All{{childtype}}() []string {
 	var out []string
 	for _, child := range ast.All(c.Node, {{name}}) {
-		out = append(out, ast.First(child, "").Scanner().String())
+		out = append(out, child.Scanner().String())
 	}
 	return out
 }
-- 
2.43.0


From 738ff8cfbd4bb8b4784cc507f439be55c588427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 38/40] fix: diff.NewNodeDiff: report children of different
 types instead of panicking or missing them

---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..543074d 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -62,8 +62,8 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(b.Children[i])
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
 		} else if childNodeA, ok := x.(parser.Node); ok {
-- 
2.43.0


From 7557bdce6581ec43f43df09050fbeb0d99714659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 39/40] fix: tree views: siblings of the same place come in a
 fixed order

---
 ast/treeview.go  | 10 ++++++++--
 gotree/gotree.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..f53487b 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,11 +34,16 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
-			switch c := val.(type) {
+			switch c := n[name].(type) {
 			case One:
 				tree.AddTree(fromAst(name, c.Node, skipAtNodes))
 			case Many:
diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..57e0ff4 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
-- 
2.43.0


From 7fa1250337924d465d3c5dd908ff4954b07cf8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:41 +0000
Subject: [PATCH 40/40] fix: left recursion check: a minimum of 00 is no
 minimum

---
 wbnf/recursion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 0ae5b02..c661a82 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -136,7 +136,7 @@ func dangerTerms(tree TermNode) (dangers frozen.Set[string], optional bool) {
 	}
 
 	for _, q := range tree.AllQuant() { // from the outermost inwards
-		if q.OneOp() == "+" || (q.OneMin() != nil && q.OneMin().String() != "0") || q.OneNamed() != nil {
+		if q.OneOp() == "+" || strings.Trim(q.OneMin().String(), "0") != "" || q.OneNamed() != nil {
 			return result, optional // Any of these mean at least one of this term is required
 		}
 		optional = true
-- 
2.43.0

