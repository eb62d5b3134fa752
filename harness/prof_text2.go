package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// ---------------------------------------------------------------------------
// commit insertion

// litsOf lists the literal occurrences that count for commit insertion.
func litsOf(t *Term) []string {
	switch t.K {
	case "S":
		return []string{t.S}
	case "L":
		return nil
	case "REF":
		if t.Def != nil {
			return []string{*t.Def}
		}
		return nil
	case "G":
		return append(litsOf(t.T), gramLits(t.G)...)
	case "D":
		out := append(litsOf(t.T), litsOf(t.Sep)...)
		if t.Lead {
			out = append(out, litsOf(t.Sep)...)
		}
		if t.Trail {
			out = append(out, litsOf(t.Sep)...)
		}
		return out
	}
	var out []string
	for _, x := range t.kids() {
		out = append(out, litsOf(x)...)
	}
	return out
}

func gramLits(g *Gram) []string {
	var out []string
	for _, n := range g.Names {
		out = append(out, litsOf(g.Rules[n])...)
	}
	return out
}

// nestedRepeat: a nested grammar repeats a literal (known finding nested-cut).
func nestedRepeat(g *Gram) bool {
	bad := false
	g.walk(func(t *Term) {
		if t.K != "G" {
			return
		}
		seen := map[string]bool{}
		for _, s := range gramLits(t.G) {
			bad = bad || seen[s]
			seen[s] = true
		}
	})
	return bad
}

// prefixFree: no literal is empty, holds a blank or is a prefix of another one.
func prefixFree(g *Gram) bool {
	var all []string
	g.walk(func(t *Term) {
		if t.K == "S" {
			all = append(all, t.S)
		}
	})
	for _, a := range all {
		if a == "" {
			return false
		}
		for _, b := range all {
			if a != b && strings.HasPrefix(b, a) {
				return false
			}
		}
	}
	return true
}

// leadsAt: the last layer of a stack can start with @.
func leadsAt(g *Gram) bool {
	bad := false
	for _, t := range g.Rules {
		if t.K == "Stack" {
			t.Xs[len(t.Xs)-1].walk(func(x *Term) { bad = bad || x.K == "R" && x.R == "@" })
		}
	}
	return bad
}

var cutLits = []string{"a", "b", "c", "d", "e", "f", "g", "hi", "jk", "+", "-", "(", ")", ",", ";", "é", "if", "or", "xy", "zz"}

func init() {
	executors["textparse"] = executor{
		prepare: func(c *Case) any {
			p, obs := compileText(c.Text)
			return []any{p, obs}
		},
		run: func(c *Case, prep any, ri int) any {
			pr := prep.([]any)
			obs := pr[1].(*textObs)
			if obs.O != "ok" {
				return &Obs{O: "no" + obs.O, Msg: obs.Str, P: -1, T: []any{"E"}, Log: []any{}}
			}
			o, _ := doParse(pr[0].(parser.Parsers), c, c.Runs[ri])
			return o
		},
	}
	flatteners["textparse"] = flatParse

	profiles["C06"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			g := newTgen(r)
			g.w["RE"], g.w["L"] = 1, 2
			g.lits = append([]string{}, cutLits[:3+r.Intn(len(cutLits)-2)]...)
			if r.Intn(4) == 0 {
				g.lits = textLits
			}
			var ms []*Macro
			gr, limit := g.gram(1+r.Intn(3), 2+r.Intn(3)), 260
			if r.Intn(25) == 0 {
				gr, limit = enlarge(r, gr), 600
			}
			if nestedRepeat(gr) {
				continue
			}
			if c := textCase(r, gr, ms, false, "cuts"); len(c.Text) < limit {
				out = append(out, c)
			}
		}
		return append(out, &Case{Kind: "text", Text: `a -> ";" b {b -> ";" | ";" "x";};`, Cmp: []string{"cuts"}, Known: "nested-cut", Runs: []*Run{{}}})
	}
	profiles["C06n"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		total := 0
		for total < n {
			o := baseOpts()
			o.w = map[string]int{"S": 8, "R": 3, "E": 1, "Seq": 6, "Oneof": 5, "Q": 4, "D": 3, "L": 1, "G": 1, "leaf": 1}
			o.lits, o.uniqLit = append([]string{}, cutLits...), true
			r.Shuffle(len(o.lits), func(i, j int) { o.lits[i], o.lits[j] = o.lits[j], o.lits[i] })
			o.maxRules, o.depth, o.leadP, o.assocP, o.scopeN = 4, 2+r.Intn(3), 0.3, 0.2, 1
			if r.Intn(3) == 0 {
				o.stackP = 0.5
			}
			g := &gen{r: r, o: o}
			gr := mapGram(g.grammar([]string{"ra", "rb", "rc", "rd", "rs"}, 1+r.Intn(o.maxRules), o.depth), func(t *Term) *Term {
				if t.K == "Seq" && len(t.Xs) == 1 { // no such thing in texts
					return t.Xs[0]
				}
				return t
			})
			if size(gr) > 60 || !grammarOK(gr) || !prefixFree(gr) || leadsAt(gr) || nestedRepeat(gr) {
				continue
			}
			nested := false
			gr.walk(func(t *Term) {
				for _, k := range t.kids() {
					nested = nested || k.K == "Stack"
				}
				if t.K == "G" {
					for _, b := range t.G.Rules {
						nested = nested || b.K == "Stack"
					}
				}
			})
			if nested {
				continue
			}
			text := printGram(r, gr, nil, false)
			c := &Case{Kind: "textparse", G: gr, Text: text, Cmp: []string{"tree", "ifok"}}
			if _, obs := compileText(text); obs.O != "ok" {
				continue // the left recursion report is conservative
			}
			addInputs(r, c, gr, o, 8)
			cheapRuns(c, gr)
			if len(c.Runs) == 0 {
				continue
			}
			total += len(c.Runs)
			out = append(out, c)
		}
		return out
	}
	profiles["C21"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			g := newTgen(r)
			g.w["M"], g.w["G"], g.w["L"], g.w["REF"], g.apart = 7, 1, 2, 0, true
			g.lits = textLits[:9]
			g.scope = r.Intn(2)
			if g.scope == 1 { // a nested grammar inside a stack layer is not supported
				g.w["Stack"] = 0
			}
			k := 1 + r.Intn(3)
			pool := []string{"mac", "bin_op", "lst", ".opt"}
			r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			var ms []*Macro
			for i := k - 1; i >= 0; i-- {
				np := pick(r, []int{0, 1, 1, 2, 2, 2, 3, 3})
				ps := []string{"p1", "q", "x1"}
				if r.Intn(15) == 0 {
					np = 9 + r.Intn(3)
					ps = append(ps, "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9")
				}
				r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
				ms = append(ms, &Macro{Nm: pool[i], Ps: ps[:np]})
			}
			// bodies may call macros that were made before them
			rules := append([]string{}, rulePool...)
			r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
			nr := 1 + r.Intn(3)
			scope := g.scope
			for i, m := range ms {
				g.macros, g.params, g.scope = ms[:i], m.Ps, scope
				g.later = rules[nr : nr+1] // a rule without calls
				g.budget = 8
				m.Body = g.term(1 + r.Intn(3))
				if i > 0 && r.Intn(2) == 0 { // a call that passes the parameters on
					in := pick(r, ms[:i])
					c := tM(in.Nm)
					for range in.Ps {
						x := g.leaf()
						if len(m.Ps) > 0 && r.Intn(4) > 0 {
							x = tR(pick(r, m.Ps))
						}
						c.Xs = append(c.Xs, x)
					}
					m.Body = pick(r, []*Term{c, tSeq(c, m.Body), tOne(m.Body, tSeq(tS("a"), c))})
				}
			}
			for _, m := range ms { // most parameters are used somewhere
				for _, p := range m.Ps {
					used := false
					m.Body.walk(func(t *Term) { used = used || t.K == "R" && t.R == p })
					if !used && r.Intn(4) > 0 {
						m.Body = pick(r, []*Term{tSeq(m.Body, tR(p)), tSeq(tR(p), m.Body), tOne(m.Body, tR(p)), tSeq(tS("b"), tQ(tR(p), 0, 1), m.Body), tD(m.Body, tR(p), 0, false, false)})
					}
				}
			}
			g.macros, g.params, g.budget, g.scope = ms, nil, 10+r.Intn(10), scope
			gr := newGram()
			for i := 0; i < nr; i++ {
				g.later = rules[i+1 : nr+1]
				gr.add(rules[i], g.body(1+r.Intn(3)))
			}
			g.macros, g.budget, g.later = nil, 3, nil
			gr.add(rules[nr], g.leaf())
			if !hasCall(gr) || badCalls(gr, ms) {
				continue
			}
			limit := 280
			for _, m := range ms {
				if k := 40 * len(m.Ps); k > limit {
					limit = k
				}
			}
			if c := textCase(r, gr, ms, false, "grammar"); len(c.Text) < limit {
				out = append(out, c)
			}
		}
		return out
	}
}

func hasCall(g *Gram) bool { return hasKind(g, "M") }

// expansions of the terms of the cases are not always small
func badCalls(g *Gram, ms []*Macro) bool {
	by := map[string]*Macro{}
	for _, m := range ms {
		by[m.Nm] = m
	}
	n := 0
	var count func(t *Term)
	count = func(t *Term) {
		n++
		if n > 400 {
			return
		}
		if t.K == "M" {
			for range by[t.R].Ps {
				n += 2
			}
			count(by[t.R].Body)
			for _, x := range t.Xs {
				count(x)
				count(x)
			}
			return
		}
		for _, k := range t.kids() {
			count(k)
		}
		if t.K == "G" {
			for _, b := range t.G.Rules {
				count(b)
			}
		}
	}
	for _, t := range g.Rules {
		count(t)
	}
	return n > 400
}

// ---------------------------------------------------------------------------
// validation

// mutateTerm replaces one random sub-term (outside nested grammars).
func replaceSome(r *rand.Rand, t *Term, by func(*Term) *Term) *Term {
	n := 0
	var count func(t *Term)
	count = func(t *Term) {
		n++
		for _, k := range t.kids() {
			count(k)
		}
	}
	count(t)
	at := r.Intn(n)
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if at == 0 {
			at--
			return by(t)
		}
		at--
		c := *t
		if t.T != nil {
			c.T = f(t.T)
		}
		if t.Sep != nil {
			c.Sep = f(t.Sep)
		}
		if t.Xs != nil {
			c.Xs = nil
			for _, x := range t.Xs {
				c.Xs = append(c.Xs, f(x))
			}
		}
		return &c
	}
	return f(t)
}

var invalidREs = []string{`(`, `a**`, `[b-a]`, `x{3,2}`, `)`, `*a`, `(?P<n`, `\8`, `(?<a>x`, `a{2}{2}{1001}`, `[[:nope:]]`, `(a|b`, `x{1001}`, `(?z)`, `?`, `a|*`}

func init() {
	profiles["C19"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			g := newTgen(r)
			g.w["G"] = 0
			g.lits = textLits[:9]
			if r.Intn(3) > 0 {
				g.w["M"] = 2
			}
			rules := []string{"ruleAlpha", "ruleBeta", "rule_gamma", ".deltaRule", "Epsilon0"}
			r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
			rules = rules[:1+r.Intn(4)]
			var ms []*Macro
			g.names = nil
			if g.w["M"] > 0 {
				for i, nm := range []string{"macroOne", "macroTwo"}[:1+r.Intn(2)] {
					m := &Macro{Nm: nm, Ps: []string{"parFoo", "parBar"}[:r.Intn(3)]}
					g.params, g.macros, g.budget = m.Ps, ms[:i], 6
					m.Body = g.term(1 + r.Intn(2))
					ms = append(ms, m)
				}
			}
			g.params, g.macros, g.budget = nil, ms, 8+r.Intn(8)
			gr := newGram()
			for i, nm := range rules {
				g.later = rules[i+1:]
				gr.add(nm, g.body(1+r.Intn(3)))
			}
			if r.Intn(5) == 0 {
				gr.add(wrapName, g.wrap())
			}
			var badre []string
			extra := ""
			inject := func(f func(t *Term) *Term) {
				ts := len(gr.Names) + len(ms)
				if i := r.Intn(ts); i < len(gr.Names) {
					n := gr.Names[i]
					if n != wrapName {
						gr.Rules[n] = replaceSome(r, gr.Rules[n], f)
					}
				} else {
					m := ms[i-len(gr.Names)]
					m.Body = replaceSome(r, m.Body, f)
				}
			}
			k := pick(r, []int{0, 1, 1, 1, 1, 1, 2, 3})
			for ; k > 0; k-- {
				switch r.Intn(10) {
				case 0:
					nm := pick(r, []string{"undefinedThing", "nowhereToBeSeen", "ruleAlph", "macroOne"})
					inject(func(t *Term) *Term { return tR(nm) })
				case 1:
					what := pick(r, append([]string{}, rules...))
					body := pick(r, []string{`"dup"`, `("dup" | "x")+`})
					if len(ms) > 0 && r.Intn(2) == 0 {
						what = pick(r, ms).Nm
					}
					if r.Intn(3) == 0 {
						extra += " .macro " + what + "() {" + body + "}"
					} else {
						extra += " " + what + " -> " + body + ";"
					}
				case 2:
					re := pick(r, invalidREs)
					inject(func(t *Term) *Term { return tRE(re) })
				case 3:
					nm := pick(r, rules)
					inject(func(t *Term) *Term {
						if t.K == "N" {
							return tN(nm, t.T)
						}
						return tN(nm, t)
					})
				case 4:
					mn := 60 + r.Intn(900)
					mx := pick(r, []int{1, 2, mn - 1, 1 + r.Intn(mn-1), 1 + r.Intn(mn-1)})
					inject(func(t *Term) *Term { return tQ(t, mn, mx) })
				case 5:
					wrap := func(t *Term) *Term {
						switch r.Intn(3) {
						case 0:
							return tQ(tN("twiceUsed", t), 0, 1)
						case 1:
							return tD(tN("twiceUsed", tS("e")), tS(","), 0, false, false)
						}
						return tN("twiceUsed", t)
					}
					inject(func(t *Term) *Term {
						s := tSeq(wrap(t))
						for i := r.Intn(4); i >= 0; i-- {
							x := tS("y")
							if r.Intn(2) == 0 {
								x = tN(fmt.Sprintf("label%d", i), x)
							}
							s.Xs = append(s.Xs, x)
						}
						s.Xs = append(s.Xs, wrap(tS("z")))
						if r.Intn(3) == 0 {
							s.Xs = append(s.Xs, tN("labelLast", tS("v")))
						}
						return s
					})
				case 6:
					nm := pick(r, []string{"noSuchMacro", pick(r, rules)})
					inject(func(t *Term) *Term { return tM(nm, t) })
				case 7:
					if len(ms) > 0 {
						m := pick(r, ms)
						inject(func(t *Term) *Term {
							c := tM(m.Nm)
							for i := range m.Ps {
								if i > 0 || len(m.Ps) == 1 && false {
									c.Xs = append(c.Xs, tS("q"))
								}
							}
							if len(m.Ps) == 0 || r.Intn(2) == 0 {
								for len(c.Xs) <= len(m.Ps) {
									c.Xs = append(c.Xs, tS("r"))
								}
							}
							return c
						})
					}
				case 8:
					if len(ms) > 0 {
						m := pick(r, ms)
						nm := pick(r, append([]string{ms[0].Nm}, rules...))
						m.Ps = append(append([]string{}, m.Ps...), nm)
						if len(m.Ps) > 1 && r.Intn(3) == 0 {
							m.Ps[len(m.Ps)-1] = m.Ps[0]
						}
					}
				case 9: // ill-formed and harmless things side by side
					inject(func(t *Term) *Term { return tOne(t, tQ(tS("k"), 3, 3), tN("named1", tS("m")), tN("named1", tS("m"))) })
				}
			}
			skip := false
			seen := map[string]bool{}
			note := func(t *Term) {
				skip = skip || t.K == "R" && t.R == "" || t.K == "Q" && t.Mx == 0 && t.Mn > 1000
				if t.K == "RE" && !seen[t.S] {
					seen[t.S] = true
					for _, b := range invalidREs {
						if b == t.S {
							badre = append(badre, b)
						}
					}
				}
			}
			gr.walk(note)
			for _, b := range gr.Rules { // nor may a stack be inside a group
				for _, k := range b.kids() {
					skip = skip || containsK(k, "Stack")
				}
			}
			for _, m := range ms {
				m.Body.walk(note)
			}
			if skip {
				continue
			}
			c := &Case{Kind: "text", Text: printGram(r, gr, ms, true), Cmp: []string{"faults"}, Badre: badre, Runs: []*Run{{}}}
			if r.Intn(2) == 0 {
				c.Text += extra
			} else {
				c.Text = extra + " " + c.Text
			}
			if len(c.Text) < 300 {
				out = append(out, c)
			}
		}
		return append(out,
			&Case{Kind: "text", Text: `a -> "z" ("x" > @ "y");`, Cmp: []string{"faults"}, Known: "group-stack", Runs: []*Run{{}}})
	}
	profiles["C20"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		seen := map[string]bool{}
		for len(out) < n {
			k := 1 + r.Intn(5)
			names := []string{"ra", "rb", "rc", "rd", "re"}[:k]
			var opt, req, seq, alts func(d int) *Term
			lit := func() *Term { return tS(pick(r, []string{"x", "y", "z"})) }
			// mode 1: before a required term mostly later rules are referred to
			mode, cur, back := r.Intn(4), 0, r.Intn(3) > 0
			late := func() *Term {
				if mode > 0 && cur+1 >= k {
					if back && r.Intn(6) == 0 {
						return tR(pick(r, names))
					}
					return lit()
				}
				if mode > 0 && !(back && r.Intn(10) == 0) {
					return tR(names[cur+1+r.Intn(k-cur-1)])
				}
				return tR(pick(r, names))
			}
			ref := func() *Term { return tR(pick(r, names)) }
			opt = func(d int) *Term { // may be skipped
				mm := pick(r, [][2]int{{0, 1}, {0, 1}, {0, 0}, {0, 2}, {0, 0}})
				body := pick(r, []*Term{lit(), late(), lit()})
				if d > 0 && r.Intn(3) == 0 {
					body = alts(d - 1)
				}
				t := tQ(body, mm[0], mm[1])
				if r.Intn(8) == 0 {
					return tN("nm", t)
				}
				if r.Intn(8) == 0 { // (x?)? and (x? | y)
					return tQ(t, 0, 1)
				}
				return t
			}
			req = func(d int) *Term {
				switch r.Intn(9) {
				case 0:
					mm := pick(r, [][2]int{{1, 0}, {1, 0}, {1, 2}, {2, 0}, {3, 12}, {10, 0}})
					return tQ(tSeq(lit(), ref()), mm[0], mm[1])
				case 1:
					return tD(lit(), lit(), 0, r.Intn(3) == 0, r.Intn(3) == 0)
				case 2:
					return tN("nm", lit())
				case 3:
					return tQ(lit(), 1, pick(r, []int{0, 2}))
				case 4:
					return tD(tSeq(lit(), ref()), lit(), pick(r, []int{0, 1, -1}), false, false)
				}
				return lit()
			}
			seq = func(d int) *Term {
				s := tSeq()
				for i := r.Intn(3); i > 0; i-- {
					switch r.Intn(5) {
					case 0:
						s.Xs = append(s.Xs, late())
					case 1:
						if d > 0 {
							s.Xs = append(s.Xs, alts(d-1))
						}
					default:
						s.Xs = append(s.Xs, opt(d))
					}
				}
				last := late
				if r.Intn(5) > 0 {
					s.Xs = append(s.Xs, req(d))
					last = ref
				}
				for i := r.Intn(2); i > 0; i-- {
					s.Xs = append(s.Xs, last())
				}
				switch len(s.Xs) {
				case 0:
					return lit()
				case 1:
					return s.Xs[0]
				}
				return s
			}
			alts = func(d int) *Term {
				m := pick(r, []int{1, 1, 2, 2, 3})
				if m == 1 {
					return seq(d)
				}
				s := tOne()
				for ; m > 0; m-- {
					s.Xs = append(s.Xs, seq(d))
				}
				return s
			}
			gr := newGram()
			for i, nm := range names {
				cur = i
				gr.add(nm, alts(1))
			}
			if r.Intn(6) == 0 { // a long chain of rules, perhaps closed
				gr = chainGram(r)
			}
			// names may be used once only in a sequence; drop them
			cnt := 0
			gr = mapGram(gr, func(t *Term) *Term {
				if t.K == "N" {
					cnt++
					return tN(fmt.Sprint("nm", cnt), t.T)
				}
				return t
			})
			key, _ := json.Marshal(gr)
			if seen[string(key)] {
				continue
			}
			seen[string(key)] = true
			c := &Case{Kind: "text", Text: printGram(r, gr, nil, true), Cmp: []string{"faults"}, Runs: []*Run{{Ins: []string{"", "x", "y", "zx", "xyz", "yyx", "xx"}}}}
			if len(c.Text) < 300 {
				out = append(out, c)
			}
		}
		return out
	}
}

// chainGram makes a grammar of 5 to 12 rules of which each leads to the next
// one, and perhaps the last one back to one before.
func chainGram(r *rand.Rand) *Gram {
	gr := newGram()
	k := 5 + r.Intn(8)
	names := []string{}
	for i := 0; i < k; i++ {
		names = append(names, fmt.Sprint(pick(r, []string{"r", "Ru", "a_"}), i))
	}
	r.Shuffle(k, func(i, j int) { names[i], names[j] = names[j], names[i] })
	target := func(i int) int { // the rule that rule i leads to
		if i+1 < k {
			return i + 1
		}
		return r.Intn(k)
	}
	open := -1
	if r.Intn(3) > 0 {
		open = r.Intn(k) // this link is missing, or comes after a required term
	}
	for i, nm := range names {
		lit := tS(pick(r, []string{"x", "y", "z"}))
		to := tR(names[target(i)])
		var b *Term
		switch r.Intn(6) {
		case 0:
			b = tSeq(tQ(tS("u"), 0, r.Intn(2)), to, lit)
		case 1:
			b = tOne(lit, tSeq(tQ(to, 0, 1), lit))
		case 2:
			b = tSeq(tQ(tOne(tS("u"), to), 0, 2), lit)
		case 3:
			b = tOne(to, lit)
		case 4:
			b = tSeq(tOne(tQ(tS("u"), 0, 1), tS("v")), to, lit)
		default:
			b = tSeq(tQ(to, 0, 1), lit)
		}
		if i == open {
			b = pick(r, []*Term{lit, tSeq(lit, to), tOne(lit, tSeq(tQ(tS("w"), 1, 0), tQ(to, 0, 1)))})
		}
		gr.add(nm, b)
	}
	return gr
}

var _ = wbnf.Compile
