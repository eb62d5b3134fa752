package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// tgen draws abstract grammars that a text can denote.
type tgen struct {
	r       *rand.Rand
	w       map[string]int
	lits    []string
	res     []string
	names   []string // rules that may be referred to
	later   []string // rules that come later (no cycles)
	params  []string
	macros  []*Macro
	tnames  []string // term names
	inStack bool
	apart   bool
	scope   int
	budget  int
	wild    bool // any literal at all
	loose   bool // optional bodies etc. may hold anything
}

func (g *tgen) p(x float64) bool { return g.r.Float64() < x }

func (g *tgen) kind(ks ...string) string {
	sum := 0
	for _, k := range ks {
		sum += g.w[k]
	}
	if sum == 0 {
		return "S"
	}
	n := g.r.Intn(sum)
	for _, k := range ks {
		if n < g.w[k] {
			return k
		}
		n -= g.w[k]
	}
	return "S"
}

func (g *tgen) ref() *Term {
	if g.inStack && g.p(0.5) {
		return tR("@")
	}
	if len(g.params) > 0 && g.p(0.6) {
		return tR(pick(g.r, g.params))
	}
	if len(g.later) > 0 && g.p(0.9) {
		return tR(pick(g.r, g.later))
	}
	if len(g.names) > 0 && g.p(0.3) {
		return tR(pick(g.r, g.names))
	}
	return tS(pick(g.r, g.lits))
}

func (g *tgen) leaf() *Term {
	switch g.kind("S", "RE", "R", "E", "X", "REF") {
	case "RE":
		return tRE(pick(g.r, g.res))
	case "R":
		return g.ref()
	case "E":
		return tSeq()
	case "X":
		return tX(pick(g.r, []string{"ext", "e2"}))
	case "REF":
		var d *string
		if g.p(0.5) {
			s := g.lit().S
			d = &s
		}
		return tREF(pick(g.r, append([]string{"x", "op"}, g.names...)), d)
	}
	return g.lit()
}

// lit draws a literal, now and then one nobody has thought of.
func (g *tgen) lit() *Term {
	if !g.wild || g.p(0.7) {
		return tS(pick(g.r, g.lits))
	}
	s := ""
	for i := g.r.Intn(7); i > 0; i-- {
		s += pick(g.r, []string{"`", "`", `"`, `"`, "'", "'", `\`, "\\", "\n", "\x00", "\x7f", "é", "n", "x", "0", "a", " ", "‵", "🙂", "/", "*", ";"})
	}
	return tS(s)
}

// names used directly by the items of a sequence
func itemName(t *Term) string {
	for t.K == "Q" || t.K == "D" {
		t = t.T
	}
	if t.K == "N" {
		return t.Nm
	}
	return ""
}

func (g *tgen) term(d int) *Term {
	g.budget--
	if d <= 0 || g.budget < 0 {
		return g.leaf()
	}
	switch g.kind("leaf", "Seq", "Oneof", "Q", "D", "L", "N", "G", "M") {
	case "Seq":
		s := tSeq()
		used := map[string]bool{}
		for i := 2 + g.r.Intn(3); i > 0; i-- {
			x := g.term(d - 1)
			if n := itemName(x); n != "" {
				if used[n] {
					x = g.leaf()
				}
				used[n] = true
			}
			s.Xs = append(s.Xs, x)
		}
		return s
	case "Oneof":
		s := tOne()
		for i := 2 + g.r.Intn(3); i > 0; i-- {
			s.Xs = append(s.Xs, g.term(d-1))
		}
		return s
	case "Q":
		mm := pick(g.r, [][2]int{{0, 1}, {0, 0}, {1, 0}, {0, 1}, {0, 0}, {1, 0}, {0, 2}, {1, 2}, {2, 3}, {2, 0}, {2, 2}, {1, 1}, {10, 12}, {0, 3}})
		if g.wild && g.p(0.03) {
			mm = pick(g.r, [][2]int{{100, 0}, {0, 128}, {255, 256}, {256, 256}, {7, 300}, {1000, 65536}, {0, 2147483647}, {65535, 0}})
		}
		t := tQ(g.term(d-1), mm[0], mm[1])
		for g.p(0.15) {
			mm = pick(g.r, [][2]int{{0, 1}, {0, 0}, {1, 0}, {2, 3}})
			t = tQ(t, mm[0], mm[1])
		}
		return t
	case "D":
		return tD(g.term(d-1), g.term(d-2), pick(g.r, []int{0, 0, 1, -1}), g.p(0.25), g.p(0.25))
	case "L":
		return tL(g.term(d - 1))
	case "N":
		t := g.term(d - 1)
		return tN(pick(g.r, g.tnames), t)
	case "G":
		if g.scope <= 0 || g.inStack {
			return g.leaf()
		}
		return g.nested(d)
	case "M":
		if len(g.macros) == 0 {
			return g.leaf()
		}
		m := pick(g.r, g.macros)
		c := tM(m.Nm)
		for range m.Ps {
			c.Xs = append(c.Xs, g.term(d-1))
		}
		return c
	}
	return g.leaf()
}

func (g *tgen) nested(d int) *Term {
	save := *g
	pool := []string{"a", "n1", "n2", "b", "inner"}
	if g.apart { // names that no rule outside has
		pool = []string{"n1", "n2", "n3", "inner"}
	}
	g.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	n := 1 + g.r.Intn(3)
	names := pool[:n]
	g.scope--
	sub := newGram()
	g.names = nil
	outer := []string{} // names shadowed inside would refer to themselves
	for _, o := range save.later {
		shadowed := false
		for _, nm := range names {
			shadowed = shadowed || nm == o
		}
		if !shadowed {
			outer = append(outer, o)
		}
	}
	for i, nm := range names {
		g.later = append(append([]string{}, names[i+1:]...), outer...)
		sub.add(nm, g.body(d-1))
	}
	if g.p(0.2) {
		sub.add(wrapName, g.wrap())
	}
	g.later = append(append([]string{}, names...), outer...)
	g.budget += 3
	t := g.term(d - 1)
	b := g.budget
	*g = save
	g.budget = b
	return tG(t, sub)
}

func (g *tgen) wrap() *Term {
	w := tRE(pick(g.r, []string{`\s*()\s*`, `[ \t]*()`, `(?:\s|//.*\n)*()`}))
	if g.p(0.3) {
		return tOne(tS(pick(g.r, g.lits)), w)
	}
	return w
}

// noLeadAt puts a literal in front of a term that refers to @.
func noLeadAt(t *Term) *Term {
	has := false
	t.walk(func(x *Term) { has = has || x.K == "R" && x.R == "@" })
	if has {
		return tSeq(tS("a"), t)
	}
	return t
}

func (g *tgen) body(d int) *Term {
	if g.w["Stack"] > 0 && g.p(float64(g.w["Stack"])/20) {
		g.inStack = true
		s := tStack()
		for i := 2 + g.r.Intn(3); i > 0; i-- {
			x := g.term(d - 1)
			if i == 1 { // the last layer starts over, which must not be all it does
				x = noLeadAt(x)
			}
			s.Xs = append(s.Xs, x)
		}
		g.inStack = false
		return s
	}
	return g.term(d)
}

var rulePool = []string{"a", "b", "c", "expr", "stmt_1", "Term", "a_very_long_Name_of_a_rule_with_0123456789_digits_in_it", "_x", ".d", "aa"}
var textLits = []string{"a", "b", "c", "+", "(", ")", ",", "if", "else", "é", "", "a b", "\n", `\`, `"`, "'", "`", "日本", "->", "%", "x\ty", "0", "🙂", "\x7f", "\x01", "\U0010fffd", "\u07ff\uffff", "ÿ", "```", "`a``b`"}
var textREs = append([]string{``, `a?b`, `x|ab?`, `(?:ab)+`, `(a)(b)?`, `a{2,3}`, `a{2}`, `\{`, ` `, `a b`, `\\`, `\\ x`, `[ \t]+`, `é+`, `/`, `a/b`, `(?i)x`,
	`(?s:.)`, `#`, `;`, `  `, `a  b`, `\/\*`, `"`, `[^\\"]*`, `\}x`, `[[:alpha:]]\d`, `x{,2}`, `(?P<n>a)`, `\\_`, `_`}, bareREs...)

func (g *tgen) gram(n, d int) *Gram {
	pool := append([]string{}, rulePool...)
	g.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	names := pool[:n]
	g.names = names
	out := newGram()
	for i, nm := range names {
		g.later = append([]string{}, names[i+1:]...)
		out.add(nm, g.body(d))
	}
	if g.p(0.3) {
		out.add(wrapName, g.wrap())
	}
	return out
}

func newTgen(r *rand.Rand) *tgen {
	return &tgen{r: r, lits: textLits, res: textREs, tnames: []string{"x", "y", "op", "nm"}, scope: 2, budget: 14 + r.Intn(20),
		w: map[string]int{"S": 6, "RE": 3, "R": 4, "E": 1, "X": 1, "REF": 1, "leaf": 1, "Seq": 6, "Oneof": 4, "Q": 4, "D": 3, "L": 1, "N": 3, "G": 1, "Stack": 4}}
}

// ---------------------------------------------------------------------------
// execution

type textObs struct {
	O   string `json:"o"`
	G   any    `json:"g"`
	Msg []int  `json:"msg"`
	Str string `json:"str,omitempty"`
}

func compileText(text string) (p parser.Parsers, obs *textObs) {
	obs = &textObs{G: []any{}, Msg: []int{}}
	defer func() {
		if e := recover(); e != nil {
			obs.O, obs.Str = "panic", fmt.Sprint(e)
		}
	}()
	p, err := wbnf.Compile(text, nil)
	if err != nil {
		m := err.Error()
		if len(m) > 3000 {
			m = m[:3000]
		}
		obs.O, obs.Msg = "err", codes(m)
		return p, obs
	}
	obs.O = "ok"
	return p, obs
}

func init() {
	executors["text"] = executor{run: func(c *Case, _ any, ri int) any {
		p, obs := compileText(c.Text)
		if obs.O == "ok" {
			obs.G = encGram(fromGrammar(p.Grammar()))
			for _, in := range c.Runs[ri].Ins {
				for rule := range p.Grammar() {
					if strings.HasPrefix(string(rule), wrapName) {
						continue
					}
					func() {
						defer func() {
							if e := recover(); e != nil {
								obs.O, obs.Str = "panic", fmt.Sprint(e)
							}
						}()
						p.Parse(rule, parser.NewScanner(in))
					}()
				}
			}
		}
		return obs
	}}
	flatteners["text"] = func(c *Case, obs []json.RawMessage) any {
		want := any([]any{})
		if c.G != nil {
			want = encGram(c.G)
		}
		bad := []any{}
		for _, s := range c.Badre {
			bad = append(bad, codes(s))
		}
		var o map[string]any
		json.Unmarshal(obs[0], &o)
		if o["g"] == nil {
			o = map[string]any{"o": o["o"], "g": []any{}, "msg": []any{}}
		}
		return map[string]any{"text": codes(c.Text), "cmp": c.Cmp, "want": want, "badre": bad,
			"runs": []any{map[string]any{"obs": o}}}
	}
}

func textCase(r *rand.Rand, g *Gram, ms []*Macro, plain bool, cmp ...string) *Case {
	return &Case{Kind: "text", Text: printGram(r, g, ms, plain), G: g, Cmp: cmp, Runs: []*Run{{}}}
}

func init() {
	profiles["C18"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			g := newTgen(r)
			g.wild = true
			gr, limit := g.gram(1+r.Intn(3), 2+r.Intn(3)), 260
			if r.Intn(25) == 0 {
				gr, limit = enlarge(r, gr), 600
			}
			if c := textCase(r, gr, nil, false, "grammar"); len(c.Text) < limit {
				out = append(out, c)
			}
		}
		return append(out, &Case{Kind: "text", Text: `/* hello */ a -> "x";`, Cmp: []string{"accept"}, Known: "block-comment", Runs: []*Run{{}}})
	}
}
