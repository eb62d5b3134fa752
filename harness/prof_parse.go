package main

import (
	"encoding/json"
	"math/rand"
	"sort"

	"github.com/arr-ai/wbnf/parser"
)

type prepared struct {
	p   parser.Parsers
	msg string
}

func init() {
	executors["parse"] = executor{
		prepare: func(c *Case) any {
			p, msg := compileG(c.G)
			return &prepared{p, msg}
		},
		run: func(c *Case, prep any, ri int) any {
			pr := prep.(*prepared)
			if pr.msg != "" {
				return &Obs{O: "panic", Msg: pr.msg, P: -1, T: []any{"E"}, Log: []any{}}
			}
			o, _ := doParse(pr.p, c, c.Runs[ri])
			if c.Data["twice"] == true {
				o2, _ := doParse(pr.p, c, c.Runs[ri])
				j1, _ := json.Marshal(o)
				j2, _ := json.Marshal(o2)
				if string(j1) != string(j2) {
					o.O = "unstable"
				}
			}
			return o
		},
	}
	flatteners["parse"] = flatParse
}

func extJSON(ext map[string]*Handler) map[string]any {
	out := map[string]any{"zz": map[string]any{"act": "err", "n": 0, "s": []int{}}}
	for n, h := range ext {
		out[n] = map[string]any{"act": h.Act, "n": h.N, "s": codes(h.S)}
	}
	return out
}

func escJSON(e *Esc) map[string]any {
	if e == nil {
		return map[string]any{"on": false, "open": []int{}, "close": []int{}, "act": "", "n": 0, "s": []int{}, "rule": ""}
	}
	return map[string]any{"on": true, "open": codes(e.Open), "close": codes(e.Close), "act": e.Act, "n": e.N, "s": codes(e.S), "rule": e.Rule}
}

// flatParse is the record the machine runs: the grammar is c.G.
func flatParse(c *Case, obs []json.RawMessage) any { return flatParseG(c, c.G, obs) }

func flatParseG(c *Case, g *Gram, obs []json.RawMessage) map[string]any {
	f := flatten(g)
	runs := []any{}
	for i, r := range c.Runs {
		runs = append(runs, map[string]any{
			"rule": r.Rule, "in": codes(r.In), "ext": extJSON(r.Ext), "esc": escJSON(r.Esc), "obs": obs[i],
		})
	}
	refs := append([]string{"zz"}, c.Refs...)
	cmp := c.Cmp
	if cmp == nil {
		cmp = []string{}
	}
	return map[string]any{"T": f.T, "G": f.G, "refs": uniq(refs), "runs": runs, "cmp": cmp, "pure": c.Pure}
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	out := []string{}
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

// grammarOK checks that the regexes are inside the model and that the grammar
// has no left recursion.
func grammarOK(g *Gram) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	if !analyse(g) {
		return false
	}
	flatten(g)
	return true
}

// filterCases completes enumerated cases and drops those outside the model:
// left recursion, unsupported regexes and parses above the step bound.
func filterCases(path string) {
	var out []*Case
	for i, c := range readCases(path) {
		if c.Kind == "text" { // print the grammar
			c.Text = printGram(rand.New(rand.NewSource(int64(i))), c.G, nil, c.Data["plain"] == true)
			if c.Data["want"] != true {
				c.G = nil
			}
			c.Data = nil
			out = append(out, c)
			continue
		}
		if !grammarOK(c.G) || c.Kind == "session" && !astOK(c.G) {
			continue
		}
		c.Refs = append(c.Refs, refsOf(c.G)...)
		c.Pure = !hasKind(c.G, "C", "X", "REF")
		cheapRuns(c, c.G)
		if len(c.Runs) > 0 {
			out = append(out, c)
		}
	}
	writeCases(path, out)
}

func refsOf(g *Gram) []string {
	out := []string{}
	g.walk(func(t *Term) {
		if t.K == "REF" {
			out = append(out, t.R)
		}
	})
	return uniq(out)
}

func hasKind(g *Gram, ks ...string) bool {
	found := false
	g.walk(func(t *Term) {
		for _, k := range ks {
			if t.K == k {
				found = true
			}
		}
	})
	return found
}

func size(g *Gram) int {
	n := 0
	g.walk(func(*Term) { n++ })
	return n
}

var simpleLits = []string{"a", "b", "c", "ab", "aa", "+", "(", ")", ",", "x", "é", "ba", ".", "*"}
var simpleREs = []string{`[ab]`, `\d+`, `[a-c]+`, `a?b`, `a*`, `[^a]`, `x|ab?`, `.`, `(?:ab)+`, `b+?`, `[a-z]{1,2}`, `^a`, `b$`, `a|`, `\w+`}
var groupREs = []string{`(a)(b)?`, `a(b)?`, `(?:(a)|(b))c?`, `"([a-c]*)"`, `(a)b`, `x(y*)z`, `((a)b)`, `[(](\w*)[)]`, `(a)|b(c)`, `(?:a(b))?c`}

func baseOpts() opts {
	return opts{
		w:    map[string]int{"S": 6, "RE": 2, "R": 3, "E": 0, "Seq": 5, "Oneof": 4, "Q": 3, "D": 0, "L": 0, "C": 0, "G": 0, "leaf": 1},
		lits: simpleLits, res: simpleREs, maxRules: 3, depth: 3, maxNodes: 16, maxIn: 12,
	}
}

// parseCases draws grammars until n (grammar, input) runs exist.
func parseCases(r *rand.Rand, n int, mk func(r *rand.Rand) (opts, func(g *Gram) bool), fin func(c *Case)) []*Case {
	var out []*Case
	total := 0
	seen := map[string]bool{}
	for total < n {
		o, accept := mk(r)
		g := &gen{r: r, o: o}
		gr := g.grammar([]string{"a", "b", "c", "d", "s"}, 1+r.Intn(o.maxRules), o.depth)
		big := r.Intn(40) == 0 || r.Float64() < o.bigP
		if big {
			gr = enlarge(r, gr)
			o.maxIn = 150
		}
		if accept != nil && !accept(gr) {
			continue
		}
		if !big && size(gr) > 60 || !grammarOK(gr) {
			continue
		}
		key, _ := json.Marshal(gr)
		if seen[string(key)] {
			continue
		}
		seen[string(key)] = true
		c := &Case{Kind: "parse", G: gr, Refs: refsOf(gr)}
		c.Pure = !hasKind(gr, "C", "X")
		c.Big = big
		addInputs(r, c, gr, o, 6)
		if fin != nil {
			fin(c)
		}
		cheapRuns(c, gr)
		if len(c.Runs) == 0 {
			continue
		}
		total += len(c.Runs)
		out = append(out, c)
	}
	return out
}

func rulesOf(g *Gram) []string {
	var out []string
	for _, n := range g.Names {
		if n != wrapName {
			out = append(out, n)
		}
	}
	return out
}

func addInputs(r *rand.Rand, c *Case, gr *Gram, o opts, k int) {
	alpha := alphabetOf(gr)
	have := map[string]bool{}
	names := rulesOf(gr)
	for tries := 0; tries < 6*k && len(c.Runs) < k; tries++ {
		rule := pick(r, names)
		spaces := hasWrap(gr)
		in := ""
		if c.Big {
			in = sampleBig(r, gr, rule, spaces)
		} else {
			in = sampleRule(r, gr, rule, spaces, nil)
		}
		switch r.Intn(5) {
		case 0, 1:
			in = mutate(r, in, alpha)
		case 2:
			if r.Intn(3) == 0 {
				in = ""
				for i := r.Intn(5); i > 0; i-- {
					in += pick(r, alpha)
				}
			}
		}
		if len([]rune(in)) > o.maxIn || have[rule+"\x00"+in] {
			continue
		}
		have[rule+"\x00"+in] = true
		c.Runs = append(c.Runs, &Run{Rule: rule, In: in})
	}
	if len(c.Runs) == 0 {
		c.Runs = append(c.Runs, &Run{Rule: names[0], In: ""})
	}
}

func hasWrap(g *Gram) bool {
	if _, has := g.Rules[wrapName]; has {
		return true
	}
	w := false
	g.walk(func(t *Term) {
		if t.K == "G" && hasWrap(t.G) {
			w = true
		}
	})
	return w
}

func init() {
	profiles["C01"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, func(r *rand.Rand) (opts, func(*Gram) bool) {
			o := baseOpts()
			o.w["E"] = 1
			o.maxRules = 1 + r.Intn(4)
			o.depth = 2 + r.Intn(3)
			if r.Intn(4) == 0 {
				o.w["D"] = 2
			}
			return o, nil
		}, nil)
	}
}
