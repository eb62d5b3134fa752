package main

import (
	"encoding/json"
	"math/rand"

	"github.com/arr-ai/wbnf/cmd/codegen"
)

// Grammars turned into Go expressions and back.

type genObs struct {
	O     string `json:"o"`
	Rules any    `json:"rules"`
	Expr  any    `json:"expr"`
	Again any    `json:"again"`
	Twice bool   `json:"twice"`
	Msg   string `json:"msg,omitempty"`
	Src   string `json:"src,omitempty"`
}

func generated(c *Case) *genObs {
	o := &genObs{O: "ok", Rules: []any{}, Expr: []any{}, Again: []any{}}
	msg := guarded(func() {
		p := toGrammar(c.G).Compile(nil)
		o.Rules = encGram(fromGrammar(p.Grammar()))
		src := codegen.MakeGrammarString(p.Grammar()).String()
		o.Twice = true
		for k := 0; k < 5; k++ {
			if codegen.MakeGrammarString(p.Grammar()).String() != src {
				o.Twice = false
			}
		}
		g, err := evalGrammar(src)
		if err != nil {
			o.Msg, o.Src = err.Error(), src
			return
		}
		o.Expr = encGram(fromGrammar(g))
		o.Again = encGram(fromGrammar(g.Compile(nil).Grammar()))
	})
	if msg != "" {
		o.O, o.Msg = "panic", msg
	}
	return o
}

// addCuts wraps some literals in commit points.
func addCuts(r *rand.Rand, g *Gram) *Gram {
	return mapGram(g, func(t *Term) *Term {
		if t.K == "S" && r.Intn(4) == 0 {
			return tC(t)
		}
		return t
	})
}

// aliasLoop tells whether some rule or layer is, through nothing but references,
// itself.
func aliasLoop(g *Gram) bool {
	type at struct {
		n string
		i int
	}
	next := func(x at) (at, bool) {
		t := g.Rules[x.n]
		if t == nil {
			return x, false
		}
		layers := []*Term{t}
		if t.K == "Stack" {
			layers = t.Xs
		}
		l := layers[x.i]
		for (l.K == "Seq" || l.K == "Oneof") && len(l.Xs) == 1 {
			l = l.Xs[0]
		}
		switch {
		case l.K != "R":
			return x, false
		case l.R == "@":
			return at{x.n, (x.i + 1) % len(layers)}, true
		}
		return at{l.R, 0}, true
	}
	for n, t := range g.Rules {
		k := 1
		if t.K == "Stack" {
			k = len(t.Xs)
		}
		for i := 0; i < k; i++ {
			x, ok := at{n, i}, true
			for steps := 0; ok; steps++ {
				if steps > 200 {
					return true
				}
				x, ok = next(x)
			}
		}
	}
	loop := false
	g.walk(func(t *Term) { loop = loop || t.K == "G" && aliasLoop(t.G) })
	return loop
}

func init() {
	executors["codegen"] = executor{run: func(c *Case, _ any, ri int) any { return generated(c) }}
	flatteners["codegen"] = func(c *Case, obs []json.RawMessage) any {
		return map[string]any{"want": encGram(c.G), "runs": []any{map[string]any{"obs": obs[0]}}}
	}
	profiles["C23"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			g := newTgen(r)
			g.wild = true
			g.lits = append([]string{"\r", "a\r\nb", "\x00", "\ufeff", "x\ufeff", "`", "``", "`+`", "\"", "%s", "%", "\\n", "{{", "\x1b", "\u2028", "\t"}, textLits...)
			g.res = append([]string{"`", "[`\"]", `\x60`, "\r?\n", "a\rb", "%d", "\ufeff"}, g.res...)
			gr := g.gram(1+r.Intn(4), 1+r.Intn(4))
			if r.Intn(12) == 0 { // more layers than digits
				s := tStack()
				for i := 9 + r.Intn(5); i > 0; i-- {
					s.Xs = append(s.Xs, pick(r, []*Term{
						tSeq(tR("@"), tS(pick(r, g.lits))), tOne(tR("@"), tSeq(tS("("), tR("@"), tS(")"))),
						tD(tR("@"), tS("+"), r.Intn(3)-1, false, r.Intn(2) == 0), tQ(tR("@"), 1, 0)}))
				}
				s.Xs = append(s.Xs, tOne(tRE("[a-z]"), tSeq(tS("("), tR("@"), tS(")"))))
				gr.add(pick(r, []string{"stack", "st", "a"}), s)
			}
			if r.Intn(3) == 0 {
				gr = addCuts(r, gr)
			}
			limit := 120
			if r.Intn(25) == 0 {
				gr, limit = enlarge(r, gr), 400
			}
			if size(gr) < limit && !aliasLoop(gr) {
				out = append(out, &Case{Kind: "codegen", G: gr, Runs: []*Run{{}}})
			}
		}
		return out
	}
}
