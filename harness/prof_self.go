package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// The notation's own parsers, both of them.

func parseWith(p parser.Parsers, rule, in string) (obs *Obs) {
	o, _ := doParse(p, &Case{}, &Run{Rule: rule, In: in})
	return o
}

// mutateText changes a text at the level of characters.
func mutateText(r *rand.Rand, s string, others []string) string {
	rs := []rune(s)
	frag := []string{"->", ";", "(", ")", "|", ">", ":", ",", "{", "}", "*", "?", "+", "=", "%", "%%", "%!", "@", `"`, "'", "`", "/", "{,}", "()", " ", "\n", "//", "a", `\`, "[", "1", ".", ".macro", ".import", "<:", "(?=", "/{", "é"}
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(rs) + 1)
		switch r.Intn(5) {
		case 0, 1: // insert
			rs = append(rs[:i:i], append([]rune(pick(r, frag)), rs[i:]...)...)
		case 2: // delete
			j := i + 1 + r.Intn(2)
			if j > len(rs) {
				j = len(rs)
			}
			rs = append(rs[:i:i], rs[j:]...)
		case 3: // replace
			if i < len(rs) {
				rs = append(rs[:i:i], append([]rune(pick(r, frag)), rs[i+1:]...)...)
			}
		case 4: // move a piece
			j := i + r.Intn(4)
			if j > len(rs) {
				j = len(rs)
			}
			piece := append([]rune{}, rs[i:j]...)
			rs = append(rs[:i:i], rs[j:]...)
			k := r.Intn(len(rs) + 1)
			rs = append(rs[:k:k], append(piece, rs[k:]...)...)
		}
	}
	return string(rs)
}

func coreFlat() (T, G json.RawMessage) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SPEC"), "wbnf_core.json"))
	check(err)
	var x struct{ T, G json.RawMessage }
	check(json.Unmarshal(b, &x))
	return x.T, x.G
}

// chunks splits a case with many runs.
func chunks(c *Case) []*Case {
	var out []*Case
	for i := 0; i < len(c.Runs); i += 40 {
		d := *c
		d.Runs = c.Runs[i:]
		if len(d.Runs) > 40 {
			d.Runs = d.Runs[:40]
		}
		out = append(out, &d)
	}
	return out
}

func init() {
	executors["core"] = executor{run: func(c *Case, _ any, ri int) any {
		r := c.Runs[ri]
		o := parseWith(wbnf.Grammar(), r.Rule, r.In)
		j1, _ := json.Marshal(o)
		j2, _ := json.Marshal(parseWith(wbnf.Core(), r.Rule, r.In))
		if string(j1) != string(j2) {
			return &Obs{O: "differs", Msg: string(j2), P: -1, T: []any{"E"}, Log: []any{}}
		}
		// wbnf.Parse is the same parser and fails exactly when it does
		_, err := wbnf.ParseString(r.In)
		if r.Rule == "grammar" && (err == nil) != (o.O == "ok") {
			return &Obs{O: "differs", Msg: "ParseString", P: -1, T: []any{"E"}, Log: []any{}}
		}
		return o
	}}
	flatteners["core"] = func(c *Case, obs []json.RawMessage) any {
		m := flatParseG(c, newGram().add("a", tS("a")), obs)
		m["T"], m["G"] = coreFlat()
		m["max"] = 60000
		return m
	}
	executors["coreg"] = executor{run: func(c *Case, _ any, ri int) any {
		g := wbnf.Grammar().Grammar()
		switch ri {
		case 1:
			g = wbnf.Core().Grammar()
		case 2:
			p, obs := compileText(c.Text)
			if obs.O != "ok" {
				return obs
			}
			g = p.Grammar()
		}
		return &textObs{O: "ok", G: encGram(fromGrammar(g)), Msg: []int{}}
	}}
	flatteners["coreg"] = func(c *Case, obs []json.RawMessage) any {
		b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SPEC"), "wbnf_enc.json"))
		check(err)
		runs := []any{}
		for _, o := range obs {
			runs = append(runs, map[string]any{"obs": o})
		}
		return map[string]any{"text": codes(c.Text), "cmp": c.Cmp, "want": json.RawMessage(b), "badre": []any{}, "runs": runs}
	}
	profiles["C25g"] = func(r *rand.Rand, n int) []*Case {
		b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SPEC"), "wbnf.wbnf"))
		check(err)
		return []*Case{
			{Kind: "coreg", Text: string(b), Cmp: []string{"same"}, Runs: []*Run{{}, {}, {}}},
		}
	}
	profiles["C25t"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		c := &Case{Kind: "core", Cmp: []string{"kind", "tree"}}
		for len(c.Runs) < n {
			g := newTgen(r)
			ms := []*Macro{}
			if text := printGram(r, g.gram(1+r.Intn(4), 2+r.Intn(3)), ms, false); len(text) < 700 {
				c.Runs = append(c.Runs, &Run{Rule: "grammar", In: text})
			}
		}
		b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SPEC"), "wbnf.wbnf"))
		check(err)
		c.Runs = append(c.Runs, &Run{Rule: "grammar", In: string(b)})
		return append(out, chunks(c)...)
	}
	profiles["C25m"] = func(r *rand.Rand, n int) []*Case {
		c := &Case{Kind: "core", Cmp: []string{"kind", "tree", "fpos"}}
		seen := map[string]bool{}
		for len(c.Runs) < n {
			g := newTgen(r)
			g.budget = 1 + r.Intn(9)
			g.lits, g.scope = textLits[:9], 1
			gr := g.gram(1+r.Intn(2), 1+r.Intn(3))
			text := printGram(r, gr, nil, r.Intn(2) == 0)
			if r.Intn(6) == 0 {
				text = pick(r, []string{`.import a/b.wbnf`, `.import ../x`, `.import /a;`, ".macro m(a,b){a b}", ".macro m(){()}", `.macro m(a){"("a")"};`}) + text
			}
			if r.Intn(8) == 0 {
				text = pick(r, []string{"// x\n", "/*x*/", "/* */", "//\n", "/**/", "/*xy*/"}) + text
			}
			if r.Intn(3) > 0 {
				text = mutateText(r, text, nil)
			}
			if len([]rune(text)) > 80 || seen[text] {
				continue
			}
			seen[text] = true
			c.Runs = append(c.Runs, &Run{Rule: "grammar", In: text})
		}
		return chunks(c)
	}
}
