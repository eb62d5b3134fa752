package main

import (
	"encoding/json"
	"math/rand"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// posObs describes where the parts of a result are.
type posObs struct {
	O      string `json:"o"`
	Msg    string `json:"msg,omitempty"`
	Leaves []any  `json:"leaves"`
	Left   []any  `json:"left"`
	Ast    []any  `json:"ast"`
	Hulls  []any  `json:"hulls"`
}

func lookAt(s parser.Scanner) any {
	if s.IsNil() {
		return map[string]any{"nil": true, "s": []int{}, "file": []int{}, "at": 0, "line": 0, "col": 0}
	}
	line, col := s.Position()
	return map[string]any{"nil": false, "s": bytesOf(s.String()), "file": bytesOf(s.Filename()), "at": s.Offset(), "line": line, "col": col}
}

func positions(p parser.Parsers, c *Case, r *Run) *posObs {
	o := &posObs{Leaves: []any{}, Left: []any{}, Ast: []any{}, Hulls: []any{}}
	pre, _ := r.Data["pre"].(string)
	suf, _ := r.Data["suf"].(string)
	file, _ := r.Data["file"].(string)
	src := parser.NewScannerWithFilename(pre+r.In+suf, file)
	input := src
	if pre+suf != "" {
		input = src.Slice(len(pre), len(pre)+len(r.In))
	}
	var tree parser.TreeElement
	msg := guarded(func() {
		te, err := p.ParseWithExternals(parser.Rule(r.Rule), input, nil)
		switch err := err.(type) {
		case nil:
			o.O, tree = "ok", te
		case parser.UnconsumedInputError:
			o.O, tree = "rest", err.Result()
			o.Left = append(o.Left, lookAt(*err.Residue()))
		default:
			o.O = errKind(err)
			o.Left = append(o.Left, lookAt(*input))
		}
		if tree == nil {
			return
		}
		var leaves func(e parser.TreeElement)
		leaves = func(e parser.TreeElement) {
			switch e := e.(type) {
			case parser.Node:
				for _, k := range e.Children {
					leaves(k)
				}
			case parser.Scanner:
				o.Leaves = append(o.Leaves, lookAt(e))
			}
		}
		leaves(tree)
		seen := map[string]bool{}
		add := func(to *[]any, which string, s parser.Scanner) {
			if l := lookAt(s); !s.IsNil() && !seen[which+js(l)] {
				seen[which+js(l)] = true
				*to = append(*to, l)
			}
		}
		if n, ok := tree.(parser.Node); ok && n.Tag != r.Rule {
			return
		}
		var nodes func(n ast.Node)
		nodes = func(n ast.Node) {
			switch n := n.(type) {
			case ast.Leaf:
				add(&o.Ast, "a", n.Scanner())
			case ast.Branch:
				add(&o.Hulls, "h", n.Scanner())
				for _, name := range sortedNames(n) {
					switch c := n[name].(type) {
					case ast.One:
						nodes(c.Node)
					case ast.Many:
						for _, x := range c {
							nodes(x)
						}
					}
				}
			}
		}
		nodes(ast.FromParserNode(p.Grammar(), tree))
	})
	if msg != "" {
		o.O, o.Msg = "panic", msg
	}
	return o
}

func sortedNames(b ast.Branch) []string {
	var out []string
	for n := range b {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func init() {
	executors["pos"] = executor{
		prepare: executors["session"].prepare,
		run: func(c *Case, prep any, ri int) any {
			pr := prep.(*prepared)
			if pr.msg != "" {
				return &posObs{O: "panic", Msg: pr.msg, Leaves: []any{}, Left: []any{}, Ast: []any{}, Hulls: []any{}}
			}
			return positions(pr.p, c, c.Runs[ri])
		},
	}
	flatteners["pos"] = func(c *Case, obs []json.RawMessage) any {
		m := flatParseG(c, c.G, obs)
		for i, x := range m["runs"].([]any) {
			d := c.Runs[i].Data
			for _, k := range []string{"pre", "suf", "file"} {
				s, _ := d[k].(string)
				x.(map[string]any)[k] = bytesOf(s)
			}
		}
		return m
	}
	profiles["C13p"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, func(r *rand.Rand) (opts, func(*Gram) bool) {
			o := baseOpts()
			o.w["R"] = 4
			o.w["E"] = 1
			o.depth = 2 + r.Intn(3)
			o.maxRules = 1 + r.Intn(4)
			o.nameP, o.names = 0.2, nameSet
			o.lits = []string{"a", "b", "\n", "é", "ab", "日", "\n\n", "b\na", ""}
			o.res = append([]string{`\n+`, `[^a]`, `.`, `(?s:.)b`, `\s*`}, simpleREs...)
			if r.Intn(3) == 0 {
				o.w["D"], o.assocP, o.leadP = 4, 0.4, 0.3
			}
			if r.Intn(4) == 0 {
				o.stackP = 0.5
			}
			if r.Intn(3) == 0 {
				o.wrapP = 1
			}
			if r.Intn(5) == 0 {
				o.w["REF"] = 3
			}
			if r.Intn(5) == 0 {
				o.w["L"] = 2
			}
			if r.Intn(5) == 0 {
				o.cutSeq = 0.2
			}
			if r.Intn(5) == 0 {
				o.scopeN, o.w["G"] = 2, 4
			}
			return o, astOK
		}, func(c *Case) {
			c.Kind = "pos"
			for _, run := range c.Runs {
				run.Data = map[string]any{}
				if r.Intn(2) == 0 {
					run.Data["file"] = pick(r, []string{"f.txt", "d/é"})
				}
				if r.Intn(3) == 0 {
					run.Data["pre"] = pick(r, []string{"x", "\n", "é\nzz", "a\n\n", ""})
					run.Data["suf"] = pick(r, []string{"", "a", "\nb", "日"})
					if r.Intn(6) == 0 { // far into a file
						run.Data["pre"] = strings.Repeat(pick(r, []string{"x", "\n", "é\nz", "日", "ab\n"}), 8+r.Intn(60)*(1+4*r.Intn(2))) + pick(r, []string{"", "é", "\n"})
					}
				}
			}
		})
	}
}
