package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/gotree"
	"github.com/arr-ai/wbnf/wbnf"
)

type query struct {
	Name  string `json:"name"`
	Other string `json:"other"`
	One   []any  `json:"one"`
	Many  []any  `json:"many"`
	First []any  `json:"first"`
	All   []any  `json:"all"`
	Which []any  `json:"which"`
}

type showObs struct {
	O      string  `json:"o"`
	Ast    any     `json:"ast"`
	Ast2   any     `json:"ast2"`
	Show   []int   `json:"show"`
	EqSelf bool    `json:"eqself"`
	Eq     []bool  `json:"eq"`
	Choice string  `json:"choice"`
	Views  [][]int `json:"views"`
	Qs     []query `json:"qs"`
}

func nodesOf(in string, ns ...ast.Node) []any {
	out := []any{}
	for _, n := range ns {
		if n != nil {
			out = append(out, astOf(in, n))
		}
	}
	return out
}

// showAst looks at an AST in every way there is.
func showAst(pr *prepared, c *Case, r *Run) any {
	s := &showObs{Ast: []any{"NONE"}, Ast2: []any{"NONE"}, Show: []int{}, Eq: []bool{}, Qs: []query{}, Views: [][]int{}}
	of := func(in string) ast.Branch {
		o, tree := doParse(pr.p, c, &Run{Rule: r.Rule, In: in})
		s.O = o.O
		if tree == nil {
			return nil
		}
		return ast.FromParserNode(pr.p.Grammar(), tree)
	}
	var a, b ast.Branch
	if guarded(func() { a = of(r.In); s.Ast = astOf(r.In, a) }) != "" || a == nil {
		s.Ast = []any{"NONE"}
		return s
	}
	two := len(r.Ins) > 0
	if two && (guarded(func() { b = of(r.Ins[0]); s.Ast2 = astOf(r.Ins[0], b) }) != "" || b == nil) {
		s.Ast2 = []any{"NONE"}
		return s
	}
	if !two {
		b = a
	}
	if msg := guarded(func() {
		s.Show = codes(a.String())
		for i := 0; i < 3 && !two; i++ {
			s.Views = append(s.Views, codes(ast.BuildTreeView(r.Rule, a, true)))
		}
		s.EqSelf = a.ContentEquals(a)
		s.Eq = []bool{a.ContentEquals(b), b.ContentEquals(a)}
		s.Choice = strconv.Itoa(ast.Choice(a))
		names := showNames(c.G)
		for i, nm := range names {
			q := query{Name: nm, Other: names[(i+1)%len(names)], Which: []any{}}
			q.One = nodesOf(r.In, a.One(nm))
			q.Many = nodesOf(r.In, a.Many(nm)...)
			q.First = nodesOf(r.In, ast.First(a, nm))
			q.All = nodesOf(r.In, ast.All(a, nm)...)
			if w, kids := ast.Which(a, "zz", nm, q.Other); kids != nil {
				q.Which = append(q.Which, w)
			}
			s.Qs = append(s.Qs, q)
		}
	}); msg != "" {
		s.Show = codes(msg)
		s.Views = append(s.Views, codes(msg))
		s.Eq = []bool{}
	}
	return s
}

// showNames are the names that the branches of ASTs may have.
func showNames(g *Gram) []string {
	names := []string{"", "@choice", "@rule", "@empty", ":", "zz"}
	var gram func(g *Gram)
	gram = func(g *Gram) {
		names = append(names, g.Names...)
	}
	gram(g)
	g.walk(func(t *Term) {
		switch t.K {
		case "N":
			names = append(names, t.Nm)
		case "REF", "X", "R":
			names = append(names, t.R)
		case "G":
			gram(t.G)
		}
	})
	return uniq(names)
}

func flatShow(c *Case, obs []json.RawMessage) any {
	if c.Data["self"] == true {
		return flatSelf(c, obs)
	}
	f := flatParseG(c, c.G, obs)
	nm := map[string]any{"@prefix": codes("@prefix"), "@suffix": codes("@suffix")}
	for _, n := range showNames(c.G) {
		nm[n] = codes(n)
	}
	most := 0
	c.G.walk(func(t *Term) {
		if t.K == "Oneof" && len(t.Xs) > most {
			most = len(t.Xs)
		}
	})
	for i := 0; i < most; i++ {
		nm[strconv.Itoa(i)] = codes(strconv.Itoa(i))
	}
	f["nm"] = nm
	for i, x := range f["runs"].([]any) {
		m := x.(map[string]any)
		if ins := c.Runs[i].Ins; len(ins) > 0 {
			m["in2"] = codes(ins[0])
		}
		m["fault"], _ = c.Runs[i].Data["fault"].(string)
		m["tree"] = c.Runs[i].Data["tree"] == true
	}
	return f
}

// flatSelf is flatShow for the grammar of grammars.
func flatSelf(c *Case, obs []json.RawMessage) any {
	f := flatteners["core"](c, obs).(map[string]any)
	nm := map[string]any{}
	add := func(n string) { nm[n] = codes(n) }
	for _, n := range showNames(fromGrammar(wbnf.Grammar().Grammar())) {
		add(n)
	}
	for i := 0; i < 20; i++ {
		add(strconv.Itoa(i))
	}
	for i := 1; i < 9; i++ { // the layers carry the name of their rule
		nm[fmt.Sprintf("term@%d", i)] = codes("term")
	}
	f["nm"] = nm
	for i, x := range f["runs"].([]any) {
		m := x.(map[string]any)
		m["fault"], _ = c.Runs[i].Data["fault"].(string)
		m["tree"] = c.Runs[i].Data["tree"] == true
	}
	return f
}

// layout changes the blanks between the tokens of in.
func layout(r *rand.Rand, in string) string {
	out := ""
	for _, c := range in {
		if c == ' ' && r.Intn(2) == 0 {
			continue
		}
		out += string(c)
		if r.Intn(4) == 0 {
			out += " "
		}
	}
	if r.Intn(2) == 0 {
		out = " " + out
	}
	return out
}

type cliObs struct {
	O    string `json:"o"`
	Exit int    `json:"exit"`
	Out  []int  `json:"out"`
}

// testCommand runs `wbnf test` on a grammar and an input.
func testCommand(c *Case, r *Run) any {
	dir, err := os.MkdirTemp("", "verif-test")
	check(err)
	defer os.RemoveAll(dir)
	text, rule, file, input := c.Text, r.Rule, "g.wbnf", "in.txt"
	check(os.WriteFile(filepath.Join(dir, "in.txt"), []byte(r.In), 0o644))
	stdin := ""
	fault, _ := r.Data["fault"].(string)
	switch fault {
	case "no rule":
		rule = "nowhere"
	case "no file":
		file = "none.wbnf"
	case "no input":
		input = "none.txt"
	case "bad grammar":
		text += "\nlast -> nowhere \"x\";\n"
	case "no grammar":
		text += "\nlast -> -> ;\n"
	}
	check(os.WriteFile(filepath.Join(dir, "g.wbnf"), []byte(text), 0o644))
	args := []string{"test", "--grammar", file, "--start", rule}
	if c.Data["self"] == true { // a grammar is the input
		args = []string{"test"}
	}
	if r.Data["tree"] == true {
		args = append(args, "--tree")
	}
	if r.Data["stdin"] == true && fault != "no input" {
		stdin = r.In
		if len(r.In)%2 == 1 {
			args = append(args, "--input", "-")
		}
	} else {
		args = append(args, "--input", input)
	}
	rc, out, _ := wbnfCommand(dir, stdin, args...)
	return &cliObs{O: "ran", Exit: rc, Out: codes(out)}
}

func showGrammar(r *rand.Rand) (opts, func(*Gram) bool) {
	o := baseOpts()
	o.w["E"] = 1
	o.w["R"] = 5
	o.depth = 2 + r.Intn(3)
	o.maxRules = 1 + r.Intn(4)
	o.nameP, o.names = 0.3, nameSet
	o.lits = append(append([]string{}, simpleLits...), `"`, "'", "\n", "`", "\x01", "{", "]", ":", `a"b`, `\`)
	if r.Intn(2) == 0 {
		o.w["D"], o.assocP, o.leadP = 5, 0.5, 0.25
	}
	if r.Intn(3) == 0 {
		o.stackP = 0.6
	}
	if r.Intn(4) == 0 {
		o.w["REF"] = 3
	}
	if r.Intn(6) == 0 {
		o.w["L"] = 2
	}
	if r.Intn(5) == 0 {
		o.scopeN, o.w["G"] = 2, 4
	}
	if r.Intn(2) == 0 {
		o.wrapP = 1
	}
	return o, astOK
}

func init() {
	executors["show"] = executor{
		prepare: func(c *Case) any {
			p, msg := compileG(c.G)
			return &prepared{p, msg}
		},
		run: func(c *Case, prep any, ri int) any { return showAst(prep.(*prepared), c, c.Runs[ri]) },
	}
	executors["test"] = executor{run: func(c *Case, _ any, ri int) any { return testCommand(c, c.Runs[ri]) }}
	flatteners["show"] = flatShow
	flatteners["test"] = flatShow

	profiles["C28"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, showGrammar, func(c *Case) {
			c.Kind = "show"
			c.Cmp = []string{"print", "equal", "query"}
			rs := append([]*Run{}, c.Runs...)
			for _, run := range rs {
				if hasWrap(c.G) && r.Intn(2) == 0 {
					run.Ins = []string{layout(r, run.In)}
				} else if o := pick(r, rs); o.Rule == run.Rule && r.Intn(5) > 0 {
					run.Ins = []string{o.In}
				}
				if len(run.Ins) > 0 && !cheap(c.G, &Run{Rule: run.Rule, In: run.Ins[0]}, 250) {
					run.Ins = nil
				}
			}
		})
	}

	profiles["C31"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, showGrammar, func(c *Case) {
			c.Kind = "show"
			c.Cmp = []string{"view"}
		})
	}
	executors["draw"] = executor{run: func(c *Case, _ any, ri int) any { return drawings(c) }}
	flatteners["draw"] = func(c *Case, obs []json.RawMessage) any {
		return map[string]any{"tree": encTree(c.Data["tree"]), "runs": []any{map[string]any{"obs": obs[0]}}}
	}
	profiles["C31d"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			budget := 3 + r.Intn(30)
			out = append(out, &Case{Kind: "draw", Data: map[string]any{"tree": randTree(r, 1+r.Intn(5), &budget)}, Runs: []*Run{{}}})
		}
		return out
	}

	profiles["C29"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		total := 0
		for total < n {
			var c *Case
			parseCases(r, 1, showGrammar, func(x *Case) { c = x })
			for _, t := range c.G.Rules {
				if t.K == "Stack" && len(t.Xs) < 2 {
					c = nil
					break
				}
			}
			if c == nil || hasKind(c.G, "G") {
				continue
			}
			single := false
			c.G.walk(func(t *Term) { single = single || (t.K == "Seq" || t.K == "Oneof") && len(t.Xs) == 1 })
			if single {
				continue
			}
			c.Text = printGram(r, c.G, nil, true)
			p, obs := compileText(c.Text)
			if obs.O != "ok" || strings.Contains(c.Text, "\x00") {
				continue
			}
			c.G = regroup(fromGrammar(p.Grammar()))
			c.Pure = false
			c.Kind, c.Cmp = "test", []string{"cli"}
			for _, run := range c.Runs {
				f := ""
				if r.Intn(8) == 0 {
					f = pick(r, []string{"no rule", "no file", "no input", "bad grammar", "no grammar"})
				}
				run.Data = map[string]any{"fault": f, "stdin": r.Intn(3) == 0, "tree": r.Intn(3) == 0}
			}
			cheapRuns(c, c.G)
			total += len(c.Runs)
			if len(c.Runs) > 0 {
				out = append(out, c)
			}
		}
		return append(out, selfCases(r, n/20)...)
	}
}

// selfCases have the tool read grammars.
func selfCases(r *rand.Rand, n int) []*Case {
	var out []*Case
	for len(out) < n {
		c := &Case{Kind: "test", Cmp: []string{"cli"}, Data: map[string]any{"self": true}}
		for len(c.Runs) < 4 {
			g := newTgen(r)
			g.lits = nil
			for _, s := range textLits { // Show writes wide characters as they are, Go only those it can print
				if !strings.ContainsAny(s, "\U0010fffd\uffff") {
					g.lits = append(g.lits, s)
				}
			}
			g.budget = 1 + r.Intn(9)
			gr := g.gram(1+r.Intn(2), 1+r.Intn(3))
			text := printGram(r, gr, nil, r.Intn(2) == 0)
			run := &Run{Rule: "grammar", In: text, Data: map[string]any{"fault": "", "stdin": r.Intn(3) == 0, "tree": r.Intn(2) == 0}}
			switch r.Intn(8) {
			case 0:
				run.In, run.Data["fault"] = text+"\nlast -> nowhere \"x\";\n", "bad grammar"
			case 1:
				run.In, run.Data["fault"] = text+"\nlast -> -> ;\n", "no grammar"
			case 2:
				run.Data["fault"] = "no input"
			}
			if _, obs := compileText(text); len([]rune(text)) > 80 || obs.O != "ok" {
				continue
			}
			c.Runs = append(c.Runs, run)
		}
		out = append(out, c)
	}
	return out
}

// A tree to draw is [text, items].
func randTree(r *rand.Rand, d int, budget *int) []any {
	text := pick(r, []string{"a", "rule(x)", "", "7", "10", "9‣x", "12‣`a`", "0‣b", "03", "a\nb", "\n", "5\n\n", "x ‣ y", "é", "123x", "1234‣x", "12345‣", "99999999", "100000‣x", "-4", "@choice"})
	items := []any{}
	for i := r.Intn(5); d > 0 && i > 0; i-- {
		*budget--
		if *budget < 0 {
			break
		}
		items = append(items, randTree(r, d-1, budget))
	}
	if r.Intn(60) == 0 { // many of the same place
		for i := 0; i < 15+r.Intn(20); i++ {
			items = append(items, []any{pick(r, []string{"b", "a", "c", "7", "7x", "x"}), []any{}})
		}
	}
	return []any{text, items}
}

func encTree(t any) any {
	p := t.([]any)
	items := []any{}
	for _, x := range p[1].([]any) {
		items = append(items, encTree(x))
	}
	return []any{codes(p[0].(string)), items}
}

type drawObs struct {
	Drawn  []int `json:"drawn"`
	Place  int   `json:"place"`
	Sorted []int `json:"sorted"`
	Place2 int   `json:"place2"`
}

func drawings(c *Case) any {
	var build func(t any) gotree.Tree
	build = func(t any) gotree.Tree {
		p := t.([]any)
		out := gotree.New(p[0].(string))
		for _, x := range p[1].([]any) {
			if q := x.([]any); len(q[1].([]any)) == 0 {
				out.Add(q[0].(string))
			} else {
				out.AddTree(build(x))
			}
		}
		return out
	}
	o := &drawObs{Drawn: []int{}, Sorted: []int{}, Place: -2, Place2: -2}
	if msg := guarded(func() {
		t := build(c.Data["tree"])
		o.Place, o.Drawn = t.Rank(), codes(t.Print())
		t.SortItems()
		o.Place2, o.Sorted = t.Rank(), codes(t.Print())
	}); msg != "" {
		o.Drawn = codes(msg)
	}
	return o
}
