package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
)

type diffObs struct {
	AB    any     `json:"ab"`
	BA    any     `json:"ba"`
	Blank []bool  `json:"blank"`
	Shown [][]int `json:"shown"`
	A     any     `json:"a,omitempty"`
	B     any     `json:"b,omitempty"`
}

var same = []any{"same"}

func pairOf[T comparable](d diff.InterfaceDiff[T], f func(T) any) []any {
	if d.Equal() {
		return []any{}
	}
	return []any{f(d.A), f(d.B)}
}

func asInt[T ~int](x T) any { return int(x) }
func asBool(x bool) any     { return x }
func asText(s string) any   { return codes(s) }

var kindOfType = map[string]string{
	"parser.S": "S", "parser.RE": "RE", "parser.Rule": "R", "parser.ExtRef": "X", "parser.REF": "REF", "parser.Seq": "Seq",
	"parser.Oneof": "Oneof", "parser.Stack": "Stack", "parser.Delim": "D", "parser.Quant": "Q", "parser.Named": "N",
	"parser.LookAhead": "L", "parser.CutPoint": "C", "parser.ScopedGrammar": "G",
}

// reportOf renders what a comparison of terms reported; a and b are the terms.
func reportOf(a, b parser.Term, d diff.TermDiff) any {
	if d.Equal() {
		return same
	}
	list := func(k string, n diff.InterfaceDiff[int], ds []diff.TermDiff, xs, ys []parser.Term) any {
		rs := []any{}
		// the reports are of the places that differ, in order
		j := 0
		for i := 0; i < len(xs) && i < len(ys); i++ {
			if !diff.Terms(xs[i], ys[i]).Equal() {
				if j < len(ds) {
					rs = append(rs, reportOf(xs[i], ys[i], ds[j]))
				}
				j++
			}
		}
		for ; j < len(ds); j++ {
			rs = append(rs, "more")
		}
		return []any{k, pairOf(n, asInt[int]), rs}
	}
	switch d := d.(type) {
	case diff.TypesDiffer[string]:
		return []any{"types", kindOfType[d.A], kindOfType[d.B]}
	case diff.RuleDiff:
		return []any{"R", codes(string(d.A)), codes(string(d.B))}
	case diff.SDiff:
		k := "S"
		if inner(a) == "X" {
			k = "X"
		}
		return []any{k, codes(string(d.A)), codes(string(d.B))}
	case diff.REDiff:
		return []any{"RE", codes(string(d.A)), codes(string(d.B))}
	case diff.RefDiff:
		return []any{"REF", codes(d.A.Ident), codes(d.B.Ident)}
	case diff.SeqDiff:
		return list("Seq", d.Len, d.Terms, under(a).(parser.Seq), under(b).(parser.Seq))
	case diff.OneofDiff:
		return list("Oneof", d.Len, d.Terms, under(a).(parser.Oneof), under(b).(parser.Oneof))
	case diff.TowerDiff:
		return list("Stack", d.Len, d.Terms, under(a).(parser.Stack), under(b).(parser.Stack))
	case diff.DelimDiff:
		x, y := under(a).(parser.Delim), under(b).(parser.Delim)
		return []any{"D", reportOf(x.Term, y.Term, d.Term), reportOf(x.Sep, y.Sep, d.Sep),
			pairOf(d.Assoc, asInt[parser.Associativity]), pairOf(d.CanStartWithSep, asBool), pairOf(d.CanEndWithSep, asBool)}
	case diff.QuantDiff:
		x, y := under(a).(parser.Quant), under(b).(parser.Quant)
		return []any{"Q", reportOf(x.Term, y.Term, d.Term), pairOf(d.Min, asInt[int]), pairOf(d.Max, asInt[int])}
	case diff.NamedDiff:
		x, y := under(a).(parser.Named), under(b).(parser.Named)
		return []any{"N", pairOf(d.Name, asText), reportOf(x.Term, y.Term, d.Term)}
	case diff.ScopedGrammarDiff:
		x, y := under(a).(parser.ScopedGrammar), under(b).(parser.ScopedGrammar)
		return []any{"G", reportOf(x.Term, y.Term, d.Term), grammarReport(x.Grammar, y.Grammar, d.Grammar)}
	}
	return []any{fmt.Sprintf("%T", d)}
}

// under is the term below the cuts and lookaheads, of which no report of their own is made.
func under(t parser.Term) parser.Term {
	switch t := t.(type) {
	case parser.CutPoint:
		return under(t.Term)
	case parser.LookAhead:
		return under(t.Term)
	}
	return t
}

func inner(t parser.Term) string { return fromParser(under(t)).K }

func grammarReport(a, b parser.Grammar, d diff.GrammarDiff) any {
	if d.Equal() {
		return same
	}
	names := func(rs []parser.Rule) any {
		xs := []string{}
		for _, r := range rs {
			xs = append(xs, string(r))
		}
		sort.Strings(xs)
		out := []any{}
		for _, x := range xs {
			out = append(out, codes(x))
		}
		return out
	}
	var rules []string
	for r := range d.Prods {
		rules = append(rules, string(r))
	}
	sort.Strings(rules)
	ch := []any{}
	for _, r := range rules {
		r := parser.Rule(r)
		ch = append(ch, []any{codes(string(r)), reportOf(a[r], b[r], d.Prods[r])})
	}
	return []any{"grammar", names(d.OnlyInA), names(d.OnlyInB), ch}
}

func nodeReport(d diff.NodeDiff) any {
	if d.Equal() {
		return same
	}
	var ty, kids []int
	for i := range d.Types {
		ty = append(ty, i)
	}
	for i := range d.Children {
		kids = append(kids, i)
	}
	sort.Ints(ty)
	sort.Ints(kids)
	ch := []any{}
	for _, i := range kids {
		ch = append(ch, []any{i, nodeReport(d.Children[i])})
	}
	return []any{"node", append([]int{}, ty...), ch}
}

// termJSON is a term as the specification compares it.
func termJSON(t *Term) any {
	list := func() []any {
		out := []any{}
		for _, x := range t.Xs {
			out = append(out, termJSON(x))
		}
		return out
	}
	m := map[string]any{"k": t.K}
	switch t.K {
	case "S", "RE":
		m["s"] = codes(t.S)
	case "R", "X":
		m["s"] = codes(t.R)
	case "REF":
		m["s"], m["d"] = codes(t.R), []any{}
		if t.Def != nil {
			m["d"] = []any{termJSON(tS(*t.Def))}
		}
	case "Seq", "Oneof", "Stack":
		m["xs"] = list()
	case "D":
		m["t"], m["sep"], m["assoc"], m["lead"], m["trail"] = termJSON(t.T), termJSON(t.Sep), t.Assoc, t.Lead, t.Trail
	case "Q":
		m["t"], m["mn"], m["mx"] = termJSON(t.T), t.Mn, t.Mx
	case "N":
		m["s"], m["t"] = codes(t.Nm), termJSON(t.T)
	case "L", "C":
		m["t"] = termJSON(t.T)
	case "G":
		m["t"], m["g"] = termJSON(t.T), gramJSON(t.G)
	}
	return m
}

func gramJSON(g *Gram) any {
	names := append([]string{}, g.Names...)
	sort.Strings(names)
	out := []any{}
	for _, n := range names {
		out = append(out, []any{codes(n), termJSON(g.Rules[n])})
	}
	return out
}

// printable: every term has a form of its own.
func printable(g *Gram) bool {
	ok := !hasKind(g, "C")
	g.walk(func(t *Term) { ok = ok && (t.K != "REF" || t.Def != nil) })
	return ok
}

func compareRun(c *Case, r *Run) any {
	o := &diffObs{AB: []any{"none"}, BA: []any{"none"}, Blank: []bool{}, Shown: [][]int{}}
	g2 := gramData(r)
	msg := guarded(func() {
		if r.Data["what"] == "grammars" {
			a, b := toGrammar(c.G), toGrammar(g2)
			ab, ba := diff.Grammars(a, b), diff.Grammars(b, a)
			o.AB, o.BA = grammarReport(a, b, ab), grammarReport(b, a, ba)
			o.Blank = []bool{ab.Equal(), ba.Equal()}
			o.Shown = [][]int{codes(a.String()), codes(b.String())}
			return
		}
		a, b := treePair(c, r)
		ab, ba := diff.NewNodeDiff(&a, &b), diff.NewNodeDiff(&b, &a)
		o.AB, o.BA = nodeReport(ab), nodeReport(ba)
		o.Blank = []bool{ab.String() == "", ba.String() == ""}
	})
	if msg != "" {
		o.AB = []any{"panic", msg}
	}
	return o
}

func gramData(r *Run) *Gram {
	j, err := json.Marshal(r.Data["g2"])
	check(err)
	g := newGram()
	check(json.Unmarshal(j, g))
	return g
}

// treePair is the trees that a run compares; it panics if there are none.
func treePair(c *Case, r *Run) (parser.Node, parser.Node) {
	of := func(g *Gram, in string) parser.Node {
		p, msg := compileG(g)
		if msg != "" {
			panic(msg)
		}
		_, tree := doParse(p, &Case{G: g}, &Run{Rule: r.Rule, In: in})
		return tree.(parser.Node)
	}
	return of(c.G, r.In), of(gramData(r), r.Ins[0])
}

// tweak changes one thing in g.
func tweak(r *rand.Rand, g *Gram) *Gram {
	g = g.clone()
	var all []*Term
	var grams []*Gram
	var gram func(g *Gram)
	var term func(t *Term)
	term = func(t *Term) {
		all = append(all, t)
		for _, k := range t.kids() {
			term(k)
		}
		if t.G != nil {
			gram(t.G)
		}
	}
	gram = func(g *Gram) {
		grams = append(grams, g)
		for _, n := range g.Names {
			term(g.Rules[n])
		}
	}
	gram(g)
	if r.Intn(5) == 0 {
		h := pick(r, grams)
		switch r.Intn(3) {
		case 0:
			h.add("e", tS("e"))
		case 1:
			if len(h.Names) > 1 {
				i := r.Intn(len(h.Names))
				delete(h.Rules, h.Names[i])
				h.Names = append(append([]string{}, h.Names[:i]...), h.Names[i+1:]...)
			}
		default: // another name
			i := r.Intn(len(h.Names))
			if h.Rules["f"] == nil && h.Names[i] != wrapName {
				h.Rules["f"] = h.Rules[h.Names[i]]
				delete(h.Rules, h.Names[i])
				h.Names[i] = "f"
			}
		}
		return g
	}
	t := pick(r, all)
	if r.Intn(4) == 0 { // wrap or unwrap
		x := *t
		switch r.Intn(6) {
		case 0:
			*t = *tQ(&x, 0, 1)
		case 1:
			*t = *tN("nm", &x)
		case 2:
			*t = *tL(&x)
		case 3:
			*t = *tSeq(&x, tS("b"))
		case 4:
			if len(x.kids()) > 0 {
				*t = *pick(r, x.kids())
			}
		default:
			*t = *tOne(tS("a"), &x)
		}
		return g
	}
	switch t.K {
	case "S":
		if r.Intn(4) == 0 {
			t.K = "RE"
		} else {
			t.S += "z"
		}
	case "RE":
		if r.Intn(4) == 0 {
			t.K = "S"
		} else {
			t.S += "z"
		}
	case "R", "X":
		t.R = pick(r, []string{"a", "b", "c", "d", "s"})
	case "REF":
		switch {
		case t.Def == nil:
			s := "d"
			t.Def = &s
		case r.Intn(3) == 0:
			t.Def = nil
		case r.Intn(2) == 0:
			s := *t.Def + "z"
			t.Def = &s
		default:
			t.R += "z"
		}
	case "Seq", "Oneof", "Stack":
		i, j := r.Intn(len(t.Xs)), r.Intn(len(t.Xs))
		switch {
		case r.Intn(2) == 0:
			t.Xs[i], t.Xs[j] = t.Xs[j], t.Xs[i]
		case r.Intn(2) == 0 && len(t.Xs) > 1:
			t.Xs = append(append([]*Term{}, t.Xs[:i]...), t.Xs[i+1:]...)
		case r.Intn(3) > 0:
			t.Xs = append(t.Xs, tS("a"))
		case t.K == "Seq":
			t.K = "Oneof"
		case t.K == "Oneof":
			t.K = "Seq"
		}
	case "D":
		switch r.Intn(4) {
		case 0:
			t.T, t.Sep = t.Sep, t.T
		case 1:
			t.Assoc = (t.Assoc+2)%3 - 1
		case 2:
			t.Lead = !t.Lead
		default:
			t.Trail = !t.Trail
		}
	case "Q":
		switch r.Intn(3) {
		case 0:
			t.Mn++
			if t.Mx > 0 {
				t.Mx++
			}
		case 1:
			t.Mx = t.Mn + 1 + r.Intn(2)
		default:
			t.Mx = 0
		}
	case "N":
		t.Nm += "z"
	case "C", "L":
		t.K = map[string]string{"C": "L", "L": "C"}[t.K]
	case "G":
		t.T = tSeq(t.T, tS("b"))
	}
	return g
}

func diffGrammar(r *rand.Rand) (opts, func(*Gram) bool) {
	o := baseOpts()
	o.w["RE"], o.w["REF"], o.w["D"], o.w["L"], o.w["X"] = 3, 3, 4, 1, 1
	o.exts = []string{"p", "q"}
	o.depth, o.maxRules = 1+r.Intn(3), 1+r.Intn(4)
	o.nameP, o.names = 0.2, nameSet
	o.leadP, o.assocP = 0.3, 0.4
	o.lits = append(append([]string{}, simpleLits...), `"`, "'", "\n", "`", "\x01", `\`)
	if r.Intn(2) == 0 {
		o.cutSeq = 0.2
	}
	if r.Intn(4) == 0 {
		o.wrapP = 1
	}
	if r.Intn(3) == 0 {
		o.stackP = 0.4
	}
	if r.Intn(2) == 0 {
		o.scopeN, o.w["G"] = 2, 4
	}
	return o, nil
}

func init() {
	executors["diff"] = executor{run: func(c *Case, _ any, ri int) any { return compareRun(c, c.Runs[ri]) }}
	flatteners["diff"] = func(c *Case, obs []json.RawMessage) any {
		runs := []any{}
		for i, r := range c.Runs {
			m := map[string]any{"what": r.Data["what"], "obs": obs[i], "print": false}
			if r.Data["what"] == "trees" {
				m["a"], m["b"] = r.Data["a"], r.Data["b"]
			} else {
				g2 := gramData(r)
				m["a"], m["b"] = gramJSON(c.G), gramJSON(g2)
				m["print"] = printable(c.G) && printable(g2)
			}
			runs = append(runs, m)
		}
		return map[string]any{"runs": runs}
	}
	profiles["C30"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for total := 0; total < n; {
			trees := r.Intn(3) == 0
			var c *Case
			parseCases(r, 1, func(r *rand.Rand) (opts, func(*Gram) bool) {
				o, f := diffGrammar(r)
				if trees {
					o.w["X"], o.w["REF"] = 0, 0
					o.bigP = 0.1
				}
				return o, f
			}, func(x *Case) { c = x })
			c.Kind = "diff"
			if trees {
				rs := c.Runs
				c.Runs = nil
				for _, run := range rs {
					g2, o := c.G, pick(r, rs)
					for k := r.Intn(3); k > 0; k-- {
						g2 = tweak(r, g2)
					}
					if !grammarOK(g2) || g2.Rules[run.Rule] == nil || !cheap(g2, &Run{Rule: run.Rule, In: o.In}, 250) {
						continue
					}
					run.Ins = []string{o.In}
					run.Data = map[string]any{"what": "trees", "g2": g2}
					if guarded(func() {
						a, b := treePair(c, run)
						run.Data["a"], run.Data["b"] = treeOf(run.In, a), treeOf(o.In, b)
					}) == "" {
						c.Runs = append(c.Runs, run)
					}
				}
			} else {
				c.Runs = c.Runs[:0]
				for k := 0; k < 4; k++ {
					g2 := c.G.clone()
					for i := r.Intn(3); i > 0; i-- {
						g2 = tweak(r, g2)
					}
					c.Runs = append(c.Runs, &Run{Data: map[string]any{"what": "grammars", "g2": g2}})
				}
			}
			total += len(c.Runs)
			if len(c.Runs) > 0 {
				out = append(out, c)
			}
		}
		return out
	}
}
