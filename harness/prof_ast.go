package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// astOf renders an AST node; see Ast.tla.
func astOf(in string, n ast.Node) any {
	switch n := n.(type) {
	case ast.Leaf:
		return leafOf(in, parser.Scanner(n))
	case ast.Extra:
		switch d := n.Data.(type) {
		case parser.Choice:
			return []any{"X", "choice", strconv.Itoa(int(d))}
		case parser.Rule:
			return []any{"X", "rule", string(d)}
		case string:
			return []any{"X", "empty", d}
		}
		return []any{"X", "?", fmt.Sprintf("%T", n.Data)}
	case ast.Branch:
		out := map[string]any{}
		for name, c := range n {
			switch c := c.(type) {
			case ast.One:
				out[name] = []any{"one", []any{astOf(in, c.Node)}}
			case ast.Many:
				xs := []any{}
				for _, x := range c {
					xs = append(xs, astOf(in, x))
				}
				out[name] = []any{"many", xs}
			default:
				out[name] = []any{fmt.Sprintf("%T", c), []any{}}
			}
		}
		return []any{"B", out}
	}
	return []any{fmt.Sprintf("%T", n)}
}

// sessObs is what a session was observed to do.
type sessObs struct {
	*Obs
	Ast  any   `json:"ast"`
	Back any   `json:"back"`
	Kept bool  `json:"kept"`
	Un   []int `json:"un"`
	Unn  int   `json:"unn"`
	Re   any   `json:"re"`
}

func guarded(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

func js(x any) string { b, err := json.Marshal(x); check(err); return string(b) }

// session parses, converts, converts back, unparses and parses again.
func session(p parser.Parsers, c *Case, r *Run) *sessObs {
	s, _ := sessionKeep(p, c, r)
	return s
}

// sessionKeep also returns a function that renders what was made once more.
func sessionKeep(p parser.Parsers, c *Case, r *Run) (*sessObs, func() string) {
	o, tree := doParse(p, c, r)
	s := &sessObs{Obs: o, Ast: []any{"NONE"}, Back: []any{"NONE"}, Un: []int{-1}, Re: []any{"NONE"}}
	if tree == nil {
		return s, func() string { return "" }
	}
	var b ast.Branch
	var back parser.TreeElement
	if msg := guarded(func() { b = ast.FromParserNode(p.Grammar(), tree); s.Ast = astOf(r.In, b) }); msg != "" {
		s.Ast = []any{"P", msg}
		b = nil
	}
	if b != nil && reversible(c.G) { // otherwise converting back may not even end
		if msg := guarded(func() { back = ast.ToParserNode(p.Grammar(), b); s.Back = treeOf(r.In, back) }); msg != "" {
			s.Back = []any{"P", msg}
			back = nil
		}
		s.Kept = js(astOf(r.In, b)) == js(s.Ast) && js(treeOf(r.In, tree)) == js(o.T)
	}
	return unparseToo(p, c, r, tree, s), func() string {
		x := js(treeOf(r.In, tree))
		if b != nil {
			x += js(astOf(r.In, b))
		}
		if back != nil {
			x += js(treeOf(r.In, back))
		}
		return x
	}
}

func unparseToo(p parser.Parsers, c *Case, r *Run, tree parser.TreeElement, s *sessObs) *sessObs {
	var buf bytes.Buffer
	if msg := guarded(func() {
		n, err := p.Unparse(tree, &buf)
		if err == nil {
			s.Unn, s.Un = n, codes(buf.String())
		}
	}); msg == "" {
		o2, _ := doParse(p, c, &Run{Rule: r.Rule, In: buf.String()})
		s.Re = o2.T
	}
	return s
}

func init() {
	executors["session"] = executor{
		prepare: func(c *Case) any {
			p, msg := compileG(c.G)
			return &prepared{p, msg}
		},
		run: func(c *Case, prep any, ri int) any {
			pr := prep.(*prepared)
			if pr.msg != "" {
				return &sessObs{Obs: &Obs{O: "panic", Msg: pr.msg, P: -1, T: []any{"E"}, Log: []any{}}}
			}
			return session(pr.p, c, c.Runs[ri])
		},
	}
	flatteners["session"] = func(c *Case, obs []json.RawMessage) any { return flatParseG(c, c.G, obs) }
}

// astOK keeps to grammars whose trees determine what each part came from.
func astOK(g *Gram) bool {
	ok := true
	var strip func(t *Term) *Term
	strip = func(t *Term) *Term {
		for t.K == "C" || t.K == "G" || t.K == "N" {
			t = t.T
		}
		return t
	}
	names := map[string]bool{}
	g.walk(func(t *Term) {
		if t.K == "N" && t.T.K == "D" {
			names[t.Nm] = true
		}
	})
	refs := false
	g.walk(func(t *Term) {
		if t.K == "D" && t.Assoc != 0 {
			in := strip(t.T)
			// a chain inside a chain looks like one chain
			if in.K == "D" && in.Assoc != 0 || in.K == "R" && names[in.R] {
				ok = false
			}
		}
		refs = refs || t.K == "REF"
	})
	if refs {
		g.walk(func(t *Term) {
			if t.K == "D" && (t.Lead || t.Trail) {
				ok = false // the value of a reference has no empty items
			}
		})
	}
	return ok
}

// reversible mirrors Reversible of Ast.tla; it decides which sessions try to
// convert back, and the specification rejects sessions that should have.
func reversible(g *Gram) bool {
	type set map[string]bool
	var pulled func(t *Term, stk string, out set)
	pulled = func(t *Term, stk string, out set) {
		switch t.K {
		case "S", "RE":
			out[""] = true
		case "R":
			if t.R == "@" {
				out[stk] = true
			} else {
				out[t.R] = true
			}
		case "N":
			out[t.Nm] = true
		case "L", "X", "REF":
		default:
			if t.K == "Oneof" {
				out["@choice"] = true
			}
			for _, k := range t.kids() {
				pulled(k, stk, out)
			}
		}
	}
	var firm func(t *Term) bool
	firm = func(t *Term) bool {
		switch t.K {
		case "S", "RE", "R", "N", "Oneof":
			return true
		case "Seq":
			for _, x := range t.Xs {
				if firm(x) {
					return true
				}
			}
		case "Q":
			return t.Mn > 0 && firm(t.T)
		case "D", "C", "G":
			return firm(t.T)
		}
		return false
	}
	var sound func(t *Term, stk string, others set, loop bool) bool
	with := func(others set, stk string, ts ...*Term) set {
		out := set{}
		for k := range others {
			out[k] = true
		}
		for _, t := range ts {
			pulled(t, stk, out)
		}
		return out
	}
	apart := func(t *Term, stk string, others set) bool {
		for k := range with(nil, stk, t) {
			if others[k] {
				return false
			}
		}
		return true
	}
	sound = func(t *Term, stk string, others set, loop bool) bool {
		switch t.K {
		case "S", "RE", "R", "N":
			return true
		case "Seq":
			for i, x := range t.Xs {
				rest := append(append([]*Term{}, t.Xs[:i]...), t.Xs[i+1:]...)
				if !sound(x, stk, with(others, stk, rest...), loop) {
					return false
				}
			}
			return true
		case "Oneof":
			for _, x := range t.Xs {
				if !sound(x, stk, others, loop) {
					return false
				}
			}
			return true
		case "Q":
			return firm(t.T) && (t.Mn > 0 && t.Mn == t.Mx || !loop) && apart(t.T, stk, others) && sound(t.T, stk, others, loop || t.Mx != 1)
		case "D":
			return t.Assoc == 0 && !t.Lead && !t.Trail && !loop && firm(t.T) && firm(t.Sep) && apart(t, stk, others) &&
				sound(t.T, stk, with(others, stk, t.Sep), true) && sound(t.Sep, stk, with(others, stk, t.T), true)
		case "C", "G":
			return sound(t.T, stk, others, loop)
		}
		return false
	}
	ok := true
	var body func(t *Term, stk string)
	body = func(t *Term, stk string) {
		ok = ok && sound(t, stk, nil, false)
		var named func(x *Term)
		named = func(x *Term) {
			if x.K == "N" {
				ok = ok && sound(x.T, stk, nil, false)
			}
			for _, k := range x.kids() {
				named(k)
			}
		}
		named(t)
	}
	var gram func(g *Gram)
	gram = func(g *Gram) {
		for _, n := range rulesOf(g) {
			if g.Rules[n].K == "Stack" {
				for _, x := range g.Rules[n].Xs {
					body(x, n)
				}
			} else {
				body(g.Rules[n], "")
			}
		}
	}
	gram(g)
	g.walk(func(t *Term) {
		if t.G != nil {
			gram(t.G)
		}
	})
	return ok
}

// separate makes the parts of most repetitions bodies of their own.
func separate(r *rand.Rand, g *Gram, p float64) *Gram {
	n := 0
	fresh := func(t *Term) *Term {
		if t.K == "N" || r.Float64() > p {
			return t
		}
		n++
		return tN(fmt.Sprintf("n%d", n), t)
	}
	return mapGram(g, func(t *Term) *Term {
		switch t.K {
		case "Q":
			c := *t
			c.T = fresh(t.T)
			return &c
		case "D":
			c := *t
			c.T, c.Sep = fresh(t.T), fresh(t.Sep)
			if r.Float64() < p {
				c.Assoc, c.Lead, c.Trail = 0, false, false
			}
			return &c
		}
		return t
	})
}

func sessionProfile(id string, mk func(r *rand.Rand) (opts, func(*Gram) bool), p float64, cmps ...string) {
	profiles[id] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, func(r *rand.Rand) (opts, func(*Gram) bool) {
			o, acc := mk(r)
			return o, func(g *Gram) bool {
				if p > 0 && r.Intn(5) > 0 {
					*g = *separate(r, g, p)
				}
				return (acc == nil || acc(g)) && astOK(g)
			}
		}, func(c *Case) {
			c.Kind = "session"
			c.Cmp = cmps
			for _, run := range c.Runs {
				if hasKind(c.G, "X") {
					run.Ext = randHandlers(r, []string{"p", "q"})
					for _, k := range []string{"p", "q"} {
						h := run.Ext[k]
						if h != nil && r.Intn(2) == 0 && (h.Act == "eat" || h.Act == "lit") {
							run.Ext[k] = &Handler{Act: "ast", N: 1 + r.Intn(2)}
						}
					}
				}
			}
		})
	}
}

func init() {
	sessionProfile("C15", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["E"] = 1
		o.w["R"] = 5
		o.depth = 2 + r.Intn(3)
		o.maxRules = 1 + r.Intn(4)
		o.nameP, o.names = 0.3, nameSet
		if r.Intn(2) == 0 {
			o.w["D"], o.assocP, o.leadP = 5, 0.5, 0.25
		}
		if r.Intn(3) == 0 {
			o.stackP = 0.6
			o.deepStk = true
		}
		if r.Intn(4) == 0 {
			o.w["REF"] = 3
		}
		if r.Intn(5) == 0 {
			o.w["L"] = 2
		}
		if r.Intn(5) == 0 {
			o.w["X"], o.exts = 3, []string{"p", "q"}
		}
		if r.Intn(5) == 0 {
			o.scopeN, o.w["G"] = 2, 4
		}
		if r.Intn(5) == 0 {
			o.wrapP = 1
		}
		if r.Intn(5) == 0 {
			o.cutSeq = 0.2
		}
		return o, nil
	}, 0, "ast")

	sessionProfile("C08a", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.scopeN = 1 + r.Intn(3)
		o.w["G"], o.w["R"] = 6, 6
		o.depth = 3 + r.Intn(2)
		o.maxNodes = 30
		o.nameP, o.names = 0.2, nameSet
		if r.Intn(3) == 0 {
			o.w["D"] = 2
		}
		if r.Intn(3) == 0 {
			o.stackP = 0.4
		}
		return o, has("G")
	}, 0.5, "tree", "ast", "back")

	sessionProfile("C16", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["E"] = 1
		o.w["R"] = 6
		o.w["Q"] = 5
		o.depth = 2 + r.Intn(3)
		o.maxRules = 1 + r.Intn(5)
		o.maxNodes = 24
		o.nameP, o.names = 0.35, nameSet
		if r.Intn(2) == 0 {
			o.w["D"] = 5
		}
		if r.Intn(3) == 0 {
			o.stackP = 0.5
			o.deepStk = true
		}
		if r.Intn(4) == 0 {
			o.scopeN, o.w["G"] = 2, 4
		}
		if r.Intn(4) == 0 {
			o.wrapP = 1
		}
		if r.Intn(4) == 0 {
			o.cutSeq = 0.2
		}
		return o, nil
	}, 0.8, "back")

	sessionProfile("C17", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["E"] = 1
		o.w["R"] = 4
		o.depth = 2 + r.Intn(3)
		o.maxRules = 1 + r.Intn(4)
		if r.Intn(2) == 0 {
			o.nameP, o.names = 0.25, nameSet
		}
		if r.Intn(3) > 0 {
			o.w["D"], o.assocP, o.leadP = 6, 0.5, 0.3
		}
		if r.Intn(3) == 0 {
			o.stackP = 0.6
		}
		if r.Intn(3) == 0 {
			o.wrapP = 1
		}
		if r.Intn(3) == 0 {
			o.res = append(append([]string{}, simpleREs...), groupREs...)
			o.w["RE"] = 4
		}
		if r.Intn(5) == 0 {
			o.cutSeq = 0.2
		}
		return o, nil
	}, 0, "unparse")
}
