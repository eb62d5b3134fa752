package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"github.com/arr-ai/wbnf/parser"
)

// Term is the harness's own representation of a grammar term.
type Term struct {
	K     string  `json:"k"`
	S     string  `json:"s,omitempty"` // literal text / regex source
	R     string  `json:"r,omitempty"` // rule, reference or external name
	Nm    string  `json:"nm,omitempty"`
	Xs    []*Term `json:"xs,omitempty"`
	T     *Term   `json:"t,omitempty"`
	Sep   *Term   `json:"sep,omitempty"`
	Assoc int     `json:"assoc,omitempty"`
	Lead  bool    `json:"lead,omitempty"`
	Trail bool    `json:"trail,omitempty"`
	Mn    int     `json:"mn,omitempty"`
	Mx    int     `json:"mx,omitempty"`
	Def   *string `json:"def,omitempty"`
	G     *Gram   `json:"g,omitempty"`
}

// Gram is a grammar in declaration order.
type Gram struct {
	Names []string         `json:"names"`
	Rules map[string]*Term `json:"rules"`
}

func newGram() *Gram { return &Gram{Rules: map[string]*Term{}} }
func (g *Gram) add(name string, t *Term) *Gram {
	if _, has := g.Rules[name]; !has {
		g.Names = append(g.Names, name)
	}
	g.Rules[name] = t
	return g
}

const wrapName = ".wrapRE"

func tS(s string) *Term            { return &Term{K: "S", S: s} }
func tRE(s string) *Term           { return &Term{K: "RE", S: s} }
func tR(s string) *Term            { return &Term{K: "R", R: s} }
func tSeq(xs ...*Term) *Term       { return &Term{K: "Seq", Xs: xs} }
func tOne(xs ...*Term) *Term       { return &Term{K: "Oneof", Xs: xs} }
func tStack(xs ...*Term) *Term     { return &Term{K: "Stack", Xs: xs} }
func tQ(t *Term, mn, mx int) *Term { return &Term{K: "Q", T: t, Mn: mn, Mx: mx} }
func tN(nm string, t *Term) *Term  { return &Term{K: "N", Nm: nm, T: t} }
func tL(t *Term) *Term             { return &Term{K: "L", T: t} }
func tC(t *Term) *Term             { return &Term{K: "C", T: t} }
func tX(n string) *Term            { return &Term{K: "X", R: n} }
func tG(t *Term, g *Gram) *Term    { return &Term{K: "G", T: t, G: g} }
func tD(t, sep *Term, assoc int, lead, trail bool) *Term {
	return &Term{K: "D", T: t, Sep: sep, Assoc: assoc, Lead: lead, Trail: trail}
}
func tREF(n string, def *string) *Term { return &Term{K: "REF", R: n, Def: def} }

func (t *Term) kids() []*Term {
	var out []*Term
	out = append(out, t.Xs...)
	if t.T != nil {
		out = append(out, t.T)
	}
	if t.Sep != nil {
		out = append(out, t.Sep)
	}
	return out
}

// walk visits t and all terms below it, including nested grammars.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, k := range t.kids() {
		k.walk(f)
	}
	if t.G != nil {
		t.G.walk(f)
	}
}
func (g *Gram) walk(f func(*Term)) {
	for _, n := range g.Names {
		g.Rules[n].walk(f)
	}
}

func (t *Term) clone() *Term {
	if t == nil {
		return nil
	}
	c := *t
	c.Xs = nil
	for _, x := range t.Xs {
		c.Xs = append(c.Xs, x.clone())
	}
	c.T, c.Sep = t.T.clone(), t.Sep.clone()
	c.G = t.G.clone()
	return &c
}
func (g *Gram) clone() *Gram {
	if g == nil {
		return nil
	}
	c := newGram()
	for _, n := range g.Names {
		c.add(n, g.Rules[n].clone())
	}
	return c
}

// mapTerm rebuilds a term bottom up.
func mapTerm(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	c := *t
	c.Xs = nil
	for _, x := range t.Xs {
		c.Xs = append(c.Xs, mapTerm(x, f))
	}
	c.T, c.Sep = mapTerm(t.T, f), mapTerm(t.Sep, f)
	if t.G != nil {
		c.G = mapGram(t.G, f)
	}
	return f(&c)
}
func mapGram(g *Gram, f func(*Term) *Term) *Gram {
	c := newGram()
	for _, n := range g.Names {
		c.add(n, mapTerm(g.Rules[n], f))
	}
	return c
}
func noCuts(g *Gram) *Gram {
	return mapGram(g, func(t *Term) *Term {
		if t.K == "C" {
			return t.T
		}
		return t
	})
}

// ---------------------------------------------------------------------------
// conversion to and from the system's grammar

func toParser(t *Term) parser.Term {
	list := func() []parser.Term {
		out := make([]parser.Term, 0, len(t.Xs))
		for _, x := range t.Xs {
			out = append(out, toParser(x))
		}
		return out
	}
	switch t.K {
	case "S":
		return parser.S(t.S)
	case "RE":
		return parser.RE(t.S)
	case "R":
		return parser.Rule(t.R)
	case "Seq":
		return parser.Seq(list())
	case "Oneof":
		return parser.Oneof(list())
	case "Stack":
		return parser.Stack(list())
	case "D":
		return parser.Delim{Term: toParser(t.T), Sep: toParser(t.Sep), Assoc: parser.Associativity(t.Assoc),
			CanStartWithSep: t.Lead, CanEndWithSep: t.Trail}
	case "Q":
		return parser.Quant{Term: toParser(t.T), Min: t.Mn, Max: t.Mx}
	case "N":
		return parser.Named{Name: t.Nm, Term: toParser(t.T)}
	case "REF":
		r := parser.REF{Ident: t.R}
		if t.Def != nil {
			r.Default = parser.S(*t.Def)
		}
		return r
	case "X":
		return parser.ExtRef(t.R)
	case "L":
		return parser.LookAhead{Term: toParser(t.T)}
	case "C":
		return parser.CutPoint{Term: toParser(t.T)}
	case "G":
		return parser.ScopedGrammar{Term: toParser(t.T), Grammar: toGrammar(t.G)}
	}
	panic("toParser: " + t.K)
}

func toGrammar(g *Gram) parser.Grammar {
	out := parser.Grammar{}
	for n, t := range g.Rules {
		out[parser.Rule(n)] = toParser(t)
	}
	return out
}

func fromParser(t parser.Term) *Term {
	list := func(xs []parser.Term) []*Term {
		var out []*Term
		for _, x := range xs {
			out = append(out, fromParser(x))
		}
		return out
	}
	switch t := t.(type) {
	case parser.S:
		return tS(string(t))
	case parser.RE:
		return tRE(string(t))
	case parser.Rule:
		return tR(string(t))
	case parser.Seq:
		return tSeq(list(t)...)
	case parser.Oneof:
		return tOne(list(t)...)
	case parser.Stack:
		return tStack(list(t)...)
	case parser.Delim:
		return tD(fromParser(t.Term), fromParser(t.Sep), int(t.Assoc), t.CanStartWithSep, t.CanEndWithSep)
	case parser.Quant:
		return tQ(fromParser(t.Term), t.Min, t.Max)
	case parser.Named:
		return tN(t.Name, fromParser(t.Term))
	case parser.REF:
		r := tREF(t.Ident, nil)
		if t.Default != nil {
			s := string(t.Default.(parser.S))
			r.Def = &s
		}
		return r
	case parser.ExtRef:
		return tX(string(t))
	case parser.LookAhead:
		return tL(fromParser(t.Term))
	case parser.CutPoint:
		return tC(fromParser(t.Term))
	case parser.ScopedGrammar:
		return tG(fromParser(t.Term), fromGrammar(t.Grammar))
	}
	panic(fmt.Sprintf("fromParser: %T", t))
}

func fromGrammar(g parser.Grammar) *Gram {
	var names []string
	for n := range g {
		names = append(names, string(n))
	}
	sort.Strings(names)
	out := newGram()
	for _, n := range names {
		out.add(n, fromParser(g[parser.Rule(n)]))
	}
	return out
}

// ---------------------------------------------------------------------------
// flattening for the specification

func codes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

type flat struct {
	T []map[string]any `json:"T"`
	G []map[string]any `json:"G"`
}

func flatten(g *Gram) *flat {
	f := &flat{}
	f.gram(g, 0)
	return f
}

func (f *flat) gram(g *Gram, par int) int {
	rec := map[string]any{"par": par, "wrap": []any{}}
	f.G = append(f.G, rec)
	id := len(f.G)
	rules := map[string]any{}
	for _, n := range g.Names {
		rules[n] = f.term(g.Rules[n], id)
	}
	rec["rules"] = rules
	if w, has := g.Rules[wrapName]; has {
		exc := []string{}
		if w.K == "Oneof" {
			for _, x := range w.Xs[:len(w.Xs)-1] {
				if x.K == "S" || x.K == "RE" {
					exc = append(exc, x.S)
				}
			}
			w = w.Xs[len(w.Xs)-1]
		}
		rec["wrap"] = []any{map[string]any{"exc": exc, "re": wrapRx(w.S)}}
	}
	return id
}

func (f *flat) term(t *Term, g int) int {
	rec := map[string]any{"k": t.K}
	f.T = append(f.T, rec)
	id := len(f.T)
	list := func(xs []*Term) []int {
		out := []int{}
		for _, x := range xs {
			out = append(out, f.term(x, g))
		}
		return out
	}
	switch t.K {
	case "S":
		rec["s"], rec["src"] = codes(t.S), t.S
	case "RE":
		rec["re"], rec["src"] = termRx(t.S), t.S
	case "R", "X":
		rec["r"] = t.R
	case "Seq", "Oneof", "Stack":
		rec["xs"] = list(t.Xs)
	case "D":
		rec["t"], rec["s"] = f.term(t.T, g), f.term(t.Sep, g)
		rec["assoc"], rec["lead"], rec["trail"] = t.Assoc, t.Lead, t.Trail
	case "Q":
		rec["t"], rec["mn"], rec["mx"] = f.term(t.T, g), t.Mn, t.Mx
	case "N":
		rec["t"], rec["nm"] = f.term(t.T, g), t.Nm
	case "L", "C":
		rec["t"] = f.term(t.T, g)
	case "REF":
		rec["r"], rec["d"] = t.R, []any{}
		if t.Def != nil {
			rec["d"] = []any{codes(*t.Def)}
		}
	case "G":
		sub := f.gram(t.G, g)
		rec["g"] = sub
		rec["t"] = f.term(t.T, sub)
	}
	return id
}

// ---------------------------------------------------------------------------
// regular expressions

const holeRune = 0x10FFFE

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func termRx(src string) any { return rx(src) }
func wrapRx(src string) any {
	return rx(strings.Replace(src, "()", fmt.Sprintf("(?:\\x{%x})", holeRune), 1))
}

func rx(src string) any {
	re, err := syntax.Parse(src, syntax.Perl&^syntax.OneLine)
	if err != nil {
		panic(unsupported{err.Error()})
	}
	return rxNode(re)
}

func rxNullable(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpEmptyMatch, syntax.OpStar, syntax.OpQuest, syntax.OpBeginLine, syntax.OpEndLine:
		return true
	case syntax.OpLiteral, syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return false
	case syntax.OpCapture, syntax.OpPlus:
		return rxNullable(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || rxNullable(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !rxNullable(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if rxNullable(s) {
				return true
			}
		}
		return false
	}
	return true
}

func reNullable(src string) bool {
	re, err := syntax.Parse(src, syntax.Perl&^syntax.OneLine)
	if err != nil {
		return true
	}
	return rxNullable(re)
}

func rxNode(re *syntax.Regexp) any {
	subs := func() []any {
		out := []any{}
		for _, s := range re.Sub {
			out = append(out, rxNode(s))
		}
		return out
	}
	rep := func(mn, mx int) any {
		if rxNullable(re.Sub[0]) && mx != 1 {
			panic(unsupported{"nullable repetition"})
		}
		return map[string]any{"o": "rep", "mn": mn, "mx": mx, "lazy": re.Flags&syntax.NonGreedy != 0, "x": rxNode(re.Sub[0])}
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
		return map[string]any{"o": "emp"}
	case syntax.OpLiteral:
		if len(re.Rune) == 1 && re.Rune[0] == holeRune {
			return map[string]any{"o": "hole"}
		}
		if re.Flags&syntax.FoldCase != 0 {
			xs := []any{}
			for _, r := range re.Rune {
				rs := [][2]int{{int(r), int(r)}}
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					rs = append(rs, [2]int{int(f), int(f)})
				}
				xs = append(xs, map[string]any{"o": "chs", "rs": rs, "neg": false})
			}
			return map[string]any{"o": "cat", "xs": xs}
		}
		for _, r := range re.Rune {
			if r == holeRune { // merged with neighbours
				xs := []any{}
				for _, r := range re.Rune {
					if r == holeRune {
						xs = append(xs, map[string]any{"o": "hole"})
					} else {
						xs = append(xs, map[string]any{"o": "lit", "s": []int{int(r)}})
					}
				}
				return map[string]any{"o": "cat", "xs": xs}
			}
		}
		return map[string]any{"o": "lit", "s": codes(string(re.Rune))}
	case syntax.OpCharClass:
		rs := [][2]int{}
		for i := 0; i+1 < len(re.Rune); i += 2 {
			rs = append(rs, [2]int{int(re.Rune[i]), int(re.Rune[i+1])})
		}
		return map[string]any{"o": "chs", "rs": rs, "neg": false}
	case syntax.OpAnyCharNotNL:
		return map[string]any{"o": "any"}
	case syntax.OpAnyChar:
		return map[string]any{"o": "chs", "rs": [][2]int{}, "neg": true}
	case syntax.OpBeginLine:
		return map[string]any{"o": "bol"}
	case syntax.OpEndLine:
		return map[string]any{"o": "eol"}
	case syntax.OpCapture:
		return map[string]any{"o": "grp", "i": re.Cap, "x": rxNode(re.Sub[0])}
	case syntax.OpStar:
		return rep(0, -1)
	case syntax.OpPlus:
		return rep(1, -1)
	case syntax.OpQuest:
		return rep(0, 1)
	case syntax.OpRepeat:
		return rep(re.Min, re.Max)
	case syntax.OpConcat:
		return map[string]any{"o": "cat", "xs": subs()}
	case syntax.OpAlternate:
		return map[string]any{"o": "alt", "xs": subs()}
	}
	panic(unsupported{re.Op.String()})
}
