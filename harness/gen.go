package main

import (
	"fmt"
	"math/rand"
	"regexp/syntax"
	"sort"
	"strings"
)

// opts steer the random grammar generator.
type opts struct {
	w        map[string]int // term kind -> weight
	lits     []string
	res      []string
	maxRules int
	depth    int
	maxNodes int
	wrapP    float64 // probability of a whitespace wrapper
	bigP     float64 // probability of one very large term, besides the usual
	cutSeq   float64 // probability that a literal item of a sequence is a commit point
	nameP    float64 // probability that a term gets a name
	names    []string
	leadP    float64
	assocP   float64
	stackP   float64 // probability that a rule is a stack
	scopeN   int     // nesting depth of scoped grammars
	noNullQ  bool    // bodies of repetitions must consume
	exts     []string
	maxIn    int
	uniqLit  bool
	deepStk  bool // now and then a stack of more than ten layers
}

type gen struct {
	r     *rand.Rand
	o     opts
	nodes int
	// environment during generation
	envs   [][]string // visible rule names, innermost last
	inStk  bool
	scope  int
	bound  []string
	litSeq int
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
func (g *gen) p(x float64) bool          { return g.r.Float64() < x }

func (g *gen) lit() *Term {
	if g.o.uniqLit && g.litSeq < len(g.o.lits) && g.p(0.7) {
		g.litSeq++
		return tS(g.o.lits[g.litSeq-1])
	}
	return tS(pick(g.r, g.o.lits))
}

func (g *gen) visible() []string {
	var out []string
	for _, e := range g.envs {
		out = append(out, e...)
	}
	return out
}

func (g *gen) leaf() *Term {
	w := map[string]int{"S": g.o.w["S"], "RE": g.o.w["RE"], "R": g.o.w["R"], "REF": g.o.w["REF"], "X": g.o.w["X"], "E": g.o.w["E"]}
	if g.inStk {
		w["@"] = g.o.w["R"] + 3
	}
	switch g.weighted(w) {
	case "RE":
		return tRE(pick(g.r, g.o.res))
	case "R":
		return tR(pick(g.r, g.visible()))
	case "@":
		return tR("@")
	case "X":
		return tX(pick(g.r, g.o.exts))
	case "E":
		return tSeq()
	case "REF":
		names := g.o.names
		if len(g.bound) > 0 && g.p(0.8) {
			names = g.bound
		}
		var def *string
		if g.p(0.4) {
			s := pick(g.r, g.o.lits)
			def = &s
		}
		return tREF(pick(g.r, names), def)
	}
	return g.lit()
}

func (g *gen) weighted(w map[string]int) string {
	keys := make([]string, 0, len(w))
	sum := 0
	for k, v := range w {
		if v > 0 {
			keys = append(keys, k)
			sum += v
		}
	}
	sort.Strings(keys)
	if sum == 0 {
		return "S"
	}
	n := g.r.Intn(sum)
	for _, k := range keys {
		if n < w[k] {
			return k
		}
		n -= w[k]
	}
	return "S"
}

func (g *gen) named(t *Term) *Term {
	if t.K != "N" && len(g.o.names) > 0 && g.p(g.o.nameP) {
		n := pick(g.r, g.o.names)
		g.bound = append(g.bound, n)
		return tN(n, t)
	}
	if t.K == "R" && t.R != "@" {
		g.bound = append(g.bound, t.R)
	}
	return t
}

func (g *gen) term(depth int) *Term { return g.named(g.term0(depth)) }

func (g *gen) term0(depth int) *Term {
	g.nodes++
	if depth <= 0 || g.nodes > g.o.maxNodes {
		return g.leaf()
	}
	w := map[string]int{}
	for _, k := range []string{"Seq", "Oneof", "Q", "D", "L", "C", "G"} {
		w[k] = g.o.w[k]
	}
	if g.scope >= g.o.scopeN || g.inStk {
		w["G"] = 0
	}
	w["leaf"] = g.o.w["leaf"]
	switch g.weighted(w) {
	case "Seq":
		n := 1 + g.r.Intn(4)
		save := len(g.bound)
		s := tSeq()
		for i := 0; i < n; i++ {
			x := g.term(depth - 1)
			if (x.K == "S" || x.K == "RE" || x.K == "R" || g.p(0.2)) && g.p(g.o.cutSeq) && x.K != "C" {
				x = tC(x)
			}
			s.Xs = append(s.Xs, x)
		}
		g.bound = g.bound[:save]
		return s
	case "Oneof":
		n := 2 + g.r.Intn(3)
		s := tOne()
		for i := 0; i < n; i++ {
			s.Xs = append(s.Xs, g.term(depth-1))
		}
		return s
	case "Q":
		mm := [][2]int{{0, 1}, {0, 0}, {1, 0}, {0, 1}, {0, 0}, {1, 0}, {0, 2}, {1, 2}, {2, 3}, {2, 0}, {2, 2}, {1, 1}, {3, 0}, {0, 3}}
		m := pick(g.r, mm)
		return tQ(g.term(depth-1), m[0], m[1])
	case "D":
		assoc := 0
		if g.p(g.o.assocP) {
			assoc = 1 - 2*g.r.Intn(2)
		}
		if g.o.assocP > 0 && g.p(0.08) { // a chain of chains
			in := tD(g.leaf(), g.leaf(), 1-2*g.r.Intn(2), false, g.p(g.o.leadP))
			if g.p(0.6) {
				assoc = -in.Assoc
			}
			return tD(in, g.leaf(), assoc, g.p(g.o.leadP), false)
		}
		return tD(g.term(depth-1), g.term(depth-2), assoc, g.p(g.o.leadP), g.p(g.o.leadP))
	case "L":
		return tL(g.term(depth - 1))
	case "C":
		return tC(g.leaf())
	case "G":
		g.scope++
		sub := g.grammar([]string{"a", "b", "c", "d", "x", "y"}, 1+g.r.Intn(3), depth-1)
		g.envs = append(g.envs, sub.Names)
		t := g.term(depth - 1)
		if g.p(0.5) {
			t = tR(pick(g.r, sub.Names))
		}
		if (t.K == "S" || t.K == "RE" || t.K == "R") && g.o.cutSeq > 0 && g.p(g.o.cutSeq) {
			t = tC(t)
		}
		g.envs = g.envs[:len(g.envs)-1]
		g.scope--
		return tG(t, sub)
	}
	return g.leaf()
}

// grammar generates n rules with names from the pool.
func (g *gen) grammar(pool []string, n, depth int) *Gram {
	names := append([]string{}, pool...)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if n > len(names) {
		n = len(names)
	}
	names = names[:n]
	sort.Strings(names)
	g.envs = append(g.envs, names)
	out := newGram()
	wrapped := ""
	if g.p(g.o.wrapP) {
		wrapped = pick(g.r, []string{`\s*()\s*`, `\s*()`, `()\s*`, `[ ]*()`, `(?:\s|#)*()`, `-?()`})
	}
	stkSave := g.inStk
	for _, nm := range names {
		save := g.bound
		g.bound = nil
		if g.p(g.o.stackP) {
			g.inStk = true
			k := 1 + g.r.Intn(4)
			if g.o.deepStk && g.p(0.08) {
				k = 9 + g.r.Intn(5)
			}
			s := tStack()
			for i := 0; i < k; i++ {
				if k > 8 && i == k-1 {
					s.Xs = append(s.Xs, g.lit())
					continue
				}
				if k > 8 { // keep the deep ones small
					s.Xs = append(s.Xs, pick(g.r, []*Term{
						tR("@"), tOne(tSeq(tS(pick(g.r, g.o.lits)), tR("@")), tR("@")),
						tD(tR("@"), tS(pick(g.r, g.o.lits)), 0, false, false), tSeq(tS(pick(g.r, g.o.lits)), tR("@")),
					}).clone())
					continue
				}
				s.Xs = append(s.Xs, g.term(depth-1))
			}
			out.add(nm, s)
			g.inStk = false
		} else {
			g.inStk = false
			out.add(nm, g.term(depth))
		}
		g.bound = save
	}
	g.inStk = stkSave
	if wrapped != "" {
		w := tRE(wrapped)
		if g.p(0.4) {
			exc := tOne()
			for i := 0; i < 1+g.r.Intn(2); i++ {
				if g.p(0.7) || len(g.o.res) == 0 {
					exc.Xs = append(exc.Xs, tS(pick(g.r, g.o.lits)))
				} else {
					exc.Xs = append(exc.Xs, tRE(pick(g.r, g.o.res)))
				}
			}
			exc.Xs = append(exc.Xs, w)
			w = exc
		}
		out.add(wrapName, w)
	}
	g.envs = g.envs[:len(g.envs)-1]
	return out
}

// ---------------------------------------------------------------------------
// static analysis used to stay inside the domain

type env struct {
	g   *Gram
	par *env
}

func (e *env) find(r string) *env {
	for ; e != nil; e = e.par {
		if _, has := e.g.Rules[r]; has {
			return e
		}
	}
	return nil
}

// site is a rule (or stack layer) in an environment
type site struct {
	e     *env
	rule  string
	layer int
}

type analysis struct {
	null   map[site]bool
	left   map[site]map[site]bool
	undef  bool
	change bool
	envs   map[*Gram]*env
}

func (a *analysis) envOf(g *Gram, par *env) *env {
	if e, has := a.envs[g]; has && e.par == par {
		return e
	}
	e := &env{g, par}
	a.envs[g] = e
	return e
}

func (a *analysis) visit(t *Term, e *env, at site, add func(site)) (null bool) {
	switch t.K {
	case "S":
		return t.S == ""
	case "RE":
		return reNullable(t.S)
	case "X", "REF":
		return true
	case "R":
		var s site
		if t.R == "@" {
			if at.layer == 0 {
				a.undef = true
				return false
			}
			n := len(at.e.g.Rules[at.rule].Xs)
			s = site{at.e, at.rule, at.layer%n + 1}
		} else {
			d := e.find(t.R)
			if d == nil {
				a.undef = true
				return false
			}
			s = site{d, t.R, 0}
			if d.g.Rules[t.R].K == "Stack" {
				s.layer = 1
			}
		}
		if add != nil {
			add(s)
		}
		a.rule(s)
		return a.null[s]
	case "Seq":
		null = true
		for _, x := range t.Xs {
			n := false
			if null {
				n = a.visit(x, e, at, add)
			} else {
				n = a.visit(x, e, at, nil)
			}
			null = null && n
		}
		return null
	case "Oneof":
		for _, x := range t.Xs {
			if a.visit(x, e, at, add) {
				null = true
			}
		}
		return null
	case "Q":
		n := a.visit(t.T, e, at, add)
		return n || t.Mn == 0
	case "D":
		n := a.visit(t.T, e, at, add)
		var sepAdd func(site)
		if n || t.Lead {
			sepAdd = add
		}
		a.visit(t.Sep, e, at, sepAdd)
		return n
	case "L":
		a.visit(t.T, e, at, add)
		return true
	case "N", "C":
		return a.visit(t.T, e, at, add)
	case "G":
		sub := a.envOf(t.G, e)
		for _, n := range t.G.Names {
			if n == wrapName {
				continue
			}
			if t.G.Rules[n].K == "Stack" {
				for i := range t.G.Rules[n].Xs {
					a.rule(site{sub, n, i + 1})
				}
			} else {
				a.rule(site{sub, n, 0})
			}
		}
		return a.visit(t.T, sub, site{}, add)
	}
	return false
}

func (a *analysis) rule(s site) {
	if _, has := a.left[s]; has {
		return
	}
	a.left[s] = map[site]bool{}
	a.null[s] = false
}

func (a *analysis) body(s site) *Term {
	t := s.e.g.Rules[s.rule]
	if s.layer > 0 {
		return t.Xs[s.layer-1]
	}
	return t
}

// analyse reports whether the grammar refers only to defined rules and has no
// left recursion (through anything that may match nothing).
func analyse(g *Gram, extraRoots ...string) (ok bool) { return analyseFull(g) != nil }

func analyseFull(g *Gram) *analysis {
	a := &analysis{null: map[site]bool{}, left: map[site]map[site]bool{}, envs: map[*Gram]*env{}}
	root := a.envOf(g, nil)
	for _, n := range g.Names {
		if n == wrapName {
			continue
		}
		if g.Rules[n].K == "Stack" {
			for i := range g.Rules[n].Xs {
				a.rule(site{root, n, i + 1})
			}
		} else {
			a.rule(site{root, n, 0})
		}
	}
	for {
		before := len(a.left)
		changed := false
		sites := make([]site, 0, len(a.left))
		for s := range a.left {
			sites = append(sites, s)
		}
		for _, s := range sites {
			s := s
			n := a.visit(a.body(s), s.e, s, func(x site) {
				if !a.left[s][x] {
					a.left[s][x] = true
					changed = true
				}
			})
			if n && !a.null[s] {
				a.null[s] = true
				changed = true
			}
		}
		if !changed && before == len(a.left) {
			break
		}
	}
	if a.undef {
		return nil
	}
	// cycles
	state := map[site]int{}
	var dfs func(s site) bool
	dfs = func(s site) bool {
		switch state[s] {
		case 1:
			return false
		case 2:
			return true
		}
		state[s] = 1
		for x := range a.left[s] {
			if !dfs(x) {
				return false
			}
		}
		state[s] = 2
		return true
	}
	for s := range a.left {
		if !dfs(s) {
			return nil
		}
	}
	return a
}

// nullable reports whether a term of the (root) grammar may match nothing.
func (a *analysis) nullable(t *Term, e *env, at site) bool { return a.visit(t, e, at, nil) }

// ---------------------------------------------------------------------------
// sampling inputs

type sampler struct {
	r      *rand.Rand
	fuel   int
	binds  map[string]string
	spaces bool
	a      *analysis
	ext    map[string]*Handler
	big    bool
}

func (s *sampler) term(t *Term, e *env, at site) string {
	s.fuel--
	if s.fuel < 0 {
		return ""
	}
	sp := ""
	if s.spaces && s.r.Intn(4) == 0 {
		sp = pick(s.r, []string{" ", " ", "  ", "\n", "#", "-"})
	}
	switch t.K {
	case "S":
		return sp + t.S
	case "RE":
		return sp + sampleRE(s.r, t.S)
	case "X":
		if h := s.ext[t.R]; h != nil && h.Act == "lit" {
			return h.S
		}
		return pick(s.r, []string{"a", "b", ""})
	case "REF":
		if v, has := s.binds[t.R]; has {
			if len(v) > 300 { // what refers to itself doubles every time
				return ""
			}
			return v
		}
		if t.Def != nil {
			return *t.Def
		}
		return ""
	case "R":
		var d *env
		var body *Term
		var st site
		if t.R == "@" {
			n := len(at.e.g.Rules[at.rule].Xs)
			st = site{at.e, at.rule, at.layer%n + 1}
			if s.fuel < 20 && st.layer == 1 {
				st.layer = n
			}
			d, body = at.e, at.e.g.Rules[at.rule].Xs[st.layer-1]
		} else {
			d = e.find(t.R)
			if d == nil {
				return ""
			}
			body = d.g.Rules[t.R]
			st = site{d, t.R, 0}
			if body.K == "Stack" {
				st.layer = 1
				body = body.Xs[0]
			}
		}
		return s.term(body, d, st)
	case "Seq":
		out := ""
		for _, x := range t.Xs {
			v := s.term(x, e, at)
			if id := identOf(x); id != "" {
				s.binds[id] = strings.TrimSpace(v)
			}
			out += v
		}
		return out
	case "Oneof":
		if s.fuel < 20 {
			return s.term(t.Xs[len(t.Xs)-1], e, at)
		}
		return s.term(pick(s.r, t.Xs), e, at)
	case "Q":
		hi := t.Mx
		if hi == 0 {
			hi = t.Mn + 2
		}
		n := t.Mn
		if hi > t.Mn && s.fuel > 10 {
			n += s.r.Intn(hi - t.Mn + 1)
		}
		if s.big && t.Mx == 0 && s.r.Intn(2) == 0 {
			n = t.Mn + s.r.Intn(40)
		}
		out := ""
		for i := 0; i < n; i++ {
			out += s.term(t.T, e, at)
		}
		return out
	case "D":
		n := 1 + s.r.Intn(3)
		if s.big && s.r.Intn(2) == 0 {
			n = 1 + s.r.Intn(40)
		}
		if s.fuel < 10 {
			n = 1
		}
		out := ""
		if t.Lead && s.r.Intn(2) == 0 {
			out += s.term(t.Sep, e, at)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				out += s.term(t.Sep, e, at)
			}
			out += s.term(t.T, e, at)
		}
		if (t.Trail && s.r.Intn(2) == 0) || s.r.Intn(8) == 0 {
			out += s.term(t.Sep, e, at)
		}
		return out
	case "L":
		return ""
	case "N", "C":
		return s.term(t.T, e, at)
	case "G":
		sub := &env{t.G, e}
		return s.term(t.T, sub, site{})
	}
	return ""
}

func identOf(t *Term) string {
	switch t.K {
	case "N":
		return t.Nm
	case "R":
		return t.R
	case "Q":
		return identOf(t.T)
	}
	return ""
}

func sampleRE(r *rand.Rand, src string) string {
	re, err := syntax.Parse(src, syntax.Perl&^syntax.OneLine)
	if err != nil {
		return ""
	}
	var f func(re *syntax.Regexp) string
	f = func(re *syntax.Regexp) string {
		rep := func(mn, mx int) string {
			if mx < 0 {
				mx = mn + 2
			}
			out := ""
			for i := mn + r.Intn(mx-mn+1); i > 0; i-- {
				out += f(re.Sub[0])
			}
			return out
		}
		switch re.Op {
		case syntax.OpLiteral:
			return string(re.Rune)
		case syntax.OpCharClass:
			i := r.Intn(len(re.Rune)/2) * 2
			lo, hi := re.Rune[i], re.Rune[i+1]
			if lo < 32 && hi > 127 {
				return pick(r, []string{"a", "b", "1", " ", "é"})
			}
			if hi-lo > 200 {
				lo, hi = 'a', 'f'
			}
			return string(lo + rune(r.Intn(int(hi-lo+1))))
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return pick(r, []string{"a", "b", "1", " ", "é"})
		case syntax.OpStar:
			return rep(0, -1)
		case syntax.OpPlus:
			return rep(1, -1)
		case syntax.OpQuest:
			return rep(0, 1)
		case syntax.OpRepeat:
			return rep(re.Min, re.Max)
		case syntax.OpCapture:
			return f(re.Sub[0])
		case syntax.OpConcat:
			out := ""
			for _, s := range re.Sub {
				out += f(s)
			}
			return out
		case syntax.OpAlternate:
			return f(pick(r, re.Sub))
		}
		return ""
	}
	return f(re)
}

func sampleRule(r *rand.Rand, g *Gram, rule string, spaces bool, ext map[string]*Handler) string {
	s := &sampler{r: r, fuel: 120, binds: map[string]string{}, spaces: spaces, ext: ext}
	return s.term(tR(rule), &env{g, nil}, site{})
}

// sampleBig is a longer sample.
func sampleBig(r *rand.Rand, g *Gram, rule string, spaces bool) string {
	s := &sampler{r: r, fuel: 100 + r.Intn(500), binds: map[string]string{}, spaces: spaces, big: true}
	return s.term(tR(rule), &env{g, nil}, site{})
}

// enlarge makes one dimension of g large: alternatives, items, rules, nesting, literals, repetitions.
func enlarge(r *rand.Rand, g *Gram) *Gram {
	g = g.clone()
	var all []*Term
	for _, n := range g.Names {
		t := g.Rules[n]
		if n == wrapName {
			continue
		}
		if t.K != "Stack" {
			all = append(all, t)
			continue
		}
		for i, x := range t.Xs {
			if i < len(t.Xs)-1 {
				all = append(all, x)
			}
		}
	}
	for i := 0; i < len(all); i++ {
		if all[i].K != "C" && all[i].K != "N" {
			all = append(all, all[i].kids()...)
		}
	}
	if len(all) == 0 {
		return g
	}
	t := pick(r, all)
	if r.Intn(2) == 0 { // what a back reference refers to
		var bound []*Term
		used := map[string]bool{}
		for _, x := range all {
			if x.K == "REF" {
				used[x.R] = true
			}
		}
		for _, x := range all {
			if x.K == "N" && used[x.Nm] {
				bound = append(bound, x.T)
			}
		}
		if len(bound) > 0 {
			t = pick(r, bound)
		}
	}
	x := *t
	filler := func(i int) *Term {
		return tS(string(rune('p'+i%8)) + string(rune('p'+i/8%8)))
	}
	some := func(n int, any func(i int) *Term) []*Term {
		at := r.Intn(n)
		if r.Intn(2) == 0 {
			at = n - 1
		}
		xs := []*Term{}
		for i := 0; i < n; i++ {
			if i == at {
				xs = append(xs, &x)
			} else {
				xs = append(xs, any(i))
			}
		}
		return xs
	}
	switch r.Intn(7) {
	case 0:
		k := 10 + r.Intn(30)
		if r.Intn(6) == 0 { // more than fits a byte
			k = 250 + r.Intn(30)
		}
		*t = *tOne(some(k, filler)...)
	case 1:
		*t = *tSeq(some(10+r.Intn(20), func(i int) *Term {
			if r.Intn(3) == 0 {
				return tQ(filler(i), 0, 1)
			}
			return filler(i)
		})...)
	case 2:
		for _, u := range all {
			if u.K == "S" && u.S != "" && r.Intn(2) == 0 {
				u.S = strings.Repeat(u.S, 8+r.Intn(12))
			}
		}
	case 3: // a chain of rules
		if n := pick(r, g.Names); n != wrapName && g.Rules[n].K != "Stack" {
			k, plain := 8+r.Intn(16), r.Intn(4) == 0
			body := g.Rules[n]
			link := func(i int) *Term { return tR(fmt.Sprintf("k%d", i)) }
			g.Rules[n] = link(0)
			for i := 0; i < k; i++ {
				var b *Term
				switch {
				case i == k-1:
					b = body
				case plain || r.Intn(3) == 0:
					b = link(i + 1)
				case r.Intn(2) == 0:
					b = tSeq(filler(i), link(i+1))
				case r.Intn(2) == 0:
					b = tOne(filler(i), link(i+1))
				default:
					b = tQ(link(i+1), 1, 0)
				}
				g.add(fmt.Sprintf("k%d", i), b)
			}
		}
	case 4: // deep groups
		u := &x
		for i := 6 + r.Intn(12); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				u = tQ(u, 0, 1)
			case 1:
				u = tSeq(u, filler(i))
			case 2:
				u = tSeq(tQ(filler(i), 0, 1), u)
			default:
				u = tOne(filler(i), u)
			}
		}
		*t = *u
	case 5:
		*t = *tQ(&x, r.Intn(3), 0)
		if r.Intn(3) == 0 {
			t.Mn = 5 + r.Intn(12)
			t.Mx = t.Mn + r.Intn(3)
		}
	default:
		*t = *tD(&x, tS(pick(r, []string{",", ";", "x", "-"})), r.Intn(3)-1, r.Intn(4) == 0, r.Intn(4) == 0)
	}
	return g
}

// mutate edits a sample a little.
func mutate(r *rand.Rand, s string, alphabet []string) string {
	rs := []rune(s)
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := 0
		if len(rs) > 0 {
			i = r.Intn(len(rs) + 1)
		}
		switch r.Intn(5) {
		case 0: // delete
			if i < len(rs) {
				rs = append(append([]rune{}, rs[:i]...), rs[i+1:]...)
			}
		case 1: // insert
			rs = append(append(append([]rune{}, rs[:i]...), []rune(pick(r, alphabet))...), rs[i:]...)
		case 2: // replace
			if i < len(rs) {
				rs = append(append(append([]rune{}, rs[:i]...), []rune(pick(r, alphabet))...), rs[i+1:]...)
			}
		case 3: // truncate
			rs = rs[:i]
		case 4: // extend
			rs = append(append([]rune{}, rs...), []rune(pick(r, alphabet))...)
		}
	}
	return string(rs)
}

func alphabetOf(g *Gram) []string {
	seen := map[string]bool{}
	out := []string{"a", " "}
	g.walk(func(t *Term) {
		if t.K == "S" && t.S != "" && !seen[t.S] {
			seen[t.S] = true
			out = append(out, t.S)
		}
	})
	return out
}
