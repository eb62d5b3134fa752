package main

import (
	"math/rand"
)

var nameSet = []string{"x", "y", "z", "op", "a"}

func cmp(ks ...string) func(c *Case) { return func(c *Case) { c.Cmp = ks } }

func stdProfile(id string, mk func(r *rand.Rand) (opts, func(*Gram) bool), fin func(c *Case)) {
	profiles[id] = func(r *rand.Rand, n int) []*Case { return parseCases(r, n, mk, fin) }
}

// nestOK: no nested grammar inside a stack and no stack inside anything else.
func has(k string) func(*Gram) bool { return func(g *Gram) bool { return hasKind(g, k) } }

func init() {
	stdProfile("C02", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["E"] = 1
		o.w["RE"] = 4
		o.res = append(append([]string{}, simpleREs...), groupREs...)
		o.nameP = 0.25
		o.names = nameSet
		o.maxRules = 1 + r.Intn(4)
		o.depth = 2 + r.Intn(3)
		if r.Intn(3) == 0 {
			o.w["D"] = 2
		}
		if r.Intn(4) == 0 {
			o.cutSeq = 0.2
		}
		return o, nil
	}, cmp("tree"))

	stdProfile("C03", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["D"] = 8
		o.w["Oneof"], o.w["Q"], o.w["Seq"] = 2, 2, 3
		o.leadP, o.assocP = 0.35, 0.4
		o.depth = 2 + r.Intn(2)
		o.nameP, o.names = 0.2, nameSet
		if r.Intn(4) == 0 {
			o.cutSeq = 0.2
		}
		if r.Intn(4) == 0 {
			o.wrapP = 1
		}
		return o, has("D")
	}, cmp("tree"))

	stdProfile("C04", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.stackP = 0.8
		o.deepStk = true
		o.w["D"] = 5
		o.w["Q"], o.w["Seq"], o.w["Oneof"] = 3, 4, 3
		o.assocP, o.leadP = 0.3, 0.1
		o.depth = 2 + r.Intn(2)
		o.maxNodes = 24
		o.nameP, o.names = 0.15, nameSet
		if r.Intn(5) == 0 {
			o.cutSeq = 0.2
		}
		if r.Intn(4) == 0 {
			o.wrapP = 1
		}
		return o, has("Stack")
	}, cmp("tree"))

	stdProfile("C05", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.cutSeq = 0.45
		o.w["C"] = 1
		o.w["Seq"], o.w["Oneof"], o.w["Q"] = 7, 5, 4
		o.depth = 2 + r.Intn(3)
		o.maxRules = 1 + r.Intn(4)
		if r.Intn(3) == 0 {
			o.w["D"], o.leadP = 3, 0.2
		}
		if r.Intn(4) == 0 {
			o.w["L"] = 2
		}
		if r.Intn(6) == 0 {
			o.stackP = 0.4
		}
		if r.Intn(4) == 0 {
			o.nameP, o.names = 0.3, nameSet
		}
		if r.Intn(6) == 0 {
			o.scopeN, o.w["G"] = 1, 3
		}
		return o, has("C")
	}, cmp("kind", "tree"))

	stdProfile("C07", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["REF"] = 6
		o.w["Seq"] = 8
		o.bigP = 0.06
		o.nameP, o.names = 0.5, []string{"x", "y", "a"}
		o.depth = 2 + r.Intn(3)
		o.maxRules = 1 + r.Intn(3)
		o.maxNodes = 20
		if r.Intn(3) == 0 {
			o.w["D"] = 2
		}
		if r.Intn(3) == 0 {
			o.wrapP = 1
		}
		if r.Intn(4) == 0 {
			o.cutSeq = 0.2
		}
		if r.Intn(4) == 0 {
			o.res = append(append([]string{}, simpleREs...), groupREs...)
		}
		if r.Intn(5) == 0 {
			o.w["L"] = 2
		}
		if r.Intn(5) == 0 {
			o.scopeN, o.w["G"] = 1, 3
		}
		return o, has("REF")
	}, cmp("tree"))

	stdProfile("C08", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.scopeN = 1 + r.Intn(3)
		o.w["G"] = 6
		o.w["R"] = 6
		o.depth = 3 + r.Intn(2)
		o.maxNodes = 30
		o.maxRules = 1 + r.Intn(3)
		if r.Intn(4) == 0 {
			o.w["D"] = 2
		}
		if r.Intn(4) == 0 {
			o.cutSeq = 0.2
		}
		if r.Intn(4) == 0 {
			o.nameP, o.names = 0.3, nameSet
		}
		if r.Intn(4) == 0 {
			o.wrapP = 0.4
		}
		return o, has("G")
	}, cmp("tree"))

	stdProfile("C09", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.wrapP = 0.9
		o.w["RE"] = 4
		o.res = append(append([]string{}, simpleREs...), groupREs...)
		o.depth = 2 + r.Intn(3)
		if r.Intn(3) == 0 {
			o.w["D"] = 2
		}
		if r.Intn(2) == 0 {
			o.scopeN, o.w["G"] = 2, 4
			o.wrapP = 0.6
		}
		if r.Intn(4) == 0 {
			o.cutSeq = 0.2
		}
		if r.Intn(5) == 0 {
			o.stackP = 0.5
		}
		return o, hasWrap
	}, cmp("tree"))

	stdProfile("C10", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["L"] = 6
		o.w["Seq"] = 8
		o.depth = 2 + r.Intn(3)
		if r.Intn(3) == 0 {
			o.w["D"] = 2
		}
		if r.Intn(3) == 0 {
			o.cutSeq = 0.25
		}
		if r.Intn(4) == 0 {
			o.nameP, o.names = 0.3, []string{"x", "y"}
			o.w["REF"] = 2
		}
		if r.Intn(4) == 0 {
			o.wrapP = 1
		}
		return o, has("L")
	}, cmp("kind", "tree"))

	profiles["C11"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, func(r *rand.Rand) (opts, func(*Gram) bool) {
			o := baseOpts()
			o.w["X"] = 6
			o.exts = []string{"p", "q", "w"}
			o.depth = 2 + r.Intn(3)
			o.maxRules = 1 + r.Intn(3)
			if r.Intn(2) == 0 {
				o.nameP, o.names = 0.4, []string{"x", "y", "a"}
				o.w["REF"] = 2
			}
			if r.Intn(3) == 0 {
				o.w["D"] = 3
			}
			if r.Intn(3) == 0 {
				o.cutSeq = 0.25
			}
			if r.Intn(5) == 0 {
				o.w["L"] = 2
			}
			if r.Intn(5) == 0 {
				o.stackP = 0.4
			}
			if r.Intn(5) == 0 {
				o.wrapP = 1
			}
			if r.Intn(6) == 0 {
				o.scopeN, o.w["G"] = 1, 3
			}
			return o, has("X")
		}, func(c *Case) {
			c.Cmp = []string{"kind", "tree", "log"}
			for _, nm := range []string{"x", "a", "y"} {
				c.Refs = append(c.Refs, nm)
			}
			c.Refs = uniq(c.Refs)
			for _, run := range c.Runs {
				run.Ext = randHandlers(r, []string{"p", "q", "w"})
				if r.Intn(2) == 0 {
					run.In = sampleRule(r, c.G, run.Rule, hasWrap(c.G), run.Ext)
				}
				if len([]rune(run.In)) > 12 {
					run.In = string([]rune(run.In)[:12])
				}
			}
		})
	}

	profiles["C12"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, func(r *rand.Rand) (opts, func(*Gram) bool) {
			o := baseOpts()
			o.w["Seq"] = 7
			o.depth = 2 + r.Intn(3)
			o.maxRules = 1 + r.Intn(3)
			if r.Intn(2) == 0 {
				o.w["D"] = 4
				o.leadP, o.assocP = 0.2, 0.2
			}
			if r.Intn(4) == 0 {
				o.cutSeq = 0.2
			}
			if r.Intn(4) == 0 {
				o.wrapP = 1
			}
			if r.Intn(5) == 0 {
				o.stackP = 0.4
			}
			if r.Intn(5) == 0 {
				o.w["L"] = 2
			}
			if r.Intn(6) == 0 {
				o.scopeN, o.w["G"] = 1, 3
			}
			if r.Intn(4) == 0 {
				o.w["X"], o.exts = 3, []string{"p", "q"}
			}
			if r.Intn(4) == 0 {
				o.w["REF"], o.nameP, o.names = 5, 0.35, []string{"x", "y"}
			}
			return o, refsBindLeaves
		}, func(c *Case) {
			c.Cmp = []string{"kind", "tree", "log"}
			c.Pure = false
			for _, run := range c.Runs {
				if hasKind(c.G, "X") {
					run.Ext = randHandlers(r, []string{"p", "q"})
				}
				addEscape(r, c, run)
				if hasKind(c.G, "REF") && run.Esc.Act != "err" && run.Esc.Act != "stop" {
					// the escape may be bound, so it has to be a leaf
					run.Esc.Act, run.Esc.S, run.Esc.Rule, run.Esc.N = "eat", "", "", r.Intn(3)
				}
			}
		})
	}

	stdProfile("C26", func(r *rand.Rand) (opts, func(*Gram) bool) {
		o := baseOpts()
		o.w["E"] = 1
		o.depth = 2 + r.Intn(3)
		o.maxRules = 1 + r.Intn(4)
		o.nameP, o.names = 0.15, nameSet
		if r.Intn(3) == 0 {
			o.cutSeq = 0.3
		}
		if r.Intn(3) == 0 {
			o.w["D"], o.leadP, o.assocP = 3, 0.2, 0.2
		}
		if r.Intn(4) == 0 {
			o.w["L"] = 2
		}
		if r.Intn(4) == 0 {
			o.w["REF"] = 3
		}
		if r.Intn(4) == 0 {
			o.stackP = 0.4
		}
		if r.Intn(4) == 0 {
			o.wrapP = 1
		}
		if r.Intn(5) == 0 {
			o.w["X"], o.exts = 2, []string{"p"}
		}
		if r.Intn(6) == 0 {
			o.scopeN, o.w["G"] = 1, 3
		}
		return o, nil
	}, func(c *Case) {
		c.Cmp = []string{"kind", "fpos"}
		c.Data = map[string]any{"twice": true, "render": size(c.G) <= 30}
	})
}

// refsBindLeaves: whatever a back-reference may refer to is the tree of a terminal, so that no escape
// can open inside the referenced text.
func refsBindLeaves(g *Gram) bool {
	refs, ok := map[string]bool{}, true
	for _, x := range refsOf(g) {
		refs[x] = true
	}
	g.walk(func(t *Term) {
		switch t.K {
		case "N":
			ok = ok && (!refs[t.Nm] || t.T.K == "S" || t.T.K == "RE")
		case "R":
			ok = ok && !refs[t.R]
		case "Q":
			u := t.T
			for u.K == "Q" {
				u = u.T
			}
			ok = ok && (u.K != "N" || !refs[u.Nm])
		}
	})
	return ok
}

func randHandlers(r *rand.Rand, names []string) map[string]*Handler {
	out := map[string]*Handler{}
	for _, n := range names {
		switch r.Intn(9) {
		case 0: // missing
		case 1:
			out[n] = &Handler{Act: "err", N: r.Intn(3)}
		case 2:
			out[n] = &Handler{Act: "stop", N: r.Intn(3)}
		case 3, 4:
			out[n] = &Handler{Act: "eat", N: r.Intn(3)}
		default:
			out[n] = &Handler{Act: "lit", S: pick(r, []string{"a", "b", "ab", "x", "", "aa", "é"})}
		}
	}
	return out
}

// addEscape installs a scripted escape and plants its delimiters in the input.
func addEscape(r *rand.Rand, c *Case, run *Run) {
	od := pick(r, [][2]string{{"{", "}"}, {"${", "}"}, {"<", ">"}, {"a", "b"}, {"{{", "}}"}, {"(", ")"}, {"é", "."}})
	e := &Esc{Open: od[0], Close: od[1]}
	body := ""
	switch r.Intn(6) {
	case 0:
		e.Act, e.N = "eat", r.Intn(3)
		body = "abc"[:e.N]
	case 1:
		e.Act, e.N = "err", r.Intn(2)
	case 2:
		if r.Intn(3) == 0 {
			e.Act, e.N = "stop", r.Intn(2)
		} else {
			e.Act, e.S = "lit", "ab"
			body = "ab"
		}
	case 3:
		e.Act, e.S = "lit", pick(r, []string{"a", "x", "", "é"})
		body = e.S
	default:
		e.Act, e.Rule = "sub", pick(r, rulesOf(c.G))
		body = sampleRule(r, c.G, e.Rule, false, nil)
		if r.Intn(4) == 0 {
			body = mutate(r, body, []string{"a", "b", " "})
		}
	}
	run.Esc = e
	rs := []rune(run.In)
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(rs) + 1)
		j := i
		if r.Intn(2) == 0 {
			j = i + r.Intn(len(rs)-i+1)
		}
		cl := e.Close
		if r.Intn(6) == 0 {
			cl = pick(r, []string{"", " " + cl, "a"})
		}
		op := e.Open
		if hasWrap(c.G) && r.Intn(4) == 0 {
			op = " " + op
		}
		rs = []rune(string(rs[:i]) + op + body + cl + string(rs[j:]))
	}
	if len(rs) > 16 {
		rs = rs[:16]
	}
	run.In = string(rs)
}
