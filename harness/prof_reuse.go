package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// sharedObs is what the first use of an argument gave, and every later use of
// the same argument, whoever made it, that gave something else.
type sharedObs struct {
	*sessObs
	Others []any `json:"others"`
	Uses   int   `json:"uses"`
}

type use struct {
	when  string
	ri    int
	obs   string
	first string
	again func() string
}

func useOnce(p parser.Parsers, c *Case, ri int, when string) (*use, *sessObs) {
	s, again := sessionKeep(p, c, c.Runs[ri])
	return &use{when, ri, js(s), again(), again}, s
}

func dumpOf(text string) string {
	p, err := wbnf.Compile(text, nil)
	if err != nil {
		return "error"
	}
	return js(encGram(fromGrammar(p.Grammar())))
}

// reuse makes a history of uses of one compiled parser: one after another with
// repetitions, from several goroutines at once, and of a second compilation.
func reuse(c *Case) ([]*sharedObs, string) {
	seed := int64(0)
	if x, ok := c.Data["seed"].(float64); ok {
		seed = int64(x)
	}
	r := rand.New(rand.NewSource(seed))
	g := toGrammar(c.G)
	var p, p2 parser.Parsers
	given := js(encGram(fromGrammar(g)))
	if msg := guarded(func() { p = g.Compile(nil) }); msg != "" {
		return nil, msg
	}
	text, _ := c.Data["text"].(string)
	n := len(c.Runs)
	out := make([]*sharedObs, n)
	var uses []*use
	order := r.Perm(n)
	for i := 0; i < n; i++ {
		order = append(order, r.Intn(n))
	}
	if long, ok := c.Data["long"].(float64); ok {
		for i := 0; i < int(long); i++ {
			order = append(order, r.Intn(n))
		}
	}
	for _, ri := range order {
		u, s := useOnce(p, c, ri, "again")
		uses = append(uses, u)
		if out[ri] == nil {
			out[ri] = &sharedObs{sessObs: s, Others: []any{}}
		}
	}
	dump := ""
	if text != "" {
		dump = dumpOf(text)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	start := make(chan struct{})
	for k := 0; k < 6; k++ {
		mine := append(r.Perm(n), r.Perm(n)...)
		compiles := text != "" && k%2 == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got := []*use{}
			if compiles {
				d := dumpOf(text)
				got = append(got, &use{when: "compile", ri: 0, first: d, again: func() string { return dump }})
			}
			for _, ri := range mine {
				u, _ := useOnce(p, c, ri, "concurrent")
				got = append(got, u)
			}
			mu.Lock()
			uses = append(uses, got...)
			mu.Unlock()
		}()
	}
	close(start)
	wg.Wait()
	if msg := guarded(func() { p2 = g.Compile(nil) }); msg != "" {
		return nil, "second compilation: " + msg
	}
	for _, ri := range r.Perm(n) {
		u, _ := useOnce(p2, c, ri, "compiled again")
		uses = append(uses, u)
	}
	for _, ri := range r.Perm(n) {
		u, _ := useOnce(p, c, ri, "at the end")
		uses = append(uses, u)
	}
	if now := js(encGram(fromGrammar(g))); now != given {
		out[0].Others = append(out[0].Others, []any{"the grammar that was compiled", now})
	}
	seen := map[string]bool{}
	for _, u := range uses {
		o := out[u.ri]
		o.Uses++
		add := func(when, what string) {
			if key := fmt.Sprint(u.ri, when, what); !seen[key] {
				seen[key] = true
				o.Others = append(o.Others, []any{when, what})
			}
		}
		if u.when != "compile" && u.obs != js(o.sessObs) {
			add(u.when, u.obs)
		}
		if late := u.again(); late != u.first {
			add(u.when+", later", late)
		}
	}
	return out, ""
}

func init() {
	executors["reuse"] = executor{
		prepare: func(c *Case) any {
			obs, msg := reuse(c)
			if msg != "" {
				obs = make([]*sharedObs, len(c.Runs))
				for i := range obs {
					obs[i] = &sharedObs{sessObs: &sessObs{Obs: &Obs{O: "panic", Msg: msg, P: -1, T: []any{"E"}, Log: []any{}},
						Ast: []any{"NONE"}, Back: []any{"NONE"}, Un: []int{-1}, Re: []any{"NONE"}}, Others: []any{}}
				}
			}
			return obs
		},
		run: func(c *Case, prep any, ri int) any { return prep.([]*sharedObs)[ri] },
	}
	flatteners["reuse"] = func(c *Case, obs []json.RawMessage) any { return flatParseG(c, c.G, obs) }

	profiles["C14"] = func(r *rand.Rand, n int) []*Case {
		return parseCases(r, n, func(r *rand.Rand) (opts, func(*Gram) bool) {
			o := baseOpts()
			o.w["R"] = 5
			o.w["E"] = 1
			o.depth = 2 + r.Intn(3)
			o.maxRules = 1 + r.Intn(4)
			o.nameP, o.names = 0.3, nameSet
			switch r.Intn(3) {
			case 0:
				o.w["D"], o.assocP, o.leadP = 4, 0.4, 0.2
			case 1:
				o.stackP = 0.6
			}
			if r.Intn(3) == 0 {
				o.w["REF"] = 3
			}
			if r.Intn(4) == 0 {
				o.w["L"] = 2
			}
			if r.Intn(3) == 0 {
				o.w["X"], o.exts = 3, []string{"p", "q"}
			}
			if r.Intn(3) == 0 {
				o.scopeN, o.w["G"] = 2, 4
			}
			if r.Intn(3) == 0 {
				o.wrapP = 1
			}
			if r.Intn(3) == 0 {
				o.cutSeq = 0.3
			}
			if r.Intn(4) == 0 {
				o.res = append(append([]string{}, simpleREs...), groupREs...)
				o.w["RE"] = 4
			}
			sep := r.Intn(3) == 0
			return o, func(g *Gram) bool {
				if sep {
					*g = *separate(r, g, 0.8)
				}
				return astOK(g)
			}
		}, func(c *Case) {
			c.Kind = "reuse"
			c.Cmp = []string{"tree", "ast", "back", "unparse", "reuse"}
			c.Data = map[string]any{"seed": r.Intn(1 << 30)}
			if r.Intn(40) == 0 { // many uses
				c.Data["long"] = 100 << r.Intn(5)
			}
			for _, run := range c.Runs {
				if hasKind(c.G, "X") {
					run.Ext = randHandlers(r, []string{"p", "q"})
				}
			}
			if r.Intn(4) == 0 {
				tg := newTgen(r)
				c.Data["text"] = printGram(r, tg.gram(2+r.Intn(3), 2), nil, false)
			}
		})
	}
}
