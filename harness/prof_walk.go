package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/wbnf"
)

// Walks over the typed tree of a grammar text, with scripted callbacks.

type answer struct {
	Ty string `json:"ty"`
	P  string `json:"p"`
	N  int    `json:"n"`
	A  string `json:"a"`
}

type walkObs struct {
	O   string `json:"o"`
	Log []any  `json:"log"`
	Ret string `json:"ret"`
	Msg string `json:"msg,omitempty"`
}

var walkTypes = []string{"AtomExtRef", "Atom", "Grammar", "Macrocall", "Named", "PragmaImport", "PragmaImportPath",
	"PragmaMacrodef", "Pragma", "Prod", "Quant", "Ref", "Stmt", "Term"}
var tokenTypes = []string{"Comment", "Ident", "Int", "Re", "Str", "WrapRe"}

// goesOn is a stopper that asks for nothing.
type goesOn struct{}

func (goesOn) ExitNode() bool { return false }
func (goesOn) Abort() bool    { return false }

// stops is a stopper of the client's own.
type stops struct{ leave bool }

func (s stops) ExitNode() bool { return s.leave }
func (s stops) Abort() bool    { return !s.leave }

// callbacks sets the callbacks of a walk; f gets each call and its node.
func callbacks(on func(ty, p string) bool, f func(ty, p string, n ast.Node, v any) wbnf.Stopper) wbnf.WalkerOps {
	var ops wbnf.WalkerOps
	v := reflect.ValueOf(&ops).Elem()
	for i := 0; i < v.NumField(); i++ {
		name, p := v.Type().Field(i).Name, "e"
		ty := strings.TrimPrefix(name, "Enter")
		if strings.HasPrefix(name, "Exit") {
			ty, p = strings.TrimPrefix(name, "Exit"), "x"
		}
		ty = strings.TrimSuffix(ty, "Node")
		if !on(ty, p) {
			continue
		}
		ft := v.Field(i).Type()
		v.Field(i).Set(reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			out := reflect.New(ft.Out(0)).Elem()
			if s := f(ty, p, args[0].Field(0).Interface().(ast.Node), args[0].Interface()); s != nil {
				out.Set(reflect.ValueOf(s))
			}
			return []reflect.Value{out}
		}))
	}
	return ops
}

func walkText(c *Case, r *Run) *walkObs {
	o := &walkObs{Log: []any{}, O: "ok"}
	b, _ := json.Marshal(r.Data)
	var d struct {
		On     map[string][]string
		Script []answer
		At     int
	}
	check(json.Unmarshal(b, &d))
	msg := guarded(func() {
		g, err := wbnf.ParseString(c.Text)
		if err != nil {
			o.O, o.Msg = "err", err.Error()
			return
		}
		var start wbnf.IsWalkableType = g
		if d.At > 0 {
			var nodes []any
			callbacks(func(ty, p string) bool { return p == "e" }, func(ty, p string, n ast.Node, v any) wbnf.Stopper {
				nodes = append(nodes, v)
				return nil
			}).Walk(g)
			start = nodes[d.At%len(nodes)].(wbnf.IsWalkableType)
		}
		calls := map[string]int{}
		made := map[wbnf.Stopper]string{}
		ret := callbacks(func(ty, p string) bool {
			for _, x := range d.On[ty] {
				if x == p {
					return true
				}
			}
			return false
		}, func(ty, p string, n ast.Node, v any) wbnf.Stopper {
			calls[p+ty]++
			from, to := -1, -1
			if s := n.Scanner(); !s.IsNil() {
				from, to = runeIdx(c.Text, s.Offset()), runeIdx(c.Text, s.Offset()+len(s.String()))
			}
			if len(o.Log) < 4000 {
				o.Log = append(o.Log, []any{p, ty, from, to})
			}
			for _, a := range d.Script {
				if a.Ty == ty && a.P == p && (a.N == 0 || a.N == calls[p+ty]) {
					var s wbnf.Stopper
					switch own := calls[p+ty]%2 == 0; {
					case a.A == "on":
						return goesOn{}
					case own:
						s = &stops{leave: a.A == "leave"}
					case a.A == "leave":
						s = wbnf.NodeExiter
					default:
						s = wbnf.Aborter
					}
					made[s] = a.A
					return s
				}
			}
			return nil
		}).Walk(start)
		if o.Ret = "nil"; ret != nil && ret != (goesOn{}) {
			if o.Ret = made[ret]; o.Ret == "" {
				o.Ret = "?"
			}
		}
	})
	if msg != "" {
		o.O, o.Msg = "panic", msg
	}
	return o
}

func walkRun(r *rand.Rand) *Run {
	on := map[string][]string{}
	script := []answer{}
	full := r.Intn(3) > 0
	for _, ty := range walkTypes {
		on[ty] = []string{}
		for _, p := range []string{"e", "x"} {
			if full || r.Intn(2) == 0 {
				on[ty] = append(on[ty], p)
			}
		}
	}
	for _, ty := range tokenTypes {
		on[ty] = []string{}
		if full || r.Intn(2) == 0 {
			on[ty] = append(on[ty], "e")
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		a := answer{Ty: pick(r, walkTypes), P: pick(r, []string{"e", "e", "x"}), N: r.Intn(4), A: pick(r, []string{"leave", "leave", "stop", "on"})}
		if r.Intn(3) == 0 {
			a.Ty = pick(r, []string{"Term", "Named", "Atom", "Prod", "Stmt", "Quant"})
		}
		if r.Intn(4) == 0 {
			a.Ty, a.P = pick(r, tokenTypes[:5]), "e"
		}
		script = append(script, a)
	}
	at := 0
	if r.Intn(3) == 0 {
		at = r.Intn(500)
	}
	return &Run{Data: map[string]any{"on": on, "script": script, "at": at}}
}

func init() {
	executors["walk"] = executor{run: func(c *Case, _ any, ri int) any { return walkText(c, c.Runs[ri]) }}
	flatteners["walk"] = func(c *Case, obs []json.RawMessage) any {
		runs := []any{}
		for i, o := range obs {
			d := c.Runs[i].Data
			runs = append(runs, map[string]any{"on": d["on"], "script": d["script"], "at": d["at"], "obs": o})
		}
		return map[string]any{"text": codes(c.Text), "runs": runs}
	}
	profiles["C24"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			g := newTgen(r)
			g.lits = textLits[:9]
			g.budget = 2 + r.Intn(14)
			ms := []*Macro{}
			if r.Intn(3) == 0 {
				m := &Macro{Nm: "macroOne", Ps: []string{"parFoo", "parBar"}[:r.Intn(3)]}
				g.params = m.Ps
				m.Body = g.term(1 + r.Intn(2))
				ms, g.params = append(ms, m), nil
				g.macros, g.w["M"] = ms, 2
			}
			text := printGram(r, g.gram(1+r.Intn(3), 1+r.Intn(3)), ms, r.Intn(2) == 0)
			if r.Intn(3) == 0 {
				text = pick(r, []string{".import a/b.wbnf\n", ".import ../x;", "// x\n", "/*x*/", ".import y\n// z\n"}) + text
			}
			limit := 130
			if r.Intn(25) == 0 {
				limit = 420
				for len([]rune(text)) < 300 {
					text += "\n" + (&sentence{r: r, n: 3 + r.Intn(16)}).grammar()
				}
			} else if r.Intn(3) > 0 {
				text = (&sentence{r: r, n: 3 + r.Intn(16)}).grammar()
			}
			if len([]rune(text)) > limit {
				continue
			}
			c := &Case{Kind: "walk", Text: text}
			for k := 8; k > 0; k-- {
				c.Runs = append(c.Runs, walkRun(r))
			}
			out = append(out, c)
		}
		return out
	}
}

// regroup puts the layers of stacks (rules x, x@1, x@2, ...) together again.
func regroup(g *Gram) *Gram {
	out := newGram()
	for _, nm := range g.Names {
		if strings.Contains(nm, "@") {
			continue
		}
		xs := []*Term{}
		for i := 0; ; i++ {
			t, has := g.Rules[layerName(nm, i)]
			if !has {
				break
			}
			xs = append(xs, mapRefs(t, func(r string) string {
				if r == layerName(nm, i+1) {
					return "@"
				}
				return r
			}))
		}
		if len(xs) == 1 {
			out.add(nm, g.Rules[nm])
		} else {
			out.add(nm, tStack(xs...))
		}
	}
	return out
}

func layerName(nm string, i int) string {
	if i == 0 {
		return nm
	}
	return nm + "@" + strconv.Itoa(i)
}

func mapRefs(t *Term, f func(string) string) *Term {
	if t == nil {
		return nil
	}
	u := *t
	if t.K == "R" {
		u.R = f(t.R)
	}
	u.T, u.Sep, u.Xs = mapRefs(t.T, f), mapRefs(t.Sep, f), nil
	for _, x := range t.Xs {
		u.Xs = append(u.Xs, mapRefs(x, f))
	}
	return &u
}
