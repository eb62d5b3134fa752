package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// scanOp is one operation on numbered scanners; see Scanner.tla.
type scanOp struct {
	Op   string `json:"op"`
	R    int    `json:"r"`
	A    int    `json:"a"`
	G    int    `json:"g"`
	N    int    `json:"n"`
	M    int    `json:"m"`
	S    []int  `json:"s"`
	File []int  `json:"file"`
	Re   string `json:"re"`
	Of   []int  `json:"of"`
}

func unbytes(xs []int) string {
	b := make([]byte, len(xs))
	for i, x := range xs {
		b[i] = byte(x)
	}
	return string(b)
}

const scanRegs = 4

type scanState struct {
	regs  [scanRegs]parser.Scanner
	whole [scanRegs]bool // has its original source
}

func (s *scanState) look() any {
	rs, in := []any{}, []any{}
	for i, x := range s.regs {
		m := map[string]any{"nil": x.IsNil(), "s": bytesOf(x.String()), "file": []int{}, "at": 0, "line": 0, "col": 0}
		if !x.IsNil() {
			m["file"], m["at"] = bytesOf(x.Filename()), x.Offset()
			if s.whole[i] {
				m["line"], m["col"] = x.Position()
			}
		}
		rs = append(rs, m)
		row := []int{}
		for j, y := range s.regs {
			switch {
			case x.IsNil() || y.IsNil() || !s.whole[i] || !s.whole[j]:
				row = append(row, 2)
			case x.Contains(y):
				row = append(row, 1)
			default:
				row = append(row, 0)
			}
		}
		in = append(in, row)
	}
	return map[string]any{"rs": rs, "in": in}
}

func (s *scanState) do(e *scanOp) []int {
	r, a, g := e.R-1, e.A-1, e.G-1
	set := func(i int, x parser.Scanner) { s.regs[i], s.whole[i] = x, true }
	switch e.Op {
	case "new":
		if len(e.File) == 0 {
			set(r, *parser.NewScanner(unbytes(e.S)))
		} else {
			set(r, *parser.NewScannerWithFilename(unbytes(e.S), unbytes(e.File)))
		}
	case "at":
		set(r, *parser.NewScannerAt(unbytes(e.S), e.N, e.M))
	case "slice":
		set(r, *s.regs[a].Slice(e.N, e.M))
	case "skip":
		set(r, *s.regs[a].Skip(e.N))
	case "strip":
		set(r, s.regs[a].StripSource())
		s.whole[r] = false
	case "ctx":
		return bytesOf(s.regs[a].Context(e.N))
	case "eat":
		s.regs[a].Eat(e.N, &s.regs[r])
		s.whole[r] = true
	case "eats":
		if !s.regs[a].EatString(unbytes(e.S), &s.regs[r]) {
			return []int{0}
		}
		s.whole[r] = true
	case "eatre":
		caps := []parser.Scanner{s.regs[g]}
		n, ok := s.regs[a].EatRegexp(regexp.MustCompile(`(?m)\A`+e.Re), &s.regs[r], caps)
		if !ok {
			return []int{0, n}
		}
		s.whole[r] = true
		if n > 0 {
			set(g, caps[0])
		}
		return []int{1, n}
	case "merge":
		var of []parser.Scanner
		for _, i := range e.Of {
			of = append(of, s.regs[i-1])
		}
		m, err := parser.MergeScanners(of...)
		if err != nil {
			return []int{0}
		}
		set(r, m)
	}
	return []int{1}
}

func runScan(ev []*scanOp) (obs map[string]any) {
	steps := []any{}
	obs = map[string]any{"o": "ok", "msg": ""}
	defer func() {
		if e := recover(); e != nil {
			obs["o"], obs["msg"] = "panic", fmt.Sprint(e)
		}
		obs["steps"] = steps
	}()
	var s scanState
	for _, e := range ev {
		ans := s.do(e)
		steps = append(steps, map[string]any{"ans": ans, "seen": s.look()})
	}
	return obs
}

var scanREs = []string{`a`, `(a+)`, `a(b)?`, `(?:x|(y))*b`, `[^\n]*`, `(\n)`, `^b`, `(a|ab)(b?)$`, `(.*?)b`, ``, `(?:a|(b))+`}

func init() {
	executors["scan"] = executor{run: func(c *Case, _ any, ri int) any { return runScan(c.Runs[ri].Ev) }}
	flatteners["scan"] = func(c *Case, obs []json.RawMessage) any {
		runs := []any{}
		for i, r := range c.Runs {
			ev := []any{}
			for _, e := range r.Ev {
				m := map[string]any{"op": e.Op, "r": e.R, "a": e.A, "g": e.G, "n": e.N, "m": e.M, "s": ints(e.S), "file": ints(e.File), "of": ints(e.Of)}
				if e.Op == "eatre" {
					m["rx"], m["n"] = rx(e.Re), regexp.MustCompile(e.Re).NumSubexp()
				}
				ev = append(ev, m)
			}
			runs = append(runs, map[string]any{"ev": ev, "obs": withSteps(obs[i])})
		}
		return map[string]any{"runs": runs}
	}
	profiles["C13s"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < (n+19)/20 {
			c := &Case{Kind: "scan"}
			for k := 0; k < 20; k++ {
				c.Runs = append(c.Runs, &Run{Ev: randScan(r, 4+r.Intn(12))})
			}
			out = append(out, c)
		}
		return out
	}
}

func ints(xs []int) []int {
	if xs == nil {
		return []int{}
	}
	return xs
}

// withSteps makes sure that a run that never ended still has a list of steps.
func withSteps(b json.RawMessage) any {
	var m map[string]any
	json.Unmarshal(b, &m)
	if m["steps"] == nil {
		m["steps"] = []any{}
	}
	return m
}

// randScan makes a history; it keeps to intervals that exist by looking only
// at lengths, which it tracks itself.
func randScan(r *rand.Rand, n int) []*scanOp {
	ascii := r.Intn(3) > 0
	texts := []string{"ab\nab\nxyb", "a\n\nb", "\nabab", "yyxb ab", "aab\n", "a\nb\nab\nx\nb\n\ny"}
	if !ascii {
		texts = []string{"é\nab", "日本\né", "aé\r\nb"}
	}
	if r.Intn(8) == 0 { // long ones
		texts = []string{strings.Repeat("ab\nxy b", 10+r.Intn(30)), strings.Repeat("a", 60+r.Intn(300)), strings.Repeat("yé\n", 20+r.Intn(60))}
		ascii = false
	}
	type src struct{ t, file string }
	type iv struct {
		text   src
		at, ln int
		ok     bool
	}
	var st [scanRegs]iv
	var ev []*scanOp
	for len(ev) < n {
		e := &scanOp{R: 1 + r.Intn(scanRegs), A: 1 + r.Intn(scanRegs), G: 1 + r.Intn(scanRegs)}
		a := &st[e.A-1]
		kind := r.Intn(13)
		if len(ev) == 0 || kind == 0 {
			t := pick(r, texts)
			e.S = bytesOf(t)
			if r.Intn(3) == 0 {
				e.Op = "at"
				e.N = r.Intn(len(t) + 1)
				e.M = r.Intn(len(t) - e.N + 1)
				st[e.R-1] = iv{src{t, ""}, e.N, e.M, true}
			} else {
				e.Op = "new"
				if r.Intn(2) == 0 {
					e.File = bytesOf(pick(r, []string{"f", "g/h"}))
				}
				st[e.R-1] = iv{src{t, unbytes(e.File)}, 0, len(t), true}
			}
			ev = append(ev, e)
			continue
		}
		if kind != 9 && !a.ok {
			continue
		}
		switch kind {
		case 1, 2:
			e.Op = "slice"
			e.N = r.Intn(a.ln + 1)
			e.M = e.N + r.Intn(a.ln-e.N+1)
			st[e.R-1] = iv{a.text, a.at + e.N, e.M - e.N, true}
		case 3:
			e.Op = "skip"
			e.N = r.Intn(a.ln + 1)
			st[e.R-1] = iv{a.text, a.at + e.N, a.ln - e.N, true}
		case 4, 5:
			if e.R == e.A {
				continue
			}
			e.Op = "eat"
			e.N = r.Intn(a.ln + 1)
			x := *a
			st[e.R-1] = iv{x.text, x.at, e.N, true}
			*a = iv{x.text, x.at + e.N, x.ln - e.N, true}
		case 6:
			if e.R == e.A {
				continue
			}
			e.Op = "eats"
			s := pick(r, []string{"a", "b", "ab", "\n", "é", "", "x"})
			e.S = bytesOf(s)
			if t := a.text.t[a.at : a.at+a.ln]; len(t) >= len(s) && t[:len(s)] == s {
				x := *a
				st[e.R-1] = iv{x.text, x.at, len(s), true}
				*a = iv{x.text, x.at + len(s), x.ln - len(s), true}
			}
		case 7, 8:
			if e.R == e.A || e.G == e.A || e.G == e.R || !ascii {
				continue
			}
			e.Op, e.Re = "eatre", pick(r, scanREs)
			loc := regexp.MustCompile(`(?m)\A` + e.Re).FindStringSubmatchIndex(a.text.t[a.at : a.at+a.ln])
			if loc != nil {
				x := *a
				st[e.R-1] = iv{x.text, x.at, loc[1], true}
				*a = iv{x.text, x.at + loc[1], x.ln - loc[1], true}
				if len(loc) > 2 {
					if loc[2] < 0 {
						st[e.G-1].ok = false
					} else {
						st[e.G-1] = iv{x.text, x.at + loc[2], loc[3] - loc[2], true}
					}
				}
			}
		case 9:
			e.Op = "merge"
			for i := range st {
				if st[i].ok && r.Intn(2) == 0 {
					e.Of = append(e.Of, i+1)
				}
			}
			r.Shuffle(len(e.Of), func(i, j int) { e.Of[i], e.Of[j] = e.Of[j], e.Of[i] })
			if len(e.Of) == 0 && r.Intn(4) > 0 {
				continue
			}
			// what comes out decides nothing about later operations but this
			l, rr, same := 1<<30, 0, len(e.Of) > 0
			for _, i := range e.Of {
				x := st[i-1]
				same = same && x.text == st[e.Of[0]-1].text
				l, rr = minInt(l, x.at), maxInt(rr, x.at+x.ln)
			}
			if !same {
				ev = append(ev, e)
				continue
			}
			st[e.R-1] = iv{st[e.Of[0]-1].text, l, rr - l, true}
		case 11, 12:
			e.Op, e.N = "ctx", r.Intn(5)-1
		case 10:
			e.Op = "strip"
			st[e.R-1] = iv{}
		}
		ev = append(ev, e)
	}
	return ev
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
