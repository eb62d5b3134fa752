package main

import (
	"regexp"
	"strings"
)

// coster estimates how much backtracking a parse needs, so that workloads stay
// inside the step bound of the model.  It is only used to choose inputs.
type coster struct {
	left int
	deep int // how deep the tree may get from here on
	in   string
	esc  *Esc
	ext  map[string]*Handler
	res  map[string]*regexp.Regexp
}

type tooCostly struct{}

func (c *coster) re(src string) *regexp.Regexp {
	if r, has := c.res[src]; has {
		return r
	}
	r, err := regexp.Compile(`(?m)\A(?:` + src + `)`)
	if err != nil {
		r = nil
	}
	c.res[src] = r
	return r
}

func wrapOf(e *env) *Term {
	for ; e != nil; e = e.par {
		if w, has := e.g.Rules[wrapName]; has {
			return w
		}
	}
	return nil
}

func (c *coster) lex(p int, src, quoted string, e *env) int {
	w := wrapOf(e)
	if w != nil && w.K == "Oneof" {
		for _, x := range w.Xs[:len(w.Xs)-1] {
			if x.S == src {
				w = nil
				break
			}
		}
		if w != nil {
			w = w.Xs[len(w.Xs)-1]
		}
	}
	if w != nil {
		quoted = strings.Replace(w.S, "()", "(?:"+quoted+")", 1)
	}
	r := c.re(quoted)
	if r == nil {
		return -1
	}
	if m := r.FindStringIndex(c.in[p:]); m != nil {
		return p + m[1]
	}
	return -1
}

func (c *coster) term(t *Term, p int, e *env, at site) int {
	c.left--
	c.deep--
	if c.left < 0 || c.deep < 0 {
		panic(tooCostly{})
	}
	defer func() { c.deep++ }()
	if c.esc != nil && strings.HasPrefix(c.in[p:], c.esc.Open) {
		q := p + len(c.esc.Open)
		if c.esc.Act == "sub" {
			sub := *c
			sub.esc = nil
			r := &env{e.g, nil}
			for x := e; x != nil; x = x.par {
				r = x
			}
			q = sub.term(tR(c.esc.Rule), q, r, site{})
			c.left = sub.left
		} else {
			q = c.handler(&c.esc.Handler, q)
		}
		if q >= 0 && strings.HasPrefix(c.in[q:], c.esc.Close) {
			return q + len(c.esc.Close)
		}
		return -1
	}
	switch t.K {
	case "S":
		return c.lex(p, t.S, regexp.QuoteMeta(t.S), e)
	case "RE":
		return c.lex(p, t.S, t.S, e)
	case "X":
		if h := c.ext[t.R]; h != nil {
			return c.handler(h, p)
		}
		return -1
	case "REF", "L":
		if t.K == "L" && c.term(t.T, p, e, at) < 0 {
			return -1
		}
		return p
	case "R":
		if t.R == "@" {
			n := len(at.e.g.Rules[at.rule].Xs)
			s := site{at.e, at.rule, at.layer%n + 1}
			return c.term(at.e.g.Rules[at.rule].Xs[s.layer-1], p, at.e, s)
		}
		d := e.find(t.R)
		if d == nil {
			return -1
		}
		b := d.g.Rules[t.R]
		if b.K == "Stack" {
			return c.term(b.Xs[0], p, d, site{d, t.R, 1})
		}
		return c.term(b, p, d, site{d, t.R, 0})
	case "Seq":
		for _, x := range t.Xs {
			if p = c.term(x, p, e, at); p < 0 {
				return -1
			}
		}
		return p
	case "Oneof":
		for _, x := range t.Xs {
			if q := c.term(x, p, e, at); q >= 0 {
				return q
			}
		}
		return -1
	case "Q":
		n := 0
		for t.Mx == 0 || n < t.Mx {
			q := c.term(t.T, p, e, at)
			if q < 0 {
				break
			}
			n++
			if q == p && t.Mx == 0 && n >= t.Mn {
				break
			}
			p = q
		}
		if n < t.Mn {
			return -1
		}
		return p
	case "D":
		c.left -= 3
		if t.Lead {
			if q := c.term(t.Sep, p, e, at); q >= 0 {
				p = q
			}
		}
		if p = c.term(t.T, p, e, at); p < 0 {
			return -1
		}
		for k := 1; ; k++ {
			if t.Assoc != 0 && k > c.deep {
				panic(tooCostly{})
			}
			q := c.term(t.Sep, p, e, at)
			if q < 0 {
				return p
			}
			r := c.term(t.T, q, e, at)
			if r < 0 {
				if t.Trail {
					return q
				}
				return p
			}
			if r == p {
				return p
			}
			p = r
		}
	case "N", "C":
		return c.term(t.T, p, e, at)
	case "G":
		return c.term(t.T, p, &env{t.G, e}, site{})
	}
	return -1
}

func (c *coster) handler(h *Handler, p int) int {
	switch h.Act {
	case "eat":
		if n := runeBytes(c.in[p:], h.N); n >= 0 {
			return p + n
		}
	case "lit":
		if strings.HasPrefix(c.in[p:], h.S) {
			return p + len(h.S)
		}
	}
	return -1
}

// cheap reports whether the run stays within budget terms.
func cheap(g *Gram, r *Run, budget int) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(tooCostly); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	c := &coster{left: budget, deep: 50, in: r.In, esc: r.Esc, ext: r.Ext, res: map[string]*regexp.Regexp{}}
	c.term(tR(r.Rule), 0, &env{g, nil}, site{})
	return true
}

func budgetOf(c *Case) int {
	if c.Big {
		return 1200
	}
	return 250
}

// cheapRuns drops the runs that are too costly.
func cheapRuns(c *Case, g *Gram) {
	out := []*Run{}
	for _, r := range c.Runs {
		if cheap(g, r, budgetOf(c)) {
			out = append(out, r)
		}
	}
	c.Runs = out
}
