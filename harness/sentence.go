package main

import (
	"math/rand"
	"strings"
)

// Sentences of the notation: any text of its syntax, whatever it means.

type sentence struct {
	r *rand.Rand
	n int // how much may still be added
}

func (s *sentence) p(k int) bool { return s.r.Intn(k) == 0 }
func (s *sentence) sp() string   { return pick(s.r, []string{" ", " ", " ", "\n", "\t", "  "}) }

// times gives a small count, at least lo.
func (s *sentence) times(lo int) int {
	n := lo
	for s.n > 0 && s.p(2) && n < lo+3 {
		n, s.n = n+1, s.n-1
	}
	return n
}

func (s *sentence) some(lo int, sep string, f func() string) string {
	var xs []string
	for i := s.times(lo); i > 0; i-- {
		xs = append(xs, f())
	}
	return strings.Join(xs, sep)
}

func (s *sentence) ident() string {
	return pick(s.r, []string{"a", "b", "Ccc", "_d", ".e", "x1", "@"})
}
func (s *sentence) str() string {
	return pick(s.r, []string{`"x"`, `'y'`, "`z`", `""`, `"\""`, "`\\`", `'"'`, `"//"`})
}
func (s *sentence) re() string {
	return pick(s.r, []string{`/{x}`, `[a-z]`, `/{(?:a|b)*}`, `\d`, `[;]`, `/{\}}`, `/{x{1,2}}`, `\d+?`})
}

func (s *sentence) grammar() string { return s.some(1, "", s.stmt) }

func (s *sentence) stmt() string {
	switch {
	case s.p(9):
		return pick(s.r, []string{"// x\n", "/*x*/", "//\n", "/*;*/"})
	case s.p(6):
		if s.p(2) {
			return ".import" + s.sp() + pick(s.r, []string{"", "/"}) + s.some(1, "/", func() string {
				return pick(s.r, []string{"a", "b.wbnf", "..", ".", "c:d"})
			}) + pick(s.r, []string{";", "\n"})
		}
		return ".macro" + s.sp() + s.ident() + "(" + s.some(0, ",", s.ident) + ")" + " {" + s.term() + "}" + pick(s.r, []string{"", ";"})
	}
	return s.ident() + s.sp() + "->" + s.some(1, s.sp(), s.term) + ";"
}

func (s *sentence) term() string {
	rich := s.p(5)
	return s.some(1, s.sp()+">", func() string {
		x := s.some(1, "|", func() string { return s.some(1, s.sp(), s.quantified) })
		if rich || s.n > 0 && s.p(6) {
			s.n -= 2
			if s.n <= 0 || s.p(2) { // a small one leaves room for others
				x += s.sp() + "{" + s.ident() + "->" + s.atom() + ";}"
			} else {
				x += s.sp() + "{" + s.grammar() + "}"
			}
		}
		return x
	})
}

func (s *sentence) quantified() string {
	x := s.named()
	for s.n > 0 && s.p(4) {
		s.n--
		x += s.quant()
	}
	return x
}

func (s *sentence) named() string {
	if s.p(5) {
		return s.ident() + pick(s.r, []string{"=", " = "}) + s.atom()
	}
	return s.atom()
}

func (s *sentence) quant() string {
	opt := func(f func() string) string {
		if s.p(2) {
			return f()
		}
		return ""
	}
	num := func() string { return pick(s.r, []string{"0", "1", "12"}) }
	comma := func() string { return "," }
	switch s.r.Intn(3) {
	case 0:
		return pick(s.r, []string{"?", "*", "+"})
	case 1:
		return "{" + opt(num) + "," + opt(num) + "}"
	}
	return pick(s.r, []string{":", "<:", ":>"}) + opt(comma) + s.named() + opt(comma)
}

func (s *sentence) atom() string {
	if s.n <= 0 {
		return pick(s.r, []string{s.ident(), s.str(), s.re()})
	}
	s.n--
	switch s.r.Intn(10) {
	case 0, 1:
		return s.ident()
	case 2:
		return s.str()
	case 3:
		return s.re()
	case 4:
		return "%!" + s.ident() + "(" + s.some(0, ",", s.term) + ")"
	case 5:
		return "%%" + s.ident()
	case 6:
		if s.p(2) {
			return "%" + s.ident() + "=" + s.str()
		}
		return "%" + s.ident()
	case 7:
		return "(?=" + s.term() + ")"
	case 8:
		return "(" + s.term() + ")"
	}
	return pick(s.r, []string{"()", "( )"})
}
