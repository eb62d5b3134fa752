package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// Macro is a macro definition of a grammar text.
type Macro struct {
	Nm   string   `json:"nm"`
	Ps   []string `json:"ps"`
	Body *Term    `json:"body"`
}

func tM(name string, args ...*Term) *Term { return &Term{K: "M", R: name, Xs: args} }

// ---------------------------------------------------------------------------
// encoding of abstract grammars for the specification (see Notation.tla)

func bytesOf(s string) []int {
	out := []int{}
	for i := 0; i < len(s); i++ {
		out = append(out, int(s[i]))
	}
	return out
}

func encTerm(t *Term) any {
	list := func(xs []*Term) []any {
		out := []any{}
		for _, x := range xs {
			out = append(out, encTerm(x))
		}
		return out
	}
	switch t.K {
	case "S":
		return []any{"S", bytesOf(t.S)}
	case "RE":
		return []any{"RE", codes(t.S)}
	case "R":
		return []any{"R", codes(t.R)}
	case "X":
		return []any{"X", codes(t.R)}
	case "Seq", "Oneof", "Stack":
		return []any{t.K, list(t.Xs)}
	case "D":
		return []any{"D", encTerm(t.T), encTerm(t.Sep), t.Assoc, t.Lead, t.Trail}
	case "Q":
		return []any{"Q", encTerm(t.T), t.Mn, t.Mx}
	case "N":
		return []any{"N", codes(t.Nm), encTerm(t.T)}
	case "REF":
		d := []any{}
		if t.Def != nil {
			d = append(d, bytesOf(*t.Def))
		}
		return []any{"REF", codes(t.R), d}
	case "L", "C":
		return []any{t.K, encTerm(t.T)}
	case "G":
		return []any{"G", encTerm(t.T), encGram(t.G)}
	case "M":
		return []any{"M", codes(t.R), list(t.Xs)}
	}
	panic("encTerm: " + t.K)
}

func encGram(g *Gram) any {
	names := append([]string{}, g.Names...)
	sort.Strings(names)
	out := []any{}
	for _, n := range names {
		out = append(out, []any{codes(n), encTerm(g.Rules[n])})
	}
	return out
}

// ---------------------------------------------------------------------------
// printing: abstract grammar to one of the texts that denote it

type printer struct {
	r      *rand.Rand
	toks   []string
	plain  bool // no redundant parentheses, no exotic number formats
	layout int  // 0 minimal, 1 some, 2 a lot
}

func (p *printer) emit(ts ...string)     { p.toks = append(p.toks, ts...) }
func (p *printer) chance(x float64) bool { return p.r.Float64() < x }

func (p *printer) str(s string) string {
	style := p.r.Intn(3)
	if style == 0 && utf8.ValidString(s) {
		return "`" + strings.ReplaceAll(s, "`", "``") + "`"
	}
	q := byte('"')
	if style == 2 {
		q = '\''
	}
	var sb strings.Builder
	sb.WriteByte(q)
	hex := func(n int, v uint32) string {
		f := "%0*x"
		if p.r.Intn(2) == 0 {
			f = "%0*X"
		}
		return fmt.Sprintf(f, n, v)
	}
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+w]
		i += w
		simple := map[rune]string{7: `\a`, 8: `\b`, 12: `\f`, 10: `\n`, 13: `\r`, 9: `\t`, 11: `\v`, '\\': `\\`, '\'': `\'`}
		if c == rune(q) {
			simple[c] = `\` + string(c)
		}
		esc, has := simple[c]
		must := c == '\\' || c == rune(q)
		switch k := p.r.Intn(12); {
		case has && (must || k < 6):
			sb.WriteString(esc)
		case k == 6 || (k < 6 && c < 32):
			for j := 0; j < len(raw); j++ {
				sb.WriteString(`\x` + hex(2, uint32(raw[j])))
			}
		case k == 7:
			for j := 0; j < len(raw); j++ {
				sb.WriteString(fmt.Sprintf(`\%03o`, raw[j]))
			}
		case k == 8 && c < 0x10000:
			sb.WriteString(`\u` + hex(4, uint32(c)))
		case k == 9:
			sb.WriteString(`\U` + hex(8, uint32(c)))
		default:
			sb.WriteString(raw)
		}
	}
	sb.WriteByte(q)
	return sb.String()
}

var bareREs = []string{`\d`, `\w+`, `[a-c]+`, `.`, `[^a]*?`, `\p{Greek}+`, `[ab]{2,3}`, `[[:alpha:]]`, `\d+`, `[a-z]\d`,
	`[^"]*`, `\s`, `.*?`, `[\]x]`, `[a\-b]{2}`, `[xy]?`, `\w{1,}`, `[^[:digit:]]`}

func isBareRE(s string) bool {
	for _, x := range bareREs {
		if x == s {
			return true
		}
	}
	return false
}

// braced prints a regex in /{ } with blanks as layout and spaces escaped.
func (p *printer) braced(src string) string {
	var sb strings.Builder
	sb.WriteString("/{")
	blank := func() {
		if !p.plain && p.r.Intn(6) == 0 {
			sb.WriteString(pick(p.r, []string{" ", "  ", "\n", "\t"}))
		}
	}
	rs := []rune(src)
	brace, class := false, false
	for i := 0; i < len(rs); i++ {
		if !brace && !class {
			blank()
		}
		switch c := rs[i]; {
		case c == '\\':
			sb.WriteRune(c)
			i++
			sb.WriteRune(rs[i])
			continue
		case c == ' ':
			sb.WriteString(`\_`)
			continue
		case c == '[' && !class:
			class = true
			if rs[i+1] == '^' {
				sb.WriteString("[^")
				i++
				continue
			}
		case c == '[': // [:class:]
			for rs[i] != ']' {
				sb.WriteRune(rs[i])
				i++
			}
		case c == ']':
			class = false
		case c == '{':
			brace = true
		case c == '}':
			brace = false
		}
		sb.WriteRune(rs[i])
	}
	blank()
	sb.WriteString("}")
	return sb.String()
}

// levels: 0 stack/scoped, 1 alternatives, 2 sequence, 3 suffixed, 4 atom
func level(t *Term) int {
	switch t.K {
	case "Stack", "G":
		return 0
	case "Oneof":
		return 1
	case "Seq":
		if len(t.Xs) == 0 {
			return 4
		}
		return 2
	case "Q", "D", "N":
		return 3
	}
	return 4
}

func (p *printer) term(t *Term, at int) {
	l := level(t)
	if at == 4 && l == 3 || l < at || (!p.plain && l < 4 && p.chance(0.05)) || (!p.plain && p.chance(0.02)) {
		p.emit("(")
		p.term(t, 0)
		p.emit(")")
		return
	}
	switch t.K {
	case "Stack":
		for i, x := range t.Xs {
			if i > 0 {
				p.emit(">")
			}
			p.term(x, 1)
		}
	case "G":
		if t.T.K == "Stack" || t.T.K == "G" {
			p.emit("(")
			p.term(t.T, 0)
			p.emit(")")
		} else {
			p.term(t.T, 1)
		}
		p.emit("{")
		p.gram(t.G, nil)
		p.emit("}")
	case "Oneof":
		for i, x := range t.Xs {
			if i > 0 {
				p.emit("|")
			}
			p.term(x, 2)
		}
	case "Seq":
		if len(t.Xs) == 0 {
			p.emit("(", ")")
			return
		}
		for _, x := range t.Xs {
			p.term(x, 3)
		}
	case "Q", "D":
		p.suffixed(t)
	default:
		p.named(t, false)
	}
}

// named prints a named atom; tight atoms must not swallow what follows.
func (p *printer) named(t *Term, tight bool) {
	if t.K == "N" {
		p.emit(t.Nm, "=")
		t = t.T
		if level(t) < 4 {
			p.emit("(")
			p.term(t, 0)
			p.emit(")")
			return
		}
	} else if level(t) < 4 {
		p.emit("(")
		p.term(t, 0)
		p.emit(")")
		return
	}
	p.atom(t, tight)
}

func (p *printer) atom(t *Term, tight bool) {
	switch t.K {
	case "S":
		p.emit(p.str(t.S))
	case "RE":
		if strings.HasPrefix(t.S, `\p{`) { // cannot be written in braces
			if tight {
				p.emit("(", t.S, ")")
			} else {
				p.emit(t.S)
			}
		} else if isBareRE(t.S) && !tight && p.chance(0.7) {
			p.emit(t.S)
		} else {
			p.emit(p.braced(t.S))
		}
	case "R":
		p.emit(t.R)
	case "X":
		p.emit("%%", t.R)
	case "REF":
		p.emit("%", t.R)
		if t.Def != nil {
			p.emit("=", p.str(*t.Def))
		}
	case "L":
		p.emit("(?=")
		p.term(t.T, 0)
		p.emit(")")
	case "Seq":
		p.emit("(", ")")
	case "M":
		p.emit("%!", t.R, "(")
		for i, x := range t.Xs {
			if i > 0 {
				p.emit(",")
			}
			if containsK(x, "D") {
				p.emit("(")
				p.term(x, 0)
				p.emit(")")
			} else {
				p.term(x, 0)
			}
		}
		p.emit(")")
	default:
		panic("atom: " + t.K)
	}
}

func containsK(t *Term, k string) bool {
	found := false
	t.walk(func(x *Term) { found = found || x.K == k })
	return found
}

func (p *printer) suffixed(t *Term) {
	// collect the suffixes from the outermost inwards
	var sfx []*Term
	x := t
	for x.K == "Q" || x.K == "D" {
		sfx = append(sfx, x)
		x = x.T
		if !p.plain && p.chance(0.1) {
			break
		}
	}
	if x.K == "Q" || x.K == "D" {
		p.emit("(")
		p.term(x, 0)
		p.emit(")")
	} else {
		p.named(x, true)
	}
	for _, s := range sfx {
		if s.K == "Q" {
			p.quant(s.Mn, s.Mx)
			continue
		}
		p.emit(map[int]string{0: ":", 1: ":>", -1: "<:"}[s.Assoc])
		if s.Lead {
			p.emit(",")
		}
		p.named(s.Sep, true)
		if s.Trail {
			p.emit(",")
		}
	}
}

func (p *printer) quant(mn, mx int) {
	short := map[[2]int]string{{0, 0}: "*", {0, 1}: "?", {1, 0}: "+"}
	if s, has := short[[2]int{mn, mx}]; has && p.chance(0.7) {
		p.emit(s)
		return
	}
	num := func(n int) string {
		if p.chance(0.25) {
			return fmt.Sprintf("%02d", n)
		}
		return fmt.Sprint(n)
	}
	p.emit("{")
	if mn != 0 || p.chance(0.5) {
		p.emit(num(mn))
	}
	p.emit(",")
	if mx != 0 || p.chance(0.3) {
		p.emit(num(mx))
	}
	p.emit("}")
}

func (p *printer) comment() {
	if p.plain || !p.chance(0.12) {
		return
	}
	// block comments hold one character only (known finding block-comment)
	p.emit(pick(p.r, []string{"// a -> b;\n", "//\n", "// \"é\" */\n", "/*x*/", "/*\n*/", "/***a*/", "/*/*/"}))
}

func (p *printer) rule(n string, t *Term) {
	p.emit(n, "->")
	if gs := len(t.Xs) - 1; t.K == "Seq" && gs > 0 && t.Xs[0].K == "G" && !p.plain {
		// terms with nested grammars may simply follow each other
		ok := t.Xs[gs].K != "Stack"
		for _, x := range t.Xs[:gs] {
			ok = ok && x.K == "G"
		}
		if ok {
			for _, x := range t.Xs {
				p.term(x, 0)
			}
			p.emit(";")
			return
		}
	}
	p.term(t, 0)
	p.emit(";")
}

func (p *printer) macro(m *Macro) {
	p.emit(".macro", m.Nm, "(")
	for i, x := range m.Ps {
		if i > 0 {
			p.emit(",")
		}
		p.emit(x)
	}
	p.emit(")", "{")
	p.term(m.Body, 0)
	p.emit("}")
	if p.chance(0.5) {
		p.emit(";")
	}
}

func (p *printer) gram(g *Gram, ms []*Macro) {
	k := 0
	order := p.r.Perm(len(g.Names) + len(ms))
	for _, i := range order {
		p.comment()
		if i < len(g.Names) {
			n := g.Names[i]
			p.rule(n, g.Rules[n])
		} else {
			p.macro(ms[i-len(g.Names)])
		}
		k++
	}
	p.comment()
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// mustSplit says whether two adjacent tokens need a blank between them.
func mustSplit(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	switch {
	case isWord(x) && isWord(y):
		return true
	case x == '`' && y == '`':
		return true
	case x == '/' && (y == '/' || y == '*'):
		return true
	case isBareRE(a):
		return true
	case a == ".macro" || a == ".import":
		return true
	case x == '.' && isWord(y):
		return true
	}
	return false
}

func (p *printer) text() string {
	var sb strings.Builder
	blank := func() string {
		return pick(p.r, []string{" ", " ", " ", "  ", "\n", "\t", "\n\n  ", " \r\n"})
	}
	if p.layout > 1 {
		sb.WriteString(pick(p.r, []string{"", " ", "\n"}))
	}
	for i, t := range p.toks {
		if i > 0 {
			b := ""
			if p.layout == 2 && p.chance(0.6) || p.layout == 1 && p.chance(0.3) {
				b = blank()
			}
			if b == "" && mustSplit(p.toks[i-1], t) {
				b = " "
			}
			sb.WriteString(b)
		}
		sb.WriteString(t)
	}
	if p.layout > 1 {
		sb.WriteString(pick(p.r, []string{"", " ", "\n"}))
	}
	return sb.String()
}

func printGram(r *rand.Rand, g *Gram, ms []*Macro, plain bool) string {
	p := &printer{r: r, plain: plain, layout: r.Intn(3)}
	p.gram(g, ms)
	return p.text()
}
