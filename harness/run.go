package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// Handler is a scripted external reference.
type Handler struct {
	Act string `json:"act"` // eat, lit, err, stop
	N   int    `json:"n"`
	S   string `json:"s,omitempty"`
}

// Esc is a scripted parser escape.
type Esc struct {
	Open  string `json:"open"`
	Close string `json:"close"`
	Rule  string `json:"rule,omitempty"` // act "sub"
	Handler
}

// Run is one use of a compiled grammar.
type Run struct {
	Rule string              `json:"rule,omitempty"`
	In   string              `json:"in"`
	Ins  []string            `json:"ins,omitempty"`
	Ext  map[string]*Handler `json:"ext,omitempty"`
	Esc  *Esc                `json:"esc,omitempty"`
	Data map[string]any      `json:"data,omitempty"`
	Ev   []*scanOp           `json:"ev,omitempty"`
}

// Case is one grammar with the runs made on it.
type Case struct {
	ID    int            `json:"id"`
	Kind  string         `json:"kind"`
	G     *Gram          `json:"g,omitempty"`
	Text  string         `json:"text,omitempty"`
	Runs  []*Run         `json:"runs"`
	Cmp   []string       `json:"cmp,omitempty"`
	Refs  []string       `json:"refs,omitempty"`
	Pure  bool           `json:"pure,omitempty"`
	Big   bool           `json:"big,omitempty"`
	Known string         `json:"known,omitempty"`
	Badre []string       `json:"badre,omitempty"`
	Data  map[string]any `json:"data,omitempty"`
}

type stopErr struct{ error }

func (stopErr) IsStopError() {}

// Obs is what a parse was observed to do.
type Obs struct {
	O   string `json:"o"`
	P   int    `json:"p"`
	T   any    `json:"t"`
	Log []any  `json:"log"`
	Msg string `json:"msg,omitempty"`
}

func runeIdx(s string, byteOff int) int {
	if byteOff < 0 || byteOff > len(s) {
		return -1000 - byteOff
	}
	return utf8.RuneCountInString(s[:byteOff])
}

// treeOf renders a parse tree; token offsets become rune indices of in.
func treeOf(in string, e parser.TreeElement) any {
	switch e := e.(type) {
	case parser.Node:
		kids := []any{}
		for _, c := range e.Children {
			kids = append(kids, treeOf(in, c))
		}
		var x any
		switch ex := e.Extra.(type) {
		case nil:
			x = []any{"n", 0}
		case parser.Choice:
			x = []any{"c", int(ex)}
		case parser.Associativity:
			x = []any{"a", int(ex)}
		case ast.Branch: // made by a handler out of one token
			l := leafOf(in, parser.Scanner(ex.One("").(ast.Leaf))).([]any)
			x = []any{"b", l[1], l[2]}
		default:
			x = []any{"?", 0}
		}
		return []any{"N", e.Tag, x, kids}
	case parser.Scanner:
		return leafOf(in, e)
	case parser.Empty:
		return []any{"E"}
	case nil:
		return []any{"NIL"}
	}
	return []any{fmt.Sprintf("%T", e)}
}

func leafOf(in string, s parser.Scanner) any {
	if s.IsNil() {
		return []any{"L", -1, -1}
	}
	a := s.Offset()
	text := s.String()
	b := a + len(text)
	if a < 0 || b > len(in) || in[a:b] != text {
		return []any{"LX", a, text}
	}
	return []any{"L", runeIdx(in, a), runeIdx(in, b)}
}

func tokensOf(in string, e parser.TreeElement) []any {
	out := []any{}
	var f func(e parser.TreeElement)
	f = func(e parser.TreeElement) {
		switch e := e.(type) {
		case parser.Node:
			for _, c := range e.Children {
				f(c)
			}
		case parser.Scanner:
			l := leafOf(in, e).([]any)
			out = append(out, []any{l[1], l[2]})
		}
	}
	f(e)
	return out
}

func runeBytes(s string, n int) int {
	i := 0
	for ; n > 0; n-- {
		if i >= len(s) {
			return -1
		}
		_, w := utf8.DecodeRuneInString(s[i:])
		i += w
	}
	return i
}

func (h *Handler) run(input *parser.Scanner) (parser.TreeElement, error) {
	s := input.String()
	var eaten parser.Scanner
	if input.IsNil() {
		return nil, errors.New("nil input")
	}
	switch h.Act {
	case "eat":
		n := runeBytes(s, h.N)
		if n < 0 {
			return nil, errors.New("not enough")
		}
		input.Eat(n, &eaten)
		return eaten, nil
	case "ast":
		n := runeBytes(s, h.N)
		if n < 0 {
			return nil, errors.New("not enough")
		}
		input.Eat(n, &eaten)
		return ast.NewExtRefTreeElement(nil, eaten), nil
	case "lit":
		if !strings.HasPrefix(s, h.S) {
			return nil, errors.New("no match")
		}
		input.Eat(len(h.S), &eaten)
		return parser.Node{Tag: "h", Children: []parser.TreeElement{eaten}}, nil
	case "err", "stop":
		if n := runeBytes(s, h.N); n >= 0 {
			input.Eat(n, &eaten)
		}
		if h.Act == "stop" {
			return nil, stopErr{errors.New("stop")}
		}
		return nil, errors.New("handler error")
	}
	panic("handler " + h.Act)
}

func (r *Run) externals(p parser.Parsers, c *Case, log *[]any) parser.ExternalRefs {
	if len(r.Ext) == 0 && r.Esc == nil {
		return nil
	}
	exts := parser.ExternalRefs{}
	binds := func(scope parser.Scope, look bool) map[string]any {
		out := map[string]any{}
		for _, n := range append([]string{"zz"}, c.Refs...) {
			out[n] = []any{0}
			if look {
				if _, v, ok := scope.GetVal(n); ok {
					out[n] = []any{1, tokensOf(r.In, v)}
				}
			}
		}
		return out
	}
	for name, h := range r.Ext {
		name, h := name, h
		exts[name] = func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			*log = append(*log, []any{name, runeIdx(r.In, input.Offset()), binds(scope, true)})
			return h.run(input)
		}
	}
	if e := r.Esc; e != nil {
		inner := parser.ExternalRefs{}
		for k, f := range exts {
			inner[k] = f
		}
		exts["*"+regexpQuote(e.Open)+"()"+regexpQuote(e.Close)] = func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			*log = append(*log, []any{"*", runeIdx(r.In, input.Offset())})
			if e.Act == "sub" {
				return p.ParseWithExternals(parser.Rule(e.Rule), input, inner)
			}
			return e.Handler.run(input)
		}
	}
	return exts
}

func regexpQuote(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			sb.WriteRune('\\')
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func errKind(err error) string {
	switch err.(type) {
	case parser.FatalError:
		return "fatal"
	case parser.StopError:
		return "stop"
	}
	return "err"
}

// parse runs one parse and describes the outcome.
func doParse(p parser.Parsers, c *Case, r *Run) (obs *Obs, tree parser.TreeElement) {
	log := []any{}
	input := parser.NewScanner(r.In)
	obs = &Obs{T: []any{"E"}}
	defer func() {
		if e := recover(); e != nil {
			obs.O, obs.Msg, obs.P = "panic", fmt.Sprint(e), -1
		}
		obs.Log = log
	}()
	te, err := p.ParseWithExternals(parser.Rule(r.Rule), input, r.externals(p, c, &log))
	switch err := err.(type) {
	case nil:
		obs.O, obs.P = "ok", runeIdx(r.In, input.Offset())
		obs.T = treeOf(r.In, te)
		return obs, te
	case parser.UnconsumedInputError:
		obs.O, obs.P = "rest", runeIdx(r.In, err.Residue().Offset())
		if got := err.Residue().String(); got != r.In[err.Residue().Offset():] || got == "" {
			obs.P = -2
		}
		obs.T = treeOf(r.In, err.Result())
		return obs, err.Result()
	default:
		obs.O, obs.P = errKind(err), runeIdx(r.In, input.Offset())
		if !strings.HasSuffix(r.In, input.String()) {
			obs.P = -3
		}
		if c.Data["render"] == true && len(r.In) <= 5 && err.Error() == "" {
			obs.O = "blank" // every failure has a text
		}
	}
	return obs, nil
}

func compileG(g *Gram) (p parser.Parsers, msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("compile panic: ", e)
		}
	}()
	return toGrammar(g).Compile(nil), ""
}
