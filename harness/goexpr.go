package main

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/token"
	"strconv"

	"github.com/arr-ai/wbnf/parser"
)

// Evaluation of the Go expressions that the code generator writes, strictly by
// the rules of Go: what the Go compiler would refuse is an error here.

var structFields = map[string][]string{
	"Delim":         {"Term", "Sep", "Assoc", "CanStartWithSep", "CanEndWithSep"},
	"Quant":         {"Term", "Min", "Max"},
	"Named":         {"Name", "Term"},
	"REF":           {"Ident", "Default"},
	"CutPoint":      {"Term"},
	"LookAhead":     {"Term"},
	"ScopedGrammar": {"Term", "Grammar"},
}

type goErr struct{ msg string }

func refuse(f string, args ...any) { panic(goErr{fmt.Sprintf(f, args...)}) }

func evalGrammar(src string) (g parser.Grammar, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case goErr:
			err = fmt.Errorf("%s", e.msg)
		default:
			panic(e)
		}
	}()
	e, perr := goparser.ParseExpr(src)
	if perr != nil {
		return nil, perr
	}
	v := evalGo(e)
	g, is := v.(parser.Grammar)
	if !is {
		refuse("not a grammar: %T", v)
	}
	return g, nil
}

func evalTerm(e goast.Expr) parser.Term {
	v := evalGo(e)
	t, is := v.(parser.Term)
	if !is {
		refuse("not a term: %T", v)
	}
	return t
}

func evalString(e goast.Expr) string {
	v := evalGo(e)
	s, is := v.(string)
	if !is {
		refuse("not a string: %T", v)
	}
	return s
}

func pkgName(e goast.Expr) string {
	if s, is := e.(*goast.SelectorExpr); is {
		if x, is := s.X.(*goast.Ident); is && x.Name == "parser" {
			return s.Sel.Name
		}
	}
	refuse("not a name of the package: %T", e)
	return ""
}

func evalGo(e goast.Expr) any {
	switch e := e.(type) {
	case *goast.ParenExpr:
		return evalGo(e.X)
	case *goast.BasicLit:
		switch e.Kind {
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				refuse("string: %v", err)
			}
			return s
		case token.INT:
			n, err := strconv.ParseInt(e.Value, 0, 64)
			if err != nil {
				refuse("number: %v", err)
			}
			return int(n)
		}
	case *goast.BinaryExpr:
		if e.Op == token.ADD {
			return evalString(e.X) + evalString(e.Y)
		}
	case *goast.Ident:
		switch e.Name {
		case "true":
			return true
		case "false":
			return false
		}
	case *goast.SelectorExpr:
		switch n := pkgName(e); n {
		case "At":
			return parser.At
		case "NonAssociative":
			return parser.NonAssociative
		case "LeftToRight":
			return parser.LeftToRight
		case "RightToLeft":
			return parser.RightToLeft
		default:
			refuse("unknown name %s", n)
		}
	case *goast.CallExpr:
		n := pkgName(e.Fun)
		want := 1
		if n == "Eq" {
			want = 2
		}
		if len(e.Args) != want {
			refuse("%s with %d arguments", n, len(e.Args))
		}
		switch n {
		case "S":
			return parser.S(evalString(e.Args[0]))
		case "RE":
			return parser.RE(evalString(e.Args[0]))
		case "Rule":
			return parser.Rule(evalString(e.Args[0]))
		case "ExtRef":
			return parser.ExtRef(evalString(e.Args[0]))
		case "Eq":
			return parser.Eq(evalString(e.Args[0]), evalTerm(e.Args[1]))
		case "Any":
			return parser.Any(evalTerm(e.Args[0]))
		case "Some":
			return parser.Some(evalTerm(e.Args[0]))
		case "Opt":
			return parser.Opt(evalTerm(e.Args[0]))
		}
		refuse("unknown function %s", n)
	case *goast.CompositeLit:
		n := pkgName(e.Type)
		switch n {
		case "Grammar":
			g := parser.Grammar{}
			for _, x := range e.Elts {
				kv, is := x.(*goast.KeyValueExpr)
				if !is {
					refuse("missing key in a map")
				}
				k := parser.Rule(evalString(kv.Key))
				if _, has := g[k]; has {
					refuse("duplicate key %q", string(k))
				}
				g[k] = evalTerm(kv.Value)
			}
			return g
		case "Seq", "Oneof", "Stack":
			ts := []parser.Term{}
			for _, x := range e.Elts {
				ts = append(ts, evalTerm(x))
			}
			switch n {
			case "Seq":
				return parser.Seq(ts)
			case "Oneof":
				return parser.Oneof(ts)
			}
			return parser.Stack(ts)
		}
		fields, has := structFields[n]
		if !has {
			refuse("unknown type %s", n)
		}
		vals := map[string]goast.Expr{}
		keyed := 0
		for i, x := range e.Elts {
			if kv, is := x.(*goast.KeyValueExpr); is {
				keyed++
				id, is := kv.Key.(*goast.Ident)
				if !is || !has1(fields, id.Name) || vals[id.Name] != nil {
					refuse("bad field in %s", n)
				}
				vals[id.Name] = kv.Value
			} else if i < len(fields) {
				vals[fields[i]] = x
			}
		}
		if keyed > 0 && keyed < len(e.Elts) {
			refuse("mixture of field:value and value elements in struct literal of %s", n)
		}
		if keyed == 0 && len(e.Elts) > 0 && len(e.Elts) != len(fields) {
			refuse("%d values in struct literal of %s", len(e.Elts), n)
		}
		return makeStruct(n, vals)
	}
	refuse("unexpected %T", e)
	return nil
}

func has1(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func makeStruct(n string, vals map[string]goast.Expr) parser.Term {
	term := func(f string) parser.Term {
		if vals[f] == nil {
			return nil
		}
		return evalTerm(vals[f])
	}
	num := func(f string) int {
		if vals[f] == nil {
			return 0
		}
		i, is := evalGo(vals[f]).(int)
		if !is {
			refuse("not a number: %s", f)
		}
		return i
	}
	flag := func(f string) bool {
		if vals[f] == nil {
			return false
		}
		b, is := evalGo(vals[f]).(bool)
		if !is {
			refuse("not a boolean: %s", f)
		}
		return b
	}
	switch n {
	case "Delim":
		d := parser.Delim{Term: term("Term"), Sep: term("Sep"), CanStartWithSep: flag("CanStartWithSep"), CanEndWithSep: flag("CanEndWithSep")}
		if vals["Assoc"] != nil {
			a, is := evalGo(vals["Assoc"]).(parser.Associativity)
			if !is {
				refuse("not an associativity")
			}
			d.Assoc = a
		}
		return d
	case "Quant":
		return parser.Quant{Term: term("Term"), Min: num("Min"), Max: num("Max")}
	case "Named":
		s := ""
		if vals["Name"] != nil {
			s = evalString(vals["Name"])
		}
		return parser.Named{Name: s, Term: term("Term")}
	case "REF":
		r := parser.REF{Default: term("Default")}
		if vals["Ident"] != nil {
			r.Ident = evalString(vals["Ident"])
		}
		return r
	case "CutPoint":
		return parser.CutPoint{Term: term("Term")}
	case "LookAhead":
		return parser.LookAhead{Term: term("Term")}
	}
	s := parser.ScopedGrammar{Term: term("Term")}
	if vals["Grammar"] != nil {
		g, is := evalGo(vals["Grammar"]).(parser.Grammar)
		if !is {
			refuse("not a grammar")
		}
		s.Grammar = g
	}
	return s
}
