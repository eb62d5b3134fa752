package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/arr-ai/wbnf/parser"
)

// Packages generated by the tool, compiled and used.

// genPackages has the tool write a package for each grammar of dir/cases.ndjson
// and builds a program that uses them all.
func genPackages(dir, harness string) {
	cases := readCases(filepath.Join(dir, "cases.ndjson"))
	root := filepath.Join(dir, "pk")
	check(os.RemoveAll(root))
	check(os.MkdirAll(root, 0o755))
	mod, err := os.ReadFile(filepath.Join(harness, "go.mod"))
	check(err)
	sum, err := os.ReadFile(filepath.Join(harness, "go.sum"))
	check(err)
	check(os.WriteFile(filepath.Join(root, "go.mod"), mod, 0o644))
	check(os.WriteFile(filepath.Join(root, "go.sum"), sum, 0o644))
	fate := make([]string, len(cases))
	each(len(cases), func(i int) {
		pd := filepath.Join(root, fmt.Sprintf("p%d", i))
		check(os.MkdirAll(pd, 0o755))
		check(os.WriteFile(filepath.Join(pd, "g.wbnf"), []byte(cases[i].Text), 0o644))
		rc, out, errs := wbnfCommand(pd, "", "gen", "--grammar", "g.wbnf", "--start", cases[i].Data["start"].(string), "--pkg", fmt.Sprintf("p%d", i), "--output", "p.go")
		if rc != 0 {
			fate[i] = "gen: " + lastLine(out+errs)
			os.RemoveAll(pd)
		}
	})
	for try := 0; ; try++ {
		var b bytes.Buffer
		b.WriteString("package main\n\nimport (\n")
		for i := range cases {
			if fate[i] == "" {
				fmt.Fprintf(&b, "\tp%d \"verifharness/p%d\"\n", i, i)
			}
		}
		b.WriteString(")\n\nfunc init() {\n")
		for i := range cases {
			if fate[i] == "" {
				fmt.Fprintf(&b, "\treg(%d, p%d.ParseString, p%d.WalkerOps{}, p%d.NodeExiter, p%d.Aborter)\n", i, i, i, i, i)
			}
		}
		b.WriteString("}\n")
		check(os.WriteFile(filepath.Join(root, "reg.go"), b.Bytes(), 0o644))
		check(os.WriteFile(filepath.Join(root, "main.go"), []byte(driverSource), 0o644))
		cm := exec.Command("go", "build", "-o", filepath.Join(dir, "driver"), ".")
		cm.Dir = root
		// objects of these packages are large and of no further use
		cm.Env = append(os.Environ(), "GOCACHE="+filepath.Join(dir, "cache"))
		out, err := cm.CombinedOutput()
		if err == nil {
			break
		}
		failed := 0
		at := -1
		for _, l := range strings.Split(string(out), "\n") {
			if m := regexp.MustCompile(`^# verifharness/p(\d+)`).FindStringSubmatch(l); m != nil {
				at = atoi(m[1])
			} else if m := regexp.MustCompile(`^p(\d+)/p\.go`).FindStringSubmatch(l); m != nil {
				at = atoi(m[1])
				if fate[at] == "" {
					fate[at] = "build: " + l
					failed++
				}
			}
		}
		if failed == 0 || try > 20 {
			check(fmt.Errorf("the generated packages do not build: %s", out))
		}
	}
	check(os.WriteFile(filepath.Join(dir, "fate.json"), []byte(js(fate)), 0o644))
	check(os.RemoveAll(root))
	check(os.RemoveAll(filepath.Join(dir, "cache")))
}

// each runs f(0), ..., f(n-1) on all processors.
func each(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for k := runtime.NumCPU(); k > 0; k-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

const driverSource = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"

	"github.com/arr-ai/wbnf/ast"
)

type pkg struct{ parse, ops, leave, stop reflect.Value }

var pkgs = map[int]pkg{}

func reg(i int, parse, ops, leave, stop any) {
	pkgs[i] = pkg{reflect.ValueOf(parse), reflect.ValueOf(ops), reflect.ValueOf(leave), reflect.ValueOf(stop)}
}

func codes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

// at gives positions in characters.
type at struct{ in string }

func (a at) rune(byte int) int { return len([]rune(a.in[:byte])) }

func (a at) hull(n ast.Node) []int {
	lo, hi := -1, -1
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		switch n := n.(type) {
		case ast.Leaf:
			s := n.Scanner()
			f := a.rune(s.Offset())
			t := f + len([]rune(s.String()))
			if lo < 0 || f < lo {
				lo = f
			}
			if t > hi {
				hi = t
			}
		case ast.Branch:
			for _, c := range n {
				switch c := c.(type) {
				case ast.One:
					visit(c.Node)
				case ast.Many:
					for _, x := range c {
						visit(x)
					}
				}
			}
		}
	}
	visit(n)
	return []int{lo, hi}
}

var accessor = regexp.MustCompile("^(One|All)[A-Z]|^Choice$|.Ref$")

func nodeOf(v reflect.Value) ast.Node {
	n, _ := v.FieldByName("Node").Interface().(ast.Node)
	return n
}

// view is what the accessors of a node give.
func (a at) view(v reflect.Value) any {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	t := p.Type()
	rows := []any{}
	for i := 0; i < t.NumMethod(); i++ {
		name := t.Method(i).Name
		if !accessor.MatchString(name) || p.Method(i).Type().NumIn() != 0 {
			continue
		}
		res := p.Method(i).Call(nil)[0]
		deep := true
		if name[:3] == "One" {
			_, both := t.MethodByName("All" + name[3:])
			deep = !both
		}
		rows = append(rows, []any{name, a.value(res, deep)})
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].([]any)[0].(string) < rows[j].([]any)[0].(string) })
	text := []int{-1}
	if len(rows) == 0 && nodeOf(v) != nil {
		text = codes(fmt.Sprint(p.MethodByName("String").Call(nil)[0]))
	}
	return map[string]any{"ty": v.Type().Name(), "rows": rows, "text": text, "hull": a.hull(nodeOf(v))}
}

func (a at) value(v reflect.Value, deep bool) any {
	switch v.Kind() {
	case reflect.Int:
		return []any{"int", v.Int()}
	case reflect.String:
		return []any{"text", codes(v.String())}
	case reflect.Ptr:
		if v.IsNil() {
			return []any{"nil"}
		}
		if !deep {
			return []any{"same", v.Elem().Type().Name(), a.hull(nodeOf(v.Elem()))}
		}
		return []any{"node", a.view(v.Elem())}
	case reflect.Slice:
		xs := []any{}
		for i := 0; i < v.Len(); i++ {
			x := v.Index(i)
			if x.Kind() == reflect.String {
				xs = append(xs, codes(x.String()))
			} else {
				xs = append(xs, a.view(x))
			}
		}
		if v.Type().Elem().Kind() == reflect.String {
			return []any{"texts", xs}
		}
		return []any{"nodes", xs}
	case reflect.Interface:
		if v.IsNil() {
			return []any{"nil"}
		}
		return []any{"ref", a.hull(v.Interface().(ast.Node))}
	}
	return []any{"odd", v.Kind().String()}
}

type answer struct {
	Ty, P, A string
	N        int
}

func main() {
	var job struct {
		Pkg    int
		In     string
		Script []answer
	}
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		panic(err)
	}
	i, script, a := job.Pkg, job.Script, at{job.In}
	out := map[string]any{"o": "ok", "view": []any{}, "log": []any{}, "ret": "nil", "msg": ""}
	func() {
		defer func() {
			if e := recover(); e != nil {
				out["o"], out["msg"] = "panic", fmt.Sprint(e)
				if os.Getenv("TRACE") != "" {
					panic(e)
				}
			}
		}()
		p := pkgs[i]
		res := p.parse.Call([]reflect.Value{reflect.ValueOf(a.in)})
		if !res[1].IsNil() {
			out["o"] = "err"
			return
		}
		out["view"] = a.view(res[0])
		ops := reflect.New(p.ops.Type()).Elem()
		calls := map[string]int{}
		log := []any{}
		for k := 0; k < ops.NumField(); k++ {
			name := ops.Type().Field(k).Name
			ft := ops.Field(k).Type()
			ph, ty := "e", name[5:]
			if name[:4] == "Exit" {
				ph, ty = "x", name[4:]
			}
			ops.Field(k).Set(reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
				calls[name]++
				log = append(log, []any{ph, ty, a.hull(nodeOf(args[0]))})
				if got := args[0].Type().Name(); got != ty {
					log = append(log, []any{"type", got, []int{0, 0}})
				}
				for _, s := range script {
					if s.Ty == ty && s.P == ph && (s.N == 0 || s.N == calls[name]) {
						if s.A == "leave" {
							return []reflect.Value{p.leave.Convert(ft.Out(0))}
						}
						return []reflect.Value{p.stop.Convert(ft.Out(0))}
					}
				}
				return []reflect.Value{reflect.Zero(ft.Out(0))}
			}))
		}
		ret := ops.MethodByName("Walk").Call([]reflect.Value{res[0]})[0]
		out["log"] = log
		switch {
		case ret.IsNil():
		case ret.Interface() == p.leave.Interface():
			out["ret"] = "leave"
		case ret.Interface() == p.stop.Interface():
			out["ret"] = "stop"
		default:
			out["ret"] = "odd"
		}
	}()
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
`

// use runs the generated package of a case on an input.
func usePackage(dir string, c *Case, r *Run) any {
	b, err := os.ReadFile(filepath.Join(dir, "fate.json"))
	check(err)
	var fate []string
	check(json.Unmarshal(b, &fate))
	none := func(o, msg string) any {
		return map[string]any{"o": o, "view": []any{}, "log": []any{}, "ret": "nil", "msg": msg}
	}
	if fate[c.ID] != "" {
		return none("broken", fate[c.ID])
	}
	cm := exec.Command(filepath.Join(dir, "driver"))
	cm.Stdin = strings.NewReader(js(map[string]any{"Pkg": c.ID, "In": r.In, "Script": r.Data["script"]}))
	var out, errs bytes.Buffer
	cm.Stdout, cm.Stderr = &out, &errs
	check(cm.Start())
	t := time.AfterFunc(6*time.Second, func() { cm.Process.Kill() }) //nolint:errcheck
	err = cm.Wait()
	t.Stop()
	if err != nil {
		return none("crash", lastLine(errs.String()))
	}
	return json.RawMessage(out.Bytes())
}

func init() {
	flatteners["pkg"] = func(c *Case, obs []json.RawMessage) any {
		f := flatParseG(c, c.G, obs)
		for i, x := range f["runs"].([]any) {
			x.(map[string]any)["script"] = c.Runs[i].Data["script"]
		}
		return f
	}
	executors["pkg"] = executor{run: func(c *Case, _ any, ri int) any { return usePackage(recordDir, c, c.Runs[ri]) }}
	profiles["C27"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			o := baseOpts()
			o.depth = 2 + r.Intn(3)
			o.maxRules = 1 + r.Intn(4)
			o.w["E"] = 1
			o.w["R"] = 6
			o.nameP, o.names = 0.3, []string{"t"}
			if r.Intn(2) == 0 {
				o.w["D"] = 3
			}
			if r.Intn(3) == 0 {
				o.stackP = 0.5
			}
			if r.Intn(4) == 0 {
				o.w["REF"] = 2
			}
			if r.Intn(3) == 0 {
				o.wrapP = 1
			}
			if r.Intn(5) == 0 {
				o.w["L"] = 1
			}
			g := &gen{r: r, o: o}
			gr := g.grammar([]string{"aa", "bb", "cc", "dd"}, 1+r.Intn(o.maxRules), o.depth)
			if r.Intn(5) < 2 {
				if rs := rulesOf(gr); rs[0] != "" {
					gr.Rules[rs[0]] = groups(r, rs[1:], o)
				}
			}
			gr = relabel(r, gr)
			flat := false // a stack of one layer is none
			for _, t := range gr.Rules {
				flat = flat || t.K == "Stack" && len(t.Xs) < 2
			}
			if flat || size(gr) > 60 || !grammarOK(gr) || !astOK(gr) {
				continue
			}
			c := &Case{Kind: "pkg", G: gr, Refs: refsOf(gr)}
			starts := []string{}
			for _, nm := range rulesOf(gr) {
				t := gr.Rules[nm]
				if t.K == "Stack" {
					t = t.Xs[0]
				}
				if t.K != "N" && t.K != "R" { // its tree would not have the rule's name
					starts = append(starts, nm)
				}
			}
			if len(starts) == 0 {
				continue
			}
			start := pick(r, starts)
			c.Data = map[string]any{"start": start}
			c.Text = printGram(r, gr, nil, true)
			p, obs := compileText(c.Text)
			if obs.O != "ok" {
				continue
			}
			c.G = regroup(fromGrammar(p.Grammar()))
			names := []string{}
			for _, nm := range gr.Names {
				names = append(names, strings.ToUpper(nm[:1])+nm[1:])
			}
			alpha := alphabetOf(gr)
			have := map[string]bool{}
			for k := 0; k < 30 && len(c.Runs) < 10; k++ {
				in := sampleRule(r, gr, start, hasWrap(gr), nil)
				if r.Intn(6) == 0 {
					in = mutate(r, in, alpha)
				}
				if len([]rune(in)) <= o.maxIn && !have[in] {
					have[in] = true
					if _, err := p.Parse(parser.Rule(start), parser.NewScanner(in)); err != nil && r.Intn(6) > 0 {
						continue
					}
					c.Runs = append(c.Runs, &Run{Rule: start, In: in, Data: map[string]any{"script": pkgScript(r, names)}})
				}
			}
			cheapRuns(c, gr)
			if len(c.Runs) > 0 {
				out = append(out, c)
			}
		}
		// known finding node-rule: the types of a rule called node are lost
		gr := newGram()
		gr.add("node", tSeq(tS("a"), tN("t1", tS("b"))))
		c := &Case{Kind: "pkg", G: gr, Refs: refsOf(gr), Known: "node-rule", Text: printGram(r, gr, nil, true)}
		c.Data = map[string]any{"start": "node"}
		p, _ := compileText(c.Text)
		c.G = regroup(fromGrammar(p.Grammar()))
		c.Runs = []*Run{{Rule: "node", In: "ab", Data: map[string]any{"script": pkgScript(r, []string{"Node"})}}}
		out = append(out, c)
		return out
	}
}

// groups gives a term in which a few labels occur again and again, in groups,
// alternatives, lists and lookaheads.
func groups(r *rand.Rand, rules []string, o opts) *Term {
	kinds := []func() *Term{}
	for len(kinds) < 2 {
		switch k := r.Intn(6); {
		case k == 0:
			kinds = append(kinds, func() *Term { return tS(pick(r, o.lits)) })
		case k == 1:
			kinds = append(kinds, func() *Term { return tN("t", tRE("[a-c]")) })
		case k == 2:
			kinds = append(kinds, func() *Term { return tN("t", tSeq(tS(pick(r, o.lits)), tN("t", tS(pick(r, o.lits))))) })
		case k == 3 && len(rules) > 0:
			kinds = append(kinds, func() *Term { return tR(pick(r, rules)) })
		case k == 4 && len(rules) > 0:
			kinds = append(kinds, func() *Term { return tN("t", tR(pick(r, rules))) })
		default:
			kinds = append(kinds, func() *Term { return tN("t", tS(pick(r, o.lits))) })
		}
	}
	var mk func(d int) *Term
	many := func(t *Term, d, n int) *Term {
		for i := 0; i < n; i++ {
			t.Xs = append(t.Xs, mk(d))
		}
		return t
	}
	mk = func(d int) *Term {
		if d == 0 {
			return pick(r, kinds)()
		}
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			return many(tSeq(), d-1, 2)
		case 4:
			return many(tSeq(), d-1, 3)
		case 5, 6, 7:
			return many(tOne(), d-1, 2)
		case 8:
			return tQ(mk(d-1), 0, 1)
		case 9:
			return tQ(tSeq(tS(pick(r, o.lits)), mk(d-1)), r.Intn(2), 0)
		case 10:
			return tD(mk(d-1), tS(","), 0, false, r.Intn(3) == 0)
		}
		return tSeq(tL(mk(d-1)), mk(d-1))
	}
	return many(tSeq(), 1+r.Intn(2), 2)
}

// relabel gives labels by what they label: t1, t2 for tokens, n1, n2 for
// composites, ra for rule a.
func relabel(r *rand.Rand, g *Gram) *Gram {
	return mapGram(g, func(t *Term) *Term {
		if (t.K == "Seq" || t.K == "Oneof") && len(t.Xs) == 1 {
			return t.Xs[0]
		}
		c := *t
		if t.K == "D" && !(t.Sep.K == "S" || t.Sep.K == "N" && (t.Sep.T.K == "S" || t.Sep.T.K == "RE")) {
			// accessors do not reach other separators
			switch r.Intn(3) {
			case 0:
				c.Sep = tS(pick(r, []string{",", ";", "+"}))
			case 1:
				c.Sep = tN(pick(r, []string{"t1", "t2"}), tS(pick(r, []string{",", ";", "+"})))
			default:
				c.Sep = tN(pick(r, []string{"t1", "t2"}), tRE(pick(r, []string{"[,;]", ",|;", "(?:,|;)+"})))
			}
			return &c
		}
		if t.K == "REF" {
			c.R = pick(r, []string{"t1", "t2"})
			return &c
		}
		if t.K != "N" {
			return t
		}
		switch t.T.K {
		case "S", "RE":
			c.Nm = pick(r, []string{"t1", "t2"})
		case "R":
			if t.T.R == "@" {
				c.Nm = "self"
			} else {
				c.Nm = "r" + t.T.R
			}
		default:
			c.Nm = pick(r, []string{"n1", "n2"})
		}
		return &c
	})
}

// pkgScript has the answers of some callbacks of a walk.
func pkgScript(r *rand.Rand, names []string) []any {
	out := []any{}
	for k := r.Intn(4); k > 0; k-- {
		ty := pick(r, names)
		for r.Intn(3) == 0 {
			ty += pick(r, []string{"N1", "N2"})
		}
		out = append(out, answer{Ty: ty + "Node", P: pick(r, []string{"e", "e", "x"}), N: r.Intn(4), A: pick(r, []string{"leave", "leave", "stop"})})
	}
	return out
}
