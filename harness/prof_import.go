package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/arr-ai/wbnf/wbnf"
)

// Compilation of texts with imports, on files in a directory of its own.

type impFile struct {
	Path []string `json:"path"`
	Kind string   `json:"kind"` // text or dir
	Text string   `json:"text"`
}

type impData struct {
	Files []impFile `json:"files"`
	Base  []string  `json:"base"`
	Res   string    `json:"res"` // dir, base, lib, none
	Dirty bool      `json:"dirty"`
}

type impObs struct {
	O   string `json:"o"`
	G   any    `json:"g"`
	Log []any  `json:"log"`
	Str string `json:"str,omitempty"`
}

func impDataOf(c *Case) (d impData) {
	b, _ := json.Marshal(c.Data)
	check(json.Unmarshal(b, &d))
	return d
}

// scratch makes the files in a new directory and returns it.
func (d *impData) scratch() string {
	tmp, err := os.MkdirTemp("", "verif-imp-")
	check(err)
	tmp, err = filepath.EvalSymlinks(tmp)
	check(err)
	check(os.MkdirAll(filepath.Join(tmp, filepath.Join(d.Base...)), 0o755))
	for _, f := range d.Files {
		p := filepath.Join(tmp, filepath.Join(f.Path...))
		if f.Kind == "dir" {
			check(os.MkdirAll(p, 0o755))
			continue
		}
		check(os.MkdirAll(filepath.Dir(p), 0o755))
		check(os.WriteFile(p, []byte(f.Text), 0o644))
	}
	return tmp
}

func nameCodes(names []string) []any {
	out := []any{}
	for _, n := range names {
		out = append(out, codes(n))
	}
	return out
}

// pathCodes encodes a path as the specification has it.
func pathCodes(p string) []any {
	if p == "" || p == "." {
		return []any{}
	}
	if p == "/" {
		return nameCodes([]string{""})
	}
	return nameCodes(strings.Split(p, "/"))
}

type testResolver struct {
	d    *impData
	tmp  string
	log  []any
	seen map[string]int
}

func (t *testResolver) Resolve(from, path string) string {
	f := from
	if from != "" {
		if f = strings.TrimPrefix(from, t.tmp+"/"); f == from {
			f = "?" + from
		}
	}
	if len(t.log) > 300 { // it is not going to end
		panic("imports do not end")
	}
	t.log = append(t.log, []any{pathCodes(f), pathCodes(path)})
	base := filepath.Join(t.tmp, filepath.Join(t.d.Base...))
	dir := base
	switch t.d.Res {
	case "dir":
		if from != "" {
			dir = filepath.Dir(from)
		}
	case "lib":
		dir = filepath.Join(base, "lib")
		path = filepath.Base(path)
		if path == "." || path == "/" {
			path = ""
		}
	}
	out := filepath.Join(dir, path)
	// a file that has been asked for before must not be read again
	if t.seen[out]++; t.seen[out] == 2 {
		if st, err := os.Stat(out); err == nil && st.Mode().IsRegular() {
			check(os.WriteFile(out, []byte("changed -> -> ;"), 0o644))
		}
	}
	if t.d.Dirty {
		out = filepath.Dir(out) + "/./../" + filepath.Base(filepath.Dir(out)) + "//" + filepath.Base(out)
	}
	return out
}

func compileImports(c *Case) *impObs {
	d := impDataOf(c)
	tmp := d.scratch()
	defer os.RemoveAll(tmp)
	o := &impObs{G: []any{}, Log: []any{}}
	r := &testResolver{d: &d, tmp: tmp, seen: map[string]int{}}
	var res wbnf.ImportResolver
	if d.Res != "none" {
		res = r
	} else {
		check(os.Chdir(filepath.Join(tmp, filepath.Join(d.Base...))))
		defer os.Chdir("/") //nolint:errcheck
	}
	msg := guarded(func() {
		p, err := wbnf.Compile(c.Text, res)
		if err != nil {
			o.O, o.Str = "err", err.Error()
			return
		}
		o.O, o.G = "ok", encGram(fromGrammar(p.Grammar()))
	})
	if msg != "" {
		o.O, o.Str = "panic", msg
	}
	o.Log = append(o.Log, r.log...)
	return o
}

func flatImports(c *Case, obs []json.RawMessage) any {
	d := impDataOf(c)
	files := []any{}
	for _, f := range d.Files {
		files = append(files, map[string]any{"path": nameCodes(f.Path), "kind": f.Kind, "text": codes(f.Text)})
	}
	return map[string]any{"text": codes(c.Text), "files": files, "base": nameCodes(d.Base), "res": d.Res,
		"runs": []any{map[string]any{"obs": obs[0]}}}
}

// importCase draws a set of files that import each other.
func importCase(r *rand.Rand, plainRes bool) *Case {
	g := newTgen(r)
	g.w["G"], g.scope = 0, 0
	g.lits = textLits[:9]
	g.budget = 3 + r.Intn(16)
	gr := g.gram(1+r.Intn(6), 1+r.Intn(2))
	if r.Intn(10) == 0 && len(gr.Names) > 1 { // a name nobody defines
		gr.Names = gr.Names[1:]
	}
	d := impData{Base: pick(r, [][]string{{"w"}, {"w", "s"}, {}}), Res: pick(r, []string{"dir", "dir", "dir", "base", "lib", "none"}), Files: []impFile{}}
	if plainRes {
		d.Res, d.Base = "dir", []string{"w"}
	}
	dirRes := d.Res == "dir"
	if plainRes {
		d.Res = "cli"
	}
	d.Dirty = r.Intn(3) == 0
	// names relative to the base directory
	pool := [][]string{{"a.wbnf"}, {"b"}, {"d", "a.wbnf"}, {"d", "e", "c.wbnf"}, {"lib", "x.y"}, {"e", "b"}, {"..", "up.wbnf"}}
	if d.Res == "lib" {
		pool = [][]string{{"lib", "a.wbnf"}, {"lib", "b"}, {"lib", "c.wbnf"}, {"lib", "x.y"}}
	}
	if len(d.Base) == 0 || d.Res == "none" {
		pool = pool[:4]
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	n := r.Intn(len(pool) + 1)
	if n > 4 {
		n = 4
	}
	limit, many := 320, r.Intn(20) == 0
	if many { // a long way, or many files from one
		limit, pool = 800, nil
		for i := 0; i < 6+r.Intn(9); i++ {
			f := []string{fmt.Sprintf("f%d.w", i)}
			if d.Res == "lib" {
				f = append([]string{"lib"}, f...)
			} else if r.Intn(3) == 0 {
				f = append([]string{pick(r, []string{"d", "e"})}, f...)
			}
			pool = append(pool, f)
		}
		n = len(pool)
	}
	if dirRes && d.Res == "dir" && len(d.Base) > 0 && !many && r.Intn(3) == 0 { // up from deep down
		first := [][]string{{"d", "e", "c.wbnf"}, {"..", "up.wbnf"}}
		for _, f := range pool {
			if s := strings.Join(f, "/"); s != "d/e/c.wbnf" && s != "../up.wbnf" {
				first = append(first, f)
			}
		}
		pool = first
		if n < 2 {
			n = 2
		}
	}
	files := append([][]string{nil}, pool[:n]...)
	stmts := make([][]string, len(files))
	add := func(i int, s string) { stmts[i] = append(stmts[i], s) }
	for _, nm := range gr.Names {
		one := newGram().add(nm, gr.Rules[nm])
		add(r.Intn(len(files)), strings.TrimSpace(printGram(r, one, nil, r.Intn(2) == 0)))
	}
	rel := func(i, j int) string {
		to := files[j]
		if d.Res == "lib" {
			return pick(r, []string{"", "q/", "lib/"}) + to[len(to)-1]
		}
		if dirRes && i > 0 {
			from := files[i][:len(files[i])-1]
			p, err := filepath.Rel("/r/s/t/"+strings.Join(from, "/"), "/r/s/t/"+strings.Join(to, "/"))
			check(err)
			return p
		}
		return strings.Join(to, "/")
	}
	statement := func(p string) string {
		if d.Res != "none" && r.Intn(12) == 0 && !strings.HasPrefix(p, "..") && d.Res != "lib" {
			p = "/" + p
		}
		switch r.Intn(8) {
		case 0:
			p = "./" + strings.TrimPrefix(p, "/")
		case 1:
			if !strings.HasPrefix(p, "/") {
				p = "zz/../" + p
			}
		case 2:
			p = strings.ReplaceAll(p, "/", " / ")
		}
		return ".import " + p + pick(r, []string{";", "\n", " ;", " "})
	}
	insert := func(i int, s string) {
		k := r.Intn(len(stmts[i]) + 1)
		stmts[i] = append(stmts[i][:k:k], append([]string{s}, stmts[i][k:]...)...)
	}
	for j := 1; j < len(files); j++ {
		i := r.Intn(j)
		if many && r.Intn(4) > 0 {
			i = j - 1
		}
		if r.Intn(12) > 0 || many {
			insert(i, statement(rel(i, j)))
		}
		if r.Intn(6) == 0 { // a back edge, or a second way to the file
			i := r.Intn(len(files))
			insert(i, statement(rel(i, j)))
		}
		if r.Intn(8) == 0 { // a file of comments
			stmts[j] = []string{"// nothing\n"}
		}
	}
	if r.Intn(8) == 0 {
		insert(r.Intn(len(files)), statement(pick(r, []string{"missing", "d/none.wbnf", "a.wbnf/x", "dd"})))
	}
	if r.Intn(12) == 0 {
		add(r.Intn(len(files)), pick(r, []string{"->;", "a", "a -> b", ".import ;", ".import a/"}))
	}
	if r.Intn(10) == 0 && len(gr.Names) > 0 && gr.Names[0] != wrapName {
		add(r.Intn(len(files)), gr.Names[0]+` -> "again";`)
	}
	if r.Intn(6) == 0 {
		add(r.Intn(len(files)), `.macro mac(p) { p "m" p }`)
		if r.Intn(2) == 0 {
			add(r.Intn(len(files)), `usesMac -> %!mac("u") %!mac(/{q});`)
		}
	}
	text := func(i int) string {
		s := ""
		if len(stmts[i]) == 0 && r.Intn(8) > 0 {
			stmts[i] = []string{"// empty\n"}
		}
		for _, x := range stmts[i] {
			if strings.HasPrefix(x, "/") && strings.HasPrefix(lastLine(s), ".import") && !strings.HasSuffix(strings.TrimSpace(s), ";") {
				s = strings.TrimRight(s, " \n") + ";"
			}
			s += x + pick(r, []string{"", "\n", " "})
		}
		return s
	}
	total := 0
	c := &Case{Kind: "import", Text: text(0), Runs: []*Run{{}}}
	for j := 1; j < len(files); j++ {
		p := strings.Split(strings.TrimPrefix(filepath.Join("/", filepath.Join(d.Base...), filepath.Join(files[j]...)), "/"), "/")
		t := text(j)
		total += len(t)
		d.Files = append(d.Files, impFile{Path: p, Kind: "text", Text: t})
	}
	if r.Intn(10) == 0 {
		d.Files = append(d.Files, impFile{Path: append(append([]string{}, d.Base...), "dd"), Kind: "dir"})
	}
	if total+len(c.Text) > limit {
		return nil
	}
	c.Data = map[string]any{"files": d.Files, "base": d.Base, "res": d.Res, "dirty": d.Dirty}
	return c
}

func lastLine(s string) string {
	s = strings.TrimSpace(s)
	return strings.TrimSpace(s[strings.LastIndexAny(s, ";\n")+1:])
}

// wbnfCommand runs the command line tool in dir.
func wbnfCommand(dir, stdin string, args ...string) (rc int, out, errs string) {
	self, err := os.Executable()
	check(err)
	ctx, cancel := context.WithTimeout(context.Background(), 6*time.Second)
	defer cancel()
	cm := exec.CommandContext(ctx, self, append([]string{"wbnf"}, args...)...)
	cm.Dir = dir
	cm.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cm.Stdout, cm.Stderr = &o, &e
	err = cm.Run()
	if x, is := err.(*exec.ExitError); is {
		rc = x.ExitCode()
	} else {
		check(err)
	}
	return rc, o.String(), e.String()
}

// generateImports has the tool generate a parser from the main text.
func generateImports(c *Case) *impObs {
	d := impDataOf(c)
	tmp := d.scratch()
	defer os.RemoveAll(tmp)
	o := &impObs{G: []any{}, Log: []any{}}
	check(os.WriteFile(filepath.Join(tmp, "w", "main.wbnf"), []byte(c.Text), 0o644))
	dir, at := tmp, "w/main.wbnf"
	switch len(c.Text) % 3 {
	case 1:
		dir, at = filepath.Join(tmp, "w"), "main.wbnf"
	case 2:
		dir, at = "/", filepath.Join(tmp, "w", "main.wbnf")
	}
	rc, out, errs := wbnfCommand(dir, "", "gen", "--grammar", at, "--start", "a", "--pkg", "p")
	if rc != 0 {
		o.O, o.Str = "err", lastLine(out+errs)
		return o
	}
	i, j := strings.Index(out, "parser.Grammar{"), strings.Index(out, ".Compile(nil)")
	if i < 0 || j < i {
		o.O, o.Str = "nonsense", out
		return o
	}
	msg := guarded(func() {
		g, err := evalGrammar(out[i:j])
		if err != nil {
			o.O, o.Str = "nonsense", err.Error()
			return
		}
		o.O, o.G = "ok", encGram(fromGrammar(g.Compile(nil).Grammar()))
	})
	if msg != "" {
		o.O, o.Str = "panic", msg
	}
	return o
}

func init() {
	executors["import"] = executor{run: func(c *Case, _ any, ri int) any {
		if impDataOf(c).Res == "cli" {
			return generateImports(c)
		}
		return compileImports(c)
	}}
	profiles["C22c"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			if c := importCase(r, true); c != nil {
				out = append(out, c)
			}
		}
		return out
	}
	flatteners["import"] = flatImports
	profiles["C22"] = func(r *rand.Rand, n int) []*Case {
		var out []*Case
		for len(out) < n {
			if c := importCase(r, false); c != nil {
				out = append(out, c)
			}
		}
		return out
	}
}
