package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/arr-ai/wbnf/cmd"
	"github.com/arr-ai/wbnf/wbnf"
)

// profile generates the cases of one check.
type profile func(r *rand.Rand, n int) []*Case

var profiles = map[string]profile{}

// flatteners turn a case and its observations into the record TLC reads.
var flatteners = map[string]func(c *Case, obs []json.RawMessage) any{}

func atoi(s string) int { n, err := strconv.Atoi(s); check(err); return n }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness gen|record|worker|show ...")
		os.Exit(3)
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "gen": // gen PROFILE SEED N DIR
		p, has := profiles[a[0]]
		if !has {
			check(fmt.Errorf("no profile %q", a[0]))
		}
		cases := p(rand.New(rand.NewSource(int64(atoi(a[1])))), atoi(a[2]))
		writeCases(filepath.Join(a[3], "cases.ndjson"), cases)
		fmt.Println(len(cases))
	case "record": // record DIR TIMEOUT_S
		cases := readCases(filepath.Join(a[0], "cases.ndjson"))
		obs := record(a[0], cases, time.Duration(atoi(a[1]))*time.Second)
		f, err := os.Create(filepath.Join(a[0], "tlc.ndjson"))
		check(err)
		w := bufio.NewWriter(f)
		e := json.NewEncoder(w)
		e.SetEscapeHTML(false)
		runs, odd := 0, 0
		for i, c := range cases {
			for ri := range obs[i] {
				if obs[i][ri] == nil {
					check(fmt.Errorf("no observation for case %d run %d", i, ri))
				}
				runs++
				if nesting(obs[i][ri]) > 248 { // more than TLC reads, and than the model ever gives
					obs[i][ri] = []byte(`{"o":"deep","p":-1,"t":["E"],"log":[]}`)
				}
				var o struct{ O string }
				json.Unmarshal(obs[i][ri], &o)
				if o.O == "hang" || o.O == "crash" {
					odd++
				}
			}
			check(e.Encode(flatteners[c.Kind](c, obs[i])))
		}
		check(w.Flush())
		check(f.Close())
		fmt.Println(len(cases), runs, odd)
	case "coredata": // the notation's own grammar, as data for the specification
		g := fromGrammar(wbnf.Grammar().Grammar())
		f := flatten(g)
		b, err := json.Marshal(map[string]any{"T": f.T, "G": f.G, "refs": []string{"zz"}})
		check(err)
		fmt.Println(string(b))
	case "corestack": // the same with its stacks put together again
		f := flatten(regroup(fromGrammar(wbnf.Grammar().Grammar())))
		b, err := json.Marshal(map[string]any{"T": f.T, "G": f.G, "refs": []string{"zz"}})
		check(err)
		fmt.Println(string(b))
	case "coreenc":
		b, err := json.Marshal(encGram(fromGrammar(wbnf.Grammar().Grammar())))
		check(err)
		fmt.Println(string(b))
	case "filter": // filter DIR: keeps the cases that the specification speaks about
		filterCases(filepath.Join(a[0], "cases.ndjson"))
	case "packages": // packages DIR HARNESS_SOURCE
		genPackages(a[0], a[1])
	case "wbnf": // the command line tool
		os.Args = os.Args[1:]
		cmd.Main(cmd.VersionTags{Version: "verif"})
	case "worker":
		worker(a[0], atoi(a[1]), atoi(a[2]), atoi(a[3]), atoi(a[4]))
	default:
		check(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}

// nesting is the depth of a JSON value.
func nesting(b []byte) int {
	d, max, str := 0, 0, false
	for i := 0; i < len(b); i++ {
		switch {
		case str && b[i] == '\\':
			i++
		case b[i] == '"':
			str = !str
		case str:
		case b[i] == '[' || b[i] == '{':
			if d++; d > max {
				max = d
			}
		case b[i] == ']' || b[i] == '}':
			d--
		}
	}
	return max
}
