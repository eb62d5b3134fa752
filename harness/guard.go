package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// executors run one (case, run) pair on the real code and return what happened.
type executor struct {
	prepare func(c *Case) any // once per case, may return an error string
	run     func(c *Case, prep any, ri int) any
}

var executors = map[string]executor{}

type obsLine struct {
	Ci  int `json:"ci"`
	Ri  int `json:"ri"`
	Obs any `json:"obs"`
}

func readCases(path string) []*Case {
	f, err := os.Open(path)
	check(err)
	defer f.Close()
	var out []*Case
	d := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	for {
		var c Case
		if err := d.Decode(&c); err == io.EOF {
			return out
		} else {
			check(err)
		}
		out = append(out, &c)
	}
}

func writeCases(path string, cases []*Case) {
	f, err := os.Create(path)
	check(err)
	w := bufio.NewWriter(f)
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	for i, c := range cases {
		c.ID = i
		check(e.Encode(c))
	}
	check(w.Flush())
	check(f.Close())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// worker executes cases ci ≡ stripe (mod of), starting at (ci0, ri0).
// recordDir is where the cases being run are.
var recordDir string

func worker(dir string, stripe, of, ci0, ri0 int) {
	debug.SetMaxStack(256 << 20)
	recordDir = dir
	cases := readCases(filepath.Join(dir, "cases.ndjson"))
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for ci := stripe; ci < len(cases); ci += of {
		if ci < ci0 {
			continue
		}
		c := cases[ci]
		c.ID = ci
		ex, has := executors[c.Kind]
		if !has {
			check(fmt.Errorf("no executor %q", c.Kind))
		}
		from := 0
		if ci == ci0 {
			from = ri0
		}
		if from >= len(c.Runs) {
			continue
		}
		fmt.Fprintf(out, "B %d %d\n", ci, from)
		out.Flush()
		var prep any
		if ex.prepare != nil {
			prep = ex.prepare(c)
		}
		for ri := from; ri < len(c.Runs); ri++ {
			fmt.Fprintf(out, "B %d %d\n", ci, ri)
			out.Flush()
			o := ex.run(c, prep, ri)
			fmt.Fprint(out, "R ")
			check(enc.Encode(obsLine{ci, ri, o}))
		}
		out.Flush()
	}
	fmt.Fprintln(out, "DONE")
	out.Flush()
}

// record runs all cases of dir in guarded children and returns obs[ci][ri].
func record(dir string, cases []*Case, timeout time.Duration) [][]json.RawMessage {
	n := 8
	if len(cases) < n {
		n = len(cases)
	}
	obs := make([][]json.RawMessage, len(cases))
	for i, c := range cases {
		obs[i] = make([]json.RawMessage, len(c.Runs))
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			ci, ri := s, 0
			bad := 0
			for {
				done, lci, lri, why := child(dir, s, n, ci, ri, timeout, func(l rawLine) {
					mu.Lock()
					obs[l.Ci][l.Ri] = l.Obs
					mu.Unlock()
				})
				if done {
					return
				}
				if lci < 0 {
					fmt.Fprintln(os.Stderr, "harness: worker died before starting:", why)
					os.Exit(3)
				}
				mu.Lock()
				b, _ := json.Marshal(map[string]any{"o": why, "p": -1, "t": []any{"E"}, "log": []any{}})
				obs[lci][lri] = b
				mu.Unlock()
				ci, ri = lci, lri+1
				if bad++; bad >= 3 {
					// a tree this broken needs no further runs of this stripe
					mu.Lock()
					b, _ := json.Marshal(map[string]any{"o": "skipped", "p": -1, "t": []any{"E"}, "log": []any{}})
					for i := s; i < len(cases); i += n {
						for j := range obs[i] {
							if obs[i][j] == nil {
								obs[i][j] = b
							}
						}
					}
					mu.Unlock()
					return
				}
			}
		}(s)
	}
	wg.Wait()
	return obs
}

type rawLine struct {
	Ci  int             `json:"ci"`
	Ri  int             `json:"ri"`
	Obs json.RawMessage `json:"obs"`
}

func child(dir string, s, n, ci, ri int, timeout time.Duration, got func(rawLine)) (done bool, lci, lri int, why string) {
	exe, err := os.Executable()
	check(err)
	limit := `ulimit -v 6000000; exec "$0" "$@"`
	if os.Getenv("VERIF_RACE") != "" { // the race detector reserves address space
		limit = `exec "$0" "$@"`
	}
	cmd := exec.Command("/bin/sh", "-c", limit, exe, "worker", dir,
		strconv.Itoa(s), strconv.Itoa(n), strconv.Itoa(ci), strconv.Itoa(ri))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=none", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	out, err := cmd.StdoutPipe()
	check(err)
	errf, _ := os.OpenFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", s)), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	cmd.Stderr = errf
	check(cmd.Start())
	lci, lri = -1, -1
	killed := false
	var mu sync.Mutex
	last := time.Now()
	stop := make(chan struct{})
	go func() {
		t := time.NewTicker(100 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				mu.Lock()
				late := time.Since(last) > timeout
				mu.Unlock()
				if late {
					killed = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
			}
		}
	}()
	r := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			break
		}
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		switch {
		case line == "DONE\n":
			done = true
		case line[0] == 'B':
			fmt.Sscanf(line, "B %d %d", &lci, &lri)
		case line[0] == 'R':
			var l rawLine
			check(json.Unmarshal([]byte(line[2:]), &l))
			got(l)
		}
	}
	close(stop)
	cmd.Wait()
	errf.Close()
	if done {
		return
	}
	why = "crash"
	if killed {
		why = "hang"
	}
	return
}
