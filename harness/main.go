// Command harness replays behaviours generated from the TLA+ specification
// into the real spdx/tools-golang code and compares what the code does with
// what the specification says.
//
//	harness -cases f.ndjson -out r.json [-par 8] [-only idx] [-progress f]
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Mismatch is one disagreement between the code and the specification.
type Mismatch struct {
	Idx   int    `json:"idx"`
	Key   string `json:"key"`   // stable description of the failing input, for the known-findings file
	Class string `json:"class"` // coarse class, for reporting
	Msg   string `json:"msg"`
	Got   any    `json:"got,omitempty"`
	Want  any    `json:"want,omitempty"`
}

// Case is one generated behaviour.
type Case struct {
	Idx  int
	Line []byte
	M    map[string]any
	T    *Tally
}

// Tally counts what a run covered.
type Tally struct {
	mu       sync.Mutex
	Execs    int            `json:"execs"`  // calls into the real code that were judged
	Kinds    map[string]int `json:"kinds"`  // cases per kind
	Labels   map[string]int `json:"labels"` // cases per label
	distinct map[uint64]struct{}
}

func (t *Tally) exec(n int) { t.mu.Lock(); t.Execs += n; t.mu.Unlock() }
func (t *Tally) label(s string) {
	t.mu.Lock()
	t.Labels[s]++
	t.mu.Unlock()
}

// scratchDir is where cases that need files make theirs.
var scratchDir string

// harnessError is a fault of the harness or the specification, not of the code.
type harnessError string

type handler func(c *Case) []Mismatch

var handlers = map[string]handler{}

func (c *Case) str(k string) string { s, _ := c.M[k].(string); return s }
func (c *Case) num(k string) int    { f, _ := c.M[k].(float64); return int(f) }
func (c *Case) boolean(k string) bool {
	b, _ := c.M[k].(bool)
	return b
}
func (c *Case) list(k string) []any { l, _ := c.M[k].([]any); return l }
func (c *Case) strs(k string) []string {
	return toStrs(c.M[k])
}
func (c *Case) obj(k string) map[string]any { return toObj(c.M[k]) }

func toStrs(v any) []string {
	l, _ := v.([]any)
	out := make([]string, len(l))
	for i, x := range l {
		out[i], _ = x.(string)
	}
	return out
}
func toObj(v any) map[string]any {
	if m, ok := v.(map[string]any); ok {
		return m
	}
	return map[string]any{} // TLC prints the empty function as []
}

func bad(class, format string, a ...any) Mismatch {
	return Mismatch{Class: class, Msg: fmt.Sprintf(format, a...)}
}

var caseTimeout = 60 * time.Second

// placeholders that the specification uses for strings TLC cannot handle well
var placeholders = strings.NewReplacer(
	"{{U}}", "ünïcødé-日本-\U0001F600-\u2028-é",
	"{{WIDE}}", "日",
	"{{LONG}}", strings.Repeat("long line-", 7100),
	"{{HUGE}}", strings.Repeat("much longer still,", 1<<20),
	"{{CR}}", "\r",
	"{{NL}}", "\n",
	"{{NUL}}", "\x00",
	"{{BOM}}", "\ufeff",
	"{{NEL}}", "\u0085\ufffe\uffff",
	"{{CTL}}", "\x01\x1b\x7f",
)

func expand(v any) any {
	switch x := v.(type) {
	case string:
		switch x {
		case "{{NULL}}":
			return nil
		case "{{1.5}}":
			return 1.5
		case "{{1e40}}":
			return 1e40
		}
		if strings.Contains(x, "{{") {
			return placeholders.Replace(x)
		}
		return x
	case []any:
		for i := range x {
			x[i] = expand(x[i])
		}
		return x
	case map[string]any:
		for k := range x {
			x[k] = expand(x[k])
		}
		return x
	}
	return v
}

func runOne(c *Case) (out []Mismatch) {
	kind := c.str("k")
	h := handlers[kind]
	if h == nil {
		fmt.Fprintf(os.Stderr, "harness: no handler for case kind %q\n", kind)
		os.Exit(3)
	}
	done := make(chan []Mismatch, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					fmt.Fprintf(os.Stderr, "harness: case %d: %s\n", c.Idx, string(he))
					os.Exit(3)
				}
				done <- []Mismatch{{Class: "panic", Msg: fmt.Sprintf("panic: %v", r), Got: trimStack(debug.Stack())}}
			}
		}()
		done <- h(c)
	}()
	select {
	case out = <-done:
	case <-time.After(caseTimeout):
		out = []Mismatch{{Class: "timeout", Msg: "the call did not return within " + caseTimeout.String()}}
	}
	for i := range out {
		out[i].Idx = c.Idx
		if out[i].Key == "" {
			out[i].Key = c.str("key")
		}
		if out[i].Key == "" {
			out[i].Key = fmt.Sprintf("%s:%016x", kind, hash(c.Line))
		}
	}
	return out
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "tools-golang") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, " | ")
}

func hash(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

func main() {
	time.Local = time.FixedZone("elsewhere", -(7*3600 + 1800)) // far from UTC
	cases := flag.String("cases", "", "NDJSON cases")
	out := flag.String("out", "", "result file")
	par := flag.Int("par", runtime.NumCPU(), "parallelism")
	only := flag.Int("only", -1, "run only this case")
	progress := flag.String("progress", "", "sequential mode: write the index of the running case here")
	skip := flag.Int("skip", 0, "skip the first n cases")
	timeout := flag.Duration("timeout", caseTimeout, "per-case limit")
	flag.StringVar(&scratchDir, "scratch", os.TempDir(), "directory for scratch files")
	flag.Parse()
	caseTimeout = *timeout
	debug.SetMaxStack(128 << 20)
	if flag.NArg() > 0 {
		subcommand(flag.Args())
		return
	}

	f, err := os.Open(*cases)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	t := &Tally{Kinds: map[string]int{}, Labels: map[string]int{}, distinct: map[uint64]struct{}{}}
	ch := make(chan *Case, 64)
	var mu sync.Mutex
	var mism []Mismatch
	perKey := map[string]int{}
	total := 0
	var wg sync.WaitGroup
	n := *par
	if *progress != "" {
		n = 1
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				if *progress != "" {
					_ = os.WriteFile(*progress, []byte(fmt.Sprint(c.Idx)), 0o644)
				}
				ms := runOne(c)
				if len(ms) > 0 {
					mu.Lock()
					total += len(ms)
					for _, m := range ms {
						if perKey[m.Key]++; perKey[m.Key] <= 100 && len(mism) < 4000 {
							mism = append(mism, m)
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	idx, count := 0, 0
	for {
		line, err := rd.ReadBytes('\n')
		line = []byte(strings.TrimRight(string(line), "\n"))
		if len(line) > 0 {
			if idx >= *skip && (*only < 0 || idx == *only) {
				var m map[string]any
				if e := json.Unmarshal(line, &m); e != nil {
					fmt.Fprintf(os.Stderr, "harness: case %d is not JSON: %v\n", idx, e)
					os.Exit(3)
				}
				expand(m)
				c := &Case{Idx: idx, Line: line, M: m, T: t}
				t.mu.Lock()
				t.Kinds[c.str("k")]++
				t.distinct[hash(line)] = struct{}{}
				t.mu.Unlock()
				count++
				ch <- c
			}
			idx++
		}
		if err != nil {
			break
		}
	}
	close(ch)
	wg.Wait()
	if *only < 0 {
		for _, ms := range finishers() {
			total++
			mism = append(mism, ms)
		}
	}
	sort.SliceStable(mism, func(i, j int) bool { return mism[i].Idx < mism[j].Idx })
	res := map[string]any{"cases": count, "distinct": len(t.distinct), "execs": t.Execs, "kinds": t.Kinds,
		"labels": t.Labels, "mismatches": total, "list": mism}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// finishers run after all cases.
var finish []func() []Mismatch

func finishers() (out []Mismatch) {
	for _, f := range finish {
		out = append(out, f()...)
	}
	return
}
