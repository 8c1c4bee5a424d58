package main

import (
	"bytes"
	"context"
	stdjson "encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/common"
	v2common "github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
)

func init() { handlers["shared"] = runShared }

// gate keeps the k-th use of a device waiting.
type gate struct {
	k       int
	reached chan struct{} // closed when it is waiting
	open    chan struct{}
	n       int
}

func newGate(k int) *gate {
	return &gate{k: k, reached: make(chan struct{}), open: make(chan struct{})}
}

func (g *gate) pass() {
	if g == nil {
		return
	}
	if g.n++; g.n == g.k {
		close(g.reached)
		<-g.open
	}
}

type gatedSink struct {
	g *gate
	b bytes.Buffer
}

// what is written is taken only after the gate has opened
func (s *gatedSink) Write(p []byte) (int, error) {
	s.g.pass()
	return s.b.Write(p)
}

type gatedSource struct {
	g    *gate
	text []byte
}

func (s *gatedSource) Read(p []byte) (int, error) {
	s.g.pass()
	if len(s.text) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 300)], s.text)
	s.text = s.text[n:]
	return n, nil
}

// sharedOps: each returns a text that says everything about its result.
type sharedCtx struct {
	v    int
	doc  common.AnyDocument
	text map[string][]byte // inputs of this goroutine
	n    int
}

func writeOp(f func(common.AnyDocument, io.Writer) error) func(*sharedCtx, *gate) string {
	return func(c *sharedCtx, g *gate) string {
		s := &gatedSink{g: g}
		err := f(c.doc, s)
		return fmt.Sprint(err, s.b.String())
	}
}

func readOp(name string) func(*sharedCtx, *gate) string {
	return func(c *sharedCtx, g *gate) string {
		d := newDoc(c.v)
		err := readers[name](&gatedSource{g, c.text[name]}, d)
		got := abstractDoc(d)
		if name == "rdf" {
			got = rdfOrderless(got)
		}
		return fmt.Sprint(err, string(toJSON(got)))
	}
}

func convertOp(v int) func(*sharedCtx, *gate) string {
	return func(c *sharedCtx, g *gate) string {
		d := newDoc(v)
		err := convert.Document(c.doc, d)
		return fmt.Sprint(err, string(toJSON(abstractDoc(d))))
	}
}

func latest(c *sharedCtx) *spdx.Document { return c.doc.(*spdx.Document) }

var sharedOps = map[string]func(*sharedCtx, *gate) string{
	"write tv":       writeOp(formats["tv"].write),
	"write tv value": writeOp(func(d common.AnyDocument, w io.Writer) error { return formats["tv"].write(deref(d), w) }),
	"write json":     writeOp(formats["json"].write),
	"write json indented": writeOp(func(d common.AnyDocument, w io.Writer) error {
		return json.Write(d, w, json.Indent("  "), json.EscapeHTML(false))
	}),
	"write yaml": writeOp(formats["yaml"].write),
	"convert 21": convertOp(21), "convert 22": convertOp(22), "convert 23": convertOp(23),
	"read tv": readOp("tv"), "read json": readOp("json"), "read yaml": readOp("yaml"), "read rdf": readOp("rdf"),
	"report": func(c *sharedCtx, g *gate) string {
		s := &gatedSink{g: g}
		err := reporter.Generate(latest(c).Packages[0], s)
		return fmt.Sprint(err, s.b.String())
	},
	"diff": func(c *sharedCtx, g *gate) string {
		p := latest(c).Packages
		pairs, err := licensediff.MakePairs(p[0], p[1])
		r, err2 := licensediff.MakeResults(pairs)
		return fmt.Sprint(pairs, err, fmt.Sprintf("%+v", *r), err2)
	},
	"described": func(c *sharedCtx, g *gate) string {
		ids, err := spdxlib.GetDescribedPackageIDs(latest(c))
		return fmt.Sprint(ids, err)
	},
	"validate": func(c *sharedCtx, g *gate) string { return fmt.Sprint(spdxlib.ValidateDocument(latest(c))) },
	"filter": func(c *sharedCtx, g *gate) string {
		ids, err := spdxlib.FilterRelationships(latest(c), func(r *spdx.Relationship) *v2common.ElementID { return &r.RefB.ElementRefID })
		return fmt.Sprint(ids, err)
	},
	"code": func(c *sharedCtx, g *gate) string {
		var out []string
		for _, p := range latest(c).Packages {
			code, err := utils.GetVerificationCode(p.Files, "./f")
			out = append(out, fmt.Sprint(code, err))
		}
		return strings.Join(out, ";")
	},
}

// one case at a time: each uses several goroutines, and races are counted per process
var sharedMu sync.Mutex

// how long a call may take to reach its gate or return before it is taken to be
// waiting for another call
const stuck = 400 * time.Millisecond

// shared is what the calls of a case share, and what each has for itself.
type shared struct {
	v     int
	ops   []string
	doc   func() common.AnyDocument
	texts []map[string][]byte
}

func sharedOf(c *Case) *shared {
	s := &shared{v: c.num("v"), ops: c.strs("ops")}
	s.doc = func() common.AnyDocument {
		d := docFrom(s.v, c.M["doc"])
		if !c.boolean("sorted") {
			l := reflect.ValueOf(d).Elem().FieldByName("Packages")
			reflect.Swapper(l.Interface())(0, 1)
		}
		return d
	}
	for i := range s.ops {
		if sharedOps[s.ops[i]] == nil {
			panic(harnessErrorf("no operation %q", s.ops[i]))
		}
		s.texts = append(s.texts, sharedText(c, s, i))
	}
	return s
}

// sharedText is the input of a reading call, which no other call has.
func sharedText(c *Case, s *shared, i int) map[string][]byte {
	name, reads := strings.CutPrefix(s.ops[i], "read ")
	if !reads {
		return nil
	}
	if name == "rdf" {
		return map[string][]byte{name: []byte(strings.ReplaceAll(rdfSample(max(s.v, 22), 1500+100*i), ">n<", fmt.Sprintf(">n%d<", i)))}
	}
	own := docFrom(s.v, c.M["doc"])
	reflect.ValueOf(own).Elem().FieldByName("DocumentName").SetString(strings.Repeat(fmt.Sprint("name", i, " "), 1+i))
	b, err := formats[name].bytes(own)
	if err != nil {
		panic(harnessErrorf("writing %s: %v", name, err))
	}
	return map[string][]byte{name: b}
}

// alone is what each call returns by itself.
func (s *shared) alone() (out []string) {
	for i := range s.ops {
		out = append(out, sharedOps[s.ops[i]](s.ctx(i, s.doc()), nil))
	}
	return
}

func (s *shared) ctx(i int, doc common.AnyDocument) *sharedCtx {
	return &sharedCtx{v: s.v, doc: doc, text: s.texts[i], n: i}
}

type sharedResult struct {
	I   int    `json:"i"`
	Got string `json:"got"`
}

// together runs all calls at once, each a few times.
func together(n, times int, call func(i int)) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < times; k++ {
				call(i)
			}
		}()
	}
	close(start)
	wg.Wait()
}

// collect gathers the results of calls, of which any may panic.
func collect(f func(i int, g *gate) string) (call func(i int, g *gate), results func() []sharedResult) {
	var mu sync.Mutex
	var all []sharedResult
	call = func(i int, g *gate) {
		var got string
		defer func() {
			if r := recover(); r != nil {
				got = fmt.Sprint("panic: ", r)
			}
			mu.Lock()
			all = append(all, sharedResult{i, got})
			mu.Unlock()
		}()
		got = f(i, g)
	}
	return call, func() []sharedResult { mu.Lock(); defer mu.Unlock(); return all }
}

func (s *shared) judge(label string, results []sharedResult, alone []string, changed bool) (out []Mismatch) {
	for _, r := range results {
		if r.Got != alone[r.I] {
			out = append(out, bad("result", "%s: %s gives %q and alone gives %q", label, s.ops[r.I], clip(fromDiff(r.Got, alone[r.I])), clip(fromDiff(alone[r.I], r.Got))))
		}
	}
	if changed {
		out = append(out, bad("changed", "%s: the shared document was changed", label))
	}
	return
}

func judgeRaces(label string, reports []raceReport) (out []Mismatch) {
	for _, rep := range reports {
		m := bad("race", "%s: data race: %s", label, rep.where)
		if rep.gordf {
			m.Key = "gordf-parser-race"
		}
		out = append(out, m)
	}
	return
}

// A cold case makes its calls in a process of their own, in which they are the
// first use of the library.
type coldInput struct {
	M     map[string]any      `json:"m"`
	Texts []map[string][]byte `json:"texts"`
}
type coldOutput struct {
	Results []sharedResult `json:"results"`
	Changed bool           `json:"changed"`
}

func init() {
	subcommands["cold"] = func([]string) {
		var in coldInput
		if err := stdjson.NewDecoder(os.Stdin).Decode(&in); err != nil {
			fmt.Fprintln(os.Stderr, "cold:", err)
			os.Exit(3)
		}
		c := &Case{M: in.M}
		s := &shared{v: c.num("v"), ops: c.strs("ops"), texts: in.Texts}
		doc := docFrom(s.v, c.M["doc"])
		var ctxs []*sharedCtx
		for i := range s.ops {
			ctxs = append(ctxs, s.ctx(i, doc))
		}
		call, results := collect(func(i int, g *gate) string { return sharedOps[s.ops[i]](ctxs[i], g) })
		together(len(s.ops), 1, func(i int) { call(i, nil) })
		b, _ := stdjson.Marshal(coldOutput{results(), !reflect.DeepEqual(doc, docFrom(s.v, c.M["doc"]))})
		os.Stdout.Write(b)
	}
}

func runCold(c *Case) (out []Mismatch) {
	label := c.str("label")
	sharedMu.Lock()
	s := sharedOf(c)
	alone := s.alone()
	sharedMu.Unlock()
	in, err := stdjson.Marshal(coldInput{c.M, s.texts})
	if err != nil {
		panic(harnessErrorf("%v", err))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(harnessErrorf("%v", err))
	}
	ctx, stop := context.WithTimeout(context.Background(), caseTimeout-5*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, exe, "cold")
	var stdout, stderr bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &stdout, &stderr
	err = cmd.Run()
	c.T.exec(len(s.ops))
	if ctx.Err() != nil {
		return append(out, bad("hang", "%s: as the first use of the library, the calls do not return", label))
	}
	if err != nil {
		if strings.HasPrefix(stderr.String(), "cold:") || cmd.ProcessState == nil {
			panic(harnessErrorf("%v %s", err, stderr.String()))
		}
		return append(out, bad("crash", "%s: as the first use of the library: %v: %s", label, err, clip(stderr.String())))
	}
	var got coldOutput
	if err := stdjson.Unmarshal(stdout.Bytes(), &got); err != nil {
		panic(harnessErrorf("%v", err))
	}
	out = s.judge(label, got.Results, alone, got.Changed)
	if log := fmt.Sprintf("%s/race.%d", scratchDir, cmd.ProcessState.Pid()); fileExists(log) {
		out = append(out, judgeRaces(label, readRaces(log, new(int)))...)
		os.Remove(log)
	}
	return
}

func fileExists(path string) bool { _, err := os.Stat(path); return err == nil }

func runShared(c *Case) (out []Mismatch) {
	label := c.str("label")
	c.T.label(label)
	if c.str("mode") == "cold" {
		return runCold(c)
	}
	sharedMu.Lock()
	defer sharedMu.Unlock()
	s := sharedOf(c)
	ops, doc, alone := s.ops, s.doc(), s.alone()
	ctxs := make([]*sharedCtx, len(ops))
	for i := range ops {
		ctxs[i] = s.ctx(i, doc)
	}
	call, results := collect(func(i int, g *gate) string { return sharedOps[ops[i]](ctxs[i], g) })
	before := raceErrors()
	c.T.exec(len(ops))
	if c.str("mode") == "free" {
		together(len(ops), 3, func(i int) { call(i, nil) })
	} else {
		gates := make([]*gate, len(ops))
		done := make([]chan struct{}, len(ops))
		for _, s := range c.list("sched") {
			i := int(s.(float64)) - 1
			if gates[i] == nil {
				g, d := newGate(c.num("gate")), make(chan struct{})
				gates[i], done[i] = g, d
				go func() { defer close(d); call(i, g) }()
			} else {
				select {
				case <-done[i]:
					continue
				default:
				}
				select {
				case <-gates[i].open:
				default:
					close(gates[i].open)
				}
			}
			resumed := gates[i].reached
			select {
			case <-gates[i].open:
				resumed = nil // now only returning counts
			default:
			}
			select {
			case <-resumed:
			case <-done[i]:
			case <-time.After(stuck): // it waits for another call; that is allowed
			}
		}
		for i := range ops {
			select {
			case <-gates[i].open:
			default:
				close(gates[i].open)
			}
		}
		for i := range ops {
			<-done[i]
		}
	}
	out = s.judge(label, results(), alone, !reflect.DeepEqual(doc, s.doc()))
	if raceErrors() > before {
		out = append(out, judgeRaces(label, readRaces(filepath.Join(scratchDir, fmt.Sprintf("race.%d", os.Getpid())), &raceSeen))...)
	}
	return
}

// fromDiff is a from shortly before where it differs from b.
func fromDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[max(0, i-30):]
}

type raceReport struct {
	where string
	gordf bool // both accesses are made by the RDF loader itself
}

var raceSeen int

// readRaces returns the reports of the race detector after the first seen bytes.
func readRaces(path string, seen *int) (out []raceReport) {
	b, err := os.ReadFile(path)
	if err != nil {
		return []raceReport{{where: "no report: " + err.Error()}}
	}
	text := string(b[min(*seen, len(b)):])
	*seen = len(b)
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		var tops []string
		lines := strings.Split(rep, "\n")
		for i, l := range lines {
			if (strings.Contains(l, "rite at ") || strings.Contains(l, "ead at ")) && strings.Contains(l, " by ") && i+1 < len(lines) {
				// the first frame that is not the Go runtime's
				for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
					f := strings.TrimSpace(lines[j])
					if strings.Contains(f, "/") {
						tops = append(tops, f)
						break
					}
				}
			}
		}
		r := raceReport{where: strings.Join(tops, " and "), gordf: len(tops) > 0}
		for _, t := range tops {
			if !strings.HasPrefix(t, "github.com/spdx/gordf/") {
				r.gordf = false
			}
		}
		out = append(out, r)
	}
	return
}
