package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	stdjson "encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	handlers["tvtrace"] = runTVTrace
	subcommands["record"] = record
}

// unexpand is the reverse of expand, for text that is given to TLC.
var unexpand = func() *strings.Replacer {
	var pairs []string
	for _, p := range []string{"{{U}}", "{{LONG}}", "{{CR}}", "{{NUL}}", "{{BOM}}", "{{NEL}}", "{{CTL}}"} {
		pairs = append(pairs, placeholders.Replace(p), p)
	}
	return strings.NewReplacer(pairs...)
}()

type trace struct {
	K     string   `json:"k"`
	V     int      `json:"v"`
	Label string   `json:"label"`
	Doc   string   `json:"doc"`
	Norm  string   `json:"norm"`
	Lines []string `json:"lines"`
}

// record writes what the code makes of cases, or what comes with it, for the
// specification to look at: record WHAT CASES OUT N
func record(args []string) {
	what, cases, out := args[0], args[1], args[2]
	var n int
	fmt.Sscan(args[3], &n)
	var traces []trace
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "record:", err)
			os.Exit(3)
		}
	}
	switch what {
	case "written":
		b, err := os.ReadFile(cases)
		die(err)
		lines := bytes.Split(bytes.TrimSpace(b), []byte("\n"))
		for i := 0; i < min(n, len(lines)); i++ {
			var m map[string]any
			die(stdjson.Unmarshal(lines[i*len(lines)/min(n, len(lines))], &m))
			doc, norm := toJSON(m["doc"]), toJSON(m["want"])
			text, err := writeTraced(int(m["v"].(float64)), m["doc"])
			if err != nil {
				text = "# " + err.Error() // denotes nothing, which the comparison finds
			}
			traces = append(traces, trace{"tvtrace", int(m["v"].(float64)), "written", base64.StdEncoding.EncodeToString(doc),
				base64.StdEncoding.EncodeToString(norm), strings.Split(unexpand.Replace(text), "\n")})
		}
	case "samples":
		files, err := filepath.Glob(cases)
		die(err)
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			die(err)
			m := regexp.MustCompile(`(?m)^SPDXVersion: SPDX-2\.(\d)`).FindSubmatch(b)
			if m == nil {
				continue
			}
			traces = append(traces, trace{"tvtext", 20 + int(m[1][0]-'0'), filepath.Base(f), "", "", strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n")})
		}
	default:
		die(fmt.Errorf("cannot record %s", what))
	}
	f, err := os.Create(out)
	die(err)
	w := bufio.NewWriter(f)
	for _, t := range traces {
		w.Write(toJSON(t))
	}
	die(w.Flush())
	die(f.Close())
}

func writeTraced(v int, doc any) (text string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	b, err := formats["tv"].bytes(docFrom(v, expand(doc)))
	return string(b), err
}

// runTVTrace compares what a text denotes, by the specification, with the
// document that the code was given to write.
func runTVTrace(c *Case) (out []Mismatch) {
	v := c.num("v")
	c.T.label(c.str("label"))
	c.T.exec(1)
	decode := func(field string) (x any) {
		b, err := base64.StdEncoding.DecodeString(c.str(field))
		if err == nil {
			err = stdjson.Unmarshal(b, &x)
		}
		if err != nil {
			panic(harnessErrorf("%s: %v", field, err))
		}
		return x
	}
	doc, norm := decode("doc"), expand(decode("norm"))
	text, err := writeTraced(v, doc)
	if err != nil {
		return append(out, bad("write", "writing fails: %s", clip(err.Error())))
	}
	was := strings.Join(c.strs("lines"), "\n")
	if text != was {
		return append(out, bad("unstable", "writing gives %q and gave %q", clip(fromDiff(text, was)), clip(fromDiff(was, text))))
	}
	want := c.obj("want")
	if _, isErr := want["err"]; isErr {
		return append(out, bad("unreadable", "what is written is not a tag-value document: %s", clip(text)))
	}
	if df := diff("Document", stripAnalyzedTag(normDoc(want["doc"])), stripAnalyzedTag(normDoc(norm))); df != "" {
		out = append(out, bad("denotes", "what is written denotes another document: %s", df))
	}
	return
}
