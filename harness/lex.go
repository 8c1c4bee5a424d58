package main

import (
	"strings"

	"github.com/spdx/tools-golang/tagvalue/reader"
)

func init() { handlers["lex"] = runLex }

// runLex lexes a generated text with the real lexer, in the layouts that
// must not matter, and compares the pairs.
func runLex(c *Case) (out []Mismatch) {
	lines := c.strs("lines")
	want := c.obj("want")
	times := 1
	if n, ok := c.M["times"].(float64); ok && n > 1 {
		times = int(n)
	}
	one := lines
	for i := 1; i < times; i++ {
		lines = append(lines, one...)
	}
	text := strings.Join(lines, "\n")
	layouts := map[string]string{"plain": text, "final newline": text + "\n"}
	if !strings.Contains(text, "<text>") {
		layouts["crlf"] = strings.Join(lines, "\r\n") + "\r\n"
	}
	for name, txt := range layouts {
		c.T.exec(1)
		pairs, err := reader.ReadTagValues(strings.NewReader(txt))
		if _, isErr := want["err"]; isErr {
			if err == nil {
				out = append(out, bad("accepted", "layout %s: malformed text accepted, %d pairs", name, len(pairs)))
			} else if len(pairs) > 0 {
				out = append(out, bad("partial", "layout %s: error together with %d pairs", name, len(pairs)))
			}
			continue
		}
		if err != nil {
			out = append(out, bad("rejected", "layout %s: text rejected: %s", name, clip(err.Error())))
			continue
		}
		wp := want["pairs"].([]any)
		if times > 1 {
			all := make([]any, 0, len(wp)*times)
			for i := 0; i < times; i++ {
				all = append(all, wp...)
			}
			wp = all
		}
		got := make([]any, 0, len(pairs))
		for _, p := range pairs {
			got = append(got, []any{p.Tag, p.Value})
		}
		if d := diff("pairs", got, any(wp)); d != "" {
			out = append(out, Mismatch{Class: "pairs", Msg: "layout " + name + ": " + d})
		}
	}
	return out
}
