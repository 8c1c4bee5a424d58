package main

import (
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/tagvalue"
)

func init() { handlers["tv"] = runTV; handlers["tvtext"] = runTVText }

// runTVText reads a given text.
func runTVText(c *Case) []Mismatch {
	c.T.label(c.str("label"))
	c.T.exec(1)
	text := c.str("text")
	if lines := c.strs("lines"); len(lines) > 0 {
		text = strings.Join(lines, "\n")
	}
	d, err := readTV(c.num("v"), text)
	return judgeRead(c, "text", d, err)
}

// judgeRead compares the outcome of a read with what the case wants.
func judgeRead(c *Case, how string, d common.AnyDocument, err error) (out []Mismatch) {
	want := c.obj("want")
	if _, isErr := want["err"]; isErr {
		if err == nil {
			out = append(out, bad("accepted", "%s (%s): malformed input accepted", c.str("label"), how))
		}
		return
	}
	if err != nil {
		return append(out, bad("rejected", "%s (%s): well-formed input rejected: %s", c.str("label"), how, clip(err.Error())))
	}
	if df := diff("Document", abstractDoc(d), normDoc(want["doc"])); df != "" {
		out = append(out, bad("document", "%s (%s): %s", c.str("label"), how, df))
	}
	return
}

func pairsOf(v any) (out [][2]string) {
	l, _ := v.([]any)
	for _, p := range l {
		q := p.([]any)
		out = append(out, [2]string{q[0].(string), q[1].(string)})
	}
	return
}

// render writes pairs as tag-value text. The layouts denote the same pairs.
func render(pairs [][2]string, layout string) string {
	var b strings.Builder
	for i, p := range pairs {
		tag, val := p[0], p[1]
		needText := strings.ContainsAny(val, "\n\r") || strings.TrimSpace(val) != val || strings.Contains(val, "<text>")
		switch layout {
		case "plain":
		case "text":
			needText = true
		case "spaced":
			if i%2 == 0 {
				b.WriteString("\n  \n")
			}
			b.WriteString("## comment: " + tag + "\n#PackageName: commented\n \t")
		}
		if needText {
			fmt.Fprintf(&b, "%s: <text>%s</text>\n", tag, val)
		} else if layout == "spaced" {
			fmt.Fprintf(&b, "%s :\t%s  \n", tag, val)
		} else {
			fmt.Fprintf(&b, "%s: %s\n", tag, val)
		}
	}
	return b.String()
}

func readTV(v int, text string) (common.AnyDocument, error) {
	d := newDoc(v)
	err := tagvalue.ReadInto(strings.NewReader(text), d)
	return d, err
}

// runTV reads a generated tag-value document and compares the outcome with
// the specification's.
func runTV(c *Case) (out []Mismatch) {
	v := c.num("v")
	pairs := pairsOf(c.M["pairs"])
	c.T.label(c.str("label"))
	for _, layout := range []string{"plain", "text", "spaced"} {
		c.T.exec(1)
		d, err := readTV(v, render(pairs, layout))
		out = append(out, judgeRead(c, "layout "+layout, d, err)...)
	}
	return
}
