package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	sigsyaml "sigs.k8s.io/yaml"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"
)

func init() {
	handlers["tvrt"] = runTVRoundTrip
	handlers["jsonrt"] = runJSONRoundTrip
	handlers["yamlrt"] = runYAMLRoundTrip
	handlers["pure"] = runPure
	handlers["conv"] = runConvert
	handlers["cross"] = runCross
	handlers["treeshape"] = runTreeShape
	handlers["treecut"] = runTreeCut
}

// format is one way of writing and reading documents.
type format struct {
	name  string
	write func(common.AnyDocument, io.Writer) error
	read  func(io.Reader, any) error
}

var formats = map[string]format{
	"tv": {"tag-value", tagvalue.Write, func(r io.Reader, d any) error { return tagvalue.ReadInto(r, d) }},
	"json": {"JSON", func(d common.AnyDocument, w io.Writer) error { return json.Write(d, w) },
		func(r io.Reader, d any) error { return json.ReadInto(r, d) }},
	"yaml": {"YAML", yaml.Write, func(r io.Reader, d any) error { return yaml.ReadInto(r, d) }},
}

func (f format) bytes(d common.AnyDocument) ([]byte, error) {
	var b bytes.Buffer
	err := f.write(d, &b)
	return b.Bytes(), err
}

// deref gives the document itself rather than a pointer to it.
func deref(d common.AnyDocument) common.AnyDocument { return reflect.ValueOf(d).Elem().Interface() }

// without removes a field from every package of an abstract document.
func stripAnalyzedTag(doc any) any {
	m := toObj(doc)
	l, _ := m["Packages"].([]any)
	for _, p := range l {
		delete(toObj(p), "IsFilesAnalyzedTagPresent")
	}
	return doc
}

// roundTrip writes d, reads the text back and compares.
func roundTrip(c *Case, how string, f format, v int, d common.AnyDocument, want any, strip bool) (out []Mismatch, text []byte) {
	c.T.exec(1)
	text, err := f.bytes(d)
	if err != nil {
		return append(out, bad("write", "%s %s: writing fails: %s", c.str("label"), how, clip(err.Error()))), nil
	}
	got := newDoc(v)
	if err := f.read(bytes.NewReader(text), got); err != nil {
		return append(out, bad("reread", "%s %s: what was written cannot be read: %s", c.str("label"), how, clip(err.Error()))), text
	}
	g := abstractDoc(got)
	if strip {
		g = stripAnalyzedTag(g)
	}
	if df := diff("Document", g, normDoc(want)); df != "" {
		out = append(out, bad("roundtrip", "%s %s: %s", c.str("label"), how, df))
	}
	return out, text
}

func runTVRoundTrip(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	ms, _ := roundTrip(c, "pointer", formats["tv"], v, docFrom(v, c.M["doc"]), c.M["want"], false)
	out = append(out, ms...)
	ms, _ = roundTrip(c, "value", formats["tv"], v, deref(docFrom(v, c.M["doc"])), c.M["want"], false)
	return append(out, ms...)
}

func jsonWith(opts ...json.WriteOption) format {
	f := formats["json"]
	f.write = func(d common.AnyDocument, w io.Writer) error { return json.Write(d, w, opts...) }
	return f
}

// generic decodes JSON text into a tree.
func generic(b []byte) (any, error) {
	var x any
	err := stdjson.Unmarshal(b, &x)
	return x, err
}

// toJSON writes a tree as another tool might.
func toJSON(tree any) []byte {
	var b bytes.Buffer
	e := stdjson.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(tree); err != nil {
		panic(harnessErrorf("cannot encode tree: %v", err))
	}
	return b.Bytes()
}

// jsonVariants: every option combination of the JSON writer
var jsonVariants = []struct {
	name string
	f    format
}{
	{"plain", jsonWith()}, {"indented", jsonWith(json.Indent("  "))}, {"unescaped", jsonWith(json.EscapeHTML(false))},
	{"indented and unescaped", jsonWith(json.Indent("\t"), json.EscapeHTML(false))},
}

// analyzedOf lists what a tree says of each package's files being analysed.
func statedAnalyzed(tree any) (out []any) {
	l, _ := toObj(tree)["packages"].([]any)
	for _, p := range l {
		out = append(out, toObj(p)["filesAnalyzed"])
	}
	return
}

func runJSONRoundTrip(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	tree := normDoc(c.M["tree"])
	for _, jv := range jsonVariants {
		for _, ptr := range []bool{true, false} {
			var d common.AnyDocument = docFrom(v, c.M["doc"])
			if !ptr {
				if jv.name != "plain" {
					continue
				}
				d = deref(d)
			}
			ms, text := roundTrip(c, jv.name, jv.f, v, d, c.M["want"], true)
			out = append(out, ms...)
			if text == nil {
				continue
			}
			g, err := generic(text)
			if err != nil {
				out = append(out, bad("syntax", "%s %s: what was written is not JSON: %v", c.str("label"), jv.name, err))
			} else if df := diff("$", normDoc(g), tree); df != "" {
				out = append(out, bad("keys", "%s %s: %s", c.str("label"), jv.name, df))
			}
		}
	}
	// as written by another tool, under the keys of the schema
	c.T.exec(1)
	got := newDoc(v)
	if err := json.ReadInto(bytes.NewReader(toJSON(c.M["tree"])), got); err != nil {
		out = append(out, bad("foreign", "%s: a document under the schema's keys is rejected: %s", c.str("label"), clip(err.Error())))
	} else if df := diff("Document", stripAnalyzedTag(abstractDoc(got)), normDoc(c.M["want"])); df != "" {
		out = append(out, bad("foreign", "%s: reading the schema's keys: %s", c.str("label"), df))
	}
	return
}

// yamlStyles renders a tree as YAML in several ways.
func yamlStyles(tree any) map[string][]byte {
	out := map[string][]byte{"as JSON": []byte(yamlEscapes.Replace(string(toJSON(tree))))}
	// the library's own YAML cannot take every character; the other styles do
	if b, err := sigsyaml.Marshal(tree); err == nil && !strings.ContainsAny(string(b)+string(toJSON(tree)), "\u0085\ufffe\uffff") {
		out["block style"] = b
	}
	var s strings.Builder
	emitYAML(&s, tree, 0, true)
	out["double-quoted"] = []byte(s.String())
	return out
}

// JSON leaves these raw; YAML takes them for line breaks, a mark, or errors
var yamlEscapes = strings.NewReplacer("\u0085", `\u0085`, "\u2028", `\u2028`, "\u2029", `\u2029`, "\ufeff", `\ufeff`, "\u007f", `\u007f`, "\ufffe", `\ufffe`, "\uffff", `\uffff`)

// emitYAML writes block YAML with double-quoted scalars and keys in reverse order.
func emitYAML(b *strings.Builder, v any, depth int, atStart bool) {
	pad := strings.Repeat("  ", depth)
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			b.WriteString("{}\n")
			return
		}
		if !atStart {
			b.WriteString("\n")
		}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		for _, k := range ks {
			if k == "" || strings.ContainsAny(k, "$-") {
				b.WriteString(pad + strings.TrimSpace(string(toJSON(k))) + ": ")
			} else {
				b.WriteString(pad + k + ": ")
			}
			emitYAML(b, x[k], depth+1, false)
		}
	case []any:
		if len(x) == 0 {
			b.WriteString("[]\n")
			return
		}
		b.WriteString("\n")
		for _, e := range x {
			b.WriteString(pad + "- ")
			emitYAML(b, e, depth+1, false)
		}
	default:
		b.WriteString(yamlEscapes.Replace(strings.TrimSpace(string(toJSON(x)))) + "\n")
	}
}

func runYAMLRoundTrip(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	d := docFrom(v, c.M["doc"])
	ms, text := roundTrip(c, "YAML", formats["yaml"], v, d, c.M["want"], true)
	out = append(out, ms...)
	ms, _ = roundTrip(c, "YAML value", formats["yaml"], v, deref(d), c.M["want"], true)
	out = append(out, ms...)
	if text != nil {
		var yt any
		if err := sigsyaml.Unmarshal(text, &yt); err != nil {
			out = append(out, bad("syntax", "%s: what was written is not YAML: %v", c.str("label"), err))
		} else {
			jb, err := formats["json"].bytes(d)
			jt, err2 := generic(jb)
			if err == nil && err2 == nil {
				if df := diff("$", yt, jt); df != "" {
					out = append(out, bad("tree", "%s: the YAML text differs from the JSON text: %s", c.str("label"), df))
				}
			}
			if df := diff("$", normDoc(yt), normDoc(c.M["tree"])); df != "" {
				out = append(out, bad("keys", "%s: %s", c.str("label"), df))
			}
		}
	}
	for name, b := range yamlStyles(c.M["tree"]) {
		c.T.exec(1)
		got := newDoc(v)
		if err := yaml.ReadInto(bytes.NewReader(b), got); err != nil {
			out = append(out, bad("foreign", "%s: YAML under the schema's keys (%s) is rejected: %s", c.str("label"), name, clip(err.Error())))
		} else if df := diff("Document", stripAnalyzedTag(abstractDoc(got)), normDoc(c.M["want"])); df != "" {
			out = append(out, bad("foreign", "%s: reading YAML (%s): %s", c.str("label"), name, df))
		}
	}
	return
}

// runTreeShape reads a tree that is not quite what the format asks for.
func runTreeShape(c *Case) (out []Mismatch) {
	c.T.label(c.str("verdict"))
	v, verdict := c.num("v"), c.str("verdict")
	texts := map[string][]byte{"JSON": toJSON(c.M["tree"])}
	for name, b := range yamlStyles(c.M["tree"]) {
		texts["YAML "+name] = b
	}
	var names []string
	for n := range texts {
		names = append(names, n)
	}
	sort.Strings(names) // JSON first
	var first any
	var firstErr error
	for _, name := range names {
		c.T.exec(1)
		f := formats["json"]
		if name != "JSON" {
			f = formats["yaml"]
		}
		got := newDoc(v)
		err := f.read(bytes.NewReader(texts[name]), got)
		g := stripAnalyzedTag(abstractDoc(got))
		if name == "JSON" {
			first, firstErr = g, err
		}
		switch {
		case verdict == "reject" && err == nil:
			out = append(out, bad("accepted", "%s: %s is read without an error", c.str("label"), name))
		case verdict == "doc" && err != nil:
			out = append(out, bad("rejected", "%s: %s is rejected: %s", c.str("label"), name, clip(err.Error())))
		case verdict == "doc":
			if df := diff("Document", g, normDoc(c.M["want"])); df != "" {
				out = append(out, bad("misread", "%s: %s: %s", c.str("label"), name, df))
			}
		case verdict == "either" && (err == nil) != (firstErr == nil):
			out = append(out, bad("differ", "%s: JSON: %v, %s: %v", c.str("label"), firstErr, name, err))
		case verdict == "either" && err == nil:
			if df := diff("Document", g, first); df != "" {
				out = append(out, bad("differ", "%s: %s is not read as JSON is: %s", c.str("label"), name, df))
			}
		}
		if err != nil && !reflect.ValueOf(got).Elem().IsZero() {
			out = append(out, bad("stored", "%s: %s is rejected but something is stored", c.str("label"), name))
		}
	}
	return
}

// runTreeCut reads a document's text with something around it, and its parts.
func runTreeCut(c *Case) (out []Mismatch) {
	c.T.label(c.str("verdict"))
	v, core := c.num("v"), bytes.TrimSpace(toJSON(c.M["tree"]))
	styles := []string{"json"}
	if c.boolean("flow") {
		styles = append(styles, "yaml")
	}
	try := func(style string, text []byte) (any, error) {
		c.T.exec(1)
		got := newDoc(v)
		err := formats[style].read(bytes.NewReader(text), got)
		if err != nil && !reflect.ValueOf(got).Elem().IsZero() {
			out = append(out, bad("stored", "%s: rejected but something is stored", style))
		}
		return stripAnalyzedTag(abstractDoc(got)), err
	}
	for _, style := range styles {
		text := []byte(c.str("before") + string(core) + c.str("after"))
		g, err := try(style, text)
		switch {
		case c.str("verdict") == "reject" && err == nil:
			out = append(out, bad("accepted", "%d %s: a document between %q and %q is read without an error", v, style, c.str("before"), c.str("after")))
		case c.str("verdict") == "doc" && err != nil:
			out = append(out, bad("rejected", "%d %s: a document between %q and %q is rejected: %s", v, style, c.str("before"), c.str("after"), clip(err.Error())))
		case c.str("verdict") == "doc":
			if df := diff("Document", g, normDoc(c.M["want"])); df != "" {
				out = append(out, bad("misread", "%d %s: %s", v, style, df))
			}
		}
		if !c.boolean("parts") {
			continue
		}
		step := 1
		if style == "yaml" {
			step = 7
		}
		for n := 0; n < len(core); n += step {
			if _, err := try(style, core[:n]); err == nil {
				out = append(out, bad("cut", "%d %s: the first %d of %d bytes of a document are read without an error", v, style, n, len(core)))
				break
			}
		}
	}
	return
}

// snapshot is everything in a document, nil and empty kept apart.
func snapshot(d any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(d), map[uintptr]bool{})
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "&%x", v.Pointer())
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		dump(b, v.Elem(), seen)
	case reflect.Interface:
		dump(b, v.Elem(), seen)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i), seen)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		// what lies between the length and the capacity is the caller's too
		w := v.Slice(0, v.Len())
		for i := 0; i < w.Len(); i++ {
			dump(b, w.Index(i), seen)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(b, "%q:", k)
			dump(b, m[k], seen)
		}
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int64:
		fmt.Fprint(b, v.Int())
	default:
		panic(harnessErrorf("cannot dump a %s", v.Kind()))
	}
}

func runPure(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	var tvText []byte
	for _, fn := range []string{"json", "yaml", "tv"} {
		f := formats[fn]
		d := docFrom(v, c.M["doc"])
		before, abs := snapshot(d), abstractDoc(d)
		var first []byte
		for i := 0; i < 6; i++ {
			c.T.exec(1)
			b, err := f.bytes(d)
			if err != nil {
				out = append(out, bad("write", "%s: writing %s fails: %s", c.str("label"), f.name, clip(err.Error())))
				break
			}
			if i == 0 {
				first = b
			} else if !bytes.Equal(b, first) {
				out = append(out, bad("determinism", "%s: writing %s a second time gives other bytes: %s", c.str("label"), f.name, firstDiff(first, b)))
				break
			}
		}
		if snapshot(d) != before {
			m := bad("mutation", "%s: writing %s changes the document: %s", c.str("label"), f.name, diff("Document", abstractDoc(d), abs))
			if fn == "tv" && reflect.DeepEqual(abstractDoc(d), normDoc(c.M["ordered"])) && !reflect.DeepEqual(abstractDoc(d), abs) {
				m.Key = fmt.Sprintf("tagvalue-sorts-caller-lists")
				m.Msg = c.str("label") + ": writing tag-value puts the caller's lists in order of identifier: " + diff("Document", abstractDoc(d), abs)
			}
			out = append(out, m)
		}
		if fn == "tv" {
			tvText = first
		}
	}
	for i, p := range c.list("perms") {
		c.T.exec(1)
		b, err := formats["tv"].bytes(docFrom(v, p))
		if err != nil || !bytes.Equal(b, tvText) {
			out = append(out, bad("order", "%s: the tag-value text depends on the order of the lists (permutation %d): %s", c.str("label"), i, firstDiff(tvText, b)))
		}
	}
	return
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		lo, hi := i-20, i+30
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			lo = hi
		}
		return string(x[lo:hi])
	}
	return fmt.Sprintf("at byte %d %q / %q", i, cut(a), cut(b))
}

func runConvert(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	src := docFrom(v, c.M["doc"])
	for _, ptr := range []bool{true, false} {
		before := snapshot(src)
		var cur common.AnyDocument = src
		if !ptr {
			cur = deref(src)
		}
		last := v
		for _, w := range c.list("path") {
			c.T.exec(1)
			to := newDoc(int(w.(float64)))
			if err := convert.Document(cur, to); err != nil {
				return append(out, bad("error", "%s: conversion fails: %v", c.str("label"), err))
			}
			cur, last = to, int(w.(float64))
		}
		if df := diff("Document", abstractDoc(cur), normDoc(c.M["want"])); df != "" {
			out = append(out, bad("convert", "%s: %s", c.str("label"), df))
		}
		if at := inventedPart(reflect.ValueOf(cur), "Document"); at != "" {
			out = append(out, bad("invented", "%s: conversion makes an empty %s that the source does not have", c.str("label"), at))
		}
		if snapshot(src) != before {
			out = append(out, bad("source", "%s: conversion to %d changes its source", c.str("label"), last))
		}
	}
	return
}

// inventedPart finds an optional part that is there but empty.
func inventedPart(v reflect.Value, path string) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return ""
		}
		return inventedPart(v.Elem(), path)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if at := inventedPart(v.Index(i), fmt.Sprintf("%s[%d]", path, i)); at != "" {
				return at
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f, name := v.Field(i), v.Type().Field(i).Name
			if f.Kind() == reflect.Ptr && name != "CreationInfo" && !f.IsNil() && f.Elem().IsZero() {
				return path + "." + name
			}
			if at := inventedPart(f, path+"."+name); at != "" {
				return at
			}
		}
	}
	return ""
}

// runCross takes a document through a chain of formats.
func runCross(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	var cur common.AnyDocument = docFrom(v, c.M["doc"])
	for _, fn := range c.strs("chain") {
		c.T.exec(1)
		f := formats[fn]
		text, err := f.bytes(cur)
		if err != nil {
			return append(out, bad("write", "%s: %s: writing fails: %s", c.str("label"), f.name, clip(err.Error())))
		}
		next := newDoc(v)
		if err := f.read(bytes.NewReader(text), next); err != nil {
			return append(out, bad("reread", "%s: %v: what was written as %s cannot be read: %s", c.str("label"), c.strs("chain"), f.name, clip(err.Error())))
		}
		cur = next
	}
	if df := diff("Document", stripAnalyzedTag(abstractDoc(cur)), normDoc(c.M["want"])); df != "" {
		out = append(out, bad("cross", "%s: through %v: %s", c.str("label"), c.strs("chain"), df))
	}
	return
}
