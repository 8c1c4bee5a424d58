package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/common"
	v2common "github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/yaml"
)

func init() {
	handlers["decode"] = runDecode
	handlers["decoderaw"] = runDecodeRaw
	handlers["encode"] = runEncode
	handlers["rels"] = runRels
}

// escaped writes s as a JSON string of nothing but \u escapes.
func escaped(s string) []byte {
	var b strings.Builder
	b.WriteByte('"')
	for _, u := range utf16.Encode([]rune(s)) {
		fmt.Fprintf(&b, `\u%04x`, u)
	}
	b.WriteByte('"')
	return []byte(b.String())
}

func newIdent(kind string) any {
	switch kind {
	case "element":
		return new(v2common.ElementID)
	case "document":
		return new(v2common.DocumentID)
	case "docelem":
		return new(v2common.DocElementID)
	case "creator":
		return new(v2common.Creator)
	case "annotator":
		return new(v2common.Annotator)
	case "supplier":
		return new(v2common.Supplier)
	case "originator":
		return new(v2common.Originator)
	}
	panic(harnessErrorf("no kind %q", kind))
}

// identValue makes the value that the specification describes.
func identValue(kind string, v any) any {
	p := newIdent(kind)
	e := reflect.ValueOf(p).Elem()
	switch {
	case e.Kind() == reflect.String:
		e.SetString(v.(string))
	case kind == "docelem":
		fromAbstract(e, v, "DocElementID")
	default: // actors: the name is the first field, the type the second
		m := toObj(v)
		e.Field(0).SetString(m["name"].(string))
		e.Field(1).SetString(m["type"].(string))
	}
	return p
}

func runDecode(c *Case) (out []Mismatch) {
	s := c.str("text")
	return decodeAs(c, map[string][]byte{"plain": bytes.TrimSpace(toJSON(s)), "escaped": escaped(s)})
}

func runDecodeRaw(c *Case) (out []Mismatch) {
	return decodeAs(c, map[string][]byte{"raw": []byte(c.str("text"))})
}

func decodeAs(c *Case, texts map[string][]byte) (out []Mismatch) {
	kind := c.str("kind")
	c.T.label(c.str("label"))
	want := c.obj("want")
	var how []string
	for h := range texts {
		how = append(how, h)
	}
	sort.Strings(how)
	for _, h := range how {
		c.T.exec(1)
		p := newIdent(kind)
		err := stdjson.Unmarshal(texts[h], p)
		if _, any := want["any"]; any {
			continue
		}
		if _, isErr := want["err"]; isErr {
			if err == nil {
				out = append(out, bad("accepted", "%s: %s (%s) is no encoding but decodes to %+v", c.str("label"), texts[h], h, reflect.ValueOf(p).Elem().Interface()))
			}
			continue
		}
		if err != nil {
			out = append(out, bad("rejected", "%s: %s (%s) is rejected: %s", c.str("label"), texts[h], h, clip(err.Error())))
		} else if w := identValue(kind, want["ok"]); !reflect.DeepEqual(p, w) {
			out = append(out, bad("value", "%s: %s (%s) decodes to %q", c.str("label"), texts[h], h, fmt.Sprintf("%+v", reflect.ValueOf(p).Elem().Interface())))
		}
	}
	return
}

func runEncode(c *Case) (out []Mismatch) {
	kind := c.str("kind")
	c.T.label(c.str("label"))
	p := identValue(kind, c.M["value"])
	for _, x := range []any{p, reflect.ValueOf(p).Elem().Interface(), []any{p}} {
		c.T.exec(1)
		b, err := stdjson.Marshal(x)
		if err != nil {
			return append(out, bad("encode", "%s: %+v cannot be encoded: %s", c.str("label"), x, clip(err.Error())))
		}
		if reflect.TypeOf(x).Kind() == reflect.Slice {
			b = b[1 : len(b)-1]
		}
		var s string
		if err := stdjson.Unmarshal(b, &s); err != nil || s != c.str("want") {
			out = append(out, bad("encoded", "%s: %q encodes to %s, want %q", c.str("label"), fmt.Sprintf("%+v", x), b, c.str("want")))
			continue
		}
		q := newIdent(kind)
		if err := stdjson.Unmarshal(b, q); err != nil {
			out = append(out, bad("back", "%s: %s cannot be decoded: %s", c.str("label"), b, clip(err.Error())))
		} else if c.boolean("back") && !reflect.DeepEqual(p, q) {
			out = append(out, bad("back", "%s: %s decodes to %q", c.str("label"), b, fmt.Sprintf("%+v", reflect.ValueOf(q).Elem().Interface())))
		}
	}
	return
}

// reversedJSON writes a tree with the keys of every object in reverse order.
func reversedJSON(v any) string {
	switch x := v.(type) {
	case map[string]any:
		var ks, parts []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		for _, k := range ks {
			parts = append(parts, string(bytes.TrimSpace(toJSON(k)))+" : "+reversedJSON(x[k]))
		}
		return "{\n" + strings.Join(parts, " ,\n") + "}"
	case []any:
		var parts []string
		for _, e := range x {
			parts = append(parts, reversedJSON(e))
		}
		return "[ " + strings.Join(parts, " , ") + " ]"
	}
	return strings.TrimSpace(string(toJSON(v)))
}

// runRels reads a document with short forms and looks at its relationships.
func runRels(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("v")
	want := c.obj("want")
	kept, _ := normDoc(want["kept"]).([]any)
	derived, _ := normDoc(want["derived"]).([]any)
	judge := func(how string, d common.AnyDocument, err error) {
		c.T.exec(1)
		if err != nil {
			out = append(out, bad("rejected", "%s %s: rejected: %s", c.str("label"), how, clip(err.Error())))
			return
		}
		got, _ := toObj(abstractDoc(d))["Relationships"].([]any)
		if n := reflect.Indirect(reflect.ValueOf(d)).FieldByName("Relationships").Len(); n != len(got) {
			out = append(out, bad("null", "%s %s: null relationships are left", c.str("label"), how))
			return
		}
		if len(got) < len(kept) {
			out = append(out, bad("lost", "%s %s: %d relationships, %d were given", c.str("label"), how, len(got), len(kept)))
			return
		}
		for i := range kept {
			if df := diff(fmt.Sprintf("Relationships[%d]", i), got[i], kept[i]); df != "" {
				out = append(out, bad("explicit", "%s %s: an explicit relationship is not kept: %s", c.str("label"), how, df))
				return
			}
		}
		rest := func(l []any) (s []string) {
			for _, x := range l {
				s = append(s, strings.TrimSpace(string(toJSON(x))))
			}
			sort.Strings(s)
			return
		}
		if g, w := rest(got[len(kept):]), rest(derived); !reflect.DeepEqual(g, w) {
			out = append(out, bad("derived", "%s %s: derived %v, want %v", c.str("label"), how, g, w))
		}
	}
	for how, text := range map[string]string{"JSON": string(toJSON(c.M["tree"])), "JSON in another order": reversedJSON(c.M["tree"])} {
		d := newDoc(v)
		err := json.ReadInto(strings.NewReader(text), d)
		judge(how, d, err)
		if err == nil {
			// writing the document out does not bring the short forms back
			var b bytes.Buffer
			if err := json.Write(d, &b); err == nil {
				d2 := newDoc(v)
				err := json.ReadInto(&b, d2)
				judge(how+", written and read again", d2, err)
			}
		}
	}
	var yb strings.Builder
	emitYAML(&yb, c.M["tree"], 0, true)
	d := newDoc(v)
	err := yaml.ReadInto(strings.NewReader(yb.String()), d)
	judge("YAML", d, err)
	return
}
