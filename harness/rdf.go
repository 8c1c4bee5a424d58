package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/rdf"
)

func init() { handlers["rdf"] = runRdf }

// sortLists puts every list into an order that depends only on its entries:
// RDF has none.
func sortLists(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			x[k] = sortLists(x[k])
		}
	case []any:
		keys := map[int]string{}
		for i := range x {
			x[i] = sortLists(x[i])
			b, err := json.Marshal(x[i])
			if err != nil {
				panic(harnessErrorf("%v", err))
			}
			keys[i] = string(b)
		}
		ix := make([]int, len(x))
		for i := range ix {
			ix[i] = i
		}
		sort.SliceStable(ix, func(a, b int) bool { return keys[ix[a]] < keys[ix[b]] })
		out := make([]any, len(x))
		for i, j := range ix {
			out[i] = x[j]
		}
		return out
	}
	return v
}

// runRdf reads one text several times, because the reader takes the
// statements of a node in a different order each time.
func runRdf(c *Case) (out []Mismatch) {
	v, text := c.num("v"), c.str("text")
	var want any
	if c.M["ok"].(bool) {
		want = sortLists(normDoc(c.M["want"]))
	}
	for i := 0; i < 3; i++ {
		d := newDoc(v)
		c.T.exec(1)
		err := rdf.ReadInto(strings.NewReader(text), d)
		switch {
		case want == nil && err == nil:
			return append(out, bad("accepted", "a document that is not in order was read without an error (%s)", c.str("note")))
		case want == nil:
		case err != nil:
			return append(out, bad("rejected", "%s", clip(err.Error())))
		default:
			if df := diff("Document", sortLists(abstractDoc(d)), want); df != "" {
				return append(out, bad("graph", "%s", df))
			}
		}
	}
	if want == nil {
		return
	}
	// reading into the other versions, in place of the document that was there
	for _, w := range []int{22, 23} {
		if w == v {
			continue
		}
		d := newDoc(w)
		c.T.exec(1)
		if err := rdf.ReadInto(strings.NewReader(text), d); err != nil {
			return append(out, bad("rejected", "read as %d: %s", w, clip(err.Error())))
		}
	}
	return
}

func init() { handlers["rdf licence"] = runRdfLicence }

// alternatives reads a licence expression as its ways of satisfying it, each
// the sorted licences to comply with: AND binds more tightly than OR, WITH more
// tightly than both.
type licenceParser struct {
	tok []string
	err error
}

func (p *licenceParser) next() string {
	if len(p.tok) == 0 {
		return ""
	}
	t := p.tok[0]
	p.tok = p.tok[1:]
	return t
}

func (p *licenceParser) is(op string) bool {
	if len(p.tok) > 0 && p.tok[0] == op {
		p.next()
		return true
	}
	return false
}

func (p *licenceParser) or() map[string][]string {
	out := p.and()
	for p.is("OR") {
		for k, a := range p.and() {
			out[k] = a
		}
	}
	return out
}

func (p *licenceParser) and() map[string][]string {
	out := p.one()
	for p.is("AND") {
		next := map[string][]string{}
		right := p.one()
		for _, a := range out {
			for _, b := range right {
				addAlternative(next, append(append([]string{}, a...), b...))
			}
		}
		out = next
	}
	return out
}

func (p *licenceParser) one() map[string][]string {
	out := map[string][]string{}
	if p.is("(") {
		out = p.or()
		if !p.is(")") {
			p.err = fmt.Errorf("a bracket is not closed")
		}
		return out
	}
	t := p.next()
	if t == "" || t == ")" || t == "AND" || t == "OR" || t == "WITH" {
		p.err = fmt.Errorf("there is no licence where one is needed")
		return out
	}
	if p.is("WITH") {
		t += " WITH " + p.next()
	}
	addAlternative(out, []string{t})
	return out
}

func addAlternative(to map[string][]string, a []string) {
	sort.Strings(a)
	u := a[:0]
	for i, l := range a {
		if i == 0 || l != a[i-1] {
			u = append(u, l)
		}
	}
	to[strings.Join(u, " & ")] = u
}

func alternatives(expr string) (string, error) {
	expr = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(expr)
	p := &licenceParser{tok: strings.Fields(expr)}
	m := p.or()
	if p.err == nil && len(p.tok) > 0 {
		p.err = fmt.Errorf("%q is left over", p.tok[0])
	}
	return joinKeys(m), p.err
}

func joinKeys(m map[string][]string) string {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return strings.Join(keys, " | ")
}

// licenceAt finds the licences the document has in a field of the element.
func licenceAt(d any, id, field string) ([]string, error) {
	doc := reflect.ValueOf(d).Elem()
	var of reflect.Value
	get := func(list, idField string) {
		for i := 0; i < doc.FieldByName(list).Len() && !of.IsValid(); i++ {
			e := doc.FieldByName(list).Index(i).Elem()
			if e.FieldByName(idField).String() == id {
				of = e
			}
		}
	}
	switch id {
	case "DOCUMENT":
		of = doc
	case "p1":
		get("Packages", "PackageSPDXIdentifier")
	default:
		if doc.FieldByName("Packages").Len() == 0 {
			break
		}
		files := doc.FieldByName("Packages").Index(0).Elem().FieldByName("Files")
		if files.Len() == 0 {
			break
		}
		file := files.Index(0).Elem()
		if id == "f1" {
			of = file
		} else if m := file.FieldByName("Snippets"); m.Len() == 1 {
			of = m.MapIndex(m.MapKeys()[0]).Elem()
		}
	}
	if !of.IsValid() {
		return nil, fmt.Errorf("element %s is not there", id)
	}
	f := of.FieldByName(field)
	if f.Kind() == reflect.String {
		return []string{f.String()}, nil
	}
	out := []string{}
	for i := 0; i < f.Len(); i++ {
		out = append(out, f.Index(i).String())
	}
	return out, nil
}

func runRdfLicence(c *Case) (out []Mismatch) {
	v, text, field := c.num("v"), c.str("text"), c.str("field")
	want := []string{}
	for _, l := range c.list("want") {
		m := map[string][]string{}
		for _, a := range l.([]any) {
			s := []string{}
			for _, x := range a.([]any) {
				s = append(s, x.(string))
			}
			addAlternative(m, s)
		}
		want = append(want, joinKeys(m))
	}
	sort.Strings(want)
	extracted := []string{}
	for _, x := range c.list("extracted") {
		extracted = append(extracted, x.(string))
	}
	sort.Strings(extracted)
	for i := 0; i < 3; i++ {
		d := newDoc(v)
		c.T.exec(1)
		err := rdf.ReadInto(strings.NewReader(text), d)
		if !c.M["ok"].(bool) {
			if err == nil {
				return append(out, bad("accepted", "%s: a licence that is not in order was read without an error", c.str("note")))
			}
			continue
		}
		if err != nil && c.M["mixed"].(bool) {
			continue
		}
		if err != nil {
			return append(out, bad("rejected", "%s: %s", c.str("place"), clip(err.Error())))
		}
		exprs, err := licenceAt(d, c.str("s"), field)
		if err != nil {
			return append(out, bad("lost", "%s", err))
		}
		got := []string{}
		for _, e := range exprs {
			a, err := alternatives(e)
			if err != nil {
				return append(out, bad("expression", "%s: %q is not a licence expression: %v", c.str("place"), e, err))
			}
			got = append(got, a)
		}
		sort.Strings(got)
		if !reflect.DeepEqual(got, want) {
			return append(out, bad("meaning", "%s: the expressions %q mean %q, not %q", c.str("place"), exprs, got, want))
		}
		ids := []string{}
		other := reflect.ValueOf(d).Elem().FieldByName("OtherLicenses")
		for j := 0; j < other.Len(); j++ {
			ids = append(ids, other.Index(j).Elem().FieldByName("LicenseIdentifier").String())
		}
		sort.Strings(ids)
		if !reflect.DeepEqual(ids, extracted) {
			return append(out, bad("extracted", "the document lists the licences %q, not %q", ids, extracted))
		}
	}
	return
}
