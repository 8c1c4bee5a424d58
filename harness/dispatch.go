package main

import (
	"io"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"
)

func init() {
	handlers["dispatch"] = runDispatch
	formats["rdf"] = format{name: "RDF", read: readers["rdf"]}
}

var readers = map[string]func(r io.Reader, d any) error{
	"tv":   func(r io.Reader, d any) error { return tagvalue.ReadInto(r, d) },
	"json": func(r io.Reader, d any) error { return json.ReadInto(r, d) },
	"yaml": func(r io.Reader, d any) error { return yaml.ReadInto(r, d) },
	"rdf":  func(r io.Reader, d any) error { return rdf.ReadInto(r, d) },
}

var defaultReaders = map[string]func(r io.Reader) (*spdx.Document, error){
	"tv": tagvalue.Read, "json": json.Read, "yaml": yaml.Read, "rdf": rdf.Read,
}

// prior is what a destination holds before it is read into: something in
// every field.
func priorDoc(v int) any {
	d := newDoc(v)
	fill(reflect.ValueOf(d).Elem(), 0)
	return d
}

func fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 3, 5)
		for i := 0; i < 3; i++ {
			fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		fill(k, depth+1)
		fill(e, depth+1)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.String:
		v.SetString("before")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int:
		v.SetInt(77)
	}
}

// destinations that are not documents to read into
func badDest(name string) any {
	d1, d2, d3 := &v2_1.Document{}, &v2_2.Document{}, &v2_3.Document{}
	var n1 *v2_1.Document
	var n3 *v2_3.Document
	var nn3 **v2_3.Document
	var a any
	b := any(d3)
	switch name {
	case "nil":
		return nil
	case "v22":
		return *d2
	case "v23":
		return *d3
	case "nil *v21":
		return n1
	case "nil *v23":
		return n3
	case "**v22":
		return &d2
	case "**v23":
		return &d3
	case "nil **v23":
		return nn3
	case "*any":
		return &a
	case "*any v23":
		return &b
	case "*int":
		return new(int)
	case "*string":
		return new(string)
	case "*package":
		return &spdx.Package{}
	case "*file":
		return &v2_1.File{}
	case "*struct":
		return &struct{ SPDXVersion string }{}
	case "struct":
		return struct{ SPDXVersion string }{}
	case "map":
		return map[string]any{}
	case "*map":
		return &map[string]any{}
	case "*slice":
		return &[]*spdx.Document{d3}
	case "string":
		return "SPDX-2.3"
	case "func":
		return func() {}
	case "chan":
		return make(chan int)
	}
	_ = d1
	panic(harnessErrorf("no destination %q", name))
}

func runDispatch(c *Case) (out []Mismatch) {
	c.T.label(c.str("f") + " -> " + c.str("to"))
	read, text := readers[c.str("f")], c.str("text")
	_, wantErr := c.obj("want")["err"]
	label := c.str("label")
	c.T.exec(1)
	if !strings.HasPrefix(c.str("to"), "*v2") {
		d := badDest(c.str("to"))
		if err := read(strings.NewReader(text), d); err == nil {
			out = append(out, bad("destination", "%s: no error", label))
		}
		return
	}
	v := 20 + int(c.str("to")[3]-'0')
	d := newDoc(v)
	if c.str("prior") == "full" {
		d = priorDoc(v)
	}
	before := toAbstract(reflect.ValueOf(d).Elem(), true)
	err := read(strings.NewReader(text), d)
	if wantErr {
		if err == nil {
			return append(out, bad("accepted", "%s: no error", label))
		}
		if df := diff("Document", toAbstract(reflect.ValueOf(d).Elem(), true), before); df != "" {
			out = append(out, bad("stored", "%s: the read failed (%s) but changed the destination: %s", label, clip(err.Error()), df))
		}
	} else if err != nil {
		return append(out, bad("rejected", "%s: %s", label, clip(err.Error())))
	} else if df := diff("Document", abstractDoc(d), normDoc(c.obj("want")["doc"])); df != "" {
		out = append(out, bad("document", "%s: %s", label, df))
	}
	// Read is ReadInto a document of the latest version
	if v == 23 && c.str("prior") == "empty" {
		c.T.exec(1)
		r, err := defaultReaders[c.str("f")](strings.NewReader(text))
		if (err != nil) != wantErr {
			out = append(out, bad("read", "%s: Read returns error %v", label, err))
		} else if err == nil {
			if df := diff("Document", abstractDoc(r), normDoc(c.obj("want")["doc"])); df != "" {
				out = append(out, bad("read", "%s: Read: %s", label, df))
			}
		}
	}
	return
}
