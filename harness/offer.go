package main

import (
	"bytes"
	"errors"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
)

func init() { handlers["offer"] = runOffer }

type documentLike v2_3.Document

// offered makes what is offered for writing.
func offered(kind, text string) any {
	switch kind {
	case "v21":
		return v2_1.Document{SPDXVersion: v2_1.Version, DocumentName: text, CreationInfo: &v2_1.CreationInfo{}}
	case "v22":
		return v2_2.Document{SPDXVersion: v2_2.Version, DocumentName: text, CreationInfo: &v2_2.CreationInfo{}}
	case "v23":
		return v2_3.Document{SPDXVersion: v2_3.Version, DocumentName: text, CreationInfo: &v2_3.CreationInfo{}}
	case "string":
		return text
	case "int":
		return len(text)
	case "map":
		return map[string]string{"SPDXVersion": text}
	case "slice":
		return []string{text}
	case "package21":
		return v2_1.Package{PackageName: text}
	case "package22":
		return v2_2.Package{PackageName: text}
	case "package23":
		return v2_3.Package{PackageName: text}
	case "file":
		return v2_3.File{FileName: text}
	case "snippet":
		return v2_2.Snippet{SnippetName: text}
	case "document-like":
		return documentLike{DocumentName: text}
	case "document in a struct":
		return struct{ D v2_3.Document }{v2_3.Document{DocumentName: text}}
	case "list of documents":
		return []v2_2.Document{{DocumentName: text}}
	case "map of documents":
		return map[string]v2_1.Document{text: {}}
	case "function":
		return func() string { return text }
	case "error":
		return errors.New(text)
	}
	panic(harnessErrorf("no kind %q", kind))
}

// offeredTo makes a destination to convert into, and a copy of what it holds.
func offeredTo(to string) (dest, before any) {
	mk := func() any {
		switch to {
		case "v21":
			return &v2_1.Document{}
		case "v22":
			return &v2_2.Document{}
		case "v23":
			return &v2_3.Document{}
		case "v21 held":
			return &v2_1.Document{DocumentName: "held", Packages: []*v2_1.Package{{PackageName: "held"}}}
		case "v22 held":
			return &v2_2.Document{DocumentName: "held", Packages: []*v2_2.Package{{PackageName: "held"}}}
		case "v23 held":
			return &v2_3.Document{DocumentName: "held", Packages: []*v2_3.Package{{PackageName: "held"}}}
		case "a value":
			return v2_3.Document{DocumentName: "held"}
		case "a nil pointer":
			return (*v2_2.Document)(nil)
		case "nothing":
			return nil
		case "a pointer to a number":
			n := 7
			return &n
		case "a pointer to a pointer":
			p := &v2_2.Document{DocumentName: "held"}
			return &p
		case "a pointer to a part":
			return &v2_3.CreationInfo{CreatorComment: "held"}
		case "a pointer to anything":
			var a any = v2_3.Document{DocumentName: "held"}
			return &a
		case "a map":
			return map[string]any{"SPDXVersion": "held"}
		case "a text":
			return "held"
		}
		panic(harnessErrorf("no destination %q", to))
	}
	return mk(), mk()
}

func versionOf(doc any) string {
	switch d := doc.(type) {
	case *v2_1.Document:
		return d.SPDXVersion
	case *v2_2.Document:
		return d.SPDXVersion
	case *v2_3.Document:
		return d.SPDXVersion
	}
	return ""
}

func nameOf(doc any) string {
	switch d := doc.(type) {
	case *v2_1.Document:
		return d.DocumentName
	case *v2_2.Document:
		return d.DocumentName
	case *v2_3.Document:
		return d.DocumentName
	}
	return ""
}

func runOffer(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	text := strings.Repeat(c.str("unit"), c.num("n"))
	v := offered(c.str("kind"), text)
	for i := 0; i < c.num("ptrs"); i++ {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		v = p.Interface()
	}
	want := c.boolean("want")
	version := map[string]string{"v21": v2_1.Version, "v22": v2_2.Version, "v23": v2_3.Version, "": ""}[c.str("version")]
	if to := c.str("to"); to != "tagvalue" {
		dest, before := offeredTo(to)
		err := convert.Document(v, dest)
		c.T.exec(1)
		switch {
		case want && err != nil:
			out = append(out, bad("refused", "a document is not converted to %s: %v", to, err))
		case want && (versionOf(dest) != version || nameOf(dest) != text):
			out = append(out, bad("converted", "a document converted to %s has version %q, name %q", to, versionOf(dest), clip(nameOf(dest))))
		case !want && err == nil:
			out = append(out, bad("accepted", "%s is converted to %s without an error", c.str("kind"), to))
		case !want && !reflect.DeepEqual(dest, before):
			out = append(out, bad("accepted", "%s is not converted to %s, but something is stored: %v", c.str("kind"), to, err))
		}
		return out
	}
	var b bytes.Buffer
	err := tagvalue.Write(v, &b)
	c.T.exec(1)
	switch {
	case want && err != nil:
		out = append(out, bad("refused", "a document is not written: %v", err))
	case want && !strings.HasPrefix(b.String(), "SPDXVersion: "+version+"\n"):
		out = append(out, bad("version", "a document of version %s is written as %q", version, clip(b.String())))
	case !want && err == nil:
		out = append(out, bad("accepted", "%s is written without an error", c.str("kind")))
	case !want && b.Len() > 0:
		out = append(out, bad("accepted", "%s is written, and then refused: %v", c.str("kind"), err))
	}
	return out
}
