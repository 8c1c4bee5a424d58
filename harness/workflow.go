package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"time"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/spdxlib"
)

func init() { handlers["workflow"] = runWorkflow }

var legalID = regexp.MustCompile(`^[A-Za-z0-9.-]+$`)

// makeDocument makes a document from a directory with the given files.
func makeDocument(how, name string, files []any, conf map[string]any) (*spdx.Document, error) {
	dir := mustTemp()
	defer os.RemoveAll(dir)
	for _, x := range files {
		m := toObj(x)
		f := filepath.Join(dir, m["path"].(string))
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		text := "of " + m["path"].(string) + "\n"
		if tag := m["tag"].(string); tag != "" {
			text = "// SPDX-License-Identifier: " + tag + "\n" + text
		}
		must(os.WriteFile(f, []byte(text), 0o644))
	}
	if how == "build" {
		cfg := &builder.Config{NamespacePrefix: conf["prefix"].(string), CreatorType: conf["type"].(string), Creator: conf["creator"].(string)}
		if at := conf["at"].(string); at != "" {
			cfg.TestValues = map[string]string{"Created": at}
		}
		return builder.Build(name, dir, cfg)
	}
	return idsearcher.BuildIDsDocument(name, dir, &idsearcher.Config{NamespacePrefix: conf["prefix"].(string)})
}

// comparable document: the order of its files, and the version, do not matter.
func canonical(d common.AnyDocument) map[string]any {
	m := toObj(stripAnalyzedTag(abstractDoc(d)))
	delete(m, "SPDXVersion")
	if l, ok := m["Packages"].([]any); ok {
		for _, p := range l {
			if fs, ok := toObj(p)["Files"].([]any); ok {
				sort.Slice(fs, func(i, j int) bool {
					return toObj(fs[i])["FileSPDXIdentifier"].(string) < toObj(fs[j])["FileSPDXIdentifier"].(string)
				})
			}
		}
	}
	return m
}

func runWorkflow(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	name, want := c.str("name"), c.obj("want")
	conf := c.obj("conf")
	began := time.Now().Truncate(time.Second)
	first, err := makeDocument(c.str("how"), name, c.list("tree"), conf)
	ended := time.Now()
	if err != nil {
		return []Mismatch{bad("make", "%s: %v", c.str("how"), err)}
	}
	other, err := makeDocument(c.str("how"), name, c.list("other"), conf)
	if err != nil {
		return []Mismatch{bad("make", "%s: %v", c.str("how"), err)}
	}
	c.T.exec(2)
	var cur common.AnyDocument = first
	ver, start := 23, canonical(first)
	for _, op := range c.strs("ops") {
		c.T.exec(1)
		how, to := op, ver
		if n := len(op) - 2; n > 0 && op[n] == '2' {
			how, to = op[:n], map[string]int{"21": 21, "22": 22, "23": 23}[op[n:]]
		}
		next := newDoc(to)
		if how == "to" {
			err = convert.Document(cur, next)
		} else {
			f := formats[how]
			var b []byte
			if b, err = f.bytes(cur); err == nil {
				err = f.read(bytes.NewReader(b), next)
			}
		}
		if err != nil {
			return append(out, bad("step", "%q, %v, at %s: %v", name, c.strs("ops"), op, err))
		}
		cur, ver = next, to
		if d := diff("Document", canonical(cur), start); d != "" {
			return append(out, bad("changed", "%q, %v, at %s: %s", name, c.strs("ops"), op, d))
		}
	}
	if v := reflect.ValueOf(cur).Elem().FieldByName("SPDXVersion").String(); verOf(v) != int(want["ver"].(float64)) {
		out = append(out, bad("version", "after %v the version is %q", c.strs("ops"), v))
	}
	doc := &spdx.Document{}
	if err := convert.Document(cur, doc); err != nil {
		return append(out, bad("step", "the last conversion: %v", err))
	}
	if len(doc.Packages) != 1 || len(doc.Files) != 0 {
		return append(out, bad("package", "%d packages, %d unpackaged files", len(doc.Packages), len(doc.Files)))
	}
	pkg := doc.Packages[0]
	if pkg.PackageName != name || doc.DocumentName != name {
		out = append(out, bad("package", "the package is %q of document %q, want %q", pkg.PackageName, doc.DocumentName, name))
	}
	// who made it, and when
	if ci := doc.CreationInfo; ci == nil {
		out = append(out, bad("made", "no creation info"))
	} else {
		var got, wants []string
		for _, x := range ci.Creators {
			got = append(got, x.CreatorType+": "+x.Creator)
		}
		wl, _ := want["creators"].([]any)
		for _, x := range wl {
			wants = append(wants, toObj(x)["type"].(string)+": "+toObj(x)["creator"].(string))
		}
		if d := diffSets(got, wants); d != "" {
			out = append(out, bad("made", "made for a %q: creators %s", conf["type"], d))
		}
		at, err := time.Parse("2006-01-02T15:04:05Z", ci.Created)
		if w := want["created"].(string); w != "" {
			if ci.Created != w {
				out = append(out, bad("made", "created %q, want %q", ci.Created, w))
			}
		} else if err != nil || at.Before(began) || at.After(ended) {
			out = append(out, bad("made", "created %q, want a time of %v to %v", ci.Created, began.UTC(), ended.UTC()))
		}
	}
	// the namespace is the prefix, the name and the verification code
	if pvc := pkg.PackageVerificationCode; pvc == nil {
		out = append(out, bad("namespace", "the package has no verification code"))
	} else if ns, w := doc.DocumentNamespace, conf["prefix"].(string)+name+"-"+pvc.Value; ns != w {
		m := bad("namespace", "the namespace is %q, want %q", ns, w)
		if ns == conf["prefix"].(string)+name+"-{"+pvc.Value+" []}" {
			m.Key = "builder-namespace-braces"
		}
		out = append(out, m)
	}
	// identifiers, references and validity
	if !legalID.MatchString(string(pkg.PackageSPDXIdentifier)) {
		out = append(out, bad("identifier", "the package %q is identified as %q", name, pkg.PackageSPDXIdentifier))
	}
	if err := spdxlib.ValidateDocument(doc); err != nil {
		out = append(out, bad("valid", "ValidateDocument: %v", err))
	}
	if ids, err := spdxlib.GetDescribedPackageIDs(doc); err != nil || len(ids) != 1 || ids[0] != pkg.PackageSPDXIdentifier {
		out = append(out, bad("described", "described are %v, %v; want %q", ids, err, pkg.PackageSPDXIdentifier))
	}
	n := 0
	for _, r := range doc.Relationships {
		if r.Relationship == "DESCRIBES" && r.RefA.ElementRefID == "DOCUMENT" && r.RefB.ElementRefID == pkg.PackageSPDXIdentifier {
			n++
		}
	}
	if n != 1 {
		out = append(out, bad("described", "the document describes its package %d times", n))
	}
	// files
	var got, wants []string
	wl, _ := want["files"].([]any)
	for _, x := range wl {
		m := toObj(x)
		wants = append(wants, m["path"].(string)+" "+m["lic"].(string))
	}
	for _, f := range pkg.Files {
		got = append(got, f.FileName+" "+f.LicenseConcluded)
		if !legalID.MatchString(string(f.FileSPDXIdentifier)) {
			out = append(out, bad("identifier", "the file %q is identified as %q", f.FileName, f.FileSPDXIdentifier))
		}
	}
	if d := diffSets(got, wants); d != "" {
		out = append(out, bad("files", "files and licences: %s", d))
	}
	// the report
	rep := toObj(want["report"])
	var b bytes.Buffer
	if err := reporter.Generate(pkg, &b); err != nil {
		out = append(out, bad("report", "Generate: %v", err))
	} else if found, missing, _, _, counts, err := parseReport(b.String()); err != nil {
		out = append(out, bad("report", "%v", err))
	} else {
		var g, w []string
		for _, x := range counts {
			g = append(g, strconv.Itoa(x.n)+" "+x.lic)
		}
		cl, _ := rep["counts"].([]any)
		for _, x := range cl {
			m := toObj(x)
			w = append(w, fmt.Sprintf("%d %s", int(m["n"].(float64)), m["lic"]))
		}
		if d := diffSets(g, w); d != "" || found != int(rep["found"].(float64)) || missing != int(rep["missing"].(float64)) {
			out = append(out, bad("report", "found %d, missing %d, %s; want %v", found, missing, d, rep))
		}
	}
	// the difference from a document made of another state of the directory
	pairs, err := licensediff.MakePairs(pkg, other.Packages[0])
	if err != nil {
		return append(out, bad("diff", "MakePairs: %v", err))
	}
	res, err := licensediff.MakeResults(pairs)
	if err != nil {
		return append(out, bad("diff", "MakeResults: %v", err))
	}
	wd := toObj(want["diff"])
	for class, m := range map[string]any{"first": res.InFirstOnly, "second": res.InSecondOnly, "same": res.InBothSame, "changed": res.InBothChanged} {
		var g []string
		for _, k := range reflect.ValueOf(m).MapKeys() {
			g = append(g, k.String())
		}
		if d := diffSets(g, toStrs(wd[class])); d != "" {
			out = append(out, bad("diff", "%s: %s", class, d))
		}
	}
	return
}
