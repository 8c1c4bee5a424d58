package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
)

func init() {
	handlers["idsearch"] = runIdSearch
	handlers["licdiff"] = runLicDiff
	handlers["report"] = runReport
	handlers["lib"] = runLib
}

// ---------------------------------------------------------------- C19

func runIdSearch(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	dir := mustTemp()
	defer os.RemoveAll(dir)
	for _, x := range c.list("files") {
		m := toObj(x)
		f := filepath.Join(dir, m["path"].(string))
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		eol := m["eol"].(string)
		text := strings.Join(toStrs(m["lines"]), eol)
		if m["last"].(bool) && text != "" {
			text += eol
		}
		must(os.WriteFile(f, []byte(text), 0o644))
	}
	want := c.obj("want")
	c.T.exec(1)
	doc, err := idsearcher.BuildIDsDocument("pkg", dir, &idsearcher.Config{NamespacePrefix: "n", SearcherPathsIgnored: c.strs("pats")})
	if err != nil {
		return []Mismatch{bad("search", "BuildIDsDocument: %v", err)}
	}
	for _, x := range doc.CreationInfo.Creators {
		if x.CreatorType != "Person" && x.CreatorType != "Organization" && x.CreatorType != "Tool" {
			out = append(out, bad("creator", "a creator of type %q", x.CreatorType))
		}
	}
	if len(doc.Packages) != 1 {
		return []Mismatch{bad("search", "%d packages", len(doc.Packages))}
	}
	got := map[string]*spdx.File{}
	for _, f := range doc.Packages[0].Files {
		got[f.FileName] = f
	}
	wf, _ := want["files"].([]any)
	if len(got) != len(wf) || len(doc.Packages[0].Files) != len(wf) {
		out = append(out, bad("files", "%d files, want %d", len(doc.Packages[0].Files), len(wf)))
	}
	for _, x := range wf {
		m := toObj(x)
		path := m["path"].(string)
		f := got[path]
		if f == nil {
			out = append(out, bad("files", "%q is not listed", path))
			continue
		}
		may := toStrs(m["concluded"])
		ok := false
		for _, w := range may {
			ok = ok || w == f.LicenseConcluded
		}
		if !ok {
			out = append(out, bad("concluded", "%q: concluded %q, want %q", path, f.LicenseConcluded, may))
		}
		if d := diffSets(f.LicenseInfoInFiles, toStrs(m["info"])); d != "" {
			out = append(out, bad("info", "%q: licence information %s", path, d))
		}
	}
	if d := diffSets(doc.Packages[0].PackageLicenseInfoFromFiles, toStrs(want["package"])); d != "" {
		out = append(out, bad("package", "licences from files: %s", d))
	}
	return
}

// ---------------------------------------------------------------- C20

func licPackage(l []any) *spdx.Package {
	p := &spdx.Package{PackageName: "p", FilesAnalyzed: true}
	for i, x := range l {
		m := toObj(x)
		p.Files = append(p.Files, &spdx.File{FileName: m["name"].(string), LicenseConcluded: m["lic"].(string), FileSPDXIdentifier: common.ElementID(fmt.Sprint("F", i)),
			// what else is known of a file makes no difference
			LicenseInfoInFiles: [][]string{{"MIT"}, nil, {"NOASSERTION"}, {"ISC", "Zlib"}, {}}[(i+len(l))%5], LicenseComments: []string{"", "MIT"}[len(l)%2],
			Checksums: []common.Checksum{{Algorithm: common.SHA1, Value: fmt.Sprint("0a", (i+len(l))%3)}}})
	}
	return p
}

func pairOf(v any) licensediff.LicensePair {
	m := toObj(v)
	return licensediff.LicensePair{First: m["first"].(string), Second: m["second"].(string)}
}

func runLicDiff(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	want := c.list("want")
	byClass := make([]map[string]licensediff.LicensePair, 4)
	for i := range byClass {
		byClass[i] = map[string]licensediff.LicensePair{}
		l, _ := want[i].([]any)
		for _, e := range l {
			m := toObj(e)
			byClass[i][m["name"].(string)] = pairOf(m["pair"])
		}
	}
	judge := func(how string, p, q *spdx.Package, w []map[string]licensediff.LicensePair) {
		c.T.exec(2)
		pairs, err := licensediff.MakePairs(p, q)
		if err != nil {
			out = append(out, bad("pairs", "%s: MakePairs: %v", how, err))
			return
		}
		wp := map[string]licensediff.LicensePair{}
		for _, m := range w {
			for k, v := range m {
				wp[k] = v
			}
		}
		if !reflect.DeepEqual(pairs, wp) {
			out = append(out, bad("pairs", "%s: pairs %v, want %v", how, pairs, wp))
		}
		before := fmt.Sprint(pairs)
		d, err := licensediff.MakeResults(pairs)
		if err != nil || d == nil {
			out = append(out, bad("results", "%s: MakeResults: %v", how, err))
			return
		}
		if fmt.Sprint(pairs) != before {
			out = append(out, bad("results", "%s: MakeResults changed the pairs", how))
		}
		half := func(m map[string]licensediff.LicensePair, second bool) map[string]string {
			o := map[string]string{}
			for k, v := range m {
				o[k] = v.First
				if second {
					o[k] = v.Second
				}
			}
			return o
		}
		nonNil := func(m map[string]string) map[string]string {
			if m == nil {
				m = map[string]string{}
			}
			return m
		}
		changed := d.InBothChanged
		if changed == nil {
			changed = map[string]licensediff.LicensePair{}
		}
		if !reflect.DeepEqual(changed, w[0]) {
			out = append(out, bad("results", "%s: changed %v, want %v", how, changed, w[0]))
		}
		for _, x := range []struct {
			name      string
			got, want map[string]string
		}{{"same", d.InBothSame, half(w[1], false)}, {"only in the first", d.InFirstOnly, half(w[2], false)}, {"only in the second", d.InSecondOnly, half(w[3], true)}} {
			if !reflect.DeepEqual(nonNil(x.got), x.want) {
				out = append(out, bad("results", "%s: %s %v, want %v", how, x.name, x.got, x.want))
			}
		}
	}
	one, two := licPackage(c.list("one")), licPackage(c.list("two"))
	judge("plain", one, two, byClass)
	turn := func(m map[string]licensediff.LicensePair) map[string]licensediff.LicensePair {
		o := map[string]licensediff.LicensePair{}
		for k, v := range m {
			o[k] = licensediff.LicensePair{First: v.Second, Second: v.First}
		}
		return o
	}
	judge("swapped", two, one, []map[string]licensediff.LicensePair{turn(byClass[0]), turn(byClass[1]), turn(byClass[3]), turn(byClass[2])})
	same := map[string]licensediff.LicensePair{}
	for _, f := range one.Files {
		same[f.FileName] = licensediff.LicensePair{First: f.LicenseConcluded, Second: f.LicenseConcluded}
	}
	none := map[string]licensediff.LicensePair{}
	judge("itself", one, one, []map[string]licensediff.LicensePair{none, same, none, none})
	if !reflect.DeepEqual(one, licPackage(c.list("one"))) || !reflect.DeepEqual(two, licPackage(c.list("two"))) {
		out = append(out, bad("modified", "a package was changed"))
	}
	return
}

// ---------------------------------------------------------------- C21

var reportLine = regexp.MustCompile(`^ *(\d+)  (.*)$`)

// parseReport reads the report's table back.
func parseReport(text string) (found, missing, total, totalFound int, counts []struct {
	n   int
	lic string
}, err error) {
	lines := strings.Split(text, "\n")
	if len(lines) < 6 || lines[len(lines)-1] != "" || strings.TrimSpace(lines[3]) != "" {
		err = fmt.Errorf("not the shape of a report")
		return
	}
	var nums []int
	var texts []string
	for i, l := range lines[:len(lines)-1] {
		if i == 3 {
			continue
		}
		m := reportLine.FindStringSubmatch(l)
		if m == nil {
			err = fmt.Errorf("line %q", l)
			return
		}
		n, _ := strconv.Atoi(m[1])
		nums, texts = append(nums, n), append(texts, m[2])
	}
	last := len(nums) - 1
	if texts[0] != "License found" || texts[1] != "License not found" || texts[2] != "TOTAL" || texts[last] != "TOTAL FOUND" {
		err = fmt.Errorf("headings %q", texts)
		return
	}
	found, missing, total, totalFound = nums[0], nums[1], nums[2], nums[last]
	for i := 3; i < last; i++ {
		counts = append(counts, struct {
			n   int
			lic string
		}{nums[i], texts[i]})
	}
	return
}

func runReport(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	mk := func() *spdx.Package {
		p := &spdx.Package{PackageName: "p", FilesAnalyzed: c.boolean("analyzed"), IsFilesAnalyzedTagPresent: true}
		for i, l := range c.strs("files") {
			p.Files = append(p.Files, &spdx.File{FileName: fmt.Sprint("f", i), FileSPDXIdentifier: common.ElementID(fmt.Sprint("F", i)), LicenseConcluded: l,
				// what else is known of a file does not count
				LicenseInfoInFiles: [][]string{nil, {"MIT"}, {"NOASSERTION"}, {"ISC", "Zlib"}, {}}[i%5], FileTypes: []string{"SOURCE", "BINARY"}[:i%3],
				LicenseComments: []string{"", "NOASSERTION", "MIT"}[i%3], FileCopyrightText: "NOASSERTION"})
		}
		return p
	}
	pkg := mk()
	want := c.obj("want")
	ok, isOk := want["ok"].(map[string]any)
	var first string
	for i := 0; i < 6; i++ {
		c.T.exec(1)
		var b bytes.Buffer
		err := reporter.Generate(pkg, &b)
		if !isOk {
			if err == nil {
				out = append(out, bad("refuse", "a package whose files were not analysed is not refused"))
			} else if b.Len() > 0 {
				out = append(out, bad("refuse", "a refused package is reported on: %q", b.String()))
			}
			continue
		}
		if err != nil {
			out = append(out, bad("report", "Generate: %v", err))
			return
		}
		if i > 0 {
			if b.String() != first {
				out = append(out, bad("again", "generated again, the report is %q, and was %q", b.String(), first))
				return
			}
			continue
		}
		first = b.String()
		found, missing, total, totalFound, counts, err := parseReport(first)
		if err != nil {
			out = append(out, bad("shape", "%v in %q", err, first))
			return
		}
		if w := []int{int(ok["found"].(float64)), int(ok["missing"].(float64)), int(ok["total"].(float64)), int(ok["found"].(float64))}; !reflect.DeepEqual(w, []int{found, missing, total, totalFound}) {
			out = append(out, bad("totals", "found, missing, total, total found are %v, want %v", []int{found, missing, total, totalFound}, w))
		}
		var g, w []string
		for j, x := range counts {
			g = append(g, fmt.Sprintf("%d %s", x.n, x.lic))
			if j > 0 && counts[j-1].n < x.n {
				out = append(out, bad("order", "not in descending order of count: %v", counts))
			}
		}
		l, _ := ok["counts"].([]any)
		for _, x := range l {
			m := toObj(x)
			w = append(w, fmt.Sprintf("%d %s", int(m["n"].(float64)), m["lic"]))
		}
		if d := diffSets(g, w); d != "" {
			out = append(out, bad("counts", "counts: %s", d))
		}
	}
	if !reflect.DeepEqual(pkg, mk()) {
		out = append(out, bad("modified", "the package was changed"))
	}
	return
}

// ---------------------------------------------------------------- C22

func runLib(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	mk := func() *spdx.Document {
		d := &spdx.Document{SPDXVersion: spdx.Version, SPDXIdentifier: "DOCUMENT", CreationInfo: &spdx.CreationInfo{}}
		for _, p := range c.strs("pkgs") {
			// each package owns a file, which is not an unpackaged one
			d.Packages = append(d.Packages, &spdx.Package{PackageName: p, PackageSPDXIdentifier: common.ElementID(p),
				Files: []*spdx.File{{FileName: "g", FileSPDXIdentifier: "g1"}}})
		}
		for _, f := range c.strs("files") {
			d.Files = append(d.Files, &spdx.File{FileName: f, FileSPDXIdentifier: common.ElementID(f)})
		}
		for _, r := range c.list("rels") {
			m := toObj(r)
			x := &spdx.Relationship{Relationship: m["t"].(string)}
			fromAbstract(reflect.ValueOf(&x.RefA).Elem(), m["a"], "RefA")
			fromAbstract(reflect.ValueOf(&x.RefB).Elem(), m["b"], "RefB")
			d.Relationships = append(d.Relationships, x)
		}
		return d
	}
	doc := mk()
	c.T.exec(2)
	ids, err := spdxlib.GetDescribedPackageIDs(doc)
	var got []string
	for _, i := range ids {
		got = append(got, string(i))
	}
	if ok, isOk := c.obj("ids")["ok"]; isOk {
		if w := toStrs(ok); err != nil || fmt.Sprint(got) != fmt.Sprint(w) {
			out = append(out, bad("described", "described packages %q, %v; want %q", got, err, w))
		}
	} else if err == nil {
		out = append(out, bad("described", "described packages %q; want an error", got))
	}
	if err := spdxlib.ValidateDocument(doc); (err == nil) != c.boolean("valid") {
		out = append(out, bad("validate", "ValidateDocument: %v; valid is %v", err, c.boolean("valid")))
	}
	for _, x := range c.list("selected") {
		m := toObj(x)
		c.T.exec(1)
		var seen []*spdx.Relationship
		ids, err := spdxlib.FilterRelationships(doc, func(r *spdx.Relationship) *common.ElementID {
			seen = append(seen, r)
			if r.Relationship == m["t"] {
				return &r.RefB.ElementRefID
			}
			return nil
		})
		got := []string{}
		for _, i := range ids {
			got = append(got, string(i))
		}
		if w := toStrs(m["ids"]); err != nil || !reflect.DeepEqual(got, w) {
			out = append(out, bad("filter", "selected %q, %v; want %q", got, err, w))
		}
		if len(seen) != len(doc.Relationships) {
			out = append(out, bad("filter", "the selection saw %d of %d relationships", len(seen), len(doc.Relationships)))
		}
	}
	if !reflect.DeepEqual(doc, mk()) {
		out = append(out, bad("modified", "the document was changed"))
	}
	return
}
