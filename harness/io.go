package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/common"
)

func init() { handlers["io"] = runIO }

var errDevice = errors.New("the device failed")

var ioErrors = map[string]error{"device": errDevice, "unexpected EOF": io.ErrUnexpectedEOF, "deadline": os.ErrDeadlineExceeded, "closed pipe": io.ErrClosedPipe,
	"wrapped EOF": fmt.Errorf("the device: %w", io.EOF), "broken pipe": syscall.EPIPE, "closed": os.ErrClosed, "cancelled": context.Canceled, "no progress": io.ErrNoProgress}

// ioPlan is what the device does, in bytes of the text.
type ioPlan struct {
	at   int  // where it fails; beyond the text: nowhere
	part bool // the failing call transfers what comes before
	once bool // it works again afterwards
	err  error
}

// sink is a destination that fails where the plan says.
type sink struct {
	ioPlan
	got   bytes.Buffer
	pos   int
	fired bool
	dead  bool
}

func (s *sink) Write(b []byte) (int, error) {
	if s.dead {
		return 0, s.err
	}
	if !s.fired && len(b) > 0 && s.at < s.pos+len(b) {
		s.fired, s.dead = true, !s.once
		n := 0
		if s.part {
			n = s.at - s.pos
		}
		s.got.Write(b[:n])
		s.pos += n
		return n, s.err
	}
	s.got.Write(b)
	s.pos += len(b)
	return len(b), nil
}

// source delivers text in the given pieces, then as much as it is asked for.
type source struct {
	ioPlan
	text   []byte
	pos    int
	pieces []int
	fired  bool
	ended  bool
}

func (s *source) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	limit, over := len(s.text), io.EOF
	if s.at <= len(s.text) && !(s.fired && s.once) {
		limit, over = s.at, s.err
	}
	end := func(n int) (int, error) {
		s.pos += n
		if over != io.EOF {
			s.fired = true
		}
		return n, over
	}
	if s.pos >= limit {
		return end(0)
	}
	n := limit - s.pos
	if len(s.pieces) > 0 {
		n = min(n, s.pieces[0])
	}
	n = min(n, len(b))
	copy(b, s.text[s.pos:s.pos+n])
	if len(s.pieces) > 0 {
		if s.pieces[0] -= n; s.pieces[0] <= 0 {
			s.pieces = s.pieces[1:]
		}
	}
	if s.pos+n == limit && n > 0 && s.part {
		return end(n)
	}
	s.pos += n
	return n, nil
}

var ioWriters = map[string]func(d common.AnyDocument, w io.Writer) error{
	"tv": formats["tv"].write, "json": formats["json"].write, "yaml": formats["yaml"].write,
	"json indented": func(d common.AnyDocument, w io.Writer) error { return json.Write(d, w, json.Indent(" ")) },
	"report": func(d common.AnyDocument, w io.Writer) error {
		return reporter.Generate(d.(*spdx.Document).Packages[0], w)
	},
}

func runIO(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	per, label := c.num("per"), c.str("label")
	v := c.num("v")
	// where unit u of a text of n bytes starts
	place := func(u, n int) int { return (u*n + per - 1) / per }
	plan := func(n int) ioPlan {
		p := ioPlan{at: n + 1, part: c.boolean("part"), once: c.boolean("once"), err: ioErrors[c.str("err")]}
		if u := c.num("at"); u <= per {
			p.at = place(u, n)
		}
		return p
	}
	if c.str("dir") == "write" {
		write := ioWriters[c.str("op")]
		var base bytes.Buffer
		if err := write(docFrom(v, c.M["doc"]), &base); err != nil {
			return append(out, bad("write", "%s: writing fails: %s", label, clip(err.Error())))
		}
		plans := []ioPlan{plan(base.Len())}
		if c.num("at") == per-1 { // the last unit: also its last byte
			p := plans[0]
			p.at = base.Len() - 1
			plans = append(plans, p)
		}
		for _, p := range plans {
			s := &sink{ioPlan: p}
			c.T.exec(1)
			err := write(docFrom(v, c.M["doc"]), s)
			switch {
			case s.fired && err == nil:
				out = append(out, bad("unreported", "%s: the destination failed at byte %d of %d and success was reported", label, s.at, base.Len()))
			case !s.fired && err != nil:
				out = append(out, bad("write", "%s: nothing failed, but: %s", label, clip(err.Error())))
			case err == nil && !bytes.Equal(s.got.Bytes(), base.Bytes()):
				out = append(out, bad("incomplete", "%s: success was reported with %d of %d bytes, or others, written", label, s.got.Len(), base.Len()))
			}
		}
		return
	}
	read := readers[c.str("op")]
	var text []byte
	if c.str("op") == "rdf" {
		text = []byte(rdfSample(v, len(toJSON(c.M["doc"]))))
	} else {
		var err error
		if text, err = formats[c.str("op")].bytes(docFrom(v, c.M["doc"])); err != nil {
			return append(out, bad("write", "%s: writing fails: %s", label, clip(err.Error())))
		}
	}
	base := newDoc(v)
	c.T.exec(1)
	if err := read(bytes.NewReader(text), base); err != nil {
		return append(out, bad("read", "%s: reading at once fails: %s", label, clip(err.Error())))
	}
	if c.str("op") != "rdf" {
		if df := diff("Document", stripAnalyzedTag(abstractDoc(base)), stripAnalyzedTag(normDoc(c.M["want"]))); df != "" {
			out = append(out, bad("document", "%s: reading at once: %s", label, df))
		}
	}
	var cuts [][]int
	if ps := c.list("pieces"); len(ps) > 0 {
		var even []int
		u := 0
		for _, p := range ps {
			w := u + int(p.(float64))
			even = append(even, place(w, len(text))-place(u, len(text)))
			u = w
		}
		cuts = append(cuts, even)
	} else {
		cuts = append(cuts, nil, repeat(1, len(text)+1), repeat(7, len(text)/7+1))
	}
	for _, cut := range cuts {
		s := &source{ioPlan: plan(len(text)), text: text, pieces: append([]int(nil), cut...)}
		how := fmt.Sprintf("%s in %d pieces", label, len(cut))
		d := newDoc(v)
		blank := toAbstract(reflect.ValueOf(d).Elem(), true)
		c.T.exec(1)
		err := read(s, d)
		switch {
		case s.fired && err == nil:
			out = append(out, bad("unreported", "%s: the source failed at byte %d of %d and success was reported", how, s.at, len(text)))
		case s.fired:
			if df := diff("Document", toAbstract(reflect.ValueOf(d).Elem(), true), blank); df != "" {
				out = append(out, bad("stored", "%s: the source failed but the destination was changed: %s", how, df))
			}
		case err != nil:
			out = append(out, bad("rejected", "%s: nothing failed, but: %s", how, clip(err.Error())))
		default:
			if df := diff("Document", orderless(c, abstractDoc(d)), orderless(c, abstractDoc(base))); df != "" {
				out = append(out, bad("pieces", "%s: not what reading at once gives: %s", how, df))
			}
		}
	}
	return
}

// orderless forgets the order of lists, and of the members of a licence set,
// where the format has none.
func orderless(c *Case, d any) any {
	if c.str("op") == "rdf" {
		return rdfOrderless(d)
	}
	return d
}

func rdfOrderless(d any) any {
	switch x := d.(type) {
	case map[string]any:
		for k := range x {
			x[k] = rdfOrderless(x[k])
		}
	case []any:
		for i := range x {
			x[i] = rdfOrderless(x[i])
		}
		return sortLists(x)
	case string:
		for _, op := range []string{" AND ", " OR "} {
			if strings.Contains(x, op) {
				parts := strings.Split(x, op)
				sort.Strings(parts)
				return strings.Join(parts, op)
			}
		}
	}
	return d
}

func repeat(x, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = x
	}
	return out
}

// rdfSample is an RDF document with one of everything and text of at least about
// n bytes. Every node has a name, so that the loader's numbering of the others
// plays no part.
func rdfSample(v, n int) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, `<?xml version="1.0"?>
<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#" xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:ptr="http://www.w3.org/2009/pointers#">
 <spdx:SpdxDocument rdf:about="http://x.org/d#SPDXRef-DOCUMENT">
  <spdx:specVersion>SPDX-2.%d</spdx:specVersion>
  <spdx:name>n</spdx:name>
  <spdx:creationInfo><spdx:CreationInfo rdf:about="http://x.org/d#c"><spdx:created>2010-01-29T18:30:22Z</spdx:created><spdx:creator>Tool: t</spdx:creator></spdx:CreationInfo></spdx:creationInfo>
  <spdx:hasExtractedLicensingInfo><spdx:ExtractedLicensingInfo rdf:about="http://x.org/d#LicenseRef-1"><spdx:licenseId>LicenseRef-1</spdx:licenseId><spdx:extractedText>t</spdx:extractedText></spdx:ExtractedLicensingInfo></spdx:hasExtractedLicensingInfo>
  <spdx:reviewed><spdx:Review rdf:about="http://x.org/d#v"><spdx:reviewer>Person: p</spdx:reviewer><spdx:reviewDate>2011-01-29T18:30:22Z</spdx:reviewDate></spdx:Review></spdx:reviewed>
  <spdx:annotation><spdx:Annotation rdf:about="http://x.org/d#a"><spdx:annotator>Person: p</spdx:annotator><spdx:annotationDate>2012-01-29T18:30:22Z</spdx:annotationDate><rdfs:comment>c</rdfs:comment><spdx:annotationType rdf:resource="http://spdx.org/rdf/terms#annotationType_other"/></spdx:Annotation></spdx:annotation>
  <spdx:relationship><spdx:Relationship rdf:about="http://x.org/d#r"><spdx:relationshipType rdf:resource="http://spdx.org/rdf/terms#relationshipType_describes"/>
   <spdx:relatedSpdxElement><spdx:Package rdf:about="http://x.org/d#SPDXRef-p">
    <spdx:name>n</spdx:name>
    <spdx:downloadLocation rdf:resource="http://spdx.org/rdf/terms#noassertion"/>
    <spdx:checksum><spdx:Checksum rdf:about="http://x.org/d#s"><spdx:algorithm rdf:resource="http://spdx.org/rdf/terms#checksumAlgorithm_sha256"/><spdx:checksumValue>00</spdx:checksumValue></spdx:Checksum></spdx:checksum>
    <spdx:packageVerificationCode><spdx:PackageVerificationCode rdf:about="http://x.org/d#k"><spdx:packageVerificationCodeValue>d6a770ba38583ed4bb4525bd96e50461655d2758</spdx:packageVerificationCodeValue></spdx:PackageVerificationCode></spdx:packageVerificationCode>
    <spdx:licenseConcluded><spdx:ConjunctiveLicenseSet rdf:about="http://x.org/d#l1">
     <spdx:member rdf:resource="http://spdx.org/licenses/Zlib"/>
     <spdx:member rdf:resource="http://spdx.org/licenses/MIT"/>
     <spdx:member><spdx:ListedLicense rdf:about="http://spdx.org/licenses/Apache-2.0"><spdx:licenseId>Apache-2.0</spdx:licenseId></spdx:ListedLicense></spdx:member>
     <spdx:member><spdx:OrLaterOperator rdf:about="http://x.org/d#l2"><spdx:member><spdx:SimpleLicensingInfo rdf:about="http://x.org/d#l3"><spdx:licenseId>GPL-2.0</spdx:licenseId></spdx:SimpleLicensingInfo></spdx:member></spdx:OrLaterOperator></spdx:member>
    </spdx:ConjunctiveLicenseSet></spdx:licenseConcluded>
    <spdx:licenseDeclared><spdx:DisjunctiveLicenseSet rdf:about="http://x.org/d#l4">
     <spdx:member rdf:resource="http://spdx.org/licenses/0BSD"/>
     <spdx:member><spdx:WithExceptionOperator rdf:about="http://x.org/d#l5"><spdx:member rdf:resource="http://spdx.org/licenses/GPL-2.0"/><spdx:licenseException><spdx:LicenseException rdf:about="http://x.org/d#l6"><spdx:licenseExceptionId>389-exception</spdx:licenseExceptionId></spdx:LicenseException></spdx:licenseException></spdx:WithExceptionOperator></spdx:member>
    </spdx:DisjunctiveLicenseSet></spdx:licenseDeclared>
    <spdx:copyrightText>c</spdx:copyrightText>
    <spdx:hasFile><spdx:File rdf:about="http://x.org/d#SPDXRef-f">
     <spdx:fileName>./f</spdx:fileName>
     <spdx:fileType rdf:resource="http://spdx.org/rdf/terms#fileType_source"/>
     <spdx:checksum><spdx:Checksum rdf:about="http://x.org/d#s1"><spdx:algorithm rdf:resource="http://spdx.org/rdf/terms#checksumAlgorithm_sha1"/><spdx:checksumValue>d6a770ba38583ed4bb4525bd96e50461655d2758</spdx:checksumValue></spdx:Checksum></spdx:checksum>
     <spdx:licenseConcluded rdf:resource="http://spdx.org/licenses/ISC"/>
     <spdx:licenseInfoInFile rdf:resource="http://spdx.org/licenses/ISC"/>
     <spdx:copyrightText>c</spdx:copyrightText>
    </spdx:File></spdx:hasFile>
   </spdx:Package></spdx:relatedSpdxElement>
  </spdx:Relationship></spdx:relationship>
  <rdfs:comment>`, v-20)
	b.WriteString("words ünï\n")
	for i := 0; b.Len() < n-100; i++ {
		fmt.Fprintf(&b, "word %d ünï\n", i)
	}
	b.WriteString("</rdfs:comment>\n </spdx:SpdxDocument>\n</rdf:RDF>\n")
	return b.String()
}
