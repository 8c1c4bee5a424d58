package main

import (
	"bytes"
	"strings"

	sigsyaml "sigs.k8s.io/yaml"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
)

func init() { handlers["vocab"] = runVocab }

// exported holds the value of every exported name of a term.
var exported = map[string]string{
	"v2_1.Version":                                     v2_1.Version,
	"v2_1.DataLicense":                                 v2_1.DataLicense,
	"v2_2.Version":                                     v2_2.Version,
	"v2_2.DataLicense":                                 v2_2.DataLicense,
	"v2_3.Version":                                     v2_3.Version,
	"v2_3.DataLicense":                                 v2_3.DataLicense,
	"spdx.Version":                                     spdx.Version,
	"spdx.DataLicense":                                 spdx.DataLicense,
	"common.TypeRelationshipDescribe":                  common.TypeRelationshipDescribe,
	"spdx.RelationshipDescribes":                       spdx.RelationshipDescribes,
	"common.TypeRelationshipDescribeBy":                common.TypeRelationshipDescribeBy,
	"spdx.RelationshipDescribedBy":                     spdx.RelationshipDescribedBy,
	"common.TypeRelationshipContains":                  common.TypeRelationshipContains,
	"spdx.RelationshipContains":                        spdx.RelationshipContains,
	"common.TypeRelationshipContainedBy":               common.TypeRelationshipContainedBy,
	"spdx.RelationshipContainedBy":                     spdx.RelationshipContainedBy,
	"common.TypeRelationshipDependsOn":                 common.TypeRelationshipDependsOn,
	"spdx.RelationshipDependsOn":                       spdx.RelationshipDependsOn,
	"common.TypeRelationshipDependencyOf":              common.TypeRelationshipDependencyOf,
	"spdx.RelationshipDependencyOf":                    spdx.RelationshipDependencyOf,
	"common.TypeRelationshipBuildDependencyOf":         common.TypeRelationshipBuildDependencyOf,
	"spdx.RelationshipBuildDependencyOf":               spdx.RelationshipBuildDependencyOf,
	"common.TypeRelationshipDevDependencyOf":           common.TypeRelationshipDevDependencyOf,
	"spdx.RelationshipDevDependencyOf":                 spdx.RelationshipDevDependencyOf,
	"common.TypeRelationshipOptionalDependencyOf":      common.TypeRelationshipOptionalDependencyOf,
	"spdx.RelationshipOptionalDependencyOf":            spdx.RelationshipOptionalDependencyOf,
	"common.TypeRelationshipProvidedDependencyOf":      common.TypeRelationshipProvidedDependencyOf,
	"spdx.RelationshipProvidedDependencyOf":            spdx.RelationshipProvidedDependencyOf,
	"common.TypeRelationshipTestDependencyOf":          common.TypeRelationshipTestDependencyOf,
	"spdx.RelationshipTestDependencyOf":                spdx.RelationshipTestDependencyOf,
	"common.TypeRelationshipRuntimeDependencyOf":       common.TypeRelationshipRuntimeDependencyOf,
	"spdx.RelationshipRuntimeDependencyOf":             spdx.RelationshipRuntimeDependencyOf,
	"common.TypeRelationshipExampleOf":                 common.TypeRelationshipExampleOf,
	"spdx.RelationshipExampleOf":                       spdx.RelationshipExampleOf,
	"common.TypeRelationshipGenerates":                 common.TypeRelationshipGenerates,
	"spdx.RelationshipGenerates":                       spdx.RelationshipGenerates,
	"common.TypeRelationshipGeneratedFrom":             common.TypeRelationshipGeneratedFrom,
	"spdx.RelationshipGeneratedFrom":                   spdx.RelationshipGeneratedFrom,
	"common.TypeRelationshipAncestorOf":                common.TypeRelationshipAncestorOf,
	"spdx.RelationshipAncestorOf":                      spdx.RelationshipAncestorOf,
	"common.TypeRelationshipDescendantOf":              common.TypeRelationshipDescendantOf,
	"spdx.RelationshipDescendantOf":                    spdx.RelationshipDescendantOf,
	"common.TypeRelationshipVariantOf":                 common.TypeRelationshipVariantOf,
	"spdx.RelationshipVariantOf":                       spdx.RelationshipVariantOf,
	"common.TypeRelationshipDistributionArtifact":      common.TypeRelationshipDistributionArtifact,
	"spdx.RelationshipDistributionArtifact":            spdx.RelationshipDistributionArtifact,
	"common.TypeRelationshipPatchFor":                  common.TypeRelationshipPatchFor,
	"spdx.RelationshipPatchFor":                        spdx.RelationshipPatchFor,
	"common.TypeRelationshipPatchApplied":              common.TypeRelationshipPatchApplied,
	"spdx.RelationshipPatchApplied":                    spdx.RelationshipPatchApplied,
	"common.TypeRelationshipCopyOf":                    common.TypeRelationshipCopyOf,
	"spdx.RelationshipCopyOf":                          spdx.RelationshipCopyOf,
	"common.TypeRelationshipFileAdded":                 common.TypeRelationshipFileAdded,
	"spdx.RelationshipFileAdded":                       spdx.RelationshipFileAdded,
	"common.TypeRelationshipFileDeleted":               common.TypeRelationshipFileDeleted,
	"spdx.RelationshipFileDeleted":                     spdx.RelationshipFileDeleted,
	"common.TypeRelationshipFileModified":              common.TypeRelationshipFileModified,
	"spdx.RelationshipFileModified":                    spdx.RelationshipFileModified,
	"common.TypeRelationshipExpandedFromArchive":       common.TypeRelationshipExpandedFromArchive,
	"spdx.RelationshipExpandedFromArchive":             spdx.RelationshipExpandedFromArchive,
	"common.TypeRelationshipDynamicLink":               common.TypeRelationshipDynamicLink,
	"spdx.RelationshipDynamicLink":                     spdx.RelationshipDynamicLink,
	"common.TypeRelationshipStaticLink":                common.TypeRelationshipStaticLink,
	"spdx.RelationshipStaticLink":                      spdx.RelationshipStaticLink,
	"common.TypeRelationshipDataFileOf":                common.TypeRelationshipDataFileOf,
	"spdx.RelationshipDataFileOf":                      spdx.RelationshipDataFileOf,
	"common.TypeRelationshipTestCaseOf":                common.TypeRelationshipTestCaseOf,
	"spdx.RelationshipTestCaseOf":                      spdx.RelationshipTestCaseOf,
	"common.TypeRelationshipBuildToolOf":               common.TypeRelationshipBuildToolOf,
	"spdx.RelationshipBuildToolOf":                     spdx.RelationshipBuildToolOf,
	"common.TypeRelationshipDevToolOf":                 common.TypeRelationshipDevToolOf,
	"spdx.RelationshipDevToolOf":                       spdx.RelationshipDevToolOf,
	"common.TypeRelationshipTestOf":                    common.TypeRelationshipTestOf,
	"spdx.RelationshipTestOf":                          spdx.RelationshipTestOf,
	"common.TypeRelationshipTestToolOf":                common.TypeRelationshipTestToolOf,
	"spdx.RelationshipTestToolOf":                      spdx.RelationshipTestToolOf,
	"common.TypeRelationshipDocumentationOf":           common.TypeRelationshipDocumentationOf,
	"spdx.RelationshipDocumentationOf":                 spdx.RelationshipDocumentationOf,
	"common.TypeRelationshipOptionalComponentOf":       common.TypeRelationshipOptionalComponentOf,
	"spdx.RelationshipOptionalComponentOf":             spdx.RelationshipOptionalComponentOf,
	"common.TypeRelationshipMetafileOf":                common.TypeRelationshipMetafileOf,
	"spdx.RelationshipMetafileOf":                      spdx.RelationshipMetafileOf,
	"common.TypeRelationshipPackageOf":                 common.TypeRelationshipPackageOf,
	"spdx.RelationshipPackageOf":                       spdx.RelationshipPackageOf,
	"common.TypeRelationshipAmends":                    common.TypeRelationshipAmends,
	"spdx.RelationshipAmends":                          spdx.RelationshipAmends,
	"common.TypeRelationshipPrerequisiteFor":           common.TypeRelationshipPrerequisiteFor,
	"spdx.RelationshipPrerequisiteFor":                 spdx.RelationshipPrerequisiteFor,
	"common.TypeRelationshipHasPrerequisite":           common.TypeRelationshipHasPrerequisite,
	"spdx.RelationshipHasPrerequisite":                 spdx.RelationshipHasPrerequisite,
	"common.TypeRelationshipRequirementDescriptionFor": common.TypeRelationshipRequirementDescriptionFor,
	"spdx.RelationshipRequirementDescriptionFor":       spdx.RelationshipRequirementDescriptionFor,
	"common.TypeRelationshipSpecificationFor":          common.TypeRelationshipSpecificationFor,
	"spdx.RelationshipSpecificationFor":                spdx.RelationshipSpecificationFor,
	"common.TypeRelationshipOther":                     common.TypeRelationshipOther,
	"spdx.RelationshipOther":                           spdx.RelationshipOther,
	"common.SHA224":                                    string(common.SHA224),
	"spdx.SHA224":                                      string(spdx.SHA224),
	"common.SHA1":                                      string(common.SHA1),
	"spdx.SHA1":                                        string(spdx.SHA1),
	"common.SHA256":                                    string(common.SHA256),
	"spdx.SHA256":                                      string(spdx.SHA256),
	"common.SHA384":                                    string(common.SHA384),
	"spdx.SHA384":                                      string(spdx.SHA384),
	"common.SHA512":                                    string(common.SHA512),
	"spdx.SHA512":                                      string(spdx.SHA512),
	"common.MD2":                                       string(common.MD2),
	"spdx.MD2":                                         string(spdx.MD2),
	"common.MD4":                                       string(common.MD4),
	"spdx.MD4":                                         string(spdx.MD4),
	"common.MD5":                                       string(common.MD5),
	"spdx.MD5":                                         string(spdx.MD5),
	"common.MD6":                                       string(common.MD6),
	"spdx.MD6":                                         string(spdx.MD6),
	"common.SHA3_256":                                  string(common.SHA3_256),
	"spdx.SHA3_256":                                    string(spdx.SHA3_256),
	"common.SHA3_384":                                  string(common.SHA3_384),
	"spdx.SHA3_384":                                    string(spdx.SHA3_384),
	"common.SHA3_512":                                  string(common.SHA3_512),
	"spdx.SHA3_512":                                    string(spdx.SHA3_512),
	"common.BLAKE2b_256":                               string(common.BLAKE2b_256),
	"spdx.BLAKE2b_256":                                 string(spdx.BLAKE2b_256),
	"common.BLAKE2b_384":                               string(common.BLAKE2b_384),
	"spdx.BLAKE2b_384":                                 string(spdx.BLAKE2b_384),
	"common.BLAKE2b_512":                               string(common.BLAKE2b_512),
	"spdx.BLAKE2b_512":                                 string(spdx.BLAKE2b_512),
	"common.BLAKE3":                                    string(common.BLAKE3),
	"spdx.BLAKE3":                                      string(spdx.BLAKE3),
	"common.ADLER32":                                   string(common.ADLER32),
	"spdx.ADLER32":                                     string(spdx.ADLER32),
	"common.CategorySecurity":                          common.CategorySecurity,
	"spdx.CategorySecurity":                            spdx.CategorySecurity,
	"common.TypeSecurityCPE23Type":                     common.TypeSecurityCPE23Type,
	"spdx.SecurityCPE23Type":                           spdx.SecurityCPE23Type,
	"common.TypeSecurityCPE22Type":                     common.TypeSecurityCPE22Type,
	"spdx.SecurityCPE22Type":                           spdx.SecurityCPE22Type,
	"common.TypeSecurityAdvisory":                      common.TypeSecurityAdvisory,
	"spdx.SecurityAdvisory":                            spdx.SecurityAdvisory,
	"common.TypeSecurityFix":                           common.TypeSecurityFix,
	"spdx.SecurityFix":                                 spdx.SecurityFix,
	"common.TypeSecurityUrl":                           common.TypeSecurityUrl,
	"spdx.SecurityUrl":                                 spdx.SecurityUrl,
	"common.TypeSecuritySwid":                          common.TypeSecuritySwid,
	"spdx.SecuritySwid":                                spdx.SecuritySwid,
	"common.CategoryPackageManager":                    common.CategoryPackageManager,
	"spdx.CategoryPackageManager":                      spdx.CategoryPackageManager,
	"common.TypePackageManagerMavenCentral":            common.TypePackageManagerMavenCentral,
	"spdx.PackageManagerMavenCentral":                  spdx.PackageManagerMavenCentral,
	"common.TypePackageManagerNpm":                     common.TypePackageManagerNpm,
	"spdx.PackageManagerNpm":                           spdx.PackageManagerNpm,
	"common.TypePackageManagerNuGet":                   common.TypePackageManagerNuGet,
	"spdx.PackageManagerNuGet":                         spdx.PackageManagerNuGet,
	"common.TypePackageManagerBower":                   common.TypePackageManagerBower,
	"spdx.PackageManagerBower":                         spdx.PackageManagerBower,
	"common.TypePackageManagerPURL":                    common.TypePackageManagerPURL,
	"spdx.PackageManagerPURL":                          spdx.PackageManagerPURL,
	"common.CategoryPersistentId":                      common.CategoryPersistentId,
	"spdx.CategoryPersistentId":                        spdx.CategoryPersistentId,
	"common.TypePersistentIdSwh":                       common.TypePersistentIdSwh,
	"spdx.TypePersistentIdSwh":                         spdx.TypePersistentIdSwh,
	"common.TypePersistentIdGitoid":                    common.TypePersistentIdGitoid,
	"spdx.TypePersistentIdGitoid":                      spdx.TypePersistentIdGitoid,
	"common.CategoryOther":                             common.CategoryOther,
	"spdx.CategoryOther":                               spdx.CategoryOther,
}

// named puts the values of the exported names in a tree.
func named(v any) any {
	switch x := v.(type) {
	case string:
		if n, ok := strings.CutPrefix(x, "@"); ok {
			val, ok := exported[n]
			if !ok {
				panic(harnessErrorf("no name %q", n))
			}
			return val
		}
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = named(x[i])
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k := range x {
			m[k] = named(x[k])
		}
		return m
	}
	return v
}

func linesOf(text string) map[string]int {
	m := map[string]int{}
	for _, l := range strings.Split(text, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "#") {
			m[l]++
		}
	}
	return m
}

func runVocab(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	v := c.num("ver")
	for _, x := range append(c.list("versions"), c.list("licenses")...) {
		r := x.([]any)
		name, want := r[0].(string), "CC0-1.0"
		if len(r) == 3 {
			want = r[1].(string)
		}
		if exported[name] != want {
			out = append(out, bad("name", "%s is %q, want %q", name, exported[name], want))
		}
	}
	for _, x := range c.list("names") {
		m := toObj(x)
		name, term := m["name"].(string), m["term"].(string)
		if exported[name] != term {
			out = append(out, bad("name", "%s is %q, want %q", name, exported[name], term))
		}
		if m["fam"] != "rel" {
			continue
		}
		// what the library takes it to mean between the document and one of two packages
		for dir, want := range map[string]any{"fwd": m["fwd"], "bwd": m["bwd"]} {
			d := &spdx.Document{Packages: []*spdx.Package{{PackageSPDXIdentifier: "p"}, {PackageSPDXIdentifier: "q"}}}
			a, b := spdx.DocElementID{ElementRefID: "DOCUMENT"}, spdx.DocElementID{ElementRefID: "q"}
			if dir == "bwd" {
				a, b = b, a
			}
			d.Relationships = []*spdx.Relationship{{RefA: a, RefB: b, Relationship: exported[name]}}
			ids, err := spdxlib.GetDescribedPackageIDs(d)
			if got := err == nil && len(ids) == 1 && ids[0] == "q"; got != want.(bool) {
				out = append(out, bad("meaning", "%s, %s: described are %v, %v", name, dir, ids, err))
			}
			c.T.exec(1)
		}
	}
	doc := docFrom(v, named(c.M["doc"]))
	want := normDoc(abstractDoc(doc))
	texts := map[string][]byte{"tv": []byte(strings.Join(c.strs("lines"), "\n") + "\n")}
	if v > 21 {
		texts["json"] = toJSON(c.M["tree"])
		texts["yaml"] = yamlStyles(c.M["tree"])["double-quoted"]
	}
	for how, text := range texts {
		f := formats[how]
		// what one program says is in the text it writes
		b, err := f.bytes(doc)
		c.T.exec(2)
		switch {
		case err != nil:
			out = append(out, bad("write", "%s: %v", f.name, err))
		case how == "tv":
			got, wantLines := linesOf(string(b)), linesOf(string(text))
			for l, n := range wantLines {
				if got[l] < n {
					out = append(out, bad("said", "%s: %q is not in the text", f.name, l))
				}
			}
		default:
			var got any
			if err := sigsyaml.Unmarshal(b, &got); err != nil {
				return append(out, bad("write", "%s: %v", f.name, err))
			}
			if d := diff("$", normDoc(got), normDoc(c.M["tree"])); d != "" {
				out = append(out, bad("said", "%s: %s", f.name, d))
			}
		}
		// and what is in a text, the other tells by the names
		next := newDoc(v)
		if err := f.read(bytes.NewReader(text), next); err != nil {
			out = append(out, bad("read", "%s: %v", f.name, err))
		} else if d := diff("Document", normDoc(abstractDoc(next)), want); d != "" {
			out = append(out, bad("heard", "%s: %s", f.name, d))
		}
	}
	return out
}
