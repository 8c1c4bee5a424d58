From eeb35edb880b921b93bf1f299393ab13299c6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 01/49] fix: read tag-value lines of any length

---
 tagvalue/reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..ec10767 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// text values may be of any length, so don't limit the length of a line
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0


From 745df53e8859765f4ab4787fc46fc8fee2c64aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 02/49] fix: read every excluded file of a tag-value package
 verification code

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 16 +++++++++++-----
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 16 +++++++++++-----
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 16 +++++++++++-----
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..865ad77 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -192,12 +192,18 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas and with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileNames := sp[1]
+	if end := strings.LastIndex(fileNames, ")"); end >= 0 {
+		fileNames = fileNames[:end]
+	}
+	excludes := strings.Split(fileNames, ",")
+	for i := range excludes {
+		excludes[i] = strings.TrimSpace(excludes[i])
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: excludes}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..e48a5e6 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -206,12 +206,18 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas and with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileNames := sp[1]
+	if end := strings.LastIndex(fileNames, ")"); end >= 0 {
+		fileNames = fileNames[:end]
+	}
+	excludes := strings.Split(fileNames, ",")
+	for i := range excludes {
+		excludes[i] = strings.TrimSpace(excludes[i])
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: excludes}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..179ab5f 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -222,12 +222,18 @@ func extractCodeAndExcludes(value string) *common.PackageVerificationCode {
 		return &common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas and with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return &common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileNames := sp[1]
+	if end := strings.LastIndex(fileNames, ")"); end >= 0 {
+		fileNames = fileNames[:end]
+	}
+	excludes := strings.Split(fileNames, ",")
+	for i := range excludes {
+		excludes[i] = strings.TrimSpace(excludes[i])
+	}
+	return &common.PackageVerificationCode{Value: code, ExcludedFiles: excludes}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
-- 
2.43.0


From bcc6d74483cd9dcdf8d4843939e1f8c5fb6206f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 03/49] fix: list a tag-value package or file once when its
 SPDXID is repeated

---
 spdx/v2/v2_1/tagvalue/reader/parse_file.go    |  5 +++++
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 10 ++++++----
 spdx/v2/v2_2/tagvalue/reader/parse_file.go    |  5 +++++
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 10 ++++++----
 spdx/v2/v2_3/tagvalue/reader/parse_file.go    |  5 +++++
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 10 ++++++----
 6 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_file.go b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
index 46f494c..5ccaf96 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		isNew := parser.file.FileSPDXIdentifier == nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if !isNew {
+			// already listed
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_1.File{}
diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 865ad77..5c5ed2c 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -44,11 +44,13 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
-		if parser.doc.Packages == nil {
-			parser.doc.Packages = []*v2_1.Package{}
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			if parser.doc.Packages == nil {
+				parser.doc.Packages = []*v2_1.Package{}
+			}
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_file.go b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
index 25537df..f488532 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		isNew := parser.file.FileSPDXIdentifier == nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if !isNew {
+			// already listed
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_2.File{}
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index e48a5e6..afdd89d 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -44,11 +44,13 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
-		if parser.doc.Packages == nil {
-			parser.doc.Packages = []*v2_2.Package{}
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			if parser.doc.Packages == nil {
+				parser.doc.Packages = []*v2_2.Package{}
+			}
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_file.go b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
index 25badf0..0841715 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		isNew := parser.file.FileSPDXIdentifier == nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if !isNew {
+			// already listed
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*spdx.File{}
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index 179ab5f..9d8a2cc 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -44,11 +44,13 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
-		if parser.doc.Packages == nil {
-			parser.doc.Packages = []*spdx.Package{}
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			if parser.doc.Packages == nil {
+				parser.doc.Packages = []*spdx.Package{}
+			}
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
-- 
2.43.0


From fd1d8080c8da49d166fea1fe22b5500cda2c9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 04/49] fix: decode JSON string escapes in identifiers and
 actors

---
 spdx/v2/common/annotation.go    |  7 +++++--
 spdx/v2/common/creation_info.go |  7 +++++--
 spdx/v2/common/identifier.go    | 19 +++++++++++++------
 spdx/v2/common/package.go       | 13 +++++++++----
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..1c3d130 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -19,8 +20,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	var annotatorStr string
+	if err := json.Unmarshal(data, &annotatorStr); err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..e505d41 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -20,8 +21,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	var str string
+	if err := json.Unmarshal(data, &str); err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..2b8e090 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -27,8 +28,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +74,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +146,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..c40b921 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -20,8 +21,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	var supplierStr string
+	if err := json.Unmarshal(data, &supplierStr); err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +66,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	var originatorStr string
+	if err := json.Unmarshal(data, &originatorStr); err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
-- 
2.43.0


From c30f71320adb7525fe876b46e752e4fcb495568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 05/49] fix: wrap tag-value text that has surrounding blanks or
 a <text> mark

---
 spdx/v2/v2_1/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_2/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_3/tagvalue/writer/util.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..ccaf0fd 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// a value that spans lines, or that the reader would not take as it
+	// stands, needs to be wrapped
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..ccaf0fd 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// a value that spans lines, or that the reader would not take as it
+	// stands, needs to be wrapped
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..ccaf0fd 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// a value that spans lines, or that the reader would not take as it
+	// stands, needs to be wrapped
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
-- 
2.43.0


From 56009b5934a10f0b2350c96aec600376756b90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 06/49] fix: leave out the file of a tag-value snippet that
 names none

---
 spdx/v2/v2_1/tagvalue/writer/save_snippet.go | 5 ++---
 spdx/v2/v2_2/tagvalue/writer/save_snippet.go | 5 ++---
 spdx/v2/v2_3/tagvalue/writer/save_snippet.go | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
index afb5b80..d752d91 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
@@ -14,9 +14,8 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 	if sn.SnippetSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
-	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
-		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
+	if sn.SnippetFromFileSPDXIdentifier != "" {
+		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
 	}
 
 	for _, snippetRange := range sn.Ranges {
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
index 6845ec9..2be758e 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
@@ -14,9 +14,8 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 	if sn.SnippetSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
-	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
-		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
+	if sn.SnippetFromFileSPDXIdentifier != "" {
+		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
 	}
 
 	for _, snippetRange := range sn.Ranges {
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
index f7914af..8abeb64 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
@@ -14,9 +14,8 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 	if sn.SnippetSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
-	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
-		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
+	if sn.SnippetFromFileSPDXIdentifier != "" {
+		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
 	}
 
 	for _, snippetRange := range sn.Ranges {
-- 
2.43.0


From 5304162cfb0f779ef779998589de3f59fbf9f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 07/49] fix: report a failure to write tag-value output

---
 tagvalue/writer.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..1e9994b 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -21,14 +21,40 @@ import (
 // and writes it to the writer in tag-value format. It returns error
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
+	ew := &errWriter{w: w}
+	var err error
 	doc = convert.FromPtr(doc)
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, ew)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, ew)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, ew)
+	default:
+		err = fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// errWriter remembers the first failure of the writer it wraps, and writes
+// nothing after it.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	ew.err = err
+	return n, err
 }
-- 
2.43.0


From a6551e359104cda6a22416a9338490512c6e528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 08/49] fix: do not invent an empty verification code when
 converting 2.2 to 2.3

---
 spdx/v2/v2_3/document.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..6b27ef8 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -74,6 +74,14 @@ type Document struct {
 
 func From_v2_2(_ v2_2.Document, d *Document) {
 	d.SPDXVersion = Version
+
+	// 2.2 has no way to leave out the verification code other than an empty one
+	for _, p := range d.Packages {
+		if p != nil && p.PackageVerificationCode != nil &&
+			p.PackageVerificationCode.Value == "" && len(p.PackageVerificationCode.ExcludedFiles) == 0 {
+			p.PackageVerificationCode = nil
+		}
+	}
 }
 
 func To_v2_2(_ Document, d *v2_2.Document) {
-- 
2.43.0


From ed6ba590f15baaf9ce230c3def42efa223bae155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 09/49] fix: write control characters to YAML as the document
 has them

---
 yaml/writer.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/yaml/writer.go b/yaml/writer.go
index 4ec078f..7521523 100644
--- a/yaml/writer.go
+++ b/yaml/writer.go
@@ -3,6 +3,9 @@
 package yaml
 
 import (
+	"bytes"
+	"encoding/json"
+	"fmt"
 	"io"
 
 	"sigs.k8s.io/yaml"
@@ -12,7 +15,12 @@ import (
 
 // Write takes an SPDX Document and an io.Writer, and writes the document to the writer in YAML format.
 func Write(doc common.AnyDocument, w io.Writer) error {
-	buf, err := yaml.Marshal(doc)
+	buf, err := json.Marshal(doc)
+	if err != nil {
+		return err
+	}
+
+	buf, err = yaml.JSONToYAML(escapeNonYAML(buf))
 	if err != nil {
 		return err
 	}
@@ -24,3 +32,17 @@ func Write(doc common.AnyDocument, w io.Writer) error {
 
 	return nil
 }
+
+// escapeNonYAML escapes the characters that may occur in a JSON string as they
+// are, but not in YAML: JSONToYAML reads its input as YAML.
+func escapeNonYAML(jsonText []byte) []byte {
+	var out bytes.Buffer
+	for _, r := range string(jsonText) {
+		if (r >= 0x7f && r <= 0x9f) || r == 0xfffe || r == 0xffff {
+			fmt.Fprintf(&out, "\\u%04x", r)
+		} else {
+			out.WriteRune(r)
+		}
+	}
+	return out.Bytes()
+}
-- 
2.43.0


From 39511a12e03d58713db77c0b0c2ec32275f2ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 10/49] fix: return an error for nil and nested pointer
 destinations

Reading into, or converting to, a nil value, a nil pointer, a pointer to a
pointer or a pointer to an interface panicked.
---
 convert/chain.go  | 3 +++
 convert/struct.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..528c48d 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -31,6 +31,9 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 	if !IsPtr(to) {
 		return fmt.Errorf("struct to convert to must be a pointer")
 	}
+	if target := reflect.ValueOf(to); target.IsNil() || target.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("%T to convert to must be a non-nil pointer to a struct", to)
+	}
 	from = FromPtr(from)
 	if reflect.TypeOf(from) == reflect.TypeOf(FromPtr(to)) {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..35e981d 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -20,6 +20,9 @@ func FromPtr(doc common.AnyDocument) common.AnyDocument {
 
 func IsPtr(obj common.AnyDocument) bool {
 	t := reflect.TypeOf(obj)
+	if t == nil {
+		return false
+	}
 	if t.Kind() == reflect.Interface {
 		t = t.Elem()
 	}
-- 
2.43.0


From c2d374b265158083aeb812f854b8c37f4805deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 11/49] fix: list only regular files of a directory

---
 utils/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a24e2d1..b6fe848 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -39,8 +39,9 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 		if fi.IsDir() {
 			return nil
 		}
-		// don't include path if it's a symbolic link
-		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+		// don't include path if it's a symbolic link, or anything else that
+		// isn't a regular file (named pipe, socket, device)
+		if !fi.Mode().IsRegular() {
 			return nil
 		}
 
-- 
2.43.0


From b2c5850bee09ba4b40d14b5cd5a3dc5965bfdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 12/49] fix: list the files of a directory given as a symbolic
 link

---
 utils/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index b6fe848..410197a 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -28,7 +28,11 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
-	dirRoot = absRoot
+	// the directory itself may be given as a symbolic link to it
+	dirRoot, err = filepath.EvalSymlinks(absRoot)
+	if err != nil {
+		return nil, err
+	}
 	prefix := strings.TrimSuffix(filepath.ToSlash(dirRoot), "/")
 
 	err = filepath.Walk(dirRoot, func(path string, fi os.FileInfo, err error) error {
-- 
2.43.0


From cb92c4de81deefd9cfbbaff7b446ac83fba90b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 13/49] fix: match ** patterns against whole names and the
 named file only

---
 utils/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index 410197a..8063ddf 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -107,6 +107,10 @@ func ShouldIgnore(fileName string, pathsIgnored []string) bool {
 		patternDirStars := strings.HasPrefix(patternDirs, "**")
 		if patternDirStars {
 			patternDirs = patternDirs[2:]
+			// match whole directory names only
+			if !strings.HasPrefix(patternDirs, "/") {
+				patternDirs = "/" + patternDirs
+			}
 		}
 
 		// case 1: specific file
@@ -125,7 +129,7 @@ func ShouldIgnore(fileName string, pathsIgnored []string) bool {
 		}
 
 		// case 4: specific file in any matching subdir
-		if patternDirStars && strings.Contains(fDirs, patternDirs) && patternFile != "" && patternFile == fFile {
+		if patternDirStars && strings.HasSuffix(fDirs, patternDirs) && patternFile != "" && patternFile == fFile {
 			return true
 		}
 
-- 
2.43.0


From 4e1761c6d358f7f32ea8caee0e5dd6fdd494f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 14/49] fix: let every kind of pattern exclude a file from the
 licence search

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..ffa5927 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -85,7 +85,8 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseConcluded = "NOASSERTION"
 
 		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// (the patterns are relative to dirRoot, and file names start with ./)
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From 0e1fdd9311b8e3439ceb0440c9f54c352e43515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 15/49] fix: find licence identifiers after a line longer than
 64 KiB

---
 idsearcher/idsearcher.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index ffa5927..6818d99 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -152,11 +152,14 @@ func searchFileIDs(filePath string) ([]string, error) {
 	}
 	defer f.Close()
 
-	scanner := bufio.NewScanner(f)
+	// read lines of any length
+	reader := bufio.NewReader(f)
 
-	for scanner.Scan() {
-		if strings.Contains(scanner.Text(), "SPDX-License-Identifier:") {
-			strs := strings.SplitN(scanner.Text(), "SPDX-License-Identifier:", 2)
+	for err == nil {
+		var line string
+		line, err = reader.ReadString('\n')
+		if strings.Contains(line, "SPDX-License-Identifier:") {
+			strs := strings.SplitN(line, "SPDX-License-Identifier:", 2)
 
 			// if prefixed by more than n characters, it's probably not a
 			// short-form ID; it's probably code to detect short-form IDs.
@@ -175,10 +178,10 @@ func searchFileIDs(filePath string) ([]string, error) {
 		}
 	}
 
-	// FIXME for now, ignore scanner errors because we want to return whatever
+	// FIXME for now, ignore read errors because we want to return whatever
 	// FIXME IDs were in fact found. should probably be changed to either
 	// FIXME log the error, and/or be configurable for what should happen.
-	// if err = scanner.Err(); err != nil {
+	// if err != io.EOF {
 	// 	return nil, err
 	// }
 
-- 
2.43.0


From 27cf784ba571811f64f122f0e2cd6885a6bf7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 16/49] fix: find licence identifiers in indented comments

---
 idsearcher/idsearcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 6818d99..8d22dce 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -164,7 +164,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// if prefixed by more than n characters, it's probably not a
 			// short-form ID; it's probably code to detect short-form IDs.
 			// Like this function itself, for example  =)
-			prefix := stripTrash(strs[0])
+			prefix := strings.TrimSpace(stripTrash(strs[0]))
 			if len(prefix) > 5 {
 				continue
 			}
-- 
2.43.0


From 848bcf3e05f9a16ecd841f7c9f5c2dc67ca9a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 17/49] fix: keep comment ends and empty tags out of the
 licence identifiers found

---
 idsearcher/idsearcher.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 8d22dce..2d0991c 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -169,12 +169,15 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ if it is present
+			// stop before the end of the comment if it is present
 			lidToExtract := strs[1]
-			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
-			idsMap[lid] = 1
+			for _, end := range []string{"*/", "-->", "*)", "-}"} {
+				lidToExtract = strings.Split(lidToExtract, end)[0]
+			}
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
+			if lid != "" {
+				idsMap[lid] = 1
+			}
 		}
 	}
 
-- 
2.43.0


From b7df2ea42770672db90296f4185e6c5eb0fa0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 18/49] fix: parenthesize compound expressions with lower-case
 operators

---
 idsearcher/idsearcher.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 2d0991c..a0915cb 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -205,7 +205,9 @@ func stripTrash(lid string) string {
 }
 
 func makeElement(lic string) string {
-	if strings.Contains(lic, " AND ") || strings.Contains(lic, " OR ") {
+	// operators are recognized in any case, as in getIndividualLicenses
+	upper := strings.ToUpper(lic)
+	if strings.Contains(upper, " AND ") || strings.Contains(upper, " OR ") {
 		return fmt.Sprintf("(%s)", lic)
 	}
 
-- 
2.43.0


From 01037e1a3c21c4caa65e84537ed96a5adbc9acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 19/49] fix: report licences with the same count in a fixed
 order

---
 reporter/reporter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..d43eb45 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -43,7 +43,13 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	// descending by count; by license where the counts are the same
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
-- 
2.43.0


From 8f2b0fbbb1de9f092c8809519471ef35edf5342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 20/49] fix: report a failure to write the licence report

---
 reporter/reporter.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index d43eb45..0a55d7a 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -56,8 +56,7 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	return wr.Flush()
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From 912c68ee182b0c3b0cf121cde2c32b31cb06581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 21/49] fix: reject relationships to another document's
 elements when validating

---
 spdxlib/documents.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..28936e9 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -26,12 +26,13 @@ func ValidateDocument(doc *spdx.Document) error {
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
 	for _, relationship := range doc.Relationships {
-		if !validElementIDs[relationship.RefA.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
+		// an element of another document isn't one of this document's, even if it has the same ID
+		if relationship.RefA.DocumentRefID != "" || !validElementIDs[relationship.RefA.ElementRefID] {
+			return fmt.Errorf("%s used in relationship but no such package exists", common.RenderDocElementID(relationship.RefA))
 		}
 
-		if !validElementIDs[relationship.RefB.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefB.ElementRefID))
+		if relationship.RefB.DocumentRefID != "" || !validElementIDs[relationship.RefB.ElementRefID] {
+			return fmt.Errorf("%s used in relationship but no such package exists", common.RenderDocElementID(relationship.RefB))
 		}
 	}
 
-- 
2.43.0


From c8d38a5254de4d3d62095a97f753895d7f5066e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 22/49] fix: report each described package once, and nothing
 that is not a package

---
 spdxlib/described_elements.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..3501755 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -37,16 +37,27 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("multiple Packages in Document but Relationships slice is nil")
 	}
 
+	packages := map[common.DocElementID]bool{}
+	for _, pkg := range doc.Packages {
+		packages[common.MakeDocElementID("", string(pkg.PackageSPDXIdentifier))] = true
+	}
+
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
+		var described common.DocElementID
 
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
-			return &relationship.RefB.ElementRefID
+			described = relationship.RefB
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
-			return &relationship.RefA.ElementRefID
+			described = relationship.RefA
 		}
 
-		return nil
+		// only this document's packages, and each of them once
+		if !packages[described] {
+			return nil
+		}
+		packages[described] = false
+		return &described.ElementRefID
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f41131739435ab4dddb52d440a3252f9cb4275f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 23/49] fix: report every failure to write the licence report

---
 reporter/reporter.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 0a55d7a..4734661 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -5,6 +5,7 @@
 package reporter
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -22,7 +23,9 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	// the tabwriter may write at any time, so collect its output first
+	var buf bytes.Buffer
+	wr := tabwriter.NewWriter(&buf, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -56,7 +59,11 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	return wr.Flush()
+	if err := wr.Flush(); err != nil {
+		return err
+	}
+	_, err := w.Write(buf.Bytes())
+	return err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From d8c42642076a02997bf947fdbde19e80d0f8d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 24/49] fix: report a failing source while reading RDF

---
 rdf/reader.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index 9bc3369..bee1ee6 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -32,7 +32,12 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	// the RDF loader takes a failing reader for the end of the input
+	input := &errorKeeper{Reader: content}
+	var rdfParserObj, err = rdfloader.LoadFromReaderObject(input)
+	if input.err != nil {
+		return input.err
+	}
 	if err != nil {
 		return err
 	}
@@ -59,6 +64,20 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	return convert.Document(data.(common.AnyDocument), doc)
 }
 
+// errorKeeper remembers the first error of a Reader other than io.EOF
+type errorKeeper struct {
+	io.Reader
+	err error
+}
+
+func (k *errorKeeper) Read(p []byte) (int, error) {
+	n, err := k.Reader.Read(p)
+	if err != nil && err != io.EOF && k.err == nil {
+		k.err = err
+	}
+	return n, err
+}
+
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From 0b94ba3bb32d5a22f17e89317ff97f3f42582ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 25/49] fix: list a described RDF package once

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 8 ++------
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..daac81b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// the package is added to the document as it is parsed
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..9d584a7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// the package is added to the document as it is parsed
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
-- 
2.43.0


From c87e7e072f48c3bbe371bac1deb0fa9079c4ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 26/49] fix: read each statement of an RDF graph once

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         |  3 +++
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  3 +++
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 20 -------------------
 .../v2/v2_2/rdf/reader/parse_spdx_document.go |  3 +++
 spdx/v2/v2_2/rdf/reader/parser.go             |  1 +
 spdx/v2/v2_2/rdf/reader/types.go              |  9 +++++++++
 spdx/v2/v2_2/rdf/reader/utils.go              | 16 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go         |  3 +++
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  3 +++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 20 -------------------
 .../v2/v2_3/rdf/reader/parse_spdx_document.go |  3 +++
 spdx/v2/v2_3/rdf/reader/parser.go             |  1 +
 spdx/v2/v2_3/rdf/reader/types.go              |  9 +++++++++
 spdx/v2/v2_3/rdf/reader/utils.go              | 16 +++++++++++++++
 14 files changed, 70 insertions(+), 40 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..3ee5105 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -44,6 +44,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if !parser.firstVisit(subTriple) {
+			continue
+		}
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..a0e1469 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -53,6 +53,9 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if !parser.firstVisit(subTriple) {
+			continue
+		}
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1946933..2737852 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -24,26 +24,6 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 		return err
 	}
 
-	currState := parser.cache[triple.Object.ID]
-	if currState == nil {
-		// there is no entry about the state of current package node.
-		// this is the first time we're seeing this node.
-		parser.cache[triple.Object.ID] = &nodeState{
-			object: reln,
-			Color:  WHITE,
-		}
-	} else if currState.Color == GREY {
-		// we have already started parsing this relationship node and we needn't parse it again.
-		return nil
-	}
-
-	// setting color of the state to grey to indicate that we've started to
-	// parse this node once.
-	parser.cache[triple.Object.ID].Color = GREY
-
-	// setting state color to black to indicate when we're done parsing this node.
-	defer func() { parser.cache[triple.Object.ID].Color = BLACK }()
-
 	for _, subTriple := range parser.nodeToTriples(triple.Object) {
 		switch subTriple.Predicate.ID {
 		case SPDX_RELATIONSHIP_TYPE:
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index daac81b..6b5ff97 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -25,6 +25,9 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
+		if !parser.firstVisit(subTriple) {
+			continue
+		}
 		objectValue := subTriple.Object.ID
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..b5daf78 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_2(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*v2_2.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		visited:          map[statement]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..8c2d7e9 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -23,6 +23,15 @@ type rdfParser2_2 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// statements which have been read
+	visited map[statement]bool
+}
+
+// statement identifies a triple, whether it refers to its object by rdf:resource or encloses it
+type statement struct {
+	subject, predicate, object string
+	literal                    bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..3043530 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -51,6 +51,22 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// returns whether the triple is seen for the first time. An element reached along
+// several paths is thus given each of its properties once.
+func (parser *rdfParser2_2) firstVisit(triple *gordfParser.Triple) bool {
+	st := statement{
+		subject:   triple.Subject.ID,
+		predicate: triple.Predicate.ID,
+		object:    triple.Object.ID,
+		literal:   triple.Object.NodeType == gordfParser.LITERAL,
+	}
+	if parser.visited[st] {
+		return false
+	}
+	parser.visited[st] = true
+	return true
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..abc41bd 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -44,6 +44,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if !parser.firstVisit(subTriple) {
+			continue
+		}
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..6c0a49e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -53,6 +53,9 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if !parser.firstVisit(subTriple) {
+			continue
+		}
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index b1753db..3aafaf5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -24,26 +24,6 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 		return err
 	}
 
-	currState := parser.cache[triple.Object.ID]
-	if currState == nil {
-		// there is no entry about the state of current package node.
-		// this is the first time we're seeing this node.
-		parser.cache[triple.Object.ID] = &nodeState{
-			object: reln,
-			Color:  WHITE,
-		}
-	} else if currState.Color == GREY {
-		// we have already started parsing this relationship node and we needn't parse it again.
-		return nil
-	}
-
-	// setting color of the state to grey to indicate that we've started to
-	// parse this node once.
-	parser.cache[triple.Object.ID].Color = GREY
-
-	// setting state color to black to indicate when we're done parsing this node.
-	defer func() { parser.cache[triple.Object.ID].Color = BLACK }()
-
 	for _, subTriple := range parser.nodeToTriples(triple.Object) {
 		switch subTriple.Predicate.ID {
 		case SPDX_RELATIONSHIP_TYPE:
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 9d584a7..7ed1798 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -25,6 +25,9 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
+		if !parser.firstVisit(subTriple) {
+			continue
+		}
 		objectValue := subTriple.Object.ID
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..2a996c5 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_3(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*spdx.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		visited:          map[statement]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..cef23d9 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -23,6 +23,15 @@ type rdfParser2_3 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// statements which have been read
+	visited map[statement]bool
+}
+
+// statement identifies a triple, whether it refers to its object by rdf:resource or encloses it
+type statement struct {
+	subject, predicate, object string
+	literal                    bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..b845398 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -51,6 +51,22 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// returns whether the triple is seen for the first time. An element reached along
+// several paths is thus given each of its properties once.
+func (parser *rdfParser2_3) firstVisit(triple *gordfParser.Triple) bool {
+	st := statement{
+		subject:   triple.Subject.ID,
+		predicate: triple.Predicate.ID,
+		object:    triple.Object.ID,
+		literal:   triple.Object.NodeType == gordfParser.LITERAL,
+	}
+	if parser.visited[st] {
+		return false
+	}
+	parser.visited[st] = true
+	return true
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From c25521b04e978d2f9b8a60ff0ae8b37f4f2a2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 27/49] fix: reject an RDF node used as two kinds of element

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 4 +++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 4 +++-
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 4 +++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 3ee5105..2f2be7e 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -22,9 +22,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			object: file,
 			Color:  WHITE,
 		}
+	} else if cached, ok := currState.object.(*v2_2.File); !ok {
+		return nil, fmt.Errorf("%s is used as a file and as something else", fileNode.ID)
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		return cached, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index a0e1469..606def1 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -22,9 +22,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			object: pkg,
 			Color:  WHITE,
 		}
+	} else if cached, ok := currState.object.(*v2_2.Package); !ok {
+		return nil, fmt.Errorf("%s is used as a package and as something else", packageNode.ID)
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		return cached, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index abc41bd..ba41c4a 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -22,9 +22,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			object: file,
 			Color:  WHITE,
 		}
+	} else if cached, ok := currState.object.(*spdx.File); !ok {
+		return nil, fmt.Errorf("%s is used as a file and as something else", fileNode.ID)
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		return cached, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 6c0a49e..4cd4785 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -22,9 +22,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			object: pkg,
 			Color:  WHITE,
 		}
+	} else if cached, ok := currState.object.(*spdx.Package); !ok {
+		return nil, fmt.Errorf("%s is used as a package and as something else", packageNode.ID)
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		return cached, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
-- 
2.43.0


From 59b5f115bf0a2fa28ff22b804c6b9f9bb9c3d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 28/49] fix: read RDF elements that are described apart from
 where they are referred to

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 13 +++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 12 ++++++++++++
 spdx/v2/v2_2/rdf/reader/parser.go             | 14 +++++++++-----
 spdx/v2/v2_2/rdf/reader/types.go              |  1 +
 spdx/v2/v2_2/rdf/reader/utils.go              |  8 +++++++-
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 13 +++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go             | 14 +++++++++-----
 spdx/v2/v2_3/rdf/reader/types.go              |  1 +
 spdx/v2/v2_3/rdf/reader/utils.go              |  8 +++++++-
 10 files changed, 84 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 2737852..c6ec03a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -91,6 +91,19 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SNIPPET:
+		snippet, err := parser.getSnippetInformationFromNode2_2(triple.Subject)
+		if err != nil {
+			return fmt.Errorf("error setting a snippet inside a relationship: %v", err)
+		}
+		reln.RefB = common.DocElementID{
+			DocumentRefID: "",
+			ElementRefID:  snippet.SnippetSPDXIdentifier,
+		}
+
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED:
+		// the document itself, which is being parsed.
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..56bd6ce 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -22,7 +22,19 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 		return nil, err
 	}
 
+	if currState := parser.cache[node.ID]; currState == nil {
+		parser.cache[node.ID] = &nodeState{object: si, Color: GREY}
+		parser.snippets = append(parser.snippets, si)
+	} else if cached, ok := currState.object.(*v2_2.Snippet); ok {
+		si = cached
+	} else {
+		return nil, fmt.Errorf("%s is used as a snippet and as something else", node.ID)
+	}
+
 	for _, siTriple := range parser.nodeToTriples(node) {
+		if !parser.firstVisit(siTriple) {
+			continue
+		}
 		switch siTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index b5daf78..00f1002 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -64,14 +64,10 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
 			continue // it is already parsed.
 		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_2(typeTriples[0].Subject)
+			_, err := parser.getSnippetInformationFromNode2_2(typeTriples[0].Subject)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing a snippet: %v", err)
 			}
-			err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-			if err != nil {
-				return nil, err
-			}
 		// todo: check other root node attributes.
 		default:
 			continue
@@ -80,6 +76,14 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		}
 	}
 
+	// all the snippets are parsed, and so are the files they are taken from
+	for _, snippet := range parser.snippets {
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 8c2d7e9..321498f 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -20,6 +20,7 @@ type rdfParser2_2 struct {
 	// map of packages and files.
 	files            map[common.ElementID]*v2_2.File
 	assocWithPackage map[common.ElementID]bool
+	snippets         []*v2_2.Snippet
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 3043530..2ff6263 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -48,7 +48,13 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	triples := parser.nodeStringToTriples[node.String()]
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		// a node referred to by rdf:resource may be described elsewhere by rdf:about
+		described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+		triples = parser.nodeStringToTriples[described.String()]
+	}
+	return triples
 }
 
 // returns whether the triple is seen for the first time. An element reached along
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 3aafaf5..3fe8df3 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -91,6 +91,19 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SNIPPET:
+		snippet, err := parser.getSnippetInformationFromNode2_3(triple.Subject)
+		if err != nil {
+			return fmt.Errorf("error setting a snippet inside a relationship: %v", err)
+		}
+		reln.RefB = common.DocElementID{
+			DocumentRefID: "",
+			ElementRefID:  snippet.SnippetSPDXIdentifier,
+		}
+
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED:
+		// the document itself, which is being parsed.
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..8c19807 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -22,7 +22,19 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 		return nil, err
 	}
 
+	if currState := parser.cache[node.ID]; currState == nil {
+		parser.cache[node.ID] = &nodeState{object: si, Color: GREY}
+		parser.snippets = append(parser.snippets, si)
+	} else if cached, ok := currState.object.(*spdx.Snippet); ok {
+		si = cached
+	} else {
+		return nil, fmt.Errorf("%s is used as a snippet and as something else", node.ID)
+	}
+
 	for _, siTriple := range parser.nodeToTriples(node) {
+		if !parser.firstVisit(siTriple) {
+			continue
+		}
 		switch siTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 2a996c5..523c795 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -64,14 +64,10 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
 			continue // it is already parsed.
 		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_3(typeTriples[0].Subject)
+			_, err := parser.getSnippetInformationFromNode2_3(typeTriples[0].Subject)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing a snippet: %v", err)
 			}
-			err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-			if err != nil {
-				return nil, err
-			}
 		// todo: check other root node attributes.
 		default:
 			continue
@@ -80,6 +76,14 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		}
 	}
 
+	// all the snippets are parsed, and so are the files they are taken from
+	for _, snippet := range parser.snippets {
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index cef23d9..632b9be 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -20,6 +20,7 @@ type rdfParser2_3 struct {
 	// map of packages and files.
 	files            map[common.ElementID]*spdx.File
 	assocWithPackage map[common.ElementID]bool
+	snippets         []*spdx.Snippet
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index b845398..dea5d44 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -48,7 +48,13 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	triples := parser.nodeStringToTriples[node.String()]
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		// a node referred to by rdf:resource may be described elsewhere by rdf:about
+		described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+		triples = parser.nodeStringToTriples[described.String()]
+	}
+	return triples
 }
 
 // returns whether the triple is seen for the first time. An element reached along
-- 
2.43.0


From ab7955a36f53c0affc45b477d1bcf6cc01bf6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 29/49] fix: keep every range of an RDF snippet, with its file

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 19 +++++++++++++------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index 56bd6ce..060cb78 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -85,6 +85,12 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+
+	// a range may have been read before the file it is in
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -149,18 +155,19 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 8c19807..b11f27f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -82,6 +82,12 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+
+	// a range may have been read before the file it is in
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -146,18 +152,19 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0


From deb0e8bf97c9e29efc39cef5b25322578e64172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 30/49] fix: keep what an RDF annotation is about

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 14 ++++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 14 ++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..8bbe30f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -10,6 +10,20 @@ import (
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
 
+// parses the annotation which the subject of the triple has
+func (parser *rdfParser2_2) parseAnnotation(triple *gordfParser.Triple) error {
+	annotated, err := getReferenceFromURI(triple.Subject.ID)
+	if err != nil {
+		return err
+	}
+	err = parser.parseAnnotationFromNode(triple.Object)
+	if err != nil {
+		return err
+	}
+	parser.doc.Annotations[len(parser.doc.Annotations)-1].AnnotationSPDXIdentifier = annotated
+	return nil
+}
+
 // creates a new instance of annotation and sets the annotation attributes
 // associated with the given node.
 // The newly created annotation is appended to the doc.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 2f2be7e..19fc48b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -116,7 +116,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 606def1..c1d6ff8 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -153,7 +153,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 6b5ff97..14f7ca8 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -79,7 +79,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..5981a1b 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -10,6 +10,20 @@ import (
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 )
 
+// parses the annotation which the subject of the triple has
+func (parser *rdfParser2_3) parseAnnotation(triple *gordfParser.Triple) error {
+	annotated, err := getReferenceFromURI(triple.Subject.ID)
+	if err != nil {
+		return err
+	}
+	err = parser.parseAnnotationFromNode(triple.Object)
+	if err != nil {
+		return err
+	}
+	parser.doc.Annotations[len(parser.doc.Annotations)-1].AnnotationSPDXIdentifier = annotated
+	return nil
+}
+
 // creates a new instance of annotation and sets the annotation attributes
 // associated with the given node.
 // The newly created annotation is appended to the doc.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index ba41c4a..bbf752d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -116,7 +116,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 4cd4785..c3599b1 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -165,7 +165,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7ed1798..07b2a8b 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -79,7 +79,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From bc6e053f99c1f28bdc1767f869b5175262bb9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 31/49] fix: accept relationships, annotations and attribution
 texts of RDF snippets

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index 060cb78..792eea5 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -81,6 +81,18 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			err = parser.parseAnnotation(siTriple)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing an annotation of a snippet: %v", err)
+			}
+		case SPDX_RELATIONSHIP:
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a relationship of a snippet: %v", err)
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index b11f27f..720459f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -78,6 +78,18 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			err = parser.parseAnnotation(siTriple)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing an annotation of a snippet: %v", err)
+			}
+		case SPDX_RELATIONSHIP:
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a relationship of a snippet: %v", err)
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
-- 
2.43.0


From a43bbf6abfe58a94a77afadef2cdece4d14bd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 32/49] fix: take the files of an RDF package as analysed
 unless it says otherwise

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index c1d6ff8..a126dfd 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -162,6 +162,10 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	}
 
+	if !pkg.IsFilesAnalyzedTagPresent {
+		pkg.FilesAnalyzed = true // which is what its absence means
+	}
+
 	if existingPackageIndex != -1 {
 		parser.doc.Packages[existingPackageIndex] = pkg
 	} else {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index c3599b1..ce86a81 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -174,6 +174,10 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	}
 
+	if !pkg.IsFilesAnalyzedTagPresent {
+		pkg.FilesAnalyzed = true // which is what its absence means
+	}
+
 	if existingPackageIndex != -1 {
 		parser.doc.Packages[existingPackageIndex] = pkg
 	} else {
-- 
2.43.0


From b224b379b14b31c2ddde47fb1b97bb84c74eef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 33/49] fix: accept the persistent identifier category in RDF

---
 spdx/v2/v2_2/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_2/rdf/reader/parse_package.go | 2 ++
 spdx/v2/v2_3/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/constants.go b/spdx/v2/v2_2/rdf/reader/constants.go
index f68fdd9..15a1978 100644
--- a/spdx/v2/v2_2/rdf/reader/constants.go
+++ b/spdx/v2/v2_2/rdf/reader/constants.go
@@ -83,6 +83,7 @@ var (
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index a126dfd..79907b0 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -187,6 +187,8 @@ func (parser *rdfParser2_2) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 4220602..737dfa6 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -87,6 +87,7 @@ var (
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index ce86a81..d257eb5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -199,6 +199,8 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
-- 
2.43.0


From 9ace25d69df7cb4b8f87e1d6a4fdf29c679201db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 34/49] fix: read the package purpose from its RDF term

---
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index d257eb5..349e996 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -147,7 +147,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			parser.setFileToPackage(pkg, file)
 		case SPDX_PRIMARY_PACKAGE_PURPOSE: // 7.24
 			// cardinality: exactly 1
-			pkg.PrimaryPackagePurpose = getPrimaryPackagePurpose(subTriple.Object.ID)
+			pkg.PrimaryPackagePurpose = getPrimaryPackagePurpose(getLastPartOfURI(subTriple.Object.ID))
 		case SPDX_RELEASE_DATE: // 7.25
 			// cardinality: exactly 1
 			pkg.ReleaseDate = subTriple.Object.ID
-- 
2.43.0


From e3b16234258b7857b3eca0131d7f2199b1bd0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 35/49] fix: accept the checksum algorithms and relationship
 types of SPDX 2.3 in RDF

---
 spdx/v2/v2_3/rdf/reader/constants.go     | 2 +-
 spdx/v2/v2_3/rdf/reader/license_utils.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 737dfa6..887a212 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -155,7 +155,7 @@ func AllRelationshipTypes() []string {
 		"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
 		"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
 		"patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf",
-		"runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf",
+		"requirementDescriptionFor", "runtimeDependencyOf", "specificationFor", "staticLink", "testDependencyOf", "testOf",
 		"testToolOf", "testcaseOf", "variantOf",
 	}
 }
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..12a8abf 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -62,6 +62,12 @@ func getAlgorithmFromURI(algorithmURI string) (checksumAlgorithm string, err err
 		checksumAlgorithm = strings.ToUpper(algorithm)
 	case "sha1", "sha224", "sha256", "sha384", "sha512":
 		checksumAlgorithm = strings.ToUpper(algorithm)
+	case "sha3_256", "sha3_384", "sha3_512":
+		checksumAlgorithm = strings.ToUpper(strings.ReplaceAll(algorithm, "_", "-"))
+	case "blake2b256", "blake2b384", "blake2b512":
+		checksumAlgorithm = "BLAKE2b-" + strings.TrimPrefix(algorithm, "blake2b")
+	case "blake3", "adler32":
+		checksumAlgorithm = strings.ToUpper(algorithm)
 	default:
 		return "", fmt.Errorf("unknown checksum algorithm %s", algorithm)
 	}
-- 
2.43.0


From 1e46dbb0705dabcaa71c53febb154718fee024b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 36/49] fix: read NONE and NOASSERTION as related elements in
 RDF

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index c6ec03a..cb14b69 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -39,6 +39,10 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			switch special := strings.ToUpper(strings.TrimSpace(getLastPartOfURI(subTriple.Object.ID))); special {
+			case "NONE", "NOASSERTION":
+				reln.RefB = common.DocElementID{SpecialID: special}
+			}
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 3fe8df3..52ae309 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -39,6 +39,10 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			switch special := strings.ToUpper(strings.TrimSpace(getLastPartOfURI(subTriple.Object.ID))); special {
+			case "NONE", "NOASSERTION":
+				reln.RefB = common.DocElementID{SpecialID: special}
+			}
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
-- 
2.43.0


From 6662b19ee3354beead2f507309012c512fa0f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 37/49] fix: read the identifiers of a document and of external
 documents in RDF without their prefixes

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 7 ++++---
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 14f7ca8..867b8da 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -95,7 +96,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 07b2a8b..458e624 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -95,7 +96,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From 5765796cfdfe36c2653fffd709099883dedcebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 38/49] fix: put nested RDF license sets in brackets

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 37 +++++++++++++++++++++---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 37 +++++++++++++++++++++---
 2 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..9b514b2 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,14 +80,43 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	return joinLicenses(lic.members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
+	return joinLicenses(lic.members, " OR ")
+}
+
+// joins the licenses with the operator. A nested set with the other operator is
+// put in brackets.
+func joinLicenses(licences []AnyLicenseInfo, operator string) string {
+	res := mapLicensesToStrings(licences)
+	if len(res) > 1 {
+		for i, lic := range licences {
+			if op := setOperator(lic); op != "" && op != operator {
+				res[i] = "(" + res[i] + ")"
+			}
+		}
+	}
+	return strings.Join(res, operator)
+}
+
+// returns the operator between the members of a license set, and an empty string
+// for any other license.
+func setOperator(lic AnyLicenseInfo) string {
+	var members []AnyLicenseInfo
+	operator := ""
+	switch set := lic.(type) {
+	case ConjunctiveLicenseSet:
+		members, operator = set.members, " AND "
+	case DisjunctiveLicenseSet:
+		members, operator = set.members, " OR "
+	}
+	if len(members) == 1 {
+		return setOperator(members[0])
+	}
+	return operator
 }
 
 func (lic ExtractedLicensingInfo) ToLicenseString() string {
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 12a8abf..b2848ae 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -86,14 +86,43 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	return joinLicenses(lic.members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
+	return joinLicenses(lic.members, " OR ")
+}
+
+// joins the licenses with the operator. A nested set with the other operator is
+// put in brackets.
+func joinLicenses(licences []AnyLicenseInfo, operator string) string {
+	res := mapLicensesToStrings(licences)
+	if len(res) > 1 {
+		for i, lic := range licences {
+			if op := setOperator(lic); op != "" && op != operator {
+				res[i] = "(" + res[i] + ")"
+			}
+		}
+	}
+	return strings.Join(res, operator)
+}
+
+// returns the operator between the members of a license set, and an empty string
+// for any other license.
+func setOperator(lic AnyLicenseInfo) string {
+	var members []AnyLicenseInfo
+	operator := ""
+	switch set := lic.(type) {
+	case ConjunctiveLicenseSet:
+		members, operator = set.members, " AND "
+	case DisjunctiveLicenseSet:
+		members, operator = set.members, " OR "
+	}
+	if len(members) == 1 {
+		return setOperator(members[0])
+	}
+	return operator
 }
 
 func (lic ExtractedLicensingInfo) ToLicenseString() string {
-- 
2.43.0


From f79c6fc0070eedad77e1f35d7892a27f97b214cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 39/49] fix: keep the operators and exceptions of RDF licenses

---
 spdx/v2/v2_2/rdf/reader/license_utils.go |  5 +-
 spdx/v2/v2_2/rdf/reader/parse_license.go | 68 ++++++++++++++++++++----
 spdx/v2/v2_3/rdf/reader/license_utils.go |  5 +-
 spdx/v2/v2_3/rdf/reader/parse_license.go | 68 ++++++++++++++++++++----
 4 files changed, 126 insertions(+), 20 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 9b514b2..7d517a0 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -136,7 +136,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..27a3047 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -96,9 +96,47 @@ func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node)
 			return exception, fmt.Errorf("invalid predicate(%s) for LicenseException", triple.Predicate)
 		}
 	}
+	if exception.licenseExceptionId == "" {
+		exception.licenseExceptionId = identifierFromURI(node)
+	}
+	if exception.licenseExceptionId == "" {
+		return exception, fmt.Errorf("no licenseExceptionId found in LicenseException %v", node)
+	}
 	return exception, nil
 }
 
+// returns the last part of the uri of a node, and an empty string for a blank node.
+func identifierFromURI(node *gordfParser.Node) string {
+	if node.NodeType != gordfParser.IRI && node.NodeType != gordfParser.RESOURCELITERAL {
+		return ""
+	}
+	return getLastPartOfURI(strings.TrimSpace(node.ID))
+}
+
+// returns the license an operator applies to. It is a single license, or the
+// "or later" of one.
+func (parser *rdfParser2_2) getOperatorMemberFromNode(node *gordfParser.Node) (member SimpleLicensingInfo, err error) {
+	lic, err := parser.getAnyLicenseFromNode(node)
+	if err != nil {
+		return member, err
+	}
+	switch lic := lic.(type) {
+	case SimpleLicensingInfo:
+		return lic, nil
+	case ExtractedLicensingInfo:
+		return lic.SimpleLicensingInfo, nil
+	case License:
+		return lic.SimpleLicensingInfo, nil
+	case OrLaterOperator:
+		return lic.member, nil
+	case SpecialLicense:
+		if lic.value != NONE && lic.value != NOASSERTION {
+			return SimpleLicensingInfo{licenseID: string(lic.value)}, nil
+		}
+	}
+	return member, fmt.Errorf("%s cannot be the member of a license operator", lic.ToLicenseString())
+}
+
 func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
 	simpleLicensingTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
@@ -106,18 +144,18 @@ func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 
 func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
-	var memberFound bool
+	var memberID string
 	for _, triple := range associatedTriples {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			if memberFound {
+			if memberID != "" && memberID != triple.Object.ID {
 				return operator,
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
-			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			memberID = triple.Object.ID
+			member, err := parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -131,21 +169,25 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 			return operator, fmt.Errorf("unknown predicate (%s) for a WithExceptionOperator", triple.Predicate.ID)
 		}
 	}
+	if memberID == "" || operator.licenseException.licenseExceptionId == "" {
+		return operator, errors.New("a WithExceptionOperator must have a member and a licenseException")
+	}
 	return operator, nil
 }
 
 func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (operator OrLaterOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
-	n := len(associatedTriples)
-	if n != 2 {
-		return operator, fmt.Errorf("orLaterOperator must be associated with exactly one tag. found %v triples", n-1)
-	}
+	var memberID string
 	for _, triple := range associatedTriples {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			if memberID != "" && memberID != triple.Object.ID {
+				return operator, errors.New("more than one member found in the OrLaterOperator (expected only 1)")
+			}
+			memberID = triple.Object.ID
+			operator.member, err = parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
@@ -153,6 +195,11 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 			return operator, fmt.Errorf("unknown predicate %s", triple.Predicate.ID)
 		}
 	}
+	if memberID == "" {
+		return operator, errors.New("an OrLaterOperator must have a member")
+	}
+	// the identifier of some licenses already ends with it
+	operator.member.licenseID = strings.TrimSuffix(operator.member.licenseID, "+") + "+"
 	return operator, nil
 }
 
@@ -287,5 +334,8 @@ func (parser *rdfParser2_2) getLicenseFromNode(node *gordfParser.Node) (lic Lice
 	if err != nil {
 		return lic, fmt.Errorf("error setting simple licensing information of a License: %s", err)
 	}
+	if lic.licenseID == "" {
+		lic.licenseID = identifierFromURI(node)
+	}
 	return lic, nil
 }
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index b2848ae..34ffcd2 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -142,7 +142,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..5479db2 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -96,9 +96,47 @@ func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node)
 			return exception, fmt.Errorf("invalid predicate(%s) for LicenseException", triple.Predicate)
 		}
 	}
+	if exception.licenseExceptionId == "" {
+		exception.licenseExceptionId = identifierFromURI(node)
+	}
+	if exception.licenseExceptionId == "" {
+		return exception, fmt.Errorf("no licenseExceptionId found in LicenseException %v", node)
+	}
 	return exception, nil
 }
 
+// returns the last part of the uri of a node, and an empty string for a blank node.
+func identifierFromURI(node *gordfParser.Node) string {
+	if node.NodeType != gordfParser.IRI && node.NodeType != gordfParser.RESOURCELITERAL {
+		return ""
+	}
+	return getLastPartOfURI(strings.TrimSpace(node.ID))
+}
+
+// returns the license an operator applies to. It is a single license, or the
+// "or later" of one.
+func (parser *rdfParser2_3) getOperatorMemberFromNode(node *gordfParser.Node) (member SimpleLicensingInfo, err error) {
+	lic, err := parser.getAnyLicenseFromNode(node)
+	if err != nil {
+		return member, err
+	}
+	switch lic := lic.(type) {
+	case SimpleLicensingInfo:
+		return lic, nil
+	case ExtractedLicensingInfo:
+		return lic.SimpleLicensingInfo, nil
+	case License:
+		return lic.SimpleLicensingInfo, nil
+	case OrLaterOperator:
+		return lic.member, nil
+	case SpecialLicense:
+		if lic.value != NONE && lic.value != NOASSERTION {
+			return SimpleLicensingInfo{licenseID: string(lic.value)}, nil
+		}
+	}
+	return member, fmt.Errorf("%s cannot be the member of a license operator", lic.ToLicenseString())
+}
+
 func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
 	simpleLicensingTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
@@ -106,18 +144,18 @@ func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 
 func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
-	var memberFound bool
+	var memberID string
 	for _, triple := range associatedTriples {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			if memberFound {
+			if memberID != "" && memberID != triple.Object.ID {
 				return operator,
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
-			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			memberID = triple.Object.ID
+			member, err := parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -131,21 +169,25 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 			return operator, fmt.Errorf("unknown predicate (%s) for a WithExceptionOperator", triple.Predicate.ID)
 		}
 	}
+	if memberID == "" || operator.licenseException.licenseExceptionId == "" {
+		return operator, errors.New("a WithExceptionOperator must have a member and a licenseException")
+	}
 	return operator, nil
 }
 
 func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (operator OrLaterOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
-	n := len(associatedTriples)
-	if n != 2 {
-		return operator, fmt.Errorf("orLaterOperator must be associated with exactly one tag. found %v triples", n-1)
-	}
+	var memberID string
 	for _, triple := range associatedTriples {
 		switch triple.Predicate.ID {
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			if memberID != "" && memberID != triple.Object.ID {
+				return operator, errors.New("more than one member found in the OrLaterOperator (expected only 1)")
+			}
+			memberID = triple.Object.ID
+			operator.member, err = parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
@@ -153,6 +195,11 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 			return operator, fmt.Errorf("unknown predicate %s", triple.Predicate.ID)
 		}
 	}
+	if memberID == "" {
+		return operator, errors.New("an OrLaterOperator must have a member")
+	}
+	// the identifier of some licenses already ends with it
+	operator.member.licenseID = strings.TrimSuffix(operator.member.licenseID, "+") + "+"
 	return operator, nil
 }
 
@@ -287,5 +334,8 @@ func (parser *rdfParser2_3) getLicenseFromNode(node *gordfParser.Node) (lic Lice
 	if err != nil {
 		return lic, fmt.Errorf("error setting simple licensing information of a License: %s", err)
 	}
+	if lic.licenseID == "" {
+		lic.licenseID = identifierFromURI(node)
+	}
 	return lic, nil
 }
-- 
2.43.0


From 30dcada1432ee185d78167122cd6ea2c10059dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 40/49] fix: reject empty RDF licenses

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 29 ++++++++++++++++--------
 spdx/v2/v2_3/rdf/reader/parse_license.go | 29 ++++++++++++++++--------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 27a3047..858ed29 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -51,23 +51,32 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 	if err != nil {
 		return nil, fmt.Errorf("error parsing license triple: %v", err)
 	}
+	var lic AnyLicenseInfo
 	switch nodeType {
 	case SPDX_DISJUNCTIVE_LICENSE_SET:
-		return parser.getDisjunctiveLicenseSetFromNode(node)
+		lic, err = parser.getDisjunctiveLicenseSetFromNode(node)
 	case SPDX_CONJUNCTIVE_LICENSE_SET:
-		return parser.getConjunctiveLicenseSetFromNode(node)
+		lic, err = parser.getConjunctiveLicenseSetFromNode(node)
 	case SPDX_EXTRACTED_LICENSING_INFO:
-		return parser.getExtractedLicensingInfoFromNode(node)
+		lic, err = parser.getExtractedLicensingInfoFromNode(node)
 	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
-		return parser.getLicenseFromNode(node)
+		lic, err = parser.getLicenseFromNode(node)
 	case SPDX_WITH_EXCEPTION_OPERATOR:
-		return parser.getWithExceptionOperatorFromNode(node)
+		lic, err = parser.getWithExceptionOperatorFromNode(node)
 	case SPDX_OR_LATER_OPERATOR:
-		return parser.getOrLaterOperatorFromNode(node)
+		lic, err = parser.getOrLaterOperatorFromNode(node)
 	case SPDX_SIMPLE_LICENSING_INFO:
-		return parser.getSimpleLicensingInfoFromNode(node)
+		lic, err = parser.getSimpleLicensingInfoFromNode(node)
+	default:
+		err = fmt.Errorf("Unknown subTag (%s) found while parsing AnyLicense", nodeType)
 	}
-	return nil, fmt.Errorf("Unknown subTag (%s) found while parsing AnyLicense", nodeType)
+	if err != nil {
+		return nil, err
+	}
+	if lic.ToLicenseString() == "" {
+		return nil, fmt.Errorf("license %v has neither an identifier nor members", node)
+	}
+	return lic, nil
 }
 
 func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
@@ -223,7 +232,7 @@ func (parser *rdfParser2_2) getSpecialLicenseFromNode(node *gordfParser.Node) (l
 	// checking if the license is among the standardLicenses
 	licenseAbbreviation := getLastPartOfURI(uri)
 	for _, stdLicense := range AllStandardLicenseIDS() {
-		if licenseAbbreviation == stdLicense {
+		if licenseAbbreviation == stdLicense && stdLicense != "" {
 			return SpecialLicense{
 				value: SpecialLicenseValue(stdLicense),
 			}, nil
@@ -246,6 +255,8 @@ func (parser *rdfParser2_2) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 				return licenseSet, fmt.Errorf("error parsing disjunctive license set: %v", err)
 			}
 			licenseSet.members = append(licenseSet.members, member)
+		default:
+			return licenseSet, fmt.Errorf("unknown subTag for DisjunctiveLicenseSet: %s", triple.Predicate.ID)
 		}
 	}
 	return licenseSet, nil
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index 5479db2..ffbedb5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -51,23 +51,32 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 	if err != nil {
 		return nil, fmt.Errorf("error parsing license triple: %v", err)
 	}
+	var lic AnyLicenseInfo
 	switch nodeType {
 	case SPDX_DISJUNCTIVE_LICENSE_SET:
-		return parser.getDisjunctiveLicenseSetFromNode(node)
+		lic, err = parser.getDisjunctiveLicenseSetFromNode(node)
 	case SPDX_CONJUNCTIVE_LICENSE_SET:
-		return parser.getConjunctiveLicenseSetFromNode(node)
+		lic, err = parser.getConjunctiveLicenseSetFromNode(node)
 	case SPDX_EXTRACTED_LICENSING_INFO:
-		return parser.getExtractedLicensingInfoFromNode(node)
+		lic, err = parser.getExtractedLicensingInfoFromNode(node)
 	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
-		return parser.getLicenseFromNode(node)
+		lic, err = parser.getLicenseFromNode(node)
 	case SPDX_WITH_EXCEPTION_OPERATOR:
-		return parser.getWithExceptionOperatorFromNode(node)
+		lic, err = parser.getWithExceptionOperatorFromNode(node)
 	case SPDX_OR_LATER_OPERATOR:
-		return parser.getOrLaterOperatorFromNode(node)
+		lic, err = parser.getOrLaterOperatorFromNode(node)
 	case SPDX_SIMPLE_LICENSING_INFO:
-		return parser.getSimpleLicensingInfoFromNode(node)
+		lic, err = parser.getSimpleLicensingInfoFromNode(node)
+	default:
+		err = fmt.Errorf("Unknown subTag (%s) found while parsing AnyLicense", nodeType)
 	}
-	return nil, fmt.Errorf("Unknown subTag (%s) found while parsing AnyLicense", nodeType)
+	if err != nil {
+		return nil, err
+	}
+	if lic.ToLicenseString() == "" {
+		return nil, fmt.Errorf("license %v has neither an identifier nor members", node)
+	}
+	return lic, nil
 }
 
 func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
@@ -223,7 +232,7 @@ func (parser *rdfParser2_3) getSpecialLicenseFromNode(node *gordfParser.Node) (l
 	// checking if the license is among the standardLicenses
 	licenseAbbreviation := getLastPartOfURI(uri)
 	for _, stdLicense := range AllStandardLicenseIDS() {
-		if licenseAbbreviation == stdLicense {
+		if licenseAbbreviation == stdLicense && stdLicense != "" {
 			return SpecialLicense{
 				value: SpecialLicenseValue(stdLicense),
 			}, nil
@@ -246,6 +255,8 @@ func (parser *rdfParser2_3) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 				return licenseSet, fmt.Errorf("error parsing disjunctive license set: %v", err)
 			}
 			licenseSet.members = append(licenseSet.members, member)
+		default:
+			return licenseSet, fmt.Errorf("unknown subTag for DisjunctiveLicenseSet: %s", triple.Predicate.ID)
 		}
 	}
 	return licenseSet, nil
-- 
2.43.0


From 1a3ad3be6df483fe16dc0958d3fd898afde00040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 41/49] fix: read the licenses from files of an RDF package as
 licenses

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 10 +++++++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 79907b0..1797c0d 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -108,7 +108,15 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 3.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			license := getLicenseStringFromURI(subTriple.Object.ID)
+			if len(parser.nodeToTriples(subTriple.Object)) > 0 {
+				anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+				if err != nil {
+					return nil, err
+				}
+				license = anyLicenseInfo.ToLicenseString()
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, license)
 		case SPDX_LICENSE_DECLARED: // 3.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 349e996..8ac6117 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -108,7 +108,15 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 7.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			license := getLicenseStringFromURI(subTriple.Object.ID)
+			if len(parser.nodeToTriples(subTriple.Object)) > 0 {
+				anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+				if err != nil {
+					return nil, err
+				}
+				license = anyLicenseInfo.ToLicenseString()
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, license)
 		case SPDX_LICENSE_DECLARED: // 7.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
-- 
2.43.0


From 994fbb7bf0885cb67159cf613533eea78567c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 42/49] fix: keep extracted licenses that only an RDF license
 refers to

---
 spdx/v2/v2_2/rdf/reader/parse_license.go            |  7 ++++++-
 spdx/v2/v2_2/rdf/reader/parse_other_license_info.go | 10 ++++++++++
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go      |  3 +--
 spdx/v2/v2_2/rdf/reader/parser.go                   |  1 +
 spdx/v2/v2_2/rdf/reader/types.go                    |  3 +++
 spdx/v2/v2_3/rdf/reader/parse_license.go            |  7 ++++++-
 spdx/v2/v2_3/rdf/reader/parse_other_license_info.go | 10 ++++++++++
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go      |  3 +--
 spdx/v2/v2_3/rdf/reader/parser.go                   |  1 +
 spdx/v2/v2_3/rdf/reader/types.go                    |  3 +++
 10 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 858ed29..615b5cf 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -58,7 +58,12 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 	case SPDX_CONJUNCTIVE_LICENSE_SET:
 		lic, err = parser.getConjunctiveLicenseSetFromNode(node)
 	case SPDX_EXTRACTED_LICENSING_INFO:
-		lic, err = parser.getExtractedLicensingInfoFromNode(node)
+		var extracted ExtractedLicensingInfo
+		extracted, err = parser.getExtractedLicensingInfoFromNode(node)
+		if err == nil {
+			parser.addOtherLicense(node, extracted)
+		}
+		lic = extracted
 	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
 		lic, err = parser.getLicenseFromNode(node)
 	case SPDX_WITH_EXCEPTION_OPERATOR:
diff --git a/spdx/v2/v2_2/rdf/reader/parse_other_license_info.go b/spdx/v2/v2_2/rdf/reader/parse_other_license_info.go
index 8612bd1..6d6658c 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_other_license_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_other_license_info.go
@@ -28,6 +28,16 @@ func (parser *rdfParser2_2) getExtractedLicensingInfoFromNode(node *gordfParser.
 	return lic, nil
 }
 
+// adds the extracted license of the node to the document, unless it is already there
+func (parser *rdfParser2_2) addOtherLicense(node *gordfParser.Node, extLicense ExtractedLicensingInfo) {
+	if parser.otherLicenses[node.ID] {
+		return
+	}
+	parser.otherLicenses[node.ID] = true
+	othLicense := parser.extractedLicenseToOtherLicense(extLicense)
+	parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, &othLicense)
+}
+
 func (parser *rdfParser2_2) extractedLicenseToOtherLicense(extLicense ExtractedLicensingInfo) (othLic v2_2.OtherLicense) {
 	othLic.LicenseIdentifier = extLicense.licenseID
 	othLic.ExtractedText = extLicense.extractedText
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 867b8da..fe64143 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -73,8 +73,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			if err != nil {
 				return fmt.Errorf("error setting extractedLicensingInfo in spdxDocument: %v", err)
 			}
-			othLicense := parser.extractedLicenseToOtherLicense(extractedLicensingInfo)
-			parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, &othLicense)
+			parser.addOtherLicense(subTriple.Object, extractedLicensingInfo)
 		case SPDX_RELATIONSHIP: // relationship
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 00f1002..4670e4b 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -31,6 +31,7 @@ func NewParser2_2(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
 		visited:          map[statement]bool{},
+		otherLicenses:    map[string]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 321498f..3f30304 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -22,6 +22,9 @@ type rdfParser2_2 struct {
 	assocWithPackage map[common.ElementID]bool
 	snippets         []*v2_2.Snippet
 
+	// extracted licenses which are in the document, by node
+	otherLicenses map[string]bool
+
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ffbedb5..793ece6 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -58,7 +58,12 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 	case SPDX_CONJUNCTIVE_LICENSE_SET:
 		lic, err = parser.getConjunctiveLicenseSetFromNode(node)
 	case SPDX_EXTRACTED_LICENSING_INFO:
-		lic, err = parser.getExtractedLicensingInfoFromNode(node)
+		var extracted ExtractedLicensingInfo
+		extracted, err = parser.getExtractedLicensingInfoFromNode(node)
+		if err == nil {
+			parser.addOtherLicense(node, extracted)
+		}
+		lic = extracted
 	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
 		lic, err = parser.getLicenseFromNode(node)
 	case SPDX_WITH_EXCEPTION_OPERATOR:
diff --git a/spdx/v2/v2_3/rdf/reader/parse_other_license_info.go b/spdx/v2/v2_3/rdf/reader/parse_other_license_info.go
index 4b136eb..f57b21d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_other_license_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_other_license_info.go
@@ -28,6 +28,16 @@ func (parser *rdfParser2_3) getExtractedLicensingInfoFromNode(node *gordfParser.
 	return lic, nil
 }
 
+// adds the extracted license of the node to the document, unless it is already there
+func (parser *rdfParser2_3) addOtherLicense(node *gordfParser.Node, extLicense ExtractedLicensingInfo) {
+	if parser.otherLicenses[node.ID] {
+		return
+	}
+	parser.otherLicenses[node.ID] = true
+	othLicense := parser.extractedLicenseToOtherLicense(extLicense)
+	parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, &othLicense)
+}
+
 func (parser *rdfParser2_3) extractedLicenseToOtherLicense(extLicense ExtractedLicensingInfo) (othLic spdx.OtherLicense) {
 	othLic.LicenseIdentifier = extLicense.licenseID
 	othLic.ExtractedText = extLicense.extractedText
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 458e624..3ff57d6 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -73,8 +73,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			if err != nil {
 				return fmt.Errorf("error setting extractedLicensingInfo in spdxDocument: %v", err)
 			}
-			othLicense := parser.extractedLicenseToOtherLicense(extractedLicensingInfo)
-			parser.doc.OtherLicenses = append(parser.doc.OtherLicenses, &othLicense)
+			parser.addOtherLicense(subTriple.Object, extractedLicensingInfo)
 		case SPDX_RELATIONSHIP: // relationship
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 523c795..b6cb331 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -31,6 +31,7 @@ func NewParser2_3(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
 		visited:          map[statement]bool{},
+		otherLicenses:    map[string]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 632b9be..5233769 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -22,6 +22,9 @@ type rdfParser2_3 struct {
 	assocWithPackage map[common.ElementID]bool
 	snippets         []*spdx.Snippet
 
+	// extracted licenses which are in the document, by node
+	otherLicenses map[string]bool
+
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
 
-- 
2.43.0


From 878e1b6c72bbbdc83f916374b7f1908dbb2b5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 43/49] fix: decode the text of RDF documents

---
 rdf/reader.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/rdf/reader.go b/rdf/reader.go
index bee1ee6..c4e4d6c 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -3,9 +3,12 @@
 package rdf
 
 import (
+	"encoding/xml"
 	"errors"
 	"fmt"
 	"io"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -42,6 +45,8 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return err
 	}
 
+	decodeText(rdfParserObj)
+
 	version, err := getSpdxVersion(rdfParserObj)
 	if err != nil {
 		return err
@@ -78,6 +83,48 @@ func (k *errorKeeper) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// decodeText replaces the identifiers and values of the nodes, which the RDF loader
+// leaves as they are in the XML, by the text they stand for
+func decodeText(parser *gordfParser.Parser) {
+	decoded := map[*gordfParser.Node]bool{}
+	for _, triple := range parser.Triples {
+		for _, node := range []*gordfParser.Node{triple.Subject, triple.Object} {
+			if !decoded[node] {
+				decoded[node] = true
+				node.ID = textFromXML(node.ID)
+			}
+		}
+	}
+}
+
+func textFromXML(value string) string {
+	const cdataStart, cdataEnd = "<![CDATA[", "]]>"
+	if strings.HasPrefix(value, cdataStart) && strings.HasSuffix(value, cdataEnd) {
+		return value[len(cdataStart) : len(value)-len(cdataEnd)]
+	}
+
+	// the RDF loader turns each byte of a UTF-8 sequence into a character of its own
+	bytes := make([]byte, 0, len(value))
+	for _, char := range value {
+		if char > 0xff {
+			bytes = []byte(value)
+			break
+		}
+		bytes = append(bytes, byte(char))
+	}
+	if utf8.Valid(bytes) {
+		value = string(bytes)
+	}
+
+	if strings.Contains(value, "&") {
+		var text string
+		if err := xml.Unmarshal([]byte("<text>"+value+"</text>"), &text); err == nil {
+			return text
+		}
+	}
+	return value
+}
+
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From 90ef824e384b92b1c42b7325e8e6938c93bd3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 44/49] fix: keep the URI of an RDF project that is referred to

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 19fc48b..b269c2c 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -161,7 +161,7 @@ func (parser *rdfParser2_2) setFileChecksumFromNode(file *v2_2.File, checksumNod
 func (parser *rdfParser2_2) getArtifactFromNode(node *gordfParser.Node) (*v2_2.ArtifactOfProject, error) {
 	artifactOf := &v2_2.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index bbf752d..e385912 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -169,7 +169,7 @@ func (parser *rdfParser2_3) setFileChecksumFromNode(file *spdx.File, checksumNod
 func (parser *rdfParser2_3) getArtifactFromNode(node *gordfParser.Node) (*spdx.ArtifactOfProject, error) {
 	artifactOf := &spdx.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
-- 
2.43.0


From 8701e1f29f7d97bd5abd56083bc4924f0633c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 45/49] fix: read RDF snippets that are described inside
 another element

---
 spdx/v2/v2_2/rdf/reader/parser.go | 9 +++++++++
 spdx/v2/v2_3/rdf/reader/parser.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 4670e4b..939ae48 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -77,6 +77,15 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		}
 	}
 
+	// a snippet is not a root node if it is described inside another element
+	snippetTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET)
+	for _, snippetTriple := range snippetTriples {
+		_, err := parser.getSnippetInformationFromNode2_2(snippetTriple.Subject)
+		if err != nil {
+			return nil, fmt.Errorf("error parsing a snippet: %v", err)
+		}
+	}
+
 	// all the snippets are parsed, and so are the files they are taken from
 	for _, snippet := range parser.snippets {
 		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index b6cb331..289f694 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -77,6 +77,15 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		}
 	}
 
+	// a snippet is not a root node if it is described inside another element
+	snippetTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET)
+	for _, snippetTriple := range snippetTriples {
+		_, err := parser.getSnippetInformationFromNode2_3(snippetTriple.Subject)
+		if err != nil {
+			return nil, fmt.Errorf("error parsing a snippet: %v", err)
+		}
+	}
+
 	// all the snippets are parsed, and so are the files they are taken from
 	for _, snippet := range parser.snippets {
 		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-- 
2.43.0


From 38e0d5f96cc26d4fd5a4a468614179bb09960378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 46/49] fix: reject numbers and booleans in place of text in
 2.1 YAML, as JSON does

yaml.Unmarshal turned unquoted scalars into strings for v2_1.Document, so that
versionInfo: 1.10 was read as 1.1.
---
 yaml/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaml/reader.go b/yaml/reader.go
index c4b39d4..a4615cf 100644
--- a/yaml/reader.go
+++ b/yaml/reader.go
@@ -4,6 +4,7 @@ package yaml
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"io"
 
@@ -57,7 +58,13 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	switch version {
 	case v2_1.Version:
 		var doc v2_1.Document
-		err = yaml.Unmarshal(buf.Bytes(), &doc)
+		// yaml.Unmarshal would turn numbers and booleans into strings for this type, which has
+		// no UnmarshalJSON of its own: neither JSON nor the later versions accept them
+		content, err := yaml.YAMLToJSON(buf.Bytes())
+		if err != nil {
+			return err
+		}
+		err = json.Unmarshal(content, &doc)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e99625bbe8c752a0f483aef42013fdedd6d7dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:30 +0000
Subject: [PATCH 47/49] fix: give built packages identifiers without spaces and
 other characters that identifiers cannot have

---
 builder/build_package.go      | 10 ++++++++--
 builder/build_relationship.go |  4 +---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/builder/build_package.go b/builder/build_package.go
index 68ec353..2efbcfd 100644
--- a/builder/build_package.go
+++ b/builder/build_package.go
@@ -3,7 +3,7 @@
 package builder
 
 import (
-	"fmt"
+	"regexp"
 
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -47,7 +47,7 @@ func BuildPackageSection(packageName string, dirRoot string, pathsIgnore []strin
 	// now build the package section
 	pkg := &spdx.Package{
 		PackageName:                 packageName,
-		PackageSPDXIdentifier:       common.ElementID(fmt.Sprintf("Package-%s", packageName)),
+		PackageSPDXIdentifier:       common.ElementID(packageIdentifier(packageName)),
 		PackageDownloadLocation:     "NOASSERTION",
 		FilesAnalyzed:               true,
 		IsFilesAnalyzedTagPresent:   true,
@@ -61,3 +61,9 @@ func BuildPackageSection(packageName string, dirRoot string, pathsIgnore []strin
 
 	return pkg, nil
 }
+
+// packageIdentifier gives the identifier of the package of the given name:
+// an identifier is made of letters, digits, "." and "-" only
+func packageIdentifier(packageName string) string {
+	return "Package-" + regexp.MustCompile(`[^A-Za-z0-9.-]`).ReplaceAllString(packageName, "-")
+}
diff --git a/builder/build_relationship.go b/builder/build_relationship.go
index fa534ad..cc306a0 100644
--- a/builder/build_relationship.go
+++ b/builder/build_relationship.go
@@ -3,8 +3,6 @@
 package builder
 
 import (
-	"fmt"
-
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
@@ -16,7 +14,7 @@ import (
 func BuildRelationshipSection(packageName string) (*spdx.Relationship, error) {
 	rln := &spdx.Relationship{
 		RefA:         common.MakeDocElementID("", "DOCUMENT"),
-		RefB:         common.MakeDocElementID("", fmt.Sprintf("Package-%s", packageName)),
+		RefB:         common.MakeDocElementID("", packageIdentifier(packageName)),
 		Relationship: "DESCRIBES",
 	}
 
-- 
2.43.0


From ee59d70ea04fde0704423258d42cf7654655b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:16 +0000
Subject: [PATCH 48/49] fix: describe a long text of wide characters without a
 panic

limit() compared the length in bytes but cut by characters, so a text of
more than 303 bytes and fewer than 300 characters was cut beyond its end,
and tagvalue.Write panicked instead of refusing what is not a document.
---
 convert/struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convert/struct.go b/convert/struct.go
index 35e981d..4f3d7a2 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -48,6 +48,10 @@ func limit(text string, length int) string {
 		return text
 	}
 	r := []rune(text)
+	// there may be fewer characters than bytes
+	if len(r) <= length {
+		return text
+	}
 	r = r[:length]
 	return string(r) + "..."
 }
-- 
2.43.0


From f7d465b5097411f929bab158df64884a1308915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 49/49] fix: a creator of an unknown type is a person, as the
 builder documents

---
 builder/build_creation_info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/builder/build_creation_info.go b/builder/build_creation_info.go
index 1916c4e..ff71a24 100644
--- a/builder/build_creation_info.go
+++ b/builder/build_creation_info.go
@@ -18,6 +18,13 @@ import (
 //   - creator: creator string
 //   - testValues: for testing only; call with nil when using in production
 func BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) (*spdx.CreationInfo, error) {
+	// a creator of any other type is taken for a person
+	switch creatorType {
+	case "Person", "Organization", "Tool":
+	default:
+		creatorType = "Person"
+	}
+
 	// build creator slices
 	creators := []common.Creator{
 		// add builder as a tool
-- 
2.43.0

