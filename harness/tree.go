package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"
)

func init() {
	handlers["ignore"] = runIgnore
	handlers["code"] = runCode
	handlers["tree"] = runTree
	handlers["history"] = runHistory
	handlers["treeerr"] = runTreeErr
	subcommands["build"] = subBuild
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }
func sha1Hex(s string) string {
	h := sha1.Sum([]byte(s))
	return hexOf(h[:])
}

func sortedStrs(l []string) []string {
	out := append([]string{}, l...)
	sort.Strings(out)
	return out
}

func diffSets(got, want []string) string {
	g, w := sortedStrs(got), sortedStrs(want)
	if reflect.DeepEqual(g, w) {
		return ""
	}
	return fmt.Sprintf("got %.300q, want %.300q", fmt.Sprint(g), fmt.Sprint(w))
}

func mustTemp() string {
	d, err := os.MkdirTemp(scratchDir, "t-")
	if err != nil {
		panic(harnessErrorf("%v", err))
	}
	if err := os.Chmod(d, 0o755); err != nil {
		panic(harnessErrorf("%v", err))
	}
	return d
}

func must(err error) {
	if err != nil {
		panic(harnessErrorf("%v", err))
	}
}

// ---------------------------------------------------------------- C17

var ignoreTrees struct {
	sync.Mutex
	m map[string]string
}

// ignoreTree makes the tree of the specification once per run; nothing changes it afterwards.
func ignoreTree(paths []string) string {
	key := strings.Join(paths, "\n")
	ignoreTrees.Lock()
	defer ignoreTrees.Unlock()
	if d, ok := ignoreTrees.m[key]; ok {
		return d
	}
	d := mustTemp()
	for _, p := range paths {
		f := filepath.Join(d, p)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte("// SPDX-License-Identifier: MIT\n"), 0o644))
	}
	if ignoreTrees.m == nil {
		ignoreTrees.m = map[string]string{}
	}
	ignoreTrees.m[key] = d
	return d
}

func runIgnore(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	pats, paths, tree := c.strs("pats"), c.strs("paths"), c.strs("tree")
	ign := map[string]bool{}
	for _, p := range c.strs("ignored") {
		ign[p] = true
	}
	before := append([]string{}, pats...)
	for _, p := range paths {
		c.T.exec(1)
		if got := utils.ShouldIgnore(p, pats); got != ign[p] {
			out = append(out, bad("query", "ShouldIgnore(%q, %q) = %v", p, pats, got))
			break
		}
	}
	var keep []string
	for _, p := range tree {
		if !ign[p] {
			keep = append(keep, p)
		}
	}
	dir := ignoreTree(tree)
	c.T.exec(3)
	got, err := utils.GetAllFilePaths(dir, pats)
	if err != nil {
		out = append(out, bad("walk", "GetAllFilePaths: %v", err))
	} else if d := diffSets(got, keep); d != "" {
		out = append(out, bad("walk", "GetAllFilePaths with %q: %s", pats, d))
	}
	doc, err := builder.Build("p", dir, &builder.Config{NamespacePrefix: "n", CreatorType: "Person", Creator: "c", PathsIgnored: pats})
	if err != nil {
		out = append(out, bad("build", "Build: %v", err))
	} else if d := diffSets(fileNames(doc, func(*spdx.File) bool { return true }), dotted(keep)); d != "" {
		out = append(out, bad("build", "Build with %q: %s", pats, d))
	}
	doc, err = idsearcher.BuildIDsDocument("p", dir, &idsearcher.Config{NamespacePrefix: "n", SearcherPathsIgnored: pats})
	if err != nil {
		out = append(out, bad("search", "BuildIDsDocument: %v", err))
	} else if d := diffSets(fileNames(doc, func(f *spdx.File) bool { return f.LicenseConcluded == "MIT" }), dotted(keep)); d != "" {
		out = append(out, bad("search", "licence search without %q: %s", pats, d))
	}
	if !reflect.DeepEqual(before, pats) {
		out = append(out, bad("query", "the list of patterns was changed to %q", pats))
	}
	return
}

func dotted(l []string) []string {
	out := make([]string, len(l))
	for i, x := range l {
		out[i] = "." + x
	}
	return out
}

func fileNames(doc *spdx.Document, which func(*spdx.File) bool) (out []string) {
	if doc == nil || len(doc.Packages) != 1 {
		return []string{"not one package"}
	}
	for _, f := range doc.Packages[0].Files {
		if which(f) {
			out = append(out, f.FileName)
		}
	}
	return
}

// ---------------------------------------------------------------- C18

func runCode(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	var files, before []*spdx.File
	for _, e := range c.list("files") {
		l := e.([]any)
		if len(l) == 0 {
			files, before = append(files, nil), append(before, nil)
			continue
		}
		mk := func() *spdx.File {
			m := toObj(l[0])
			f := &spdx.File{FileName: m["name"].(string)}
			other := func(key string, a common.ChecksumAlgorithm) {
				if m[key].(float64) > 0 {
					f.Checksums = append(f.Checksums, common.Checksum{Algorithm: a, Value: "00ff"})
				}
			}
			other("before", common.SHA256)
			for _, s := range toStrs(m["sha1"]) {
				f.Checksums = append(f.Checksums, common.Checksum{Algorithm: common.SHA1, Value: s})
			}
			other("after", common.MD5)
			return f
		}
		files, before = append(files, mk()), append(before, mk())
	}
	order := append([]*spdx.File{}, files...)
	want := c.obj("want")
	for i := 0; i < 2; i++ {
		c.T.exec(1)
		got, err := utils.GetVerificationCode(files, c.str("excl"))
		if ok, isOk := want["ok"].(map[string]any); isOk {
			if err != nil {
				out = append(out, bad("code", "GetVerificationCode: %v", err))
			} else {
				if w := sha1Hex(ok["text"].(string)); got.Value != w {
					out = append(out, bad("code", "the code is %s, want the SHA1 of %q, %s", got.Value, ok["text"], w))
				}
				if fmt.Sprint(got.ExcludedFiles) != fmt.Sprint(toStrs(ok["excluded"])) {
					out = append(out, bad("excluded", "excluded files %q, want %q", got.ExcludedFiles, ok["excluded"]))
				}
			}
		} else if err == nil {
			out = append(out, bad("nil", "a missing file entry is not an error"))
		}
	}
	for i := range files {
		if files[i] != order[i] || !reflect.DeepEqual(files[i], before[i]) {
			out = append(out, bad("modified", "the list of files was changed at %d", i))
			break
		}
	}
	return
}

// ---------------------------------------------------------------- C16

var bigContent = strings.Repeat("0123456789abcdef", 1<<17) + "tail"

var hugeContent = sync.OnceValue(func() string { return strings.Repeat("fedcba9876543210", 9<<19) + "end" })

func content(id string) string {
	if id == "big" {
		return bigContent
	}
	if id == "huge" {
		return hugeContent()
	}
	if id == "bin" {
		return "\x00\xff\xfe\r\n\x1a"
	}
	return id
}

// putNode makes one entry of the tree; outside holds what links lead to.
func putNode(root, outside, at string, node map[string]any) {
	p := root + at
	switch node["t"] {
	case "dir":
		must(os.Mkdir(p, 0o755))
	case "file":
		// several names of one file, all of them with the content "hard"
		if fi, err := os.Lstat(p); err == nil && fi.Sys().(*syscall.Stat_t).Nlink > 1 {
			must(os.Remove(p))
		}
		if node["c"] == "hard" {
			_ = os.Remove(p)
			must(os.Link(filepath.Join(outside, "hard"), p))
			return
		}
		must(os.WriteFile(p, []byte(content(node["c"].(string))), 0o644))
		if node["c"] == "bin" {
			must(os.Chmod(p, 0o4755))
		}
	case "linkdir":
		must(os.Symlink(filepath.Join(outside, "dir"), p))
	case "linkfile":
		must(os.Symlink(filepath.Join(outside, "file"), p))
	case "linknone":
		must(os.Symlink("nowhere", p))
	case "linkup":
		must(os.Symlink("..", p))
	case "fifo":
		must(syscall.Mkfifo(p, 0o644))
	case "socket":
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		must(err)
		defer syscall.Close(fd)
		// the path of a socket is short, so bind it by way of a short link to its directory
		short, err := os.MkdirTemp("/tmp", "s")
		must(err)
		defer os.RemoveAll(short)
		must(os.Symlink(filepath.Dir(p), short+"/d"))
		if err := syscall.Bind(fd, &syscall.SockaddrUnix{Name: short + "/d/" + filepath.Base(p)}); err != nil {
			must(syscall.Mkfifo(p, 0o644)) // a name too long for a socket
		}
	default:
		panic(harnessErrorf("no node %v", node))
	}
}

func makeOutside(d string) string {
	o := filepath.Join(d, "outside")
	must(os.MkdirAll(filepath.Join(o, "dir"), 0o755))
	must(os.WriteFile(filepath.Join(o, "dir", "in"), []byte("outside"), 0o644))
	must(os.WriteFile(filepath.Join(o, "file"), []byte("outside"), 0o644))
	must(os.WriteFile(filepath.Join(o, "hard"), []byte("hard"), 0o644))
	return o
}

type wantFile struct{ path, content string }

func wantFiles(v any) (out []wantFile) {
	l, _ := v.([]any)
	for _, x := range l {
		m := toObj(x)
		out = append(out, wantFile{m["path"].(string), content(m["c"].(string))})
	}
	return
}

var hashCache sync.Map

func hashesOf(s string) [3]string {
	if h, ok := hashCache.Load(s); ok {
		return h.([3]string)
	}
	a, b, m := sha1.Sum([]byte(s)), sha256.Sum256([]byte(s)), md5.Sum([]byte(s))
	h := [3]string{hexOf(a[:]), hexOf(b[:]), hexOf(m[:])}
	hashCache.Store(s, h)
	return h
}

// judgeBuilt compares a built document with the files that it must list.
func judgeBuilt(doc *spdx.Document, name string, want []wantFile) (out []Mismatch) {
	if doc == nil || len(doc.Packages) != 1 || doc.Packages[0] == nil {
		return []Mismatch{bad("package", "the document does not hold one package")}
	}
	pkg := doc.Packages[0]
	if pkg.PackageName != name {
		out = append(out, bad("package", "the package is named %q, want %q", pkg.PackageName, name))
	}
	n := 0
	for _, r := range doc.Relationships {
		if r.Relationship == "DESCRIBES" && r.RefA == common.MakeDocElementID("", "DOCUMENT") && r.RefB == common.MakeDocElementID("", string(pkg.PackageSPDXIdentifier)) {
			n++
		}
	}
	if n != 1 {
		out = append(out, bad("describes", "the document describes its package %d times", n))
	}
	if len(doc.Files) != 0 {
		out = append(out, bad("files", "%d unpackaged files", len(doc.Files)))
	}
	byPath := map[string]string{}
	var wantNames, gotNames, sums []string
	for _, w := range want {
		byPath[w.path] = w.content
		wantNames = append(wantNames, w.path)
		sums = append(sums, hashesOf(w.content)[0])
	}
	ids := map[common.ElementID]bool{pkg.PackageSPDXIdentifier: true, "DOCUMENT": true}
	for _, f := range pkg.Files {
		if f == nil {
			return append(out, bad("files", "a nil file"))
		}
		gotNames = append(gotNames, f.FileName)
		if ids[f.FileSPDXIdentifier] || f.FileSPDXIdentifier == "" {
			out = append(out, bad("ids", "identifier %q is used twice", f.FileSPDXIdentifier))
		}
		ids[f.FileSPDXIdentifier] = true
		text, ok := byPath[f.FileName]
		if !ok {
			continue
		}
		h := hashesOf(text)
		got := map[common.ChecksumAlgorithm][]string{}
		for _, s := range f.Checksums {
			got[s.Algorithm] = append(got[s.Algorithm], s.Value)
		}
		for i, a := range []common.ChecksumAlgorithm{common.SHA1, common.SHA256, common.MD5} {
			if len(got[a]) != 1 || !strings.EqualFold(got[a][0], h[i]) {
				out = append(out, bad("checksum", "%s of %q is %q, want %s", a, f.FileName, got[a], h[i]))
			}
		}
	}
	if d := diffSets(gotNames, wantNames); d != "" {
		out = append(out, bad("files", "files: %s", d))
	}
	sort.Strings(sums)
	if w := sha1Hex(strings.Join(sums, "")); len(out) == 0 && (pkg.PackageVerificationCode == nil || pkg.PackageVerificationCode.Value != w || len(pkg.PackageVerificationCode.ExcludedFiles) != 0) {
		out = append(out, bad("verification", "verification code %+v, want %s", pkg.PackageVerificationCode, w))
	}
	return
}

func buildConfig(pats []string) *builder.Config {
	return &builder.Config{NamespacePrefix: "https://example.com/ns-", CreatorType: "Person", Creator: "Jo", PathsIgnored: pats,
		TestValues: map[string]string{"Created": "2018-10-19T04:38:00Z"}}
}

// spellings of one directory
func spellings(base, root string) map[string]string {
	out := map[string]string{"plain": root, "slash": root + "/", "slashes": root + "//", "dot": root + "/.", "dotdot": root + "/../" + filepath.Base(root),
		"linkparent": filepath.Join(base, "ln", filepath.Base(root)), "link": filepath.Join(base, "rootln"), "linkslash": filepath.Join(base, "rootln") + "/",
		"linklink": filepath.Join(base, "rootlnln")}
	if wd, err := os.Getwd(); err == nil {
		if r, err := filepath.Rel(wd, root); err == nil {
			out["relative"], out["dotrelative"], out["relativeslash"] = r, "./"+r, r+"/"
		}
	}
	return out
}

func linkRoot(base, root string) {
	must(os.Symlink(base, filepath.Join(base, "ln")))
	must(os.Symlink(root, filepath.Join(base, "rootln")))
	must(os.Symlink("rootln", filepath.Join(base, "rootlnln")))
}

func runTree(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	base := mustTemp()
	defer os.RemoveAll(base)
	outside := makeOutside(base)
	nodes := c.list("nodes")
	sort.Slice(nodes, func(i, j int) bool { return toObj(nodes[i])["at"].(string) < toObj(nodes[j])["at"].(string) })
	// the same tree made in two orders, in directories of different names
	roots := []string{filepath.Join(base, "a"), filepath.Join(base, "other name")}
	// names may hold the path of the directory itself
	own := strings.NewReplacer("{{ROOT}}", strings.TrimPrefix(roots[0], "/"))
	for k, r := range roots {
		must(os.Mkdir(r, 0o755))
		for depth := 1; depth < 8; depth++ {
			for i := range nodes {
				x := toObj(nodes[i])
				if k == 1 {
					x = toObj(nodes[len(nodes)-1-i])
				}
				at := x["at"].(string)
				if strings.Count(at, "/") == depth {
					must(os.MkdirAll(filepath.Dir(r+own.Replace(at)), 0o755))
					putNode(r, outside, own.Replace(at), toObj(x["node"]))
				}
			}
		}
	}
	linkRoot(base, roots[0])
	for wi, w := range c.list("wants") {
		wm := toObj(w)
		pats := toStrs(wm["pats"])
		for i := range pats {
			pats[i] = own.Replace(pats[i])
		}
		want := wantFiles(wm["files"])
		for i := range want {
			want[i].path = own.Replace(want[i].path)
		}
		c.T.exec(1)
		first, err := builder.Build("pkg", roots[0], buildConfig(pats))
		if err != nil {
			return append(out, bad("build", "Build: %v", err))
		}
		out = append(out, judgeBuilt(first, "pkg", want)...)
		other := map[string]string{"madeinreverse": roots[1]}
		if wi == 0 {
			for k, v := range spellings(base, roots[0]) {
				other[k] = v
			}
		}
		for how, dir := range other {
			c.T.exec(1)
			doc, err := builder.Build("pkg", dir, buildConfig(pats))
			if err != nil {
				out = append(out, bad("spelling", "the directory given as %s: %v", how, err))
			} else if !reflect.DeepEqual(doc, first) {
				out = append(out, bad("spelling", "the directory given as %s: %s", how, diffSets(fileNames(doc, func(*spdx.File) bool { return true }),
					fileNames(first, func(*spdx.File) bool { return true }))))
			}
		}
	}
	return
}

// runHistory changes a directory step by step and builds after each of them.
func runHistory(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	base := mustTemp()
	defer os.RemoveAll(base)
	outside := makeOutside(base)
	root := filepath.Join(base, "dir")
	must(os.Mkdir(root, 0o755))
	linkRoot(base, root)
	for i, s := range c.list("steps") {
		sm := toObj(s)
		o := toObj(sm["o"])
		node := toObj(o["node"])
		at := o["at"].(string)
		switch o["op"] {
		case "put":
			putNode(root, outside, at, node)
		case "drop":
			must(os.RemoveAll(root + at))
		case "move":
			must(os.Rename(root+at, root+node["p"].(string)))
		}
		if !sm["built"].(bool) {
			continue
		}
		name := fmt.Sprintf("pkg %d", i)
		for _, how := range []string{"plain", "link"} {
			c.T.exec(1)
			doc, err := builder.Build(name, spellings(base, root)[how], buildConfig(nil))
			if err != nil {
				return append(out, bad("build", "Build after step %d: %v", i, err))
			}
			if ms := judgeBuilt(doc, name, wantFiles(sm["want"])); len(ms) > 0 {
				return append(out, ms...)
			}
		}
	}
	return
}

// runTreeErr builds from what is not a directory that can be read.
func runTreeErr(c *Case) (out []Mismatch) {
	c.T.label(c.str("label"))
	base := mustTemp()
	defer os.RemoveAll(base)
	outside := makeOutside(base)
	root := filepath.Join(base, "dir")
	must(os.Mkdir(root, 0o755))
	must(os.WriteFile(filepath.Join(root, "f"), []byte("x"), 0o644))
	dir := root
	user := false
	switch c.str("fault") {
	case "missing":
		dir = filepath.Join(base, "nowhere")
	case "missingbelow":
		dir = filepath.Join(root, "nowhere", "deeper")
	case "danglinglink":
		dir = filepath.Join(base, "dangling")
		must(os.Symlink("nowhere", dir))
	case "belowfile":
		dir = filepath.Join(outside, "file", "x")
	case "toolong":
		dir = filepath.Join(root, strings.Repeat("n", 300))
	case "nul":
		dir = root + "\x00x"
	case "closed": // directories and files that this user may not read
		must(os.Mkdir(filepath.Join(root, "sub"), 0o755))
		must(os.WriteFile(filepath.Join(root, "sub", "g"), nil, 0o644))
		must(os.Chmod(root, 0))
		user = true
	case "closedbelow":
		must(os.Mkdir(filepath.Join(root, "sub"), 0))
		user = true
	case "closedfile":
		must(os.WriteFile(filepath.Join(root, "g"), nil, 0))
		user = true
	case "hashdir", "hashmissing":
	case "none":
		user = true
	default:
		panic(harnessErrorf("no fault %q", c.str("fault")))
	}
	c.T.exec(1)
	var err error
	switch c.str("fault") {
	case "hashdir": // what can be opened but not read
		_, _, _, err = utils.GetHashesForFilePath(root)
	case "hashmissing":
		_, _, _, err = utils.GetHashesForFilePath(filepath.Join(root, "nowhere"))
	}
	if user {
		err = buildAsNobody(dir)
		if errors.Is(err, errCannotSwitch) {
			c.T.label("skipped: cannot run as another user")
			return
		}
	} else if !strings.HasPrefix(c.str("fault"), "hash") {
		_, err = builder.Build("pkg", dir, buildConfig(nil))
	}
	if wantErr := c.boolean("err"); wantErr != (err != nil) {
		out = append(out, bad("unreadable", "%s: error %v, want one: %v", c.str("fault"), err, wantErr))
	}
	return
}

var errCannotSwitch = errors.New("cannot switch user")

// buildAsNobody builds in a process of an unprivileged user.
func buildAsNobody(dir string) error {
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "build", dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	cmd.Dir = "/"
	b, err := cmd.Output()
	if err != nil {
		return errCannotSwitch
	}
	var r struct{ Err string }
	if stdjson.Unmarshal(b, &r) != nil {
		return errCannotSwitch
	}
	if r.Err != "" {
		return errors.New(r.Err)
	}
	return nil
}

func subBuild(args []string) {
	_, err := builder.Build("pkg", args[0], buildConfig(nil))
	r := struct{ Err string }{}
	if err != nil {
		r.Err = err.Error()
	}
	_ = stdjson.NewEncoder(os.Stdout).Encode(r)
}
