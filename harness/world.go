package main

// A world is a scratch directory with trees, an index and the commands.

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type world struct {
	c    *C
	dir  string // everything
	tree string // the trees to be indexed
	idx  string // the index
	tmp  string // TMPDIR of the commands
	bin  string // directory of the commands
	env  []string
	fds  int // if > 0, the commands may have this many files open
}

func newWorld(c *C, name string) *world {
	d := c.Dir(name)
	w := &world{c: c, dir: d, tree: filepath.Join(d, "src"), idx: filepath.Join(d, "ix", "index"), tmp: filepath.Join(d, "tmp"), bin: filepath.Join(c.Work, "bin")}
	for _, x := range []string{w.tree, w.tmp, filepath.Dir(w.idx)} {
		if err := os.MkdirAll(x, 0o777); err != nil {
			harness("%v", err)
		}
	}
	return w
}

func (w *world) cmd(name string, args ...string) *exec.Cmd {
	cmd := exec.Command(filepath.Join(w.bin, name), args...)
	cmd.Env = append([]string{"CSEARCHINDEX=" + w.idx, "HOME=" + w.dir, "TMPDIR=" + w.tmp, "PATH=/usr/bin:/bin"}, w.env...)
	cmd.Dir = w.tree
	if w.fds > 0 {
		cmd.Args = append([]string{"sh", "-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, w.fds), cmd.Path}, cmd.Args[1:]...)
		cmd.Path = "/bin/sh"
	}
	return cmd
}

func (w *world) run(name string, args ...string) result {
	return runCmd(w.c, w.cmd(name, args...))
}

// must runs a command that has to succeed.
func (w *world) must(name string, args ...string) result {
	r := w.run(name, args...)
	if r.code != 0 {
		w.c.Fail("%s %q: exit status %d\n%s", name, args, r.code, r.err)
	}
	return r
}

func (w *world) write(name, data string) {
	f := filepath.Join(w.tree, name)
	os.MkdirAll(filepath.Dir(f), 0o777)
	if err := os.WriteFile(f, []byte(data), 0o666); err != nil {
		harness("%v", err)
	}
}

func refHidden(elem string) bool {
	return elem != "" && (elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~')
}

// refWalk lists the documents an index of the root must have, in order.
func refWalk(root string, zips bool) []doc {
	var docs []doc
	var walk func(p string)
	walk = func(p string) {
		if refHidden(filepath.Base(p)) {
			return
		}
		st, err := os.Lstat(p)
		if err != nil {
			return
		}
		switch {
		case st.IsDir():
			ents, err := os.ReadDir(p)
			if err != nil {
				return
			}
			for _, e := range ents {
				walk(strings.TrimRight(p, "/") + "/" + e.Name())
			}
		case st.Mode().IsRegular():
			b, err := readHead(p, st.Size())
			if err != nil {
				return
			}
			if !refNameOK(p) {
				return
			}
			if zips && strings.HasSuffix(p, ".zip") {
				docs = append(docs, refZip(p, b)...)
				return
			}
			if textPolicy(string(b)) == isText {
				docs = append(docs, doc{p, string(b)})
			}
		}
	}
	walk(root)
	sortDocs(docs)
	return docs
}

// readHead reads a file; of a huge one (a sparse file in these tests), only
// the first bytes, which are NUL.
func readHead(p string, size int64) ([]byte, error) {
	if size < 64<<20 {
		return os.ReadFile(p)
	}
	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b := make([]byte, 4096)
	n, err := io.ReadFull(f, b)
	if err == nil && b[0] != 0 {
		harness("%s: a huge file with content", p)
	}
	return b[:n], err
}

// refZip lists the documents of an archive: its readable text members.
func refZip(name string, data []byte) []doc {
	r, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil
	}
	last := map[string]int{} // the last of several members with one name counts
	var docs []doc
	for i, f := range r.File {
		last[f.Name] = i
	}
	for i, f := range r.File {
		if last[f.Name] != i || !refNameOK(f.Name) {
			continue
		}
		rc, err := f.Open()
		if err != nil {
			continue
		}
		var b bytes.Buffer
		_, err = b.ReadFrom(rc)
		rc.Close()
		if err != nil || textPolicy(b.String()) != isText {
			continue
		}
		docs = append(docs, doc{name + "\x01" + f.Name, b.String()})
	}
	return docs
}

// An idxModel is what an index must contain.
type idxModel struct {
	roots []string
	docs  []doc
}

// update is what indexing the given absolute paths does to the model.
func (m *idxModel) update(paths []string, zips bool) {
	roots := refRoots(paths)
	var keep []doc
	for _, d := range m.docs {
		under := false
		for _, r := range roots {
			if refUnder(d.name, r) {
				under = true
			}
		}
		if !under {
			keep = append(keep, d)
		}
	}
	for _, r := range roots {
		keep = append(keep, refWalk(r, zips)...)
	}
	sortDocs(keep)
	m.docs = keep
	m.roots = refRoots(append(append([]string(nil), m.roots...), roots...))
}

// snapshot describes every file under dir: type, mode, content, and time.
func snapshot(dir string, skip func(string) bool) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || skip != nil && skip(p) {
			return nil
		}
		s := fmt.Sprint(info.Mode(), " ", info.ModTime().UnixNano())
		switch {
		case info.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", fnvSum(b))
		case info.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " " + t
		case info.IsDir():
			s = info.Mode().String()
		}
		m[p] = s
		return nil
	})
	return m
}

func fnvSum(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func diffSnap(before, after map[string]string) string {
	var l []string
	for p, s := range before {
		if t, ok := after[p]; !ok {
			l = append(l, "removed "+p)
		} else if s != t {
			l = append(l, fmt.Sprintf("changed %s: %s -> %s", p, s, t))
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			l = append(l, "new "+p)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// makeZip writes an archive of the given members.
type member struct {
	name, data string
	store      bool
}

func makeZip(ms []member) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, m := range ms {
		h := &zip.FileHeader{Name: m.name, Method: zip.Deflate}
		if m.store {
			h.Method = zip.Store
		}
		f, err := w.CreateHeader(h)
		if err != nil {
			harness("%v", err)
		}
		if _, err := f.Write([]byte(m.data)); err != nil {
			if strings.HasSuffix(m.name, "/") {
				continue
			}
			harness("%v", err)
		}
	}
	if err := w.Close(); err != nil {
		harness("%v", err)
	}
	return b.Bytes()
}

// someText makes the content of a file: text, or sometimes not.
func someText(c *C) string {
	switch c.IntN(17) {
	case 16:
		return anyText(c, c.IntN(150))
	case 6: // marks and line ends of other systems
		return pick(c, []string{"\ufeff", "\xff\xfe", "\ufeff\ufeff", "\ufeff\n", "#!"}) + genContent(c, 20+c.IntN(100))
	case 7:
		return strings.ReplaceAll(genContent(c, 20+c.IntN(100)), "\n", pick(c, []string{"\r\n", "\r", "\n\r", "\u2028", "\u0085\n", "\f\n", "\v", "\x1a\n"})) + pick(c, []string{"", "\r", "\x1a", "\ufeff"})
	case 0:
		return ""
	case 1:
		return genContent(c, 30) + "\x00" + genContent(c, 10)
	case 2:
		return genContent(c, 30) + "\xff\xfe" + genContent(c, 10)
	case 3:
		return strings.Repeat("long ", 500)
	case 4:
		return pick(c, []string{"\n", "a", "ab", "abc", "\n\n", "\xe9\xe9"})
	case 5:
		return genContent(c, 3000)
	}
	return genContent(c, 20+c.IntN(200))
}

var oddNames = []string{"a", "b", "foo", "foo.go", "foo-bar", "foo!", "foo bar", "x.txt", "README", "lib", "src", "é", "世界", "a'b", "q\"q", "<b>", "&amp;", "100%", "a#b", "a~b", "-v", "--", "a,b", "\xff\xfe", "x.zip.txt", "Z", "0", "z z", "$HOME", "*", "\\", "foo\x7f", "foo+bar", "foo,bar", "foo(1)", "a+b", "foo\"s", "foo.bar"}

// plainNames are names that tools like to leave out. cindex does not.
var plainNames = []string{"vendor", "node_modules", "testdata", "build", "target", "dist", "bin", "obj", "out", "CVS", "RCS", "tmp", "_obj", "_test", "__pycache__", "core", "tags", "TAGS", "nohup.out",
	"a.min.js", "a.o", "a.a", "a.so", "a.pyc", "a.class", "a.exe", "a.png", "a.jpg", "a.pdf", "a.gz", "a.tar", "a.tgz", "a.jar", "a.bak", "a.orig", "a.rej", "a.swp", "a.log", "a.tmp", "a.lock", "a.map", "a.svg", "a.csv", "a.json", "a.xml", "a.pb.go", "a_test.go",
	"go.sum", "package-lock.json", "Makefile", "Dockerfile", "LICENSE", "Thumbs.db", "csearchindex", "csearch1234", "_", "_a", "@a", "+a", "=", ":", "a:b", ";", "a.", "a..", "a b ", " a", "-", "A.ZIP", "a.Zip", "azip", "zip", "nul", "aux", "e\u0301", "K", "\u212a", strings.Repeat("n", 255), strings.Repeat("n", 200) + ".go"}
var skipNames = []string{"~", "#", "~z", "!~", ".hidden", ".git", "#backup#", "~tmp", "old~", "#x", ".", "nl\nname", "tab\tname", "\x01x"}

// genTree fills a directory with files (relative to the world's tree).
func (w *world) genTree(sub string, n int) {
	c := w.c
	last := ""
	for range n {
		p := sub
		for d := c.IntN(4); d > 0; d-- {
			p = filepath.Join(p, w.genName(9))
		}
		if c.Chance(60) { // deep, up to the longest path there can be
			for len(w.tree)+len(p) < []int{300, 1100, 3600}[c.IntN(3)] {
				p = filepath.Join(p, pick(c, []string{"d", "dd", "deep", "d.d", strings.Repeat("long", 20)}))
			}
		}
		p = filepath.Join(p, w.genName(5))
		if last == "" || !c.Chance(6) { // else a copy of another file
			last = someText(c)
		}
		w.tryWrite(p, last)
	}
}

func (w *world) genName(hidden int) string {
	c := w.c
	if c.Chance(hidden) {
		if s := pick(c, skipNames); s != "." {
			return s
		}
	}
	if c.Chance(7) {
		return pick(c, plainNames)
	}
	s := pick(c, oddNames)
	if c.Chance(3) {
		s += fmt.Sprint(c.IntN(20))
	}
	return s
}

// tryWrite writes a file unless something is in its way.
func (w *world) tryWrite(name, data string) bool {
	f := filepath.Join(w.tree, name)
	if os.MkdirAll(filepath.Dir(f), 0o777) != nil {
		return false
	}
	return os.WriteFile(f, []byte(data), 0o666) == nil
}
