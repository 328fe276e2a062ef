package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp/syntax"
	"slices"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C01", Quick: 1920, Thorough: 30000, Run: runC01,
		Rule:     "random trees (text made from the expressions, near misses, other text, non-text, odd names), indexed by cindex; every search is run through csearch, csearch -brute and cgrep and compared with a reference scan; non-trivial: some but not all files match; distinct by tree and expression",
		Assume:   []string{"-h together with -c is not specified", "whether -l with the empty expression lists empty files is not specified"},
		MinEvent: map[string]int64{"searches": 6000, "files_matched": 20000, "files_not_matched": 20000}})
	register(&Prop{ID: "C11", Quick: 1440, Thorough: 15000, Run: runC11,
		Rule:     "random histories of file system changes and cindex runs (overlapping, nested, repeated, relative, missing, single-file and hidden arguments, no arguments, -reset, -zip, -check); after each run the index is decoded and compared with the model; non-trivial: a run that replaces part of an index and keeps part; distinct by history",
		MinEvent: map[string]int64{"cindex_runs": 2000, "roots_listed": 3000, "roots_removed": 100, "kept_and_replaced": 150}})
	register(&Prop{ID: "C21", Quick: 4800, Thorough: 50000, Run: runC21,
		Rule:     "runs of cgrep and csearch with valid and invalid expressions, flags and argument counts, and lists of readable, missing, unreadable (directory, dangling link, link cycle) files; status, stdout and stderr are judged; distinct by command line",
		MinEvent: map[string]int64{"status_0": 500, "status_1": 800, "usage_or_invalid": 1500, "unreadable_files": 1500}})
	register(&Prop{ID: "C22", Quick: 1920, Thorough: 30000, Run: runC22,
		Rule:     "random trees with odd names; pairs of content and file name expressions, with and without -i; output compared with the unfiltered search restricted to names the reference matcher accepts; non-trivial: filter keeps some but not all matching files; distinct by tree and pair",
		MinEvent: map[string]int64{"filtered_searches": 4000, "filter_splits": 400}})
	register(&Prop{ID: "C23", Quick: 1920, Thorough: 15000, Run: runC23,
		Rule:     "one tree indexed from scratch several times with permuted, repeated, nested and differently spelled arguments, from different directories and after touching times; index files compared byte for byte, re-indexing compared by decoded content; distinct by tree and argument list",
		MinEvent: map[string]int64{"indexes_compared": 1000, "reindexed": 500}})
}

// searchTree builds a world with an index of texts that suit the expressions.
func searchTree(c *C, nexpr int) (w *world, m *idxModel, exprs []string, alpha []rune) {
	w = newWorld(c, "w")
	g := newRegexGen(c.Rand)
	var asts []*syntax.Regexp
	for range nexpr {
		e, re := g.gen("(?m)")
		if c.Chance(4) {
			e = pick(c, directedExprs)
			re = mustParse("(?m)" + e)
		}
		if strings.Contains(e, "\x00") {
			continue
		}
		exprs = append(exprs, e)
		asts = append(asts, re)
	}
	nfiles := 3 + c.IntN(40)
	if c.Chance(8) {
		nfiles = 100 + c.IntN(150)
	}
	if c.Chance(2) { // a command needs few open files at a time
		w.fds = 64
	}
	long := ""
	if c.Chance(2) { // long names that differ in the last characters only
		long = strings.Repeat(pick(c, []string{"d", "long", "é", "q-"}), 1+c.IntN(40)) + "/" + strings.Repeat("e", 1+c.IntN(100))
	}
	for i := range nfiles {
		if long != "" && c.Chance(4) {
			d := someText(c)
			if len(asts) > 0 {
				d = string(textFor(c.Rand, pick(c, asts), g.alpha, 1+c.IntN(4), 300))
			}
			if textPolicy(d) != unspecified {
				w.tryWrite(fmt.Sprintf("%s/%s%d", long, pick(c, []string{"x", "foo", "a"}), i%10), d)
			}
			continue
		}
		p := ""
		for d := c.IntN(3); d > 0; d-- {
			p = filepath.Join(p, pick(c, oddNames))
		}
		p = filepath.Join(p, pick(c, oddNames)+fmt.Sprint(i))
		var data string
		if c.IntN(5) > 0 && len(asts) > 0 {
			data = string(textFor(c.Rand, pick(c, asts), g.alpha, 1+c.IntN(8), 300))
		} else {
			data = someText(c)
		}
		if c.Chance(12) {
			data = pick(c, []string{"\ufeff", "\ufeff", "\r\n", "\ufeff\n"}) + data
		}
		if textPolicy(data) == unspecified {
			data = "x"
		}
		if !w.tryWrite(p, data) {
			continue
		}
		switch c.IntN(40) { // the same content again, in another way
		case 0:
			os.Link(filepath.Join(w.tree, p), filepath.Join(w.tree, p+"~link"))
		case 1, 2:
			os.Link(filepath.Join(w.tree, p), filepath.Join(w.tree, p+"-"))
		case 3:
			os.Symlink(filepath.Base(p), filepath.Join(w.tree, p+"s"))
		case 4:
			w.tryWrite(filepath.Join("copy", p), data)
		}
	}
	zips := c.Chance(3)
	for n := c.IntN(5); zips && n > 0; n-- {
		var ms []member
		for i := range c.IntN(6) {
			data := someText(c)
			if c.IntN(5) > 0 && len(asts) > 0 {
				data = string(textFor(c.Rand, pick(c, asts), g.alpha, 1+c.IntN(8), 300))
			}
			if textPolicy(data) == unspecified {
				data = "x"
			}
			name := pick(c, oddNames) + fmt.Sprint(i)
			if c.Chance(2) {
				name = pick(c, oddNames) + "/" + name
			}
			ms = append(ms, member{name, data, c.Chance(3)})
		}
		w.tryWrite(pick(c, []string{"", "foo/", "src/", "a/"})+pick(c, oddNames)+fmt.Sprint(n)+".zip", string(makeZip(ms)))
	}
	if zips {
		w.must("cindex", "-zip", w.tree)
	} else {
		w.must("cindex", w.tree)
	}
	m = &idxModel{}
	m.update([]string{w.tree}, zips)
	if len(exprs) == 0 {
		exprs = []string{"abc"}
	}
	return w, m, exprs, g.alpha
}

// grepDocs is what searching the documents prints.
func grepDocs(docs []doc, expr string, o grepOpts) (want bytes.Buffer, matched, total int) {
	re := mustParse(expr)
	for _, d := range docs {
		t := newGrepText(re, d.name, d.data)
		t.print(&want, o, -1)
		if t.selected(o) > 0 {
			matched++
		}
	}
	return want, matched, len(docs)
}

// c01Many searches very many files.
func c01Many(c *C) {
	w := newWorld(c, "w")
	n := 12000 + c.IntN(12000)
	if c.Thorough {
		n = 70000
	}
	texts := map[string]string{"": "common line\n", "7": "common line\nlucky\n", "00": "two lines\ncommon\n"}
	var want, lucky, two []string
	for i := range n {
		name := fmt.Sprintf("%s/d%03d/f%05d", w.tree, i/200, i)
		if i%200 == 0 {
			os.MkdirAll(filepath.Dir(name), 0o777)
		}
		t := ""
		if strings.HasSuffix(name, "7") {
			t = "7"
			lucky = append(lucky, name)
		} else if strings.HasSuffix(name, "00") {
			t = "00"
			two = append(two, name)
		}
		want = append(want, name)
		if err := os.WriteFile(name, []byte(texts[t]), 0o666); err != nil {
			harness("%v", err)
		}
	}
	w.must("cindex", w.tree)
	list := func(l []string, suffix string) []byte {
		if len(l) == 0 {
			return nil
		}
		return []byte(strings.Join(l, suffix+"\n") + suffix + "\n")
	}
	check := func(want []byte, args ...string) {
		c.Count("searches", 1)
		c.Count("searches_of_very_many_files", 1)
		checkGrepRun(c, fmt.Sprintf("csearch %q over %d files", args, n), w.run("csearch", args...), want, len(want) > 0)
	}
	c.Seen(c.Case, n)
	check(list(want, ""), "-l", "common")
	check(list(want, ""), "-l", "-brute", "common")
	check(list(want, ""), "-l", "-f", "f", "^common|zzz")
	check(list(lucky, ""), "-l", "lucky")
	check(list(lucky, ""), "-l", "-f", "7$", "common")
	check(list(lucky, ":lucky"), "luck.")
	check(list(two, ": 2"), "-c", "-f", "00$", "com|lines")
	check(list(two, ":1:two lines"), "-n", "two|absent")
	check(nil, "-l", "absent")
}

func runC01(c *C) {
	if c.Case == 7 {
		c01Many(c)
		return
	}
	w, m, exprs, _ := searchTree(c, 10)
	exprs = append(exprs, pick(c, []string{"", "^", "$", "^$", ".", "a|", "(?:)", `\z`, `\A`, "x*", `^\x{FEFF}`, `\x{FEFF}.`, `^\x{FEFF}[a-f]`, `[a-z]\r$`, `^\x{FEFF}..`, `^.?\r`}))
	var files []string
	inZip := false // cgrep does not look into archives
	for _, d := range m.docs {
		files = append(files, d.name)
		inZip = inZip || strings.Contains(d.name, "\x01")
	}
	for _, e := range exprs {
		o := randOpts(c, false)
		i := c.Chance(4)
		full := "(?m)" + e
		flags := o.flags()
		if i {
			full = "(?i)" + full
			flags = append(flags, "-i")
		}
		if e == "" && o.l {
			continue
		}
		if _, err := syntax.Parse(full, syntax.Perl); err != nil {
			continue
		}
		want, matched, total := grepDocs(m.docs, full, o)
		c.Count("searches", 1)
		c.Count("files_matched", matched)
		c.Count("files_not_matched", total-matched)
		if matched > 0 && matched < total {
			c.Seen(w.tree, c.Case, full, o.String())
		}
		args := append(slices.Clone(flags), "--", e)
		checkGrepRun(c, fmt.Sprintf("csearch %q over %d files", args, total), w.run("csearch", args...), want.Bytes(), matched > 0)
		if c.Chance(2) {
			b := append([]string{"-brute"}, args...)
			checkGrepRun(c, fmt.Sprintf("csearch %q over %d files", b, total), w.run("csearch", b...), want.Bytes(), matched > 0)
		}
		if c.Chance(2) && total > 0 && !inZip {
			a := append(slices.Clone(args), files...)
			checkGrepRun(c, fmt.Sprintf("cgrep %q on %d files", args, total), w.run("cgrep", a...), want.Bytes(), matched > 0)
		}
		// with a file filter
		if c.Chance(4) {
			f := pick(c, []string{"foo", "o$", `\.go`, "[a-m]", "src", "/"})
			var docs []doc
			for _, d := range m.docs {
				if refMatch(mustParse(f), d.name, true, true) >= 0 {
					docs = append(docs, d)
				}
			}
			want, matched, _ := grepDocs(docs, full, o)
			a := append([]string{"-f", f}, args...)
			checkGrepRun(c, fmt.Sprintf("csearch %q", a), w.run("csearch", a...), want.Bytes(), matched > 0)
		}
		c.Sample("csearch %q: %d of %d files", args, matched, total)
	}
}

// ---- C11

func runC11(c *C) {
	w := newWorld(c, "w")
	tops := []string{"a", "b", "foo", "foo.bar", "foo-x", "ab"}
	for _, t := range tops[:2+c.IntN(4)] {
		w.genTree(t, 1+c.IntN(6))
	}
	if c.Chance(4) {
		w.fds = 64
		for i := range 30 + c.IntN(90) {
			w.tryWrite(fmt.Sprintf("%s/many%d/%d", tops[0], i%40, i), someText(c))
		}
	}
	m := &idxModel{}
	have := false
	var hist strings.Builder
	note := func(format string, args ...any) { fmt.Fprintf(&hist, format+"\n", args...) }
	for range 4 + c.IntN(5) {
		for n := c.IntN(4); n > 0; n-- {
			note("  %s", w.change(tops))
		}
		// pick paths
		var args, abs []string
		flags := []string{}
		zips := c.Chance(4)
		if zips {
			flags = append(flags, "-zip")
		}
		reset := c.Chance(6)
		if reset {
			flags = append(flags, "-reset")
		}
		if c.Chance(5) {
			flags = append(flags, "-check")
		}
		if c.Chance(8) {
			flags = append(flags, "-verbose")
		}
		if !(have && !reset && c.Chance(4)) {
			for n := 1 + c.IntN(3); n > 0; n-- {
				a, b := w.pickPath(tops)
				args = append(args, a)
				abs = append(abs, b)
				if c.Chance(8) { // twice
					args = append(args, a)
					abs = append(abs, b)
				}
			}
			if c.Chance(30) { // every entry of a tree by itself
				t := pick(c, tops)
				for i := range 20 + c.IntN(150) {
					w.tryWrite(fmt.Sprintf("%s/e%d%s", t, i, pick(c, []string{"", "/in", ".zip"})), genContent(c, 10))
				}
				ents, _ := os.ReadDir(filepath.Join(w.tree, t))
				for _, e := range ents {
					if p := filepath.Join(w.tree, t, e.Name()); refNameOK(p) && e.Name()[0] != '-' {
						args = append(args, p)
						abs = append(abs, p)
					}
				}
				c.Count("runs_with_many_arguments", 1)
			}
		}
		note("cindex %q %q", flags, args)
		before := m.docs
		if len(args) == 0 {
			abs = slices.Clone(m.roots)
			if c.Chance(2) { // a root goes away or becomes something else
				if p := pick(c, abs); strings.HasPrefix(p, w.tree+"/") {
					os.RemoveAll(p)
					if c.Chance(3) {
						os.WriteFile(p, []byte(someText(c)), 0o666)
					}
					note("  (root %q was removed)", p)
					c.Count("roots_removed", 1)
				}
			}
		}
		if reset || !have {
			m = &idxModel{}
			before = nil
		}
		m.update(abs, zips)
		have = true
		kept := 0
		for _, d := range before {
			if !slices.ContainsFunc(abs, func(r string) bool { return refUnder(d.name, r) }) {
				kept++
			}
		}
		if kept > 0 && kept < len(before) {
			c.Count("kept_and_replaced", 1)
			c.Seen(hist.String())
		}
		r := w.run("cindex", append(append(flags, "--"), args...)...)
		c.Count("cindex_runs", 1)
		if r.code != 0 {
			c.Fail("cindex failed (status %d): %s\nhistory:\n%s", r.code, r.err, hist.String())
		}
		l := w.must("cindex", "-list")
		want := ""
		for _, p := range m.roots {
			want += p + "\n"
		}
		c.Count("roots_listed", len(m.roots))
		if string(l.out) != want {
			c.Fail("cindex -list prints %q, want %q\nhistory:\n%s", l.out, want, hist.String())
		}
		checkIndex(c, "after\n"+hist.String()+"the index", w.idx, m.roots, m.docs)
		if c.Chance(6) {
			r := w.must("cindex", "-list", "-check")
			if string(r.out) != want {
				c.Fail("cindex -list -check prints %q", r.out)
			}
		}
	}
	c.Sample("%s", hist.String())
	if c.Chance(4) {
		w.must("cindex", "-reset")
		if _, err := os.Lstat(w.idx); err == nil {
			c.Fail("cindex -reset left the index in place")
		}
		if r := w.run("csearch", "abc"); r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
			c.Fail("csearch without an index: status %d, output %q, stderr %q", r.code, r.out, r.err)
		}
	}
}

// pickPath picks an argument for cindex and its absolute form.
func (w *world) pickPath(tops []string) (arg, abs string) {
	c := w.c
	abs = w.tree
	switch c.IntN(12) {
	case 0: // everything
	case 1:
		abs = filepath.Join(w.tree, "missing")
	case 2:
		abs = filepath.Join(w.tree, pick(c, tops), pick(c, skipNames[:3]))
	default:
		abs = filepath.Join(w.tree, pick(c, tops))
		for c.Chance(3) {
			ents, err := os.ReadDir(abs)
			if err != nil || len(ents) == 0 {
				break
			}
			abs = filepath.Join(abs, pick(c, ents).Name())
		}
	}
	for i := range len(abs) {
		if abs[i] < ' ' { // not a path an index can hold
			return w.tree, w.tree
		}
	}
	arg = abs
	switch c.IntN(4) {
	case 0:
		if r, err := filepath.Rel(w.tree, abs); err == nil {
			arg = r
		}
	case 1:
		arg = abs + "/"
	case 2:
		arg = filepath.Dir(abs) + "/./" + filepath.Base(abs) + "/../" + filepath.Base(abs)
	}
	return arg, abs
}

// change changes something in the trees.
func (w *world) change(tops []string) string {
	c := w.c
	all := []string{}
	filepath.Walk(w.tree, func(p string, info os.FileInfo, err error) error {
		if err == nil && p != w.tree {
			all = append(all, p)
		}
		return nil
	})
	if len(all) == 0 || c.Chance(3) {
		p := pick(c, tops)
		for d := c.IntN(3); d > 0; d-- {
			p = filepath.Join(p, w.genName(12))
		}
		p = filepath.Join(p, w.genName(6))
		if c.Chance(6) {
			p += ".zip"
			w.tryWrite(p, string(w.genZip()))
			return "archive " + p
		}
		w.tryWrite(p, someText(c))
		return fmt.Sprintf("write %q", p)
	}
	p := pick(c, all)
	st, err := os.Lstat(p)
	if err != nil {
		return ""
	}
	rel, _ := filepath.Rel(w.tree, p)
	if st.Mode().IsRegular() && c.Chance(2) {
		// Changes that leave traces of their own kind in the file's attributes,
		// or none.
		switch c.IntN(5) {
		case 0: // another name for the same file, maybe in another tree
			q := filepath.Join(pick(c, []string{filepath.Dir(p), filepath.Join(w.tree, pick(c, tops))}), w.genName(9))
			os.Link(p, q)
			return fmt.Sprintf("hard link %q to %q", q, rel)
		case 1: // as many bytes, at the same time
			if data, err := os.ReadFile(p); err == nil && len(data) > 3 {
				i := c.IntN(len(data) - 3)
				copy(data[i:], pick(c, []string{"abc", "xyz", "foo", "\nqq", "zzz"}))
				if textPolicy(string(data)) == unspecified {
					break // cut a character in two
				}
				os.WriteFile(p, data, 0o666)
				os.Chtimes(p, st.ModTime(), st.ModTime())
				return fmt.Sprintf("edit %q in place, time kept", rel)
			}
		case 2: // an older file put in its place, or a newer one
			os.WriteFile(p, []byte(someText(c)), 0o666)
			t := st.ModTime().Add(pick(c, []time.Duration{-time.Second, -1000 * time.Hour, 1000 * time.Hour, -time.Nanosecond}))
			if c.Chance(4) {
				t = time.Unix(int64(c.IntN(3))-1, 0)
			}
			os.Chtimes(p, t, t)
			return fmt.Sprintf("edit %q, time %v", rel, t)
		case 3:
			m := pick(c, []os.FileMode{0o777, 0o444, 0o400, 0o755 | os.ModeSetuid, 0o755 | os.ModeSetgid, 0o666 | os.ModeSticky, 0o600})
			os.Chmod(p, m)
			return fmt.Sprintf("mode %v %q", m, rel)
		case 4: // replaced by a file moved here
			q := p + "-new"
			os.WriteFile(q, []byte(someText(c)), 0o666)
			if c.Chance(2) {
				os.Chtimes(q, st.ModTime(), st.ModTime())
			}
			os.Rename(q, p)
			return fmt.Sprintf("replace %q", rel)
		}
	}
	switch c.IntN(6) {
	case 0:
		os.RemoveAll(p)
		return fmt.Sprintf("remove %q", rel)
	case 1:
		os.RemoveAll(p)
		if st.IsDir() {
			os.WriteFile(p, []byte(genContent(c, 50)), 0o666)
			return fmt.Sprintf("directory to file %q", rel)
		}
		os.MkdirAll(p, 0o777)
		os.WriteFile(p+"/in", []byte(genContent(c, 50)), 0o666)
		return fmt.Sprintf("file to directory %q", rel)
	case 2:
		q := filepath.Join(filepath.Dir(p), w.genName(6))
		if _, err := os.Lstat(q); err != nil {
			os.Rename(p, q)
			return fmt.Sprintf("rename %q to %q", rel, filepath.Base(q))
		}
	case 3:
		q := filepath.Join(filepath.Dir(p), w.genName(6)+"l")
		os.Symlink(pick(c, []string{p, "nowhere", ".", "..", q}), q)
		return fmt.Sprintf("link %q", q)
	}
	if !st.IsDir() {
		os.WriteFile(p, []byte(someText(c)), 0o666)
		return fmt.Sprintf("edit %q", rel)
	}
	return ""
}

// genZip makes an archive.
func (w *world) genZip() []byte {
	c := w.c
	var ms []member
	seen := map[string]bool{}
	for n := c.IntN(8); n > 0; n-- {
		p := ""
		for d := c.IntN(3); d > 0; d-- {
			p += pick(c, oddNames) + "/"
		}
		name := p + pick(c, oddNames) + fmt.Sprint(c.IntN(5))
		if seen[name] && c.IntN(3) > 0 {
			continue
		}
		seen[name] = true
		ms = append(ms, member{name, someText(c), c.Chance(3)})
		if c.Chance(10) && p != "" {
			ms = append(ms, member{p, "", true})
		}
		if c.Chance(20) {
			ms = append(ms, member{pick(c, []string{"", "/", "a\nb", "a\x01b", "../x", "/abs", "a//b"}), "hello member\n", true})
		}
	}
	return makeZip(ms)
}

// ---- C21

func runC21(c *C) {
	w := newWorld(c, "w")
	w.write("one", "hello world\nfoo\n")
	w.write("two", "goodbye\nfoo bar\n")
	w.write("dir/three", "hello foo\n")
	w.write("empty", "")
	os.Symlink("nowhere", w.tree+"/dangling")
	os.Symlink("cycle", w.tree+"/cycle")
	indexed := c.Case%2 == 0
	if indexed {
		w.must("cindex", w.tree)
	}
	good := map[string]string{"one": "hello world\nfoo\n", "two": "goodbye\nfoo bar\n", "dir/three": "hello foo\n", "empty": ""}
	bad := []string{"missing", "dir", "dangling", "cycle", "one/x", "dir/", strings.Repeat("x", 300)}
	names := []string{"one", "two", "dir/three", "empty"}
	exprs := []string{"foo", "hello", "nomatch", "^foo", "bar$", "o+", "[a-f]oo", "FOO", `\bfoo\b`, "goodbye|world", "", "x{2}", "^$", "zzz|qqq", "hellO"}
	invalid := []string{"(", ")", "[a", "a**", "*", "+", "?", `\8`, `\pX`, `a\`, "(?P<n", "[z-a]", "x{2,1}", "x{1001}", "(?z)", `\C`, "((((", "[[:foo:]]", "(?P<n>a)(?P<n>b)", "\xff", "a\xc0", `\Q`[:1]}
	invalid = slices.DeleteFunc(invalid, func(e string) bool {
		_, err := syntax.Parse("(?m)"+e, syntax.Perl)
		return err == nil
	})
	for range 6 {
		o := randOpts(c, true)
		switch c.IntN(5) {
		case 0, 1: // cgrep on good and bad files
			e := pick(c, exprs)
			var args, wantErr []string
			var want bytes.Buffer
			any := false
			ast := mustParse("(?m)" + e)
			for n := 1 + c.IntN(4); n > 0; n-- {
				f := pick(c, names)
				if c.Chance(2) {
					f = pick(c, bad)
					wantErr = append(wantErr, f)
					c.Count("unreadable_files", 1)
				} else {
					t := newGrepText(ast, f, good[f])
					t.print(&want, o, -1)
					any = any || t.selected(o) > 0
				}
				args = append(args, f)
			}
			args = append(append(o.flags(), "--", e), args...)
			r := w.run("cgrep", args...)
			c.judge(r, "cgrep", args, want.Bytes(), any)
			for _, f := range wantErr {
				if !bytes.Contains(r.err, []byte(strings.TrimSuffix(f, "/"))) {
					c.Fail("cgrep %q: no message about %q on standard error: %q", args, f, r.err)
				}
			}
			if n := bytes.Count(r.err, []byte("\n")); n != len(wantErr) {
				c.Fail("cgrep %q: %d messages about %d files that cannot be read: %q", args, n, len(wantErr), r.err)
			}
			if len(wantErr) == 0 && len(r.err) > 0 {
				c.Fail("cgrep %q: message on standard error: %q", args, r.err)
			}
			c.Sample("cgrep %q: status %d", args, r.code)
		case 2: // invalid expressions
			e := pick(c, invalid)
			tool := pick(c, []string{"cgrep", "csearch"})
			args := append(o.flags(), "--", e)
			if tool == "cgrep" {
				args = append(args, "one")
			} else {
				args = slices.DeleteFunc(args, func(s string) bool { return s == "-v" })
			}
			if c.Chance(3) {
				args = append([]string{"-i"}, args...)
			}
			if tool == "csearch" && c.Chance(3) {
				args = append(o.flags(), "-f", e, "--", pick(c, exprs))
				args = slices.DeleteFunc(args, func(s string) bool { return s == "-v" })
				if c.Chance(3) {
					args = append([]string{pick(c, []string{"-brute", "-i", "-html", "-verbose"})}, args...)
				}
			}
			c.usage(tool, args, w.run(tool, args...))
		case 3: // wrong usage
			tool := pick(c, []string{"cgrep", "csearch"})
			var args []string
			switch c.IntN(5) {
			case 0:
			case 1:
				args = []string{"-nosuchflag", "foo", "one"}
			case 2:
				args = []string{"-A", "x", "foo", "one"}
			case 3:
				args = []string{"-n=maybe", "foo", "one"}
			case 4:
				tool, args = "csearch", []string{"foo", "one"}
			}
			c.usage(tool, args, w.run(tool, args...))
		case 4: // csearch
			if !indexed {
				if r := w.run("csearch", "foo"); r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
					c.Fail("csearch without an index: status %d, output %q, stderr %q", r.code, r.out, r.err)
				}
				c.Count("usage_or_invalid", 1)
				continue
			}
			e := pick(c, exprs)
			o.v = false
			if e == "" && o.l {
				e = "foo"
			}
			var want bytes.Buffer
			any := false
			ast := mustParse("(?m)" + e)
			for _, f := range []string{"dir/three", "empty", "one", "two"} {
				t := newGrepText(ast, filepath.Join(w.tree, f), good[f])
				t.print(&want, o, -1)
				any = any || t.selected(o) > 0
			}
			args := append(o.flags(), "--", e)
			r := w.run("csearch", args...)
			c.judge(r, "csearch", args, want.Bytes(), any)
			if len(r.err) > 0 {
				c.Fail("csearch %q: message on standard error: %q", args, r.err)
			}
		}
	}
}

func (c *C) judge(r result, tool string, args []string, want []byte, any bool) {
	c.Seen(tool, strings.Join(args, "\x00"))
	code := 1
	if any {
		code = 0
	}
	c.Count(fmt.Sprint("status_", code), 1)
	if d := firstDiff(r.out, want); d != "" {
		c.Fail("%s %q: %s", tool, args, d)
	}
	if r.code != code {
		c.Fail("%s %q: exit status %d, want %d (stderr %q)", tool, args, r.code, code, r.err)
	}
}

func (c *C) usage(tool string, args []string, r result) {
	c.Seen(tool, strings.Join(args, "\x00"))
	c.Count("usage_or_invalid", 1)
	if r.code <= 0 {
		c.Fail("%s %q: exit status %d (stderr %q)", tool, args, r.code, r.err)
	}
	if len(r.out) > 0 {
		c.Fail("%s %q: output %q", tool, args, r.out)
	}
	if len(bytes.TrimSpace(r.err)) == 0 {
		c.Fail("%s %q: no message on standard error", tool, args)
	}
	if bytes.Contains(r.err, []byte("goroutine ")) {
		c.Fail("%s %q: crashed: %s", tool, args, r.err)
	}
}

// ---- C22

func runC22(c *C) {
	w, m, exprs, _ := searchTree(c, 6)
	g := newRegexGen(c.Rand)
	g.alpha = []rune("abfoogsrcx.-/0123")
	g.words = []string{"foo", "src", ".go", "README", "lib", "foo-bar", "/", "w/src", w.tree}
	for range 8 {
		e := pick(c, exprs)
		f, _ := g.gen("")
		if c.Chance(2) {
			f = pick(c, []string{`\.go`, `^/`, `foo$`, `(?i)FOO`, `FOO`, `[0-9]$`, `é`, `世`, `a b|foo bar`, `^foo`, `\.zip`, `\bfoo\b`, `(?i)readme`, "", ".", `^$`, `x\.txt`, `\z`, `\A` + g.quote(w.tree) + `/[a-f]`, `(?:^|/)a[^/]*$`, `\xff`, `-v`, `zip.`, `zip[^/]`, `zip/`, `\x01foo`, `\.zip.[a-m]`, `zip$`})
		}
		if strings.Contains(f, "\x00") {
			continue
		}
		o := randOpts(c, false)
		i := c.Chance(3)
		full := "(?m)" + e
		args := append(o.flags(), "-f", f, "--", e)
		if i {
			full = "(?i)" + full
			args = append([]string{"-i"}, args...)
		}
		if e == "" && o.l {
			continue
		}
		if _, err := syntax.Parse(full, syntax.Perl); err != nil {
			continue
		}
		fre := mustParse(f)
		var docs []doc
		for _, d := range m.docs {
			if f == "" || refMatch(fre, d.name, true, true) >= 0 {
				docs = append(docs, d)
			}
		}
		want, matched, _ := grepDocs(docs, full, o)
		_, all, _ := grepDocs(m.docs, full, o)
		c.Count("filtered_searches", 1)
		if matched > 0 && matched < all {
			c.Count("filter_splits", 1)
			c.Seen(c.Case, f, full)
		}
		checkGrepRun(c, fmt.Sprintf("csearch %q over %d files, %d pass the filter", args, len(m.docs), len(docs)), w.run("csearch", args...), want.Bytes(), matched > 0)
		if c.Chance(3) {
			b := append([]string{"-brute"}, args...)
			checkGrepRun(c, fmt.Sprintf("csearch %q", b), w.run("csearch", b...), want.Bytes(), matched > 0)
		}
		c.Sample("csearch %q: %d of %d matching files", args, matched, all)
	}
}

// ---- C23

// c23Together indexes several trees at the same time, as one user, each into
// an index of its own.
func c23Together(c *C, w *world) {
	const n = 4
	var trees, want []string
	for i := range n {
		t := fmt.Sprintf("%s/par%d", w.dir, i)
		os.MkdirAll(t, 0o777)
		// Names that fill the buffers of the temporary files several times over.
		for j := range 600 + 400*(i%2) {
			os.WriteFile(fmt.Sprintf("%s/%04d%s", t, j, strings.Repeat(string(rune('a'+i)), 150+c.IntN(60))), []byte(fmt.Sprintf("%d in %d\n", c.IntN(1000), i)), 0o666)
		}
		trees = append(trees, t)
		w.idx = t + ".ix"
		w.must("cindex", t)
		data, err := os.ReadFile(w.idx)
		if err != nil {
			c.Fail("no index after cindex: %v", err)
		}
		want = append(want, string(data))
	}
	for round := range 4 {
		var runs []*exec.Cmd
		for i, t := range trees {
			w.idx = t + ".ix"
			if c.Chance(2) {
				os.Remove(w.idx)
			}
			cmd := w.cmd("cindex", "-reset", t)
			if err := cmd.Start(); err != nil {
				harness("%v", err)
			}
			runs = append(runs, cmd)
			if i < n-1 {
				time.Sleep(time.Duration(c.IntN(30)) * time.Millisecond)
			}
		}
		for i, cmd := range runs {
			if err := cmd.Wait(); err != nil {
				c.Fail("cindex failed while other indexes were built: %v", err)
			}
			data, err := os.ReadFile(trees[i] + ".ix")
			if err != nil {
				c.Fail("no index after cindex: %v", err)
			}
			c.Count("built_at_the_same_time", 1)
			if d := firstDiff(data, []byte(want[i])); d != "" {
				c.Fail("the index depends on other runs of cindex at the same time (round %d, tree %d of %d): %s", round, i, n, d)
			}
		}
	}
	for _, t := range trees {
		os.RemoveAll(t)
	}
	w.idx = filepath.Join(w.dir, "ix", "index")
}

func runC23(c *C) {
	w := newWorld(c, "w")
	tops := []string{"a", "b", "foo", "foo.bar", "foo-x", "foo/sub", "c"}
	for _, t := range tops {
		w.genTree(t, c.IntN(5))
	}
	if c.Chance(3) {
		w.tryWrite("a/z.zip", string(w.genZip()))
	}
	flags := []string{"-zip"}[:c.IntN(2)]
	var roots []string
	for n := 1 + c.IntN(4); n > 0; n-- {
		_, abs := w.pickPath(tops)
		roots = append(roots, abs)
	}
	roots = refRoots(roots)
	var first []byte
	var firstArgs []string
	for round := range 4 {
		args := slices.Clone(roots)
		if round > 0 {
			c.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
			for n := c.IntN(3); n > 0; n-- {
				p := pick(c, roots)
				switch c.IntN(3) {
				case 0:
					args = append(args, p)
				case 1:
					ents, err := os.ReadDir(p)
					if err == nil && len(ents) > 0 {
						p = filepath.Join(p, pick(c, ents).Name())
					}
					args = append(args, p)
				case 2:
					args = append([]string{p + "/"}, args...)
				}
			}
			for i := range args {
				if c.Chance(4) {
					if r, err := filepath.Rel(w.tree, args[i]); err == nil {
						args[i] = r
					}
				}
			}
			if c.Chance(2) { // modification times and modes of files do not matter
				filepath.Walk(w.tree, func(p string, info os.FileInfo, err error) error {
					if err == nil && info.Mode().IsRegular() && c.Chance(2) {
						ts := []syscall.Timespec{syscall.NsecToTimespec(1e18), syscall.NsecToTimespec(int64(c.IntN(1e9)) * 1e9)}
						syscall.UtimesNano(p, ts)
					}
					return nil
				})
			}
		}
		if c.Chance(2) {
			os.Remove(w.idx)
			w.must("cindex", append(append(slices.Clone(flags), "--"), args...)...)
		} else {
			w.must("cindex", append(append(slices.Clone(flags), "-reset", "--"), args...)...)
		}
		data, err := os.ReadFile(w.idx)
		if err != nil {
			c.Fail("no index after cindex %q: %v", args, err)
		}
		if first == nil {
			first, firstArgs = data, args
			m := &idxModel{}
			m.update(roots, len(flags) > 0)
			checkIndex(c, fmt.Sprintf("cindex %q", args), w.idx, m.roots, m.docs)
			continue
		}
		c.Count("indexes_compared", 1)
		c.Seen(c.Case, strings.Join(args, "\x00"))
		if d := firstDiff(data, first); d != "" {
			c.Fail("the index depends on more than the trees: cindex %q and cindex %q give different files: %s", firstArgs, args, d)
		}
	}
	if c.Case%160 == 5 {
		c23Together(c, w)
	}
	// Re-indexing an unchanged tree changes nothing.
	m := &idxModel{}
	m.update(roots, len(flags) > 0)
	var one []byte
	for range 2 {
		args := slices.Clone(roots)
		if c.Chance(2) {
			args = nil
		} else if c.Chance(2) {
			args = args[:1]
		}
		w.must("cindex", append(append(slices.Clone(flags), "--"), args...)...)
		c.Count("reindexed", 1)
		checkIndex(c, fmt.Sprintf("indexing %q again as %q: the index", roots, args), w.idx, m.roots, m.docs)
		data, _ := os.ReadFile(w.idx)
		if one != nil && !bytes.Equal(one, data) {
			c.Fail("re-indexing %q twice without changes gives different files: %s", roots, firstDiff(data, one))
		}
		one = data
	}
	c.Sample("cindex %q: %d bytes", roots, len(first))
}
