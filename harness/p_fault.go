package main

// Crashes and faults: C12, C13, C24 and C27 run cindex and csearch built on
// a standard library whose system calls can be recorded, made to fail, or
// made to kill the process (see faultlib).

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C12", Quick: 144, Thorough: 1200, Run: runC12, Level: "fault_enumeration",
		Rule:     "random trees and histories; an undisturbed traced run numbers the calls that create, write, copy, rename or remove files; then the same run is killed before, after or in the middle of such calls (sometimes again and again without cleaning up), or at a random time; the index file is compared with the old and the new one byte for byte, searched, and brought up to date by another run; creation from scratch likewise; non-trivial: a run that was killed; distinct by case, call and manner",
		Assume:   []string{"the crash is that of the process, not of the machine: what was written before the kill is in the file system", "-reset discards the existing index first and counts as creation from scratch"},
		MinEvent: map[string]int64{"killed": 500, "old_index": 200, "new_index": 10, "recovered": 250, "scratch_partial": 40, "calls_traced": 1500}})
	register(&Prop{ID: "C13", Quick: 192, Thorough: 1200, Run: runC13, Level: "fault_enumeration",
		Rule:     "as for crashes, but the call fails: once with ENOSPC or EIO, as a short write followed by an error, or together with all later creating calls; also failing reads of the temporary files, file size limits, and directories in the way; the exit status, the diagnostic and the index are judged; non-trivial: a run in which a fault was delivered; distinct by case, call and error",
		Assume:   []string{"a call that fails and is done successfully in another way (the copy fall-back of the Go library) is no failure: then status 0 is right if the index is the complete new one", "failing to remove a temporary file is not a failure to produce the index"},
		MinEvent: map[string]int64{"faults": 700, "refused": 600, "limits": 40, "calls_traced": 1500}})
	register(&Prop{ID: "C24", Quick: 640, Thorough: 8000, Run: runC24, Level: "fault_enumeration",
		Rule:     "trees with pipes, sockets, dangling, cyclic and valid links, huge sparse files, odd, hidden and overlong names and paths, damaged archives; cindex runs undisturbed, and with the n-th call that examines the tree failing (ENOENT, EACCES, EIO, ELOOP, ...) or the file vanishing just before it; exit status, and the index against the reference walk; non-trivial: a run with a fault or a special file; distinct by case and fault",
		Assume:   []string{"a file that is replaced by a pipe between being listed and being opened is not considered"},
		MinEvent: map[string]int64{"runs": 900, "faults": 450, "special_files": 600, "names_compared": 5000}})
	register(&Prop{ID: "C27", Quick: 640, Thorough: 8000, Run: runC27,
		Rule:     "histories of cindex, csearch and cgrep runs with all flags; every call that creates or modifies a file is recorded and its path judged, and the whole scratch directory is compared before and after each run; non-trivial: a traced run; distinct by command line",
		MinEvent: map[string]int64{"runs": 1500, "calls_traced": 8000, "files_compared": 20000}})
}

type traceCall struct {
	class       byte
	n           int
	op          string
	arg         int
	path, path2 string
}

func parseTrace(c *C, file string) []traceCall {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var l []traceCall
	for _, line := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		f := strings.Fields(line)
		if len(f) < 5 {
			continue
		}
		t := traceCall{class: f[0][0], op: f[2]}
		t.n, _ = strconv.Atoi(f[1])
		t.arg, _ = strconv.Atoi(f[3])
		t.path, _ = strconv.Unquote(f[4])
		if len(f) > 5 {
			t.path2, _ = strconv.Unquote(f[5])
		}
		l = append(l, t)
	}
	return l
}

// traced runs a command of the fault build, recording its calls.
func (w *world) traced(name string, args ...string) (result, []traceCall) {
	tr := filepath.Join(w.dir, "trace")
	os.Remove(tr)
	cmd := w.faultCmd(name, args...)
	cmd.Env = append(cmd.Env, "VERIF_TRACE="+tr)
	r := runCmd(w.c, cmd)
	calls := parseTrace(w.c, tr)
	os.Remove(tr)
	return r, calls
}

func (w *world) faultCmd(name string, args ...string) *exec.Cmd {
	v := *w
	v.bin = filepath.Join(w.c.Work, "fault")
	return v.cmd(name, args...)
}

func (w *world) faulted(fault, name string, args ...string) result {
	cmd := w.faultCmd(name, args...)
	cmd.Env = append(cmd.Env, "VERIF_FAULT="+fault)
	return runCmd(w.c, cmd)
}

// bulk writes files with many different trigrams, so that an index of them is
// written in several pieces.
func (w *world) bulk(dir string, n int) {
	c := w.c
	for i := range n {
		var b strings.Builder
		for b.Len() < 45000 {
			for range 40 {
				b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _.,"[c.IntN(66)])
			}
			b.WriteByte('\n')
		}
		w.tryWrite(fmt.Sprintf("%s/bulk%d", dir, i), b.String()[:40000])
	}
}

// An update is a cindex run that changes an existing index from old to new.
type update struct {
	w        *world
	args     []string
	old, new []byte // the index before and after
	om, nm   *idxModel
	calls    []traceCall
	quiet    map[string]bool // lines of standard error of the undisturbed run
	scratch  bool
	big      []byte // creation from scratch in place of this index
}

func (u *update) restore() {
	if u.scratch && u.big != nil {
		if err := os.WriteFile(u.w.idx, u.big, 0o600); err != nil {
			harness("%v", err)
		}
	} else if u.scratch {
		os.Remove(u.w.idx)
	} else if err := os.WriteFile(u.w.idx, u.old, 0o600); err != nil {
		harness("%v", err)
	}
}

// clean removes what interrupted runs left.
func (u *update) clean() {
	for _, d := range []string{u.w.tmp, filepath.Dir(u.w.idx)} {
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			os.RemoveAll(filepath.Join(d, e.Name()))
		}
	}
}

func (u *update) wcalls() []traceCall {
	return slices.DeleteFunc(slices.Clone(u.calls), func(t traceCall) bool { return t.class != 'W' })
}

// newUpdate makes a world with an index and an update to it, and runs the
// update once undisturbed.
func newUpdate(c *C, scratch, bulk, spill bool) *update {
	w := newWorld(c, "w")
	tops := []string{"a", "b", "foo", "foo.bar"}
	for _, t := range tops {
		w.genTree(t, 1+c.IntN(5))
	}
	w.tryWrite("a/keep", "some text to find\n")
	if bulk {
		w.bulk("b", 6+c.IntN(8))
	}
	u := &update{w: w, om: &idxModel{}, scratch: scratch}
	zips := c.Chance(4)
	if zips {
		w.tryWrite("a/z.zip", string(w.genZip()))
	}
	if !scratch {
		roots := []string{w.tree}
		if c.Chance(2) {
			roots = []string{w.tree + "/a", w.tree + "/b"}
		}
		w.must("cindex", roots...)
		u.om.update(roots, false)
		var err error
		if u.old, err = os.ReadFile(w.idx); err != nil {
			c.Fail("no index: %v", err)
		}
	}
	for range c.IntN(4) {
		w.change(tops)
	}
	w.tryWrite("a/added", fmt.Sprintf("brand new text %d\n", c.IntN(1000)))
	w.tryWrite("b/added", "brand new too\n")
	if bulk {
		w.bulk("foo", c.IntN(4))
	}
	if spill { // more posting entries than are held in memory
		w.manyEntries("a/many/", 8<<20+1<<18)
	}
	if zips {
		u.args = append(u.args, "-zip")
	}
	if c.Chance(4) {
		u.args = append(u.args, "-check")
	}
	var roots []string
	n := c.IntN(3)
	if spill {
		n = 1
	}
	switch n {
	case 0:
		roots = []string{w.tree}
	case 1:
		roots = []string{w.tree + "/a", w.tree + "/foo"}
	case 2:
		if scratch {
			roots = []string{w.tree + "/b"}
		} else {
			roots = u.om.roots
		}
	}
	if !(len(roots) == len(u.om.roots) && !scratch) {
		u.args = append(u.args, roots...)
	} else {
		roots = u.om.roots
	}
	if scratch && c.Chance(2) {
		u.args = append([]string{"-reset"}, u.args...)
		u.big = foreignIndex(c, 50000)
		u.restore()
	}
	u.nm = &idxModel{roots: u.om.roots, docs: u.om.docs}
	u.nm.update(roots, zips)
	r, calls := w.traced("cindex", u.args...)
	if r.code != 0 {
		c.Fail("cindex %q: exit status %d: %s", u.args, r.code, r.err)
	}
	u.calls = calls
	c.Count("calls_traced", len(calls))
	u.quiet = map[string]bool{}
	for _, l := range strings.Split(string(r.err), "\n") {
		u.quiet[normLine(l)] = true
	}
	var err error
	if u.new, err = os.ReadFile(w.idx); err != nil {
		c.Fail("no index after cindex %q: %v", u.args, err)
	}
	checkIndex(c, fmt.Sprintf("cindex %q: the index", u.args), w.idx, u.nm.roots, u.nm.docs)
	if bytes.Equal(u.old, u.new) {
		c.Fail("cindex %q did not change the index although files were added", u.args)
	}
	return u
}

// foreignIndex returns the index of other files, of about the given size.
func foreignIndex(c *C, size int) []byte {
	var docs []doc
	for i := range size / 500 {
		docs = append(docs, doc{fmt.Sprintf("/else/where/%d/%05d", i%7, i), genContent(c, 300) + " some text to find e\n"})
	}
	sortDocs(docs)
	f := filepath.Join(c.Dir("foreign"), "ix")
	buildIndex(c, f, []string{"/else"}, docs, false)
	b, err := os.ReadFile(f)
	if err != nil {
		harness("%v", err)
	}
	return b
}

// normLine replaces digits, so that lines can be compared.
func normLine(s string) string {
	return strings.Map(func(r rune) rune {
		if '0' <= r && r <= '9' {
			return -1
		}
		return r
	}, s)
}

// search runs a search on the index as it is and compares it with the
// documents (only those whose files did not change since).
func (u *update) search(what string, m *idxModel) {
	w := u.w
	// Names can be compared whatever became of the files: list all files.
	var docs []doc
	for _, d := range m.docs {
		if b, err := os.ReadFile(d.name); err == nil && string(b) == d.data {
			docs = append(docs, d)
		}
	}
	for _, e := range []string{"some text", "brand new", "e"} {
		want, matched, _ := grepDocs(docs, "(?m)"+e, grepOpts{l: true})
		r := w.run("csearch", "-l", e)
		// Changed files may or may not match now; compare the others.
		var got bytes.Buffer
		ok := map[string]bool{}
		for _, d := range docs {
			ok[d.name] = true
		}
		for _, l := range strings.SplitAfter(string(r.out), "\n") {
			if ok[strings.TrimSuffix(l, "\n")] {
				got.WriteString(l)
			}
		}
		if d := firstDiff(got.Bytes(), want.Bytes()); d != "" {
			w.c.Fail("%s: csearch -l %q: %s (status %d, stderr %q)", what, e, d, r.code, r.err)
		}
		if matched > 0 && r.code != 0 || r.code > 1 {
			w.c.Fail("%s: csearch -l %q: status %d, stderr %q", what, e, r.code, r.err)
		}
	}
}

func show(path string) string { return filepath.Base(path) }

func runC12(c *C) {
	scratch := c.Chance(4)
	spill := c.Case%1000 == 1
	u := newUpdate(c, scratch, c.Chance(3), spill)
	w := u.w
	calls := u.wcalls()
	if len(calls) == 0 {
		harness("no calls traced")
	}
	type kill struct {
		n    int
		how  string
		what string
	}
	var kills []kill
	for _, t := range calls {
		what := fmt.Sprintf("%s of %s (call %d of %d)", t.op, show(t.path), t.n, len(calls))
		if t.path2 != "" {
			what += " to " + show(t.path2)
		}
		on := strings.HasPrefix(t.path, w.idx) // the index and its companions
		for _, how := range []string{"kill", "killhalf", "killpost"} {
			if how == "killhalf" && t.op != "write" && t.op != "pwrite" && t.op != "copyrange" {
				continue
			}
			p := 6
			if on {
				p = 2
			}
			if c.Thorough || c.Chance(p) {
				kills = append(kills, kill{t.n, how, how + " at " + what})
			}
		}
	}
	for range 2 {
		kills = append(kills, kill{0, "timed", "kill at a random time"})
	}
	if c.Chance(2) {
		c.Shuffle(len(kills), func(i, j int) { kills[i], kills[j] = kills[j], kills[i] })
	}
	max := 14
	if spill {
		max = 4
	}
	if (!c.Thorough || spill) && len(kills) > max {
		c.Shuffle(len(kills), func(i, j int) { kills[i], kills[j] = kills[j], kills[i] })
		kills = kills[:max]
	}
	dirty := c.Chance(2) // leave what killed runs left behind in place
	for _, k := range kills {
		if !dirty {
			u.clean()
		}
		u.restore()
		what := fmt.Sprintf("cindex %q, %s", u.args, k.what)
		if dirty {
			what += " (after other killed runs)"
		}
		var r result
		if k.how == "timed" {
			cmd := w.cmd("cindex", u.args...)
			cmd.Stderr = nil
			if err := cmd.Start(); err != nil {
				harness("%v", err)
			}
			time.Sleep(time.Duration(c.IntN(60)) * time.Millisecond)
			cmd.Process.Kill()
			if cmd.Wait() != nil {
				r.code = -1
			}
		} else {
			r = w.faulted(fmt.Sprintf("W:%d:%s", k.n, k.how), "cindex", u.args...)
		}
		if r.code > 0 {
			// With leftovers in place a run may take other steps, but it must not fail.
			c.Fail("%s: the run failed: status %d: %s", what, r.code, r.err)
		}
		if r.code == 0 { // not reached
			c.Count("not_reached", 1)
		} else {
			c.Count("killed", 1)
			c.Seen(c.Case, k.n, k.how)
		}
		c.Sample("%s", what)
		data, err := os.ReadFile(w.idx)
		switch {
		case bytes.Equal(data, u.new):
			c.Count("new_index", 1)
			if r.code != 0 {
				u.search(what+": new index", u.nm)
			}
		case scratch && u.big != nil && bytes.Equal(data, u.big):
			c.Count("not_begun", 1)
			continue
		case scratch:
			c.Count("scratch_partial", 1)
			l := w.run("cindex", "-list")
			s := w.run("csearch", "e")
			b := w.run("csearch", "-brute", "-l", "e")
			for _, r := range []result{l, s, b} {
				if r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
					c.Fail("%s: creation was interrupted, but the file (%d of %d bytes) is accepted as an index: status %d, output %.200q, stderr %q", what, len(data), len(u.new), r.code, r.out, r.err)
				}
			}
			continue
		case err == nil && bytes.Equal(data, u.old):
			c.Count("old_index", 1)
			u.search(what+": old index", u.om)
		default:
			c.Fail("%s: the index is neither the old nor the new one (%v): %s", what, err, firstDiff(data, u.old))
		}
		if scratch {
			continue
		}
		if c.Chance(2) || dirty {
			r := w.run("cindex", u.args...)
			if r.code != 0 {
				c.Fail("%s: running cindex again fails: status %d: %s", what, r.code, r.err)
			}
			checkIndex(c, what+", then cindex again: the index", w.idx, u.nm.roots, u.nm.docs)
			c.Count("recovered", 1)
		}
	}
	// What a killed run of another, larger update leaves: whole or in part.
	for _, cut := range []bool{false, true} {
		if len(u.new) > 400000 {
			break
		}
		u.clean()
		u.restore()
		for _, n := range []string{"~", "~~"} {
			if c.Chance(4) {
				continue
			}
			b := foreignIndex(c, len(u.new)+c.IntN(60000))
			if cut {
				b = b[:c.IntN(len(b))]
			}
			if err := os.WriteFile(w.idx+n, b, 0o600); err != nil {
				harness("%v", err)
			}
		}
		what := fmt.Sprintf("cindex %q, where a killed run left its files (cut short: %v)", u.args, cut)
		if r := w.run("cindex", u.args...); r.code != 0 {
			c.Fail("%s: status %d: %s", what, r.code, r.err)
		}
		if data, err := os.ReadFile(w.idx); err != nil || !bytes.Equal(data, u.new) {
			c.Fail("%s: the index is not the new one (%v): %s", what, err, firstDiff(data, u.new))
		}
		c.Count("foreign_leftovers", 1)
	}
}

// ---- C13

func runC13(c *C) {
	scratch := c.Chance(4)
	spill := c.Case%1000 == 1
	u := newUpdate(c, scratch, c.Chance(3), spill)
	w := u.w
	calls := u.wcalls()
	judge := func(what string, r result, fatal bool) {
		c.Sample("%s: status %d", what, r.code)
		data, err := os.ReadFile(w.idx)
		if r.code == 0 {
			c.Count("still_complete", 1)
			if err != nil || !bytes.Equal(data, u.new) {
				c.Fail("%s: cindex reports success, but the index is not the complete new one (%v): %s\nstderr: %s", what, err, firstDiff(data, u.new), r.err)
			}
			return
		}
		c.Count("refused", 1)
		if r.code < 0 {
			c.Fail("%s: cindex was killed by a signal; stderr: %s", what, r.err)
		}
		said := false
		for _, l := range strings.Split(string(r.err), "\n") {
			if !u.quiet[normLine(l)] {
				said = true
			}
		}
		if !said {
			c.Fail("%s: cindex fails (status %d) without a diagnostic: %q", what, r.code, r.err)
		}
		if !scratch {
			if err != nil || !bytes.Equal(data, u.old) && !(!fatal && bytes.Equal(data, u.new)) {
				c.Fail("%s: cindex fails (status %d), but the existing index changed (%v): %s\nstderr: %s", what, r.code, err, firstDiff(data, u.old), r.err)
			}
			return
		}
		if err == nil && !bytes.Equal(data, u.new) {
			if s := w.run("csearch", "-l", "e"); s.code == 0 || len(s.out) > 0 {
				c.Fail("%s: creation failed, but the file left behind is accepted as an index: status %d, output %.200q", what, s.code, s.out)
			}
		}
	}
	type fault struct{ spec, what, env string }
	var faults []fault
	for _, t := range calls {
		for _, act := range []string{"err=28", "err=5", "short=28", "all=28", "err=13"} {
			if act[0] == 's' {
				if t.op != "write" && t.op != "copyrange" {
					continue
				}
				if t.op == "copyrange" {
					act = "short=122"
				}
			}
			if act == "err=13" && t.op != "create" && t.op != "rename" {
				continue
			}
			if t.op == "copyrange" && act == "err=5" {
				// The Go library forgets what it has copied so far if a later
				// piece fails with EIO once; use an error it passes on.
				act = "err=122"
			}
			if t.op == "unlink" && act != "err=5" && act != "all=28" {
				continue
			}
			p := 8
			if strings.HasPrefix(t.path, w.idx) || t.op == "rename" {
				p = 4
			}
			if spill { // the entries written early
				p = 60
				if t.n < 40 {
					p = 4
				}
			}
			if c.Thorough || c.Chance(p) {
				what := fmt.Sprintf("%s of %s (call %d of %d) fails: %s", t.op, show(t.path), t.n, len(calls), act)
				faults = append(faults, fault{fmt.Sprintf("W:%d:%s", t.n, act), what, ""})
			}
		}
	}
	for range 2 {
		n := 1 + c.IntN(12)
		act := pick(c, []string{"all=5", "all=116", "err=116"})
		faults = append(faults, fault{fmt.Sprintf("R:%d:%s", n, act), fmt.Sprintf("examining temporary files (call %d) fails: %s", n, act), "VERIF_ROOT=" + w.tmp})
	}
	max := 14
	if spill {
		max = 8
	}
	if (!c.Thorough || spill) && len(faults) > max {
		c.Shuffle(len(faults), func(i, j int) { faults[i], faults[j] = faults[j], faults[i] })
		faults = faults[:max]
	}
	for _, f := range faults {
		u.clean()
		u.restore()
		cmd := w.faultCmd("cindex", u.args...)
		cmd.Env = append(cmd.Env, "VERIF_FAULT="+f.spec)
		if f.env != "" {
			cmd.Env = append(cmd.Env, f.env)
		}
		r := runCmd(c, cmd)
		c.Count("faults", 1)
		c.Seen(c.Case, f.spec)
		judge(fmt.Sprintf("cindex %q, %s", u.args, f.what), r, !strings.Contains(f.what, "unlink"))
	}
	// The real program against real limits and obstacles.
	for range 2 {
		u.clean()
		u.restore()
		what, undo := "", func() {}
		var cmd *exec.Cmd
		switch c.IntN(5) {
		case 0:
			what = "the directory for temporary files is missing"
			cmd = w.cmd("cindex", u.args...)
			cmd.Env = append(cmd.Env, "TMPDIR="+w.dir+"/nowhere")
		case 1:
			if scratch {
				continue
			}
			what = "a directory is in the way of the intermediate index"
			x := w.idx + pick(c, []string{"~", "~~"})
			os.MkdirAll(x+"/in/it", 0o777)
			undo = func() { os.RemoveAll(x) }
			cmd = w.cmd("cindex", u.args...)
		default:
			blocks := c.IntN(2 + len(u.new)*2/512)
			what = fmt.Sprintf("file size limited to %d bytes", blocks*512)
			cmd = w.cmd("cindex", u.args...)
			cmd.Args = append([]string{"sh", "-c", fmt.Sprintf(`ulimit -f %d; exec "$0" "$@"`, blocks), cmd.Path}, cmd.Args[1:]...)
			cmd.Path = "/bin/sh"
		}
		c.Count("limits", 1)
		c.Seen(c.Case, what)
		r := runCmd(c, cmd)
		undo()
		judge(fmt.Sprintf("cindex %q, %s", u.args, what), r, true)
	}
}

// ---- C24

// special puts things into the tree that are not regular readable files.
func (w *world) special(dirs []string) int {
	c := w.c
	n := 0
	for range 2 + c.IntN(8) {
		d := filepath.Join(w.tree, pick(c, dirs))
		if os.MkdirAll(d, 0o777) != nil {
			continue
		}
		p := filepath.Join(d, w.genName(20)+pick(c, []string{"", ".txt", ".zip", ".go"}))
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		n++
		switch c.IntN(11) {
		case 0, 1:
			syscall.Mkfifo(p, 0o666)
		case 2:
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			if err == nil {
				if wd, err := os.Getwd(); err == nil && os.Chdir(d) == nil { // names of sockets are short
					syscall.Bind(fd, &syscall.SockaddrUnix{Name: filepath.Base(p)})
					os.Chdir(wd)
				}
				syscall.Close(fd)
			}
		case 3:
			os.Symlink("nowhere", p)
		case 4:
			os.Symlink(filepath.Base(p), p)
		case 5:
			os.Symlink(pick(c, []string{".", "..", w.tree, "/", "/dev/zero", "/dev/full", "/etc"}), p)
		case 6:
			ents, err := os.ReadDir(d)
			if err == nil && len(ents) > 0 {
				os.Symlink(pick(c, ents).Name(), p)
			}
		case 7:
			f, err := os.Create(p)
			if err == nil {
				f.Truncate(pick(c, []int64{1 << 20, 1<<30 + 1, 5 << 30}))
				f.Close()
			}
		case 8:
			os.Mkdir(p, 0o777)
		case 9:
			// A directory tree deeper than a path may be long.
			if c.Chance(6) {
				name := strings.Repeat("d", 250)
				if fd, err := syscall.Open(d, syscall.O_DIRECTORY|syscall.O_RDONLY, 0); err == nil {
					for range 20 {
						syscall.Mkdirat(fd, name, 0o777)
						if f, err := syscall.Openat(fd, "deep", syscall.O_CREAT|syscall.O_WRONLY, 0o666); err == nil {
							syscall.Write(f, []byte("deep text\n"))
							syscall.Close(f)
						}
						next, err := syscall.Openat(fd, name, syscall.O_DIRECTORY|syscall.O_RDONLY, 0)
						syscall.Close(fd)
						fd = next
						if err != nil {
							break
						}
					}
					if fd >= 0 {
						syscall.Close(fd)
					}
				}
			}
		case 10:
			os.WriteFile(p, []byte(someText(c)), 0)
		}
	}
	return n
}

func runC24(c *C) {
	w := newWorld(c, "w")
	dirs := []string{"", "a", "b", "foo", "a/b", "a/foo.bar", "b/x/y"}
	for _, d := range dirs[1:] {
		w.genTree(d, c.IntN(5))
	}
	if c.Chance(2) {
		w.fds = 64
		if c.Chance(4) {
			for i := range 150 {
				w.tryWrite(fmt.Sprintf("a/many%d/%d", i%40, i), someText(c))
			}
		}
	}
	if c.Chance(12) { // far down
		p := pick(c, dirs)
		for range []int{20, 60, 100, 250}[c.IntN(4)] {
			p += "/" + pick(c, []string{"d", "e", "d1", "dd"})
		}
		w.tryWrite(p+"/f", genContent(c, 40))
		c.Count("deep_files", 1)
	}
	zips := c.Chance(3)
	var flags []string
	if zips {
		flags = append(flags, "-zip")
		for range c.IntN(4) {
			data := w.genZip()
			if c.Chance(3) {
				data = damageZip(c, data, nil)
			}
			w.tryWrite(pick(c, dirs)+"/"+w.genName(8)+".zip", string(data))
		}
	}
	nspec := w.special(dirs)
	c.Count("special_files", nspec)
	if c.Chance(4) {
		flags = append(flags, "-verbose")
	}
	roots := []string{w.tree}
	switch c.IntN(5) {
	case 0:
		roots = []string{w.tree + "/a", w.tree + "/b", w.tree + "/foo"}
	case 1: // everything one level down, special files included
		roots = nil
		ents, _ := os.ReadDir(w.tree)
		for _, e := range ents {
			p := w.tree + "/" + e.Name()
			if refNameOK(p) {
				roots = append(roots, p)
			}
		}
	}
	m := &idxModel{}
	m.update(roots, zips)
	args := append(append(slices.Clone(flags), "--"), roots...)
	tr := filepath.Join(w.dir, "trace")
	run := func(what, fault string) (result, []traceCall) {
		os.Remove(w.idx)
		os.Remove(tr)
		cmd := w.faultCmd("cindex", args...)
		cmd.Env = append(cmd.Env, "VERIF_TRACE="+tr, "VERIF_ROOT="+w.tree, "VERIF_GONE="+w.dir+"/gone")
		if fault != "" {
			cmd.Env = append(cmd.Env, "VERIF_FAULT="+fault)
		}
		r := runCmdTime(c, cmd, 30*time.Second)
		c.Count("runs", 1)
		if r.code != 0 {
			c.Fail("%s: exit status %d: %s", what, r.code, r.err)
		}
		calls := parseTrace(c, tr)
		return r, slices.DeleteFunc(calls, func(t traceCall) bool { return t.class != 'R' })
	}
	what := fmt.Sprintf("cindex %q on a tree with %d special files", args, nspec)
	_, calls := run(what, "")
	checkIndex(c, what+": the index", w.idx, m.roots, m.docs)
	c.Seen(c.Case)
	c.Sample("%s: %d documents", what, len(m.docs))
	if len(calls) == 0 {
		return
	}
	os.MkdirAll(w.dir+"/gone", 0o777)
	for range 3 {
		k := c.IntN(len(calls))
		act := pick(c, []string{"err=2", "err=13", "err=5", "err=40", "err=20", "err=116", "err=12", "vanish", "vanish"})
		t := calls[k]
		if act == "vanish" && t.path == w.tree {
			continue
		}
		what := fmt.Sprintf("cindex %q, %s of %s (call %d of %d): %s", args, t.op, t.path, t.n, len(calls), act)
		_, done := run(what, fmt.Sprintf("R:%d:%s", t.n, act))
		c.Count("faults", 1)
		c.Seen(c.Case, t.n, act)
		if len(done) < t.n {
			continue // a call less, perhaps an interrupted one
		}
		if done[t.n-1].path != t.path {
			t = done[t.n-1]
			what += fmt.Sprintf(" (%s of %s was hit)", t.op, t.path)
		}
		data, _ := os.ReadFile(w.idx)
		ix, err := decodeIndex(data)
		if err != nil {
			c.Fail("%s: %v", what, err)
		}
		have := map[string]bool{}
		for _, n := range ix.names {
			have[n] = true
		}
		// What lies at or under the path may be missing; nothing else may.
		docs := slices.DeleteFunc(slices.Clone(m.docs), func(d doc) bool {
			return (refUnder(d.name, t.path) || strings.HasPrefix(d.name, t.path+"\x01")) && !have[d.name]
		})
		// An archive that cannot be examined may be taken for a plain file.
		if zips && strings.HasSuffix(t.path, ".zip") && have[t.path] && act != "vanish" {
			if b, err := os.ReadFile(t.path); err == nil && textPolicy(string(b)) == isText {
				docs = append(docs, doc{t.path, string(b)})
				sortDocs(docs)
			}
		}
		checkIndex(c, what+": the index", w.idx, m.roots, docs)
		if act == "vanish" { // put it back
			ents, _ := os.ReadDir(w.dir + "/gone")
			for _, e := range ents {
				os.Rename(filepath.Join(w.dir, "gone", e.Name()), t.path)
			}
		}
	}
}

// ---- C27

func runC27(c *C) {
	w := newWorld(c, "w")
	tops := []string{"a", "b", "foo", "foo.bar"}
	for _, t := range tops {
		w.genTree(t, 1+c.IntN(4))
	}
	if c.Chance(3) {
		w.tryWrite("a/z.zip", string(w.genZip()))
	}
	if c.Chance(12) {
		w.bulk("b", 8)
	}
	rounds := 6
	if c.Case%1000 == 0 { // more posting entries than are held in memory
		w.manyEntries("many", 8<<20+1<<18)
		rounds = 3
	}
	ixdir := filepath.Dir(w.idx)
	skip := func(p string) bool { return p == w.dir+"/trace" }
	have := false
	for round := range rounds {
		for n := c.IntN(3); n > 0; n-- {
			w.change(tops)
		}
		before := snapshot(w.dir, skip)
		c.Count("files_compared", len(before))
		c.Count("runs", 1)
		if !have || c.Chance(2) {
			args := []string{}
			for _, f := range []string{"-zip", "-check", "-verbose", "-reset", "-stats"} {
				if c.Chance(5) {
					args = append(args, f)
				}
			}
			args = append(args, "--")
			if !have || slices.Contains(args, "-reset") || c.Chance(2) {
				_, p := w.pickPath(tops)
				if rounds == 3 && round == 0 {
					p = w.tree
				}
				args = append(args, p)
			}
			list := have && c.Chance(6)
			if list {
				args = []string{"-list"}
			}
			r, calls := w.traced("cindex", args...)
			what := fmt.Sprintf("cindex %q", args)
			c.Seen(strings.Join(args, "\x00"), c.Case)
			c.Sample("%s: %d calls", what, len(calls))
			if r.code != 0 {
				c.Fail("%s: status %d: %s", what, r.code, r.err)
			}
			c.Count("calls_traced", len(calls))
			for _, t := range calls {
				if t.class != 'W' {
					continue
				}
				for _, p := range []string{t.path, t.path2} {
					if p == "" || filepath.Dir(p) == ixdir && strings.HasPrefix(p, w.idx) || strings.HasPrefix(p, w.tmp+"/") {
						continue
					}
					c.Fail("%s: %s of %s", what, t.op, p)
				}
				if list {
					c.Fail("%s: %s of %s", what, t.op, t.path)
				}
			}
			after := snapshot(w.dir, skip)
			if !list {
				st, err := os.Lstat(w.idx)
				if err != nil {
					c.Fail("%s: no index: %v", what, err)
				}
				if m := st.Mode(); !m.IsRegular() || m.Perm()&0o77 != 0 || m.Perm()&0o600 != 0o600 {
					c.Fail("%s: mode of the index is %v", what, m)
				}
				have = true
				delete(before, w.idx)
				delete(after, w.idx)
			}
			if d := diffSnap(before, after); d != "" {
				c.Fail("%s: files other than the index changed:\n%s", what, d)
			}
			continue
		}
		o := randOpts(c, false)
		e := pick(c, []string{"abc", "e", "[a-z]+", "", "^$", "foo|bar", "(", "nothing like this"})
		name := "csearch"
		args := o.flags()
		if c.Chance(3) {
			name = "cgrep"
			args = append(args, "--", e)
			filepath.Walk(w.tree, func(p string, info os.FileInfo, err error) error {
				if err == nil && c.Chance(2) {
					args = append(args, p)
				}
				return nil
			})
			args = append(args, w.tree+"/missing")
		} else {
			for _, f := range []string{"-brute", "-i", "-html", "-verbose"} {
				if c.Chance(4) {
					args = append(args, f)
				}
			}
			args = append(args, "--", e)
		}
		_, calls := w.traced(name, args...)
		what := fmt.Sprintf("%s %q", name, args)
		c.Seen(strings.Join(args, "\x00"), c.Case)
		for _, t := range calls {
			if t.class == 'W' {
				c.Fail("%s: %s of %s", what, t.op, t.path)
			}
		}
		if d := diffSnap(before, snapshot(w.dir, skip)); d != "" {
			c.Fail("%s changed files:\n%s", what, d)
		}
	}
}
