package main

// C41: what cindex leaves out, it reports.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/google/codesearch/index"
)

func init() {
	register(&Prop{ID: "C41", Quick: 960, Thorough: 6000, Run: runC41, Level: "fault_enumeration",
		Rule:     "trees with damaged archives, archive members that cannot be opened or read, names that cannot be recorded, missing roots, paths that are too long, and special files; cindex runs undisturbed and with the n-th call that examines the tree failing or the file vanishing; everything that is missing from the index must be named on standard error and nothing that is there may be; and sequences of text and other files added by a writer that logs what it skips; non-trivial: a run with something to report; distinct by case and item",
		Assume:   []string{"a failure to examine a file that is already open (fstat) is not considered"},
		MinEvent: map[string]int64{"runs": 900, "faults": 400, "lost_to_faults": 200, "reports_expected": 800, "unreported_documents": 5000, "bad_members": 200, "bad_archives": 100, "bad_names": 100, "skips_logged": 2000, "skips_not_logged": 2000}})
}

// A loss is something cindex cannot index: all of the texts must be in one
// of its messages.
type loss struct{ texts []string }

// said reports whether err has a message with all the texts, each as it is or
// quoted.
func said(messages string, l loss) bool {
	for _, t := range l.texts {
		q := fmt.Sprintf("%q", t)
		if !strings.Contains(messages, t) && !strings.Contains(messages, q[1:len(q)-1]) {
			return false
		}
	}
	if strings.Contains(strings.Join(l.texts, ""), "\n") {
		return true
	}
	for _, line := range strings.Split(messages, "\n") {
		ok := true
		for _, t := range l.texts {
			q := fmt.Sprintf("%q", t)
			ok = ok && (strings.Contains(line, t) || strings.Contains(line, q[1:len(q)-1]))
		}
		if ok {
			return true
		}
	}
	return false
}

// losses lists what cannot be indexed under the root.
func losses(c *C, root string, zips bool) []loss {
	var l []loss
	var walk func(p string)
	walk = func(p string) {
		if refHidden(filepath.Base(p)) {
			return
		}
		st, err := os.Lstat(p)
		if err != nil {
			l = append(l, loss{[]string{p}})
			return
		}
		switch {
		case st.IsDir():
			ents, err := os.ReadDir(p)
			if err != nil {
				l = append(l, loss{[]string{p}})
			}
			for _, e := range ents {
				walk(strings.TrimRight(p, "/") + "/" + e.Name())
			}
		case st.Mode().IsRegular():
			b, err := readHead(p, st.Size())
			if err != nil {
				l = append(l, loss{[]string{p}})
				return
			}
			if !refNameOK(p) {
				l = append(l, loss{[]string{p}})
				c.Count("bad_names", 1)
				return
			}
			if !zips || !strings.HasSuffix(p, ".zip") {
				return
			}
			r, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
			if err != nil {
				l = append(l, loss{[]string{p}})
				c.Count("bad_archives", 1)
				return
			}
			last := map[string]int{}
			for i, f := range r.File {
				last[f.Name] = i
			}
			for i, f := range r.File {
				if !refNameOK(f.Name) {
					l = append(l, loss{[]string{p, f.Name}})
					c.Count("bad_member_names", 1)
					continue
				}
				if last[f.Name] != i {
					continue
				}
				rc, err := f.Open()
				var have []byte
				if err == nil {
					have, err = io.ReadAll(rc)
					rc.Close()
				}
				// What is no text before the damage is just skipped.
				if err != nil && textPolicy(string(have)) == isText {
					l = append(l, loss{[]string{p, f.Name}})
					c.Count("bad_members", 1)
				}
			}
		}
	}
	walk(root)
	return l
}

// spoilMember damages an archive so that some of its members cannot be opened
// or not be read.
func spoilMember(c *C, data []byte) []byte {
	data = bytes.Clone(data)
	for range 1 + c.IntN(3) {
		// The central directory entries: signature, ..., method at 10, CRC at 16,
		// offset of the local header at 42.
		var at []int
		for i := 0; ; {
			j := bytes.Index(data[i:], []byte("PK\x01\x02"))
			if j < 0 {
				break
			}
			at = append(at, i+j)
			i += j + 4
		}
		if len(at) == 0 {
			return data
		}
		i := pick(c, at)
		if i+46 > len(data) {
			continue
		}
		switch c.IntN(3) {
		case 0:
			binary.LittleEndian.PutUint16(data[i+10:], pick(c, []uint16{1, 9, 12, 14, 99}))
		case 1:
			data[i+16+c.IntN(4)] ^= byte(1 + c.IntN(255))
		case 2:
			off := int(binary.LittleEndian.Uint32(data[i+42:]))
			if off+4 < len(data) {
				data[off+c.IntN(4)] ^= 0x40
			}
		}
	}
	return data
}

func runC41(c *C) {
	if c.Case%4 == 3 {
		logSkips(c)
		return
	}
	w := newWorld(c, "w")
	dirs := []string{"", "a", "b", "foo", "a/b", "a/foo.bar", "b/x/y"}
	for _, d := range dirs[1:] {
		w.genTree(d, c.IntN(5))
	}
	zips := c.IntN(5) > 0
	for range c.IntN(6) {
		data := w.genZip()
		switch c.IntN(6) {
		case 0:
			data = damageZip(c, data, nil)
		case 1:
			data = data[:c.IntN(len(data)+1)]
		case 2, 3, 4:
			data = spoilMember(c, data)
		}
		w.tryWrite(pick(c, dirs)+"/"+w.genName(12)+".zip", string(data))
	}
	for range c.IntN(3) {
		w.tryWrite(pick(c, dirs)+"/"+pick(c, []string{"a\nb", "\x01", "x\x01y.zip", "tab\there", "\x1b[0m", "bad\rdir/file", "bad\x02dir/sub/file"}), someText(c))
	}
	w.special(dirs)
	roots := []string{w.tree}
	switch c.IntN(4) {
	case 0:
		roots = []string{w.tree + "/a", w.tree + "/b", w.tree + "/foo", w.tree + "/missing"}
	case 1:
		roots = []string{w.tree, w.dir + "/nowhere/x"}
	}
	m := &idxModel{}
	m.update(roots, zips)
	var lost []loss
	for _, r := range roots {
		lost = append(lost, losses(c, r, zips)...)
	}
	args := append([]string{}, roots...)
	if zips {
		args = append([]string{"-zip"}, args...)
	}
	tr := filepath.Join(w.dir, "trace")
	run := func(what, fault string) (messages string, calls []traceCall) {
		os.Remove(w.idx)
		os.Remove(tr)
		cmd := w.faultCmd("cindex", args...)
		cmd.Env = append(cmd.Env, "VERIF_TRACE="+tr, "VERIF_ROOT="+w.tree, "VERIF_GONE="+w.dir+"/gone")
		if fault != "" {
			cmd.Env = append(cmd.Env, "VERIF_FAULT="+fault)
		}
		r := runCmdTime(c, cmd, 30*time.Second)
		c.Count("runs", 1)
		if r.code != 0 {
			c.Fail("%s: exit status %d: %s", what, r.code, r.err)
		}
		calls = parseTrace(c, tr)
		// What is said about the run itself is no report.
		messages = string(r.err)
		for _, root := range roots {
			messages = strings.ReplaceAll(messages, "index "+root+"\n", "\n")
		}
		return messages, slices.DeleteFunc(calls, func(t traceCall) bool { return t.class != 'R' })
	}
	what := fmt.Sprintf("cindex %q", args)
	messages, calls := run(what, "")
	for _, l := range lost {
		c.Count("reports_expected", 1)
		c.Seen(c.Case, l)
		if !said(messages, l) {
			c.Fail("%s: %q cannot be indexed, but no message says so:\n%s", what, l.texts, messages)
		}
	}
	for _, d := range m.docs {
		texts := strings.SplitN(d.name, ".zip\x01", 2)
		if len(texts) == 2 {
			texts[0] += ".zip"
		}
		for _, line := range strings.Split(messages, "\n") {
			blamed := true
			for _, t := range texts {
				blamed = blamed && strings.Contains(line, t+":")
			}
			// It may be part of another name.
			for _, l := range lost {
				blamed = blamed && !said(line, l)
			}
			if blamed {
				c.Fail("%s: %q is indexed, but there is a message about it: %s", what, d.name, line)
			}
		}
	}
	c.Count("unreported_documents", len(m.docs))
	c.Sample("%s: %d documents, %d losses\n%s", what, len(m.docs), len(lost), messages)
	if len(calls) == 0 {
		return
	}
	os.MkdirAll(w.dir+"/gone", 0o777)
	for range 3 {
		t := pick(c, calls)
		act := pick(c, []string{"err=2", "err=13", "err=5", "err=40", "err=20", "err=116", "err=12", "vanish", "vanish"})
		if t.op == "fstat" || act == "vanish" && t.path == w.tree {
			continue
		}
		what := fmt.Sprintf("cindex %q, %s of %s (call %d of %d): %s", args, t.op, t.path, t.n, len(calls), act)
		messages, done := run(what, fmt.Sprintf("R:%d:%s", t.n, act))
		if len(done) < t.n {
			continue // a call less, perhaps an interrupted one
		}
		if hit := done[t.n-1]; hit.path != t.path || hit.op != t.op {
			t = hit
			what += fmt.Sprintf(" (%s of %s was hit)", t.op, t.path)
		}
		c.Count("faults", 1)
		data, _ := os.ReadFile(w.idx)
		ix, err := decodeIndex(data)
		if err != nil {
			c.Fail("%s: %v", what, err)
		}
		have := map[string]bool{}
		for _, n := range ix.names {
			have[n] = true
		}
		for _, d := range m.docs {
			if have[d.name] {
				continue
			}
			c.Count("lost_to_faults", 1)
			c.Seen(c.Case, t.n, act, d.name)
			if t.op != "fstat" && !said(messages, loss{[]string{t.path}}) {
				c.Fail("%s: %q is not indexed, but no message says so:\n%s", what, d.name, messages)
			}
		}
		if act == "vanish" { // put it back
			ents, _ := os.ReadDir(w.dir + "/gone")
			for _, e := range ents {
				os.Rename(filepath.Join(w.dir, "gone", e.Name()), t.path)
			}
		}
	}
}

// logSkips adds files with a writer that logs what it skips.
func logSkips(c *C) {
	file := filepath.Join(c.Dir("c41"), "ix")
	var messages bytes.Buffer
	old := log.Writer()
	log.SetOutput(&messages)
	defer log.SetOutput(old)
	ix := index.Create(file)
	ix.LogSkip = true
	ix.AddRoots([]index.Path{index.MakePath("/r")})
	n := 20 + c.IntN(30)
	for i := range n {
		name := fmt.Sprintf("/r/%06d.txt", i)
		data := c05Content(c)
		if len(data) > 1<<20 {
			data = data[len(data)-1<<20:]
		}
		v := textPolicy(data)
		messages.Reset()
		if err := ix.Add(name, &chunkReader{data: data, next: splitter(c)}); err != nil {
			c.Fail("Add(%q): %v", name, err)
		}
		k := strings.Count(messages.String(), name)
		lines := strings.Count(messages.String(), "\n")
		switch {
		case v == notText && (k != 1 || lines != 1):
			c.Fail("Add of %q with LogSkip skips %d bytes of no text, messages: %q", name, len(data), messages.String())
		case v == isText && (k != 0 || lines != 0):
			c.Fail("Add of %q with LogSkip indexes %d bytes of text, messages: %q", name, len(data), messages.String())
		}
		if v == notText {
			c.Count("skips_logged", 1)
			c.Seen(c.Case, i)
		} else {
			c.Count("skips_not_logged", 1)
		}
	}
	ix.Flush()
}
