package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp/syntax"
	"slices"
	"strings"
)

func init() {
	register(&Prop{ID: "C18", Quick: 1920, Thorough: 15000, Run: runC18,
		Rule:     "random trees of plain files, archives (nested directories, stored and deflated, binary, damaged, repeated and odd members) and files that only look like archives; indexed with and without -zip, some archives then removed or damaged; index decoded and searches compared with a reference over the extracted members; non-trivial: matches inside an archive and in a plain file; distinct by tree and expression",
		Assume:   []string{"of several members with one name the last counts (it is the one that is searched)", "members whose names contain control characters are not indexed, like files with such names"},
		MinEvent: map[string]int64{"archives": 800, "members_expected": 2000, "searches": 2000, "lost_archives": 150}})
}

// damageZip breaks one member's data but leaves the directory intact.
func damageZip(c *C, data []byte, ms []member) []byte {
	data = bytes.Clone(data)
	i := c.IntN(max(1, len(data)*2/3))
	for n := 1 + c.IntN(8); n > 0 && i < len(data); n-- {
		data[i] ^= byte(1 + c.IntN(255))
		i++
	}
	return data
}

func runC18(c *C) {
	w := newWorld(c, "w")
	zips := c.IntN(5) > 0
	narch := 1 + c.IntN(8)
	if c.Chance(10) {
		narch = 100
	}
	if c.Chance(2) {
		w.fds = 64
	}
	var archives []string
	for range narch {
		p := pick(c, []string{"", "a/", "b/", "foo/", "a/b/", "lib.zip/"}) + pick(c, []string{"x", "y", "a", "foo", "z z", "é"}) + fmt.Sprint(c.IntN(10)) + ".zip"
		data := w.genZip()
		switch c.IntN(12) {
		case 0:
			data = damageZip(c, data, nil)
		case 1:
			data = []byte("hello text, not an archive\n")
		case 2:
			data = data[:len(data)/2]
		case 3: // an archive with something in front
			data = append([]byte("#!/bin/sh\nhello\n"), data...)
		}
		if w.tryWrite(p, string(data)) {
			archives = append(archives, filepath.Join(w.tree, p))
			c.Count("archives", 1)
		}
	}
	for range c.IntN(10) {
		p := pick(c, []string{"", "a/", "b/", "foo/", "x1.zip-", "lib.zip/"}) + w.genName(10) + pick(c, []string{"", ".txt", ".zip.go", ".ZIP", "zip", ".zip~"})
		data := someText(c)
		if strings.HasSuffix(p, ".ZIP") || c.Chance(8) {
			data = string(w.genZip()) // an archive by content only
		}
		if strings.HasSuffix(p, ".zip") {
			continue
		}
		w.tryWrite(p, data)
	}
	flags := []string{}
	if zips {
		flags = append(flags, "-zip")
	}
	w.must("cindex", append(flags, w.tree)...)
	m := &idxModel{}
	m.update([]string{w.tree}, zips)
	for _, d := range m.docs {
		if strings.Contains(d.name, ".zip\x01") {
			c.Count("members_expected", 1)
		}
	}
	checkIndex(c, fmt.Sprintf("index of archives (-zip=%v)", zips), w.idx, m.roots, m.docs)
	// Lose some archives.
	docs := m.docs
	for _, a := range archives {
		if !c.Chance(5) {
			continue
		}
		c.Count("lost_archives", 1)
		if !zips || c.Chance(2) { // without -zip, the archive may be a document itself
			os.Remove(a)
		} else {
			os.WriteFile(a, []byte("garbage"), 0o666)
		}
		docs = slices.DeleteFunc(slices.Clone(docs), func(d doc) bool { return d.name == a || strings.HasPrefix(d.name, a+"\x01") })
	}
	// Search for words of the members, and for anything.
	for range 6 {
		e := pick(c, []string{"hello", "abc", "[a-z]+bar", "世", "return|main", "int", "", "^$", "e$", "foo.*", "(?i)PACKAGE", "zzz", "hello member"})
		if c.Chance(3) && len(docs) > 0 {
			d := pick(c, docs)
			if len(d.data) > 12 {
				i := c.IntN(len(d.data) - 10)
				g := &regexGen{Rand: c.Rand}
				s := strings.ToValidUTF8(strings.ReplaceAll(d.data[i:i+3+c.IntN(7)], "\n", ""), "")
				e = g.quote(s)
			}
		}
		o := randOpts(c, false)
		if e == "" && o.l || strings.Contains(e, "\x00") {
			continue
		}
		full := "(?m)" + e
		if _, err := syntax.Parse(full, syntax.Perl); err != nil {
			continue
		}
		want, matched, _ := grepDocs(docs, full, o)
		in, out := 0, 0
		re := mustParse(full)
		for _, d := range docs {
			if newGrepText(re, d.name, d.data).nsel > 0 {
				if strings.Contains(d.name, ".zip\x01") {
					in++
				} else {
					out++
				}
			}
		}
		if in > 0 && out > 0 {
			c.Seen(c.Case, full)
		}
		c.Count("searches", 1)
		c.Count("member_matches", in)
		args := append(o.flags(), "--", e)
		if c.Chance(4) {
			args = append([]string{"-brute"}, args...)
		}
		what := fmt.Sprintf("csearch %q over %d documents (%d archives)", args, len(docs), len(archives))
		res := w.run("csearch", args...)
		checkGrepRun(c, what, res, want.Bytes(), matched > 0)
		c.Sample("%s: %d members, %d plain files match", what, in, out)
	}
}
