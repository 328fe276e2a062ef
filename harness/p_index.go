package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/sparse"
)

func init() {
	register(&Prop{ID: "C03", Quick: 640, Thorough: 3000, Run: runC03,
		Rule:     "indexes of 0 to 40000 files (both formats) with controlled posting lists; random query trees (AND/OR/all/none, nested, unknown, first and last trigrams); non-trivial: result neither empty nor all files; distinct by query and index",
		MinEvent: map[string]int64{"queries": 30000, "ids_compared": 1_000_000}})
	register(&Prop{ID: "C04", Quick: 176, Thorough: 2500, Run: runC04,
		Rule:     "file sets from empty to 130000 files and 8.8 million postings (natural spills), sizes at the 1 MB read buffer, random read splits; the whole index file is decoded independently and every list compared; distinct by file set",
		MinEvent: map[string]int64{"posting_entries_compared": 20_000_000, "names_compared": 200_000, "spill_files_merged": 2}})
	register(&Prop{ID: "C05", Quick: 480, Thorough: 3000, Run: runC05,
		Rule:     "sequences of text, non-text, failing and badly named files with the decisive byte placed at and around read boundaries; non-trivial: sequence has both accepted and rejected files; distinct by sequence",
		Assume:   []string{"contents that are not valid UTF-8 although every byte pair could occur in UTF-8, and lines of exactly 2000 bytes, may be treated either way"},
		MinEvent: map[string]int64{"rejected_files": 2000, "accepted_files": 2000, "read_errors": 100, "gigabyte_texts": 2}})
	register(&Prop{ID: "C10", Quick: 800, Thorough: 4000, Run: runC10,
		Rule:     "random pairs of indexes (both versions; nested, adjacent, identical, disjoint roots; archives; root directory; empty) and chains of up to 8 merges; every merged index is decoded and compared with the model; non-trivial: older index loses some and keeps some files; distinct by merge",
		MinEvent: map[string]int64{"merges": 800, "chained_merges": 300, "files_replaced": 1000}})
	register(&Prop{ID: "C14", Quick: 240, Thorough: 2400, Run: runC14,
		Rule:     "indexes of both versions cut at every length (small) or at boundaries and random lengths (large), and foreign files; non-trivial: each distinct truncated file",
		MinEvent: map[string]int64{"damaged_files_opened": 20000}})
	register(&Prop{ID: "C15", Quick: 480, Thorough: 3000, Run: runC15,
		Rule:     "name lists of 0 to 5000 (shared prefixes, long names, group edges) in both formats, read by position, by range and sequentially; distinct by list",
		MinEvent: map[string]int64{"random_reads": 100000}})
	register(&Prop{ID: "C16", Quick: 4800, Thorough: 60000, Run: runC16,
		Rule:     "random triples and lists of paths over an alphabet around the separator, and real directory walks; distinct by list",
		MinEvent: map[string]int64{"comparisons": 1_000_000, "walked_entries": 1000}})
	register(&Prop{ID: "C17", Quick: 320, Thorough: 3000, Run: runC17,
		Rule:     "old-format files written by an independent encoder: read, queried and merged against the same data in the new format; distinct by file set",
		MinEvent: map[string]int64{"posting_entries_compared": 50000, "v1_queries": 5000, "v1_searches": 250, "v1_updates": 60}})
	register(&Prop{ID: "C25", Quick: 640, Thorough: 3000, Run: runC25,
		Rule:     "the check on built and merged indexes (must accept) and on copies with one posting list damaged in a way the independent decoder confirms (must reject); distinct by damage",
		MinEvent: map[string]int64{"sound_accepted": 120, "damaged_rejected": 8000}})
	register(&Prop{ID: "C26", Quick: 3600, Thorough: 60000, Run: runC26,
		Rule:     "random operation sequences on sets of capacity 1 to 2^24 against a map and a list; distinct by sequence",
		MinEvent: map[string]int64{"operations": 1_000_000, "resets": 5000}})
}

// ---- C03

func randQuery(c *C, tris []string, depth int) *index.Query {
	q := &index.Query{}
	switch k := c.IntN(12); {
	case k == 0:
		q.Op = index.QAll
		return q
	case k == 1:
		q.Op = index.QNone
		return q
	case k < 7:
		q.Op = index.QAnd
	default:
		q.Op = index.QOr
	}
	nt := c.IntN(4)
	if c.Chance(6) {
		nt = c.IntN(25)
	}
	ns := 0
	if depth > 0 {
		ns = c.IntN(4)
		if c.Chance(12) {
			ns = c.IntN(10)
		}
	}
	if nt+ns == 0 {
		nt = 1
	}
	seen := map[string]bool{}
	for range nt {
		t := pick(c, tris)
		if !seen[t] {
			seen[t] = true
			q.Trigram = append(q.Trigram, t)
		}
	}
	sort.Strings(q.Trigram)
	for range ns {
		q.Sub = append(q.Sub, randQuery(c, tris, depth-1))
	}
	return q
}

func copyQuery(q *index.Query) *index.Query {
	r := &index.Query{Op: q.Op, Trigram: slices.Clone(q.Trigram)}
	for _, s := range q.Sub {
		r.Sub = append(r.Sub, copyQuery(s))
	}
	return r
}

// openMixed builds an index of docs in one of the two formats.
func openMixed(c *C, file string, roots []string, docs []doc) *index.Index {
	if c.Chance(3) {
		if err := os.WriteFile(file, encodeV1(roots, docs), 0o666); err != nil {
			harness("%v", err)
		}
		c.Count("v1_indexes", 1)
	} else {
		buildIndex(c, file, roots, docs, false)
	}
	return index.Open(file)
}

func runC03(c *C) {
	dir := c.Dir("c03")
	n := []int{0, 1, 2, 3, 15, 16, 17, 33, 100, 300, 1000}[c.IntN(11)]
	big := c.Case%40 == 7
	if big {
		n = 40000
	}
	// A trigram k is present in file i by a pattern of its own.
	ntri := 3 + c.IntN(30)
	var tris []string
	for k := range ntri {
		tris = append(tris, fmt.Sprintf("%c%c%c", 'a'+k%26, 'a'+k/26, 'A'+c.IntN(26)))
	}
	switch c.IntN(3) {
	case 0:
		tris[0] = "\t\t\n"
		tris[1%ntri] = "\xf4\x8f\xbf"
	case 1:
		tris[0] = "~~~"
	}
	type pat struct{ mod, off, kind int }
	pats := make([]pat, ntri)
	for k := range pats {
		pats[k] = pat{1 + c.IntN(20), c.IntN(20), c.IntN(6)}
		if big {
			pats[k].mod = 1 + c.IntN(3000)
		}
	}
	docs := make([]doc, n)
	for i := range docs {
		var b strings.Builder
		for k, p := range pats {
			in := false
			switch p.kind {
			case 0:
				in = i%p.mod == p.off%p.mod
			case 1:
				in = true
			case 2:
				in = i == n-1 || i == 0
			case 3:
				in = c.Chance(p.mod)
			case 4:
				in = i >= n/2
			case 5:
				in = i&(i-1) == 0
			}
			if in {
				if tris[k][0] >= 0x80 {
					b.WriteString(tris[k] + "\xbf")
				} else {
					b.WriteString(tris[k])
				}
				b.WriteString(" \n"[c.IntN(2):][:1])
			}
		}
		docs[i] = doc{fmt.Sprintf("/r/f%07d", i), b.String()}
	}
	want := postings(docs)
	ix := openMixed(c, filepath.Join(dir, "ix"), []string{"/r"}, docs)
	pool := slices.Clone(tris)
	// unknown, first, last, neighbouring and incidental trigrams
	var all []uint32
	for t := range want {
		all = append(all, t)
	}
	slices.Sort(all)
	for range 6 {
		if len(all) > 0 {
			pool = append(pool, tri3(all[c.IntN(len(all))]))
		}
	}
	if len(all) > 0 {
		pool = append(pool, tri3(all[0]), tri3(all[len(all)-1]), tri3(all[0]-1), tri3(all[len(all)-1]+1))
	}
	pool = append(pool, "qqq", "\x01\x01\x01", "zzz", "\xff\xff\xfe")
	ids := func(t string) []int32 { return want[uint32(t[0])<<16|uint32(t[1])<<8|uint32(t[2])] }
	member := map[string][]bool{}
	for _, t := range pool {
		m := make([]bool, n)
		for _, id := range ids(t) {
			m[id] = true
		}
		member[t] = m
	}
	nq := 400
	if big {
		nq = 60
	}
	for range nq {
		q := randQuery(c, pool, c.IntN(4))
		if n > 0 && c.Chance(4) { // what one file contains, perhaps with one thing more
			q = &index.Query{Op: index.QAnd}
			i := c.IntN(n)
			k := c.IntN(20)
			for _, j := range c.Perm(len(pool)) {
				if t := pool[j]; member[t][i] && k > 0 && !slices.Contains(q.Trigram, t) {
					q.Trigram = append(q.Trigram, t)
					k--
				}
			}
			if t := pick(c, pool); c.Chance(2) && !slices.Contains(q.Trigram, t) || len(q.Trigram) == 0 {
				q.Trigram = append(q.Trigram, t)
			}
			if c.Chance(3) {
				q.Sub = append(q.Sub, randQuery(c, pool, 1))
			}
			sort.Strings(q.Trigram)
			c.Count("near_misses", 1)
		}
		var exp []int32
		for i := range n {
			if evalQuery(q, func(t string) bool { return member[t][i] }) {
				exp = append(exp, int32(i))
			}
		}
		str := q.String()
		got := ix.PostingQuery(copyQuery(q))
		c.Count("queries", 1)
		c.Count("ids_compared", len(exp))
		if len(exp) > 0 && len(exp) < n {
			c.Seen(str, c.Case)
		}
		if !same32(got, exp) {
			c.Fail("index of %d files, query %s: got %s, want %s", n, str, ints(got), ints(exp))
		}
	}
	c.Sample("%d files, %d trigrams, %d queries", n, len(all), nq)
	// Lists, and AND/OR of an arbitrary increasing list with a trigram.
	for range nq {
		t := pick(c, pool)
		tv := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
		if got := ix.PostingList(tv); !same32(got, ids(t)) {
			c.Fail("PostingList(%q) = %s, want %s", t, ints(got), ints(ids(t)))
		}
		var list []int
		switch c.IntN(4) {
		case 0:
			list = ix.PostingList(func() uint32 { u := pick(c, pool); return uint32(u[0])<<16 | uint32(u[1])<<8 | uint32(u[2]) }())
		case 1:
			for i := range n {
				if c.Chance(3) {
					list = append(list, i)
				}
			}
		case 2:
			list = []int{}
		default:
			for i := c.IntN(5); i < n; i += 1 + c.IntN(7) {
				list = append(list, i)
			}
		}
		in := map[int]bool{}
		for _, x := range list {
			in[x] = true
		}
		var and, or []int32
		for i := range n {
			if in[i] && member[t][i] {
				and = append(and, int32(i))
			}
			if in[i] || member[t][i] {
				or = append(or, int32(i))
			}
		}
		if got := ix.PostingOr(slices.Clone(list), tv); !same32(got, or) {
			c.Fail("PostingOr(%s, %q) = %s, want %s", ints(list), t, ints(got), ints(or))
		}
		if got := ix.PostingAnd(slices.Clone(list), tv); !same32(got, and) {
			c.Fail("PostingAnd(%s, %q) = %s, want %s", ints(list), t, ints(got), ints(and))
		}
		c.Count("queries", 3)
	}
}

// ---- C04

func runC04(c *C) {
	dir := c.Dir("c04")
	file := filepath.Join(dir, "ix")
	var docs []doc
	roots := []string{"/r"}
	what := ""
	switch k := c.Case; {
	case k == 0 || k == 1 || (k == 2 && c.Thorough):
		c04Spill(c, file, 1+k)
		return
	case k < 24:
		// one file around the size of the read buffer, among small ones
		size := 1<<20 + []int{-3, -2, -1, 0, 1, 2, 3, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5000}[k%11]
		s := breakLines(genContent(c, size+50), 90)
		for !utf8.RuneStart(s[size]) {
			size--
		}
		s = s[:size]
		// rare trigrams across the boundary
		b := []byte(s)
		if size > 1<<20+2 {
			at := 1<<20 - 1 - c.IntN(3)
			for i, x := range []byte("QZQXQ") {
				if at+i < len(b) && b[at+i] < 0x80 {
					b[at+i] = x
				}
			}
		}
		s = strings.ToValidUTF8(string(b), "?")
		docs = []doc{{"/r/a", genContent(c, 40)}, {"/r/big", s}, {"/r/c", genContent(c, 40)}}
		what = fmt.Sprintf("file of %d bytes", len(s))
	case k < 30:
		// many files: large gaps between ids, many name groups
		n := []int{1000, 17000, 33000, 66000, 131100, 20000}[k-24]
		gap := []int{2, 14, 15, 16, 127, 128, 255, 1023, 1 << 13, 1 << 14, 1<<14 + 1, 1 << 15, 1 << 16}
		for i := range n {
			data := ""
			for g, v := range gap {
				if i%v == 0 {
					data += fmt.Sprintf("g%02d", g)
				}
			}
			if i == 0 || i == n-1 {
				data += "EDGE"
			}
			if i%2 == 0 {
				data += "\neven"
			}
			docs = append(docs, doc{fmt.Sprintf("/r/d%03d/file%06d", i/500, i), data})
		}
		if k%2 == 0 { // the first and the last entries of the batch are of one list
			docs[0].data = "FST" + docs[0].data
			docs[n-1].data = "FST"
		}
		if k == 28 { // many entries, one list only in the first and the last file
			for i := range docs[1 : n-1] {
				docs[1+i].data += fmt.Sprintf("\n%x", uint64(i)*2654435761)
			}
		}
		what = fmt.Sprintf("%d files", n)
	case k < 36:
		// long names: name list larger than the write buffer
		for i := range 400 {
			docs = append(docs, doc{fmt.Sprintf("/r/%05d%s", i, strings.Repeat(string(rune('a'+i%26)), 1500+c.IntN(1500))), genContent(c, 30)})
		}
		if k%2 == 0 {
			docs = append(docs, doc{"/r/" + strings.Repeat("z", 300<<10), "abc"})
		} else { // in the middle
			i := c.IntN(len(docs))
			docs[i].name += strings.Repeat("yz", 150<<10)
		}
		what = "long names"
	case k < 44:
		// many trigrams: posting index of many blocks, file of up to 20000 of them
		for i := range 6 {
			n := []int{20000, 19999, 5000 + c.IntN(10000), 1 + c.IntN(100), 2000, 20000}[i]
			docs = append(docs, doc{fmt.Sprintf("/r/f%d", i), exactTrigrams(c, n)})
		}
		what = "many trigrams"
	default:
		n := []int{0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 48, 100, 500}[c.IntN(13)]
		roots = [][]string{{"/r"}, {"/r", "/r2"}, {"/a", "/b", "/c d"}, {"/"}}[c.IntN(4)]
		if c.Chance(8) {
			roots = nil
			for i := range 20 + c.IntN(200) {
				roots = append(roots, fmt.Sprintf("/root%04d", i*7))
			}
		}
		for _, name := range genNames(c, roots, n) {
			size := c.IntN(200)
			if c.Chance(20) {
				size = c.IntN(20000)
			}
			if c.Chance(10) {
				size = c.IntN(4)
			}
			data := ""
			if c.Chance(3) {
				data = anyText(c, size)
			} else {
				data = genContent(c, size)
			}
			docs = append(docs, doc{name, data})
		}
		if c.Chance(5) && n > 0 { // one list that is long, one that has only the last file
			for i := range docs {
				docs[i].data += "\nCMN"
			}
			docs[len(docs)-1].data += "\nLST"
		}
		what = fmt.Sprintf("%d small files", n)
	}
	buildIndex(c, file, roots, docs, true)
	checkIndex(c, what, file, roots, docs)
	c.Seen(what, fmt.Sprint(docs))
	c.Sample("%s", what)
	if c.Case == 50 {
		// All 2^24 trigrams by lookup.
		want := postings(docs)
		ix := index.Open(file)
		for t := uint32(1); t < 1<<24-1; t++ {
			if got := ix.PostingList(t); !same32(got, want[t]) {
				c.Fail("posting list of %06x: %s, want %s", t, ints(got), ints(want[t]))
			}
		}
		c.Count("trigrams_looked_up_exhaustively", 1<<24-2)
	}
	os.RemoveAll(dir)
}

// c04Spill indexes more postings than fit in memory, spills times.
func c04Spill(c *C, file string, spills int) {
	const npost = 64 << 20 / 8
	// contents: distinct texts of nearly 20000 trigrams, used by several files
	ncont := 60
	conts := make([]string, ncont)
	lists := make([][]uint32, ncont)
	bits := make([][]uint64, ncont)
	for i := range conts {
		conts[i] = exactTrigrams(c, 19000+c.IntN(1001))
		lists[i] = triList(conts[i])
		bits[i] = make([]uint64, 1<<24/64)
		for _, t := range lists[i] {
			bits[i][t>>6] |= 1 << (t & 63)
		}
	}
	var of []int // content of each file
	total := 0
	limit := npost*spills + c.IntN(npost/4) + 1
	for total < limit {
		k := c.IntN(ncont)
		of = append(of, k)
		total += len(lists[k])
	}
	ix := index.Create(file)
	ix.AddRoots([]index.Path{index.MakePath("/r")})
	for i, k := range of {
		if err := ix.Add(fmt.Sprintf("/r/f%06d", i), strings.NewReader(conts[k])); err != nil {
			c.Fail("Add: %v", err)
		}
	}
	ix.Flush()
	c.Count("spill_files_merged", spills)
	data, err := os.ReadFile(file)
	if err != nil {
		harness("%v", err)
	}
	ri, err := decodeIndex(data)
	if err != nil {
		c.Fail("index after %d spills (%d postings): %v", spills, total, err)
	}
	if len(ri.names) != len(of) {
		c.Fail("index after %d spills has %d names, want %d", spills, len(ri.names), len(of))
	}
	got := 0
	for i, t := range ri.tri {
		last := int32(-1)
		for _, id := range ri.posts[i] {
			if id <= last {
				c.Fail("list of %q is not increasing: %s", tri3(t), ints(ri.posts[i]))
			}
			last = id
			if bits[of[id]][t>>6]&(1<<(t&63)) == 0 {
				c.Fail("after %d spills, list of %q has file %d, which does not contain it", spills, tri3(t), id)
			}
			got++
		}
	}
	if got != total {
		c.Fail("after %d spills the index has %d postings, want %d", spills, got, total)
	}
	c.Count("posting_entries_compared", got)
	c.Count("posting_lists_compared", len(ri.tri))
	c.Seen("spill", spills)
	c.Sample("%d spills: %d files, %d postings", spills, len(of), total)
	oix := index.Open(file)
	for range 2000 {
		i := c.IntN(len(ri.tri))
		if ri.tri[i] == 1<<24-1 {
			continue
		}
		if g := oix.PostingList(ri.tri[i]); !same32(g, ri.posts[i]) {
			c.Fail("PostingList(%q) = %s, file has %s", tri3(ri.tri[i]), ints(g), ints(ri.posts[i]))
		}
	}
	os.Remove(file)
}

// ---- C05

func c05Content(c *C) string {
	base := func(n int) string { return breakLines(genContent(c, n), 70) }
	insert := func(s, x string, at int) string {
		at = max(0, min(at, len(s)))
		for at > 0 && at < len(s) && !utf8.RuneStart(s[at]) {
			at--
		}
		return s[:at] + x + s[at:]
	}
	bad := []string{"\x00", "\xff", "\xfe", "\xf8\x88\x80\x80\x80", "\x80", "\xbf", "\xc3(", "\xe4\xb8x", "\xf0\x9f\x98 ", "\xc3\xc3\xa9", "a\xa0", "\xe4\n", "\n\x80", "\xc3\x00"}
	odd := []string{"\xe9\xa9", "\xc3", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3\xa9\xa9", "\xef\xbf\xbd", "\xf7\xbf\xbf\xbf", "é", "世", "\U0010FFFF", "\x01", "\x7f", "\r", "\t", "\v", "\x1b[0m", "\u2028", "\ufeff"}
	size := c.IntN(300)
	if c.Chance(25) {
		size = 1<<20 + c.IntN(40) - 20
	}
	s := base(size)
	at := c.IntN(len(s) + 1)
	switch c.IntN(3) {
	case 0:
		at = 0
	case 1:
		at = len(s)
	}
	if len(s) > 1<<20-30 {
		at = 1<<20 - 4 + c.IntN(8)
	}
	switch c.IntN(16) {
	case 0, 1, 2, 3:
		return insert(s, pick(c, bad), at)
	case 4:
		return insert(s, pick(c, odd), at)
	case 5: // long line
		n := []int{1998, 1999, 2001, 2002, 2500, 5000}[c.IntN(6)]
		if c.Chance(3) {
			// multi-byte runes: the limit is in bytes
			return insert(s, "\n"+strings.Repeat("é", n/2)+"\n", at)
		}
		return insert(s, "\n"+strings.Repeat("x", n)+"\n", at)
	case 6: // long last line without newline
		return s + "\n" + strings.Repeat("y", []int{1999, 2000, 2001, 2010}[c.IntN(4)])
	case 7: // long line, then newline much later
		return strings.Repeat("z", 1999) + "\n" + s + "\n" + strings.Repeat("w", 1999) + "\n"
	case 8:
		return exactTrigrams(c, []int{19999, 20000, 20001, 20002, 21000, 40000}[c.IntN(6)])
	case 9:
		return ""
	case 10:
		return s[:min(len(s), c.IntN(4))]
	case 11:
		return insert(s, strings.Repeat("\n", c.IntN(3000)), at)
	}
	return s
}

// repeated is a reader of n bytes that repeat data.
type repeated struct {
	data string
	n    int64
	pos  int
}

func (r *repeated) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), r.n))
	for k := 0; k < n; {
		m := copy(p[k:n], r.data[r.pos:])
		r.pos = (r.pos + m) % len(r.data)
		k += m
	}
	r.n -= int64(n)
	return n, nil
}

// longestText tries texts at the limit on the size, among others.
func longestText(c *C, over int64) {
	dir := c.Dir("c05")
	file := filepath.Join(dir, "ix")
	ix := index.Create(file)
	ix.AddRoots([]index.Path{index.MakePath("/r")})
	docs := []doc{{"/r/a", "before the big one\n"}, {"/r/m", ""}, {"/r/z", "after the big one\n"}}
	line := strings.Repeat("many lines, few trigrams; ", 1+c.IntN(60)) + "\n"
	docs[1].data = line + line
	for i, d := range docs {
		var r io.Reader = strings.NewReader(d.data)
		if i == 1 {
			r = &repeated{data: line, n: 1<<30 + over}
		}
		if err := ix.Add(d.name, r); err != nil {
			c.Fail("Add(%q): %v", d.name, err)
		}
	}
	ix.Flush()
	what := fmt.Sprintf("a text of 1<<30%+d bytes, lines of %d bytes", over, len(line))
	if over > 0 {
		docs = slices.Delete(docs, 1, 2)
	}
	c.Count("gigabyte_texts", 1)
	c.Seen(what)
	checkIndex(c, what, file, []string{"/r"}, docs)
}

func runC05(c *C) {
	if c.Case%240 == 7 {
		longestText(c, 0)
		return
	}
	if c.Case%240 == 126 {
		longestText(c, 1+int64(c.IntN(2))*int64(c.IntN(5000)))
		return
	}
	dir := c.Dir("c05")
	file := filepath.Join(dir, "ix")
	names := genNames(c, []string{"/r"}, 30+c.IntN(30))
	ix := index.Create(file)
	ix.AddRoots([]index.Path{index.MakePath("/r")})
	type rec struct {
		d doc
		v verdict
	}
	var recs []rec
	var trace strings.Builder
	acc, rej := 0, 0
	for _, name := range names {
		data := c05Content(c)
		v := textPolicy(data)
		r := &chunkReader{data: data, next: splitter(c), eofWithData: c.Chance(4)}
		if len(data) > 1<<18 && c.IntN(3) > 0 {
			r.next = nil
		}
		wantErr := false
		switch c.IntN(14) {
		case 0: // a read error at some offset
			r.err = errors.New("injected read error")
			r.errAt = c.IntN(len(data) + 1)
			if c.Chance(3) {
				r.errAt = 0
			}
			wantErr = true
			r.eofWithData = false
			if textPolicy(data) == notText {
				v, wantErr = notText, false // whichever comes first
			} else {
				v = notText
			}
			c.Count("read_errors", 1)
			if r.errAt >= len(data) && len(data) > 0 {
				r.errAt = len(data)
			}
		case 1: // a bad name
			name = pick(c, []string{"", name + "\n", "/r/\x01x", name + "\x00", "/r/a\tb", "/r/\x1f", "\x01", name + "/\x0b/x"})
			v, wantErr = notText, true
			c.Count("bad_names", 1)
		}
		var err error
		if c.Chance(4) && r.err == nil && refNameOK(name) && len(name) < 200 {
			// through a real file
			p := filepath.Join(dir, "f")
			if err := os.WriteFile(p, []byte(data), 0o666); err != nil {
				harness("%v", err)
			}
			f, _ := os.Open(p)
			err = ix.Add(name, f)
			f.Close()
		} else {
			err = ix.Add(name, r)
		}
		if wantErr && err == nil {
			c.Fail("Add(%q) returned no error for a failing read or bad name (%d bytes)", name, len(data))
		}
		if !wantErr && r.err == nil && err != nil {
			c.Fail("Add(%q, %d bytes) failed: %v", name, len(data), err)
		}
		if v != notText {
			recs = append(recs, rec{doc{name, data}, v})
		}
		if v == isText {
			acc++
		} else if v == notText {
			rej++
		}
		fmt.Fprintf(&trace, "%q %d bytes verdict %d\n", name, len(data), v)
	}
	ix.Flush()
	// An unspecified file is in or out as the index says.
	got := index.Open(file)
	have := map[string]bool{}
	for _, n := range paths(got.Names(0, numNames(got))) {
		have[n] = true
	}
	var docs []doc
	for _, r := range recs {
		if r.v == isText && !have[r.d.name] {
			s := r.d.data
			if len(s) > 300 {
				s = s[:150] + "..." + s[len(s)-150:]
			}
			c.Fail("text file %q (%d bytes, %d trigrams, longest line %d) was not indexed: %q", r.d.name, len(r.d.data), len(triList(r.d.data)), longestLine(r.d.data), s)
		}
		if r.v == isText || have[r.d.name] {
			docs = append(docs, r.d)
		}
	}
	c.Count("accepted_files", acc)
	c.Count("rejected_files", rej)
	if acc > 0 && rej > 0 {
		c.Seen(trace.String())
	}
	checkIndex(c, "sequence\n"+trace.String(), file, []string{"/r"}, docs)
	c.Sample("%s", trace.String())
}

// ---- C10

type model struct {
	roots []string
	docs  []doc
}

func mergeModel(old, new model) model {
	var docs []doc
	for _, d := range old.docs {
		in := false
		for _, r := range new.roots {
			if refUnder(d.name, r) {
				in = true
			}
		}
		if !in {
			docs = append(docs, d)
		}
	}
	docs = append(docs, new.docs...)
	sortDocs(docs)
	return model{refRoots(append(slices.Clone(old.roots), new.roots...)), docs}
}

var mergeRoots = []string{"/a", "/a/b", "/a/b/c", "/a-b", "/a.b", "/ab", "/a b", "/b", "/a/x.zip", "/a/x.zip.d", "/c", "/c/foo", "/c/foo.bar", "/c/fo", "/c/foo!", "/é", "/z", "/a/b.go", "/a/0", "/a/~"}

func genModel(c *C, maxFiles int) model {
	var roots []string
	switch c.IntN(12) {
	case 0:
	case 1:
		roots = []string{"/"}
	default:
		for n := 1 + c.IntN(4); n > 0; n-- {
			roots = append(roots, pick(c, mergeRoots))
		}
		if c.Chance(12) { // very many
			for n := 10 + c.IntN(300); n > 0; n-- {
				roots = append(roots, fmt.Sprintf("/m/%03d%s", c.IntN(400), pick(c, []string{"", "", ".zip", "/x", ".d"})))
			}
			maxFiles += 200
			c.Count("models_of_many_roots", 1)
		}
	}
	roots = refRoots(roots)
	m := model{roots: roots}
	if len(roots) == 0 || c.Chance(10) {
		return m
	}
	names := map[string]bool{}
	for n := c.IntN(maxFiles + 1); n > 0; n-- {
		root := strings.TrimRight(pick(c, roots), "/")
		name := root
		switch k := c.IntN(10); {
		case k == 0 && root != "":
			// the root itself is the file
		case strings.HasSuffix(root, ".zip") && k < 5:
			name += "\x01" + pick(c, nameParts)
		case k < 5:
			name += strings.TrimPrefix(pick(c, mergeRoots), "/a")
			if !strings.HasPrefix(name, root+"/") {
				name = root + "/" + pick(c, nameParts)
			}
			if c.Chance(2) {
				name += "/" + pick(c, nameParts)
			}
		default:
			name += "/" + pick(c, nameParts)
			for c.Chance(2) {
				name += "/" + pick(c, nameParts)
			}
		}
		names[name] = true
	}
	for n := range names {
		m.docs = append(m.docs, doc{n, genContent(c, c.IntN(60))})
	}
	sortDocs(m.docs)
	return m
}

func (m model) write(c *C, file string, allowV1 bool) {
	if allowV1 && c.Chance(3) {
		if err := os.WriteFile(file, encodeV1(m.roots, m.docs), 0o666); err != nil {
			harness("%v", err)
		}
		c.Count("v1_sources", 1)
		return
	}
	// Names inside archives cannot be added directly: go through Add with
	// names that are valid; others through the old format.
	for _, d := range m.docs {
		if strings.Contains(d.name, "\x01") {
			if err := os.WriteFile(file, encodeV1(m.roots, m.docs), 0o666); err != nil {
				harness("%v", err)
			}
			// convert to the new format by merging with an empty index
			e := file + ".empty"
			buildIndex(c, e, nil, nil, false)
			index.Merge(file+".v2", file, e)
			os.Rename(file+".v2", file)
			os.Remove(e)
			return
		}
	}
	buildIndex(c, file, m.roots, m.docs, false)
}

func (m model) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "roots %q files", m.roots)
	for i, d := range m.docs {
		if i > 40 {
			fmt.Fprintf(&b, " ...(%d)", len(m.docs))
			break
		}
		fmt.Fprintf(&b, " %q", d.name)
	}
	return b.String()
}

func runC10(c *C) {
	dir := c.Dir("c10")
	f := func(n string) string { return filepath.Join(dir, n) }
	maxFiles := []int{3, 10, 40, 200}[c.IntN(4)]
	cur := genModel(c, maxFiles)
	cur.write(c, f("cur"), true)
	n := 4 + c.IntN(5)
	if c.Case%50 == 9 { // large: many ranges, long posting lists
		maxFiles = 20000
		cur = model{roots: []string{"/a", "/b", "/c"}}
		for i := range 20000 {
			cur.docs = append(cur.docs, doc{fmt.Sprintf("/%c/d%03d/f%05d", 'a'+i*3/20000, i/50, i), fmt.Sprintf("cmn x%02d %s", i%37, genContent(c, 5))})
		}
		cur.write(c, f("cur"), false)
		n = 3
	}
	for step := range n {
		next := genModel(c, min(maxFiles, 200))
		if maxFiles == 20000 {
			next = model{}
			for k := 0; k < 400; k += 1 + c.IntN(20) {
				r := fmt.Sprintf("/%c/d%03d", 'a'+k*50*3/20000, k)
				next.roots = append(next.roots, r)
				for j := range c.IntN(80) {
					next.docs = append(next.docs, doc{fmt.Sprintf("%s/g%05d", r, j), "new cmn " + genContent(c, 10)})
				}
			}
			sortPaths(next.roots)
		}
		next.write(c, f("next"), true)
		b1, _ := os.ReadFile(f("cur"))
		b2, _ := os.ReadFile(f("next"))
		desc := fmt.Sprintf("merge %d of a chain\nold: %v\nnew: %v", step+1, cur, next)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(violation); ok {
						panic(v)
					}
					c.Fail("Merge panics: %v\n%s", e, desc)
				}
			}()
			index.Merge(f("dst"), f("cur"), f("next"))
		}()
		c.Count("merges", 1)
		if step > 0 {
			c.Count("chained_merges", 1)
		}
		a1, _ := os.ReadFile(f("cur"))
		a2, _ := os.ReadFile(f("next"))
		if string(a1) != string(b1) || string(a2) != string(b2) {
			c.Fail("Merge modified one of its inputs\n%s", desc)
		}
		merged := mergeModel(cur, next)
		kept := len(merged.docs) - len(next.docs)
		c.Count("files_replaced", len(cur.docs)-kept)
		if kept > 0 && kept < len(cur.docs) {
			c.Seen(desc)
			c.Sample("%s", desc)
		}
		checkIndex(c, desc, f("dst"), merged.roots, merged.docs)
		if err := os.Rename(f("dst"), f("cur")); err != nil {
			harness("%v", err)
		}
		cur = merged
	}
}

// ---- C14

// refused opens the file and reports whether that was refused.
func refused(file string) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			r = true
		}
	}()
	index.Open(file)
	return false
}

func runC14(c *C) {
	dir := c.Dir("c14")
	file := filepath.Join(dir, "ix")
	cut := filepath.Join(dir, "cut")
	m := genModel(c, 8)
	if c.Case%4 == 3 {
		m = genModel(c, 300)
	}
	if c.Case%4 == 1 { // text that looks like trailers
		m.docs = nil
		m.roots = []string{"/r"}
		m.docs = append(m.docs, doc{"/r/a", "csearch trlr 2\n"}, doc{"/r/csearch trlr 2", "csearch index 2\n"})
	}
	m.write(c, file, true)
	data, err := os.ReadFile(file)
	if err != nil {
		harness("%v", err)
	}
	if refused(file) {
		c.Fail("Open refuses a complete index: %v", m)
	}
	c.Count("complete_accepted", 1)
	try := func(b []byte, what string) {
		if err := os.WriteFile(cut, b, 0o666); err != nil {
			harness("%v", err)
		}
		c.Count("damaged_files_opened", 1)
		c.Seen(b)
		if !refused(cut) {
			c.Fail("Open accepts %s (%d of %d bytes) of %v", what, len(b), len(data), m)
		}
	}
	if len(data) < 3000 {
		for l := 0; l < len(data); l++ {
			// a cut may by chance end in a complete trailer only at the end
			try(data[:l], "a truncated index")
		}
	} else {
		for l := len(data) - 200; l < len(data); l++ {
			try(data[:l], "a truncated index")
		}
		for range 200 {
			try(data[:c.IntN(len(data))], "a truncated index")
		}
		for l := 0; l < len(data); l += max(256, len(data)/50/16*16) {
			try(data[:l], "a truncated index")
		}
	}
	foreign := []string{"", "\n", "hello world\n", "csearch index 2\n", "csearch index 1\n", strings.Repeat("x", 79), strings.Repeat("\x00", 80), strings.Repeat("\x00", 4096), "\x7fELF\x02\x01\x01", "csearch trlr 2\n", "csearch trailr\n"}
	for _, s := range foreign {
		try([]byte(s), "a foreign file")
	}
	// the trailer magic alone, or with less than its fields before it
	for n := range 64 {
		try([]byte(strings.Repeat("\x00", n)+trailer2), "a file shorter than a trailer")
		if n < 20 {
			try([]byte(strings.Repeat("\x00", n)+trailer1), "a file shorter than a trailer")
		}
	}
	for range 20 {
		b := make([]byte, c.IntN(5000))
		for i := range b {
			b[i] = byte(c.IntN(256))
		}
		try(b, "random bytes")
	}
	// text whose last line is that of an index
	for range 12 {
		b := bytes.Repeat([]byte(genContent(c, 40)+"text of a file "), 1+c.IntN(20))
		b = append(b, genContent(c, c.IntN(2000))...)
		b = bytes.ReplaceAll(b, []byte("\x00"), []byte("x"))
		for len(b) < 64 {
			b = append(b, "more text "...)
		}
		try(append(slices.Clone(b), trailer2...), "a text file ending in a trailer line")
		try(append(b, trailer1...), "a text file ending in a trailer line")
	}
	for _, n := range []int{64, 100, 256, 336, 4096} {
		try([]byte(strings.Repeat("\x00", n)+trailer2), "a file of NULs and a trailer line")
		try([]byte(strings.Repeat("\x00", n)+trailer1), "a file of NULs and a trailer line")
	}
	// an index that lost a piece such that its last section begins after its end
	tl := len(data) - 80
	v1 := bytes.HasSuffix(data, []byte(trailer1))
	if v1 {
		tl = len(data) - 36
	}
	if tl > 0 {
		var at int // posting list index
		if v1 {
			at = int(binary.BigEndian.Uint32(data[tl+16:]))
		} else {
			at = int(binary.BigEndian.Uint64(data[tl+56:]))
		}
		for range 20 {
			lost := tl - at + 1 + c.IntN(max(1, at-1))
			if lost <= 0 || lost > tl {
				continue
			}
			from := c.IntN(tl - lost + 1)
			try(append(slices.Clone(data[:from]), data[from+lost:]...), "an index with a piece missing")
		}
	}
	// complete, then more bytes: not a complete index either
	for range 10 {
		try(append(slices.Clone(data), make([]byte, 1+c.IntN(100))...), "an index with bytes appended")
	}
	// trailer damaged
	for i := 1; i <= 16; i++ {
		b := slices.Clone(data)
		b[len(b)-i] ^= 1 << c.IntN(8)
		if s := string(b[len(b)-16:]); s == trailer1 || s == trailer2 {
			continue
		}
		try(b, "an index with a damaged trailer")
	}
	// The commands refuse them with a message.
	w := newWorld(c, "w")
	for range 3 {
		b := data[:c.IntN(len(data))]
		switch c.IntN(4) {
		case 0:
			b = []byte(pick(c, foreign))
		case 1:
			b = append([]byte(strings.Repeat("some text of a foreign file\n", 3+c.IntN(100))), pick(c, []string{trailer1, trailer2})...)
		}
		if err := os.WriteFile(w.idx, b, 0o600); err != nil {
			harness("%v", err)
		}
		for _, args := range [][]string{{"csearch", "a"}, {"csearch", "-l", "-brute", ""}, {"cindex", "-list"}, {"cindex", w.tree}} {
			r := w.run(args[0], args[1:]...)
			c.Count("commands_refused", 1)
			if r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
				c.Fail("%q with a %d byte file that is no complete index: status %d, output %.200q, stderr %q", args, len(b), r.code, r.out, r.err)
			}
			if now, err := os.ReadFile(w.idx); err != nil || !bytes.Equal(now, b) {
				c.Fail("%q with a %d byte file that is no index: the file has changed (%v)", args, len(b), err)
			}
		}
	}
	c.Sample("%d byte index %v", len(data), m)
}

// ---- C15

func runC15(c *C) {
	dir := c.Dir("c15")
	n := []int{0, 1, 2, 3, 14, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 64, 100, 255, 256, 257, 1000, 5000}[c.IntN(22)]
	var docs []doc
	switch c.IntN(4) {
	case 0:
		for _, name := range genNames(c, []string{"/r"}, n) {
			docs = append(docs, doc{name, ""})
		}
	case 1: // long common prefixes
		p := "/r/" + strings.Repeat("p", c.IntN(400))
		for i := range n {
			docs = append(docs, doc{fmt.Sprintf("%s%06d", p, i), ""})
		}
	case 2: // each name a prefix of the next
		name := "/r/"
		for i := range min(n, 600) {
			name += string(rune('a' + i%26))
			docs = append(docs, doc{name, ""})
		}
	default: // lengths around varint and buffer limits
		for i := range min(n, 300) {
			l := []int{1, 2, 60, 120, 127, 128, 129, 255, 256, 257, 300, 1000}[c.IntN(12)]
			docs = append(docs, doc{fmt.Sprintf("/r/%05d%s", i, strings.Repeat("q", l)), ""})
		}
	}
	sortDocs(docs)
	n = len(docs)
	roots := []string{"/r"}
	if c.Chance(2) {
		roots = nil
		for i := range c.IntN(40) {
			roots = append(roots, fmt.Sprintf("/r%03d%s", i, strings.Repeat("s", c.IntN(3)*60)))
		}
		sortPaths(roots)
	}
	names := make([]string, n)
	for i := range docs {
		names[i] = docs[i].name
	}
	ix := openMixed(c, filepath.Join(dir, "ix"), roots, docs)
	if d := diffStrings(paths(ix.Roots().All()), roots); d != "" {
		c.Fail("roots: %s", d)
	}
	r := ix.Roots()
	for i := 0; i < len(roots); i++ {
		if !r.Valid() || r.Path().String() != roots[i] {
			c.Fail("root %d: valid=%v %q, want %q", i, r.Valid(), r.Path(), roots[i])
		}
		if next := r.Next(); next != (i+1 < len(roots)) {
			c.Fail("Next after root %d of %d = %v", i, len(roots), next)
		}
	}
	if r.Valid() {
		c.Fail("root reader valid past the end: %q", r.Path())
	}
	c.Seen(strings.Join(names, "\n"))
	if len(names) > 0 {
		c.Sample("%d names, %q ...", n, names[0])
	}
	for i := range n {
		if i > 600 && c.IntN(8) > 0 {
			continue
		}
		if got := ix.Name(i).String(); got != names[i] {
			c.Fail("Name(%d) of %d = %q, want %q", i, n, got, names[i])
		}
		c.Count("random_reads", 1)
	}
	for range 300 {
		lo := c.IntN(n + 1)
		hi := lo + c.IntN(n-lo+1)
		if c.Chance(2) {
			hi = min(n, lo+c.IntN(20))
		}
		if d := diffStrings(paths(ix.Names(lo, hi)), names[lo:hi]); d != "" {
			c.Fail("Names(%d, %d) of %d: %s", lo, hi, n, d)
		}
		if d := diffStrings(paths(ix.NamesAt(lo, hi).All()), names[lo:hi]); d != "" {
			c.Fail("NamesAt(%d, %d) of %d: %s", lo, hi, n, d)
		}
		// early stop of the iteration
		stop := c.IntN(5)
		var got []string
		for p := range ix.Names(lo, hi) {
			got = append(got, p.String())
			if len(got) > stop {
				break
			}
		}
		if d := diffStrings(got, names[lo:min(hi, lo+stop+1)]); d != "" {
			c.Fail("Names(%d, %d) stopped early: %s", lo, hi, d)
		}
		c.Count("random_reads", 3)
	}
}

// ---- C16

func sign(x int) int {
	if x < 0 {
		return -1
	}
	if x > 0 {
		return 1
	}
	return 0
}

func runC16(c *C) {
	if c.Case%20 == 0 {
		c16Walk(c)
		return
	}
	alpha := []string{"/", "a", "b", ".", "-", " ", "!", "0", "~", "\x01", "\x02", "é", "\xff", "\\", "aa", "//"}
	switch c.IntN(5) { // other characters, some of which sort before the separator
	case 0:
		for i := range 12 {
			alpha[4+i] = string([]byte{byte(1 + c.IntN(255))})
		}
	case 1:
		alpha = []string{"/", "a", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", " ", "0"}
	case 2, 3:
		alpha = alpha[:6]
	}
	if c.Case == 1 {
		c16Bytes(c)
	}
	n := 8 + c.IntN(20)
	ps := make([]string, n)
	for i := range ps {
		var b strings.Builder
		if c.Chance(2) && i > 0 { // near an earlier one
			p := ps[c.IntN(i)]
			b.WriteString(p[:c.IntN(len(p)+1)])
		}
		for k := c.IntN(6); k > 0; k-- {
			b.WriteString(pick(c, alpha))
		}
		ps[i] = b.String()
	}
	c.Seen(strings.Join(ps, "|"))
	c.Sample("%q", ps)
	mp := make([]index.Path, n)
	for i, p := range ps {
		mp[i] = index.MakePath(p)
		if mp[i].String() != p {
			c.Fail("MakePath(%q).String() = %q", p, mp[i])
		}
	}
	for i := range ps {
		for j := range ps {
			got := sign(mp[i].Compare(mp[j]))
			want := refComparePaths(ps[i], ps[j])
			c.Count("comparisons", 1)
			if got != want {
				c.Fail("Compare(%q, %q) = %d, want %d", ps[i], ps[j], got, want)
			}
			// everything inside a directory sorts together, right after it
			if ps[j] == "" {
				continue
			}
			pre := mp[i].HasPathPrefix(mp[j])
			wantPre := ps[i] == ps[j] || strings.HasPrefix(ps[i], strings.TrimSuffix(ps[j], "/")+"/")
			if strings.HasSuffix(ps[j], "//") || ps[i] == strings.TrimSuffix(ps[j], "/")+"/" {
				continue // not clean paths
			}
			if pre != wantPre {
				c.Fail("%q.HasPathPrefix(%q) = %v, want %v", ps[i], ps[j], pre, wantPre)
			}
		}
	}
	for range 400 {
		a, b, d := c.IntN(n), c.IntN(n), c.IntN(n)
		if mp[a].Compare(mp[b]) < 0 && mp[b].Compare(mp[d]) < 0 && mp[a].Compare(mp[d]) >= 0 {
			c.Fail("Compare is not transitive on %q %q %q", ps[a], ps[b], ps[d])
		}
		if (mp[a].Compare(mp[b]) == 0) != (pathKey(ps[a]) == pathKey(ps[b])) {
			c.Fail("Compare(%q, %q) == 0: wrong", ps[a], ps[b])
		}
		// an interval between a directory and a path in it has only paths in it
		if mp[a].HasPathPrefix(mp[b]) && mp[b].Compare(mp[d]) < 0 && mp[d].Compare(mp[a]) < 0 && ps[b] != "" && !strings.HasSuffix(ps[b], "/") && !strings.ContainsAny(ps[a]+ps[b]+ps[d], "\\") && !strings.Contains(ps[a]+ps[d], "//") {
			if !mp[d].HasPathPrefix(mp[b]) {
				c.Fail("%q sorts between %q and %q inside it, but is not inside it", ps[d], ps[b], ps[a])
			}
		}
		c.Count("comparisons", 3)
	}
}

// c16Bytes compares paths that differ in one byte, for all pairs of bytes.
func c16Bytes(c *C) {
	for x := range 256 {
		for y := range 256 {
			for _, f := range []string{"%s", "a%s", "a/%sb", "%s/b", "/a%s"} {
				a := strings.Replace(f, "%s", string([]byte{byte(x)}), 1)
				b := strings.Replace(f, "%s", string([]byte{byte(y)}), 1)
				for _, s := range []string{"", "z", "/q"} {
					if got, want := sign(index.MakePath(a+s).Compare(index.MakePath(b))), refComparePaths(a+s, b); got != want {
						c.Fail("Compare(%q, %q) = %d, want %d", a+s, b, got, want)
					}
				}
				if y != '/' && index.MakePath(a+string([]byte{byte(y)})).HasPathPrefix(index.MakePath(a)) != (a[len(a)-1] == '/') {
					c.Fail("%q.HasPathPrefix(%q) is wrong", a+string([]byte{byte(y)}), a)
				}
				c.Count("comparisons", 4)
			}
		}
	}
}

// c16Walk checks that a directory walk visits paths in increasing order.
func c16Walk(c *C) {
	root := filepath.Join(c.Dir("walk"), pick(c, []string{"r", "r.x", "r x"}))
	for _, n := range genNames(c, []string{root}, 60) {
		os.MkdirAll(filepath.Dir(n), 0o777)
		os.WriteFile(n, nil, 0o666)
	}
	last := ""
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if last != "" && index.MakePath(last).Compare(index.MakePath(p)) >= 0 {
			c.Fail("walk visits %q before %q, but Compare says otherwise", last, p)
		}
		last = p
		c.Count("walked_entries", 1)
		return nil
	})
}

// ---- C17

// c17Huge compares an old index of so many files that the distance between
// two files of a list takes up to four bytes.
func c17Huge(c *C) {
	dir := c.Dir("c17")
	f := func(n string) string { return filepath.Join(dir, n) }
	n := 1<<21 + 200000
	docs := make([]doc, n)
	for i := range docs {
		docs[i] = doc{name: fmt.Sprintf("/r/%07d", i)}
	}
	for _, x := range []int{0, 1, 127, 128, 16383, 16384} {
		docs[x].data += "gap"
		docs[x+1<<14].data += "far1"
		docs[x+1<<20].data += "far2"
		docs[x+1<<21].data += "gap far3"
		docs[c.IntN(n)].data = "gap "
		docs[c.IntN(n)].data += "rare"
	}
	docs[0].data += " ends"
	docs[1<<20-1+c.IntN(1<<20)].data += " mid ends"
	docs[n-1].data += " ends"
	m := model{[]string{"/r"}, docs}
	if err := os.WriteFile(f("v1"), encodeV1(m.roots, docs), 0o666); err != nil {
		harness("%v", err)
	}
	want := postings(docs)
	ix := index.Open(f("v1"))
	for t, l := range want {
		c.Count("posting_entries_compared", len(l))
		if got := ix.PostingList(t); !same32(got, l) {
			c.Fail("old index of %d files: list of %q: %s, want %s", n, tri3(t), ints(got), ints(l))
		}
	}
	for range 1000 {
		i := c.IntN(n)
		if got := ix.Name(i).String(); got != docs[i].name {
			c.Fail("old index of %d files: Name(%d) = %q, want %q", n, i, got, docs[i].name)
		}
	}
	buildIndex(c, f("empty"), nil, nil, false)
	index.Merge(f("m1"), f("v1"), f("empty"))
	checkIndex(c, fmt.Sprintf("old format index of %d files merged with empty", n), f("m1"), m.roots, docs)
	c.Seen("huge", c.Seed)
}

func runC17(c *C) {
	if c.Case%1000 == 7 {
		c17Huge(c)
		return
	}
	if c.Case%2 == 0 {
		c17Commands(c)
	}
	dir := c.Dir("c17")
	f := func(n string) string { return filepath.Join(dir, n) }
	roots := [][]string{{"/r"}, {"/a", "/b"}, nil, nil}[c.IntN(4)]
	if c.Chance(4) {
		roots = nil
		for i := range 1 + c.IntN(60) {
			roots = append(roots, fmt.Sprintf("/r%02d%s", i, strings.Repeat("s", c.IntN(3)*60)))
		}
	}
	var docs []doc
	if roots != nil {
		for _, n := range genNames(c, roots, []int{0, 1, 2, 16, 17, 50, 300}[c.IntN(7)]) {
			docs = append(docs, doc{n, genContent(c, c.IntN(200))})
		}
	}
	if c.Case%20 == 3 { // large gaps
		docs = nil
		roots = []string{"/r"}
		for i := range 20000 {
			s := "all"
			if i%300 == 5 || i == 19999 {
				s += " some"
			}
			if i == 3 || i == 17000 {
				s += " Rare"
			}
			docs = append(docs, doc{fmt.Sprintf("/r/%06d", i), s})
		}
	}
	if err := os.WriteFile(f("v1"), encodeV1(roots, docs), 0o666); err != nil {
		harness("%v", err)
	}
	m := model{roots, docs}
	c.Seen(m.String())
	c.Sample("%d files in the old format, roots %q", len(docs), roots)
	ix := index.Open(f("v1"))
	n := numNames(ix)
	if n != len(docs) {
		c.Fail("old index has %d files, want %d", n, len(docs))
	}
	var names []string
	for _, d := range docs {
		names = append(names, d.name)
	}
	if d := diffStrings(paths(ix.Names(0, n)), names); d != "" {
		c.Fail("old index: names: %s", d)
	}
	if d := diffStrings(paths(ix.Roots().All()), roots); d != "" {
		c.Fail("old index: roots: %s", d)
	}
	for range 50 {
		if n > 0 {
			i := c.IntN(n)
			if got := ix.Name(i).String(); got != names[i] {
				c.Fail("old index: Name(%d) = %q, want %q", i, got, names[i])
			}
		}
	}
	want := postings(docs)
	var pool []string
	for t, l := range want {
		c.Count("posting_entries_compared", len(l))
		if got := ix.PostingList(t); !same32(got, l) {
			c.Fail("old index: list of %q: %s, want %s", tri3(t), ints(got), ints(l))
		}
		if len(pool) < 50 {
			pool = append(pool, tri3(t))
		}
	}
	sort.Strings(pool)
	pool = append(pool, "qqq", "\x01\x01\x01", "\xff\xff\xfe")
	sets := make([]map[uint32]bool, 0)
	if n <= 300 {
		for _, d := range docs {
			s := map[uint32]bool{}
			for _, t := range triList(d.data) {
				s[t] = true
			}
			sets = append(sets, s)
		}
		for range 100 {
			q := randQuery(c, pool, c.IntN(3))
			var exp []int32
			for i := range n {
				if evalQuery(q, func(t string) bool { return sets[i][uint32(t[0])<<16|uint32(t[1])<<8|uint32(t[2])] }) {
					exp = append(exp, int32(i))
				}
			}
			str := q.String()
			c.Count("v1_queries", 1)
			if got := ix.PostingQuery(q); !same32(got, exp) {
				c.Fail("old index, query %s: %s, want %s", str, ints(got), ints(exp))
			}
		}
	}
	// merging converts: with an empty index either way, with itself, with a new one
	buildIndex(c, f("empty"), nil, nil, false)
	index.Merge(f("m1"), f("v1"), f("empty"))
	checkIndex(c, "old format merged with empty", f("m1"), m.roots, m.docs)
	index.Merge(f("m2"), f("empty"), f("v1"))
	checkIndex(c, "empty merged with old format", f("m2"), m.roots, m.docs)
	index.Merge(f("m3"), f("v1"), f("v1"))
	checkIndex(c, "old format merged with itself", f("m3"), m.roots, m.docs)
	other := genModel(c, 20)
	other.write(c, f("o"), true)
	index.Merge(f("m4"), f("v1"), f("o"))
	mm := mergeModel(m, other)
	checkIndex(c, fmt.Sprintf("old format %v\nmerged with %v", m, other), f("m4"), mm.roots, mm.docs)
	index.Merge(f("m5"), f("m4"), f("v1"))
	mm = mergeModel(mm, m)
	checkIndex(c, "then merged with the old format again", f("m5"), mm.roots, mm.docs)
}

// c17Commands runs the commands on an index in the old format of a real tree.
func c17Commands(c *C) {
	w := newWorld(c, "w")
	for _, t := range []string{"a", "b", "c"} {
		w.genTree(t, c.IntN(15))
		os.MkdirAll(filepath.Join(w.tree, t), 0o777)
	}
	ra, rb, rc := w.tree+"/a", w.tree+"/b", w.tree+"/c"
	m := &idxModel{}
	m.update([]string{ra, rb}, false)
	old := encodeV1(m.roots, m.docs)
	if err := os.WriteFile(w.idx, old, 0o600); err != nil {
		harness("%v", err)
	}
	check := func(step string) {
		r := w.run("cindex", "-list")
		if l := strings.Join(m.roots, "\n") + "\n"; r.code != 0 || string(r.out) != l {
			c.Fail("%s: cindex -list prints %q (status %d, %s), want %q", step, r.out, r.code, r.err, l)
		}
		for _, e := range []string{pick(c, []string{"e", "abc", "[a-z]{3}", "x|foo"}), pick(c, []string{"hello", "return|int", "zzzz", "世", "(?i)the"})} {
			o := grepOpts{n: c.Chance(2), l: c.Chance(4)}
			args := append(o.flags(), "--", e)
			if c.Chance(4) {
				args = append([]string{"-brute"}, args...)
			}
			want, matched, _ := grepDocs(m.docs, "(?m)"+e, o)
			checkGrepRun(c, fmt.Sprintf("%s: csearch %q", step, args), w.run("csearch", args...), want.Bytes(), matched > 0)
			c.Count("v1_searches", 1)
		}
	}
	check("old format")
	if b, _ := os.ReadFile(w.idx); !bytes.Equal(b, old) {
		c.Fail("searching changes an index in the old format")
	}
	w.tryWrite("a/added", "added "+genContent(c, 100))
	args := [][]string{{}, {ra}, {rc}, {ra, rc}, {rb}, {w.tree}}[c.IntN(6)]
	if len(args) == 0 || args[0] == rb || args[0] == w.tree { // b is looked at again
		os.RemoveAll(filepath.Join(w.tree, "b", pick(c, oddNames)))
	}
	if c.Chance(3) {
		args = append([]string{"-check"}, args...)
	}
	w.must("cindex", args...)
	paths := slices.DeleteFunc(slices.Clone(args), func(s string) bool { return s == "-check" })
	if len(paths) == 0 {
		paths = m.roots
	}
	m.update(paths, false)
	checkIndex(c, fmt.Sprintf("index in the old format after cindex %q", args), w.idx, m.roots, m.docs)
	check("old format updated")
	c.Count("v1_updates", 1)
}

// ---- C25

func runCheck(file string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return index.Open(file).Check()
}

// listState says whether the list at off is as recorded.
func listSound(d []byte, off int, t uint32, count int, end int) bool {
	p := d[off:end]
	if len(p) < 3 || uint32(p[0])<<16|uint32(p[1])<<8|uint32(p[2]) != t {
		return false
	}
	ids, ok := readDeltas(2, p[3:], count+1)
	return ok && len(ids) == count
}

func runC25(c *C) {
	dir := c.Dir("c25")
	f := func(n string) string { return filepath.Join(dir, n) }
	m := genModel(c, []int{3, 20, 100}[c.IntN(3)])
	switch c.Case % 8 {
	case 0:
		m = model{roots: []string{"/r"}}
		for i := range 3 {
			m.docs = append(m.docs, doc{fmt.Sprintf("/r/%d", i), exactTrigrams(c, 3000)})
		}
	case 1:
		m = model{roots: []string{"/r"}}
		for i := range 3000 {
			m.docs = append(m.docs, doc{fmt.Sprintf("/r/%05d", i), fmt.Sprintf("cmn%d", i%50)})
		}
	}
	if c.Case == 5 || c.Case == 6 || c.Thorough && c.Case%400 == 7 {
		// lists longer than 2^16 entries, and around it
		m = model{roots: []string{"/r"}}
		for i := range []int{1 << 16, 1<<16 + 1, 1<<17 + 3}[c.IntN(3)] {
			m.docs = append(m.docs, doc{fmt.Sprintf("/r/%06d", i), pick(c, []string{"abc", "abc", "abc def", "xabc\n"})})
		}
		c.Count("long_lists", 1)
	}
	m.write(c, f("ix"), false)
	if err := runCheck(f("ix")); err != nil {
		c.Fail("Check rejects a sound index of %v: %v", m, err)
	}
	c.Count("sound_accepted", 1)
	o := genModel(c, 20)
	o.write(c, f("o"), true)
	if err := runCheck(f("o")); err != nil {
		c.Fail("Check rejects a sound index of %v: %v", o, err)
	}
	index.Merge(f("m"), f("ix"), f("o"))
	if err := runCheck(f("m")); err != nil {
		c.Fail("Check rejects the merge of %v and %v: %v", m, o, err)
	}
	index.Merge(f("m2"), f("m"), f("ix"))
	if err := runCheck(f("m2")); err != nil {
		c.Fail("Check rejects the second merge: %v", err)
	}
	c.Count("sound_accepted", 3)
	src := f([]string{"ix", "m", "m2"}[c.IntN(3)])
	data, err := os.ReadFile(src)
	if err != nil {
		harness("%v", err)
	}
	ri, err := decodeIndex(data)
	if err != nil {
		c.Fail("%v", err)
	}
	// the end of the posting data is the start of the name index
	nameIndex := int(uint32(data[len(data)-16-16+4])<<24 | uint32(data[len(data)-16-16+5])<<16 | uint32(data[len(data)-16-16+6])<<8 | uint32(data[len(data)-16-16+7]))
	if len(ri.tri) == 0 {
		return
	}
	for range 150 {
		b := slices.Clone(data)
		k := c.IntN(len(ri.tri))
		switch c.IntN(5) {
		case 0:
			k = 0
		case 1:
			k = len(ri.tri) - 1
		}
		t, off, ent := ri.tri[k], ri.offs[k], ri.entOff[k]
		if t == 1<<24-1 {
			continue
		}
		count := len(ri.posts[k])
		end := nameIndex
		kind := c.IntN(4)
		what := ""
		switch kind {
		case 0: // the list's own trigram
			i := c.IntN(3)
			b[off+i] ^= 1 << c.IntN(8)
			what = "trigram of the list changed"
		case 1: // the recorded count, same length of encoding
			if count >= 127 {
				continue
			}
			nc := count + 1
			if count > 1 && c.Chance(2) {
				nc = count - 1
			}
			if nc > 127 || nc < 1 {
				continue
			}
			b[ent+3] = byte(nc)
			count = nc
			what = "recorded count changed"
		default: // a bit of the deltas or terminator
			next := end
			if k+1 < len(ri.offs) {
				next = ri.offs[k+1]
			}
			n := next - off - 3
			if n <= 0 {
				continue
			}
			i := c.IntN(n)
			if kind == 3 {
				i = n - 1
			}
			b[off+3+i] ^= 1 << c.IntN(8)
			what = fmt.Sprintf("bit of byte %d of %d of the list changed", i, n)
		}
		if listSound(b, off, t, count, end) {
			c.Count("damage_without_effect", 1)
			continue
		}
		if err := os.WriteFile(f("bad"), b, 0o666); err != nil {
			harness("%v", err)
		}
		c.Seen(b)
		if err := runCheck(f("bad")); err == nil {
			c.Fail("Check accepts a damaged index: %s (list %d of %d, trigram %q, %d entries)\n%v", what, k, len(ri.tri), tri3(t), len(ri.posts[k]), m)
		}
		c.Count("damaged_rejected", 1)
		c.Sample("list %d of %d: %s", k, len(ri.tri), what)
	}
}

// ---- C26

// c26Big fills sets with very many elements, and resets sets very often.
func c26Big(c *C) {
	max := 1<<16 + 1 + c.IntN(1<<20)
	s := sparse.NewSet(uint32(max))
	for round := range 3 {
		n := 1<<16 + c.IntN(max-1<<16)
		order := c.Perm(max)[:n]
		for _, x := range order {
			s.Add(uint32(x))
			if c.Chance(10) {
				s.Add(uint32(x))
			}
		}
		c.Count("operations", n)
		if s.Len() != n {
			c.Fail("round %d: Len() = %d after adding %d elements (capacity %d)", round, s.Len(), n, max)
		}
		in := make([]bool, max)
		for i, x := range s.Dense() {
			if int(x) != order[i] {
				c.Fail("round %d: element %d is %d, want %d (capacity %d, %d elements)", round, i, x, order[i], max, n)
			}
			in[x] = true
		}
		for x := range max {
			if s.Has(uint32(x)) != in[x] {
				c.Fail("round %d: Has(%d) = %v, want %v (capacity %d, %d elements)", round, x, !in[x], in[x], max, n)
			}
		}
		c.Count("operations", max)
		c.Seen("big", c.Case, round)
		s.Reset()
		c.Count("resets", 1)
	}
	// Elements come back after any number of resets.
	s.Add(7)
	for i := range 300000 {
		s.Reset()
		if s.Has(7) || s.Len() != 0 {
			c.Fail("after %d resets in a row the set is not empty", i+1)
		}
		if i%256 == 255 || i%65536 > 65530 {
			s.Add(7)
			s.Add(7)
			if !s.Has(7) || s.Has(8) || s.Len() != 1 {
				c.Fail("after %d resets: Has(7) %v, Has(8) %v, Len() %d", i, s.Has(7), s.Has(8), s.Len())
			}
		}
	}
	c.Count("resets", 300000)
}

func runC26(c *C) {
	if c.Case%100 == 50 {
		c26Big(c)
		return
	}
	max := []int{1, 2, 3, 10, 100, 1000, 1 << 16}[c.IntN(7)]
	if c.Case%60 == 0 {
		max = 1 << 24
	}
	var s *sparse.Set
	if c.Chance(2) {
		s = sparse.NewSet(uint32(max))
	} else {
		s = new(sparse.Set)
		s.Init(uint32(max))
	}
	in := map[uint32]bool{}
	var list []uint32
	var trace strings.Builder
	other := sparse.NewSet(uint32(max)) // another set in use at the same time
	check := func() {
		if s.Len() != len(list) {
			c.Fail("Len() = %d, want %d\n%s", s.Len(), len(list), trace.String())
		}
		if !slices.Equal(s.Dense(), list) && len(list) > 0 {
			c.Fail("Dense() = %v, want %v\n%s", s.Dense(), list, trace.String())
		}
	}
	val := func() uint32 {
		switch c.IntN(4) {
		case 0:
			return uint32(max - 1)
		case 1:
			return uint32(c.IntN(min(max, 8)))
		}
		return uint32(c.IntN(max))
	}
	for op := range 1000 {
		x := val()
		c.Count("operations", 1)
		switch c.IntN(50) {
		case 0:
			other.Reset()
		case 1, 2, 3:
			other.Add(val())
		}
		switch k := c.IntN(40); {
		case k == 0:
			s.Reset()
			clear(in)
			list = nil
			c.Count("resets", 1)
			trace.WriteString("reset ")
		case k < 20:
			s.Add(x)
			fmt.Fprintf(&trace, "add %d ", x)
			if !in[x] {
				in[x] = true
				list = append(list, x)
			}
		default:
			if got := s.Has(x); got != in[x] {
				c.Fail("Has(%d) = %v, want %v after\n%s", x, got, in[x], trace.String())
			}
			fmt.Fprintf(&trace, "has %d ", x)
		}
		if s.Len() != len(list) {
			check()
		}
		if op%37 == 0 {
			check()
			if max <= 100 {
				for v := range max {
					if s.Has(uint32(v)) != in[uint32(v)] {
						c.Fail("Has(%d) = %v, want %v after\n%s", v, !in[uint32(v)], in[uint32(v)], trace.String())
					}
				}
			}
		}
	}
	check()
	c.Seen(trace.String())
	c.Sample("capacity %d: %s", max, trace.String())
}

var _ = io.EOF
