//go:build amd64 || arm64

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/google/codesearch/index"
)

func init() {
	register(&Prop{ID: "C40", Quick: 4, Thorough: 16, Procs: 2, Run: runC40, Stall: 800 * time.Second,
		Rule:     "indexes of more than 4 GB: (0) names of 64 KB each written by the index writer (2.2 or 4.4 GB of names, the posting lists behind them), updated by cindex with directories whose files come before, in the middle of and after the long names; (1) an index of 16.6 million posting lists (4.4 GB of them) from an encoder of our own, read and merged; (2) an index in the old format with 2.3 to 3.9 GB of names, read and updated; (3) some 700 million posting entries, which the index writer keeps in temporary files of more than 4 GB before it merges them into as large an index; names, posting lists and searches on both sides of the 2 and 4 GB marks compared with what was put in; non-trivial: an index whose offsets exceed 2 GB; distinct by shape",
		Assume:   []string{"30 GB of free disk space", "lists at sampled trigrams, names at sampled numbers"},
		MinEvent: map[string]int64{"bytes_written": 25_000_000_000, "names_compared": 9000, "lists_compared": 25000, "offsets_above_4GB": 8, "offsets_above_2GB": 12, "searches": 500}})
}

func runC40(c *C) {
	switch c.Case % 4 {
	case 0:
		c.bigNames()
	case 1:
		c.bigLists()
	case 2:
		c.bigV1()
	case 3:
		c.bigSpill()
	}
}

// A bigFile is an index file read piece by piece.
type bigFile struct {
	c    *C
	f    *os.File
	size int64
	// pathData, numPath, nameData, numName, postData, numPost, nameIndex, postIndex
	off [8]int64
}

func (c *C) openBig(name string) *bigFile {
	f, err := os.Open(name)
	if err != nil {
		c.Fail("the index is missing: %v", err)
	}
	st, _ := f.Stat()
	b := &bigFile{c: c, f: f, size: st.Size()}
	t := b.read(b.size-80, 80)
	if string(t[64:]) != trailer2 {
		c.Fail("index of %d bytes ends in %q, not in the trailer", b.size, t[64:])
	}
	for i := range b.off {
		b.off[i] = int64(binary.BigEndian.Uint64(t[8*i:]))
	}
	last := int64(0)
	for _, i := range []int{0, 2, 4, 6, 7} {
		if b.off[i] < last || b.off[i] > b.size {
			c.Fail("index of %d bytes has sections at %d", b.size, b.off)
		}
		last = b.off[i]
		if last > 4<<30 {
			c.Count("offsets_above_4GB", 1)
		}
		if last > 2<<30 {
			c.Count("offsets_above_2GB", 1)
		}
	}
	c.Count("bytes_written", int(b.size))
	return b
}

func (b *bigFile) read(at int64, n int) []byte {
	p := make([]byte, n)
	k, err := b.f.ReadAt(p, at)
	if k < n && at+int64(k) != b.size {
		b.c.Fail("reading the index of %d bytes at %d: %v", b.size, at, err)
	}
	return p[:k]
}

// name decodes the i'th name.
func (b *bigFile) name(i, longest int) string {
	at := b.off[2] + int64(binary.BigEndian.Uint64(b.read(b.off[6]+int64(i/16*8), 8)))
	last := ""
	for k := range i%16 + 1 {
		p := b.read(at, 20+longest)
		pre, w := binary.Uvarint(p)
		n, w2 := binary.Uvarint(p[max(w, 0):])
		if w <= 0 || w2 <= 0 || int(pre) > len(last) || w+w2+int(n) > len(p) || k == 0 && pre != 0 {
			b.c.Fail("the name list is broken at name %d (offset %d)", i, at)
		}
		last = last[:pre] + string(p[w+w2:w+w2+int(n)])
		at += int64(w + w2 + int(n))
	}
	return last
}

// A bigEnt is an entry of the posting index.
type bigEnt struct {
	tri   uint32
	count int
	off   int64
}

// entries reads the posting index.
func (b *bigFile) entries() []bigEnt {
	var l []bigEnt
	end := b.size - 80
	buf := b.read(b.off[7], int(end-b.off[7]))
	if len(buf)%256 != 0 {
		b.c.Fail("the posting index has %d bytes", len(buf))
	}
	for ; len(buf) > 0; buf = buf[256:] {
		p := buf[:256]
		off := int64(0)
		for len(p) >= 3 {
			t := uint32(p[0])<<16 | uint32(p[1])<<8 | uint32(p[2])
			if t == 0 {
				break
			}
			n, w := binary.Uvarint(p[3:])
			o, w2 := binary.Uvarint(p[3+max(w, 0):])
			if w <= 0 || w2 <= 0 {
				b.c.Fail("the posting index is broken at %06x", t)
			}
			off += int64(o)
			l = append(l, bigEnt{t, int(n), off})
			p = p[3+w+w2:]
		}
	}
	if int64(len(l)) != b.off[5] {
		b.c.Fail("%d posting lists in an index that says it has %d", len(l), b.off[5])
	}
	return l
}

// list decodes the posting list of an entry.
func (b *bigFile) list(e bigEnt) []int32 {
	p := b.read(b.off[4]+e.off, 3+16+e.count*9)
	if t := uint32(p[0])<<16 | uint32(p[1])<<8 | uint32(p[2]); t != e.tri {
		b.c.Fail("the list of %06x at offset %d begins with %06x", e.tri, e.off, t)
	}
	ids, ok := readDeltas(2, p[3:], e.count+1)
	if !ok || len(ids) != e.count {
		b.c.Fail("the list of %06x at offset %d has %d entries, not %d", e.tri, e.off, len(ids), e.count)
	}
	return ids
}

// room fails if the disk is too full for the case.
func (c *C) room(dir string, need uint64) {
	var st syscall.Statfs_t
	if err := syscall.Statfs(dir, &st); err == nil && uint64(st.Bavail)*uint64(st.Bsize) < need {
		harness("%d GB of free disk space needed below %s", need>>30, dir)
	}
}

// longName returns the i'th of the long names.
func longName(i, size int) string {
	s := fmt.Sprintf("/b/%07d/", i)
	return s + strings.Repeat(string(rune('a'+i%26)), size-len(s))
}

// sampleIDs returns numbers below n: the ends, those around the marks, random ones.
func (c *C) sampleIDs(n, k, size int) []int {
	var l []int
	for _, m := range []int64{0, 1 << 31, 1 << 32, int64(n) * int64(size)} {
		for d := -40; d <= 40; d++ {
			if i := int(m/int64(size)) + d; i >= 0 && i < n {
				l = append(l, i)
			}
		}
	}
	for range k {
		l = append(l, c.IntN(n))
	}
	return l
}

func (c *C) bigNames() {
	dir := c.Dir("big")
	defer os.RemoveAll(dir)
	c.room(dir, 24<<30)
	total := 4400 << 20
	size := 65000
	if c.Case%8 == 4 {
		total, size = (2200+c.IntN(1700))<<20, 4000+c.IntN(250000)
	}
	n := total / size
	c.Sample("%d names of %d bytes", n, size)
	c.Seen("names", n, size)

	// The files: each holds a word of its own block, some words are in all.
	text := func(i int) string { return fmt.Sprintf("common block%03d n%07d\n", i%1000, i) }
	file := filepath.Join(dir, "idx")
	ix := index.Create(file)
	ix.AddRoots([]index.Path{index.MakePath("/b")})
	for i := range n {
		if err := ix.Add(longName(i, size), strings.NewReader(text(i))); err != nil {
			c.Fail("Add: %v", err)
		}
	}
	ix.Flush()
	var docs []doc
	c.lookBig(file, n, size, 0, docs, text)

	// Updates by cindex: files that come before, after, and in between.
	w := newWorld(c, "big/w")
	w.write("t/x.txt", "hello Before\n")
	w.write("t/y/z.txt", "hello common After\n")
	w.idx = file
	w.must("cindex", filepath.Join(w.tree, "t"))
	docs = []doc{{filepath.Join(w.tree, "t/x.txt"), "hello Before\n"}, {filepath.Join(w.tree, "t/y/z.txt"), "hello common After\n"}}
	first := 0
	if docs[0].name < "/b/" {
		first = 2
	}
	c.lookBig(file, n, size, first, docs, text)
	r := w.must("csearch", "-h", "hello")
	if want := "hello Before\nhello common After\n"; string(r.out) != want {
		c.Fail("csearch on an index with %d GB of names: %q, want %q\n%s", total>>30, tailStr(string(r.out)), want, r.err)
	}
	c.Count("searches", 1)
	r = w.must("csearch", "-l", "-f", "^/[^b]", "common")
	if want := docs[1].name + "\n"; string(r.out) != want {
		c.Fail("csearch -l -f on an index with %d GB of names: %q, want %q\n%s", total>>30, tailStr(string(r.out)), want, r.err)
	}
	c.Count("searches", 1)
	r = w.must("cindex", "-list")
	if want := []string{"/b", filepath.Join(w.tree, "t")}; string(r.out) != strings.Join(want, "\n")+"\n" {
		slices.Sort(want)
		if string(r.out) != strings.Join(want, "\n")+"\n" {
			c.Fail("cindex -list: %q", tailStr(string(r.out)))
		}
	}

	// A merge by the package, files before the long names.
	small := filepath.Join(dir, "small")
	ix = index.Create(small)
	ix.AddRoots([]index.Path{index.MakePath("/a")})
	ix.Add("/a/first", strings.NewReader("hello common First\n"))
	ix.Flush()
	dst := filepath.Join(dir, "dst")
	index.Merge(dst, file, small)
	os.Remove(file)
	docs = append(docs, doc{"/a/first", "hello common First\n"})
	c.lookBig(dst, n, size, first+1, docs, text)
}

// lookBig examines an index with n long names, the first of which is
// number first, and the files docs around them.
func (c *C) lookBig(file string, n, size, first int, docs []doc, text func(int) string) {
	all := slices.Clone(docs)
	sortDocs(all)
	name := func(id int) string {
		switch {
		case id < first:
			return all[id].name
		case id < first+n:
			return longName(id-first, size)
		}
		return all[id-n].name
	}
	content := func(id int) string {
		switch {
		case id < first:
			return all[id].data
		case id < first+n:
			return text(id - first)
		}
		return all[id-n].data
	}
	what := fmt.Sprintf("index with %d names of %d bytes", n, size)
	total := n + len(all)
	short := func(s string) string {
		if len(s) > 40 {
			return fmt.Sprintf("%s...(%d bytes)", s[:40], len(s))
		}
		return s
	}

	// The file, by our own decoder.
	b := c.openBig(file)
	defer b.f.Close()
	if int(b.off[3]) != total {
		c.Fail("%s: the file has %d names, want %d", what, b.off[3], total)
	}
	ids := c.sampleIDs(total, 300, size+5)
	for _, i := range ids {
		if got := b.name(i, size+16); got != name(i) {
			c.Fail("%s: in the file, name %d is %s, want %s", what, i, short(got), short(name(i)))
		}
		c.Count("names_compared", 1)
	}
	// Trigrams: exact lists from all the contents.
	lists := map[uint32][]int32{}
	for id := range total {
		for _, t := range triList(content(id)) {
			if l := lists[t]; len(l) < 5000 {
				lists[t] = append(l, int32(id))
			}
		}
	}
	ents := b.entries()
	if k := len(ents) - 1; k != len(lists) {
		c.Fail("%s: %d posting lists, want %d", what, k, len(lists))
	}
	for _, e := range ents {
		if want := lists[e.tri]; len(want) < 5000 && e.tri != 1<<24-1 {
			if got := b.list(e); !slices.Equal(got, want) {
				c.Fail("%s: in the file, the list of %q is %s, want %s", what, tri3(e.tri), ints(got), ints(want))
			}
			c.Count("lists_compared", 1)
		}
	}

	// The package.
	ix := index.Open(file)
	defer ix.Close()
	for _, i := range ids {
		if got := ix.Name(i).String(); got != name(i) {
			c.Fail("%s: Name(%d) = %s, want %s", what, i, short(got), short(name(i)))
		}
	}
	for _, i := range ids[:min(len(ids), 100)] {
		k := i
		for p := range ix.Names(i, min(i+20, total)) {
			if got := p.String(); got != name(k) {
				c.Fail("%s: Names(%d, ...): name %d is %s, want %s", what, i, k, short(got), short(name(k)))
			}
			c.Count("names_compared", 1)
			k++
		}
		if k != min(i+20, total) {
			c.Fail("%s: Names(%d, %d) ends before %d", what, i, min(i+20, total), k)
		}
	}
	for t, want := range lists {
		if len(want) < 5000 {
			if got := ix.PostingList(t); !same32(got, want) {
				c.Fail("%s: list of %q: %s, want %s", what, tri3(t), ints(got), ints(want))
			}
			c.Count("lists_compared", 1)
		}
	}
	for _, i := range ids[:min(len(ids), 60)] {
		s := strings.TrimSpace(content(i))
		q := &index.Query{Op: index.QAnd, Trigram: nil}
		for _, t := range triList(s) {
			q.Trigram = append(q.Trigram, tri3(t))
		}
		slices.Sort(q.Trigram)
		want := []int32{}
		// Files whose trigrams include those of s.
		var cand []int32
		for _, t := range triList(s) {
			if l := lists[t]; len(l) < 5000 && (cand == nil || len(l) < len(cand)) {
				cand = l
			}
		}
		if cand == nil {
			continue
		}
		for _, id := range cand {
			have := triList(content(int(id)))
			ok := true
			for _, t := range triList(s) {
				if _, found := slices.BinarySearch(have, t); !found {
					ok = false
				}
			}
			if ok {
				want = append(want, id)
			}
		}
		got := ix.PostingQuery(q)
		if !same32(got, want) {
			c.Fail("%s: files for the trigrams of %q: %s, want %s", what, s, ints(got), ints(want))
		}
		c.Count("searches", 1)
	}
	if err := runCheck(file); err != nil {
		c.Fail("%s: Check: %v", what, err)
	}
}

// gammaList encodes the list of one trigram (without the trigram).
func gammaList(ids []int32) []byte {
	var out []byte
	n := 0
	bit := func(v int) {
		if n%8 == 0 {
			out = append(out, 0)
		}
		out[n/8] |= byte(v << (n % 8))
		n++
	}
	put := func(x int) {
		if x == 0 {
			x = 16
		} else if x >= 16 {
			x++
		}
		lg := bits.Len(uint(x)) - 1
		for range lg {
			bit(0)
		}
		bit(1)
		for i := range lg {
			bit(x >> i & 1)
		}
	}
	last := int32(-1)
	for _, id := range ids {
		put(int(id - last))
		last = id
	}
	put(0)
	return out
}

// bigLists makes an index of more than 4 GB of posting lists.
func (c *C) bigLists() {
	dir := c.Dir("big")
	defer os.RemoveAll(dir)
	c.room(dir, 24<<30)
	n := 1<<21 + c.IntN(1000)
	target := int64(4500 << 20)
	if c.Case%8 == 5 {
		target = int64(2200+c.IntN(3000)) << 20
	}
	var tris []uint32
	for t := uint32(0x010101); t < 1<<24-1; t++ {
		if t&255 != 0 && t>>8&255 != 0 {
			tris = append(tris, t)
		}
	}
	per := int(target / int64(len(tris)))

	// Some lists, used in turn.
	const variants = 101
	var body [variants][]byte
	var want [variants][]int32
	for v := range body {
		for len(body[v]) < per-6 {
			k := len(want[v])*5/4 + 20
			set := map[int32]bool{}
			for range k {
				set[int32(c.IntN(n))] = true
			}
			want[v] = nil
			for id := range set {
				want[v] = append(want[v], id)
			}
			slices.Sort(want[v])
			body[v] = gammaList(want[v])
			if len(body[v]) > per+20 {
				// Too long: cut.
				want[v] = want[v][:len(want[v])*per/len(body[v])]
				body[v] = gammaList(want[v])
				break
			}
		}
	}
	variant := func(i int) int { return int(uint64(i) * 2654435761 % variants) }

	file := filepath.Join(dir, "idx")
	f, err := os.Create(file)
	if err != nil {
		harness("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var off int64
	put := func(p []byte) { w.Write(p); off += int64(len(p)) }
	align := func() {
		for off%16 != 0 {
			put([]byte{0})
		}
	}
	var v [20]byte
	path := func(pre int, s string) {
		put(v[:binary.PutUvarint(v[:], uint64(pre))])
		put(v[:binary.PutUvarint(v[:], uint64(len(s)-pre))])
		put([]byte(s[pre:]))
	}
	name := func(i int) string { return fmt.Sprintf("/b/%07d", i) }
	put([]byte("csearch index 2\n"))
	var sec [8]int64
	sec[0], sec[1] = off, 1
	path(0, "/b")
	align()
	sec[2], sec[3] = off, int64(n)
	var nameIndex []byte
	last := ""
	for i := range n {
		s := name(i)
		pre := 0
		if i%16 == 0 {
			nameIndex = binary.BigEndian.AppendUint64(nameIndex, uint64(off-sec[2]))
		} else {
			for pre < len(s) && s[pre] == last[pre] {
				pre++
			}
		}
		path(pre, s)
		last = s
	}
	align()
	sec[4], sec[5] = off, int64(len(tris)+1)
	var postIndex []byte
	block := make([]byte, 0, 256)
	base := int64(0)
	entry := func(t uint32, count int, at int64) {
		e := func() []byte {
			p := append(v[:0], byte(t>>16), byte(t>>8), byte(t))
			p = binary.AppendUvarint(p, uint64(count))
			return binary.AppendUvarint(p, uint64(at-base))
		}
		p := e()
		if len(block)+len(p) > 256 {
			postIndex = append(postIndex, block[:256]...)
			clear(block[:256])
			block = block[:0]
			base = 0
			p = e()
		}
		block = append(block, p...)
		base = at
	}
	for i, t := range tris {
		k := variant(i)
		entry(t, len(want[k]), off-sec[4])
		put([]byte{byte(t >> 16), byte(t >> 8), byte(t)})
		put(body[k])
	}
	entry(1<<24-1, 0, off-sec[4])
	put([]byte{255, 255, 255})
	put(gammaList(nil))
	postIndex = append(postIndex, block[:256]...)
	align()
	sec[6] = off
	put(nameIndex)
	align()
	sec[7] = off
	put(postIndex)
	for _, s := range sec {
		put(binary.BigEndian.AppendUint64(nil, uint64(s)))
	}
	put([]byte(trailer2))
	if err := w.Flush(); err != nil {
		harness("%v", err)
	}
	f.Close()
	c.Sample("%d posting lists of about %d bytes, %d bytes in all", len(tris), per, off)
	c.Seen("lists", target, n)

	sample := []int{0, 1, len(tris) - 1}
	for _, m := range []int64{1 << 31, 1 << 32, 3 << 31, 3 << 30} {
		i := sort.Search(len(tris), func(i int) bool { return int64(i)*(int64(len(body[0]))+3) > m })
		for d := -300; d < 300; d++ {
			if k := i + d; k >= 0 && k < len(tris) {
				sample = append(sample, k)
			}
		}
	}
	for range 5000 {
		sample = append(sample, c.IntN(len(tris)))
	}

	look := func(what, file string, shift func(id int32) int32, drop func(id int32) bool) {
		ix := index.Open(file)
		defer ix.Close()
		exp := func(i int) []int32 {
			var l []int32
			for _, id := range want[variant(i)] {
				if !drop(id) {
					l = append(l, shift(id))
				}
			}
			return l
		}
		for _, i := range sample {
			if got, w := ix.PostingList(tris[i]), exp(i); !same32(got, w) {
				c.Fail("%s: list of %06x: %s, want %s", what, tris[i], ints(got), ints(w))
			}
			c.Count("lists_compared", 1)
			if c.Chance(10) {
				j := sample[c.IntN(len(sample))]
				a, b := exp(i), exp(j)
				var and []int32
				for _, id := range a {
					if _, ok := slices.BinarySearch(b, id); ok {
						and = append(and, id)
					}
				}
				if got := ix.PostingAnd(ix.PostingList(tris[i]), tris[j]); !same32(got, and) {
					c.Fail("%s: list of %06x and %06x: %s, want %s", what, tris[i], tris[j], ints(got), ints(and))
				}
				or := append(slices.Clone(a), b...)
				slices.Sort(or)
				or = slices.Compact(or)
				if got := ix.PostingOr(ix.PostingList(tris[i]), tris[j]); !same32(got, or) {
					c.Fail("%s: list of %06x or %06x: %s, want %s", what, tris[i], tris[j], ints(got), ints(or))
				}
				c.Count("searches", 1)
			}
		}
	}
	c.openBig(file).f.Close()
	look("index with 4 GB of posting lists", file, func(id int32) int32 { return id }, func(int32) bool { return false })

	// An update: two files come before, some in the middle are replaced.
	lo := c.IntN(n - 5000)
	small := filepath.Join(dir, "small")
	ix := index.Create(small)
	gone := fmt.Sprintf("/b/%07d", lo)
	ix.AddRoots([]index.Path{index.MakePath("/a"), index.MakePath(gone)})
	ix.Add("/a/1", strings.NewReader("\x01\x01\x01"))
	ix.Add("/a/2", strings.NewReader("zzz zz"))
	ix.Flush()
	dst := filepath.Join(dir, "dst")
	index.Merge(dst, file, small)
	shift := func(id int32) int32 {
		if int(id) > lo {
			id--
		}
		return id + 2
	}
	b := c.openBig(dst)
	defer b.f.Close()
	if int(b.off[3]) != n+1 {
		c.Fail("the merged index has %d names, want %d", b.off[3], n+1)
	}
	for range 500 {
		i := c.IntN(n)
		if i == lo {
			continue
		}
		if got := b.name(int(shift(int32(i))), 64); got != name(i) {
			c.Fail("merged index: name %d is %q, want %q", shift(int32(i)), got, name(i))
		}
		c.Count("names_compared", 1)
	}
	ents := b.entries()
	extra := map[uint32][]int32{}
	for t, l := range postings([]doc{{"", "\x01\x01\x01"}, {"", "zzz zz"}}) {
		extra[t] = l
	}
	exp := func(i int) []int32 {
		l := slices.Clone(extra[tris[i]])
		for _, id := range want[variant(i)] {
			if int(id) != lo {
				l = append(l, shift(id))
			}
		}
		return l
	}
	if len(ents) != len(tris)+1 {
		c.Fail("merged index: %d lists, want %d", len(ents), len(tris)+1)
	}
	for i := range tris {
		l := len(want[variant(i)]) + len(extra[tris[i]])
		if _, ok := slices.BinarySearch(want[variant(i)], int32(lo)); ok {
			l--
		}
		if e := ents[i]; e.tri != tris[i] || e.count != l {
			c.Fail("merged index: entry %d is %06x with %d files, want %06x with %d", i, e.tri, e.count, tris[i], l)
		}
	}
	for _, i := range sample {
		if got := b.list(ents[i]); !slices.Equal(got, exp(i)) {
			c.Fail("merged index: in the file, list of %06x: %s, want %s", tris[i], ints(got), ints(exp(i)))
		}
		c.Count("lists_compared", 1)
	}
	os.Remove(file)
	m := index.Open(dst)
	defer m.Close()
	for _, i := range sample {
		if got := m.PostingList(tris[i]); !same32(got, exp(i)) {
			c.Fail("merged index: list of %06x: %s, want %s", tris[i], ints(got), ints(exp(i)))
		}
		c.Count("lists_compared", 1)
	}
}

// bigV1 makes an index in the old format of 2 to 4 GB.
func (c *C) bigV1() {
	dir := c.Dir("big")
	defer os.RemoveAll(dir)
	c.room(dir, 24<<30)
	total := (2300 + c.IntN(1600)) << 20
	size := 60000 + c.IntN(5000)
	n := total / (size + 1)
	c.Sample("old format, %d names of %d bytes", n, size)
	c.Seen("v1", n, size)
	text := func(i int) string { return fmt.Sprintf("common block%03d n%07d\n", i%1000, i) }
	file := filepath.Join(dir, "idx")
	f, err := os.Create(file)
	if err != nil {
		harness("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	off := 0
	put := func(s string) { w.WriteString(s); off += len(s) }
	u32 := func(p []byte, v int) []byte { return binary.BigEndian.AppendUint32(p, uint32(v)) }
	put("csearch index 1\n")
	var sec [5]int
	sec[0] = off
	put("/b\x00\x00")
	sec[1] = off
	var nameIndex, postIndex []byte
	lists := map[uint32][]int32{}
	for i := range n {
		nameIndex = u32(nameIndex, off-sec[1])
		put(longName(i, size))
		put("\x00")
		for _, t := range triList(text(i)) {
			lists[t] = append(lists[t], int32(i))
		}
	}
	nameIndex = u32(nameIndex, off-sec[1])
	put("\x00")
	sec[2] = off
	var tris []uint32
	for t := range lists {
		tris = append(tris, t)
	}
	tris = append(tris, 1<<24-1)
	slices.Sort(tris)
	for _, t := range tris {
		h := []byte{byte(t >> 16), byte(t >> 8), byte(t)}
		postIndex = u32(u32(append(postIndex, h...), len(lists[t])), off-sec[2])
		last := int32(-1)
		for _, id := range lists[t] {
			h = binary.AppendUvarint(h, uint64(id-last))
			last = id
		}
		put(string(append(h, 0)))
	}
	sec[3] = off
	put(string(nameIndex))
	sec[4] = off
	put(string(postIndex))
	for _, o := range sec {
		put(string(u32(nil, o)))
		if o > 2<<30 {
			c.Count("offsets_above_2GB", 1)
		}
	}
	put(trailer1)
	if err := w.Flush(); err != nil {
		harness("%v", err)
	}
	f.Close()
	c.Count("bytes_written", off)
	what := fmt.Sprintf("old index with %d names of %d bytes", n, size)
	ix := index.Open(file)
	defer ix.Close()
	for _, i := range c.sampleIDs(n, 1000, size+1) {
		if got := ix.Name(i).String(); got != longName(i, size) {
			c.Fail("%s: Name(%d) = %s..., want %s...", what, i, got[:min(20, len(got))], longName(i, size)[:20])
		}
		c.Count("names_compared", 1)
	}
	for t, want := range lists {
		if got := ix.PostingList(t); !same32(got, want) {
			c.Fail("%s: list of %q: %s, want %s", what, tri3(t), ints(got), ints(want))
		}
		c.Count("lists_compared", 1)
	}
	wl := newWorld(c, "big/w")
	wl.write("t/x.txt", "hello Before\n")
	wl.idx = file
	wl.must("cindex", filepath.Join(wl.tree, "t"))
	docs := []doc{{filepath.Join(wl.tree, "t/x.txt"), "hello Before\n"}}
	first := 0
	if docs[0].name < "/b/" {
		first = 1
	}
	c.lookBig(file, n, size, first, docs, text)
	r := wl.must("csearch", "-h", "hello")
	if want := "hello Before\n"; string(r.out) != want {
		c.Fail("csearch on an updated old index with %d MB of names: %q, want %q\n%s", total>>20, tailStr(string(r.out)), want, r.err)
	}
	c.Count("searches", 1)
}

// bigSpill indexes files of random text until the posting lists exceed 4 GB.
func (c *C) bigSpill() {
	dir := c.Dir("big")
	defer os.RemoveAll(dir)
	c.room(dir, 24<<30)
	limit := int64(4400 << 20)
	if c.Case%8 == 7 {
		limit = int64(2200+c.IntN(1000)) << 20
	}
	// The files: each 1000 come from a generator of their own.
	const per = 1000
	seed := c.Uint64()
	type batch struct {
		id   int
		text [per][]byte
		tris [per][]uint32 // those that are sampled
	}
	gen := func(id int) *batch {
		b := &batch{id: id}
		r := rand.New(rand.NewPCG(seed, uint64(id)))
		all := make([]byte, 0, per*64)
		for k := range b.text {
			start := len(all)
			for len(all)-start < 40 {
				x := r.Uint64()
				y := func(sh, base, n int) byte { return byte(base + int(x>>sh&0xffff)%n) }
				switch x & 7 {
				case 0, 1, 2:
					all = append(all, y(3, 1, 127))
				case 3, 4:
					all = append(all, y(3, 0xc2, 30), y(19, 0x80, 64))
				case 5, 6:
					all = append(all, y(3, 0xe1, 12), y(19, 0x80, 64), y(35, 0x80, 64))
				case 7:
					all = append(all, y(3, 0xf1, 3), y(19, 0x80, 64), y(35, 0x80, 64), y(48, 0x80, 64))
				}
			}
			b.text[k] = all[start:len(all):len(all)]
			t := b.text[k]
			for i := 0; i+3 <= len(t); i++ {
				if tri := uint32(t[i])<<16 | uint32(t[i+1])<<8 | uint32(t[i+2]); sampled(tri) && !slices.Contains(b.tris[k], tri) {
					b.tris[k] = append(b.tris[k], tri)
				}
			}
		}
		return b
	}
	const workers = 3
	var ch [workers]chan *batch
	quit := make(chan bool)
	defer close(quit)
	for w := range ch {
		ch[w] = make(chan *batch, 4)
		go func() {
			for id := w; ; id += workers {
				select {
				case ch[w] <- gen(id):
				case <-quit:
					return
				}
			}
		}()
	}
	file := filepath.Join(dir, "idx")
	ix := index.Create(file)
	ix.AddRoots([]index.Path{index.MakePath("/b")})
	name := func(i int) string { return fmt.Sprintf("/b/%08d", i) }
	n, entries := 0, 0
	lists := map[uint32][]int32{}
	rd := bytes.NewReader(nil)
	tmp := os.Getenv("TMPDIR")
	spilled := func() (m int64) {
		ents, _ := os.ReadDir(tmp)
		for _, e := range ents {
			if st, err := e.Info(); err == nil {
				m = max(m, st.Size())
			}
		}
		return
	}
	for id := 0; ; id++ {
		b := <-ch[id%workers]
		for k, t := range b.text {
			rd.Reset(t)
			if err := ix.Add(name(n), rd); err != nil {
				c.Fail("Add: %v", err)
			}
			for _, tri := range b.tris[k] {
				lists[tri] = append(lists[tri], int32(n))
				entries++
			}
			n++
		}
		if id%100 == 0 && spilled() > limit {
			break
		}
		if n > 60e6 {
			harness("%d files, but only %d bytes in temporary files", n, spilled())
		}
	}
	c.Sample("%d files of random text, spilled to files of up to %d bytes", n, spilled())
	c.Seen("spill", n)
	c.Count("bytes_written", int(spilled()))
	ix.Flush()
	what := fmt.Sprintf("index of %d files with %d GB of posting lists", n, limit>>30)
	b := c.openBig(file)
	defer b.f.Close()
	if int(b.off[3]) != n {
		c.Fail("%s: it has %d names", what, b.off[3])
	}
	for range 500 {
		i := c.IntN(n)
		if got := b.name(i, 32); got != name(i) {
			c.Fail("%s: in the file, name %d is %q, want %q", what, i, got, name(i))
		}
		c.Count("names_compared", 1)
	}
	r := index.Open(file)
	defer r.Close()
	left := len(lists)
	for _, e := range b.entries() {
		if !sampled(e.tri) || e.tri == 1<<24-1 {
			continue
		}
		want := lists[e.tri]
		if got := b.list(e); !slices.Equal(got, want) {
			c.Fail("%s: in the file, the list of %06x is %s, want %s", what, e.tri, ints(got), ints(want))
		}
		if got := r.PostingList(e.tri); !same32(got, want) {
			c.Fail("%s: list of %06x: %s, want %s", what, e.tri, ints(got), ints(want))
		}
		c.Count("lists_compared", 2)
		left--
	}
	if left != 0 {
		c.Fail("%s: %d lists are missing", what, left)
	}
}

func sampled(tri uint32) bool { return tri*2654435761>>16%256 == 0 }

func tailStr(s string) string {
	if len(s) > 200 {
		return "..." + s[len(s)-200:]
	}
	return s
}
