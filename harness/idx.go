package main

import (
	"fmt"
	"io"
	"os"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/google/codesearch/index"
)

// chunkReader delivers data in pieces chosen by next; it returns the data of
// the last piece together with io.EOF if eofWithData.
type chunkReader struct {
	data        string
	next        func(left int) int
	eofWithData bool
	errAt       int // if > 0, fail after this many bytes
	err         error
	done        int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.err != nil && r.done >= r.errAt {
		return 0, r.err
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if r.next != nil {
		n = max(1, min(n, r.next(n)))
	}
	n = min(n, len(p))
	if r.err != nil {
		n = min(n, max(1, r.errAt-r.done))
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	r.done += n
	if len(r.data) == 0 && r.eofWithData {
		return n, io.EOF
	}
	return n, nil
}

// splitter returns a random way to split reads.
func splitter(c *C) func(int) int {
	switch c.IntN(6) {
	case 0:
		return nil
	case 1:
		return func(int) int { return 1 }
	case 2:
		n := 1 + c.IntN(9)
		return func(int) int { return n }
	case 3:
		return func(left int) int { return left/2 + 1 }
	case 4:
		n := 4096 << c.IntN(5)
		return func(int) int { return n }
	default:
		return func(int) int { return 1 + c.IntN(5000) }
	}
}

// buildIndex indexes the documents with the code under test.
func buildIndex(c *C, file string, roots []string, docs []doc, split bool) {
	ix := index.Create(file)
	var rp []index.Path
	for _, r := range roots {
		rp = append(rp, index.MakePath(r))
	}
	ix.AddRoots(rp)
	for _, d := range docs {
		r := &chunkReader{data: d.data}
		if split {
			r.next = splitter(c)
			if len(d.data) > 1<<16 && c.IntN(4) > 0 {
				r.next = nil
			}
			r.eofWithData = c.Chance(4)
		}
		if err := ix.Add(d.name, r); err != nil {
			c.Fail("Add(%q, %d bytes): %v", d.name, len(d.data), err)
		}
	}
	ix.Flush()
	c.Count("indexes_built", 1)
}

func paths(seq func(func(index.Path) bool)) []string {
	var out []string
	for p := range seq {
		out = append(out, p.String())
	}
	return out
}

func diffStrings(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(none)", "(none)"
		if i < len(got) {
			g = fmt.Sprintf("%q", got[i])
		}
		if i < len(want) {
			w = fmt.Sprintf("%q", want[i])
		}
		if g != w {
			return fmt.Sprintf("%d entries, want %d; entry %d is %s, want %s", len(got), len(want), i, g, w)
		}
	}
	return ""
}

// numNames returns the number of files of an open index.
func numNames(ix *index.Index) int {
	return len(ix.PostingQuery(&index.Query{Op: index.QAll}))
}

func same32(got []int, want []int32) bool {
	if len(got) != len(want) {
		return false
	}
	for i, g := range got {
		if int32(g) != want[i] {
			return false
		}
	}
	return true
}

// checkIndex compares an index file with the documents it must describe,
// through the public API and by decoding the file independently.
func checkIndex(c *C, what, file string, roots []string, docs []doc) *refIndex {
	ix := index.Open(file)
	if d := diffStrings(paths(ix.Roots().All()), roots); d != "" {
		c.Fail("%s: roots: %s", what, d)
	}
	var names []string
	for _, d := range docs {
		names = append(names, d.name)
	}
	n := numNames(ix)
	if n != len(names) {
		c.Fail("%s: index has %d files, want %d; %s", what, n, len(names), diffStrings(paths(ix.Names(0, n)), names))
	}
	if n > 0 {
		if d := diffStrings(paths(ix.Names(0, n)), names); d != "" {
			c.Fail("%s: names: %s", what, d)
		}
	}
	c.Count("names_compared", n)
	want := postings(docs)
	entries := 0
	probe := func(t uint32) {
		if got := ix.PostingList(t); !same32(got, want[t]) {
			c.Fail("%s: posting list of trigram %q: %s, want %s", what, tri3(t), ints(got), ints(want[t]))
		}
	}
	for t, l := range want {
		entries += len(l)
		probe(t)
		// absent neighbours
		for _, u := range []uint32{t - 1, t + 1} {
			if u < 1<<24-1 && u > 0 && want[u] == nil {
				probe(u)
			}
		}
	}
	for range 200 {
		if t := uint32(c.IntN(1<<24 - 2)); t > 0 {
			probe(t)
		}
	}
	probe(1)
	probe(1<<24 - 2)
	c.Count("posting_entries_compared", entries)
	c.Count("posting_lists_compared", len(want))
	data, err := os.ReadFile(file)
	if err != nil {
		harness("%v", err)
	}
	ri, err := decodeIndex(data)
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	if d := diffStrings(ri.names, names); d != "" {
		c.Fail("%s: decoded names: %s", what, d)
	}
	if d := diffStrings(ri.roots, roots); d != "" {
		c.Fail("%s: decoded roots: %s", what, d)
	}
	lists := 0
	for i, t := range ri.tri {
		if t == 1<<24-1 || len(ri.posts[i]) == 0 {
			continue // the format allows (but rarely has) empty lists
		}
		lists++
		if !slices.Equal(ri.posts[i], want[t]) {
			c.Fail("%s: decoded posting list of trigram %q: %s, want %s", what, tri3(t), ints(ri.posts[i]), ints(want[t]))
		}
	}
	if lists != len(want) {
		c.Fail("%s: index has %d posting lists, want %d", what, lists, len(want))
	}
	return ri
}

func tri3(t uint32) string { return string([]byte{byte(t >> 16), byte(t >> 8), byte(t)}) }

func ints[T int | int32](l []T) string {
	if len(l) > 30 {
		return fmt.Sprint(l[:30]) + fmt.Sprintf("...(%d)", len(l))
	}
	return fmt.Sprint(l)
}

// --- generators of names and contents

var nameParts = []string{"a", "b", "foo", "foo.bar", "foo-x", "foobar", "x", "y.go", "zz", "é", "世界", "A", "foo bar", "a b", "z~z", "m#n", "README", "lib", "src", "0", "~", "{}", "foo!", "foo,", "foo+", "foo+bar", "foo$", "foo%20", "foo&", "foo's", "foo(1)", "foo*", "foo\"", "foo.", "foo.bar.baz", "a+b"}

// genNames makes n distinct file names under the roots, none a prefix
// directory of another, sorted.
func genNames(c *C, roots []string, n int) []string {
	files := map[string]bool{}
	dirs := map[string]bool{}
	huge := c.Chance(30) // a name longer than a write buffer
	for try := 0; len(files) < n && try < 20*n+100; try++ {
		p := strings.TrimRight(pick(c, roots), "/")
		depth := 1 + c.IntN(4)
		for i := range depth {
			part := pick(c, nameParts)
			if c.Chance(3) || n > 100 {
				part += fmt.Sprint(c.IntN(10 + n/3))
			}
			if i == depth-1 && c.Chance(40) {
				part += strings.Repeat("x", c.IntN(200))
			}
			if huge && i == depth-1 {
				huge = false
				part += strings.Repeat(pick(c, nameParts), 20000+c.IntN(100000))
			}
			p += "/" + part
		}
		ok := !files[p] && !dirs[p]
		for i := 1; i < len(p); i++ {
			if p[i] == '/' && files[p[:i]] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		files[p] = true
		for i := 1; i < len(p); i++ {
			if p[i] == '/' {
				dirs[p[:i]] = true
			}
		}
	}
	var out []string
	for f := range files {
		out = append(out, f)
	}
	sortPaths(out)
	return out
}

var vocab = []string{"abc", "abcd", "bcde", "hello", "world", "func", "main", "return", "if err != nil", "int", "Package", "世界", "é", "naïve", "\U0001F600", "foo", "bar", "foobar", "x", "", "Kelvin\u212A", "ſs", "zzz", "}}}", "\t\t", "0000", "   "}

// genContent makes a short text from a shared vocabulary.
func genContent(c *C, size int) string {
	var b strings.Builder
	for b.Len() < size {
		b.WriteString(pick(c, vocab))
		switch c.IntN(6) {
		case 0:
			b.WriteByte('\n')
		case 1, 2, 3:
			b.WriteByte(' ')
		case 4:
			fmt.Fprintf(&b, "%d", c.IntN(10000))
		}
		if c.Chance(12) {
			b.WriteByte('\n')
		}
	}
	s := b.String()
	// no line too long
	if i := longestLine(s); i > 1900 {
		s = breakLines(s, 80)
	}
	return s
}

// anyText makes a text of about size bytes of any characters a text can have.
func anyText(c *C, size int) string {
	var b strings.Builder
	if c.Chance(3) {
		b.WriteString(pick(c, []string{"\ufeff", "\ufeff\ufeff", "\ufeff\n", "#!", "\r\n", "\x1b[0m", "\x7f", "\u2028", "\n\n"}))
	}
	kind := c.IntN(8)
	for b.Len() < size {
		k := kind
		if k >= 6 {
			k = c.IntN(6)
		}
		switch k {
		case 0:
			b.WriteByte(byte(1 + c.IntN(0x7f)))
		case 1:
			b.WriteByte(byte(1 + c.IntN(0x20)))
		case 2:
			b.WriteRune(rune(0x80 + c.IntN(0x800-0x80)))
		case 3:
			if r := rune(0x800 + c.IntN(0x10000-0x800)); utf8.ValidRune(r) {
				b.WriteRune(r)
			}
		case 4:
			b.WriteRune(rune(0x10000 + c.IntN(0x110000-0x10000)))
		case 5:
			b.WriteString(strings.Repeat(pick(c, []string{"\r", "\t", " ", "\r\n", "\n", "a", "\x01", "\ufeff", "é", "\u3000", "A"}), c.IntN(9)))
		}
		if c.Chance(40) {
			b.WriteByte('\n')
		}
	}
	s := b.String()
	if longestLine(s) > 1900 {
		s = breakLines(s, 80)
	}
	return s
}

func longestLine(s string) int {
	m, start := 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\n' {
			m = max(m, i-start)
			start = i + 1
		}
	}
	return m
}

func breakLines(s string, n int) string {
	var b strings.Builder
	l := 0
	for _, r := range s {
		if r == '\n' {
			l = 0
		} else if l++; l > n {
			b.WriteByte('\n')
			l = 1
		}
		b.WriteRune(r)
	}
	return b.String()
}

// exactTrigrams makes a text with exactly n distinct trigrams (n >= 1).
func exactTrigrams(c *C, n int) string {
	seen := map[uint32]bool{}
	var b []byte
	line := 0
	for len(seen) < n {
		var x byte
		if line++; line > 60+c.IntN(60) {
			x, line = '\n', 0
		} else {
			x = byte(' ' + c.IntN(95))
		}
		b = append(b, x)
		if k := len(b); k >= 3 {
			seen[uint32(b[k-3])<<16|uint32(b[k-2])<<8|uint32(b[k-1])] = true
		}
	}
	return string(b)
}
