package main

// Independent reading and writing of index files, following the description
// of the format at the top of index/read.go (with zero gamma-coded as 16).

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

type refIndex struct {
	version int
	roots   []string
	names   []string
	tri     []uint32 // in file order
	posts   [][]int32
	offs    []int // offset of each list in the file
	entOff  []int // offset of each index entry in the file
}

type bitReader struct {
	d   []byte
	pos int // in bits
}

func (b *bitReader) bit() (int, bool) {
	if b.pos>>3 >= len(b.d) {
		return 0, false
	}
	v := int(b.d[b.pos>>3]>>(b.pos&7)) & 1
	b.pos++
	return v, true
}

func (b *bitReader) gamma() (int, bool) {
	lg := 0
	for {
		v, ok := b.bit()
		if !ok || lg > 62 {
			return 0, false
		}
		if v == 1 {
			break
		}
		lg++
	}
	x := 1 << lg
	for i := 0; i < lg; i++ {
		v, ok := b.bit()
		if !ok {
			return 0, false
		}
		x |= v << i
	}
	if x == 16 {
		return 0, true
	}
	if x > 16 {
		x--
	}
	return x, true
}

// readDeltas decodes one posting list (after its trigram), until the zero or limit entries.
func readDeltas(version int, d []byte, limit int) (ids []int32, ok bool) {
	id := int32(-1)
	if version == 1 {
		for {
			v, n := binary.Uvarint(d)
			if n <= 0 {
				return ids, false
			}
			d = d[n:]
			if v == 0 {
				return ids, true
			}
			id += int32(v)
			ids = append(ids, id)
			if len(ids) > limit {
				return ids, false
			}
		}
	}
	br := bitReader{d: d}
	for {
		v, ok := br.gamma()
		if !ok {
			return ids, false
		}
		if v == 0 {
			return ids, true
		}
		id += int32(v)
		ids = append(ids, id)
		if len(ids) > limit {
			return ids, false
		}
	}
}

const (
	trailer1 = "\ncsearch trailr\n"
	trailer2 = "\ncsearch trlr 2\n"
)

func decodeIndex(d []byte) (ri *refIndex, err error) {
	defer func() {
		if e := recover(); e != nil {
			ri, err = nil, fmt.Errorf("decoding index: %v", e)
		}
	}()
	ri = &refIndex{}
	switch {
	case bytes.HasSuffix(d, []byte(trailer2)):
		ri.version = 2
	case bytes.HasSuffix(d, []byte(trailer1)):
		ri.version = 1
		return decodeV1(ri, d)
	default:
		return nil, fmt.Errorf("no trailer")
	}
	if !bytes.HasPrefix(d, []byte("csearch index 2\n")) {
		return nil, fmt.Errorf("bad header %q", d[:min(16, len(d))])
	}
	n := len(d) - len(trailer2) - 64
	var off [8]int
	for i := range off {
		off[i] = int(binary.BigEndian.Uint64(d[n+8*i:]))
	}
	pathData, numPath, nameData, numName, postData, numPost, nameIndex, postIndex := off[0], off[1], off[2], off[3], off[4], off[5], off[6], off[7]
	list := func(p []byte, count int, starts func(i, at int) error) ([]string, error) {
		var out []string
		last := ""
		at := 0
		for i := 0; i < count; i++ {
			if starts != nil {
				if err := starts(i, at); err != nil {
					return nil, err
				}
			}
			pre, w := binary.Uvarint(p[at:])
			at += w
			l, w2 := binary.Uvarint(p[at:])
			at += w2
			if w <= 0 || w2 <= 0 || int(pre) > len(last) {
				return nil, fmt.Errorf("bad path entry %d", i)
			}
			if starts != nil && i%16 == 0 && pre != 0 {
				return nil, fmt.Errorf("name %d has a prefix", i)
			}
			last = last[:pre] + string(p[at:at+int(l)])
			at += int(l)
			out = append(out, last)
		}
		for ; at < len(p); at++ {
			if p[at] != 0 {
				return nil, fmt.Errorf("garbage after path list")
			}
		}
		return out, nil
	}
	if ri.roots, err = list(d[pathData:nameData], numPath, nil); err != nil {
		return nil, fmt.Errorf("roots: %v", err)
	}
	ri.names, err = list(d[nameData:postData], numName, func(i, at int) error {
		if i%16 == 0 {
			if got := int(binary.BigEndian.Uint64(d[nameIndex+i/16*8:])); got != at {
				return fmt.Errorf("name index entry %d is %d, want %d", i/16, got, at)
			}
		}
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("names: %v", err)
	}
	last := int64(-1)
	ended := false
	for blk := postIndex; blk < n; blk += 256 {
		b := d[blk:min(blk+256, n)]
		if len(b) < 256 {
			return nil, fmt.Errorf("posting index is not a multiple of 256 bytes")
		}
		o := 0
		at := 0
		for len(b)-at >= 3 {
			t := uint32(b[at])<<16 | uint32(b[at+1])<<8 | uint32(b[at+2])
			if t == 0 {
				break
			}
			if ended {
				return nil, fmt.Errorf("entry %06x after the end marker", t)
			}
			ent := blk + at
			count, w := binary.Uvarint(b[at+3:])
			delta, w2 := binary.Uvarint(b[at+3+w:])
			if w <= 0 || w2 <= 0 {
				return nil, fmt.Errorf("bad index entry for %06x", t)
			}
			at += 3 + w + w2
			o += int(delta)
			if int64(t) <= last {
				return nil, fmt.Errorf("trigram %06x after %06x in the posting index", t, last)
			}
			last = int64(t)
			p := d[postData+o : nameIndex]
			if uint32(p[0])<<16|uint32(p[1])<<8|uint32(p[2]) != t {
				return nil, fmt.Errorf("list of %06x starts with %x", t, p[:3])
			}
			ids, ok := readDeltas(2, p[3:], numName+1)
			if !ok || len(ids) != int(count) {
				return nil, fmt.Errorf("list of %06x has %d entries, recorded %d", t, len(ids), count)
			}
			for _, id := range ids {
				if int(id) >= numName || id < 0 {
					return nil, fmt.Errorf("list of %06x has file %d of %d", t, id, numName)
				}
			}
			if t == 1<<24-1 {
				ended = true
				if count != 0 {
					return nil, fmt.Errorf("end marker has entries")
				}
			}
			ri.tri = append(ri.tri, t)
			ri.posts = append(ri.posts, ids)
			ri.offs = append(ri.offs, postData+o)
			ri.entOff = append(ri.entOff, ent)
		}
		for ; at < len(b); at++ {
			if b[at] != 0 {
				return nil, fmt.Errorf("garbage in the padding of the posting index")
			}
		}
	}
	if !ended {
		return nil, fmt.Errorf("no end marker in the posting index")
	}
	if numPost != len(ri.tri) {
		return nil, fmt.Errorf("trailer says %d posting lists, found %d", numPost, len(ri.tri))
	}
	return ri, nil
}

func decodeV1(ri *refIndex, d []byte) (*refIndex, error) {
	n := len(d) - len(trailer1) - 20
	var off [5]int
	for i := range off {
		off[i] = int(binary.BigEndian.Uint32(d[n+4*i:]))
	}
	strs := func(p []byte) []string {
		var out []string
		for {
			i := bytes.IndexByte(p, 0)
			if i == 0 {
				return out
			}
			out = append(out, string(p[:i]))
			p = p[i+1:]
		}
	}
	ri.roots = strs(d[off[0]:])
	ri.names = strs(d[off[1]:])
	for at := off[4]; at+11 <= n; at += 11 {
		t := uint32(d[at])<<16 | uint32(d[at+1])<<8 | uint32(d[at+2])
		count := int(binary.BigEndian.Uint32(d[at+3:]))
		o := int(binary.BigEndian.Uint32(d[at+7:]))
		ids, ok := readDeltas(1, d[off[2]+o+3:], len(ri.names)+1)
		if !ok || len(ids) != count {
			return nil, fmt.Errorf("v1 list of %06x", t)
		}
		ri.tri = append(ri.tri, t)
		ri.posts = append(ri.posts, ids)
	}
	return ri, nil
}

// A doc is a file for an index: its indexed name and contents.
type doc struct {
	name string
	data string
}

func pathKey(p string) string { return strings.ReplaceAll(p, "/", "\x00") }

func refComparePaths(p, q string) int { return strings.Compare(pathKey(p), pathKey(q)) }

func sortPaths(l []string) {
	sort.Slice(l, func(i, j int) bool { return refComparePaths(l[i], l[j]) < 0 })
}

func sortDocs(l []doc) {
	sort.SliceStable(l, func(i, j int) bool { return refComparePaths(l[i].name, l[j].name) < 0 })
}

// refUnder reports whether path p is root or inside it.
func refUnder(p, root string) bool {
	r := strings.TrimRight(root, "/")
	return p == root || strings.HasPrefix(p, r+"/") || strings.HasPrefix(p, r+"\x01")
}

// refRoots returns the roots in order with those inside others dropped.
func refRoots(l []string) []string {
	l = append([]string(nil), l...)
	sortPaths(l)
	var out []string
	for _, p := range l {
		drop := false
		for _, q := range out {
			if p == q || strings.HasPrefix(p, strings.TrimRight(q, "/")+"/") {
				drop = true
			}
		}
		if !drop {
			out = append(out, p)
		}
	}
	return out
}

// A triSet is a sorted list of trigrams.
func triList(data string) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	for i := 0; i+3 <= len(data); i++ {
		t := uint32(data[i])<<16 | uint32(data[i+1])<<8 | uint32(data[i+2])
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// postings returns the expected posting lists of the documents.
func postings(docs []doc) map[uint32][]int32 {
	m := map[uint32][]int32{}
	memo := map[string][]uint32{}
	for id, d := range docs {
		l, ok := memo[d.data]
		if !ok {
			l = triList(d.data)
			memo[d.data] = l
		}
		for _, t := range l {
			m[t] = append(m[t], int32(id))
		}
	}
	return m
}

// encodeV1 writes an index in the old format.
func encodeV1(roots []string, docs []doc) []byte {
	var b bytes.Buffer
	u32 := func(w *bytes.Buffer, v int) {
		var x [4]byte
		binary.BigEndian.PutUint32(x[:], uint32(v))
		w.Write(x[:])
	}
	b.WriteString("csearch index 1\n")
	var off [5]int
	off[0] = b.Len()
	for _, r := range roots {
		b.WriteString(r + "\x00")
	}
	b.WriteByte(0)
	off[1] = b.Len()
	var nameIndex bytes.Buffer
	for _, d := range docs {
		u32(&nameIndex, b.Len()-off[1])
		b.WriteString(d.name + "\x00")
	}
	u32(&nameIndex, b.Len()-off[1])
	b.WriteByte(0)
	off[2] = b.Len()
	posts := postings(docs)
	var tris []uint32
	for t := range posts {
		tris = append(tris, t)
	}
	sort.Slice(tris, func(i, j int) bool { return tris[i] < tris[j] })
	tris = append(tris, 1<<24-1)
	var postIndex bytes.Buffer
	var v [10]byte
	for _, t := range tris {
		postIndex.Write([]byte{byte(t >> 16), byte(t >> 8), byte(t)})
		u32(&postIndex, len(posts[t]))
		u32(&postIndex, b.Len()-off[2])
		b.Write([]byte{byte(t >> 16), byte(t >> 8), byte(t)})
		last := int32(-1)
		for _, id := range posts[t] {
			b.Write(v[:binary.PutUvarint(v[:], uint64(id-last))])
			last = id
		}
		b.WriteByte(0)
	}
	off[3] = b.Len()
	b.Write(nameIndex.Bytes())
	off[4] = b.Len()
	b.Write(postIndex.Bytes())
	for _, o := range off {
		u32(&b, o)
	}
	b.WriteString(trailer1)
	return b.Bytes()
}
