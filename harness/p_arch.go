package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"time"
)

// The harness of C39 is itself built for a 32-bit processor, and so are the
// commands in Work/bin; Work/bin64 holds those for the native one.

func init() {
	register(&Prop{ID: "C39", Quick: 800, Thorough: 24000, Run: runC39, Stall: 150 * time.Second,
		Rule:     "packages and commands built for a 32-bit processor: every fourth case builds, merges and updates indexes with the 32-bit and the 64-bit commands from the same trees (files compared byte for byte), and searches each other's indexes (outputs compared with each other and the reference); indexes around and above 2 and 4 GB (holes between the sections) must be read right or refused with a message; the others run the cases of C01, C02, C03, C04, C05, C06, C07, C09, C10, C11, C14, C15, C16, C22, C25, C26, C29, C30, against the 32-bit code; non-trivial: a compared index or the inner property's own notion; distinct by content",
		Assume:   []string{"386 stands for all 32-bit processors; there is no big-endian or ARM processor here", "indexes fit into the address space (larger ones are refused with a message)"},
		MinEvent: map[string]int64{"indexes_compared": 300, "exchanged_searches": 1500, "posting_entries_compared": 100000, "queries": 10000, "huge_indexes": 20, "cases_on_32_bits": 400}})
}

var arch32 = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C14", "C15", "C16", "C22", "C25", "C26", "C29", "C30"}

func runC39(c *C) {
	if runtime.GOARCH != "386" {
		harness("built for %s", runtime.GOARCH)
	}
	k := c.Case
	if k%400 == 0 {
		c.tooBig()
	}
	if k%4 == 0 {
		c.exchange()
		return
	}
	// The inner property's own cases; those of the quick tier that take
	// long are met by chance only.
	n := k/4*3 + k%4 - 1
	p := props[arch32[n%len(arch32)]]
	c.Count("cases_on_32_bits", 1)
	c.Case = n / len(arch32)
	if c.Case > 3 || p.Quick < 200 {
		c.Case = c.IntN(p.Quick)
	}
	defer func() {
		c.Case = k
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				panic(violation{fmt.Sprintf("on a 32-bit processor, %s: %s", p.ID, v.msg)})
			}
			panic(e)
		}
	}()
	p.Run(c)
}

// exchange compares what 32-bit and 64-bit commands do with the same trees
// and with each other's indexes.
func (c *C) exchange() {
	w := newWorld(c, "w")
	tops := []string{"a", "b", "foo", "foo.bar"}
	fill := func() {
		for _, t := range tops {
			for i := range 1 + c.IntN(6) {
				w.tryWrite(fmt.Sprintf("%s/%s%d", t, w.genName(60), i), genContent(c, c.IntN(2000)))
			}
		}
		if c.Chance(2) {
			w.tryWrite("a/z.zip", string(w.genZip()))
		}
	}
	fill()
	if c.Chance(4) {
		w.bulk("b", 20)
	}
	other := *w
	other.bin = filepath.Join(c.Work, "bin64")
	other.idx = filepath.Join(w.dir, "ix", "index64")
	both := func(name string, args ...string) {
		r1, r2 := w.run(name, args...), other.run(name, args...)
		what := fmt.Sprintf("%s %q", name, args)
		if r1.code != 0 || r2.code != 0 {
			c.Fail("%s: status %d on 32 bits, %d on 64 bits\n%s\n%s", what, r1.code, r2.code, r1.err, r2.err)
		}
		a, err1 := os.ReadFile(w.idx)
		b, err2 := os.ReadFile(other.idx)
		if err1 != nil || err2 != nil {
			c.Fail("%s: no index: %v %v", what, err1, err2)
		}
		if !bytes.Equal(a, b) {
			c.Fail("%s: the index on 32 bits (%d bytes) differs from that on 64 bits (%d bytes): %s", what, len(a), len(b), firstDiff(a, b))
		}
		c.Count("indexes_compared", 1)
		c.Seen(a)
	}
	if c.Chance(4) { // start from an index in the old format
		old := encodeV1([]string{w.tree + "/a"}, refWalk(w.tree+"/a", false))
		for _, f := range []string{w.idx, other.idx} {
			if err := os.WriteFile(f, old, 0o600); err != nil {
				harness("%v", err)
			}
		}
		c.Count("v1_sources", 1)
	}
	m := &idxModel{}
	zip := c.Chance(2)
	steps := 1 + c.IntN(3)
	for step := range steps {
		if step > 0 && step < steps-1 {
			fill()
		}
		var args, roots []string
		if zip {
			args = append(args, "-zip")
		}
		for _, t := range tops {
			if c.Chance(2) {
				roots = append(roots, w.tree+"/"+t)
			}
		}
		if len(roots) == 0 {
			roots = []string{w.tree + "/foo"}
		}
		if step == 0 || step == steps-1 { // the index is that of the present tree in the end
			roots = []string{w.tree}
		}
		m.update(roots, zip)
		both("cindex", append(args, roots...)...)
	}
	// Each reads the other's.
	w.idx, other.idx = other.idx, w.idx
	for range 8 {
		var args []string
		for _, f := range []string{"-n", "-i", "-h", "-brute"} {
			if c.Chance(4) {
				args = append(args, f)
			}
		}
		if c.Chance(4) {
			args = append(args, "-f", pick(c, []string{"/a/", "foo", "zip", "[0-4]$"}))
		}
		if c.Chance(4) {
			args = append(args, pick(c, []string{"-l", "-c"}))
		}
		e := pick(c, []string{"e", "hello", "abc", "[a-z]+", "foo|bar", "return", "^", "INT", "世", "zzzz", "t$", "<", "a.*b", "func ", "(?i)Error"})
		args = append(args, e)
		r1, r2 := w.run("csearch", args...), other.run("csearch", args...)
		if r1.code != r2.code || !bytes.Equal(r1.out, r2.out) || !bytes.Equal(r1.err, r2.err) {
			c.Fail("csearch %q on the index written on the other processor: status %d on 32 bits, %d on 64 bits; output: %s\nerrors: %q and %q", args, r1.code, r2.code, firstDiff(r1.out, r2.out), r1.err, r2.err)
		}
		c.Count("exchanged_searches", 1)
	}
	want, n, _ := webWant(m.docs, "e", "")
	checkGrepRun(c, "csearch -n e on 32 bits", w.run("csearch", "-n", "e"), []byte(want), n > 0)
	if l := w.run("cindex", "-list"); !slices.Equal(bytes.Split(bytes.TrimSpace(l.out), []byte("\n"))[0], []byte(w.tree)) {
		c.Fail("cindex -list on 32 bits prints %q", l.out)
	}
}

// tooBig searches indexes that hardly fit into the address space of a 32-bit
// processor, or not at all, with both builds.
func (c *C) tooBig() {
	w := newWorld(c, "huge")
	defer os.RemoveAll(w.dir)
	for i := range 20 {
		w.write(fmt.Sprintf("a/f%d", i), fmt.Sprintf("hello %d\n", i))
	}
	w.must("cindex", w.tree)
	other := *w
	other.bin = filepath.Join(c.Work, "bin64")
	d, err := os.ReadFile(w.idx)
	if err != nil {
		harness("%v", err)
	}
	t := len(d) - 80
	off := func(i int) int64 { return int64(binary.BigEndian.Uint64(d[t+8*i:])) }
	cut := off(6) // of the name index
	base := int64(1) << 30
	sizes := []int64{base, base * 3 / 2, base*2 - 5000, base*2 - 4096, base*2 - 4095, base*2 - 100, base * 2, base*2 + 1, base*2 + 100, base * 3, base*4 - 100, base * 4, base*4 + int64(len(d)), base*4 + 4096, base * 6, base*8 + int64(len(d))}
	for _, size := range sizes {
		hole := (size - int64(len(d))) / 16 * 16
		e := slices.Clone(d)
		for _, i := range []int{6, 7} {
			binary.BigEndian.PutUint64(e[t+8*i:], uint64(off(i)+hole))
		}
		f, err := os.Create(w.idx)
		if err != nil {
			harness("%v", err)
		}
		// What is in front is a whole index that says something else.
		decoy := slices.Clone(d)
		binary.BigEndian.PutUint64(decoy[t+8*3:], 1)
		f.WriteAt(decoy, 0)
		if _, err := f.WriteAt(e[cut:], cut+hole); err != nil {
			harness("%v", err)
		}
		f.Close()
		for _, args := range [][]string{{"csearch", "-n", "hello"}, {"csearch", "-brute", "-l", "hello"}, {"cindex", "-list"}} {
			r1, r2 := w.run(args[0], args[1:]...), other.run(args[0], args[1:]...)
			what := fmt.Sprintf("%q with an index of %d bytes", args, int64(len(d))+hole)
			if r2.code != 0 || args[0] == "csearch" && bytes.Count(r2.out, []byte("\n")) != 20 {
				c.Fail("%s, on 64 bits: status %d, output %q\n%s", what, r2.code, r2.out[:min(len(r2.out), 300)], r2.err)
			}
			switch {
			case r1.code == 0 && bytes.Equal(r1.out, r2.out):
				c.Count("huge_read_on_32_bits", 1)
			case r1.code == 0 || len(r1.out) > 0 || len(r1.err) == 0:
				c.Fail("%s, on 32 bits: status %d, output %q (on 64 bits: %q)\n%s", what, r1.code, r1.out[:min(len(r1.out), 300)], r2.out[:min(len(r2.out), 300)], r1.err)
			case bytes.Contains(r1.err, []byte("goroutine ")):
				c.Fail("%s, on 32 bits: the command breaks down\n%s", what, r1.err)
			default:
				c.Count("huge_refused_on_32_bits", 1)
			}
			c.Count("huge_indexes", 1)
		}
	}
}
