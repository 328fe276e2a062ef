package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

func init() {
	register(&Prop{ID: "C28", Quick: 128, Thorough: 2500, Run: runC28,
		Rule:     "the harness and the packages under test are built with the race detector; 2 to 16 goroutines compile expressions, derive and evaluate queries, read names, check and grep on one shared open index or on indexes of their own, released together and with random scheduling points; every result is compared with the one computed alone, and any race report ends the run; non-trivial: a concurrent operation; distinct by case and expression",
		MinEvent: map[string]int64{"operations": 15000, "overlapping": 3000, "shared_index_rounds": 60}})
	register(&Prop{ID: "C32", Quick: 8, Thorough: 16, Procs: 3, Run: runC32, Stall: 240 * time.Second,
		Rule:     "corpora with one to many times as many posting entries as fit in memory (8 Mi) are indexed by cindex and its peak resident memory is measured; then the index is decoded and the entries counted per trigram; indexes of 1.5 to 2 million long names are updated under the same watch; non-trivial: a corpus that had to be spilled; distinct by size",
		Assume:   []string{"a run with few files and one with many need the same constant memory; pages of mapped files are not counted"},
		MinEvent: map[string]int64{"entries": 60_000_000, "memory_samples": 500, "spills_expected": 10, "lists_compared": 50000, "names_merged": 3_000_000}})
}

// ---- C28

type concOp struct {
	expr  string
	flags string
	kind  int
	late  bool // first done by all at once, then alone
	want  string
}

// do runs one operation on the index and describes the result.
func (op *concOp) do(ix *index.Index, docs []doc, yield func()) string {
	var b strings.Builder
	switch op.kind {
	case 0, 1: // a whole search
		re, err := regexp.Compile(op.flags + op.expr)
		if err != nil {
			return err.Error()
		}
		yield()
		post := ix.PostingQuery(index.RegexpQuery(re.Syntax))
		yield()
		var out bytes.Buffer
		g := &regexp.Grep{Regexp: re, Stdout: &out, Stderr: &out, N: true}
		for _, id := range post {
			name := ix.Name(id).String()
			g.Reader(strings.NewReader(docs[id].data), name)
			fmt.Fprintln(&out, id, name)
		}
		return out.String()
	case 2:
		for i, p := range slices.Collect(ix.Names(0, len(docs))) {
			fmt.Fprintln(&b, i, p)
			if i%16 == 0 {
				yield()
			}
		}
		for r := range ix.Roots().All() {
			fmt.Fprintln(&b, r)
		}
	case 3:
		for i := 0; i < len(op.expr)-2; i++ {
			t := uint32(op.expr[i])<<16 | uint32(op.expr[i+1])<<8 | uint32(op.expr[i+2])
			l := ix.PostingList(t)
			yield()
			fmt.Fprintln(&b, t, l, ix.PostingAnd(l, 0x20<<16|0x20<<8|0x20), ix.PostingOr(l, t+1))
		}
	case 4:
		for id := range docs {
			fmt.Fprintln(&b, ix.Name(len(docs)-1-id))
		}
	case 5:
		re, err := regexp.Compile("(?i)" + op.expr)
		if err != nil {
			return err.Error()
		}
		for i, d := range docs {
			fmt.Fprintln(&b, i, re.MatchString(d.data, true, true), re.Match([]byte(d.data), true, true))
			yield()
		}
	case 6:
		re, err := regexp.Compile(op.flags + op.expr)
		if err != nil {
			return err.Error()
		}
		b.WriteString(index.RegexpQuery(re.Syntax).String())
	}
	return b.String()
}

func runC28(c *C) {
	w := newWorld(c, "w")
	gen := newRegexGen(c.Rand)
	var ops []concOp
	for range 12 {
		e, ast := gen.gen("(?m)")
		if c.Chance(4) {
			e = pick(c, directedExprs)
			ast = mustParse("(?m)" + e)
		}
		ops = append(ops, concOp{expr: e, flags: pick(c, []string{"(?m)", "(?i)(?m)"}), kind: c.IntN(7), late: c.Chance(2)})
		for range 2 {
			t := string(textFor(c.Rand, ast, gen.alpha, 1+c.IntN(8), 200))
			if textPolicy(t) == unspecified {
				t = "x"
			}
			w.tryWrite(fmt.Sprintf("d%d/f%d", c.IntN(4), c.IntN(100)), t)
		}
	}
	for i := range c.IntN(40) {
		t := genContent(c, 200)
		if textPolicy(t) == unspecified {
			t = "x"
		}
		w.tryWrite(fmt.Sprintf("x/f%d", i), t)
	}
	w.must("cindex", w.tree)
	m := &idxModel{}
	m.update([]string{w.tree}, false)
	// A second index, so that goroutines with indexes of their own mix.
	w2 := filepath.Join(w.dir, "ix", "other")
	data, err := os.ReadFile(w.idx)
	if err != nil {
		c.Fail("no index: %v", err)
	}
	if err := os.WriteFile(w2, data, 0o600); err != nil {
		harness("%v", err)
	}
	alone := index.Open(w.idx)
	for i := range ops {
		if !ops[i].late {
			ops[i].want = ops[i].do(alone, m.docs, func() {})
		}
	}
	type answer struct {
		op    int
		got   string
		among int
	}
	var mu sync.Mutex
	var answers []answer
	shared := index.Open(w.idx)
	for range 3 {
		n := 2 + c.IntN(15)
		procs := 1 + c.IntN(8)
		runtime.GOMAXPROCS(procs)
		var wg sync.WaitGroup
		var running, overlapped, total atomic.Int64
		start := make(chan bool)
		errs := make(chan string, n)
		type work struct {
			own   string // file of the own index, if any
			order []int
			yield int
		}
		for range n {
			k := work{yield: c.IntN(5)}
			if c.Chance(3) {
				k.own = pick(c, []string{w.idx, w2})
			} else {
				c.Count("shared_index_rounds", 1)
			}
			for range 14 {
				k.order = append(k.order, c.IntN(len(ops)))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						errs <- fmt.Sprint("panic: ", e)
					}
				}()
				yield := func() {
					for range k.yield {
						runtime.Gosched()
					}
				}
				<-start
				ix := shared
				if k.own != "" {
					ix = index.Open(k.own)
				}
				for _, i := range k.order {
					if running.Add(1) > 1 {
						overlapped.Add(1)
					}
					got := ops[i].do(ix, m.docs, yield)
					running.Add(-1)
					total.Add(1)
					if ops[i].late {
						mu.Lock()
						answers = append(answers, answer{i, got, n})
						mu.Unlock()
					} else if got != ops[i].want {
						errs <- fmt.Sprintf("operation %d with %q among %d goroutines: %s", ops[i].kind, ops[i].expr, n, firstDiff([]byte(got), []byte(ops[i].want)))
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		c.Count("operations", int(total.Load()))
		c.Count("overlapping", int(overlapped.Load()))
		select {
		case e := <-errs:
			c.Fail("%s", e)
		default:
		}
		c.Sample("%d goroutines on %d processors: %d operations, %d started while others ran", n, procs, total.Load(), overlapped.Load())
	}
	for i := range ops {
		if ops[i].late {
			ops[i].want = ops[i].do(alone, m.docs, func() {})
		}
	}
	for _, a := range answers {
		if op := ops[a.op]; a.got != op.want {
			c.Fail("operation %d with %q among %d goroutines, before it was done alone: %s", op.kind, op.expr, a.among, firstDiff([]byte(a.got), []byte(op.want)))
		}
	}
	c.Count("done_first_by_many", len(answers))
	for i := range ops {
		c.Seen(c.Case, ops[i].kind, ops[i].expr)
	}
}

// ---- C32

// manyEntries writes files with at least the wanted number of posting entries
// and reports how many entries each list has, and all, and the files.
func (w *world) manyEntries(prefix string, want float64) (lists map[uint32]int, entries, files int) {
	// Files of up to 20000 distinct trigrams, of 14 characters each.
	c := w.c
	lists = map[uint32]int{}
	var buf []byte
	seen := make([]uint32, 1<<24)
	for float64(entries) < want {
		files++
		buf = buf[:0]
		n := 0
		add := func(b byte) {
			buf = append(buf, b)
			if i := len(buf) - 3; i >= 0 {
				t := uint32(buf[i])<<16 | uint32(buf[i+1])<<8 | uint32(buf[i+2])
				if seen[t] != uint32(files) {
					seen[t] = uint32(files)
					lists[t]++
					n++
				}
			}
		}
		x := c.Uint32()
		for n < 19000 {
			x = x*1664525 + 1013904223
			add(' ' + byte(x>>16*95>>16))
			if len(buf)%61 == 60 {
				add('\n')
			}
		}
		entries += n
		if !w.tryWrite(fmt.Sprintf("%sd%d/f%d", prefix, files/100, files), string(buf)) {
			harness("writing the corpus")
		}
	}
	return lists, entries, files
}

func runC32(c *C) {
	const npost = 8 << 20
	w := newWorld(c, "w")
	if c.Case%4 == 3 {
		c.manyNames(w)
		return
	}
	// Case k has k+1 times (0.4, 1.3, 2.6, 4 ...) the entries that fit.
	sizes := []float64{12, 0.4, 2.6, 1.02, 4, 1.7, 8, 0.99, 6, 1.3, 3.3, 2}
	want := sizes[(c.Case-c.Case/4)%len(sizes)] * npost
	lists, entries, files := w.manyEntries("", want)
	anon, polls := int64(0), 0
	r := runCmdWatch(c, w.cmd("cindex", w.tree), 200*time.Second, func(pid int) {
		if mb := anonMB(pid); mb > 0 {
			polls++
			anon = max(anon, mb)
		}
	})
	if r.code != 0 {
		c.Fail("cindex of %d files: exit status %d\n%s", files, r.code, r.err)
	}
	c.Count("memory_samples", polls)
	c.Count("entries", entries)
	spills := entries / npost
	c.Count("spills_expected", spills)
	c.Sample("%d files, %d posting entries (%.1f times what fits): peak memory %d MB", files, entries, float64(entries)/npost, anon)
	// 64 MB of entries, as much for sorting, the trigram set, buffers and
	// garbage; what is mapped from files is not memory the process needs.
	const limit = 300
	c.Count("anonymous_mb", int(anon))
	if anon > limit {
		c.Fail("cindex needed %d MB of memory (mapped files not counted) for %d posting entries in %d files, limit %d MB", anon, entries, files, limit)
	}
	if spills > 0 {
		c.Seen(entries)
	}
	data, err := os.ReadFile(w.idx)
	if err != nil {
		c.Fail("%v", err)
	}
	ri, err := decodeIndex(data)
	if err != nil {
		c.Fail("the index of %d files: %v", files, err)
	}
	if len(ri.names) != files {
		c.Fail("%d files are indexed, want %d", len(ri.names), files)
	}
	got := 0
	for i, l := range ri.posts {
		t := ri.tri[i]
		got += len(l)
		c.Count("lists_compared", 1)
		if lists[t] != len(l) {
			c.Fail("trigram %q: %d files in the index, want %d", tri3(t), len(l), lists[t])
		}
	}
	if got != entries {
		c.Fail("%d posting entries in the index, want %d", got, entries)
	}
	os.RemoveAll(w.dir)
}

// manyNames updates an index that has very many names, long but much alike.
func (c *C) manyNames(w *world) {
	n := 1_500_000 + c.IntN(500_000)
	dir := "/old/" + strings.Repeat("a-directory-with-a-name/", 6)
	ix := index.Create(w.idx)
	ix.AddRoots([]index.Path{index.MakePath("/old")})
	for i := range n {
		data := "abc\n"
		if i%100000 == 7 {
			data = "some more text\n"
		}
		if err := ix.Add(fmt.Sprintf("%s%07d", dir, i), strings.NewReader(data)); err != nil {
			harness("%v", err)
		}
	}
	ix.Flush()
	w.tryWrite("small/a", "abc def\n")
	w.tryWrite("small/b", "def\n")
	anon, polls := int64(0), 0
	r := runCmdWatch(c, w.cmd("cindex", w.tree+"/small"), 200*time.Second, func(pid int) {
		if mb := anonMB(pid); mb > 0 {
			polls++
			anon = max(anon, mb)
		}
	})
	if r.code != 0 {
		c.Fail("cindex with an old index of %d names: exit status %d\n%s", n, r.code, r.err)
	}
	c.Count("memory_samples", polls)
	c.Count("names_merged", n)
	c.Count("anonymous_mb_merge", int(anon))
	c.Sample("update of an index of %d names: peak memory %d MB", n, anon)
	if anon > 240 {
		c.Fail("an update of an index of %d names needed %d MB of memory (mapped files not counted), limit 240 MB", n, anon)
	}
	c.Seen(n)
	re := index.Open(w.idx)
	defer re.Close()
	if l := re.PostingList('a'<<16 | 'b'<<8 | 'c'); len(l) != n-(n-8)/100000-1+1 {
		c.Fail("after the update of an index of %d names, %d files have abc", n, len(l))
	}
	for _, k := range []int{0, 1, n / 2, n - 1} {
		if got, want := re.Name(k).String(), fmt.Sprintf("%s%07d", dir, k); got != want {
			c.Fail("after the update, name %d is %q, want %q", k, got, want)
		}
	}
	if got := re.Name(n + 1).String(); got != w.tree+"/small/b" {
		c.Fail("after the update, name %d is %q", n+1, got)
	}
	os.RemoveAll(w.dir)
}
