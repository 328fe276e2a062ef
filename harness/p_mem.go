package main

// C44: the memory the commands need does not grow with what they read.

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

func init() {
	register(&Prop{ID: "C44", Quick: 60, Thorough: 400, Procs: 4, Run: runC44, Stall: 400 * time.Second,
		Rule:     "texts of 80 MB to 1 GB that reach cgrep by a pipe or as files, and cindex and csearch as files, as members of archives that are a thousand times smaller, and as many small files; lines short, empty, long, and one that never ends (without context); all output flags, matches everywhere, rarely and nowhere, with the output read slowly or not at all; the anonymous memory of each command is sampled every 2 ms and must stay below a fixed limit (40 MB for searches, 60 MB for indexing long files, 300 MB for many), and the number of lines printed must be what one block yields times the number of blocks; distinct by text and flags",
		Assume:   []string{"memory for automaton states is not limited by the text (see C42 for expressions); expressions here have few states", "context is kept in memory: with it, lines of up to 100 KB"},
		MinEvent: map[string]int64{"streams": 20, "searches": 100, "indexed": 30, "megabytes": 5000, "memory_samples": 5000, "lines_printed": 500_000}})
}

// bounded runs a command; its anonymous memory must stay below the limit.
// It returns the output's number of newlines and the last bytes of the output.
func (c *C) bounded(what string, cmd *exec.Cmd, limitMB int64, in io.Reader, slow bool) (lines int64, last string, code int) {
	r, w, err := os.Pipe()
	if err != nil {
		harness("%v", err)
	}
	var errb bytes.Buffer
	cmd.Stdout = w
	cmd.Stderr = &errb
	var feed *os.File
	if in != nil {
		if cmd.Stdin, feed, err = pipe(); err != nil {
			harness("%v", err)
		}
	}
	if err := cmd.Start(); err != nil {
		harness("%v", err)
	}
	w.Close()
	if in != nil {
		cmd.Stdin.(*os.File).Close()
		go func() {
			io.CopyBuffer(struct{ io.Writer }{feed}, struct{ io.Reader }{in}, make([]byte, 256<<10))
			feed.Close()
		}()
	}
	var most, samples atomic.Int64
	stop, stopped := make(chan bool), make(chan bool)
	go func() {
		defer close(stopped)
		for {
			m := anonMB(cmd.Process.Pid)
			samples.Add(1)
			most.Store(max(most.Load(), m))
			if m > limitMB {
				cmd.Process.Kill()
				return
			}
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Millisecond):
			}
		}
	}()
	buf := make([]byte, 256<<10)
	var tail []byte
	for first := true; ; first = false {
		if slow && first {
			time.Sleep(500 * time.Millisecond)
		}
		n, err := r.Read(buf)
		lines += int64(bytes.Count(buf[:n], []byte("\n")))
		tail = append(tail, buf[max(0, n-300):n]...)
		tail = tail[max(0, len(tail)-300):]
		if err != nil {
			break
		}
	}
	r.Close()
	err = cmd.Wait()
	close(stop)
	<-stopped
	if m := most.Load(); m > limitMB {
		c.Fail("%s: needs %d MB", what, m)
	}
	c.Count("memory_samples", int(samples.Load()))
	c.Sample("%s: %d MB", what, most.Load())
	code = cmd.ProcessState.ExitCode()
	if code < 0 || code > 1 || strings.Contains(errb.String(), "panic") {
		c.Fail("%s: exit status %d: %s", what, code, errb.String()[:min(errb.Len(), 2000)])
	}
	return lines, string(tail), code
}

func pipe() (r, w *os.File, err error) { return os.Pipe() }

// blocks is n copies of a block.
type blocks struct {
	block []byte
	n     int
	at    int
}

func (r *blocks) Read(p []byte) (k int, err error) {
	for k < len(p) {
		if r.n == 0 {
			return k, io.EOF
		}
		m := copy(p[k:], r.block[r.at:])
		k += m
		if r.at += m; r.at == len(r.block) {
			r.at = 0
			r.n--
		}
	}
	return k, nil
}

// memBlock returns a block of some 100 KB that ends with a newline.
func (c *C) memBlock(text bool) []byte {
	var b bytes.Buffer
	shape := c.IntN(5)
	for b.Len() < 100_000 {
		switch {
		case shape == 0 || shape == 4 && c.Chance(3):
			b.WriteString(strings.Repeat("\n", 1+c.IntN(50)))
			b.WriteString("x needle\n")
		case shape == 1:
			b.WriteString(genContent(c, 1500)[:c.IntN(1500)])
			b.WriteString("\n")
		case shape == 2 && !text:
			for n := 20_000 + c.IntN(80_000); n > 0; n -= 20 {
				b.WriteString(pick(c, []string{"abcdefghij0123456789", "xxxxxxxxxxxxxxxxxxxx", "int main(void) { ; }"}))
			}
			b.WriteString(pick(c, []string{"needle\n", "\n", "é\n"}))
		default:
			b.WriteString(pick(c, []string{"int x;\n", "\tneedle in the hay\n", "// comment\n", "}\n", "\n", "needle\n", "a longer line of text that goes on for some time, and then ends\n"}))
		}
	}
	s := b.Bytes()
	if text {
		s = bytes.ToValidUTF8(bytes.ReplaceAll(s, []byte{0}, []byte("0")), []byte("?"))
	}
	return s
}

func runC44(c *C) {
	w := newWorld(c, "w")
	kind := c.Case % 5
	scale := 1
	if c.Thorough {
		scale = 3
	}
	flagSets := [][]string{nil, {"-n"}, {"-h"}, {"-c"}, {"-l"}, {"-v"}, {"-v", "-c"}, {"-C", "3"}, {"-A", "2", "-B", "1"}, {"-i"}}
	exprs := []string{"needle", "n[e]+dle$", "^$", ".", "needle|x;", "nothinglikethis", "^", "[^ -~]", "(?i:NEEDLE)", `\bx\b`}
	const small = 40
	// Printing is slow: not more than a million lines.
	fewer := func(flags []string, e string, block []byte, times int) []string {
		o := grepOpts{v: len(flags) > 0 && flags[0] == "-v"}
		if newGrepText(mustParse("(?m)"+e), "", string(block)).selected(o)*times < 1_000_000 {
			return flags
		}
		return pick(c, [][]string{{"-c"}, {"-l"}})
	}
	searchFlags := [][]string{nil, {"-n"}, {"-h"}, {"-c"}, {"-l"}, {"-C", "3"}, {"-A", "2", "-B", "1"}, {"-i"}}
	count := func(what string, flags []string, block []byte, times int, name string, e string, lines int64, last string, code int) {
		o := grepOpts{}
		for _, f := range flags {
			switch f {
			case "-v":
				o.v = true
			case "-c":
				o.c = true
			case "-l":
				o.l = true
			case "-C", "-A", "-B":
				return
			case "-i":
				e = "(?i)" + e
			}
		}
		one := newGrepText(mustParse("(?m)"+e), name, string(block)).selected(grepOpts{v: o.v})
		want := int64(one) * int64(times)
		if (want > 0) != (code == 0) {
			c.Fail("%s: exit status %d, but %d lines match", what, code, want)
		}
		if o.l {
			want = min(want, 1)
		} else if o.c {
			if want > 0 && !strings.HasSuffix(last, fmt.Sprintf(": %d\n", want)) {
				c.Fail("%s: prints %q; %d lines match", what, last, want)
			}
			want = min(want, 1)
		}
		if lines != want {
			c.Fail("%s: prints %d lines; %d match", what, lines, want)
		}
		c.Count("lines_printed", int(lines))
	}
	switch kind {
	case 0, 1: // cgrep of a pipe
		block := c.memBlock(false)
		mb := 80 + c.IntN(200)*scale
		if c.Chance(6) {
			mb *= 4
		}
		endless := c.Chance(5)
		if endless { // a line that never ends
			block = bytes.ReplaceAll(block, []byte("\n"), []byte(" "))
			flagSets = [][]string{nil, {"-n"}, {"-h"}, {"-c"}, {"-l"}, {"-v"}, {"-i"}}
		}
		n := mb << 20 / len(block)
		flags, e := pick(c, flagSets), pick(c, exprs)
		flags = fewer(flags, e, block, n)
		cmd := w.cmd("cgrep", append(append([]string{}, flags...), e)...)
		what := fmt.Sprintf("cgrep %q of %d blocks of %d bytes (%.60q...)", cmd.Args[1:], n, len(block), block)
		lines, last, code := c.bounded(what, cmd, small, &blocks{block: block, n: n}, c.Chance(3))
		if !endless {
			count(what, flags, block, n, "<standard input>", e, lines, last, code)
		}
		c.Count("streams", 1)
		c.Count("searches", 1)
		c.Count("megabytes", mb)
		c.Seen(what)
		return
	case 2: // a long file
		block := c.memBlock(true)
		n := (80 + c.IntN(150)*scale) << 20 / len(block)
		f, err := os.Create(w.tree + "/long")
		if err != nil {
			harness("%v", err)
		}
		io.CopyBuffer(struct{ io.Writer }{f}, struct{ io.Reader }{&blocks{block: block, n: n}}, make([]byte, 1<<20))
		f.Close()
		c.memSearch(w, block, n, w.tree+"/long", searchFlags, exprs, fewer, count)
		c.Count("megabytes", n*len(block)>>20)
	case 3: // a member of an archive that is a thousand times as long as the archive
		block := c.memBlock(true)
		n := (80 + c.IntN(200)*scale) << 20 / len(block)
		f, err := os.Create(w.tree + "/z.zip")
		if err != nil {
			harness("%v", err)
		}
		z := zip.NewWriter(f)
		z.RegisterCompressor(zip.Deflate, func(w io.Writer) (io.WriteCloser, error) { return flate.NewWriter(w, 1) })
		m, _ := z.Create("dir/long")
		io.CopyBuffer(struct{ io.Writer }{m}, struct{ io.Reader }{&blocks{block: block, n: n}}, make([]byte, 1<<20))
		if err := z.Close(); err != nil {
			harness("%v", err)
		}
		f.Close()
		c.memSearch(w, block, n, w.tree+"/z.zip\x01dir/long", searchFlags, exprs, fewer, count)
		c.Count("megabytes", n*len(block)>>20)
	case 4: // many files
		block := []byte(genContent(c, 300) + "\nneedle\nint x;\n")
		block = bytes.ToValidUTF8(bytes.ReplaceAll(block, []byte{0}, []byte("0")), []byte("?"))
		n := (10_000 + c.IntN(10_000)) * scale
		for i := range n {
			if i%1000 == 0 {
				os.Mkdir(fmt.Sprintf("%s/%d", w.tree, i/1000), 0o777)
			}
			if err := os.WriteFile(fmt.Sprintf("%s/%d/%d", w.tree, i/1000, i), block, 0o666); err != nil {
				harness("%v", err)
			}
		}
		c.memSearch(w, block, n, "", [][]string{nil, {"-n"}, {"-l"}, {"-c"}, {"-C", "3"}}, exprs, fewer, func(what string, flags []string, block []byte, times int, name, e string, lines int64, last string, code int) {
			if len(flags) > 0 && (flags[0] == "-l" || flags[0] == "-c") {
				for _, f := range flags {
					if f == "-v" {
						return
					}
				}
				want := int64(0)
				if newGrepText(mustParse("(?m)"+e), "", string(block)).selected(grepOpts{}) > 0 {
					want = int64(times)
				}
				if lines != want {
					c.Fail("%s: prints %d lines; %d files match", what, lines, want)
				}
				return
			}
			count(what, flags, block, times, name, e, lines, last, code)
		})
		c.Count("small_files", n)
	}
}

func (c *C) memSearch(w *world, block []byte, n int, name string, flagSets [][]string, exprs []string, fewer func([]string, string, []byte, int) []string, count func(string, []string, []byte, int, string, string, int64, string, int)) {
	shape := fmt.Sprintf("%q: %d times %d bytes (%.60q...)", name, n, len(block), block)
	limit := int64(60)
	if name == "" {
		limit = 300 // the trigrams of all files, up to a fixed number
	}
	if _, _, code := c.bounded("cindex of "+shape, w.cmd("cindex", "-zip", w.tree), limit, nil, false); code != 0 {
		c.Fail("cindex of %s: exit status %d", shape, code)
	}
	c.Count("indexed", 1)
	for range 3 {
		flags, e := pick(c, flagSets), pick(c, exprs)
		flags = fewer(flags, e, block, n)
		cmd := w.cmd("csearch", append(append([]string{}, flags...), e)...)
		what := fmt.Sprintf("csearch %q in %s", cmd.Args[1:], shape)
		lines, last, code := c.bounded(what, cmd, 40, nil, c.Chance(3))
		count(what, flags, block, n, name, e, lines, last, code)
		c.Count("searches", 1)
		c.Seen(what)
	}
}
