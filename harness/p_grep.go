package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp/syntax"
	"slices"
	"strings"
	"time"

	"github.com/google/codesearch/regexp"
)

func init() {
	register(&Prop{ID: "C08", Quick: 16000, Thorough: 150000, Run: runC08,
		Rule:     "sequences of texts (empty to 3.5 MB, line ends and matches placed at and around the edges of the 1 MB window, lines up to 500 kB, with and without final newline) through one searcher and through cgrep (files and a slow pipe), random read splits and flags; output compared byte for byte with the reference; non-trivial: some line selected and some not; distinct by texts, expression and flags",
		Assume:   []string{"no line is longer than half of the 1 MB search buffer (longer lines may be split by design)", "-h together with -c is not specified"},
		MinEvent: map[string]int64{"lines_judged": 600_000, "lines_selected": 250_000, "window_edges": 400, "cgrep_runs": 400}})
	register(&Prop{ID: "C09", Quick: 9000, Thorough: 120000, Run: runC09,
		Rule:     "texts as for line output, before/after counts from 0 to thousands, few or many matches, at file ends and window edges; each output block parsed and compared with the text; non-trivial: a block whose context is not cut by the file ends; distinct by text, expression and counts",
		Assume:   []string{"no line is longer than half of the 1 MB search buffer"},
		MinEvent: map[string]int64{"blocks": 30000, "window_edges": 300, "big_files": 100, "command_runs": 1000}})
	register(&Prop{ID: "C30", Quick: 18000, Thorough: 120000, Run: runC30, Fini: stopWeb,
		Rule:     "several texts through one searcher with every kind of limit (below, at and above the number of matches; at file and window edges); result pages of the real csweb around its limit, reached inside and at the end of files and archive members, with and without matches in later ones; non-trivial: the limit cuts inside the matches; distinct by texts, expression, limit",
		MinEvent: map[string]int64{"limited": 400, "limit_not_reached": 300, "limit_exact": 200, "web_pages_at_limit": 10}})
}

const window = 1 << 20

// bigText makes a text of about size bytes from few distinct lines, with line
// ends around the places where the search window is refilled.
func bigText(c *C, pool []string, size int) string {
	var b strings.Builder
	b.Grow(size + 4096)
	win := 0
	filler := strings.Repeat("~", 600000)
	every := []int{1, 3, 20, 400}[c.IntN(4)]
	plain := []string{"", "~", "~~~~~~~~~~~~", filler[:70]}
	for b.Len() < size {
		edge := win + window
		left := edge - b.Len()
		if left <= 3000 && left > 0 {
			// Put a line end at edge+d and interesting lines around it.
			c.Count("window_edges", 1)
			d := c.IntN(7) - 3
			if c.Chance(3) {
				d = c.IntN(200) - 100
			}
			for n := c.IntN(6); n > 0; n-- {
				l := pick(c, pool)
				if b.Len()+len(l)+1 > edge+d-1 {
					break
				}
				b.WriteString(l + "\n")
			}
			tail := pick(c, pool) // the line that ends at edge+d
			if c.Chance(3) {
				tail = ""
			}
			if pad := edge + d - 1 - b.Len() - len(tail); pad >= 0 {
				if pad > 0 && c.Chance(2) {
					b.WriteString(filler[:pad-1] + "\n")
				} else {
					b.WriteString(filler[:pad])
				}
				b.WriteString(tail + "\n")
			}
			last := b.Len()
			for n := c.IntN(6); n > 0; n-- {
				last = b.Len()
				b.WriteString(pick(c, pool) + "\n")
			}
			if d <= 0 {
				win = edge + d
			} else {
				win = last
			}
			for b.Len() <= edge+3 {
				b.WriteString(pick(c, pool) + "\n")
			}
			if win > b.Len() {
				win = b.Len()
			}
			continue
		}
		if left <= 0 {
			win = b.Len()
			continue
		}
		if c.Chance(300) {
			n := min(c.IntN(window/2-10), max(0, left-3000))
			b.WriteString(filler[:n] + "\n")
			continue
		}
		if c.IntN(every) == 0 {
			b.WriteString(pick(c, pool))
		} else {
			b.WriteString(pick(c, plain))
		}
		b.WriteByte('\n')
	}
	s := b.String()
	switch c.IntN(4) {
	case 0:
		s = strings.TrimRight(s, "\n")
	case 1:
		s += pick(c, pool)
	case 2:
		s += "\n\n"
	}
	return s
}

// endAtEdge cuts the text where a window of the search, or a buffer of some
// round size, ends.
func endAtEdge(c *C, t string) string {
	var ends []int
	for at := 0; at+window <= len(t); {
		e := at + window
		ends = append(ends, e)
		at += strings.LastIndexByte(t[at:e], '\n') + 1
		if at+window == e {
			at = e
		}
	}
	if len(ends) == 0 || c.Chance(4) {
		for n := pick(c, []int{4096, 32768, 65536, window}); n <= len(t); n *= 2 {
			ends = append(ends, n)
		}
	}
	if len(ends) == 0 {
		return t
	}
	c.Count("texts_ending_at_edge", 1)
	return t[:ends[len(ends)-1-c.IntN(min(2, len(ends)))]]
}

// webLimits: csweb shows a fixed number of matches at most.
func webLimits(c *C) {
	w := newWorld(c, "w")
	search := func(q string, total int, how string) (shown int, limited bool) {
		results := c.webPage("csweb at the limit", q, server.must(c, searchURL(q, "")))
		l, problem := tokenize(results)
		if problem != "" {
			c.Fail("csweb at the limit: %s", problem)
		}
		s := plainText(l)
		body, tail, found := cutLast(s, " matches in ")
		i := strings.LastIndexByte(body, '\n')
		if !found || i < 0 {
			c.Fail("csweb at the limit: no count: page ends %q", s[max(0, len(s)-200):])
		}
		shown = strings.Count(body[:i], ":y\n")
		c.Count("web_pages_at_limit", 1)
		if n := body[i+1:]; n != fmt.Sprint(shown) {
			c.Fail("csweb on %s shows %d matching lines of %d and says %s", how, shown, total, n)
		}
		return shown, strings.Contains(tail, "limit")
	}
	if webLimitAt == 0 {
		w.tryWrite("tree/a", strings.Repeat("y\n", 1000000))
		w.must("cindex", w.tree)
		n, limited := search("y", 1000000, "one file")
		if limited != (n < 1000000) {
			c.Fail("csweb shows %d matching lines of 1000000 and says limited: %v", n, limited)
		}
		webLimitAt = n
		if !limited {
			webLimitAt = 100000
		}
	}
	// Files up to about the limit, a file of none, and perhaps more.
	total := max(1, webLimitAt+pick(c, []int{0, 0, 0, -1, 1, -c.IntN(1000)}))
	left := total
	k := 0
	w.tree = filepath.Join(w.dir, "tree2")
	if err := os.MkdirAll(w.tree, 0o777); err != nil {
		harness("%v", err)
	}
	write := func(n int) {
		text := strings.Repeat("y\n", n) + strings.Repeat("no\n", c.IntN(2))
		name := fmt.Sprintf("f%02d", k)
		k++
		if c.Chance(4) {
			var z bytes.Buffer
			zw := zip.NewWriter(&z)
			f, _ := zw.Create("m")
			f.Write([]byte(text))
			zw.Close()
			name, text = name+".zip", z.String()
		}
		if err := os.WriteFile(filepath.Join(w.tree, name), []byte(text), 0o666); err != nil {
			harness("%v", err)
		}
	}
	for n := c.IntN(4); n > 0 && left > 10; n-- {
		m := 1 + c.IntN(left-1)
		write(m)
		left -= m
	}
	write(left)
	for n := c.IntN(3); n > 0; n-- {
		write(0)
	}
	for n := c.IntN(4); n > 0; n-- {
		m := 1 + c.IntN(5)
		write(m)
		total += m
	}
	w.must("cindex", "-reset", "-zip", w.tree)
	q := pick(c, []string{"y", "^y$", "^y"})
	n, limited := search(q, total, fmt.Sprintf("%d files", k))
	if n != min(total, webLimitAt) || limited != (total > webLimitAt) {
		c.Fail("csweb with the limit %d on %d files with %d matching lines in all shows %d, and says limited: %v", webLimitAt, k, total, n, limited)
	}
	if limited {
		c.Seen("web", total, k, q)
	}
}

var webLimitAt int // as observed

// grepCase makes an expression and a few texts.
func grepCase(c *C, big bool) (expr string, ast *syntax.Regexp, texts []string) {
	expr, ast, g := nextExpr(c)
	if !strings.HasPrefix(expr, "(?m)") {
		expr = "(?m)" + expr
		ast = mustParse(expr)
	}
	if big && cost(ast) > 200 {
		expr = "(?m)" + pick(c, []string{"abc", `^abc$`, `a.*b`, `\bfoo`, `^$`, `^`, `[^~]`, `~$`, `(?i)ABC`, `z|y`, `\Aabc`, `abc\z`})
		ast = mustParse(expr)
		g.alpha = []rune("abcfo ")
	}
	nt := 1 + c.IntN(3)
	for range nt {
		t := string(textFor(c.Rand, ast, g.alpha, c.IntN(12), 100))
		if c.Chance(12) {
			t = string(breakUTF8(c, []byte(t)))
		}
		if big && c.Chance(2) {
			pool := refLines(string(textFor(c.Rand, ast, g.alpha, 12, 100)))
			pool = append(pool, "abc", " indented abc", "\tabc")
			t = bigText(c, pool, pick(c, []int{window - 2000, window, window + 2000, 2 * window, 2*window + window/2, 3 * window}))
			if c.Chance(2) {
				t = endAtEdge(c, t)
			}
			c.Count("big_files", 1)
		}
		texts = append(texts, t)
	}
	return
}

func compiled(c *C, expr string) *regexp.Regexp { return compile(c, expr) }

func runC08(c *C) {
	big := c.Chance(10)
	expr, ast, texts := grepCase(c, big)
	o := randOpts(c, true)
	var out, errs, want bytes.Buffer
	g := &regexp.Grep{Regexp: compiled(c, expr), Stdout: &out, Stderr: &errs, L: o.l, C: o.c, N: o.n, H: o.h, V: o.v}
	any := false
	var gts []*grepText
	for i, text := range texts {
		t := newGrepText(ast, fmt.Sprintf("dir/f%d", i), text)
		gts = append(gts, t)
		c.Count("lines_judged", len(t.lines))
		k := t.selected(o)
		c.Count("lines_selected", k)
		any = any || k > 0
		if k > 0 && k < len(t.lines) {
			c.Seen(expr, o.String(), text)
		}
		out.Reset()
		want.Reset()
		t.print(&want, o, -1)
		r := &chunkReader{data: text, next: splitter(c), eofWithData: c.Chance(3)}
		if len(text) > 1<<18 {
			r.next = nil
			if c.Chance(2) {
				r.next = func(int) int { return 1 + c.IntN(300000) }
			}
		}
		g.Reader(r, t.name)
		if d := firstDiff(out.Bytes(), want.Bytes()); d != "" {
			c.Fail("grep %s %q on file %d of %d (%d bytes, %d lines, starts %.200q): %s", o, expr, i+1, len(texts), len(text), len(t.lines), text, d)
		}
		if g.Match != any {
			c.Fail("grep %s %q: Match = %v after file %d, want %v", o, expr, g.Match, i+1, any)
		}
		if errs.Len() > 0 {
			c.Fail("grep %s %q: unexpected message %q", o, expr, errs.String())
		}
	}
	c.Sample("grep %s %q over %d texts", o, expr, len(texts))
	if c.Chance(5) {
		cgrepRun(c, expr[len("(?m)"):], o, gts, texts)
	}
}

// cgrepRun runs the real command on files and on standard input.
func cgrepRun(c *C, expr string, o grepOpts, gts []*grepText, texts []string) {
	ast := mustParse("(?m)" + expr)
	_ = ast
	if strings.Contains(expr, "\x00") {
		return
	}
	c.Count("cgrep_runs", 1)
	dir := c.Dir("cg")
	args := append(o.flags(), "--", expr)
	var want bytes.Buffer
	any := false
	if c.Chance(3) { // standard input
		t := *gts[0]
		t.name = "<standard input>"
		t.print(&want, o, -1)
		any = t.selected(o) > 0
		cmd := exec.Command(c.Bin("cgrep"), args...)
		r := &chunkReader{data: texts[0], next: func(int) int { return 1 + c.IntN(70000) }}
		cmd.Stdin = r
		res := runCmd(c, cmd)
		checkGrepRun(c, "cgrep "+strings.Join(args, " ")+" < text", res, want.Bytes(), any)
		return
	}
	for i := range gts {
		t := *gts[i]
		t.name = filepath.Join(dir, fmt.Sprint("f", i))
		if err := os.WriteFile(t.name, []byte(texts[i]), 0o666); err != nil {
			harness("%v", err)
		}
		args = append(args, t.name)
		t.print(&want, o, -1)
		any = any || t.selected(o) > 0
	}
	res := runCmd(c, exec.Command(c.Bin("cgrep"), args...))
	checkGrepRun(c, "cgrep "+strings.Join(args, " "), res, want.Bytes(), any)
}

type result struct {
	out, err []byte
	code     int // -1 if killed by a signal
	maxrss   int64
}

// runCmd runs a command; one that does not end in time is a violation.
func runCmd(c *C, cmd *exec.Cmd) result { return runCmdTime(c, cmd, 60*time.Second) }

func runCmdTime(c *C, cmd *exec.Cmd, limit time.Duration) result {
	return runCmdWatch(c, cmd, limit, nil)
}

// runCmdWatch runs a command and calls watch every few milliseconds meanwhile.
func runCmdWatch(c *C, cmd *exec.Cmd, limit time.Duration, watch func(pid int)) result {
	var out, errs bytes.Buffer
	if cmd.Stdout == nil {
		cmd.Stdout = &out
	}
	cmd.Stderr = &errs
	if err := cmd.Start(); err != nil {
		harness("starting %s: %v", cmd.Path, err)
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	var err error
	if watch == nil {
		err = cmd.Wait()
	} else {
		done := make(chan error)
		go func() { done <- cmd.Wait() }()
	watching:
		for {
			select {
			case err = <-done:
				break watching
			case <-time.After(3 * time.Millisecond):
				watch(cmd.Process.Pid)
			}
		}
	}
	if !timer.Stop() {
		c.Fail("%s did not end within %v", strings.Join(cmd.Args, " "), limit)
	}
	r := result{out: out.Bytes(), err: errs.Bytes()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			if strings.Contains(err.Error(), "broken pipe") { // it did not read all of its input
				return r
			}
			harness("running %s: %v", cmd.Path, err)
		}
		r.code = ee.ExitCode()
	}
	if ru := cmd.ProcessState.SysUsage(); ru != nil {
		r.maxrss = rss(ru)
	}
	return r
}

func checkGrepRun(c *C, what string, res result, want []byte, any bool) {
	if d := firstDiff(res.out, want); d != "" {
		c.Fail("%s: output %s", what, d)
	}
	code := 1
	if any {
		code = 0
	}
	if res.code != code {
		c.Fail("%s: exit status %d, want %d; stderr %q", what, res.code, code, res.err)
	}
	if len(res.err) > 0 {
		c.Fail("%s: unexpected message %q", what, res.err)
	}
}

// ---- C09

func runC09(c *C) {
	big := c.Chance(8)
	expr, ast, texts := grepCase(c, big)
	o := grepOpts{n: c.Chance(2), h: c.Chance(3)}
	if c.Chance(8) {
		o.v = true
	}
	counts := []int{0, 1, 1, 2, 3, 5, 10}
	if c.Chance(6) {
		counts = []int{0, 30, 100, 1000}
		if big {
			counts = append(counts, 5000, 30000)
		}
	}
	o.before, o.after = pick(c, counts), pick(c, counts)
	if o.before+o.after == 0 {
		o.before = 1
	}
	if c.Chance(10) { // all there is; sums and increments must not wrap around
		huge := []int{math.MaxInt, math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, math.MaxInt32, 1 << 30}
		o.before, o.after = pick(c, append(huge, 0, 1)), pick(c, append(huge, 0, 1))
		if o.before <= 1 && o.after <= 1 {
			o.after = math.MaxInt
		}
		c.Count("huge_contexts", 1)
	}
	// Indented blocks, so that the common indentation matters.
	if c.Chance(2) {
		for i, t := range texts {
			if len(t) < 5000 {
				ls := strings.SplitAfter(t, "\n")
				in := pick(c, []string{"\t", "    ", "\t\t", " \t", "  "})
				for j := range ls {
					if ls[j] != "" && c.IntN(5) > 0 {
						ls[j] = in + ls[j]
						if c.Chance(3) {
							ls[j] = "  " + ls[j]
						}
						if c.Chance(6) {
							ls[j] = strings.TrimSuffix(ls[j], "\n") + " \t\r\n"
						}
					}
				}
				texts[i] = strings.Join(ls, "")
			}
		}
	}
	if c.Chance(12) && !strings.Contains(expr, "\x00") && strings.HasPrefix(expr, "(?m)") {
		contextRun(c, expr, o, texts)
		return
	}
	var out, errs bytes.Buffer
	g := &regexp.Grep{Regexp: compiled(c, expr), Stdout: &out, Stderr: &errs, N: o.n, H: o.h, V: o.v, PreContext: o.before, PostContext: o.after}
	for i, text := range texts {
		t := newGrepText(ast, fmt.Sprintf("f%d", i), text)
		if k := t.selected(o); k*(min(o.before, len(t.lines))+min(o.after, len(t.lines))+1) > 400000 {
			continue // far too much output
		}
		out.Reset()
		r := &chunkReader{data: text, eofWithData: c.Chance(3)}
		if len(text) < 1<<18 || c.Chance(3) {
			r.next = splitter(c)
			if len(text) > 1<<18 {
				r.next = func(int) int { return 1 + c.IntN(300000) }
			}
		}
		g.Reader(r, t.name)
		rest, blocks, problem := t.checkContext(out.Bytes(), o, -1)
		c.Count("blocks", blocks)
		if problem == "" && len(rest) > 0 {
			problem = fmt.Sprintf("unexpected output after the last match: %.200q", rest)
		}
		if problem != "" {
			c.Fail("grep %s %q on %d bytes, %d lines (starts %.200q): %s", o, expr, len(text), len(t.lines), text, problem)
		}
		if errs.Len() > 0 {
			c.Fail("unexpected message %q", errs.String())
		}
		for j, s := range t.sel {
			if s != o.v && (j >= o.before && j < len(t.lines)-o.after || o.before > len(t.lines) || o.after > len(t.lines)) {
				c.Seen(expr, o.String(), text)
				c.Sample("grep %s %q on %d lines: %d blocks", o, expr, len(t.lines), blocks)
				break
			}
		}
	}
}

// contextRun judges the context that the real commands print.
func contextRun(c *C, expr string, o grepOpts, texts []string) {
	ast := mustParse(expr)
	w := newWorld(c, "w")
	var gts []*grepText
	var names []string
	total, n := 0, 0
	for i, text := range texts {
		t := newGrepText(ast, fmt.Sprintf("%s/f%03d", w.tree, i), text)
		total += t.selected(o) * (min(o.before, len(t.lines)) + min(o.after, len(t.lines)) + 1)
		if total > 400000 {
			break // far too much output
		}
		w.write(fmt.Sprintf("f%03d", i), text)
		gts = append(gts, t)
		names = append(names, t.name)
		n += t.selected(o)
	}
	p := o
	p.before, p.after = 0, 0
	args := append(p.flags(), o.contextFlags(c.IntN(4))...)
	args = append(args, "--", expr[len("(?m)"):])
	judge := func(what string, r result, gts []*grepText, n int) {
		rest, problem := r.out, ""
		for _, t := range gts {
			if problem == "" {
				rest, _, problem = t.checkContext(rest, o, -1)
			}
		}
		if problem == "" && len(rest) > 0 {
			problem = fmt.Sprintf("unexpected output after the last match: %.200q", rest)
		}
		if problem == "" && (len(r.err) > 0 || (r.code == 0) != (n > 0)) {
			problem = fmt.Sprintf("exit status %d with %d matches: %.200q", r.code, n, r.err)
		}
		if problem != "" {
			c.Fail("%s: %s", what, problem)
		}
		c.Count("command_runs", 1)
		c.Seen(what, c.Case)
	}
	if len(gts) > 0 {
		t := *gts[0]
		t.name = "<standard input>"
		cmd := w.cmd("cgrep", args...)
		cmd.Stdin = &chunkReader{data: texts[0], next: func(int) int { return 1 + c.IntN(70000) }}
		judge(fmt.Sprintf("cgrep %q < text", args), runCmd(c, cmd), []*grepText{&t}, t.selected(o))
		judge(fmt.Sprintf("cgrep %q on %d files", args, len(gts)), w.run("cgrep", append(slices.Clone(args), names...)...), gts, n)
	}
	if o.v {
		return
	}
	w.must("cindex", w.tree)
	k, indexed := 0, gts[:0]
	for i, t := range gts {
		if v := textPolicy(texts[i]); v == isText {
			indexed = append(indexed, t)
			k += t.selected(o)
		} else if v != notText {
			return
		}
	}
	judge(fmt.Sprintf("csearch %q", args), w.run("csearch", args...), indexed, k)
}

// ---- C30

func runC30(c *C) {
	if c.P.ID == "C30" && c.Case%1024 == 0 { // always in the same child: the port is fixed
		if server == nil {
			startWeb(c)
		}
		webLimits(c)
		return
	}
	big := c.Chance(12)
	expr, ast, texts := grepCase(c, big)
	for c.Chance(2) {
		_, _, more := grepCase(c, false)
		texts = append(texts, more...)
	}
	o := grepOpts{n: c.Chance(2), h: c.Chance(3), l: c.Chance(6)}
	if c.Chance(6) {
		o.before, o.after, o.l = c.IntN(3), 1, false
	} else if c.Chance(6) {
		o.c, o.l = true, false
	}
	html := c.Chance(5)
	var gts []*grepText
	total := 0
	for i, text := range texts {
		t := newGrepText(ast, fmt.Sprintf("f%d", i), text)
		gts = append(gts, t)
		k := t.selected(o)
		if o.l {
			k = min(k, 1)
		}
		total += k
	}
	if total > 100000 {
		return
	}
	limit := total
	switch c.IntN(6) {
	case 0:
		limit = 0 // none
	case 1:
		limit = 1 + c.IntN(total+2)
	case 2:
		limit = max(1, total-1)
	case 3:
		limit = total + 1
	}
	var out, errs bytes.Buffer
	g := &regexp.Grep{Regexp: compiled(c, expr), Stdout: &out, Stderr: &errs, N: o.n, H: o.h, L: o.l, C: o.c, HTML: html, PreContext: o.before, PostContext: o.after, Limit: limit}
	printed := 0
	for i, t := range gts {
		left := -1
		if limit > 0 {
			left = limit - printed
		}
		out.Reset()
		g.Reader(strings.NewReader(texts[i]), t.name)
		k := t.selected(o)
		if o.l {
			k = min(k, 1)
		}
		if left >= 0 {
			k = min(k, left)
		}
		what := fmt.Sprintf("grep %s %q limit %d html %v, file %d", o, expr, limit, html, i)
		switch {
		case o.c:
			// What is printed for a file that the limit cuts is not specified.
			if k < t.selected(o) || html {
				break
			}
			var want bytes.Buffer
			t.print(&want, o, -1)
			if d := firstDiff(out.Bytes(), want.Bytes()); d != "" {
				c.Fail("%s: %s", what, d)
			}
			c.Count("counted_files", 1)
		case html && !o.context():
			if n := bytes.Count(out.Bytes(), []byte("\n")); n != k {
				c.Fail("%s: printed %d lines, want %d", what, n, k)
			}
		case o.context():
			if html {
				break
			}
			rest, n, problem := t.checkContext(out.Bytes(), o, left)
			if problem == "" && len(rest) > 0 {
				problem = fmt.Sprintf("output after the limit: %.200q", rest)
			}
			if problem != "" || n != k {
				c.Fail("%s: %d blocks, want %d: %s", what, n, k, problem)
			}
		default:
			var want bytes.Buffer
			t.print(&want, o, left)
			if d := firstDiff(out.Bytes(), want.Bytes()); d != "" {
				c.Fail("%s: %s", what, d)
			}
		}
		printed += k
		if g.Limited {
			break
		}
	}
	limited := limit > 0 && total > limit
	wantN := total
	if limited {
		wantN = limit
	}
	if g.Limited != limited {
		c.Fail("grep %s %q limit %d over %d files with %d matches: Limited = %v", o, expr, limit, len(texts), total, g.Limited)
	}
	if g.Matches != wantN {
		c.Fail("grep %s %q limit %d over %d files with %d matches: Matches = %d, want %d", o, expr, limit, len(texts), total, g.Matches, wantN)
	}
	if g.Match != (total > 0) {
		c.Fail("grep %s %q limit %d: Match = %v with %d matches", o, expr, limit, g.Match, total)
	}
	switch {
	case limited:
		c.Count("limited", 1)
		c.Seen(expr, limit, strings.Join(texts, "|"))
		c.Sample("grep %s %q limit %d of %d matches in %d files", o, expr, limit, total, len(texts))
	case limit > 0 && limit == total:
		c.Count("limit_exact", 1)
	default:
		c.Count("limit_not_reached", 1)
	}
}

var _ = io.EOF
