package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp/syntax"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	"github.com/google/codesearch/index"
)

func init() {
	register(&Prop{ID: "C34", Quick: 960, Thorough: 8000, Run: runC34,
		Rule:     "csearch runs on a standard library that records every file it opens; trees with files that contain all, some or none of the trigrams of the words searched for; the files opened are compared with those whose own trigrams (computed from their bytes) and name allow a match; non-trivial: a search for which some files had to be left alone; distinct by tree and expression",
		Assume:   []string{"the guarantee is stated for words of at least three characters, for several of them with anything between, for few alternatives of such that begin differently, and for these ignoring case; what else can be ruled out is not specified", "an archive is opened for any of its members"},
		MinEvent: map[string]int64{"searches": 2500, "opened": 4000, "left_alone": 20000, "filtered": 400, "none": 100}})
	register(&Prop{ID: "C35", Quick: 320, Thorough: 6000, Run: runC35,
		Rule:     "random settings of $CSEARCHINDEX (absolute, relative, odd names, empty, unset) and $HOME, with other indexes lying at every other place one could look; each command must use the index that the documentation names, and leave all others alone; distinct by setting and command",
		MinEvent: map[string]int64{"settings": 500, "runs": 3000, "decoys": 700, "no_directory": 100}})
	register(&Prop{ID: "C36", Quick: 256, Thorough: 1500, Run: runC36,
		Rule:     "csearch and cindex -list run over and over, four at a time (two of them with pauses between the steps of opening the index), while cindex (on a standard library that pauses before each modifying call) updates the index and an older one is put back by renaming; each answer must be, byte for byte and in its exit status, that of an index that was current at some moment of the run; non-trivial: an answer during an update; distinct by tree, command and answer",
		Assume:   []string{"the searched files themselves do not change", "-reset is not an update"},
		MinEvent: map[string]int64{"answers": 4000, "during_update": 2000, "old_answers": 500, "new_answers": 100, "updates": 100, "slow_answers": 2000}})
	register(&Prop{ID: "C37", Quick: 960, Thorough: 10000, Run: runC37,
		Rule:     "cindex, csearch and cgrep with and without -verbose, -stats, -check and -cpuprofile on the same trees: results, exit status and index must be the same; every number that they print (sizes and trigrams of files, bytes, lists of the index, candidate files) is compared with what the reference counts; distinct by tree and command",
		MinEvent: map[string]int64{"pairs": 1500, "file_lines": 1000, "stats": 200, "candidates": 400, "profiles": 300}})
}

// ---- C34

// A word must appear in a file (as its trigrams), perhaps in any case.
type word struct {
	s    string
	fold bool
}

func (w word) possible(tri map[string]bool) bool {
	if !w.fold {
		for i := 0; i+3 <= len(w.s); i++ {
			if !tri[w.s[i:i+3]] {
				return false
			}
		}
		return true
	}
	for i := 0; i+3 <= len(w.s); i++ {
		found := false
		for k := range 8 {
			b := []byte(w.s[i : i+3])
			for j := range b {
				if k>>j&1 != 0 {
					b[j] = byte(unicode.ToUpper(rune(b[j])))
				} else {
					b[j] = byte(unicode.ToLower(rune(b[j])))
				}
			}
			found = found || tri[string(b)]
		}
		if !found {
			return false
		}
	}
	return true
}

var c34Words = []string{"hello", "return", "int", "foo", "search", "index", "codesearch", "func main", "err != nil", "世界", "naïve", "abcabc", "aaa", "x_y", "#include", "0x1f", "test", "data", "able", "cable"}

func runC34(c *C) {
	w := newWorld(c, "w")
	n := 10 + c.IntN(60)
	if c.Chance(10) {
		n = 300
	}
	for i := range n {
		var b strings.Builder
		for k := c.IntN(8); k > 0; k-- {
			x := pick(c, c34Words)
			switch c.IntN(6) {
			case 0:
				x = strings.ToUpper(x)
			case 1: // a part
				x = x[c.IntN(len(x)):]
			case 2:
				x = x[:c.IntN(len(x)+1)]
			case 3: // its trigrams, but not the word
				for j := 0; j+3 <= len(x); j++ {
					b.WriteString(x[j:j+3] + " ")
				}
				x = ""
			}
			b.WriteString(x + pick(c, []string{" ", "\n", ".", "", "\t"}))
		}
		data := strings.ToValidUTF8(b.String(), "?")
		w.tryWrite(fmt.Sprintf("%s/%s%d", pick(c, []string{"a", "b", "foo"}), pick(c, []string{"x", "foo.go", "bar.c"}), i), data)
	}
	zips := c.Chance(3)
	args := []string{w.tree}
	if zips {
		for i := range 1 + c.IntN(3) {
			w.tryWrite(fmt.Sprintf("a/z%d.zip", i), string(makeZip([]member{{"m", pick(c, c34Words) + " " + pick(c, c34Words), false}, {"n", pick(c, c34Words), true}})))
		}
		args = []string{"-zip", w.tree}
	}
	w.must("cindex", args...)
	m := &idxModel{}
	m.update([]string{w.tree}, zips)
	tris := make([]map[string]bool, len(m.docs))
	for i, d := range m.docs {
		tris[i] = trigramsOf([]byte(d.data))
	}
	for range 14 {
		var alts [][]word
		var expr string
		nalt := 1
		if c.Chance(3) {
			nalt = 2 + c.IntN(2)
		}
		fold := c.Chance(4)
		firsts := ""
		for range nalt {
			var ws []word
			k := 1
			if c.Chance(3) {
				k = 2
			}
			var parts []string
			for range k {
				x := pick(c, c34Words)
				if fold && !isASCII(x) {
					x = "return"
				}
				// Alternatives with a common beginning are factored.
				for len(ws) == 0 && strings.Contains(firsts, x[:1]) {
					x = pick(c, []string{"zebra", "quick", "jump", "mount", "yes!", "use", "long_name", "king", "void", "while", "xyz", "go func", "else", "break"})
				}
				if len(ws) == 0 {
					firsts += x[:1]
				}
				ws = append(ws, word{x, fold})
				parts = append(parts, syntaxQuote(x))
			}
			alts = append(alts, ws)
			e := strings.Join(parts, pick(c, []string{".*", ".+", "[^x]*", "( |.)*", "(.*y)?"}))
			if expr != "" {
				expr += "|"
			}
			expr += e
		}
		switch c.IntN(8) {
		case 0:
			expr = "(" + expr + ")"
		case 1:
			expr = "\\b(?:" + expr + ")"
		case 2:
			expr = "^.*(?:" + expr + ")+"
		case 3:
			expr = ".(?:" + expr + ")$"
		}
		none := c.Chance(15)
		if none { // nothing can match
			alts, expr = nil, pick(c, []string{`[^\x00-\x{10FFFF}]`, `hello[^\x00-\x{10FFFF}]|foo[^\x00-\x{10FFFF}]`, `[^\s\S]`})
		}
		argv := []string{pick(c, []string{"-n", "-l", "-c", "-h"})}
		if fold {
			if c.Chance(2) {
				argv = append(argv, "-i")
			} else {
				expr = "(?i)" + expr
			}
		}
		filter := ""
		if c.Chance(3) {
			filter = pick(c, []string{"foo", "/a/", `\.go`, `\.c[0-9]*$`, "zip", "zzz", "[0-3]$"})
			argv = append(argv, "-f", filter)
			c.Count("filtered", 1)
		}
		may := map[string]bool{}
		left := 0
		for i, d := range m.docs {
			ok := false
			for _, ws := range alts {
				all := true
				for _, x := range ws {
					all = all && x.possible(tris[i])
				}
				ok = ok || all
			}
			if filter != "" && refMatch(mustParse(filter), d.name, true, true) < 0 {
				ok = false
			}
			if !ok {
				left++
				continue
			}
			may[d.name] = true
			if a, _, isZip := strings.Cut(d.name, "\x01"); isZip {
				may[a] = true
			}
		}
		cmd := w.faultCmd("csearch", append(argv, "--", expr)...)
		tr := filepath.Join(w.dir, "trace")
		os.Remove(tr)
		cmd.Env = append(cmd.Env, "VERIF_TRACE="+tr, "VERIF_ROOT="+w.tree)
		r := runCmd(c, cmd)
		if r.code > 1 {
			c.Fail("csearch %q: status %d: %s", argv, r.code, r.err)
		}
		what := fmt.Sprintf("csearch %q", append(argv, "--", expr))
		opened := map[string]int{}
		for _, t := range parseTrace(c, tr) {
			if t.class == 'R' && t.op == "open" {
				opened[t.path]++
			}
		}
		for p, k := range opened {
			if !may[p] {
				c.Fail("%s reads %q, which cannot match", what, p)
			}
			if k > 1 && !strings.HasSuffix(p, ".zip") {
				c.Fail("%s reads %q %d times", what, p, k)
			}
		}
		c.Count("searches", 1)
		c.Count("opened", len(opened))
		c.Count("left_alone", left)
		if len(alts) == 0 {
			c.Count("none", 1)
		}
		if left > 0 {
			c.Seen(c.Case, expr, filter)
		}
		c.Sample("%s: opened %d of %d", what, len(opened), len(m.docs))
	}
}

func syntaxQuote(s string) string {
	re := &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune(s)}
	return re.String()
}

// ---- C35

func runC35(c *C) {
	w := newWorld(c, "w")
	for _, t := range []string{"one", "two", "three"} {
		w.write(t+"/f", t+" common\n")
	}
	homes := []string{"home", "ho me", "h/é", "home/"}
	names := []string{"ix/index", "ix/a b", "ix/\xff", "ix/-x", "ix/.hidden", "ix/index~", "ix/$HOME", "ix/é", "ix/a:b", "./ix/i", "ix//j", "ix/deep/er/k", "x.zip", "lnk/../j2", "lnk/.././j2", "~", "~/ix", "%41", "ix\\n", "lnk/i"}
	decoy := func(f, tree string) {
		f = filepath.Clean(f)
		if !filepath.IsAbs(f) {
			f = filepath.Join(w.dir, f)
		}
		os.MkdirAll(filepath.Dir(f), 0o777)
		cmd := w.cmd("cindex", filepath.Join(w.tree, tree))
		cmd.Env = []string{"CSEARCHINDEX=" + f, "TMPDIR=" + w.tmp}
		os.Remove(f)
		if r := runCmd(c, cmd); r.code != 0 {
			c.Fail("cindex with CSEARCHINDEX=%q: status %d: %s", f, r.code, r.err)
		}
		c.Count("decoys", 1)
	}
	for range 4 {
		for _, e := range []string{"home", "ho me", "h", "ix", "x.zip", ".csearchindex", "cwd", "lnk", "far", "~", "%41", "ix\\n"} {
			os.RemoveAll(filepath.Join(w.dir, e))
		}
		cwd := filepath.Join(w.dir, pick(c, []string{"", "cwd"}))
		os.MkdirAll(cwd, 0o777)
		home := filepath.Join(w.dir, "home")
		env := []string{"TMPDIR=" + w.tmp, "PATH=/usr/bin:/bin"}
		h := w.dir + "/" + pick(c, homes)
		if c.Chance(8) { // relative
			h = pick(c, []string{"home", "."})
			home = filepath.Join(cwd, h)
		} else {
			home = filepath.Clean(h)
		}
		os.MkdirAll(home, 0o777)
		env = append(env, "HOME="+h)
		want := filepath.Join(home, ".csearchindex")
		var others []string
		switch c.IntN(3) {
		case 0:
			if c.Chance(2) {
				env = append(env, "CSEARCHINDEX=")
			}
			others = append(others, filepath.Join(w.dir, "ix/index"))
		default:
			n := pick(c, names)
			v := n
			if c.Chance(3) {
				want = filepath.Join(cwd, n)
			} else {
				v = w.dir + "/" + n
				want = filepath.Join(w.dir, n)
			}
			if strings.HasPrefix(n, "lnk/") {
				// A link to a directory elsewhere: its parent is not ours.
				base := strings.TrimSuffix(want, filepath.Clean(n))
				os.MkdirAll(base+"far/away", 0o777)
				if err := os.Symlink("far/away", base+"lnk"); err != nil {
					harness("%v", err)
				}
				if n == "lnk/i" {
					want = base + "far/away/i"
				} else {
					others = append(others, want, base+"far/away/j2")
					want = base + "far/j2"
				}
				c.Count("links", 1)
			}
			env = append(env, "CSEARCHINDEX="+v)
			others = append(others, filepath.Join(home, ".csearchindex"))
		}
		others = append(others, filepath.Join(cwd, ".csearchindex"), filepath.Join(home, "csearchindex"), filepath.Join(cwd, "index"))
		others = slices.DeleteFunc(others, func(s string) bool { return s == want })
		for _, o := range others {
			if c.Chance(2) {
				decoy(o, "three")
			}
		}
		run := func(name string, args ...string) result {
			cmd := w.cmd(name, args...)
			cmd.Env = env
			cmd.Dir = cwd
			c.Count("runs", 1)
			c.Seen(env[2:], name, args, c.Case)
			return runCmd(c, cmd)
		}
		what := fmt.Sprintf("with %q in %q", env[2:], cwd)
		if _, err := os.Stat(filepath.Dir(want)); err != nil {
			// No such directory: no command can work, least of all elsewhere.
			before := snapshot(w.dir, func(p string) bool { return strings.HasPrefix(p, w.tmp) })
			for _, a := range [][]string{{"csearch", "common"}, {"csearch", "-brute", "-l", "o"}, {"cindex", "-list"}, {"cindex"}, {"cindex", filepath.Join(w.tree, "one")}} {
				r := run(a[0], a[1:]...)
				if r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
					c.Fail("%s, where there is no such directory: %q: status %d, %q %q", what, a, r.code, r.out, r.err)
				}
				if d := diffSnap(before, snapshot(w.dir, func(p string) bool { return strings.HasPrefix(p, w.tmp) })); d != "" {
					c.Fail("%s, where there is no such directory: %q: %s", what, a, d)
				}
			}
			c.Count("no_directory", 1)
		}
		os.MkdirAll(filepath.Dir(want), 0o777)
		before := snapshot(w.dir, func(p string) bool { return strings.HasPrefix(p, w.tmp) })
		judge := func(step string, trees ...string) {
			after := snapshot(w.dir, func(p string) bool { return strings.HasPrefix(p, w.tmp) })
			_, have := after[want]
			delete(after, want)
			b := map[string]string{}
			for k, v := range before {
				if k != want {
					b[k] = v
				}
			}
			if d := diffSnap(b, after); d != "" {
				c.Fail("%s: %s: %s", what, step, d)
			}
			if have != (len(trees) > 0) {
				c.Fail("%s: %s: the index %q exists: %v", what, step, want, have)
			}
			if !have {
				return
			}
			var docs []doc
			var roots []string
			for _, t := range trees {
				roots = append(roots, filepath.Join(w.tree, t))
				docs = append(docs, doc{filepath.Join(w.tree, t, "f"), t + " common\n"})
			}
			sortPaths(roots)
			sortDocs(docs)
			checkIndex(c, what+": "+step, want, roots, docs)
			r := run("cindex", "-list")
			if l := strings.Join(roots, "\n") + "\n"; r.code != 0 || string(r.out) != l {
				c.Fail("%s: %s: cindex -list prints %q (status %d, %s), want %q", what, step, r.out, r.code, r.err, l)
			}
			r = run("csearch", pick(c, []string{"common", "o|e"}))
			var b2 strings.Builder
			for _, d := range docs {
				b2.WriteString(d.name + ":" + d.data)
			}
			if r.code != 0 || string(r.out) != b2.String() {
				c.Fail("%s: %s: csearch prints %q (status %d, %s), want %q", what, step, r.out, r.code, r.err, b2.String())
			}
		}
		ok := func(args ...string) {
			if r := run("cindex", args...); r.code != 0 {
				c.Fail("%s: cindex %q: status %d: %s", what, args, r.code, r.err)
			}
		}
		if r := run("csearch", "common"); r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
			c.Fail("%s: csearch without an index: status %d, %q %q", what, r.code, r.out, r.err)
		}
		judge("search without an index")
		if r := run("cindex", "-list"); r.code == 0 || len(r.out) > 0 || len(r.err) == 0 {
			c.Fail("%s: cindex -list without an index: status %d, %q %q", what, r.code, r.out, r.err)
		}
		judge("list without an index")
		ok(filepath.Join(w.tree, "one"))
		judge("creation", "one")
		ok(filepath.Join(w.tree, "two"))
		judge("addition", "one", "two")
		ok()
		judge("repetition", "one", "two")
		ok("-reset", filepath.Join(w.tree, "two"))
		judge("reset with a path", "two")
		ok("-reset")
		judge("reset")
		c.Count("settings", 1)
	}
}

// ---- C36

func runC36(c *C) {
	w := newWorld(c, "w")
	for _, t := range []string{"a", "b"} {
		for i := range 2 + c.IntN(8) {
			w.tryWrite(fmt.Sprintf("%s/%s%d", t, w.genName(50), i), genContent(c, 20+c.IntN(600)))
		}
	}
	if c.Chance(3) {
		w.bulk("b", 1+c.IntN(4))
	}
	ra, rb := w.tree+"/a", w.tree+"/b"
	w.must("cindex", ra)
	m0 := &idxModel{}
	m0.update([]string{ra}, false)
	for i := range 1 + c.IntN(4) {
		w.tryWrite(fmt.Sprintf("a/late%d", i), "late "+genContent(c, 200))
	}
	old, err := os.ReadFile(w.idx)
	if err != nil {
		c.Fail("no index: %v", err)
	}
	upd := []string{ra, rb}
	if c.Chance(3) {
		upd = []string{rb}
	}
	if c.Chance(3) {
		upd = append([]string{"-check"}, upd...)
	}
	m1 := &idxModel{roots: m0.roots, docs: m0.docs}
	reset := c.Chance(4)
	if reset {
		m1 = &idxModel{}
	}
	m1.update(slices.DeleteFunc(slices.Clone(upd), func(s string) bool { return s == "-check" }), false)
	if reset {
		upd = append([]string{"-reset"}, upd...)
	}
	type query struct {
		name string
		args []string
		want [2]string
		code [2]int
	}
	qs := []query{{"cindex", []string{"-list"}, [2]string{strings.Join(m0.roots, "\n") + "\n", strings.Join(m1.roots, "\n") + "\n"}, [2]int{}}}
	for _, e := range []string{"late", "[a-z]+", pick(c, []string{"e", "abc", "hello|foo", "zzzz", "(?i)INT", "^"})} {
		for _, o := range []grepOpts{{n: true}, {l: true}, {c: true}} {
			if c.Chance(2) {
				continue
			}
			q := query{name: "csearch", args: append(o.flags(), "--", e)}
			if c.Chance(4) {
				q.args = append([]string{"-brute"}, q.args...)
			}
			for v, m := range []*idxModel{m0, m1} {
				b, matched, _ := grepDocs(m.docs, "(?m)"+e, o)
				q.want[v] = b.String()
				if matched == 0 {
					q.code[v] = 1
				}
			}
			qs = append(qs, q)
		}
	}
	type answer struct {
		q        int
		from, to time.Time
		slow     bool
		r        result
	}
	type period struct {
		version  int
		from, to time.Time
	}
	periods := []period{{version: 0, from: time.Now()}}
	var answers []answer
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan bool)
	const clients = 4
	var picks [clients][]int
	for i := range picks {
		for range 4000 {
			picks[i] = append(picks[i], c.IntN(len(qs)))
		}
	}
	nap, napAt := 2+c.IntN(15), w.idx
	if reset && c.Chance(2) { // between the files, too
		nap, napAt = 1, w.dir
	}
	for i := range clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slow := i%2 == 1 // pauses between the steps of opening the index
			for _, k := range picks[i] {
				select {
				case <-stop:
					return
				default:
				}
				a := answer{q: k, slow: slow, from: time.Now()}
				cmd := w.cmd(qs[k].name, qs[k].args...)
				if slow {
					cmd = w.faultCmd(qs[k].name, qs[k].args...)
					cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_FAULT=R:1:nap=%d", nap), "VERIF_ROOT="+napAt)
				}
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				cmd.Run()
				a.to = time.Now()
				a.r = result{code: cmd.ProcessState.ExitCode(), out: out.Bytes(), err: errb.Bytes()}
				mu.Lock()
				answers = append(answers, a)
				mu.Unlock()
			}
		}()
	}
	problem := ""
	for range 2 {
		time.Sleep(time.Duration(c.IntN(10)) * time.Millisecond)
		cmd := w.faultCmd("cindex", upd...)
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_FAULT=W:1:nap=%d", 1+c.IntN(6)))
		t0 := time.Now()
		r := runCmd(c, cmd)
		t1 := time.Now()
		if r.code != 0 {
			problem = fmt.Sprintf("cindex %q during searches: status %d: %s", upd, r.code, r.err)
			break
		}
		periods[len(periods)-1].to = t1
		periods = append(periods, period{version: 1, from: t0})
		c.Count("updates", 1)
		time.Sleep(time.Duration(c.IntN(20)) * time.Millisecond)
		t0 = time.Now()
		tmp := w.idx + ".old"
		if os.WriteFile(tmp, old, 0o600) != nil || os.Rename(tmp, w.idx) != nil {
			harness("putting the old index back")
		}
		t1 = time.Now()
		periods[len(periods)-1].to = t1
		periods = append(periods, period{version: 0, from: t0})
	}
	time.Sleep(5 * time.Millisecond)
	close(stop)
	wg.Wait()
	periods[len(periods)-1].to = time.Now()
	if problem != "" {
		c.Fail("%s", problem)
	}
	for _, a := range answers {
		q := qs[a.q]
		c.Count("answers", 1)
		if a.slow {
			c.Count("slow_answers", 1)
		}
		var allowed [2]bool
		for _, p := range periods {
			if !a.to.Before(p.from) && !a.from.After(p.to) {
				allowed[p.version] = true
			}
		}
		if allowed[0] && allowed[1] {
			c.Count("during_update", 1)
		}
		ok := false
		for v := range 2 {
			if allowed[v] && string(a.r.out) == q.want[v] && a.r.code == q.code[v] && len(a.r.err) == 0 {
				ok = true
				if q.want[0] != q.want[1] {
					c.Count([]string{"old_answers", "new_answers"}[v], 1)
				}
				c.Seen(c.Case, q.args, v)
				break
			}
		}
		// A reset deletes the index first; for a time there is none.
		if reset && allowed[0] && allowed[1] && !ok && len(a.r.out) == 0 &&
			(a.r.code == 1 && strings.Contains(string(a.r.err), w.idx+": no such file") || a.r.code > 0 && strings.Contains(string(a.r.err), "corrupt index")) {
			ok = true
			c.Count("no_index", 1)
		}
		if reset && ok && len(a.r.err) == 0 && allowed[0] && allowed[1] {
			c.Count("answers_during_reset", 1)
		}
		if !ok {
			c.Fail("%s %q during updates: status %d, stderr %.300q, and the output is that of no index current at the time (old %v: %s; new %v: %s)", q.name, q.args, a.r.code, a.r.err,
				allowed[0], firstDiff(a.r.out, []byte(q.want[0])), allowed[1], firstDiff(a.r.out, []byte(q.want[1])))
		}
	}
	c.Sample("%d answers during %d updates", len(answers), len(periods)/2)
}

// ---- C37

func runC37(c *C) {
	w := newWorld(c, "w")
	tops := []string{"a", "b"}
	for _, t := range tops {
		w.genTree(t, 1+c.IntN(12))
	}
	zips := c.Chance(3)
	if zips {
		w.tryWrite("a/z.zip", string(w.genZip()))
	}
	if c.Chance(4) {
		w.bulk("b", 2)
	}
	diag := func(cindex bool) (flags []string, prof string) {
		if c.Chance(2) {
			flags = append(flags, "-verbose")
		}
		if c.Chance(3) {
			prof = filepath.Join(w.dir, "prof")
			os.Remove(prof)
			flags = append(flags, "-cpuprofile", prof)
		}
		if cindex && c.Chance(2) {
			flags = append(flags, "-check")
		}
		if cindex && c.Chance(2) {
			flags = append(flags, "-stats")
		}
		return
	}
	profile := func(what, prof string) {
		if prof == "" {
			return
		}
		b, err := os.ReadFile(prof)
		if err != nil || len(b) < 2 || b[0] != 0x1f || b[1] != 0x8b {
			c.Fail("%s: no profile was written (%v, %d bytes)", what, err, len(b))
		}
		c.Count("profiles", 1)
	}
	m := &idxModel{}
	for step := range 2 {
		before, _ := os.ReadFile(w.idx)
		var args []string
		if zips {
			args = append(args, "-zip")
		}
		roots := []string{filepath.Join(w.tree, tops[step])}
		if c.Chance(3) {
			roots = []string{w.tree}
		}
		r0 := w.must("cindex", append(slices.Clone(args), roots...)...)
		plain, err := os.ReadFile(w.idx)
		if err != nil {
			c.Fail("no index: %v", err)
		}
		if len(r0.out) > 0 {
			c.Fail("cindex prints %q", r0.out)
		}
		os.Remove(w.idx)
		if before != nil {
			os.WriteFile(w.idx, before, 0o600)
		}
		flags, prof := diag(true)
		args = append(append(flags, args...), roots...)
		r := w.must("cindex", args...)
		what := fmt.Sprintf("cindex %q", args)
		c.Count("pairs", 1)
		c.Seen(c.Case, args)
		got, _ := os.ReadFile(w.idx)
		if !bytes.Equal(got, plain) {
			c.Fail("%s makes another index than without the flags", what)
		}
		profile(what, prof)
		m.update(roots, zips)
		ri := checkIndex(c, what, w.idx, m.roots, m.docs)
		if slices.Contains(flags, "-stats") {
			c.checkStats(what, string(r.out), len(m.roots), len(m.docs), len(ri.posts), len(got))
		} else if len(r.out) > 0 {
			c.Fail("%s prints %q", what, r.out)
		}
		// What the log says.
		var docs []doc
		for _, p := range refRoots(roots) {
			docs = append(docs, refWalk(p, zips)...)
		}
		sortDocs(docs)
		c.checkLog(what, string(r.err), docs, slices.Contains(flags, "-verbose"), before == nil, len(got))
	}
	for range 2 {
		flags, _ := diag(true)
		want := w.must("cindex", "-list")
		r := w.run("cindex", append(flags, "-list")...)
		if r.code != 0 || !bytes.Equal(r.out, want.out) || (len(r.err) > 0 && !slices.Contains(flags, "-verbose")) {
			c.Fail("cindex %q -list: status %d, output: %s; stderr %q", flags, r.code, firstDiff(r.out, want.out), r.err)
		}
		c.Count("pairs", 1)
	}
	for range 4 {
		e := pick(c, []string{"e", "abc", "hello", "foo|bar", "zzzz", "[a-z]{3}", "世界", "(?i)return", "^", "text.*a", "in(t|x)"})
		o := randOpts(c, false)
		argv := append(o.flags(), "--", e)
		want := w.run("csearch", argv...)
		flags, prof := diag(false)
		filter := ""
		if c.Chance(3) {
			filter = pick(c, []string{"a", "foo", "zzz", `\.`, "[0-9]$"})
			want = w.run("csearch", append([]string{"-f", filter}, argv...)...)
			flags = append(flags, "-f", filter)
		}
		argv = append(flags, argv...)
		r := w.run("csearch", argv...)
		what := fmt.Sprintf("csearch %q", argv)
		if r.code != want.code || !bytes.Equal(r.out, want.out) {
			c.Fail("%s: status %d, without the diagnostic flags %d; output: %s", what, r.code, want.code, firstDiff(r.out, want.out))
		}
		c.Count("pairs", 1)
		c.Seen(c.Case, argv)
		profile(what, prof)
		if !slices.Contains(flags, "-verbose") {
			if len(r.err) > 0 {
				c.Fail("%s: stderr %q", what, r.err)
			}
			continue
		}
		re, err := syntax.Parse("(?m)"+e, syntax.Perl)
		if err != nil {
			harness("%v", err)
		}
		q := index.RegexpQuery(re)
		cand, named := 0, 0
		for _, d := range m.docs {
			tri := trigramsOf([]byte(d.data))
			if evalQuery(q, func(t string) bool { return tri[t] }) {
				cand++
				if filter != "" && refMatch(mustParse(filter), d.name, true, true) >= 0 {
					named++
				}
			}
		}
		if n, ok := number(string(r.err), "post query identified ", " possible files"); !ok || n != cand {
			c.Fail("%s: says %d (%v) candidate files, there are %d: %s", what, n, ok, cand, r.err)
		}
		if filter != "" {
			if n, ok := number(string(r.err), "filename regexp matched ", " files"); !ok || n != named {
				c.Fail("%s: says %d (%v) files with matching names, there are %d: %s", what, n, ok, named, r.err)
			}
		}
		c.Count("candidates", 1)
	}
	if len(m.docs) > 0 && c.Chance(2) {
		d := pick(c, m.docs)
		if !strings.Contains(d.name, "\x01") {
			prof := filepath.Join(w.dir, "prof")
			os.Remove(prof)
			want := w.run("cgrep", "-n", "--", "e", d.name)
			r := w.run("cgrep", "-cpuprofile", prof, "-n", "--", "e", d.name)
			if r.code != want.code || !bytes.Equal(r.out, want.out) || len(r.err) > 0 {
				c.Fail("cgrep -cpuprofile: status %d, want %d: %s; %q", r.code, want.code, firstDiff(r.out, want.out), r.err)
			}
			c.Count("pairs", 1)
			profile("cgrep -cpuprofile", prof)
		}
	}
}

// number is the number between the two texts.
func number(s, before, after string) (int, bool) {
	_, s, ok := strings.Cut(s, before)
	if !ok {
		return 0, false
	}
	s, _, ok = strings.Cut(s, after)
	if !ok {
		return 0, false
	}
	n, err := strconv.Atoi(s)
	return n, err == nil
}

func (c *C) checkStats(what, out string, roots, names, posts, size int) {
	c.Count("stats", 1)
	for _, x := range []struct {
		kind, unit string
		n          int
	}{{"path list", "paths", roots}, {"name list", "names", names}, {"posting lists", "trigrams", posts}} {
		if n, ok := number(out, x.kind+" (", " "+x.unit+")"); !ok || n != x.n {
			c.Fail("%s: statistics say %d %s, there are %d:\n%s", what, n, x.unit, x.n, out)
		}
	}
	sum := 0
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		f, _, _ := strings.Cut(line, " ")
		n, err := strconv.Atoi(f)
		if err != nil || n < 0 {
			c.Fail("%s: statistics line %q", what, line)
		}
		sum += n
	}
	if sum > size || sum < size-200 {
		c.Fail("%s: the lists are said to have %d bytes, of %d in the file:\n%s", what, sum, size, out)
	}
}

func (c *C) checkLog(what, log string, docs []doc, verbose, fresh bool, size int) {
	total := 0
	for _, d := range docs {
		total += len(d.data)
	}
	found := false
	seen := map[string]int{}
	for _, line := range strings.Split(log, "\n") {
		_, msg, ok := strings.Cut(line, "cindex: ")
		if !ok {
			continue
		}
		f := strings.SplitN(msg, " ", 6)
		if len(f) >= 3 { // maybe after a time
			for len(f) > 3 && strings.ContainsAny(f[0], "/:") {
				msg = strings.TrimPrefix(msg, f[0]+" ")
				f = f[1:]
			}
		}
		if strings.Contains(msg, " data bytes, ") {
			var d, i int
			if n, _ := fmt.Sscanf(msg, "%d data bytes, %d index bytes", &d, &i); n != 2 {
				c.Fail("%s: log line %q", what, line)
			}
			found = true
			if d != total || fresh && i != size {
				c.Fail("%s: the log says %d bytes of data in an index of %d bytes; it is %d and (if it was new: %v) %d", what, d, i, total, fresh, size)
			}
			continue
		}
		var n, k int
		a, rest, _ := strings.Cut(msg, " ")
		b, name, ok := strings.Cut(rest, " ")
		n, err1 := strconv.Atoi(a)
		k, err2 := strconv.Atoi(b)
		if !ok || err1 != nil || err2 != nil || !strings.HasPrefix(name, "/") {
			continue
		}
		seen[name]++
		c.Count("file_lines", 1)
		for _, d := range docs {
			if d.name == name && (n != len(d.data) || k != len(triList(d.data))) {
				c.Fail("%s: the log says %q has %d bytes and %d trigrams; it has %d and %d", what, name, n, k, len(d.data), len(triList(d.data)))
			}
		}
	}
	if !found {
		c.Fail("%s: the log does not say how much was indexed: %s", what, log)
	}
	if verbose {
		for _, d := range docs {
			if seen[d.name] != 1 && !strings.ContainsAny(d.name, "\n") {
				c.Fail("%s: the log has %d lines for %q", what, seen[d.name], d.name)
			}
		}
		if len(seen) != len(docs) {
			c.Fail("%s: the log lists %d files, %d were indexed", what, len(seen), len(docs))
		}
	}
}
