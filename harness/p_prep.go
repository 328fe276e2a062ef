package main

// C42: preparing a search is safe for every expression.

import (
	"fmt"
	stdregexp "regexp"
	"regexp/syntax"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

func init() {
	register(&Prop{ID: "C42", Quick: 8000, Thorough: 240000, Run: runC42, Stall: 120 * time.Second,
		Rule:     "expressions: the whole syntax of Go (names, flags, quoted text, all escapes and classes, counts), mutations of them, random bytes; and families that make automata or sets of strings explode (cycles of many lengths, products of classes and alternatives, folding, deep nesting, large counts and classes, and random combinations of these), in two sizes; each is compiled and its query derived while the bytes allocated and the CPU time are measured; accepted ones are searched on short ASCII lines and compared with Go's regexp; distinct by expression",
		Assume:   []string{"the budgets (bytes, CPU time, size of the query) are about ten times what the unchanged code needs"},
		MinEvent: map[string]int64{"accepted": 60000, "refused": 40000, "lines_matched": 10000, "lines_not_matched": 10000, "families": 4000, "family_pairs": 2000}})
}

// cpuTime is the CPU time this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func allocated() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

// writtenOut is the size of the expression with its counts written out.
func writtenOut(e string, ast *syntax.Regexp) (n int, ok bool) {
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return 0, false
	}
	n = len(e) + 10
	for _, i := range prog.Inst {
		n += 1
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1:
			n += len(i.Rune)
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			n += 10
		}
	}
	return n, true
}

func querySize(q *index.Query) int {
	n := 1 + len(q.Trigram)
	for _, s := range q.Sub {
		n += querySize(s)
	}
	return n
}

// prepare compiles e and derives its query within the budget of its size.
func (c *C) prepare(e string, parsed *syntax.Regexp) (*regexp.Regexp, *index.Query, int) {
	size, ok := writtenOut(e, parsed)
	if !ok {
		return nil, nil, 0
	}
	a0, t0 := allocated(), cpuTime()
	re, err := regexp.Compile(e)
	a1, t1 := allocated(), cpuTime()
	if err != nil {
		c.Fail("%q is refused: %v", e, err)
	}
	if re.String() != e {
		c.Fail("%q says that it is %q", e, re.String())
	}
	q := index.RegexpQuery(re.Syntax)
	a2, t2 := allocated(), cpuTime()
	if max := int64(1<<20) + 8_000*int64(size); a1-a0 > max {
		c.Fail("compiling %q (written out: %d) allocates %d bytes, more than %d", clip(e), size, a1-a0, max)
	}
	if max := int64(1<<20) + 10_000*int64(size); a2-a1 > max {
		c.Fail("deriving the query of %q (written out: %d) allocates %d bytes, more than %d", clip(e), size, a2-a1, max)
	}
	if max := time.Second + time.Duration(size)*time.Millisecond; t1-t0 > max || t2-t1 > max {
		c.Fail("compiling %q (written out: %d) takes %v, deriving its query %v of CPU time, more than %v", clip(e), size, t1-t0, t2-t1, max)
	}
	n := querySize(q)
	if n > 2000+100*size {
		c.Fail("the query of %q (written out: %d) has %d parts", clip(e), size, n)
	}
	c.Count("query_parts", n)
	ratio("compile_bytes", a1-a0, size)
	ratio("query_bytes", a2-a1, size)
	ratio("query_parts", int64(n)*1000, size)
	ratio("cpu_ns", int64(t2-t0), size)
	return re, q, size
}

var ratios = map[string]int64{}

func ratio(kind string, n int64, size int) {
	r := n / int64(size+500)
	if r > ratios[kind] {
		ratios[kind] = r
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:200] + "..." + s[len(s)-80:]
	}
	return s
}

// odd is a piece of an expression that uses the less known syntax.
func (c *C) odd(depth int) string {
	sub := func() string { return c.odd(depth - 1) }
	if depth <= 0 {
		return pick(c, []string{"a", "b", "k", "K", "s", "S", "z", "_", "0", "9", " ", "-", ".", ",", "ab", "abc", "hello", `\Qa.b\E`, `\Q*\E`, `\Q[\E`, `\Q\E`, `\x41`, `\x{61}`, `\x{1F600}`, `\x{7f}`, `\101`, `\07`, `\a`, `\f`, `\t`, `\v`, `\r`, `\.`, `\*`, `\-`, `\_`, `\pL`, `\PL`, `\p{Lu}`, `\p{^Lu}`, `\P{Greek}`, `\p{Any}`, `\d`, `\D`, `\w`, `\W`, `\s`, `\S`, `[a-k]`, `[^a-k]`, `[]a]`, `[^]a]`, `[a\-z]`, `[a-]`, `[-a]`, `[\d\pL]`, `[^\d_]`, `[[:alpha:]]`, `[[:^alpha:]]`, `[[:word:][:space:]]`, `[\x{61}-\x{7a}]`, `[\Q]`, `[\n]`, `[^\n]`, `[^\x00-\x{10FFFF}]`, `[\x00-\x{10FFFF}]`, `é`, `世`, `ſ`, `K`, `^`, `$`, `\A`, `\z`, `\b`, `\B`, "", "", `\n`, "{", "}", "{,2}", "{a}", "#", "\x00", "\x7f"})
	}
	switch c.IntN(13) {
	case 0:
		return "(" + sub() + ")"
	case 1:
		return fmt.Sprintf("(?P<n%d>%s)", c.IntN(1000), sub())
	case 2:
		return fmt.Sprintf("(?<m%d>%s)", c.IntN(1000), sub())
	case 3:
		return "(?" + pick(c, []string{"i", "s", "m", "U", "is", "i-s", "-i", "-m", "-s", "im-s", "U-i", "-U", ""}) + ":" + sub() + ")"
	case 4:
		return "(?" + pick(c, []string{"i", "s", "U", "-i", "-s", "i-U"}) + ")" + sub()
	case 5, 6:
		return sub() + "|" + sub()
	case 7, 8:
		return "(?:" + sub() + ")" + pick(c, []string{"*", "+", "?", "*?", "+?", "??", "{2}", "{0}", "{1}", "{0,1}", "{1,}", "{0,}", "{2,4}", "{2,4}?", "{3}?", "{0,0}"})
	default:
		return sub() + sub()
	}
}

// family makes an expression that might explode, of size n.
func (c *C) family(kind, n int) string {
	rep := func(s, sep string, n int) string { return strings.TrimSuffix(strings.Repeat(s+sep, n), sep) }
	seq := func(n int, f func(i int) string, sep string) string {
		l := make([]string, n)
		for i := range l {
			l[i] = f(i)
		}
		return strings.Join(l, sep)
	}
	word := func(i int) string { return fmt.Sprintf("w%cx%d", 'a'+i%26, i*7919) }
	switch kind {
	case 0: // cycles of many lengths
		primes := []int{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
		d := pick(c, []string{".", "[^a]", "(?s:.)", `\n`, `[a\n]`, `[^\n]`, "a", `\pL`, "(?i:k)", `\W`, `\s`})
		head := pick(c, []string{`\A`, "^", "(?-m:^)", `\b`, "", "a"})
		tail := pick(c, []string{"a", "$", `\z`, `\b`, "b", "é"})
		op := pick(c, []string{"*", "+", "*?"})
		return head + "(?:" + seq(min(n, len(primes)), func(i int) string { return fmt.Sprintf("(?:%s{%d})%s%s", d, primes[i], op, tail) }, "|") + ")"
	case 1: // states remember many positions
		return pick(c, []string{"[ab]*a[ab]", "(?:a|b)*a(?:a|b)", ".*a.", `\w*k\w`, "(?i:[a-z])*k(?i:[a-z])"}) + fmt.Sprintf("{%d}", min(12*n, 600)) + pick(c, []string{"", "$", "c"})
	case 2: // products of classes
		return rep(pick(c, []string{"[ab]", "[a-t]", "[abc][def]", "[a-t].*", "[ab]?", "(?:ab|cd|ef)", "(?:a|bc|def)", "(?:|a)", "(?:ab|c)?", "[k-s]+", "(?:aaa|bbb|ccc|ddd|eee|fff|ggg|hhh)"}), "", 4*n)
	case 3: // folding
		return "(?i)" + rep(pick(c, []string{"ks", "k", "abc", "ſK", "sk.", "k|s", "[ks]", "θΘ", "a[k-s]"}), pick(c, []string{"", "", "|", ".*"}), 3*n)
	case 4: // nesting
		o := pick(c, [][2]string{{"(", ")*"}, {"(?:", "|a)"}, {"(a|", ")"}, {"(?:", "a?)*"}, {"(", ")?"}, {"(?:b", "|a)+"}, {"(?:(?:a", ")|b)"}, {"(", ")"}})
		n = min(n*15, 300)
		return strings.Repeat(o[0], n) + "abc" + strings.Repeat(o[1], n)
	case 5: // many alternatives
		return seq(n*20, word, "|")
	case 6:
		return "(?:" + seq(n*10, word, "|") + ")" + pick(c, []string{"", "*", "+", "x", ".*"}) + "(?:" + seq(n*10, word, "|") + ")"
	case 7: // counts
		return pick(c, []string{"a{%d}", "(?:ab?){%d}", "(?:x?){%d}", "(?:a*){%d}", "(?:a|){%d}", "(?:(?:a?){3}){%d}", "a{0,%d}", "(?:a{0,%[1]d})b{%[1]d,}", "(?:a+b*c?){%d}"})
	case 8: // large classes
		return rep(pick(c, []string{`\pL`, `\PL`, `[^k]`, `(?i:[^k])`, `\p{Han}`, `[\x{100}-\x{10ffff}]`, `(?i:\pL)`, `\W`, "."}), pick(c, []string{"", "", "|", "a"}), n)
	case 9: // classes of the sizes at which sets change
		k := pick(c, []int{5, 6, 7, 8, 19, 20, 21, 99, 100, 101, 102, 130})
		return rep(fmt.Sprintf(`[\x{4e00}-\x{%x}]`, 0x4e00+k), pick(c, []string{"", "", ".*", "|", "a"}), n)
	case 10:
		return seq(n*6, func(i int) string {
			return fmt.Sprintf("(%s%s%s)%s", word(i), pick(c, []string{"|", ".*", "", "[ab]"}), word(i+1), pick(c, []string{"", "*", "?", "+"}))
		}, pick(c, []string{"", "|", ".", "x"}))
	default: // combinations
		var b strings.Builder
		for m := 2 + c.IntN(3); m > 0; m-- {
			e := c.family(c.IntN(11), 1+n/3)
			if c.Chance(2) {
				e = "(?:" + e + ")"
			}
			if c.Chance(3) {
				e = "(?:" + e + ")" + pick(c, []string{"*", "+", "?"})
			}
			b.WriteString(e + pick(c, []string{"", "|", ".*", "a"}))
		}
		return b.String()
	}
}

func runC42(c *C) {
	if c.Case%2 == 1 {
		c.explode()
		return
	}
	for range 40 {
		e := pick(c, []string{"(?m)", "(?m)", "(?i)(?m)", ""}) + c.odd(1+c.IntN(5))
		for m := c.IntN(4) - 1; m > 0; m-- { // damage it
			b := []byte(e)
			i := c.IntN(len(b) + 1)
			switch c.IntN(4) {
			case 0:
				b = append(b[:i:i], append([]byte(pick(c, []string{"(", ")", "[", "]", "*", "{", "}", "\\", "?", "|", "(?", "(?P<", "[[:", `\p{`, `\Q`, `\x{`, "\xff", "\xc3", "{2", "{1001}", "{2,1}", "**", `\C`, `\8`, `\pX`, "z-a", "(?=a)", "(?#c)", "\n", "\xed\xa0\x80", `\x{110000}`, "{1000}"})), b[i:]...)...)
			case 1:
				if i < len(b) {
					b = append(b[:i:i], b[i+1:]...)
				}
			case 2:
				b = b[:i]
			default:
				if i < len(b) {
					b[i] = byte(c.IntN(256))
				}
			}
			e = string(b)
		}
		c.accept(e)
	}
}

// accept compares with what Go says about the expression.
func (c *C) accept(e string) {
	std, err := stdregexp.Compile(e)
	if err != nil {
		if re, err1 := regexp.Compile(e); err1 == nil || re != nil {
			c.Fail("%q is accepted; Go says: %v", e, err)
		}
		c.Count("refused", 1)
		return
	}
	re, q, _ := c.prepare(e, mustParse(e))
	if re == nil {
		return
	}
	c.Count("accepted", 1)
	c.Seen(e)
	for range 4 {
		var b []byte
		for n := c.IntN(12); n > 0; n-- {
			b = append(b, pick(c, []string{"a", "b", "k", "K", "s", "S", "z", "_", "0", "9", " ", "-", ".", ",", "ab", "abc", "hello", "{", "}", "[", "*", "#", "A", "\t", "\x00", "\x7f"})...)
		}
		want := std.Match(b)
		end := re.Match(b, true, true)
		if (end >= 0) != want || end > len(b) || re.MatchString(string(b), true, true) != end {
			c.Fail("%q on %q: Match says %d, MatchString %d, Go says %v", e, b, end, re.MatchString(string(b), true, true), want)
		}
		if !want {
			c.Count("lines_not_matched", 1)
			continue
		}
		c.Count("lines_matched", 1)
		tri := trigramsOf(b)
		if !evalQuery(q, func(t string) bool { return tri[t] }) {
			c.Fail("%q matches %q, its query does not: %v", e, b, q)
		}
	}
}

// explode prepares a family in two sizes.
func (c *C) explode() {
	kind := (c.Case / 2) % 12
	n := 2 + c.IntN(7)
	seed := c.Uint64()
	made := 0
	for _, k := range []int{n, 2 * n} {
		d := *c
		d.Rand = caseRand("C42/family", seed, kind) // the same choices
		e := pick(&d, []string{"(?m)", "(?i)(?m)"}) + d.family(kind, k)
		if strings.Contains(e, "%") {
			e = fmt.Sprintf(e, min(k*k*4, 1000))
		}
		parsed, err := syntax.Parse(e, syntax.Perl)
		if err != nil {
			c.Count("too_large", 1)
			continue
		}
		if size, ok := writtenOut(e, parsed); !ok || size > 200_000 {
			c.Count("too_large", 1)
			continue
		}
		re, _, size := c.prepare(e, parsed)
		c.Count("families", 1)
		c.Seen(e)
		made++
		// A search builds a state or so per byte.
		var text []byte
		for m := 20 + c.IntN(200); m > 0; m-- {
			text = append(text, pick(c, []string{"a", "b", "a", "k", "s", "x", "w", "1", "7", "é", "K", "abc", "\n"})...)
		}
		a0 := allocated()
		re.Match(text, true, true)
		a1 := allocated()
		if max := int64(1<<20) + int64(len(text))*(20_000+100*int64(size)); a1-a0 > max {
			c.Fail("searching %d bytes for %q (written out: %d) allocates %d bytes, more than %d", len(text), clip(e), size, a1-a0, max)
		}
		ratio("match_bytes_per_byte", (a1-a0)/int64(len(text)), size)
	}
	if made == 2 {
		c.Count("family_pairs", 1)
	}
	if c.Case%500 == 1 {
		c.Sample("most per unit of size so far: %v", ratios)
	}
}
