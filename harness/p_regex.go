package main

import (
	"bytes"
	"fmt"
	"io"
	stdregexp "regexp"
	"regexp/syntax"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

func init() {
	register(&Prop{ID: "C02", Quick: 360000, Thorough: 4000000, Run: runC02,
		Rule:     "random and directed expressions; texts sampled from the expression and mutated; a case is non-trivial when the reference matcher says a line matches and the query restricts (is neither all nor none); distinct by expression and text",
		Assume:   []string{"the reference matcher (set semantics on the parsed expression) decides what matches; it is cross-checked with Go's regexp on ASCII during every run"},
		MinEvent: map[string]int64{"match_and_query": 60000, "trigrams_in_queries": 100000}})
	register(&Prop{ID: "C06", Quick: 200000, Thorough: 3000000, Run: runC06,
		Rule:     "random expressions x texts (several lines, UTF-8 and broken UTF-8) x begin/end-of-text arguments; non-trivial: expression consumes or asserts something and the text is non-empty; distinct by expression, text and arguments",
		Assume:   []string{"bytes that are not part of valid UTF-8 are matched by no class and no dot (byte automaton over UTF-8 encodings)", "with endText=false the end of the buffer counts as the end of a line"},
		MinEvent: map[string]int64{"matches": 60000, "non_matches": 20000, "go_regexp_crosschecks": 60000}})
	register(&Prop{ID: "C07", Quick: 24000, Thorough: 500000, Run: runC07,
		Rule:     "one compiled expression searched in a random history of texts (bytes and strings, all argument combinations, repetitions); each answer compared with a freshly compiled object and with the reference matcher; distinct by expression and history",
		MinEvent: map[string]int64{"searches": 60000, "repeat_searches": 10000, "state_explosions": 10}})
	register(&Prop{ID: "C29", Quick: 800, Thorough: 3000, Run: runC29,
		Rule:     "each case sweeps all 1112064 code points with one class, range or literal, or walks a block of case-folding orbits; non-trivial: class neither empty nor full; distinct by expression",
		MinEvent: map[string]int64{"codepoints_judged": 50_000_000, "fold_orbits": 1300, "invalid_sequences": 1_000_000}})
	register(&Prop{ID: "C31", Quick: 1600, Thorough: 30000, Run: runC31,
		Rule:     "explosive and random expressions on long texts; a case is non-trivial when the first search allocated automaton states; distinct by expression",
		MinEvent: map[string]int64{"bytes_rescanned": 50_000_000, "first_scan_allocs": 10000, "times_compared": 1500}})
}

// Expressions that exercise particular paths; %s-free.
var directedExprs = []string{
	`(?:[abc]|0.*z)xy`, `(?:abc|0.*z)xyd`, `(abc|def|.*)ghi`, `(?:a|b.*c)def`, `(?:(?:abc)?|x+)def`, `(?:abc|)def`, `(?:|abc)def`,
	`(a?b?c?)def`, `(a+hello|b+hello)`, `(?i)abc`, `(?i)kelvin`, `(?i)straße`, `(?i:s)ection`, `(abc){2}`, `(abc){2,}x`, `(abc){0}def`,
	`(?:ab|cd)(?:ef|gh)(?:ij|kl)`, `[abc][def][ghi][jkl]`, `[a-z]bcd`, `a[b-d]e[f-h]i`, `(?:abc|abd|abe|abf|abg|abh|abi|abj)`, `(?i)abcdefgh`,
	`(abcd|efgh)+`, `(abcd|efgh)*xyz`, `(?:a.*b|abc|abd)x`, `(?:abc.*|def)ghi`, `a.b.c`, `abc.*def`, `abc.*(?:def|ghi).*jkl`, `(abc.*def|ghi.*jkl|mno)`,
	`abc$`, `^abc`, `\babc\b`, `\Babc`, `(?m)^abc$`, `(?m)abc$.*`, `(?:^abc|def$)`, `(?:abc\b|\bdef)`, `x*abc`, `x*a*bc`, `(?:x*)(?:y*)abc`, `a??bc`, `(?s)abc.def`,
	`(?:xyz|.)abc`, `(?:abc|[^x])def`, `[^\x00-\x{10ffff}]`, `abc[^\x00-\x{10ffff}]|def`, `(?:)`, `a|b|c|d|e|f|g|h|i|j|k|l|m`, `(?:[ab][cd][ef][gh]|ijkl)`,
	`[[:word:]]abc`, `世界`, `[世界]人`, `(?i)ΣΑΣ`, `ab(?:世|x)cd`, `(?:é|e)té`, `(?i)é+t`, `a{3}b{3}`, `(?:ab){2,3}c`, `(?:a|ab|abc|abcd)e`, `(?:abcdx|bcdx|cdx|dx)y`,
	`(abc|bcd|cde)(def|efg)`, `((((abc))))d`, `(?:abc(?:def)?|ghi)`, `(?:a(?:b(?:c(?:d)?)?)?)?efg`, `(?:ab*c|abc)def`, `[ab]{4}`, `[ab]{3}c`, `(?:aaa|aab|aba|abb|baa|bab|bba|bbb)c`,
	`(?:abc|abc.*)`, `(?:abcdef|abc.*|xyz)q`, `.*abc.*|.*abd.*`, `(foo|foobar|bar)+baz`, `(?:foo.*bar|foo.*baz)qux`, `(?:0.*z|[abc])xy`, `(?:[abc]|0.*z|[def])xy`, `(?:[abcdef]|0+)xy`, `(?:ab|c+)(?:de|f+)gh`,
	`(?:abc|0+)(?:def|1+)`, `(?:[abc]+|0.*z)xyw`, `(?:abc|def)?ghi`, `(?:a|bc|def)+ghi`,
	`\x{FEFF}`, `^\x{FEFF}abc`, `^.?abc`, `\x{FEFF}(?:abc|def)`, `abc\r$`, `\rabc`, `def\r?$`, `\x{2028}abc|\x{85}abc`, `abc[\r\f\v]`, `\x1aabc?`,
	`(?i)θab`, `(?i)abΘ`, `(?i)aιb`, `(?i)kθs`, `(?i)[θx]ab`, `(?i)ßab`, `(?i)ſkſ`,
}

func prefixFor(c *C) string {
	return []string{"(?m)", "(?m)", "(?i)(?m)", "", "(?s)", "(?im)", "(?U)"}[c.IntN(7)]
}

// nextExpr returns an expression with its flags prefix and its parse, and the generator used.
func nextExpr(c *C) (string, *syntax.Regexp, *regexGen) {
	g := newRegexGen(c.Rand)
	pre := prefixFor(c)
	if c.Chance(5) {
		e := pre + pick(c, directedExprs)
		g.alpha = []rune("abcdefxyz0")
		return e, mustParse(e), g
	}
	e, re := g.gen(pre)
	return pre + e, re, g
}

func compile(c *C, expr string) *regexp.Regexp {
	re, err := regexp.Compile(expr)
	if err != nil {
		c.Fail("Compile(%q) failed although the expression is valid: %v", expr, err)
	}
	return re
}

// c02Wide analyses expressions of very many parts.
func c02Wide(c *C) {
	alpha := pick(c, []string{"abcdefghijklm", "ab", "abcXYZ 019_", "aé世k\u212as\u017f"})
	word := func(n int) string {
		var b strings.Builder
		for range n {
			b.WriteRune(pick(c, []rune(alpha)))
		}
		return b.String()
	}
	n := []int{20, 100, 300, 700, 1500, 3000}[c.IntN(6)]
	var parts, texts []string
	expr := ""
	lo, hi := 1+c.IntN(6), 1+c.IntN(12)
	kind := c.IntN(5)
	for range n {
		parts = append(parts, word(lo+c.IntN(hi)))
	}
	switch kind {
	case 0, 1: // one of very many
		pre, post := word(c.IntN(4)), word(c.IntN(4))
		if c.Chance(2) {
			pre, post = "", ""
		}
		expr = pre + "(?:" + strings.Join(parts, "|") + ")" + post
		for range 40 {
			texts = append(texts, word(c.IntN(3))+pre+pick(c, parts)+post+word(c.IntN(3)))
		}
		texts = append(texts, pre+parts[0]+post, pre+parts[n-1]+post)
	case 2: // very many after each other
		parts = parts[:min(n, 400)]
		sep := pick(c, []string{".*", "", "[^b]?", " +", "(?:x|y)?"})
		expr = strings.Join(parts, sep)
		texts = append(texts, strings.Join(parts, pick(c, []string{" ", ""}[:1+len(sep)%2])))
		if sep == " +" {
			texts = []string{strings.Join(parts, "  ")}
		} else {
			texts = append(texts, strings.Join(parts, ""))
		}
	case 3: // alternatives, very often after each other
		var ws []string
		for _, p := range parts[:min(n, 100)] {
			q := word(1 + c.IntN(4))
			expr += "(?:" + p + "|" + q + ")"
			ws = append(ws, p, q)
		}
		for range 5 {
			t := ""
			for i := 0; i < len(ws); i += 2 {
				t += ws[i+c.IntN(2)]
			}
			texts = append(texts, t)
		}
	case 4: // a tree of alternatives
		var build func(ps []string) string
		build = func(ps []string) string {
			if len(ps) == 1 {
				return ps[0]
			}
			k := 1 + c.IntN(len(ps)-1)
			return "(?:" + build(ps[:k]) + "|" + build(ps[k:]) + ")"
		}
		expr = build(parts[:min(n, 300)])
		for range 40 {
			texts = append(texts, word(c.IntN(3))+pick(c, parts[:min(n, 300)])+word(c.IntN(3)))
		}
	}
	fold := c.Chance(4)
	if fold {
		expr = "(?i)" + expr
	}
	std, err := stdregexp.Compile(expr)
	if err != nil {
		return
	}
	re := compile(c, "(?m)"+expr)
	q := index.RegexpQuery(re.Syntax)
	c.Count("wide_expressions", 1)
	for _, t := range texts {
		if fold && c.Chance(2) {
			t = strings.ToUpper(t)
		}
		if !std.MatchString(t) {
			continue
		}
		if q.Op == index.QAll {
			c.Count("match_and_all", 1)
		} else {
			c.Count("match_and_query", 1)
			c.Seen(expr, t)
		}
		tri := trigramsOf([]byte(t))
		if !evalQuery(q, func(t string) bool { return tri[t] }) {
			c.Fail("expression %.2000q of %d parts (kind %d) matches text %.2000q, but its query rejects the text\nquery: %.2000s", expr, n, kind, t, q.String())
		}
	}
}

func runC02(c *C) {
	if c.Case%2048 == 2047 {
		c02Wide(c)
		return
	}
	expr, ast, g := nextExpr(c)
	if c.Case < 4*len(directedExprs) {
		expr = []string{"(?m)", "(?i)(?m)", "", "(?s)"}[c.Case%4] + directedExprs[c.Case/4]
		ast = mustParse(expr)
		g.alpha = []rune("abcdefxyz0")
	}
	re := compile(c, expr)
	q := index.RegexpQuery(re.Syntax)
	qs := q.String()
	c.Count("trigrams_in_queries", countQuery(q))
	for try := 0; try < 12; try++ {
		text := textFor(c.Rand, ast, g.alpha, 1+c.IntN(3), 400)
		end := refMatch(ast, string(text), true, true)
		if end < 0 {
			c.Count("texts_not_matching", 1)
			continue
		}
		if q.Op != index.QAll {
			c.Count("match_and_query", 1)
			c.Seen(expr, text)
		} else {
			c.Count("match_and_all", 1)
		}
		tri := trigramsOf(text)
		if !evalQuery(q, func(t string) bool { return tri[t] }) {
			c.Fail("expression %q matches text %q, but its query rejects the text\nquery: %s", expr, text, qs)
		}
		// Only the matching line, alone in a file.
		line := text[strings.LastIndexByte(string(text[:end]), '\n')+1 : end]
		if refMatch(ast, string(line), true, true) >= 0 {
			tri := trigramsOf(line)
			if !evalQuery(q, func(t string) bool { return tri[t] }) {
				c.Fail("expression %q matches text %q, but its query rejects the text\nquery: %s", expr, line, qs)
			}
		}
	}
	if s := q.String(); s != qs {
		c.Fail("query of %q changed while being evaluated: %s -> %s", expr, qs, s)
	}
	// The analysis must not depend on what was analysed before.
	if s := index.RegexpQuery(re.Syntax).String(); s != qs {
		c.Fail("two analyses of %q differ: %s and %s", expr, qs, s)
	}
	if q.Op != index.QAll {
		c.Sample("%s => %s", expr, qs)
	}
}

func isASCII(s string) bool {
	for i := range len(s) {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func crossCheck(c *C, expr string, ast *syntax.Regexp, std *stdregexp.Regexp, line string) {
	if std == nil || c.IntN(4) > 0 || !isASCII(line) || strings.Contains(line, "\n") {
		return
	}
	c.Count("go_regexp_crosschecks", 1)
	for _, e := range []int{0, 1, 2, 3} {
		if bot, eot := e&1 != 0, e&2 != 0; newRefLine(line, bot, eot).match(ast) != progMatch(refProg(ast), line, bot, eot) {
			harness("the two reference matchers disagree on %q, %q (%v, %v)", expr, line, bot, eot)
		}
	}
	if newRefLine(line, true, true).match(ast) != std.MatchString(line) {
		harness("reference matcher disagrees with Go regexp on %q, %q", expr, line)
	}
}

// breakUTF8 damages a text.
func breakUTF8(c *C, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + c.IntN(3); n > 0 && len(b) > 0; n-- {
		i := c.IntN(len(b))
		switch c.IntN(3) {
		case 0:
			b[i] = byte(0x80 + c.IntN(128))
		case 1:
			b = append(b[:i], b[i+1:]...)
		default:
			bad := []string{"\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xff", "\xe4\xb8", "\xf0\x9f\x98", "\xc3", "\x80", "\xe0\x80\xaf", "\x00"}
			s := bad[c.IntN(len(bad))]
			b = append(b[:i], append([]byte(s), b[i:]...)...)
		}
	}
	return b
}

// c06Wide searches with expressions of very many instructions.
func c06Wide(c *C) {
	n, m := 20+c.IntN(60), 1+c.IntN(20)
	expr := fmt.Sprintf(pick(c, []string{`^\pL{%d}$`, `^\p{Lu}{%d}\pL*$`, `^(?:\pL{%d}|\pN{%[2]d})$`, `(?:^|x)\p{Ll}{%d}(?:\pN{%[2]d}|x)$`, `^\PN{%d}\pL{%[2]d}$`, `(?i)^[^a-y]{%d}z`, `^\pL{0,%d}\pN{0,%[2]d}$`}), n, m)
	if i := strings.Index(expr, "%!(EXTRA"); i >= 0 {
		expr = expr[:i]
	}
	expr = "(?m)" + expr
	ast := mustParse(expr)
	re := compile(c, expr)
	std := stdregexp.MustCompile(expr)
	runes := []rune("éÉaAxzZ世ǅ1٣.Ⅷ")
	for range 40 {
		var b strings.Builder
		for b.Len() == 0 || c.Chance(3) {
			r := pick(c, runes)
			for range pick(c, []int{n, n, n - 1, n + 1, n + m, c.IntN(4 * n)}) {
				if c.Chance(30) {
					r = pick(c, runes)
				}
				b.WriteRune(r)
			}
			for range pick(c, []int{0, 0, m, m - 1, c.IntN(3 * m)}) {
				b.WriteRune(pick(c, runes[9:]))
			}
			if c.Chance(4) {
				b.WriteByte('\n')
			}
		}
		text := b.String()
		for _, line := range refLines(text) {
			crossCheck(c, expr, ast, std, line)
		}
		ref := refMatch(ast, text, true, true)
		if ref >= 0 {
			c.Count("matches", 1)
		} else {
			c.Count("non_matches", 1)
		}
		c.Count("wide_searches", 1)
		c.Seen(expr, text)
		if got := re.Match([]byte(text), true, true); got != ref {
			c.Fail("Match(%q, text %q) = %d, want %d (end of the first matching line)", expr, text, got, ref)
		}
	}
	c.Sample("%q", expr)
}

func runC06(c *C) {
	if c.Case%2048 == 2047 {
		c06Wide(c)
		return
	}
	expr, ast, g := nextExpr(c)
	if c.Case < len(directedExprs) {
		expr = "(?m)" + directedExprs[c.Case]
		ast = mustParse(expr)
		g.alpha = []rune("abcdefxyz0")
	}
	re := compile(c, expr)
	std, _ := stdregexp.Compile(expr)
	for try := 0; try < 8; try++ {
		text := textFor(c.Rand, ast, g.alpha, 1+c.IntN(5), 60)
		if c.Chance(5) {
			text = breakUTF8(c, text)
		}
		for _, line := range refLines(string(text)) {
			crossCheck(c, expr, ast, std, line)
		}
		bt, et := c.Chance(2), c.Chance(2)
		want := refMatch(ast, string(text), bt, et)
		got := re.Match(text, bt, et)
		if want >= 0 {
			c.Count("matches", 1)
		} else {
			c.Count("non_matches", 1)
		}
		if len(text) > 0 {
			c.Seen(expr, text, bt, et)
		}
		if got != want {
			c.Fail("Match(%q, text %q, begin=%v, end=%v) = %d, want %d (end of the first matching line)", expr, text, bt, et, got, want)
		}
		if got := re.MatchString(string(text), bt, et); got != want {
			c.Fail("MatchString(%q, text %q, begin=%v, end=%v) = %d, want %d", expr, text, bt, et, got, want)
		}
	}
	c.Sample("%q", expr)
}

// c07Many searches with an expression that has very many automaton states.
func c07Many(c *C) {
	n := 9 + c.IntN(6)
	expr := fmt.Sprintf(pick(c, []string{`(?m)a[ab]{%d}c`, `(?m)(?:a|b)*a(?:a|b){%d}c`, `(?m)\ba[ab ]{%d}c`, `(?m)^.*a.{%d}b$`, `(?im)a[ab]{%d}c`}), n)
	re := compile(c, expr)
	std := stdregexp.MustCompile(expr)
	var texts []string
	answers := map[string]int{}
	var total int
	for step := 0; total < 400000; step++ {
		var t string
		if len(texts) > 0 && c.Chance(4) {
			t = pick(c, texts)
		} else {
			size := 200 + c.IntN(8000)
			b := make([]byte, size)
			for i := range b {
				b[i] = "abababababababab ab\n"[c.IntN(19+c.IntN(2))]
			}
			if c.Chance(2) { // a match late in the text
				at := size - n - 10 - c.IntN(50)
				for i := 0; i <= n; i++ {
					b[at+i] = "ab"[c.IntN(2)]
				}
				b[at] = 'a'
				b[at+n+1] = 'c'
			}
			t = string(b)
			texts = append(texts, t)
		}
		total += len(t)
		want, seen := answers[t]
		if !seen {
			want = -1
			if loc := std.FindStringIndex(t); loc != nil {
				pos := 0
				for _, line := range strings.SplitAfter(t, "\n") {
					l := strings.TrimSuffix(line, "\n")
					if std.MatchString(l) {
						want = pos + len(l)
						break
					}
					pos += len(line)
				}
			}
			answers[t] = want
		}
		var got int
		if c.Chance(2) {
			got = re.MatchString(t, true, true)
		} else {
			got = re.Match([]byte(t), true, true)
		}
		c.Count("searches", 1)
		if seen {
			c.Count("repeat_searches", 1)
		}
		if got != want {
			c.Fail("%q after searching %d texts of %d bytes altogether: text %q: got %d, want %d", expr, step, total, t, got, want)
		}
	}
	c.Count("state_explosions", 1)
	c.Seen(expr, c.Case)
}

func runC07(c *C) {
	if c.Case%500 == 499 {
		c07Many(c)
		return
	}
	expr, ast, g := nextExpr(c)
	if c.Chance(3) { // flags and boundaries make states differ by history
		pats := []string{`\bab`, `ab\b`, `\Bab`, `^ab`, `ab$`, `\Aab`, `ab\z`, `(?m)^ab`, `\b`, `\B`, `^$`, `\A\z`, `a\bb|c`, `(?:^|b)a`, `(?:\b|b)a\B`, `\bа`, `_\b`, `(a|b)*a(a|b){5}$`, `\b\b`, `^\b`, `\B$`, `a$\b`, `(?m)\b$`, `\w\b.`}
		expr = prefixFor(c) + pick(c, pats)
		ast = mustParse(expr)
		g.alpha = []rune("ab_ -")
	}
	re := compile(c, expr)
	var texts [][]byte
	for n := 3 + c.IntN(4); n > 0; n-- {
		t := textFor(c.Rand, ast, g.alpha, 1+c.IntN(4), 40)
		if c.Chance(6) {
			t = breakUTF8(c, t)
		}
		texts = append(texts, t, nil)
		// suffixes: the same bytes reached from another state
		if len(t) > 1 {
			texts = append(texts, t[c.IntN(len(t)):], t[:c.IntN(len(t))])
		}
	}
	type key struct {
		i      int
		bt, et bool
	}
	answers := map[key]int{}
	var hist strings.Builder
	for step := 0; step < 30; step++ {
		k := key{c.IntN(len(texts)), c.Chance(2), c.Chance(2)}
		t := texts[k.i]
		str := c.Chance(2)
		var got int
		if str {
			got = re.MatchString(string(t), k.bt, k.et)
		} else {
			got = re.Match(t, k.bt, k.et)
		}
		c.Count("searches", 1)
		fmt.Fprintf(&hist, "%q begin=%v end=%v string=%v -> %d\n", t, k.bt, k.et, str, got)
		want, seen := answers[k]
		if seen {
			c.Count("repeat_searches", 1)
		} else {
			fresh := compile(c, expr)
			want = fresh.Match(t, k.bt, k.et)
			if w := fresh.MatchString(string(t), k.bt, k.et); w != want {
				c.Fail("%q on %q (begin=%v end=%v): Match %d, then MatchString %d", expr, t, k.bt, k.et, want, w)
			}
			f2 := compile(c, expr)
			if w := f2.MatchString(string(t), k.bt, k.et); w != want {
				c.Fail("%q on %q (begin=%v end=%v): fresh Match %d, fresh MatchString %d", expr, t, k.bt, k.et, want, w)
			}
			if w := refMatch(ast, string(t), k.bt, k.et); w != want {
				c.Fail("%q on %q (begin=%v end=%v): fresh object %d, reference %d", expr, t, k.bt, k.et, want, w)
			}
			answers[k] = want
		}
		if got != want {
			c.Fail("%q: answer depends on history; want %d on the last search of\n%s", expr, want, hist.String())
		}
	}
	c.Seen(expr, hist.String())
	c.Sample("%s: %d searches", expr, 30)
}

// --- C29

var allRunes []byte // every encodable code point except \n, one after the other

func runeText() []byte {
	if allRunes == nil {
		b := make([]byte, 0, 4400000)
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if 0xD800 <= r && r <= 0xDFFF || r == '\n' {
				continue
			}
			b = utf8.AppendRune(b, r)
		}
		allRunes = b
	}
	return allRunes
}

func classNames() []string {
	var names []string
	for n := range unicode.Categories {
		names = append(names, n)
	}
	for n := range unicode.Scripts {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

var foldable []rune

func foldOrbitReps() []rune {
	if foldable == nil {
		for r := rune(0); r <= unicode.MaxRune; r++ {
			f := unicode.SimpleFold(r)
			if f == r {
				continue
			}
			lowest := true
			for ; f != r; f = unicode.SimpleFold(f) {
				if f < r {
					lowest = false
				}
			}
			if lowest {
				foldable = append(foldable, r)
			}
		}
	}
	return foldable
}

func boundaryRune(c *C) rune {
	b := []rune{0, 1, 9, 11, 0x20, 0x3f, 0x40, 'a', 'k', 's', 'z', 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x3ff, 0x400, 0x7bf, 0x7c0, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x103f, 0x1040, 0xcfff, 0xd000, 0xd7bf, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xe03f, 0xe040, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x100fff, 0x10f000, 0x10ffbf, 0x10ffc0, 0x10fffe, 0x10ffff, 0x1e900, 0x1e943, 0x10400, 0x1044f, 0x212a, 0x17f, 0x3c3}
	switch c.IntN(4) {
	case 0:
		return rune(c.IntN(unicode.MaxRune + 1))
	case 1:
		return rune(c.IntN(0x3000))
	}
	return b[c.IntN(len(b))]
}

// classRanges returns the sorted ranges of code points the expression (one
// character) stands for by the parser.
func classPred(ast *syntax.Regexp) (func(r rune) bool, bool) {
	switch ast.Op {
	case syntax.OpLiteral:
		if len(ast.Rune) != 1 {
			return nil, false
		}
		x := ast.Rune[0]
		if ast.Flags&syntax.FoldCase == 0 {
			return func(r rune) bool { return r == x }, true
		}
		return func(r rune) bool { return foldEq(x, r) }, true
	case syntax.OpCharClass:
		rr := ast.Rune
		j := 0 // called with increasing runes mostly
		return func(r rune) bool {
			if j >= len(rr) || j > 0 && r < rr[j-2+1] {
				j = 0
			}
			for j < len(rr) && rr[j+1] < r {
				j += 2
			}
			ok := j < len(rr) && rr[j] <= r
			return ok
		}, true
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return func(rune) bool { return true }, true
	}
	return nil, false
}

func runC29(c *C) {
	if c.Case%4 == 3 {
		c29Fold(c)
		return
	}
	var expr string
	names := classNames()
	switch k := c.IntN(12); {
	case c.Case%4 == 0:
		// every class of the tables in turn
		n := names[(c.Case/4)%len(names)]
		if c.Chance(2) {
			expr = `\p{` + n + `}`
		} else {
			expr = `\P{` + n + `}`
		}
		if c.Chance(5) {
			expr = "(?i)" + expr
		}
	case k < 6:
		// ranges with ends at encoding boundaries
		var b strings.Builder
		b.WriteByte('[')
		if c.Chance(3) {
			b.WriteByte('^')
		}
		for n := 1 + c.IntN(3); n > 0; n-- {
			lo, hi := boundaryRune(c), boundaryRune(c)
			if lo > hi {
				lo, hi = hi, lo
			}
			if c.Chance(3) {
				hi = min(lo+rune(c.IntN(120)), unicode.MaxRune)
			}
			fmt.Fprintf(&b, `\x{%x}-\x{%x}`, lo, hi)
		}
		b.WriteByte(']')
		expr = b.String()
		if c.Chance(4) {
			expr = "(?i)" + expr
		}
	case k < 7:
		expr = fmt.Sprintf(`[\x{%x}\x{%x}]`, boundaryRune(c), boundaryRune(c))
	case k < 9:
		expr = fmt.Sprintf(`\x{%x}`, boundaryRune(c))
		if c.Chance(2) {
			expr = "(?i)" + expr
		}
	case k < 10:
		expr = pick(c, []string{`.`, `(?s).`, `[^a]`, `\w`, `\W`, `\s`, `\S`, `\D`, `[[:^ascii:]]`, `[[:print:]]`, `[^\x00-\x{10fffe}]`, `[가-힣]`, `[^가-힣]`, `\p{Cs}`, `\P{Cs}`, `[\x{D000}-\x{DFFF}]`, `[\x{D800}-\x{E000}]`, `[^\x{D7FF}]`, `(?i)[k]`, `(?i)[^k]`, `(?i)[^ſ]`, `(?i)\x{212a}`, `(?i)[a-z]`, `(?i)[^a-z]`, `(?i)ﬅ`, `\pN`, `\p{Any}`})
	default:
		// a class of several scattered code points
		var b strings.Builder
		b.WriteByte('[')
		for n := 2 + c.IntN(30); n > 0; n-- {
			fmt.Fprintf(&b, `\x{%x}`, boundaryRune(c))
		}
		b.WriteByte(']')
		expr = b.String()
	}
	ast, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return
	}
	pred, ok := classPred(ast)
	if !ok {
		if ast.Op == syntax.OpNoMatch {
			pred = func(rune) bool { return false }
		} else {
			return
		}
	}
	re := compile(c, `\A(?:`+expr+`)\z`)
	c.Seen(expr)
	c.Sample("%s over all code points", expr)
	in := 0
	text := runeText()
	var small []rune
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRune(text[i:])
		got := re.Match(text[i:i+w], true, true) >= 0
		want := pred(r)
		if got != want {
			c.Fail("%q on U+%04X: match=%v, want %v", expr, r, got, want)
		}
		if want {
			in++
			if len(small) < 300 {
				small = append(small, r)
			}
		}
		i += w
	}
	c.Count("codepoints_judged", 0x110000-2048-1)
	c.Count("codepoints_in_class", in)
	// Sequences that encode nothing must not match.
	bad := 0
	judge := func(b []byte) {
		if utf8.RuneCount(b) == 1 && utf8.Valid(b) {
			return
		}
		for _, x := range b {
			if x == '\n' {
				return
			}
		}
		bad++
		if re.Match(b, true, true) >= 0 {
			c.Fail("%q matches the byte sequence %x, which encodes no single code point", expr, b)
		}
	}
	for a := 0; a < 256; a++ {
		judge([]byte{byte(a)})
		for b := 0; b < 256; b += 1 + c.IntN(3) {
			judge([]byte{byte(a), byte(b)})
		}
	}
	for n := 0; n < 4000; n++ {
		b := make([]byte, 3+c.IntN(2))
		for i := range b {
			b[i] = byte(0x80 + c.IntN(64))
		}
		b[0] = byte(0xe0 + c.IntN(32))
		if c.Chance(4) {
			b[c.IntN(len(b))] = byte(c.IntN(256))
		}
		judge(b)
	}
	c.Count("invalid_sequences", bad)
	c29Query(c, expr, small, len(small) == in)
	// With neighbours on both sides.
	re2 := compile(c, `a(?:`+expr+`)b`)
	for _, r := range small[:min(len(small), 100)] {
		if r == '\n' {
			continue
		}
		if re2.MatchString("xxa"+string(r)+"b", true, true) < 0 {
			c.Fail("%q does not match %q", `a(?:`+expr+`)b`, "xxa"+string(r)+"b")
		}
	}
}

// c29Query checks that the query derived from the class accepts each member.
func c29Query(c *C, expr string, members []rune, complete bool) {
	for _, form := range []string{`%s`, `a%sb`, `ab%s`, `%sab`, `%[1]s%[1]s`, `x(?:%s|yz)w`, `(?:%s)+q`} {
		e := strings.ReplaceAll(fmt.Sprintf(form, `(?:`+expr+`)`), "%!(EXTRA", "")
		ast, err := syntax.Parse(e, syntax.Perl)
		if err != nil {
			continue
		}
		q := index.RegexpQuery(ast)
		for _, r := range members {
			if r == '\n' {
				continue
			}
			s := string(r)
			var text string
			switch form {
			case `%s`:
				text = s
			case `a%sb`:
				text = "a" + s + "b"
			case `ab%s`:
				text = "ab" + s
			case `%sab`:
				text = s + "ab"
			case `%[1]s%[1]s`:
				text = s + s
			case `x(?:%s|yz)w`:
				text = "x" + s + "w"
			case `(?:%s)+q`:
				text = s + s + "q"
			}
			for _, text := range []string{text, "\n" + text + "\n", "zz" + text + "zz"} {
				tri := trigramsOf([]byte(text))
				c.Count("queries_on_members", 1)
				if !evalQuery(q, func(t string) bool { return tri[t] }) {
					c.Fail("%q matches %q but its query %s rejects it", e, text, q)
				}
			}
		}
	}
}

// c29Literal puts a folded letter into longer folded literals.
func c29Literal(c *C, expr string, orbit []rune) {
	for _, form := range []string{"%sab", "a%sb", "ab%s", "%[1]s%[1]s", "k%ss", "%sabcdefgh"} {
		e := strings.Replace(expr, "(?i)", "", 1)
		e = "(?i)" + strings.ReplaceAll(strings.ReplaceAll(form, "%[1]s", "%s"), "%s", e)
		ast := mustParse(e)
		q := index.RegexpQuery(ast)
		re := compile(c, e)
		for _, o := range orbit {
			for _, o2 := range orbit {
				lit := strings.Replace(strings.ReplaceAll(form, "%[1]s", "%s"), "%s", string(o), 1)
				lit = strings.Replace(lit, "%s", string(o2), 1)
				for _, text := range []string{lit, strings.ToUpper(lit[:1]) + lit[1:], strings.ReplaceAll(lit, "k", "\u212a"), strings.ReplaceAll(lit, "s", "\u017f")} {
					if strings.ToUpper(lit[:1]) != lit[:1] && lit[0] >= 0x80 {
						text = lit
					}
					c.Count("folded_literals", 1)
					if re.MatchString("x"+text+"y", true, true) < 0 {
						c.Fail("%q does not match %q", e, text)
					}
					tri := trigramsOf([]byte(text))
					if !evalQuery(q, func(t string) bool { return tri[t] }) {
						c.Fail("%q matches %q but its query %s rejects it", e, text, q)
					}
				}
				if !strings.Contains(form, "%[1]s") {
					break
				}
			}
		}
	}
}

func c29Fold(c *C) {
	reps := foldOrbitReps()
	per := 16
	block := c.Case / 4
	for k := 0; k < per; k++ {
		r := reps[(block*per+k)%len(reps)]
		orbit := []rune{r}
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			orbit = append(orbit, f)
		}
		c.Count("fold_orbits", 1)
		in := map[rune]bool{}
		for _, o := range orbit {
			in[o] = true
		}
		for _, o := range orbit {
			for _, expr := range []string{fmt.Sprintf(`(?i)\x{%x}`, o), fmt.Sprintf(`(?i)[\x{%x}]`, o), fmt.Sprintf(`(?i)[\x{%x}\x{%x}]`, o, o), fmt.Sprintf(`(?i)[^\x{%x}]`, o)} {
				neg := strings.Contains(expr, "^")
				re := compile(c, `\A`+expr+`\z`)
				re2 := compile(c, expr+`x`)
				c.Seen(expr)
				cand := append([]rune(nil), orbit...)
				for _, x := range orbit {
					cand = append(cand, x-1, x+1, x^0x20, x^0x01, x^0x40, x+0x20, x+0x100, x&0xff)
				}
				for _, x := range cand {
					if x < 0 || x > unicode.MaxRune || x == '\n' || 0xD800 <= x && x <= 0xDFFF {
						continue
					}
					want := in[x] != neg
					if got := re.MatchString(string(x), true, true) >= 0; got != want {
						c.Fail("%q on U+%04X: match=%v, want %v", expr, x, got, want)
					}
					if got := re2.MatchString("abc "+string(x)+"x", true, true) >= 0; !neg && got != want {
						c.Fail("%q on %q: match=%v, want %v", expr+"x", "abc "+string(x)+"x", got, want)
					}
				}
				if !neg {
					c29Query(c, expr, orbit, true)
				}
				if !neg && !strings.Contains(expr, "[") {
					c29Literal(c, expr, orbit)
				}
			}
		}
		// the expression without folding matches itself only
		for _, o := range orbit {
			re := compile(c, fmt.Sprintf(`\A\x{%x}\z`, o))
			rp := compile(c, fmt.Sprintf(`\A(?:\x{%x}|\x{%x})\z`, orbit[0], o))
			for _, x := range orbit {
				if got := re.MatchString(string(x), true, true) >= 0; got != (x == o) {
					c.Fail("literal U+%04X on U+%04X: match=%v", o, x, got)
				}
				if got := rp.MatchString(string(x), true, true) >= 0; got != (x == o || x == orbit[0]) {
					c.Fail("U+%04X|U+%04X on U+%04X: match=%v", orbit[0], o, x, got)
				}
			}
		}
	}
}

// --- C31

// threadTime is the processor time the current thread has used, in ns.
func threadTime() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// c31Time compares the processor time of searching a text with that of
// searching 16 times as much of the same.
func c31Time(c *C, expr string, re *regexp.Regexp, unit []byte, ast *syntax.Regexp) {
	if c.Case%8 >= 2 {
		return
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	const size = 48 << 10
	var shape string
	repeat := func(s string, size int) []byte { return []byte(strings.Repeat(s, size/len(s)+1)) }
	var small, large []byte
	switch c.IntN(5) {
	case 0:
		shape = "one long line"
		small, large = repeat("aab ", size), repeat("aab ", 16*size)
	case 1:
		shape = "empty lines"
		small, large = repeat("\n", size), repeat("\n", 16*size)
	case 2:
		shape = "short lines"
		small, large = repeat("a\nb\nab x\n", size), repeat("a\nb\nab x\n", 16*size)
	case 3:
		shape = "the same texts"
		small, large = repeat(string(unit), size), repeat(string(unit), 16*size)
	case 4:
		shape = "matching lines"
		l := string((&sampler{Rand: c.Rand, nonl: true, cap: 60}).from(ast, nil)) + "\n"
		small, large = repeat(l, size), repeat(l, 16*size)
	}
	ratio := func(what string, f func(b []byte)) {
		ts, tl := int64(1<<62), int64(1<<62)
		for try := range 8 {
			for range 3 {
				t0 := threadTime()
				f(small)
				t1 := threadTime()
				ts = min(ts, t1-t0)
			}
			t0 := threadTime()
			f(large)
			tl = min(tl, threadTime()-t0)
			// A constant for what does not depend on the size.
			if tl < 64*ts+2e6 {
				c.Count("times_compared", 1)
				return
			}
			if try == 1 && tl > 5e9 {
				break
			}
		}
		c.Fail("%s with %q: %d bytes (%s) take %.3f ms, %d bytes of the same take %.3f ms: not proportional", what, expr, len(small), shape, float64(ts)/1e6, len(large), float64(tl)/1e6)
	}
	ratio("Match", func(b []byte) { re.Match(b, true, true) })
	ratio("all matches", func(b []byte) {
		for pos := 0; pos < len(b); {
			m := re.Match(b[pos:], pos == 0, true)
			if m < 0 {
				break
			}
			pos += m + 1
		}
	})
	ratio("MatchString", func(b []byte) { re.MatchString(string(b), true, true) })
	if shape == "one long line" {
		return
	}
	for range 2 {
		o := randOpts(c, true)
		if c.Chance(3) && !o.v && !o.c && !o.l {
			o.before, o.after = c.IntN(4), c.IntN(4)
		}
		g := &regexp.Grep{Regexp: re, Stdout: io.Discard, Stderr: io.Discard, L: o.l, C: o.c, N: o.n, H: o.h, V: o.v, PreContext: o.before, PostContext: o.after}
		ratio("Grep with options "+o.String(), func(b []byte) { g.Reader(bytes.NewReader(b), "name") })
	}
}

func mallocs() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Mallocs
}

// c31Many searches with an expression that has many states: they too are
// built once.
func c31Many(c *C) {
	k := 9 + c.Case/100%5
	if c.Case == 37 {
		k = 15
	}
	expr := fmt.Sprintf("(a|b)*a(a|b){%d}c", k)
	re := compile(c, expr)
	text := make([]byte, 44<<k)
	fill := func() { // each step from each state is very likely met
		for i := range text {
			text[i] = "ab"[c.IntN(2)]
		}
	}
	fill()
	m0 := mallocs()
	re.Match(text, true, true)
	m1 := mallocs()
	re.Match(text, true, true)
	m2 := mallocs()
	c.Count("rescan_allocs", int(m2-m1))
	c.Count("many_states_allocs", int(m1-m0))
	if m2-m1 > 30 {
		c.Fail("%q: searching %d bytes for the second time made %d allocations (%d the first time): the automaton is being rebuilt", expr, len(text), m2-m1, m1-m0)
	}
	fill()
	m3 := mallocs()
	re.Match(text, true, true)
	m4 := mallocs()
	if m4-m3 > 30+(m1-m0)/50 {
		c.Fail("%q: searching %d bytes of the same kind made %d allocations (%d the first time): the same states are built again", expr, len(text), m4-m3, m1-m0)
	}
}

func runC31(c *C) {
	var expr string
	var alpha []rune
	explosive := []string{`(a*)*b`, `(a+)+$`, `(a|a)*c`, `(a?){30}a{30}`, `(?:a|aa)+$`, `(.*)*x`, `(.*.*.*.*)=`, `(a|b|ab)*c`, `(?:(?:(?:a*)*)*)*b`, `^(([a-z])+.)+[A-Z]([a-z])+$`, `(?i)(a|A)*z`, `\b(\w+\s*)+:`, `(x+x+)+y`, `(?:a{0,20}){0,20}b`, `.*a.{6}$`, `[ab]*a[ab]{7}c`, `(?:é|e)*世`, `(\pL+)*\d`}
	if c.Case%2 == 0 {
		expr = "(?m)" + explosive[(c.Case/2)%len(explosive)]
		alpha = []rune("ab x")
		if c.Chance(4) {
			alpha = []rune("aéb世")
		}
	} else {
		g := newRegexGen(c.Rand)
		for {
			e, re := g.gen("(?m)")
			if cost(re) < 300 {
				expr, alpha = "(?m)"+e, g.alpha
				break
			}
		}
	}
	ast := mustParse(expr)
	re := compile(c, expr)
	// A text of many lines that do not match, or match only at the end: every
	// line is scanned. Two parts: varied lines, then one long line.
	var text []byte
	for len(text) < 3000 {
		line := textFor(c.Rand, ast, alpha, 1, 100)
		if i := strings.IndexByte(string(line), '\n'); i >= 0 {
			line = line[:i]
		}
		text = append(text, line...)
		text = append(text, '\n')
	}
	long := strings.Repeat("a", 20000) + "\n"
	scan := func(b []byte) int {
		n := 0
		pos := 0
		for pos < len(b) {
			m := re.Match(b[pos:], pos == 0, true)
			if m < 0 {
				break
			}
			n++
			pos += m + 1
		}
		return n
	}
	m0 := mallocs()
	scan(text)
	scan([]byte(long))
	m1 := mallocs()
	c.Count("first_scan_allocs", int(m1-m0))
	if m1-m0 > 4 {
		c.Seen(expr)
	}
	big := []byte(strings.Repeat(string(text), 40))
	longer := []byte(strings.Repeat(long, 20))
	// The seams between copies may reach new states once.
	scan(big[:2*len(text)])
	scan(longer[:2*len(long)])
	m2 := mallocs()
	scan(big)
	scan(longer)
	m3 := mallocs()
	c.Count("bytes_rescanned", len(big)+len(longer))
	c.Count("rescan_allocs", int(m3-m2))
	if m3-m2 > 30 {
		c.Fail("%q: searching %d bytes again that were searched before made %d allocations (the first search of %d bytes made %d): the automaton is being rebuilt", expr, len(big)+len(longer), m3-m2, len(text)+len(long), m1-m0)
	}
	c31Time(c, expr, re, text, ast)
	if c.Case%100 == 37 {
		c31Many(c)
	}
	c.Sample("%s: first scan %d allocs, rescan of %d bytes %d allocs", expr, m1-m0, len(big)+len(longer), m3-m2)
}
