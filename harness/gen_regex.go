package main

import (
	"fmt"
	"math/rand/v2"
	"regexp/syntax"
	"strings"
	"unicode"
	"unicode/utf8"
)

// regexGen makes random expressions. Words give the literals; small alphabets
// make literals, classes and texts meet.
type regexGen struct {
	*rand.Rand
	alpha   []rune
	words   []string
	unicode bool
	anchors bool
	nl      bool // may mention newline
	fold    bool // may use (?i:...)
}

func (g *regexGen) quote(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < utf8.RuneSelf && strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		if r == '\n' {
			b.WriteString(`\n`)
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (g *regexGen) rn() rune { return g.alpha[g.IntN(len(g.alpha))] }

func (g *regexGen) word() string {
	if len(g.words) > 0 && g.IntN(3) > 0 {
		w := g.words[g.IntN(len(g.words))]
		rs := []rune(w)
		if len(rs) > 2 && g.IntN(2) == 0 { // a piece of it
			i := g.IntN(len(rs) - 1)
			j := i + 1 + g.IntN(len(rs)-i)
			if j > len(rs) {
				j = len(rs)
			}
			return string(rs[i:j])
		}
		return w
	}
	n := 1 + g.IntN(5)
	var b strings.Builder
	for range n {
		b.WriteRune(g.rn())
	}
	return b.String()
}

func (g *regexGen) class() string {
	perl := []string{`\d`, `\w`, `\s`, `\D`, `\W`, `\S`, `[[:alpha:]]`, `[^[:space:]]`, `[a-z]`, `[^a-z]`, `[0-9a-f]`, `[A-Z]`, `[a-cx-z]`}
	uni := []string{`\pL`, `\p{Greek}`, `\PL`, `\p{Lu}`, `[α-ω]`, `[^α-ω]`, `[à-þ]`, `[\x{80}-\x{7ff}]`, `[\x{800}-\x{ffff}]`, `[\x{10000}-\x{10ffff}]`, `[^\x00-\x7f]`, `[\x{7f}-\x{80}]`, `[\x{7f0}-\x{810}]`, `[\x{fff0}-\x{10010}]`}
	switch k := g.IntN(10); {
	case k < 2:
		return perl[g.IntN(len(perl))]
	case k < 4 && g.unicode:
		return uni[g.IntN(len(uni))]
	}
	var b strings.Builder
	b.WriteByte('[')
	if g.IntN(6) == 0 {
		b.WriteByte('^')
	}
	for n := 1 + g.IntN(4); n > 0; n-- {
		lo := g.rn()
		fmt.Fprintf(&b, `\x{%x}`, lo)
		if g.IntN(4) == 0 {
			hi := lo + rune(g.IntN(12))
			if hi > unicode.MaxRune {
				hi = unicode.MaxRune
			}
			fmt.Fprintf(&b, `-\x{%x}`, hi)
		}
	}
	b.WriteByte(']')
	return b.String()
}

func (g *regexGen) expr(depth int) string {
	if depth <= 0 {
		switch k := g.IntN(20); {
		case k < 11:
			return g.quote(g.word())
		case k < 15:
			return g.class()
		case k < 17:
			return `.`
		case k < 18 && g.anchors:
			return g.anchor()
		case k < 19 && g.nl:
			return []string{`\n`, `(?s:.)`, `[^a]`, `\s`}[g.IntN(4)]
		}
		return g.quote(string(g.rn()))
	}
	switch k := g.IntN(22); {
	case k < 8:
		n := 2 + g.IntN(3)
		var b strings.Builder
		for range n {
			b.WriteString(g.group(depth - 1))
		}
		return b.String()
	case k < 14:
		n := 2 + g.IntN(3)
		var parts []string
		for range n {
			if g.IntN(10) == 0 {
				parts = append(parts, "")
				continue
			}
			parts = append(parts, g.expr(depth-1))
		}
		return "(?:" + strings.Join(parts, "|") + ")"
	case k < 15 && g.fold:
		return "(?i:" + g.expr(depth-1) + ")"
	case k < 16:
		return "(" + g.expr(depth-1) + ")"
	case k < 17 && g.anchors:
		return g.anchor() + g.group(depth-1) + g.anchor()
	default:
		ops := []string{"*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{2,}", "{0,2}", "{3}", "{0}", "{1,3}?"}
		return "(?:" + g.expr(depth-1) + ")" + ops[g.IntN(len(ops))]
	}
}

func (g *regexGen) group(depth int) string {
	e := g.expr(depth)
	if strings.Contains(e, "|") && !strings.HasPrefix(e, "(") {
		return "(?:" + e + ")"
	}
	return e
}

func (g *regexGen) anchor() string {
	return []string{`^`, `$`, `\b`, `\B`, `\A`, `\z`, `(?m:^)`, `(?m:$)`, `(?-m:$)`}[g.IntN(9)]
}

// gen returns a valid expression (parsed with an optional prefix) of moderate size.
func (g *regexGen) gen(prefix string) (string, *syntax.Regexp) {
	for {
		e := g.expr(g.IntN(5))
		if len(e) > 300 {
			continue
		}
		re, err := syntax.Parse(prefix+e, syntax.Perl)
		if err != nil {
			continue
		}
		if _, err := syntax.Parse(prefix+e, syntax.Perl); err != nil {
			continue
		}
		if cost(re) > 2000 {
			continue
		}
		return e, re
	}
}

// cost estimates the size of the compiled expression.
func cost(re *syntax.Regexp) int {
	n := 1 + len(re.Rune)
	for _, s := range re.Sub {
		n += cost(s)
	}
	switch re.Op {
	case syntax.OpRepeat:
		k := re.Max
		if k < 0 {
			k = re.Min + 1
		}
		n *= max(1, k)
	}
	return n
}

// sampler produces texts that an expression is likely to match.
type sampler struct {
	*rand.Rand
	nonl bool // never produce newlines
	cap  int
}

func (s *sampler) from(re *syntax.Regexp, b []byte) []byte {
	if len(b) > s.cap {
		return b
	}
	switch re.Op {
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			if re.Flags&syntax.FoldCase != 0 {
				for n := s.IntN(4); n > 0; n-- {
					r = unicode.SimpleFold(r)
				}
			}
			b = utf8.AppendRune(b, r)
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return b
		}
		for try := 0; try < 20; try++ {
			j := s.IntN(len(re.Rune)/2) * 2
			lo, hi := re.Rune[j], re.Rune[j+1]
			var r rune
			switch s.IntN(3) {
			case 0:
				r = lo
			case 1:
				r = hi
			default:
				// prefer printable ASCII when the range has it
				if lo < 0x7f && hi >= ' ' && s.IntN(3) > 0 {
					l, h := max(lo, ' '), min(hi, 0x7e)
					r = l + rune(s.IntN(int(h-l)+1))
				} else {
					r = lo + rune(s.IntN(int(hi-lo)+1))
				}
			}
			if s.nonl && (r == '\n' || r == 0) || 0xD800 <= r && r <= 0xDFFF {
				continue
			}
			return utf8.AppendRune(b, r)
		}
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b = utf8.AppendRune(b, []rune("abcxyz0_ .é世\U0001F600")[s.IntN(13)])
	case syntax.OpCapture:
		return s.from(re.Sub[0], b)
	case syntax.OpConcat:
		for _, x := range re.Sub {
			b = s.from(x, b)
		}
	case syntax.OpAlternate:
		return s.from(re.Sub[s.IntN(len(re.Sub))], b)
	case syntax.OpQuest:
		if s.IntN(2) == 0 {
			return s.from(re.Sub[0], b)
		}
	case syntax.OpStar:
		for n := []int{0, 0, 1, 1, 2, 3, 5}[s.IntN(7)]; n > 0; n-- {
			b = s.from(re.Sub[0], b)
		}
	case syntax.OpPlus:
		for n := []int{1, 1, 2, 3}[s.IntN(4)]; n > 0; n-- {
			b = s.from(re.Sub[0], b)
		}
	case syntax.OpRepeat:
		hi := re.Max
		if hi < 0 {
			hi = re.Min + 2
		}
		for n := re.Min + s.IntN(hi-re.Min+1); n > 0; n-- {
			b = s.from(re.Sub[0], b)
		}
	}
	return b
}

// mutate changes a byte string a little.
func mutate(r *rand.Rand, b []byte, alpha []rune) []byte {
	if len(b) == 0 {
		return utf8.AppendRune(nil, alpha[r.IntN(len(alpha))])
	}
	i := r.IntN(len(b))
	out := append([]byte(nil), b[:i]...)
	switch r.IntN(4) {
	case 0: // delete
		return append(out, b[i+1:]...)
	case 1: // insert
		out = utf8.AppendRune(out, alpha[r.IntN(len(alpha))])
		return append(out, b[i:]...)
	case 2: // replace
		out = utf8.AppendRune(out, alpha[r.IntN(len(alpha))])
		return append(out, b[i+1:]...)
	default: // swap two halves
		return append(append([]byte(nil), b[i:]...), out...)
	}
}

var alphabets = [][]rune{
	[]rune("ab"),
	[]rune("abc"),
	[]rune("abcxyz"),
	[]rune("aAbBkKsS"),
	[]rune("ab_0 -"),
	[]rune("abcdefghijklmnopqrstuvwxyz"),
	[]rune("aé世\U0001F600"),
	[]rune("kK\u212AsSſß"),
	[]rune("aσςΣµμ"),
	[]rune("\x7f\u0080\u07ff\u0800\uffff\U00010000\U0010ffff"),
	[]rune("a\U0001E900\U0001E922\U00010400\U00010428"),
	[]rune("a.*+[]$^(){}|\\"),
	[]rune("abθϑϴΘ"),
	[]rune("aι\u0345\u1fbeΙx"),
	[]rune("bβϐΒeεϵΕ"),
	[]rune("kK\u212Aθϑi"),
}

func newRegexGen(r *rand.Rand) *regexGen {
	k := r.IntN(len(alphabets))
	g := &regexGen{Rand: r, alpha: alphabets[k], unicode: k >= 6 && k != 11 || r.IntN(6) == 0, anchors: r.IntN(2) == 0, nl: r.IntN(5) == 0, fold: r.IntN(3) == 0}
	for range r.IntN(4) {
		var b strings.Builder
		for n := 3 + r.IntN(6); n > 0; n-- {
			b.WriteRune(g.rn())
		}
		g.words = append(g.words, b.String())
	}
	return g
}

// textFor makes a text of lines, many of which are near matches of re.
func textFor(r *rand.Rand, re *syntax.Regexp, alpha []rune, lines, maxLine int) []byte {
	s := &sampler{Rand: r, nonl: r.IntN(4) > 0, cap: maxLine}
	var out []byte
	for i := range lines {
		var line []byte
		switch r.IntN(6) {
		case 0: // noise
			for n := r.IntN(12); n > 0; n-- {
				line = utf8.AppendRune(line, alpha[r.IntN(len(alpha))])
			}
		case 1:
		case 2:
			line = mutate(r, s.from(re, nil), alpha)
		default:
			for n := r.IntN(4); n > 0; n-- {
				line = utf8.AppendRune(line, alpha[r.IntN(len(alpha))])
			}
			line = s.from(re, line)
			for n := r.IntN(4); n > 0; n-- {
				line = utf8.AppendRune(line, alpha[r.IntN(len(alpha))])
			}
		}
		if len(line) > maxLine {
			line = line[:maxLine]
		}
		out = append(out, line...)
		if i < lines-1 || r.IntN(3) > 0 {
			out = append(out, '\n')
		}
	}
	return out
}
