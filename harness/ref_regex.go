package main

// A reference matcher: set-of-positions semantics on the parsed expression.
// It knows nothing of automata. Lines are matched without their newline.

import (
	"regexp/syntax"
	"unicode"
	"unicode/utf8"
)

type posSet []uint64 // bitset over 0..n

func newPosSet(n int) posSet    { return make(posSet, n/64+1) }
func (p posSet) add(i int)      { p[i>>6] |= 1 << (i & 63) }
func (p posSet) has(i int) bool { return p[i>>6]&(1<<(i&63)) != 0 }
func (p posSet) clone() posSet  { return append(posSet(nil), p...) }
func (p posSet) or(q posSet) (chg bool) {
	for i, w := range q {
		if w&^p[i] != 0 {
			p[i] |= w
			chg = true
		}
	}
	return
}
func (p posSet) empty() bool {
	for _, w := range p {
		if w != 0 {
			return false
		}
	}
	return true
}

type refLine struct {
	s        string
	bot, eot bool   // line starts/ends at the begin/end of the text
	r        []rune // decoded rune starting at byte i; -1 if none
	w        []int
}

func newRefLine(s string, bot, eot bool) *refLine {
	l := &refLine{s: s, bot: bot, eot: eot, r: make([]rune, len(s)), w: make([]int, len(s))}
	for i := range len(s) {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w <= 1 {
			r = -1
		}
		l.r[i], l.w[i] = r, w
	}
	return l
}

func refWord(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
}

func (l *refLine) boundary(i int) bool {
	a := i > 0 && refWord(l.s[i-1])
	b := i < len(l.s) && refWord(l.s[i])
	return a != b
}

func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

func (l *refLine) filter(in posSet, ok func(i int) bool) posSet {
	out := newPosSet(len(l.s))
	for i := 0; i <= len(l.s); i++ {
		if in.has(i) && ok(i) {
			out.add(i)
		}
	}
	return out
}

func (l *refLine) rune1(in posSet, ok func(r rune) bool) posSet {
	out := newPosSet(len(l.s))
	for i := 0; i < len(l.s); i++ {
		if in.has(i) && l.r[i] >= 0 && ok(l.r[i]) {
			out.add(i + l.w[i])
		}
	}
	return out
}

// step returns the positions where re can end when started at any of in.
func (l *refLine) step(re *syntax.Regexp, in posSet) posSet {
	if in.empty() {
		return in
	}
	switch re.Op {
	case syntax.OpNoMatch:
		return newPosSet(len(l.s))
	case syntax.OpEmptyMatch:
		return in
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			fold := re.Flags&syntax.FoldCase != 0
			in = l.rune1(in, func(r rune) bool { return r == c || fold && foldEq(c, r) })
		}
		return in
	case syntax.OpCharClass:
		rr := re.Rune
		return l.rune1(in, func(r rune) bool {
			for j := 0; j+1 < len(rr); j += 2 {
				if rr[j] <= r && r <= rr[j+1] {
					return true
				}
			}
			return false
		})
	case syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return l.rune1(in, func(r rune) bool { return true })
	case syntax.OpBeginLine:
		return l.filter(in, func(i int) bool { return i == 0 })
	case syntax.OpEndLine:
		return l.filter(in, func(i int) bool { return i == len(l.s) })
	case syntax.OpBeginText:
		return l.filter(in, func(i int) bool { return i == 0 && l.bot })
	case syntax.OpEndText:
		return l.filter(in, func(i int) bool { return i == len(l.s) && l.eot })
	case syntax.OpWordBoundary:
		return l.filter(in, l.boundary)
	case syntax.OpNoWordBoundary:
		return l.filter(in, func(i int) bool { return !l.boundary(i) })
	case syntax.OpCapture:
		return l.step(re.Sub[0], in)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			in = l.step(s, in)
		}
		return in
	case syntax.OpAlternate:
		out := newPosSet(len(l.s))
		for _, s := range re.Sub {
			out.or(l.step(s, in))
		}
		return out
	case syntax.OpQuest:
		out := in.clone()
		out.or(l.step(re.Sub[0], in))
		return out
	case syntax.OpStar:
		return l.closure(re.Sub[0], in)
	case syntax.OpPlus:
		return l.closure(re.Sub[0], l.step(re.Sub[0], in))
	case syntax.OpRepeat:
		for range re.Min {
			in = l.step(re.Sub[0], in)
		}
		if re.Max < 0 {
			return l.closure(re.Sub[0], in)
		}
		out := in.clone()
		for k := re.Min; k < re.Max; k++ {
			in = l.step(re.Sub[0], in)
			if !out.or(in) {
				break
			}
		}
		return out
	}
	harness("reference matcher: unknown op %v", re.Op)
	return nil
}

func (l *refLine) closure(re *syntax.Regexp, in posSet) posSet {
	out := in.clone()
	for {
		if !out.or(l.step(re, out)) {
			return out
		}
	}
}

// match reports whether re matches somewhere in the line.
func (l *refLine) match(re *syntax.Regexp) bool {
	in := newPosSet(len(l.s))
	for i := 0; i <= len(l.s); i++ {
		in.add(i)
	}
	return !l.step(re, in).empty()
}

// refMatch returns the end offset of the first matching line of the text, or -1:
// the documented result of Regexp.Match. A text ending in a newline is followed by
// an empty last line here; Grep does not count that one.
func refMatch(re *syntax.Regexp, text string, beginText, endText bool) int {
	start := 0
	for {
		end := start
		for end < len(text) && text[end] != '\n' {
			end++
		}
		l := newRefLine(text[start:end], beginText && start == 0, endText && end == len(text))
		if l.match(re) {
			return end
		}
		if end == len(text) {
			return -1
		}
		start = end + 1
	}
}

// refLines splits a text into its lines (without newlines); a final newline
// ends the last line and does not start another.
func refLines(text string) []string {
	var lines []string
	for len(text) > 0 {
		i := 0
		for i < len(text) && text[i] != '\n' {
			i++
		}
		lines = append(lines, text[:i])
		if i == len(text) {
			break
		}
		text = text[i+1:]
	}
	return lines
}

// refSelect returns which lines of the text match.
func refSelect(re *syntax.Regexp, text string) []bool {
	lines := refLines(text)
	out := make([]bool, len(lines))
	endsNL := len(text) > 0 && text[len(text)-1] == '\n'
	cache := map[string]bool{}
	var prog *syntax.Prog
	for i, s := range lines {
		bot := i == 0
		eot := i == len(lines)-1 && !endsNL
		if !bot && !eot {
			if v, ok := cache[s]; ok {
				out[i] = v
				continue
			}
		}
		if len(s) > longLine {
			if prog == nil {
				prog = refProg(re)
			}
			out[i] = progMatch(prog, s, bot, eot)
		} else {
			out[i] = newRefLine(s, bot, eot).match(re)
		}
		if !bot && !eot {
			cache[s] = out[i]
		}
	}
	return out
}

func mustParse(expr string) *syntax.Regexp {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		harness("generator made an invalid expression %q: %v", expr, err)
	}
	return re
}

// progMatch decides the same question by simulating the compiled program over
// the characters of the line; used for long lines, where sets are too slow,
// and cross-checked against the sets on short ones.
func progMatch(p *syntax.Prog, s string, bot, eot bool) bool {
	mark := make([]int, len(p.Inst))
	for i := range mark {
		mark[i] = -1
	}
	var cur, next []uint32
	matched := false
	var add func(list *[]uint32, pc uint32, i int)
	add = func(list *[]uint32, pc uint32, i int) {
		if mark[pc] == i {
			return
		}
		mark[pc] = i
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(list, in.Out, i)
			add(list, in.Arg, i)
		case syntax.InstCapture, syntax.InstNop:
			add(list, in.Out, i)
		case syntax.InstEmptyWidth:
			var have syntax.EmptyOp
			if i == 0 {
				have |= syntax.EmptyBeginLine
				if bot {
					have |= syntax.EmptyBeginText
				}
			}
			if i == len(s) {
				have |= syntax.EmptyEndLine
				if eot {
					have |= syntax.EmptyEndText
				}
			}
			a := i > 0 && refWord(s[i-1])
			b := i < len(s) && refWord(s[i])
			if a != b {
				have |= syntax.EmptyWordBoundary
			} else {
				have |= syntax.EmptyNoWordBoundary
			}
			if need := syntax.EmptyOp(in.Arg); need&^have == 0 {
				add(list, in.Out, i)
			}
		case syntax.InstMatch:
			matched = true
		case syntax.InstFail:
		default:
			*list = append(*list, pc)
		}
	}
	for i := 0; ; {
		add(&cur, uint32(p.Start), i)
		if matched {
			return true
		}
		if i == len(s) {
			return false
		}
		r, w := utf8.DecodeRuneInString(s[i:])
		next = next[:0]
		if r == utf8.RuneError && w <= 1 {
			cur = cur[:0]
			i++
			continue
		}
		i += w
		for _, pc := range cur {
			in := &p.Inst[pc]
			ok := false
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				ok = in.MatchRune(r)
			case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				ok = true
			}
			if ok {
				add(&next, in.Out, i)
			}
		}
		if matched {
			return true
		}
		cur, next = next, cur
	}
}

const longLine = 1500

func refProg(re *syntax.Regexp) *syntax.Prog {
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		harness("%v", err)
	}
	return p
}
