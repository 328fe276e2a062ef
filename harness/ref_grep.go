package main

// The reference for what grepping a text must print.

import (
	"bytes"
	"fmt"
	"regexp/syntax"
	"strings"
)

type grepOpts struct {
	n, h, l, c, v bool
	before, after int
}

func (o grepOpts) context() bool { return (o.before > 0 || o.after > 0) && !o.c && !o.l }

func (o grepOpts) flags() []string {
	var a []string
	for _, f := range []struct {
		on   bool
		name string
	}{{o.n, "-n"}, {o.h, "-h"}, {o.l, "-l"}, {o.c, "-c"}, {o.v, "-v"}} {
		if f.on {
			a = append(a, f.name)
		}
	}
	return append(a, o.contextFlags(0)...)
}

// contextFlags is one of the ways to ask for the context.
func (o grepOpts) contextFlags(way int) []string {
	b, a := fmt.Sprint(o.before), fmt.Sprint(o.after)
	switch way {
	case 1: // -C is both
		if o.before == o.after && o.after > 0 {
			return []string{"-C", a}
		}
	case 2:
		if o.before > 0 {
			return []string{"-C=" + b, "-A=" + a}
		}
	case 3:
		if o.after > 0 {
			return []string{"--C", a, "--B", b}
		}
	}
	var l []string
	if o.before > 0 {
		l = append(l, "-B", b)
	}
	if o.after > 0 {
		l = append(l, "-A", a)
	}
	return l
}

func (o grepOpts) String() string { return strings.Join(o.flags(), " ") }

func randOpts(c *C, v bool) grepOpts {
	var o grepOpts
	switch c.IntN(8) {
	case 0:
		o.l = true
	case 1:
		o.c = true
	}
	o.n = c.Chance(2)
	o.h = c.Chance(3) && !o.c // -h with -c is not specified
	o.v = v && c.Chance(3)
	return o
}

// A grepText is a text with its lines, judged by one expression.
type grepText struct {
	name  string
	lines []string
	sel   []bool // which lines match
	nsel  int
}

func newGrepText(re *syntax.Regexp, name, text string) *grepText {
	t := &grepText{name: name, lines: refLines(text), sel: refSelect(re, text)}
	for _, s := range t.sel {
		if s {
			t.nsel++
		}
	}
	return t
}

func (t *grepText) selected(o grepOpts) int {
	if o.v {
		return len(t.lines) - t.nsel
	}
	return t.nsel
}

// refGrep appends what grepping the text prints, without context; at most
// limit lines if limit >= 0.
func (t *grepText) print(b *bytes.Buffer, o grepOpts, limit int) (printed int) {
	if o.l {
		if t.selected(o) > 0 && limit != 0 {
			fmt.Fprintf(b, "%s\n", t.name)
			return 1
		}
		return 0
	}
	if o.c {
		if k := t.selected(o); k > 0 {
			fmt.Fprintf(b, "%s: %d\n", t.name, k)
		}
		return 0
	}
	for i, s := range t.sel {
		if s == o.v {
			continue
		}
		if limit >= 0 && printed >= limit {
			return printed
		}
		printed++
		if !o.h {
			b.WriteString(t.name + ":")
		}
		if o.n {
			fmt.Fprintf(b, "%d:", i+1)
		}
		b.WriteString(t.lines[i])
		b.WriteByte('\n')
	}
	return printed
}

// checkContext judges context output for one text and returns what is left
// of the output, or what is wrong.
func (t *grepText) checkContext(out []byte, o grepOpts, limit int) (rest []byte, blocks int, problem string) {
	line := func() (string, bool) {
		i := bytes.IndexByte(out, '\n')
		if i < 0 {
			return string(out), false
		}
		s := string(out[:i])
		out = out[i+1:]
		return s, true
	}
	o.before, o.after = min(o.before, len(t.lines)), min(o.after, len(t.lines)) // so that sums are small
	for i, s := range t.sel {
		if s == o.v || limit >= 0 && blocks >= limit {
			continue
		}
		blocks++
		head := fmt.Sprintf("%d:", i+1)
		if !o.h {
			head = t.name + ":" + head
		}
		got, ok := line()
		if !ok || got != head {
			return out, blocks, fmt.Sprintf("match on line %d of %q: header is %q, want %q", i+1, t.name, got, head)
		}
		indent := -1
		var indentText string
		var shown, orig []string
		for j := max(0, i-o.before); j <= min(len(t.lines)-1, i+o.after); j++ {
			got, ok := line()
			mark := "\t\t"
			if j == i {
				mark = "\t>>\t"
			}
			if !ok || !strings.HasPrefix(got, mark) {
				return out, blocks, fmt.Sprintf("match on line %d of %q: line %d should be shown after %q, got %q", i+1, t.name, j+1, mark, got)
			}
			shown = append(shown, got[len(mark):])
			orig = append(orig, strings.TrimRight(t.lines[j], " \t\r\n"))
		}
		for j := range shown {
			if orig[j] == "" {
				if shown[j] != "" {
					return out, blocks, fmt.Sprintf("match on line %d of %q: blank line shown as %q", i+1, t.name, shown[j])
				}
				continue
			}
			cut := len(orig[j]) - len(shown[j])
			if cut < 0 || !strings.HasSuffix(orig[j], shown[j]) || strings.Trim(orig[j][:max(cut, 0)], " \t") != "" {
				return out, blocks, fmt.Sprintf("match on line %d of %q: line %q shown as %q", i+1, t.name, orig[j], shown[j])
			}
			if indent < 0 {
				indent, indentText = cut, orig[j][:cut]
			}
			if cut != indent || orig[j][:cut] != indentText {
				return out, blocks, fmt.Sprintf("match on line %d of %q: different indentation cut from its lines: %q", i+1, t.name, shown)
			}
		}
	}
	return out, blocks, ""
}

// firstDiff describes where two outputs part.
func firstDiff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	if i == len(got) && i == len(want) {
		return ""
	}
	show := func(b []byte) string {
		lo, hi := max(0, i-80), min(len(b), i+120)
		if lo > len(b) {
			lo = len(b)
		}
		return fmt.Sprintf("%q", b[lo:hi])
	}
	return fmt.Sprintf("%d bytes, want %d; they differ at byte %d (line %d): %s, want %s", len(got), len(want), i, 1+bytes.Count(want[:min(i, len(want))], []byte("\n")), show(got), show(want))
}
