package main

import (
	"strings"
	"unicode/utf8"
)

type verdict int

const (
	isText      verdict = iota // must be indexed
	notText                    // must be skipped
	unspecified                // either is fine
)

// textPolicy judges a file's contents by the documented rules.
func textPolicy(s string) verdict {
	if strings.IndexByte(s, 0) >= 0 {
		return notText
	}
	res := isText
	prev := byte(0) // as if ASCII
	for i := 0; i < len(s); i++ {
		b := s[i]
		cont := 0x80 <= b && b < 0xC0
		prevLead := 0xC0 <= prev && prev < 0xF8
		switch {
		case b >= 0xF8:
			return notText
		case cont && prev < 0x80:
			return notText
		case !cont && prevLead:
			return notText
		}
		prev = b
	}
	if !utf8.ValidString(s) {
		res = unspecified
	}
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\n' {
			n := i - start
			if n > 2000 {
				return notText
			}
			if n == 2000 && i < len(s) {
				res = unspecified
			}
			start = i + 1
		}
	}
	if len(s) > 20000 && len(triList(s)) > 20000 {
		return notText
	}
	return res
}

// refNameOK reports whether a name can be stored in an index.
func refNameOK(name string) bool {
	if name == "" {
		return false
	}
	for i := range len(name) {
		if name[i] < ' ' {
			return false
		}
	}
	return true
}
