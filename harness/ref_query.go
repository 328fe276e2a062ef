package main

import "github.com/google/codesearch/index"

// trigramsOf returns the set of trigrams of the text.
func trigramsOf(text []byte) map[string]bool {
	m := map[string]bool{}
	for i := 0; i+3 <= len(text); i++ {
		m[string(text[i:i+3])] = true
	}
	return m
}

// evalQuery evaluates a trigram query on a set of trigrams by definition.
func evalQuery(q *index.Query, has func(t string) bool) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		for _, t := range q.Trigram {
			if !has(t) {
				return false
			}
		}
		for _, s := range q.Sub {
			if !evalQuery(s, has) {
				return false
			}
		}
		return true
	case index.QOr:
		for _, t := range q.Trigram {
			if has(t) {
				return true
			}
		}
		for _, s := range q.Sub {
			if evalQuery(s, has) {
				return true
			}
		}
		return false
	}
	panic("bad query op")
}

func countQuery(q *index.Query) int {
	n := len(q.Trigram)
	for _, s := range q.Sub {
		n += countQuery(s)
	}
	return n
}
