//go:build go1.21

// Q01: metric search returns the first matches of the listing.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/vivint/rothko/api/query"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

func lower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 'a' - 'A'
	}
	return c
}

// contains reports if the pattern matches any part of the component: the
// textbook definition.
func contains(pattern, comp string) bool {
	for i := 0; i <= len(comp); i++ {
		if starts(pattern, comp[i:]) {
			return true
		}
	}
	return false
}

// starts reports if the pattern matches a prefix.
func starts(pattern, s string) bool {
	if pattern == "" {
		return true
	}
	switch c := lower(pattern[0]); {
	case c == '*':
		for i := 0; i <= len(s); i++ {
			if starts(pattern[1:], s[i:]) {
				return true
			}
		}
		return false
	case s == "":
		return false
	case c == '?' || c == lower(s[0]):
		return starts(pattern[1:], s[1:])
	}
	return false
}

// matches is the reference: every part of the query has to match a run of
// components.
func matches(q, name string) bool {
	comps := strings.Split(name, ".")
	if comps[len(comps)-1] == "" {
		comps = comps[:len(comps)-1]
	}
parts:
	for _, part := range strings.Fields(q) {
		ps := strings.Split(part, ".")
	next:
		for i := 0; i+len(ps) <= len(comps); i++ {
			for j, p := range ps {
				if !contains(p, comps[i+j]) {
					continue next
				}
			}
			continue parts
		}
		return false
	}
	return true
}

// words are all strings over the alphabet from the shortest on.
func words(alphabet string, length int) []string {
	out := []string{""}
	for from, l := 0, 0; l < length; l++ {
		to := len(out)
		for _, w := range out[from:to] {
			for i := 0; i < len(alphabet); i++ {
				out = append(out, w+alphabet[i:i+1])
			}
		}
		from = to
	}
	return out
}

// pairs compares every query with every name.
func pairs(name, qalpha string, qlen int, nalpha string, nlen int) vh.Scenario {
	qs, ns := words(qalpha, qlen), words(nalpha, nlen)
	ns = append(ns, "ActionsPerMinute", "a.foo.bar.baz.b")
	return vh.Scenario{Name: fmt.Sprintf("%s-%dx%d", name, len(qs), len(ns)), Body: func() {
		q := qs[vs.Choose(len(qs))]
		s := query.New(q, 1)
		n := 0
		for _, name := range ns {
			want := matches(q, name)
			if got := s.Match(name); got != want {
				vs.Fail("match", "the query %q matches %q: %v", q, name, got)
			}
			if want {
				n++
			}
		}
		vs.Outcome("%q matches %d of %d", q, n, len(ns))
	}}
}

// search compares the result of a search over lists of names.
func search(name string, listLen int) vh.Scenario {
	qs := words("ab. *", 2)
	ns := []string{"a", "b", "ab", "a.b", "B.a", ".", ""}
	return vh.Scenario{Name: fmt.Sprintf("%s-%d", name, listLen), Body: func() {
		q := qs[vs.Choose(len(qs))]
		limit := []int{0, 1, 2, 3, 10, -1, -1 << 40, 1 << 40}[vs.Choose(8)]
		var list, want []string
		for i := vs.Choose(listLen + 1); i > 0; i-- {
			list = append(list, ns[vs.Choose(len(ns))])
		}
		s := query.New(q, limit)
		for i, n := range list {
			full := len(want) >= limit
			if !full && matches(q, n) {
				want = append(want, n)
			}
			more, err := s.Add(n)
			if err != nil {
				vs.Fail("add", "the query %q fails on %q: %v", q, n, err)
			}
			if !more {
				// it may only stop when nothing can follow
				if len(want) < limit {
					vs.Fail("add", "the query %q for %d stops in %q after %d", q, limit, list, i+1)
				}
				if i%2 == 0 {
					break
				}
			} else if full {
				vs.Fail("add", "the query %q for %d goes on in %q after %d", q, limit, list, i+1)
			}
		}
		got := s.Matched()
		if got == nil || len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
			vs.Fail("matched", "the query %q for %d of %q returns %q instead of %q", q, limit, list, got, want)
		}
		vs.Outcome("%q %d %q: %q", q, limit, list, got)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "Q01", Level: "model_checking",
		Rule: "every query against every name over the alphabets up to the lengths, and every list of names with every limit; matches are compared with the textbook definition of the patterns, results with a filtered prefix of the list",
		Scenarios: func(tier string) []vh.Scenario {
			octets := make([]byte, 256)
			for i := range octets {
				octets[i] = byte(i)
			}
			if tier == "thorough" {
				return []vh.Scenario{
					search("lists", 5),
					pairs("octets", string(octets), 1, string(octets), 2),
					pairs("octets", string(octets), 2, string(octets), 1),
					pairs("stars", "ab*?", 6, "abA", 7),
					pairs("components", "ab.*", 6, "ab.", 7),
					pairs("spaces", "a. *Bz", 5, "aAbZ.", 6),
					pairs("bytes", "a\x00\xff*?\t.", 5, "a\x00\xff\t .", 5),
				}
			}
			return []vh.Scenario{
				search("lists", 4),
				pairs("octets", string(octets), 1, string(octets), 1),
				pairs("stars", "ab*?", 5, "abA", 6),
				pairs("components", "ab.*", 5, "ab.", 6),
				pairs("spaces", "a. *Bz", 4, "aAbZ.", 5),
				pairs("bytes", "a\x00\xff*?\t.", 4, "a\x00\xff\t .", 4),
			}
		}})
}
