package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	cregexp "github.com/hound-search/hound/codesearch/regexp"
)

func init() {
	register(&Check{ID: "C03", Fn: c03,
		Rule: "random expressions x random multi-line UTF-8 buffers, one compiled automaton reused over all buffers and a fresh one at random; sweeps over every BMP case-fold orbit, UTF-8 length boundaries, random rune ranges, cache-overflowing automata; non-trivial = distinct (expression, buffer) with a match that is not in the first line or no match in a non-empty buffer",
	})
}

// refMatch: the set of acceptable answers; last is the alternative answer for
// a match only on the empty remainder after the final newline.
func refMatch(ref *regexp.Regexp, b string) (end, alt int) {
	off := 0
	ls := strings.Split(b, "\n")
	for i, l := range ls {
		if ref.MatchString(l) {
			e := off + len(l)
			if i == len(ls)-1 && l == "" && len(ls) > 1 {
				return e, -1
			}
			return e, e
		}
		off += len(l) + 1
	}
	return -1, -1
}

func c03(t *T) {
	c03random(t)
	if !t.Stop() {
		c03runes(t)
	}
	if !t.Stop() {
		c03cache(t)
	}
}

func c03one(t *T, re *cregexp.Regexp, ref *regexp.Regexp, pat, b string) bool {
	t.Eval(1)
	end, alt := refMatch(ref, b)
	got := re.Match([]byte(b), true, true)
	gotS := re.MatchString(b, true, true)
	if got != end && got != alt {
		t.Violate("match:"+pat, map[string]string{"pattern": pat, "buffer": b}, "pattern %q on %q: Match=%d, want %d", pat, clip(b), got, end)
		return false
	}
	if gotS != end && gotS != alt {
		t.Violate("matchs:"+pat, map[string]string{"pattern": pat, "buffer": b}, "pattern %q on %q: MatchString=%d, want %d", pat, clip(b), gotS, end)
		return false
	}
	return true
}

func c03random(t *T) {
	n, per := t.N(9000, 200000), 14
	t.Par(n, 0, func(i int) {
		r := t.Rng("rand", i)
		st := Style{Unicode: i%2 == 1, Dense: i%5 == 2}
		g := &patGen{r: r, st: st, depth: 1 + r.Intn(3)}
		bufs := make([]string, per)
		for k := range bufs {
			bufs[k] = genText(r, st, 5)
		}
		g.frags = fragsOf(r, bufs, 6)
		p := g.pattern()
		if r.Intn(4) == 0 {
			p = "(?i:" + p + ")"
		}
		sre, ok := validPattern(p)
		if !ok || st.Unicode && usesNoWordBoundary(sre) {
			return
		}
		full := "(?m)" + p
		t.Current("C03 %q", full)
		t.Guard("panic", full, func() {
			re, err := cregexp.Compile(full)
			ref, rerr := regexp.Compile(full)
			if (err != nil) != (rerr != nil) {
				t.Violate("compile", full, "%q: compile error %v, reference %v", full, err, rerr)
				return
			}
			if err != nil {
				return
			}
			for k, b := range bufs {
				if s, ok := sampleMatch(r, sre, 0); ok && r.Intn(3) == 0 {
					b += s + "\n" + genLine(r, st)
				}
				if !c03one(t, re, ref, full, b) {
					return
				}
				if r.Intn(6) == 0 {
					if re2, err := cregexp.Compile(full); err == nil && !c03one(t, re2, ref, full, b) {
						return
					}
				}
				e, _ := refMatch(ref, b)
				if b != "" && e != strings.IndexByte(b+"\n", '\n') {
					t.Distinct(full, b)
					if k == 0 && len(b) < 60 && len(full) < 60 {
						t.Sample(map[string]interface{}{"pattern": full, "buffer": b, "end": e})
					}
				}
			}
			// again in another order: the used automaton must not have learned anything wrong
			for _, k := range r.Perm(len(bufs)) {
				if !c03one(t, re, ref, full, bufs[k]) {
					return
				}
			}
		})
	})
}

func orbit(r rune) []rune {
	out := []rune{r}
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		out = append(out, f)
	}
	return out
}

func c03runes(t *T) {
	var runes []rune
	edges := map[rune]bool{}
	for _, e := range []rune{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0x3f, 0xbf, 0xfff, 0x1000, 0x3ffff, 0x40000, 0xfffff, 0x100000} {
		for d := rune(-2); d <= 2; d++ {
			c := e + d
			if c >= 0 && c <= unicode.MaxRune && utf8.ValidRune(c) && c != '\n' {
				edges[c] = true
			}
		}
	}
	step := rune(1)
	for c := rune(0); c <= 0x1ffff; c += step {
		if !utf8.ValidRune(c) || c == '\n' {
			continue
		}
		if len(orbit(c)) > 1 || edges[c] || c < 0x250 || c%61 == 0 {
			runes = append(runes, c)
		}
	}
	for c := range edges {
		runes = append(runes, c)
	}
	t.Count("runes_swept", len(runes))
	t.Par(len(runes), 0, func(i int) {
		c := runes[i]
		lit := regexp.QuoteMeta(string(c))
		r := t.Rng("rune", i)
		pats := []string{lit, "(?i)" + lit, "x(?:" + lit + ")y", "(?i)[" + regexp.QuoteMeta(string(c)) + "]", "[^" + cls(c) + "]"}
		cand := append([]rune{c, c - 1, c + 1, unicode.ToUpper(c), unicode.ToLower(c), unicode.ToTitle(c), 'a', 0x80 | c&0x3f, c >> 6, c & 0x7f, 0xff}, orbit(c)...)
		for _, p := range pats {
			full := "(?m)" + p
			ref, err := regexp.Compile(full)
			if err != nil {
				continue
			}
			t.Guard("panic", full, func() {
				re, err := cregexp.Compile(full)
				if err != nil {
					t.Violate("compile", full, "%v", err)
					return
				}
				for _, d := range cand {
					if d < 0 || !utf8.ValidRune(d) || d == '\n' {
						continue
					}
					b := string(d)
					if r.Intn(3) == 0 {
						b = "x" + b + "y"
					}
					if !c03one(t, re, ref, full, b) {
						return
					}
					if ref.MatchString(b) != (d == c) {
						t.Distinct(full, b)
					}
				}
			})
		}
	})
	// pairs of runes as alternatives and two-element classes
	n := t.N(4000, 60000)
	t.Par(n, 0, func(i int) {
		r := t.Rng("range", i)
		a, b := randRune(r, runes), randRune(r, runes)
		if r.Intn(3) == 0 {
			o := orbit(a)
			b = o[r.Intn(len(o))]
		}
		if a > b {
			a, b = b, a
		}
		pats := []string{
			fmt.Sprintf("[\\x{%x}-\\x{%x}]", a, b), fmt.Sprintf("(?i)[\\x{%x}-\\x{%x}]", a, b), fmt.Sprintf("[^\\x{%x}-\\x{%x}]", a, b),
			fmt.Sprintf("(?:\\x{%x}|\\x{%x})", a, b), fmt.Sprintf("x(?:\\x{%x}|\\x{%x})+y", a, b), fmt.Sprintf("[\\x{%x}\\x{%x}]", a, b),
			fmt.Sprintf("^[\\x{%x}-\\x{%x}]*$", a, b),
		}
		for _, p := range pats {
			full := "(?m)" + p
			ref, err := regexp.Compile(full)
			if err != nil {
				continue
			}
			t.Guard("panic", full, func() {
				re, err := cregexp.Compile(full)
				if err != nil {
					t.Violate("compile", full, "%v", err)
					return
				}
				for _, d := range []rune{a, b, a - 1, a + 1, b - 1, b + 1, a + (b-a)/2, randRune(r, runes), 0x80, 0x7ff, 0x800, 0xffff, 0x10000} {
					if d < 0 || !utf8.ValidRune(d) || d == '\n' {
						continue
					}
					if !c03one(t, re, ref, full, "x"+string(d)+"y") || !c03one(t, re, ref, full, string(d)+string(a)) {
						return
					}
					t.Distinct(full, d)
				}
			})
		}
	})
}

func cls(c rune) string { return fmt.Sprintf("\\x{%x}", c) }

func randRune(r *rand.Rand, runes []rune) rune {
	if r.Intn(3) == 0 {
		c := rune(r.Intn(0x110000))
		if utf8.ValidRune(c) && c != '\n' {
			return c
		}
	}
	return runes[r.Intn(len(runes))]
}

// automata with more states than the cache holds
func c03cache(t *T) {
	n := t.N(10, 120)
	t.Par(n, 0, func(i int) {
		r := t.Rng("cache", i)
		k := 9 + r.Intn(4)
		p := fmt.Sprintf("^[ab]*a[ab]{%d}c", k)
		if i%3 == 1 {
			p = fmt.Sprintf("(a|b)*a(a|b){%d}(c|d)$", k)
		}
		if i%3 == 2 {
			p = fmt.Sprintf("[ab]a[ab]{%d}[cd]\\b", k)
		}
		full := "(?m)" + p
		ref := regexp.MustCompile(full)
		t.Current("C03 cache %q", full)
		t.Guard("panic", full, func() {
			re, err := cregexp.Compile(full)
			if err != nil {
				t.Violate("compile", full, "%v", err)
				return
			}
			for j := 0; j < t.N(30, 60); j++ {
				var b strings.Builder
				for l := 0; l < 10; l++ {
					m := 200 + r.Intn(900)
					for x := 0; x < m; x++ {
						b.WriteByte("ab"[r.Intn(2)])
					}
					if j%2 == 1 && r.Intn(9) == 0 {
						b.WriteByte("cd"[r.Intn(2)])
					}
					b.WriteByte('\n')
				}
				if !c03one(t, re, ref, full, b.String()) {
					return
				}
				t.Count("overflow_bytes", b.Len())
				t.Distinct(full, j)
			}
		})
	})
}
