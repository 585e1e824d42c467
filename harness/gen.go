package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---------------------------------------------------------------- alphabets

var asciiWords = []string{"foo", "bar", "Foo", "FOO", "baz", "qux", "kiss", "Kiss", "KISS", "sat", "ask", "x", "aa", "ab", "aba", "abab", "func", "return", "0", "12", "345", "_", "foo_bar", "a.b", "a+b", "(x)", "[y]", "{z}", "\\n", "^", "$", "|", "*", "?", "if", "err"}
var uniWords = []string{"é", "É", "à", "À", "ß", "ſ", "K", "Å", "å", "日本", "語", "😀", "σ", "ς", "Σ", "ж", "Ж", "ÿ", "Ÿ", "µ", "μ", "Ω", "İ", "ı", "\u00a0", "\u2028", "ﬀ", "\U00010400", "\U00010428", "\u0345", "ι", "ǅ", "ǆ"}
var seps = []string{" ", " ", "\t", ".", ",", ";", ":", "(", ")", "", "", "-", "/"}

// Style bounds what a corpus contains.
type Style struct {
	Unicode bool
	CRLF    bool
	Dense   bool // tiny alphabet: many repeats
}

func genWord(r *rand.Rand, st Style) string {
	if st.Unicode && r.Intn(4) == 0 {
		return uniWords[r.Intn(len(uniWords))]
	}
	if st.Dense {
		return string("abcABk"[r.Intn(6)])
	}
	return asciiWords[r.Intn(len(asciiWords))]
}

func genLine(r *rand.Rand, st Style) string {
	switch r.Intn(12) {
	case 0, 1:
		return ""
	case 2:
		return strings.Repeat(" ", r.Intn(4))
	}
	var b strings.Builder
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		b.WriteString(genWord(r, st))
		b.WriteString(seps[r.Intn(len(seps))])
	}
	s := b.String()
	if st.CRLF && r.Intn(3) == 0 {
		s += "\r"
	}
	return s
}

func genText(r *rand.Rand, st Style, maxLines int) string {
	n := r.Intn(maxLines + 1)
	ls := make([]string, n)
	for i := range ls {
		if i > 0 && r.Intn(6) == 0 {
			ls[i] = ls[r.Intn(i)]
		} else {
			ls[i] = genLine(r, st)
		}
	}
	s := strings.Join(ls, "\n")
	switch r.Intn(4) {
	case 0:
	default:
		if n > 0 {
			s += "\n"
		}
	}
	if r.Intn(10) == 0 {
		s = strings.Repeat("\n", r.Intn(4)) + s + strings.Repeat("\n", r.Intn(4))
	}
	return s
}

// splitLines is the reference notion of the lines of a file.
func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	ls := strings.Split(s, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// ---------------------------------------------------------------- patterns

type patGen struct {
	r     *rand.Rand
	st    Style
	depth int
	// literal fragments to draw from
	frags []string
}

func (g *patGen) lit() string {
	r := g.r
	var s string
	if len(g.frags) > 0 && r.Intn(3) > 0 {
		s = g.frags[r.Intn(len(g.frags))]
	} else {
		s = genWord(r, g.st)
	}
	if r.Intn(5) == 0 && !g.st.Dense {
		s += seps[r.Intn(len(seps))] + genWord(r, g.st)
	}
	switch r.Intn(12) {
	case 0:
		return "\\Q" + strings.ReplaceAll(s, "\\E", "") + "\\E"
	case 1:
		// escape each rune
		var b strings.Builder
		for _, c := range s {
			fmt.Fprintf(&b, "\\x{%x}", c)
		}
		return b.String()
	}
	return regexp.QuoteMeta(s)
}

var classPieces = []string{"a-c", "x-z", "0-9", "A-F", "k", "K", "s", "S", "_", " ", "\\d", "\\w", "\\s", "\\D", "\\W", "[:alpha:]", "[:^digit:]", "[:upper:]", "[:punct:]", "b", "o", "r", "f", "\\t", "."}
var uclassPieces = []string{"é", "À-Ö", "à-ö", "α-ω", "\\pL", "\\p{Lu}", "\\p{Greek}", "\\PN", "日", "\\x{80}-\\x{7ff}", "\\x{100}-\\x{10ffff}", "ſ", "K", "😀", "\\p{Cyrillic}", "\\x{7f}-\\x{81}", "\\x{fff0}-\\x{1000f}", "İ", "\\x{800}-\\x{ffff}", "\\x00-\\x{10ffff}"}

func (g *patGen) class() string {
	r := g.r
	n := 1 + r.Intn(3)
	var b strings.Builder
	b.WriteByte('[')
	if r.Intn(4) == 0 {
		b.WriteByte('^')
	}
	for i := 0; i < n; i++ {
		if g.st.Unicode && r.Intn(3) == 0 {
			b.WriteString(uclassPieces[r.Intn(len(uclassPieces))])
		} else {
			b.WriteString(classPieces[r.Intn(len(classPieces))])
		}
	}
	b.WriteByte(']')
	return b.String()
}

func (g *patGen) atom(d int) string {
	r := g.r
	switch r.Intn(16) {
	case 0, 1, 2, 3, 4:
		return g.lit()
	case 5, 6:
		return g.class()
	case 7:
		return "."
	case 8:
		return []string{"\\d", "\\w", "\\s", "\\D", "\\W", "\\S"}[r.Intn(6)]
	case 9:
		if g.st.Unicode {
			return []string{"\\pL", "\\p{Lu}", "\\PL", "\\p{Greek}", "é", "(?i:K)", "(?i:ſ)", "[\\x{80}-\\x{10ffff}]", "(À|à)", "(?i:ς)", "(?s:.)", "[µμ]"}[r.Intn(12)]
		}
		return []string{"(?i:k)", "(?i:s)", "(?s:.)", "[aA]", "[kK]", "(a|A)", "[[:alpha:]]"}[r.Intn(7)]
	case 10:
		return []string{"\\b", "^", "$", "(?:)", "\\b", "()"}[r.Intn(6)]
	default:
		if d <= 0 {
			return g.lit()
		}
		open := []string{"(", "(?:", "(?i:", "(?:", "(", "(?s:", "(?U:", "(?P<n" + fmt.Sprint(r.Intn(1000000)) + ">"}[r.Intn(8)]
		return open + g.alt(d-1) + ")"
	}
}

func (g *patGen) rep(d int) string {
	a := g.atom(d)
	r := g.r
	if r.Intn(3) > 0 {
		return a
	}
	if utf8.RuneCountInString(a) > 1 && a[0] != '(' && a[0] != '[' && a[0] != '\\' {
		a = "(?:" + a + ")"
	}
	q := []string{"*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{0,3}", "{2,}", "{0}", "{0,1}?"}[r.Intn(12)]
	return a + q
}

func (g *patGen) cat(d int) string {
	n := 1 + g.r.Intn(3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(g.rep(d))
	}
	return b.String()
}

func (g *patGen) alt(d int) string {
	n := 1
	if g.r.Intn(3) == 0 {
		n = 2 + g.r.Intn(3)
	}
	ps := make([]string, n)
	for i := range ps {
		ps[i] = g.cat(d)
	}
	return strings.Join(ps, "|")
}

func (g *patGen) pattern() string {
	r := g.r
	p := g.alt(g.depth)
	switch r.Intn(10) {
	case 0:
		p = "^" + p
	case 1:
		p = p + "$"
	case 2:
		p = "^(?:" + p + ")$"
	}
	return p
}

// validPattern reports whether the reference accepts p and p stays inside the
// dialect with per-line meaning (no text anchors).
func validPattern(p string) (*syntax.Regexp, bool) {
	re, err := syntax.Parse("(?m)"+p, syntax.Perl)
	if err != nil {
		return nil, false
	}
	return re, !usesTextAnchors(re)
}

func usesTextAnchors(re *syntax.Regexp) bool {
	if re.Op == syntax.OpBeginText || re.Op == syntax.OpEndText {
		return true
	}
	for _, s := range re.Sub {
		if usesTextAnchors(s) {
			return true
		}
	}
	return false
}

func usesNoWordBoundary(re *syntax.Regexp) bool {
	if re.Op == syntax.OpNoWordBoundary {
		return true
	}
	for _, s := range re.Sub {
		if usesNoWordBoundary(s) {
			return true
		}
	}
	return false
}

// fragments of real lines, so that literals hit
func fragsOf(r *rand.Rand, texts []string, n int) []string {
	var out []string
	for len(out) < n && len(texts) > 0 {
		t := texts[r.Intn(len(texts))]
		ls := splitLines(t)
		if len(ls) == 0 {
			n--
			continue
		}
		l := []rune(ls[r.Intn(len(ls))])
		if len(l) == 0 {
			n--
			continue
		}
		i := r.Intn(len(l))
		j := i + 1 + r.Intn(8)
		if j > len(l) {
			j = len(l)
		}
		out = append(out, strings.Trim(string(l[i:j]), "\r"))
	}
	return out
}

// sampleMatch returns a random string the (sub)expression can match, with
// no newline; ok is false when it gives up. Empty-width assertions are
// ignored (the caller confirms with the reference).
func sampleMatch(r *rand.Rand, re *syntax.Regexp, depth int) (string, bool) {
	switch re.Op {
	case syntax.OpNoMatch:
		return "", false
	case syntax.OpLiteral:
		var b strings.Builder
		for _, c := range re.Rune {
			if re.Flags&syntax.FoldCase != 0 {
				for k := r.Intn(4); k > 0; k-- {
					c = unicode.SimpleFold(c)
				}
			}
			b.WriteRune(c)
		}
		return b.String(), true
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return "", false
		}
		for try := 0; try < 20; try++ {
			i := r.Intn(len(re.Rune)/2) * 2
			lo, hi := re.Rune[i], re.Rune[i+1]
			c := lo
			switch r.Intn(4) {
			case 0:
				c = hi
			case 1:
				if hi-lo < 200 {
					c = lo + rune(r.Intn(int(hi-lo)+1))
				} else {
					c = lo + rune(r.Intn(200))
				}
			case 2:
				c = lo + rune(r.Int63n(int64(hi-lo)+1))
			}
			if c != '\n' && utf8.ValidRune(c) {
				return string(c), true
			}
		}
		return "", false
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return string([]rune("aZ0 é日😀_")[r.Intn(8)]), true
	case syntax.OpCapture:
		return sampleMatch(r, re.Sub[0], depth)
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		min, max := 0, 3
		switch re.Op {
		case syntax.OpPlus:
			min = 1
		case syntax.OpQuest:
			max = 1
		case syntax.OpRepeat:
			min = re.Min
			max = re.Max
			if max < 0 {
				max = min + 2
			}
			if max > min+3 {
				max = min + 3
			}
		}
		n := min
		if max > min {
			n += r.Intn(max - min + 1)
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			s, ok := sampleMatch(r, re.Sub[0], depth+1)
			if !ok {
				if min == 0 {
					return "", true
				}
				return "", false
			}
			b.WriteString(s)
		}
		return b.String(), true
	case syntax.OpConcat:
		var b strings.Builder
		for _, s := range re.Sub {
			x, ok := sampleMatch(r, s, depth+1)
			if !ok {
				return "", false
			}
			b.WriteString(x)
		}
		return b.String(), true
	case syntax.OpAlternate:
		for try := 0; try < 4; try++ {
			if x, ok := sampleMatch(r, re.Sub[r.Intn(len(re.Sub))], depth+1); ok {
				return x, true
			}
		}
		return "", false
	}
	return "", true
}
