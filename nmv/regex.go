package main

import (
	"math/rand/v2"
	"regexp"
	"strings"
)

// The generator of patterns. The brackets, braces, bars and parentheses that
// occur in the patterns in all of their roles are what a template parser has
// to find its way through.

// classChars are the characters the values of classes are taken from.
var classChars = runes("abcxyzABZ0179 _-.:,;{}[]()|^$\\/é日~\u007f\n")

// randClass returns a character class.
func randClass(r *rand.Rand) string {
	var sb strings.Builder
	sb.WriteByte('[')
	if r.IntN(3) == 0 {
		sb.WriteByte('^')
	}
	if r.IntN(4) == 0 {
		sb.WriteByte(']') // It's literal here.
	}
	items := []string{
		"a", "b", "z", "0", "9", "_", ".", ":", "{", "}", "[", "(", ")", "|",
		"$", "/", "é", "a-f", "x-z", "0-9", "A-Z", `\]`, `\[`, `\\`, `\}`, `\{`,
		`\^`, `\-`, `\d`, `\w`, `\s`, `\pL`, `\p{Greek}`, `\x41`, `\x{e9}`,
		"[:alpha:]", "[:digit:]", "[:^digit:]", "[:upper:]", "[:word:]",
		"[:punct:]", "α-ω", `\D`, "^", "^", "+", "*", "?",
	}
	for n := 1 + r.IntN(4); n > 0; n-- {
		it := pick(r, items)
		if it == ":" && sb.Len() > 1 && strings.HasSuffix(sb.String(), "[") {
			// The regexp package looks for the end of a named class anywhere
			// in the whole expression.
			it = ";"
		}
		sb.WriteString(it)
	}
	if r.IntN(8) == 0 {
		sb.WriteByte('-')
	}
	sb.WriteByte(']')
	return sb.String()
}

// genPat is a piece of a pattern with the generator of what it matches.
type genPat struct {
	src string
	gen func(r *rand.Rand) string
}

func randAtom(r *rand.Rand, depth int) (genPat, bool) {
	switch k := r.IntN(10); {
	case k < 4:
		src := randClass(r)
		re, err := regexp.Compile(`\A(?:` + src + `)\z`)
		if err != nil {
			return genPat{}, false
		}
		var in []string
		for _, ch := range classChars {
			if re.MatchString(string(ch)) {
				in = append(in, string(ch))
			}
		}
		if len(in) == 0 {
			return genPat{}, false
		}
		return genPat{src, func(r *rand.Rand) string { return pick(r, in) }}, true
	case k < 6:
		s := pick(r, []string{"a", "bc", "x", "7", "é", "-", ":", "_", "/", "]", "qq"})
		return genPat{s, func(*rand.Rand) string { return s }}, true
	case k < 8:
		e := pick(r, [][2]string{
			{`\{`, "{"}, {`\}`, "}"}, {`\[`, "["}, {`\]`, "]"}, {`\(`, "("},
			{`\)`, ")"}, {`\|`, "|"}, {`\\`, `\`}, {`\:`, ":"}, {`\$`, "$"},
			{`\^`, "^"}, {`\.`, "."}, {`\d`, "5"}, {`\w`, "w"}, {`\S`, "!"},
			{`\x{41}`, "A"}, {`\pL`, "ö"}, {`\p{Greek}`, "λ"}, {`\PL`, "1"},
			{`\Q{[(|\E`, "{[(|"}, {`\Q}\E`, "}"}, {`\Q)]\E`, ")]"}, {`\Q\\E`, `\`},
			{`.`, "."}, {`\x2F`, "/"},
		})
		return genPat{e[0], func(*rand.Rand) string { return e[1] }}, true
	}
	if depth == 0 {
		return genPat{"g", func(*rand.Rand) string { return "g" }}, true
	}
	p, ok := randAlt(r, depth-1)
	if !ok {
		return p, false
	}
	open := pick(r, []string{"(", "(?:", "(?P<g>", "(?s:", "(?U:", "(?i:"})
	if open == "(?P<g>" && strings.Contains(p.src, "(?P<g>") {
		open = "("
	}
	return genPat{open + p.src + ")", p.gen}, true
}

func randAlt(r *rand.Rand, depth int) (genPat, bool) {
	n := 1
	if r.IntN(3) == 0 {
		n = 2 + r.IntN(2)
	}
	var srcs []string
	var gens []func(r *rand.Rand) string
	for range n {
		var sb strings.Builder
		var seq []func(r *rand.Rand) string
		for range 1 + r.IntN(3) {
			a, ok := randAtom(r, depth)
			if !ok {
				return a, false
			}
			lo, hi, q := 1, 1, ""
			switch r.IntN(9) {
			case 0:
				lo, hi, q = 0, 1, "?"
			case 1:
				lo, hi, q = 1, 3, "+"
			case 2:
				lo, hi, q = 0, 3, "*"
			case 3:
				lo, hi, q = 2, 2, "{2}"
			case 4:
				lo, hi, q = 1, 3, "{1,3}"
			case 5:
				lo, hi, q = 2, 4, "{2,}"
			}
			src := a.src
			if q != "" && len([]rune(src)) > 1 && src[0] != '[' && src[0] != '(' {
				src = "(?:" + src + ")"
			}
			sb.WriteString(src + q)
			seq = append(seq, func(r *rand.Rand) string {
				var sb strings.Builder
				for n := lo + r.IntN(hi-lo+1); n > 0; n-- {
					sb.WriteString(a.gen(r))
				}
				return sb.String()
			})
		}
		srcs = append(srcs, sb.String())
		gens = append(gens, func(r *rand.Rand) string {
			s := ""
			for _, g := range seq {
				s += g(r)
			}
			return s
		})
	}
	return genPat{strings.Join(srcs, "|"), func(r *rand.Rand) string {
		return pick(r, gens)(r)
	}}, true
}

// randPat returns a random pattern that is valid.
func randPat(r *rand.Rand) *Pat {
	for {
		g, ok := randAlt(r, 2)
		if !ok {
			continue
		}
		re, err := regexp.Compile(`\A(?:` + g.src + `)\z`)
		if err != nil {
			continue
		}
		if strings.HasSuffix(g.src, "$") || strings.HasPrefix(g.src, "^") {
			continue
		}
		good := true
		for range 3 {
			good = good && re.MatchString(g.gen(r))
		}
		if good {
			return &Pat{Src: g.src, Gen: g.gen, whole: re,
				In: func(rune) bool { return true }}
		}
	}
}
