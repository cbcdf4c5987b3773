package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	nm "github.com/shohruhadham/nanomux"
)

// oddPats are patterns whose text is hard to parse.
var oddPats = []*Pat{
	odd(`[{}]+`, "{", "}", "{}{"), odd(`[^/{}]+`, "a", "é1"),
	odd(`\{\d+\}`, "{1}", "{42}"), odd(`[]a]+`, "]", "a]a"),
	odd(`[^]a]+`, "b", "[}"), odd(`[[:alpha:]]+`, "a", "Zz"),
	odd(`\[\w\]`, "[a]"), odd(`a{2,3}b`, "aab", "aaab"),
	odd(`(?:x{1,2}|y)`, "x", "y"), odd(`\\d`, `\d`), odd(`[\]x]+`, "]x", "x"),
	odd(`\Qa.b\E`, "a.b"), odd(`\x{41}+`, "A", "AA"), odd(`\pL+`, "é", "ab"),
	odd(`[^{]+`, "}", "abc"), odd(`[}]`, "}"), odd(`x|y|z`, "x", "z"),
	odd(`(?i)abc`, "abc", "ABC"), odd(`(a)(b)?c`, "ac", "abc"), odd(`a:b`, "a:b"),
	odd(`\:`, ":"), odd(`[:]`, ":"), odd(`\d+\$`, "1$", "22$"), odd(`\^a`, "^a"),
	odd(`\$`, "$"), odd(`[$]`, "$"), odd(`[\\]`, `\`), odd(`\}`, "}"),
	odd(`[a{]{2}`, "a{", "{{"), odd(`(?:(?:a|b)|c)`, "a", "c"),
	odd(`a|\|`, "a", "|"), odd(`[|]`, "|"), odd(`(\(|\))`, "(", ")"),
	odd(`a\|b`, "a|b"), odd(`[^\]]`, "[", "x"), odd(`(?s).`, "x", "\n"),
	odd(`\d{2}|\w`, "12", "w"), odd(`.{0,2}`, "", "a", "ab"), odd(`a?`, "", "a"),
	odd(`(?P<n>a)`, "a"), odd(`\Q[\E`, "["), odd(`ab|a`, "ab", "a"),
	odd(`\Qa|b\E`, "a|b"), odd(`[(]|[)]`, "(", ")"), odd(`^a`, "a"),
	odd(`a$`, "a"), odd(`^a$`, "a"), odd(`^a|b$`, "a", "b"),
}

func odd(src string, vals ...string) *Pat {
	return &Pat{Src: src, Gen: oneOf(vals...), In: func(rune) bool { return true }}
}

var oddNames = []string{
	"a:b", ":", ":x", "x:", "a{b}c", "{}", "{a}", "a b", "$x", `a\b`, "é", "1",
	"a:b:c", "{a:b}", "::", "a}b{c"[:1], "*", "!", "/", "\\:", "x\\:y",
}

var oddStatics = []string{
	"{", "}", "{}", "a{b}c", "$", "$a", "$a:b", ":", "a:b", `a\b`, `\a`, `\\`,
	`\{`, `{\`, `\$`, `\$x`, "$$", "é", "日本", "\xff", "a/b", "%2F", "{x}", "{x:y}",
	` `, "\n", `\:`, "$:", "!", "*", ".", "..",
}

// oddTmpl returns a template of any form. It isn't always one that splits the
// strings in one way.
func oddTmpl(r *rand.Rand) *Tmpl {
	t := &Tmpl{}
	if r.IntN(3) == 0 {
		if r.IntN(2) == 0 {
			t.Name = pick(r, oddNames)
		} else {
			t.Name = pick(r, valueNames)
		}
	}
	byName := map[string]*Pat{}
	var order []string
	wild := false
	for n := 1 + r.IntN(5); n > 0; n-- {
		lastStatic := len(t.Parts) > 0 && !t.Parts[len(t.Parts)-1].dyn()
		if r.IntN(2) == 0 && !lastStatic {
			s := pick(r, words)
			if r.IntN(2) == 0 {
				s = pick(r, oddStatics)
			}
			t.Parts = append(t.Parts, Part{Static: s})
			continue
		}
		name := pick(r, valueNames)
		if r.IntN(4) == 0 {
			name = pick(r, oddNames)
		}
		if r.IntN(5) == 0 && len(order) > 0 {
			name = pick(r, order)
		}
		p, seen := byName[name]
		switch {
		case seen && p == nil:
			continue // A wildcard can't be repeated.
		case seen:
		case !wild && r.IntN(5) == 0:
			wild = true
		case r.IntN(3) == 0:
			p = pick(r, oddPats)
			if r.IntN(2) == 0 {
				p = randPat(r)
			}
		default:
			p = pick(r, pats)
		}
		if lastStatic && strings.HasSuffix(t.Parts[len(t.Parts)-1].Static, `\`) {
			continue // It would escape the brace.
		}
		byName[name] = p
		order = append(order, name)
		again := p != nil && !anchored(p) && r.IntN(4) == 0
		t.Parts = append(t.Parts, Part{Name: name, Pat: p, Again: again})
	}
	if len(t.Parts) == 0 {
		t.Parts = []Part{{Static: "x"}}
	}
	if s := t.Parts[0].Static; t.Name == "" && strings.HasPrefix(s, `\$`) {
		t.Name = "n" // It can't be written without a name.
	}
	if strings.HasSuffix(t.Name, `\`) {
		t.Name = "m"
	}
	return t
}

func anchored(p *Pat) bool {
	return strings.HasPrefix(p.Src, "^") || strings.HasSuffix(p.Src, "$")
}

// edgePats are patterns that match the empty string, and patterns with flags
// that would change the meaning of the anchors around them.
var edgePats = append([]*Pat{
	{Src: `(?:ab)?`, Gen: oneOf("", "ab"), In: inSet("ab")},
	{Src: `(?:\d\d){0,3}`, Gen: oneOf("", "12", "0123", "999999"), In: inSet(digits)},
	{Src: `[.]{0,2}`, Gen: genOf(".", 0, 2), In: inSet(".")},
	{Src: `(v\d)?`, Gen: oneOf("", "v1", "v7"), In: inSet(digits + "v")},
	{Src: `(?m)[a-z]+`, Gen: genOf(lowers, 1, 3), In: inSet(lowers)},
	{Src: `(?m)\d\d`, Gen: fixedOf(digits, 2), In: inSet(digits)},
	{Src: `(?im)[x-z]`, Gen: oneOf("x", "Y", "z"), In: inSet("xyzXYZ")},
	{Src: `(?mi)q|w`, Gen: oneOf("Q", "w"), In: inSet("qwQW")},
	{Src: `(?m:[A-Z])+`, Gen: genOf(uppers, 1, 3), In: inSet(uppers)},
	{Src: `(?m-i)[A-Z]`, Gen: genOf(uppers, 1, 1), In: inSet(uppers)},
	{Src: `0(?m)[1-3]*`, Gen: oneOf("0", "01", "0321"), In: inSet(digits)},
}, pats...)

// wholeTmpl returns a template that splits the strings in one way.
func wholeTmpl(r *rand.Rand) *Tmpl {
	fresh := 0
	nc := &nameChooser{r: r, usedVals: map[string]bool{},
		usedNames: map[string]bool{}, fresh: &fresh}
	switch r.IntN(9) {
	case 0:
		return genHostTmpl(r, nc)
	case 1:
		t := &Tmpl{Parts: []Part{{Name: nc.value(nil), Pat: pick(r, edgePats)}}}
		if r.IntN(2) == 0 {
			t.Parts[0].Pat = randPat(r)
		}
		if r.IntN(4) == 0 {
			t.Parts = append([]Part{{Static: pick(r, words)}}, t.Parts...)
		}
		return t
	case 2, 3:
		for {
			if t := genMulti(r, nc, edgePats, false); t != nil {
				return nc.finish(t, 0.3)
			}
		}
	}
	return genTmpl(r, nc, []int{kStatic, kPattern, kMulti, kMulti, kMulti,
		kWild}[r.IntN(6)], true)
}

// tryParse parses by both of the parsers.
func tryParse(c *Case, src string) *nm.Template {
	var t *nm.Template
	var err error
	if p := panics(func() { t, err = nm.TryToParse(src) }); p != nil {
		c.Fail("TryToParse(%q) panics: %v", src, p)
	}
	if (t == nil) == (err == nil) {
		c.Fail("TryToParse(%q) returns %v and %v", src, t, err)
	}
	var t2 *nm.Template
	p := panics(func() { t2 = nm.Parse(src) })
	if (p != nil) != (err != nil) {
		c.Fail("TryToParse(%q) returns the error %v, Parse panics with %v", src, err, p)
	}
	if err == nil && t2 == nil {
		c.Fail("Parse(%q) returns nil", src)
	}
	if err == nil && t.SimilarityWith(t2) != nm.TheSame {
		c.Fail("TryToParse(%q) and Parse return different templates", src)
	}
	return t
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// sameTmpl checks that the template is the same as its reparsed text.
func sameTmpl(c *Case, src string, t *nm.Template, strs []string) {
	text := t.String()
	t2, err := nm.TryToParse(text)
	if err != nil {
		c.Fail("%q prints as %q, which doesn't parse: %v", src, text, err)
	}
	if s, s2 := t.SimilarityWith(t2), t2.SimilarityWith(t); s != nm.TheSame || s2 != nm.TheSame {
		c.Fail("%q prints as %q, which parses to another template: %v %v", src, text,
			s.Err(), s2.Err())
	}
	if t.Name() != t2.Name() {
		c.Fail("%q prints as %q: the name was %q, now %q", src, text, t.Name(), t2.Name())
	}
	if a, b := namesOf(t), namesOf(t2); !reflect.DeepEqual(a, b) {
		c.Fail("%q prints as %q: the value names were %q, now %q", src, text, a, b)
	}
	if t.IsStatic() != t2.IsStatic() || t.IsWildcard() != t2.IsWildcard() ||
		t.HasPattern() != t2.HasPattern() {
		c.Fail("%q prints as %q, which has other segments", src, text)
	}
	for _, s := range strs {
		ok, vs := t.Match(s, nil)
		ok2, vs2 := t2.Match(s, nil)
		if ok != ok2 || fmt.Sprint(vs) != fmt.Sprint(vs2) {
			c.Fail("%q prints as %q: %q matched: %v %q, now: %v %q", src, text, s,
				ok, vs, ok2, vs2)
		}
		c.Count("strings matched by both")
		if ok {
			c.Count("matches by both")
		}
	}
	// Its content is the same but for the name.
	if !strings.HasPrefix(t.Content(), "$") && !strings.HasPrefix(t.Content(), `\$`) {
		t3, err := nm.TryToParse(t.Content())
		if err != nil {
			c.Fail("%q has the content %q, which doesn't parse: %v", src, t.Content(), err)
		}
		if s := t3.SimilarityWith(t); s != nm.TheSame && s != nm.DifferentNames {
			c.Fail("%q has the content %q, which parses to another template: %v", src,
				t.Content(), s.Err())
		}
	}
}

// applyVarying applies values of which some repetitions differ.
func (t *Tmpl) applyVarying(r *rand.Rand, vals map[string]string) string {
	var sb strings.Builder
	for _, p := range t.Parts {
		v := vals[p.Name]
		switch {
		case !p.dyn():
			v = p.Static
		case r.IntN(4) > 0:
		case r.IntN(2) == 0 && strings.ToLower(v) != v:
			v = strings.ToLower(v)
		case r.IntN(2) == 0:
			v = strings.ToUpper(v)
		case p.Pat != nil:
			v = p.Pat.Gen(r)
		}
		sb.WriteString(v)
	}
	return sb.String()
}

// tmplStrings returns strings for the template, near misses included.
func tmplStrings(r *rand.Rand, t *Tmpl, n int) []string {
	var ss []string
	for i := 0; i < n; i++ {
		vals := t.GenVals(r, func(r *rand.Rand) string {
			w := genWild(r)
			if r.IntN(12) == 0 { // Several lines.
				w = pick(r, edgePats).Gen(r) + "\n" + w
			}
			return w
		})
		s := t.Apply(vals)
		switch {
		case i%4 == 3:
			s = t.applyVarying(r, vals)
		case i%2 == 1 && r.IntN(8) == 0:
			rs := []rune(s)
			k := r.IntN(len(rs) + 1)
			s = string(rs[:k]) + "\n" + pick(r, edgePats).Gen(r) + string(rs[k:])
		case i%2 == 1:
			s = nearMiss(r, nil, s)
		}
		if i%5 == 4 {
			s = genWild(r)
		}
		ss = append(ss, s)
	}
	return ss
}

func parseCase(c *Case) {
	for i := 0; i < 20; i++ {
		rt := oddTmpl(c.Rand)
		if c.P(0.2) {
			rt = wholeTmpl(c.Rand)
		}
		src := rt.Src()
		t := tryParse(c, src)
		if t == nil {
			if !utf8.ValidString(src) {
				c.Eval("")
				continue
			}
			_, err := nm.TryToParse(src)
			c.Fail("%q isn't parsed: %v", src, err)
		}
		if t.Name() != rt.EffName() {
			c.Fail("%q has the name %q, expected %q", src, t.Name(), rt.EffName())
		}
		var names []string
		hasPat := false
		for _, p := range rt.Parts {
			if p.dyn() {
				names = append(names, p.Name)
				hasPat = hasPat || p.Pat != nil
			}
		}
		if got := namesOf(t); !reflect.DeepEqual(got, names) {
			c.Fail("%q has the value names %q, expected %q", src, got, names)
		}
		if t.IsStatic() != rt.IsStatic() || t.IsWildcard() != rt.IsWild() ||
			t.HasPattern() != hasPat {
			c.Fail("%q: IsStatic %v, IsWildcard %v, HasPattern %v", src, t.IsStatic(),
				t.IsWildcard(), t.HasPattern())
		}
		for _, n := range valueNames {
			want := false
			for _, m := range names {
				want = want || m == n
			}
			if t.HasValueName("no such", n) != want {
				c.Fail("%q: HasValueName(%q) is %v", src, n, !want)
			}
		}
		sameTmpl(c, src, t, tmplStrings(c.Rand, rt, 8))
		switch i % 3 {
		case 0:
			checkUnescaped(c, rt, t)
		case 1:
			rejectRepeats(c, rt)
		default:
			renameTmpl(c, src, t)
		}
		if c.Index < 3 && i == 0 {
			c.Sample("%q prints as %q", src, t.String())
		}
		c.EvalHash(hash64(src))
	}
}

// checkUnescaped checks the unescaped content, except for what is added to the
// patterns.
func checkUnescaped(c *Case, rt *Tmpl, t *nm.Template) {
	var sb strings.Builder
	sb.WriteString(`(?s)\A`)
	seen := map[string]bool{}
	for _, p := range rt.Parts {
		if !p.dyn() {
			sb.WriteString(regexp.QuoteMeta(p.Static))
			continue
		}
		sb.WriteString(regexp.QuoteMeta("{" + p.Name))
		if p.Pat != nil && !seen[p.Name] {
			sb.WriteString(`:\^?(?:\(\?:)?` + regexp.QuoteMeta(p.Pat.Src) + `\)?\$?`)
		}
		seen[p.Name] = true
		sb.WriteString(`\}`)
	}
	sb.WriteString(`\z`)
	if !utf8.ValidString(sb.String()) {
		return
	}
	if got := t.UnescapedContent(); !regexp.MustCompile(sb.String()).MatchString(got) {
		c.Fail("%q has the unescaped content %q", rt.Src(), got)
	}
	c.Count("unescaped contents")
}

// rejectRepeats checks that a name isn't repeated with another pattern, and
// that there is one wildcard.
func rejectRepeats(c *Case, rt *Tmpl) {
	if n := len(rt.Parts); strings.HasSuffix(rt.Parts[n-1].Static, `\`) {
		return
	}
	reject := func(src string, want error) {
		t, err := nm.TryToParse(src)
		if t != nil || !errors.Is(err, want) {
			c.Fail("%q: %v, expected %v", src, err, want)
		}
		if p := panics(func() { nm.Parse(src) }); p == nil {
			c.Fail("Parse(%q) doesn't panic", src)
		}
	}
	must := func(part string, want error) {
		src := rt.Src() + part
		if c.P(0.3) {
			src += pick(c.Rand, words)
		}
		reject(src, want)
		c.Count("rejected repetitions")
	}
	if !c.P(0.3) {
		// Incomplete dynamic segments and misplaced braces.
		w := pick(c.Rand, []string{"f", "fresh", "новый", `f\:g`, "-"})
		switch c.IntN(3) {
		case 0:
			reject(rt.Src()+fmt.Sprintf(pick(c.Rand, []string{"{%s", "{%s:", "{%s:a",
				"{%s:a{2}", "{%s:[}", "{%s:[]}", "{%s:[^]}", `{%s:\}`, `{%s:\Q}`,
				"{%s:(a", "{%s:a{2", "{%s{b:a}", "{%s{b}", `{%s\:a`, "{%s:[[:alpha:]}",
				`{%s:[\]}`}), w), nm.ErrInvalidTemplate)
		default:
			src, part := rt.Src(), pick(c.Rand, []string{"}", "{}", "{:a+}", "{" + w + ":}", "a}", "a{}"})
			if c.P(0.3) {
				src = part + src
			} else if src += part; c.P(0.5) {
				src += pick(c.Rand, words)
			}
			reject(src, nm.ErrInvalidTemplate)
		}
		c.Count("rejected syntax")
	}
	for _, p := range rt.Parts {
		switch {
		case !p.dyn():
		case p.Pat == nil:
			must("{"+escName(p.Name)+"}", nm.ErrRepeatedWildcardName)
			must("{another wildcard}", nm.ErrAnotherWildcardName)
		default:
			q := pick(c.Rand, pats)
			if q.Src != p.Pat.Src && !anchored(p.Pat) {
				must("{"+escName(p.Name)+":"+q.Src+"}", nm.ErrDifferentPattern)
			}
		}
	}
}

// renameTmpl renames and clears another instance of the template.
func renameTmpl(c *Case, src string, t *nm.Template) {
	t2, err := nm.TryToParse(src)
	if err != nil {
		c.Fail("%q isn't parsed again: %v", src, err)
	}
	vns, n := namesOf(t2), pick(c.Rand, oddNames)
	if strings.HasSuffix(n, `\`) {
		return
	}
	t2.SetName(n)
	want := nm.DifferentNames
	if n == t.Name() {
		want = nm.TheSame
	}
	if s := t2.SimilarityWith(t); s != want || t2.Name() != n {
		c.Fail("%q renamed to %q has the name %q and is %s", src, n, t2.Name(), simNames[s])
	}
	if got := namesOf(t2); !reflect.DeepEqual(got, vns) {
		c.Fail("%q renamed to %q has the value names %q, they were %q", src, n, got, vns)
	}
	t3, err := nm.TryToParse(t2.String())
	if err != nil || t3.Name() != n || t3.SimilarityWith(t2) != nm.TheSame {
		c.Fail("%q renamed to %q prints as %q, which doesn't parse to it: %v", src, n,
			t2.String(), err)
	}
	t2.Clear()
	if t2.Name() != "" || t2.Content() != "" || t2.UnescapedContent() != "" ||
		t2.String() != "" || len(t2.ValueNames()) != 0 || t2.IsStatic() ||
		t2.IsWildcard() || t2.HasPattern() {
		c.Fail("%q cleared: name %q, content %q", src, t2.Name(), t2.Content())
	}
	if s := t3.SimilarityWith(t); s != want {
		c.Fail("%q cleared, and another one is %s", src, simNames[s])
	}
	c.Count("renamed templates")
}

var tmplBits = []string{
	"{", "}", ":", `\`, "$", "a", "b", "{a}", "{b:", `\d+`, "[", "]", "[^", "(", ")",
	"|", "{2}", "^", "$", `\{`, `\}`, `\:`, `\$`, "é", "*", "+", "?", ".", "{a:b}",
	"x", "", "\xff", `\Q`, `\E`, "[:", ":]", "(?", "(?i)", "/", "-", "$n:", "{,}",
	"{1,", `\\`, "\x00", "{a:a|b}", "{w}",
}

func fuzzCase(c *Case) {
	for i := 0; i < 60; i++ {
		var src string
		switch c.IntN(3) {
		case 0:
			for k := 1 + c.IntN(9); k > 0; k-- {
				src += pick(c.Rand, tmplBits)
			}
		default:
			src = oddTmpl(c.Rand).Src()
			for k := 1 + c.IntN(3); k > 0; k-- {
				if src == "" {
					break
				}
				at := c.IntN(len(src))
				switch c.IntN(4) {
				case 0:
					src = src[:at] + pick(c.Rand, tmplBits) + src[at:]
				case 1:
					src = src[:at] + src[at+1:]
				case 2:
					src = src[:at] + pick(c.Rand, tmplBits) + src[at+1:]
				default:
					src = src[at:] + src[:at]
				}
			}
		}
		t := tryParse(c, src)
		c.Count("texts")
		if t == nil {
			c.Eval("")
			continue
		}
		c.Count("texts that parse")
		ss := []string{src, "", "a", "ab", "a1", "b-1"}
		for k := 0; k < 4; k++ {
			ss = append(ss, genWild(c.Rand), pick(c.Rand, oddPats).Gen(c.Rand))
		}
		sameTmpl(c, src, t, ss)
		c.EvalHash(hash64(src))
	}
}

// ---------------------------------------------------------------------------

var wholeRe = map[string]*regexp.Regexp{}

func init() {
	for _, ps := range [][]*Pat{edgePats, oddPats, hostPats} {
		for _, p := range ps {
			wholeRe[p.Src] = regexp.MustCompile(`\A(?:` + p.Src + `)\z`)
		}
	}
}

// wholeRe returns the regular expression of the whole values.
func (p *Pat) wholeRe() *regexp.Regexp {
	if p.whole != nil {
		return p.whole
	}
	return wholeRe[p.Src]
}

type earlier struct {
	names, vals []string
	vs          nm.TemplateValues
}

// newEarlier returns values that have been reported before.
func newEarlier(c *Case, capacity bool) *earlier {
	e := &earlier{}
	if capacity {
		e.vs = make(nm.TemplateValues, 0, 1+c.IntN(8))
	}
	for k := c.IntN(4); k > 0; k-- {
		n, v := fmt.Sprintf("earlier%d", k), genWild(c.Rand)
		e.names, e.vals = append(e.names, n), append(e.vals, v)
		e.vs.Set(n, v)
	}
	return e
}

func (e *earlier) kept(vs nm.TemplateValues) string {
	if len(vs) < len(e.vs) {
		return fmt.Sprintf("%d of the earlier %d values are left", len(vs), len(e.vs))
	}
	for i := range e.vs {
		if vs[i] != e.vs[i] {
			return fmt.Sprintf("an earlier value has changed: %q, now %q", e.vs, vs)
		}
	}
	for i, n := range e.names {
		if vs.Get(n) != e.vals[i] {
			return fmt.Sprintf("the earlier value %q is %q, expected %q", n, vs.Get(n), e.vals[i])
		}
	}
	return ""
}

// checkSplit checks that the string is what the template and values make.
func checkSplit(rt *Tmpl, s string, e *earlier, vs nm.TemplateValues) string {
	var sb strings.Builder
	named := map[string]bool{}
	for _, p := range rt.Parts {
		if !p.dyn() {
			sb.WriteString(p.Static)
			continue
		}
		named[p.Name] = true
		v := vs.Get(p.Name)
		sb.WriteString(v)
		if p.Pat != nil && !p.Pat.wholeRe().MatchString(v) {
			return fmt.Sprintf("the value %q of %q doesn't match %s", v, p.Name, p.Pat.Src)
		}
	}
	if sb.String() != s {
		return fmt.Sprintf("the segments and the values %q make %q", vs, sb.String())
	}
	if d := e.kept(vs); d != "" {
		return d
	}
	if n := len(vs) - len(e.vs); n > len(named) {
		return fmt.Sprintf("%d values for %d names: %q", n, len(named), vs)
	}
	return ""
}

// matchCase checks the matches of templates that split strings in one way
// against the reference, and the soundness of those of any templates.
func matchCase(c *Case) {
	for i := 0; i < 6; i++ {
		rt := wholeTmpl(c.Rand)
		exact := true
		if c.P(0.4) {
			rt, exact = oddTmpl(c.Rand), false
		}
		src := rt.Src()
		t, err := nm.TryToParse(src)
		if err != nil {
			continue // It's a matter of parsing.
		}
		for k, s := range tmplStrings(c.Rand, rt, 14) {
			e := newEarlier(c, c.P(0.5))
			before := append(nm.TemplateValues{}, e.vs...)
			if e.vs == nil {
				before = nil
			}
			ok, vs := t.Match(s, e.vs)
			fail := func(d string) {
				c.Fail("%q and %q (after %q): %v %q: %s", src, s, before, ok, vs, d)
			}
			if !ok {
				c.Count("mismatches")
				if len(vs) != len(before) || (vs == nil) != (e.vs == nil) {
					fail("the values have changed")
				}
				for i := range vs {
					if vs[i] != before[i] {
						fail("the values have changed")
					}
				}
			} else {
				c.Count("matches")
				if d := checkSplit(rt, s, e, vs); d != "" {
					fail(d)
				}
			}
			if exact {
				want, wok := rt.Match(s)
				if ok != wok {
					fail(fmt.Sprintf("expected %v", wok))
				}
				for n, v := range want {
					if vs.Get(n) != v {
						fail(fmt.Sprintf("the value of %q, expected %q", n, v))
					}
				}
			}
			if k == 0 && i == 0 && c.Index < 4 {
				c.Sample("%q and %q: %v %q", src, s, ok, vs)
			}
			c.EvalHash(hash64(src, s))
		}
	}
}

// valuesCase checks the values against a map.
func valuesCase(c *Case) {
	var vs nm.TemplateValues
	if c.P(0.3) {
		vs = make(nm.TemplateValues, 0, c.IntN(4))
	}
	keys := []string{"", "a", "A", "id", "id ", "é", "ids"}
	m := map[string]string{}
	for n := c.IntN(24); n > 0; n-- {
		if c.P(0.6) {
			k, v := pick(c.Rand, keys), genWild(c.Rand)
			if c.P(0.1) {
				v = ""
			}
			vs.Set(k, v)
			m[k] = v
		}
		for _, k := range keys {
			if got := vs.Get(k); got != m[k] {
				c.Fail("%q: the value of %q is %q, expected %q", vs, k, got, m[k])
			}
		}
		if len(vs) != len(m) {
			c.Fail("%q: %d values, expected %d", vs, len(vs), len(m))
		}
		c.Count("values read back")
	}
}

// applyCase checks applying against the reference and matching.
func applyCase(c *Case) {
	valuesCase(c)
	for i := 0; i < 6; i++ {
		rt := wholeTmpl(c.Rand)
		src := rt.Src()
		t, err := nm.TryToParse(src)
		if err != nil {
			continue
		}
		for k := 0; k < 10; k++ {
			vals := rt.GenVals(c.Rand, genWild)
			names := rt.ValueNames()
			var invalid, missing []string
			for _, n := range names {
				var pat *Pat
				for _, p := range rt.Parts {
					if p.Name == n && p.Pat != nil {
						pat = p.Pat
					}
				}
				switch {
				case k%2 == 1 && c.P(0.3) && pat != nil:
					vals[n] = nearMiss(c.Rand, nil, vals[n])
					if c.P(0.1) {
						vals[n] = ""
					}
				case k%3 == 2 && c.P(0.4):
					delete(vals, n)
					missing = append(missing, n)
					continue
				}
				if pat != nil && !pat.wholeRe().MatchString(vals[n]) {
					invalid = append(invalid, n)
				}
			}
			// The values in any order, with others around.
			var vs nm.TemplateValues
			ord := c.Perm(len(names))
			for _, o := range ord {
				if c.P(0.2) {
					vs.Set(fmt.Sprintf("other%d", o), genWild(c.Rand))
				}
				if v, ok := vals[names[o]]; ok {
					if c.P(0.2) {
						vs.Set(names[o], "replaced")
					}
					vs.Set(names[o], v)
				}
			}
			ignore := c.P(0.5)
			given := fmt.Sprintf("%q", vs)
			got, err := t.TryToApply(vs, ignore)
			var got2 string
			p := panics(func() { got2 = t.Apply(vs, ignore) })
			fail := func(format string, args ...any) {
				c.Fail("%q applied to %q (ignoring missing: %v) returns %q, %v; panic %v: %s",
					src, vs, ignore, got, err, p, fmt.Sprintf(format, args...))
			}
			if given != fmt.Sprintf("%q", vs) {
				fail("the values were %s", given)
			}
			if (p != nil) != (err != nil) || err == nil && got2 != got {
				fail("Apply and TryToApply differ")
			}
			bad := len(invalid) > 0 || len(missing) > 0 && !ignore
			switch {
			case bad && err == nil:
				fail("invalid: %q, missing: %q", invalid, missing)
			case !bad && err != nil:
				fail("all values are valid")
			case bad:
				if len(invalid) == 0 && !errors.Is(err, nm.ErrMissingValue) ||
					(len(missing) == 0 || ignore) && !errors.Is(err, nm.ErrInvalidValue) {
					fail("another error; invalid: %q, missing: %q", invalid, missing)
				}
				c.Count("rejected values")
			default:
				if want := rt.Apply(vals); got != want {
					fail("expected %q", want)
				}
				if len(missing) == 0 {
					ok, mv := t.Match(got, nil)
					// A wildcard can't be told from a missing one when empty.
					if !ok {
						fail("it isn't matched")
					}
					for n, v := range vals {
						if mv.Get(n) != v {
							fail("it's matched with %q", mv)
						}
					}
					again, err := t.TryToApply(mv, true)
					if err != nil || again != got {
						fail("the matched values %q make %q, %v", mv, again, err)
					}
					c.Count("applied and matched")
				} else {
					c.Count("applied with missing values")
				}
			}
			c.EvalHash(hash64(src, fmt.Sprint(vs), fmt.Sprint(ignore)))
		}
		// What is matched can be applied.
		for _, s := range tmplStrings(c.Rand, rt, 6) {
			ok, vs := t.Match(s, nil)
			if !ok {
				continue
			}
			if rt.IsStatic() {
				vs = nil
			}
			got, err := t.TryToApply(vs, true)
			if err != nil || got != s {
				c.Fail("%q matches %q with %q, which make %q, %v", src, s, vs, got, err)
			}
			c.EvalHash(hash64(src, s, "m"))
		}
	}
}

// ---------------------------------------------------------------------------

// simClass is the reference of the similarity.
func simClass(a, b *Tmpl) nm.Similarity {
	if len(a.Parts) != len(b.Parts) {
		return nm.Different
	}
	vn := false
	ab, ba := map[string]string{}, map[string]string{}
	for i, p := range a.Parts {
		q := b.Parts[i]
		if p.dyn() != q.dyn() {
			return nm.Different
		}
		if !p.dyn() {
			if p.Static != q.Static {
				return nm.Different
			}
			continue
		}
		if (p.Pat == nil) != (q.Pat == nil) || p.Pat != nil && p.Pat.Src != q.Pat.Src {
			return nm.Different
		}
		if x, ok := ab[p.Name]; ok && x != q.Name {
			return nm.Different
		}
		if x, ok := ba[q.Name]; ok && x != p.Name {
			return nm.Different
		}
		ab[p.Name], ba[q.Name] = q.Name, p.Name
		vn = vn || p.Name != q.Name
	}
	switch {
	case vn:
		return nm.DifferentValueNames
	case a.EffName() != b.EffName():
		return nm.DifferentNames
	}
	return nm.TheSame
}

// mutate returns a template that differs a little.
func mutate(c *Case, t *Tmpl) *Tmpl {
	m := &Tmpl{Name: t.Name, Parts: append([]Part{}, t.Parts...)}
	rename := func(from, to string) {
		for i := range m.Parts {
			if m.Parts[i].Name == to {
				return
			}
		}
		for i := range m.Parts {
			if m.Parts[i].Name == from {
				m.Parts[i].Name = to
			}
		}
	}
	i := c.IntN(len(m.Parts))
	switch c.IntN(9) {
	case 0: // The same.
	case 1:
		m.Name = "other"
		if c.P(0.3) {
			m.Name = t.EffName()
		}
	case 2, 3:
		if vns := t.ValueNames(); len(vns) > 0 {
			rename(pick(c.Rand, vns), pick(c.Rand, []string{"renamed", "x:y", "re"}))
		}
	case 4:
		if m.Parts[i].dyn() {
			p := pick(c.Rand, pats)
			n := m.Parts[i].Name
			if m.Parts[i].Pat == nil && c.P(0.5) {
				break
			}
			for k := range m.Parts {
				if m.Parts[k].Name == n {
					m.Parts[k].Pat = p
				}
			}
		} else {
			m.Parts[i].Static += "x"
		}
	case 5:
		m.Parts = append(m.Parts[:i], m.Parts[i+1:]...)
		if len(m.Parts) == 0 {
			m.Parts = []Part{{Static: "x"}}
		}
	case 6: // A repeated name becomes another one.
		if m.Parts[i].dyn() && m.Parts[i].Pat != nil {
			used := false
			for _, p := range m.Parts {
				used = used || p.Name == "splitname"
			}
			if !used {
				m.Parts[i].Name = "splitname"
			}
		}
	case 7:
		if !m.Parts[i].dyn() {
			s := []rune(m.Parts[i].Static)
			if len(s) > 1 {
				m.Parts[i].Static = string(s[1:])
			}
		} else {
			m.Parts[i] = Part{Static: "{" + m.Parts[i].Name + "}"}
		}
	case 8: // The segments in another order.
		k := c.IntN(len(m.Parts))
		m.Parts[i], m.Parts[k] = m.Parts[k], m.Parts[i]
	}
	// Neighbouring static segments are one.
	var ps []Part
	for _, p := range m.Parts {
		if n := len(ps); n > 0 && !p.dyn() && !ps[n-1].dyn() {
			ps[n-1].Static += p.Static
			continue
		}
		ps = append(ps, p)
	}
	m.Parts = ps
	for i, p := range m.Parts {
		if !p.dyn() && strings.HasSuffix(p.Static, `\`) && i+1 < len(m.Parts) {
			m.Parts[i].Static += "x"
		}
	}
	if !m.Parts[0].dyn() && strings.HasPrefix(m.Parts[0].Static, `\$`) && m.Name == "" {
		m.Parts[0].Static = "x"
	}
	return m
}

var simNames = map[nm.Similarity]string{nm.Different: "different",
	nm.DifferentValueNames: "different value names",
	nm.DifferentNames:      "different names", nm.TheSame: "the same"}

func similarCase(c *Case) {
	base := wholeTmpl(c.Rand)
	if c.P(0.3) {
		base = oddTmpl(c.Rand)
	}
	if !utf8.ValidString(base.Src()) {
		return // The reference needs valid texts.
	}
	group := []*Tmpl{base}
	for k := 0; k < 5; k++ {
		group = append(group, mutate(c, pick(c.Rand, group)))
	}
	if c.P(0.3) {
		group = append(group, wholeTmpl(c.Rand))
	}
	var rts []*Tmpl
	var ts []*nm.Template
	var strs []string
	for _, g := range group {
		anch := false
		for _, p := range g.Parts {
			anch = anch || p.Pat != nil && anchored(p.Pat)
		}
		t, err := nm.TryToParse(g.Src())
		if err != nil || anch {
			continue
		}
		rts, ts = append(rts, g), append(ts, t)
		strs = append(strs, tmplStrings(c.Rand, g, 6)...)
	}
	n := len(ts)
	rel := make([][]nm.Similarity, n)
	for i := range ts {
		rel[i] = make([]nm.Similarity, n)
		for k := range ts {
			rel[i][k] = ts[i].SimilarityWith(ts[k])
		}
	}
	for i := range ts {
		again, _ := nm.TryToParse(rts[i].Src())
		if s := ts[i].SimilarityWith(again); s != nm.TheSame {
			c.Fail("%q parsed twice: %s", rts[i].Src(), simNames[s])
		}
		if rel[i][i] != nm.TheSame {
			c.Fail("%q and itself: %s", rts[i].Src(), simNames[rel[i][i]])
		}
		for k := range ts {
			a, b := rts[i].Src(), rts[k].Src()
			s := rel[i][k]
			if s != rel[k][i] {
				c.Fail("%q and %q: %s, but %s the other way round", a, b, simNames[s],
					simNames[rel[k][i]])
			}
			if want := simClass(rts[i], rts[k]); s != want {
				c.Fail("%q and %q: %s, expected %s", a, b, simNames[s], simNames[want])
			}
			var wantErr error
			switch s {
			case nm.Different:
				wantErr = nm.ErrDifferentTemplates
			case nm.DifferentValueNames:
				wantErr = nm.ErrDifferentValueNames
			case nm.DifferentNames:
				wantErr = nm.ErrDifferentNames
			}
			if err := s.Err(); !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) {
				c.Fail("%q and %q: %s, but the error is %v", a, b, simNames[s], err)
			}
			for j := range ts {
				if s == nm.TheSame && rel[k][j] == nm.TheSame && rel[i][j] != nm.TheSame {
					c.Fail("%q, %q and %q: the relation isn't transitive", a, b, rts[j].Src())
				}
			}
			if s != nm.Different {
				for _, str := range strs {
					ok, vs := ts[i].Match(str, nil)
					ok2, vs2 := ts[k].Match(str, nil)
					if ok != ok2 {
						c.Fail("%q and %q: %s, but %q: %v and %v", a, b, simNames[s], str, ok, ok2)
					}
					if s != nm.DifferentValueNames && fmt.Sprint(vs) != fmt.Sprint(vs2) {
						c.Fail("%q and %q: %s, but %q: %q and %q", a, b, simNames[s], str, vs, vs2)
					}
				}
				c.CountN("strings compared", len(strs))
			}
			c.Count(simNames[s])
			c.EvalHash(hash64(a, b))
		}
	}
}

func init() {
	register("C16", "templates of every form with odd names, static segments and "+
		"patterns, and random texts made of the syntax's pieces and of mutated "+
		"templates; non-trivial: a text that parses",
		func(run *Run) {
			run.Stage("parse", scale(15000, 500000), parseCase)
			run.Stage("fuzz", scale(16000, 600000), fuzzCase)
		}, "Go's regexp decides what a pattern is")
	register("C17", "templates that split strings in one way against a reference "+
		"made of one anchored expression, and any templates for soundness; "+
		"matching strings and near misses; non-trivial: every template and string",
		func(run *Run) {
			run.Stage("match", scale(60000, 1200000), matchCase)
		}, "the completeness is checked for the templates that split every "+
			"string in at most one way")
	register("C18", "valid, invalid and missing values of templates that split "+
		"strings in one way, in any order; applied, matched and applied again",
		func(run *Run) {
			run.Stage("apply", scale(40000, 800000), applyCase)
		})
	register("C19", "groups of templates that differ in the name, the value "+
		"names, the repetition of names, a pattern, a static segment or the "+
		"order, compared pairwise and on common strings",
		func(run *Run) {
			run.Stage("similar", scale(30000, 600000), similarCase)
		})
}
