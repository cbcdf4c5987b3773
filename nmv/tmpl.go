package main

import (
	"math/rand/v2"
	"regexp"
	"strings"
	"sync"
)

// Pat is a pattern of a dynamic segment with the knowledge of its matches.
type Pat struct {
	Src  string
	Gen  func(r *rand.Rand) string
	In   func(ch rune) bool // The characters a longer match could take.
	Self bool               // Fixed width or prefix and suffix free.

	whole *regexp.Regexp // Set for the random ones.
}

func runes(s string) []rune { return []rune(s) }

func genOf(set string, lo, hi int) func(r *rand.Rand) string {
	rs := runes(set)
	return func(r *rand.Rand) string {
		n := lo + r.IntN(hi-lo+1)
		if hi > 6 && hi > lo && r.IntN(40) == 0 {
			n = hi + r.IntN(60)
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(rs[r.IntN(len(rs))])
		}
		return sb.String()
	}
}

func fixedOf(set string, n int) func(r *rand.Rand) string {
	return genOf(set, n, n)
}

func oneOf(ss ...string) func(r *rand.Rand) string {
	return func(r *rand.Rand) string { return ss[r.IntN(len(ss))] }
}

func inSet(set string) func(ch rune) bool {
	return func(ch rune) bool { return strings.ContainsRune(set, ch) }
}

const (
	digits = "0123456789"
	lowers = "abcdefghijklmnopqrstuvwxyz"
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	wordCh = lowers + uppers + digits + "_"
	greek  = "αβγδεζηθικλμνξοπρστυφχψω"
)

func inRange(a, b rune) func(ch rune) bool {
	return func(ch rune) bool { return ch >= a && ch <= b }
}

// The patterns of resource templates.
var pats = []*Pat{
	{Src: `\d{3}`, Gen: fixedOf(digits, 3), Self: true},
	{Src: `\d{2}`, Gen: fixedOf(digits, 2), Self: true},
	{Src: `[a-c]{2}`, Gen: fixedOf("abc", 2), Self: true},
	{Src: `\w\w`, Gen: fixedOf(wordCh, 2), Self: true},
	{Src: `red|green|blue`, Gen: oneOf("red", "green", "blue"), Self: true},
	{Src: `(?:on|off)`, Gen: oneOf("on", "off"), Self: true},
	{Src: `(en|de|fr)`, Gen: oneOf("en", "de", "fr"), Self: true},
	{Src: `\d{4}-\d{2}`, Gen: func(r *rand.Rand) string {
		return fixedOf(digits, 4)(r) + "-" + fixedOf(digits, 2)(r)
	}, Self: true},
	{Src: `[A-F0-9]{8}`, Gen: fixedOf("ABCDEF0123456789", 8), Self: true},
	{Src: `\d+`, Gen: genOf(digits, 1, 7), In: inSet(digits)},
	{Src: `[a-z]+`, Gen: genOf(lowers, 1, 9), In: inSet(lowers)},
	{Src: `[A-Z]+`, Gen: genOf(uppers, 1, 7), In: inSet(uppers)},
	{Src: `\w+`, Gen: genOf(wordCh, 1, 12), In: inSet(wordCh)},
	{Src: `[a-f0-9]{1,6}`, Gen: genOf("abcdef0123456789", 1, 6),
		In: inSet("abcdef0123456789")},
	{Src: `[α-ω]+`, Gen: genOf(greek, 1, 5), In: inRange('α', 'ω')},
	{Src: `v\d+`, Gen: func(r *rand.Rand) string {
		return "v" + genOf(digits, 1, 3)(r)
	}, In: inSet(digits + "v")},
	{Src: `[1-9]\d*`, Gen: func(r *rand.Rand) string {
		return genOf("123456789", 1, 1)(r) + genOf(digits, 0, 4)(r)
	}, In: inSet(digits)},
	{Src: `(?i)[k-n]+`, Gen: genOf("klmnKLMN", 1, 5), In: func(ch rune) bool {
		return strings.ContainsRune("klmnKLMN\u212a", ch)
	}},
	{Src: `-?\d+`, Gen: func(r *rand.Rand) string {
		return []string{"", "-"}[r.IntN(2)] + genOf(digits, 1, 4)(r)
	}, In: inSet(digits + "-")},
	{Src: `.+`, Gen: genOf(lowers+digits+" .;äß/", 1, 9),
		In: func(rune) bool { return true }},
	{Src: `\d*`, Gen: genOf(digits, 0, 3), In: inSet(digits)},
	{Src: `[a-z]*`, Gen: genOf(lowers, 0, 4), In: inSet(lowers)},
	{Src: `[^a-z]+`, Gen: genOf(uppers+digits+"-.", 1, 6),
		In: func(ch rune) bool { return ch < 'a' || ch > 'z' }},
}

var patBySrc = map[string]*Pat{}

func init() {
	for _, p := range pats {
		patBySrc[p.Src] = p
	}
}

// The patterns of host templates.
var hostPats = []*Pat{
	patOf(`\d{3}`), patOf(`\d{2}`), patOf(`[a-c]{2}`), patOf(`red|green|blue`),
	patOf(`\d+`), patOf(`[a-z]+`), patOf(`v\d+`), patOf(`[a-f0-9]{1,6}`),
	patOf(`\d*`), patOf(`[a-z]*`),
}

func patOf(src string) *Pat {
	for _, p := range pats {
		if p.Src == src {
			return p
		}
	}
	panic(src)
}

// Part is a segment of a template. It's a wildcard when it has a name but no
// pattern, unless the name has occurred before.
type Part struct {
	Static string
	Name   string
	Pat    *Pat
	Again  bool // The pattern is written even if the name has occurred before.
}

func (p Part) dyn() bool { return p.Name != "" }

// Tmpl is the reference template.
type Tmpl struct {
	Name  string // The explicit name.
	Parts []Part

	once sync.Once
	full *regexp.Regexp
	vns  []string
	subs []int // The numbers of the groups of the patterns.
}

func escName(s string) string { return strings.ReplaceAll(s, ":", `\:`) }

// Src returns the text that is parsed.
func (t *Tmpl) Src() string {
	var sb strings.Builder
	if t.Name != "" {
		sb.WriteString("$" + escName(t.Name) + ":")
	} else if len(t.Parts) > 0 && strings.HasPrefix(t.Parts[0].Static, "$") {
		sb.WriteByte('\\')
	}
	seen := map[string]bool{}
	for _, p := range t.Parts {
		if !p.dyn() {
			s := strings.ReplaceAll(p.Static, "{", `\{`)
			s = strings.ReplaceAll(s, "}", `\}`)
			sb.WriteString(s)
			continue
		}
		sb.WriteString("{" + escName(p.Name))
		if p.Pat != nil && (p.Again || !seen[p.Name]) {
			sb.WriteString(":" + p.Pat.Src)
		}
		seen[p.Name] = true
		sb.WriteString("}")
	}
	return sb.String()
}

// URLSrc returns the text for URL templates, in which slashes are encoded.
func (t *Tmpl) URLSrc() string {
	s := t.Src()
	if len(s)%2 == 1 {
		return strings.ReplaceAll(s, "/", "%2f")
	}
	return strings.ReplaceAll(s, "/", "%2F")
}

// IsStatic tells whether the template has only a static segment.
func (t *Tmpl) IsStatic() bool { return len(t.Parts) == 1 && !t.Parts[0].dyn() }

// IsWild tells whether the template is a wildcard.
func (t *Tmpl) IsWild() bool {
	return len(t.Parts) == 1 && t.Parts[0].dyn() && t.Parts[0].Pat == nil
}

// EffName returns the explicit name or the name of the only value.
func (t *Tmpl) EffName() string {
	if t.Name != "" {
		return t.Name
	}
	n, name := 0, ""
	for _, p := range t.Parts {
		if p.dyn() {
			n++
			name = p.Name
		}
	}
	if n == 1 {
		return name
	}
	return ""
}

// ValueNames returns the distinct value names in order.
func (t *Tmpl) ValueNames() []string {
	t.compile()
	return t.vns
}

// Key is equal for the templates that differ in nothing but names.
func (t *Tmpl) Key() string {
	var sb strings.Builder
	for _, p := range t.Parts {
		if !p.dyn() {
			sb.WriteString("s" + p.Static + "\x00")
		} else if p.Pat != nil {
			sb.WriteString("p" + p.Pat.Src + "\x00")
		} else {
			sb.WriteString("w\x00")
		}
	}
	return sb.String()
}

func (t *Tmpl) compile() {
	t.once.Do(func() {
		var sb strings.Builder
		sb.WriteString(`(?s)\A`)
		seen := map[string]bool{}
		for _, p := range t.Parts {
			if !p.dyn() {
				sb.WriteString(regexp.QuoteMeta(p.Static))
				continue
			}
			if !seen[p.Name] {
				seen[p.Name] = true
				t.vns = append(t.vns, p.Name)
			}
			if p.Pat != nil {
				src := strings.ReplaceAll(p.Pat.Src, "(?P<g>", "(")
				sb.WriteString(`((?-s:` + src + `))`)
				t.subs = append(t.subs, regexp.MustCompile(src).NumSubexp())
			} else {
				sb.WriteString(`(.*)`)
			}
		}
		sb.WriteString(`\z`)
		t.full = regexp.MustCompile(sb.String())
	})
}

// Match is the reference of matching: the whole string must be a
// concatenation of the segments. It's used only for the templates and
// strings that can be split in one way.
func (t *Tmpl) Match(s string) (map[string]string, bool) {
	if t.IsStatic() {
		return nil, t.Parts[0].Static == s
	}
	t.compile()
	idx := t.full.FindStringSubmatchIndex(s)
	if idx == nil {
		return nil, false
	}
	vals := map[string]string{}
	g, subs := 1, t.subs
	for _, p := range t.Parts {
		if !p.dyn() {
			continue
		}
		v := s[idx[2*g]:idx[2*g+1]]
		if old, ok := vals[p.Name]; ok && old != v {
			return nil, false
		}
		vals[p.Name] = v
		g++
		if p.Pat != nil {
			g += subs[0]
			subs = subs[1:]
		}
	}
	return vals, true
}

// Apply is the reference of applying.
func (t *Tmpl) Apply(vals map[string]string) string {
	var sb strings.Builder
	for _, p := range t.Parts {
		if p.dyn() {
			sb.WriteString(vals[p.Name])
		} else {
			sb.WriteString(p.Static)
		}
	}
	return sb.String()
}

// GenVals returns values that the template accepts.
func (t *Tmpl) GenVals(r *rand.Rand, wild func(r *rand.Rand) string) map[string]string {
	vals := map[string]string{}
	for _, p := range t.Parts {
		if !p.dyn() {
			continue
		}
		if _, ok := vals[p.Name]; ok {
			continue
		}
		if p.Pat != nil {
			vals[p.Name] = p.Pat.Gen(r)
		} else {
			vals[p.Name] = wild(r)
		}
	}
	return vals
}

// ---------------------------------------------------------------------------

var words = []string{
	"a", "b", "c", "ab", "abc", "news", "posts", "users", "api", "v1", "v2",
	"index.html", "red", "en", "123", "42", "off", "KLM", "static-file", "x_y",
	"straße", "naïve", "日本", "αβγ", "a b", "100%", "a+b", "~me", "a:b", "@home",
	"q=1", "a;b", "(x)", "it's", "semi,colon", "..a", "a..", "...", "e=mc2", "%zz",
}

var hardWords = []string{
	"a/b", "/", "x/", "$price", "{id}", "{", "}", "a{b}c", "a?b", "a#b", "$",
	"50%25", "a&b", "\"q\"", "<x>", "a|b", "^x^", "[1]", "`", "\u00a0", "é\u0301",
}

var valueNames = []string{
	"id", "name", "year", "slug", "lang", "x", "y", "z", "user", "post", "имя",
	"key1", "key2", "key3", "long_value_name", "k-1", "k.2", "n", "m", "tag",
}

// nameChooser returns names that are allowed at a position of a tree.
type nameChooser struct {
	r         *rand.Rand
	usedVals  map[string]bool // Value names above.
	usedNames map[string]bool // Names above and among siblings.
	fresh     *int
}

func (nc *nameChooser) value(taken map[string]bool) string {
	for i := 0; i < 6; i++ {
		n := valueNames[nc.r.IntN(len(valueNames))]
		if !nc.usedVals[n] && !taken[n] {
			return n
		}
	}
	for {
		*nc.fresh++
		n := "n" + itoa(*nc.fresh)
		if !nc.usedVals[n] && !taken[n] {
			return n
		}
	}
}

func (nc *nameChooser) name() string {
	for {
		*nc.fresh++
		n := "t" + itoa(*nc.fresh)
		if nc.r.IntN(3) == 0 {
			n = valueNames[nc.r.IntN(len(valueNames))]
		}
		if !nc.usedNames[n] {
			return n
		}
	}
}

// finish sets an explicit name where it's needed.
func (nc *nameChooser) finish(t *Tmpl, named float64) *Tmpl {
	if nc.r.Float64() < named {
		t.Name = nc.name()
	}
	if en := t.EffName(); en != "" && nc.usedNames[en] {
		t.Name = nc.name()
	}
	return t
}

const (
	kStatic = iota
	kPattern
	kMulti
	kWild
)

// sepFor returns a static segment that a variable match can't run into.
func sepFor(r *rand.Rand, p *Pat, after bool) (string, bool) {
	seps := []string{"-", ".", "_", "--", "=", ",", "~", "-x-", ".by.", "ñ", "!"}
	for i := 0; i < 12; i++ {
		s := seps[r.IntN(len(seps))]
		rs := runes(s)
		ch := rs[0]
		if !after {
			ch = rs[len(rs)-1]
		}
		if p == nil || p.In == nil || !p.In(ch) {
			return s, true
		}
	}
	return "", false
}

// genMulti returns a template with two or more segments that splits strings in
// one way.
func genMulti(r *rand.Rand, nc *nameChooser, pool []*Pat, host bool) *Tmpl {
	t := &Tmpl{}
	taken := map[string]bool{}
	patOfName := map[string]*Pat{}
	n := 1 + r.IntN(3)
	if r.IntN(12) == 0 {
		n += 4
		if r.IntN(10) == 0 {
			n += r.IntN(12)
		}
	}
	wildAt := -1
	if r.IntN(3) == 0 {
		wildAt = r.IntN(n)
	}
	var prevVar *Pat // The variable pattern or wildcard just before.
	prevWild := false
	pre := []string{"a", "b-", "id-", "x", "post_", "v.", "new", "é", "@", "$"}
	if host {
		pre = []string{"a", "b-", "id-", "x", "www."}
	}
	if r.IntN(2) == 0 {
		t.Parts = append(t.Parts, Part{Static: pre[r.IntN(len(pre))]})
	}
	seenWild := false
	for i := 0; i < n; i++ {
		var p *Pat
		name := ""
		if i == wildAt {
			p = nil
			name = nc.value(taken)
		} else {
			if r.IntN(5) == 0 && len(patOfName) > 0 {
				for nm, pp := range patOfName { // Repeated name.
					if name == "" || nm < name {
						name, p = nm, pp
					}
				}
			} else {
				p = pool[r.IntN(len(pool))]
				name = nc.value(taken)
			}
		}
		// What separates it from the previous dynamic segment.
		if len(t.Parts) > 0 {
			last := t.Parts[len(t.Parts)-1]
			if last.dyn() {
				need := prevVar != nil || prevWild || p == nil || p.In != nil
				if need || r.IntN(2) == 0 {
					ok := false
					for try := 0; try < 20 && !ok; try++ {
						s, ok1 := sepFor(r, prevVar, true)
						if !ok1 {
							continue
						}
						if p != nil && p.In != nil {
							rs := runes(s)
							if p.In(rs[len(rs)-1]) {
								continue
							}
							if p.In(rs[0]) {
								continue
							}
						}
						if prevVar != nil && prevVar.In(runes(s)[len(runes(s))-1]) {
							continue
						}
						if host && strings.ContainsAny(s, "_=,~ñ!") {
							continue
						}
						t.Parts = append(t.Parts, Part{Static: s})
						ok = true
					}
					if !ok {
						return nil
					}
				}
			} else if p != nil && p.In != nil && seenWild {
				rs := runes(last.Static)
				if p.In(rs[len(rs)-1]) || p.In(rs[0]) {
					return nil
				}
			}
		}
		t.Parts = append(t.Parts, Part{Name: name, Pat: p, Again: r.IntN(4) == 0})
		taken[name] = true
		if p != nil {
			patOfName[name] = p
		}
		prevVar, prevWild = nil, p == nil
		if p == nil {
			seenWild = true
		} else if p.In != nil {
			prevVar = p
		}
	}
	if r.IntN(2) == 0 || host {
		s, ok := sepFor(r, prevVar, true)
		if host {
			s = ".example.com"
			if prevVar != nil && prevVar.In('.') {
				return nil
			}
			if r.IntN(2) == 0 {
				s = ".org"
			}
			ok = true
		}
		if ok {
			t.Parts = append(t.Parts, Part{Static: s})
		}
	}
	if len(t.Parts) < 2 {
		return nil
	}
	return t
}

// genTmpl returns a template of the kind.
func genTmpl(r *rand.Rand, nc *nameChooser, kind int, hard bool) *Tmpl {
	switch kind {
	case kStatic:
		w := words[r.IntN(len(words))]
		if hard && r.IntN(3) == 0 {
			w = hardWords[r.IntN(len(hardWords))]
		} else if r.IntN(30) == 0 {
			w = strings.Repeat(w, 1+r.IntN(40))
		}
		return nc.finish(&Tmpl{Parts: []Part{{Static: w}}}, 0.15)
	case kWild:
		return nc.finish(&Tmpl{Parts: []Part{{Name: nc.value(nil)}}}, 0.2)
	case kPattern:
		p := pats[r.IntN(len(pats))]
		t := &Tmpl{Parts: []Part{{Name: nc.value(nil), Pat: p}}}
		return nc.finish(t, 0.25)
	default:
		for {
			if t := genMulti(r, nc, pats, false); t != nil {
				return nc.finish(t, 0.3)
			}
		}
	}
}

var hostWords = []string{
	"example.com", "www.example.com", "api.example.com", "localhost",
	"example.org", "a.example.com", "b.example.com", "123.example.com",
	"127.0.0.1", "xn--80ak6aa92e.com", "münchen.example", "red.example.com",
	"EXAMPLE.net", "abc.org", "[::1]", "[2001:db8::1]", "a", "v12.example.com",
	"$pay.example.com", "a$.example", "it's.example",
}

func genHostTmpl(r *rand.Rand, nc *nameChooser) *Tmpl {
	switch r.IntN(5) {
	case 0, 1:
		w := hostWords[r.IntN(len(hostWords))]
		return nc.finish(&Tmpl{Parts: []Part{{Static: w}}}, 0.2)
	case 2:
		suffix := []string{".example.com", ".org", ".a.example.com"}[r.IntN(3)]
		t := &Tmpl{Parts: []Part{
			{Name: nc.value(nil)}, {Static: suffix},
		}}
		return nc.finish(t, 0.2)
	default:
		for {
			if t := genMulti(r, nc, hostPats, true); t != nil {
				return nc.finish(t, 0.3)
			}
		}
	}
}

// genWild returns a value for a wildcard in a path.
func genWild(r *rand.Rand) string {
	if r.IntN(80) == 0 { // A long one.
		return genOf(lowers+digits+"-._/%é", 20, 600)(r)
	}
	switch r.IntN(9) {
	case 0:
		return words[r.IntN(len(words))]
	case 1:
		return hardWords[r.IntN(len(hardWords))]
	case 2:
		return genOf(lowers, 1, 8)(r)
	case 3:
		return genOf(digits, 1, 4)(r)
	case 4:
		return pats[r.IntN(len(pats))].Gen(r)
	case 5:
		return genOf(wordCh+"-._~ %+/?#äß日€", 1, 10)(r)
	case 6:
		return genOf("\x01\x7f\xff\xfe\x80 \t", 1, 3)(r) + "z"
	default:
		return genOf(lowers+uppers+digits, 1, 12)(r)
	}
}

// genHostWild returns a value for a wildcard in a host.
func genHostWild(r *rand.Rand) string {
	return genOf(lowers+digits+"-", 1, 8)(r)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}
