package main

import (
	"math/rand/v2"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Kinds of nodes.
const (
	kRoot = iota
	kHost
	kRes
)

// Cfg mirrors the configuration of a responder.
type Cfg struct {
	Subtree, Secure, RedirInsec, TSlash, StrictTS, LenientTS, LenientUC bool
}

// NM returns the configuration in the form of the package.
func (c Cfg) NM() nm.Config {
	return nm.Config{
		SubtreeHandler:           c.Subtree,
		Secure:                   c.Secure,
		RedirectsInsecureRequest: c.RedirInsec,
		HasTrailingSlash:         c.TSlash,
		StrictOnTrailingSlash:    c.StrictTS,
		LenientOnTrailingSlash:   c.LenientTS,
		LenientOnUncleanPath:     c.LenientUC,
		HandlesThePathAsIs:       c.LenientTS && c.LenientUC,
	}
}

func (c Cfg) String() string {
	var ss []string
	add := func(b bool, s string) {
		if b {
			ss = append(ss, s)
		}
	}
	add(c.Subtree, "subtree")
	add(c.Secure, "secure")
	add(c.RedirInsec, "redirInsecure")
	add(c.TSlash, "tslash")
	add(c.StrictTS, "strictTS")
	add(c.LenientTS, "lenientTS")
	add(c.LenientUC, "lenientUC")
	return strings.Join(ss, "+")
}

// plain tells that a URL template is enough to configure it.
func (c Cfg) plain() bool {
	c.Secure, c.TSlash = false, false
	return c == Cfg{}
}

// Redir is a configured redirect.
type Redir struct {
	URL  string
	Code int
	Any  bool
}

// Wrap is a wrapping of the handlers of methods.
type Wrap struct {
	Spec []string // Methods, "*" or "!".
	L    string
}

// Node is a responder of the reference tree.
type Node struct {
	ID     int
	Kind   int
	Tmpl   *Tmpl
	Parent *Node // nil for a host and the root.
	Kids   []*Node
	Cfg    Cfg

	Handlers map[string]string // Method to label.
	NotAllow string            // Label of the not allowed handler.
	ByImpl   bool
	Passers  []string // Labels in the order of wrapping.
	ReqMws   []string
	MethMws  map[string][]string // Method (or "!") to labels.
	Wraps    []Wrap              // How MethMws come into being.
	Redir    *Redir
	PermCode int
	RedirH   string // Label of the custom redirect handler.
	Shared   any
	Impl     any
}

// Tree is the reference tree.
type Tree struct {
	Hosts   []*Node // In the order of registration.
	Root    *Node
	Nodes   []*Node
	Passers []string // The router's middlewares.

	names []string
}

// CanHandle tells whether the responder has a handler.
func (n *Node) CanHandle() bool { return len(n.Handlers) > 0 }

// Methods returns the sorted methods, OPTIONS included.
func (n *Node) Methods() []string {
	if len(n.Handlers) == 0 {
		return nil
	}
	var ms []string
	opt := false
	for m := range n.Handlers {
		ms = append(ms, m)
		opt = opt || m == "OPTIONS"
	}
	if !opt {
		ms = append(ms, "OPTIONS")
	}
	sort.Strings(ms)
	return ms
}

// Path returns the nodes from the top to the node.
func (n *Node) Path() []*Node {
	var ns []*Node
	for p := n; p != nil; p = p.Parent {
		ns = append(ns, p)
	}
	for i, k := 0, len(ns)-1; i < k; i, k = i+1, k-1 {
		ns[i], ns[k] = ns[k], ns[i]
	}
	return ns
}

// Host returns the host of the node.
func (n *Node) Host() *Node {
	for p := n; p != nil; p = p.Parent {
		if p.Kind == kHost {
			return p
		}
	}
	return nil
}

// AllNames returns the names of all values in the tree.
func (t *Tree) AllNames() []string {
	if t.names == nil {
		m := map[string]bool{}
		for _, n := range t.Nodes {
			if n.Tmpl != nil {
				for _, v := range n.Tmpl.ValueNames() {
					m[v] = true
				}
			}
		}
		t.names = []string{}
		for v := range m {
			t.names = append(t.names, v)
		}
		sort.Strings(t.names)
	}
	return t.names
}

// String describes the tree.
func (t *Tree) String() string {
	var sb strings.Builder
	if len(t.Passers) > 0 {
		sb.WriteString("router passers=" + strings.Join(t.Passers, ",") + "\n")
	}
	for _, h := range t.Hosts {
		h.describe(&sb, 0)
	}
	if t.Root != nil {
		t.Root.describe(&sb, 0)
	}
	return sb.String()
}

func (n *Node) describe(sb *strings.Builder, depth int) {
	sb.WriteString(strings.Repeat("  ", depth))
	sb.WriteString("#" + itoa(n.ID) + " ")
	switch n.Kind {
	case kRoot:
		sb.WriteString("/")
	case kHost:
		sb.WriteString("host " + n.Tmpl.Src())
	default:
		sb.WriteString(n.Tmpl.Src())
	}
	if s := n.Cfg.String(); s != "" {
		sb.WriteString(" [" + s + "]")
	}
	if len(n.Handlers) > 0 {
		sb.WriteString(" " + strings.Join(n.Methods(), ","))
	}
	if n.ByImpl {
		sb.WriteString(" impl")
	}
	if n.NotAllow != "" {
		sb.WriteString(" !")
	}
	if len(n.Passers) > 0 {
		sb.WriteString(" passers=" + strings.Join(n.Passers, ","))
	}
	if len(n.ReqMws) > 0 {
		sb.WriteString(" reqmws=" + strings.Join(n.ReqMws, ","))
	}
	var ms []string
	for m := range n.MethMws {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		sb.WriteString(" " + m + "mws=" + strings.Join(n.MethMws[m], ","))
	}
	if n.Redir != nil {
		sb.WriteString(" redirect=" + n.Redir.URL + " " + itoa(n.Redir.Code))
		if n.Redir.Any {
			sb.WriteString(" any")
		}
	}
	if n.PermCode != 0 {
		sb.WriteString(" perm=" + itoa(n.PermCode))
	}
	if n.RedirH != "" {
		sb.WriteString(" redirH=" + n.RedirH)
	}
	sb.WriteByte('\n')
	for _, k := range n.Kids {
		k.describe(sb, depth+1)
	}
}

// ---------------------------------------------------------------------------

// Prof tells what the generated trees are like.
type Prof struct {
	MaxNodes         int
	Hosts            int // The highest number of hosts.
	RootP            float64
	DeepP            float64 // Probability of a deep chain.
	WideP            float64 // Probability of many siblings.
	Static, Pattern  int     // Weights of template kinds.
	Multi, Wild      int
	Hard             bool
	HandlerP         float64
	ManyMethodsP     float64
	MethodsUpTo      int
	CustomMethodsP   float64
	ImplP            float64
	NotAllowP        float64
	SubtreeP         float64
	SecureP          float64
	RedirInsecP      float64
	TSlashP          float64
	StrictP          float64
	LenientTSP       float64
	LenientUCP       float64
	PasserP          float64
	ReqMwP           float64
	MethMwP          float64
	RouterMwP        float64
	RedirP, RedirAny float64
	PermCodeP        float64
	RedirHP          float64
	SharedP          float64
	ConvP            float64 // Converted net/http handlers and middlewares.
	ExtremeP         float64 // Trees that are far deeper, wider or longer.
}

// baseProf is what most of the properties begin with.
func baseProf() Prof {
	return Prof{
		MaxNodes: 24, Hosts: 2, RootP: 0.85, DeepP: 0.1, WideP: 0.1,
		Static: 5, Pattern: 4, Multi: 3, Wild: 3, Hard: true,
		HandlerP: 0.75, ManyMethodsP: 0.04, MethodsUpTo: 3,
		SubtreeP: 0.2, TSlashP: 0.25, LenientTSP: 0.1, LenientUCP: 0.1,
		StrictP: 0.08, SecureP: 0.1, RedirInsecP: 0.5, ImplP: 0.12,
		NotAllowP: 0.1, CustomMethodsP: 0.15, SharedP: 0.3, ExtremeP: 0.02,
	}
}

var stdMethods = []string{
	"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT",
	"TRACE",
}

var customMethods = []string{
	"SHARE", "LOCK", "UNLOCK", "PROPFIND", "MKCOL", "COPY", "MOVE", "SEARCH",
	"REPORT", "PURGE", "A", "AB", "B", "Z", "ZZ", "M-SEARCH", "LINK", "UNLINK",
	"SUBSCRIBE", "X1", "X10", "X2", "GETX", "GE", "G", "OPTION", "OPTIONSX",
}

type treeGen struct {
	r     *rand.Rand
	p     Prof
	t     *Tree
	fresh int
	many  bool // Many middlewares.
}

// genTree returns a tree of the profile.
func genTree(r *rand.Rand, p Prof) *Tree {
	g := &treeGen{r: r, p: p, t: &Tree{}}
	g.gen()
	return g.t
}

func (g *treeGen) P(p float64) bool { return p > 0 && g.r.Float64() < p }

func (g *treeGen) node(kind int, parent *Node, tmpl *Tmpl) *Node {
	n := &Node{ID: len(g.t.Nodes), Kind: kind, Parent: parent, Tmpl: tmpl}
	g.t.Nodes = append(g.t.Nodes, n)
	if parent != nil {
		parent.Kids = append(parent.Kids, n)
	}
	return n
}

func (g *treeGen) gen() {
	nh := 0
	if g.p.Hosts > 0 {
		nh = g.r.IntN(g.p.Hosts + 1)
	}
	root := g.P(g.p.RootP) || nh == 0
	extreme := ""
	if g.P(g.p.ExtremeP) {
		extreme = pick(g.r, []string{"deep", "wide", "hosts", "mws", "methods"})
		if extreme == "hosts" && nh > 0 {
			nh = 10 + g.r.IntN(40)
		}
		if extreme == "methods" {
			g.p.ManyMethodsP = 0.6
		}
		g.many = extreme == "mws"
	}
	keys := map[string]bool{}
	hostNames := map[string]bool{}
	for i := 0; i < nh; i++ {
		for try := 0; try < 20; try++ {
			nc := &nameChooser{r: g.r, usedNames: hostNames, fresh: &g.fresh}
			tm := genHostTmpl(g.r, nc)
			if keys[tm.Key()] {
				continue
			}
			keys[tm.Key()] = true
			if en := tm.EffName(); en != "" {
				hostNames[en] = true
			}
			g.t.Hosts = append(g.t.Hosts, g.node(kHost, nil, tm))
			break
		}
	}
	if root {
		g.t.Root = g.node(kRoot, nil, nil)
	}
	var tops []*Node
	tops = append(tops, g.t.Hosts...)
	if g.t.Root != nil {
		tops = append(tops, g.t.Root)
	}
	maxN := 3 + g.r.IntN(g.p.MaxNodes)
	if extreme == "deep" || g.P(g.p.DeepP) {
		n := tops[g.r.IntN(len(tops))]
		d := 4 + g.r.IntN(9)
		if extreme == "deep" {
			d = 16 + g.r.IntN(50)
		}
		for ; d > 0 && n != nil; d-- {
			n = g.addKid(n)
		}
	}
	if extreme == "wide" || g.P(g.p.WideP) {
		n := g.t.Nodes[g.r.IntN(len(g.t.Nodes))]
		k := 5 + g.r.IntN(14)
		if extreme == "wide" {
			k = 20 + g.r.IntN(120)
		}
		for ; k > 0; k-- {
			g.addKid(n)
		}
	}
	for i := 0; len(g.t.Nodes) < maxN && i < 4*maxN; i++ {
		n := g.t.Nodes[g.r.IntN(len(g.t.Nodes))]
		if g.P(0.4) && len(n.Kids) == 0 && n.Parent != nil {
			n = n.Parent // Rather more siblings than long branches.
		}
		g.addKid(n)
	}
	for _, n := range g.t.Nodes {
		g.fill(n)
	}
	if g.P(g.p.RouterMwP) {
		for k := g.mws(); k > 0; k-- {
			g.t.Passers = append(g.t.Passers, "R/p"+itoa(len(g.t.Passers))+g.conv())
		}
	}
}

// mws returns the number of middlewares.
func (g *treeGen) mws() int {
	if g.many {
		return 1 + g.r.IntN(40)
	}
	return 1 + g.r.IntN(3)
}

// addKid adds a child with a template that is allowed there.
func (g *treeGen) addKid(parent *Node) *Node {
	nc := &nameChooser{r: g.r, usedVals: map[string]bool{},
		usedNames: map[string]bool{}, fresh: &g.fresh}
	for p := parent; p != nil; p = p.Parent {
		if p.Tmpl == nil {
			continue
		}
		if en := p.Tmpl.EffName(); en != "" {
			nc.usedNames[en] = true
		}
		for _, v := range p.Tmpl.ValueNames() {
			nc.usedVals[v] = true
		}
	}
	keys := map[string]bool{}
	hasWild := false
	for _, k := range parent.Kids {
		if en := k.Tmpl.EffName(); en != "" {
			nc.usedNames[en] = true
		}
		keys[k.Tmpl.Key()] = true
		hasWild = hasWild || k.Tmpl.IsWild()
	}
	total := g.p.Static + g.p.Pattern + g.p.Multi + g.p.Wild
	for try := 0; try < 12; try++ {
		k := g.r.IntN(total)
		kind := kStatic
		switch {
		case k < g.p.Static:
		case k < g.p.Static+g.p.Pattern:
			kind = kPattern
		case k < g.p.Static+g.p.Pattern+g.p.Multi:
			kind = kMulti
		default:
			kind = kWild
		}
		if kind == kWild && hasWild {
			continue
		}
		tm := genTmpl(g.r, nc, kind, g.p.Hard)
		if kind == kStatic && tm.Parts[0].Static == "/" {
			continue // The root's template.
		}
		if keys[tm.Key()] {
			continue
		}
		return g.node(kRes, parent, tm)
	}
	return nil
}

func (g *treeGen) methods() []string {
	if g.P(g.p.ManyMethodsP) {
		all := append(append([]string{}, stdMethods...), customMethods...)
		for k := g.r.IntN(2) * g.r.IntN(60); k > 0; k-- {
			all = append(all, "V"+itoa(k))
		}
		g.r.Shuffle(len(all), func(i, k int) { all[i], all[k] = all[k], all[i] })
		return all[:10+g.r.IntN(len(all)-10)]
	}
	n := 1
	if g.p.MethodsUpTo > 1 {
		n += g.r.IntN(g.p.MethodsUpTo)
	}
	m := map[string]bool{}
	var ms []string
	for i := 0; i < n; i++ {
		s := stdMethods[g.r.IntN(6)]
		if g.P(0.5) {
			s = "GET"
		} else if g.P(g.p.CustomMethodsP) {
			s = customMethods[g.r.IntN(len(customMethods))]
		} else if g.P(0.05) {
			s = "OPTIONS"
		}
		if !m[s] {
			m[s] = true
			ms = append(ms, s)
		}
	}
	return ms
}

// implMethods are the methods of the types in impl.go.
var implMethods = [][]string{
	{"GET"}, {"GET", "POST"}, {"SHARE", "GET", "!"}, {"OPTIONS", "PUT"},
}

// conv returns the mark of a converted middleware.
func (g *treeGen) conv() string {
	if g.P(g.p.ConvP) {
		return "~"
	}
	return ""
}

func (g *treeGen) fill(n *Node) {
	id := itoa(n.ID)
	p := &g.p
	if g.P(p.HandlerP) {
		n.Handlers = map[string]string{}
		var ms []string
		if g.P(p.ImplP) {
			n.ByImpl = true
			ms = implMethods[g.r.IntN(len(implMethods))]
		} else {
			ms = g.methods()
			if g.P(p.NotAllowP) {
				ms = append(ms, "!")
			}
		}
		for _, m := range ms {
			l := id + "/" + m
			if !n.ByImpl && g.P(p.ConvP) {
				l += "~" + itoa(1+g.r.IntN(4))
			}
			if m == "!" {
				n.NotAllow = l
			} else {
				n.Handlers[m] = l
			}
		}
		if g.P(p.MethMwP) {
			n.MethMws = map[string][]string{}
			c := append(append([]string{}, n.Methods()...), "!")
			for k := g.mws(); k > 0; k-- {
				g.wrap(n, c, k)
			}
		}
		if g.P(p.ReqMwP) {
			for k := g.mws(); k > 0; k-- {
				n.ReqMws = append(n.ReqMws, id+"/q"+itoa(len(n.ReqMws))+g.conv())
			}
		}
	}
	n.Cfg.Subtree = g.P(p.SubtreeP)
	n.Cfg.Secure = g.P(p.SecureP)
	n.Cfg.RedirInsec = n.Cfg.Secure && g.P(p.RedirInsecP)
	n.Cfg.LenientUC = g.P(p.LenientUCP)
	if n.Kind != kRoot {
		n.Cfg.TSlash = g.P(p.TSlashP)
		n.Cfg.StrictTS = g.P(p.StrictP)
		n.Cfg.LenientTS = g.P(p.LenientTSP)
	}
	if g.P(p.PasserP) {
		for k := g.mws(); k > 0; k-- {
			n.Passers = append(n.Passers, id+"/p"+itoa(len(n.Passers))+g.conv())
		}
	}
	if g.P(p.SharedP) {
		n.Shared = "shared" + id
		if g.r.IntN(6) == 0 {
			n.Shared = oddShared(g.r)
		}
	}
	if g.P(p.PermCodeP) {
		n.PermCode = []int{301, 308}[g.r.IntN(2)]
	}
	if g.P(p.RedirHP) {
		n.RedirH = id + "/r"
	}
	if g.P(p.RedirP) {
		n.Redir = &Redir{
			URL:  g.redirURL(),
			Code: []int{301, 302, 303, 307, 308, 300, 305}[g.r.IntN(7)],
			Any:  g.P(p.RedirAny),
		}
	}
}

// oddShared returns shared data that may be taken for none.
func oddShared(r *rand.Rand) any {
	var e error
	return []any{"", 0, false, (*int)(nil), struct{}{}, [0]int{}, (chan int)(nil),
		(*Node)(nil), 0.0, uint8(0), &e, new(int), rune(0), [1]string{}}[r.IntN(14)]
}

// wrap wraps the handlers of some of the methods, or of all of them.
func (g *treeGen) wrap(n *Node, c []string, k int) {
	m := c[g.r.IntN(len(c))]
	w := Wrap{Spec: []string{m}}
	ms := w.Spec
	switch g.r.IntN(8) {
	case 0:
		w.Spec, ms = []string{"*"}, n.Methods()
	case 1:
		// The list may have methods that aren't handled.
		ms = nil
		w.Spec = nil
		for i := g.r.IntN(len(c) + 1); i >= 0; i-- {
			m := c[g.r.IntN(len(c))]
			if m != "!" && !contains(ms, m) {
				w.Spec, ms = append(w.Spec, m), append(ms, m)
			}
		}
		if len(ms) == 0 {
			w.Spec = []string{"!"}
			ms = w.Spec
		}
	}
	if i := len(n.Wraps) - 1; i >= 0 && g.many && g.r.IntN(12) > 0 {
		// The same as before, to be wrapped by one call.
		w.Spec = n.Wraps[i].Spec
		m, ms = w.Spec[0], w.Spec
		if m == "*" {
			ms = n.Methods()
		}
	}
	w.L = itoa(n.ID) + "/m" + m + itoa(k) + g.conv()
	n.Wraps = append(n.Wraps, w)
	for _, m := range ms {
		n.MethMws[m] = append(n.MethMws[m], w.L)
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (g *treeGen) redirURL() string {
	base := []string{
		"http://other.example", "https://other.example", "https://x.example:8443",
		"", "/moved", "/a/b/c", "moved", "http://other.example/x",
		"https://other.example/p%20q", "https://other.example/a%2Fb", "/é",
		"httpd", "https/only", "http-docs/x",
	}[g.r.IntN(14)]
	if g.P(0.12) {
		for n := 1 + g.r.IntN(12); n > 0; n-- {
			base += "/" + strings.Repeat(string(rune('a'+g.r.IntN(26))), 1+g.r.IntN(30))
		}
	}
	if base == "" || g.P(0.35) {
		base += "/"
	}
	return base
}
