package main

import (
	"fmt"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

type placer struct {
	c     *Case
	b     *Built
	t     *Tree
	tmpls map[string]*Tmpl
	fresh int
}

func (x *placer) word() string {
	x.fresh++
	return fmt.Sprintf("fr%d", x.fresh)
}

// good returns a segment that's allowed anywhere.
func (x *placer) good() string {
	w := x.word()
	q := patOf(pick(x.c.Rand, []string{`\d{3}`, `red|green|blue`, `v\d+`}))
	t := &Tmpl{Parts: []Part{{Static: w}}}
	switch x.c.IntN(5) {
	case 0:
		t.Name = w
	case 1:
		t.Parts = []Part{{Static: w + "-"}, {Name: w, Pat: q}}
	case 2:
		t.Parts = []Part{{Static: w}, {Name: w + "a"}, {Static: "-"}, {Name: w + "b", Pat: q}}
	case 3:
		t.Parts = []Part{{Static: w + "/" + w}}
	}
	x.tmpls[t.URLSrc()] = t
	return t.URLSrc()
}

// altered replaces a letter of the static parts.
func altered(c *Case, s string) string {
	var at []int
	depth := 0
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '$' && i == 0:
			// The name remains.
			if j := strings.IndexByte(s, ':'); j >= 0 {
				i = j
			}
		case ch == '\\' || ch == '%':
			i += 2
		case ch == '{':
			depth++
		case ch == '}':
			depth--
		case depth == 0 && (ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9'):
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s + "z"
	}
	b := []byte(s)
	i := pick(c.Rand, at)
	for ch := b[i]; b[i] == ch; {
		b[i] = "abcxyz012"[c.IntN(9)]
	}
	return string(b)
}

// renamed returns a template that differs only in the name or a value name.
func (x *placer) renamed(t *Tmpl) *Tmpl {
	q := &Tmpl{Name: t.Name, Parts: append([]Part{}, t.Parts...)}
	if vs := t.ValueNames(); len(vs) > 0 && x.c.P(0.5) {
		v, w := pick(x.c.Rand, vs), x.word()
		for i := range q.Parts {
			if q.Parts[i].Name == v {
				q.Parts[i].Name = w
			}
		}
		return q
	}
	if q.Name != "" && len(t.ValueNames()) != 1 && x.c.P(0.3) {
		q.Name = ""
	} else {
		q.Name = x.word()
	}
	return q
}

// joined returns the two templates as one, if they can be joined. One of them
// must be static, otherwise a value may continue into the other's static part.
func joined(a, b *Tmpl) *Tmpl {
	i := len(a.Parts) - 1
	if !a.IsStatic() && !b.IsStatic() || b.Name != "" || i < 0 || len(b.Parts) == 0 ||
		a.Parts[i].Name != "" || b.Parts[0].Name != "" {
		return nil
	}
	t := &Tmpl{Name: a.Name, Parts: append([]Part{}, a.Parts...)}
	t.Parts[i].Static += b.Parts[0].Static
	t.Parts = append(t.Parts, b.Parts[1:]...)
	return t
}

// add adds to the reference what has been registered.
func (x *placer) add(top *Node, at []string, seg, label string, cfg Cfg) *Node {
	if top == nil {
		if x.t.Root == nil {
			x.t.Root = x.node(kRoot, nil, nil)
		}
		top = x.t.Root
	}
	n := top
	for _, s := range append(append([]string{}, at...), seg) {
		var kid *Node
		for _, k := range n.Kids {
			if k.Tmpl.URLSrc() == s {
				kid = k
			}
		}
		if kid == nil {
			kid = x.node(kRes, x.tmpls[s], n)
		}
		n = kid
	}
	n.Handlers = map[string]string{"GET": label}
	n.Cfg = cfg
	x.t.names = nil
	return n
}

func (x *placer) node(kind int, tm *Tmpl, parent *Node) *Node {
	n := &Node{ID: len(x.t.Nodes), Kind: kind, Tmpl: tm, Parent: parent}
	x.t.Nodes = append(x.t.Nodes, n)
	x.b.Objs = append(x.b.Objs, nil)
	if parent != nil {
		parent.Kids = append(parent.Kids, n)
	}
	return n
}

// bind keeps the objects of the added nodes.
func (x *placer) bind(n *Node, r *nm.Resource) *Node {
	for q, p := r, n; q != nil && p.Kind != kHost; q, p = q.Parent(), p.Parent {
		x.b.set(p, q)
		if p.Parent == nil {
			break
		}
	}
	return n
}

// exact makes a request for the node.
func (x *placer) exact(n *Node) *Req {
	host, path := "unknown.test", ""
	for _, a := range n.Path() {
		switch a.Kind {
		case kHost:
			host = hostValue(x.c.Rand, a.Tmpl)
		case kRes:
			path += "/" + encSeg(x.c.Rand, segValue(x.c.Rand, a.Tmpl), false)
		}
	}
	if n.Cfg.TSlash {
		path += "/"
	}
	return &Req{Method: "GET", Host: host, URI: path, TLS: n.Cfg.Secure}
}

// serve makes requests, some of which are for the node.
func (x *placer) serve(how string, n *Node) {
	for i := 0; i < 3; i++ {
		var rq *Req
		if i == 0 {
			rq = x.exact(n)
		} else {
			rq = genReq(x.c.Rand, x.t, baseReq())
		}
		out := predict(x.t, rq)
		o := serve(x.b, x.b.Router, rq, x.t.AllNames())
		d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, true),
			diffSnaps(out, o, "h", snVals|snResp))
		if d != "" {
			report(x.c, rq, out, o, fmt.Sprintf("after %s: %s", how, d))
		}
		x.c.Count("answer: " + out.Kind())
	}
}

// --------------------------------------------------
// URL templates of the registered resources

// placeCase registers resources that have URL templates. A template that
// conflicts with the place must be rejected, otherwise the resource must be
// where the template says.
func placeCase(c *Case) {
	p := baseProf()
	p.MaxNodes = 12
	p.Hosts = 2
	p.HandlerP = 0.6
	p.SecureP, p.TSlashP = 0.05, 0.1
	t, b, desc := begin(c, p)
	x := &placer{c: c, b: b, t: t, tmpls: map[string]*Tmpl{}}
	th := hash64(desc)
	for _, n := range t.Nodes {
		if n.Kind == kRes {
			x.tmpls[n.Tmpl.URLSrc()] = n.Tmpl
		}
	}
	for i := 0; i < 10; i++ {
		n := pick(c.Rand, t.Nodes)
		host := ""
		if h := n.Host(); h != nil {
			host = h.Tmpl.Src()
		}
		// Where the resource must be.
		var own []string
		for _, a := range n.Path() {
			if a.Kind == kRes {
				own = append(own, a.Tmpl.URLSrc())
			}
		}
		var mid []string
		for k := c.IntN(3); k > 0; k-- {
			mid = append(mid, x.good())
		}
		seg := x.good()
		pre := append(append([]string{}, own...), mid...)

		// The ancestor that registers the resource.
		anc := n
		for anc.Parent != nil && c.P(0.4) {
			anc = anc.Parent
		}
		nOwn := 0
		for _, a := range anc.Path() {
			if a.Kind == kRes {
				nOwn++
			}
		}

		// The URL template of the resource.
		uh, up := host, append([]string{}, pre...)
		bad := ""
		if c.P(0.6) {
			switch c.IntN(6) {
			case 5:
				// Two segments without the slash between them.
				j := nOwn
				if j == 0 || j >= len(up) {
					break
				}
				tm := joined(x.tmpls[up[j-1]], x.tmpls[up[j]])
				if tm == nil {
					break
				}
				bad = "two segments joined"
				up = append(up[:j-1:j-1], append([]string{tm.URLSrc()}, up[j+1:]...)...)
				x.tmpls[tm.URLSrc()] = tm
			case 0:
				bad, uh = "another host", x.word()+".example"
				if host != "" && c.P(0.3) {
					bad, uh = "another host only in names", x.renamed(n.Host().Tmpl).Src()
				} else if host != "" && c.P(0.6) {
					bad, uh = "another host of the same length", altered(c, host)
				}
			case 1:
				if len(up) == 0 {
					break
				}
				bad = "a missing segment"
				j := c.IntN(len(up))
				up = append(up[:j:j], up[j+1:]...)
			case 2:
				if len(up) == 0 {
					break
				}
				bad = "another segment"
				j := c.IntN(len(up))
				if tm := x.tmpls[up[j]]; c.P(0.3) {
					tm = x.renamed(tm)
					bad, up[j] = "another segment only in names", tm.URLSrc()
					x.tmpls[tm.URLSrc()] = tm
				} else if tm.IsStatic() && tm.Name == "" && c.P(0.5) {
					tm = &Tmpl{Parts: []Part{{Static: altered(c, tm.Parts[0].Static)}}}
					bad, up[j] = "another segment of the same length", tm.URLSrc()
					x.tmpls[tm.URLSrc()] = tm
				} else {
					up[j] = x.good()
				}
			case 3:
				bad = "one more segment"
				j := c.IntN(len(up) + 1)
				up = append(up[:j:j], append([]string{x.good()}, up[j:]...)...)
			default:
				bad = "no prefix"
				if len(up) == 0 || host == "" {
					bad = ""
					break
				}
				up = nil
			}
		}
		// The host may be left out when it's right.
		if uh == host && len(up) > 0 && c.P(0.4) {
			uh = ""
		}
		u := strings.Join(append(append([]string{}, up...), seg), "/")
		secure := c.P(0.2)
		switch {
		case uh != "" && secure, uh == "" && secure:
			u = "https://" + uh + "/" + u
		case uh != "" || c.P(0.2):
			u = "http://" + uh + "/" + u
		case c.P(0.6) || strings.HasPrefix(u, "http"):
			u = "/" + u
		}
		tslash := c.P(0.2)
		if tslash {
			u += "/"
		}
		has := uh != "" || len(up) > 0

		r := nm.NewDormantResource(u)
		label := fmt.Sprintf("%d/GET", 2000+i)
		r.SetHandlerFor("GET", mkHandler(label))
		cfg := Cfg{Secure: secure, TSlash: tslash}

		// place tells where each way of registering puts the resource.
		type way struct {
			how string
			f   func()
			ok  bool // It must be accepted.
			at  []string
			dec bool // The outcome is decided.
		}
		eq := func(a, b []string) bool { return strings.Join(a, "/") == strings.Join(b, "/") }
		goodURL := uh == host || uh == ""
		slash := func(s string) string {
			if c.P(0.3) {
				s += "/"
			}
			if c.P(0.7) || strings.HasPrefix(s, "http") {
				s = "/" + s
			}
			return s
		}
		var ways []way
		// By an ancestor without a prefix.
		ways = append(ways, way{
			how: fmt.Sprintf("#%d.RegisterResource(New(%q))", anc.ID, u),
			f:   func() { b.Objs[anc.ID].RegisterResource(r) },
			ok:  goodURL && len(up) >= nOwn && eq(up[:nOwn], own[:nOwn]),
			at:  up, dec: has,
		})
		// By an ancestor under the prefix.
		rel := pre[nOwn:]
		if len(rel) > 0 {
			rp := slash(strings.Join(rel, "/"))
			ways = append(ways, way{
				how: fmt.Sprintf("#%d.RegisterResourceUnder(%q, New(%q))", anc.ID, rp, u),
				f:   func() { b.Objs[anc.ID].RegisterResourceUnder(rp, r) },
				ok:  goodURL && eq(up, pre),
				at:  pre, dec: has,
			})
		}
		// By the router under the URL.
		ru := strings.Join(pre, "/")
		if host != "" {
			ru = "http://" + host + "/" + ru
		} else if ru = slash(ru); strings.Trim(ru, "/") == "" {
			ru = pick(c.Rand, []string{"", "/"})
		}
		ways = append(ways, way{
			how: fmt.Sprintf("ro.RegisterResourceUnder(%q, New(%q))", ru, u),
			f:   func() { b.Router.RegisterResourceUnder(ru, r) },
			ok:  goodURL && eq(up, pre),
			at:  pre, dec: has,
		})
		w := pick(c.Rand, ways)
		if !w.dec {
			// Without a URL template the resource goes where it's put.
			continue
		}
		check := func(how string, at []string, h string) {
			q := r
			for j := len(at) - 1; j >= 0; j-- {
				if q = q.Parent(); q == nil {
					c.Fail("%s: the resource has only %d parents, not %q", how, len(at)-1-j, at)
				}
				if s := nm.Parse(decSlash.Replace(at[j])).String(); q.Template().String() != s {
					c.Fail("%s: the resource is below %q, not %q (%q)", how,
						q.Template(), s, at)
				}
			}
			if q = q.Parent(); q != nil && q.Template().Content() != "/" {
				c.Fail("%s: the resource is below %q too", how, q.Template())
			}
			ho := r.Host()
			if (ho != nil) != (h != "") ||
				ho != nil && ho.Template().String() != nm.Parse(h).String() {
				c.Fail("%s: the resource's host is wrong", how)
			}
			if r.Router() != b.Router {
				c.Fail("%s: the resource's router is wrong", how)
			}
		}
		c.Logf("%s (%s)", w.how, bad)
		err := panics(w.f)
		c.EvalHash(th ^ hash64(w.how)*31)
		if s := fmt.Sprint(err); err != nil && strings.Contains(s, "runtime error") {
			c.Fail("%s: %s", w.how, s)
		}
		if w.ok {
			c.Count("placed by its URL template")
			if err != nil {
				if !eq(up, pre) {
					// The segment may conflict with another one there.
					c.Count("another conflict")
					continue
				}
				c.Fail("%s is rejected: %v", w.how, err)
			}
			check(w.how, w.at, host)
			x.serve(w.how, x.bind(x.add(n.Host(), w.at, seg, label, cfg), r))
			continue
		}
		c.Count("rejected URL template: " + bad)
		if err == nil {
			c.Fail("%s is accepted", w.how)
		}
		if r.Parent() != nil || r.Router() != nil {
			c.Fail("%s: the rejected resource has a parent", w.how)
		}
		// It can still be registered where its template says.
		if c.P(0.6) && !strings.HasPrefix(bad, "another host") {
			h := uh
			how := w.how + ", then ro.RegisterResource"
			if err := panics(func() { b.Router.RegisterResource(r) }); err != nil {
				// The place may have another conflict.
				c.Count("a second registration is rejected too")
			} else {
				c.Count("registered after a rejection")
				check(how, up, h)
				top := n.Host()
				if h == "" {
					top = nil
				}
				x.serve(how, x.bind(x.add(top, up, seg, label, cfg), r))
			}
		}
	}
}

func init() {
	register("C32", "resources with URL templates are registered by the router and by responders, "+
		"with and without a prefix, at random places of random trees; the templates are right, "+
		"partial, relative, or differ in the host or in a segment; a conflicting one must "+
		"panic and leave the resource free to be registered elsewhere, the others must be "+
		"exactly where they say (parents, host, answers of requests); non-trivial: every "+
		"registration",
		func(run *Run) {
			run.Stage("URL templates", scale(12000, 250000), placeCase)
		})
}
