package main

import (
	"errors"
	"fmt"
	"net/url"
	"reflect"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// usable tells whether a decoded value can be a path segment or a host.
func usable(s string) bool { return s != "" && s != "." && s != ".." }

// pathVals returns values for all segments above and the host of the node, and
// the decoded host and segments they make.
func pathVals(c *Case, n *Node) (vals map[string]string, host string, segs []string) {
	vals = map[string]string{}
	for _, p := range n.Path() {
		if p.Kind == kRoot {
			continue
		}
		for try := 0; ; try++ {
			gen := genWild
			if p.Kind == kHost {
				gen = genHostWild
			}
			v := p.Tmpl.GenVals(c.Rand, gen)
			s := p.Tmpl.Apply(v)
			if !usable(s) {
				if try > 50 {
					panic("no usable value for " + p.Tmpl.Src())
				}
				continue
			}
			for k, x := range v {
				vals[k] = x
			}
			if p.Kind == kHost {
				host = s
			} else {
				segs = append(segs, s)
			}
			break
		}
	}
	return
}

// shuffled returns the values in a random order with others among them.
func shuffled(c *Case, vals map[string]string, names []string) nm.HostPathValues {
	var vs nm.HostPathValues
	for _, i := range c.Perm(len(names)) {
		if c.P(0.15) {
			vs.Set(fmt.Sprintf("other%d", i), genWild(c.Rand))
		}
		if v, ok := vals[names[i]]; ok {
			if c.P(0.15) {
				vs.Set(names[i], "replaced")
			}
			vs.Set(names[i], v)
		}
	}
	return vs
}

func (n *Node) pathNames() []string {
	var names []string
	for _, p := range n.Path() {
		if p.Tmpl != nil {
			names = append(names, p.Tmpl.ValueNames()...)
		}
	}
	return names
}

// urlIs checks that the URL consists of the parts.
func urlIs(u *url.URL, secure bool, host string, segs []string, slash bool) string {
	scheme := "http"
	if secure {
		scheme = "https"
	}
	switch {
	case u == nil:
		return "the URL is nil"
	case u.Scheme != scheme:
		return fmt.Sprintf("the scheme is %q, expected %q", u.Scheme, scheme)
	case u.Host != host:
		return fmt.Sprintf("the host is %q, expected %q", u.Host, host)
	case u.RawQuery != "" || u.Fragment != "" || u.User != nil || u.Opaque != "":
		return "the URL has other parts"
	}
	want := ""
	for _, s := range segs {
		want += "/" + s
	}
	if slash {
		want += "/"
	}
	if u.Path != want {
		return fmt.Sprintf("the path is %q, expected %q", u.Path, want)
	}
	got, gslash := locParts(u.EscapedPath())
	if len(segs) == 0 && len(got) == 0 {
		return ""
	}
	if !reflect.DeepEqual(got, segs) || gslash != slash {
		return fmt.Sprintf("the escaped path %q has the segments %q (slash %v), expected %q (%v)",
			u.EscapedPath(), got, gslash, segs, slash)
	}
	return ""
}

func urlSlash(n *Node) bool { return n.Kind == kRoot || n.Cfg.TSlash }

func urlProf(c *Case) Prof {
	p := baseProf()
	bare(&p)
	p.HandlerP = 0.85
	p.SecureP = 0.25
	p.RedirInsecP = 0.3
	p.TSlashP = 0.4
	p.NotAllowP, p.CustomMethodsP, p.ManyMethodsP = 0, 0, 0
	if c.P(0.4) {
		p.Multi = 7
	}
	if c.P(0.2) {
		p.DeepP = 0.7
	}
	return p
}

func urlCase(c *Case) {
	t, b, desc := begin(c, urlProf(c))
	th := hash64(desc)
	all := t.AllNames()
	for _, n := range t.Nodes {
		o := b.Objs[n.ID]
		names := n.pathNames()
		for k := 0; k < 3; k++ {
			vals, host, segs := pathVals(c, n)
			vs := shuffled(c, vals, names)
			given := fmt.Sprintf("%q", vs)
			u, err := o.URL(vs)
			fail := func(format string, args ...any) {
				c.Fail("#%d.URL(%s) returns %v, %v: %s", n.ID, given, u, err,
					fmt.Sprintf(format, args...))
			}
			if err != nil {
				fail("all values are valid")
			}
			if fmt.Sprintf("%q", vs) != given {
				fail("the values have changed to %q", vs)
			}
			if d := urlIs(u, n.Cfg.Secure, host, segs, urlSlash(n)); d != "" {
				fail("%s", d)
			}
			c.Count("URLs")
			// The URL as text.
			u2, err := url.Parse(u.String())
			spoilURL(u)
			if err != nil {
				fail("it can't be parsed: %v", err)
			}
			rq := &Req{Method: "GET", TLS: n.Cfg.Secure, Host: u2.Host,
				URI: u2.RequestURI(), WantNode: n.ID}
			if host == "" {
				rq.Host = pick(c.Rand, otherHosts)
			} else if c.P(0.2) {
				rq.Host = withPort(c.Rand, rq.Host)
			}
			for m := range n.Handlers {
				if rq.Method == "GET" || m < rq.Method {
					rq.Method = m
				}
			}
			p := predict(t, rq)
			ob := serve(b, b.Router, rq, all)
			if d := first(diffPanic(ob), diffHandlers(p, ob), diffStatus(p, ob, true)); d != "" {
				report(c, rq, p, ob, d)
			}
			switch {
			case p.Node() == n.ID && p.Kind() == dHandler:
				c.Count("URLs handled by the responder")
				ev := ob.handlers()[0]
				for _, name := range names {
					if ev.S == nil {
						continue
					}
					if ev.S.Vals[name] != vals[name] {
						report(c, rq, p, ob, fmt.Sprintf("the value %q is %q, the URL was made with %q",
							name, ev.S.Vals[name], vals[name]))
					}
				}
			case p.Node() == n.ID:
				c.Count("URLs of the responders without handlers")
			default:
				c.Count("URLs that another responder precedes at")
			}
			c.EvalHash(th ^ hash64(itoa(n.ID), given)*31)
			// Missing and invalid values.
			if len(names) == 0 {
				continue
			}
			name := pick(c.Rand, names)
			wrong := map[string]string{}
			for k, v := range vals {
				wrong[k] = v
			}
			var want error
			var pat *Pat
			for _, p := range n.Path() {
				if p.Tmpl != nil {
					for _, q := range p.Tmpl.Parts {
						if q.Name == name && q.Pat != nil {
							pat = q.Pat
						}
					}
				}
			}
			if pat == nil || c.P(0.4) {
				delete(wrong, name)
				want = nm.ErrMissingValue
			} else {
				wrong[name] = nearMiss(c.Rand, nil, vals[name])
				if !pat.wholeRe().MatchString(wrong[name]) {
					want = nm.ErrInvalidValue
				}
			}
			vs = shuffled(c, wrong, names)
			given = fmt.Sprintf("%q", vs)
			u, err = o.URL(vs)
			if want == nil && err != nil {
				fail("all values are valid")
			}
			if want != nil && (u != nil || !errors.Is(err, want)) {
				fail("the value %q is wrong, the error %v is expected", name, want)
			}
			spoilURL(u)
			c.Count("URLs with a changed or missing value")
			c.EvalHash(th ^ hash64(itoa(n.ID), given)*37)
		}
	}
}

// urlOfRequest checks that the values of a handled request reproduce its URL.
func urlOfRequest(c *Case, b *Built, rq *Req, p *Out, o *Obs) {
	if p.Kind() != dHandler || p.Node() < 0 {
		return
	}
	n := b.T.Nodes[p.Node()]
	for _, ev := range o.handlers() {
		if ev.S == nil || nodeOfLabel(ev.L) != n.ID {
			continue
		}
		var vs nm.HostPathValues
		names := n.pathNames()
		vals := map[string]string{}
		for _, name := range names {
			vals[name] = ev.S.Vals[name]
		}
		vs = shuffled(c, vals, names)
		u, err := b.Objs[n.ID].URL(vs)
		m := newModel(b.T, rq)
		var segs []string
		for _, q := range n.Path() {
			if q.Kind == kRes {
				segs = append(segs, m.dec[len(segs)])
			}
		}
		host := ""
		if n.Host() != nil {
			host = reqHost(rq, m.u)
		}
		d := ""
		if err != nil {
			d = err.Error()
		} else {
			d = urlIs(u, n.Cfg.Secure, host, segs, urlSlash(n))
		}
		if d != "" {
			report(c, rq, p, o, fmt.Sprintf("#%d.URL(%q) returns %v: %s", n.ID, vs, u, d))
		}
		c.Count("URLs of handled requests")
	}
}

// ---------------------------------------------------------------------------

// census lists all the responders that can be found from the tops.
func (b *Built) census() map[Rsp]int {
	m := map[Rsp]int{}
	var walk func(o Rsp)
	walk = func(o Rsp) {
		m[o]++
		for _, k := range kidsOf(o) {
			walk(k)
		}
	}
	for _, h := range hostsOf(b.Router) {
		walk(h)
	}
	if b.T.Root != nil && b.Objs[b.T.Root.ID] != nil {
		walk(b.Objs[b.T.Root.ID])
	}
	return m
}

func sameCensus(a, b map[Rsp]int) string {
	for o := range b {
		if b[o] > 1 {
			return fmt.Sprintf("%s occurs %d times", o.Template(), b[o])
		}
		if a[o] == 0 {
			return fmt.Sprintf("%s has been created", o.Template())
		}
	}
	for o := range a {
		if b[o] == 0 {
			return fmt.Sprintf("%s has been lost", o.Template())
		}
	}
	return ""
}

// lookPath is relPath that may have names instead of templates.
func lookPath(c *Case, anc, n *Node, named bool) string {
	var ss []string
	for p := n; p != nil && p != anc && p.Kind == kRes; p = p.Parent {
		s := p.Tmpl.URLSrc()
		if en := p.Tmpl.EffName(); named && en != "" && c.P(0.6) {
			s = "$" + escName(en)
			if c.P(0.3) {
				s += ":"
			}
		}
		ss = append([]string{s}, ss...)
	}
	return strings.Join(ss, "/")
}

func slashOf(c *Case, n *Node) string {
	if n.Cfg.LenientTS && c.P(0.5) {
		return "/"
	}
	return tail(n)
}

// lookURL is fullURL that may have names instead of templates.
func lookURL(c *Case, n *Node, named bool) string {
	host := ""
	if h := n.Host(); h != nil {
		host = h.Tmpl.Src()
		if en := h.Tmpl.EffName(); named && en != "" && c.P(0.6) {
			host = "$" + escName(en)
			if c.P(0.3) {
				host += ":"
			}
		}
		if n.Kind == kHost {
			return scheme(n) + host + slashOf(c, n)
		}
		return scheme(n) + host + "/" + lookPath(c, nil, n, named) + slashOf(c, n)
	}
	s := "/"
	if n.Cfg.Secure || c.P(0.1) {
		s = scheme(n) + "/"
	}
	if n.Kind == kRoot {
		return s
	}
	return s + lookPath(c, nil, n, named) + slashOf(c, n)
}

func lookRel(c *Case, anc, n *Node, named bool) string {
	p := lookPath(c, anc, n, named) + slashOf(c, n)
	switch {
	case n.Cfg.Secure:
		return "https:///" + p
	case c.P(0.15):
		return "http:///" + p
	case c.P(0.5) || strings.HasPrefix(p, "http"):
		return "/" + p
	}
	return p
}

// isNil tells whether the object is a nil pointer.
func isNil(o Rsp) bool { return o == nil || reflect.ValueOf(o).IsNil() }

// lookup asks for the node in one of the ways.
func lookup(c *Case, b *Built, n *Node) (o Rsp, how string) {
	var ancs []*Node
	for p := n.Parent; p != nil; p = p.Parent {
		ancs = append(ancs, p)
	}
	create := c.P(0.4)
	cfg := create && c.P(0.4)
	named := !create && c.P(0.6)
	if n.Kind == kHost {
		u := lookURL(c, n, named)
		switch {
		case cfg:
			how = fmt.Sprintf("ro.HostUsingConfig(%q, %v)", u, n.Cfg)
			o = b.Router.HostUsingConfig(u, b.nmCfgAt(n))
		case create:
			how = fmt.Sprintf("ro.Host(%q)", u)
			o = b.Router.Host(u)
		case c.P(0.2) && n.Tmpl.EffName() != "":
			how = fmt.Sprintf("ro.HostNamed(%q)", n.Tmpl.EffName())
			o = b.Router.HostNamed(n.Tmpl.EffName())
		default:
			how = fmt.Sprintf("ro.RegisteredHost(%q)", u)
			o = b.Router.RegisteredHost(u)
		}
		return
	}
	if len(ancs) > 0 && c.P(0.65) {
		a := pick(c.Rand, ancs)
		ao := b.Objs[a.ID]
		u := lookRel(c, a, n, named)
		switch {
		case cfg:
			how = fmt.Sprintf("#%d.ResourceUsingConfig(%q, %v)", a.ID, u, n.Cfg)
			o = ao.ResourceUsingConfig(u, b.nmCfgAt(n))
		case create:
			how = fmt.Sprintf("#%d.Resource(%q)", a.ID, u)
			o = ao.Resource(u)
		case a == n.Parent && n.Tmpl.EffName() != "" && c.P(0.5):
			how = fmt.Sprintf("#%d.ChildResourceNamed(%q)", a.ID, n.Tmpl.EffName())
			o = ao.ChildResourceNamed(n.Tmpl.EffName())
		default:
			how = fmt.Sprintf("#%d.RegisteredResource(%q)", a.ID, u)
			o = ao.RegisteredResource(u)
		}
		return
	}
	u := lookURL(c, n, named)
	switch {
	case cfg:
		how = fmt.Sprintf("ro.ResourceUsingConfig(%q, %v)", u, n.Cfg)
		o = b.Router.ResourceUsingConfig(u, b.nmCfgAt(n))
	case create:
		how = fmt.Sprintf("ro.Resource(%q)", u)
		o = b.Router.Resource(u)
	default:
		how = fmt.Sprintf("ro.RegisteredResource(%q)", u)
		o = b.Router.RegisteredResource(u)
	}
	return
}

// relations checks the parents, the children and the tops of the tree's nodes.
func relations(c *Case, b *Built, at string) {
	t := b.T
	fail := func(format string, args ...any) {
		c.Fail("%s: %s", at, fmt.Sprintf(format, args...))
	}
	hs := hostsOf(b.Router)
	if len(hs) != len(t.Hosts) || b.Router.HasAnyHost() != (len(t.Hosts) > 0) {
		fail("the router has %d hosts (HasAnyHost %v), expected %d", len(hs),
			b.Router.HasAnyHost(), len(t.Hosts))
	}
	var pats []int
	for _, h := range hs {
		id := b.idOfHost(h)
		if id < 0 {
			fail("the router has an unknown host %s", h.Template())
		}
		if !t.Nodes[id].Tmpl.IsStatic() {
			pats = append(pats, id)
		}
		if !b.Router.HasHost(h) {
			fail("the router doesn't have its host #%d", id)
		}
	}
	var wantPats []int
	for _, h := range t.Hosts {
		if !h.Tmpl.IsStatic() {
			wantPats = append(wantPats, h.ID)
		}
	}
	if !b.unordered && !reflect.DeepEqual(pats, wantPats) {
		fail("the pattern hosts are %v, expected %v", pats, wantPats)
	}
	for _, h := range t.Hosts {
		// An unregistered host with the same template isn't the router's.
		if c.P(0.5) {
			continue
		}
		if x := nm.NewDormantHost(hostURL(h)); b.Router.HasHost(x) {
			fail("the router has an unregistered host %s", x.Template())
		}
	}
	for _, n := range t.Nodes {
		o := b.Objs[n.ID]
		if o.Router() != b.Router {
			fail("#%d has another router: %v", n.ID, o.Router())
		}
		if n.Tmpl != nil {
			if o.Name() != n.Tmpl.EffName() {
				fail("#%d has the name %q, expected %q", n.ID, o.Name(), n.Tmpl.EffName())
			}
			if tm, err := nm.TryToParse(n.Tmpl.Src()); err != nil ||
				o.Template().SimilarityWith(tm) != nm.TheSame {
				fail("#%d has the template %s", n.ID, o.Template())
			}
		}
		if r, ok := o.(*nm.Resource); ok {
			var host *nm.Host
			if h := n.Host(); h != nil {
				host = b.Objs[h.ID].(*nm.Host)
			}
			if r.Host() != host {
				fail("#%d has another host: %v", n.ID, r.Host())
			}
			var parent *nm.Resource
			if n.Parent != nil && n.Parent.Kind != kHost {
				parent = b.Objs[n.Parent.ID].(*nm.Resource)
			}
			if r.Parent() != parent {
				fail("#%d has another parent: %v", n.ID, r.Parent())
			}
		}
		kids := kidsOf(o)
		if len(kids) != len(n.Kids) || o.HasAnyChildResources() != (len(n.Kids) > 0) {
			fail("#%d has %d children (HasAnyChildResources %v), expected %d", n.ID,
				len(kids), o.HasAnyChildResources(), len(n.Kids))
		}
		seen := map[int]bool{}
		var ps, wps []int
		for _, k := range kids {
			id := b.idOfRes(k)
			if id < 0 || seen[id] || t.Nodes[id].Parent != n {
				fail("#%d has an unexpected child %s (#%d)", n.ID, k.Template(), id)
			}
			seen[id] = true
			if tm := t.Nodes[id].Tmpl; !tm.IsStatic() && !tm.IsWild() {
				ps = append(ps, id)
			}
		}
		for _, k := range n.Kids {
			if !k.Tmpl.IsStatic() && !k.Tmpl.IsWild() {
				wps = append(wps, k.ID)
			}
		}
		if !b.unordered && !reflect.DeepEqual(ps, wps) {
			fail("#%d has the pattern children %v, expected %v", n.ID, ps, wps)
		}
		for i := 0; i < 4; i++ {
			m := pick(c.Rand, t.Nodes)
			if i == 0 && len(n.Kids) > 0 {
				m = pick(c.Rand, n.Kids)
			}
			if m.Kind == kRes {
				got := o.HasChildResource(b.Objs[m.ID].(*nm.Resource))
				if got != (m.Parent == n) {
					fail("#%d.HasChildResource(#%d) is %v", n.ID, m.ID, got)
				}
			}
		}
		if n.Kind == kRes {
			// An unregistered resource with the same template isn't a child.
			if x := nm.NewDormantResource(n.Tmpl.URLSrc()); n.Parent != nil &&
				b.Objs[n.Parent.ID].HasChildResource(x) {
				fail("#%d has an unregistered child %s", n.Parent.ID, x.Template())
			}
		}
	}
	c.CountN("nodes whose relations are checked", len(t.Nodes))
}

// nearName returns a text that occurs in the tree, but isn't the name of a child
// of the node.
func nearName(c *Case, t *Tree, n *Node) string {
	m := pick(c.Rand, t.Nodes)
	if len(n.Kids) > 0 && c.P(0.6) {
		m = pick(c.Rand, n.Kids)
	}
	if m.Tmpl == nil {
		return ""
	}
	names := append([]string{m.Tmpl.Name}, m.Tmpl.ValueNames()...)
	if m.Tmpl.IsStatic() {
		names = append(names, m.Tmpl.Parts[0].Static, m.Tmpl.Parts[0].Static)
	}
	name := pick(c.Rand, names)
	if strings.ContainsAny(name, "\\") {
		return ""
	}
	for _, k := range n.Kids {
		if k.Tmpl.EffName() == name {
			return ""
		}
	}
	for _, h := range t.Hosts {
		if h.Tmpl.EffName() == name {
			return ""
		}
	}
	return name
}

// absent asks for something that doesn't exist.
func absent(c *Case, b *Built) (o Rsp, how string) {
	n := pick(c.Rand, b.T.Nodes)
	no := b.Objs[n.ID]
	name := pick(c.Rand, []string{"absent", "nosuch", "$", "a:b", "Nосuch"})
	seg := pick(c.Rand, []string{"absent-1", "{absent1}x", "{absent1:q+}", "$absent",
		"$absent:", "x{absent1:\\d{9}}{absent2}", "absent\\{", "%61bsent"})
	if len(n.Kids) > 0 && c.P(0.3) {
		// Nearly an existing one.
		k := pick(c.Rand, n.Kids)
		if k.Tmpl.IsStatic() {
			seg = k.Tmpl.URLSrc() + "-absent"
		} else {
			seg = "absent-" + (&Tmpl{Parts: k.Tmpl.Parts}).URLSrc()
		}
	}
	if nm := nearName(c, b.T, n); nm != "" && c.P(0.4) {
		name = nm
		seg = "$" + strings.ReplaceAll(escName(nm), "/", "%2F")
		if c.P(0.2) && !strings.Contains(nm, ":") {
			seg += ":"
		}
	}
	more := ""
	if c.P(0.4) {
		more = "/" + pick(c.Rand, []string{"a", "{absent9}", "$absent3", "absent-2/b"})
	}
	if n.Kind == kHost && c.P(0.5) || c.P(0.1) {
		h := pick(c.Rand, []string{"absent.example", "{absent1:q+}.example", "$absent"})
		switch c.IntN(3) {
		case 0:
			how = fmt.Sprintf("ro.HostNamed(%q)", name)
			return b.Router.HostNamed(name), how
		case 1:
			how = fmt.Sprintf("ro.RegisteredHost(%q)", "http://"+h)
			return b.Router.RegisteredHost("http://" + h), how
		default:
			u := "http://" + h + "/" + seg + more
			how = fmt.Sprintf("ro.RegisteredResource(%q)", u)
			return b.Router.RegisteredResource(u), how
		}
	}
	switch c.IntN(3) {
	case 0:
		how = fmt.Sprintf("#%d.ChildResourceNamed(%q)", n.ID, name)
		return no.ChildResourceNamed(name), how
	case 1:
		u := seg + more
		if c.P(0.5) {
			u = "/" + u
		}
		how = fmt.Sprintf("#%d.RegisteredResource(%q)", n.ID, u)
		return no.RegisteredResource(u), how
	default:
		u := strings.TrimSuffix(lookURL(c, n, true), "/") + "/" + seg + more
		how = fmt.Sprintf("ro.RegisteredResource(%q)", u)
		return b.Router.RegisteredResource(u), how
	}
}

func lookupCase(c *Case) {
	p := baseProf()
	p.HandlerP = pick(c.Rand, []float64{0, 0.4, 0.8})
	p.Hosts = 4
	p.SecureP, p.TSlashP, p.LenientTSP = 0.2, 0.35, 0.15
	if c.P(0.2) {
		p.WideP = 0.6
	}
	t, b, desc := begin(c, p)
	th := hash64(desc)
	relations(c, b, "after building")
	before := b.census()
	if len(before) != len(t.Nodes) {
		c.Fail("%d responders can be found, expected %d", len(before), len(t.Nodes))
	}
	for i := 0; i < 12+len(t.Nodes); i++ {
		if c.P(0.3) {
			o, how := absent(c, b)
			if !isNil(o) {
				c.Fail("%s returns %s (#%d), expected nothing", how, o.Template(), b.idOf(o))
			}
			c.Count("lookups of absent responders")
			c.EvalHash(th ^ hash64(how)*31)
		} else {
			n := pick(c.Rand, t.Nodes)
			var o Rsp
			var how string
			if p := panics(func() { o, how = lookup(c, b, n) }); p != nil {
				c.Fail("the lookup of #%d panics: %v", n.ID, p)
			}
			if isNil(o) {
				c.Fail("%s returns nothing, expected #%d", how, n.ID)
			}
			if o != b.Objs[n.ID] {
				c.Fail("%s returns %s (#%d), expected #%d", how, o.Template(), b.idOf(o), n.ID)
			}
			c.Count("lookups")
			c.EvalHash(th ^ hash64(how)*31)
			if c.Index < 2 && i < 3 {
				c.Sample("%s is #%d", how, n.ID)
			}
		}
	}
	if d := sameCensus(before, b.census()); d != "" {
		c.Fail("after the lookups: %s", d)
	}
	relations(c, b, "after the lookups")
	// Something new is created once.
	for i := 0; i < 4; i++ {
		newOnce(c, b, th, i)
	}
	relations2(c, b)
}

func (b *Built) idOf(o Rsp) int {
	switch o := o.(type) {
	case *nm.Host:
		return b.idOfHost(o)
	case *nm.Resource:
		return b.idOfRes(o)
	}
	return -99
}

// relations2 checks that every found responder is the child of its parent.
func relations2(c *Case, b *Built) {
	var walk func(o Rsp)
	walk = func(o Rsp) {
		for _, k := range kidsOf(o) {
			if !o.HasChildResource(k) || k.Router() != b.Router {
				c.Fail("%s isn't the child of %s", k.Template(), o.Template())
			}
			if r, ok := o.(*nm.Resource); ok && k.Parent() != r {
				c.Fail("%s has another parent than %s", k.Template(), o.Template())
			}
			walk(k)
		}
	}
	for o := range b.census() {
		walk(o)
	}
}

// newOnce creates a resource below a node and asks for it in other ways.
func newOnce(c *Case, b *Built, th uint64, round int) {
	t := b.T
	n := pick(c.Rand, t.Nodes)
	if n.Kind == kRoot && n.Cfg.Secure {
		return
	}
	var path []string
	k := 1 + c.IntN(3)
	for i := 0; i < k; i++ {
		id := fmt.Sprintf("w%d-%d", round, i)
		path = append(path, pick(c.Rand, []string{
			id, "{" + id + ":qq" + id + "}", "$" + id + ":" + id, id + "{" + id + "v}",
			"$" + id + ":{" + id + "a:x" + id + "}{" + id + "b}",
		}))
	}
	secure, slash := c.P(0.2), c.P(0.3)
	end := ""
	if slash {
		end = "/"
	}
	ask := func(i int, create bool, any bool) (o Rsp, how string) {
		// A resource in the middle isn't configured, so that any URL is good.
		sc, e := secure, end
		if i < k-1 {
			sc, e = c.P(0.3), pick(c.Rand, []string{"", "/"})
			if !any {
				sc, e = false, ""
			}
		}
		rel := strings.Join(path[:i+1], "/") + e
		var a *Node
		for p := n; p != nil && (a == nil || c.P(0.5)); p = p.Parent {
			a = p
		}
		router := c.P(0.4)
		if a != n {
			rel = lookPath(c, a, n, !create) + "/" + rel
		}
		if router {
			s := "http://"
			if sc {
				s = "https://"
			}
			h := ""
			if n.Host() != nil {
				h = n.Host().Tmpl.Src()
			}
			full := relPath(nil, n)
			if full != "" {
				full += "/"
			}
			u := s + h + "/" + full + strings.Join(path[:i+1], "/") + e
			if create {
				how = fmt.Sprintf("ro.Resource(%q)", u)
				o = b.Router.Resource(u)
			} else {
				how = fmt.Sprintf("ro.RegisteredResource(%q)", u)
				o = b.Router.RegisteredResource(u)
			}
			return
		}
		if sc {
			rel = "https:///" + rel
		}
		if create {
			how = fmt.Sprintf("#%d.Resource(%q)", a.ID, rel)
			o = b.Objs[a.ID].Resource(rel)
		} else {
			how = fmt.Sprintf("#%d.RegisteredResource(%q)", a.ID, rel)
			o = b.Objs[a.ID].RegisteredResource(rel)
		}
		return
	}
	before := len(b.census())
	if o, how := ask(k-1, false, true); !isNil(o) {
		c.Fail("%s returns %s before it's created", how, o.Template())
	}
	if len(b.census()) != before {
		c.Fail("asking for an absent resource creates responders")
	}
	o, how := ask(k-1, true, true)
	c.Logf("%s", how)
	if isNil(o) {
		c.Fail("%s returns nothing", how)
	}
	if got := len(b.census()); got != before+k && !(b.T.Root == nil && n.Host() == nil) {
		c.Fail("%s creates %d responders, expected %d", how, got-before, k)
	}
	// The chain above it.
	chain := make([]Rsp, k)
	chain[k-1] = o
	for i := k - 2; i >= 0; i-- {
		chain[i] = chain[i+1].(*nm.Resource).Parent()
		if isNil(chain[i]) {
			c.Fail("%s returns a resource without the parent %s", how, path[i])
		}
	}
	if top := chain[0].(*nm.Resource); n.Kind != kHost && Rsp(top.Parent()) != b.Objs[n.ID] ||
		n.Kind == kHost && Rsp(top.Host()) != b.Objs[n.ID] {
		c.Fail("%s: %s isn't under #%d", how, path[0], n.ID)
	}
	set := make([]bool, k) // Configured by a request.
	for j := 0; j < 5; j++ {
		i := c.IntN(k)
		x, how2 := ask(i, c.P(0.5), !set[i] && false)
		set[i] = true
		if x != chain[i] {
			c.Fail("%s and then %s: another responder", how, how2)
		}
		c.Count("lookups of new responders")
		c.EvalHash(th ^ hash64(how, how2)*41)
	}
	if got := len(b.census()); got != before+k {
		c.Fail("asking for %s again creates responders", how)
	}
}

func init() {
	register("C20", "URLs of every responder of random trees made with generated "+
		"values, near-miss and missing values; each URL is served; and the URLs made "+
		"with the values of handled requests; non-trivial: every URL",
		func(run *Run) {
			run.Stage("url", scale(2500, 50000), urlCase)
			run.routed(&routed{name: "handled", quick: 1500, deep: 30000, reqs: 20, names: true,
				prof: func(c *Case, p *Prof) { *p = urlProf(c); p.SubtreeP = 0.3 },
				req:  func(c *Case, p *RProf) { p.EncP = 0.5; p.WantCan = true; p.MethodP = 0.05 },
				cmp: func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
					return diffHandlers(p, o)
				},
				sig:   func(t *Tree, rq *Req, p *Out) bool { return p.Kind() == dHandler },
				after: urlOfRequest,
			})
		}, "templates that split strings in one way", "values that make the empty "+
			"segment and the dot segments aren't used: no path leads there")
	register("C21", "lookups of every responder of random trees through the router and "+
		"all responders above, by templates and names, lookups of absent ones and of "+
		"ones that were created just before; non-trivial: every lookup",
		func(run *Run) {
			run.Stage("lookup", scale(3000, 60000), lookupCase)
		}, "Router's *At getters of responders that were never configured aren't used")
}
