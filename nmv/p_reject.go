package main

import (
	"fmt"
	"runtime"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// What runs if a rejected operation has added something.
const badLabel = "998/GET"

func badNode() *Node {
	return &Node{ID: 998, Kind: kRes, Handlers: map[string]string{"GET": badLabel}}
}

// creator is an operation that creates the responder of a URL template.
type creator struct {
	name string
	host bool // The router's method also accepts the template of a host.
	ro   func(ro *nm.Router, u string)
	rb   func(o Rsp, u string)
}

var creators = []creator{
	{"Resource", false,
		func(ro *nm.Router, u string) { ro.Resource(u).SetHandlerFor("GET", mkHandler(badLabel)) },
		func(o Rsp, u string) { o.Resource(u).SetHandlerFor("GET", mkHandler(badLabel)) }},
	{"ResourceUsingConfig", false,
		func(ro *nm.Router, u string) {
			ro.ResourceUsingConfig(u, nm.Config{SubtreeHandler: true}).
				SetHandlerFor("GET", mkHandler(badLabel))
		},
		func(o Rsp, u string) {
			o.ResourceUsingConfig(u, nm.Config{SubtreeHandler: true}).
				SetHandlerFor("GET", mkHandler(badLabel))
		}},
	{"SetSharedDataAt", true,
		func(ro *nm.Router, u string) { ro.SetSharedDataAt(u, "bad") },
		func(o Rsp, u string) { o.SetSharedDataAt(u, "bad") }},
	{"SetConfigurationAt", true,
		func(ro *nm.Router, u string) { ro.SetConfigurationAt(u, nm.Config{SubtreeHandler: true}) },
		func(o Rsp, u string) { o.SetConfigurationAt(u, nm.Config{SubtreeHandler: true}) }},
	{"SetImplementationAt", true,
		func(ro *nm.Router, u string) { ro.SetImplementationAt(u, mkImpl(badNode())) },
		func(o Rsp, u string) { o.SetImplementationAt(u, mkImpl(badNode())) }},
	{"Set*HandlerFor", true,
		func(ro *nm.Router, u string) { ro.SetURLHandlerFor("get, POST", u, mkHandler(badLabel)) },
		func(o Rsp, u string) { o.SetPathHandlerFor("get, POST", u, mkHandler(badLabel)) }},
	{"WrapRequestPasserAt", true,
		func(ro *nm.Router, u string) { ro.WrapRequestPasserAt(u, mkMw('p', "998/p0")) },
		func(o Rsp, u string) { o.WrapRequestPasserAt(u, mkMw('p', "998/p0")) }},
	{"WrapRequestHandlerAt", true,
		func(ro *nm.Router, u string) { ro.WrapRequestHandlerAt(u, mkMw('q', "998/q0")) },
		func(o Rsp, u string) { o.WrapRequestHandlerAt(u, mkMw('q', "998/q0")) }},
	{"SetPermanentRedirectCodeAt", true,
		func(ro *nm.Router, u string) { ro.SetPermanentRedirectCodeAt(u, 301) },
		func(o Rsp, u string) { o.SetPermanentRedirectCodeAt(u, 301) }},
	{"SetRedirectHandlerAt", true,
		func(ro *nm.Router, u string) { ro.SetRedirectHandlerAt(u, mkRedirH("998/r")) },
		func(o Rsp, u string) { o.SetRedirectHandlerAt(u, mkRedirH("998/r")) }},
	{"WrapRedirectHandlerAt", true,
		func(ro *nm.Router, u string) { ro.WrapRedirectHandlerAt(u, wrapRedirBad) },
		func(o Rsp, u string) { o.WrapRedirectHandlerAt(u, wrapRedirBad) }},
	{"RedirectRequestAt", true,
		func(ro *nm.Router, u string) { ro.RedirectRequestAt(u, "http://bad.example", 307) },
		func(o Rsp, u string) { o.RedirectRequestAt(u, "http://bad.example", 307) }},
	{"RedirectAnyRequestAt", true,
		func(ro *nm.Router, u string) { ro.RedirectAnyRequestAt(u, "http://bad.example", 307) },
		func(o Rsp, u string) { o.RedirectAnyRequestAt(u, "http://bad.example", 307) }},
}

func wrapRedirBad(nm.RedirectHandler) nm.RedirectHandler { return mkRedirH("998/w") }

// tmplText replaces the name and the value names.
func tmplText(t *Tmpl, name string, rename func(string) string) string {
	q := &Tmpl{Name: name, Parts: append([]Part{}, t.Parts...)}
	for i, p := range q.Parts {
		if p.dyn() {
			q.Parts[i].Name = rename(p.Name)
		}
	}
	return q.URLSrc()
}

func same(s string) string { return s }

// illegal is an addition that must be rejected.
type illegal struct {
	kind  string
	mid   []string // New segments before the illegal one.
	seg   string
	below []string // New segments after it.
	// prepared is true if the illegal segment makes a valid resource.
	prepared bool
	atHost   bool // seg is the template of a host.
}

func (x *illegal) segs() []string {
	return append(append(append([]string{}, x.mid...), x.seg), x.below...)
}

type rejecter struct {
	c     *Case
	b     *Built
	t     *Tree
	fresh int
}

func (x *rejecter) word() string {
	x.fresh++
	return fmt.Sprintf("fr%d", x.fresh)
}

// good returns a segment that's allowed anywhere.
func (x *rejecter) good() string {
	w := x.word()
	switch x.c.IntN(4) {
	case 0:
		return "$" + w + ":" + w
	case 1:
		return "{" + w + ":q" + w + "}"
	case 2:
		return w + "{" + w + "a}-{" + w + "b:q}"
	}
	return w
}

// withName returns a segment with the name that isn't otherwise illegal.
func (x *rejecter) withName(name string) string {
	w, e := x.word(), escName(name)
	switch x.c.IntN(4) {
	case 0:
		return "$" + e + ":" + w
	case 1:
		return "$" + e + ":{" + w + ":q" + w + "}"
	case 2:
		return "$" + e + ":" + w + "{" + w + "}-{" + w + "b:q}"
	default:
		// The only value names the template.
		return w + "{" + e + "}"
	}
}

// withValue returns a segment with the value name.
func (x *rejecter) withValue(name string) string {
	w, e := x.word(), escName(name)
	if x.c.P(0.3) {
		// One of many values, at most one of which has no pattern.
		k := 2 + x.c.IntN(4)
		at, wild := x.c.IntN(k), x.c.IntN(k+3)
		s := ""
		for i := 0; i < k; i++ {
			vn := fmt.Sprintf("%s%d", w, i)
			if i == at {
				vn = e
			}
			if i != wild {
				vn += ":" + pick(x.c.Rand, []string{"q", "z+", "[xy]"})
			}
			s += "{" + vn + "}"
			if x.c.P(0.3) {
				s += pick(x.c.Rand, []string{"-", w, "%20"})
			}
		}
		if x.c.P(0.5) {
			s = "$" + w + ":" + s
		}
		return s
	}
	switch x.c.IntN(4) {
	case 0:
		return "$" + w + ":" + w + "{" + e + "}"
	case 1:
		return "$" + w + ":{" + e + ":q" + w + "}"
	case 2:
		return w + "{" + w + "a:q}-{" + e + "}"
	default:
		return w + "{" + e + "}-{" + w + "b:q}"
	}
}

var invalidTmpls = []string{
	"{", "}", "a{", "a}", "{}", "{:a}", "{a", "{a:", "{a:}", "{a:[}", "{a:b",
	"{a}{b}", "{a}-{a:x}-{b}", "{a:(}", "{a:x{2}", "a{b:x", "$nosuchname:", "${x}{y}",
	"x{ab:\\}", "{q-1:a{3,2}}",
}

// anchor chooses an illegal addition below the node.
func (x *rejecter) illegal(n *Node) *illegal {
	c := x.c
	ill := &illegal{}
	for k := c.IntN(3); k > 0; k-- {
		ill.mid = append(ill.mid, x.good())
	}
	if c.P(0.3) {
		ill.below = append(ill.below, x.good())
	}
	// The names and value names above, the near ones less often.
	var names, vals []string
	for _, p := range n.Path() {
		if p.Tmpl == nil {
			continue
		}
		if en := p.Tmpl.EffName(); en != "" {
			names = append(names, en)
		}
		vals = append(vals, p.Tmpl.ValueNames()...)
	}
	for try := 0; try < 20; try++ {
		switch c.IntN(8) {
		case 0:
			if len(names) == 0 {
				continue
			}
			ill.kind, ill.prepared = "the name of an ancestor", true
			ill.seg = x.withName(pick(c.Rand, names))
		case 1:
			if len(vals) == 0 {
				continue
			}
			ill.kind, ill.prepared = "the value name of an ancestor", true
			ill.seg = x.withValue(pick(c.Rand, vals))
		case 2:
			var ns []string
			for _, k := range n.Kids {
				if en := k.Tmpl.EffName(); en != "" {
					ns = append(ns, en)
				}
			}
			if len(ns) == 0 {
				continue
			}
			ill.kind, ill.prepared, ill.mid = "the name of a sibling", true, nil
			ill.seg = x.withName(pick(c.Rand, ns))
		case 3:
			if len(n.Kids) == 0 {
				continue
			}
			k := pick(c.Rand, n.Kids)
			ill.kind, ill.prepared, ill.mid = "another name than the same template", true, nil
			name := x.word()
			ren := same
			if k.Tmpl.Name != "" && c.P(0.3) &&
				(&Tmpl{Parts: k.Tmpl.Parts}).EffName() != k.Tmpl.Name {
				ill.kind, name = "no name for the template that has one", ""
				ill.seg = tmplText(k.Tmpl, name, ren)
				break
			}
			if len(k.Tmpl.ValueNames()) > 0 && c.P(0.5) {
				ill.kind = "other value names than the same template"
				one := pick(c.Rand, k.Tmpl.ValueNames())
				w := x.word()
				all := c.P(0.5)
				ren = func(s string) string {
					if s == one {
						return w
					}
					if all {
						return s + w
					}
					return s
				}
				if c.P(0.5) {
					name = k.Tmpl.Name // "" if it isn't explicit.
				}
			}
			ill.seg = tmplText(k.Tmpl, name, ren)
		case 4:
			ill.kind = "an invalid template"
			ill.seg = pick(c.Rand, invalidTmpls)
		case 5:
			ill.kind = "an empty segment"
			ill.seg = ""
			if len(ill.mid) == 0 {
				ill.mid = []string{x.good()}
			}
			ill.below = []string{x.good()}
		case 6:
			ill.kind = "the root"
			ill.seg = "%2F"
		case 7:
			// Two new segments with the same name or value name.
			w := x.word()
			ill.kind = "the same name twice"
			ill.mid = append(ill.mid, x.withName(w))
			ill.seg = x.withName(w)
			if c.P(0.5) {
				ill.kind = "the same value name twice"
				ill.mid[len(ill.mid)-1] = x.withValue(w)
				ill.seg = x.withValue(w)
			}
			if c.P(0.5) {
				ill.mid = append(ill.mid, x.good())
			}
		}
		return ill
	}
	ill.kind, ill.seg = "an invalid template", "{"
	return ill
}

// urls returns the templates for the router and for the ancestor.
func (x *rejecter) urls(n *Node, segs []string) (full string, anc *Node, rel string) {
	c := x.c
	tail := ""
	if c.P(0.2) {
		tail = "/"
	}
	sch := pick(c.Rand, []string{"http://", "http://", "https://"})
	p := strings.Join(segs, "/")
	pp := relPath(nil, n)
	if pp != "" {
		pp += "/"
	}
	host := ""
	if h := n.Host(); h != nil {
		host = h.Tmpl.Src()
	}
	full = sch + host + "/" + pp + p + tail
	if host == "" && c.P(0.6) {
		full = "/" + pp + p + tail
	}
	for q := n; q != nil && (anc == nil || c.P(0.5)); q = q.Parent {
		anc = q
	}
	rp := relPath(anc, n)
	if rp != "" {
		rp += "/"
	}
	rel = "/" + rp + p + tail
	if sch == "https://" {
		rel = "https://" + rel
	}
	return
}

// prepare makes a resource with a handler.
func (x *rejecter) prepare(seg string) *nm.Resource {
	r := nm.NewDormantResource("/" + seg)
	if x.c.P(0.7) {
		r.SetHandlerFor("GET", mkHandler(badLabel))
	}
	return r
}

// attempt does an illegal operation. It returns what it has done and how to
// reach what it would have added: the node above and the new segments.
func (x *rejecter) attempt() (how string, f func(), n *Node, segs []string) {
	c, b := x.c, x.b
	n = pick(c.Rand, x.t.Nodes)
	o := b.Objs[n.ID]
	ill := x.illegal(n)
	segs = ill.segs()
	full, anc, rel := x.urls(n, segs)
	ao := b.Objs[anc.ID]
	kind := fmt.Sprintf("below #%d: %s", n.ID, ill.kind)
	c.Count("rejected: " + ill.kind)
	if !ill.prepared || c.P(0.5) {
		cr := creators[c.IntN(len(creators))]
		if c.P(0.5) {
			return fmt.Sprintf("%s: ro.%s(%q)", kind, cr.name, full),
				func() { cr.ro(b.Router, full) }, n, segs
		}
		return fmt.Sprintf("%s: #%d.%s(%q)", kind, anc.ID, cr.name, rel),
			func() { cr.rb(ao, rel) }, n, segs
	}
	// A prepared resource is registered.
	fullPre, anc, relPre := x.urls(n, ill.mid)
	relPre = strings.TrimPrefix(relPre, "https://")
	ao = b.Objs[anc.ID]
	if len(ill.mid) == 0 {
		fullPre, relPre = strings.TrimSuffix(fullPre, "/"), strings.TrimSuffix(relPre, "/")
		if c.P(0.3) {
			anc, ao, relPre = n, o, ""
		}
	}
	at := len(ill.mid)
	r := x.prepare(ill.seg)
	for _, s := range ill.below {
		r.Resource("/"+s).SetHandlerFor("GET", mkHandler(badLabel))
	}
	how = fmt.Sprintf("%s: registering %q", kind, ill.seg)
	if ill.kind[:9] == "the name " && ill.kind != "the name of a sibling" ||
		ill.kind == "the value name of an ancestor" {
		// The conflict may be below the registered resource.
		for k := c.IntN(3); k > 0 && at > 0; k-- {
			at--
			p := x.prepare(ill.mid[at])
			p.RegisterResource(r)
			r = p
			how += " below " + ill.mid[at]
		}
		if at < len(ill.mid) {
			fullPre, anc, relPre = x.urls(n, ill.mid[:at])
			relPre = strings.TrimPrefix(relPre, "https://")
			ao = b.Objs[anc.ID]
			if at == 0 {
				fullPre, relPre = strings.TrimSuffix(fullPre, "/"), strings.TrimSuffix(relPre, "/")
			}
		}
	}
	switch w := c.IntN(3); {
	case w == 0 && at == 0:
		return fmt.Sprintf("%s by #%d.RegisterResource", how, n.ID),
			func() { o.RegisterResource(r) }, n, segs
	case w == 1:
		if strings.Trim(strings.TrimPrefix(strings.TrimPrefix(fullPre, "https:"), "http:"), "/") == "" {
			fullPre = pick(c.Rand, []string{"", "/"})
		}
		return fmt.Sprintf("%s by ro.RegisterResourceUnder(%q)", how, fullPre),
			func() { b.Router.RegisterResourceUnder(fullPre, r) }, n, segs
	default:
		return fmt.Sprintf("%s by #%d.RegisterResourceUnder(%q)", how, anc.ID, relPre),
			func() { ao.RegisterResourceUnder(relPre, r) }, n, segs
	}
}

// attemptHost does an illegal operation with a host.
func (x *rejecter) attemptHost() (how string, f func(), host string, segs []string) {
	c, b := x.c, x.b
	var names []string
	for _, h := range x.t.Hosts {
		if en := h.Tmpl.EffName(); en != "" {
			names = append(names, en)
		}
	}
	kind, dup := "", false
	w := x.word()
	switch k := c.IntN(4); {
	case k == 0 || len(x.t.Hosts) == 0:
		kind = "a wildcard host"
		host = pick(c.Rand, []string{"{" + w + "}", "$" + w + ":{" + w + "v}"})
	case k == 1 && len(names) > 0:
		kind, dup = "the name of another host", true
		host = strings.ReplaceAll(x.withName(pick(c.Rand, names)), "/", "-") + ".example"
	default:
		h := pick(c.Rand, x.t.Hosts)
		kind = "another name than the same host"
		ren, name := same, w
		if h.Tmpl.Name != "" && c.P(0.3) &&
			(&Tmpl{Parts: h.Tmpl.Parts}).EffName() != h.Tmpl.Name {
			kind, name = "no name for the host that has one", ""
		} else if vs := h.Tmpl.ValueNames(); len(vs) > 0 && c.P(0.5) {
			kind = "other value names than the same host"
			one := pick(c.Rand, vs)
			ren = func(s string) string {
				if s == one {
					return w
				}
				return s
			}
			if c.P(0.5) {
				name = h.Tmpl.Name
			}
		}
		host = tmplText(h.Tmpl, name, ren)
	}
	c.Count("rejected: " + kind)
	sch := pick(c.Rand, []string{"http://", "http://", "https://"})
	u := sch + host
	switch c.IntN(4) {
	case 0:
		ways := []string{"Host", "HostUsingConfig", "RegisterHost"}
		way := pick(c.Rand, ways)
		return fmt.Sprintf("%s: ro.%s(%q)", kind, way, u), func() {
			switch way {
			case "Host":
				b.Router.Host(u).SetHandlerFor("GET", mkHandler(badLabel))
			case "HostUsingConfig":
				b.Router.HostUsingConfig(u, nm.Config{SubtreeHandler: true}).
					SetHandlerFor("GET", mkHandler(badLabel))
			default:
				h := nm.NewHost(u, mkImpl(badNode()))
				if c.P(0.5) {
					h.Resource("x").SetHandlerFor("GET", mkHandler(badLabel))
				}
				b.Router.RegisterHost(h)
			}
		}, host, nil
	case 1:
		segs = []string{x.good()}
		r := x.prepare(segs[0])
		return fmt.Sprintf("%s: ro.RegisterResourceUnder(%q)", kind, u),
			func() { b.Router.RegisterResourceUnder(u, r) }, host, segs
	case 2:
		segs = []string{x.good()}
		u += "/" + segs[0]
		if c.P(0.4) {
			return fmt.Sprintf("%s: ro.RegisterResource(New(%q))", kind, u), func() {
				b.Router.RegisterResource(nm.NewResource(u, mkImpl(badNode())))
			}, host, segs
		}
		fallthrough
	default:
		cr := creators[c.IntN(len(creators))]
		if len(segs) == 0 && !cr.host {
			segs = []string{x.good()}
			u += "/" + segs[0]
		}
		if dup && len(segs) > 0 &&
			(cr.name == "ResourceUsingConfig" || cr.name == "SetConfigurationAt") {
			// See the known findings.
			cr = creators[0]
		}
		return fmt.Sprintf("%s: ro.%s(%q)", kind, cr.name, u),
			func() { cr.ro(b.Router, u) }, host, segs
	}
}

// attemptOther does an illegal operation of another kind.
func (x *rejecter) attemptOther() (how string, f func()) {
	c, b := x.c, x.b
	n := pick(c.Rand, x.t.Nodes)
	o := b.Objs[n.ID]
	host := ""
	if h := n.Host(); h != nil {
		host = "http://" + h.Tmpl.Src()
	}
	root := func() *nm.Resource {
		r := nm.NewDormantResource("/")
		r.SetHandlerFor("GET", mkHandler(badLabel))
		r.Resource("bad").SetHandlerFor("GET", mkHandler(badLabel))
		return r
	}
	switch c.IntN(7) {
	case 5:
		return x.attemptURL(n, o, host)
	case 6:
		return x.attemptNil(n, o)
	case 0:
		r := root()
		pre := pick(c.Rand, []string{"", "/", x.word(), "/" + x.word()})
		c.Count("rejected: the root under a responder")
		if c.P(0.3) {
			return fmt.Sprintf("#%d.RegisterResource(root)", n.ID),
				func() { o.RegisterResource(r) }
		}
		return fmt.Sprintf("#%d.RegisterResourceUnder(%q, root)", n.ID, pre),
			func() { o.RegisterResourceUnder(pre, r) }
	case 1:
		r := root()
		u := host + "/" + relPath(nil, n)
		if host == "" && relPath(nil, n) == "" {
			u = "/" + x.word()
		}
		c.Count("rejected: the root under a responder")
		return fmt.Sprintf("ro.RegisterResourceUnder(%q, root)", u),
			func() { b.Router.RegisterResourceUnder(u, r) }
	case 2:
		if n.Kind == kHost {
			u := host + "/"
			c.Count("rejected: the root of a host")
			if c.P(0.5) {
				return fmt.Sprintf("ro.Resource(%q)", u), func() { b.Router.Resource(u) }
			}
			return fmt.Sprintf("ro.ResourceUsingConfig(%q)", u),
				func() { b.Router.ResourceUsingConfig(u, nm.Config{}) }
		}
		c.Count("rejected: the root under a responder")
		return fmt.Sprintf("#%d.Resource(\"/\")", n.ID), func() { o.Resource("/") }
	case 3:
		// What is registered can't be registered again.
		k := pick(c.Rand, x.t.Nodes)
		c.Count("rejected: a registered responder")
		if k.Kind == kHost {
			return fmt.Sprintf("ro.RegisterHost(#%d)", k.ID),
				func() { b.Router.RegisterHost(b.Objs[k.ID].(*nm.Host)) }
		}
		r := b.Objs[k.ID].(*nm.Resource)
		switch c.IntN(4) {
		case 0:
			return fmt.Sprintf("ro.RegisterResource(#%d)", k.ID),
				func() { b.Router.RegisterResource(r) }
		case 1:
			return fmt.Sprintf("ro.RegisterResourceUnder(\"http://re.example/x\", #%d)", k.ID),
				func() { b.Router.RegisterResourceUnder("http://re.example/x", r) }
		case 2:
			return fmt.Sprintf("#%d.RegisterResource(#%d)", n.ID, k.ID),
				func() { o.RegisterResource(r) }
		default:
			return fmt.Sprintf("#%d.RegisterResourceUnder(\"re\", #%d)", n.ID, k.ID),
				func() { o.RegisterResourceUnder("re", r) }
		}
	default:
		// Both have handlers.
		var ks []*Node
		for _, k := range x.t.Nodes {
			if k.CanHandle() {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return "ro.RegisterHost(nil)", func() { b.Router.RegisterHost(nil) }
		}
		k := pick(c.Rand, ks)
		c.Count("rejected: handlers of the same template")
		switch k.Kind {
		case kHost:
			h := nm.NewDormantHost(hostURL(k))
			h.SetHandlerFor("GET", mkHandler(badLabel))
			h.Resource("bad").SetHandlerFor("GET", mkHandler(badLabel))
			return fmt.Sprintf("ro.RegisterHost(another #%d)", k.ID),
				func() { b.Router.RegisterHost(h) }
		case kRoot:
			r := root()
			return "ro.RegisterResource(another root)", func() { b.Router.RegisterResource(r) }
		}
		// The conflict is at the registered resource or below it.
		u := k.Tmpl.URLSrc() + tail(k)
		if k.Cfg.Secure {
			u = "https:///" + u
		} else {
			u = "/" + u
		}
		r := nm.NewDormantResource(u)
		r.SetHandlerFor("GET", mkHandler(badLabel))
		r.Resource("bad").SetHandlerFor("GET", mkHandler(badLabel))
		how = fmt.Sprintf("another #%d", k.ID)
		at := k.Parent
		for at.Kind == kRes && c.P(0.6) {
			p := nm.NewDormantResource("/" + at.Tmpl.URLSrc())
			for i := c.IntN(4); i > 0; i-- {
				p.Resource("/"+x.good()).SetHandlerFor("GET", mkHandler(badLabel))
			}
			if c.P(0.5) {
				// It has what goes to the existing one.
				for _, s := range []string{"bad", "bad2", "bad3"} {
					p.Resource(s).SetHandlerFor("GET", mkHandler(badLabel))
				}
			}
			p.RegisterResource(r)
			r = p
			how += fmt.Sprintf(" below a dormant #%d", at.ID)
			at = at.Parent
		}
		return how + fmt.Sprintf(" registered by #%d", at.ID),
			func() { b.Objs[at.ID].RegisterResource(r) }
	}
}

// attemptURL uses a URL that can't be of what it's used for.
func (x *rejecter) attemptURL(n *Node, o Rsp, host string) (how string, f func()) {
	c, b := x.c, x.b
	cr := creators[c.IntN(len(creators))]
	if host == "" || c.P(0.3) {
		host = "http://" + x.word() + ".example"
		if c.P(0.3) {
			host = "https" + host[4:]
		}
	}
	path := "/" + x.good()
	switch c.IntN(4) {
	case 0:
		// The router's resource needs a path.
		c.Count("rejected: a URL without a path")
		u := pick(c.Rand, []string{"", "http://", "https://", host, host, host + "/"})
		if u != "" && u[len(u)-1] != '/' || u == host+"/" {
			cr = creators[c.IntN(2)]
		}
		return fmt.Sprintf("ro.%s(%q)", cr.name, u), func() { cr.ro(b.Router, u) }
	case 1:
		c.Count("rejected: a host with a path")
		u := pick(c.Rand, []string{"", "/", path, "http://", "https:///", "http://" + path,
			host + path, host + path + "/", host + "//", host[7:] + path})
		if c.P(0.5) {
			return fmt.Sprintf("ro.Host(%q)", u), func() {
				b.Router.Host(u).SetHandlerFor("GET", mkHandler(badLabel))
			}
		}
		return fmt.Sprintf("ro.HostUsingConfig(%q)", u), func() {
			b.Router.HostUsingConfig(u, nm.Config{}).SetHandlerFor("GET", mkHandler(badLabel))
		}
	case 2:
		c.Count("rejected: no path segment below a responder")
		u := pick(c.Rand, []string{"", "/", "//", "http://", "https://", "http:///", "/" + path,
			path + path + "/" + path})
		return fmt.Sprintf("#%d.%s(%q)", n.ID, cr.name, u), func() { cr.rb(o, u) }
	default:
		c.Count("rejected: a host below a responder")
		u := host + pick(c.Rand, []string{"", "/", path})
		return fmt.Sprintf("#%d.%s(%q)", n.ID, cr.name, u), func() { cr.rb(o, u) }
	}
}

// attemptNil passes nothing.
func (x *rejecter) attemptNil(n *Node, o Rsp) (how string, f func()) {
	ro, w := x.b.Router, x.word()
	x.c.Count("rejected: nil")
	type op struct {
		how string
		f   func()
	}
	k := pick(x.c.Rand, []op{
		{"ro.RegisterHost(nil)", func() { ro.RegisterHost(nil) }},
		{"ro.RegisterResource(nil)", func() { ro.RegisterResource(nil) }},
		{"ro.RegisterResourceUnder(nil)", func() { ro.RegisterResourceUnder("/"+w, nil) }},
		{"RegisterResource(nil)", func() { o.RegisterResource(nil) }},
		{"RegisterResourceUnder(nil)", func() { o.RegisterResourceUnder("/"+w, nil) }},
		{"SetImplementation(nil)", func() { o.SetImplementation(nil) }},
		{"SetHandlerFor(nil)", func() { o.SetHandlerFor("GET", nil) }},
		{"SetRedirectHandler(nil)", func() { o.SetRedirectHandler(nil) }},
		{"SetHandlerFor(no method)", func() {
			o.SetHandlerFor(pick(x.c.Rand, []string{"", " ", ",", " , "}), mkHandler(badLabel))
		}},
	})
	return fmt.Sprintf("#%d %s", n.ID, k.how), k.f
}

func rejectCase(c *Case) {
	p := baseProf()
	p.MaxNodes = 16
	p.Hosts = 3
	p.HandlerP = pick(c.Rand, []float64{0.4, 0.7, 0.95})
	p.DeepP = 0.25
	p.SecureP, p.TSlashP = 0.05, 0.1
	t, b, desc := begin(c, p)
	th := hash64(desc)
	x := &rejecter{c: c, b: b, t: t}
	ask := func(rq *Req, how string) {
		out := predict(t, rq)
		o := serve(b, b.Router, rq, t.AllNames())
		d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, true),
			diffSnaps(out, o, "h", snVals|snResp))
		if d != "" {
			report(c, rq, out, o, fmt.Sprintf("after %s: %s", how, d))
		}
		c.Count("answer: " + out.Kind())
	}
	how := ""
	for i := 0; i < 14; i++ {
		var f func()
		var n *Node
		var segs []string
		host := ""
		switch k := c.IntN(10); {
		case k < 6:
			how, f, n, segs = x.attempt()
		case k < 8:
			how, f, host, segs = x.attemptHost()
		default:
			how, f = x.attemptOther()
		}
		c.Logf("%s", how)
		err := panics(f)
		if err == nil {
			c.Fail("%s is accepted", how)
		}
		if _, ok := err.(runtime.Error); ok || strings.Contains(fmt.Sprint(err), "runtime error") {
			c.Fail("%s: %v", how, err)
		}
		c.Logf("  %v", err)
		c.EvalHash(th ^ hash64(how)*31)
		if c.Index < 2 && i < 3 {
			c.Sample("%s => %v", how, err)
		}
		// What would have been added must not be reachable.
		if n != nil || host != "" {
			if rq := x.reach(n, host, segs); rq != nil {
				ask(rq, how)
			}
		}
		for j := 0; j < 2; j++ {
			ask(genReq(c.Rand, t, baseReq()), how)
		}
	}
	for j := 0; j < 12; j++ {
		ask(genReq(c.Rand, t, baseReq()), how)
	}
	for _, n := range t.Nodes {
		o := b.Objs[n.ID]
		for _, k := range kidsOf(o) {
			x.handled(o, k)
		}
	}
	for _, h := range hostsOf(b.Router) {
		if b.idOfHost(h) < 0 && len(methodsOf(h)) > 0 {
			c.Fail("after the rejections the router has the host %s", h.Template())
		}
	}
	c.Count("trees unchanged by rejected operations")
}

// handled looks for an unknown resource with handlers.
func (x *rejecter) handled(o Rsp, k *nm.Resource) {
	if x.b.idOfRes(k) >= 0 {
		return
	}
	if len(methodsOf(k)) > 0 {
		x.c.Fail("after the rejections %s has the child %s", o.Template(), k.Template())
	}
	for _, kk := range kidsOf(k) {
		x.handled(k, kk)
	}
}

// reach makes a request for the responder that would have been added.
func (x *rejecter) reach(n *Node, host string, segs []string) *Req {
	c := x.c
	var path []string
	if n != nil {
		for _, a := range n.Path() {
			switch a.Kind {
			case kHost:
				host = hostValue(c.Rand, a.Tmpl)
			case kRes:
				path = append(path, encSeg(c.Rand, segValue(c.Rand, a.Tmpl), false))
			}
		}
		if host == "" {
			host = "unknown.test"
		}
	} else {
		tm, err := nm.TryToParse(host)
		if err != nil {
			return nil
		}
		if host = someMatch(c, tm); host == "" || !hostOK(host) {
			return nil
		}
	}
	for _, s := range segs {
		if s == "" {
			s = "x"
		}
		tm, err := nm.TryToParse(decSlash.Replace(s))
		if err != nil {
			path = append(path, "x")
			continue
		}
		v := someMatch(c, tm)
		if v == "" {
			return nil
		}
		path = append(path, encSeg(c.Rand, v, false))
	}
	rq := &Req{Method: "GET", Host: host, URI: "/" + strings.Join(path, "/"), TLS: c.P(0.2)}
	x.c.Count("requests for what has been rejected")
	return rq
}

// someMatch guesses a text that the template matches.
func someMatch(c *Case, tm *nm.Template) string {
	for _, v := range []string{"q", "qfr1", "12", "123", "abc", "red", "on", "en", "v1"} {
		vs := nm.TemplateValues{}
		for _, n := range tm.ValueNames() {
			vs.Set(n, v)
		}
		if s, err := tm.TryToApply(vs, false); err == nil {
			return s
		}
	}
	return ""
}

// knownDup reproduces the known finding.
func knownDup(run *Run) {
	run.StageSeq("known findings", 1, func(c *Case) {
		for _, way := range []string{"ResourceUsingConfig", "SetConfigurationAt"} {
			ro := nm.NewRouter()
			ro.Host("http://$h:a.example").SetHandlerFor("GET", mkHandler("1/GET"))
			err := panics(func() {
				if way == "ResourceUsingConfig" {
					ro.ResourceUsingConfig("http://$h:b.example/x", nm.Config{})
				} else {
					ro.SetConfigurationAt("http://$h:b.example/x", nm.Config{})
				}
			})
			if err == nil {
				run.Known("router-"+strings.ToLower(way)+"-host-name",
					"Router."+way+" creates a second host with the name of another host")
			}
			c.Eval(way)
		}
	})
}

func init() {
	register("C23", "illegal creations and registrations of many kinds by every operation that "+
		"can create or register, at random places and depths of random trees; each must "+
		"panic, and afterwards requests for what would have been added and for the rest are "+
		"compared with the unchanged reference; non-trivial: every rejected operation",
		func(run *Run) {
			run.Stage("reject", scale(8000, 150000), rejectCase)
			run.Stage("constructors", scale(20000, 400000), ctorCase)
			knownDup(run)
		}, "a rejected operation may leave responders without handlers behind")
}
