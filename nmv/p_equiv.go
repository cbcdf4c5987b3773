package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// flat builds the tree node by node in a random order, in which a responder
// may come before those above it, through the operations that create what is
// missing on the way.
type flat struct {
	*Built
	exists map[*Node]bool
}

func (b *Built) buildFlat() {
	t, r := b.T, b.r
	f := &flat{b, map[*Node]bool{}}
	var pend []*Node
	for _, n := range t.Nodes {
		if f.empty(n) && b.P(0.5) {
			b.filled[n.ID] = true
			continue // It comes into being with those below it.
		}
		pend = append(pend, n)
	}
	late := len(t.Passers) > 0 && b.P(0.5)
	if len(t.Passers) > 0 && !late {
		b.routerMws()
	}
	for len(pend) > 0 {
		var ok []int
		for i, n := range pend {
			if f.allowed(n) {
				ok = append(ok, i)
			}
		}
		if len(ok) == 0 {
			panic("nothing can be built")
		}
		i := pick(r, ok)
		n := pend[i]
		pend = append(pend[:i:i], pend[i+1:]...)
		f.make(n)
		f.connect(n)
		b.fillSome(n)
		if len(b.deferred) > 0 && b.P(0.3) {
			k := r.IntN(len(b.deferred))
			d := b.deferred[k]
			b.deferred = append(b.deferred[:k:k], b.deferred[k+1:]...)
			d()
		}
		for b.P(0.2) {
			f.again()
		}
	}
	b.flush()
	if late {
		b.routerMws()
	}
}

// empty tells whether the resource has nothing of its own.
func (f *flat) empty(n *Node) bool {
	return n.Kind == kRes && len(n.Kids) > 0 && n.Cfg == Cfg{} && len(n.Handlers) == 0 &&
		n.NotAllow == "" && !n.ByImpl && len(n.Passers) == 0 && len(n.ReqMws) == 0 &&
		n.Redir == nil && n.PermCode == 0 && n.RedirH == "" && n.Shared == nil
}

func isPat(n *Node) bool { return n.Tmpl != nil && !n.Tmpl.IsStatic() && !n.Tmpl.IsWild() }

// allowed tells whether creating the node keeps the order of the patterns.
func (f *flat) allowed(n *Node) bool {
	for _, p := range n.Path() {
		if f.exists[p] || !isPat(p) {
			continue
		}
		sibs := f.T.Hosts
		if p.Parent != nil {
			sibs = p.Parent.Kids
		}
		for _, s := range sibs {
			if s == p {
				break
			}
			if isPat(s) && !f.exists[s] {
				return false
			}
		}
	}
	return true
}

// connect finds the objects of the responders above the node.
func (f *flat) connect(n *Node) {
	f.exists[n] = true
	f.att[n.ID] = true
	for p := n; p.Parent != nil; p = p.Parent {
		o := f.Objs[p.ID].(*nm.Resource)
		if p.Parent.Kind == kHost {
			h := o.Host()
			if h == nil {
				panic(fmt.Sprintf("#%d has no host", p.ID))
			}
			f.set(p.Parent, h)
		} else {
			q := o.Parent()
			if q == nil {
				panic(fmt.Sprintf("#%d has no parent", p.ID))
			}
			f.set(p.Parent, q)
		}
		f.exists[p.Parent] = true
		f.att[p.Parent.ID] = true
	}
}

func (f *flat) find(n *Node, u string) Rsp {
	if n.Kind == kHost {
		return f.Router.RegisteredHost(u)
	}
	return f.Router.RegisteredResource(u)
}

// anc returns an existing responder above the node, or nil.
func (f *flat) anc(n *Node) *Node {
	var as []*Node
	for p := n.Parent; p != nil; p = p.Parent {
		if f.exists[p] {
			as = append(as, p)
		}
	}
	if len(as) == 0 {
		return nil
	}
	return pick(f.r, as)
}

func (f *flat) got(n *Node, o Rsp) {
	if isNil(o) {
		panic(fmt.Sprintf("node #%d: the created responder isn't found", n.ID))
	}
	f.set(n, o)
}

// make creates the responder, or configures it when it exists because of
// those below it.
func (f *flat) make(n *Node) {
	b := f.Built
	u := b.fullURL(n)
	cfg := !n.Cfg.plain()
	switch w := b.r.IntN(9); {
	case w == 0 && cfg:
		b.op("#%d: ro.UsingConfig(%q, %v)", n.ID, u, n.Cfg)
		if n.Kind == kHost {
			f.got(n, b.Router.HostUsingConfig(u, b.nmCfgAt(n)))
		} else {
			f.got(n, b.Router.ResourceUsingConfig(u, b.nmCfgAt(n)))
		}
		return
	case w == 1 && cfg && !f.exists[n]:
		b.op("#%d: ro.SetConfigurationAt(%q, %v)", n.ID, u, n.Cfg)
		b.Router.SetConfigurationAt(u, b.nmCfgAt(n))
		f.got(n, f.find(n, u))
		return
	case w < 5 && f.anc(n) != nil:
		a := f.anc(n)
		o := b.Objs[a.ID]
		ru := b.relURL(a, n)
		switch w := b.r.IntN(5); {
		case w == 0 && cfg:
			b.op("#%d: #%d.ResourceUsingConfig(%q, %v)", n.ID, a.ID, ru, n.Cfg)
			f.got(n, o.ResourceUsingConfig(ru, b.nmCfgAt(n)))
			return
		case w == 1 && cfg:
			b.op("#%d: #%d.SetConfigurationAt(%q, %v)", n.ID, a.ID, ru, n.Cfg)
			o.SetConfigurationAt(ru, b.nmCfgAt(n))
			f.got(n, o.RegisteredResource(ru))
			return
		case w == 2 && !f.exists[n]:
			f.prepare(n, n.Tmpl.URLSrc())
			p := relPath(a, n.Parent)
			if a == n.Parent && b.r.IntN(2) == 0 {
				b.op("#%d.RegisterResource(#%d)", a.ID, n.ID)
				o.RegisterResource(b.Objs[n.ID].(*nm.Resource))
				return
			}
			if p != "" && (b.r.IntN(2) == 0 || strings.HasPrefix(p, "http")) {
				p = "/" + p
			}
			b.op("#%d.RegisterResourceUnder(%q, #%d)", a.ID, p, n.ID)
			o.RegisterResourceUnder(p, b.Objs[n.ID].(*nm.Resource))
			return
		case w == 3 && !n.ByImpl && len(n.Handlers) > 0:
			m := pick(b.r, keysOf(n.Handlers))
			b.op("#%d: #%d.SetPathHandlerFor(%q, %q)", n.ID, a.ID, m, ru)
			o.SetPathHandlerFor(m, ru, mkHandler(n.Handlers[m]))
			f.got(n, o.RegisteredResource(ru))
		default:
			b.op("#%d: #%d.Resource(%q)", n.ID, a.ID, ru)
			f.got(n, o.Resource(ru))
		}
	case w == 5 && !f.exists[n]:
		// Prepared with the whole template.
		f.prepare(n, u)
		b.op("ro.Register(#%d)", n.ID)
		if h, ok := b.Objs[n.ID].(*nm.Host); ok {
			b.Router.RegisterHost(h)
		} else {
			b.Router.RegisterResource(b.Objs[n.ID].(*nm.Resource))
		}
		return
	case w == 6 && !f.exists[n] && n.Kind == kRes:
		f.prepare(n, n.Tmpl.URLSrc())
		p := relPath(nil, n.Parent)
		ru := "/" + p
		if h := n.Host(); h != nil {
			ru = "http://" + h.Tmpl.Src() + ru
			if n.Cfg.Secure && b.r.IntN(2) == 0 {
				ru = "https" + ru[4:] // It makes the resource secure.
			}
		}
		b.op("ro.RegisterResourceUnder(%q, #%d)", ru, n.ID)
		b.Router.RegisterResourceUnder(ru, b.Objs[n.ID].(*nm.Resource))
		return
	case w == 7 && !n.ByImpl && len(n.Handlers) > 0:
		m := pick(b.r, keysOf(n.Handlers))
		b.op("#%d: ro.SetURLHandlerFor(%q, %q)", n.ID, m, u)
		b.Router.SetURLHandlerFor(m, u, mkHandler(n.Handlers[m]))
		f.got(n, f.find(n, u))
	default:
		b.op("#%d: ro.Resource or Host(%q)", n.ID, u)
		if n.Kind == kHost {
			f.got(n, b.Router.Host(u))
		} else {
			f.got(n, b.Router.Resource(u))
		}
	}
	b.configureLater(n)
}

func keysOf(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// prepare makes an unregistered responder.
func (f *flat) prepare(n *Node, u string) {
	b := f.Built
	if n.Kind == kRes && u == n.Tmpl.URLSrc() {
		u += tail(n)
		switch {
		case n.Cfg.Secure:
			u = "https:///" + u
		case b.r.IntN(2) == 0 || strings.HasPrefix(u, "http"):
			u = "/" + u
		}
	}
	cfg := !n.Cfg.plain() && b.r.IntN(2) == 0
	b.op("#%d = New(%q, cfg=%v)", n.ID, u, cfg)
	switch {
	case n.Kind == kHost && cfg:
		f.got(n, nm.NewDormantHostUsingConfig(u, b.nmCfgAt(n)))
	case n.Kind == kHost:
		f.got(n, nm.NewDormantHost(u))
	case cfg:
		f.got(n, nm.NewDormantResourceUsingConfig(u, b.nmCfgAt(n)))
	default:
		f.got(n, nm.NewDormantResource(u))
	}
	if !cfg {
		b.configureLater(n)
	}
	if b.r.IntN(2) == 0 {
		b.filled[n.ID] = true
		b.fillHandlers(n)
		b.fillRest(n)
	}
}

// again asks for a responder that exists already.
func (f *flat) again() {
	b := f.Built
	n := pick(b.r, b.T.Nodes)
	if !f.exists[n] || !b.filled[n.ID] || f.empty(n) {
		return
	}
	u := b.fullURL(n)
	if a := f.anc(n); a != nil && b.r.IntN(2) == 0 {
		ru := b.relURL(a, n)
		if b.r.IntN(2) == 0 {
			b.op("#%d.Resource(%q) again", a.ID, ru)
			f.got(n, b.Objs[a.ID].Resource(ru))
		} else {
			b.op("#%d.ResourceUsingConfig(%q) again", a.ID, ru)
			f.got(n, b.Objs[a.ID].ResourceUsingConfig(ru, b.nmCfgAt(n)))
		}
		return
	}
	b.op("ro.Resource or Host(%q) again", u)
	if n.Kind == kHost {
		f.got(n, b.Router.Host(u))
	} else {
		f.got(n, b.Router.Resource(u))
	}
}

func equivCase(c *Case) {
	p := baseProf()
	flavour(c, &p)
	p.MaxNodes = 16
	p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.15, 0.15, 0.1, 0.2
	p.RedirP, p.RedirHP, p.PermCodeP, p.SharedP = 0.08, 0.1, 0.1, 0.2
	t := genTree(c.Rand, p)
	d := t.String()
	c.Logf("%s", d)
	th := hash64(d)
	var bs []*Built
	kinds := []string{"plain", "random", "flat", "another flat"}
	for i, k := range kinds {
		if i == 1 && c.P(0.5) {
			continue
		}
		a, e := c.Uint64(), c.Uint64()
		b := newBuilt(rand.New(rand.NewPCG(a, e)), t, i == 0)
		c.Logf("--- %s building", k)
		p := panics(func() {
			if i < 2 {
				b.build()
			} else {
				b.buildFlat()
			}
		})
		for _, l := range b.Ops {
			c.Logf("%s", l)
		}
		if p != nil {
			c.Fail("the %s building panics: %v", k, p)
		}
		c.CountN("building operations", len(b.Ops))
		bs = append(bs, b)
	}
	for i, b := range bs {
		relations(c, b, fmt.Sprintf("building %d", i))
		for _, n := range t.Nodes {
			o := b.Objs[n.ID]
			if k, w := o.Configuration(), n.Cfg.NM(); k != w {
				c.Fail("building %d: #%d has the configuration %+v, expected %v", i, n.ID, k, n.Cfg)
			}
			if d := o.SharedData(); d != n.Shared && (n.Shared == nil || fmt.Sprint(d) != fmt.Sprint(n.Shared)) {
				c.Fail("building %d: #%d has the shared data %v, expected %v", i, n.ID, d, n.Shared)
			}
		}
	}
	names := t.AllNames()
	rp := baseReq()
	rp.ActP, rp.FalseP, rp.BadP, rp.RelP = 0.05, 0.03, 0.02, 0.02
	for i := 0; i < 25; i++ {
		rq := genReq(c.Rand, t, rp)
		out := predict(t, rq)
		var first0 *Obs
		for k, b := range bs {
			o := serve(b, b.Router, rq, names)
			d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, false),
				diffAllow(out, o), diffLoc(out, o), diffSeq(out, o, "pqmh", true),
				diffSnaps(out, o, "hpqmr", snVals|snRem|snResp|snData))
			if d == "" && k > 0 {
				if d = diffObs(first0, o, true); d != "" {
					d = "the building 0 answers with " + d
				}
			}
			if d != "" {
				report(c, rq, out, o, fmt.Sprintf("building %d: %s", k, d))
			}
			if k == 0 {
				first0 = o
			}
			c.EvalHash(th ^ hash64(rq.String())*31 + uint64(k))
		}
		c.Count("answer: " + out.Kind())
		if i < 1 && c.Index < 3 {
			c.Sample("%.300s => %.500s", rq.String(), first0.String())
		}
	}
}

func init() {
	register("C30", "every random tree is built three or four times: plainly, through random routes "+
		"depth-first, and responder by responder in random orders that create what is missing on "+
		"the way; the relations and names are compared, and every request is answered alike by all "+
		"and as the reference says; distinct by tree, building and request",
		func(run *Run) {
			run.Stage("equiv", scale(5000, 100000), equivCase)
		}, "the order of pattern siblings is kept")
}
