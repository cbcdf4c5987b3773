package main

import (
	"fmt"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// cfgOf returns the configuration of the responder as it reads back.
func cfgOf(o Rsp) Cfg {
	c := o.Configuration()
	return Cfg{c.SubtreeHandler, c.Secure, c.RedirectsInsecureRequest,
		c.HasTrailingSlash, c.StrictOnTrailingSlash, c.LenientOnTrailingSlash,
		c.LenientOnUncleanPath}
}

// randCfg returns a random configuration.
func randCfg(c *Case, density float64) Cfg {
	b := func() bool { return c.P(density) }
	return Cfg{b(), b(), b(), b(), b(), b(), b()}
}

// reconfigure mirrors SetConfiguration.
func (n *Node) reconfigure(c Cfg) {
	if n.Kind == kRoot {
		c.TSlash, c.StrictTS, c.LenientTS = false, false, false
	}
	c.Secure = c.Secure || c.RedirInsec || n.Cfg.Secure
	c.TSlash = c.TSlash || n.Cfg.TSlash
	n.Cfg = c
}

// formOf returns the configuration in one of its equal forms.
func formOf(c *Case, cfg Cfg) nm.Config {
	r := cfg.NM()
	if r.HandlesThePathAsIs {
		switch c.IntN(3) {
		case 0:
			r.LenientOnTrailingSlash, r.LenientOnUncleanPath = false, false
		case 1:
			r.HandlesThePathAsIs = false
		}
	}
	if r.RedirectsInsecureRequest && c.P(0.5) {
		r.Secure = c.P(0.5)
	}
	return r
}

// below returns everything below the node, or everything when it's nil.
func (t *Tree) below(n *Node) []*Node {
	if n == nil {
		return t.Nodes
	}
	var out []*Node
	var walk func(p *Node)
	walk = func(p *Node) {
		for _, k := range p.Kids {
			out = append(out, k)
			walk(k)
		}
	}
	walk(n)
	return out
}

// bulkOp applies a random bulk operation to the tree and to the reference.
func bulkOp(c *Case, b *Built, i int, wraps bool) {
	bulkOpWith(c, b, i, wraps, "")
}

// bulkOpWith gives the labels of the middlewares the mark.
func bulkOpWith(c *Case, b *Built, i int, wraps bool, mark string) {
	t := b.T
	var n *Node
	where := "ro"
	if c.P(0.65) {
		n = pick(c.Rand, t.Nodes)
		for k := 0; k < 3 && len(n.Kids) == 0; k++ {
			n = pick(c.Rand, t.Nodes)
		}
		where = fmt.Sprintf("#%d", n.ID)
	}
	scope := t.below(n)
	var labels []string
	var mws []nm.Middleware
	for k := c.IntN(3); k >= 0; k-- {
		l := fmt.Sprintf("RB%d.%d%s", i, len(labels), mark)
		labels = append(labels, l)
	}
	kind := 2 + c.IntN(5)
	if wraps {
		kind = c.IntN(5)
	}
	mk := func(k byte) {
		for _, l := range labels {
			mws = append(mws, mkMw(k, l))
		}
	}
	switch kind {
	case 0:
		mk('p')
		if n == nil {
			b.Router.WrapAllRequestPassers(mws...)
			spoilMws(mws)
		} else {
			b.Objs[n.ID].WrapSubtreeRequestPassers(mws...)
			spoilMws(mws)
		}
		for _, s := range scope {
			s.Passers = append(s.Passers, labels...)
		}
		c.Logf("%s: wrap request passers %v", where, labels)
		c.Count("bulk request passers")
	case 1:
		mk('q')
		if n == nil {
			b.Router.WrapAllRequestHandlers(mws...)
			spoilMws(mws)
		} else {
			b.Objs[n.ID].WrapSubtreeRequestHandlers(mws...)
			spoilMws(mws)
		}
		for _, s := range scope {
			s.ReqMws = append(s.ReqMws, labels...)
		}
		c.Logf("%s: wrap request handlers %v", where, labels)
		c.Count("bulk request handlers")
	case 2, 3, 4:
		var ms []string
		switch c.IntN(4) {
		case 0:
			ms = []string{"*"}
		case 1:
			ms = []string{"!"}
		default:
			seen := map[string]bool{}
			for k := c.IntN(4); k >= 0; k-- {
				m := pick(c.Rand, allMethods)
				if c.P(0.7) && len(scope) > 0 {
					if have := pick(c.Rand, scope).Methods(); len(have) > 0 {
						m = pick(c.Rand, have)
					}
				}
				if !seen[m] {
					seen[m] = true
					ms = append(ms, m)
				}
			}
		}
		mk('m')
		list := b.methodList(ms)
		if n == nil {
			b.Router.WrapAllHandlersOf(list, mws...)
			spoilMws(mws)
		} else {
			b.Objs[n.ID].WrapSubtreeHandlersOf(list, mws...)
			spoilMws(mws)
		}
		for _, s := range scope {
			if !s.CanHandle() {
				continue
			}
			if s.MethMws == nil {
				s.MethMws = map[string][]string{}
			}
			have := s.Methods()
			for _, m := range ms {
				switch m {
				case "*":
					for _, h := range have {
						s.MethMws[h] = append(s.MethMws[h], labels...)
					}
				case "!":
					s.MethMws["!"] = append(s.MethMws["!"], labels...)
				default:
					for _, h := range have {
						if h == m {
							s.MethMws[h] = append(s.MethMws[h], labels...)
						}
					}
				}
			}
		}
		c.Logf("%s: wrap handlers of %q %v", where, list, labels)
		c.Count("bulk handlers of methods")
	case 5:
		var v any = fmt.Sprintf("bulk%d", i)
		if c.P(0.2) {
			v = oddShared(c.Rand)
		}
		if n == nil {
			b.Router.SetSharedDataForAll(v)
		} else {
			b.Objs[n.ID].SetSharedDataForSubtree(v)
		}
		for _, s := range scope {
			if s.Shared == nil {
				s.Shared = v
				c.Count("shared data given")
			} else {
				c.Count("shared data kept")
			}
		}
		c.Logf("%s: shared data %v", where, v)
	case 6:
		cfg := randCfg(c, []float64{0.1, 0.3, 0.6}[c.IntN(3)])
		form := formOf(c, cfg)
		if n == nil {
			b.Router.SetConfigurationForAll(form)
		} else {
			b.Objs[n.ID].SetConfigurationForSubtree(form)
		}
		for _, s := range scope {
			if s.Cfg.plain() {
				s.reconfigure(cfg)
				c.Count("configurations given")
			} else {
				c.Count("configurations kept")
			}
		}
		c.Logf("%s: configuration [%s]", where, cfg)
	}
}

// checkData compares what can be read back of every responder.
func checkData(c *Case, b *Built) {
	for _, n := range b.T.Nodes {
		o := b.Objs[n.ID]
		if got := cfgOf(o); got != n.Cfg {
			c.Logf("%s", b.T)
			c.Fail("#%d: the configuration is [%s], expected [%s]", n.ID, got, n.Cfg)
		}
		if got := o.SharedData(); got != n.Shared {
			c.Logf("%s", b.T)
			c.Fail("#%d: the shared data is %v, expected %v", n.ID, got, n.Shared)
		}
	}
}

// bulkCase mixes bulk operations, single operations and requests.
func bulkCase(c *Case) {
	p := baseProf()
	flavour(c, &p)
	p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.15, 0.1, 0.15, 0.1
	p.SharedP, p.SubtreeP, p.NotAllowP = 0.4, 0.3, 0.2
	p.HandlerP, p.ManyMethodsP, p.ImplP = 0.6, 0.06, 0.15
	p.SecureP, p.TSlashP, p.LenientTSP, p.LenientUCP = 0.08, 0.1, 0.05, 0.05
	wraps := c.P(0.7)
	_, b, desc := begin(c, p)
	checkData(c, b)
	sig := hash64(desc)
	rp := baseReq()
	rp.ExtraP, rp.MethodP = 0.4, 0.4
	for i := 0; i < 3+c.IntN(6); i++ {
		if c.P(0.75) {
			bulkOp(c, b, i, wraps)
		} else {
			singleOp(c, b, i)
		}
		checkData(c, b)
		for k := 0; k < 6; k++ {
			bulkSend(c, b, rp, sig^uint64(i))
		}
	}
	for k := 0; k < 20; k++ {
		bulkSend(c, b, rp, sig)
	}
}

func bulkSend(c *Case, b *Built, rp RProf, sig uint64) {
	rq := genReq(c.Rand, b.T, rp)
	out := predict(b.T, rq)
	o := serve(b, b.Router, rq, b.T.AllNames())
	if d := first(diffPanic(o), diffSeq(out, o, "pqmPQMh", true),
		diffStatus(out, o, true), diffSnaps(out, o, "hqm", snData)); d != "" {
		c.Logf("%s", b.T)
		report(c, rq, out, o, d)
	}
	n := 0
	for _, e := range out.Ev {
		if strings.HasPrefix(e.L, "RB") {
			n++
		}
	}
	c.CountN("events of bulk middlewares", n)
	if n > 0 {
		c.EvalHash(sig ^ hash64(rq.String())*31)
	} else {
		c.Eval("")
	}
}

// singleOp changes one responder between the bulk operations.
func singleOp(c *Case, b *Built, i int) {
	n := pick(c.Rand, b.T.Nodes)
	o := b.Objs[n.ID]
	id := itoa(n.ID)
	switch c.IntN(4) {
	case 0:
		m := pick(c.Rand, allMethods)
		l := fmt.Sprintf("%s/s%d", id, i)
		o.SetHandlerFor(m, mkHandler(l))
		if n.Handlers == nil {
			n.Handlers = map[string]string{}
		}
		n.Handlers[m] = l
		delete(n.MethMws, m)
		c.Logf("#%d.SetHandlerFor(%q) %s", n.ID, m, l)
	case 1:
		l := fmt.Sprintf("%s/p+%d", id, i)
		o.WrapRequestPasser(mkMw('p', l))
		n.Passers = append(n.Passers, l)
		c.Logf("#%d.WrapRequestPasser %s", n.ID, l)
	case 2:
		l := fmt.Sprintf("%s/q+%d", id, i)
		o.WrapRequestHandler(mkMw('q', l))
		n.ReqMws = append(n.ReqMws, l)
		c.Logf("#%d.WrapRequestHandler %s", n.ID, l)
	case 3:
		impl, ms := randImpl(c, n)
		o.SetImplementation(impl)
		setImplModel(n, impl, ms)
		c.Logf("#%d.SetImplementation %v", n.ID, ms)
	}
}

func init() {
	register("C11", "random trees, on which bulk wrapping, shared data and "+
		"configuration operations are applied from random responders and the "+
		"router, mixed with single operations; everything is read back after "+
		"each operation and requests are served; non-trivial: a request that "+
		"goes through middlewares of bulk operations; distinct by tree and "+
		"request",
		func(run *Run) {
			run.Stage("bulk", scale(12000, 250000), bulkCase)
		})
}
