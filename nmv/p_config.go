package main

import (
	"fmt"

	nm "github.com/shohruhadham/nanomux"
)

// cfgWorld performs constructing, looking up and reconfiguring operations and
// keeps the configurations that every responder must have.
type cfgWorld struct {
	c      *Case
	plan   *Tree // What can be created.
	live   map[*Node]*Node
	t      *Tree // What has been created.
	b      *Built
	active map[*Node]bool
	ops    int
}

// cfgFlags returns the flags that the configuration sets.
func cfgFlags(c nm.Config) Cfg {
	return Cfg{
		Subtree:    c.SubtreeHandler,
		Secure:     c.Secure || c.RedirectsInsecureRequest,
		RedirInsec: c.RedirectsInsecureRequest,
		TSlash:     c.HasTrailingSlash,
		StrictTS:   c.StrictOnTrailingSlash,
		LenientTS:  c.LenientOnTrailingSlash || c.HandlesThePathAsIs,
		LenientUC:  c.LenientOnUncleanPath || c.HandlesThePathAsIs,
	}
}

func (c Cfg) or(d Cfg) Cfg {
	return Cfg{c.Subtree || d.Subtree, c.Secure || d.Secure, c.RedirInsec || d.RedirInsec,
		c.TSlash || d.TSlash, c.StrictTS || d.StrictTS, c.LenientTS || d.LenientTS,
		c.LenientUC || d.LenientUC}
}

func (c Cfg) has(d Cfg) bool { return c.or(d) == c }

// rootCfg removes what a root doesn't have.
func (c Cfg) rootCfg() Cfg {
	c.TSlash, c.StrictTS, c.LenientTS = false, false, false
	return c
}

func (x *cfgWorld) config() nm.Config {
	c := x.c
	p := pick(c.Rand, []float64{0, 0.1, 0.3, 0.6})
	return nm.Config{SubtreeHandler: c.P(p), Secure: c.P(p), RedirectsInsecureRequest: c.P(p),
		HasTrailingSlash: c.P(p), StrictOnTrailingSlash: c.P(p), LenientOnTrailingSlash: c.P(p),
		LenientOnUncleanPath: c.P(p), HandlesThePathAsIs: c.P(p / 2)}
}

// within returns a configuration that the responder has.
func (x *cfgWorld) within(d Cfg) nm.Config {
	c := x.c
	p := pick(c.Rand, []float64{0.3, 0.7, 1})
	k := nm.Config{SubtreeHandler: d.Subtree && c.P(p), Secure: d.Secure && c.P(p),
		HasTrailingSlash: d.TSlash && c.P(p), StrictOnTrailingSlash: d.StrictTS && c.P(p),
		LenientOnTrailingSlash: d.LenientTS && c.P(p), LenientOnUncleanPath: d.LenientUC && c.P(p)}
	k.RedirectsInsecureRequest = d.RedirInsec && c.P(p)
	k.HandlesThePathAsIs = d.LenientTS && d.LenientUC && c.P(p)
	return k
}

// add makes the planned node and those above it live.
func (x *cfgWorld) add(pn *Node) *Node {
	if n := x.live[pn]; n != nil {
		return n
	}
	n := &Node{ID: len(x.t.Nodes), Kind: pn.Kind, Tmpl: pn.Tmpl}
	if pn.Parent != nil {
		n.Parent = x.add(pn.Parent)
		n.ID = len(x.t.Nodes)
		n.Parent.Kids = append(n.Parent.Kids, n)
	} else if pn.Kind == kHost {
		x.t.Hosts = append(x.t.Hosts, n)
	} else {
		x.t.Root = n
	}
	x.t.Nodes = append(x.t.Nodes, n)
	x.b.Objs = append(x.b.Objs, nil)
	x.live[pn] = n
	return n
}

// findAll looks for the objects of the responders that have been created on
// the way to the others.
func (x *cfgWorld) findAll() {
	// What has been configured can be looked up.
	for _, pn := range x.plan.Nodes {
		n := x.live[pn]
		if n == nil {
			continue
		}
		if x.b.Objs[n.ID] == nil && x.active[n] && n.Kind != kHost {
			r := x.b.Router.RegisteredResource(x.url(nil, pn, n.Cfg.Secure, n.Cfg.TSlash))
			if r == nil {
				x.c.Fail("#%d can't be found", n.ID)
			}
			x.b.set(n, r)
		}
	}
	// The root can't be looked up without being configured.
	for _, n := range x.t.Nodes {
		o := x.b.Objs[n.ID]
		for n.Parent != nil && n.Parent.Kind != kHost && o != nil {
			r := o.(*nm.Resource).Parent()
			if r == nil {
				x.c.Fail("#%d has no parent", n.ID)
			}
			n, o = n.Parent, r
			x.b.set(n, o)
		}
	}
	for _, n := range x.t.Nodes {
		if x.b.Objs[n.ID] != nil {
			continue
		}
		switch {
		case n.Kind == kHost:
			for _, h := range hostsOf(x.b.Router) {
				if x.b.idOfHost(h) < 0 {
					x.b.set(n, h)
				}
			}
		default:
			po := x.b.Objs[n.Parent.ID]
			if po == nil {
				break
			}
			for _, k := range kidsOf(po) {
				if x.b.idOfRes(k) < 0 && k.Template().String() == x.tmplOf(n) {
					x.b.set(n, k)
				}
			}
		}
		if x.b.Objs[n.ID] == nil {
			x.c.Fail("#%d can't be found", n.ID)
		}
	}
}

func (x *cfgWorld) tmplOf(n *Node) string { return nm.Parse(n.Tmpl.Src()).String() }

// sweep compares the configurations of all the responders.
func (x *cfgWorld) sweep(how string) {
	for _, n := range x.t.Nodes {
		o := x.b.Objs[n.ID]
		k, w := o.Configuration(), n.Cfg.NM()
		if k != w {
			x.c.Fail("after %s: the configuration of #%d: expected %v, got %+v",
				how, n.ID, n.Cfg, k)
		}
		g := nm.Config{SubtreeHandler: o.IsSubtreeHandler(), Secure: o.IsSecure(),
			RedirectsInsecureRequest: o.RedirectsInsecureRequest(),
			HasTrailingSlash:         o.HasTrailingSlash(),
			StrictOnTrailingSlash:    o.IsStrictOnTrailingSlash(),
			LenientOnTrailingSlash:   o.IsLenientOnTrailingSlash(),
			LenientOnUncleanPath:     o.IsLenientOnUncleanPath(),
			HandlesThePathAsIs:       o.HandlesThePathAsIs()}
		if g != w {
			x.c.Fail("after %s: the properties of #%d: expected %v, got %+v",
				how, n.ID, n.Cfg, g)
		}
	}
}

// url returns a URL template of the planned node for the router, or for the
// ancestor if it isn't nil.
func (x *cfgWorld) url(anc, pn *Node, secure, slash bool) string {
	s, sl := "http", ""
	if secure {
		s = "https"
	}
	if slash {
		sl = "/"
	}
	if pn.Kind == kHost {
		u := pn.Tmpl.Src() + sl
		if !secure && x.c.P(0.3) {
			// Only for the methods that take nothing but a host.
			return "http://" + u
		}
		return s + "://" + u
	}
	if pn.Kind == kRoot {
		if !secure && x.c.P(0.6) {
			return "/"
		}
		return s + ":///"
	}
	p := relPath(anc, pn) + sl
	if h := pn.Host(); h != nil && anc == nil {
		return s + "://" + h.Tmpl.Src() + "/" + p
	}
	if secure || x.c.P(0.2) {
		return s + ":///" + p
	}
	if anc != nil && len(p) > 4 && p[:4] != "http" && x.c.P(0.5) {
		return p
	}
	return "/" + p
}

// effect is what an operation must do.
type effect int

const (
	effNone effect = iota
	effPanic
	effDone
)

// lookup tells what finding or creating the node does. The configuration is
// nil if there is none.
func (x *cfgWorld) lookup(pn *Node, secure, slash bool, cfg *Cfg, create bool) effect {
	if pn.Kind == kRoot {
		slash = false
	}
	if cfg != nil && cfg.RedirInsec && !secure {
		return effPanic
	}
	n := x.live[pn]
	if n != nil && x.active[n] {
		switch {
		case n.Cfg.Secure != secure,
			!n.Cfg.LenientTS && n.Cfg.TSlash != slash,
			cfg != nil && !n.Cfg.has(*cfg):
			return effPanic
		}
		return effDone
	}
	if n == nil {
		if !create {
			return effNone
		}
		n = x.add(pn)
	}
	n.Cfg.Secure = n.Cfg.Secure || secure
	n.Cfg.TSlash = n.Cfg.TSlash || slash
	if cfg != nil {
		n.Cfg = n.Cfg.or(*cfg)
	}
	x.active[n] = true
	return effDone
}

func (x *cfgWorld) setCfg(n *Node, k nm.Config) {
	d := cfgFlags(k)
	if n.Kind == kRoot {
		d = d.rootCfg()
	}
	d.Secure = d.Secure || n.Cfg.Secure
	d.TSlash = d.TSlash || n.Cfg.TSlash
	n.Cfg = d
	x.active[n] = true
}

// below visits the live nodes below.
func below(n *Node, f func(n *Node)) {
	for _, k := range n.Kids {
		f(k)
		below(k, f)
	}
}

func (x *cfgWorld) newTop(u string, kind int, k nm.Config, way int) (o Rsp) {
	impl := mkImpl(&Node{ID: 997, Handlers: map[string]string{"GET": "997/GET"}})
	if kind == kHost {
		switch way {
		case 0:
			return nm.NewDormantHost(u)
		case 1:
			return nm.NewDormantHostUsingConfig(u, k)
		case 2:
			return nm.NewHost(u, impl)
		}
		return nm.NewHostUsingConfig(u, impl, k)
	}
	switch way {
	case 0:
		return nm.NewDormantResource(u)
	case 1:
		return nm.NewDormantResourceUsingConfig(u, k)
	case 2:
		return nm.NewResource(u, impl)
	}
	return nm.NewResourceUsingConfig(u, impl, k)
}

// step performs an operation and returns its description.
func (x *cfgWorld) step() string {
	c := x.c
	var pn *Node
	// Prefer what exists.
	for i := 0; i < 4; i++ {
		pn = pick(c.Rand, x.plan.Nodes)
		if x.live[pn] != nil {
			break
		}
	}
	n := x.live[pn]
	secure, slash := c.P(0.3), c.P(0.3)
	if n != nil && c.P(0.7) {
		secure, slash = n.Cfg.Secure, n.Cfg.TSlash
	}
	if pn.Kind == kRoot {
		slash = false
	}
	k := x.config()
	if n != nil && c.P(0.6) {
		k = x.within(n.Cfg)
	}
	// An ancestor that exists, if not the router.
	var anc *Node
	if pn.Kind == kRes && c.P(0.6) {
		var as []*Node
		for p := pn.Parent; p != nil; p = p.Parent {
			if x.live[p] != nil {
				as = append(as, p)
			}
		}
		if len(as) > 0 {
			anc = pick(c.Rand, as)
		}
	}
	var ao Rsp
	by := "ro"
	if anc != nil {
		ao = x.b.Objs[x.live[anc].ID]
		by = fmt.Sprintf("#%d", x.live[anc].ID)
	}
	u := x.url(anc, pn, secure, slash)
	d := cfgFlags(k)
	ro := x.b.Router
	var o Rsp // What the operation returns.
	f := func() {}
	want := effDone
	how := ""
	returns := false
	var g nm.Config
	read := func() string { return "" }
	op := c.IntN(11)
	switch op {
	case 0, 1: // Find or create.
		how = fmt.Sprintf("%s.Resource/Host(%q)", by, u)
		want = x.lookup(pn, secure, slash, nil, true)
		returns = true
		f = func() {
			switch {
			case pn.Kind == kHost:
				o = ro.Host(u)
			case ao != nil:
				o = ao.Resource(u)
			default:
				o = ro.Resource(u)
			}
		}
	case 2, 3: // Find or create using a configuration.
		how = fmt.Sprintf("%s.Resource/HostUsingConfig(%q, %+v)", by, u, k)
		if pn.Kind == kRoot {
			d = d.rootCfg()
		}
		want = x.lookup(pn, secure, slash, &d, true)
		returns = true
		f = func() {
			switch {
			case pn.Kind == kHost:
				o = ro.HostUsingConfig(u, k)
			case ao != nil:
				o = ao.ResourceUsingConfig(u, k)
			default:
				o = ro.ResourceUsingConfig(u, k)
			}
		}
	case 4: // Find or create for another purpose.
		want = x.lookup(pn, secure, slash, nil, true)
		m := c.IntN(4)
		how = fmt.Sprintf("%s.Set…At(%d, %q)", by, m, u)
		f = func() {
			if ao != nil {
				switch m {
				case 0:
					ao.SetSharedDataAt(u, 1)
				case 1:
					ao.SetPermanentRedirectCodeAt(u, 308)
				case 2:
					ao.WrapRequestPasserAt(u, mkMw('p', "p"))
				default:
					ao.WrapRequestHandlerAt(u, mkMw('q', "q"))
				}
				return
			}
			switch m {
			case 0:
				ro.SetSharedDataAt(u, 1)
			case 1:
				ro.SetPermanentRedirectCodeAt(u, 308)
			case 2:
				ro.WrapRequestPasserAt(u, mkMw('p', "p"))
			default:
				ro.WrapRequestHandlerAt(u, mkMw('q', "q"))
			}
		}
		if want == effDone && m >= 2 {
			l := x.live[pn]
			if m == 2 {
				l.Passers = append(l.Passers, "p")
			} else {
				l.ReqMws = append(l.ReqMws, "q")
			}
		}
		if want == effDone && m == 0 {
			x.live[pn].Shared = 1
		}
	case 5: // Find.
		how = fmt.Sprintf("%s.RegisteredResource/Host(%q)", by, u)
		want = x.lookup(pn, secure, slash, nil, false)
		returns = want != effPanic
		f = func() {
			switch {
			case pn.Kind == kHost:
				o = ro.RegisteredHost(u)
			case ao != nil:
				o = ao.RegisteredResource(u)
			default:
				o = ro.RegisteredResource(u)
			}
		}
	case 6: // Read.
		if n == nil || ao == nil && !x.active[n] {
			return ""
		}
		how = fmt.Sprintf("%s.ConfigurationAt(%q)", by, u)
		want = x.lookup(pn, secure, slash, nil, false)
		f = func() {
			if ao != nil {
				g = ao.ConfigurationAt(u)
			} else {
				g = ro.ConfigurationAt(u)
			}
		}
		read = func() string {
			if g != n.Cfg.NM() {
				return fmt.Sprintf("%s: expected %v, got %+v", how, n.Cfg, g)
			}
			return ""
		}
	case 7: // Reconfigure at.
		if n != nil && ao == nil && !x.active[n] {
			return ""
		}
		how = fmt.Sprintf("%s.SetConfigurationAt(%q, %+v)", by, u, k)
		if n != nil {
			want = x.lookup(pn, secure, slash, nil, false)
			if want == effDone {
				x.setCfg(n, k)
			}
		} else {
			if pn.Kind == kRoot {
				d = d.rootCfg()
			}
			want = x.lookup(pn, secure, slash, &d, true)
		}
		f = func() {
			if ao != nil {
				ao.SetConfigurationAt(u, k)
			} else {
				ro.SetConfigurationAt(u, k)
			}
		}
	case 8: // Reconfigure.
		if n == nil {
			return ""
		}
		how = fmt.Sprintf("#%d.SetConfiguration(%+v)", n.ID, k)
		x.setCfg(n, k)
		f = func() { x.b.Objs[n.ID].SetConfiguration(k) }
	case 9: // Reconfigure many.
		g := func(n *Node) {
			if n.Cfg.plain() {
				x.setCfg(n, k)
				c.Count("reconfigured together")
			} else {
				c.Count("skipped when reconfiguring together")
			}
		}
		if n == nil || c.P(0.2) {
			if c.P(0.6) {
				return "" // It would leave little to configure.
			}
			how = fmt.Sprintf("ro.SetConfigurationForAll(%+v)", k)
			for _, n := range x.t.Nodes {
				g(n)
			}
			f = func() { ro.SetConfigurationForAll(k) }
			break
		}
		how = fmt.Sprintf("#%d.SetConfigurationForSubtree(%+v)", n.ID, k)
		below(n, g)
		f = func() { x.b.Objs[n.ID].SetConfigurationForSubtree(k) }
	default: // Construct and register.
		return x.construct(pn, anc, secure, slash, k)
	}
	c.Logf("%s", how)
	err := panics(f)
	switch {
	case want == effPanic && err == nil:
		c.Fail("%s is accepted", how)
	case want != effPanic && err != nil:
		c.Fail("%s: panic: %v", how, err)
	}
	c.Count([]string{"nothing found", "rejected", "done"}[want])
	if d := read(); d != "" && want == effDone {
		c.Fail("%s", d)
	}
	if returns && want == effNone && !isNil(o) {
		c.Fail("%s returns something that hasn't been created", how)
	}
	if returns && want == effDone {
		n := x.live[pn]
		if isNil(o) {
			c.Fail("%s returns nothing", how)
		}
		if old := x.b.Objs[n.ID]; old != nil && old != o {
			c.Fail("%s returns another responder than #%d", how, n.ID)
		}
		x.b.set(n, o)
	}
	return how
}

// construct constructs a responder and registers it.
func (x *cfgWorld) construct(pn, anc *Node, secure, slash bool, k nm.Config) string {
	c := x.c
	ro := x.b.Router
	if pn.Kind == kRes && anc == nil {
		return ""
	}
	n := x.live[pn]
	var pre string
	u := x.url(pn.Parent, pn, secure, slash)
	if pn.Kind == kRes && pn.Parent != anc {
		pre = relPath(anc, pn.Parent)
		if c.P(0.3) { // In the URL template of the resource.
			u = x.url(nil, pn, secure, slash)
			pre = ""
		}
	}
	way := c.IntN(4)
	how := fmt.Sprintf("New[%d](%q, %+v)", way, u, k)
	d := Cfg{}
	if way&1 == 1 {
		d = cfgFlags(k)
		d.Secure, d.TSlash = false, false
		if d.RedirInsec && !secure {
			c.Logf("%s", how)
			if panics(func() { x.newTop(u, pn.Kind, k, way) }) == nil {
				c.Fail("%s is accepted", how)
			}
			c.Count("rejected")
			return how
		}
	}
	d.Secure, d.TSlash = secure, slash
	if pn.Kind == kRoot {
		d = d.rootCfg()
	}
	want := effDone
	var done func()
	if n != nil {
		if pn.Kind != kRes {
			return ""
		}
		// Only what is rejected, or kept without any change.
		conflict := x.active[n] && (n.Cfg.Secure != d.Secure ||
			!n.Cfg.LenientTS && n.Cfg.TSlash != d.TSlash || !n.Cfg.has(d))
		if way >= 2 && !conflict && !n.CanHandle() {
			return ""
		}
		if conflict || way >= 2 {
			want = effPanic
		}
		done = func() {}
	}
	var o Rsp
	c.Logf("%s", how)
	if err := panics(func() { o = x.newTop(u, pn.Kind, k, way) }); err != nil {
		c.Fail("%s: panic: %v", how, err)
	}
	if g := o.Configuration(); g != d.NM() {
		c.Fail("%s: expected %v, got %+v", how, d, g)
	}
	if c.P(0.3) && n == nil { // Reconfigured before the registration.
		k = x.config()
		how += fmt.Sprintf(".SetConfiguration(%+v)", k)
		o.SetConfiguration(k)
		s := &Node{Kind: pn.Kind, Cfg: d}
		x.setCfg(s, k)
		d = s.Cfg
	}
	if n == nil {
		done = func() {
			n := x.add(pn)
			n.Cfg = d
			x.active[n] = true
			x.b.set(n, o)
			if way >= 2 {
				n.Handlers = map[string]string{"GET": "997/GET"}
			}
		}
	}
	var f func()
	switch {
	case pn.Kind == kHost:
		f = func() { ro.RegisterHost(o.(*nm.Host)) }
		how += "; ro.RegisterHost"
	case pn.Kind == kRoot:
		f = func() { ro.RegisterResource(o.(*nm.Resource)) }
		how += "; ro.RegisterResource"
	case pre != "":
		f = func() {
			x.b.Objs[x.live[anc].ID].RegisterResourceUnder(pre, o.(*nm.Resource))
		}
		how += fmt.Sprintf("; #%d.RegisterResourceUnder(%q)", x.live[anc].ID, pre)
	default:
		f = func() { x.b.Objs[x.live[anc].ID].RegisterResource(o.(*nm.Resource)) }
		how += fmt.Sprintf("; #%d.RegisterResource", x.live[anc].ID)
	}
	c.Logf("%s", how)
	err := panics(f)
	switch {
	case want == effPanic && err == nil:
		c.Fail("%s is accepted", how)
	case want != effPanic && err != nil:
		c.Fail("%s: panic: %v", how, err)
	case want == effPanic:
		c.Count("rejected")
	default:
		c.Count("done")
		done()
	}
	return how
}

func configCase(c *Case) {
	p := baseProf()
	p.MaxNodes = 8
	p.Hosts = 2
	p.DeepP = 0.1
	p.WideP = 0
	plan := genTree(c.Rand, p)
	t := &Tree{}
	x := &cfgWorld{c: c, plan: plan, t: t, live: map[*Node]*Node{},
		b: newBuilt(c.Rand, t, false), active: map[*Node]bool{}}
	for i := 0; i < 30; i++ {
		how := x.step()
		if how == "" {
			continue
		}
		x.findAll()
		x.sweep(how)
		c.EvalHash(hash64(how) ^ uint64(i))
		for _, n := range t.Nodes {
			if !n.CanHandle() && c.P(0.15) {
				n.Handlers = map[string]string{"GET": itoa(n.ID) + "/GET"}
				x.b.Objs[n.ID].SetHandlerFor("GET", mkHandler(itoa(n.ID)+"/GET"))
			}
		}
		if c.Index < 2 && i < 4 {
			c.Sample("%s", how)
		}
	}
	m := map[Rsp]int{}
	for _, n := range t.Nodes {
		m[x.b.Objs[n.ID]] = 1
	}
	if t.Root != nil || len(t.Hosts) > 0 {
		if d := sameCensus(m, x.b.census()); d != "" {
			c.Fail("at the end: %s", d)
		}
	}
	c.CountN("responders", len(t.Nodes))
	if len(t.Nodes) == 0 {
		return
	}
	// The answers are those of the configurations.
	for j := 0; j < 8; j++ {
		rp := baseReq()
		rp.SlashP, rp.UncleanP, rp.TLSFlipP = 0.4, 0.2, 0.5
		rq := genReq(c.Rand, t, rp)
		out := predict(t, rq)
		o := serve(x.b, x.b.Router, rq, nil)
		d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, true))
		if d != "" {
			report(c, rq, out, o, d)
		}
		c.Count("answer: " + out.Kind())
	}
}

func init() {
	register("C24", "histories of constructing, finding, creating, registering and "+
		"reconfiguring operations with random configurations, schemes and trailing slashes "+
		"by the router and the responders; after each, the configuration and every boolean "+
		"property of every responder are compared with the reference, and at the end the "+
		"answers to requests are; non-trivial: every operation",
		func(run *Run) {
			run.Stage("config", scale(25000, 500000), configCase)
		}, "the router's readers aren't called for responders that haven't been configured")
}
