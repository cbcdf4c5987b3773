package main

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// propWorld is a tree whose responders' properties are set and read again and
// again.
type propWorld struct {
	*placer
	wraps map[*Node][]string // The labels of the redirect handler's middlewares.
	th    uint64
	i     int
}

// calls runs f with a new response and a traced request.
func calls(n *Node, b *Built, f func(w http.ResponseWriter, r *http.Request)) *Obs {
	rw := newRW()
	tr := &Trace{B: b}
	o := &Obs{RW: rw, Tr: tr}
	r := withTrace((&Req{Method: "GET", Host: "h.test", URI: "/x"}).Make(), tr)
	o.Pan = panics(func() { f(rw, r) })
	o.Ev, o.Stat = tr.Ev, rw.Status()
	o.Hdr = rw.Snap
	if o.Hdr == nil {
		o.Hdr = rw.H
	}
	return o
}

func evLabels(ev []Ev, kinds string) []string {
	var ls []string
	for _, e := range ev {
		if strings.IndexByte(kinds, e.K) >= 0 {
			ls = append(ls, string(e.K)+" "+e.L)
		}
	}
	return ls
}

// checkHandler calls the handler that's read back for the method.
func (x *propWorld) checkHandler(how string, n *Node, m string, h nm.Handler) {
	c := x.c
	label, ok := n.Handlers[m]
	std := m == "OPTIONS" && !ok && len(n.Handlers) > 0
	if m == "!" {
		label, ok = n.NotAllow, n.NotAllow != ""
		std = !ok && len(n.Handlers) > 0
		if !ok && !std {
			return
		}
	}
	if (h != nil) != (ok || std) {
		c.Fail("%s: the handler of %q is there: %v, expected %v", how, m, h != nil, ok || std)
	}
	if h == nil {
		return
	}
	var want []string
	ms := n.MethMws[m]
	for i := len(ms) - 1; i >= 0; i-- {
		want = append(want, "m "+ms[i])
	}
	if ok {
		want = append(want, "h "+label)
	}
	o := calls(n, x.b, func(w http.ResponseWriter, r *http.Request) { h(w, r, nil) })
	if o.Pan != nil {
		c.Fail("%s: calling the handler of %q panics: %v", how, m, o.Pan)
	}
	if got := evLabels(o.Ev, "mh"); !reflect.DeepEqual(got, want) {
		c.Fail("%s: the handler of %q calls %v, expected %v", how, m, got, want)
	}
	if std {
		code := 200
		if m == "!" {
			code = 405
		}
		al := strings.Split(strings.Join(o.Hdr["Allow"], ", "), ", ")
		sort.Strings(al)
		if o.Stat != code || !reflect.DeepEqual(al, n.Methods()) {
			c.Fail("%s: the default handler of %q answers %d %v, expected %d %v", how, m,
				o.Stat, al, code, n.Methods())
		}
	}
	c.Count("handlers read and called")
}

func (x *propWorld) checkRedirect(how string, n *Node, h nm.RedirectHandler) {
	c := x.c
	if h == nil {
		c.Fail("%s: no redirect handler", how)
	}
	code := pick(c.Rand, []int{301, 302, 303, 307, 308})
	u := "http://target" + itoa(x.i) + ".example/a?b"
	o := calls(n, x.b, func(w http.ResponseWriter, r *http.Request) { h(w, r, u, code, nil) })
	if o.Pan != nil {
		c.Fail("%s: calling the redirect handler panics: %v", how, o.Pan)
	}
	var want []string
	ws := x.wraps[n]
	for i := len(ws) - 1; i >= 0; i-- {
		want = append(want, "w "+ws[i])
	}
	if n.RedirH != "" {
		want = append(want, "r "+n.RedirH)
	}
	if got := evLabels(o.Ev, "wr"); !reflect.DeepEqual(got, want) {
		c.Fail("%s: the redirect handler calls %v, expected %v", how, got, want)
	}
	if o.Stat != code || len(o.Hdr["Location"]) != 1 || o.Hdr["Location"][0] != u {
		c.Fail("%s: the redirect handler answers %d %q, expected %d %q", how, o.Stat,
			o.Hdr["Location"], code, u)
	}
	c.Count("redirect handlers read and called")
}

// read reads everything of the node back, each by a random route.
func (x *propWorld) read(n *Node) {
	c, b := x.c, x.b
	id := fmt.Sprintf("#%d after %d", n.ID, x.i)
	for _, k := range c.Perm(6) {
		if c.P(0.3) {
			continue
		}
		switch k {
		case 0:
			var v any
			way := b.route(n, func(o Rsp) { v = o.SharedData() },
				func(a Rsp, u string) { v = a.SharedDataAt(u) },
				func(u string) { v = b.Router.SharedDataAt(u) })
			if v != n.Shared {
				c.Fail("%s: %s: SharedData is %v, expected %v", id, way, v, n.Shared)
			}
		case 1:
			var v nm.Impl
			way := b.route(n, func(o Rsp) { v = o.Implementation() },
				func(a Rsp, u string) { v = a.ImplementationAt(u) },
				func(u string) { v = b.Router.ImplementationAt(u) })
			if v != n.Impl {
				c.Fail("%s: %s: Implementation is %v, expected %v", id, way, v, n.Impl)
			}
		case 2:
			var v nm.Config
			way := b.route(n, func(o Rsp) { v = o.Configuration() },
				func(a Rsp, u string) { v = a.ConfigurationAt(u) },
				func(u string) { v = b.Router.ConfigurationAt(u) })
			if v != n.Cfg.NM() {
				c.Fail("%s: %s: Configuration is %+v, expected %v", id, way, v, n.Cfg)
			}
		case 3:
			v, want := 0, permGlobal
			if n.PermCode != 0 {
				want = n.PermCode
			}
			way := b.route(n, func(o Rsp) { v = o.PermanentRedirectCode() },
				func(a Rsp, u string) { v = a.PermanentRedirectCodeAt(u) },
				func(u string) { v = b.Router.PermanentRedirectCodeAt(u) })
			if v != want {
				c.Fail("%s: %s: PermanentRedirectCode is %d, expected %d", id, way, v, want)
			}
		case 4:
			var v nm.RedirectHandler
			way := b.route(n, func(o Rsp) { v = o.RedirectHandler() },
				func(a Rsp, u string) { v = a.RedirectHandlerAt(u) },
				func(u string) { v = b.Router.RedirectHandlerAt(u) })
			x.checkRedirect(id+": "+way, n, v)
		default:
			ms := append([]string{"OPTIONS", "!", pick(c.Rand, allMethods)}, keysOf(n.Handlers)...)
			for len(ms) > 4 {
				k := c.IntN(len(ms))
				ms = append(ms[:k], ms[k+1:]...)
			}
			for _, m := range ms {
				l := b.methodList([]string{m})
				var v nm.Handler
				way := b.route(n, func(o Rsp) { v = o.HandlerOf(l) },
					func(a Rsp, u string) { v = a.PathHandlerOf(l, u) },
					func(u string) { v = b.Router.URLHandlerOf(l, u) })
				x.checkHandler(id+": "+way, n, m, v)
			}
		}
		c.EvalHash(x.th ^ uint64(x.i*1000+n.ID*10+k))
	}
}

// target returns an existing responder, or one that the operation creates.
func (x *propWorld) target() (n *Node, isNew bool) {
	c := x.c
	n = pick(c.Rand, x.t.Nodes)
	if c.P(0.85) {
		return n, false
	}
	seg := x.good()
	k := x.node(kRes, x.tmpls[seg], n)
	x.b.att = append(x.b.att, true)
	x.t.names = nil
	if n.Kind != kHost {
		k.Cfg.Secure = c.P(0.1)
	}
	k.Cfg.TSlash = c.P(0.15)
	c.Count("created by setting")
	return k, true
}

// at applies the operation by a URL, or directly when the node exists.
func (x *propWorld) at(n *Node, isNew bool, direct func(o Rsp),
	at func(anc Rsp, u string), router func(u string)) string {
	b := x.b
	if !isNew {
		return b.route(n, direct, at, router)
	}
	var how string
	if x.c.P(0.5) {
		u := b.fullURL(n)
		how = fmt.Sprintf("ro.…At(%q) new", u)
		x.c.Logf("%s", how)
		router(u)
	} else {
		a := pick(b.r, b.chain(n))
		u := b.relURL(a, n)
		how = fmt.Sprintf("#%d.…At(%q) new", a.ID, u)
		x.c.Logf("%s", how)
		at(b.Objs[a.ID], u)
	}
	for _, k := range kidsOf(b.Objs[n.Parent.ID]) {
		if b.idOfRes(k) < 0 {
			if b.Objs[n.ID] != nil {
				x.c.Fail("%s: more than one resource has been created", how)
			}
			b.set(n, k)
		}
	}
	if b.Objs[n.ID] == nil {
		x.c.Fail("%s: the resource hasn't been created", how)
	}
	return how
}

// step sets something.
func (x *propWorld) step() {
	c, b := x.c, x.b
	n, isNew := x.target()
	id := itoa(n.ID)
	tag := func(k string) string { return fmt.Sprintf("%s/%s%d", id, k, x.i) }
	var how, what string
	switch w := c.IntN(10); w {
	case 0:
		var v any = tag("data")
		if c.P(0.3) {
			v = oddShared(c.Rand)
		} else if c.P(0.1) {
			v = nil
		}
		how = x.at(n, isNew, func(o Rsp) { o.SetSharedData(v) },
			func(a Rsp, u string) { a.SetSharedDataAt(u, v) },
			func(u string) { b.Router.SetSharedDataAt(u, v) })
		n.Shared = v
		what = fmt.Sprintf("SetSharedData %v", v)
	case 1:
		impl, ms := randImpl(c, n)
		how = x.at(n, isNew, func(o Rsp) { o.SetImplementation(impl) },
			func(a Rsp, u string) { a.SetImplementationAt(u, impl) },
			func(u string) { b.Router.SetImplementationAt(u, impl) })
		setImplModel(n, impl, ms)
		what = fmt.Sprintf("SetImplementation %v", ms)
	case 2:
		k := (&cfgWorld{c: c}).config()
		if c.P(0.7) {
			k.Secure, k.RedirectsInsecureRequest, k.HasTrailingSlash = false, false, false
		}
		if isNew && !n.Cfg.Secure {
			k.RedirectsInsecureRequest = false
		}
		how = x.at(n, isNew, func(o Rsp) { o.SetConfiguration(k) },
			func(a Rsp, u string) { a.SetConfigurationAt(u, k) },
			func(u string) { b.Router.SetConfigurationAt(u, k) })
		(&cfgWorld{active: map[*Node]bool{}}).setCfg(n, k)
		what = fmt.Sprintf("SetConfiguration %+v", k)
	case 3:
		n.PermCode = pick(c.Rand, []int{301, 308})
		how = x.at(n, isNew, func(o Rsp) { o.SetPermanentRedirectCode(n.PermCode) },
			func(a Rsp, u string) { a.SetPermanentRedirectCodeAt(u, n.PermCode) },
			func(u string) { b.Router.SetPermanentRedirectCodeAt(u, n.PermCode) })
		what = fmt.Sprintf("SetPermanentRedirectCode %d", n.PermCode)
	case 4:
		n.RedirH = tag("r")
		delete(x.wraps, n)
		h := mkRedirH(n.RedirH)
		how = x.at(n, isNew, func(o Rsp) { o.SetRedirectHandler(h) },
			func(a Rsp, u string) { a.SetRedirectHandlerAt(u, h) },
			func(u string) { b.Router.SetRedirectHandlerAt(u, h) })
		what = "SetRedirectHandler"
	case 5:
		var ws []func(nm.RedirectHandler) nm.RedirectHandler
		for i := c.IntN(3); i >= 0; i-- {
			l := tag("w" + itoa(i) + "-")
			ws = append(ws, mkRedirMw(l))
			x.wraps[n] = append(x.wraps[n], l)
		}
		how = x.at(n, isNew, func(o Rsp) { o.WrapRedirectHandler(ws...) },
			func(a Rsp, u string) { a.WrapRedirectHandlerAt(u, ws...) },
			func(u string) { b.Router.WrapRedirectHandlerAt(u, ws...) })
		spoilRMws(ws)
		what = fmt.Sprintf("WrapRedirectHandler %d", len(ws))
	case 6, 7:
		var ms []string
		for i := c.IntN(3); i >= 0; i-- {
			ms = append(ms, pick(c.Rand, allMethods))
		}
		if c.P(0.15) {
			ms = []string{"!"}
		}
		l := b.methodList(ms)
		label := tag("h")
		h := mkHandler(label)
		how = x.at(n, isNew, func(o Rsp) { o.SetHandlerFor(l, h) },
			func(a Rsp, u string) { a.SetPathHandlerFor(l, u, h) },
			func(u string) { b.Router.SetURLHandlerFor(l, u, h) })
		if n.Handlers == nil {
			n.Handlers = map[string]string{}
		}
		for _, m := range ms {
			if m == "!" {
				n.NotAllow = label
			} else {
				n.Handlers[m] = label
			}
			delete(n.MethMws, m)
		}
		what = fmt.Sprintf("SetHandlerFor %q", l)
	case 8:
		kind := pick(c.Rand, []byte{'p', 'q'})
		var mws []nm.Middleware
		var ls []string
		for i := c.IntN(3); i >= 0; i-- {
			l := tag(string(kind) + itoa(i) + "-")
			mws, ls = append(mws, mkMw(kind, l)), append(ls, l)
		}
		if kind == 'p' {
			n.Passers = append(n.Passers, ls...)
			how = x.at(n, isNew, func(o Rsp) { o.WrapRequestPasser(mws...) },
				func(a Rsp, u string) { a.WrapRequestPasserAt(u, mws...) },
				func(u string) { b.Router.WrapRequestPasserAt(u, mws...) })
		} else {
			n.ReqMws = append(n.ReqMws, ls...)
			how = x.at(n, isNew, func(o Rsp) { o.WrapRequestHandler(mws...) },
				func(a Rsp, u string) { a.WrapRequestHandlerAt(u, mws...) },
				func(u string) { b.Router.WrapRequestHandlerAt(u, mws...) })
		}
		spoilMws(mws)
		what = fmt.Sprintf("Wrap %c %d", kind, len(mws))
	default:
		if len(n.Handlers) == 0 || isNew {
			if isNew {
				var o *nm.Resource
				how = x.at(n, isNew, nil,
					func(a Rsp, u string) { o = a.Resource(u) },
					func(u string) { o = b.Router.Resource(u) })
				if b.Objs[n.ID] != Rsp(o) {
					c.Fail("%s: the returned resource is another one", how)
				}
			}
			return
		}
		ms := append(n.Methods(), "!")
		c.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		ms = ms[:1+c.IntN(3)%len(ms)]
		if contains(ms, "!") {
			ms = []string{"!"}
		}
		lab := tag("m")
		if n.MethMws == nil {
			n.MethMws = map[string][]string{}
		}
		l := b.methodList(ms)
		if c.P(0.2) {
			l, ms = "*", n.Methods()
		}
		for _, m := range ms {
			n.MethMws[m] = append(n.MethMws[m], lab)
		}
		how = x.at(n, isNew, func(o Rsp) { o.WrapHandlerOf(l, mkMw('m', lab)) },
			func(a Rsp, u string) { a.WrapPathHandlerOf(l, u, mkMw('m', lab)) },
			func(u string) { b.Router.WrapURLHandlerOf(l, u, mkMw('m', lab)) })
		what = fmt.Sprintf("WrapHandlerOf %q", l)
	}
	c.Logf("%d: %s: %s of #%d", x.i, how, what, n.ID)
	c.Count("set")
}

// reject makes a call that must panic.
func (x *propWorld) reject() {
	c, b := x.c, x.b
	n := pick(c.Rand, x.t.Nodes)
	mw := mkMw('p', "997/bad")
	rmw := mkRedirMw("997/bad")
	h := mkHandler("997/bad")
	missing := ""
	for _, k := range c.Perm(len(allMethods)) {
		if !contains(n.Methods(), allMethods[k]) {
			missing = allMethods[k]
		}
	}
	type call struct {
		what   string
		direct func(o Rsp)
		at     func(a Rsp, u string)
		router func(u string)
	}
	none := pick(c.Rand, []string{"", " ", ",", " , "})
	code := pick(c.Rand, []int{0, 200, 300, 302, 303, 307, 404, -1, 3010})
	rcode := pick(c.Rand, []int{0, 200, 299, 400, 404, 500, -301})
	method := "GET"
	if len(n.Handlers) > 0 {
		method = pick(c.Rand, n.Methods())
	}
	ro := b.Router
	calls := []call{
		{"SetHandlerFor(nil)", func(o Rsp) { o.SetHandlerFor("GET", nil) },
			func(a Rsp, u string) { a.SetPathHandlerFor("GET", u, nil) },
			func(u string) { ro.SetURLHandlerFor("GET", u, nil) }},
		{"SetHandlerFor no method", func(o Rsp) { o.SetHandlerFor(none, h) },
			func(a Rsp, u string) { a.SetPathHandlerFor(none, u, h) },
			func(u string) { ro.SetURLHandlerFor(none, u, h) }},
		{"SetImplementation(nil)", func(o Rsp) { o.SetImplementation(nil) },
			func(a Rsp, u string) { a.SetImplementationAt(u, nil) },
			func(u string) { ro.SetImplementationAt(u, nil) }},
		{"SetPermanentRedirectCode " + itoa(code),
			func(o Rsp) { o.SetPermanentRedirectCode(code) },
			func(a Rsp, u string) { a.SetPermanentRedirectCodeAt(u, code) },
			func(u string) { ro.SetPermanentRedirectCodeAt(u, code) }},
		{"SetRedirectHandler(nil)", func(o Rsp) { o.SetRedirectHandler(nil) },
			func(a Rsp, u string) { a.SetRedirectHandlerAt(u, nil) },
			func(u string) { ro.SetRedirectHandlerAt(u, nil) }},
		{"WrapRedirectHandler()", func(o Rsp) { o.WrapRedirectHandler() },
			func(a Rsp, u string) { a.WrapRedirectHandlerAt(u) },
			func(u string) { ro.WrapRedirectHandlerAt(u) }},
		{"WrapRedirectHandler(nil)", func(o Rsp) { o.WrapRedirectHandler(nil, rmw) },
			func(a Rsp, u string) { a.WrapRedirectHandlerAt(u, nil, rmw) },
			func(u string) { ro.WrapRedirectHandlerAt(u, nil, rmw) }},
		{"WrapRequestPasser()", func(o Rsp) { o.WrapRequestPasser() },
			func(a Rsp, u string) { a.WrapRequestPasserAt(u) },
			func(u string) { ro.WrapRequestPasserAt(u) }},
		{"WrapRequestPasser(nil)", func(o Rsp) { o.WrapRequestPasser(nil, mw) },
			func(a Rsp, u string) { a.WrapRequestPasserAt(u, nil, mw) },
			func(u string) { ro.WrapRequestPasserAt(u, nil, mw) }},
		{"WrapRequestHandler()", func(o Rsp) { o.WrapRequestHandler() },
			func(a Rsp, u string) { a.WrapRequestHandlerAt(u) },
			func(u string) { ro.WrapRequestHandlerAt(u) }},
		{"WrapRequestHandler(nil)", func(o Rsp) { o.WrapRequestHandler(nil, mw) },
			func(a Rsp, u string) { a.WrapRequestHandlerAt(u, nil, mw) },
			func(u string) { ro.WrapRequestHandlerAt(u, nil, mw) }},
		{"WrapHandlerOf()", func(o Rsp) { o.WrapHandlerOf(method) },
			func(a Rsp, u string) { a.WrapPathHandlerOf(method, u) },
			func(u string) { ro.WrapURLHandlerOf(method, u) }},
		{"WrapHandlerOf(nil)", func(o Rsp) { o.WrapHandlerOf(method, nil, mw) },
			func(a Rsp, u string) { a.WrapPathHandlerOf(method, u, nil, mw) },
			func(u string) { ro.WrapURLHandlerOf(method, u, nil, mw) }},
		{"WrapHandlerOf no method", func(o Rsp) { o.WrapHandlerOf(none, mw) },
			func(a Rsp, u string) { a.WrapPathHandlerOf(none, u, mw) },
			func(u string) { ro.WrapURLHandlerOf(none, u, mw) }},
		{"WrapHandlerOf missing " + missing, func(o Rsp) { o.WrapHandlerOf(missing, mw) },
			func(a Rsp, u string) { a.WrapPathHandlerOf(missing, u, mw) },
			func(u string) { ro.WrapURLHandlerOf(missing, u, mw) }},
		{"RedirectRequestTo no URL", func(o Rsp) { o.RedirectRequestTo("", 308) },
			func(a Rsp, u string) { a.RedirectRequestAt(u, "", 308) },
			func(u string) { ro.RedirectRequestAt(u, "", 308) }},
		{"RedirectRequestTo " + itoa(rcode),
			func(o Rsp) { o.RedirectRequestTo("http://x.example", rcode) },
			func(a Rsp, u string) { a.RedirectRequestAt(u, "http://x.example", rcode) },
			func(u string) { ro.RedirectRequestAt(u, "http://x.example", rcode) }},
		{"RedirectAnyRequestTo no URL", func(o Rsp) { o.RedirectAnyRequestTo("", 308) },
			func(a Rsp, u string) { a.RedirectAnyRequestAt(u, "", 308) },
			func(u string) { ro.RedirectAnyRequestAt(u, "", 308) }},
		{"RedirectAnyRequestTo " + itoa(rcode),
			func(o Rsp) { o.RedirectAnyRequestTo("http://x.example", rcode) },
			func(a Rsp, u string) { a.RedirectAnyRequestAt(u, "http://x.example", rcode) },
			func(u string) { ro.RedirectAnyRequestAt(u, "http://x.example", rcode) }},
	}
	k := pick(c.Rand, calls)
	var err any
	run := func(f func()) { err = panics(f) }
	way := b.route(n, func(o Rsp) { run(func() { k.direct(o) }) },
		func(a Rsp, u string) { run(func() { k.at(a, u) }) },
		func(u string) { run(func() { k.router(u) }) })
	c.Logf("%d: %s: %s of #%d must panic", x.i, way, k.what, n.ID)
	x.must(fmt.Sprintf("%s: %s", way, k.what), err)
}

// rejectOther makes a call with an argument that's missing or invalid, or asks
// for a responder that isn't there.
func (x *propWorld) rejectOther() {
	c, b, ro := x.c, x.b, x.b.Router
	n := pick(c.Rand, x.t.Nodes)
	o := b.Objs[n.ID]
	mw := mkMw('p', "997/bad")
	bad := pick(c.Rand, invalidTmpls)
	none := pick(c.Rand, []string{"", " ", ",", " , "})
	seg := tmplText(x.tmpls[x.good()], "", same)
	type call struct {
		what string
		f    func()
	}
	calls := []call{
		{"o.RegisterResource(nil)", func() { o.RegisterResource(nil) }},
		{"o.RegisterResourceUnder(nil)", func() { o.RegisterResourceUnder(seg, nil) }},
		{"ro.RegisterHost(nil)", func() { ro.RegisterHost(nil) }},
		{"ro.RegisterResource(nil)", func() { ro.RegisterResource(nil) }},
		{"ro.RegisterResourceUnder(nil)", func() { ro.RegisterResourceUnder("/"+seg, nil) }},
		{"ro.WrapRequestPasser()", func() { ro.WrapRequestPasser() }},
		{"ro.WrapRequestPasser(nil)", func() { ro.WrapRequestPasser(nil, mw) }},
		{"ro.WrapAllRequestPassers()", func() { ro.WrapAllRequestPassers() }},
		{"ro.WrapAllRequestPassers(nil)", func() { ro.WrapAllRequestPassers(nil, mw) }},
		{"ro.WrapAllRequestHandlers()", func() { ro.WrapAllRequestHandlers() }},
		{"ro.WrapAllRequestHandlers(nil)", func() { ro.WrapAllRequestHandlers(nil, mw) }},
		{"ro.WrapAllHandlersOf no method", func() { ro.WrapAllHandlersOf(none, mw) }},
		{"o.WrapSubtreeHandlersOf no method", func() { o.WrapSubtreeHandlersOf(none, mw) }},
		{"o.Resource " + bad, func() { o.Resource(bad) }},
		{"o.Resource \"\"", func() { o.Resource("") }},
		{"ro.Resource \"\"", func() { ro.Resource("") }},
		{"ro.Host " + bad, func() { ro.Host("http://" + bad) }},
		{"ro.RegisteredResource \"\"", func() { ro.RegisteredResource("") }},
		{"ro.RegisteredHost \"\"", func() { ro.RegisteredHost("") }},
		{"ro.RegisteredHost with a path", func() { ro.RegisteredHost("http://a.example/b") }},
	}
	if len(n.Kids) > 0 {
		calls = append(calls,
			call{"o.WrapSubtreeRequestPassers()", func() { o.WrapSubtreeRequestPassers() }},
			call{"o.WrapSubtreeRequestPassers(nil)", func() { o.WrapSubtreeRequestPassers(nil, mw) }},
			call{"o.WrapSubtreeRequestHandlers()", func() { o.WrapSubtreeRequestHandlers() }},
			call{"o.WrapSubtreeRequestHandlers(nil)", func() { o.WrapSubtreeRequestHandlers(nil, mw) }})
	}
	k := pick(c.Rand, calls)
	what := strings.Replace(k.what, "o.", fmt.Sprintf("#%d.", n.ID), 1)
	if strings.HasPrefix(k.what, "ro.") {
		what = k.what
	}
	c.Logf("%d: %s must panic", x.i, what)
	x.must(what, panics(k.f))

	// What isn't there isn't found.
	no := func(what string, found bool) {
		if found {
			c.Fail("%d: %s is found", x.i, what)
		}
	}
	no("a nil host", ro.HasHost(nil))
	no("a nil resource", o.HasChildResource(nil))
	for _, h := range x.t.Hosts {
		no("another host with the template of a host", ro.HasHost(nm.NewDormantHost(hostURL(h))))
	}
	for _, k := range n.Kids {
		u := "/" + k.Tmpl.URLSrc()
		no("another resource with the template of a resource",
			o.HasChildResource(nm.NewDormantResource(u)))
	}
	if ro.HasAnyHost() != (len(x.t.Hosts) > 0) {
		c.Fail("%d: HasAnyHost is %v", x.i, ro.HasAnyHost())
	}
	if o.HasAnyChildResources() != (len(n.Kids) > 0) {
		c.Fail("%d: #%d.HasAnyChildResources is %v", x.i, n.ID, o.HasAnyChildResources())
	}
	c.Count("what isn't there isn't found")
}

func (x *propWorld) must(how string, err any) {
	if err == nil {
		x.c.Fail("%s is accepted", how)
	}
	if s := fmt.Sprint(err); strings.Contains(s, "runtime error") {
		x.c.Fail("%s: %s", how, s)
	}
	x.c.Count("rejected")
}

// absent reads properties at URLs that no responder has, or with another
// scheme or trailing slash.
func (x *propWorld) absent() {
	c, b := x.c, x.b
	n := pick(c.Rand, x.t.Nodes)
	readers := []struct {
		what   string
		at     func(a Rsp, u string)
		router func(u string)
	}{
		{"SharedDataAt", func(a Rsp, u string) { a.SharedDataAt(u) },
			func(u string) { b.Router.SharedDataAt(u) }},
		{"ImplementationAt", func(a Rsp, u string) { a.ImplementationAt(u) },
			func(u string) { b.Router.ImplementationAt(u) }},
		{"ConfigurationAt", func(a Rsp, u string) { a.ConfigurationAt(u) },
			func(u string) { b.Router.ConfigurationAt(u) }},
		{"PermanentRedirectCodeAt", func(a Rsp, u string) { a.PermanentRedirectCodeAt(u) },
			func(u string) { b.Router.PermanentRedirectCodeAt(u) }},
		{"RedirectHandlerAt", func(a Rsp, u string) { a.RedirectHandlerAt(u) },
			func(u string) { b.Router.RedirectHandlerAt(u) }},
		{"HandlerOf", func(a Rsp, u string) { a.PathHandlerOf("GET", u) },
			func(u string) { b.Router.URLHandlerOf("GET", u) }},
		{"WrapHandlerOf", func(a Rsp, u string) { a.WrapPathHandlerOf("*", u, mkMw('m', "997/bad")) },
			func(u string) { b.Router.WrapURLHandlerOf("*", u, mkMw('m', "997/bad")) }},
	}
	k := pick(c.Rand, readers)
	// A copy of the node, or a resource below it, that isn't there.
	q := &Node{ID: -1, Kind: n.Kind, Tmpl: n.Tmpl, Parent: n.Parent, Cfg: n.Cfg}
	why := "another scheme"
	switch c.IntN(4) {
	case 0:
		if n.Cfg.Secure && n.Kind == kRes && n.Host() == nil {
			return
		}
		q.Cfg.Secure = !q.Cfg.Secure
	case 1:
		if n.Cfg.LenientTS || n.Kind == kRoot {
			return
		}
		q.Cfg.TSlash = !q.Cfg.TSlash
		why = "another trailing slash"
	case 2:
		q.Kind, q.Parent = kRes, n
		q.Tmpl = x.tmpls[x.good()]
		why = "a missing resource"
		if c.P(0.3) {
			p := *q
			p.Tmpl = x.tmpls[x.good()]
			q.Parent = &p
		}
	default:
		if c.P(0.5) || n.Host() == nil {
			return
		}
		q = &Node{Kind: kHost, Tmpl: &Tmpl{Parts: []Part{{Static: x.word() + ".example"}}}}
		if c.P(0.5) {
			q = &Node{Kind: kRes, Tmpl: x.tmpls[x.good()], Parent: q}
		}
		why = "a missing host"
	}
	var err any
	var how string
	if a := n.Parent; why != "a missing host" && q.Kind == kRes && c.P(0.5) && (a != nil || q.Parent != nil) {
		if why == "a missing resource" {
			a = n
		}
		u := b.relURL(a, q)
		how = fmt.Sprintf("#%d.%s(%q)", a.ID, k.what, u)
		if !strings.HasPrefix(u, "http") && why == "another scheme" {
			u = "http:///" + u
		}
		c.Logf("%d: %s: %s", x.i, how, why)
		err = panics(func() { k.at(b.Objs[a.ID], u) })
	} else {
		u := b.fullURL(q)
		how = fmt.Sprintf("ro.%s(%q)", k.what, u)
		c.Logf("%d: %s: %s", x.i, how, why)
		err = panics(func() { k.router(u) })
	}
	c.Count("read in vain: " + why)
	x.must(how+" ("+why+")", err)
}

func propsCase(c *Case) {
	p := baseProf()
	flavour(c, &p)
	p.MaxNodes = 9
	p.SharedP, p.ImplP, p.PermCodeP, p.RedirHP = 0.3, 0.3, 0.3, 0.3
	p.PasserP, p.ReqMwP, p.MethMwP = 0.1, 0.1, 0.2
	t, b, desc := begin(c, p)
	x := &propWorld{placer: &placer{c: c, b: b, t: t, tmpls: map[string]*Tmpl{}},
		wraps: map[*Node][]string{}, th: hash64(desc)}
	for _, n := range t.Nodes {
		// Everything is configured.
		u := b.fullURL(n)
		var o Rsp
		if n.Kind == kHost {
			o = b.Router.Host(u)
		} else {
			o = b.Router.Resource(u)
		}
		b.set(n, o)
	}
	for x.i = 0; x.i < 30; x.i++ {
		switch w := c.IntN(10); {
		case w < 6:
			x.step()
		case w < 8:
			if x.c.P(0.4) {
				x.rejectOther()
			} else {
				x.reject()
			}
		case w == 8:
			x.absent()
		default:
			rq := genReq(c.Rand, t, baseReq())
			out := predict(t, rq)
			o := serve(b, b.Router, rq, t.AllNames())
			d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, false),
				diffAllow(out, o), diffSeq(out, o, "pqmhr", true), diffSnaps(out, o, "hpqm", snResp|snData))
			if d != "" {
				c.Logf("%s", t)
				report(c, rq, out, o, d)
			}
			c.Count("answer: " + out.Kind())
		}
		for k := 0; k < 3; k++ {
			x.read(pick(c.Rand, t.Nodes))
		}
	}
	for _, n := range t.Nodes {
		x.read(n)
	}
	m := map[Rsp]int{}
	for _, n := range t.Nodes {
		m[b.Objs[n.ID]] = 1
	}
	if d := sameCensus(m, b.census()); d != "" {
		c.Fail("at the end: %s", d)
	}
	if c.Index < 3 {
		c.Sample("%.300s", strings.Join(c.log, " | "))
	}
}

func init() {
	register("C33", "histories of setting and wrapping every property (shared data, implementation, "+
		"configuration, handlers, redirect code and handler, middlewares) of random responders "+
		"directly, by path and by URL, also of ones that come into being thereby, of calls with "+
		"invalid arguments, which must panic, and of readers at URLs without a responder, which must "+
		"panic; everything is read back by random routes after each and handlers that are read are "+
		"called; non-trivial: every reading",
		func(run *Run) {
			run.Stage("properties", scale(5000, 85000), propsCase)
			nm.SetPermanentRedirectCode(301)
			permGlobal = 301
			run.Stage("properties while the common permanent redirect code is 301",
				scale(1500, 20000), propsCase)
			resetGlobals()
		}, "all responders are configured")
}
