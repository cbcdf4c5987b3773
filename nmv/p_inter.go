package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Two routers (and responders out of them) are built step by step, in turns,
// of the same texts, implementations and lists of middlewares. What the steps
// of one make must not depend on the steps of the other.

type interPool struct {
	urls  []string
	impls []nm.Impl
	mws   [][]nm.Middleware
	rmws  [][]func(nm.RedirectHandler) nm.RedirectHandler
	vals  nm.HostPathValues
	reqs  [][2]string // Methods and URLs.
}

type interWorld struct {
	p   *interPool
	ro  *nm.Router
	res []*nm.Resource // Made out of the router, some registered later.
	out []string       // What the steps returned.
}

type interStep struct {
	name string
	do   func(w *interWorld) string
}

func interSay(l string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		fmt.Fprint(w, "h:", l, " ", args.HostPathValues(), " ", args.RemainingPath(), " ",
			args.ResponderSharedData())
		return true
	}
}

func interMw(l string) nm.Middleware {
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			w.Header().Add("Trace", l)
			return next(w, r, args)
		}
	}
}

func interRMw(l string) func(nm.RedirectHandler) nm.RedirectHandler {
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
			w.Header().Add("Trace", l)
			return next(w, r, u, code, args)
		}
	}
}

func newInterPool(c *Case) *interPool {
	p := &interPool{}
	hosts := []string{"", "", "http://h.com/", "http://{s}.org/", `http://{s:\w+}.{t:net}/`, "https://sec.com/"}
	segs := []string{"a", "b", "{x}", `{x:\d+}`, `n{y:\d+}-{z}`, `$q:{y}q`, `v{z:[a-c]+}`, "c"}
	for len(p.urls) < 5 {
		h := pick(c.Rand, hosts)
		var ss []string
		names := ""
		for n := c.IntN(4); n > 0; n-- {
			s := pick(c.Rand, segs)
			if strings.Contains(s, "{") {
				dup := false
				for _, v := range []string{"x", "y", "z"} {
					if strings.Contains(s, "{"+v) {
						dup = dup || strings.Contains(names, v)
						names += v
					}
				}
				if dup {
					continue
				}
			}
			ss = append(ss, s)
		}
		u := h
		if u == "" {
			u = "/"
		}
		u += strings.Join(ss, "/")
		if len(ss) > 0 && c.P(0.2) {
			u += "/"
		}
		p.urls = append(p.urls, u)
	}
	for i := 0; i < 3; i++ {
		m, _ := randImpl(c, &Node{ID: i})
		p.impls = append(p.impls, m)
		var ms []nm.Middleware
		var rs []func(nm.RedirectHandler) nm.RedirectHandler
		for j := c.IntN(4) + 1; j > 0; j-- {
			ms = append(ms, interMw(fmt.Sprint("m", i, j)))
			rs = append(rs, interRMw(fmt.Sprint("r", i, j)))
		}
		p.mws, p.rmws = append(p.mws, ms), append(p.rmws, rs)
	}
	for _, n := range shuffledStrings(c, []string{"s", "t", "x", "y", "z", "other", "more"}) {
		p.vals.Set(n, map[string]string{"s": "www", "t": "net", "x": "12", "y": "7", "z": "abc"}[n])
	}
	for _, u := range p.urls {
		for _, s := range []string{"http", "https"} {
			u := u
			if !strings.Contains(u, "://") {
				u = pick(c.Rand, []string{"http://none", "http://h.com", "http://www.org", "http://a.net"}) + u
			}
			_, u, _ = strings.Cut(u, "://")
			u = strings.NewReplacer(`{s:\w+}`, "www", "{t:net}", "net", "{s}", "www", "{x}", "12",
				`{x:\d+}`, "12", `{y:\d+}`, "7", "{y}", "7", "{z}", "abc", "{z:[a-c]+}", "abc",
				"$q:", "").Replace(u)
			if c.P(0.2) {
				u = strings.TrimSuffix(u, "/")
			} else if c.P(0.2) {
				u += pick(c.Rand, []string{"/", "/more", "//", "/../a"})
			}
			p.reqs = append(p.reqs, [2]string{
				pick(c.Rand, []string{"GET", "GET", "POST", "OPTIONS", "PUT"}), s + "://" + u})
		}
	}
	return p
}

func shuffledStrings(c *Case, ss []string) []string {
	ss = append([]string{}, ss...)
	c.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	return ss
}

// ask describes the answer to the request.
func (w *interWorld) ask(h http.Handler, m, u string) string {
	r, err := http.NewRequest(m, u, nil)
	if err != nil {
		panic(err)
	}
	rw := httptest.NewRecorder()
	pv := panics(func() { h.ServeHTTP(rw, r) })
	hd := rw.Header()
	s := fmt.Sprint(m, " ", u, ": ", rw.Code, " ", hd["Allow"], hd["Location"], hd["Trace"],
		strings.TrimSpace(rw.Body.String()), " ", pv)
	spoilHeader(hd)
	return s
}

type interResp interface {
	Rsp
	URL(nm.HostPathValues) (*url.URL, error)
}

func (w *interWorld) getters(o interResp) string {
	u, err := o.URL(w.p.vals)
	us := fmt.Sprint(u, err)
	spoilURL(u)
	t := o.Template()
	var kids []string
	for _, k := range kidsOf(o) {
		kids = append(kids, k.Template().String())
	}
	sort.Strings(kids)
	str, err2 := t.TryToApply(w.p.vals, false)
	return fmt.Sprint(us, o.Name(), o.Configuration(), methodsOf(o), kids, t.String(), namesOf(t),
		t.Content(), str, err2, o.SharedData(), o.PermanentRedirectCode(), o.Implementation() == nil,
		o.HandlerOf("GET") == nil, o.HandlerOf("!") == nil, o.RedirectHandler() == nil)
}

func (w *interWorld) census() []string {
	var out []string
	for _, q := range w.p.reqs {
		out = append(out, w.ask(w.ro, q[0], q[1]))
		for _, r := range w.res {
			out = append(out, w.ask(r, q[0], q[1]))
		}
	}
	for _, u := range w.p.urls {
		var o interResp
		pv := panics(func() {
			if r := w.ro.RegisteredResource(u); r != nil {
				o = r
			} else if strings.Contains(u, "://") {
				if h := w.ro.RegisteredHost(u); h != nil {
					o = h
				}
			}
		})
		if o != nil {
			out = append(out, u+": "+w.getters(o))
		} else {
			out = append(out, u+": "+fmt.Sprint(pv))
		}
	}
	for i, r := range w.res {
		out = append(out, fmt.Sprint("resource ", i, ": ", w.getters(r)))
	}
	var hs []string
	for _, h := range hostsOf(w.ro) {
		hs = append(hs, w.getters(h))
	}
	sort.Strings(hs)
	return append(out, hs...)
}

func interSteps(c *Case, p *interPool, label string, n int) []interStep {
	var steps []interStep
	add := func(name string, f func(w *interWorld) string) {
		steps = append(steps, interStep{name, f})
	}
	made := 0
	for i := 0; i < n; i++ {
		l := label + itoa(i)
		u := pick(c.Rand, p.urls)
		k := c.IntN(3)
		ms := pick(c.Rand, []string{"GET", "POST", "GET PUT", "!", "OPTIONS", "GET"})
		wm := pick(c.Rand, []string{"GET", "*", "*", "!", "OPTIONS"})
		cfg := randCfg(c, 0.3)
		cfg.RedirInsec = false
		code := pick(c.Rand, []int{301, 308})
		q := pick(c.Rand, p.reqs)
		// Properties are set at the router, at its registered responder or at a
		// resource out of the router.
		at := func(name string, ro func(ro *nm.Router), re func(o interResp)) {
			j := -1
			if made > 0 && c.P(0.4) {
				j = c.IntN(made)
			}
			direct := c.P(0.5)
			add(fmt.Sprintf("%s %s %d", name, u, j), func(w *interWorld) string {
				if j >= 0 {
					if j < len(w.res) {
						re(w.res[j])
					}
				} else if direct {
					if r := w.ro.Resource(u); r != nil {
						re(r)
					}
				} else {
					ro(w.ro)
				}
				return ""
			})
		}
		switch c.IntN(24) {
		case 0, 1, 2, 3:
			at("SetHandlerFor "+ms, func(ro *nm.Router) { ro.SetURLHandlerFor(ms, u, interSay(l)) },
				func(o interResp) { o.SetHandlerFor(ms, interSay(l)) })
		case 4, 5:
			at("SetImplementation", func(ro *nm.Router) { ro.SetImplementationAt(u, p.impls[k]) },
				func(o interResp) { o.SetImplementation(p.impls[k]) })
		case 6, 7:
			at("WrapRequestHandler", func(ro *nm.Router) { ro.WrapRequestHandlerAt(u, p.mws[k]...) },
				func(o interResp) { o.WrapRequestHandler(p.mws[k]...) })
		case 8:
			at("WrapRequestPasser", func(ro *nm.Router) { ro.WrapRequestPasserAt(u, p.mws[k]...) },
				func(o interResp) { o.WrapRequestPasser(p.mws[k]...) })
		case 9, 10:
			at("WrapHandlerOf "+wm, func(ro *nm.Router) { ro.WrapURLHandlerOf(wm, u, p.mws[k]...) },
				func(o interResp) { o.WrapHandlerOf(wm, p.mws[k]...) })
		case 11:
			at("WrapRedirectHandler", func(ro *nm.Router) { ro.WrapRedirectHandlerAt(u, p.rmws[k]...) },
				func(o interResp) { o.WrapRedirectHandler(p.rmws[k]...) })
		case 12:
			at("SetConfiguration", func(ro *nm.Router) { ro.SetConfigurationAt(u, cfg.NM()) },
				func(o interResp) { o.SetConfiguration(cfg.NM()) })
		case 13:
			at("SetPermanentRedirectCode", func(ro *nm.Router) { ro.SetPermanentRedirectCodeAt(u, code) },
				func(o interResp) { o.SetPermanentRedirectCode(code) })
		case 14:
			at("SetSharedData", func(ro *nm.Router) { ro.SetSharedDataAt(u, l) },
				func(o interResp) { o.SetSharedData(l) })
		case 15:
			at("RedirectRequestTo", func(ro *nm.Router) { ro.RedirectRequestAt(u, "/to/"+l, 302) },
				func(o interResp) { o.RedirectRequestTo("/to/"+l, 302) })
		case 16:
			add("Resource "+u, func(w *interWorld) string {
				r := w.ro.Resource(u)
				return w.getters(r)
			})
		case 17, 18:
			j := pick(c.Rand, []string{"a", "b", "{x}", "/", `{y:\d+}q`, "d"})
			withCfg, withImpl := c.P(0.3), c.P(0.5)
			add("new "+j, func(w *interWorld) string {
				var r *nm.Resource
				switch {
				case withCfg && withImpl:
					r = nm.NewResourceUsingConfig(j, p.impls[k], cfg.NM())
				case withCfg:
					r = nm.NewDormantResourceUsingConfig(j, cfg.NM())
				case withImpl:
					r = nm.NewResource(j, p.impls[k])
				default:
					r = nm.NewDormantResource(j)
				}
				w.res = append(w.res, r)
				return w.getters(r)
			})
			made++
		case 19:
			if made == 0 {
				continue
			}
			j := c.IntN(made)
			under := c.P(0.5)
			add("register "+u, func(w *interWorld) string {
				if j < len(w.res) {
					if under {
						w.ro.RegisterResourceUnder(u, w.res[j])
					} else {
						w.ro.RegisterResource(w.res[j])
					}
				}
				return ""
			})
		case 20:
			at("SetName", func(ro *nm.Router) { ro.Resource(u).Template().SetName(l) },
				func(o interResp) { o.Template().SetName(l) })
		case 21:
			add("bulk", func(w *interWorld) string {
				switch i % 3 {
				case 0:
					w.ro.WrapAllRequestPassers(p.mws[k]...)
				case 1:
					w.ro.SetSharedDataForAll(l)
				default:
					w.ro.WrapRequestPasser(p.mws[k]...)
				}
				return ""
			})
		default:
			add("request", func(w *interWorld) string { return w.ask(w.ro, q[0], q[1]) })
		}
	}
	return steps
}

func (w *interWorld) step(s interStep) {
	out := ""
	pv := panics(func() { out = s.do(w) })
	w.out = append(w.out, fmt.Sprint(s.name, " -> ", out, " ", pv))
}

func newInterWorld(c *Case, p *interPool) *interWorld {
	return &interWorld{p: p, ro: nm.NewRouter()}
}

func (w *interWorld) all() []string { return append(w.out, w.census()...) }

func interCase(c *Case) {
	p := newInterPool(c)
	sa := interSteps(c, p, "A", 4+c.IntN(20))
	sb := interSteps(c, p, "B", 4+c.IntN(20))
	alone := newInterWorld(c, p)
	for _, s := range sb {
		alone.step(s)
		c.Logf("B: %s", alone.out[len(alone.out)-1])
	}
	said := alone.all()
	a, b := newInterWorld(c, p), newInterWorld(c, p)
	order := ""
	for i, j := 0, 0; i < len(sa) || j < len(sb); {
		if j == len(sb) || i < len(sa) && c.P(0.5) {
			a.step(sa[i])
			c.Logf("A: %s", a.out[len(a.out)-1])
			i++
			order += "a"
		} else {
			b.step(sb[j])
			c.Logf("B: %s", sb[j].name)
			j++
			order += "b"
		}
	}
	cmp := func(w *interWorld, said []string, what string) {
		is := w.all()
		for i := range said {
			if i >= len(is) || is[i] != said[i] {
				c.Fail("%s (order %s):\n%s\nalone:\n%s", what, order, is[i], said[i])
			}
			c.Eval("")
		}
		c.EvalHash(hash64(what, strings.Join(said, "\n"), order))
	}
	cmp(b, said, "built in turns with another router")
	saidA := a.all()
	again := newInterWorld(c, p)
	for _, s := range sa {
		again.step(s)
	}
	cmp(again, saidA, "the other router, built again alone")
	for _, s := range sb {
		if strings.HasPrefix(s.name, "request") || strings.HasPrefix(s.name, "new") {
			continue
		}
		c.Count("step " + strings.Fields(s.name)[0])
	}
	for _, s := range b.out {
		if !strings.HasSuffix(s, " <nil>") {
			c.Count("refused steps")
		} else {
			c.Count("accepted steps")
		}
	}
}
