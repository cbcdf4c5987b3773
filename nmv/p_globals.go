package main

import (
	"fmt"
	"net/http"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// permGlobal is the permanent redirect code that the models expect.
var permGlobal = 308

// gl is a handler or a middleware of a chain. The first of a chain is the
// handler. The default one has no label.
type gl struct {
	label string
	stop  bool // It responds without calling the next one.
}

type glChain []gl

// run returns the labels of those that are called, and the status of the one
// that stops or 0.
func (ch glChain) run() (ls []string, status int) {
	for i := len(ch) - 1; i >= 0; i-- {
		if ch[i].label != "" {
			ls = append(ls, ch[i].label)
		}
		if ch[i].stop {
			return ls, 299
		}
	}
	return ls, 0
}

func (ch glChain) with(g gl) glChain { return append(ch[:len(ch):len(ch)], g) }

// glEvent records a call, also those without arguments.
func glEvent(k byte, l string, r *http.Request, url string, code int, args *nm.Args) {
	tr := traceOf(r)
	if tr == nil {
		return
	}
	ev := Ev{K: k, L: l, Node: -1, URL: url, Code: code, W: args != nil}
	if args != nil {
		ev.S = tr.snap(args)
	}
	tr.add(ev)
}

func glNotFound(l string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		glEvent('n', l, r, "", 0, args)
		w.WriteHeader(404)
		fmt.Fprint(w, l)
		return true
	}
}

func glNotFoundMw(g gl) nm.Middleware {
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			glEvent('n', g.label, r, "", 0, args)
			if g.stop {
				w.WriteHeader(299)
				fmt.Fprint(w, g.label)
				return true
			}
			return next(w, r, args)
		}
	}
}

func glRedirect(l string) nm.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, url string, code int, args *nm.Args) bool {
		glEvent('g', l, r, url, code, args)
		w.Header().Set("Location", url)
		w.WriteHeader(code)
		fmt.Fprint(w, l)
		return true
	}
}

func glRedirectMw(g gl) func(nm.RedirectHandler) nm.RedirectHandler {
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, url string, code int, args *nm.Args) bool {
			glEvent('g', g.label, r, url, code, args)
			if g.stop {
				w.WriteHeader(299)
				fmt.Fprint(w, g.label)
				return true
			}
			return next(w, r, url, code, args)
		}
	}
}

// glWorld is what the operations have made.
type glWorld struct {
	c     *Case
	ts    []*Tree
	bs    []*Built
	nf    glChain
	rh    glChain
	own   []map[*Node]glChain
	seq   int
	names [][]string
}

var (
	defNotFound = nm.HandlerOfNotFound()
	defRedirect = nm.CommonRedirectHandler()
)

func resetGlobals() {
	nm.SetHandlerForNotFound(defNotFound)
	nm.SetCommonRedirectHandler(defRedirect)
	nm.SetPermanentRedirectCode(308)
	permGlobal = 308
}

func (x *glWorld) next(pre string) gl {
	x.seq++
	return gl{label: pre + itoa(x.seq), stop: x.c.P(0.12)}
}

func (x *glWorld) must(what string, want bool, f func()) {
	p := panics(f)
	x.c.Logf("%s%s", what, map[bool]string{true: " must be rejected"}[want])
	if (p != nil) != want {
		x.c.Fail("%s: panic: %v, expected a panic: %v", what, p, want)
	}
}

// rmws makes redirect middlewares.
func (x *glWorld) rmws(pre string, ch *glChain) (
	mws []func(nm.RedirectHandler) nm.RedirectHandler, ls string,
) {
	for i := x.c.IntN(3); i >= 0; i-- {
		g := x.next(pre)
		*ch = ch.with(g)
		mws = append(mws, glRedirectMw(g))
		ls += " " + g.label
		if g.stop {
			ls += "(stops)"
		}
	}
	return
}

func (x *glWorld) global() {
	c := x.c
	switch c.IntN(7) {
	case 0:
		g := x.next("N")
		g.stop = false
		x.nf = glChain{g}
		x.must("SetHandlerForNotFound "+g.label, false, func() { nm.SetHandlerForNotFound(glNotFound(g.label)) })
	case 1:
		var mws []nm.Middleware
		ls := ""
		for i := c.IntN(3); i >= 0; i-- {
			g := x.next("n")
			x.nf = x.nf.with(g)
			mws = append(mws, glNotFoundMw(g))
			ls += " " + g.label
		}
		x.must("WrapHandlerOfNotFound"+ls, false, func() { nm.WrapHandlerOfNotFound(mws...) })
		spoilMws(mws)
	case 2:
		g := x.next("C")
		g.stop = false
		x.rh = glChain{g}
		x.must("SetCommonRedirectHandler "+g.label, false, func() { nm.SetCommonRedirectHandler(glRedirect(g.label)) })
	case 3:
		mws, ls := x.rmws("c", &x.rh)
		x.must("WrapCommonRedirectHandler"+ls, false, func() { nm.WrapCommonRedirectHandler(mws...) })
		spoilRMws(mws)
	case 4:
		permGlobal = pick(c.Rand, []int{301, 308})
		x.must(fmt.Sprint("SetPermanentRedirectCode ", permGlobal), false,
			func() { nm.SetPermanentRedirectCode(permGlobal) })
	case 5:
		code := pick(c.Rand, []int{0, -1, 200, 300, 302, 303, 304, 307, 309, 310, 400, 404, 500, 3081})
		x.must(fmt.Sprint("SetPermanentRedirectCode ", code), true,
			func() { nm.SetPermanentRedirectCode(code) })
	default:
		switch c.IntN(4) {
		case 0:
			x.must("SetHandlerForNotFound nil", true, func() { nm.SetHandlerForNotFound(nil) })
		case 1:
			x.must("SetCommonRedirectHandler nil", true, func() { nm.SetCommonRedirectHandler(nil) })
		case 2:
			x.must("WrapHandlerOfNotFound nothing", true, func() { nm.WrapHandlerOfNotFound() })
			x.must("WrapHandlerOfNotFound nil", true, func() { nm.WrapHandlerOfNotFound(nil) })
		default:
			x.must("WrapCommonRedirectHandler nothing", true, func() { nm.WrapCommonRedirectHandler() })
			x.must("WrapCommonRedirectHandler nil", true, func() { nm.WrapCommonRedirectHandler(nil) })
		}
	}
}

// chain returns the redirect handler that the responder uses.
func (x *glWorld) chain(k int, n *Node) glChain {
	if ch, ok := x.own[k][n]; ok {
		return ch
	}
	return x.rh
}

// way returns how the responder is addressed: directly, by an ancestor or by
// the router.
func (x *glWorld) way(k int, n *Node) (anc Rsp, ro *nm.Router, u, text string) {
	b := x.bs[k]
	switch x.c.IntN(3) {
	case 0:
		return nil, b.Router, b.fullURL(n), fmt.Sprintf("router %d at %s: ", k, b.fullURL(n))
	case 1:
		if as := b.chain(n); n.Kind == kRes && len(as) > 0 {
			a := pick(x.c.Rand, as)
			u := b.relURL(a, n)
			return b.Objs[a.ID], nil, u, fmt.Sprintf("tree %d #%d at %s: ", k, a.ID, u)
		}
	}
	return b.Objs[n.ID], nil, "", fmt.Sprintf("tree %d #%d: ", k, n.ID)
}

func (x *glWorld) local() {
	c := x.c
	k := c.IntN(len(x.ts))
	n := pick(c.Rand, x.ts[k].Nodes)
	o, ro, u, text := x.way(k, n)
	switch c.IntN(4) {
	case 0:
		g := x.next("O")
		g.stop = false
		h := glRedirect(g.label)
		x.own[k][n] = glChain{g}
		x.must(text+"SetRedirectHandler "+g.label, false, func() {
			switch {
			case ro != nil:
				ro.SetRedirectHandlerAt(u, h)
			case u != "":
				o.SetRedirectHandlerAt(u, h)
			default:
				o.SetRedirectHandler(h)
			}
		})
	case 1:
		ch := x.chain(k, n)
		mws, ls := x.rmws("o", &ch)
		x.own[k][n] = ch
		x.must(text+"WrapRedirectHandler"+ls, false, func() {
			switch {
			case ro != nil:
				ro.WrapRedirectHandlerAt(u, mws...)
			case u != "":
				o.WrapRedirectHandlerAt(u, mws...)
			default:
				o.WrapRedirectHandler(mws...)
			}
		})
		spoilRMws(mws)
	case 2:
		code := pick(c.Rand, []int{301, 308})
		n.PermCode = code
		x.must(fmt.Sprint(text, "SetPermanentRedirectCode ", code), false, func() {
			switch {
			case ro != nil:
				ro.SetPermanentRedirectCodeAt(u, code)
			case u != "":
				o.SetPermanentRedirectCodeAt(u, code)
			default:
				o.SetPermanentRedirectCode(code)
			}
		})
	default:
		switch c.IntN(3) {
		case 0:
			code := pick(c.Rand, []int{0, -308, 200, 300, 302, 303, 304, 305, 307, 309, 400})
			x.must(fmt.Sprint(text, "SetPermanentRedirectCode ", code), true, func() {
				switch {
				case ro != nil:
					ro.SetPermanentRedirectCodeAt(u, code)
				case u != "":
					o.SetPermanentRedirectCodeAt(u, code)
				default:
					o.SetPermanentRedirectCode(code)
				}
			})
		case 1:
			x.must(text+"SetRedirectHandler nil", true, func() {
				switch {
				case ro != nil:
					ro.SetRedirectHandlerAt(u, nil)
				case u != "":
					o.SetRedirectHandlerAt(u, nil)
				default:
					o.SetRedirectHandler(nil)
				}
			})
		default:
			x.must(text+"WrapRedirectHandler nothing", true, func() {
				switch {
				case ro != nil:
					ro.WrapRedirectHandlerAt(u)
				case u != "":
					o.WrapRedirectHandlerAt(u)
				default:
					o.WrapRedirectHandler()
				}
			})
		}
	}
}

// probe invokes a handler outside of a tree.
func probe(f func(w http.ResponseWriter, r *http.Request) bool) (ls []string, rw *RW) {
	rw = newRW()
	tr := &Trace{}
	rq := &Req{Method: "GET", Host: "h", URI: "/"}
	f(rw, withTrace(rq.Make(), tr))
	for _, e := range tr.Ev {
		ls = append(ls, e.L)
	}
	return
}

func (x *glWorld) readRH(what string, h nm.RedirectHandler, ch glChain) {
	ls, rw := probe(func(w http.ResponseWriter, r *http.Request) bool {
		return h(w, r, "/u", 307, nil)
	})
	want, st := ch.run()
	if st == 0 {
		st = 307
	}
	if fmt.Sprint(ls) != fmt.Sprint(want) || rw.Status() != st {
		x.c.Fail("%s returns another handler: it calls %v and sends %d, expected %v and %d",
			what, ls, rw.Status(), want, st)
	}
	x.c.Count("readers checked")
}

// readers checks what the readers return.
func (x *glWorld) readers() {
	c := x.c
	ls, rw := probe(func(w http.ResponseWriter, r *http.Request) bool {
		return nm.HandlerOfNotFound()(w, r, nil)
	})
	want, st := x.nf.run()
	if st == 0 {
		st = 404
	}
	if fmt.Sprint(ls) != fmt.Sprint(want) || rw.Status() != st {
		c.Fail("HandlerOfNotFound returns another handler: it calls %v and sends %d, expected %v and %d",
			ls, rw.Status(), want, st)
	}
	x.readRH("CommonRedirectHandler", nm.CommonRedirectHandler(), x.rh)
	if code := nm.PermanentRedirectCode(); code != permGlobal {
		c.Fail("PermanentRedirectCode returns %d, expected %d", code, permGlobal)
	}
	for i := 0; i < 6; i++ {
		k := c.IntN(len(x.ts))
		n := pick(c.Rand, x.ts[k].Nodes)
		o, ro, u, text := x.way(k, n)
		code := n.PermCode
		if code == 0 {
			code = permGlobal
		}
		var h nm.RedirectHandler
		var got int
		if p := panics(func() {
			switch {
			case ro != nil:
				h, got = ro.RedirectHandlerAt(u), ro.PermanentRedirectCodeAt(u)
			case u != "":
				h, got = o.RedirectHandlerAt(u), o.PermanentRedirectCodeAt(u)
			default:
				h, got = o.RedirectHandler(), o.PermanentRedirectCode()
			}
		}); p != nil {
			c.Fail("%sreading panics: %v", text, p)
		}
		if got != code {
			c.Fail("%sPermanentRedirectCode returns %d, expected %d", text, got, code)
		}
		x.readRH(text+"RedirectHandler", h, x.chain(k, n))
	}
}

// serve sends requests and checks who has answered.
func (x *glWorld) serve(th uint64) {
	c := x.c
	k := c.IntN(len(x.ts))
	t, b := x.ts[k], x.bs[k]
	rp := baseReq()
	rp.UncleanP, rp.BadP, rp.ActP, rp.TLSFlipP = 0.15, 0.02, 0.05, 0.3
	var rq *Req
	var out *Out
	var o *Obs
	by := "the router"
	if c.P(0.3) {
		n := pick(c.Rand, t.Nodes)
		rp.Under = n
		rq = genReq(c.Rand, t, rp)
		out = predictAt(t, rq, n)
		o = serve(b, b.Objs[n.ID], rq, x.names[k])
		by = "#" + itoa(n.ID)
	} else {
		rq = genReq(c.Rand, t, rp)
		out = predict(t, rq)
		o = serve(b, b.Router, rq, x.names[k])
	}
	c.Count("answer: " + out.Kind())
	// What must have been called.
	var want []string
	status := out.Status
	for _, a := range out.Answers {
		switch a.Kind {
		case dNotFound:
			ls, st := x.nf.run()
			for _, l := range ls {
				want = append(want, "n "+l)
			}
			if st != 0 {
				status = st
			}
		case dCanonical, dRedirect, dAny:
			ch := x.chain(k, t.Nodes[a.Node])
			ls, st := ch.run()
			for _, l := range ls {
				want = append(want, "g "+l)
			}
			if st != 0 {
				status = st
			}
			if len(ls) > 0 {
				c.Count("redirects by custom handlers")
			}
		}
	}
	var got []string
	var d string
	var exp *Ev
	for i := range out.Ev {
		if out.Ev[i].K == 'r' {
			exp = &out.Ev[i]
		}
	}
	for _, e := range o.Ev {
		if e.K != 'n' && e.K != 'g' {
			continue
		}
		got = append(got, string(e.K)+" "+e.L)
		c.Count("calls of process-wide or own handlers")
		if e.W == false {
			d = first(d, e.L+" gets no arguments")
		}
		if e.K == 'g' && exp != nil {
			if e.Code != exp.Code {
				d = first(d, fmt.Sprintf("%s gets the code %d, expected %d", e.L, e.Code, exp.Code))
			}
			if out.Loc != nil {
				if x := diffURL(out, e.URL); x != "" {
					d = first(d, e.L+": "+x)
				}
			}
			if exp.S != nil && e.S != nil {
				if x := diffSnap(exp.S, e.S, snVals|snRem|snResp|snData, false); x != "" {
					d = first(d, e.L+": "+x)
				}
			}
		}
	}
	if o.Pan != nil {
		d = first(diffPanic(o), d)
	}
	if g, w := strings.Join(got, ", "), strings.Join(want, ", "); g != w {
		d = first(fmt.Sprintf("called [%s], expected [%s]", g, w), d)
	}
	if o.Stat != status {
		d = first(d, fmt.Sprintf("status %d, expected %d", o.Stat, status))
	}
	if d == "" && status == out.Status {
		d = diffLoc(out, o)
	}
	if d != "" {
		c.Logf("now: not found %v, redirect %v, code %d", x.nf, x.rh, permGlobal)
		report(c, rq, out, o, "served by "+by+" of tree "+itoa(k)+": "+d)
	}
	if len(got) > 0 || status >= 300 && status < 400 {
		c.EvalHash(th ^ hash64(rq.String())*31)
	} else {
		c.Eval("")
	}
	if c.Index < 3 && len(got) > 1 {
		c.Sample("%.300s => %.500s", rq.String(), o.String())
	}
}

func globalsCase(c *Case) {
	resetGlobals()
	defer resetGlobals()
	x := &glWorld{c: c, nf: glChain{{}}, rh: glChain{{}}}
	th := uint64(c.Index)
	for i := 0; i < 2; i++ {
		p := baseProf()
		flavour(c, &p)
		p.MaxNodes = 12
		p.RedirHP, p.PermCodeP = 0, 0.15
		p.RedirP, p.RedirAny = 0.2, 0.4
		p.SecureP, p.TSlashP = 0.3, 0.4
		t, b, desc := begin(c, p)
		for _, n := range t.Nodes {
			n.RedirH = "#" + itoa(n.ID)
		}
		th ^= hash64(desc) * uint64(i+1)
		x.ts, x.bs = append(x.ts, t), append(x.bs, b)
		x.names = append(x.names, t.AllNames())
		x.own = append(x.own, map[*Node]glChain{})
	}
	for i := 0; i < 14; i++ {
		for k := c.IntN(3); k > 0; k-- {
			if c.P(0.5) {
				x.global()
			} else {
				x.local()
			}
			c.Count("setting and wrapping operations")
		}
		x.readers()
		for k := 0; k < 12; k++ {
			x.serve(th + uint64(i))
		}
	}
}

func init() {
	register("C27", "random histories of setting and wrapping the not-found handler, the common "+
		"redirect handler, the permanent redirect code and the responders' own, on two random "+
		"trees, with requests in between; non-trivial: requests answered by one of the handlers; "+
		"distinct by trees, state and request",
		func(run *Run) {
			run.StageSeq("globals", scale(1200, 20000), globalsCase)
		}, "the handlers aren't changed while requests are served, which the package doesn't allow")
}
