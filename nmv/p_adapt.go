package main

import (
	"fmt"
	"net/http"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

// serveMany serves the requests concurrently.
func serveMany(b *Built, h http.Handler, rqs []*Req, names []string) []*Obs {
	os := make([]*Obs, len(rqs))
	var wg sync.WaitGroup
	next := make(chan int, len(rqs))
	for i := range rqs {
		next <- i
	}
	close(next)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				os[i] = serve(b, h, rqs[i], names)
			}
		}()
	}
	wg.Wait()
	return os
}

func adaptDiff(p *Out, o *Obs) string {
	return first(diffPanic(o), diffSeq(p, o, "pqmPQMh", true),
		diffStatus(p, o, true), diffOnce(p, o), diffExtra(p, o), diffChanged(o),
		diffSnaps(p, o, "hpqm", snAll))
}

func diffChanged(o *Obs) string {
	if o.Tr == nil {
		return ""
	}
	return o.Tr.Changed
}

func adaptProf(c *Case, p *Prof) {
	flavour(c, p)
	p.ConvP = []float64{0.5, 0.9, 0.3}[c.IntN(3)]
	p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.35, 0.3, 0.35, 0.4
	p.SubtreeP, p.NotAllowP, p.ImplP = 0.35, 0.15, 0.08
	p.SecureP, p.TSlashP, p.LenientUCP = 0.05, 0.1, 0.1
	p.RedirP, p.RedirAny = 0.03, 0.4
	p.SharedP = 0.5
}

func adaptReq(p *RProf) {
	p.ActP, p.FalseP, p.SilentP, p.ReplP = 0.4, 0.1, 0.08, 0.5
	p.ExtraP, p.NearP, p.MethodP = 0.35, 0.2, 0.15
}

func hasConv(p *Out) bool {
	for _, e := range p.Ev {
		if convMw(e.L) || convKind(e.L) > 0 {
			return true
		}
	}
	return false
}

// sharedMwCase wraps responders with the same converted middlewares and sends
// requests with different decisions, one after the other and concurrently.
func sharedMwCase(c *Case) {
	p := baseProf()
	adaptProf(c, &p)
	_, b, desc := begin(c, p)
	for i := 0; i < 2+c.IntN(3); i++ {
		bulkOpWith(c, b, i, true, "~")
	}
	rp := baseReq()
	adaptReq(&rp)
	sig := hash64(desc)
	n := 16
	rqs, outs := []*Req{}, []*Out{}
	for i := 0; i < n; i++ {
		rq := genReq(c.Rand, b.T, rp)
		if i > 0 && c.P(0.3) {
			// The same request with another decision.
			q := *rqs[c.IntN(len(rqs))]
			q.Acts = map[string]byte{}
			if c.P(0.7) {
				genActs(c.Rand, b.T, b.T.Nodes[q.WantNode], &q, rp)
			}
			rq = &q
		}
		for k := 0; k < 6; k++ {
			if c.P(0.1) {
				rq.Acts[fmt.Sprintf("RB%d.0~", k)] =
					[]byte{actDrop, actAnswer, actWriter, actRequest, actGo}[c.IntN(5)]
			}
		}
		rqs = append(rqs, rq)
		outs = append(outs, predict(b.T, rq))
	}
	check := func(i int, o *Obs, how string) {
		if d := adaptDiff(outs[i], o); d != "" {
			c.Logf("%s", b.T)
			report(c, rqs[i], outs[i], o, how+": "+d)
		}
		if hasConv(outs[i]) {
			c.EvalHash(sig ^ hash64(rqs[i].String())*31)
		} else {
			c.Eval("")
		}
	}
	for i, rq := range rqs {
		check(i, serve(b, b.Router, rq, b.T.AllNames()), "one after the other")
	}
	var many []*Req
	for k := 0; k < 4; k++ {
		many = append(many, rqs...)
	}
	c.Shuffle(len(rqs), func(i, k int) {
		rqs[i], rqs[k] = rqs[k], rqs[i]
		outs[i], outs[k] = outs[k], outs[i]
	})
	for k := 0; k < 4; k++ {
		copy(many[k*n:], rqs)
	}
	for i, o := range serveMany(b, b.Router, many, b.T.AllNames()) {
		check(i%n, o, "concurrently")
	}
	c.CountN("concurrent requests", len(many))
}

// mountCase serves a router through a converted handler of another one.
func mountCase(c *Case) {
	p := baseProf()
	p.SubtreeP, p.HandlerP, p.ImplP, p.MaxNodes = 0.6, 0.9, 0.05, 10
	p.SecureP, p.TSlashP, p.LenientTSP = 0.02, 0.05, 0.3
	p.ReqMwP, p.PasserP, p.ConvP = 0.2, 0.2, 0.4
	t, b, desc := begin(c, p)
	p2 := baseProf()
	p2.PasserP, p2.ReqMwP, p2.ConvP, p2.MaxNodes = 0.2, 0.2, 0.4, 10
	p2.RootP, p2.SubtreeP = 1, 0.4
	c.Logf("the mounted tree:")
	t2, b2, _ := begin(c, p2)

	var cand []*Node
	for _, n := range t.Nodes {
		if n.CanHandle() {
			cand = append(cand, n)
		}
	}
	if len(cand) == 0 {
		return
	}
	n := pick(c.Rand, cand)
	kind := 1 + c.IntN(4)
	l := fmt.Sprintf("%d/mount~%d", n.ID, kind)
	strip := c.P(0.4)

	type seen struct {
		rq  *Req
		tr  *Trace
		bad string
	}
	var last *seen
	var inner http.Handler = http.HandlerFunc(
		func(w http.ResponseWriter, r *http.Request) {
			u := *r.URL
			s := last
			s.rq = &Req{Method: r.Method, TLS: r.TLS != nil, Host: r.Host, URL: &u}
			s.tr = &Trace{B: b2, Names: t2.AllNames(), W: w, Rq: sameRequest(r)}
			b2.Router.ServeHTTP(w, withTrace(r, s.tr))
		})
	f := func(w http.ResponseWriter, r *http.Request) {
		tr := traceOf(r)
		args := nm.ArgsFrom(r)
		tr.add(Ev{K: 'h', L: l, Node: n.ID, S: tr.snap(args)})
		before := ""
		if args != nil {
			before = fmt.Sprintf("%+v", *tr.snap(args))
		}
		h := inner
		if strip && len(r.URL.Path) > 1 && r.URL.RawPath == "" {
			// A prefix of the path, which may be the path of the mount.
			k := c.IntN(len(r.URL.Path))
			h = http.StripPrefix(r.URL.Path[:k], inner)
		}
		h.ServeHTTP(w, r)
		if nm.ArgsFrom(r) != args {
			last.bad = "the mounted router has changed the outer arguments"
		}
		if args != nil {
			if after := fmt.Sprintf("%+v", *tr.snap(args)); after != before {
				last.bad = "the outer arguments were " + before + ", now " + after
			}
		}
	}
	var h nm.Handler
	switch kind {
	case 1:
		h = nm.Hr(http.HandlerFunc(f))
	case 2:
		h = nm.FnHr(f)
	case 3:
		h = nm.HrWithArgs(http.HandlerFunc(f))
	default:
		h = nm.FnHrWithArgs(f)
	}
	for _, m := range append(n.Methods(), "!") {
		b.Objs[n.ID].SetHandlerFor(m, h)
		if m == "!" {
			n.NotAllow = l
		} else {
			n.Handlers[m] = l
		}
		delete(n.MethMws, m)
	}
	c.Logf("#%d mounts the tree with the converter %d", n.ID, kind)
	rp := baseReq()
	rp.Exact, rp.ExtraP, rp.NearP = 0.2, 0.6, 0.2
	for i := 0; i < 30; i++ {
		rq := genReq(c.Rand, t, rp)
		if c.P(0.6) {
			// Made for the mounted tree below the mount.
			q := genReq(c.Rand, t2, rp)
			if q.URL == nil {
				rq.URI, rq.URL, rq.Method = q.URI, nil, q.Method
				if c.P(0.6) {
					rq.Host = q.Host
				}
				if !strip && n.Kind == kRes {
					continue
				}
			}
		}
		out := predict(t, rq)
		last = &seen{}
		o := serve(b, b.Router, rq, t.AllNames())
		mounted := out.Kind() == dHandler || out.Kind() == dNotAllow
		mounted = mounted && out.Answers[0].Label == l
		d := first(diffPanic(o), last.bad, diffSeq(out, o, "pqmPQMh", true))
		if d == "" && !mounted {
			d = diffStatus(out, o, true)
		}
		if d == "" && mounted && last.rq != nil {
			in := predict(t2, last.rq)
			for k, e := range in.Ev {
				if kd := convKind(e.L); e.K == 'h' && kd > 0 && kd < 3 {
					in.Ev[k].S = nil // Its request may have the outer arguments.
				}
			}
			oi := &Obs{RW: o.RW, Ev: last.tr.Ev, Stat: o.Stat, Hdr: o.Hdr, Tr: last.tr}
			d = first(diffSeq(in, oi, "pqmPQMh", true), diffStatus(in, oi, true),
				diffOnce(in, oi), diffSnaps(in, oi, "hpqm", snAll), diffChanged(oi))
			if d != "" {
				c.Logf("mounted request: %s", last.rq)
				c.Logf("mounted expected: %s", in)
				d = "mounted: " + d
			}
			c.Count("mounted answer: " + in.Kind())
		}
		if d != "" {
			report(c, rq, out, o, d)
		}
		if mounted {
			c.EvalHash(hash64(desc, rq.String()))
		} else {
			c.Eval("")
		}
	}
}

func init() {
	register("C13", "trees in which converted and native handlers and middlewares "+
		"are mixed at every level; each request has its own decisions (answer, "+
		"drop, replace the writer or the request, another goroutine); shared "+
		"middlewares, mounted routers and concurrent requests; non-trivial: a "+
		"converted handler or middleware is called",
		func(run *Run) {
			run.routed(&routed{
				name: "adapters", quick: 5000, deep: 120000, reqs: 40, names: true,
				prof: adaptProf,
				req:  func(c *Case, p *RProf) { adaptReq(p) },
				cmp: func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
					return adaptDiff(p, o)
				},
				sig: func(t *Tree, rq *Req, p *Out) bool { return hasConv(p) },
			})
			run.Stage("shared", scale(1500, 40000), sharedMwCase)
			run.Stage("mount", scale(3000, 60000), mountCase)
		})
}
