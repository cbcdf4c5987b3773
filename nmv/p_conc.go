package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	nm "github.com/shohruhadham/nanomux"
)

// concHook makes the handlers use what they are given, and yield.
func concHook(s *script, yield int) func(k byte, l string, w http.ResponseWriter, r *http.Request, args *nm.Args) {
	return func(k byte, l string, w http.ResponseWriter, r *http.Request, args *nm.Args) {
		for i := s.c.n(yield + 1); i > 0; i-- {
			runtime.Gosched()
		}
		if args == nil {
			return
		}
		var o Rsp
		if h := args.Host(); h != nil {
			o = h
		}
		if r := args.CurrentResource(); r != nil {
			o = r
		}
		if o != nil && s.c.n(3) == 0 {
			s.asked = s.asked*31 + hash64(ask(s.c.n(8), o, r, args))
		}
		s.hook(k, l, w, r, args)
	}
}

// ask asks the responder for what a handler may ask it for while others do the
// same, and describes the answers.
func ask(what int, o Rsp, r *http.Request, args *nm.Args) string {
	vs := args.HostPathValues()
	t := o.Template()
	switch what {
	case 0:
		u, err := o.URL(vs)
		return fmt.Sprint(u, err)
	case 1:
		o.SharedData()
		o.Implementation()
		return fmt.Sprint(o.Name(), o.Configuration(), o.AllowedHTTPMethods(),
			o.PermanentRedirectCode(), o.HandlerOf(r.Method) == nil, o.HandlerOf("!") == nil,
			o.RedirectHandler() == nil, nm.HandlerOfNotFound() == nil,
			nm.CommonRedirectHandler() == nil, nm.PermanentRedirectCode())
	case 2:
		var sum uint64 // The order isn't determined.
		for _, ch := range o.ChildResources() {
			s := fmt.Sprint(ch.Template(), ch.Parent() == o, ch.Host() == o,
				o.HasChildResource(ch), o.HasAnyChildResources(), ch.Router() == o.Router())
			if n := ch.Name(); n != "" {
				u := "/$" + escName(n)
				if ch.IsSecure() {
					u = "https://" + u
				}
				if ch.HasTrailingSlash() {
					u += "/"
				}
				s += fmt.Sprint(o.ChildResourceNamed(n) == ch,
					strings.Contains(n, "/") || o.RegisteredResource(u) == ch)
			}
			sum += hash64(s)
		}
		return fmt.Sprint(sum)
	case 3:
		if ro := o.Router(); ro != nil {
			s := fmt.Sprint(ro.HasAnyHost(), len(ro.Hosts()))
			for _, h := range ro.Hosts() {
				s += fmt.Sprint(ro.HasHost(h), ro.RegisteredHost("http://no.such.host") == nil,
					h.Name() == "" || ro.HostNamed(h.Name()) == h)
			}
			return s
		}
	case 4:
		return fmt.Sprint(t.String(), t.Content(), t.UnescapedContent(), t.ValueNames(),
			t.HasPattern(), t.IsStatic(), t.IsWildcard(), t.SimilarityWith(t))
	case 5:
		str, err := t.TryToApply(vs, false)
		ok, got := t.Match(str, nil)
		return fmt.Sprint(str, err, ok, got)
	case 6:
		t2, err := nm.TryToParse(`{a:\d+}-{w}-{b:[a-c]+}`)
		ok, got := t2.Match("1-2-abc", nil)
		return fmt.Sprint(t2, err, ok, got, t.SimilarityWith(t2), t2.SimilarityWith(t))
	case 7:
		return fmt.Sprint(o.RegisteredResource("/no-such/resource") == nil,
			o.IsSubtreeHandler(), o.IsSecure(), o.RedirectsInsecureRequest(),
			o.HasTrailingSlash(), o.IsStrictOnTrailingSlash(),
			o.IsLenientOnTrailingSlash(), o.IsLenientOnUncleanPath(), o.HandlesThePathAsIs())
	}
	return ""
}

// directCase serves the same requests alone and concurrently.
func directCase(c *Case) {
	p := baseProf()
	stateProf(c, &p)
	p.ImplP = 0.2
	if c.P(0.3) {
		p.MaxNodes = 5 // The same responders are used much.
	}
	t, b, desc := begin(c, p)
	th := hash64(desc)
	rp := baseReq()
	stateReq(&rp)
	names := t.AllNames()
	light := c.P(0.3) // Without instrumentation, which may order the goroutines.

	const n = 24
	var rqs []*Req
	var hs []http.Handler
	var alone []*Obs
	for i := 0; i < n; i++ {
		rq := genReq(c.Rand, t, rp)
		if light {
			rq.Acts = map[string]byte{}
		}
		var h http.Handler = b.Router
		if c.P(0.2) {
			h = pick(c.Rand, b.Objs)
		}
		rqs, hs = append(rqs, rq), append(hs, h)
	}
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	asked := make([]uint64, n)
	do := func(i int, yield int) (*Obs, string) {
		if light {
			rw := newRW()
			o := &Obs{RW: rw}
			func() {
				defer func() { o.Pan = recover() }()
				hs[i].ServeHTTP(rw, rqs[i].Make())
			}()
			o.Stat, o.Hdr = rw.Status(), rw.Snap
			return o, ""
		}
		s := newScript("r"+itoa(i), seeds[i], true)
		o := serveTr(hs[i], rqs[i], &Trace{Acts: rqs[i].Acts, B: b,
			Names: names, Over: rqs[i].Over, Hook: concHook(s, yield)})
		if yield == 0 {
			asked[i] = s.asked
		} else if asked[i] != s.asked && s.bad == "" {
			s.bad = "the responders' properties that the handlers ask for differ"
		}
		return o, s.bad
	}
	for i := 0; i < n; i++ {
		o, bad := do(i, 0)
		out := predict(t, rqs[i])
		if hs[i] != http.Handler(b.Router) {
			out = nil
		}
		d := first(diffPanic(o), bad)
		if d == "" && out != nil {
			d = first(diffStatus(out, o, true), diffOnce(out, o))
			if !light {
				d = first(d, diffSeq(out, o, "pqmPQMhr", true),
					diffSnaps(out, o, "hpqm", snAll))
			}
		}
		if d != "" {
			report(c, rqs[i], out, o, "alone: "+d)
		}
		alone = append(alone, o)
	}
	const g = 6
	type fail struct {
		i int
		o *Obs
		d string
	}
	var fails [g]*fail
	var wg sync.WaitGroup
	start := make(chan struct{})
	plan := make([][]int, g)
	for k := range plan {
		for r := 0; r < 2; r++ {
			plan[k] = append(plan[k], c.Perm(n)...)
		}
	}
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for _, i := range plan[k] {
				o, bad := do(i, 2)
				d := first(bad, diffObs(alone[i], o, true))
				if d != "" && fails[k] == nil {
					fails[k] = &fail{i, o, d}
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != nil {
			report(c, rqs[f.i], nil, f.o, "concurrently: "+f.d)
		}
	}
	for i := range rqs {
		c.EvalHash(th ^ hash64(rqs[i].String())*31)
		for k := 1; k < 2*g; k++ {
			c.Eval("")
		}
	}
	c.CountN("concurrent requests", 2*g*n)
	if light {
		c.Count("cases without instrumentation")
	}
}

// flightCase keeps many requests in progress at the same time: it lets the
// goroutines, or the requests nested in one goroutine, go on one at a time from
// hook to hook in a drawn order.
func flightCase(c *Case) {
	p := baseProf()
	stateProf(c, &p)
	p.ImplP = 0.2
	if c.P(0.3) {
		p.MaxNodes = 5
	}
	t, b, desc := begin(c, p)
	th := hash64(desc)
	rp := baseReq()
	stateReq(&rp)
	names := t.AllNames()
	n := pick(c.Rand, []int{2, 3, 5, 9, 20, 40})
	if c.P(0.08) {
		n = 150 + c.IntN(200)
	}
	type one struct {
		rq     *Req
		h      http.Handler
		seed   uint64
		asked  uint64
		alone  *Obs
		o      *Obs
		bad    string
		resume chan struct{}
	}
	var all []*one
	for i := 0; i < n; i++ {
		x := &one{rq: genReq(c.Rand, t, rp), h: b.Router, seed: c.Uint64()}
		if i > 0 && c.P(0.2) {
			x.rq = pick(c.Rand, all).rq
		}
		if c.P(0.15) {
			x.h = pick(c.Rand, b.Objs)
		}
		all = append(all, x)
	}
	do := func(i int, park func()) (*Obs, string, uint64) {
		x := all[i]
		s := newScript("r"+itoa(i), x.seed, true)
		h := concHook(s, 0)
		o := serveTr(x.h, x.rq, &Trace{Acts: x.rq.Acts, B: b, Names: names,
			Over: x.rq.Over, Hook: func(k byte, l string, w http.ResponseWriter, r *http.Request, args *nm.Args) {
				if park != nil {
					park()
				}
				h(k, l, w, r, args)
			}})
		return o, s.bad, s.asked
	}
	for i, x := range all {
		var bad string
		x.alone, bad, x.asked = do(i, nil)
		if d := first(diffPanic(x.alone), bad); d != "" {
			report(c, x.rq, nil, x.alone, "alone: "+d)
		}
	}
	fly := func(i int, park func()) {
		x := all[i]
		var asked uint64
		x.o, x.bad, asked = do(i, park)
		if x.bad == "" && asked != x.asked {
			x.bad = "the responders' properties that the handlers ask for differ"
		}
	}
	most, steps := 0, 0
	mode := c.IntN(5)
	if mode == 4 { // In one goroutine, a handler serving another request.
		next, depth := 0, 0
		var run func()
		run = func() {
			i := next
			next++
			depth++
			most = max(most, depth)
			fly(i, func() {
				steps++
				for next < n && depth < 60 && c.P(0.6) {
					run()
				}
			})
			depth--
		}
		for next < n {
			run()
		}
	} else {
		ev := make(chan int, 4*n) // i parked, or ^i done.
		for i, x := range all {
			x.resume = make(chan struct{})
			go func() {
				<-x.resume
				fly(i, func() {
					ev <- i
					<-x.resume
				})
				ev <- ^i
			}()
		}
		ready := c.Perm(n)
		begun := map[int]bool{}
		done := 0
		for done < n {
			running := len(ready) == 0 // Something is blocked by another.
			if !running {
				k := c.IntN(len(ready))
				switch mode {
				case 1: // All begin before any goes on.
					k = 0
				case 2: // The last one goes on until it ends.
					if c.P(0.7) {
						k = len(ready) - 1
					}
				case 3: // The first of them wait for all the others.
					if len(ready) > 2 {
						k = len(ready)/3 + c.IntN(len(ready)-len(ready)/3)
					}
				}
				i := ready[k]
				ready = append(ready[:k], ready[k+1:]...)
				begun[i] = true
				most = max(most, len(begun)-done)
				all[i].resume <- struct{}{}
			}
			var e int
			select {
			case e = <-ev:
			case <-time.After(5 * time.Second):
				if running {
					c.Fail("%d of %d requests don't end though the others do", n-done, n)
					return
				}
				c.Count("requests blocked by others")
				continue
			}
			steps++
			if e < 0 {
				done++
			} else if mode == 1 || c.P(0.5) {
				ready = append(ready, e)
			} else {
				ready = append([]int{e}, ready...)
			}
		}
	}
	for _, x := range all {
		if d := first(x.bad, diffObs(x.alone, x.o, true)); d != "" {
			report(c, x.rq, nil, x.o, fmt.Sprintf("in flight with %d others: %s", most-1, d))
		}
		c.EvalHash(th ^ hash64(x.rq.String())*37)
	}
	c.CountN("requests kept in flight", n)
	c.CountN("steps between the hooks of requests in flight", steps)
	switch {
	case most > 100:
		c.Count("cases with over 100 requests in flight")
	case most > 16:
		c.Count("cases with over 16 requests in flight")
	}
	if mode == 4 {
		c.Count("cases with nested requests")
	}
}

var netID atomic.Int64

// netTrace is a trace with what the server has received.
type netTrace struct {
	tr   *Trace
	got  *Req
	done chan struct{}
}

// serverCase sends requests to real servers over a few connections.
func serverCase(c *Case) {
	p := baseProf()
	stateProf(c, &p)
	p.ImplP, p.SecureP, p.RedirInsecP = 0.15, 0.25, 0.6
	t, b, desc := begin(c, p)
	th := hash64(desc)
	rp := baseReq()
	stateReq(&rp)
	rp.BadP, rp.RelP, rp.TLSFlipP = 0, 0, 0.3
	names := t.AllNames()

	var nets sync.Map
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		v, ok := nets.Load(r.Header.Get("X-Nmv"))
		if !ok {
			return
		}
		nt := v.(*netTrace)
		u := *r.URL
		nt.got = &Req{Method: r.Method, TLS: r.TLS != nil, Host: r.Host, URL: &u,
			Acts: nt.tr.Acts, Over: nt.tr.Over}
		defer close(nt.done)
		b.Router.ServeHTTP(w, r)
	})
	quiet := log.New(io.Discard, "", 0)
	plain, secure := httptest.NewUnstartedServer(h), httptest.NewUnstartedServer(h)
	plain.Config.ErrorLog, secure.Config.ErrorLog = quiet, quiet
	plain.Start()
	defer plain.Close()
	secure.StartTLS()
	defer secure.Close()
	tp := &http.Transport{
		MaxIdleConnsPerHost: 4, MaxConnsPerHost: 4,
		TLSClientConfig: &tls.Config{InsecureSkipVerify: true},
		DialContext:     (&net.Dialer{}).DialContext,
	}
	defer tp.CloseIdleConnections()
	cl := &http.Client{Transport: tp,
		CheckRedirect: func(*http.Request, []*http.Request) error {
			return http.ErrUseLastResponse
		}}

	const n, g = 30, 6
	type job struct {
		rq   *Req
		seed uint64
		nt   *netTrace
		s    *script
		st   int
		hdr  http.Header
		body string
		err  error
	}
	var jobs []*job
	for i := 0; i < n; i++ {
		rq := genReq(c.Rand, t, rp)
		if rq.Method == "CONNECT" || rq.URL != nil {
			continue
		}
		if i > 0 && c.P(0.3) && len(jobs) > 0 {
			rq = pick(c.Rand, jobs).rq
		}
		jobs = append(jobs, &job{rq: rq, seed: c.Uint64()})
	}
	send := func(j *job) {
		u, err := url.ParseRequestURI(j.rq.URI)
		if err != nil {
			j.err = err
			return
		}
		u.Scheme, u.Host = "http", plain.Listener.Addr().String()
		if j.rq.TLS {
			u.Scheme, u.Host = "https", secure.Listener.Addr().String()
		}
		id := fmt.Sprintf("%d", netID.Add(1))
		r := &http.Request{Method: j.rq.Method, URL: u, Host: j.rq.Host,
			Header: http.Header{"X-Nmv": {id}}, Proto: "HTTP/1.1",
			ProtoMajor: 1, ProtoMinor: 1}
		j.s = newScript(id, j.seed, true)
		j.nt = &netTrace{done: make(chan struct{}), tr: &Trace{Acts: j.rq.Acts,
			B: b, Names: names, Over: j.rq.Over, Hook: concHook(j.s, 1)}}
		nets.Store(id, j.nt)
		netTraces.Store(id, j.nt.tr)
		defer func() {
			nets.Delete(id)
			netTraces.Delete(id)
		}()
		resp, err := cl.Do(r)
		if err != nil {
			j.err = err
			return
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		j.st, j.hdr, j.body, j.err = resp.StatusCode, resp.Header, string(body), err
		if err == nil && resp.Header.Get("Date") != "" {
			// net/http itself answers a malformed request.
			if resp.StatusCode == 400 && strings.HasPrefix(j.body, "400 Bad Request: ") {
				j.err = fmt.Errorf("%s", j.body)
			}
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(jobs); i += g {
				send(jobs[i])
			}
		}(k)
	}
	wg.Wait()
	for _, j := range jobs {
		served := false
		if j.nt != nil {
			select {
			case <-j.nt.done:
				served = true
			default:
			}
		}
		if !served {
			// The client or net/http didn't accept the request.
			c.Count("requests that never reached the router")
			continue
		}
		rq := j.nt.got
		out := predict(t, rq)
		o := &Obs{Ev: j.nt.tr.Ev, RW: newRW(), Stat: j.st, Hdr: j.hdr}
		o.RW.Codes = []int{j.st}
		if j.hdr == nil {
			o.Hdr = http.Header{}
		}
		o.RW.Body.WriteString(j.body)
		d := j.s.bad
		if j.err != nil {
			d = fmt.Sprintf("the connection failed: %v", j.err)
		}
		if out.Silent {
			out.Status = 200 // It's what net/http writes.
		}
		if d == "" {
			d = first(diffSeq(out, o, "pqmPQMhr", true),
				diffStatus(out, o, true), diffAllow(out, o),
				diffSnaps(out, o, "hpqm", snAll))
		}
		if d == "" && rq.Method != "HEAD" && !out.Silent {
			switch out.Kind() {
			case dHandler, dNotAllow, dMw:
				if j.body != out.Answers[0].Label {
					d = fmt.Sprintf("body: %q, expected %q", j.body, out.Answers[0].Label)
				}
			}
		}
		if d != "" {
			report(c, rq, out, o, "over the network: "+d)
		}
		c.Count("answer over the network: " + out.Kind())
		c.EvalHash(th ^ hash64(rq.String())*31)
	}
}

func init() {
	register("C15", "a router that is set up serves the requests alone and then "+
		"in 6 goroutines, 12 times each, directly and over real HTTP and TLS "+
		"servers with keep-alive, in a binary with the race detector; handlers "+
		"yield, set custom arguments and read their responders; routers, hosts, "+
		"resources and converted handlers serve; non-trivial: every distinct "+
		"request",
		func(run *Run) {
			monitorCommon()
			run.Stage("direct", scale(700, 12000), directCase)
			run.Stage("in flight", scale(500, 10000), flightCase)
			run.Stage("server", scale(250, 5000), serverCase)
		},
		"the race detector reports the races of the interleavings that occurred").race = true
}
