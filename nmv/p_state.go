package main

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

// Keys of custom arguments. Many of them look the same but differ in type.
type (
	keyStr   string
	keyStr2  string
	keyInt   int
	keyEmpty struct{}
	keyEmpt2 struct{}
	keyPair  struct {
		a string
		b int
	}
	keyIface interface{ m() }
	keyImpl  struct{ s string }
	keyImpl2 struct{ s string }
	keyAny   struct{ v any }
)

func (keyImpl) m()  {}
func (keyImpl2) m() {}

var keyPtr1, keyPtr2 = new(int), new(int)

var argKeys = []any{
	"a", keyStr("a"), keyStr2("a"), "b", keyStr("b"), "", keyStr(""), "id", "name",
	0, int8(0), int64(0), uint(0), keyInt(0), 1, keyInt(1), int32(1), 1.0,
	float32(1), 'a', byte('a'), true, false, keyEmpty{}, keyEmpt2{}, struct{}{},
	keyPair{"a", 1}, keyPair{"a", 2}, keyPair{"", 0}, keyIface(keyImpl{"x"}),
	keyIface(keyImpl2{"x"}), keyImpl{"y"}, keyPtr1, keyPtr2, (*int)(nil),
	(*string)(nil), [2]int{1, 2}, [2]int{2, 1}, complex(1, 0), "argsKey",
	traceKey{}, http.ServerContextKey, keyAny{}, keyAny{1}, keyAny{"1"},
	keyAny{int8(1)}, keyAny{keyAny{1}}, &keyPair{"p", 1}, &keyPair{"p", 1},
	&keyImpl{"x"}, &keyImpl{"x"}, make(chan int), reflect.TypeOf(1),
	reflect.TypeOf(""), [2]any{1, "2 3"}, [2]any{"1 2", 3}, http.LocalAddrContextKey,
	http.MethodGet, 0.0, keyIface(nil), "1", "true", "<nil>", "{}",
	"A", "Id", "ID", "NAME", keyStr("A"), " a", "a ", "argskey",
}

// script is what the handlers of one request do with the custom arguments.
type script struct {
	c      *scriptRand
	id     string
	m      map[any]any
	bad    string
	ops    []string
	n      int
	sets   int
	gets   int
	hits   int
	writes bool
	panAt  int // The event the handler panics at.
	args   *nm.Args
	other  bool
	common int
	asked  uint64 // What the responders answered.
}

// scriptRand is a small generator, so that a script can run in any goroutine.
type scriptRand struct{ s uint64 }

func (r *scriptRand) n(k int) int {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z ^ (z >> 31)) % uint64(k))
}

type scriptPanic struct{}

func (s *script) hook(k byte, l string, w http.ResponseWriter, r *http.Request, args *nm.Args) {
	if args == nil {
		return
	}
	s.n++
	if k == 'n' || k == 'R' {
		s.common++
	}
	if s.args == nil {
		s.args = args
		// Nothing is set at the beginning.
		for _, key := range argKeys {
			if v := args.Get(key); v != nil {
				s.fail("the first %c(%s) gets %v for the key %T(%v), which isn't set",
					k, l, v, key, key)
			}
		}
	} else if s.args != args {
		s.other = true
	}
	if a := nm.ArgsFrom(r); a != nil && a != args {
		s.fail("%c(%s) gets other arguments from the request", k, l)
	}
	for i := s.c.n(5); i > 0 && s.bad == ""; i-- {
		key := argKeys[s.c.n(len(argKeys))]
		if s.c.n(3) == 0 {
			key = argKeys[s.c.n(4)]
		}
		if s.writes && s.c.n(2) == 0 {
			s.sets++
			var v any = fmt.Sprintf("%s.%d", s.id, s.sets)
			switch s.c.n(12) {
			case 0:
				v = nil
			case 1:
				v = &s.sets
			case 2:
				v = s.sets
			}
			args.Set(key, v)
			s.m[key] = v
			s.ops = append(s.ops, fmt.Sprintf("%c(%s) sets %T(%v) to %v", k, l, key, key, v))
		} else {
			s.gets++
			s.check(k, l, args, key)
		}
	}
	if s.c.n(8) == 0 {
		for _, key := range argKeys {
			s.check(k, l, args, key)
		}
	}
	if s.panAt > 0 && s.n == s.panAt {
		s.ops = append(s.ops, fmt.Sprintf("%c(%s) panics", k, l))
		panic(scriptPanic{})
	}
}

func (s *script) check(k byte, l string, args *nm.Args, key any) {
	v := args.Get(key)
	want := s.m[key]
	if v != want {
		s.fail("%c(%s) gets %v for the key %T(%v), expected %v", k, l, v, key, key, want)
	}
	if v != nil {
		s.hits++
	}
}

func (s *script) fail(format string, args ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, args...)
		s.ops = append(s.ops, s.bad)
	}
}

func newScript(id string, seed uint64, writes bool) *script {
	return &script{c: &scriptRand{seed}, id: id, m: map[any]any{}, writes: writes}
}

// monitorCommon lets the hooks of requests see what the process-wide handlers
// are given.
func monitorCommon() {
	nm.WrapHandlerOfNotFound(func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			if tr := traceOf(r); tr != nil && tr.Hook != nil {
				tr.Hook('n', "not found", w, r, args)
			}
			return next(w, r, args)
		}
	})
	nm.WrapCommonRedirectHandler(func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, url string, code int, args *nm.Args) bool {
			if tr := traceOf(r); tr != nil && tr.Hook != nil {
				tr.Hook('R', url, w, r, args)
			}
			return next(w, r, url, code, args)
		}
	})
}

func stateProf(c *Case, p *Prof) {
	flavour(c, p)
	p.MaxNodes = 14
	p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.4, 0.3, 0.3, 0.4
	p.SubtreeP, p.NotAllowP, p.ConvP, p.SharedP = 0.35, 0.15, 0.25, 0.5
	p.RedirP, p.RedirAny, p.RedirHP, p.PermCodeP = 0.05, 0.4, 0.1, 0.1
	p.SecureP, p.TSlashP = 0.08, 0.15
}

func stateReq(p *RProf) {
	p.ActP, p.FalseP, p.SilentP, p.ReplP = 0.2, 0.06, 0.05, 0.1
	p.BadP, p.UncleanP, p.RelP = 0.06, 0.12, 0.03
	p.ExtraP, p.NearP = 0.4, 0.3
}

// argsCase runs scripts, one after another and concurrently.
func argsCase(c *Case) {
	p := baseProf()
	stateProf(c, &p)
	t, b, desc := begin(c, p)
	th := hash64(desc)
	rp := baseReq()
	stateReq(&rp)
	rp.BadP = 0.02
	type one struct {
		rq *Req
		s  *script
		o  *Obs
		h  http.Handler
	}
	var all []*one
	for i := 0; i < 40; i++ {
		x := &one{rq: genReq(c.Rand, t, rp), h: b.Router}
		x.s = newScript(fmt.Sprintf("r%d", i), c.Uint64(), c.P(0.7))
		if c.P(0.08) {
			x.s.panAt = 1 + c.IntN(4)
		}
		if c.P(0.15) {
			x.h = pick(c.Rand, b.Objs)
		}
		all = append(all, x)
	}
	do := func(x *one) {
		x.o = serveTr(x.h, x.rq, &Trace{Acts: x.rq.Acts, B: b, Over: x.rq.Over,
			Hook: x.s.hook})
	}
	check := func(x *one, how string) {
		s := x.s
		d := ""
		if _, ok := x.o.Pan.(scriptPanic); !ok {
			d = diffPanic(x.o)
		}
		if s.bad != "" {
			d = s.bad
		}
		if s.other {
			d = "two handlers of one request got different arguments"
		}
		if d != "" {
			for _, l := range s.ops {
				c.Logf("%s", l)
			}
			report(c, x.rq, nil, x.o, how+": "+d)
		}
		c.CountN("values set", s.sets)
		c.CountN("values asked for", s.gets)
		c.CountN("values found", s.hits)
		c.CountN("seen by the common handlers", s.common)
		if s.n > 1 {
			c.EvalHash(th ^ hash64(x.rq.String(), s.id)*31)
		} else {
			c.Eval("")
		}
	}
	for _, x := range all[:20] {
		do(x)
		check(x, "one after another")
	}
	var wg sync.WaitGroup
	next := make(chan *one, len(all))
	for _, x := range all[20:] {
		next <- x
	}
	close(next)
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range next {
				do(x)
			}
		}()
	}
	wg.Wait()
	for _, x := range all[20:] {
		check(x, "concurrently")
	}
	if c.Index < 3 {
		c.Sample("%.300s: %.400s", all[0].rq, strings.Join(all[0].s.ops, "; "))
	}
}

// historyCase observes requests again and again between other requests.
func historyCase(c *Case) {
	p := baseProf()
	stateProf(c, &p)
	p.SharedP, p.ImplP = 0.6, 0.3
	t, b, desc := begin(c, p)
	th := hash64(desc)
	rp := baseReq()
	stateReq(&rp)
	names := t.AllNames()

	type probe struct {
		rq  *Req
		out *Out
		o   *Obs
		h   http.Handler
		id  string
	}
	observe := func(q *probe) *Obs {
		tr := &Trace{Acts: q.rq.Acts, Names: names, B: b, Over: q.rq.Over}
		var extra []string
		tr.Hook = func(k byte, l string, w http.ResponseWriter, r *http.Request, args *nm.Args) {
			if args == nil {
				return
			}
			// The unexported state may be reached through these only.
			for _, key := range argKeys[:6] {
				if v := args.Get(key); v != nil {
					extra = append(extra, fmt.Sprintf("%c(%s) gets %v for %v", k, l, v, key))
				}
			}
			if k == 'n' || k == 'R' {
				extra = append(extra, fmt.Sprintf("%c(%s) %+v", k, l, tr.snap(args)))
			}
			for _, hv := range args.HostPathValues() {
				extra = append(extra, fmt.Sprintf("%c(%s) %q", k, l, hv))
			}
		}
		o := serveTr(q.h, q.rq, tr)
		o.Ev = append(o.Ev, Ev{K: 'x', L: strings.Join(extra, "; ")})
		return o
	}
	var probes []*probe
	for i := 0; i < 5; i++ {
		q := &probe{rq: genReq(c.Rand, t, rp), h: b.Router}
		if c.P(0.15) {
			k := c.IntN(len(b.Objs))
			q.h, q.id = b.Objs[k], itoa(k)
		} else {
			q.out = predict(t, q.rq)
		}
		q.o = observe(q)
		if strings.Contains(q.o.Ev[len(q.o.Ev)-1].L, " gets ") {
			report(c, q.rq, q.out, q.o, "custom arguments nobody has set")
		}
		if d := diffPanic(q.o); d != "" {
			report(c, q.rq, q.out, q.o, d)
		}
		probes = append(probes, q)
	}
	disturb := func(times int) {
		rq := genReq(c.Rand, t, rp)
		seed, panAt := c.Uint64(), 0
		if c.P(0.2) || times > 1 && c.P(0.3) {
			panAt = 1 + c.IntN(4)
		}
		var h http.Handler = b.Router
		what := "router"
		if c.P(0.25) {
			k := c.IntN(len(b.Objs))
			h, what = b.Objs[k], "#"+itoa(k)
		}
		if c.P(0.05) {
			rq.URL = &url.URL{Path: pick(c.Rand, []string{"", "*", "//", "/..", "a"})}
		}
		for i := 0; i < times; i++ {
			s := newScript("x", seed, true)
			s.panAt = panAt
			o := serveTr(h, rq, &Trace{Acts: rq.Acts, B: b, Over: rq.Over, Hook: s.hook})
			if _, ok := o.Pan.(scriptPanic); ok {
				c.Count("panicking handlers")
				if i == 99 {
					c.Count("requests repeated over 100 times whose handler panics")
				}
			} else if d := diffPanic(o); d != "" {
				report(c, rq, nil, o, d)
			}
			if i == 0 {
				c.Logf("in between, %s serves %s %d times: %d %v", what, rq, times, o.Stat, o.RW.Codes)
			}
		}
		c.CountN("requests in between", times)
	}
	long := -1 // The round before which a request is repeated many times.
	if c.P(0.03) {
		long = c.IntN(5)
	}
	for round := 0; round < 6; round++ {
		for k := 1 + c.IntN(6); k > 0; k-- {
			disturb(1)
		}
		if round == long {
			for k := 1 + c.IntN(3); k > 0; k-- {
				disturb(pick(c.Rand, []int{40, 70, 140, 270, 530}))
			}
			c.Count("histories with requests repeated many times")
		}
		q := pick(c.Rand, probes)
		o := observe(q)
		if d := diffObs(q.o, o, true); d != "" {
			report(c, q.rq, q.out, o, fmt.Sprintf("the request to %q is answered "+
				"differently after others: %s", q.id, d))
		}
		c.EvalHash(th ^ hash64(q.rq.String(), itoa(round))*31)
	}
	for _, q := range probes {
		if d := diffObs(q.o, observe(q), true); d != "" {
			report(c, q.rq, q.out, q.o, "at the end: "+d)
		}
		c.EvalHash(th ^ hash64(q.rq.String(), "end")*31)
		if q.out != nil {
			c.Count("answer: " + q.out.Kind())
		}
	}
}

// freshCase compares a request on a tree that has served many requests with
// the same request on a tree that has served none.
func freshCase(c *Case) {
	p := baseProf()
	stateProf(c, &p)
	t, b, desc := begin(c, p)
	th := hash64(desc)
	rp := baseReq()
	stateReq(&rp)
	b2 := build(c.Rand, t, c.P(0.3))
	names := t.AllNames()
	for i := 0; i < 20; i++ {
		rq := genReq(c.Rand, t, rp)
		for k := c.IntN(3); k > 0; k-- {
			serve(b, b.Router, genReq(c.Rand, t, rp), nil)
		}
		o := serve(b, b.Router, rq, names)
		o2 := serve(b2, b2.Router, rq, names)
		if d := diffObs(o2, o, true); d != "" {
			report(c, rq, predict(t, rq), o, "the tree that has served answers "+d)
		}
		c.EvalHash(th ^ hash64(rq.String())*31)
	}
}

func init() {
	register("C14", "on random trees, requests are observed (events, everything "+
		"their handlers see, header, body) again and again, between random "+
		"requests that are not found, malformed, redirected, stopped, that set "+
		"custom arguments, whose handlers panic, or that hosts and resources "+
		"serve; non-trivial: every repeated observation; distinct by tree, "+
		"request and round",
		func(run *Run) {
			monitorCommon()
			run.Stage("history", scale(9000, 200000), historyCase)
			run.Stage("fresh", scale(3000, 80000), freshCase)
		})
	register("C26", "every handler and middleware of a request, the common not-found and "+
		"redirect handlers included, sets and gets "+
		"custom arguments by a random script over 72 keys of many types, "+
		"compared with a map; one after another and concurrently, with "+
		"panicking handlers; non-trivial: the script ran in at least two places",
		func(run *Run) {
			monitorCommon()
			run.Stage("args", scale(8000, 200000), argsCase)
		})
}
