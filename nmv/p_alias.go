package main

import (
	"fmt"
	"net/http"
	"sort"

	nm "github.com/shohruhadham/nanomux"
)

func ownProf(c *Case) Prof {
	p := baseProf()
	stateProf(c, &p)
	p.ImplP = 0.25
	p.MaxNodes = 12
	if c.P(0.3) {
		// Lists with patterns only.
		p.Static = 0
	}
	return p
}

// answers describes everything the responder's getters return.
func answers(b *Built, n *Node, vs nm.HostPathValues) string {
	o := b.Objs[n.ID]
	u, err := o.URL(vs)
	t := o.Template()
	var kids []int
	for _, k := range kidsOf(o) {
		kids = append(kids, b.idOfRes(k))
	}
	sort.Ints(kids)
	var hosts []int
	for _, h := range hostsOf(b.Router) {
		hosts = append(hosts, b.idOfHost(h))
	}
	sort.Ints(hosts)
	str, err2 := t.TryToApply(vs, true)
	return fmt.Sprint(u, err, o.Name(), o.Configuration(), methodsOf(o), kids, hosts,
		t.String(), t.Name(), t.Content(), t.UnescapedContent(), namesOf(t), str, err2,
		o.SharedData(), o.PermanentRedirectCode(), fmt.Sprintf("%T", o.Implementation()),
		o.HandlerOf("GET") == nil, o.HandlerOf("!") == nil, o.RedirectHandler() == nil)
}

type ownProbe struct {
	rq *Req
	o  *Obs
}

// owned keeps what the tree answers before it's spoiled.
type owned struct {
	c      *Case
	t      *Tree
	b      *Built
	names  []string
	vals   []nm.HostPathValues
	str    []string // What the responders' templates match with them.
	said   []string
	probes []ownProbe
}

func newOwned(c *Case, t *Tree, b *Built, rp RProf, n int) *owned {
	x := &owned{c: c, t: t, b: b, names: t.AllNames()}
	for _, nd := range t.Nodes {
		vals, _, _ := pathVals(c, nd)
		vs := shuffled(c, vals, nd.pathNames())
		x.vals = append(x.vals, vs)
		x.str = append(x.str, b.Objs[nd.ID].Template().Apply(vs, true))
		x.said = append(x.said, answers(b, nd, vs))
	}
	for i := 0; i < n; i++ {
		rq := genReq(c.Rand, t, rp)
		o := serve(b, b.Router, rq, x.names)
		out := predict(t, rq)
		if d := first(diffPanic(o), diffStatus(out, o, true), diffHandlers(out, o)); d != "" {
			report(c, rq, out, o, d)
		}
		x.probes = append(x.probes, ownProbe{rq, o})
	}
	return x
}

// check checks that the tree b, built of the same tree, answers the same.
func (x *owned) check(b *Built, all bool, after string) {
	for i, p := range x.probes {
		if !all && i != x.c.IntN(len(x.probes)) {
			continue
		}
		o := serve(b, b.Router, p.rq, x.names)
		if d := diffObs(p.o, o, true); d != "" {
			report(x.c, p.rq, predict(x.t, p.rq), o, after+": "+d)
		}
		x.c.EvalHash(hash64(x.t.String(), p.rq.String(), after))
	}
	for _, n := range x.t.Nodes {
		if !all && x.c.IntN(3) > 0 {
			continue
		}
		if s := answers(b, n, x.vals[n.ID]); s != x.said[n.ID] {
			x.c.Fail("%s: #%d answers\n%s\nit answered\n%s", after, n.ID, s, x.said[n.ID])
		}
		x.c.Eval("")
	}
}

// ownedCase changes what it gets and what it has passed.
func ownedCase(c *Case) {
	p := ownProf(c)
	t, b, _ := begin(c, p)
	rp := baseReq()
	stateReq(&rp)
	x := newOwned(c, t, b, rp, 5)
	clone := func(vs nm.HostPathValues) nm.HostPathValues {
		return append(nm.HostPathValues{}, vs...)
	}
	for step := 0; step < 14; step++ {
		n := pick(c.Rand, t.Nodes)
		o := b.Objs[n.ID]
		tm := o.Template()
		names := n.pathNames()
		what := ""
		same := func(what string, was, is any) {
			if a, b := fmt.Sprintf("%q", was), fmt.Sprintf("%q", is); a != b {
				c.Fail("#%d.%s: what it had been given or had returned was %s and is %s", n.ID, what, a, b)
			}
		}
		switch c.IntN(10) {
		case 0, 1:
			what = "URL"
			vs := clone(x.vals[n.ID])
			u1, err1 := o.URL(vs)
			same(what, x.vals[n.ID], vs)
			if err1 != nil {
				c.Fail("#%d.URL(%q) returns %v", n.ID, vs, err1)
			}
			s1 := u1.String()
			v2, _, _ := pathVals(c, n)
			vs2 := shuffled(c, v2, names)
			u2, err2 := o.URL(vs2)
			if err2 != nil {
				c.Fail("#%d.URL(%q) returns %v", n.ID, vs2, err2)
			}
			s2 := u2.String()
			same(what, s1, u1.String())
			spoilURL(u1)
			spoilValues(vs, names)
			same(what, s2, u2.String())
			u3, err3 := o.URL(vs2)
			if err3 != nil || u3.String() != s2 {
				c.Fail("#%d.URL(%q) returned %q, it returns %v, %v", n.ID, vs2, s2, u3, err3)
			}
		case 2:
			what = "ChildResources"
			k1, k2 := o.ChildResources(), o.ChildResources()
			ids := func(ks []*nm.Resource) (ids []int) {
				for _, k := range ks {
					ids = append(ids, b.idOfRes(k))
				}
				return
			}
			was := ids(k2)
			for i, j := 0, len(k1)-1; i < j; i, j = i+1, j-1 {
				k1[i], k1[j] = k1[j], k1[i]
			}
			same(what, was, ids(k2))
			k1 = append(k1, spoiledRes)
			same(what, was, ids(k2))
			k1 = append(k1[:0], spoiledRes)
			same(what, was, ids(k2))
		case 3:
			what = "Hosts"
			h1, h2 := b.Router.Hosts(), b.Router.Hosts()
			ids := func(hs []*nm.Host) (ids []int) {
				for _, h := range hs {
					ids = append(ids, b.idOfHost(h))
				}
				return
			}
			was := ids(h2)
			for i, j := 0, len(h1)-1; i < j; i, j = i+1, j-1 {
				h1[i], h1[j] = h1[j], h1[i]
			}
			same(what, was, ids(h2))
			h1 = append(h1, spoiledHost)
			same(what, was, ids(h2))
			h1 = append(h1[:0], spoiledHost)
			same(what, was, ids(h2))
		case 4:
			what = "AllowedHTTPMethods"
			m1, m2 := o.AllowedHTTPMethods(), o.AllowedHTTPMethods()
			was := fmt.Sprint(m2)
			sort.Sort(sort.Reverse(sort.StringSlice(m1)))
			same(what, was, fmt.Sprint(m2))
			m1 = append(m1, "spoiled")
			spoilStrings(m1)
			same(what, was, fmt.Sprint(m2))
		case 5:
			what = "Template().ValueNames"
			n1, n2 := tm.ValueNames(), tm.ValueNames()
			was := fmt.Sprint(n2)
			n1 = append(n1, "spoiled")
			spoilStrings(n1)
			same(what, was, fmt.Sprint(n2))
			ask := append([]string{"none"}, names...)
			was = fmt.Sprint(ask)
			tm.HasValueName(ask...)
			same("Template().HasValueName", was, fmt.Sprint(ask))
		case 6, 7:
			what = "Template().Match"
			if n.Kind == kRoot {
				break
			}
			s := x.str[n.ID]
			var given nm.HostPathValues
			given.Set("earlier", "value")
			ok1, v1 := tm.Match(s, nil)
			was := fmt.Sprintf("%q", v1)
			ok2, v2 := tm.Match(s, given)
			was2 := fmt.Sprintf("%q", v2)
			if !ok1 || !ok2 {
				c.Fail("#%d's template doesn't match %q", n.ID, s)
			}
			v, _, _ := pathVals(c, n)
			tm.Match(tm.Apply(shuffled(c, v, names), true), nil)
			same(what, was, fmt.Sprintf("%q", v1))
			same(what, was2, fmt.Sprintf("%q", v2))
			spoilValues(v1, names)
			v1.Set("spoiled", "spoiled")
			same(what, was2, fmt.Sprintf("%q", v2))
			if _, v := tm.Match(s, nil); fmt.Sprintf("%q", v) != was {
				c.Fail("#%d's template matched %q with %s, now with %q", n.ID, s, was, v)
			}
			if g := given.Get("earlier"); g != "value" || len(given) != 1 {
				c.Fail("#%d's template has changed the values passed to %q", n.ID, given)
			}
		case 8:
			what = "Template().TryToApply"
			vs := clone(x.vals[n.ID])
			for i := c.IntN(6); i > 0; i-- {
				vs.Set("unused"+itoa(i), "value")
			}
			was := clone(vs)
			tm.TryToApply(vs, c.P(0.5))
			same(what, was, vs)
			tm.Apply(vs, true)
			same(what, was, vs)
			o.URL(vs)
			same("URL", was, vs)
			spoilValues(vs, names)
		default:
			what = "a request"
			rq := genReq(c.Rand, t, rp)
			if c.P(0.5) {
				rq = pick(c.Rand, x.probes).rq
			}
			serveTr(b.Router, rq, &Trace{Acts: rq.Acts, B: b, Over: rq.Over,
				Hook: func(k byte, _ string, w http.ResponseWriter, _ *http.Request, args *nm.Args) {
					if args == nil {
						return
					}
					if k == 'h' || k == 'R' || k == 'n' {
						spoilValues(args.HostPathValues(), x.names)
					}
				}})
		}
		c.Count("changed: " + what)
		c.Logf("#%d: what %s had been given or returned was changed", n.ID, what)
		x.check(b, false, "after "+what+"'s results or arguments were changed")
	}
	x.check(b, true, "at the end")
}

// twinTreeCase builds responders of the same material and changes some of them.
func twinTreeCase(c *Case) {
	p := ownProf(c)
	t, b, _ := begin(c, p)
	rp := baseReq()
	stateReq(&rp)
	x := newOwned(c, t, b, rp, 6)
	b2 := build(c.Rand, t, c.P(0.3))
	th := t.String()
	c.Logf("the tree is built again and the second one is changed")
	x.check(b2, true, "the second tree")
	for step := 0; step < 8; step++ {
		o := b2.Objs[pick(c.Rand, t.Nodes).ID]
		l := "foreign" + itoa(step)
		foreign := mkHandler(l)
		list := pick(c.Rand, []string{"GET", "POST PUT", "FOREIGN", "OPTIONS"})
		ms := methodsOf(o)
		if len(ms) > 0 && c.P(0.6) {
			list = pick(c.Rand, ms)
		}
		what := ""
		do := func(w string, f func()) {
			what = w
			panics(f)
		}
		switch c.IntN(26) {
		case 0, 1:
			do("SetHandlerFor", func() { o.SetHandlerFor(list, foreign) })
		case 2:
			do("SetHandlerFor !", func() { o.SetHandlerFor("!", foreign) })
		case 3, 4:
			do("WrapHandlerOf *", func() { o.WrapHandlerOf("*", mkMw('m', l)) })
		case 5:
			do("WrapHandlerOf", func() { o.WrapHandlerOf(list, mkMw('m', l)) })
		case 6:
			do("WrapHandlerOf !", func() { o.WrapHandlerOf("!", mkMw('m', l)) })
		case 7:
			do("WrapRequestPasser", func() { o.WrapRequestPasser(mkMw('p', l)) })
		case 8:
			do("WrapRequestHandler", func() { o.WrapRequestHandler(mkMw('q', l)) })
		case 9:
			do("WrapSubtreeHandlersOf", func() { o.WrapSubtreeHandlersOf("*", mkMw('m', l)) })
		case 10:
			do("SetSharedData", func() { o.SetSharedData(l) })
		case 11, 12:
			do("SetConfiguration", func() { o.SetConfiguration(randCfg(c, 0.5).NM()) })
		case 13:
			impl, _ := randImpl(c, t.Nodes[0])
			do("SetImplementation", func() { o.SetImplementation(impl) })
		case 14:
			do("SetPermanentRedirectCode", func() { o.SetPermanentRedirectCode(pick(c.Rand, []int{301, 308})) })
		case 15:
			do("SetRedirectHandler", func() { o.SetRedirectHandler(mkRedirH(l)) })
		case 16:
			do("WrapRedirectHandler", func() { o.WrapRedirectHandler(mkRedirMw(l)) })
		case 17:
			do("RedirectRequestTo", func() { o.RedirectRequestTo("/foreign", 307) })
		case 18:
			do("RedirectAnyRequestTo", func() { o.RedirectAnyRequestTo("/foreign", 307) })
		case 19:
			do("Resource", func() {
				o.Resource(pick(c.Rand, []string{"foreign", `{foreign:.+}`, "{foreign}"})).SetHandlerFor("GET", foreign)
			})
		case 20:
			do("Template().SetName", func() { o.Template().SetName(l) })
		case 21:
			do("Template().Clear", func() { o.Template().Clear() })
		case 22:
			do("router", func() {
				b2.Router.WrapRequestPasser(mkMw('p', l))
				b2.Router.WrapAllHandlersOf("*", mkMw('m', l))
			})
		case 23:
			do("SetConfigurationForAll", func() { b2.Router.SetConfigurationForAll(randCfg(c, 0.5).NM()) })
		case 24:
			do("SetSharedDataForAll", func() { b2.Router.SetSharedDataForAll(l) })
		default:
			do("Host", func() { b2.Router.Host(`http://{foreign:.+}`).SetHandlerFor("GET", foreign) })
		}
		c.Logf("the second tree is changed: %s", what)
		c.Count("second tree changed: " + what)
		x.check(b, false, "after the second tree was changed")
		if c.P(0.3) {
			serve(b2, b2.Router, genReq(c.Rand, t, rp), nil)
		}
	}
	x.check(b, true, "the first tree at the end")
	b3 := build(c.Rand, t, c.P(0.3))
	x.check(b3, true, "the third tree")
	c.EvalHash(hash64(th))
}

func init() {
	register("C34", "on random trees, what getters, templates and requests return "+
		"or are given is changed (URLs, lists, values, headers, slices of "+
		"middlewares), earlier results are looked at again, and every responder's "+
		"answers and recorded requests are compared with those before; then the "+
		"same tree is built two more times of the same implementations and the "+
		"second one is changed; and two "+
		"routers built step by step in turns of the same texts, implementations and "+
		"lists of middlewares are compared with the same ones built alone; "+
		"non-trivial: every repeated request or getter; distinct by "+
		"tree, request and what was changed",
		func(run *Run) {
			run.Stage("owned", scale(5000, 100000), ownedCase)
			run.Stage("in turns", scale(3000, 60000), interCase)
			run.Stage("twins", scale(3000, 60000), twinTreeCase)
		})
}
