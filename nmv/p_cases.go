package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

var overlapping = []string{
	`\d+`, `\w+`, `[a-f0-9]{1,6}`, `\d{3}`, `\d{2}`, `v\d+`, `.+`, `[^a-z]+`,
	`(?i)[k-n]+`, `-?\d+`, `[1-9]\d*`, `red|green|blue`, `[a-z]+`, `[A-Z]+`,
	`[a-c]{2}`, `\w\w`, `(en|de|fr)`, `(?:on|off)`, `[A-F0-9]{8}`,
}

// overlapTree returns a tree with many overlapping siblings on some levels.
func overlapTree(c *Case) *Tree {
	p := baseProf()
	bare(&p)
	p.SubtreeP, p.HandlerP, p.MethodsUpTo, p.ImplP = 0.1, 0.8, 1, 0
	g := &treeGen{r: c.Rand, p: p, t: &Tree{}}
	top := g.node(kRoot, nil, nil)
	g.t.Root = top
	var grow func(n *Node, depth int)
	grow = func(n *Node, depth int) {
		ord := c.Perm(len(overlapping))
		k := 2 + c.IntN(7)
		keys := map[string]bool{}
		add := func(tm *Tmpl) {
			if keys[tm.Key()] || tm.IsStatic() && tm.Parts[0].Static == "/" {
				return
			}
			keys[tm.Key()] = true
			nc := chooserFor(g, n)
			if en := tm.EffName(); en != "" && nc.usedNames[en] {
				tm.Name = nc.name()
			}
			g.node(kRes, n, tm)
		}
		for i := 0; i < k; i++ {
			pt := patOf(overlapping[ord[i]])
			nc := chooserFor(g, n)
			switch c.IntN(7) {
			case 0:
				add(&Tmpl{Parts: []Part{{Static: pt.Gen(c.Rand)}}})
			case 1:
				add(&Tmpl{Parts: []Part{{Static: pick(c.Rand, []string{"a", "1", "v", "-"})},
					{Name: nc.value(nil), Pat: pt}}})
			case 2:
				if pt.In == nil || !pt.In('.') {
					add(&Tmpl{Parts: []Part{{Name: nc.value(nil), Pat: pt},
						{Static: "." + pick(c.Rand, []string{"a", "html", ""})}}})
				}
			default:
				add(&Tmpl{Parts: []Part{{Name: nc.value(nil), Pat: pt}}})
			}
		}
		if c.P(0.4) {
			add(&Tmpl{Parts: []Part{{Name: chooserFor(g, n).value(nil)}}})
		}
		if depth > 0 {
			for _, kid := range n.Kids {
				if c.P(0.5) {
					grow(kid, depth-1)
				}
			}
		}
	}
	grow(top, 1+c.IntN(2))
	if len(g.t.Nodes) > 150 {
		return overlapTree(c)
	}
	for _, n := range g.t.Nodes {
		g.fill(n)
	}
	return g.t
}

// chooserFor returns the chooser of the names that are allowed below the node.
func chooserFor(g *treeGen, parent *Node) *nameChooser {
	nc := &nameChooser{r: g.r, usedVals: map[string]bool{},
		usedNames: map[string]bool{}, fresh: &g.fresh}
	for p := parent; p != nil; p = p.Parent {
		if p.Tmpl == nil {
			continue
		}
		if en := p.Tmpl.EffName(); en != "" {
			nc.usedNames[en] = true
		}
		for _, v := range p.Tmpl.ValueNames() {
			nc.usedVals[v] = true
		}
	}
	for _, k := range parent.Kids {
		if en := k.Tmpl.EffName(); en != "" {
			nc.usedNames[en] = true
		}
	}
	return nc
}

// overlapCase serves paths that several siblings match.
func overlapCase(c *Case) {
	t := overlapTree(c)
	desc := t.String()
	c.Logf("%s", desc)
	b := build(c.Rand, t, c.P(0.2))
	for _, l := range b.Ops {
		c.Logf("%s", l)
	}
	th := hash64(desc)
	for i := 0; i < 50; i++ {
		path := ""
		n := t.Root
		for d := c.IntN(4); d >= 0; d-- {
			var seg string
			if n != nil && len(n.Kids) > 0 && c.P(0.9) {
				k := pick(c.Rand, n.Kids)
				seg = segValue(c.Rand, k.Tmpl)
				n = k
			} else {
				seg = patOf(pick(c.Rand, overlapping)).Gen(c.Rand)
				n = nil
			}
			if c.P(0.1) {
				seg = nearMiss(c.Rand, nil, seg)
			}
			if seg == "" {
				seg = "z"
			}
			path += "/" + encSeg(c.Rand, seg, c.P(0.2))
		}
		rq := &Req{Method: "GET", Host: "h.test", URI: path}
		if n != nil && len(n.Methods()) > 0 {
			rq.Method = n.Methods()[0]
		}
		out := predict(t, rq)
		o := serve(b, b.Router, rq, t.AllNames())
		d := diffPanic(o)
		if d == "" && c.Prop == "C01" {
			d = first(diffHandlers(out, o), diffStatus(out, o, true))
		}
		if d == "" && c.Prop == "C02" {
			d = diffSnaps(out, o, "h", snVals)
		}
		if d != "" {
			report(c, rq, out, o, d)
		}
		c.Count("answer: " + out.Kind())
		c.EvalHash(th ^ hash64(rq.String())*31)
	}
}

// hostsCase serves requests on a router with many hosts.
func hostsCase(c *Case) {
	p := baseProf()
	bare(&p)
	p.Hosts, p.RootP, p.MaxNodes = 22, 0.6, 30
	p.HandlerP, p.SubtreeP = 0.9, 0.3
	if c.P(0.05) {
		p.Hosts, p.MaxNodes = 110, 130
	}
	rp := baseReq()
	rp.HostP, rp.PortP, rp.MethodP, rp.MixP = 0.4, 0.5, 0.03, 0.3
	t, b, desc := begin(c, p)
	th := hash64(desc)
	for i := 0; i < 50; i++ {
		rq := genReq(c.Rand, t, rp)
		if c.P(0.1) && len(t.Hosts) > 0 {
			// A static host named like the values of a pattern host.
			rq.Host = hostValue(c.Rand, pick(c.Rand, t.Hosts).Tmpl)
		}
		out := predict(t, rq)
		o := serve(b, b.Router, rq, nil)
		if d := first(diffPanic(o), diffHandlers(out, o),
			diffStatus(out, o, true)); d != "" {
			report(c, rq, out, o, d)
		}
		c.Count("answer: " + out.Kind())
		c.EvalHash(th ^ hash64(rq.String())*31)
	}
}

// route sets something at the node through one of the ways the API offers.
// The functions get what they are called on and the URL or path template.
func (b *Built) route(n *Node, direct func(o Rsp),
	at func(anc Rsp, u string), router func(u string)) string {
	switch b.r.IntN(3) {
	case 0:
		if n.Kind == kRes {
			as := b.chain(n)
			a := pick(b.r, as)
			u := b.relURL(a, n)
			at(b.Objs[a.ID], u)
			return fmt.Sprintf("#%d.…At(%q)", a.ID, u)
		}
	case 1:
		u := b.fullURL(n)
		router(u)
		return fmt.Sprintf("ro.…At(%q)", u)
	}
	direct(b.Objs[n.ID])
	return fmt.Sprintf("#%d", n.ID)
}

// setImpl mirrors SetImplementation in the reference tree.
func setImplModel(n *Node, impl nm.Impl, ms []string) {
	n.Impl = impl
	if len(ms) == 0 {
		return
	}
	n.Handlers, n.NotAllow = map[string]string{}, ""
	n.ReqMws, n.MethMws = nil, nil
	id := itoa(n.ID)
	for _, m := range ms {
		if m == "!" {
			n.NotAllow = id + "/!"
		} else {
			n.Handlers[m] = id + "/" + m
		}
	}
}

// randImpl returns an implementation with the methods it handles.
func randImpl(c *Case, n *Node) (nm.Impl, []string) {
	b := newImplBase(itoa(n.ID))
	switch c.IntN(5) {
	case 0:
		return &implGet{b}, []string{"GET"}
	case 1:
		return &implGetPost{b}, []string{"GET", "POST"}
	case 2:
		return &implShare{b}, []string{"SHARE", "GET", "!"}
	case 3:
		return &implOptions{b}, []string{"OPTIONS", "PUT"}
	}
	return &implEmpty{itoa(n.ID) + "-" + itoa(c.IntN(1000))}, nil
}

// resetDataCase sets shared data and implementations again and again and
// observes them in the readers and in the arguments.
func resetDataCase(c *Case) {
	p := baseProf()
	p.SharedP, p.ImplP, p.SubtreeP, p.PasserP = 0.5, 0.4, 0.4, 0.4
	p.SecureP, p.TSlashP, p.MaxNodes = 0.05, 0.1, 12
	t, b, desc := begin(c, p)
	for i := 0; i < 25; i++ {
		n := pick(c.Rand, t.Nodes)
		switch c.IntN(5) {
		case 0, 1:
			var v any = "again" + itoa(i) + "-" + itoa(n.ID)
			if c.P(0.2) {
				v = &struct{ i int }{i}
			} else if c.P(0.1) {
				v = i
			} else if c.P(0.2) {
				v = oddShared(c.Rand)
			} else if c.P(0.05) {
				v = nil
			}
			way := b.route(n, func(o Rsp) { o.SetSharedData(v) },
				func(a Rsp, u string) { a.SetSharedDataAt(u, v) },
				func(u string) { b.Router.SetSharedDataAt(u, v) })
			n.Shared = v
			c.Logf("%s: shared data of #%d = %v", way, n.ID, v)
			c.Count("shared data set")
		case 2:
			impl, ms := randImpl(c, n)
			way := b.route(n, func(o Rsp) { o.SetImplementation(impl) },
				func(a Rsp, u string) { a.SetImplementationAt(u, impl) },
				func(u string) { b.Router.SetImplementationAt(u, impl) })
			setImplModel(n, impl, ms)
			c.Logf("%s: implementation of #%d = %T", way, n.ID, impl)
			c.Count("implementations set")
		default:
			rp := baseReq()
			rp.ExtraP = 0.4
			rq := genReq(c.Rand, t, rp)
			out := predict(t, rq)
			o := serve(b, b.Router, rq, t.AllNames())
			if d := first(diffPanic(o), diffSeq(out, o, "pqmhr", false),
				diffSnaps(out, o, "pqmPQMhr", snResp|snData)); d != "" {
				c.Logf("%s", t)
				report(c, rq, out, o, d)
			}
			c.EvalHash(hash64(desc, rq.String(), itoa(i)))
		}
		n = pick(c.Rand, t.Nodes)
		o := b.Objs[n.ID]
		if o.SharedData() != n.Shared {
			c.Fail("#%d: SharedData is %v, expected %v", n.ID, o.SharedData(), n.Shared)
		}
		if n.ByImpl || n.Impl != nil {
			if !reflect.DeepEqual(o.Implementation(), n.Impl) || o.Implementation() != n.Impl {
				c.Fail("#%d: Implementation is %v, expected %v", n.ID,
					o.Implementation(), n.Impl)
			}
		} else if o.Implementation() != nil {
			c.Fail("#%d: Implementation is %v, expected none", n.ID, o.Implementation())
		}
	}
}

// ---------------------------------------------------------------------------

var allMethods = append(append([]string{}, stdMethods...), customMethods...)

func init() {
	register("C04", "sequences of setting, re-setting and wrapping the handlers "+
		"of 1 to 36 standard and custom methods, by single methods, lists, "+
		"implementations and the At forms, with requests of every method in "+
		"between; and random trees; non-trivial: every request to a responder "+
		"with handlers; distinct by the history and the request",
		func(run *Run) {
			run.Stage("methods", scale(12000, 300000), methodsCase)
			run.routed(&routed{
				name: "trees", quick: 2500, deep: 60000, reqs: 30,
				prof: func(c *Case, p *Prof) {
					p.ManyMethodsP, p.NotAllowP, p.ImplP = 0.3, 0.25, 0.2
					p.CustomMethodsP, p.MethodsUpTo = 0.4, 6
					p.SecureP, p.TSlashP = 0.03, 0.1
				},
				req: func(c *Case, p *RProf) { p.MethodP = 0.6 },
				cmp: func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
					return first(diffHandlers(p, o), diffStatus(p, o, true),
						diffAllow(p, o), diffOnce(p, o))
				},
				sig: func(t *Tree, rq *Req, p *Out) bool { return p.Node() >= 0 },
			})
		},
		"methods are sent in the case the client wrote them; the package stores "+
			"upper-case methods")
}

// methodsCase applies random operations to the handlers of one responder.
func methodsCase(c *Case) {
	t := &Tree{}
	var n *Node
	switch c.IntN(3) {
	case 0:
		n = &Node{Kind: kHost, Tmpl: &Tmpl{Parts: []Part{{Static: "h.test"}}}}
		t.Hosts = []*Node{n}
	case 1:
		n = &Node{Kind: kRoot}
		t.Root = n
	default:
		root := &Node{Kind: kRoot}
		t.Root = root
		n = &Node{ID: 1, Kind: kRes, Parent: root,
			Tmpl: &Tmpl{Parts: []Part{{Static: "r"}}}}
		root.Kids = []*Node{n}
		t.Nodes = append(t.Nodes, root)
	}
	t.Nodes = append(t.Nodes, n)
	b := build(c.Rand, t, false)
	for _, l := range b.Ops {
		c.Logf("%s", l)
	}
	pool := allMethods
	if c.P(0.6) {
		k := c.IntN(len(allMethods))
		pool = append(append([]string{}, allMethods[k:]...), allMethods[:k]...)
		pool = pool[:3+c.IntN(8)]
	}
	n.Handlers = map[string]string{}
	id := itoa(n.ID)
	hist := ""
	sends := 0
	set := func(ms []string, label string) {
		h := mkHandler(label)
		l := b.methodList(ms)
		way := b.route(n, func(o Rsp) { o.SetHandlerFor(l, h) },
			func(a Rsp, u string) { a.SetPathHandlerFor(l, u, h) },
			func(u string) { b.Router.SetURLHandlerFor(l, u, h) })
		c.Logf("%s SetHandlerFor(%q) %s", way, l, label)
		hist += "S" + l
		for _, m := range ms {
			if m == "!" {
				n.NotAllow = label
				delete(n.MethMws, "!")
			} else {
				n.Handlers[m] = label
				delete(n.MethMws, m)
			}
		}
	}
	allowed := func() {
		got := methodsOf(b.Objs[n.ID])
		sort.Strings(got)
		want := n.Methods()
		if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
			c.Fail("AllowedHTTPMethods: expected %v, got %v", want, got)
		}
	}
	optWrapped := false
	send := func(m string) {
		path := "/"
		if n.Kind == kRes {
			path = "/r"
		}
		rq := &Req{Method: m, Host: "h.test", URI: path}
		if c.P(0.1) {
			rq.Odd = genOdd(c.Rand, m)
		}
		out := predict(t, rq)
		o := serve(b, b.Router, rq, nil)
		if d := first(diffPanic(o), diffSeq(out, o, "mMh", true),
			diffStatus(out, o, false), diffAllow(out, o), diffOnce(out, o)); d != "" {
			report(c, rq, out, o, d)
		}
		sends++
		c.Count("answer: " + out.Kind())
		c.EvalHash(hash64(hist, m, id))
	}
	for i := 3 + c.IntN(25); i > 0; i-- {
		if c.P(0.2) {
			allowed()
		}
		switch w := c.IntN(10); {
		case w < 4:
			k := 1
			if c.P(0.3) {
				k = 1 + c.IntN(6)
			} else if c.P(0.05) {
				k = 7 + c.IntN(60)
			}
			var ms []string
			for ; k > 0; k-- {
				ms = append(ms, pick(c.Rand, pool))
			}
			set(ms, fmt.Sprintf("%s/h%d", id, i))
		case w == 4:
			set([]string{"!"}, fmt.Sprintf("%s/!%d", id, i))
		case w == 5 && c.P(0.4):
			impl, ms := randImpl(c, n)
			way := b.route(n, func(o Rsp) { o.SetImplementation(impl) },
				func(a Rsp, u string) { a.SetImplementationAt(u, impl) },
				func(u string) { b.Router.SetImplementationAt(u, impl) })
			c.Logf("%s SetImplementation(%v)", way, ms)
			hist += fmt.Sprint("I", ms)
			setImplModel(n, impl, ms)
		case w == 6 && len(n.Handlers) > 0:
			// Wrapping doesn't change which handler runs.
			cand := append(n.Methods(), "!")
			m := pick(c.Rand, cand)
			if m == "OPTIONS" && n.Handlers[m] == "" {
				optWrapped = true
			}
			if n.MethMws == nil {
				n.MethMws = map[string][]string{}
			}
			l := fmt.Sprintf("%s/m%d", id, i)
			n.MethMws[m] = append(n.MethMws[m], l)
			list := b.methodList([]string{m})
			way := b.route(n, func(o Rsp) { o.WrapHandlerOf(list, mkMw('m', l)) },
				func(a Rsp, u string) { a.WrapPathHandlerOf(list, u, mkMw('m', l)) },
				func(u string) { b.Router.WrapURLHandlerOf(list, u, mkMw('m', l)) })
			c.Logf("%s WrapHandlerOf(%q) %s", way, list, l)
			hist += "W" + list
		default:
			if len(n.Handlers) == 0 {
				n2 := *n
				n2.NotAllow = ""
				continue
			}
			m := pick(c.Rand, pool)
			switch c.IntN(8) {
			case 0:
				m = "OPTIONS"
			case 1:
				m = pick(c.Rand, allMethods)
			case 2:
				m = strings.ToLower(m)
			}
			send(m)
		}
	}
	_ = optWrapped
	// At the end every method is requested.
	if len(n.Handlers) > 0 {
		for _, m := range allMethods {
			send(m)
		}
		for _, m := range n.Methods() {
			send(m)
			send(m + "X")
			if len(m) > 1 {
				send(m[:len(m)-1])
			}
		}
	}
	allowed()
	o := b.Objs[n.ID]
	for _, m := range allMethods {
		h := o.HandlerOf(m)
		_, ok := n.Handlers[m]
		if m == "OPTIONS" && len(n.Handlers) > 0 {
			ok = true
		}
		if (h != nil) != ok {
			c.Fail("HandlerOf(%q): expected %v, got %v", m, ok, h != nil)
		}
	}
}
