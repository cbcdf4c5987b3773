package main

// cutTree makes a tree of the responder and what is below it.
func cutTree(t *Tree, n *Node) *Tree {
	q := &Tree{Nodes: []*Node{n}}
	if n.Kind == kHost {
		q.Hosts = []*Node{n}
	} else if n.Kind == kRoot {
		q.Root = n
	}
	n.Parent = nil
	below(n, func(k *Node) { q.Nodes = append(q.Nodes, k) })
	for i, k := range q.Nodes {
		k.ID = i
		relabel(k)
	}
	return q
}

// relabel gives the labels of the node its ID.
func relabel(n *Node) {
	re := func(l string) string {
		for i := 0; i < len(l); i++ {
			if l[i] == '/' {
				return itoa(n.ID) + l[i:]
			}
		}
		return l
	}
	all := func(ls []string) {
		for i := range ls {
			ls[i] = re(ls[i])
		}
	}
	for m, l := range n.Handlers {
		n.Handlers[m] = re(l)
	}
	n.NotAllow, n.RedirH = re(n.NotAllow), re(n.RedirH)
	all(n.Passers)
	all(n.ReqMws)
	for _, ls := range n.MethMws {
		all(ls)
	}
	n.Wraps = append([]Wrap{}, n.Wraps...)
	for i := range n.Wraps {
		n.Wraps[i].L = re(n.Wraps[i].L)
	}
}

func servedCase(c *Case) {
	p := baseProf()
	flavour(c, &p)
	p.MaxNodes = 14
	p.PasserP, p.ReqMwP, p.MethMwP = 0.15, 0.15, 0.1
	p.RedirP, p.RedirAny, p.PermCodeP, p.RedirHP = 0.05, 0.3, 0.1, 0.1
	p.SubtreeP = 0.2
	t := genTree(c.Rand, p)
	var b *Built
	n := pick(c.Rand, t.Nodes)
	if c.P(0.6) {
		for n.Parent != nil && c.P(0.5) {
			n = n.Parent
		}
	}
	router := c.P(0.4)
	if router {
		c.Logf("%s", t)
		b = build(c.Rand, t, c.P(0.2))
		c.Count("registered at a router")
	} else {
		t = cutTree(t, n)
		c.Logf("%s", &Tree{Hosts: []*Node{n}})
		b = newBuilt(c.Rand, t, false)
		if n.Kind == kRes {
			b.newRes(n)
		} else {
			b.newTop(n)
		}
		b.kids(n, b.order(n.Kids))
		b.flush()
		c.Count("on its own")
	}
	for _, l := range b.Ops {
		c.Logf("%s", l)
	}
	c.Count([]string{"roots", "hosts", "resources"}[n.Kind])
	th := hash64(t.String(), itoa(n.ID))
	names := t.AllNames()
	for i := 0; i < 40; i++ {
		rp := baseReq()
		rp.Under = n
		rp.HostP = 0.2
		rp.UncleanP, rp.BadP, rp.FalseP, rp.ActP, rp.RelP = 0.1, 0.05, 0.05, 0.1, 0.05
		if c.P(0.1) {
			rp.Under = nil // Any request.
		}
		rq := genReq(c.Rand, t, rp)
		if rp.Under == nil && !router {
			continue
		}
		out := predictAt(t, rq, n)
		o := serve(b, b.Objs[n.ID], rq, names)
		d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, false),
			diffAllow(out, o), diffLoc(out, o), diffSeq(out, o, "pqmh", true),
			diffSnaps(out, o, "hpqmr", snVals|snResp|snRem|snData))
		if d != "" {
			report(c, rq, out, o, "served by #"+itoa(n.ID)+": "+d)
		}
		c.Count("answer: " + out.Kind())
		c.EvalHash(th ^ hash64(rq.String())*31)
		if i < 1 && c.Index < 3 {
			c.Sample("#%d %.400s => %.400s", n.ID, rq.String(), o.String())
		}
	}
}

func init() {
	register("C31", "random trees of hosts, roots and resources at any depth, registered at a "+
		"router or on their own, serve requests directly, which are compared with the "+
		"reference; non-trivial: every request; distinct by tree, responder and request",
		func(run *Run) {
			run.Stage("direct", scale(16000, 300000), servedCase)
		}, "requests without a path aren't decided for a root; \"*\" isn't sent to resources")
}
