package main

import "hash/fnv"

// routed is a stage in which random trees are built and random requests are
// served, and every request is compared with the prediction of the model.
type routed struct {
	name  string
	quick int // The number of trees.
	deep  int
	reqs  int // The number of requests per tree.
	prof  func(c *Case, p *Prof)
	req   func(c *Case, p *RProf)
	names bool // Observe the values of the handled requests.
	cmp   func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string
	// sig returns true if the case is one the property speaks about.
	sig func(t *Tree, rq *Req, p *Out) bool
	// after, if set, is called after the comparison.
	after func(c *Case, b *Built, rq *Req, p *Out, o *Obs)
}

func hash64(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// begin generates and builds a tree and logs it.
func begin(c *Case, p Prof) (*Tree, *Built, string) {
	t := genTree(c.Rand, p)
	d := t.String()
	c.Logf("%s", d)
	b := build(c.Rand, t, c.P(0.2))
	for _, l := range b.Ops {
		c.Logf("%s", l)
	}
	c.Count("trees")
	c.CountN("nodes", len(t.Nodes))
	c.CountN("building operations", len(b.Ops))
	return t, b, d
}

// report logs the request and fails.
func report(c *Case, rq *Req, out *Out, o *Obs, d string) {
	c.Logf("request: %s", rq)
	if out != nil {
		c.Logf("expected: %s", out)
	}
	if o != nil {
		c.Logf("observed: %s", o)
	}
	c.Fail("%s", d)
}

func (run *Run) routed(s *routed) {
	run.Stage(s.name, scale(s.quick, s.deep), func(c *Case) {
		p, rp := baseProf(), baseReq()
		if thorough && c.P(0.1) {
			p.MaxNodes = 90
		}
		if s.prof != nil {
			s.prof(c, &p)
		}
		if s.req != nil {
			s.req(c, &rp)
		}
		t, b, desc := begin(c, p)
		var names []string
		if s.names {
			names = t.AllNames()
		}
		th := hash64(desc)
		for i := 0; i < s.reqs; i++ {
			rq := genReq(c.Rand, t, rp)
			out := predict(t, rq)
			o := serve(b, b.Router, rq, names)
			c.Count("answer: " + out.Kind())
			c.CountN("events", len(o.Ev))
			d := diffPanic(o)
			if d == "" {
				d = s.cmp(c, t, rq, out, o)
			}
			if d != "" {
				report(c, rq, out, o, d)
			}
			if s.after != nil {
				s.after(c, b, rq, out, o)
			}
			if s.sig == nil || s.sig(t, rq, out) {
				c.EvalHash(th ^ hash64(rq.String())*31)
			} else {
				c.Eval("")
			}
			if i < 1 && c.Index < 3 {
				c.Sample("%.400s => %.700s", rq.String(), o.String())
			}
		}
	})
}
