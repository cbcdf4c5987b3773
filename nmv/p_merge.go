package main

import (
	"fmt"
	"reflect"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// part is a piece of the tree that's built on its own and then registered
// where the other parts already may have the same responders.
type part struct {
	id     int
	top    *Node // nil for the part that's built by the router.
	in     []bool
	target int
	t      *Tree
	copies []*Node
	b      *Built
}

type merge struct {
	c       *Case
	t       *Tree
	parts   []*part
	owner   []int // The part that has the handlers of the node.
	clash   *Node // The node that has handlers in two parts.
	clashAt int   // The second part.
	kept    [][]Rsp

	firstObjs []Rsp // Those of the first part when it was built.
}

func (m *merge) owners(n *Node) (ps []int) {
	for _, p := range m.parts {
		if p.in[n.ID] {
			ps = append(ps, p.id)
		}
	}
	return
}

// plan distributes the nodes among the parts.
func (m *merge) plan() {
	c, t := m.c, m.t
	newPart := func(top *Node, target int) *part {
		p := &part{id: len(m.parts), top: top, target: target,
			in: make([]bool, len(t.Nodes)), copies: make([]*Node, len(t.Nodes))}
		m.parts = append(m.parts, p)
		return p
	}
	a := newPart(nil, -1)
	grow := func(p *part, n *Node, prob float64) {
		var walk func(n *Node)
		walk = func(n *Node) {
			p.in[n.ID] = true
			for _, k := range n.Kids {
				if c.P(prob) {
					walk(k)
				}
			}
		}
		walk(n)
	}
	prob := 0.4 + 0.5*c.Float64()
	tops := append([]*Node{}, t.Hosts...)
	if t.Root != nil {
		tops = append(tops, t.Root)
	}
	for _, n := range tops {
		if c.P(0.8) {
			grow(a, n, prob)
		}
	}
	for i := 1 + c.IntN(4); i > 0; i-- {
		// The top must have a parent in one of the parts.
		n := pick(c.Rand, t.Nodes)
		if c.P(0.3) {
			n = pick(c.Rand, tops)
		}
		target := 0
		if n.Kind == kRes {
			var ts []int
			for _, p := range m.parts {
				if p.in[n.Parent.ID] {
					ts = append(ts, p.id)
				}
			}
			if len(ts) == 0 {
				continue
			}
			target = pick(c.Rand, ts)
		}
		grow(newPart(n, target), n, 0.4+0.6*c.Float64())
	}
	// The remaining nodes.
	for _, n := range t.Nodes {
		if len(m.owners(n)) > 0 {
			continue
		}
		if n.Kind != kRes {
			if c.P(0.5) {
				grow(newPart(n, 0), n, prob)
			} else {
				a.in[n.ID] = true
			}
			continue
		}
		m.parts[pick(c.Rand, m.owners(n.Parent))].in[n.ID] = true
	}
	// The tops that are registered at the router can't be below each other's
	// targets, and the root of the router may be created implicitly.
	m.owner = make([]int, len(t.Nodes))
	for _, n := range t.Nodes {
		m.owner[n.ID] = pick(c.Rand, m.owners(n))
	}
	// Patterns may overlap only if they come from the same part.
	for _, n := range t.Nodes {
		if n.Tmpl == nil || n.Tmpl.IsStatic() || n.Tmpl.IsWild() {
			continue
		}
		os := m.owners(n)
		pre := fmt.Sprintf("k%d-", n.ID)
		if len(os) == 1 {
			pre = fmt.Sprintf("p%d-", os[0])
		}
		ps := n.Tmpl.Parts
		if ps[0].Name == "" {
			ps[0].Static = pre + ps[0].Static
		} else {
			ps = append([]Part{{Static: pre}}, ps...)
		}
		*n.Tmpl = Tmpl{Name: n.Tmpl.Name, Parts: ps}
	}
	// What has no handler doesn't stay in place.
	for _, n := range t.Nodes {
		if !n.CanHandle() && len(m.owners(n)) > 1 {
			n.Passers, n.Shared = nil, nil
			n.Cfg.Subtree = false
		}
		n.Redir = nil
	}
	if c.P(0.15) {
		// Two parts have the handlers of a node.
		for try := 0; try < 10; try++ {
			n := pick(c.Rand, t.Nodes)
			os := m.owners(n)
			if !n.CanHandle() || len(os) < 2 {
				continue
			}
			m.clash = n
			for _, o := range os {
				if o != m.owner[n.ID] {
					m.clashAt = o
				}
			}
			break
		}
	}
}

// bareOK tells whether the copy of the node in the part may be created without
// being configured.
func (m *merge) bareOK(p *part, n *Node) bool {
	if n.Kind != kRes || n == p.top {
		return false
	}
	if n.CanHandle() {
		return m.owner[n.ID] != p.id && !(m.clash == n && m.clashAt == p.id) &&
			!n.Cfg.Secure && (!n.Cfg.TSlash || n.Cfg.LenientTS)
	}
	return n.Cfg == Cfg{} && n.Shared == nil && len(n.Passers) == 0
}

// tree makes the tree of the part's copies.
func (m *merge) tree(p *part) {
	t := &Tree{Nodes: make([]*Node, len(m.t.Nodes)), names: m.t.AllNames()}
	if p.id == 0 {
		t.Passers = m.t.Passers
	}
	for _, n := range m.t.Nodes {
		if !p.in[n.ID] {
			continue
		}
		q := *n
		q.Kids = nil
		if q.Parent != nil {
			q.Parent = p.copies[n.Parent.ID]
		}
		if m.owner[n.ID] != p.id {
			q.Handlers, q.NotAllow, q.ByImpl = nil, "", false
			q.Passers, q.ReqMws, q.MethMws = nil, nil, nil
			q.PermCode, q.RedirH, q.Shared, q.Impl = 0, "", nil, nil
			if m.clash == n && m.clashAt == p.id {
				q.Handlers = map[string]string{"GET": "second/GET"}
			}
		}
		p.copies[n.ID], t.Nodes[n.ID] = &q, &q
		switch {
		case q.Parent != nil:
			q.Parent.Kids = append(q.Parent.Kids, &q)
		case p.id == 0 && q.Kind == kHost:
			t.Hosts = append(t.Hosts, &q)
		case p.id == 0:
			t.Root = &q
		}
	}
	p.t = t
}

// prefixOf returns the path template of the node's parent.
func prefixOf(n *Node) string { return relPath(nil, n.Parent) }

// make builds the part.
func (m *merge) make(p *part) {
	bare := map[int]bool{}
	for _, n := range m.t.Nodes {
		if p.in[n.ID] && m.bareOK(p, n) && m.c.P(0.5) {
			bare[n.ID] = true
		}
	}
	if p.id == 0 {
		p.b = newBuilt(m.c.Rand, p.t, m.c.P(0.2))
		p.b.bare = bare
		p.b.build()
	} else {
		p.b = newBuilt(m.c.Rand, p.t, m.c.P(0.2))
		p.b.bare = bare
		n := p.copies[p.top.ID]
		if n.Kind != kRes {
			p.b.newTop(n)
		} else {
			p.b.newRes(n)
		}
		p.b.kids(n, p.b.order(n.Kids))
		p.b.flush()
	}
	m.c.Logf("part %d for part %d:", p.id, p.target)
	for _, l := range p.b.Ops {
		m.c.Logf("  %s", l)
	}
}

// register registers the part in its target.
func (m *merge) register(p *part) {
	c, n := m.c, p.top
	tg := m.parts[p.target]
	o := p.b.Objs[n.ID]
	how := ""
	switch n.Kind {
	case kHost:
		how = "ro.RegisterHost"
		c.Logf("part %d: %s", p.id, how)
		tg.b.Router.RegisterHost(o.(*nm.Host))
	case kRoot:
		how = "ro.RegisterResource"
		c.Logf("part %d: %s", p.id, how)
		if c.P(0.5) {
			tg.b.Router.RegisterResource(o.(*nm.Resource))
		} else {
			tg.b.Router.RegisterResourceUnder("", o.(*nm.Resource))
		}
	default:
		r := o.(*nm.Resource)
		// The ancestors that are in the target.
		var as []*Node
		for q := n.Parent; q != nil && tg.in[q.ID]; q = q.Parent {
			as = append(as, q)
			if q == tg.top {
				break
			}
		}
		anc := pick(c.Rand, as)
		pre := relPath(anc, n.Parent)
		ao := m.kept[tg.id][anc.ID]
		switch {
		case anc == n.Parent:
			c.Logf("part %d: #%d.RegisterResource", p.id, anc.ID)
			ao.RegisterResource(r)
		case tg.id == 0 && c.P(0.4):
			u := "/" + prefixOf(n)
			if h := n.Host(); h != nil {
				u = "http://" + h.Tmpl.Src() + u
			}
			c.Logf("part %d: ro.RegisterResourceUnder(%q)", p.id, u)
			tg.b.Router.RegisterResourceUnder(u, r)
		default:
			if c.P(0.5) || strings.HasPrefix(pre, "http") {
				pre = "/" + pre
			}
			c.Logf("part %d: #%d.RegisterResourceUnder(%q)", p.id, anc.ID, pre)
			ao.RegisterResourceUnder(pre, r)
		}
	}
}

// places returns the order of the patterns of the responders of the part.
func (m *merge) places(p *part) (objs []Rsp, ts [][]string) {
	for _, o := range m.kept[p.id] {
		var s []string
		if o != nil {
			for _, k := range kidsOf(o) {
				if t := k.Template(); !t.IsStatic() && !t.IsWildcard() {
					s = append(s, t.Content())
				}
			}
		}
		objs, ts = append(objs, o), append(ts, s)
	}
	return
}

// placed checks that the patterns of a responder that has stayed have kept their
// order, also when some of them have been replaced.
func (m *merge) placed(p *part, objs []Rsp, ts [][]string) {
	_, now := m.places(p)
	for id, o := range m.kept[p.id] {
		if o == nil || id >= len(objs) || objs[id] != o {
			continue
		}
		k := 0
		for _, s := range now[id] {
			if k < len(ts[id]) && s == ts[id][k] {
				k++
			}
		}
		if k < len(ts[id]) {
			m.c.Fail("the patterns of #%d were in the order %q, now %q", id, ts[id], now[id])
		}
		m.c.CountN("patterns in their places", k)
	}
}

// note tells which objects stay in the target.
func (m *merge) note(p *part) {
	tg := m.parts[p.target]
	m.join(p.top, m.kept[tg.id], m.kept[p.id], m.kept[tg.id])
	for id, o := range m.kept[tg.id] {
		tg.in[id] = o != nil
	}
}

// join registers the incoming responder where the existing one may be.
func (m *merge) join(n *Node, have, in, out []Rsp) {
	x, y := have[n.ID], in[n.ID]
	var walk func(n *Node, from []Rsp)
	walk = func(n *Node, from []Rsp) {
		if from[n.ID] == nil {
			return
		}
		out[n.ID] = from[n.ID]
		for _, k := range n.Kids {
			walk(k, from)
		}
	}
	switch {
	case y == nil:
		walk(n, have)
	case x == nil:
		walk(n, in)
	case len(methodsOf(y)) == 0:
		m.c.Count("registered responders dissolved")
		out[n.ID] = x
		for _, k := range n.Kids {
			m.join(k, have, in, out)
		}
	default:
		// The children of the existing one are registered in the new one.
		m.c.Count("existing responders replaced")
		out[n.ID] = y
		for _, k := range n.Kids {
			m.join(k, in, have, out)
		}
	}
}

func mergeCase(c *Case) {
	p := baseProf()
	p.MaxNodes = 18
	p.HandlerP = pick(c.Rand, []float64{0.4, 0.6, 0.85})
	p.PasserP, p.ReqMwP, p.MethMwP = 0.15, 0.15, 0.15
	p.SecureP, p.TSlashP = 0.1, 0.2
	if c.P(0.3) {
		p.Multi, p.Pattern = 8, 8
	}
	t := genTree(c.Rand, p)
	m := &merge{c: c, t: t}
	m.plan()
	desc := t.String()
	c.Logf("%s", desc)
	for _, q := range m.parts {
		m.tree(q)
	}
	m.kept = make([][]Rsp, len(m.parts))
	for _, q := range m.parts {
		m.make(q)
		m.kept[q.id] = append([]Rsp{}, q.b.Objs...)
	}
	m.firstObjs = append([]Rsp{}, m.parts[0].b.Objs...)
	// A part is registered after those that are registered in it, or before.
	a := m.parts[0]
	pending := append([]*part{}, m.parts[1:]...)
	c.Shuffle(len(pending), func(i, k int) { pending[i], pending[k] = pending[k], pending[i] })
	// A registered part is in its target.
	gone := map[int]int{}
	for len(pending) > 0 {
		var q *part
		for i, x := range pending {
			for tg, ok := gone[x.target]; ok; tg, ok = gone[x.target] {
				x.target = tg
			}
			if x.top.Kind != kRes || m.kept[x.target][x.top.Parent.ID] != nil {
				q = x
				pending = append(pending[:i], pending[i+1:]...)
				break
			}
		}
		if q == nil {
			panic("a part can't be registered")
		}
		clash := m.clash != nil && m.clashes(q)
		objs, ts := m.places(m.parts[q.target])
		err := panics(func() { m.register(q) })
		if clash {
			if err == nil {
				c.Fail("part %d is registered in part %d although both have the handlers of #%d",
					q.id, q.target, m.clash.ID)
			}
			c.Count("registrations with conflicting handlers")
			c.EvalHash(hash64(desc, "clash"))
			return
		}
		if err != nil {
			c.Fail("registering part %d in part %d panics: %v", q.id, q.target, err)
		}
		m.note(q)
		m.placed(m.parts[q.target], objs, ts)
		gone[q.id] = q.target
		c.Count("registrations of prepared parts")
	}
	if m.clash != nil {
		panic("no clash has been noticed")
	}
	b := a.b
	b.T, b.Objs = t, m.kept[0]
	for id, o := range b.Objs {
		switch o := o.(type) {
		case *nm.Host:
			b.hosts[o] = id
		case *nm.Resource:
			b.res[o] = id
		}
	}
	c.Count("merged trees")
	c.CountN("nodes", len(t.Nodes))
	for _, n := range t.Nodes {
		if len(m.first(n)) > 1 {
			c.Count("nodes in several parts")
		}
		if n.Kind == kRoot && b.Objs[n.ID] == nil {
			panic("no root")
		}
	}
	b.unordered = true
	relations(c, b, "after the registrations")
	m.order(b)
	m.checkDropped()
	th := hash64(desc)
	for i := 0; i < 30; i++ {
		rp := baseReq()
		rp.Exact = 0.6
		rq := genReq(c.Rand, t, rp)
		out := predict(t, rq)
		o := serve(b, b.Router, rq, t.AllNames())
		d := first(diffPanic(o), diffHandlers(out, o), diffStatus(out, o, true),
			diffSnaps(out, o, "hpqm", snVals|snResp), diffSeq(out, o, "qm", false))
		if d != "" {
			report(c, rq, out, o, d)
		}
		c.Count("answer: " + out.Kind())
		c.EvalHash(th ^ hash64(rq.String())*31)
	}
}

// checkDropped checks that the responders whose places were taken by others are
// registered nowhere.
func (m *merge) checkDropped() {
	c := m.c
	final := map[Rsp]bool{}
	for _, o := range m.kept[0] {
		final[o] = true
	}
	each := func(f func(o Rsp, what string)) {
		for _, p := range m.parts {
			for id, o := range p.b.Objs {
				if p.id == 0 {
					o = m.firstObjs[id]
				}
				if o != nil && !final[o] {
					f(o, fmt.Sprintf("the superseded #%d of part %d", id, p.id))
				}
			}
		}
	}
	each(func(o Rsp, what string) {
		if n := len(kidsOf(o)); n > 0 || o.HasAnyChildResources() {
			c.Fail("%s has %d children", what, n)
		}
		if o.Router() != nil {
			c.Fail("%s is still in the router", what)
		}
		if r, ok := o.(*nm.Resource); ok && (r.Parent() != nil || r.Host() != nil) {
			c.Fail("%s still has a parent", what)
		}
	})
	each(func(o Rsp, what string) {
		ro := nm.NewRouter()
		var err any
		switch o := o.(type) {
		case *nm.Host:
			err = panics(func() { ro.RegisterHost(o) })
		case *nm.Resource:
			err = panics(func() { ro.RegisterResource(o) })
		}
		if err != nil {
			c.Fail("%s can't be registered again: %v", what, err)
		}
		if o.Router() != ro {
			c.Fail("%s isn't in the router it has been registered in", what)
		}
		c.Count("superseded responders")
	})
}

// clashes tells whether both the part and its target have the handlers.
func (m *merge) clashes(q *part) bool {
	id := m.clash.ID
	x, y := m.kept[q.id][id], m.kept[q.target][id]
	return x != nil && y != nil && len(methodsOf(x)) > 0 &&
		len(methodsOf(y)) > 0
}

func (m *merge) first(n *Node) (ps []int) {
	for _, p := range m.parts {
		if p.t.Nodes[n.ID] != nil {
			ps = append(ps, p.id)
		}
	}
	return
}

// order checks that the patterns of a part keep their order.
func (m *merge) order(b *Built) {
	for _, n := range m.t.Nodes {
		at := map[int]int{}
		for i, k := range kidsOf(b.Objs[n.ID]) {
			at[b.idOfRes(k)] = i
		}
		for i, k := range n.Kids {
			for _, l := range n.Kids[i+1:] {
				if k.Tmpl.IsStatic() || k.Tmpl.IsWild() || l.Tmpl.IsStatic() || l.Tmpl.IsWild() {
					continue
				}
				x, y := m.first(k), m.first(l)
				if len(x) == 1 && reflect.DeepEqual(x, y) && at[k.ID] > at[l.ID] {
					m.c.Fail("the patterns #%d and #%d of #%d have changed places", k.ID, l.ID, n.ID)
				}
			}
		}
	}
}

func init() {
	register("C22", "random trees that are cut into overlapping parts, which are built "+
		"on their own and registered in each other; the handlers of a responder are in "+
		"one of its parts, or in two, so that the registration must fail; "+
		"non-trivial: every request to a merged tree",
		func(run *Run) {
			run.Stage("merge", scale(12000, 150000), mergeCase)
		}, "what isn't configured equally is only merged where the documentation decides "+
			"the result", "patterns overlap only if they come from the same part: the order "+
			"of the others isn't documented")
}
