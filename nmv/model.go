package main

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strings"
)

// Req is a generated request.
type Req struct {
	Method string
	TLS    bool
	Host   string
	URI    string // The request target.

	// When the URL is set, it's used instead of the URI.
	URL *url.URL

	Acts map[string]byte // Label to the action of the middleware or handler.
	Hdr  map[string]string

	WantNode int // The node the request is made for, or -1.

	Over string // The method that replaces the request's by an action.
	Odd  *Odd   // What must not matter.
}

// Actions.
const (
	actPass     = 0
	actDrop     = 'd' // Return false without calling the next handler.
	actAnswer   = 'a' // Respond without calling the next handler.
	actFallback = 'F' // Respond if the next handler returns false.
	actFalse    = 'f' // A handler returns false and responds nothing.
	actSilent   = 's' // A handler returns true and responds nothing.
	actWriter   = 'w' // Replace the response writer.
	actRequest  = 'r' // Replace the request.
	actMethod   = 'm' // Replace the request with one of another method.
	actGo       = 'g' // Call the next handler in another goroutine.
)

func (rq *Req) String() string {
	s := rq.Method + " "
	if rq.TLS {
		s += "(tls) "
	}
	s += "host=" + rq.Host + " "
	if rq.URL != nil {
		s += "Path=" + rq.URL.Path + " RawPath=" + rq.URL.RawPath +
			" RawQuery=" + rq.URL.RawQuery
	} else {
		s += rq.URI
	}
	if rq.Odd != nil {
		s += " " + rq.Odd.String()
	}
	if len(rq.Acts) > 0 {
		var ls []string
		for l, a := range rq.Acts {
			ls = append(ls, l+"="+string(a))
		}
		sort.Strings(ls)
		s += " acts[" + strings.Join(ls, " ") + "]"
	}
	return s
}

func (rq *Req) parsedURL() *url.URL {
	if rq.URL != nil {
		u := *rq.URL
		return &u
	}
	u, err := url.ParseRequestURI(rq.URI)
	if err != nil {
		panic("bad URI " + rq.URI + ": " + err.Error())
	}
	return u
}

// Make returns the request as a server would make it.
func (rq *Req) Make() *http.Request {
	r := &http.Request{
		Method: rq.Method, URL: rq.parsedURL(), Host: rq.Host,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: http.NoBody, RequestURI: rq.URI,
		RemoteAddr: "192.0.2.1:1234",
	}
	if rq.TLS {
		r.TLS = &tls.ConnectionState{HandshakeComplete: true}
	}
	for k, v := range rq.Hdr {
		r.Header.Set(k, v)
	}
	if rq.Odd != nil {
		r = rq.Odd.apply(r)
	}
	return r
}

// Rem is a remaining path: the decoded segments and the trailing slash.
type Rem struct {
	Segs  []string
	Slash bool
	Any   bool // It isn't decided.
}

// Snap is what can be observed through the arguments.
type Snap struct {
	Vals   map[string]string
	Maybe  map[string]string
	Rem    Rem
	RawRem string // Observed.
	Host   int
	Res    int
	Shared any
	Impl   any
}

// Ev is an event of a request.
type Ev struct {
	K    byte // p, q, m: a middleware is called; P, Q, M: it returns.
	L    string
	Ret  bool
	URL  string
	Code int
	Node int
	S    *Snap
	W    any // Observed extras.
}

// Decision kinds.
const (
	dHandler    = "handler"
	dNotAllow   = "notallowed-handler"
	d405        = "405"
	dOptions    = "options"
	dCanonical  = "canonical"
	dRedirect   = "redirect"
	dAny        = "redirect-any"
	dNotFound   = "notfound"
	dBadRequest = "badrequest"
	dMw         = "middleware"
)

// Answer is a terminal answer.
type Answer struct {
	Kind  string
	Node  int
	Label string
	Why   string
}

// Out is what's predicted for a request.
type Out struct {
	Ev          []Ev
	Answers     []Answer
	Status      int
	Allow       []string
	Loc         *url.URL // The location's escaped form.
	Unclean     bool     // The path of the location needn't be clean.
	PathUnclean bool
	Silent      bool     // Nothing must be written.
	Reached     []int    // The nodes the request is received by.
	Tags        []string // The writers the answer goes through.
}

// Kind returns the kind of the only answer.
func (o *Out) Kind() string {
	if len(o.Answers) != 1 {
		return "?"
	}
	return o.Answers[0].Kind
}

// Node returns the node of the only answer.
func (o *Out) Node() int {
	if len(o.Answers) != 1 {
		return -1
	}
	return o.Answers[0].Node
}

type model struct {
	t    *Tree
	rq   *Req
	u    *url.URL
	out  *Out
	path string // Escaped and clean.
	uncl bool
	star bool
	segs []string // Escaped.
	dec  []string
	bad  []bool

	tslash  bool
	subtree bool
	vals    map[string]string
	maybe   map[string]string
	permG   int

	method string
	wst    []string // The replaced writers.
	rst    []string // The replaced requests.
	conv   int      // The number of converted middlewares around.
}

func escapedPath(u *url.URL) string {
	if u.RawPath != "" {
		return u.RawPath
	}
	p := (&url.URL{Path: u.Path}).EscapedPath()
	return p
}

// cleanPath is the reference of cleaning.
func cleanPath(p string) (string, bool) {
	if p == "" || p == "*" {
		return p, false
	}
	if p[0] != '/' {
		p = "/" + p
	}
	c := path.Clean(p)
	if strings.HasSuffix(p, "/") && c != "/" {
		c += "/"
	}
	return c, c != p
}

// reqHost returns the host without the port.
func reqHost(rq *Req, u *url.URL) string {
	h := rq.Host
	if h == "" {
		h = u.Host
	}
	if i := strings.LastIndexByte(h, ':'); i >= 0 {
		if _, port, err := net.SplitHostPort(h); err == nil {
			h = h[:len(h)-len(port)-1]
		}
	}
	return h
}

func newModel(t *Tree, rq *Req) *model {
	m := &model{t: t, rq: rq, u: rq.parsedURL(), out: &Out{},
		vals: map[string]string{}, maybe: map[string]string{}, permG: permGlobal,
		method: rq.Method}
	ep := escapedPath(m.u)
	if m.u.RawPath == "" && m.u.Path == "*" {
		ep = "*"
	}
	m.path, m.uncl = cleanPath(ep)
	m.out.PathUnclean = m.uncl
	m.star = m.path == "*"
	if len(m.path) > 1 {
		p := m.path[1:]
		if strings.HasSuffix(p, "/") {
			m.tslash = true
			p = p[:len(p)-1]
		}
		m.segs = strings.Split(p, "/")
		for _, s := range m.segs {
			d, err := url.PathUnescape(s)
			m.dec = append(m.dec, d)
			m.bad = append(m.bad, err != nil)
		}
	}
	return m
}

// predict returns what must happen on the tree served through a router.
func predict(t *Tree, rq *Req) *Out {
	m := newModel(t, rq)
	ok := m.mws('p', nil, t.Passers, -2, func() bool { return m.route() })
	if !ok {
		m.notFound(-1, "unhandled")
	}
	return m.out
}

// predictAt returns what must happen when the responder is served directly.
func predictAt(t *Tree, rq *Req, n *Node) *Out {
	m := newModel(t, rq)
	ok := false
	switch n.Kind {
	case kHost:
		if h := reqHost(rq, m.u); h != "" {
			if vals, matched := n.Tmpl.Match(h); matched {
				m.take(vals)
				ok = m.receive(n, -1)
			}
		}
	case kRoot:
		ok = m.receive(n, -1)
	default:
		switch {
		case len(m.segs) == 0:
		case m.bad[0]:
			m.out.Status = 400
			ok = m.answer(dBadRequest, -1, "", "")
		case n.Tmpl.IsWild():
			m.vals[n.Tmpl.Parts[0].Name] = m.dec[0]
			ok = m.receive(n, 0)
		default:
			if vals, matched := n.Tmpl.Match(m.dec[0]); matched {
				m.take(vals)
				ok = m.receive(n, 0)
			}
		}
	}
	if !ok {
		m.notFound(-1, "unhandled")
	}
	return m.out
}

func (m *model) answer(kind string, node int, label, why string) bool {
	m.out.Answers = append(m.out.Answers, Answer{kind, node, label, why})
	m.out.Tags = nil
	for i := len(m.wst) - 1; i >= 0; i-- {
		m.out.Tags = append(m.out.Tags, m.wst[i])
	}
	return true
}

func (m *model) notFound(node int, why string) bool {
	m.out.Status = 404
	return m.answer(dNotFound, node, "", why)
}

func (m *model) route() bool {
	host := reqHost(m.rq, m.u)
	if host != "" {
		for _, h := range m.t.Hosts {
			if h.Tmpl.IsStatic() && h.Tmpl.Parts[0].Static == host {
				return m.receive(h, -1)
			}
		}
		for _, h := range m.t.Hosts {
			if h.Tmpl.IsStatic() {
				continue
			}
			if vals, ok := h.Tmpl.Match(host); ok {
				m.take(vals)
				return m.receive(h, -1)
			}
		}
	}
	if m.t.Root != nil && m.u.Path != "" {
		return m.receive(m.t.Root, -1)
	}
	return m.notFound(-1, "no host")
}

func (m *model) take(vals map[string]string) {
	for k, v := range vals {
		m.vals[k] = v
	}
}

func (m *model) snap(n *Node, i int) *Snap {
	s := &Snap{Vals: map[string]string{}, Maybe: map[string]string{}, Host: -1, Res: -1}
	for k, v := range m.vals {
		s.Vals[k] = v
	}
	for k, v := range m.maybe {
		s.Maybe[k] = v
	}
	if i >= -1 && i+1 < len(m.dec) {
		s.Rem = Rem{Segs: m.dec[i+1:], Slash: m.tslash}
		for _, b := range m.bad[i+1:] {
			if b {
				s.Rem.Any = true
			}
		}
	}
	if m.star {
		s.Rem.Any = true
	}
	if n != nil {
		if h := n.Host(); h != nil {
			s.Host = h.ID
		}
		if n.Kind != kHost {
			s.Res = n.ID
		}
		s.Shared, s.Impl = n.Shared, n.Impl
	}
	return s
}

func nodeID(n *Node) int {
	if n == nil {
		return -1
	}
	return n.ID
}

// mws runs the middlewares, the last one outermost.
func (m *model) mws(k byte, n *Node, labels []string, i int, f func() bool) bool {
	if len(labels) == 0 {
		return f()
	}
	l := labels[len(labels)-1]
	next := func() bool { return m.mws(k, n, labels[:len(labels)-1], i, f) }
	m.out.Ev = append(m.out.Ev, Ev{K: k, L: l, Node: nodeID(n), S: m.snap(n, i)})
	ret := false
	conv := convMw(l)
	method, wst, rst := m.method, m.wst, m.rst
	if conv {
		m.conv++
	}
	switch act := m.rq.Acts[l]; {
	case act == actDrop && conv:
		// The net/http middleware has handled the request without a response.
		m.out.Status, m.out.Silent = 0, true
		ret = m.answer(dMw, nodeID(n), l, "")
	case act == actDrop:
	case act == actAnswer:
		m.out.Status = 299
		ret = m.answer(dMw, nodeID(n), l, "")
	case act == actFallback && !conv:
		ret = next()
		if !ret {
			m.out.Status = 299
			ret = m.answer(dMw, nodeID(n), l, "")
		}
	case act == actWriter:
		m.wst = append(wst[:len(wst):len(wst)], l)
		ret = next()
	case act == actRequest:
		m.rst = append(rst[:len(rst):len(rst)], l)
		ret = next()
	case act == actMethod:
		m.method = m.rq.Over
		ret = next()
	default:
		ret = next()
	}
	if conv {
		m.conv--
	}
	m.method, m.wst, m.rst = method, wst, rst
	m.out.Ev = append(m.out.Ev, Ev{K: k - 32, L: l, Node: nodeID(n),
		Ret: ret && !conv, S: m.snap(n, i)})
	return ret
}

// receive is what a matched responder does with the request. The argument i is
// the index of its segment; it's -1 for hosts and roots.
func (m *model) receive(n *Node, i int) bool {
	m.out.Reached = append(m.out.Reached, n.ID)
	if n.Redir != nil && n.Redir.Any {
		return m.redirect(n, i, dAny)
	}
	if n.Kind != kHost || len(m.path) > 1 {
		if n.Cfg.Subtree {
			m.subtree = true
		}
	}
	last := i == len(m.segs)-1
	if !last {
		below := m.mws('p', n, n.Passers, i, func() bool { return m.pass(n, i) })
		if below {
			return true
		}
		if !n.Cfg.Subtree {
			if n.Kind == kHost {
				return m.notFound(n.ID, "host isn't a subtree handler")
			}
			return false
		}
	}
	return m.respond(n, i, last)
}

func (m *model) pass(n *Node, i int) bool {
	k := i + 1
	if m.bad[k] {
		m.out.Status = 400
		return m.answer(dBadRequest, n.ID, "", "")
	}
	seg := m.dec[k]
	var child *Node
	var vals map[string]string
	for _, c := range n.Kids {
		if c.Tmpl.IsStatic() && c.Tmpl.Parts[0].Static == seg {
			child = c
		}
	}
	if child == nil {
		for _, c := range n.Kids {
			if c.Tmpl.IsStatic() || c.Tmpl.IsWild() {
				continue
			}
			if vs, ok := c.Tmpl.Match(seg); ok {
				child, vals = c, vs
				break
			}
		}
	}
	if child == nil {
		for _, c := range n.Kids {
			if c.Tmpl.IsWild() {
				child = c
				vals = map[string]string{c.Tmpl.Parts[0].Name: seg}
			}
		}
	}
	if child == nil {
		if m.subtree {
			return false
		}
		return m.notFound(n.ID, "no child")
	}
	saved := m.vals
	m.vals = map[string]string{}
	m.take(saved)
	m.take(vals)
	ok := m.receive(child, k)
	for name, v := range m.vals {
		if _, had := saved[name]; !had {
			m.maybe[name] = v
		}
	}
	m.vals = saved
	return ok
}

func (m *model) respond(n *Node, i int, last bool) bool {
	plainRedirect := n.Redir != nil && !n.Redir.Any
	if !n.CanHandle() && !plainRedirect {
		return m.notFound(n.ID, "no handler")
	}
	tls := m.rq.TLS
	scheme := "http"
	if tls {
		scheme = "https"
	}
	if m.u.Scheme != "" {
		scheme = m.u.Scheme
	}
	change := false
	if !tls && n.Cfg.Secure {
		if !n.Cfg.RedirInsec {
			return m.notFound(n.ID, "insecure")
		}
		change, scheme = true, "https"
	}
	p := escapedPath(m.u)
	unclean := m.uncl
	if m.uncl && !n.Cfg.LenientUC {
		change = true
		p = m.path
		unclean = false
	}
	fix := false
	if n.Kind == kHost {
		fix = n.Cfg.Subtree && len(m.path) > 1
	} else {
		fix = last
	}
	if n.Kind == kRoot {
		fix = false
	}
	if fix && !n.Cfg.LenientTS && n.Cfg.TSlash != m.tslash {
		if n.Cfg.StrictTS {
			return m.notFound(n.ID, "strict trailing slash")
		}
		change = true
		if n.Cfg.TSlash {
			p += "/"
		} else {
			p = strings.TrimRight(p, "/")
		}
	}
	if change {
		host := m.u.Host
		if host == "" {
			host = m.rq.Host
		}
		code := m.permG
		if n.PermCode != 0 {
			code = n.PermCode
		}
		dp, err := url.PathUnescape(p)
		if err != nil {
			dp = p
		}
		m.out.Loc = &url.URL{Scheme: scheme, Host: host, Path: dp, RawPath: p,
			RawQuery: m.u.RawQuery, ForceQuery: m.u.ForceQuery}
		if err != nil {
			m.out.Loc = nil // It has a segment that can't be decoded.
		}
		m.out.Unclean = unclean
		return m.sendRedirect(n, i, dCanonical, code)
	}
	if plainRedirect {
		return m.redirect(n, i, dRedirect)
	}
	return m.mws('q', n, n.ReqMws, i, func() bool { return m.handle(n, i) })
}

func (m *model) redirect(n *Node, i int, kind string) bool {
	base := n.Redir.URL
	if !strings.Contains(base, "://") && !strings.HasPrefix(base, "/") {
		base = "/" + base
	}
	u, err := url.Parse(base)
	if err != nil {
		panic(err)
	}
	s := m.snap(n, i)
	ep := u.EscapedPath()
	if len(s.Rem.Segs) > 0 {
		ep = strings.TrimSuffix(ep, "/")
		for _, sg := range m.segs[i+1:] {
			ep += "/" + sg
		}
		if s.Rem.Slash {
			ep += "/"
		}
	}
	dp, err := url.PathUnescape(ep)
	if err != nil {
		dp = ep
	}
	u.Path, u.RawPath = dp, ep
	m.out.Loc = u
	if s.Rem.Any {
		m.out.Loc = nil // It has segments that can't be decoded.
	}
	m.out.Unclean = true
	return m.sendRedirect(n, i, kind, n.Redir.Code)
}

func (m *model) sendRedirect(n *Node, i int, kind string, code int) bool {
	if n.RedirH != "" {
		m.out.Ev = append(m.out.Ev, Ev{K: 'r', L: n.RedirH, Node: n.ID,
			Code: code, S: m.snap(n, i)})
		if m.rq.Acts[n.RedirH] == actFalse {
			m.out.Loc = nil
			return false
		}
	}
	m.out.Status = code
	if n.RedirH != "" && m.rq.Acts[n.RedirH] == actSilent {
		m.out.Status, m.out.Silent, m.out.Loc = 0, true, nil
	}
	return m.answer(kind, n.ID, n.RedirH, "")
}

func (m *model) handle(n *Node, i int) bool {
	method := m.method
	label, ok := n.Handlers[method]
	if ok {
		return m.mws('m', n, n.MethMws[method], i, func() bool {
			return m.callHandler(n, i, label, dHandler)
		})
	}
	if method == "OPTIONS" {
		return m.mws('m', n, n.MethMws[method], i, func() bool {
			m.out.Status = 200
			m.out.Allow = n.Methods()
			return m.answer(dOptions, n.ID, "", "")
		})
	}
	return m.mws('m', n, n.MethMws["!"], i, func() bool {
		if n.NotAllow != "" {
			return m.callHandler(n, i, n.NotAllow, dNotAllow)
		}
		m.out.Status = 405
		m.out.Allow = n.Methods()
		return m.answer(d405, n.ID, "", "")
	})
}

func (m *model) callHandler(n *Node, i int, label, kind string) bool {
	x := hx{R: fmt.Sprint(m.rst), M: m.method, Args: -1}
	k := convKind(label)
	switch {
	case k > 2:
		x.Args = 1
	case k > 0 && m.conv == 0:
		x.Args = 0
	}
	m.out.Ev = append(m.out.Ev, Ev{K: 'h', L: label, Node: n.ID, S: m.snap(n, i),
		W: x})
	if m.rq.Acts[label] == actFalse && k == 0 {
		return false
	}
	m.out.Status = 200
	if a := m.rq.Acts[label]; a == actSilent || a == actFalse {
		m.out.Status, m.out.Silent = 0, true
	}
	return m.answer(kind, n.ID, label, "")
}
