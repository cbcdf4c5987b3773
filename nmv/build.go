package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Rsp is what hosts and resources have in common.
type Rsp interface {
	http.Handler
	Name() string
	Template() *nm.Template
	URL(nm.HostPathValues) (*url.URL, error)
	Router() *nm.Router
	IsSubtreeHandler() bool
	IsSecure() bool
	RedirectsInsecureRequest() bool
	HasTrailingSlash() bool
	IsStrictOnTrailingSlash() bool
	IsLenientOnTrailingSlash() bool
	IsLenientOnUncleanPath() bool
	HandlesThePathAsIs() bool
	Resource(string) *nm.Resource
	ResourceUsingConfig(string, nm.Config) *nm.Resource
	RegisterResource(*nm.Resource)
	RegisterResourceUnder(string, *nm.Resource)
	RegisteredResource(string) *nm.Resource
	ChildResourceNamed(string) *nm.Resource
	ChildResources() []*nm.Resource
	HasChildResource(*nm.Resource) bool
	HasAnyChildResources() bool
	SetSharedData(any)
	SharedData() any
	SetConfiguration(nm.Config)
	Configuration() nm.Config
	SetImplementation(nm.Impl)
	Implementation() nm.Impl
	SetHandlerFor(string, nm.Handler)
	HandlerOf(string) nm.Handler
	AllowedHTTPMethods() []string
	WrapRequestPasser(...nm.Middleware)
	WrapRequestHandler(...nm.Middleware)
	WrapHandlerOf(string, ...nm.Middleware)
	SetPermanentRedirectCode(int)
	PermanentRedirectCode() int
	SetRedirectHandler(nm.RedirectHandler)
	RedirectHandler() nm.RedirectHandler
	WrapRedirectHandler(...func(nm.RedirectHandler) nm.RedirectHandler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	SetSharedDataAt(string, any)
	SharedDataAt(string) any
	SetConfigurationAt(string, nm.Config)
	ConfigurationAt(string) nm.Config
	SetImplementationAt(string, nm.Impl)
	ImplementationAt(string) nm.Impl
	SetPathHandlerFor(string, string, nm.Handler)
	PathHandlerOf(string, string) nm.Handler
	WrapRequestPasserAt(string, ...nm.Middleware)
	WrapRequestHandlerAt(string, ...nm.Middleware)
	WrapPathHandlerOf(string, string, ...nm.Middleware)
	SetPermanentRedirectCodeAt(string, int)
	PermanentRedirectCodeAt(string) int
	SetRedirectHandlerAt(string, nm.RedirectHandler)
	RedirectHandlerAt(string) nm.RedirectHandler
	WrapRedirectHandlerAt(string, ...func(nm.RedirectHandler) nm.RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
	SetSharedDataForSubtree(any)
	SetConfigurationForSubtree(nm.Config)
	WrapSubtreeRequestPassers(...nm.Middleware)
	WrapSubtreeRequestHandlers(...nm.Middleware)
	WrapSubtreeHandlersOf(string, ...nm.Middleware)
}

var (
	_ Rsp = (*nm.Host)(nil)
	_ Rsp = (*nm.Resource)(nil)
)

// Built is a tree of the package that's built as the reference tree.
type Built struct {
	T      *Tree
	Router *nm.Router
	Objs   []Rsp // By the ID of the node.
	hosts  map[*nm.Host]int
	res    map[*nm.Resource]int
	Ops    []string

	r        *rand.Rand
	simple   bool
	att      []bool // Attached to the router, directly or through its top.
	done     []bool // Configured.
	filled   []bool
	deferred []func()
	implicit map[int]bool // Created on the way to another responder.

	bare      map[int]bool // To be created implicitly and left unconfigured.
	unordered bool         // The order of the patterns isn't known.
}

func (b *Built) idOfHost(h *nm.Host) int {
	if id, ok := b.hosts[h]; ok {
		return id
	}
	return -99
}

func (b *Built) idOfRes(r *nm.Resource) int {
	if id, ok := b.res[r]; ok {
		return id
	}
	return -99
}

func (b *Built) op(format string, args ...any) {
	b.Ops = append(b.Ops, fmt.Sprintf(format, args...))
}

func scheme(n *Node) string {
	if n.Cfg.Secure {
		return "https://"
	}
	return "http://"
}

func tail(n *Node) string {
	if n.Cfg.TSlash {
		return "/"
	}
	return ""
}

// hostURL returns the URL template of a host.
func hostURL(n *Node) string { return scheme(n) + n.Tmpl.Src() + tail(n) }

// relPath returns the path template from the ancestor to the node without
// slashes at the ends. A nil ancestor is the top of the tree.
func relPath(anc, n *Node) string {
	var ss []string
	for p := n; p != nil && p != anc && p.Kind == kRes; p = p.Parent {
		ss = append([]string{p.Tmpl.URLSrc()}, ss...)
	}
	return strings.Join(ss, "/")
}

// relURL returns a template of the node for the methods of its ancestor.
func (b *Built) relURL(anc, n *Node) string {
	p := b.slashes(relPath(anc, n)) + tail(n)
	switch {
	case n.Cfg.Secure:
		return "https:///" + p
	case b.r.IntN(8) == 0:
		return "http:///" + p
	case b.r.IntN(2) == 0 || strings.HasPrefix(p, "http"):
		return "/" + p
	}
	return p
}

var (
	decSlash  = strings.NewReplacer("%2F", "/", "%2f", "/")
	flipSlash = strings.NewReplacer("%2F", "%2f", "%2f", "%2F")
)

// slashes writes the encoded slashes in either case.
func (b *Built) slashes(p string) string {
	if strings.Contains(p, "%2") && b.r.IntN(3) == 0 {
		p = flipSlash.Replace(p)
	}
	return p
}

// fullURL returns a template of the node for the router's methods.
func (b *Built) fullURL(n *Node) string {
	if n.Kind == kHost {
		return hostURL(n)
	}
	p := b.slashes(relPath(nil, n))
	if h := n.Host(); h != nil {
		return scheme(n) + h.Tmpl.Src() + "/" + p + tail(n)
	}
	if n.Kind == kRoot {
		if n.Cfg.Secure {
			return "https:///"
		}
		return "/"
	}
	if n.Cfg.Secure {
		return "https:///" + p + tail(n)
	}
	return "/" + p + tail(n)
}

func (b *Built) set(n *Node, o Rsp) {
	if old := b.Objs[n.ID]; old != nil && old != o {
		panic(fmt.Sprintf("node #%d: another object has been returned", n.ID))
	}
	b.Objs[n.ID] = o
	switch o := o.(type) {
	case *nm.Host:
		b.hosts[o] = n.ID
	case *nm.Resource:
		b.res[o] = n.ID
	}
}

// build builds the tree through randomly chosen ways. A simple build only uses
// the most ordinary ones.
func build(r *rand.Rand, t *Tree, simple bool) *Built {
	b := newBuilt(r, t, simple)
	b.op("ro := NewRouter()")
	b.build()
	return b
}

func newBuilt(r *rand.Rand, t *Tree, simple bool) *Built {
	return &Built{
		T: t, Router: nm.NewRouter(), r: r, simple: simple,
		Objs: make([]Rsp, len(t.Nodes)), att: make([]bool, len(t.Nodes)),
		done: make([]bool, len(t.Nodes)), filled: make([]bool, len(t.Nodes)),
		hosts: map[*nm.Host]int{}, res: map[*nm.Resource]int{},
		implicit: map[int]bool{},
	}
}

func (b *Built) P(p float64) bool { return !b.simple && b.r.Float64() < p }

func (b *Built) build() {
	// Pattern hosts must be registered in their order.
	tops := b.order(b.T.Hosts)
	if b.T.Root != nil {
		at := b.r.IntN(len(tops) + 1)
		if b.simple {
			at = len(tops)
		}
		tops = append(tops[:at], append([]*Node{b.T.Root}, tops[at:]...)...)
	}
	if len(b.T.Passers) > 0 && b.r.IntN(2) == 0 {
		b.routerMws()
	} else if len(b.T.Passers) > 0 {
		defer b.routerMws()
	}
	for _, n := range tops {
		b.top(n)
	}
	b.flush()
}

func (b *Built) flush() {
	for len(b.deferred) > 0 {
		i := b.r.IntN(len(b.deferred))
		f := b.deferred[i]
		b.deferred = append(b.deferred[:i], b.deferred[i+1:]...)
		f()
	}
}

func (b *Built) routerMws() {
	var mws []nm.Middleware
	for _, l := range b.T.Passers {
		mws = append(mws, mkMw('p', l))
	}
	b.split(mws, func(ms []nm.Middleware) {
		b.op("ro.WrapRequestPasser(%d mws)", len(ms))
		b.Router.WrapRequestPasser(ms...)
	})
}

// split passes the middlewares in one or several calls.
func (b *Built) split(mws []nm.Middleware, f func([]nm.Middleware)) {
	for len(mws) > 0 {
		n := 1 + b.r.IntN(len(mws))
		if b.simple {
			n = len(mws)
		}
		f(mws[:n])
		spoilMws(mws[:n])
		mws = mws[n:]
	}
}

// order returns the nodes in a random order which keeps that of the patterns.
func (b *Built) order(ns []*Node) []*Node {
	var fixed, free []*Node
	for _, n := range ns {
		if n.Tmpl.IsStatic() || n.Tmpl.IsWild() {
			free = append(free, n)
		} else {
			fixed = append(fixed, n)
		}
	}
	if b.simple {
		return append(free, fixed...)
	}
	b.r.Shuffle(len(free), func(i, k int) { free[i], free[k] = free[k], free[i] })
	var out []*Node
	for len(fixed)+len(free) > 0 {
		if b.r.IntN(len(fixed)+len(free)) < len(fixed) {
			out = append(out, fixed[0])
			fixed = fixed[1:]
		} else {
			out = append(out, free[0])
			free = free[1:]
		}
	}
	return out
}

// nmCfg returns the configuration in one of its equal forms.
func (b *Built) nmCfg(n *Node) nm.Config {
	c := n.Cfg.NM()
	if c.HandlesThePathAsIs && b.r.IntN(2) == 0 {
		c.LenientOnTrailingSlash, c.LenientOnUncleanPath = false, false
	} else {
		c.HandlesThePathAsIs = false
	}
	if c.RedirectsInsecureRequest && b.r.IntN(2) == 0 {
		c.Secure = false
	}
	if n.Kind == kRoot && b.r.IntN(2) == 0 {
		// The root ignores the trailing slash properties.
		c.HasTrailingSlash = b.r.IntN(2) == 0
		c.LenientOnTrailingSlash = b.r.IntN(2) == 0
		c.StrictOnTrailingSlash = b.r.IntN(2) == 0
	}
	return c
}

// nmCfgAt returns the configuration for the methods that take a URL template,
// which tells the scheme and the trailing slash, too.
func (b *Built) nmCfgAt(n *Node) nm.Config {
	c := b.nmCfg(n)
	if b.r.IntN(3) == 0 {
		c.HasTrailingSlash = false
	}
	if b.r.IntN(3) == 0 {
		c.Secure = false
	}
	return c
}

func (b *Built) top(n *Node) {
	kids := b.order(n.Kids)
	way := b.r.IntN(6)
	if b.simple {
		way = 0
	}
	switch {
	case way <= 1:
		// Created by the router.
		b.createTop(n)
		b.kids(n, kids)
	case way <= 4:
		// Prepared and registered before, between or after its children.
		k := b.r.IntN(len(kids) + 1)
		b.newTop(n)
		b.kids(n, kids[:k])
		b.registerTop(n)
		b.kids(n, kids[k:])
	default:
		// Created implicitly with a child.
		if len(kids) > 0 && b.deepCfgOK(kids[0]) {
			k := kids[0]
			b.op("#%d = ro.Resource(%q), #%d is implicit", k.ID, b.fullURL(k), n.ID)
			o := b.Router.Resource(b.fullURL(k))
			b.set(k, o)
			b.configureLater(k)
		}
		b.createTop(n)
		b.kids(n, kids)
	}
}

func (b *Built) deepCfgOK(n *Node) bool { return true }

// createTop creates the host or the root by the router.
func (b *Built) createTop(n *Node) {
	u := b.fullURL(n)
	if n.Kind == kHost {
		switch {
		case !n.Cfg.plain() && b.r.IntN(2) == 0:
			b.op("#%d = ro.HostUsingConfig(%q, %v)", n.ID, u, n.Cfg)
			b.set(n, b.Router.HostUsingConfig(u, b.nmCfgAt(n)))
		default:
			b.op("#%d = ro.Host(%q)", n.ID, u)
			b.set(n, b.Router.Host(u))
			b.configureLater(n)
		}
	} else {
		switch {
		case !n.Cfg.plain() && b.r.IntN(2) == 0:
			b.op("#%d = ro.ResourceUsingConfig(%q, %v)", n.ID, u, n.Cfg)
			b.set(n, b.Router.ResourceUsingConfig(u, b.nmCfgAt(n)))
		default:
			b.op("#%d = ro.Resource(%q)", n.ID, u)
			b.set(n, b.Router.Resource(u))
			b.configureLater(n)
		}
	}
	b.att[n.ID] = true
	b.fillSome(n)
}

// configureLater sets the properties that the URL template doesn't have.
func (b *Built) configureLater(n *Node) {
	if n.Cfg.plain() {
		return
	}
	f := func() {
		c := b.nmCfg(n)
		b.op("#%d.SetConfiguration(%v)", n.ID, n.Cfg)
		b.Objs[n.ID].SetConfiguration(c)
	}
	f()
}

// newTop creates a host or a root that isn't registered.
func (b *Built) newTop(n *Node) {
	u := b.fullURL(n)
	byImpl := n.ByImpl && b.r.IntN(2) == 0
	cfg := !n.Cfg.plain() && b.r.IntN(3) > 0
	var impl nm.Impl
	if byImpl {
		impl = b.implOf(n)
		b.filled[n.ID] = true
	}
	b.op("#%d = New(%q, impl=%v, cfg=%v)", n.ID, u, byImpl, cfg)
	if n.Kind == kHost {
		switch {
		case byImpl && cfg:
			b.set(n, nm.NewHostUsingConfig(u, impl, b.nmCfgAt(n)))
		case byImpl:
			b.set(n, nm.NewHost(u, impl))
		case cfg:
			b.set(n, nm.NewDormantHostUsingConfig(u, b.nmCfgAt(n)))
		default:
			b.set(n, nm.NewDormantHost(u))
		}
	} else {
		switch {
		case byImpl && cfg:
			b.set(n, nm.NewResourceUsingConfig(u, impl, b.nmCfgAt(n)))
		case byImpl:
			b.set(n, nm.NewResource(u, impl))
		case cfg:
			b.set(n, nm.NewDormantResourceUsingConfig(u, b.nmCfgAt(n)))
		default:
			b.set(n, nm.NewDormantResource(u))
		}
	}
	if !cfg {
		b.configureLater(n)
	}
	if byImpl {
		b.fillRest(n)
	}
	b.fillSome(n)
}

func (b *Built) registerTop(n *Node) {
	b.op("ro.Register(#%d)", n.ID)
	if n.Kind == kHost {
		b.Router.RegisterHost(b.Objs[n.ID].(*nm.Host))
	} else if b.r.IntN(2) == 0 {
		b.Router.RegisterResource(b.Objs[n.ID].(*nm.Resource))
	} else {
		b.Router.RegisterResourceUnder("", b.Objs[n.ID].(*nm.Resource))
	}
	b.att[n.ID] = true
}

// attached tells whether the top of the node is registered at the router.
func (b *Built) attached(n *Node) bool {
	p := n
	for ; p != nil; p = p.Parent {
		if b.Objs[p.ID] == nil {
			return false
		}
		if p.Kind != kRes {
			return b.att[p.ID]
		}
		if p.Parent != nil && b.res2det(p) {
			return false
		}
	}
	return false
}

// res2det tells whether the resource isn't registered under its parent yet.
func (b *Built) res2det(n *Node) bool {
	r, ok := b.Objs[n.ID].(*nm.Resource)
	if !ok {
		return false
	}
	return !b.att[n.ID] && r != nil
}

// chain returns the ancestors of the node that are connected to its parent.
func (b *Built) chain(n *Node) []*Node {
	var as []*Node
	for p := n.Parent; p != nil; p = p.Parent {
		if b.Objs[p.ID] == nil {
			break
		}
		as = append(as, p)
		if p.Kind == kRes && !b.att[p.ID] {
			break
		}
	}
	return as
}

// kids creates the children of the node in the order.
func (b *Built) kids(n *Node, kids []*Node) {
	var later []*Node
	for _, k := range kids {
		b.kid(k)
		if b.P(0.3) {
			later = append(later, k)
			continue
		}
	}
	_ = later
}

func (b *Built) kid(n *Node) {
	kids := b.order(n.Kids)
	if b.Objs[n.ID] != nil {
		// Created by its parent's implicit creation.
		b.att[n.ID] = true
		b.fillSome(n)
		b.kids(n, kids)
		return
	}
	way := b.r.IntN(10)
	if b.simple {
		way = 0
	}
	if b.bare[n.ID] && len(kids) > 0 {
		k := kids[0]
		anc := pick(b.r, b.chain(n))
		u := b.relURL(anc, k)
		b.op("#%d = #%d.Resource(%q), #%d is implicit and left so", k.ID, anc.ID, u, n.ID)
		o := b.Objs[anc.ID].Resource(u)
		b.set(k, o)
		b.set(n, o.Parent())
		b.att[n.ID] = true
		b.configureLater(k)
		b.filled[n.ID] = true
		b.kids(n, kids)
		return
	}
	switch {
	case way < 5:
		b.create(n)
		b.kids(n, kids)
	case way < 9:
		k := b.r.IntN(len(kids) + 1)
		b.newRes(n)
		b.kids(n, kids[:k])
		b.registerRes(n)
		b.kids(n, kids[k:])
	default:
		if len(kids) > 0 {
			k := kids[0]
			anc := pick(b.r, b.chain(n))
			u := b.relURL(anc, k)
			b.op("#%d = #%d.Resource(%q), #%d is implicit", k.ID, anc.ID, u, n.ID)
			b.implicit[n.ID] = true
			b.set(k, b.Objs[anc.ID].Resource(u))
			b.configureLater(k)
		}
		b.create(n)
		b.kids(n, kids)
	}
}

// create creates the resource by one of its ancestors or the router.
func (b *Built) create(n *Node) {
	var o *nm.Resource
	c := !n.Cfg.plain()
	ways := b.chain(n)
	if b.simple {
		ways = ways[:1]
	}
	i := b.r.IntN(len(ways))
	byRouter := b.attached(n.Parent) && b.P(0.35)
	if byRouter {
		u := b.fullURL(n)
		switch w := b.r.IntN(4); {
		case c && w < 2:
			b.op("#%d = ro.ResourceUsingConfig(%q, %v)", n.ID, u, n.Cfg)
			o = b.Router.ResourceUsingConfig(u, b.nmCfgAt(n))
			c = false
		case w == 2 && n.Shared != nil:
			b.op("ro.SetSharedDataAt(%q, %v)", u, n.Shared)
			b.Router.SetSharedDataAt(u, n.Shared)
			o = b.Router.RegisteredResource(u)
		case c && w == 3 && !b.implicit[n.ID]:
			b.op("ro.SetConfigurationAt(%q, %v)", u, n.Cfg)
			b.Router.SetConfigurationAt(u, b.nmCfgAt(n))
			o = b.Router.RegisteredResource(u)
			c = false
		default:
			b.op("#%d = ro.Resource(%q)", n.ID, u)
			o = b.Router.Resource(u)
		}
	} else {
		anc := ways[i]
		a := b.Objs[anc.ID]
		u := b.relURL(anc, n)
		w := b.r.IntN(4)
		if b.simple {
			w = 0
		}
		switch {
		case c && w < 2:
			b.op("#%d = #%d.ResourceUsingConfig(%q, %v)", n.ID, anc.ID, u, n.Cfg)
			o = a.ResourceUsingConfig(u, b.nmCfgAt(n))
			c = false
		case w == 2 && n.Shared != nil:
			b.op("#%d.SetSharedDataAt(%q, %v)", anc.ID, u, n.Shared)
			a.SetSharedDataAt(u, n.Shared)
			o = a.RegisteredResource(u)
		case c && w == 3:
			b.op("#%d.SetConfigurationAt(%q, %v)", anc.ID, u, n.Cfg)
			a.SetConfigurationAt(u, b.nmCfgAt(n))
			o = a.RegisteredResource(u)
			c = false
		default:
			b.op("#%d = #%d.Resource(%q)", n.ID, anc.ID, u)
			o = a.Resource(u)
		}
	}
	if o == nil {
		panic(fmt.Sprintf("node #%d: the created resource isn't found", n.ID))
	}
	b.set(n, o)
	b.att[n.ID] = true
	if c {
		b.configureLater(n)
	}
	b.fillSome(n)
}

// newRes creates a resource that isn't registered.
func (b *Built) newRes(n *Node) {
	seg := n.Tmpl.URLSrc()
	u := seg + tail(n)
	// The template of the URL may contain the path of the parent.
	full := b.chainTop(n) != nil && b.r.IntN(3) == 0
	byHost := false // The template doesn't have the host.
	switch {
	case full:
		u = b.fullURL(n)
		if n.Host() != nil && !n.Cfg.Secure && b.r.IntN(2) == 0 {
			u = "/" + relPath(nil, n) + tail(n)
			byHost = true
		}
	case n.Cfg.Secure:
		u = "https:///" + u
	case b.r.IntN(2) == 0 || strings.HasPrefix(u, "http"):
		u = "/" + u
	}
	byImpl := n.ByImpl && b.r.IntN(2) == 0
	cfg := !n.Cfg.plain() && b.r.IntN(3) > 0
	var impl nm.Impl
	if byImpl {
		impl = b.implOf(n)
		b.filled[n.ID] = true
	}
	b.op("#%d = New(%q, impl=%v, cfg=%v)", n.ID, u, byImpl, cfg)
	switch {
	case byImpl && cfg:
		b.set(n, nm.NewResourceUsingConfig(u, impl, b.nmCfgAt(n)))
	case byImpl:
		b.set(n, nm.NewResource(u, impl))
	case cfg:
		b.set(n, nm.NewDormantResourceUsingConfig(u, b.nmCfgAt(n)))
	default:
		b.set(n, nm.NewDormantResource(u))
	}
	if !cfg {
		b.configureLater(n)
	}
	if byImpl {
		b.fillRest(n)
	}
	b.fillSome(n)
	if full {
		b.regFull(n, byHost)
	}
}

// chainTop returns the top if the parent of the node is connected to it.
func (b *Built) chainTop(n *Node) *Node {
	as := b.chain(n)
	if len(as) == 0 || as[len(as)-1].Kind == kRes {
		return nil
	}
	return as[len(as)-1]
}

// regFull registers a resource that has the whole URL template.
func (b *Built) regFull(n *Node, byHost bool) {
	o := b.Objs[n.ID].(*nm.Resource)
	b.att[n.ID] = true
	if !byHost && b.attached(n.Parent) && b.r.IntN(2) == 0 {
		b.op("ro.RegisterResource(#%d)", n.ID)
		b.Router.RegisterResource(o)
		return
	}
	// By the parent or by an ancestor above it.
	anc := pick(b.r, b.chain(n))
	b.op("#%d.RegisterResource(#%d)", anc.ID, n.ID)
	b.Objs[anc.ID].RegisterResource(o)
}

// registerRes registers a resource that has only its own segment.
func (b *Built) registerRes(n *Node) {
	if b.att[n.ID] {
		return
	}
	o := b.Objs[n.ID].(*nm.Resource)
	b.att[n.ID] = true
	switch w := b.r.IntN(3); {
	case w == 0:
		b.op("#%d.RegisterResource(#%d)", n.Parent.ID, n.ID)
		b.Objs[n.Parent.ID].RegisterResource(o)
	case w == 1 && b.attached(n.Parent):
		p := relPath(nil, n.Parent)
		u := "/" + p
		if h := n.Host(); h != nil {
			u = "http://" + h.Tmpl.Src() + u
		}
		if p == "" && n.Host() == nil {
			u = []string{"", "/"}[b.r.IntN(2)]
		}
		b.op("ro.RegisterResourceUnder(%q, #%d)", u, n.ID)
		b.Router.RegisterResourceUnder(u, o)
	default:
		anc := pick(b.r, b.chain(n))
		p := relPath(anc, n.Parent)
		if p != "" && (b.r.IntN(2) == 0 || strings.HasPrefix(p, "http")) {
			p = "/" + p
		}
		if p == "" && anc.Kind == kHost && b.r.IntN(2) == 0 {
			p = "/"
		}
		b.op("#%d.RegisterResourceUnder(%q, #%d)", anc.ID, p, n.ID)
		b.Objs[anc.ID].RegisterResourceUnder(p, o)
	}
}

func (b *Built) implOf(n *Node) nm.Impl {
	if n.Impl == nil {
		n.Impl = mkImpl(n)
	}
	return n.Impl
}

// fillSome sets everything of the node now or later.
func (b *Built) fillSome(n *Node) {
	if b.filled[n.ID] {
		return
	}
	b.filled[n.ID] = true
	if b.P(0.25) && (n.Kind != kRes || b.att[n.ID]) {
		b.deferred = append(b.deferred, func() {
			b.fillHandlers(n)
			b.fillRest(n)
		})
		return
	}
	b.fillHandlers(n)
	b.fillRest(n)
}

// at returns an ancestor and the path template to set something at the node,
// or nil. The ancestor is a nil node for the router.
func (b *Built) at(n *Node) (anc *Node, router bool, u string) {
	if !b.P(0.4) {
		return nil, false, ""
	}
	if b.r.IntN(2) == 0 && b.attached(n) {
		return nil, true, b.fullURL(n)
	}
	if n.Kind != kRes || !b.att[n.ID] {
		return nil, false, ""
	}
	as := b.chain(n)
	if len(as) == 0 {
		return nil, false, ""
	}
	a := pick(b.r, as)
	return a, false, b.relURL(a, n)
}

// methodList joins the methods in one of the accepted ways.
func (b *Built) methodList(ms []string) string {
	var sb strings.Builder
	for i, m := range ms {
		if i > 0 {
			sb.WriteString([]string{",", " ", ", ", " , "}[b.r.IntN(4)])
		}
		if b.P(0.3) {
			m = strings.ToLower(m)
		}
		sb.WriteString(m)
	}
	return sb.String()
}

func (b *Built) fillHandlers(n *Node) {
	o := b.Objs[n.ID]
	if n.ByImpl {
		impl := b.implOf(n)
		switch anc, ro, u := b.at(n); {
		case ro:
			b.op("ro.SetImplementationAt(%q)", u)
			b.Router.SetImplementationAt(u, impl)
		case anc != nil:
			b.op("#%d.SetImplementationAt(%q)", anc.ID, u)
			b.Objs[anc.ID].SetImplementationAt(u, impl)
		default:
			b.op("#%d.SetImplementation()", n.ID)
			o.SetImplementation(impl)
		}
		return
	}
	var ms []string
	for m := range n.Handlers {
		ms = append(ms, m)
	}
	sortStrings(ms)
	if !b.simple {
		b.r.Shuffle(len(ms), func(i, k int) { ms[i], ms[k] = ms[k], ms[i] })
	}
	if n.NotAllow != "" {
		at := b.r.IntN(len(ms) + 1)
		ms = append(ms[:at], append([]string{"!"}, ms[at:]...)...)
	}
	for _, m := range ms {
		l := n.NotAllow
		if m != "!" {
			l = n.Handlers[m]
		}
		h := mkHandler(l)
		list := b.methodList([]string{m})
		switch anc, ro, u := b.at(n); {
		case ro:
			b.op("ro.SetURLHandlerFor(%q, %q)", list, u)
			b.Router.SetURLHandlerFor(list, u, h)
		case anc != nil:
			b.op("#%d.SetPathHandlerFor(%q, %q)", anc.ID, list, u)
			b.Objs[anc.ID].SetPathHandlerFor(list, u, h)
		default:
			b.op("#%d.SetHandlerFor(%q)", n.ID, list)
			o.SetHandlerFor(list, h)
		}
	}
}

// fillRest sets everything but the handlers and the configuration.
func (b *Built) fillRest(n *Node) {
	o := b.Objs[n.ID]
	if n.Shared != nil {
		switch anc, ro, u := b.at(n); {
		case ro:
			b.op("ro.SetSharedDataAt(%q)", u)
			b.Router.SetSharedDataAt(u, n.Shared)
		case anc != nil:
			b.op("#%d.SetSharedDataAt(%q)", anc.ID, u)
			b.Objs[anc.ID].SetSharedDataAt(u, n.Shared)
		default:
			o.SetSharedData(n.Shared)
		}
	}
	if len(n.Passers) > 0 {
		var mws []nm.Middleware
		for _, l := range n.Passers {
			mws = append(mws, mkMw('p', l))
		}
		b.split(mws, func(ms []nm.Middleware) {
			switch anc, ro, u := b.at(n); {
			case ro:
				b.op("ro.WrapRequestPasserAt(%q, %d mws)", u, len(ms))
				b.Router.WrapRequestPasserAt(u, ms...)
			case anc != nil:
				b.op("#%d.WrapRequestPasserAt(%q, %d mws)", anc.ID, u, len(ms))
				b.Objs[anc.ID].WrapRequestPasserAt(u, ms...)
			default:
				b.op("#%d.WrapRequestPasser(%d mws)", n.ID, len(ms))
				o.WrapRequestPasser(ms...)
			}
		})
	}
	if len(n.ReqMws) > 0 {
		var mws []nm.Middleware
		for _, l := range n.ReqMws {
			mws = append(mws, mkMw('q', l))
		}
		b.split(mws, func(ms []nm.Middleware) {
			switch anc, ro, u := b.at(n); {
			case ro:
				b.op("ro.WrapRequestHandlerAt(%q, %d mws)", u, len(ms))
				b.Router.WrapRequestHandlerAt(u, ms...)
			case anc != nil:
				b.op("#%d.WrapRequestHandlerAt(%q, %d mws)", anc.ID, u, len(ms))
				b.Objs[anc.ID].WrapRequestHandlerAt(u, ms...)
			default:
				b.op("#%d.WrapRequestHandler(%d mws)", n.ID, len(ms))
				o.WrapRequestHandler(ms...)
			}
		})
	}
	wraps := n.Wraps
	if len(n.MethMws) == 0 {
		wraps = nil
	}
	for len(wraps) > 0 {
		spec := wraps[0].Spec
		var mws []nm.Middleware
		for len(wraps) > 0 && reflect.DeepEqual(wraps[0].Spec, spec) {
			mws = append(mws, mkMw('m', wraps[0].L))
			wraps = wraps[1:]
		}
		b.split(mws, func(mws []nm.Middleware) {
			list := b.methodList(spec)
			switch anc, ro, u := b.at(n); {
			case ro:
				b.op("ro.WrapURLHandlerOf(%q, %q, %d mws)", list, u, len(mws))
				b.Router.WrapURLHandlerOf(list, u, mws...)
			case anc != nil:
				b.op("#%d.WrapPathHandlerOf(%q, %q, %d mws)", anc.ID, list, u, len(mws))
				b.Objs[anc.ID].WrapPathHandlerOf(list, u, mws...)
			default:
				b.op("#%d.WrapHandlerOf(%q, %d mws)", n.ID, list, len(mws))
				o.WrapHandlerOf(list, mws...)
			}
		})
	}
	if n.PermCode != 0 {
		switch anc, ro, u := b.at(n); {
		case ro:
			b.Router.SetPermanentRedirectCodeAt(u, n.PermCode)
		case anc != nil:
			b.Objs[anc.ID].SetPermanentRedirectCodeAt(u, n.PermCode)
		default:
			o.SetPermanentRedirectCode(n.PermCode)
		}
		b.op("#%d permanent redirect code %d", n.ID, n.PermCode)
	}
	if n.RedirH != "" {
		h := mkRedirH(n.RedirH)
		switch anc, ro, u := b.at(n); {
		case ro:
			b.Router.SetRedirectHandlerAt(u, h)
		case anc != nil:
			b.Objs[anc.ID].SetRedirectHandlerAt(u, h)
		default:
			o.SetRedirectHandler(h)
		}
		b.op("#%d redirect handler", n.ID)
	}
	if rd := n.Redir; rd != nil {
		switch anc, ro, u := b.at(n); {
		case ro && rd.Any:
			b.Router.RedirectAnyRequestAt(u, rd.URL, rd.Code)
		case ro:
			b.Router.RedirectRequestAt(u, rd.URL, rd.Code)
		case anc != nil && rd.Any:
			b.Objs[anc.ID].RedirectAnyRequestAt(u, rd.URL, rd.Code)
		case anc != nil:
			b.Objs[anc.ID].RedirectRequestAt(u, rd.URL, rd.Code)
		case rd.Any:
			o.RedirectAnyRequestTo(rd.URL, rd.Code)
		default:
			o.RedirectRequestTo(rd.URL, rd.Code)
		}
		b.op("#%d redirects to %s", n.ID, rd.URL)
	}
}

func sortStrings(ss []string) {
	for i := 1; i < len(ss); i++ {
		for k := i; k > 0 && ss[k] < ss[k-1]; k-- {
			ss[k], ss[k-1] = ss[k-1], ss[k]
		}
	}
}
