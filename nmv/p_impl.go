package main

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	nm "github.com/shohruhadham/nanomux"
)

// implCore identifies an implementation value. Every method of the generated
// types ends up in implCall with it.
type implCore struct{ n int }

var (
	implCores sync.Map
	implSeq   atomic.Int64
)

func newCore() *implCore {
	c := &implCore{int(implSeq.Add(1))}
	implCores.Store(c.n, c)
	return c
}

func coreOf(n int) *implCore {
	c, _ := implCores.Load(n)
	return c.(*implCore)
}

type (
	rwAlias   = http.ResponseWriter
	argsAlias = nm.Args
	rwNamed   interface{ http.ResponseWriter }
	myBool    bool
	implIface interface {
		HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool
		HandleIface(w http.ResponseWriter, r *http.Request, a *nm.Args) bool
	}
	genType struct {
		name       string
		value, ptr func(c *implCore) any
	}
	genMethod struct {
		name string
		get  func(v any) nm.Handler
	}
)

// The types whose nil pointers have usable methods.
type (
	nilImpl      struct{ _ int }
	nilImplOuter struct{ _ int }
	nilImplInt   int
	nilImplFn    func()
	nilImplMap   map[string]int
	nilImplSlice []int
)

var nilCore = newCore()

func (x *nilImpl) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImpl.HandleGet", w, r, a)
}

func (x *nilImpl) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImpl.HandleLock", w, r, a)
}

func (x *nilImpl) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImpl.HandleNotAllowedMethod", w, r, a)
}

func (x *nilImplOuter) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImplOuter.HandlePost", w, r, a)
}

func (x *nilImplOuter) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImplOuter.HandleOptions", w, r, a)
}

func (x *nilImplInt) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImplInt.HandleNotAllowedMethod", w, r, a)
}

func (x *nilImplInt) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, nilCore, "nilImplInt.HandlePut", w, r, a)
}

func (nilImplFn) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, nilCore, "nilImplFn.HandleDelete", w, r, a)
}

func (nilImplMap) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, nilCore, "nilImplMap.HandleGet", w, r, a)
}

func (nilImplSlice) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, nilCore, "nilImplSlice.HandlePatch", w, r, a)
}

var nilImpls = []any{
	(*nilImpl)(nil), (*nilImplOuter)(nil), (*nilImplInt)(nil), nilImplFn(nil), nilImplMap(nil),
	nilImplSlice(nil), &nilImpl{}, &nilImplOuter{}, new(nilImplInt),
}

// The types with a method whose name is only the prefix. It handles no method
// that a request can have.
type (
	bareImpl    struct{ c *implCore }
	bareImplPtr struct{ c *implCore }
	bareImplNA  struct{ bareImplPtr }
)

// Handle has no HTTP method in its name.
func (x bareImpl) Handle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "bareImpl.Handle", w, r, a)
}

func (x bareImpl) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "bareImpl.HandlePost", w, r, a)
}

// Handle has no HTTP method in its name.
func (x *bareImplPtr) Handle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, x.c, "bareImplPtr.Handle", w, r, a)
}

func (x *bareImplPtr) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, x.c, "bareImplPtr.HandleLock", w, r, a)
}

func (x *bareImplPtr) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, x.c, "bareImplPtr.HandlePut", w, r, a)
}

func (x *bareImplNA) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, x.c, "bareImplNA.HandleNotAllowedMethod", w, r, a)
}

type ifaceImpl struct{ c *implCore }

// HandleGet handles GET.
func (x *ifaceImpl) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, x.c, "ifaceImpl.HandleGet", w, r, a)
}

// HandleIface handles IFACE.
func (x *ifaceImpl) HandleIface(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, x.c, "ifaceImpl.HandleIface", w, r, a)
}

func ptrTo[T any](v T) *T { return &v }

func badCall(what string) { panic("called " + what) }

// implCall is what every method does.
func implCall(self any, c *implCore, name string, w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	l := fmt.Sprintf("%s#%d", name, c.n)
	if tr := traceOf(r); tr != nil {
		ev := Ev{K: 'i', L: l, W: self}
		if a != nil {
			ev.S = &Snap{Impl: a.ResponderImpl()}
		}
		tr.add(ev)
	}
	w.WriteHeader(200)
	fmt.Fprint(w, l)
	return true
}

// ih is an expected handler.
type ih struct {
	label string   // What it logs. "" is the default.
	mws   []string // The labels of the middlewares around it, innermost first.
	self  any      // The pointer it must be called on.
}

func (h ih) events() string {
	var ls []string
	for i := len(h.mws) - 1; i >= 0; i-- {
		ls = append(ls, "m "+h.mws[i])
	}
	if h.label != "" {
		ls = append(ls, h.label)
	}
	return strings.Join(ls, ", ")
}

// implObj is a responder and what it must do.
type implObj struct {
	o    Rsp
	path string // Under the router: host or path template.
	url  string
	host string
	name string
	hs   map[string]*ih
	na   *ih
	q    []string // The middlewares around the request handler.
	impl any
	set  bool // An implementation or handlers have been set.
}

// detect returns the handlers that the value must provide, found by the
// language's own rules.
func detect(v any) (hs map[string]*ih, na *ih, clash bool) {
	hs = map[string]*ih{}
	for _, m := range genMethods {
		h := m.get(v)
		if h == nil {
			continue
		}
		var self any
		evs, _ := probeEv(func(w http.ResponseWriter, r *http.Request) bool { return h(w, r, nil) })
		if len(evs) != 1 {
			panic("a method logs no event")
		}
		self = evs[0].W
		x := &ih{label: "i " + evs[0].L, self: self}
		name := strings.ToUpper(m.name[len("Handle"):])
		if m.name == "HandleNotAllowedMethod" {
			na = x
			continue
		}
		if name == "NOTALLOWEDMETHOD" || hs[name] != nil {
			clash = true
		}
		hs[name] = x
	}
	return
}

func probeEv(f func(w http.ResponseWriter, r *http.Request) bool) ([]Ev, *RW) {
	rw := newRW()
	tr := &Trace{}
	rq := &Req{Method: "GET", Host: "h", URI: "/"}
	f(rw, withTrace(rq.Make(), tr))
	return tr.Ev, rw
}

// nearMethods returns how many methods have the prefix and another signature.
func nearMethods(v any) (n int) {
	t := reflect.TypeOf(v)
	for i := 0; i < t.NumMethod(); i++ {
		if strings.HasPrefix(t.Method(i).Name, "Handle") {
			n++
		}
	}
	return
}

func sameValue(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	switch ta.Kind() {
	case reflect.Func, reflect.Map, reflect.Slice:
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	if !ta.Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

// newValue returns a random implementation value and its expected handlers.
func newValue(c *Case) (v any, hs map[string]*ih, na *ih, text string) {
	for {
		t := pick(c.Rand, genTypes)
		core := newCore()
		switch c.IntN(10) {
		case 0, 1, 2, 3:
			v, text = t.value(core), t.name
		case 6:
			// One of the methods is named Handle.
			v = pick(c.Rand, []any{bareImpl{core}, &bareImpl{core}, &bareImplPtr{core},
				&bareImplNA{bareImplPtr{core}}})
			text = fmt.Sprintf("%T", v)
			c.Count("values with a method named Handle")
		case 4:
			// A pointer to a pointer has no methods.
			p := t.ptr(core)
			pp := reflect.New(reflect.TypeOf(p))
			pp.Elem().Set(reflect.ValueOf(p))
			v, text = pp.Interface(), "**"+t.name
		case 5:
			// The handler methods are those of the type.
			v = pick(c.Rand, nilImpls)
			text = fmt.Sprintf("%T (nil: %v)", v, reflect.ValueOf(v).IsNil())
		default:
			v, text = t.ptr(core), "*"+t.name
		}
		clash := false
		hs, na, clash = detect(v)
		if clash {
			c.Count("values with two methods for one HTTP method (undecided)")
			continue
		}
		text = fmt.Sprintf("%s#%d (%d handlers, %v not allowed, %d with the prefix)",
			text, core.n, len(hs), na != nil, nearMethods(v))
		return
	}
}

func (x *implObj) become(c *Case, v any, hs map[string]*ih, na *ih) {
	x.impl = v
	if len(hs) == 0 && na == nil {
		return
	}
	x.set = true
	x.hs, x.na = hs, na
	x.fillOptions()
}

func (x *implObj) fillOptions() {
	if len(x.hs) > 0 && x.hs["OPTIONS"] == nil {
		x.hs["OPTIONS"] = &ih{}
	}
}

func (x *implObj) methods() []string {
	var ms []string
	for m := range x.hs {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	return ms
}

// implWorld is a router with some responders.
type implWorld struct {
	c    *Case
	ro   *nm.Router
	xs   []*implObj
	seq  int
	vals []any
}

func implCase(c *Case) {
	w := &implWorld{c: c, ro: nm.NewRouter()}
	for i := c.IntN(4); i >= 0; i-- {
		w.create()
	}
	th := uint64(c.Index)*7919 + 1
	for i := 0; i < 8; i++ {
		for k := c.IntN(3); k > 0; k-- {
			w.change()
		}
		for k := 0; k < 2; k++ {
			w.check(th + uint64(i))
		}
	}
}

func (w *implWorld) create() {
	c := w.c
	i := len(w.xs)
	x := &implObj{name: "x" + itoa(i), hs: map[string]*ih{}}
	var hs map[string]*ih
	var na *ih
	var v any
	var text string
	withImpl := c.P(0.7)
	if withImpl {
		v, hs, na, text = newValue(c)
	}
	switch c.IntN(3) {
	case 0:
		x.host = "h" + itoa(i) + ".example"
		x.url, x.path = "http://"+x.host, "/"
		if withImpl {
			c.Logf("%s = NewHost(%q, %s)", x.name, x.url, text)
			var h *nm.Host
			if c.P(0.5) {
				h = nm.NewHost(x.url, v)
			} else {
				h = nm.NewHostUsingConfig(x.url, v, nm.Config{LenientOnTrailingSlash: true})
			}
			x.o = h
			w.ro.RegisterHost(h)
		} else {
			c.Logf("%s = ro.Host(%q)", x.name, x.url)
			x.o = w.ro.Host(x.url)
		}
	default:
		x.path = "/r" + itoa(i)
		if c.P(0.4) {
			x.path = "/a/b" + itoa(i) + "/c"
		}
		if c.P(0.3) {
			x.host = "k" + itoa(c.IntN(2)) + ".example"
		}
		x.url = x.path
		if x.host != "" {
			x.url = "http://" + x.host + x.path
		}
		if withImpl {
			c.Logf("%s = NewResource(%q, %s)", x.name, x.url, text)
			var r *nm.Resource
			if c.P(0.5) {
				r = nm.NewResource(x.url, v)
			} else {
				r = nm.NewResourceUsingConfig(x.url, v, nm.Config{LenientOnUncleanPath: true})
			}
			x.o = r
			w.ro.RegisterResource(r)
		} else {
			c.Logf("%s = ro.Resource(%q)", x.name, x.url)
			x.o = w.ro.Resource(x.url)
		}
	}
	if withImpl {
		x.become(c, v, hs, na)
		w.vals = append(w.vals, v)
	}
	w.xs = append(w.xs, x)
}

func (w *implWorld) mw(x *implObj) (string, nm.Middleware) {
	w.seq++
	l := x.name + "/mw" + itoa(w.seq)
	return l, func(next nm.Handler) nm.Handler {
		return func(rw http.ResponseWriter, r *http.Request, a *nm.Args) bool {
			if tr := traceOf(r); tr != nil {
				tr.add(Ev{K: 'm', L: l})
			}
			return next(rw, r, a)
		}
	}
}

// change performs one operation.
func (w *implWorld) change() {
	c := w.c
	x := pick(c.Rand, w.xs)
	switch c.IntN(8) {
	case 0, 1, 2, 3:
		if len(x.q) > 0 {
			return // Whether the wrapping is kept isn't decided.
		}
		var v any
		var hs map[string]*ih
		var na *ih
		var text string
		if len(w.vals) > 0 && c.P(0.2) {
			v = pick(c.Rand, w.vals) // A value of another responder.
			hs, na, _ = detect(v)
			text = fmt.Sprintf("earlier %T", v)
		} else {
			v, hs, na, text = newValue(c)
			w.vals = append(w.vals, v)
		}
		if x.set && len(hs) == 0 && na == nil {
			return // Whether the handlers are kept isn't decided.
		}
		switch c.IntN(3) {
		case 0:
			c.Logf("ro.SetImplementationAt(%q, %s)", x.url, text)
			w.ro.SetImplementationAt(x.url, v)
		default:
			c.Logf("%s.SetImplementation(%s)", x.name, text)
			x.o.SetImplementation(v)
		}
		x.become(c, v, hs, na)
		c.Count("implementations set")
	case 4, 5:
		w.seq++
		l := x.name + "/h" + itoa(w.seq)
		h := mkHandler0(l)
		if c.P(0.15) {
			c.Logf("%s.SetHandlerFor(\"!\", %s)", x.name, l)
			x.o.SetHandlerFor("!", h)
			x.na, x.set = &ih{label: "h " + l}, true
			return
		}
		m := w.method(x)
		if !methodOK(m) {
			return
		}
		c.Logf("%s.SetHandlerFor(%q, %s)", x.name, m, l)
		x.o.SetHandlerFor(m, h)
		x.hs[strings.ToUpper(m)] = &ih{label: "h " + l}
		x.fillOptions()
		x.set = true
	case 6:
		if len(x.hs) == 0 {
			return
		}
		m := pick(c.Rand, x.methods())
		if !methodOK(m) {
			return
		}
		l, mw := w.mw(x)
		c.Logf("%s.WrapHandlerOf(%q, %s)", x.name, m, l)
		x.o.WrapHandlerOf(m, mw)
		h := *x.hs[m]
		h.mws = append(h.mws[:len(h.mws):len(h.mws)], l)
		x.hs[m] = &h
	default:
		if len(x.hs) == 0 && x.na == nil || c.P(0.7) {
			return
		}
		if c.P(0.5) {
			l, mw := w.mw(x)
			c.Logf("%s.WrapRequestHandler(%s)", x.name, l)
			x.o.WrapRequestHandler(mw)
			x.q = append(x.q, l)
			return
		}
		l, mw := w.mw(x)
		c.Logf("%s.WrapHandlerOf(\"*\", %s)", x.name, l)
		if len(x.hs) == 0 {
			return
		}
		x.o.WrapHandlerOf("*", mw)
		for _, m := range x.methods() {
			h := *x.hs[m]
			h.mws = append(h.mws[:len(h.mws):len(h.mws)], l)
			x.hs[m] = &h
		}
	}
}

// methodOK returns true if the method can be named alone in a list.
func methodOK(m string) bool { return m != "" && m != "!" && m != "*" }

// mkHandler0 returns a handler that logs its label.
func mkHandler0(l string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
		if tr := traceOf(r); tr != nil {
			tr.add(Ev{K: 'h', L: l})
		}
		w.WriteHeader(200)
		fmt.Fprint(w, l)
		return true
	}
}

func (w *implWorld) method(x *implObj) string {
	c := w.c
	if len(x.hs) > 0 && c.P(0.5) {
		return pick(c.Rand, x.methods())
	}
	m := strings.ToUpper(strings.TrimPrefix(pick(c.Rand, genMethods).name, "Handle"))
	switch c.IntN(12) {
	case 0:
		m = strings.ToLower(m)
	case 1:
		m += "S"
	case 2:
		if len(m) > 1 {
			m = m[:len(m)-1]
		}
	case 3:
		m = "HANDLE" + m
	case 4:
		m = c.Pick("NOTALLOWEDMETHOD", "!", "*", "GET", "OPTIONS")
	}
	if !strings.Contains(m, "Ñ") && !strings.Contains(m, "Ж") {
		return m
	}
	return strings.ToValidUTF8(m, "")
}

func evLine(evs []Ev) string {
	var ls []string
	for _, e := range evs {
		ls = append(ls, string(e.K)+" "+e.L)
	}
	return strings.Join(ls, ", ")
}

func (w *implWorld) check(th uint64) {
	c := w.c
	x := pick(c.Rand, w.xs)
	// The readers.
	if got := x.o.Implementation(); !sameValue(got, x.impl) {
		c.Fail("%s.Implementation() returns %T %v, expected %T %v", x.name, got, got, x.impl, x.impl)
	}
	{
		func() {
			defer func() {
				if p := recover(); p != nil {
					c.Fail("ro.ImplementationAt(%q) panics: %v", x.url, p)
				}
			}()
			if got := w.ro.ImplementationAt(x.url); !sameValue(got, x.impl) {
				c.Fail("ro.ImplementationAt(%q) returns %T %v, expected %T %v", x.url, got, got, x.impl, x.impl)
			}
		}()
	}
	var got []string
	for _, m := range allowed(x.o) {
		if m != "" {
			got = append(got, m)
		}
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(x.methods()) {
		c.Fail("%s.AllowedHTTPMethods() returns %q, expected %q", x.name, got, x.methods())
	}
	ms := x.methods()
	for i := 0; i < 6; i++ {
		ms = append(ms, w.method(x))
	}
	for _, m := range ms {
		if methodOK(m) && m == strings.ToUpper(m) {
			h := x.o.HandlerOf(m)
			want := x.hs[m]
			if (h != nil) != (want != nil) {
				c.Fail("%s.HandlerOf(%q) is there: %v, expected: %v", x.name, m, h != nil, want != nil)
			}
			if h != nil {
				evs, _ := probeEv(func(rw http.ResponseWriter, r *http.Request) bool { return h(rw, r, nil) })
				if evLine(evs) != want.events() {
					c.Fail("%s.HandlerOf(%q) calls [%s], expected [%s]", x.name, m, evLine(evs), want.events())
				}
			}
		}
		w.send(x, m, th)
	}
}

func allowed(o Rsp) []string {
	return methodsOf(o.(interface{ AllowedHTTPMethods() []string }))
}

// send makes a request with the method and checks who handles it.
func (w *implWorld) send(x *implObj, m string, th uint64) {
	c := w.c
	host := x.host
	if host == "" {
		host = "localhost"
	}
	rq := &Req{Method: m, Host: host, URI: x.path}
	var h http.Handler = w.ro
	by := "the router"
	o := serve(nil, h, rq, nil)
	var want *ih
	status := 200
	switch {
	case len(x.hs) == 0:
		status = 404
	case x.hs[m] != nil:
		want = x.hs[m]
	case x.na != nil:
		want = x.na
	default:
		want = &ih{}
		status = 405
	}
	exp := ""
	if want != nil {
		all := *want
		all.mws = append(append([]string{}, want.mws...), x.q...)
		exp = all.events()
	}
	d := diffPanic(o)
	if g := evLine(o.Ev); g != exp {
		d = first(d, fmt.Sprintf("called [%s], expected [%s]", g, exp))
	}
	if o.Stat != status {
		d = first(d, fmt.Sprintf("status %d, expected %d", o.Stat, status))
	}
	if want != nil && want.label == "" {
		// The default answers.
		a := allowSet(o.Hdr["Allow"])
		if fmt.Sprint(a) != fmt.Sprint(x.methods()) {
			d = first(d, fmt.Sprintf("Allow: %q, expected %q", a, x.methods()))
		}
	}
	if d == "" && want != nil && strings.HasPrefix(want.label, "i ") {
		e := o.Ev[len(o.Ev)-1]
		if !sameValue(e.W, want.self) {
			d = fmt.Sprintf("%s is called on another value: %p, expected %p", e.L, e.W, want.self)
		}
		if e.S == nil {
			d = first(d, e.L+" gets no arguments")
		} else if !sameValue(e.S.Impl, x.impl) {
			d = first(d, fmt.Sprintf("%s: ResponderImpl() is %T %v, expected %T %v", e.L,
				e.S.Impl, e.S.Impl, x.impl, x.impl))
		}
		c.Count("requests handled by methods")
	}
	if d != "" {
		report(c, rq, nil, o, x.name+" by "+by+": "+d)
	}
	c.Count(map[bool]string{true: "requests with a handler", false: "requests without"}[want != nil && want.label != ""])
	c.EvalHash(hash64(x.name, m, exp) ^ th*31)
	if c.Index < 3 && want != nil && strings.HasPrefix(want.label, "i ") {
		c.Sample("%s %s => %.200s", x.name, m, o.String())
	}
}

// twinCase compares a resource with an implementation to one whose handlers
// were set by hand.
func twinCase(c *Case) {
	v, hs, na, text := newValue(c)
	c.Logf("implementation %s", text)
	a := nm.NewResource("r", v)
	b := nm.NewDormantResource("r")
	for _, m := range genMethods {
		h := m.get(v)
		if h == nil {
			continue
		}
		name := strings.ToUpper(m.name[len("Handle"):])
		if m.name == "HandleNotAllowedMethod" {
			b.SetHandlerFor("!", h)
		} else {
			b.SetHandlerFor(name, h)
		}
	}
	if c.P(0.3) {
		l := "/mw"
		mw := func(next nm.Handler) nm.Handler {
			return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
				traceOf(r).add(Ev{K: 'm', L: l})
				return next(w, r, args)
			}
		}
		list := c.Pick("*", "!", "OPTIONS")
		if len(hs) > 0 {
			c.Logf("WrapHandlerOf(%q)", list)
			a.WrapHandlerOf(list, mw)
			b.WrapHandlerOf(list, mw)
		}
	}
	w := &implWorld{c: c}
	x := &implObj{hs: hs, na: na}
	x.fillOptions()
	ms := append(x.methods(), "GET", "OPTIONS", "NOPE", "NOTALLOWEDMETHOD", "get", "")
	for i := 0; i < 6; i++ {
		ms = append(ms, w.method(x))
	}
	for _, m := range ms {
		if _, ok := v.(interface {
			Handle(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok && m == "" {
			continue // Not a method of any request.
		}
		rq := &Req{Method: m, Host: "h", URI: "/r"}
		oa, ob := serve(nil, a, rq, nil), serve(nil, b, rq, nil)
		d := ""
		if oa.Pan != nil || ob.Pan != nil {
			d = fmt.Sprintf("panics: %v and %v", oa.Pan, ob.Pan)
		}
		allowSort(oa)
		allowSort(ob)
		if evLine(oa.Ev) != evLine(ob.Ev) || fmt.Sprint(oa.RW.Codes) != fmt.Sprint(ob.RW.Codes) ||
			oa.RW.Body.String() != ob.RW.Body.String() || !reflect.DeepEqual(oa.Hdr, ob.Hdr) {
			d = first(d, fmt.Sprintf("the implementation's answer is %s %v, by hand it's %s %v", oa, oa.Hdr, ob, ob.Hdr))
		}
		if d != "" {
			report(c, rq, nil, oa, d)
		}
		c.EvalHash(hash64("twin", text, m))
	}
}

// allowSort makes the order of the allowed methods irrelevant.
func allowSort(o *Obs) {
	if vs := o.Hdr["Allow"]; vs != nil {
		o.Hdr["Allow"] = allowSet(vs)
	}
}

func init() {
	register("C29", "130 generated implementation types (structs, functions, maps, slices, numbers, "+
		"generic types; value, pointer and mixed receivers; embedded values, pointers and interfaces "+
		"with shadowed and ambiguous methods; signatures that nearly match; up to 60 methods), given "+
		"in every way in random histories; the expected handlers are found by type assertions; "+
		"distinct by responder, method, expected calls and history",
		func(run *Run) {
			run.Stage("impl", scale(4000, 80000), implCase)
			run.Stage("twins", scale(3000, 60000), twinCase)
		}, "two methods whose names differ only in case and which both have the signature, a method "+
			"named just Handle, and a value without handlers set over existing handlers aren't decided")
}
