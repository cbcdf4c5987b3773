package main

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

// Trace records the events of one request.
type Trace struct {
	Ev    []Ev
	Acts  map[string]byte
	Names []string // Value names to observe. nil: nothing is observed.
	B     *Built
	Over  string // The method that replaces the request's.
	// Hook, if set, is called with every call event.
	Ctx     context.Context // The request's context, if it isn't the background.
	Changed string          // The first change of a request.
	// What the next handler or middleware has to get: the writer and the
	// request. nil: undecided.
	W  http.ResponseWriter
	Rq func(r *http.Request) string
	Hook    func(k byte, l string, w http.ResponseWriter, r *http.Request, args *nm.Args)
}

// keeps returns a function that tells what of the request has been changed since.
func keeps(r *http.Request) func(r *http.Request) string {
	m, ctx, u, h, uri, n := r.Method, r.Context(), *r.URL, r.Host, r.RequestURI, len(r.Header)
	up, tls, body := r.URL, r.TLS, r.Body
	return func(r *http.Request) string {
		switch {
		case r.Method != m:
			return fmt.Sprintf("method %q -> %q", m, r.Method)
		case r.Context() != ctx:
			return "the context"
		case r.URL != up || *r.URL != u:
			return fmt.Sprintf("URL %q -> %q", &u, r.URL)
		case r.Host != h || r.RequestURI != uri:
			return fmt.Sprintf("host %q -> %q", h, r.Host)
		case len(r.Header) != n:
			return "the header"
		case r.TLS != tls || r.Body != body:
			return "the connection or body"
		}
		return ""
	}
}

func (tr *Trace) changed(label, what string) {
	if what != "" && tr.Changed == "" {
		tr.Changed = "the request of " + label + " has been changed by what's inside: " + what
	}
}

// gets reports whatever was passed to the label's handler or middleware in the
// place of the server's, or the outer middleware's, writer and request.
func (tr *Trace) gets(label string, w http.ResponseWriter, r *http.Request) {
	if tr.Changed != "" {
		return
	}
	if tr.W != nil && tr.W != w {
		tr.Changed = fmt.Sprintf(
			"%s has got another writer (%T) than what was passed (%T)",
			label, w, tr.W)
	}
	if tr.Rq != nil {
		if what := tr.Rq(r); what != "" {
			tr.Changed = label + " has got another request: " + what
		}
	}
}

// passes sets what has to arrive at the next handler or middleware and returns
// what restores it.
func (tr *Trace) passes(w http.ResponseWriter, r *http.Request) func() {
	w0, r0 := tr.W, tr.Rq
	if w0 == nil {
		return func() {}
	}
	tr.W, tr.Rq = w, sameRequest(r)
	return func() { tr.W, tr.Rq = w0, r0 }
}

// sameRequest returns a function that tells how a request differs from what
// the given one was, apart from what the library may add to the context.
func sameRequest(r *http.Request) func(r *http.Request) string {
	n, form := len(r.Header), r.Form != nil
	m, u, h, uri, ra := r.Method, *r.URL, r.Host, r.RequestURI, r.RemoteAddr
	tls, body, cl, done := r.TLS, r.Body, r.ContentLength, r.Context().Done() != nil
	return func(r *http.Request) string {
		switch {
		case r.Method != m:
			return fmt.Sprintf("method %q instead of %q", r.Method, m)
		case *r.URL != u:
			return fmt.Sprintf("URL %q instead of %q", r.URL, &u)
		case r.Host != h || r.RequestURI != uri || r.RemoteAddr != ra:
			return fmt.Sprintf("host %q instead of %q", r.Host, h)
		case len(r.Header) != n:
			return fmt.Sprintf("the header has %d entries instead of %d",
				len(r.Header), n)
		case r.TLS != tls || r.Body != body || r.ContentLength != cl:
			return "the connection or body"
		case r.Form != nil && !form:
			return "the form has been parsed"
		case r.Context().Done() == nil && done:
			return "its context is never done"
		}
		return ""
	}
}

type traceKey struct{}

func traceOf(r *http.Request) *Trace {
	tr, _ := r.Context().Value(traceKey{}).(*Trace)
	if tr == nil {
		// A request that came from the network.
		if id := r.Header.Get("X-Nmv"); id != "" {
			if v, ok := netTraces.Load(id); ok {
				tr = v.(*Trace)
			}
		}
	}
	return tr
}

// netTraces are the traces of the requests that are sent over the network.
var netTraces sync.Map

func withTrace(r *http.Request, tr *Trace) *http.Request {
	ctx := r.Context()
	if tr.Ctx != nil {
		ctx = tr.Ctx
	}
	if ctx.Done() == nil {
		ctx = doneCtx{ctx, make(chan struct{})}
	}
	return r.WithContext(context.WithValue(ctx, traceKey{}, tr))
}

// doneCtx is a context that may be cancelled, as those of the servers are.
type doneCtx struct {
	context.Context
	done chan struct{}
}

// Done implements context.Context.
func (c doneCtx) Done() <-chan struct{} { return c.done }

func (tr *Trace) snap(args *nm.Args) *Snap {
	if tr.Names == nil || args == nil {
		return nil
	}
	s := &Snap{Vals: map[string]string{}, Host: -1, Res: -1}
	vs := args.HostPathValues()
	for _, n := range tr.Names {
		if v := vs.Get(n); v != "" {
			s.Vals[n] = v
		}
	}
	s.RawRem = args.RemainingPath()
	if h := args.Host(); h != nil {
		s.Host = tr.B.idOfHost(h)
	}
	if r := args.CurrentResource(); r != nil {
		s.Res = tr.B.idOfRes(r)
	}
	s.Shared, s.Impl = args.ResponderSharedData(), args.ResponderImpl()
	return s
}

func (tr *Trace) add(ev Ev) { tr.Ev = append(tr.Ev, ev) }

func nodeOfLabel(l string) int {
	if l[0] == 'R' {
		return -1
	}
	n := 0
	for _, c := range l {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// hx is what else a handler observes of its request.
type hx struct {
	R    string // The marks of the replaced requests.
	M    string // The method.
	Args int    // 1: the request has arguments, 0: it doesn't, -1: undecided.
}

// A converted middleware's label ends with "~", that of a converted handler
// with "~" and the kind of the converter.
func convMw(label string) bool { return label[len(label)-1] == '~' }

func convKind(label string) int {
	if l := len(label); l > 2 && label[l-2] == '~' {
		return int(label[l-1] - '0')
	}
	return 0
}

// tagWriter marks the responses that are written through it.
type tagWriter struct {
	http.ResponseWriter
	tag   string
	wrote bool
}

// WriteHeader implements http.ResponseWriter.
func (w *tagWriter) WriteHeader(code int) {
	if !w.wrote {
		w.wrote = true
		w.Header().Add("X-W", w.tag)
	}
	w.ResponseWriter.WriteHeader(code)
}

// Write implements http.ResponseWriter.
func (w *tagWriter) Write(b []byte) (int, error) {
	if !w.wrote {
		w.WriteHeader(200)
	}
	return w.ResponseWriter.Write(b)
}

// replaced returns what the next handler gets after the action.
func (tr *Trace) replaced(
	act byte, label string, w http.ResponseWriter, r *http.Request,
) (http.ResponseWriter, *http.Request) {
	switch act {
	case actWriter:
		w = &tagWriter{ResponseWriter: w, tag: label}
	case actRequest:
		r = r.Clone(r.Context())
		r.Header.Add("X-R", label)
	case actMethod:
		r = r.Clone(r.Context())
		r.Method = tr.Over
	}
	return w, r
}

// convHandler returns the net/http handler of the label.
func convHandler(label string) http.HandlerFunc {
	id := nodeOfLabel(label)
	return func(w http.ResponseWriter, r *http.Request) {
		tr := traceOf(r)
		if tr == nil {
			w.WriteHeader(200)
			fmt.Fprint(w, label)
			return
		}
		tr.gets(label, w, r)
		args := nm.ArgsFrom(r)
		x := hx{R: fmt.Sprint(r.Header["X-R"]), M: r.Method}
		if args != nil {
			x.Args = 1
		}
		tr.add(Ev{K: 'h', L: label, Node: id, S: tr.snap(args), W: x})
		if tr.Hook != nil {
			tr.Hook('h', label, w, r, args)
		}
		switch tr.Acts[label] {
		case actFalse, actSilent:
			return
		}
		w.WriteHeader(200)
		fmt.Fprint(w, label)
	}
}

type handlerType struct{ f http.HandlerFunc }

// ServeHTTP implements http.Handler.
func (h *handlerType) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(w, r) }

// convMiddleware returns the net/http middleware of the label.
func convMiddleware(k byte, label string) func(http.Handler) http.Handler {
	id := nodeOfLabel(label)
	return func(next http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			tr := traceOf(r)
			if tr == nil {
				next.ServeHTTP(w, r)
				return
			}
			tr.gets(label, w, r)
			args := nm.ArgsFrom(r)
			tr.add(Ev{K: k, L: label, Node: id, S: tr.snap(args)})
			if tr.Hook != nil {
				tr.Hook(k, label, w, r, args)
			}
			r0, same := r, keeps(r)
			switch act := tr.Acts[label]; act {
			case actDrop:
			case actAnswer:
				w.WriteHeader(299)
				fmt.Fprint(w, label)
			case actGo:
				done := make(chan any)
				go func() {
					defer func() { done <- recover() }()
					next.ServeHTTP(w, r)
				}()
				if p := <-done; p != nil {
					panic(p)
				}
			default:
				w, r = tr.replaced(act, label, w, r)
				back := tr.passes(w, r)
				next.ServeHTTP(w, r)
				back()
			}
			tr.changed(label, same(r0))
			tr.add(Ev{K: k - 32, L: label, Node: id, S: tr.snap(args)})
			if tr.Hook != nil {
				tr.Hook(k-32, label, w, r, args)
			}
		})
	}
}

// mkHandler returns an instrumented handler.
func mkHandler(label string) nm.Handler {
	switch convKind(label) {
	case 1:
		return nm.Hr(&handlerType{convHandler(label)})
	case 2:
		return nm.FnHr(convHandler(label))
	case 3:
		return nm.HrWithArgs(&handlerType{convHandler(label)})
	case 4:
		return nm.FnHrWithArgs(convHandler(label))
	}
	id := nodeOfLabel(label)
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		tr := traceOf(r)
		if tr == nil {
			w.WriteHeader(200)
			fmt.Fprint(w, label)
			return true
		}
		tr.gets(label, w, r)
		tr.add(Ev{K: 'h', L: label, Node: id, S: tr.snap(args),
			W: hx{fmt.Sprint(r.Header["X-R"]), r.Method, -1}})
		if tr.Hook != nil {
			tr.Hook('h', label, w, r, args)
		}
		switch tr.Acts[label] {
		case actFalse:
			return false
		case actSilent:
			return true
		}
		w.WriteHeader(200)
		fmt.Fprint(w, label)
		return true
	}
}

// mkMw returns an instrumented middleware.
func mkMw(k byte, label string) nm.Middleware {
	if convMw(label) {
		return nm.Mw(convMiddleware(k, label))
	}
	id := nodeOfLabel(label)
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			tr := traceOf(r)
			if tr == nil {
				return next(w, r, args)
			}
			tr.gets(label, w, r)
			tr.add(Ev{K: k, L: label, Node: id, S: tr.snap(args)})
			if tr.Hook != nil {
				tr.Hook(k, label, w, r, args)
			}
			ret := false
			same := keeps(r)
			switch act := tr.Acts[label]; act {
			case actDrop:
			case actWriter, actRequest, actMethod:
				w, r := tr.replaced(act, label, w, r)
				back := tr.passes(w, r)
				ret = next(w, r, args)
				back()
			case actAnswer:
				w.WriteHeader(299)
				fmt.Fprint(w, label)
				ret = true
			case actFallback:
				ret = next(w, r, args)
				if !ret {
					w.WriteHeader(299)
					fmt.Fprint(w, label)
					ret = true
				}
			default:
				ret = next(w, r, args)
			}
			tr.changed(label, same(r))
			tr.add(Ev{K: k - 32, L: label, Node: id, Ret: ret, S: tr.snap(args)})
			if tr.Hook != nil {
				tr.Hook(k-32, label, w, r, args)
			}
			return ret
		}
	}
}

// mkRedirH returns an instrumented redirect handler.
func mkRedirH(label string) nm.RedirectHandler {
	id := nodeOfLabel(label)
	return func(
		w http.ResponseWriter, r *http.Request, url string, code int,
		args *nm.Args,
	) bool {
		tr := traceOf(r)
		if tr != nil {
			tr.gets(label, w, r)
			tr.add(Ev{K: 'r', L: label, Node: id, URL: url, Code: code,
				S: tr.snap(args)})
			if tr.Hook != nil {
				tr.Hook('r', label, w, r, args)
			}
			switch tr.Acts[label] {
			case actFalse:
				return false
			case actSilent:
				return true
			}
		}
		w.Header().Set("Location", url)
		w.WriteHeader(code)
		fmt.Fprint(w, label)
		return true
	}
}

// mkRedirMw returns an instrumented middleware of redirect handlers.
func mkRedirMw(label string) func(nm.RedirectHandler) nm.RedirectHandler {
	id := nodeOfLabel(label)
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(
			w http.ResponseWriter, r *http.Request, url string, code int,
			args *nm.Args,
		) bool {
			tr := traceOf(r)
			if tr != nil {
				tr.gets(label, w, r)
				tr.add(Ev{K: 'w', L: label, Node: id, URL: url, Code: code,
					S: tr.snap(args)})
			}
			return next(w, r, url, code, args)
		}
	}
}

// RW is a response writer that records every write.
type RW struct {
	H       http.Header
	Codes   []int // Every call of WriteHeader, also the implicit ones.
	Body    strings.Builder
	Writes  int
	Snap    http.Header // The header at the first WriteHeader.
	Strange []string
}

func newRW() *RW { return &RW{H: http.Header{}} }

// Header implements http.ResponseWriter.
func (w *RW) Header() http.Header { return w.H }

// WriteHeader implements http.ResponseWriter.
func (w *RW) WriteHeader(code int) {
	if len(w.Codes) == 0 {
		w.Snap = w.H.Clone()
	}
	w.Codes = append(w.Codes, code)
}

// Write implements http.ResponseWriter.
func (w *RW) Write(b []byte) (int, error) {
	if len(w.Codes) == 0 {
		w.WriteHeader(200)
	}
	w.Writes++
	return w.Body.Write(b)
}

// Status returns the status of the response.
func (w *RW) Status() int {
	if len(w.Codes) == 0 {
		return 0
	}
	return w.Codes[0]
}

// Obs is what's observed of a request.
type Obs struct {
	Ev   []Ev
	RW   *RW
	Pan  any
	Req  *http.Request
	Tr   *Trace
	Hdr  http.Header
	Stat int
}

// Handled returns the label of the last handler or mw-independent answer.
func (o *Obs) handlers() []Ev {
	var evs []Ev
	for _, e := range o.Ev {
		if e.K == 'h' {
			evs = append(evs, e)
		}
	}
	return evs
}

// serve sends the request to the handler and records what happens.
func serve(b *Built, h http.Handler, rq *Req, names []string) (o *Obs) {
	return serveTr(h, rq, &Trace{Acts: rq.Acts, Names: names, B: b, Over: rq.Over})
}

func serveTr(h http.Handler, rq *Req, tr *Trace) (o *Obs) {
	rw := newRW()
	o = &Obs{RW: rw, Tr: tr}
	r := withTrace(rq.Make(), tr)
	o.Req = r
	defer func() {
		o.Pan = recover()
		tr.W, tr.Rq = nil, nil // The trace may outlive the request.
		o.Ev = tr.Ev
		o.Stat = rw.Status()
		o.Hdr = rw.Snap
		if o.Hdr == nil {
			o.Hdr = rw.H.Clone()
		}
		spoilHeader(rw.H)
	}()
	tr.W, tr.Rq = rw, sameRequest(r)
	same := keeps(r)
	h.ServeHTTP(rw, r)
	tr.changed("the server", same(r))
	return
}

func (o *Obs) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "status=%v", o.RW.Codes)
	if l := o.Hdr["Location"]; l != nil {
		fmt.Fprintf(&sb, " location=%q", l)
	}
	if l := o.Hdr["Allow"]; l != nil {
		fmt.Fprintf(&sb, " allow=%q", l)
	}
	fmt.Fprintf(&sb, " body=%q", o.RW.Body.String())
	if o.Pan != nil {
		fmt.Fprintf(&sb, " PANIC %v", o.Pan)
	}
	sb.WriteString(" events:" + evString(o.Ev, true))
	return sb.String()
}

func evString(evs []Ev, snaps bool) string {
	var sb strings.Builder
	for _, e := range evs {
		sb.WriteByte(' ')
		sb.WriteByte(e.K)
		sb.WriteString("(" + e.L)
		if e.K >= 'A' && e.K <= 'Z' {
			fmt.Fprintf(&sb, " %v", e.Ret)
		}
		if e.URL != "" {
			fmt.Fprintf(&sb, " %s %d", e.URL, e.Code)
		}
		if snaps && e.S != nil {
			fmt.Fprintf(&sb, " vals=%v", e.S.Vals)
			if len(e.S.Maybe) > 0 {
				fmt.Fprintf(&sb, " maybe=%v", e.S.Maybe)
			}
			if e.S.RawRem != "" {
				fmt.Fprintf(&sb, " rem=%q", e.S.RawRem)
			} else {
				fmt.Fprintf(&sb, " rem=%q,%v", e.S.Rem.Segs, e.S.Rem.Slash)
			}
			fmt.Fprintf(&sb, " host=%d res=%d shared=%v", e.S.Host, e.S.Res, e.S.Shared)
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

func (o *Out) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "status=%d answers=%v", o.Status, o.Answers)
	if o.Loc != nil {
		fmt.Fprintf(&sb, " location=%s", o.Loc)
	}
	if o.Allow != nil {
		fmt.Fprintf(&sb, " allow=%v", o.Allow)
	}
	sb.WriteString(" events:" + evString(o.Ev, true))
	return sb.String()
}
