package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	nm "github.com/shohruhadham/nanomux"
)

// Hostile requests: any bytes that a client can send, and any request that a
// program can construct.

var hostileTokens = []string{
	"/", "//", "///", "%", "%2", "%2F", "%2f", "%25", "%25%32%46", "%00", "%zz", "%E2%82",
	"%c0%af", "%ff", ".", "..", "/..", "/../", "/./", "%2E", "%2e%2e", "%2E%2E/", ";",
	";a=b", "?", "#", ":", "@", "{", "}", "{a}", "{a:*}", "$", "*", "+", "%20", " ", "\t",
	"\\", "%5C", "|", "^", "`", "\"", "<", ">", "'", "!", "~", "\x00", "\x01", "\x7f",
	"\x80", "\xff", "é", "€", "\u202e", "\U0001f600", "%0d%0a", "%0d%0aX-Inj:%201", "\u2028",
	"A", "0", "-", "_", "=", "&", "[", "]", "http://", "https://", "http:", "//evil.test/",
	"/*", "aaaaaaaaaaaaaaaa",
}

// mangle changes the text at a few places.
func mangle(r *rand.Rand, s string, n int) string {
	for ; n > 0; n-- {
		i := r.IntN(len(s) + 1)
		switch r.IntN(7) {
		case 0, 1, 2:
			s = s[:i] + pick(r, hostileTokens) + s[i:]
		case 3: // A few bytes are removed.
			k := min(len(s), i+1+r.IntN(3))
			s = s[:i] + s[k:]
		case 4: // A few bytes are replaced.
			k := min(len(s), i+1+r.IntN(3))
			s = s[:i] + pick(r, hostileTokens) + s[k:]
		case 5: // A part is repeated.
			k := min(len(s), i+1+r.IntN(8))
			s = s[:k] + s[i:]
		default: // Any byte.
			s = s[:i] + string([]byte{byte(r.IntN(256))}) + s[i:]
		}
	}
	return s
}

var hostileHosts = []string{
	"", ":", ":80", "::", "::1", "[::1", "[::1]", "[::1]:80", "[::1]80", "[]", "[]:1",
	"::1]", "a:b:c", "a:b", "example.com:", "example.com:http", "example.com:80:80",
	"EXAMPLE.COM", "example.com.", ".example.com", ".", "..", " ", "*", "%", "%2e", "{a}",
	"user@example.com", "example.com/x", "http://example.com", "é.test", "\xff", "a b",
	"[fe80::1%25eth0]:1", "localhost", "127.0.0.1:0", "-", "_", "\x00", "[::1]:",
}

var hostileMethods = []string{
	"", "get", "Get", "GET ", " GET", "OPTIONS", "options", "!", "*", "HEAD", "CONNECT",
	"TRACE", "\xff", "GET\x00", "PRI", "G\u00cbT", strings.Repeat("M", 300), "-", "0",
	"GET,POST", "GET POST", "POST", "OPTION",
}

func hostileHost(r *rand.Rand, h string) string {
	switch r.IntN(4) {
	case 0:
		return pick(r, hostileHosts)
	case 1:
		return h + pick(r, []string{":", ":0", ":x", ".", ":80:80", " ", "%00", "]", ":-1",
			":99999999"})
	case 2:
		return mangle(r, h, 1+r.IntN(2))
	default:
		return strings.ToUpper(h)
	}
}

func longPath(r *rand.Rand, p string) string {
	switch r.IntN(4) {
	case 0:
		return p + "/" + strings.Repeat("a", 1<<(8+r.IntN(7)))
	case 1:
		return p + strings.Repeat("/x", 1<<(4+r.IntN(7)))
	case 2:
		return strings.Repeat("/..", 1<<(2+r.IntN(7))) + p
	default:
		return p + strings.Repeat("/", 1<<(4+r.IntN(8)))
	}
}

// hostileReq makes a hostile request of a request that is made for the tree.
func hostileReq(r *rand.Rand, t *Tree, rq *Req) {
	if r.IntN(3) == 0 {
		rq.Host = hostileHost(r, rq.Host)
	}
	if r.IntN(5) == 0 {
		if r.IntN(2) == 0 {
			rq.Method = pick(r, hostileMethods)
		} else {
			rq.Method = mangle(r, rq.Method, 1)
		}
	}
	if r.IntN(8) == 0 {
		return
	}
	if rq.URL == nil && r.IntN(2) == 0 {
		// What a server parses.
		for try := 0; try < 8; try++ {
			uri := mangle(r, rq.URI, 1+r.IntN(3))
			if r.IntN(12) == 0 {
				uri = longPath(r, rq.URI)
			}
			if _, err := url.ParseRequestURI(uri); err == nil {
				rq.URI = uri
				return
			}
		}
		return
	}
	// What a program can construct.
	u := rq.parsedURL()
	p := u.EscapedPath()
	switch r.IntN(9) {
	case 0:
		u.Path = mangle(r, p, 1+r.IntN(3))
		u.RawPath = ""
	case 1:
		u.RawPath = mangle(r, p, 1+r.IntN(3))
	case 2:
		u.RawPath = mangle(r, p, 1+r.IntN(2))
		u.Path = mangle(r, u.Path, 1)
	case 3:
		u.Path, u.RawPath = "", ""
	case 4:
		u.Path = ""
		u.RawPath = p
	case 5:
		u.Path = strings.TrimLeft(u.Path, "/")
		u.RawPath = strings.TrimLeft(u.RawPath, "/")
	case 6:
		u.Path, u.RawPath = longPath(r, p), ""
	case 7:
		u.Opaque = pick(r, hostileTokens)
		u.Path = pick(r, []string{"", u.Path})
	default:
		u.Path = pick(r, []string{"*", "", "/", "//", ".", "..", "./", "/.", "/..", "../",
			"%", "/%", "?", "a"})
		u.RawPath = pick(r, []string{"", "", "*", "/", "//", ".", "..", "%", "/%", "/%zz/", "a"})
	}
	if r.IntN(6) == 0 {
		u.Scheme = pick(r, []string{"http", "https", "ftp", "javascript", ":", "\x00"})
	}
	if r.IntN(6) == 0 {
		u.Host = pick(r, hostileHosts)
		if r.IntN(2) == 0 {
			u.Host, rq.Host = rq.Host, ""
		}
	}
	if r.IntN(6) == 0 {
		u.RawQuery = mangle(r, u.RawQuery, 2)
	}
	u.ForceQuery = r.IntN(9) == 0
	if r.IntN(9) == 0 {
		u.Fragment, u.RawFragment = pick(r, hostileTokens), pick(r, hostileTokens)
	}
	if r.IntN(9) == 0 {
		u.User = url.UserPassword(pick(r, hostileTokens), pick(r, hostileTokens))
	}
	rq.URL = u
}

// sound checks, apart from the model, that the handlers that have run belong to
// responders that the request matches.
func sound(t *Tree, rq *Req, o *Obs, at *Node) string {
	u := rq.parsedURL()
	p, _ := cleanPath(escapedPath(u))
	segs := strings.Split(strings.TrimSuffix(strings.TrimPrefix(p, "/"), "/"), "/")
	if p == "" || p == "/" || p == "*" {
		segs = nil
	}
	for _, e := range o.Ev {
		if e.K != 'h' && e.K != 'r' || e.Node < 0 {
			continue
		}
		n := t.Nodes[e.Node]
		i := 0
		chain := n.Path()
		if at != nil && at.Kind == kRes {
			for len(chain) > 0 && chain[0] != at {
				chain = chain[1:]
			}
			if len(chain) == 0 {
				return fmt.Sprintf("%c(%s) isn't below #%d", e.K, e.L, at.ID)
			}
		}
		for _, a := range chain {
			switch a.Kind {
			case kHost:
				if h := reqHost(rq, u); h == "" {
					return fmt.Sprintf("%c(%s) ran without a host", e.K, e.L)
				} else if _, ok := a.Tmpl.Match(h); !ok {
					return fmt.Sprintf("%c(%s) ran for the host %q", e.K, e.L, h)
				}
			case kRes:
				if i >= len(segs) {
					return fmt.Sprintf("%c(%s) ran for the path %q", e.K, e.L, p)
				}
				d, err := url.PathUnescape(segs[i])
				if err != nil {
					return fmt.Sprintf("%c(%s) ran for the segment %q", e.K, e.L, segs[i])
				}
				if !a.Tmpl.IsWild() {
					if _, ok := a.Tmpl.Match(d); !ok {
						return fmt.Sprintf("%c(%s) ran for the segment %q", e.K, e.L, d)
					}
				}
				i++
			}
		}
		if i < len(segs) && !n.Cfg.Subtree && !(n.Redir != nil && n.Redir.Any) {
			return fmt.Sprintf("%c(%s) ran for a path below it: %q", e.K, e.L, p)
		}
		if e.K == 'r' {
			continue
		}
		if n.Cfg.Secure && !rq.TLS {
			return fmt.Sprintf("h(%s) ran for an insecure request", e.L)
		}
		if l, ok := n.Handlers[rq.Method]; ok && l != e.L || !ok && n.NotAllow != e.L {
			return fmt.Sprintf("h(%s) ran for the method %q", e.L, rq.Method)
		}
	}
	return ""
}

// validAnswer checks that there is exactly one valid answer.
func validAnswer(o *Obs) string {
	if len(o.RW.Codes) != 1 {
		return fmt.Sprintf("the header has been written %d times: %v", len(o.RW.Codes),
			o.RW.Codes)
	}
	if s := o.Stat; s < 200 || s > 599 {
		return fmt.Sprintf("the status is %d", s)
	}
	return ""
}

// decided tells whether the model decides the answer.
func decided(t *Tree, rq *Req, at *Node) bool {
	u := rq.parsedURL()
	if u.Opaque != "" || u.Path == "*" || u.RawPath == "*" || u.Path == "" {
		return false
	}
	if p, _ := cleanPath(escapedPath(u)); strings.HasPrefix(p, "/*") {
		return false
	}
	if rq.Method == "" {
		return false // The client's default.
	}
	return true
}

// plainTarget tells whether the location of a canonical redirect of the request
// is comparable.
func plainTarget(rq *Req) bool {
	u := rq.parsedURL()
	h := u.Host
	if h == "" {
		h = rq.Host
	}
	for i := 0; i < len(h); i++ {
		if !unreserved(h[i]) && h[i] != ':' {
			return false
		}
	}
	if _, err := url.Parse("http://" + h); err != nil {
		return false
	}
	return h != "" && !strings.Contains(u.RawQuery, "#") && u.User == nil && u.Fragment == "" && u.RawFragment == "" &&
		(u.Scheme == "" || u.Scheme == "http" || u.Scheme == "https")
}

// hostileHook calls what a handler may call.
func hostileHook(r *rand.Rand) func(k byte, l string, w http.ResponseWriter, rq *http.Request, args *nm.Args) {
	return func(k byte, l string, w http.ResponseWriter, rq *http.Request, args *nm.Args) {
		if args == nil {
			return
		}
		vs := args.HostPathValues()
		for _, t := range []string{"", ":", "$", "{", "\xff", l} {
			vs.Get(t)
		}
		args.Get(l)
		args.Set(pick(r, hostileTokens), l)
		args.RemainingPath()
		var o Rsp
		if h := args.Host(); h != nil {
			o = h
		}
		if c := args.CurrentResource(); c != nil {
			o = c
		}
		if o != nil {
			o.URL(vs)
			o.HandlerOf("GET")
		}
	}
}

func robustProf(c *Case, p *Prof) {
	flavour(c, p)
	p.MaxNodes = 16
	p.Hosts = 3
	p.SubtreeP = 0.3
	p.RedirP, p.RedirAny, p.PermCodeP, p.RedirHP = 0.1, 0.3, 0.1, 0.2
	p.PasserP, p.ReqMwP, p.MethMwP = 0.1, 0.1, 0.1
	p.ConvP = 0.1
	p.LenientUCP, p.LenientTSP = 0.25, 0.25
}

func hostileCase(c *Case) {
	p := baseProf()
	robustProf(c, &p)
	t, b, desc := begin(c, p)
	th := hash64(desc)
	for i := 0; i < 60; i++ {
		rp := baseReq()
		rp.BadP, rp.UncleanP, rp.DotSegP, rp.RelP = 0.2, 0.2, 0.1, 0.1
		rp.WantCan = true
		var at *Node
		if c.P(0.15) {
			at = pick(c.Rand, t.Nodes)
			rp.Under = at
		}
		rq := genReq(c.Rand, t, rp)
		hostileReq(c.Rand, t, rq)
		var out *Out
		var o *Obs
		tr := &Trace{Acts: rq.Acts, B: b, Names: t.AllNames(), Hook: hostileHook(c.Rand)}
		ok := decided(t, rq, at)
		if at == nil {
			if ok {
				out = predict(t, rq)
			}
			o = serveTr(b.Router, rq, tr)
		} else {
			if ok {
				out = predictAt(t, rq, at)
			}
			o = serveTr(b.Objs[at.ID], rq, tr)
		}
		d := first(diffPanic(o), validAnswer(o))
		if d == "" {
			d = sound(t, rq, o, at)
		}
		if d == "" && out != nil {
			d = first(diffHandlers(out, o), diffStatus(out, o, true), diffAllow(out, o))
			if d == "" && out.Kind() == dCanonical && rq.URL == nil && plainTarget(rq) {
				d = diffLoc(out, o)
				c.Count("locations compared")
			}
		}
		if d != "" {
			if at != nil {
				d = "served by #" + itoa(at.ID) + ": " + d
			}
			report(c, rq, out, o, d)
		}
		if out != nil {
			c.Count("answer: " + out.Kind())
		} else {
			c.Count("only the invariants are checked")
			c.Count(fmt.Sprintf("undecided: %d", o.Stat))
		}
		c.CountN("handlers that ran", len(o.handlers()))
		c.EvalHash(th ^ hash64(fmt.Sprintf("%q", rq.String()))*31)
		if i < 1 && c.Index < 3 {
			c.Sample("%.400q => %.300s", rq.String(), o.String())
		}
	}
}

// ---------------------------------------------------------------------------

// memConn is a connection whose client sends the bytes and ends.
type memConn struct {
	in   *bytes.Reader
	out  bytes.Buffer
	chop int // The largest read.
	done chan struct{}
	once sync.Once
}

type memAddr struct{}

// Network implements net.Addr.
func (memAddr) Network() string { return "mem" }

// String implements net.Addr.
func (memAddr) String() string { return "192.0.2.1:1" }

// Read implements net.Conn.
func (c *memConn) Read(b []byte) (int, error) {
	if len(b) > c.chop {
		b = b[:c.chop]
	}
	return c.in.Read(b)
}

// Write implements net.Conn.
func (c *memConn) Write(b []byte) (int, error) { return c.out.Write(b) }

// Close implements net.Conn.
func (c *memConn) Close() error {
	c.once.Do(func() { close(c.done) })
	return nil
}

// LocalAddr implements net.Conn.
func (c *memConn) LocalAddr() net.Addr { return memAddr{} }

// RemoteAddr implements net.Conn.
func (c *memConn) RemoteAddr() net.Addr { return memAddr{} }

// SetDeadline implements net.Conn.
func (c *memConn) SetDeadline(time.Time) error { return nil }

// SetReadDeadline implements net.Conn.
func (c *memConn) SetReadDeadline(time.Time) error { return nil }

// SetWriteDeadline implements net.Conn.
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

// memListener gives one connection.
type memListener struct {
	conns chan net.Conn
	end   chan struct{}
	once  sync.Once
}

// Accept implements net.Listener.
func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.end:
		return nil, net.ErrClosed
	}
}

// Close implements net.Listener.
func (l *memListener) Close() error {
	l.once.Do(func() { close(l.end) })
	return nil
}

// Addr implements net.Listener.
func (l *memListener) Addr() net.Addr { return memAddr{} }

// countW counts the headers that are written.
type countW struct {
	http.ResponseWriter
	codes []int
}

// WriteHeader implements http.ResponseWriter.
func (w *countW) WriteHeader(code int) {
	w.codes = append(w.codes, code)
	w.ResponseWriter.WriteHeader(code)
}

// Write implements http.ResponseWriter.
func (w *countW) Write(b []byte) (int, error) {
	if len(w.codes) == 0 {
		w.codes = append(w.codes, 200)
	}
	return w.ResponseWriter.Write(b)
}

// wireGot is a request that the server has parsed and what was observed.
type wireGot struct {
	rq    *Req
	ev    []Ev
	codes []int
	pan   any
}

type wireKey struct{}

// wireLine makes the bytes of a request.
func wireLine(r *rand.Rand, rq *Req) string {
	target := rq.URI
	if rq.URL != nil {
		target = rq.URL.RequestURI()
	}
	if r.IntN(3) > 0 {
		target = mangle(r, target, 1+r.IntN(2))
	}
	switch r.IntN(14) {
	case 0:
		target = "*"
	case 1:
		target = pick(r, []string{"", "x", "//", "//evil.test", "/", "?", "http:", "http://",
			"http://h", "https:///", "example.com:80", "/\\", "http:/x", "h:p", ":", "/:", "://"})
	case 2:
		target = "http://" + hostileHost(r, rq.Host) + target
	case 3:
		target = longPath(r, "/a")
	}
	host := rq.Host
	if r.IntN(3) == 0 {
		host = hostileHost(r, host)
	}
	method := rq.Method
	if r.IntN(6) == 0 {
		method = pick(r, hostileMethods)
	}
	if strings.ContainsAny(target, "\n") || strings.ContainsAny(host, "\n") {
		target, host = "/", "h"
	}
	proto := "HTTP/1.1"
	if r.IntN(6) == 0 {
		proto = pick(r, []string{"HTTP/1.0", "HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/0.9",
			"http/1.1", ""})
	}
	s := method + " " + target + " " + proto + "\r\n"
	if r.IntN(12) > 0 {
		s += "Host: " + host + "\r\n"
	}
	switch r.IntN(10) {
	case 0:
		s += "Content-Length: 5\r\n\r\nhello"
		return s
	case 1:
		s += "Transfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n"
		return s
	case 2:
		s += "Connection: keep-alive\r\n"
	case 3:
		s += "X-" + strings.Repeat("A", r.IntN(300)) + ": \xff\r\n"
	}
	return s + "\r\n"
}

func wireCase(c *Case) {
	p := baseProf()
	robustProf(c, &p)
	t, b, desc := begin(c, p)
	th := hash64(desc)
	names := t.AllNames()
	srv := &http.Server{
		ErrorLog:                     log.New(io.Discard, "", 0),
		DisableGeneralOptionsHandler: true,
		ConnContext: func(ctx context.Context, nc net.Conn) context.Context {
			return context.WithValue(ctx, wireKey{}, nc)
		},
	}
	hook := func(k byte, l string, w http.ResponseWriter, rq *http.Request, args *nm.Args) {
		if args != nil {
			args.RemainingPath()
			args.Set(l, k)
		}
	}
	var secure bool
	var got []*wireGot
	srv.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		u := *r.URL
		g := &wireGot{rq: &Req{Method: r.Method, Host: r.Host, URL: &u, TLS: secure}}
		got = append(got, g)
		if secure {
			r.TLS = &tls.ConnectionState{HandshakeComplete: true}
		}
		tr := &Trace{B: b, Names: names, Hook: hook}
		cw := &countW{ResponseWriter: w}
		defer func() {
			g.ev, g.codes, g.pan = tr.Ev, cw.codes, recover()
			if g.pan != nil {
				w.WriteHeader(500)
			}
		}()
		b.Router.ServeHTTP(cw, withTrace(r, tr))
	})
	ln := &memListener{conns: make(chan net.Conn), end: make(chan struct{})}
	ended := make(chan struct{})
	go func() {
		srv.Serve(ln)
		close(ended)
	}()
	defer func() {
		srv.Close()
		<-ended
	}()
	for k := 0; k < 20; k++ {
		var sb strings.Builder
		for i := 1 + c.IntN(4); i > 0; i-- {
			rp := baseReq()
			rp.UncleanP, rp.DotSegP, rp.WantCan = 0.2, 0.1, true
			sb.WriteString(wireLine(c.Rand, genReq(c.Rand, t, rp)))
		}
		secure, got = c.P(0.3), nil
		conn := &memConn{in: bytes.NewReader([]byte(sb.String())),
			chop: 1 << c.IntN(14), done: make(chan struct{})}
		ln.conns <- conn
		<-conn.done
		c.Logf("sent: %q", sb.String())
		c.Logf("received: %q", conn.out.String())
		br := bufio.NewReader(&conn.out)
		c.Count("connections")
		for i, g := range got {
			c.Logf("parsed %d: %q", i, g.rq.String())
			if g.pan != nil {
				c.Fail("panic: %v", g.pan)
			}
			resp, err := http.ReadResponse(br, &http.Request{Method: g.rq.Method})
			if err != nil {
				c.Fail("request %d has no valid response: %v", i, err)
			}
			body, err := io.ReadAll(resp.Body)
			if err != nil {
				c.Fail("request %d has no whole response: %v", i, err)
			}
			rw := newRW()
			rw.Codes = g.codes
			rw.Body.Write(body)
			o := &Obs{Ev: g.ev, RW: rw, Stat: resp.StatusCode, Hdr: resp.Header}
			var out *Out
			d := first(validAnswer(o), sound(t, g.rq, o, nil))
			for h := range resp.Header {
				if strings.HasPrefix(h, "X-Inj") {
					d = "the request has put a header into the response"
				}
			}
			if d == "" && decided(t, g.rq, nil) {
				out = predict(t, g.rq)
				d = first(diffHandlers(out, o), diffStatus(out, o, true), diffAllow(out, o))
				if d == "" && out.Kind() == dCanonical && plainTarget(g.rq) {
					d = diffLoc(out, o)
					c.Count("locations compared")
				}
			}
			if d != "" {
				report(c, g.rq, out, o, d)
			}
			if out != nil {
				c.Count("answer: " + out.Kind())
			} else {
				c.Count("only the invariants are checked")
			}
			c.EvalHash(th ^ hash64(fmt.Sprintf("%q", g.rq.String()))*31)
			if i < 1 && k < 1 && c.Index < 3 {
				c.Sample("%.400q => %.300s", sb.String(), o.String())
			}
		}
		if len(got) == 0 {
			c.Count("connections that net/http refused")
		}
	}
}

func init() {
	register("C28", "requests made hostile by mutating their paths, hosts and methods, parsed "+
		"from bytes by net/http or constructed as no parser would, served in-process and over "+
		"connections of a real server, pipelined; non-trivial: every request that reached the "+
		"router; distinct by tree and request",
		func(run *Run) {
			run.Stage("hostile", scale(8000, 150000), hostileCase)
			run.Stage("wire", scale(4000, 60000), wireCase)
		}, "middlewares and handlers that don't respond themselves aren't sent hostile requests")
}
