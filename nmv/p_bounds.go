package main

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	nm "github.com/shohruhadham/nanomux"
)

func boundsProf(c *Case) Prof {
	p := baseProf()
	stateProf(c, &p)
	p.MaxNodes = 12
	p.ConvP = 0.5
	p.RedirP, p.SecureP, p.RedirInsecP = 0.15, 0.15, 0.1
	p.LenientUCP, p.LenientTSP, p.TSlashP = 0.3, 0.2, 0.3
	p.ImplP = 0.1
	return p
}

// hugeURI makes the path of the request huge without changing much else.
func hugeURI(c *Case, path string, size int) (kind, p string) {
	rep := func(s string) string { return strings.Repeat(s, size/len(s)+1) }
	at := strings.LastIndexByte(path, '/')
	switch c.IntN(22) {
	case 0, 1, 2:
		return "slashes at the end", path + rep("/")
	case 3, 4:
		return "slashes at the end of an encoded path", encodeLast(path) + rep("/")
	case 5:
		return "slashes at the beginning", rep("/") + path
	case 6:
		return "slashes in the middle", path[:at] + rep("/") + path[at:]
	case 7:
		return "dots at the end", path + rep("/.")
	case 8:
		return "dots and a slash at the end", path + rep("/.") + "/"
	case 9:
		return "dots above the root", rep("/..") + path
	case 10:
		return "ups and downs", path + rep("/x/..")
	case 11:
		return "encoded ups and downs", path + rep("/%78/..")
	case 12:
		return "short segments", path + rep("/x")
	case 13:
		return "encoded short segments", path + rep("/%78")
	case 14:
		return "encoded slashes at the end", path + rep("%2F")
	case 15:
		return "encoded slashes and slashes at the end", path + rep("%2F/")
	case 16:
		return "a long last segment", path + rep("a")
	case 17:
		return "a long encoded last segment", path + rep("%41")
	case 18:
		return "a long last segment of digits", path + rep("7")
	case 19:
		return "a long last segment of symbols", path + rep("-")
	case 20:
		return "a long multi-byte last segment", path + rep("%D0%B6")
	}
	return "a long segment in the middle", path[:at] + "/" + rep("b") + path[at:]
}

// encodeLast encodes the last character of the path.
func encodeLast(p string) string {
	if p == "" || p[len(p)-1] == '/' {
		return p
	}
	if n := len(p); n > 2 && p[n-3] == '%' {
		return p
	}
	return fmt.Sprintf("%s%%%02x", p[:len(p)-1], p[len(p)-1])
}

// Far more than what a request of this size takes, and far less than what it
// takes when the time grows as the square of its size.
const hugeLimit = 30 * time.Second

func hugeCase(c *Case) {
	t, b, _ := begin(c, boundsProf(c))
	rp := baseReq()
	stateReq(&rp)
	rp.ActP, rp.BadP = 0, 0
	for i := 0; i < 6; i++ {
		rq := genReq(c.Rand, t, rp)
		rq.Odd = nil
		path := "/"
		if u, err := url.ParseRequestURI(rq.URI); err == nil && u.Path != "" {
			path = u.EscapedPath()
		}
		size := 1 << (15 + c.IntN(6))
		kind := ""
		switch c.IntN(12) {
		case 0:
			kind = "a long host"
			rq.Host = strings.Repeat(pick(c.Rand, []string{"a.", "a", "[", ":", "1:", "a-"}), size/2) + rq.Host
		case 1:
			kind = "a long method"
			rq.Method = strings.Repeat(pick(c.Rand, []string{"M", "get", "OPTIONS", "!"}), size/4)
		case 2:
			kind = "a long query"
			rq.URI = path + "?" + strings.Repeat(pick(c.Rand, []string{"?", "&a=b", "%2F", "/", ";"}), size/4)
		default:
			kind, rq.URI = hugeURI(c, path, size)
		}
		if _, err := url.ParseRequestURI(rq.URI); err != nil {
			continue
		}
		c.Logf("a request with %s, %d bytes: %s %q %.60q", kind, size, rq.Method[:min(9, len(rq.Method))],
			rq.Host[:min(60, len(rq.Host))], rq.URI)
		type res struct {
			o *Obs
			d time.Duration
		}
		done := make(chan res, 1)
		go func() {
			at := time.Now()
			o := serveTr(b.Router, rq, &Trace{B: b})
			done <- res{o, time.Since(at)}
		}()
		select {
		case r := <-done:
			if r.o.Pan != nil {
				c.Fail("panic: %.200v", r.o.Pan)
			}
			if n := len(r.o.RW.Codes); n > 1 {
				c.Fail("answered %d times", n)
			}
			c.Count(kind)
			c.CountN("milliseconds", int(r.d.Milliseconds()))
			c.CountN("kilobytes", size>>10)
		case <-time.After(hugeLimit):
			c.Fail("the request with %s takes more than %v", kind, hugeLimit)
		}
		c.EvalHash(hash64(kind, itoa(size), rq.URI[:min(200, len(rq.URI))], t.String()))
	}
}

type boundsToken struct {
	p *boundsToken
	s string
}

type boundsKey struct{ n int }

// keptWatch counts the objects that were made for requests and are gone.
type keptWatch struct {
	made int
	gone atomic.Int64
}

func watchObj[T any](k *keptWatch, p *T) {
	k.made++
	runtime.SetFinalizer(p, func(*T) { k.gone.Add(1) })
}

//go:noinline
func (k *keptWatch) serve(ctx context.Context, b *Built, h http.Handler, rq *Req, panAt int) {
	n := 0
	tr := &Trace{Acts: rq.Acts, B: b, Over: rq.Over, Ctx: ctx}
	tr.Hook = func(_ byte, _ string, w http.ResponseWriter, r *http.Request, args *nm.Args) {
		n++
		if n == panAt {
			panic("a handler's panic")
		}
		if n > 3 {
			return
		}
		tok := &boundsToken{s: rq.URI}
		watchObj(k, tok)
		if args != nil {
			args.Set(boundsKey{n}, tok)
			args.Set(tok, n)
		}
	}
	watchObj(k, tr)
	o := serveTr(h, rq, tr)
	if o.Req != nil {
		watchObj(k, o.Req)
		watchObj(k, o.Req.URL)
	}
	watchObj(k, o.RW)
}

func (k *keptWatch) left() int {
	for i := 0; i < 200; i++ {
		runtime.GC()
		if int(k.gone.Load()) == k.made {
			return 0
		}
		time.Sleep(time.Duration(1+i/4) * time.Millisecond)
	}
	return k.made - int(k.gone.Load())
}

// keptCase checks that nothing of the requests is kept.
func keptCase(c *Case) {
	t, b, _ := begin(c, boundsProf(c))
	rp := baseReq()
	stateReq(&rp)
	before := runtime.NumGoroutine()
	k := &keptWatch{}
	// The server's context, which lasts longer than the requests.
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 0; i < 300; i++ {
		rq := genReq(c.Rand, t, rp)
		panAt := 0
		if c.P(0.15) {
			panAt = 1 + c.IntN(4)
			for l := range rq.Acts {
				if rq.Acts[l] == actGo {
					delete(rq.Acts, l)
				}
			}
		}
		var h http.Handler = b.Router
		if c.P(0.2) {
			h = b.Objs[pick(c.Rand, t.Nodes).ID].(http.Handler)
		}
		k.serve(ctx, b, h, rq, panAt)
		c.EvalHash(hash64("kept", rq.String()))
	}
	c.CountN("objects watched", k.made)
	if n := k.left(); n > 0 {
		c.Fail("%d of %d objects of the requests are kept after the requests were answered", n, k.made)
	}
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i > 500 {
			c.Fail("there were %d goroutines, there are %d", before, runtime.NumGoroutine())
		}
		time.Sleep(10 * time.Millisecond)
	}
	runtime.KeepAlive(b)
}

//go:noinline
func heapServe(c *Case, t *Tree, b *Built, rp RProf, n int, tag string) {
	for i := 0; i < n; i++ {
		rq := genReq(c.Rand, t, rp)
		rq.Odd = nil
		uniq := fmt.Sprintf("%s%x", tag, i)
		pad := uniq + strings.Repeat("x", 200)
		switch i % 5 {
		case 0:
			rq.Host = pad + ".test"
		case 1:
			rq.Method = strings.ToUpper(pad)
		case 2:
			rq.URI = strings.TrimRight(strings.SplitN(rq.URI, "?", 2)[0], "/") + "/" + pad
		case 3:
			rq.URI = "/" + pad + "/" + uniq
		default:
			if !strings.ContainsAny(rq.URI, "?#") {
				rq.URI += "?" + pad
			}
		}
		if _, err := url.ParseRequestURI(rq.URI); err != nil {
			continue
		}
		rq.URL = nil
		serveTr(b.Router, rq, &Trace{Acts: rq.Acts, B: b})
	}
}

func heapNow() int64 {
	var m runtime.MemStats
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// heapCase checks that the memory doesn't grow with the number of requests.
func heapCase(c *Case) {
	p := boundsProf(c)
	p.Hosts = 3
	t, b, _ := begin(c, p)
	rp := baseReq()
	stateReq(&rp)
	const n = 4000
	heapServe(c, t, b, rp, n, "warm")
	var grown [3]int64
	last := heapNow()
	for i := range grown {
		heapServe(c, t, b, rp, n, fmt.Sprint("q", i, "q"))
		now := heapNow()
		grown[i] = now - last
		last = now
	}
	c.CountN("requests of growing variety", 4*n)
	c.Logf("after each %d requests the memory grew by %v bytes", n, grown)
	// A kept piece of a request takes 200 bytes or more, and a fifth of the
	// requests have such pieces in the same place.
	small := grown[0]
	for _, g := range grown {
		small = min(small, g)
	}
	if small > n/5*100 {
		c.Fail("after each %d different requests the memory grew by %v bytes", n, grown)
	}
	c.EvalHash(hash64("heap", t.String()))
	runtime.KeepAlive(b)
}

func init() {
	register("C35", "huge requests (up to 1 MB: runs of slashes, dots, ups and downs, "+
		"short, long and encoded segments, long hosts, methods and queries) are timed on "+
		"random trees; the requests, writers, values stored in the arguments and the "+
		"goroutines of hundreds of requests are watched until the garbage collector has "+
		"taken them; the memory is measured after thousands of different requests; "+
		"non-trivial: every request; distinct by tree, kind and request",
		func(run *Run) {
			run.StageSeq("kept", scale(40, 600), keptCase)
			run.StageSeq("heap", scale(8, 80), heapCase)
			run.Stage("huge", scale(500, 8000), hugeCase)
		})
}
