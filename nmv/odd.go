package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
)

// Odd is what a request may be like without being routed or handled
// differently.
type Odd struct {
	Hdr    [][2]string
	Remote string
	Proto  string
	Major  int
	Minor  int
	URI    string // The RequestURI that a server has seen before a rewriting.
	Body   string
	Length int64
	Ctx    byte // c: canceled, d: the deadline has passed, v: with values.
	TLS    byte // n: the server name is another one, h: without a handshake.
	Close  bool
	NilHdr bool
}

func (d *Odd) String() string { return fmt.Sprintf("odd%+v", *d) }

type strKey string

func (d *Odd) apply(r *http.Request) *http.Request {
	for _, h := range d.Hdr {
		r.Header[h[0]] = append(r.Header[h[0]], h[1])
	}
	if d.Remote != "" {
		r.RemoteAddr = d.Remote
	}
	if d.Proto != "" {
		r.Proto, r.ProtoMajor, r.ProtoMinor = d.Proto, d.Major, d.Minor
	}
	if d.URI != "" {
		r.RequestURI = d.URI
	}
	if d.Body != "" {
		r.Body = io.NopCloser(strings.NewReader(d.Body))
		r.ContentLength = int64(len(d.Body))
	}
	if d.Length != 0 {
		r.ContentLength = d.Length
		r.TransferEncoding = []string{"chunked"}
	}
	r.Close = d.Close
	switch d.TLS {
	case 'n':
		if r.TLS != nil {
			r.TLS = &tls.ConnectionState{HandshakeComplete: true,
				ServerName: "another.test", Version: tls.VersionTLS13}
		}
	case 'h':
		if r.TLS != nil {
			r.TLS = &tls.ConnectionState{}
		}
	}
	switch d.Ctx {
	case 'c':
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		r = r.WithContext(ctx)
	case 'd':
		ctx, cancel := context.WithTimeout(context.Background(), -1)
		cancel()
		r = r.WithContext(ctx)
	case 'v':
		ctx := context.WithValue(context.Background(), strKey("args"), 1)
		ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
		r = r.WithContext(ctx)
	}
	return r
}

// genOdd returns the odd features of a request.
func genOdd(r *rand.Rand, method string) *Odd {
	d := &Odd{}
	m := pick(r, stdMethods)
	hdrs := [][2]string{
		{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Proto", "http"},
		{"X-Forwarded-Ssl", "on"}, {"Front-End-Https", "on"},
		{"X-Url-Scheme", "https"}, {"X-Forwarded-Port", "443"},
		{"X-Forwarded-Host", "other.test"}, {"X-Host", "other.test"},
		{"X-Original-Host", "example.com"}, {"Host", "example.com"},
		{"Forwarded", "for=1.2.3.4;proto=https;host=other.test"},
		{"X-Http-Method-Override", m}, {"X-Method-Override", m},
		{"X-HTTP-Method-Override", m}, {"X-Http-Method", m},
		{"X-Original-Url", "/other"}, {"X-Rewrite-Url", "/other"},
		{"X-Forwarded-Prefix", "/prefix"}, {"X-Forwarded-Uri", "/other"},
		{"X-Forwarded-For", "10.0.0.1"}, {"X-Real-Ip", "127.0.0.1"},
		{"Connection", "close"}, {"Connection", "Upgrade"},
		{"Upgrade", "websocket"}, {"Upgrade-Insecure-Requests", "1"},
		{"Expect", "100-continue"}, {"Accept", "application/json"},
		{"Accept", "text/html"}, {"Origin", "http://other.test"},
		{"Origin", "null"}, {"Access-Control-Request-Method", m},
		{"Access-Control-Request-Headers", "x-a"}, {"Sec-Fetch-Mode", "cors"},
		{"Referer", "http://example.com/a//b/"}, {"Cookie", "a=b; _method=PUT"},
		{"Authorization", "Basic YTpi"}, {"If-None-Match", "*"},
		{"If-Modified-Since", "Mon, 02 Jan 2006 15:04:05 GMT"},
		{"Range", "bytes=0-1"}, {"Location", "/here"}, {"Allow", "GET"},
		{"Cache-Control", "no-cache"}, {"User-Agent", ""},
		{"Content-Type", "application/x-www-form-urlencoded"},
		{"Content-Type", "multipart/form-data"}, {"Purpose", "prefetch"},
		{"X-Requested-With", "XMLHttpRequest"}, {"Max-Forwards", "0"},
		{"Te", "trailers"}, {"Trailer", "X"}, {"Via", "1.0 proxy"},
	}
	for k := r.IntN(4); k > 0; k-- {
		d.Hdr = append(d.Hdr, pick(r, hdrs))
	}
	P := func() bool { return r.IntN(6) == 0 }
	if P() {
		d.Remote = pick(r, []string{"127.0.0.1:80", "[::1]:443", "@", "x", "10.0.0.1:443"})
	}
	if P() {
		switch r.IntN(3) {
		case 0:
			d.Proto, d.Major, d.Minor = "HTTP/2.0", 2, 0
		case 1:
			d.Proto, d.Major, d.Minor = "HTTP/1.0", 1, 0
		default:
			d.Proto, d.Major, d.Minor = "HTTP/3.0", 3, 0
		}
	}
	if P() {
		d.URI = pick(r, []string{"/other", "*", "http://other.test/x", "/a//b"})
	}
	if P() {
		d.Body = pick(r, []string{"_method=PUT", "{}", "x", strings.Repeat("b", 5000)})
	}
	if P() {
		d.Length = []int64{-1, 10, 1 << 40}[r.IntN(3)]
	}
	if P() {
		d.Ctx = []byte{'c', 'd', 'v'}[r.IntN(3)]
	}
	if P() {
		d.TLS = []byte{'n', 'h'}[r.IntN(2)]
	}
	d.Close = P()
	return d
}
