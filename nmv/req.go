package main

import (
	"math/rand/v2"
	"net/url"
	"strings"
)

// RProf tells what the generated requests are like.
type RProf struct {
	Exact    float64 // The path of a node without any change.
	ExtraP   float64 // Additional segments.
	NearP    float64 // A segment is changed.
	CutP     float64 // The last segments are cut.
	SlashP   float64 // The trailing slash is toggled.
	UncleanP float64
	EncP     float64 // Unusual encodings.
	BadP     float64 // Segments that can't be decoded.
	TLSFlipP float64
	MethodP  float64 // A method that the node may not have.
	HostP    float64 // Another host.
	PortP    float64
	QueryP   float64
	AbsP     float64 // Absolute form.
	AbsTLSP  float64 // The scheme of an absolute form is https without TLS.
	RootP    float64 // The path "/".
	DotSegP  float64 // Encoded dot segments and empty values.
	FalseP   float64 // Handlers that return false.
	ActP     float64 // Middlewares with actions.
	WantCan  bool    // Prefer the nodes that can handle requests.
	MixP     float64 // The path of a node under another host.
	SilentP  float64 // Handlers that report handled and write nothing.
	RelP     float64 // Paths without the leading slash, as http.StripPrefix makes.
	ReplP    float64 // Middlewares that replace the writer or the request.
	OddP     float64 // Headers, contexts and the like that must not matter.
	Under    *Node   // Served directly.
}

func baseReq() RProf {
	return RProf{Exact: 0.45, ExtraP: 0.3, NearP: 0.3, CutP: 0.1, SlashP: 0.2,
		UncleanP: 0.1, EncP: 0.3, TLSFlipP: 0.2, MethodP: 0.25, HostP: 0.1,
		PortP: 0.3, QueryP: 0.3, AbsP: 0.05, RootP: 0.03, DotSegP: 0.02,
		MixP: 0.04, OddP: 0.12}
}

const hexU, hexL = "0123456789ABCDEF", "0123456789abcdef"

func pct(r *rand.Rand, b byte) string {
	h := hexU
	if r.IntN(2) == 0 {
		h = hexL
	}
	return "%" + string(h[b>>4]) + string(h[b&15])
}

func unreserved(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' ||
		b == '-' || b == '_' || b == '.' || b == '~'
}

// encSeg encodes the decoded segment in one of many equal ways.
func encSeg(r *rand.Rand, s string, odd bool) string {
	if s == "." || s == ".." {
		return strings.ReplaceAll(s, ".", "%2E")
	}
	if !odd {
		return url.PathEscape(s)
	}
	var sb strings.Builder
	mode := r.IntN(4)
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case mode == 0:
			sb.WriteString(pct(r, b))
		case unreserved(b):
			if mode == 1 && r.IntN(4) == 0 {
				sb.WriteString(pct(r, b))
			} else {
				sb.WriteByte(b)
			}
		case strings.IndexByte("!$&'()*+,;=:@", b) >= 0:
			if mode == 2 || r.IntN(2) == 0 {
				sb.WriteByte(b)
			} else {
				sb.WriteString(pct(r, b))
			}
		case b >= 0x80 && mode == 3:
			sb.WriteByte(b)
		default:
			sb.WriteString(pct(r, b))
		}
	}
	e := sb.String()
	if e == "." || e == ".." {
		return strings.ReplaceAll(e, ".", "%2E")
	}
	return e
}

// segValue returns a decoded segment that the template matches.
func segValue(r *rand.Rand, t *Tmpl) string {
	for i := 0; i < 20; i++ {
		s := t.Apply(t.GenVals(r, genWild))
		if s != "" {
			return s
		}
	}
	return "x"
}

// nearMiss changes the decoded segment.
func nearMiss(r *rand.Rand, n *Node, s string) string {
	rs := []rune(s)
	switch r.IntN(9) {
	case 0: // The value of a sibling.
		if n != nil && n.Parent != nil && len(n.Parent.Kids) > 1 {
			return segValue(r, pick(r, n.Parent.Kids).Tmpl)
		}
		return s + "x"
	case 1:
		return s + pick(r, []string{"x", "0", " ", "\n", "-", "%", "é", "."})
	case 2:
		return pick(r, []string{"x", "0", " ", "-", "z"}) + s
	case 3:
		if len(rs) > 1 {
			i := r.IntN(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
		return s + s
	case 4:
		up := strings.ToUpper(s)
		if up == s {
			return strings.ToLower(s)
		}
		return up
	case 5:
		return s + s
	case 6:
		return genWild(r)
	case 7:
		if n != nil {
			return n.Tmpl.Src()
		}
		return s + "y"
	default:
		i := r.IntN(len(rs) + 1)
		return string(rs[:i]) + pick(r, []string{"q", "7", "-", "/", "A"}) + string(rs[i:])
	}
}

var otherHosts = []string{
	"unknown.test", "EXAMPLE.COM", "example.com.", "www.example.net", "x.y.z",
	"[fe80::1]", "10.0.0.1", "example.co", "example.comm", "wwwexample.com",
	"a-b.example.com", "red.example.com", "12.org", "123.org", "xn--e1afmkfd.test",
}

func hostValue(r *rand.Rand, t *Tmpl) string {
	return t.Apply(t.GenVals(r, genHostWild))
}

func withPort(r *rand.Rand, h string) string {
	return h + pick(r, []string{":80", ":443", ":8080", ":1", ":65535", ":"})
}

var queries = []string{
	"a=b", "a=b&c=d", "x=%2F%2f", "q=a+b", "url=http://x.y/z?w", "a=//b/../c/./",
	"_method=DELETE", "_method=GET&a", "%E2%82%AC", "a;b", "=", "&&", "k=%zz", "é=1", "a=b#no",
}

// genReq generates a request for the tree.
func genReq(r *rand.Rand, t *Tree, p RProf) *Req {
	P := func(f float64) bool { return f > 0 && r.Float64() < f }
	pool := t.Nodes
	if p.Under != nil {
		pool = []*Node{p.Under}
		below(p.Under, func(n *Node) { pool = append(pool, n) })
	}
	n := pick(r, pool)
	if p.WantCan || r.IntN(3) > 0 {
		for i := 0; i < 8 && !n.CanHandle(); i++ {
			n = pick(r, pool)
		}
	}
	rq := &Req{WantNode: n.ID}
	// The host.
	top := n.Host()
	if top != nil {
		rq.Host = hostValue(r, top.Tmpl)
		if P(p.HostP) {
			if r.IntN(2) == 0 {
				rq.Host = nearMissHost(r, rq.Host)
			} else {
				rq.Host = pick(r, otherHosts)
			}
		}
	} else {
		rq.Host = pick(r, otherHosts)
		if P(0.2) && len(t.Hosts) > 0 {
			rq.Host = nearMissHost(r, hostValue(r, pick(r, t.Hosts).Tmpl))
		}
	}
	if P(p.MixP) {
		if o := pick(r, t.Nodes).Host(); o != nil {
			rq.Host = hostValue(r, o.Tmpl)
		} else {
			rq.Host = pick(r, otherHosts)
		}
	}
	if rq.Host == "" {
		rq.Host = "unknown.test"
	}
	if P(p.PortP) {
		rq.Host = withPort(r, rq.Host)
	}
	// The path.
	var dec []string
	var nodes []*Node
	for _, a := range n.Path() {
		if a.Kind == kRes {
			dec = append(dec, segValue(r, a.Tmpl))
			nodes = append(nodes, a)
		}
	}
	if p.Under != nil && p.Under.Parent != nil {
		for nodes[0] != p.Under {
			dec, nodes = dec[1:], nodes[1:]
		}
	}
	slash := n.Cfg.TSlash
	exact := P(p.Exact)
	if !exact {
		if P(p.CutP) && len(dec) > 0 {
			k := r.IntN(len(dec))
			dec, nodes = dec[:k], nodes[:k]
		}
		if P(p.ExtraP) {
			k := 1 + r.IntN(3)
			if r.IntN(50) == 0 {
				k += r.IntN(40)
			}
			for ; k > 0; k-- {
				s := genWild(r)
				if len(n.Kids) > 0 && r.IntN(2) == 0 {
					s = nearMiss(r, nil, segValue(r, pick(r, n.Kids).Tmpl))
				} else if r.IntN(4) == 0 {
					s = segValue(r, pick(r, t.Nodes[:]).tmplOr())
				}
				if s == "" {
					s = "e"
				}
				dec = append(dec, s)
				nodes = append(nodes, nil)
			}
		}
		if P(p.NearP) && len(dec) > 0 {
			k := r.IntN(len(dec))
			if s := nearMiss(r, nodes[k], dec[k]); s != "" {
				dec[k] = s
			}
		}
		if P(p.SlashP) {
			slash = !slash
		}
		if P(p.RootP) {
			dec, nodes = nil, nil
		}
		if P(p.DotSegP) && len(dec) > 0 {
			dec[r.IntN(len(dec))] = pick(r, []string{".", "..", "...", "./", "../x", "//"})
		}
	}
	odd := P(p.EncP)
	var segs []string
	for _, d := range dec {
		segs = append(segs, encSeg(r, d, odd && r.IntN(3) > 0))
	}
	bad := false
	if P(p.BadP) && len(segs) > 0 {
		bad = true
		k := r.IntN(len(segs))
		segs[k] = segs[k] + pick(r, []string{"%", "%z", "%4", "%%", "%zz", "%g0", "%2"})
	}
	if P(p.UncleanP) && !exact {
		segs = dirty(r, segs)
	}
	path := "/" + strings.Join(segs, "/")
	if slash && len(segs) > 0 && path != "/" {
		path += "/"
	}
	query := ""
	if P(p.QueryP) {
		query = pick(r, queries)
		if query == "a=b#no" {
			query = "a=b"
		}
		if r.IntN(60) == 0 {
			query = strings.Repeat(query, 2+r.IntN(60))
		}
	}
	// The scheme.
	rq.TLS = n.Cfg.Secure
	if !n.Cfg.Secure && r.IntN(5) == 0 {
		rq.TLS = true
	}
	if P(p.TLSFlipP) {
		rq.TLS = !rq.TLS
	}
	// The method.
	ms := n.Methods()
	rq.Method = "GET"
	if len(ms) > 0 {
		rq.Method = pick(r, ms)
	}
	if P(p.MethodP) {
		switch r.IntN(4) {
		case 0:
			rq.Method = pick(r, stdMethods)
		case 1:
			rq.Method = pick(r, customMethods)
		case 2:
			rq.Method = strings.ToLower(rq.Method)
		default:
			rq.Method = "OPTIONS"
		}
	}
	uri := path
	if query != "" {
		uri += "?" + query
	}
	if bad {
		rq.URL = &url.URL{RawPath: path, Path: path, RawQuery: query}
	} else {
		rq.URI = uri
		if P(p.AbsP) && !strings.Contains(rq.Host, "[") && hostOK(rq.Host) {
			s := "http://"
			if rq.TLS || P(p.AbsTLSP) {
				s = "https://"
			}
			rq.URI = s + rq.Host + uri
		}
		if _, err := url.ParseRequestURI(rq.URI); err != nil {
			// Control characters and the like can't be sent.
			rq.URI = "/"
		}
	}
	if P(p.RelP) && rq.URL == nil {
		if u, err := url.ParseRequestURI(rq.URI); err == nil && len(u.Path) > 1 &&
			u.Path[1] != '/' && (len(u.RawPath) < 2 || u.RawPath[1] != '/') &&
			u.Path != "/*" && u.RawPath != "/*" {
			u.Path = u.Path[1:]
			if u.RawPath != "" {
				u.RawPath = u.RawPath[1:]
			}
			rq.URL = u
		}
	}
	if P(p.OddP) {
		rq.Odd = genOdd(r, rq.Method)
	}
	// The actions.
	rq.Acts = map[string]byte{}
	if P(p.ActP) || P(p.FalseP) || P(p.SilentP) || P(p.ReplP) {
		genActs(r, t, n, rq, p)
	}
	return rq
}

func hostOK(h string) bool {
	for i := 0; i < len(h); i++ {
		if h[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (n *Node) tmplOr() *Tmpl {
	if n.Tmpl == nil || n.Kind == kHost {
		return &Tmpl{Parts: []Part{{Static: "other"}}}
	}
	return n.Tmpl
}

func nearMissHost(r *rand.Rand, h string) string {
	if strings.Contains(h, "[") {
		return pick(r, otherHosts)
	}
	switch r.IntN(6) {
	case 0:
		return h + "x"
	case 1:
		return "x" + h
	case 2:
		return "x." + h
	case 3:
		if len(h) > 1 {
			i := r.IntN(len(h))
			return h[:i] + h[i+1:]
		}
		return h + "y"
	case 4:
		return strings.ToUpper(h)
	default:
		return h + "."
	}
}

// dirty inserts empty and dot segments.
func dirty(r *rand.Rand, segs []string) []string {
	out := append([]string{}, segs...)
	for k := 1 + r.IntN(3); k > 0; k-- {
		i := r.IntN(len(out) + 1)
		var ins []string
		switch r.IntN(5) {
		case 0, 1:
			ins = []string{""}
		case 2:
			ins = []string{"."}
		case 3:
			ins = []string{pick(r, []string{"x", "a%2Fb", "..", "%zz"[:0] + "q"}), ".."}
		default:
			ins = []string{"", ""}
		}
		out = append(out[:i], append(ins, out[i:]...)...)
	}
	return out
}

// labels returns the labels of the nodes on the path of the node.
func labelsOn(t *Tree, n *Node) (mws, hs []string) {
	mws = append(mws, t.Passers...)
	for _, a := range n.Path() {
		mws = append(mws, a.Passers...)
		mws = append(mws, a.ReqMws...)
		var ms []string
		for m := range a.MethMws {
			ms = append(ms, m)
		}
		sortStrings(ms)
		for _, m := range ms {
			mws = append(mws, a.MethMws[m]...)
		}
		ms = ms[:0]
		for _, l := range a.Handlers {
			ms = append(ms, l)
		}
		sortStrings(ms)
		hs = append(hs, ms...)
		if a.NotAllow != "" {
			hs = append(hs, a.NotAllow)
		}
		if a.RedirH != "" {
			hs = append(hs, a.RedirH)
		}
	}
	return
}

func genActs(r *rand.Rand, t *Tree, n *Node, rq *Req, p RProf) {
	mws, hs := labelsOn(t, n)
	if p.FalseP > 0 {
		for _, h := range hs {
			if r.Float64() < p.FalseP {
				rq.Acts[h] = actFalse
			}
		}
	}
	if p.SilentP > 0 {
		for _, h := range hs {
			if r.Float64() < p.SilentP && rq.Acts[h] == 0 {
				rq.Acts[h] = actSilent
			}
		}
	}
	if p.ReplP > 0 && len(mws) > 0 && r.Float64() < p.ReplP {
		if len(n.Methods()) > 0 && r.IntN(3) == 0 {
			rq.Over = pick(r, n.Methods())
		} else {
			rq.Over = pick(r, stdMethods)
		}
		for k := 1 + r.IntN(4); k > 0; k-- {
			rq.Acts[pick(r, mws)] = []byte{actWriter, actRequest, actMethod,
				actGo}[r.IntN(4)]
		}
	}
	if p.ActP > 0 && len(mws) > 0 && (p.ReplP == 0 || r.Float64() < p.ActP) {
		for k := 1 + r.IntN(3); k > 0; k-- {
			rq.Acts[pick(r, mws)] = []byte{actDrop, actAnswer, actFallback}[r.IntN(3)]
		}
	}
}
