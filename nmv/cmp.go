package main

import (
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
)

// The comparisons return what differs, or an empty string.

func handlerLabels(evs []Ev) []string {
	ls := []string{}
	for _, e := range evs {
		if e.K == 'h' {
			ls = append(ls, e.L)
		}
	}
	return ls
}

// diffPanic tells that serving has panicked.
func diffPanic(o *Obs) string {
	if o.Pan != nil {
		return fmt.Sprintf("panic: %v", o.Pan)
	}
	return ""
}

// diffHandlers compares the handlers that have run.
func diffHandlers(p *Out, o *Obs) string {
	a, b := handlerLabels(p.Ev), handlerLabels(o.Ev)
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("handlers: expected %v, ran %v", a, b)
	}
	return ""
}

// diffStatus compares the status. Redirects are only compared as redirects
// when loose.
func diffStatus(p *Out, o *Obs, loose bool) string {
	if loose && p.Status/100 == 3 && o.Stat/100 == 3 {
		return ""
	}
	if p.Status != o.Stat {
		return fmt.Sprintf("status: expected %d, got %d", p.Status, o.Stat)
	}
	return ""
}

// diffOnce checks that the response is written once.
func diffOnce(p *Out, o *Obs) string {
	if p.Silent {
		if len(o.RW.Codes) != 0 || o.RW.Writes != 0 {
			return fmt.Sprintf("the response has been written although it's "+
				"reported as handled: %v %q", o.RW.Codes, o.RW.Body.String())
		}
		return ""
	}
	if len(o.RW.Codes) != 1 {
		return fmt.Sprintf("the header has been written %d times: %v",
			len(o.RW.Codes), o.RW.Codes)
	}
	if len(p.Answers) == 1 {
		switch a := p.Answers[0]; a.Kind {
		case dHandler, dNotAllow, dMw:
			if got := o.RW.Body.String(); got != a.Label {
				return fmt.Sprintf("body: expected %q, got %q", a.Label, got)
			}
		}
	}
	return ""
}

// allowSet returns the methods of the Allow header.
func allowSet(vs []string) []string {
	ms := []string{}
	for _, v := range vs {
		for _, m := range strings.Split(v, ",") {
			if m = strings.TrimSpace(m); m != "" {
				ms = append(ms, m)
			}
		}
	}
	sort.Strings(ms)
	return ms
}

// diffAllow compares the lists of the allowed methods.
func diffAllow(p *Out, o *Obs) string {
	if p.Allow == nil {
		return ""
	}
	if got := allowSet(o.Hdr["Allow"]); !reflect.DeepEqual(got, p.Allow) {
		return fmt.Sprintf("Allow: expected %v, got %v", p.Allow, got)
	}
	return ""
}

// locParts splits an escaped path into the decoded segments.
func locParts(ep string) (segs []string, slash bool) {
	ep = strings.TrimPrefix(ep, "/")
	if strings.HasSuffix(ep, "/") {
		slash = true
		ep = ep[:len(ep)-1]
	}
	if ep == "" {
		return nil, slash
	}
	for _, s := range strings.Split(ep, "/") {
		d, err := url.PathUnescape(s)
		if err != nil {
			d = s
		}
		segs = append(segs, d)
	}
	return
}

// diffLoc compares the location of a redirect.
func diffLoc(p *Out, o *Obs) string {
	if p.Loc == nil {
		return ""
	}
	ls := o.Hdr["Location"]
	if len(ls) != 1 {
		return fmt.Sprintf("Location: expected %s, got %q", p.Loc, ls)
	}
	return diffURL(p, ls[0])
}

func diffURL(p *Out, loc string) string {
	u, err := url.Parse(loc)
	if err != nil {
		return fmt.Sprintf("Location %q isn't a URL: %v", loc, err)
	}
	if u.Scheme != p.Loc.Scheme {
		return fmt.Sprintf("Location %q: scheme, expected %s", loc, p.Loc)
	}
	if u.Host != p.Loc.Host && u.Host != hexHost(p.Loc.Host) {
		return fmt.Sprintf("Location %q: host, expected %s", loc, p.Loc.Host)
	}
	if q := p.Loc.RawQuery; u.RawQuery != q && u.RawQuery != hexNonASCII(q) {
		return fmt.Sprintf("Location %q: query, expected %q", loc, q)
	}
	if u.Fragment != p.Loc.Fragment {
		return fmt.Sprintf("Location %q: fragment, expected %s", loc, p.Loc)
	}
	pe := rawPathOf(p.Loc)
	oe := rawPathOf(u)
	if p.Unclean {
		pe, _ = cleanPath(pe)
		oe, _ = cleanPath(oe)
	}
	ps, psl := locParts(pe)
	os, osl := locParts(oe)
	if !reflect.DeepEqual(ps, os) || psl != osl {
		return fmt.Sprintf("Location %q: path, expected %q %v, got %q %v", loc, ps,
			psl, os, osl)
	}
	return ""
}

func rawPathOf(u *url.URL) string {
	if u.RawPath != "" {
		return u.RawPath
	}
	return u.EscapedPath()
}

func hexNonASCII(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			fmt.Fprintf(&sb, "%%%x", s[i])
		} else {
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func hexHost(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			fmt.Fprintf(&sb, "%%%X", s[i])
		} else {
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

// What of a snapshot is compared.
const (
	snVals = 1 << iota
	snRem
	snResp // Host and resource.
	snData // Shared data and implementation.
	snAll  = snVals | snRem | snResp | snData
)

func diffSnap(p, o *Snap, what int, exit bool) string {
	if p == nil || o == nil {
		return ""
	}
	if what&snVals != 0 {
		for k, v := range p.Vals {
			if o.Vals[k] != v {
				return fmt.Sprintf("value %q: expected %q, got %q", k, v, o.Vals[k])
			}
		}
		for k, v := range o.Vals {
			if _, ok := p.Vals[k]; !ok {
				if mv, ok := p.Maybe[k]; ok && mv == v {
					continue
				}
				if exit {
					continue // It's what the responders below have matched.
				}
				return fmt.Sprintf("value %q: expected none, got %q", k, v)
			}
		}
	}
	if what&snRem != 0 && !p.Rem.Any {
		segs, slash := locParts(o.RawRem)
		if len(p.Rem.Segs) == 0 {
			if segs != nil {
				return fmt.Sprintf("remaining path: expected none, got %q", o.RawRem)
			}
		} else if !reflect.DeepEqual(segs, p.Rem.Segs) || slash != p.Rem.Slash {
			return fmt.Sprintf("remaining path: expected %q %v, got %q", p.Rem.Segs,
				p.Rem.Slash, o.RawRem)
		}
	}
	if what&snResp != 0 {
		if p.Host != o.Host {
			return fmt.Sprintf("host: expected #%d, got #%d", p.Host, o.Host)
		}
		if p.Res != o.Res {
			return fmt.Sprintf("resource: expected #%d, got #%d", p.Res, o.Res)
		}
	}
	if what&snData != 0 {
		if p.Shared != o.Shared {
			return fmt.Sprintf("shared data: expected %v, got %v", p.Shared, o.Shared)
		}
		if p.Impl != o.Impl {
			return fmt.Sprintf("implementation: expected %v, got %v", p.Impl, o.Impl)
		}
	}
	return ""
}

// diffSnaps compares the snapshots of the events of the kinds. The sequences of
// the events must be the same.
func diffSnaps(p *Out, o *Obs, kinds string, what int) string {
	if len(p.Ev) != len(o.Ev) {
		return ""
	}
	for i, e := range p.Ev {
		g := o.Ev[i]
		if e.K != g.K || e.L != g.L {
			return ""
		}
		if strings.IndexByte(kinds, e.K) < 0 || e.Node < 0 {
			continue
		}
		exit := e.K >= 'A' && e.K <= 'Z'
		if d := diffSnap(e.S, g.S, what, exit); d != "" {
			return fmt.Sprintf("in %c(%s): %s", e.K, e.L, d)
		}
	}
	return ""
}

// diffLost tells that a handler that must have got values hasn't been called.
func diffLost(p *Out, o *Obs) string {
	for _, e := range p.Ev {
		if e.K == 'h' && e.S != nil && len(e.S.Vals) > 0 {
			return diffHandlers(p, o)
		}
	}
	return ""
}

func seqOf(evs []Ev, kinds string, ret bool) []string {
	ss := []string{}
	for _, e := range evs {
		if strings.IndexByte(kinds, e.K) < 0 {
			continue
		}
		s := string(e.K) + "(" + e.L + ")"
		if ret && e.K >= 'A' && e.K <= 'Z' {
			s += fmt.Sprint(e.Ret)
		}
		ss = append(ss, s)
	}
	return ss
}

// diffSeq compares the order of the events.
func diffSeq(p *Out, o *Obs, kinds string, ret bool) string {
	a, b := seqOf(p.Ev, kinds, ret), seqOf(o.Ev, kinds, ret)
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("events: expected %v, observed %v", a, b)
	}
	return ""
}

// diffExtra compares what the handlers observe of their requests and the writers
// that the answer has gone through.
func diffExtra(p *Out, o *Obs) string {
	if len(p.Ev) != len(o.Ev) {
		return ""
	}
	for i, e := range p.Ev {
		x, ok := e.W.(hx)
		y, ok2 := o.Ev[i].W.(hx)
		if !ok || !ok2 {
			continue
		}
		if x.R != y.R || x.M != y.M {
			return fmt.Sprintf("in h(%s): expected the request %s %s, got %s %s",
				e.L, x.M, x.R, y.M, y.R)
		}
		if x.Args >= 0 && x.Args != y.Args {
			return fmt.Sprintf("in h(%s): the request has arguments: %d, expected %d",
				e.L, y.Args, x.Args)
		}
	}
	if p.Silent {
		return ""
	}
	if a, b := fmt.Sprint(p.Tags), fmt.Sprint(o.Hdr["X-W"]); a != b {
		return fmt.Sprintf("the answer went through %s, expected %s", b, a)
	}
	return ""
}

// first returns the first non-empty difference.
func first(ds ...string) string {
	for _, d := range ds {
		if d != "" {
			return d
		}
	}
	return ""
}
