package main

import (
	"fmt"
	"net/url"
	"strings"
)

// only tells that the tree is used without what isn't the property's matter.
func bare(p *Prof) {
	p.SecureP, p.TSlashP, p.StrictP, p.LenientTSP, p.LenientUCP = 0, 0, 0, 0, 0
}

func flavour(c *Case, p *Prof) {
	switch c.IntN(6) {
	case 0:
		p.DeepP, p.WideP = 0.9, 0
	case 1:
		p.DeepP, p.WideP = 0, 0.95
	case 2:
		p.DeepP, p.WideP = 0.5, 0.5
		p.Static, p.Pattern, p.Multi, p.Wild = 2, 5, 5, 2
	case 3:
		p.Hosts = 8
		p.RootP = 0.5
	case 4:
		p.Static, p.Pattern, p.Multi, p.Wild = 1, 2, 2, 4
		p.DeepP = 0.4
	}
}

func init() {
	register("C01", "random trees (static, pattern, multi-segment and wildcard "+
		"templates, hosts, deep chains, wide siblings) built through random API "+
		"routes; requests aimed at random nodes and their near misses; every "+
		"request is non-trivial; distinct by tree and request",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffHandlers(p, o), diffStatus(p, o, true))
			}
			run.routed(&routed{
				name: "bare", quick: 5000, deep: 150000, reqs: 40,
				prof: func(c *Case, p *Prof) {
					bare(p)
					p.SubtreeP = 0.15
					flavour(c, p)
				},
				req: func(c *Case, p *RProf) {
					p.MethodP, p.UncleanP, p.MixP, p.RelP = 0.05, 0.02, 0.1, 0.03
					p.NearP, p.ExtraP, p.HostP = 0.45, 0.35, 0.2
				},
				cmp: cmp,
			})
			run.routed(&routed{
				name: "full", quick: 3000, deep: 80000, reqs: 40,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.PasserP, p.ReqMwP = 0.1, 0.1
				},
				cmp: cmp,
			})
			run.Stage("overlap", scale(3000, 60000), overlapCase)
			run.Stage("hosts", scale(2500, 50000), hostsCase)
		},
		"net/http parses the request line and the headers; the tree isn't "+
			"changed while it serves")

	register("C02", "as C01 with more dynamic segments, unusual encodings and "+
		"hard values; non-trivial: a handler ran with at least one value",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffSnaps(p, o, "hpqmr", snVals), diffLost(p, o))
			}
			sig := func(t *Tree, rq *Req, p *Out) bool {
				for _, e := range p.Ev {
					if e.S != nil && len(e.S.Vals) > 0 {
						return true
					}
				}
				return false
			}
			run.routed(&routed{
				name: "values", quick: 5000, deep: 150000, reqs: 40, names: true,
				prof: func(c *Case, p *Prof) {
					bare(p)
					p.Static, p.Pattern, p.Multi, p.Wild = 1, 4, 5, 5
					flavour(c, p)
					p.PasserP, p.ReqMwP, p.MethMwP = 0.15, 0.1, 0.1
				},
				req: func(c *Case, p *RProf) {
					p.EncP, p.MethodP, p.NearP = 0.6, 0.05, 0.4
					p.UncleanP, p.DotSegP = 0.04, 0.06
				},
				cmp: cmp, sig: sig,
			})
			run.Stage("overlap", scale(2000, 40000), overlapCase)
		})

	register("C03", "trees with every policy, with middlewares and handlers that "+
		"pass, drop, answer, fall back, return false or write nothing; "+
		"non-trivial: the answer isn't the plain one of a method handler",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				if len(p.Answers) != 1 {
					return fmt.Sprintf("the model has %d answers", len(p.Answers))
				}
				return first(diffOnce(p, o), diffStatus(p, o, true),
					diffHandlers(p, o))
			}
			full := func(c *Case, p *Prof) {
				flavour(c, p)
				p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.2, 0.2, 0.2, 0.3
				p.RedirP, p.RedirAny, p.PermCodeP, p.RedirHP = 0.06, 0.4, 0.1, 0.1
				p.SubtreeP, p.NotAllowP = 0.3, 0.2
			}
			run.routed(&routed{
				name: "answers", quick: 6000, deep: 150000, reqs: 40, prof: full,
				req: func(c *Case, p *RProf) {
					p.FalseP, p.SilentP, p.ActP = 0.15, 0.15, 0.35
					p.BadP, p.UncleanP = 0.04, 0.1
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					return p.Kind() != dHandler || len(rq.Acts) > 0
				},
			})
		})

	register("C05", "trees in which many responders are secure or redirect "+
		"insecure requests; every path is requested with and without TLS; "+
		"non-trivial: a secure responder is on the way or answers",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				if d := first(diffHandlers(p, o), diffStatus(p, o, false),
					diffLoc(p, o)); d != "" {
					return d
				}
				// What doesn't depend on the model: no handler of a secure
				// responder runs without TLS.
				for _, e := range o.Ev {
					if e.K == 'h' && t.Nodes[e.Node].Cfg.Secure && !rq.TLS {
						return fmt.Sprintf("the secure #%d handled a plain request",
							e.Node)
					}
				}
				return ""
			}
			run.routed(&routed{
				name: "secure", quick: 6000, deep: 150000, reqs: 40,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.SecureP, p.RedirInsecP = 0.45, 0.5
					p.TSlashP, p.LenientUCP, p.SubtreeP = 0.15, 0.1, 0.25
					p.RedirP, p.RedirAny = 0.06, 0.3
				},
				req: func(c *Case, p *RProf) {
					p.TLSFlipP, p.MethodP = 0.5, 0.1
					p.AbsP, p.AbsTLSP = 0.15, 0.3
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					for _, id := range p.Reached {
						if t.Nodes[id].Cfg.Secure {
							return true
						}
					}
					return false
				},
			})
		})

	register("C06", "trees in which the responders differ in the trailing slash "+
		"and its policy, subtree handlers included; the slash of the request is "+
		"toggled; non-trivial: the policy has to be applied",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffHandlers(p, o), diffStatus(p, o, false),
					diffLoc(p, o))
			}
			run.routed(&routed{
				name: "slash", quick: 6000, deep: 150000, reqs: 40,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.TSlashP, p.StrictP, p.LenientTSP = 0.5, 0.2, 0.2
					p.SecureP, p.LenientUCP, p.SubtreeP = 0.08, 0.15, 0.35
					p.RedirP = 0.05
				},
				req: func(c *Case, p *RProf) {
					p.SlashP, p.Exact, p.NearP, p.MethodP = 0.5, 0.15, 0.15, 0.1
					p.UncleanP = 0.15
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					n := p.Node()
					return n >= 0 && t.Nodes[n].Kind != kRoot
				},
			})
		})

	register("C07", "requests with empty and dot segments, toggled slashes and "+
		"schemes on trees with every policy; every canonical redirect is "+
		"followed; non-trivial: a canonical redirect or an unclean path",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffHandlers(p, o), diffStatus(p, o, false),
					diffLoc(p, o), diffSnaps(p, o, "hr", snVals))
			}
			run.routed(&routed{
				name: "clean", quick: 6000, deep: 150000, reqs: 40, names: true,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.TSlashP, p.StrictP, p.LenientTSP = 0.35, 0.08, 0.15
					p.SecureP, p.RedirInsecP, p.LenientUCP = 0.25, 0.8, 0.25
					p.SubtreeP, p.PermCodeP = 0.3, 0.2
					p.RedirHP = 0.05
				},
				req: func(c *Case, p *RProf) {
					p.UncleanP, p.Exact, p.SlashP, p.TLSFlipP = 0.6, 0.1, 0.3, 0.35
					p.EncP, p.MethodP, p.QueryP, p.AbsP = 0.5, 0.15, 0.5, 0.1
					p.NearP = 0.2
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					return p.Kind() == dCanonical || p.PathUnclean
				},
				after: follow,
			})
		})

	register("C08", "trees with responders that redirect plain or any requests "+
		"to absolute URLs and paths with and without a trailing slash; every "+
		"request is repeated; non-trivial: a configured redirect",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffSeq(p, o, "pqmPQMhr", true),
					diffStatus(p, o, false), diffLoc(p, o), diffRedirH(p, o),
					diffJoint(p, o))
			}
			run.routed(&routed{
				name: "redirects", quick: 6000, deep: 150000, reqs: 40,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.RedirP, p.RedirAny = 0.35, 0.4
					p.SubtreeP, p.RedirHP, p.PasserP = 0.35, 0.2, 0.1
					p.SecureP, p.TSlashP = 0.1, 0.25
				},
				req: func(c *Case, p *RProf) {
					p.ExtraP, p.Exact, p.EncP = 0.5, 0.25, 0.4
					p.UncleanP = 0.12
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					return p.Kind() == dRedirect || p.Kind() == dAny
				},
				after: func(c *Case, b *Built, rq *Req, p *Out, o *Obs) {
					if p.Kind() != dRedirect && p.Kind() != dAny {
						return
					}
					o2 := serve(b, b.Router, rq, nil)
					if d := diffObs(o, o2, false); d != "" {
						report(c, rq, p, o2, "the second time: "+d)
					}
					c.Count("repeated redirects")
				},
			})
		})

	register("C09", "trees with many subtree handlers on all levels and "+
		"responders that match without handling; non-trivial: a subtree handler "+
		"is matched above the end of the path",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffHandlers(p, o), diffStatus(p, o, true),
					diffSnaps(p, o, "hqmpr", snRem|snResp), diffRemForm(t, p, o))
			}
			run.routed(&routed{
				name: "subtree", quick: 6000, deep: 150000, reqs: 40, names: true,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.SubtreeP, p.HandlerP = 0.45, 0.6
					p.SecureP, p.TSlashP, p.LenientUCP = 0.08, 0.2, 0.2
					p.PasserP, p.ReqMwP, p.MethMwP = 0.15, 0.1, 0.1
					p.RedirHP, p.RedirP = 0.05, 0.03
				},
				req: func(c *Case, p *RProf) {
					p.ExtraP, p.Exact, p.NearP, p.EncP = 0.6, 0.1, 0.4, 0.4
					p.MethodP, p.FalseP, p.ActP = 0.08, 0.05, 0.08
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					for i, id := range p.Reached {
						if t.Nodes[id].Cfg.Subtree && i < len(p.Reached) {
							return true
						}
					}
					return false
				},
			})
		})

	register("C10", "trees with up to three middlewares of each kind on every "+
		"responder and the router, wrapped in one or several calls; non-trivial: "+
		"at least two middlewares have to run",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffSeq(p, o, "pqmPQMh", true), diffChanged(o))
			}
			run.routed(&routed{
				name: "order", quick: 6000, deep: 150000, reqs: 40,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.5, 0.5, 0.5, 0.6
					p.NotAllowP, p.SubtreeP = 0.25, 0.3
					p.RedirP, p.RedirAny = 0.05, 0.4
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool { return len(p.Ev) > 3 },
			})
		})

	register("C12", "trees with middlewares of every kind of which some drop, "+
		"answer or fall back; the next request of the same tree is checked too; "+
		"non-trivial: a middleware stops the request or answers",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffSeq(p, o, "pqmPQMh", true),
					diffStatus(p, o, true), diffOnce(p, o),
					diffSnaps(p, o, "h", snVals|snResp))
			}
			run.routed(&routed{
				name: "stop", quick: 6000, deep: 150000, reqs: 40, names: true,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.PasserP, p.ReqMwP, p.MethMwP, p.RouterMwP = 0.4, 0.35, 0.35, 0.4
					p.SubtreeP, p.NotAllowP = 0.45, 0.2
					p.SecureP, p.TSlashP = 0.05, 0.1
				},
				req: func(c *Case, p *RProf) {
					p.ActP, p.FalseP = 0.7, 0.06
					p.ExtraP, p.NearP = 0.4, 0.2
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool {
					for _, e := range p.Ev {
						if rq.Acts[e.L] != 0 && e.K != 'h' {
							return true
						}
					}
					return false
				},
			})
		})

	register("C25", "trees in which the responders have shared data, and "+
		"implementations; every handler and middleware observes its arguments "+
		"on entry and on exit; non-trivial: more than one observation",
		func(run *Run) {
			cmp := func(c *Case, t *Tree, rq *Req, p *Out, o *Obs) string {
				return first(diffSnaps(p, o, "pqmPQMhr", snResp|snData),
					diffSeq(p, o, "pqmPQMhr", false))
			}
			run.routed(&routed{
				name: "data", quick: 6000, deep: 150000, reqs: 40, names: true,
				prof: func(c *Case, p *Prof) {
					flavour(c, p)
					p.PasserP, p.ReqMwP, p.MethMwP = 0.5, 0.25, 0.25
					p.SharedP, p.ImplP, p.SubtreeP = 0.7, 0.5, 0.45
					p.RedirHP = 0.1
				},
				req: func(c *Case, p *RProf) {
					p.ExtraP, p.NearP, p.FalseP, p.ActP = 0.4, 0.25, 0.08, 0.2
				},
				cmp: cmp,
				sig: func(t *Tree, rq *Req, p *Out) bool { return len(p.Ev) > 1 },
			})
			run.Stage("reset", scale(1500, 30000), resetDataCase)
		})
}

// follow follows a canonical redirect: the next answer mustn't be a canonical
// redirect, and must come from the same responder with the same values.
func follow(c *Case, b *Built, rq *Req, p *Out, o *Obs) {
	if p.Kind() != dCanonical || p.Loc == nil {
		return
	}
	loc := o.Hdr.Get("Location")
	u, err := url.Parse(loc)
	if err != nil {
		report(c, rq, p, o, fmt.Sprintf("Location %q: %v", loc, err))
	}
	rq2 := &Req{Method: rq.Method, TLS: u.Scheme == "https", Host: u.Host,
		Acts: rq.Acts, WantNode: p.Node()}
	rq2.URI = u.RequestURI()
	p2 := predict(b.T, rq2)
	o2 := serve(b, b.Router, rq2, b.T.AllNames())
	c.Count("followed redirects")
	n := b.T.Nodes[p.Node()]
	if d := first(diffPanic(o2), diffHandlers(p2, o2), diffStatus(p2, o2, false),
		diffSnaps(p2, o2, "h", snVals)); d != "" {
		report(c, rq2, p2, o2, "after the redirect: "+d)
	}
	if p2.Node() != n.ID {
		report(c, rq2, p2, o2, fmt.Sprintf(
			"the redirect of #%d leads to #%d", n.ID, p2.Node()))
	}
	if p2.Kind() == dCanonical {
		report(c, rq2, p2, o2, "the redirect leads to another canonical redirect")
	}
}

// diffRedirH compares the arguments of the redirect handler.
func diffRedirH(p *Out, o *Obs) string {
	for i, e := range p.Ev {
		if e.K != 'r' {
			continue
		}
		if i >= len(o.Ev) || o.Ev[i].K != 'r' {
			return "the redirect handler hasn't been called"
		}
		if o.Ev[i].Code != e.Code {
			return fmt.Sprintf("the redirect handler got the code %d, expected %d",
				o.Ev[i].Code, e.Code)
		}
		if p.Loc != nil {
			if d := diffURL(p, o.Ev[i].URL); d != "" {
				return "the redirect handler got " + d
			}
		}
	}
	return ""
}

// diffJoint checks that a redirect handler gets the target with one slash at
// the joint.
func diffJoint(p *Out, o *Obs) string {
	if p.Kind() != dRedirect && p.Kind() != dAny {
		return ""
	}
	for _, e := range o.Ev {
		if e.K == 'r' {
			u := e.URL
			if i := strings.Index(u, "://"); i >= 0 {
				u = u[i+3:]
			}
			if strings.Contains(u, "//") && !p.PathUnclean {
				return fmt.Sprintf("two slashes in the target %q", e.URL)
			}
		}
	}
	return ""
}

// diffRemForm checks that the remaining path is escaped: it can be unescaped
// and what it's unescaped to is what remains of the decoded path.
func diffRemForm(t *Tree, p *Out, o *Obs) string {
	for i, e := range o.Ev {
		if e.S == nil || i >= len(p.Ev) || p.Ev[i].S == nil || p.Ev[i].S.Rem.Any {
			continue
		}
		if _, err := url.PathUnescape(e.S.RawRem); err != nil {
			return fmt.Sprintf("the remaining path %q isn't escaped", e.S.RawRem)
		}
		x := p.Ev[i].S
		if len(x.Rem.Segs) == 0 {
			if e.S.RawRem != "" {
				return fmt.Sprintf("nothing remains, but the remaining path is %q",
					e.S.RawRem)
			}
			continue
		}
		if e.S.RawRem == "" {
			continue // It's reported by diffSnaps.
		}
		// A template with a trailing slash already has the slash.
		slash := true
		if x.Res >= 0 {
			n := t.Nodes[x.Res]
			slash = n.Kind == kRoot || !n.Cfg.TSlash
		} else if x.Host >= 0 && t.Nodes[x.Host].Cfg.TSlash {
			continue // It isn't decided.
		}
		if (e.S.RawRem[0] == '/') != slash {
			return fmt.Sprintf("the remaining path of %c(%s) is %q, a leading slash: %v",
				e.K, e.L, e.S.RawRem, slash)
		}
	}
	return ""
}

// diffObs compares two observations of the same request.
func diffObs(a, b *Obs, snaps bool) string {
	if diffChanged(a) == "" && diffChanged(b) != "" {
		return diffChanged(b)
	}
	if x, y := evString(a.Ev, snaps), evString(b.Ev, snaps); x != y {
		return fmt.Sprintf("events: %s, then %s", x, y)
	}
	if x, y := fmt.Sprint(a.RW.Codes), fmt.Sprint(b.RW.Codes); x != y {
		return fmt.Sprintf("status: %s, then %s", x, y)
	}
	if x, y := headerString(a), headerString(b); x != y {
		return fmt.Sprintf("header: %s, then %s", x, y)
	}
	if x, y := a.RW.Body.String(), b.RW.Body.String(); x != y {
		return fmt.Sprintf("body: %q, then %q", x, y)
	}
	if x, y := fmt.Sprint(a.Pan), fmt.Sprint(b.Pan); x != y {
		return fmt.Sprintf("panic: %s, then %s", x, y)
	}
	return ""
}

func headerString(o *Obs) string {
	var ks []string
	for k := range o.Hdr {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var sb strings.Builder
	for _, k := range ks {
		vs := o.Hdr[k]
		if k == "Allow" {
			vs = allowSet(vs)
		}
		fmt.Fprintf(&sb, "%s=%q;", k, vs)
	}
	return sb.String()
}
