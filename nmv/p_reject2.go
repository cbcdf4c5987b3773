package main

import (
	"fmt"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// --------------------------------------------------
// Constructors

type ctor struct {
	name    string
	host    bool
	impl    bool // An Impl is needed.
	config  bool
	byRo    bool // A method of the router.
	dormant bool
}

var ctors = []ctor{
	{name: "NewDormantHost", host: true, dormant: true},
	{name: "NewDormantHostUsingConfig", host: true, config: true, dormant: true},
	{name: "NewHost", host: true, impl: true},
	{name: "NewHostUsingConfig", host: true, impl: true, config: true},
	{name: "NewDormantResource", dormant: true},
	{name: "NewDormantResourceUsingConfig", config: true, dormant: true},
	{name: "NewResource", impl: true},
	{name: "NewResourceUsingConfig", impl: true, config: true},
	{name: "Router.Host", host: true, byRo: true},
	{name: "Router.HostUsingConfig", host: true, config: true, byRo: true},
}

func (k ctor) call(ro *nm.Router, u string, impl nm.Impl, cfg nm.Config) Rsp {
	switch k.name {
	case "NewDormantHost":
		return nm.NewDormantHost(u)
	case "NewDormantHostUsingConfig":
		return nm.NewDormantHostUsingConfig(u, cfg)
	case "NewHost":
		return nm.NewHost(u, impl)
	case "NewHostUsingConfig":
		return nm.NewHostUsingConfig(u, impl, cfg)
	case "NewDormantResource":
		return nm.NewDormantResource(u)
	case "NewDormantResourceUsingConfig":
		return nm.NewDormantResourceUsingConfig(u, cfg)
	case "NewResource":
		return nm.NewResource(u, impl)
	case "NewResourceUsingConfig":
		return nm.NewResourceUsingConfig(u, impl, cfg)
	case "Router.Host":
		return ro.Host(u)
	}
	return ro.HostUsingConfig(u, cfg)
}

// ctorCase calls the constructors with legal arguments and with the arguments
// that have exactly one thing wrong.
func ctorCase(c *Case) {
	x := &rejecter{c: c}
	x.fresh = c.IntN(5)
	for i := 0; i < 12; i++ {
		k := ctors[c.IntN(len(ctors))]
		secure, tslash := c.P(0.3), c.P(0.3)
		bad := ""
		cfg := nm.Config{}
		if k.config {
			cfg = nm.Config{SubtreeHandler: c.P(0.3), StrictOnTrailingSlash: c.P(0.2),
				LenientOnTrailingSlash: c.P(0.2), LenientOnUncleanPath: c.P(0.2),
				HandlesThePathAsIs: c.P(0.1), Secure: c.P(0.3), HasTrailingSlash: c.P(0.3),
				RedirectsInsecureRequest: secure && c.P(0.4)}
		}
		// The template itself.
		w := x.word()
		seg := ""
		switch c.IntN(4) {
		case 0:
			seg = w
		case 1:
			seg = "{" + w + ":q}"
		case 2:
			seg = w + "{" + w + "a:q}-{" + w + "b}"
		default:
			seg = "$" + w + ":" + w + "x"
		}
		if k.host {
			seg += ".example"
		} else if c.P(0.2) {
			seg = "{" + x.word() + "}"
		}
		impl := nm.Impl(mkImpl(badNode()))
		kinds := []string{"template"}
		if k.impl {
			kinds = append(kinds, "impl")
		}
		if k.config {
			kinds = append(kinds, "insecure")
		}
		kinds = append(kinds, "empty", "scheme")
		if k.host {
			kinds = append(kinds, "wildcard", "path")
		}
		if c.P(0.6) {
			bad = pick(c.Rand, kinds)
		}
		switch bad {
		case "impl":
			impl = nil
		case "template":
			seg = pick(c.Rand, invalidTmpls)
		case "insecure":
			secure = false
			cfg.RedirectsInsecureRequest = true
		case "wildcard":
			w := x.word()
			seg = pick(c.Rand, []string{"{" + w + "}", "$" + w + ":{" + w + "v}"})
		}
		u := ""
		if k.host {
			if secure {
				u = "https://"
			} else if k.byRo || c.P(0.6) {
				u = "http://"
			}
			u += seg
			if bad == "path" {
				u += pick(c.Rand, []string{"/a", "//", "/a/", "/{" + x.word() + "}", "/$a:b"})
			} else if tslash {
				u += "/"
			}
		} else {
			pre := ""
			for c.P(0.3) {
				pre += "/" + x.good()
			}
			switch {
			case pre != "" && c.P(0.5):
				u = "http://" + x.word() + ".example" + pre + "/" + seg
				if secure {
					u = "https" + u[4:]
				}
			case secure:
				u = "https:///" + strings.TrimPrefix(pre+"/"+seg, "/")
			case c.P(0.3):
				u = "http:///" + strings.TrimPrefix(pre+"/"+seg, "/")
			default:
				u = pre + "/" + seg
				if c.P(0.4) {
					u = u[1:]
				}
			}
			if tslash {
				u += "/"
			}
		}
		switch bad {
		case "empty":
			u = ""
		case "scheme":
			u = "http://"
			if secure {
				u = "https://"
			}
		}
		how := fmt.Sprintf("%s(%q), impl %v, config %+v", k.name, u, impl != nil, cfg)
		ro := nm.NewRouter()
		var o Rsp
		err := panics(func() { o = k.call(ro, u, impl, cfg) })
		c.EvalHash(hash64(k.name+bad) ^ hash64(seg)*31)
		if bad != "" {
			c.Count("rejected construction: " + bad)
			if err == nil {
				c.Fail("%s is accepted (%s)", how, bad)
			}
			if s := fmt.Sprint(err); strings.Contains(s, "runtime error") {
				c.Fail("%s: %s", how, s)
			}
			if len(hostsOf(ro)) != 0 {
				c.Fail("after the rejected %s the router has a host", how)
			}
			continue
		}
		c.Count("constructed: " + k.name)
		if err != nil {
			c.Fail("%s is rejected: %v", how, err)
		}
		want := cfgFlags(cfg)
		want.Secure, want.TSlash = secure, tslash
		if k.byRo {
			want.Secure = secure || cfg.Secure || cfg.RedirectsInsecureRequest
			want.TSlash = tslash || cfg.HasTrailingSlash
		}
		if got := cfgOf(o); got != want {
			c.Fail("%s: the configuration is %+v, not %+v", how, got, want)
		}
		if q := nm.Parse(seg); o.Template().SimilarityWith(q) != nm.TheSame {
			c.Fail("%s: the template is %q, not %q", how, o.Template(), q)
		}
		if (o.Implementation() != nil) != k.impl {
			c.Fail("%s: the implementation is %v", how, o.Implementation())
		}
		if n := len(methodsOf(o)); n > 0 != k.impl {
			c.Fail("%s: the allowed methods are %v", how, methodsOf(o))
		}
	}
}
