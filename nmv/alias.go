package main

import (
	"net/http"
	"net/url"

	nm "github.com/shohruhadham/nanomux"
)

// The callers own what they pass and what they get. So the checks spoil the
// slices after they've passed them, and the results after they've copied them.

var (
	spoiledRes  = nm.NewDormantResource("spoiled")
	spoiledHost = nm.NewDormantHost("http://spoiled")
)

func spoiledMw(nm.Handler) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, _ *nm.Args) bool {
		panic("the middleware that the caller has put in its own slice later")
	}
}

func spoilMws(ms []nm.Middleware) {
	for i := range ms {
		ms[i] = spoiledMw
	}
}

func spoilStrings(ss []string) {
	ss = ss[:cap(ss)]
	for i := range ss {
		ss[i] = "spoiled"
	}
}

func spoilHeader(h http.Header) {
	for _, ss := range h {
		spoilStrings(ss)
	}
}

func spoilValues(vs nm.HostPathValues, names []string) {
	for _, n := range names {
		if vs.Get(n) != "" {
			vs.Set(n, "spoiled")
		}
	}
}

func spoilURL(u *url.URL) {
	if u != nil {
		*u = url.URL{Scheme: "spoiled", Host: "spoiled", Path: "/spoiled"}
	}
}

// kidsOf returns the child resources of the responder.
func kidsOf(o interface{ ChildResources() []*nm.Resource }) []*nm.Resource {
	ks := o.ChildResources()
	if ks == nil {
		return nil
	}
	got := append([]*nm.Resource{}, ks...)
	ks = ks[:cap(ks)]
	for i := range ks {
		ks[i] = spoiledRes
	}
	return got
}

// hostsOf returns the hosts of the router.
func hostsOf(ro *nm.Router) []*nm.Host {
	hs := ro.Hosts()
	if hs == nil {
		return nil
	}
	got := append([]*nm.Host{}, hs...)
	hs = hs[:cap(hs)]
	for i := range hs {
		hs[i] = spoiledHost
	}
	return got
}

// methodsOf returns the methods that the responder allows.
func methodsOf(o interface{ AllowedHTTPMethods() []string }) []string {
	return ownStrings(o.AllowedHTTPMethods())
}

// namesOf returns the value names of the template.
func namesOf(t *nm.Template) []string { return ownStrings(t.ValueNames()) }

func ownStrings(ss []string) []string {
	if ss == nil {
		return nil
	}
	got := append([]string{}, ss...)
	spoilStrings(ss)
	return got
}

func spoilRMws(ms []func(nm.RedirectHandler) nm.RedirectHandler) {
	for i := range ms {
		ms[i] = func(nm.RedirectHandler) nm.RedirectHandler {
			return func(http.ResponseWriter, *http.Request, string, int, *nm.Args) bool {
				panic("the middleware that the caller has put in its own slice later")
			}
		}
	}
}
