package main

import (
	"net/http"

	nm "github.com/shohruhadham/nanomux"
)

// The implementations used by the builder. Every value knows the handlers of
// its own responder.
type implBase struct {
	ID string
	H  map[string]nm.Handler
}

func newImplBase(id string) implBase {
	b := implBase{ID: id, H: map[string]nm.Handler{}}
	for _, m := range []string{"GET", "POST", "SHARE", "OPTIONS", "PUT", "!"} {
		b.H[m] = mkHandler(id + "/" + m)
	}
	return b
}

type implGet struct{ implBase }

// HandleGet handles GET.
func (i *implGet) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["GET"](w, r, a)
}

type implGetPost struct{ implBase }

// HandleGet handles GET.
func (i *implGetPost) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["GET"](w, r, a)
}

// HandlePost handles POST.
func (i *implGetPost) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["POST"](w, r, a)
}

type implShare struct{ implBase }

// HandleShare handles SHARE.
func (i implShare) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["SHARE"](w, r, a)
}

// HandleGet handles GET.
func (i implShare) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["GET"](w, r, a)
}

// HandleNotAllowedMethod handles the other methods.
func (i implShare) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["!"](w, r, a)
}

type implOptions struct{ implBase }

// HandleOptions handles OPTIONS.
func (i *implOptions) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["OPTIONS"](w, r, a)
}

// HandlePut handles PUT.
func (i *implOptions) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return i.H["PUT"](w, r, a)
}

// implEmpty has no handlers.
type implEmpty struct{ ID string }

// mkImpl returns an implementation with exactly the handlers of the node.
func mkImpl(n *Node) nm.Impl {
	b := newImplBase(itoa(n.ID))
	_, get := n.Handlers["GET"]
	_, post := n.Handlers["POST"]
	_, share := n.Handlers["SHARE"]
	_, put := n.Handlers["PUT"]
	switch {
	case share:
		return &implShare{b}
	case put:
		return &implOptions{b}
	case post:
		return &implGetPost{b}
	case get:
		return &implGet{b}
	}
	panic("no implementation")
}
