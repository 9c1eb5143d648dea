package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// respEv is what a call does to the response of the request.
type respEv struct {
	commit bool  // sends the status line
	status *Term // with this status, if it is said
	body   bool  // sends (a part of) the body
	bytes  *Term // these bytes
	header bool  // reads or changes the response headers
}

func unwrap(t *Term) *Term {
	for t != nil && (t.op == OIface || t.op == OTA) {
		t = t.args[0]
	}
	return t
}

// respEvent recognises the calls that answer a request, whatever library function they go through.
func respEvent(c *CallEv) (ev respEv, ok bool) {
	st := c.st
	switch c.name {
	case "(net/http.ResponseWriter).WriteHeader":
		return respEv{commit: true, status: st.norm(c.arg(1))}, true
	case "(net/http.ResponseWriter).Write":
		return respEv{body: true, bytes: st.norm(c.arg(1))}, true
	case "(net/http.ResponseWriter).Header":
		return respEv{header: true}, true
	}
	for i, a := range c.args {
		a = unwrap(a)
		if a == nil {
			continue
		}
		if isWriter(a) {
			switch {
			case strings.HasPrefix(c.name, "net/http.MaxBytesReader"), strings.HasPrefix(c.name, "net/http.NewResponseController"),
				strings.HasPrefix(c.name, "encoding/json.NewEncoder"), strings.HasPrefix(c.name, "bufio.NewWriter"), strings.HasPrefix(c.name, "compress/gzip.NewWriter"),
				strings.HasPrefix(c.name, zl), strings.HasPrefix(c.name, "(*"+zl), strings.HasPrefix(c.name, "fmt.Sprint"):
				return ev, false
			case c.name == "net/http.Error":
				return respEv{commit: true, status: st.norm(c.arg(2)), body: true, bytes: st.norm(c.arg(1))}, true
			case c.name == "net/http.NotFound":
				return respEv{commit: true, status: tInt(404), body: true}, true
			case c.name == "net/http.Redirect":
				return respEv{commit: true, status: st.norm(c.arg(3)), body: true}, true
			case strings.HasPrefix(c.name, "net/http.Serve"):
				return respEv{commit: true, body: true}, true
			case c.meth == "WriteHeader" && i == 0:
				return respEv{commit: true, status: st.norm(c.arg(1))}, true
			case c.meth == "Flush" && i == 0:
				return respEv{body: true}, true
			case c.meth == "Hijack":
				return respEv{commit: true, body: true}, true
			case c.meth == "Header":
				return respEv{header: true}, true
			}
			b := respEv{body: true}
			if len(c.args) > i+1 {
				b.bytes = st.norm(c.args[i+1])
			}
			return b, true
		}
		// a library writer on top of the response
		if i == 0 && a.op == OCall && len(a.args) > 0 && (strings.Contains(a.str, ".New")) {
			for _, x := range a.args {
				if isWriter(unwrap(x)) {
					switch c.meth {
					case "Encode", "Write", "WriteString", "WriteByte", "Flush", "Close", "ReadFrom":
						return respEv{body: true}, true
					}
				}
			}
		}
	}
	return ev, false
}

func init() {
	checks["C01"] = checkOneResponse
}

// C01: typestate of the response: nothing sent, status sent, body sent.
func checkOneResponse(P *Program, r *Report) {
	r.rule = "typestate over every path of every request handler (calls, deferred calls, goroutines and panics included): the status line is sent " +
		"exactly once, the body at most once and after it, and no path ends, normally or by a panic, with nothing sent"
	runHandlers(P, r, handlerCfg{}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		o.Call = func(c *CallEv) {
			ev, ok := respEvent(c)
			if !ok || ev.header {
				return
			}
			st := c.st
			if ev.commit {
				r.count("status lines checked")
				r.site("status line sites", c.pos())
				if st.ohas("sent") {
					r.violate(st, "second status", c.pos(), "a status line is sent although the response was already answered before on this path (in "+shortName(c.in.Parent().RelString(nil))+")")
				}
				st.otag("sent")
			}
			if ev.body {
				r.count("bodies checked")
				r.site("body sites", c.pos())
				if st.ohas("body") {
					r.violate(st, "second body", c.pos(), "a second body is written on this path (in "+shortName(c.in.Parent().RelString(nil))+")")
				}
				st.otag("sent")
				st.otag("body")
			}
		}
		o.Exit = func(st *State, res []*Term) {
			r.count("handler returns checked")
			if !st.ohas("sent") {
				r.violate(st, "no response", P.pos(fn.Pos()), "the handler "+shortName(fn.RelString(nil))+" can return without having sent a response")
			}
		}
		o.PanicExit = func(st *State) {
			r.violate(st, "panic", P.pos(fn.Pos()), "a panic ("+st.panicV.String()+") can leave the handler "+shortName(fn.RelString(nil)))
		}
		return o
	})
	r.atLeast("status line sites", 2)
	r.atLeast("body sites", 2)
	r.atLeast("handler returns checked", 3)
}
