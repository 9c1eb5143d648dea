package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkReplay }

func isNewRequest(name string) bool {
	return name == "net/http.NewRequestWithContext" || name == "net/http.NewRequest"
}

// methodTerm: the method of the request, or what it is known to equal
func methodTerm(st *State, t *Term) bool {
	if _, ok := isMethod(t); ok {
		return true
	}
	if t.op != OConst {
		return false
	}
	for _, fe := range st.facts {
		if _, ok := isMethod(fe.t); ok && fe.f.eq == t {
			return true
		}
	}
	return false
}

// downstreamURI: does the value contain the request URI that came in?
func downstreamURI(t *Term) bool {
	return t.contains(func(x *Term) bool {
		if reqField(x, "RequestURI") {
			return true
		}
		if isCall(x, "(*net/url.URL).RequestURI", "(*net/url.URL).String", "(net/url.URL).RequestURI") {
			return x.contains(func(y *Term) bool { return reqField(y, "URL") })
		}
		return false
	})
}

// fromResources: does the value come from the configured upstreams?
func fromResources(t *Term) bool {
	return t.contains(func(x *Term) bool {
		_, ok := isFieldOf(x, "Resources")
		return ok
	})
}

func requestBytes(t *Term) bool { return isCall(t, "readall") && fromRequestBody(t.args[0]) }

func readerMaker(name string) bool {
	switch name {
	case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
		return true
	}
	return false
}

// C10: what every upstream attempt is sent with.
func checkReplay(P *Program, r *Report) {
	r.rule = "at every place where the request of an attempt is built, on every path and for every attempt: the method is that of the request; the URI is made from a configured upstream and the URI of the request, " +
		"and is the same for every attempt; the body is a reader made for this attempt over all bytes read from the request body, or none where that body is known to be empty; " +
		"neither is replaced later; when it is sent, all forwardable headers have been copied to it and X-Request-Id has one value, the id that the response carries"
	// three passes, each following only what it needs
	replayURI(P, r)
	replayBody(P, r)
	replayHeaders(P, r)
	r.atLeast("URIs checked", 2)
	r.atLeast("methods and bodies checked", 2)
	r.atLeast("upstream calls checked", 2)
	r.atLeast("header copy steps checked "+dirWord("req"), 1)
	r.atLeast("ids compared", 1)
}

// requestArgs: the positions of method, URI and body
func requestArgs(name string) (m, u, b int) {
	if strings.HasSuffix(name, "WithContext") {
		return 1, 2, 3
	}
	return 0, 1, 2
}

func inFn(in ssa.Instruction) string { return " (in " + shortName(in.Parent().RelString(nil)) + ")" }

func replayURI(P *Program, r *Report) {
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		if isNewRequest(name) {
			_, u, _ := requestArgs(name)
			return critArg0 + critMode(u)
		}
		return critNone
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		o.Call = func(c *CallEv) {
			st := c.st
			if e, ok := respEvent(c); ok && !e.header {
				st.dead = true
				return
			}
			if !isNewRequest(c.name) {
				return
			}
			r.count("URIs checked")
			r.site("attempt sites", c.pos())
			_, i, _ := requestArgs(c.name)
			u := st.norm(c.arg(i))
			bad := func(msg string) { r.violate(st, "uri", c.pos(), msg+inFn(c.in)) }
			if !downstreamURI(u) {
				bad("an attempt is made with the URI " + u.String() + ", which is not made from the URI of the request")
			}
			if !fromResources(u) {
				bad("an attempt is made with the URI " + u.String() + ", which is not made from a configured upstream")
			}
			if l := one(st, "uri"); l == nil {
				st.oset("uri", u)
			} else {
				if l != u {
					bad("a further attempt is made with another URI (" + u.String() + " after " + l.String() + ")")
				}
				st.dead = true
			}
		}
		return o
	})
}

func replayBody(P *Program, r *Report) {
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		if isNewRequest(name) {
			return critArgs
		}
		if readerMaker(name) {
			return critDeep
		}
		switch name {
		case "io.LimitReader", "net/http.MaxBytesReader", "io.ReadAll", "io/ioutil.ReadAll", "bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader", "io.NopCloser", "io/ioutil.NopCloser":
			return critArgs
		}
		if x, ok := in.(*ssa.Store); ok {
			// what is kept of the body, also where it is read through a copy of the request
			if _, ok := x.Addr.(*ssa.FieldAddr); ok && isBytes(x.Val.Type()) {
				return critArgs
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "net/http.Request") {
				return critArgs
			}
		}
		return critNone
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackBody: true}
		o.Call = func(c *CallEv) {
			st := c.st
			if e, ok := respEvent(c); ok && !e.header {
				st.dead = true
				return
			}
			if !isNewRequest(c.name) {
				return
			}
			r.count("methods and bodies checked")
			i, _, j := requestArgs(c.name)
			m, b := st.norm(c.arg(i)), unwrap(st.norm(c.arg(j)))
			bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+inFn(c.in)) }
			if !methodTerm(st, m) {
				bad("method", "an attempt is made with the method "+m.String()+" instead of that of the request")
			}
			f := one(st, "fresh")
			switch {
			case b.op == ONil || isGlobal(b, "NoBody") || b.op == OStruct:
				if !st.ohas("empty") {
					bad("body", "an attempt is made without a body although that of the request is not known to be empty")
				}
			case !requestBytes(st.content(b)):
				bad("body", "an attempt is made with the body "+st.content(b).String()+" instead of all bytes of the body of the request")
			case f == nil:
				bad("body", "an attempt is made with a body reader that was not made for it, and may have been read before")
			}
			st.odel("fresh")
			st.odel("nobody")
			if st.osetInt("n", st.oint("n")+1); st.oint("n") >= 2 {
				st.dead = true
			}
		}
		o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
			// keep what has the body apart from what has not
			if v != nil && requestBytes(unwrap(st.norm(v))) {
				st.otag("stored")
			}
			if p.op != OFieldAddr || !isCall(p.args[0], "httpreq") {
				return
			}
			switch p.str {
			case "Body", "Method", "URL", "Header", "GetBody", "ContentLength", "TransferEncoding":
				r.violate(st, "replaced", P.pos(instrPos(in)), "the "+p.str+" of an upstream request is replaced after it was built")
			}
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if readerMaker(c.name) {
				st.oset("fresh", tInt(1))
			}
		}
		o.Load = func(st *State, p, v *Term, in ssa.Instruction) {
			if p.op == OGlobal && strings.HasSuffix(p.str, ".NoBody") {
				st.otag("nobody")
			}
		}
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			switch {
			case reqField(t, "ContentLength"):
				if lo, hi := st.interval(t); lo == 0 && hi == 0 {
					tag("empty")
				}
			case t.op == OLen && requestBytes(t.args[0]):
				if _, hi := st.interval(t); hi <= 0 {
					tag("empty")
				}
			case reqField(t, "Body") && f.nilness == 1:
				tag("empty")
			}
		}}
		ev.hook(o)
		return o
	})
}

func replayHeaders(P *Program, r *Report) {
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		if newId(name) {
			return critExec
		}
		if ci, ok := in.(ssa.CallInstruction); ok && isDoSig(name, ci.Common().Signature()) {
			return critArgs
		}
		return critHeaders(in, name)
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		h := &copies{P: P, r: r, req: true, own: []string{hReqId}, buf: func(st *State, rule, pos, msg string) { r.violate(st, rule, pos, msg) }}
		// the values of X-Request-Id on both sides
		side := func(m *Term) string {
			switch {
			case outHeaders(m):
				return "rid:out"
			case respHeaders(m):
				return "rid:resp"
			}
			return ""
		}
		setId := func(st *State, m, k, v *Term, add bool) {
			s, ok := strConst(k)
			w := side(m)
			if !ok || w == "" || canonStr(s) != hReqId || st.ohas("sent") {
				return
			}
			l := st.oget(w)
			if !add {
				l = nil
			}
			if v != nil && len(l) < 3 {
				l = append(append([]*Term(nil), l...), v)
			}
			if l == nil {
				st.odel(w)
			} else {
				st.oset(w, l...)
			}
		}
		o.MapSet = func(st *State, m, k, v *Term, in ssa.Instruction) {
			if side(m) == "" {
				return
			}
			if v == nil {
				setId(st, m, canonKey(k), nil, false)
				return
			}
			if v = st.norm(v); v.op == OSliceV && v.m == 1 {
				v = st.load(tIndexAddr(v.args[0], tInt(v.n)), nil)
			}
			setId(st, m, k, v, false)
		}
		o.Call = func(c *CallEv) {
			st := c.st
			where := inFn(c.in)
			if m, k, v, meth, ok := headerCall(c); ok {
				setId(st, m, k, v, meth == "Add")
				return
			}
			if e, ok := respEvent(c); ok && !e.header {
				if out, resp := one(st, "rid:out"), st.oget("rid:resp"); out != nil && !st.ohas("sent") {
					r.count("ids compared")
					if len(resp) != 1 || resp[0] != out {
						got := "none"
						if len(resp) > 0 {
							got = resp[0].String()
						}
						r.violate(st, "request id", c.pos(), "the upstream was sent the X-Request-Id "+out.String()+", the response carries "+got+where)
					}
				}
				// nothing is sent upstream after this
				st.dead = true
				return
			}
			if c.isDo() {
				r.count("upstream calls checked")
				r.site("upstream call sites", c.pos())
				h.checkDo(st, c)
				own := false
				for _, a := range c.args {
					if a = unwrap(st.norm(a)); isCall(a, "httpreq") {
						own = true
					}
				}
				v := st.oget("rid:out")
				switch {
				case !own:
					r.violate(st, "foreign request", c.pos(), "an upstream call is made with a request that was not built for it"+where)
				case len(v) == 0:
					r.violate(st, "request id", c.pos(), "an upstream request is sent without X-Request-Id"+where)
				case len(v) > 1:
					r.violate(st, "request id", c.pos(), "an upstream request is sent with several values of X-Request-Id"+where)
				case !goodId(st, v[0]):
					r.violate(st, "request id", c.pos(), "an upstream request is sent with the X-Request-Id "+v[0].String()+", which is not the id of the request"+where)
				}
				if st.oint("n") >= 2 {
					st.dead = true
				}
				return
			}
			if isNewRequest(c.name) {
				st.odel("rid:out")
				st.osetInt("n", st.oint("n")+1)
			}
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if newId(c.name) {
				st.otag("newid")
			}
		}
		h.install(o)
		return o
	})
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}
