package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkRequestValidation }

var legalMethods = setOf("GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT")

func isMaxBody(t *Term) bool { return cfgField(t, "Downstream", "MaxBodyBytes") }

// reqRead: what was read from the body of the request.
func reqRead(t *Term) bool { return isCall(t, "readall") && fromRequestBody(t.args[0]) }

// C08: evidence about method, size and completeness of the request against the upstream call and the status.
func checkRequestValidation(P *Program, r *Report) {
	r.rule = "every upstream call is only reached on paths that decided that the method is legal and that the body is absent or was read to its end within the limit; " +
		"every 413 only and always on paths that decided that the body is over the limit, every 400 only and always on the other rejected ones"
	ev := &evidence{
		until: "passed",
		fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			if in, out := methodIn(t, f, legalMethods); in {
				tag("legal")
			} else if out {
				tag("illegal")
			}
			switch {
			case reqField(t, "ContentLength"):
				if f.eq != nil {
					if k, ok := intConst(f.eq); ok && k == 0 {
						tag("nobody")
					}
				}
				if f.lo == 0 && f.hi == 0 {
					tag("nobody")
				}
				if f.lo > 0 {
					tag("announced")
				}
				if f.hi <= 0 {
					tag("unannounced")
				}
			case reqField(t, "Body"):
				if f.nilness == 1 {
					tag("nobody")
				}
			case isCall(t, "readallerr") && fromRequestBody(t.args[0]):
				if f.nilness == 1 {
					tag("readok")
				} else if f.nilness == 2 {
					tag("readerr")
				}
			case t.op == OLen && reqRead(t.args[0]):
				if f.lo > 0 {
					tag("got")
				}
				if f.hi <= 0 {
					tag("nothing")
				}
			case t.op == OBin && t.str == "==":
				a, b := t.args[0], t.args[1]
				if isCall(b, "readallerr") {
					a, b = b, a
				}
				if isCall(a, "readallerr") && fromRequestBody(a.args[0]) && b.op == OLoad && b.args[0].op == OGlobal && b.args[0].str == "io.EOF" {
					if f.b == 1 {
						tag("readok")
					} else if f.b == 2 {
						tag("noteof")
					}
				}
			case isCall(t, "errors.Is", "errors.As") && len(t.args) > 1 && t.contains(func(x *Term) bool { return isCall(x, "readallerr") }):
				if t.str == "errors.Is" && t.args[1].contains(func(x *Term) bool { return x.op == OGlobal && x.str == "io.EOF" }) {
					if f.b == 1 {
						tag("readok")
					} else if f.b == 2 {
						tag("noteof")
					}
				}
			}
		},
		rel: func(st *State, a, b *Term, lo, hi int64, tag func(string)) {
			if !isMaxBody(b) || a == nil {
				return
			}
			switch {
			case reqField(a, "ContentLength"):
				if lo != minI && lo >= 1 {
					tag("toolarge")
				}
			case a.op == OLen && reqRead(a.args[0]):
				if lo != minI && lo >= 1 {
					tag("toolarge")
				}
				if hi != maxI && hi <= 0 {
					tag("fits")
				}
			}
		},
	}
	incomplete := func(st *State) bool {
		return st.ohas("readerr") && st.ohas("noteof") && (st.ohas("got") || st.ohas("announced")) || st.ohas("readerr") && st.ohas("got")
	}
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		switch name {
		case writeHeader:
			return critArgs
		case "io.LimitReader", "net/http.MaxBytesReader", "io.ReadAll", "io/ioutil.ReadAll", "bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader", "io.NopCloser", "io/ioutil.NopCloser":
			return critArgs
		}
		return critNone
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		// only a handler that calls upstreams forwards requests
		forwards := false
		var found []func()
		violate := func(st *State, rule, pos, msg string) {
			n := st.fork()
			found = append(found, func() { r.violate(n, rule, pos, msg) })
		}
		o.After = func() {
			if !forwards {
				return
			}
			r.site("forwarding handlers", shortName(fn.RelString(nil)))
			for _, f := range found {
				f()
			}
		}
		ev.hook(o)
		o.Call = func(c *CallEv) {
			st := c.st
			where := " (in " + shortName(c.in.Parent().RelString(nil)) + ")"
			switch c.name {
			case "io.LimitReader", "net/http.MaxBytesReader":
				i := 1
				if c.name == "net/http.MaxBytesReader" {
					i = 2
				}
				if !fromRequestBody(c.arg(i - 1)) {
					return
				}
				r.site("limits on body readers", c.pos())
				base, k := linear(c.arg(i))
				if !isMaxBody(base) {
					violate(st, "read limit", c.pos(), "the request body is read through a limit that is not derived from the configured maximum: "+c.arg(i).String())
				} else if k < 1 {
					violate(st, "read limit", c.pos(), "the request body is read through a limit that stops at the configured maximum, a larger body looks complete or broken: "+c.arg(i).String())
				}
				return
			}
			if c.isDo() {
				forwards = true
				r.count("upstream calls checked")
				r.site("upstream call sites", c.pos())
				if st.ohas("passed") {
					return
				}
				ev.scan(st)
				if !st.ohas("legal") {
					violate(st, "method", c.pos(), "an upstream call is reached without the method having been found legal"+where)
				}
				if st.ohas("toolarge") {
					violate(st, "size", c.pos(), "an upstream call is reached although the body exceeds the configured maximum"+where)
				}
				if incomplete(st) {
					violate(st, "completeness", c.pos(), "an upstream call is reached although the body could not be read completely"+where)
				}
				ok := st.ohas("nobody") || st.ohas("readok") && st.ohas("fits") || st.ohas("nothing") && (st.ohas("unannounced") || st.ohas("readok"))
				if ok && st.ohas("legal") && !st.ohas("toolarge") && !incomplete(st) {
					// the request is known to be good: what was found out about it does not matter any more
					for _, k := range []string{"legal", "illegal", "nobody", "announced", "unannounced", "readok", "readerr", "noteof", "got", "nothing", "fits"} {
						st.odel(k)
					}
					st.otag("passed")
				}
				if !ok {
					violate(st, "body", c.pos(), "an upstream call is reached without the body having been found absent, or read to its end and within the limit"+where)
				}
				return
			}
			e, ok := respEvent(c)
			if !ok || !e.commit {
				return
			}
			if !st.ohas("passed") {
				ev.scan(st)
			}
			r.count("status lines checked")
			r.site("status line sites", c.pos())
			code, fixed := statusConst(e)
			bad := st.ohas("illegal") || incomplete(st)
			switch {
			case fixed && code == 413 && !st.ohas("toolarge"):
				violate(st, "413 without reason", c.pos(), "413 is sent on a path that did not find the body too large"+where)
			case fixed && code == 400 && (!bad && !st.ohas("toolarge")):
				violate(st, "400 without reason", c.pos(), "400 is sent on a path that found neither an illegal method nor an unreadable body"+where)
			case st.ohas("toolarge") && !(fixed && code == 413):
				violate(st, "too large", c.pos(), "a request whose body is too large is answered with something other than 413"+where)
			case bad && !st.ohas("toolarge") && !(fixed && code == 400):
				violate(st, "rejected", c.pos(), "a request that is illegal or incomplete is answered with something other than 400"+where)
			}
		}
		return o
	})
	r.atLeast("forwarding handlers", 1)
	r.atLeast("upstream call sites", 1)
	r.atLeast("status line sites", 2)
	_ = strings.Contains
}
