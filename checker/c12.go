package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = checkRelay
}

// fromUpstream: is the value made from the body of an upstream response?
func fromUpstream(t *Term) bool {
	return t != nil && t.contains(func(x *Term) bool { return isCall(x, "readall") && upBody(x.args[0]) })
}

// C12: only what was read completely from a successful upstream call is relayed.
func checkRelay(P *Program, r *Report) {
	r.rule = "at every status line that carries an upstream status, on every path: the status is that of the current attempt, its call is known to have returned no error, " +
		"its body to have been read without error, neither timeout to have been noticed, the roundtrip to have been polled after the body was read, and the status to be within 100..499; " +
		"upstream body bytes are sent only after such a status below 400"
	at := &attempts{P: P, skip: setOf("matched", "errset", "readerr", "reqerr")}
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		if name == "(net/http.ResponseWriter).Write" || name == writeHeader {
			return critArgs
		}
		return maxMode(critAttempt(in, name), critBody(in, name))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackBody: true}
		o.Call = func(c *CallEv) {
			st := c.st
			e, ok := respEvent(c)
			if !ok || e.header {
				return
			}
			where := " (in " + shortName(c.in.Parent().RelString(nil)) + ")"
			if e.commit && !st.ohas("sent") {
				st.otag("sent")
				if e.status == nil {
					return
				}
				_, fixed := statusConst(e)
				own := relayed(st, e.status)
				if fixed && !own {
					r.count("own status lines")
				} else {
					r.count("relayed status lines checked")
					r.site("status line sites", c.pos())
					bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+where) }
					switch {
					case !own:
						bad("foreign status", "the status "+e.status.String()+" is sent, which is neither the server's own nor that of the current upstream attempt")
					case !st.ohas("errnil"):
						bad("call error", "an upstream status is relayed although the upstream call is not known to have returned no error")
					case !st.ohas("readok"):
						bad("body error", "an upstream status is relayed although the upstream body is not known to have been read without error")
					case has(st, "fired:up", "fired:dwn"):
						bad("timeout", "an upstream response is relayed after the attempt or the roundtrip timed out")
					case !st.ohas("polled"):
						bad("roundtrip", "an upstream response is relayed without the roundtrip timeout having been looked at since its body was read")
					case has(st, "stlow", "stbad") || !has(st, "stmid", "st4xx", "stok"):
						bad("status range", "an upstream status is relayed that is not known to be within 100..499")
					default:
						if st.ohas("stok") {
							st.otag("relay")
						} else if st.ohas("st4xx") {
							st.otag("relay4xx")
						} else {
							st.otag("relayany")
						}
					}
				}
				at.forget(st)
			}
			if e.body && e.bytes != nil {
				r.count("bodies checked")
				r.site("body sites", c.pos())
				if fromUpstream(e.bytes) && !st.ohas("relay") {
					r.violate(st, "body", c.pos(), "bytes of the upstream body are sent after a status line that does not relay a complete upstream response below 400"+where)
				}
			}
		}
		at.install(o)
		return o
	})
	r.atLeast("relayed status lines checked", 1)
	r.atLeast("bodies checked", 2)
}
