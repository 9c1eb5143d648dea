package main

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = checkFailureCodes
}

func has(st *State, ks ...string) bool {
	for _, k := range ks {
		if st.ohas(k) {
			return true
		}
	}
	return false
}

// C13: each failure code against what happened on the path.
func checkFailureCodes(P *Program, r *Report) {
	r.rule = "for every status line of a forwarding handler: 404 exactly on paths where no route matched, 503 exactly on paths where one matched but no upstream was chosen, " +
		"504 exactly on paths where the roundtrip ended or the last attempt was aborted, 502 exactly on the other paths on which the last attempt failed; no other fixed status but 400, 401 and 413 is sent"
	at := &attempts{P: P, skip: setOf("errnil", "readok", "stmid", "stok", "st4xx")}
	runHandlers(P, r, handlerCfg{depth: 2, crit: critStatus}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		forwards := false
		var found []func()
		violate := func(st *State, rule, pos, msg string) {
			n := st.fork()
			found = append(found, func() { r.violate(n, rule, pos, msg) })
		}
		o.After = func() {
			if forwards {
				r.site("forwarding handlers", shortName(fn.RelString(nil)))
				for _, f := range found {
					f()
				}
			}
		}
		o.Call = func(c *CallEv) {
			st := c.st
			if c.isDo() {
				forwards = true
				return
			}
			e, ok := respEvent(c)
			if !ok || !e.commit || e.status == nil || st.ohas("sent") {
				return
			}
			st.otag("sent")
			defer at.forget(st)
			where := " (in " + shortName(c.in.Parent().RelString(nil)) + ")"
			r.count("status lines checked")
			r.site("status line sites", c.pos())
			code, fixed := statusConst(e)
			asked := st.oint("#atts") > 0 || st.ohas("reqerr")
			timeout := has(st, "fired:up", "fired:dwn")
			failed := has(st, "errset", "readerr", "stlow", "stbad", "reqerr") || !st.ohas("do")
			if !fixed || relayed(st, e.status) {
				if timeout {
					violate(st, "timeout answered otherwise", c.pos(), "a request whose roundtrip or last attempt timed out is answered with "+e.status.String()+", not 504"+where)
				}
				return
			}
			name := strconv.FormatInt(code, 10)
			r.count("status " + name + " checked")
			switch code {
			case 400, 401, 413:
				if asked {
					violate(st, name+" after an attempt", c.pos(), name+" is sent after an upstream was asked"+where)
				}
			case 404:
				if has(st, "matched") || asked {
					violate(st, "404", c.pos(), "404 is sent although a route matched"+where)
				}
			case 503:
				if !st.ohas("matched") {
					violate(st, "503", c.pos(), "503 is sent although no route matched"+where)
				} else if asked {
					violate(st, "503", c.pos(), "503 is sent although an upstream was chosen and asked"+where)
				}
			case 504:
				if !timeout {
					violate(st, "504", c.pos(), "504 is sent although neither the roundtrip nor the last attempt is known to have timed out"+where)
				}
			case 502:
				switch {
				case !asked:
					violate(st, "502", c.pos(), "502 is sent although no upstream was asked"+where)
				case timeout:
					violate(st, "502", c.pos(), "502 is sent although the roundtrip or the last attempt timed out"+where)
				case !failed:
					violate(st, "502", c.pos(), "502 is sent although the last attempt did not fail"+where)
				}
			default:
				violate(st, "code", c.pos(), "the fixed status "+name+" is sent, which no failure is documented to have"+where)
			}
			switch {
			case code == 400 || code == 401 || code == 413:
			case !st.ohas("matched") && code != 404:
				violate(st, "unmatched", c.pos(), "a request that no route matched is answered with "+name+where)
			case st.ohas("matched") && !asked && code != 503 && !(code == 504 && st.ohas("fired:dwn")):
				violate(st, "unmapped", c.pos(), "a request for which no upstream was asked is answered with "+name+where)
			}
		}
		at.install(o)
		return o
	})
	r.atLeast("forwarding handlers", 1)
	for _, k := range []string{"400", "401", "404", "413", "502", "503", "504"} {
		r.atLeast("status "+k+" checked", 1)
	}
}
