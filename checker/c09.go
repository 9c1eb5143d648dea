package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkRetries
}

var repeatable = setOf("GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE")

// C09: what is known when a further attempt begins.
func checkRetries(P *Program, r *Report) {
	r.rule = "at every place where the request of a second or later attempt is built, on every path: the method is known to be one of GET, HEAD, OPTIONS, TRACE, PUT, DELETE, " +
		"the attempt before is known to have failed, no status line was sent, the roundtrip was polled since that attempt ended and not found to be over, " +
		"and the configured maximum is known to be at least the number of attempts (or above the attempt counter)"
	at := &attempts{P: P, skip: setOf("matched", "errnil", "readok", "stmid", "stok", "st4xx", "steq")}
	runHandlers(P, r, handlerCfg{depth: 3, crit: critAttempt}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		o.Call = func(c *CallEv) {
			st := c.st
			if e, ok := respEvent(c); ok && !e.header {
				if !st.ohas("sent") {
					st.otag("sent")
					at.forget(st)
					st.odel("maxlo")
					st.odel("repeatable")
					st.odel("counted")
				}
				return
			}
			if c.isDo() {
				r.count("upstream calls seen")
				if st.ohas("do") {
					r.violate(st, "repeated call", c.pos(), "an upstream request is sent again without a new attempt having been begun")
				}
			}
			if c.name != "net/http.NewRequestWithContext" && c.name != "net/http.NewRequest" {
				return
			}
			n := st.oint("#atts") + 1
			r.count("attempts seen")
			r.site("attempt sites", c.pos())
			bad := func(rule, msg string) {
				r.violate(st, rule, c.pos(), "attempt "+itoa(int(n))+" is begun "+msg+" (in "+shortName(c.in.Parent().RelString(nil))+")")
			}
			if st.ohas("sent") {
				bad("after response", "although a response was already sent")
			}
			if n < 2 {
				return
			}
			r.count("retries checked")
			if !st.ohas("repeatable") {
				bad("method", "although the method is not known to be a repeatable one")
			}
			if st.ohas("fired:dwn") {
				bad("roundtrip", "although the downstream roundtrip timed out")
			} else if !st.ohas("polled") {
				bad("roundtrip", "without the downstream roundtrip timeout having been looked at since the attempt before ended")
			}
			if !has(st, "errset", "readerr", "stlow", "stbad", "reqerr", "fired:up") {
				bad("usable", "although the attempt before is not known to have failed")
			}
			if st.oint("maxlo") < n && !st.ohas("counted") {
				bad("maximum", "although the configured maximum is not known to allow it")
			}
			st.odel("counted")
		}
		ev := &evidence{
			until: "sent",
			fact: func(st *State, t *Term, f *Fact, tag func(string)) {
				if in, _ := methodIn(t, f, repeatable); in {
					tag("repeatable")
				}
				if cfgField(t, "Upstream", "MaxAttempts") {
					if lo, _ := st.interval(t); lo > st.oint("maxlo") && lo < 100 {
						st.osetInt("maxlo", lo)
					}
				}
			},
			rel: func(st *State, a, b *Term, lo, hi int64, tag func(string)) {
				// lo <= a-b <= hi
				if cfgField(a, "Upstream", "MaxAttempts") && lo >= 1 && strings.Contains(b.String(), "$loop") {
					tag("counted")
				}
				if cfgField(b, "Upstream", "MaxAttempts") && hi <= -1 && strings.Contains(a.String(), "$loop") {
					tag("counted")
				}
			},
		}
		ev.hook(o)
		at.install(o)
		return o
	})
	r.atLeast("retries checked", 1)
	r.atLeast("upstream calls seen", 1)
}
