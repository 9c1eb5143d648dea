package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// attempts follows the upstream attempts of a request: an attempt begins when its request is built. The marks of the
// attempt before are forgotten then.
//
//	#atts      how many attempts were begun (counted up to 9)
//	ctx        the context of the current attempt
//	do         the result of the current attempt's call
//	errnil     that call is known to have returned no error; errset: an error
//	readok     its body was read to the end without error; readerr: with an error; read: the read is over
//	fired:up   the current attempt's context is known to be over; fired:dwn: the roundtrip's
//	polled     the roundtrip was found not to be over since the last read
//	reqerr     the request could not be built
//	stlow, stmid, stbad   what is known about the upstream status: below 100, a relayable one, or 500 and more
//	matched    a route pattern matched
type attempts struct {
	P    *Program
	onDo func(c *CallEv, st *State)
	onRq func(c *CallEv, st *State)
	skip map[string]bool // marks nobody asks for
}

var attemptMarks = []string{"do", "errnil", "errset", "readok", "readerr", "read", "fired:up", "polled", "reqerr", "stlow", "st4xx", "stok", "stbad", "ctx", "steq", "stmid"}

// theDo: is t component i of the result of the current upstream call?
func theDo(st *State, t *Term, i int64) bool {
	d := st.oget("do")
	return len(d) == 1 && t.op == OExt && t.n == i && t.args[0] == d[0]
}

func isResult(t *Term, call string, i int64) bool {
	return t.op == OExt && t.n == i && isCall(t.args[0], call)
}

// upBody: is the reader the body of an upstream response?
func upBody(r *Term) bool {
	return r != nil && r.contains(func(x *Term) bool {
		b, ok := isFieldOf(x, "Body")
		return ok && b.contains(func(y *Term) bool { return isResult(y, "do", 0) })
	})
}

// upStatus: the status of an upstream response
func upStatus(t *Term) (resp *Term, ok bool) {
	b, ok := isFieldOf(t, "StatusCode")
	return b, ok && isResult(b, "do", 0)
}

// relayed: is the status the one of the current attempt's response?
func relayed(st *State, s *Term) bool {
	if s == nil {
		return false
	}
	if b, ok := upStatus(s); ok {
		return theDo(st, b, 0)
	}
	if s.op != OConst {
		return false
	}
	if k := st.oget("steq"); len(k) == 1 && k[0] == s {
		n, _ := intConst(s)
		return n >= 100 && n < 500
	}
	return false
}

func (a *attempts) install(o *Observer) {
	ev := &evidence{until: "sent", fact: func(st *State, t *Term, f *Fact, tag0 func(string)) {
		tag := func(s string) {
			if !a.skip[s] {
				tag0(s)
			}
		}
		switch {
		case theDo(st, t, 1):
			if f.nilness == 1 {
				tag("errnil")
			} else if f.nilness == 2 {
				tag("errset")
			}
		case theDo(st, t, 0):
			if f.nilness == 1 {
				tag("errset")
			}
		case isCall(t, "readallerr") && upBody(t.args[0]):
			if !t.args[0].contains(func(x *Term) bool { return theDo(st, x, 0) }) {
				return
			}
			if f.nilness == 1 {
				tag("readok")
			} else if f.nilness == 2 {
				tag("readerr")
			}
		default:
			if b, ok := upStatus(t); ok && theDo(st, b, 0) {
				lo, hi := st.interval(t)
				if lo == hi && !st.ohas("steq") && !a.skip["steq"] {
					st.oset("steq", tInt(lo))
				}
				if lo >= 100 && hi <= 499 {
					tag("stmid")
				}
				switch {
				case hi < 100:
					tag("stlow")
				case lo >= 500:
					tag("stbad")
				case lo >= 400 && hi <= 499:
					tag("st4xx")
				case lo >= 100 && hi <= 399:
					tag("stok")
				}
			}
			m := t
			if m.op == OExt {
				m = m.args[0]
			}
			if isCall(m, "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match", "regexp.MatchString", "regexp.Match") && f.b == 1 {
				if t.contains(func(x *Term) bool {
					return reqField(x, "RequestURI") || isCall(x, "(*net/url.URL).RequestURI", "(*net/url.URL).EscapedPath", "(*net/url.URL).String") || reqField(x, "URL")
				}) {
					tag("matched")
				}
			}
		}
	}}
	ev.hook(o)
	call, ret, sel := o.Call, o.Ret, o.Select
	o.Call = func(c *CallEv) {
		if call != nil {
			call(c)
		}
	}
	over := func(st *State, d *Term) {
		if st.ohas("sent") {
			return
		}
		if d.op != OCall || d.str != "done" {
			return
		}
		if a.up(st, d) {
			if !st.ohas("fired:up") {
				st.otag("fired:up")
			}
		} else if !a.old(st, d) && !st.ohas("fired:dwn") {
			st.otag("fired:dwn")
		}
	}
	o.Ret = func(c *CallEv, st *State, res *Term) {
		switch {
		case st.ohas("sent"):
		case c.name == "net/http.NewRequestWithContext" || c.name == "net/http.NewRequest":
			if k := st.oget("ctx"); len(k) == 1 {
				if l := st.oget("oldctx"); len(l) < 6 {
					st.oset("oldctx", append(append([]*Term(nil), l...), k[0])...)
				}
			}
			for _, k := range attemptMarks {
				st.odel(k)
			}
			if res.op == OTuple && res.args[0].op == OCall {
				n := st.oint("#atts")
				if n < 9 {
					st.osetInt("#atts", n+1)
				}
				st.oset("ctx", res.args[0].args[0])
			} else {
				st.otag("reqerr")
			}
			if a.onRq != nil {
				a.onRq(c, st)
			}
		case c.isDo():
			st.odel("polled")
			if d := res; d.op == OTuple && d.args[0].op == OExt {
				st.oset("do", d.args[0].args[0])
			} else {
				st.oset("do", d)
			}
			if a.onDo != nil {
				a.onDo(c, st)
			}
		case (c.name == "io/ioutil.ReadAll" || c.name == "io.ReadAll") && upBody(c.arg(0)):
			st.otag("read")
			st.odel("polled")
		case c.name == "(context.Context).Err":
			if isCall(res, "sentinel") {
				over(st, res.args[0])
			} else if d := mk(OCall, "done", nil, nil, nil, 0, 0, c.arg(0)); !a.up(st, d) && !a.old(st, d) {
				st.otag("polled")
			}
		}
		if ret != nil {
			ret(c, st, res)
		}
	}
	o.Select = func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
		if idx >= 0 {
			over(st, chans[idx])
		}
		if idx == -1 && !st.ohas("sent") {
			for _, ch := range chans {
				if ch.op == OCall && ch.str == "done" && !a.up(st, ch) && !a.old(st, ch) {
					st.otag("polled")
				}
			}
		}
		if sel != nil {
			sel(st, in, chans, idx, blocking)
		}
	}
}

// up: does the channel belong to the current attempt?
func (a *attempts) up(st *State, done *Term) bool {
	c := st.oget("ctx")
	return len(c) == 1 && done.contains(func(x *Term) bool { return x == c[0] })
}

// old: does the channel belong to an attempt before?
func (a *attempts) old(st *State, done *Term) bool {
	for _, k := range st.oget("oldctx") {
		if done.contains(func(x *Term) bool { return x == k }) {
			return true
		}
	}
	return false
}

// forget: nothing of this is needed any more
func (a *attempts) forget(st *State) {
	for _, k := range attemptMarks {
		st.odel(k)
	}
	for _, k := range []string{"matched", "#atts", "oldctx", "fired:dwn"} {
		st.odel(k)
	}
}

// critAttempt: what has to be followed for this.
func critAttempt(in ssa.Instruction, name string) critMode {
	switch {
	case name == "io/ioutil.ReadAll", name == "io.ReadAll", name == "net/http.NewRequestWithContext":
		return critArg0
	case name == "net/http.NewRequest":
		return critExec
	case strings.HasPrefix(name, "(*regexp.Regexp).Match"), strings.HasPrefix(name, "regexp.Match"):
		return critExec
	}
	return critNone
}

// critStatus: with the status that is sent
func critStatus(in ssa.Instruction, name string) critMode {
	if name == writeHeader {
		return critArgs
	}
	return critAttempt(in, name)
}
