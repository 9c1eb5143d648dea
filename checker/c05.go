package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkLength
}

// upLength: the Content-Length header of the current attempt's response
func upLength(st *State, t *Term) bool {
	if t == nil {
		return false
	}
	if t.op == OLoad && t.args[0].op == OIndexAddr {
		t = t.args[0].args[0]
	}
	if !(isCall(t, "hdrget", "(net/http.Header).Values", "(net/textproto.MIMEHeader).Values") || t.op == OLookup) {
		return false
	}
	return upHeaders(t.args[0]) && hdrName(t.args[1], "Content-Length") && t.contains(func(y *Term) bool { return theDo(st, y, 0) })
}

// ownLength: the length the http package read from the current attempt's response
func ownLength(st *State, t *Term) bool {
	b, ok := isFieldOf(t, "ContentLength")
	return ok && theDo(st, b, 0)
}

var c05marks = []string{"cl:ok", "cl:bad", "body", "nobody"}

// C05: the announced length of relayed responses.
func checkLength(P *Program, r *Report) {
	r.rule = "at every status line of a relayed response, on every path: for CONNECT, 1xx and 204 Content-Length is 0; for HEAD it is the upstream's own that is known to be a number, or 0 if that is known not to be there or not to be one; " +
		"if the request is known to be none of these it is the decimal length of exactly the bytes that are written afterwards; it is there once"
	const cl, te = "Content-Length", "Transfer-Encoding"
	runHandlers(P, r, handlerCfg{depth: 1, headers: true, only: []string{cl}, limit: 60, variants: 150, crit: func(in ssa.Instruction, name string) critMode {
		switch name {
		case "(net/http.ResponseWriter).Write", writeHeader:
			return critArgs
		case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi", "strconv.Itoa", "strconv.FormatInt":
			return critArgs
		case "io/ioutil.ReadAll", "io.ReadAll":
			return critArg0
		}
		return maxMode(critHeader(in, name, cl), critBody(in, name))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackHeaders: true, TrackBody: true}
		ev := &evidence{until: "sent", fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			if _, ok := isMethod(t); ok {
				for m, no := range map[string]string{"HEAD": "nohead", "CONNECT": "noconnect"} {
					if in, out := methodIn(t, f, setOf(m)); in {
						tag(map[string]string{"HEAD": "head", "CONNECT": "connect"}[m])
					} else if out {
						tag(no)
					}
				}
				return
			}
			if b, ok := upStatus(t); ok && theDo(st, b, 0) {
				switch lo, hi := st.interval(t); {
				case lo == 204 && hi == 204 || lo >= 100 && hi < 200:
					tag("nobody")
				case lo > 204 || hi < 204 && lo >= 200:
					tag("body")
				case lo >= 200:
					for _, n := range f.ne {
						if n == tInt(204) {
							tag("body")
						}
					}
				}
			}
			x := t
			if x.op == OLen {
				x = x.args[0]
			}
			if isCall(x, "hdrget", "(net/http.Header).Values") || x.op == OLookup {
				if respHeaders(x.args[0]) && hdrName(x.args[1], te) {
					if t.op == OLen && f.lo > 0 {
						tag("te")
					}
					for _, n := range f.ne {
						if n == tStr("") {
							tag("te")
						}
					}
				}
			}
			if upLength(st, x) {
				if t.op == OLen && f.hi == 0 || t.op != OLen && (f.eq == tStr("") || f.nilness == 1) {
					tag("cl:bad")
				}
			}
			if t.op == OExt && t.n == 1 && isDecimal(t.args[0]) && upLength(st, t.args[0].args[0]) {
				if f.nilness == 1 {
					tag("cl:ok")
				} else if f.nilness == 2 {
					tag("cl:bad")
				}
			}
		}}
		ev.hook(o)
		o.RangeKeys = func(st *State, m *Term, in ssa.Instruction) []*Term {
			if upHeaders(m) {
				return headerKeys(st, []string{cl})
			}
			if inHeaders(m) {
				return []*Term{}
			}
			return nil
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if c.isDo() {
				for _, k := range c05marks {
					st.odel(k)
				}
				// what was decided before is not about the response
				st.forgetFacts(func(t *Term) bool { _, ok := isMethod(t); return ok })
				if d := res; d.op == OTuple && d.args[0].op == OExt {
					st.oset("do", d.args[0].args[0])
				} else {
					st.oset("do", d)
				}
			}
		}
		// the length that a value announces
		announced := func(st *State, v *Term) (n *Term, fixed bool) {
			if s, ok := strConst(v); ok {
				if s == "0" {
					return tInt(0), true
				}
				return nil, true
			}
			ps := parts(v)
			if len(ps) == 1 {
				v = ps[0]
			}
			for isCall(v, "dec") || v.op == OConv || v.op == OIface {
				v = v.args[0]
			}
			if isCall(v, "strconv.FormatInt") {
				if k, ok := intConst(v.args[1]); !ok || k != 10 {
					return nil, false
				}
				v = v.args[0]
			}
			if isCall(v, "strconv.Itoa") {
				v = v.args[0]
			}
			return st.norm(unconv(v)), false
		}
		o.Call = func(c *CallEv) {
			st := c.st
			if m, key, _, _, ok := headerCall(c); ok && upHeaders(m) && (key == nil || key == tStr(cl)) {
				r.violate(st, "upstream headers", c.pos(), "the Content-Length of the upstream response is changed"+inFn(c.in))
			}
			e, ok := respEvent(c)
			if !ok || e.header {
				return
			}
			bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+inFn(c.in)) }
			if !st.ohas("sent") {
				zero := st.ohas("connect") || st.ohas("te")
				plain := st.ohas("noconnect") && st.ohas("nohead")
				if e.commit && e.status != nil {
					lo, hi := st.interval(e.status)
					if lo >= 400 || hi < 100 {
						st.dead = true
						return
					}
					zero = zero || st.ohas("nobody") || lo == 204 && hi == 204 || lo >= 100 && hi < 200
					plain = plain && (st.ohas("body") || lo > 204 || hi < 204 && lo >= 200)
				}
				if e.status == nil && !st.ohas("do") {
					st.dead = true // a page of the server itself
					return
				}
				st.otag("sent")
				r.count("relayed status lines checked")
				r.site("status line sites", c.pos())
				v, n := headerValue(st, cl)
				if n != 1 {
					bad("header", "a response is relayed with "+tInt(int64(n)).String()+" Content-Length headers")
					st.dead = true
					return
				}
				v = st.norm(v)
				k, fixed := announced(st, v)
				is0 := fixed && k != nil
				head := st.ohas("head")
				okBad, okUp := st.ohas("cl:bad"), st.ohas("cl:ok")
				for _, m := range append([]string{"head", "nohead", "connect", "noconnect", "te", "do", "set", "body", "nobody"}, c05marks...) {
					st.odel(m)
				}
				switch {
				case zero:
					r.count("announced as 0")
					if !is0 {
						bad("no body", "Content-Length is "+v.String()+" although the response has no body by its status or method")
					}
					st.dead = true
				case head:
					r.count("HEAD responses")
					switch {
					case is0 && !okBad:
						bad("HEAD", "Content-Length is 0 for HEAD although the upstream's own is not known to be missing or malformed")
					case is0:
					case !(c05own(st, v) && okUp):
						bad("HEAD", "Content-Length for HEAD is "+v.String()+", which is not the upstream's own, known to be a number")
					}
					st.dead = true
				default:
					if k == nil {
						bad("length", "Content-Length is "+v.String())
						st.dead = true
						return
					}
					if !plain && !is0 {
						bad("length", "Content-Length is "+v.String()+" although the request is not known to be neither HEAD nor CONNECT nor the status neither 1xx nor 204")
						st.dead = true
						return
					}
					st.oset("length", k)
				}
			}
			if l := st.oget("length"); len(l) == 1 && e.body && e.bytes != nil {
				r.count("written lengths checked")
				if n := st.norm(tLen(e.bytes)); !sameLen(st, l[0], n, e.bytes) {
					bad("length", "Content-Length is the length "+l[0].String()+" but "+n.String()+" bytes are written")
				}
				st.dead = true
			}
		}
		ret := o.Ret
		o.Ret = func(c *CallEv, st *State, res *Term) {
			ret(c, st, res)
			if m, key, val, _, ok := headerCall(c); ok && respHeaders(m) && key == tStr(cl) && !st.ohas("sent") {
				// paths that announce different lengths stay apart
				if val == nil {
					val = tStr("")
				}
				st.oset("set", val)
			}
		}
		o.Exit = func(st *State, res []*Term) {
			if l := st.oget("length"); len(l) == 1 {
				if lo, hi := st.interval(l[0]); lo != 0 || hi != 0 {
					r.violate(st, "unwritten", P.pos(fn.Pos()), "Content-Length announces "+l[0].String()+" bytes but nothing is written")
				}
			}
		}
		return o
	})
	r.atLeast("relayed status lines checked", 3)
	r.atLeast("written lengths checked", 1)
	r.atLeast("HEAD responses", 1)
}

// c05own: the upstream's own Content-Length; the marks about the response were taken when it was looked at
func c05own(st *State, v *Term) bool {
	ps := parts(v)
	if len(ps) == 1 {
		v = ps[0]
	}
	if v.op == OLoad && v.args[0].op == OIndexAddr {
		v = v.args[0].args[0]
	}
	for isCall(v, "dec", "strconv.FormatInt", "strconv.Itoa") || v.op == OConv || v.op == OExt && v.n == 0 && isCall(v.args[0], "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi") {
		v = v.args[0]
		if v.op == OCall && (v.str == "strconv.ParseInt" || v.str == "strconv.ParseUint" || v.str == "strconv.Atoi") {
			v = v.args[0]
		}
	}
	if !(isCall(v, "hdrget", "(net/http.Header).Values") || v.op == OLookup) {
		return false
	}
	return upHeaders(v.args[0]) && hdrName(v.args[1], "Content-Length")
}

// sameLen: is the announced length that of the bytes?
func sameLen(st *State, l, n, b *Term) bool {
	if l == n || unconv(l) == unconv(n) {
		return true
	}
	a, hi := st.interval(l)
	c, d := st.interval(n)
	return a == hi && c == d && a == c
}

// isDecimal: is a text read as a decimal number, and nothing else?
func isDecimal(t *Term) bool {
	if isCall(t, "strconv.Atoi") {
		return true
	}
	if isCall(t, "strconv.ParseInt", "strconv.ParseUint") && len(t.args) > 1 {
		base, ok := intConst(t.args[1])
		return ok && base == 10
	}
	return false
}
