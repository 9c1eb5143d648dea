package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkEncoding
}

// upCodings: the Content-Encoding values of the current attempt's response, or something made of them
func upCodings(st *State, t *Term) bool {
	return t != nil && t.contains(func(x *Term) bool {
		switch {
		case isCall(x, "hdrget", "(net/http.Header).Values", "(net/textproto.MIMEHeader).Values"), x.op == OLookup:
			return upHeaders(x.args[0]) && hdrName(x.args[1], "Content-Encoding") && x.contains(func(y *Term) bool { return theDo(st, y, 0) })
		}
		return false
	})
}

// theCodings: exactly these values, as a slice
func theCodings(t *Term) bool {
	return (t.op == OLookup || isCall(t, "(net/http.Header).Values", "(net/textproto.MIMEHeader).Values")) && upHeaders(t.args[0])
}

// theBody: the body of the current attempt's response
func theBody(st *State, t *Term) bool {
	return t != nil && isCall(t, "readall") && upBody(t.args[0]) && !t.contains(func(x *Term) bool { return isCall(x, "gunzip") }) &&
		t.contains(func(x *Term) bool { return theDo(st, x, 0) })
}

// isMagic: the two bytes gzip data begins with
func isMagic(st *State, t *Term) bool {
	for t.op == OConv {
		t = t.args[0]
	}
	if s, ok := strConst(t); ok {
		return strings.HasPrefix(s, "\x1f\x8b") && len(s) <= 3
	}
	if t.op == OList {
		if len(t.args) < 2 || len(t.args) > 3 {
			return false
		}
		a, ok := intConst(t.args[0])
		b, ok2 := intConst(t.args[1])
		return ok && ok2 && a == 0x1f && b == 0x8b
	}
	if t.op != OSliceV || t.m < 2 || t.m > 3 {
		return false
	}
	for i, want := range []int64{0x1f, 0x8b} {
		if k, ok := intConst(st.load(tIndexAddr(t.args[0], tInt(t.n+int64(i))), types.Typ[types.Byte])); !ok || k != want {
			return false
		}
	}
	return true
}

func firstByte(st *State, t *Term, i int64) bool {
	var b, k *Term
	switch {
	case isCall(t, "index"):
		b, k = t.args[0], t.args[1]
	case t.op == OLoad && t.args[0].op == OIndexAddr:
		b, k = t.args[0].args[0], t.args[0].args[1]
	case t.op == OIndexAddr:
		b, k = t.args[0], t.args[1]
	default:
		return false
	}
	n, ok := intConst(k)
	return ok && n == i && theBody(st, b)
}

// isGzipped collects whether the upstream body begins like gzip: magic, nomagic.
func isGzipped(st *State, t *Term, f *Fact, tag func(string)) {
	two := func(b int8) {
		if b == 1 {
			tag("magic")
		} else if b == 2 {
			tag("nomagic")
		}
	}
	switch {
	case isCall(t, "bytes.HasPrefix", "strings.HasPrefix"):
		b := t.args[0]
		for b.op == OConv {
			b = b.args[0]
		}
		if theBody(st, b) && isMagic(st, t.args[1]) {
			two(int8(f.b))
		}
	case isCall(t, "bytes.Equal"):
		for i := range t.args {
			a, b := t.args[i], t.args[1-i]
			if a.op == OSliceOf && theBody(st, a.args[0]) && (a.args[1].op == ONil || a.args[1] == tInt(0)) && a.args[2] == tInt(2) && isMagic(st, b) {
				two(int8(f.b))
			}
		}
	case t.op == OLen && theBody(st, t.args[0]):
		if f.hi < 2 {
			tag("nomagic")
		}
	default:
		for i, want := range []int64{0x1f, 0x8b} {
			if !firstByte(st, t, int64(i)) {
				continue
			}
			is := f.lo == want && f.hi == want
			if f.eq != nil {
				k, ok := intConst(f.eq)
				is = ok && k == want
			}
			not := f.lo > want || f.hi < want
			for _, n := range f.ne {
				if k, ok := intConst(n); ok && k == want {
					not = true
				}
			}
			if not {
				tag("nomagic")
			} else if is {
				if o := []string{"magic2", "magic1"}[i]; st.ohas(o) {
					tag("magic")
				}
				tag([]string{"magic1", "magic2"}[i])
			}
		}
	}
}

// isCoding: is the value known to be that coding, in whatever letter case? 1 yes, 2 no
func isCoding(st *State, v *Term, coding string) int {
	if k := st.truth(mk(OCall, "eqfold", types.Typ[types.Bool], nil, nil, 0, 0, v, tStr(coding))); k != 0 {
		return int(k)
	}
	for _, fn := range []string{"strings.ToLower", "strings.ToUpper"} {
		w := coding
		if fn == "strings.ToUpper" {
			w = strings.ToUpper(coding)
		}
		f := st.fact(mk(OCall, fn, types.Typ[types.String], nil, nil, 0, 0, v))
		if f.eq != nil {
			if s, ok := strConst(f.eq); ok {
				if s == w {
					return 1
				}
				return 2
			}
		}
		for _, n := range f.ne {
			if s, ok := strConst(n); ok && s == w {
				return 2
			}
		}
	}
	return 0
}

var c04marks = []string{"magic", "nomagic", "magic1", "magic2", "opaque", "clean", "nocoding", "coding", "nounzip"}

// C04: the label of relayed bytes.
func checkEncoding(P *Program, r *Report) {
	r.rule = "at every write of bytes made of an upstream body, on every path: gzip of the body only if the client is known to have offered gzip, the body known not to begin like gzip and to have no foreign coding, labelled gzip; " +
		"the decompressed body only if the client is known not to have offered gzip, no foreign coding is there and decompression is known to have succeeded, labelled identity; " +
		"the body as it is labelled as the upstream labelled it, or gzip if it is known to begin like gzip, or identity if there is no coding or it is known not to be gzip; exactly one Content-Encoding was there when the response was begun"
	const ce = "Content-Encoding"
	runHandlers(P, r, handlerCfg{depth: 1, headers: true, only: []string{ce}, limit: 60, crit: func(in ssa.Instruction, name string) critMode {
		switch name {
		case "(net/http.ResponseWriter).Write", writeHeader:
			return critArgs
		case "io/ioutil.ReadAll", "io.ReadAll":
			return critArg0
		case "strings.Join":
			return critArgs
		}
		return maxMode(critHeader(in, name, ce), critBody(in, name))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackHeaders: true, TrackBody: true}
		w := &sweeps{P: P, r: r, tags: []string{"nogzip", "known"}, elem: types.Typ[types.String], seq: func(t *Term) bool {
			return offered(t) || theCodings(t) && hdrName(t.args[1], ce)
		}}
		contra := func(st *State) {
			if st.ohas("opaque") && has(st, "clean", "nocoding") || st.ohas("magic") && st.ohas("nomagic") || st.ohas("nocoding") && st.ohas("coding") {
				st.dead = true
			}
		}
		w.end = func(st *State, seq *Term, all func(string) bool) {
			if offered(seq) {
				if all("nogzip") && !has(st, "gzyes", "gzno") {
					st.otag("gzno")
				}
				return
			}
			if upCodings(st, seq) && all("known") && !st.ohas("clean") {
				st.otag("clean")
				contra(st)
			}
		}
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			if st.dead {
				return
			}
			gzipOffer(st, t, f, func(s string) {
				tag(s)
				if s == "gzno" {
					t.contains(func(x *Term) bool {
						if x.op == OIndexAddr && offered(x.args[0]) {
							w.flag(st, "nogzip", x.args[1])
						}
						return false
					})
				}
			})
			isGzipped(st, t, f, tag)
			if isCall(t, "readallerr") && f.nilness == 2 && isCall(t.args[0], "gunzip") && theBody(st, t.args[0].args[0]) {
				tag("nounzip")
			}
			if upCodings(st, t) {
				switch {
				case t.op == OLen && (theCodings(t.args[0]) || isCall(t.args[0], "hdrget")), theCodings(t) && f.nilness != 0, isCall(t, "hdrget") && f.eq == tStr(""):
					if t.op == OLen && f.hi == 0 || t.op != OLen && (f.nilness == 1 || f.eq == tStr("")) {
						tag("nocoding")
					} else if t.op == OLen && f.lo > 0 {
						tag("coding")
					}
				}
				// an element of the values
				t.contains(func(x *Term) bool {
					el := x
					if el.op == OLoad {
						el = el.args[0]
					}
					if el.op != OIndexAddr || !theCodings(el.args[0]) {
						return false
					}
					g, i := isCoding(st, x, "gzip"), isCoding(st, x, "identity")
					switch {
					case g == 1 || i == 1:
						w.flag(st, "known", el.args[1])
					case g == 2 && i == 2:
						tag("opaque")
					}
					return true
				})
			}
			contra(st)
		}}
		ev.hook(o)
		w.install(o)
		o.RangeKeys = func(st *State, m *Term, in ssa.Instruction) []*Term {
			if upHeaders(m) {
				return []*Term{tStr(ce)}
			}
			if inHeaders(m) {
				return []*Term{}
			}
			return nil
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			switch {
			case c.isDo():
				for _, k := range c04marks {
					st.odel(k)
				}
				if d := res; d.op == OTuple && d.args[0].op == OExt {
					st.oset("do", d.args[0].args[0])
				} else {
					st.oset("do", d)
				}
			}
		}
		o.Call = func(c *CallEv) {
			st := c.st
			if m, key, _, _, ok := headerCall(c); ok && upHeaders(m) && (key == nil || key == tStr(ce)) {
				r.violate(st, "upstream headers", c.pos(), "the Content-Encoding of the upstream response is changed"+inFn(c.in))
			}
			e, ok := respEvent(c)
			if !ok || e.header {
				return
			}
			if !st.ohas("sent") {
				v, n := headerValue(st, ce)
				val := tStr("")
				switch {
				case n > 1:
					val = tStr("several")
				case n == 1:
					val = st.norm(v)
				}
				st.oset("sent", val)
				if e.commit && e.status != nil {
					// error responses carry the server's own documents: C03, C12
					if lo, _ := st.interval(e.status); lo >= 400 {
						st.dead = true
						return
					}
				}
			}
			if !e.body || e.bytes == nil || !fromUpstream(e.bytes) {
				return
			}
			defer func() { st.dead = true }()
			if emptyColl(st, e.bytes) {
				return
			}
			r.count("relayed bodies checked")
			r.site("body sites", c.pos())
			bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+inFn(c.in)) }
			b := st.norm(e.bytes)
			for b.op == OConv {
				b = b.args[0]
			}
			label := st.oget("sent")[0]
			name, fixed := strConst(label)
			name = strings.ToLower(name)
			known := has(st, "clean", "nocoding")
			switch {
			case theBody(st, b):
				r.count("relayed as they are")
				switch {
				case !fixed && upLabel(st, label):
				case fixed && name == "gzip" && st.ohas("magic") && known:
				case fixed && name == "identity" && (st.ohas("nocoding") || st.ohas("clean") && st.ohas("nomagic")):
				case fixed && name == "" && st.ohas("nocoding"):
				default:
					bad("label", "the upstream body is relayed as it is, labelled "+label.String()+", which is neither the upstream's label nor known to be right")
				}
			case isCall(b, "gzip") && theBody(st, b.args[0]):
				r.count("relayed compressed")
				switch {
				case !st.ohas("gzyes"):
					bad("unoffered gzip", "the upstream body is compressed although the client is not known to have offered gzip")
				case !st.ohas("nomagic"):
					bad("gzip twice", "the upstream body is compressed although it is not known not to be gzip already")
				case !known:
					bad("foreign coding", "the upstream body is compressed although it may have a foreign content coding")
				case name != "gzip":
					bad("label", "the compressed body is labelled "+label.String())
				}
			case isCall(b, "readall") && isCall(b.args[0], "gunzip") && theBody(st, b.args[0].args[0]):
				r.count("relayed decompressed")
				switch er := mk(OCall, "readallerr", errType(), nil, nil, 0, 0, b.args...); {
				case !st.ohas("gzno"):
					bad("offered gzip", "the upstream body is decompressed although the client is not known not to have offered gzip")
				case !known:
					bad("foreign coding", "the upstream body is decompressed although it may have a foreign content coding")
				case st.isNil(er) != 1:
					bad("broken gzip", "the decompressed body is relayed although decompression is not known to have succeeded")
				case name != "identity" && !(fixed && name == "" && st.ohas("nocoding")):
					bad("label", "the decompressed body is labelled "+label.String())
				}
			default:
				bad("bytes", "what is relayed is neither the body of the current upstream response, nor it compressed or decompressed: "+b.String())
			}
		}
		return o
	})
	r.atLeast("relayed bodies checked", 3)
	r.atLeast("relayed compressed", 1)
}

// upLabel: the upstream's own label
func upLabel(st *State, t *Term) bool {
	if isCall(t, "strings.Join") && theCodings(t.args[0]) && upCodings(st, t) {
		return true
	}
	// copied in a loop over the values
	q := seqOf(t)
	return q != nil && theCodings(q) && upCodings(st, t)
}
