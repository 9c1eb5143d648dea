package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = checkJSON
}

// ---- what the client offered --------------------------------------------------

func hdrName(t *Term, name string) bool {
	s, ok := strConst(t)
	return ok && canonStr(s) == name
}

// offered: a value of the Accept-Encoding header of the request
func offered(t *Term) bool {
	return t != nil && t.contains(func(x *Term) bool {
		switch {
		case isCall(x, "hdrget", "(net/http.Header).Values", "(net/textproto.MIMEHeader).Values"):
			return inHeaders(x.args[0]) && hdrName(x.args[1], "Accept-Encoding")
		case x.op == OLookup:
			return inHeaders(x.args[0]) && hdrName(x.args[1], "Accept-Encoding")
		}
		return false
	})
}

// gzipOffer collects whether the client offered gzip: gzyes, gzno.
func gzipOffer(st *State, t *Term, f *Fact, tag func(string)) {
	if !offered(t) {
		return
	}
	about := t.contains(func(x *Term) bool {
		s, ok := strConst(x)
		return ok && strings.Contains(strings.ToLower(s), "gzip")
	})
	s, isS := "", false
	if f.eq != nil {
		s, isS = strConst(f.eq)
	}
	switch {
	case isS && strings.EqualFold(s, "gzip"):
		tag("gzyes")
	case isS && !strings.Contains(strings.ToLower(s), "gzip"):
		tag("gzno")
	case t.op == OLen && f.hi == 0, t.op != OLen && !about && f.nilness == 1:
		tag("gzno")
	case about && (isCall(t, "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold", "eqfold", "slices.Contains") || strings.Contains(t.str, "MatchString")):
		if f.b == 1 {
			tag("gzyes")
		} else if f.b == 2 {
			tag("gzno")
		}
	case about && strings.Contains(t.str, "Index"), about && isCall(t, "strings.Count"):
		if f.hi < 0 || f.hi <= 0 && isCall(t, "strings.Count") {
			tag("gzno")
		} else if f.lo >= 0 && (f.lo > 0 || !isCall(t, "strings.Count")) {
			tag("gzyes")
		}
	default:
		for _, n := range f.ne {
			if s, ok := strConst(n); ok && strings.EqualFold(s, "gzip") {
				tag("gzno")
			}
		}
	}
}

// offerLoops follows what the path knows of the client's offer, in loops over the offered codings too.
func offerLoops(P *Program, r *Report, o *Observer) {
	w := &sweeps{P: P, r: r, tags: []string{"nogzip"}, seq: offered, elem: types.Typ[types.String]}
	w.end = func(st *State, seq *Term, all func(string) bool) {
		if all("nogzip") && !st.ohas("gzyes") && !st.ohas("gzno") {
			st.otag("gzno")
		}
	}
	ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
		gzipOffer(st, t, f, func(s string) {
			tag(s)
			if s == "gzno" {
				t.contains(func(x *Term) bool {
					if x.op == OIndexAddr && offered(x.args[0]) {
						w.flag(st, "nogzip", x.args[1])
					}
					return false
				})
			}
		})
	}}
	ev.hook(o)
	w.install(o)
}

// responseHeaders: the header map of the response
func responseHeaders(st *State) *Term {
	for _, ob := range st.heap {
		if respHeaders(ob.root) {
			return ob.root
		}
	}
	return nil
}

// headerValue: the single value of a response header; nil with n==0 when there is none.
func headerValue(st *State, key string) (v *Term, n int) {
	m := responseHeaders(st)
	if m == nil {
		return nil, 0
	}
	l, ok := headerValues(st, m, key)
	if !ok || len(l) == 0 {
		return nil, 0
	}
	return l[0], len(l)
}

// structField: a field of a struct value
func structFieldOf(t *Term, name string) *Term {
	for t != nil && (t.op == OIface || t.op == OConv) {
		t = t.args[0]
	}
	if t == nil || t.op != OStruct {
		return nil
	}
	sp := structOf(t.typ)
	for i := 0; sp != nil && i < sp.NumFields() && i < len(t.args); i++ {
		if sp.Field(i).Name() == name {
			return t.args[i]
		}
	}
	for i := 0; sp != nil && i < sp.NumFields() && i < len(t.args); i++ {
		if sp.Field(i).Embedded() {
			if v := structFieldOf(t.args[i], name); v != nil {
				return v
			}
		}
	}
	return nil
}

// C03: the server's own JSON documents.
func checkJSON(P *Program, r *Report) {
	r.rule = "at every write of a JSON document of the server to the client, on every path: the document is the whole body, as it is or compressed with gzip; a Code in it is the very value the status line was sent with; " +
		"the response was begun with the single Content-Type application/json; the document is compressed if and only if the path knows that the request's Accept-Encoding offered gzip; Content-Encoding was gzip if compressed, otherwise identity or absent"
	const ct, ce = "Content-Type", "Content-Encoding"
	runHandlers(P, r, handlerCfg{depth: 1, headers: true, only: []string{ct, ce}, crit: func(in ssa.Instruction, name string) critMode {
		if name == "(net/http.ResponseWriter).Write" || name == writeHeader {
			return critArgs
		}
		if name == "encoding/json.Marshal" {
			return critDeep
		}
		return maxMode(critHeader(in, name, ct, ce), critBody(in, name))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackHeaders: true, TrackBody: true}
		offerLoops(P, r, o)
		o.RangeKeys = func(st *State, m *Term, in ssa.Instruction) []*Term {
			if upHeaders(m) {
				return headerKeys(st, []string{ct, ce})
			}
			if inHeaders(m) {
				return headerKeys(st, nil)
			}
			return nil
		}
		o.Call = func(c *CallEv) {
			st := c.st
			e, ok := respEvent(c)
			if !ok || e.header {
				return
			}
			where := inFn(c.in)
			if !st.ohas("sent") {
				st.otag("sent")
				s := tInt(200)
				if e.commit {
					s = e.status
				}
				if s == nil {
					s = tNil()
				}
				v, n := headerValue(st, ct)
				w, k := headerValue(st, ce)
				val := func(v *Term, n int) *Term {
					switch {
					case n == 0:
						return tStr("")
					case n > 1:
						return tStr("several")
					}
					return st.norm(v)
				}
				st.oset("sent", s, val(v, n), val(w, k))
			}
			if !e.body {
				return
			}
			bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+where) }
			doc, zipped := e.bytes, false
			if doc == nil {
				return
			}
			if fromUpstream(doc) {
				return
			}
			if isCall(doc, "gzip") {
				doc, zipped = doc.args[0], true
			}
			for doc.op == OConv {
				doc = doc.args[0]
			}
			if !isCall(doc, "json") {
				if s, ok := strConst(doc); ok && s == "" || emptyColl(st, doc) {
					return
				}
				// what is relayed has the status of the upstream
				if _, own := intConst(st.norm(st.oget("sent")[0])); !own && !doc.contains(func(x *Term) bool { return isCall(x, "json") }) {
					return
				}
				bad("body", "the body "+e.bytes.String()+" is neither a JSON document, nor one compressed with gzip, nor from an upstream")
				return
			}
			r.count("documents checked")
			r.site("document sites", c.pos())
			if st.ohas("documented") {
				bad("body", "a second document is sent in one response")
			}
			st.otag("documented")
			sent := st.oget("sent")
			if code := structFieldOf(doc.args[0], "Code"); code != nil {
				r.count("codes checked")
				if st.norm(code) != st.norm(sent[0]) {
					bad("code", "the Code of the document is "+st.norm(code).String()+", the status that was sent "+st.norm(sent[0]).String())
				}
			} else if k, ok := intConst(st.norm(sent[0])); !ok || k != 200 {
				bad("code", "the document has no Code, the status that was sent is "+st.norm(sent[0]).String())
			}
			if s, ok := strConst(sent[1]); !ok || strings.TrimSpace(strings.ToLower(strings.SplitN(s, ";", 2)[0])) != "application/json" {
				bad("content type", "the document is sent with the Content-Type "+sent[1].String())
			}
			enc, isK := strConst(sent[2])
			switch {
			case zipped && !st.ohas("gzyes"):
				bad("unoffered gzip", "the document is compressed although the client is not known to have offered gzip")
			case !zipped && !st.ohas("gzno"):
				bad("offered gzip", "the document is not compressed although the client is not known not to have offered gzip")
			case zipped && (!isK || enc != "gzip"):
				bad("content encoding", "the document is compressed with gzip, its Content-Encoding is "+sent[2].String())
			case !zipped && (!isK || enc != "" && enc != "identity"):
				bad("content encoding", "the document is not compressed, its Content-Encoding is "+sent[2].String())
			}
		}
		return o
	})
	r.atLeast("documents checked", 2)
	r.atLeast("codes checked", 1)
}
