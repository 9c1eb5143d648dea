package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkIdentity }

const (
	hServer = "Server"
	hReqId  = "X-Request-Id"
	hSTS    = "Strict-Transport-Security"
)

// serverString: "j8a " + Version + " " + ID
func serverString(t *Term) bool {
	p := parts(t)
	if len(p) < 3 {
		return false
	}
	s, ok := strConst(p[0])
	if !ok || !strings.HasPrefix(s, "j8a ") {
		return false
	}
	id := p[len(p)-1]
	if !isGlobal(id, "ID") {
		return false
	}
	// the version is a constant or a variable
	rest := p[1 : len(p)-1]
	if len(s) > len("j8a ") {
		return len(rest) == 0 || len(rest) == 1 && isSpace(rest[0])
	}
	return len(rest) == 2 && isGlobal(rest[0], "Version") && isSpace(rest[1])
}

func isSpace(t *Term) bool { s, ok := strConst(t); return ok && s == " " }

func isGlobal(t *Term, name string) bool {
	return t != nil && t.op == OLoad && t.args[0].op == OGlobal && strings.HasSuffix(t.args[0].str, "."+name)
}

// tlsMode: what a condition says about the server's mode. known is 1 for TLS, 2 for not TLS.
func tlsMode(st *State, t *Term, f *Fact) int {
	m := t
	for isCall(m, "strings.ToUpper", "strings.ToLower", "strings.TrimSpace") {
		m = m.args[0]
	}
	if cfgField(m, "Downstream", "Mode") {
		if s, ok := strConst(f.eq); f.eq != nil && ok {
			if strings.EqualFold(s, "TLS") {
				return 1
			}
			return 2
		}
		for _, n := range f.ne {
			if s, ok := strConst(n); ok && strings.EqualFold(s, "TLS") {
				return 2
			}
		}
		return 0
	}
	if isCall(t, "strings.EqualFold", "eqfold") && f.b != 0 {
		for i := 0; i < 2; i++ {
			m := t.args[1-i]
			for isCall(m, "strings.ToUpper", "strings.ToLower") {
				m = m.args[0]
			}
			if s, ok := strConst(t.args[i]); ok && strings.EqualFold(s, "TLS") && cfgField(m, "Downstream", "Mode") {
				return int(f.b)
			}
		}
	}
	return 0
}

// C02: the identification headers at the moment the status line is sent.
func checkIdentity(P *Program, r *Report) {
	r.rule = "on every path, when the status line is sent (or the body without one): Server has exactly one value, \"j8a \" Version \" \" ID; X-Request-Id has exactly one value, " +
		"the id in the request or a newly made one, and the same that was sent upstream; when the mode is TLS (or not known not to be) Strict-Transport-Security has exactly one value, a constant of the server; " +
		"after that no response header is changed"
	keys := []string{hServer, hReqId, hSTS}
	runHandlers(P, r, handlerCfg{depth: 1, headers: true, crit: func(in ssa.Instruction, name string) critMode {
		if newId(name) {
			return critExec
		}
		return critHeaders(in, name)
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackHeaders: true}
		o.RangeKeys = func(st *State, m *Term, in ssa.Instruction) []*Term {
			if upHeaders(m) {
				return headerKeys(st, keys)
			}
			if inHeaders(m) {
				return headerKeys(st, []string{hReqId})
			}
			return nil
		}
		late := func(st *State, pos string, where string) {
			r.count("header changes checked")
			if st.ohas("sent") {
				r.violate(st, "late header", pos, "a response header is changed after the response was begun"+where)
			}
		}
		// a made up id and one that came with the request are different cases
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if newId(c.name) && !st.ohas("sent") {
				st.otag("newid")
			}
		}
		o.MapSet = func(st *State, m, k, v *Term, in ssa.Instruction) {
			if respHeaders(m) {
				late(st, P.pos(in.Pos()), " (in "+shortName(in.Parent().RelString(nil))+")")
			}
		}
		o.Call = func(c *CallEv) {
			st := c.st
			where := " (in " + shortName(c.in.Parent().RelString(nil)) + ")"
			if m, _, _, _, ok := headerCall(c); ok {
				if respHeaders(m) {
					late(st, c.pos(), where)
				}
				return
			}
			e, ok := respEvent(c)
			if !ok || e.header || st.ohas("sent") {
				return
			}
			st.otag("sent")
			st.odel("newid")
			r.count("responses checked")
			r.site("status line sites", c.pos())
			bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+where) }
			h := mk(OCall, "(net/http.ResponseWriter).Header", nil, nil, nil, 0, 0)
			// the header map of this writer
			var m *Term
			for _, ob := range st.heap {
				if respHeaders(ob.root) {
					m = ob.root
				}
			}
			_ = h
			if m == nil {
				bad("server", "the response is begun without any header")
				return
			}
			one := func(rule, key string, good func(*Term) bool, what string) {
				v, ok := headerValues(st, m, key)
				switch {
				case !ok || len(v) == 0:
					bad(rule, "the response is begun without "+key)
				case len(v) > 1:
					bad(rule, "the response is begun with several values of "+key+": "+v[0].String()+", "+v[1].String())
				case !good(v[0]):
					bad(rule, key+" is "+v[0].String()+", not "+what)
				}
			}
			one("server", hServer, serverString, "j8a with version and id")
			one("request id", hReqId, func(t *Term) bool { return goodId(st, t) }, "the id of the request")
			if k := st.oint("mode"); k != 2 {
				one("hsts", hSTS, func(t *Term) bool { _, ok := strConst(t); return ok }, "the server's own")
			}
		}
		ev := &evidence{until: "sent", fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			if k := tlsMode(st, t, f); k != 0 && st.oint("mode") != int64(k) {
				st.osetInt("mode", int64(k))
			}
		}}
		ev.hook(o)
		return o
	})
	r.atLeast("responses checked", 3)
	r.atLeast("header changes checked", 3)
}

func newId(name string) bool {
	return strings.HasPrefix(name, "github.com/google/uuid.New") || strings.HasPrefix(name, "github.com/google/uuid.Must")
}

// goodId: the id the request brought, or a new one.
func goodId(st *State, t *Term) bool {
	if isCall(t, "hdrget") && inHeaders(t.args[0]) {
		s, ok := strConst(t.args[1])
		return ok && s == hReqId
	}
	return t.contains(func(x *Term) bool { return x.op == OCall && strings.HasPrefix(x.str, "github.com/google/uuid.New") })
}
