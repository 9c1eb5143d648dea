package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkForwarding }

// hopHeaders are managed by each side of the proxy on its own.
var hopHeaders = []string{"Date", "Content-Length", "Transfer-Encoding", "Server"}

func isHop(k string) bool {
	for _, h := range hopHeaders {
		if strings.EqualFold(h, k) {
			return true
		}
	}
	return false
}

// copies follows the copying of headers from one side of the proxy to the other.
//
//	it:key, it:val   the header the copy loop is at, and its values
//	it:in            the loop over the values went into a step and no value was looked at yet
//	it:pend          a value that was looked at and not added yet
//	it:skip          a value was left out
//	it:first         a value was added
//	it:exh           the loop over the values went past the last one
//	it:all           all values were copied at once
//	copied:req, copied:resp   the copying was finished
//	lost             a header of the response was changed after that
type copies struct {
	P         *Program
	r         *Report
	req, resp bool
	own       []string // headers the server sets on its own
	buf       func(st *State, rule, pos, msg string)
}

var iterTags = []string{"it:key", "it:val", "it:in", "it:pend", "it:skip", "it:first", "it:exh", "it:all", "it:dir"}

// dir: which copying has this source
func (h *copies) dir(st *State, m *Term) string {
	if h.req && inHeaders(m) {
		return "req"
	}
	if h.resp && upHeaders(m) {
		return "resp"
	}
	return ""
}

func (h *copies) target(dir string, m *Term) bool {
	if dir == "req" {
		return outHeaders(m)
	}
	return respHeaders(m)
}

// needed: must the header be forwarded?
func neededHeader(dir string, k *Term) bool {
	s, ok := strConst(k)
	if !ok {
		return true
	}
	return !isHop(s) && canonStr(s) != hReqId
}

func one(st *State, k string) *Term {
	if l := st.oget(k); len(l) == 1 {
		return l[0]
	}
	return nil
}

func (h *copies) install(o *Observer) {
	call, ret, mapset, rk, rn, load := o.Call, o.Ret, o.MapSet, o.RangeKeys, o.RangeNext, o.Load
	o.RangeKeys = func(st *State, m *Term, in ssa.Instruction) []*Term {
		if h.dir(st, m) != "" {
			return headerKeys(st, append(append([]string(nil), hopHeaders...), h.own...))
		}
		if rk != nil {
			return rk(st, m, in)
		}
		return nil
	}
	end := func(st *State, pos string) {
		k, v, dir := one(st, "it:key"), one(st, "it:val"), one(st, "it:dir")
		if k == nil {
			return
		}
		d, _ := strConst(dir)
		done := st.ohas("it:all") || st.ohas("it:exh") && !has(st, "it:pend", "it:in", "it:skip")
		if !done && v != nil {
			if _, hi := st.interval(mk(OLen, "", types.Typ[types.Int], nil, nil, 0, 0, v)); hi <= 0 {
				done = true
			}
		}
		if neededHeader(d, k) {
			h.r.count("header copy steps checked " + dirWord(d))
			if !done {
				what := "is not copied " + dirWord(d)
				switch {
				case st.ohas("it:first") || st.ohas("it:exh"):
					what = "is not copied " + dirWord(d) + " with all its values"
				}
				h.buf(st, "not forwarded", pos, "on this path a header that is none of Date, Content-Length, Transfer-Encoding, Server "+what)
			}
		}
		for _, k := range iterTags {
			st.odel(k)
		}
	}
	o.RangeNext = func(st *State, m, key, val *Term, in ssa.Instruction) {
		if rn != nil {
			rn(st, m, key, val, in)
		}
		d := h.dir(st, m)
		if d == "" || st.ohas("sent") {
			return
		}
		pos := h.P.pos(instrPos(in))
		end(st, pos)
		if key == nil {
			h.r.site("header copy loops", pos)
			if d == "resp" {
				b, _ := isFieldOf(m, "Header")
				if !theDo(st, b, 0) {
					return
				}
			}
			st.otag("copied:" + d)
			return
		}
		st.oset("it:key", key)
		st.oset("it:val", val)
		st.oset("it:dir", tStr(d))
	}
	// a value of the current header is looked at
	isVal := func(st *State, p *Term) (idx *Term, ok bool) {
		v := one(st, "it:val")
		if v == nil || p.op != OIndexAddr || p.args[0] != v {
			return nil, false
		}
		return p.args[1], true
	}
	o.Load = func(st *State, p, v *Term, in ssa.Instruction) {
		if load != nil {
			load(st, p, v, in)
		}
		if st.ohas("sent") {
			return
		}
		if idx, ok := isVal(st, p); ok && st.ohas("it:pend") {
			return
		} else if ok && h.fromFirst(st, one(st, "it:val"), st.norm(idx)) {
			st.odel("it:in")
			st.oset("it:pend", v)
		}
	}
	add := func(st *State, m, key, val *Term, meth, pos string) {
		k := one(st, "it:key")
		dir, _ := strConst(one(st, "it:dir"))
		if k == nil || !h.target(dir, m) {
			return
		}
		if canonKey(key) != canonKey(k) && !isCanonOf(key, k) {
			return
		}
		if isHopKey(k) {
			h.buf(st, "hop header", pos, "the header "+k.String()+" is copied "+dirWord(dir))
			return
		}
		v := one(st, "it:val")
		pend := one(st, "it:pend")
		switch {
		case pend != nil && val == pend:
			if meth == "Set" && st.ohas("it:first") {
				h.buf(st, "not all values", pos, "only the last value of a header is kept when it is copied "+dirWord(dir))
			}
			st.odel("it:pend")
			if !st.ohas("it:first") {
				st.otag("it:first")
			}
		case meth == "map" && v != nil && (val == v || isCall(val, "copyof", "slices.Clone") && val.args[0] == v || isCall(val, "append", "copyof") && val.contains(func(x *Term) bool { return x == v })):
			st.otag("it:all")
		}
	}
	direct := func(st *State, m, key, val *Term, pos string) {
		s, ok := strConst(key)
		if !ok || !isHop(s) || val == nil {
			return
		}
		from := val.contains(func(x *Term) bool {
			return x.op == OCall && x.str == "hdrget" && len(x.args) == 2 && isHopKey(x.args[1]) && (inHeaders(x.args[0]) && outHeaders(m) || upHeaders(x.args[0]) && respHeaders(m))
		})
		if from && !(respHeaders(m) && strings.EqualFold(s, "Content-Length")) && (respHeaders(m) && h.resp || outHeaders(m) && h.req) {
			h.buf(st, "hop header", pos, "the header "+s+" is taken over from the other side")
		}
	}
	changed := func(st *State, m, key *Term, pos string) {
		if !st.ohas("copied:resp") || !respHeaders(m) || st.ohas("lost") || st.ohas("it:key") {
			return
		}
		if s, ok := strConst(key); ok {
			switch canonStr(s) {
			case "X-Request-Id", "Server", "Strict-Transport-Security", "Content-Encoding", "Content-Length", "Date", "Transfer-Encoding":
				return
			}
		}
		st.oset("lost", tStr(pos))
	}
	o.MapSet = func(st *State, m, k, v *Term, in ssa.Instruction) {
		if mapset != nil {
			mapset(st, m, k, v, in)
		}
		if st.ohas("sent") {
			return
		}
		pos := h.P.pos(instrPos(in))
		if v != nil {
			add(st, m, k, st.norm(v), "map", pos)
			direct(st, m, k, st.content(v), pos)
		}
		changed(st, m, k, pos)
		h.reqLost(st, m, k, pos)
	}
	o.Call = func(c *CallEv) {
		if call != nil {
			call(c)
		}
		if c.st.ohas("sent") {
			return
		}
		if m, k, v, meth, ok := headerCall(c); ok {
			if v != nil {
				add(c.st, m, k, v, meth, c.pos())
				direct(c.st, m, k, v, c.pos())
			}
			if meth != "Add" {
				changed(c.st, m, k, c.pos())
				h.reqLost(c.st, m, k, c.pos())
			}
		}
	}
	o.Ret = func(c *CallEv, st *State, res *Term) {
		if ret != nil {
			ret(c, st, res)
		}
		if c.name == "net/http.NewRequestWithContext" || c.name == "net/http.NewRequest" {
			for _, k := range []string{"copied:req", "copied:resp", "lost", "reqlost"} {
				st.odel(k)
			}
		}
	}
	// the steps of the loop over the values
	br := o.Branch
	o.Branch = func(st *State, in *ssa.If, cond *Term, val bool) {
		if br != nil {
			br(st, in, cond, val)
		}
		v := one(st, "it:val")
		if v == nil {
			return
		}
		a, b, lo, hi, ok := relOf(cond, val)
		if !ok {
			return
		}
		isLen := func(t *Term) bool { return t != nil && t.op == OLen && t.args[0] == v }
		set := func(k string) {
			if !st.ohas(k) {
				st.otag(k)
			}
		}
		neg := func(x int64) int64 {
			if x == minI {
				return maxI
			} else if x == maxI {
				return minI
			}
			return -x
		}
		if isLen(a) {
			a, b, lo, hi = b, a, neg(hi), neg(lo)
		}
		if !isLen(b) {
			return
		}
		// lo <= a-len <= hi
		switch {
		case a == nil && lo >= 0, a == nil && lo >= -1 && st.ohas("it:first") && !st.ohas("it:pend"):
			set("it:all")
		case a == nil:
		case hi != maxI:
			if has(st, "it:in", "it:pend") {
				set("it:skip")
			}
			set("it:in")
		case lo != minI:
			set("it:exh")
		}
	}
}

// fromFirst: the index begins with the first and is bounded by the last element, and nothing less.
func (h *copies) fromFirst(st *State, v, idx *Term) bool {
	lo, _ := st.interval(idx)
	if lo != 0 {
		return false
	}
	if idx.op == OConst {
		return true
	}
	base, off := linear(idx)
	ok := false
	eachRel(st, func(a, b *Term, lo, hi int64) {
		if a == base && b != nil && b.op == OLen && b.args[0] == v && hi != maxI && hi+off == -1 {
			ok = true
		}
	})
	return ok
}

// reqLost: a header of the upstream request is changed after the copy
func (h *copies) reqLost(st *State, m, key *Term, pos string) {
	if !st.ohas("copied:req") || !outHeaders(m) || st.ohas("reqlost") || st.ohas("it:key") {
		return
	}
	if s, ok := strConst(key); ok && (canonStr(s) == "X-Request-Id" || isHop(s)) {
		return
	}
	st.oset("reqlost", tStr(pos))
}

func isHopKey(t *Term) bool { s, ok := strConst(t); return ok && isHop(s) }

func canonStr(s string) string {
	k, _ := strConst(canonKey(tStr(s)))
	return k
}

// isCanonOf: the same header name in another spelling
func isCanonOf(a, b *Term) bool {
	return isCall(a, "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey", "strings.ToLower", "strings.ToUpper", "strings.Title") && a.args[0] == b
}

func dirWord(d string) string {
	if d == "req" {
		return "to the upstream request"
	}
	return "to the client response"
}

// C14: the copying of headers in both directions.
func checkForwarding(P *Program, r *Report) {
	r.rule = "every step of every loop that copies headers, with the header being Date, Content-Length, Transfer-Encoding, Server or any other: the former are never added to the other side, " +
		"for any other all values are added, on every path; the upstream request is sent, and a relayed response below 400 begun, only after such a loop over the headers of the request, " +
		"or of the current upstream response, was completed, and without one of its headers having been changed since"
	at := &attempts{P: P, skip: setOf("matched", "errset", "readerr", "reqerr", "errnil", "readok", "read", "polled", "fired:up", "fired:dwn", "stlow", "stbad")}
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		return maxMode(critStatus(in, name), critHeaders(in, name))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		h := &copies{P: P, r: r, req: true, resp: true, buf: func(st *State, rule, pos, msg string) { r.violate(st, rule, pos, msg) }}
		o.Call = func(c *CallEv) {
			st := c.st
			if c.isDo() {
				r.count("upstream calls checked")
				r.site("upstream call sites", c.pos())
				h.checkDo(st, c)
			}
			e, ok := respEvent(c)
			if !ok || e.header || st.ohas("sent") {
				return
			}
			st.otag("sent")
			if e.commit && e.status != nil && relayed(st, e.status) && !st.ohas("st4xx") {
				r.count("relayed responses checked")
				r.site("relay sites", c.pos())
				if !st.ohas("copied:resp") {
					r.violate(st, "not copied", c.pos(), "an upstream response is relayed without all its headers having been copied")
				} else if p := one(st, "lost"); p != nil {
					s, _ := strConst(p)
					r.violate(st, "changed", s, "a header copied from the upstream response can be changed or removed before the response is sent")
				}
			}
			at.forget(st)
			for _, k := range append([]string{"copied:req", "copied:resp", "lost", "reqlost"}, iterTags...) {
				st.odel(k)
			}
		}
		at.install(o)
		h.install(o)
		return o
	})
	r.atLeast("header copy steps checked "+dirWord("req"), 1)
	r.atLeast("header copy steps checked "+dirWord("resp"), 1)
	r.atLeast("upstream calls checked", 1)
	r.atLeast("relayed responses checked", 1)
}

func (h *copies) checkDo(st *State, c *CallEv) {
	if !st.ohas("copied:req") {
		h.r.violate(st, "not copied", c.pos(), "an upstream request is sent without all headers of the request having been copied")
	} else if p := one(st, "reqlost"); p != nil {
		s, _ := strConst(p)
		h.r.violate(st, "changed", s, "a header copied from the request can be changed or removed before the upstream request is sent")
	}
}
