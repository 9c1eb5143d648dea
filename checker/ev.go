package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- recognising values by what they are ---------------------------------

// isFieldOf: the value of the named field of something.
func isFieldOf(t *Term, name string) (*Term, bool) {
	if t == nil {
		return nil, false
	}
	switch t.op {
	case OLoad:
		if a := t.args[0]; a.op == OFieldAddr && a.str == name {
			return a.args[0], true
		}
	case OField:
		if t.str == name {
			return t.args[0], true
		}
	}
	return nil, false
}

// reqField: the value of a field of the request that came in.
func reqField(t *Term, name string) bool {
	b, ok := isFieldOf(t, name)
	return ok && isRequest(b)
}

func isRequest(b *Term) bool {
	return b != nil && isNamed(b.typ, "net/http.Request") && !(b.op == OCall && b.str == "httpreq")
}

// cfgField: a setting below a named configuration section, such as Downstream.MaxBodyBytes.
func cfgField(t *Term, path ...string) bool {
	for i := len(path) - 1; i >= 0; i-- {
		if t == nil {
			return false
		}
		if t.op == OLoad {
			t = t.args[0]
		}
		switch {
		case t.op == OFieldAddr && t.str == path[i], t.op == OField && t.str == path[i]:
			t = t.args[0]
		default:
			return false
		}
	}
	return true
}

func isCall(t *Term, names ...string) bool {
	if t == nil || t.op != OCall {
		return false
	}
	for _, n := range names {
		if t.str == n {
			return true
		}
	}
	return false
}

// fromRequestBody: is the reader the body of the incoming request?
func fromRequestBody(r *Term) bool {
	return r != nil && r.contains(func(x *Term) bool { return reqField(x, "Body") })
}

// ---- relations --------------------------------------------------------------

// relOf reads a decided condition as lo <= a-b <= hi. A side that is constant is nil and counts as 0.
func relOf(c *Term, val bool) (a, b *Term, lo, hi int64, ok bool) {
	for c.op == OUn && c.str == "!" {
		c, val = c.args[0], !val
	}
	if c.op != OBin || (c.str != "<" && c.str != "==") {
		return
	}
	split := func(t *Term) (*Term, int64) {
		if k, ok := intConst(t); ok {
			return nil, k
		}
		x, k := linear(t)
		return x, k
	}
	a, ka := split(c.args[0])
	b, kb := split(c.args[1])
	if a == nil && b == nil {
		return
	}
	lo, hi = minI, maxI
	switch {
	case c.str == "<" && val:
		hi = kb - ka - 1
	case c.str == "<":
		lo = kb - ka
	case val:
		lo, hi = kb-ka, kb-ka
	default:
		return
	}
	return a, b, lo, hi, true
}

// eachRel calls f for everything known about differences: a-b in [lo,hi], in both orientations.
func eachRel(st *State, f func(a, b *Term, lo, hi int64)) {
	neg := func(x int64) int64 {
		switch x {
		case minI:
			return maxI
		case maxI:
			return minI
		}
		return -x
	}
	for _, fe := range st.facts {
		if fe.f.b != 0 {
			if a, b, lo, hi, ok := relOf(fe.t, fe.f.b == 1); ok {
				f(a, b, lo, hi)
				f(b, a, neg(hi), neg(lo))
			}
		}
	}
}

// ---- evidence ---------------------------------------------------------------

// evidence turns what is known about certain values into marks that stay with the path.
type evidence struct {
	// fact is asked about everything that is known about a value
	fact func(st *State, t *Term, f *Fact, tag func(string))
	// rel is asked about known differences of values
	rel func(st *State, a, b *Term, lo, hi int64, tag func(string))
	// until: once this mark is set nothing more is collected
	until string
}

func (ev *evidence) scan(st *State) {
	if ev.until != "" && st.ohas(ev.until) {
		return
	}
	tag := func(s string) {
		if !st.ohas(s) {
			st.otag(s)
		}
	}
	if ev.fact != nil {
		for _, fe := range st.facts {
			ev.fact(st, fe.t, fe.f, tag)
		}
	}
	if ev.rel != nil {
		eachRel(st, func(a, b *Term, lo, hi int64) { ev.rel(st, a, b, lo, hi, tag) })
	}
}

// hook installs the scan at every decision.
func (ev *evidence) hook(o *Observer) {
	br := o.Branch
	o.Branch = func(st *State, in *ssa.If, cond *Term, val bool) {
		ev.scan(st)
		if br != nil {
			br(st, in, cond, val)
		}
	}
}

// isMethod: the method of the incoming request, in whatever letter case.
func isMethod(t *Term) (canon func(string) string, ok bool) {
	canon = func(s string) string { return s }
	for isCall(t, "strings.ToUpper", "strings.ToLower", "strings.TrimSpace") {
		if t.str != "strings.TrimSpace" {
			canon = strings.ToUpper
		}
		t = t.args[0]
	}
	return canon, reqField(t, "Method")
}

// methodIn: is the method known to be one of the set, or none of them?
func methodIn(t *Term, f *Fact, set map[string]bool) (in, out bool) {
	canon, ok := isMethod(t)
	if !ok {
		return
	}
	if s, ok := strConst(f.eq); f.eq != nil && ok {
		return set[canon(s)], !set[canon(s)]
	}
	n := map[string]bool{}
	for _, k := range f.ne {
		if s, ok := strConst(k); ok && set[canon(s)] {
			n[canon(s)] = true
		}
	}
	return false, len(n) == len(set)
}

func setOf(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

// statusConst: the status that is sent, if it is a fixed one.
func statusConst(ev respEv) (int64, bool) {
	if ev.status == nil {
		return 0, false
	}
	return intConst(ev.status)
}

const writeHeader = "(net/http.ResponseWriter).WriteHeader"

var _ = types.Typ
