package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = checkRouteChoice
	checks["C16"] = checkUpstreamChoice
}

func critRoutes(in ssa.Instruction, name string) critMode {
	if isNewRequest(name) {
		_, u, _ := requestArgs(name)
		return critArg0 + critMode(u)
	}
	if isMatch(name) {
		return critArgs
	}
	return critNone
}

// anchored: is the pattern the path of the route, anchored at the start as a whole?
func anchored(pat *Term) bool {
	if isCall(pat, "regexp.MustCompile") {
		return anchored(pat.args[0])
	}
	if pat.op == OExt && pat.n == 0 && isCall(pat.args[0], "regexp.Compile") {
		return anchored(pat.args[0].args[0])
	}
	p := parts(pat)
	if len(p) != 3 {
		return false
	}
	a, ok1 := strConst(p[0])
	b, ok2 := strConst(p[2])
	if !ok1 || !ok2 || b != ")" || a != "^(?:" && a != "^(" && a != `\A(?:` && a != `\A(` {
		return false
	}
	_, ok := isFieldOf(p[1], "Path")
	return ok
}

func requestURI(t *Term) bool {
	return reqField(t, "RequestURI")
}

// C15: which route serves a request.
func checkRouteChoice(P *Program, r *Report) {
	r.rule = "in every forwarding handler: the routes are tested one by one from the first on, each against the whole request URI with its compiled pattern (or its path, anchored as a whole); " +
		"a route is passed over only when it is known not to match, 404 is answered only after the last; every upstream attempt uses resource, policy and transform of the first route known to match; " +
		"at the start every pattern is compiled from the route's own path, anchored as a whole, and the routes are sorted by decreasing path length"
	runHandlers(P, r, handlerCfg{depth: 1, limit: 200, crit: func(in ssa.Instruction, name string) critMode {
		return maxMode(critRoutes(in, name), critStatus(in, name))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		w := &routeWalk{P: P, r: r, bad: r.violate}
		o.Call = func(c *CallEv) {
			st := c.st
			if e, ok := respEvent(c); ok && !e.header {
				if e.commit && !st.ohas("sent") {
					if code, ok := statusConst(e); ok && code == 404 {
						r.count("404 checked")
						if !st.ohas("rl:end") && !st.ohas("rl:match") {
							r.violate(st, "404", c.pos(), "404 is answered although not all routes are known to have been tested"+inFn(c.in))
						}
					}
				}
				st.dead = true
				return
			}
			if isMatch(c.name) && len(c.args) >= 2 {
				pat, subj := st.norm(c.arg(0)), st.norm(c.arg(1))
				if len(routeIdx(pat)) == 0 {
					return
				}
				if _, ok := routeField(pat, "PathRegex"); !ok && !anchored(pat) {
					r.violate(st, "pattern", c.pos(), "a route is tested with the pattern "+pat.String()+", which is not its path anchored as a whole"+inFn(c.in))
				}
				if !requestURI(subj) {
					r.violate(st, "subject", c.pos(), "a route is tested against "+subj.String()+" instead of the request URI"+inFn(c.in))
				}
				return
			}
			if !isNewRequest(c.name) {
				return
			}
			r.count("attempts checked")
			r.site("attempt sites", c.pos())
			m := one(st, "rl:match")
			if m == nil {
				r.violate(st, "no match", c.pos(), "an upstream attempt is made although no route is known to match"+inFn(c.in))
				return
			}
			_, i, _ := requestArgs(c.name)
			u := st.norm(c.arg(i))
			for _, k := range routeIdx(u) {
				if k != m {
					r.violate(st, "other route", c.pos(), "an upstream attempt is made for the route "+k.String()+", the first that matched is "+m.String()+inFn(c.in))
				}
			}
			// all attempts of a request use the same
			st.dead = true
		}
		w.install(o)
		o.After = w.shapes
		return o
	})
	routesPass(P, r, true, func(c *CallEv, routes *Term, bad func(rule, msg string)) {
		st := c.st
		if !done(st, tagCompiled, routes) {
			bad("pattern", "not every route has a pattern compiled from its own path, anchored at the start as a whole")
		}
		if !done(st, tagCompOk, routes) {
			bad("pattern", "not every pattern of a route is known to have compiled")
		}
		if !isSorted(st, routes) {
			bad("order", "the routes were not sorted after their paths were final")
		} else if st.ohas("badorder") {
			bad("order", "the routes were sorted with a comparison that may place a longer path after a shorter one")
		}
	})
	r.atLeast("route searches", 1)
	r.atLeast("route tests", 1)
	r.atLeast("attempts checked", 1)
	r.atLeast("404 checked", 1)
}

// resourceElem: an element of a configured resource, with the key of the resource and the index.
func resourceElem(t *Term) (key, idx *Term, ok bool) {
	if t.op == OLoad {
		t = t.args[0]
	}
	if t.op != OIndexAddr {
		return
	}
	m := t.args[0]
	if m.op == OExt && m.n == 0 {
		m = m.args[0]
	}
	if m.op != OLookup {
		return
	}
	if _, isRes := isFieldOf(m.args[0], "Resources"); !isRes {
		return
	}
	return m.args[1], t.args[1], true
}

func resourceElems(t *Term) []*Term {
	var r []*Term
	t.contains(func(x *Term) bool {
		if x.op == OLoad {
			return false
		}
		if _, _, ok := resourceElem(x); ok {
			for _, k := range r {
				if k == x {
					return false
				}
			}
			r = append(r, x)
		}
		return false
	})
	return r
}

// labelOf: a label of an element of a configured resource
func labelOf(t *Term) (elem *Term, ok bool) {
	if t.op != OLoad || t.args[0].op != OIndexAddr {
		return
	}
	b, ok := isFieldOf(t.args[0].args[0], "Labels")
	if !ok {
		return
	}
	if b.op == OLoad {
		b = b.args[0]
	}
	_, _, ok = resourceElem(b)
	return b, ok
}

// policyLabel: does the value come from the policy of the route?
func policyLabel(t *Term) (route *Term, ok bool) {
	_, isLabel := isFieldOf(t, "Label")
	if !isLabel {
		return
	}
	t.contains(func(x *Term) bool {
		if x.op == OLookup {
			if _, isPol := isFieldOf(x.args[0], "Policies"); isPol {
				if i, r := routeField(x.args[1], "Policy"); r {
					route, ok = i, true
				}
			}
		}
		return ok
	})
	return
}

func isDice(t *Term) bool {
	return t.contains(func(x *Term) bool {
		return x.op == OCall && (strings.HasPrefix(x.str, "math/rand.") || strings.HasPrefix(x.str, "(*math/rand."))
	})
}

// C16: which upstream serves a request.
func checkUpstreamChoice(P *Program, r *Report) {
	r.rule = "at every upstream attempt on every path: the URI is made from one element of the configured resource that the matched route names; if the route has a policy, that element is known to carry a label " +
		"equal to the one picked from this very policy (or the fallback label when nothing was picked), if it has none, it is the first element; " +
		"every element of a resource is accessed only where it is known to exist"
	runHandlers(P, r, handlerCfg{depth: 2, limit: 200, prov: true, crit: critRoutes}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		w := &routeWalk{P: P, r: r, bad: func(*State, string, string, string) {}}
		o.Call = func(c *CallEv) {
			st := c.st
			if e, ok := respEvent(c); ok && !e.header {
				st.dead = true
				return
			}
			if !isNewRequest(c.name) {
				return
			}
			r.count("attempts checked")
			r.site("attempt sites", c.pos())
			bad := func(rule, msg string) { r.violate(st, rule, c.pos(), msg+inFn(c.in)) }
			_, i, _ := requestArgs(c.name)
			u := st.norm(c.arg(i))
			m := one(st, "rl:match")
			es := resourceElems(u)
			n := st.oint("n") + 1
			st.osetInt("n", n)
			st.oset("uri", u) // keeps what was chosen apart
			if n == 2 {
				st.dead = true
			}
			switch {
			case m == nil:
				return // C15
			case len(es) == 0:
				bad("upstream", "an attempt is made to "+u.String()+", which is not an element of a configured resource")
				return
			case len(es) > 1:
				bad("upstream", "an attempt is made to an address mixed from several upstreams, "+es[0].String()+" and "+es[1].String())
				return
			}
			key, idx, _ := resourceElem(es[0])
			if k, ok := routeField(key, "Resource"); !ok || k != m {
				bad("resource", "an attempt is made to the resource "+key.String()+", which is not that of the route that matched")
			}
			zero, isC := intConst(idx)
			switch {
			case st.ohas("pol") && one(st, "pol") == m:
				r.count("attempts with a policy")
				switch l := one(st, "lab"); {
				case l == nil:
					bad("label", "an attempt is made to an upstream that is not known to carry the label the policy produced")
				case l != es[0]:
					bad("label", "an attempt is made to "+es[0].String()+", the label was found on "+l.String())
				}
			case st.ohas("nopol") && one(st, "nopol") == m:
				r.count("attempts without a policy")
				if !isC || zero != 0 {
					bad("first", "an attempt for a route without a policy is made to "+es[0].String()+", which is not the first upstream of its resource")
				}
			default:
				bad("policy", "an attempt is made without knowing whether the route that matched has a policy")
			}
		}
		o.Index = func(st *State, s, idx *Term, in ssa.Instruction, slack int64) bool {
			s = st.norm(s)
			if !fromResources(s) || s.contains(func(x *Term) bool { _, ok := isFieldOf(x, "Labels"); return ok }) {
				return true
			}
			r.count("upstream list accesses")
			if !inBounds(st, s, st.norm(idx), slack) {
				r.violate(st, "bounds", P.pos(instrPos(in)), "element "+idx.String()+" of the upstreams of a resource is accessed although it is not known to exist"+inFn(in))
			}
			return true
		}
		w.install(o)
		same := func(st *State, a, b *Term) {
			el, ok := labelOf(a)
			if !ok {
				return
			}
			m := one(st, "rl:match")
			if s, isC := strConst(b); isC {
				if s == "default" && !st.ohas("picked") {
					st.oset("lab", el)
				}
				return
			}
			if k, ok := policyLabel(b); ok && k == m {
				st.oset("lab", el)
			}
		}
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			m := one(st, "rl:match")
			if m == nil {
				return
			}
			switch {
			case t.op == OLen:
				if k, ok := routeField(t.args[0], "Policy"); ok {
					if lo, hi := st.interval(t); lo > 0 {
						st.oset("pol", k)
					} else if hi == 0 {
						st.oset("nopol", k)
					}
				}
			case t.op == OBin && strings.HasPrefix(t.str, "<") && f.b == 1 && isDice(t.args[0]):
				tag("picked")
			case t.op == OBin && t.str == "==" && f.b == 1:
				same(st, t.args[0], t.args[1])
				same(st, t.args[1], t.args[0])
			}
			if f.eq != nil {
				same(st, t, f.eq)
			}
			if k, ok := routeField(t, "Policy"); ok {
				if s, c := strConst(f.eq); f.eq != nil && c && s == "" {
					st.oset("nopol", k)
				}
				for _, n := range f.ne {
					if s, c := strConst(n); c && s == "" {
						st.oset("pol", k)
					}
				}
			}
		}}
		ev.hook(o)
		return o
	})
	r.atLeast("attempts with a policy", 1)
	r.atLeast("attempts without a policy", 1)
	r.atLeast("upstream list accesses", 1)
}

// inBounds: is 0 <= idx < len(s) (or <= len(s) with slack 1) known?
func inBounds(st *State, s, idx *Term, slack int64) bool {
	n := st.norm(tLen(s))
	lo, hi := st.interval(idx)
	if lo < 0 {
		return false
	}
	nlo, _ := st.interval(n)
	if hi < nlo+slack {
		return true
	}
	b, k := linear(idx)
	ok := false
	eachRel(st, func(x, y *Term, l, h int64) {
		if x == b && y == n && h != maxI && h+k < slack {
			ok = true
		}
	})
	return ok
}
