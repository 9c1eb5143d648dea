package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// routeWalk follows the search for the route of a request.
//
//	rl:in     a step of the search is under way
//	rl:test   the index of the route tested last; rl:miss: it is known not to match
//	rl:match  the index of the first route known to match
//	rl:end    all routes were visited
type routeWalk struct {
	P     *Program
	r     *Report
	loops map[string]*routeLoop
	bad   func(st *State, rule, pos, msg string)
}

type routeLoop struct {
	step, first int64
	known       bool // the start is a constant
	off         int64
	tests       int
	pos         string
	skipped     []func()
	other       bool // visits routes in some other way
}

func routeElem(t *Term) (idx *Term, ok bool) {
	if (t.op == OIndexAddr || t.op == OLoad && t.args[0].op == OIndexAddr) && len(t.args) > 0 {
		if t.op == OLoad {
			t = t.args[0]
		}
		if _, ok := isFieldOf(t.args[0], "Routes"); ok {
			return t.args[1], true
		}
	}
	return nil, false
}

// routeField: the value of a field of a configured route, and the index of the route.
func routeField(t *Term, name string) (idx *Term, ok bool) {
	b, ok := isFieldOf(t, name)
	if !ok {
		return nil, false
	}
	return routeElem(b)
}

// routeIdx: the indexes of the configured routes a value depends on.
func routeIdx(t *Term) []*Term {
	var r []*Term
	t.contains(func(x *Term) bool {
		if i, ok := routeElem(x); ok {
			for _, k := range r {
				if k == i {
					return false
				}
			}
			r = append(r, i)
		}
		return false
	})
	return r
}

func isMatch(name string) bool {
	switch name {
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match", "regexp.MatchString", "regexp.Match":
		return true
	}
	return strings.HasPrefix(name, "(*regexp.Regexp).Find")
}

// routeTest: is the value the outcome of matching a route's pattern? It returns pattern, subject and the route's index.
func routeTest(t *Term) (pat, subj, idx *Term, ok bool) {
	if t.op == OExt && t.n == 0 {
		t = t.args[0]
	}
	if t.op != OCall || !isMatch(t.str) || len(t.args) < 2 {
		return
	}
	pat, subj = t.args[0], t.args[1]
	is := routeIdx(pat)
	if len(is) != 1 {
		return
	}
	return pat, subj, is[0], true
}

// loopSym: the name of the counter an index is made of, and the distance to it
func loopSym(idx *Term) (string, int64, bool) {
	b, k := linear(idx)
	if b == nil || b.op != OSym || !strings.HasPrefix(b.str, "loop:") {
		return "", 0, false
	}
	return b.str, k, true
}

// shapeOf reads off how a counted loop walks over the routes.
func (w *routeWalk) shapeOf(ph *ssa.Phi, step int64) *routeLoop {
	l := &routeLoop{step: step, pos: w.P.pos(ph.Block().Instrs[0].Pos())}
	found := false
	see := func(v ssa.Value, k int64) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			if ia, ok := u.(*ssa.IndexAddr); ok && ia.Index == v && strings.HasSuffix(tkey(deref(ia.Type())), ".Route") {
				l.off, found = k, true
				l.pos = w.P.pos(instrPos(ia))
			}
		}
	}
	see(ph, 0)
	if ph.Referrers() != nil {
		for _, u := range *ph.Referrers() {
			if b, ok := u.(*ssa.BinOp); ok && b.X == ph && (b.Op == token.ADD || b.Op == token.SUB) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
					k := c.Int64()
					if b.Op == token.SUB {
						k = -k
					}
					see(b, k)
				}
			}
		}
	}
	if !found {
		return nil
	}
	for j, ed := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[j]) {
			continue
		}
		if c, ok := ed.(*ssa.Const); ok && c.Value != nil && !l.known {
			l.first, l.known = c.Int64(), true
		} else {
			l.other = true
		}
	}
	return l
}

func (w *routeWalk) install(o *Observer) {
	w.loops = map[string]*routeLoop{}
	lp := o.Loop
	o.Loop = func(st *State, ph *ssa.Phi, v *Term) {
		if lp != nil {
			lp(st, ph, v)
		}
		if v.op != OSym || st.ohas("sent") {
			return
		}
		l, ok := w.loops[v.str]
		if !ok {
			l = w.shapeOf(ph, st.top().info.counters[ph])
			w.loops[v.str] = l
		}
		if l == nil {
			return
		}
		if st.ohas("rl:in") && !st.ohas("rl:miss") && !st.ohas("rl:match") {
			n := st.fork()
			l.skipped = append(l.skipped, func() {
				w.bad(n, "passed over", l.pos, "on this path a route is passed over that is not known not to match")
			})
		}
		if !st.ohas("rl:match") {
			if !st.ohas("rl:in") {
				st.otag("rl:in")
			}
			st.odel("rl:test")
			st.odel("rl:miss")
		}
	}
	ret := o.Ret
	o.Ret = func(c *CallEv, st *State, res *Term) {
		if ret != nil {
			ret(c, st, res)
		}
		if !isMatch(c.name) || len(c.args) < 2 || st.ohas("sent") {
			return
		}
		if is := routeIdx(st.norm(c.arg(0))); len(is) == 1 {
			w.r.count("route tests")
			w.r.site("route test sites", c.pos())
			if name, _, ok := loopSym(is[0]); ok && w.loops[name] != nil {
				w.loops[name].tests++
			}
			if !st.ohas("rl:match") {
				st.oset("rl:test", is[0])
			}
		}
	}
	ev := &evidence{until: "sent", fact: func(st *State, t *Term, f *Fact, tag func(string)) {
		if f.b == 0 && f.nilness == 0 || st.ohas("rl:match") {
			return
		}
		if _, _, idx, ok := routeTest(t); ok {
			hit := f.b == 1
			if f.b == 0 {
				hit = f.nilness == 2
			}
			if hit {
				st.oset("rl:match", idx)
				st.odel("rl:test")
				st.odel("rl:miss")
				st.odel("rl:in")
			} else if one(st, "rl:test") == idx {
				tag("rl:miss")
			}
		}
	}, rel: func(st *State, a, b *Term, lo, hi int64, tag func(string)) {
		if a == nil || b == nil || a.op != OSym || b.op != OLen || st.ohas("rl:match") {
			return
		}
		if l := w.loops[a.str]; l != nil && lo != minI && lo+l.off >= 0 {
			if _, ok := isFieldOf(b.args[0], "Routes"); ok {
				tag("rl:end")
			}
		}
	}}
	ev.hook(o)
	br := o.Branch
	o.Branch = func(st *State, in *ssa.If, cond *Term, val bool) {
		br(st, in, cond, val)
		// the index of the route keeps its name when the search goes on
		if in == nil {
			return
		}
		if m := one(st, "rl:match"); m != nil {
			if b, _ := linear(m); b != nil && b.op == OSym && strings.HasPrefix(b.str, "loop:") {
				st.eng.rename(st, b, tSym("route:"+b.str, b.typ))
			}
		}
	}
}

// shapes reports searches that do not visit the routes in order.
func (w *routeWalk) shapes() {
	for _, l := range w.loops {
		if l == nil || l.tests == 0 {
			continue
		}
		w.r.site("route searches", l.pos)
		if l.other || !l.known || l.step != 1 || l.first+l.off != 0 {
			w.bad(nil, "order", l.pos, "the routes are not tested one by one from the first to the last")
		}
		for _, f := range l.skipped {
			f()
		}
	}
}
