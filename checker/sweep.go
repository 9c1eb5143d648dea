package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sweeps follows loops over configured collections: what was done to, or is known of, every element of them.
//
//	it|T|L    T holds for the element the loop L is at
//	all|T|L   and for all elements before
//	done|T    T holds for all elements of the collections listed
type sweeps struct {
	P    *Program
	r    *Report
	tags []string
	// elems: is the value a collection to follow?
	seq func(t *Term) bool
	// elem, if set, is the type of the collections' elements: other loops are not followed
	elem types.Type
	// end is told when a loop over the collection visited all elements
	end   func(st *State, seq *Term, all func(tag string) bool)
	loops map[string]*sweepLoop
	site  map[string]string
}

type sweepLoop struct {
	ok  bool
	off int64
}

func (w *sweeps) loopOf(ph *ssa.Phi, step int64) *sweepLoop {
	l := &sweepLoop{}
	if step != 1 {
		return l
	}
	for j, ed := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[j]) {
			if b, ok := ed.(*ssa.BinOp); !ok || b.Op != token.ADD {
				return l
			}
			continue
		}
		c, ok := ed.(*ssa.Const)
		if !ok || c.Value == nil || l.ok {
			return &sweepLoop{}
		}
		l.ok, l.off = true, -c.Int64()
	}
	return l
}

// at: may the loop with this head index a collection to follow?
func (w *sweeps) at(st *State, head *ssa.BasicBlock) bool {
	for _, b := range head.Parent().Blocks {
		if !head.Dominates(b) || !leadsTo(b, head) {
			continue
		}
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			s, ok := ia.X.Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(s.Elem(), w.elem) {
				continue
			}
			if def, ok := ia.X.(ssa.Instruction); ok && def.Block() != head && def.Block().Dominates(head) {
				if !w.seq(st.norm(st.eng.value(st, ia.X))) {
					continue
				}
			}
			return true
		}
	}
	return false
}

func leadsTo(b, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// loopAt: the loop that is at the index or key
func (w *sweeps) loopAt(idx *Term) (string, bool) {
	if idx.op == OSym && w.site[idx.str] != "" {
		return idx.str, true
	}
	b, k := linear(idx)
	if b == nil || b.op != OSym {
		return "", false
	}
	l := w.loops[b.str]
	if l == nil || !l.ok || l.off != k {
		return "", false
	}
	return b.str, true
}

func (w *sweeps) flag(st *State, tag string, idx *Term) {
	if l, ok := w.loopAt(idx); ok && !st.ohas("it|"+tag+"|"+l) {
		st.otag("it|" + tag + "|" + l)
	}
}

func (w *sweeps) unflag(st *State, tag string, idx *Term) {
	if l, ok := w.loopAt(idx); ok {
		st.odel("it|" + tag + "|" + l)
	}
}

func (w *sweeps) flagged(st *State, tag string, idx *Term) bool {
	l, ok := w.loopAt(idx)
	return ok && st.ohas("it|"+tag+"|"+l)
}

// boundary: a new iteration starts.
func (w *sweeps) boundary(st *State, l string) {
	first := !st.ohas("on|" + l)
	if first {
		st.otag("on|" + l)
	}
	for _, t := range w.tags {
		if first || st.ohas("all|"+t+"|"+l) && st.ohas("it|"+t+"|"+l) {
			if !st.ohas("all|" + t + "|" + l) {
				st.otag("all|" + t + "|" + l)
			}
		} else {
			st.odel("all|" + t + "|" + l)
		}
		st.odel("it|" + t + "|" + l)
	}
}

func (w *sweeps) finish(st *State, l string, seq *Term) {
	if !st.ohas("on|" + l) {
		return
	}
	w.end(st, seq, func(t string) bool { return st.ohas("all|" + t + "|" + l) })
	w.forget(st, l)
}

func (w *sweeps) forget(st *State, l string) {
	st.odel("on|" + l)
	for _, t := range w.tags {
		st.odel("all|" + t + "|" + l)
		st.odel("it|" + t + "|" + l)
	}
}

func (w *sweeps) install(o *Observer) {
	w.loops, w.site = map[string]*sweepLoop{}, map[string]string{}
	lp := o.Loop
	o.Loop = func(st *State, ph *ssa.Phi, v *Term) {
		if lp != nil {
			lp(st, ph, v)
		}
		if v.op != OSym {
			return
		}
		if w.elem != nil && !w.at(st, ph.Block()) {
			return
		}
		l := w.loops[v.str]
		if l == nil {
			l = w.loopOf(ph, st.top().info.counters[ph])
			w.loops[v.str] = l
		}
		if l.ok {
			w.boundary(st, v.str)
		}
	}
	rn := o.RangeNext
	o.RangeNext = func(st *State, m, key, val *Term, in ssa.Instruction) {
		if rn != nil {
			rn(st, m, key, val, in)
		}
		if m == nil || !w.seq(m) {
			return
		}
		name := siteName(st.top(), in) + "k"
		if key == nil {
			w.P.note(w.r, "loops over configured collections", in)
			w.boundary(st, name)
			w.finish(st, name, m)
			return
		}
		if key.op == OSym && strings.HasPrefix(name, key.str) {
			w.site[key.str] = w.P.pos(instrPos(in))
			w.boundary(st, key.str)
		}
	}
	ev := &evidence{rel: func(st *State, a, b *Term, lo, hi int64, tag func(string)) {
		if a == nil || b == nil || a.op != OSym || b.op != OLen || lo == minI {
			return
		}
		l := w.loops[a.str]
		if l == nil || !l.ok || lo+l.off < 0 || !w.seq(b.args[0]) || !st.ohas("on|"+a.str) {
			return
		}
		w.finish(st, a.str, b.args[0])
	}}
	ev.hook(o)
}

func (P *Program) note(r *Report, what string, in ssa.Instruction) { r.site(what, P.pos(instrPos(in))) }

// done: T holds for all elements of the collection.
func done(st *State, tag string, seq *Term) bool {
	for _, t := range st.oget("done|" + tag) {
		if t == seq {
			return true
		}
	}
	return false
}

func setDone(st *State, tag string, seq *Term) {
	if !done(st, tag, seq) {
		st.oset("done|"+tag, append(append([]*Term(nil), st.oget("done|"+tag)...), seq)...)
	}
}

func undone(st *State, tag string, seq *Term) {
	var l []*Term
	for _, t := range st.oget("done|" + tag) {
		if t != seq {
			l = append(l, t)
		}
	}
	st.odel("done|" + tag)
	if len(l) > 0 {
		st.oset("done|"+tag, l...)
	}
}

// startsWith: the string a decided condition shows to start with the byte.
func startsWith(t *Term, f *Fact, prefix string) *Term {
	isP := func(x *Term) bool { s, ok := strConst(x); return ok && s == prefix }
	eqInt := func(k int64) bool {
		if f.eq != nil {
			z, ok := intConst(f.eq)
			return ok && z == k
		}
		return f.lo == k && f.hi == k
	}
	switch {
	case isCall(t, "strings.HasPrefix") && f.b == 1 && isP(t.args[1]):
		return t.args[0]
	case isCall(t, "strings.Index", "strings.IndexByte", "strings.IndexRune") && eqInt(0):
		if isP(t.args[1]) {
			return t.args[0]
		}
		if k, ok := intConst(t.args[1]); ok && string(rune(k)) == prefix {
			return t.args[0]
		}
	case isCall(t, "index") && eqInt(int64(prefix[0])):
		if k, ok := intConst(t.args[1]); ok && k == 0 {
			return t.args[0]
		}
	case t.op == OSliceOf && f.eq != nil && isP(f.eq) && (t.args[1].op == ONil || t.args[1] == tInt(0)) && t.args[2] == tInt(int64(len(prefix))):
		return t.args[0]
	}
	return nil
}

const (
	tokLSS = token.LSS
)
