package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// differences: what is known about the differences of values, closed under addition.

// upper is the largest value a-b can have (maxI: not known); nil stands for zero.
func (st *State) upper(a, b *Term) int64 {
	var ka, kb int64
	if a != nil {
		a, ka = linear(st.norm(a))
	}
	if b != nil {
		b, kb = linear(st.norm(b))
	}
	if a == b {
		return ka - kb
	}
	type edge struct {
		from, to *Term
		w        int64
	}
	var edges []edge
	nodes := map[*Term]bool{a: true, b: true}
	add := func(x, y *Term, w int64) { // x - y <= w
		if w == maxI {
			return
		}
		var kx, ky int64
		if x != nil {
			x, kx = linear(x)
		}
		if y != nil {
			y, ky = linear(y)
		}
		edges = append(edges, edge{x, y, w - kx + ky})
		nodes[x], nodes[y] = true, true
	}
	eachRel(st, func(x, y *Term, lo, hi int64) { add(x, y, hi) })
	for _, fe := range st.facts {
		// what has a prefix or suffix is as long as that
		if fe.f.b == 1 && isCall(fe.t, "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix") && len(fe.t.args) > 1 {
			if k, ok := intConst(tLen(fe.t.args[1])); ok {
				add(nil, tLen(fe.t.args[0]), -k)
			}
		}
	}
	for n := range nodes {
		if n == nil {
			continue
		}
		lo, hi := st.interval(n)
		add(n, nil, hi)
		if lo != minI {
			add(nil, n, -lo)
		}
	}
	// a - a = 0; relax along x - y <= w: dist[y] = sup of a - y
	dist := map[*Term]int64{a: 0}
	for range nodes {
		for _, e := range edges {
			d, ok := dist[e.from]
			if !ok {
				continue
			}
			if o, ok := dist[e.to]; !ok || d+e.w < o {
				dist[e.to] = d + e.w
			}
		}
	}
	if d, ok := dist[b]; ok && d < maxI/4 {
		return d + ka - kb
	}
	return maxI
}

// inside: the index is known to be in the sequence (slack 1: or at its end).
func (st *State) inside(s, idx *Term, in ssa.Instruction, slack int64) (bool, string) {
	if st.upper(nil, idx) > 0 {
		return false, "it may be negative"
	}
	n := st.norm(tLen(s))
	if isCall(s, "makeslice") {
		n = st.norm(s.args[1])
	}
	var x ssa.Value
	switch in := in.(type) {
	case *ssa.Slice:
		x = in.X
	case *ssa.IndexAddr:
		x = in.X
	case *ssa.Index:
		x = in.X
	}
	if x != nil {
		if a, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			n = tInt(a.Len())
		}
	}
	if st.upper(idx, n) > slack-1 {
		return false, "it may be beyond the end"
	}
	return true, ""
}

func contains[T comparable](l []T, x T) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// each goes through the instructions of a function.
func each(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}
