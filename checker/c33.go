package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C33"] = checkSamples }

const maxSamples = 24

func checkSamples(P *Program, r *Report) {
	hist := P.ownType("samples")
	one := P.ownType("sample")
	if hist == nil || one == nil {
		r.undecided("the types of samples are not there")
		return
	}
	r.rule = "in every function that has to do with histories of samples, given that every history it finds has at most 24 samples: when it ends or gives up a lock, every history that it left in memory has at most 24 samples; " +
		"a method that takes a sample leaves it, and nothing after it, at the end of its history, after a tail of what was in there; every index into a slice is inside of it"
	isHist := func(t types.Type) bool { return t != nil && types.Identical(t, hist) }
	method := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && isHist(deref(f.Signature.Recv().Type()))
	}
	var roots []*ssa.Function
	for _, f := range P.funcs {
		if f.Blocks == nil {
			continue
		}
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		use := method(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && (isHist(v.Type()) || isHist(deref(v.Type()))) {
					use = true
				}
				if s, ok := in.(*ssa.Store); ok && isHist(s.Val.Type()) {
					use = true
				}
			}
		}
		// tasks run on their own
		for _, g := range []*ssa.Function{top, f} {
			if use && !contains(roots, g) && g.Name() != "init" && (g == top || spawned(g)) {
				roots = append(roots, g)
			}
		}
	}
	for _, f := range roots {
		if method(f) {
			for _, p := range f.Params[1:] {
				if types.Identical(p.Type(), one) {
					r.count("methods that take a sample")
				}
			}
		}
	}
	// the history of a process is only extended by its methods
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && isHist(s.Val.Type()) {
					r.site("assignments of histories", P.pos(s.Pos()))
				}
			}
		}
	}
	runFuncs(P, r, "functions with histories", roots, handlerCfg{full: true, variants: 200}, func(root *ssa.Function) *Observer {
		o := &Observer{}
		var recv, added *Term
		meth := method(root)
		opaque := func(v *Term) bool { return v.op == OLoad || v.op == OSym }
		bound := func(st *State, v *Term) {
			if v != nil && v.typ != nil && isHist(v.typ) && opaque(v) {
				st.assume(tBin(token.LSS, tLen(v), tInt(maxSamples+1)), true)
			}
		}
		o.Enter = func(st *State, fn *ssa.Function, args []*Term) {
			if fn != root {
				return
			}
			recv, added = nil, nil
			for i, p := range fn.Params {
				switch {
				case i == 0 && meth:
					recv = args[0]
				case types.Identical(p.Type(), one):
					added = args[i]
				}
				bound(st, args[i])
			}
		}
		o.Load = func(st *State, p, v *Term, in ssa.Instruction) { bound(st, st.norm(v)) }
		settle := func(st *State, at string) {
			l := st.oget("written")
			for _, p := range l {
				v := st.norm(st.load(p, hist))
				if v == nil || opaque(v) && st.upper(tLen(v), nil) <= maxSamples {
					continue
				}
				n := st.upper(sliceLen(v), nil)
				r.count("histories measured")
				if n > maxSamples {
					r.violate(st, "bound", at, "a history is left that may have more than 24 samples")
				}
			}
		}
		o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if isHist(s.Val.Type()) && p.op != OAlloc {
					if !contains(st.oget("written"), p) {
						st.oset("written", append(append([]*Term(nil), st.oget("written")...), p)...)
					}
					if recv != nil && p == recv {
						st.odel("last")
					}
				}
				if added != nil && st.norm(v) == added && p.op == OIndexAddr {
					// the last one is overwritten
					cur := st.norm(st.load(recv, hist))
					if p.args[0] == cur && st.upper(p.args[1], sliceLen(cur)) <= -1 && st.upper(sliceLen(cur), p.args[1]) <= 1 {
						st.oset("last", p)
					}
				}
			}
		}
		o.Index = func(st *State, s, idx *Term, in ssa.Instruction, slack int64) bool {
			r.count("indexes checked")
			if ok, why := st.inside(s, idx, in, slack); !ok {
				r.violate(st, "index", P.pos(instrPos(in)), "an index is used of which "+why+" of the slice"+inFn(in))
			}
			return true
		}
		o.Call = func(c *CallEv) {
			if strings.HasPrefix(c.name, "(*sync.") && strings.Contains(c.name, "nlock") {
				settle(c.st, c.pos())
			}
		}
		o.Go = func(st *State, fn *Term, args []*Term, in ssa.Instruction) { settle(st, P.pos(instrPos(in))) }
		o.Exit = func(st *State, res []*Term) {
			settle(st, P.pos(root.Pos()))
			if recv == nil || added == nil {
				return
			}
			r.count("endings of methods that take a sample")
			v := st.norm(st.load(recv, hist))
			ok := st.ohas("last")
			if isCall(v, "append") || v.op == OSliceOf {
				ok = endsWith(st, v, added)
			}
			if !ok {
				r.violate(st, "order", P.pos(root.Pos()), "a sample is not put at the end of its history, but it is left as "+v.String())
			}
		}
		return o
	})
	r.atLeast("methods that take a sample", 1)
	r.atLeast("histories measured", 1)
	r.atLeast("indexes checked", 1)
	r.atLeast("endings of methods that take a sample", 1)
}

// spawned: is it the body of a go statement?
func spawned(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			v := g.Call.Value
			if m, ok := v.(*ssa.MakeClosure); ok {
				v = m.Fn
			}
			if v == fn {
				return true
			}
		}
	}
	return false
}

// sliceLen: how long is it?
func sliceLen(v *Term) *Term {
	if isCall(v, "makeslice") {
		return v.args[1]
	}
	return tLen(v)
}

// endsWith: a tail of something with just this added to it
func endsWith(st *State, v, x *Term) bool {
	for v.op == OSliceOf && v.args[2].op == ONil {
		v = v.args[0]
	}
	if !isCall(v, "append") {
		return false
	}
	l := st.norm(v.args[1])
	if l.op != OList || len(l.args) != 1 || st.norm(l.args[0]) != x {
		return false
	}
	b := v.args[0]
	for b.op == OSliceOf && b.args[2].op == ONil {
		b = b.args[0]
	}
	return b.op == OLoad
}
