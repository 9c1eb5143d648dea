package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callRefs: the repository functions that running fn may run.
func (P *Program) callRefs() (map[*ssa.Function][]*ssa.Function, map[string][]*ssa.Function) {
	if P.refs != nil {
		return P.refs, P.bySig
	}
	refs := map[*ssa.Function][]*ssa.Function{}
	bySig := map[string][]*ssa.Function{}
	taken := map[*ssa.Function]bool{}
	// named types of the repository with methods
	var named []types.Type
	for _, p := range P.ssaPkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				named = append(named, t.Type(), types.NewPointer(t.Type()))
			}
		}
	}
	sort.Slice(named, func(i, j int) bool { return tkey(named[i]) < tkey(named[j]) })
	each := func(f *ssa.Function, visit func(in ssa.Instruction)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				visit(in)
			}
		}
	}
	for _, f := range P.funcs {
		each(f, func(in ssa.Instruction) {
			var callee ssa.Value
			if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
				callee = ci.Common().Value
			}
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o == nil || *o == nil || *o == callee {
					continue
				}
				if g, ok := (*o).(*ssa.Function); ok && g.Blocks != nil {
					taken[g] = true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				taken[mc.Fn.(*ssa.Function)] = true
			}
		})
	}
	for f := range taken {
		k := sigKey(f.Signature)
		bySig[k] = append(bySig[k], f)
	}
	for _, f := range P.funcs {
		set := map[*ssa.Function]bool{}
		each(f, func(in ssa.Instruction) {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Function); ok && g.Blocks != nil {
					set[g] = true
				}
			}
			switch in := in.(type) {
			case *ssa.MakeClosure:
				set[in.Fn.(*ssa.Function)] = true
			case *ssa.MakeInterface:
				ms := P.prog.MethodSets.MethodSet(in.X.Type())
				for i := 0; i < ms.Len(); i++ {
					if m := P.prog.MethodValue(ms.At(i)); m != nil && m.Blocks != nil {
						set[m] = true
					}
				}
			case ssa.CallInstruction:
				c := in.Common()
				if c.IsInvoke() {
					it, _ := c.Value.Type().Underlying().(*types.Interface)
					for _, t := range named {
						if it != nil && types.Implements(t, it) {
							if sel := P.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
								if m := P.prog.MethodValue(sel); m != nil && m.Blocks != nil {
									set[m] = true
								}
							}
						}
					}
				} else if c.StaticCallee() == nil {
					if _, ok := c.Value.(*ssa.Builtin); !ok {
						for _, g := range bySig[sigKey(c.Signature())] {
							set[g] = true
						}
					}
				}
			}
		})
		var l []*ssa.Function
		for g := range set {
			l = append(l, g)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
		refs[f] = l
	}
	P.refs, P.bySig = refs, bySig
	return refs, bySig
}

func sigKey(s *types.Signature) string {
	// the names of parameters do not matter
	bare := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewParam(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.TypeString(types.NewSignatureType(nil, nil, nil, bare(s.Params()), bare(s.Results()), s.Variadic()), nil)
}

func (P *Program) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	refs, _ := P.callRefs()
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), roots...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		work = append(work, refs[f]...)
	}
	return seen
}

func instrName(in ssa.Instruction) string {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return calleeName(ci.Common())
	}
	return ""
}

func fieldVar(t types.Type, i int) *types.Var {
	s := structOf(deref(t))
	if s == nil {
		return nil
	}
	return s.Field(i)
}

// detached: code that only runs in background tasks that neither answer requests nor call upstreams.
func (P *Program) detached(roots []*ssa.Function) map[*ssa.Function]bool {
	refs, _ := P.callRefs()
	front := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), roots...)
	exchange := func(g *ssa.Function) bool {
		for f := range P.reachable(g) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := calleeName(ci.Common())
					if strings.HasPrefix(n, "(net/http.ResponseWriter).") || isDoSig(n, ci.Common().Signature()) || n == "builtin close" {
						return true
					}
					for _, a := range ci.Common().Args {
						if k := tkey(a.Type()); k == "net/http.ResponseWriter" || k == "*net/http.Response" || k == "io.ReadCloser" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if front[f] {
			continue
		}
		front[f] = true
		spawned := map[*ssa.Function]bool{}
		other := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := g.Call.StaticCallee(); t != nil {
						spawned[t] = true
						continue
					}
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					// counted where it is used
					v := in.(ssa.Value)
					onlyGo := true
					if v.Referrers() != nil {
						for _, u := range *v.Referrers() {
							if g, ok := u.(*ssa.Go); !ok || g.Call.Value != v {
								onlyGo = false
							}
						}
					}
					if onlyGo {
						continue
					}
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if t, ok := (*o).(*ssa.Function); ok {
						other[t] = true
					}
				}
			}
		}
		for _, g := range refs[f] {
			if spawned[g] && !other[g] && !exchange(g) {
				continue
			}
			work = append(work, g)
		}
	}
	d := map[*ssa.Function]bool{}
	for f := range P.reachable(roots...) {
		if !front[f] {
			d[f] = true
		}
	}
	return d
}

// writerType: a response writer, whatever interface it is passed as
func writerType(v ssa.Value) bool {
	for {
		if tkey(v.Type()) == "net/http.ResponseWriter" {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.MakeInterface:
			v = x.X
		default:
			return false
		}
	}
}

// coreEvent: what every property of request handling depends on.
func coreEvent(in ssa.Instruction, name string) critMode {
	switch in := in.(type) {
	case ssa.CallInstruction:
		if strings.HasPrefix(name, "(net/http.ResponseWriter).") {
			return critRecv
		}
		if strings.HasPrefix(name, "context.With") || name == "time.AfterFunc" || name == "builtin close" {
			return critArgs
		}
		if name == "builtin recover" {
			return critExec
		}
		if isDoSig(name, in.Common().Signature()) {
			return critRecv
		}
		if in.Common().IsInvoke() && writerType(in.Common().Value) {
			return critArgs
		}
		if g := in.Common().StaticCallee(); g == nil || g.Blocks == nil {
			for _, a := range in.Common().Args {
				if writerType(a) {
					return critArgs
				}
			}
		}
	}
	return critNone
}
