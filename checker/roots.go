package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals interprets the package initialisers and keeps what is never changed afterwards.
func (e *Engine) initGlobals() {
	saved := e.obs
	var out *State
	e.obs = &Observer{Exit: func(st *State, res []*Term) {
		if out == nil {
			out = st
		}
	}}
	// the main package imports the library: run the library first
	var inits []*ssa.Function
	for _, p := range e.P.ssaPkgs {
		if f := p.Func("init"); f != nil {
			if strings.Contains(p.Pkg.Path(), "/cmd/") {
				continue
			}
			inits = append(inits, f)
		}
	}
	for _, f := range inits {
		// the guard is false at first
		st := e.newState(f, nil, nil)
		if g, ok := f.Pkg.Members["init$guard"].(*ssa.Global); ok {
			st.store(tGlobal(g), tBool(false), types.Typ[types.Bool])
		}
		e.rootFn, e.rootName = f, "init"
		st2 := st
		// the entry block loads the guard
		e.Run(st2)
	}
	e.obs = saved
	if out == nil {
		e.rep.undecided("package initialisation could not be interpreted")
		return
	}
	written := e.P.writtenGlobals()
	keep := map[*Term]bool{}
	var work []*Term
	mark := func(t *Term) {
		t.contains(func(x *Term) bool {
			if x.op == OAlloc && !keep[x] {
				keep[x] = true
				work = append(work, x)
			}
			return false
		})
	}
	var heap []*Obj
	for _, o := range out.heap {
		if o.root.op != OGlobal {
			continue
		}
		if written[o.root.str] {
			continue
		}
		e.constG[o.root.str] = true
		heap = append(heap, o)
		for _, c := range o.cells {
			mark(c.v)
		}
	}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		if o := out.obj(t); o != nil {
			heap = append(heap, o)
			for _, c := range o.cells {
				mark(c.v)
			}
		}
	}
	for t := range keep {
		e.persist[t] = true
	}
	sort.Slice(heap, func(i, j int) bool { return heap[i].root.id < heap[j].root.id })
	e.initHeap = heap
	var facts []factEntry
	for _, f := range out.facts {
		ok := len(f.t.syms) > 0
		for _, s := range f.t.syms {
			if !keep[s] {
				ok = false
			}
		}
		if ok {
			facts = append(facts, f)
		}
	}
	e.initFacts = facts
}

// writtenGlobals: package variables that change after initialisation.
func (P *Program) writtenGlobals() map[string]bool {
	w := map[string]bool{}
	var useAddr func(g string, v ssa.Value, seen map[ssa.Value]bool)
	var useVal func(g string, v ssa.Value, seen map[ssa.Value]bool)
	// an address inside the variable
	useAddr = func(g string, v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					w[g] = true
				} else {
					w[g] = true // address stored somewhere
				}
			case *ssa.FieldAddr:
				useAddr(g, in, seen)
			case *ssa.IndexAddr:
				useAddr(g, in, seen)
			case *ssa.UnOp:
				useVal(g, in, seen)
			case *ssa.DebugRef:
			case *ssa.Slice:
				useVal(g, in, seen)
			case ssa.CallInstruction:
				c := in.Common()
				n := calleeName(c)
				if strings.HasPrefix(n, "(*sync.") {
					continue
				}
				f := c.StaticCallee()
				if f != nil && f.Blocks != nil {
					for i, a := range c.Args {
						if a == v && i < len(f.Params) {
							useAddr(g, f.Params[i], seen)
						}
					}
					continue
				}
				w[g] = true
			case *ssa.Phi:
				useAddr(g, in, seen)
			default:
				w[g] = true
			}
		}
	}
	// a value read from the variable
	useVal = func(g string, v ssa.Value, seen map[ssa.Value]bool) {
		switch v.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
		default:
			return
		}
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				useAddr(g, in, seen)
			case *ssa.MapUpdate:
				if in.Map == v {
					w[g] = true
				}
			case *ssa.Slice:
				useVal(g, in, seen)
			case *ssa.Phi:
				useVal(g, in, seen)
			case *ssa.ChangeType:
				useVal(g, in, seen)
			case ssa.CallInstruction:
				c := in.Common()
				n := calleeName(c)
				switch {
				case n == "builtin append":
					if c.Args[0] == v {
						w[g] = true
					}
				case n == "builtin delete" || n == "builtin copy" && c.Args[0] == v:
					w[g] = true
				case strings.HasPrefix(n, "builtin "):
				case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort"):
					w[g] = true
				default:
					f := c.StaticCallee()
					if f != nil && f.Blocks != nil {
						for i, a := range c.Args {
							if a == v && i < len(f.Params) {
								useVal(g, f.Params[i], seen)
							}
						}
					}
				}
			}
		}
	}
	for _, p := range P.ssaPkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			name := g.RelString(nil)
			// globals have no referrers recorded: scan all functions
			for _, f := range P.funcs {
				if isInit(f) {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						var ops [16]*ssa.Value
						uses := false
						for _, o := range in.Operands(ops[:0]) {
							if o != nil && *o == ssa.Value(g) {
								uses = true
							}
						}
						if !uses {
							continue
						}
						seen := map[ssa.Value]bool{}
						switch in := in.(type) {
						case *ssa.Store:
							w[name] = true
						case *ssa.FieldAddr:
							useAddr(name, in, seen)
						case *ssa.IndexAddr:
							useAddr(name, in, seen)
						case *ssa.UnOp:
							useVal(name, in, seen)
						case *ssa.Slice:
							useVal(name, in, seen)
						case *ssa.DebugRef:
						case ssa.CallInstruction:
							c := in.Common()
							n := calleeName(c)
							if strings.HasPrefix(n, "(*sync.") {
								continue
							}
							cf := c.StaticCallee()
							if cf != nil && cf.Blocks != nil {
								for i, a := range c.Args {
									if a == ssa.Value(g) && i < len(cf.Params) {
										useAddr(name, cf.Params[i], seen)
									}
								}
								continue
							}
							w[name] = true
						default:
							w[name] = true
						}
					}
				}
			}
		}
	}
	return w
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Name() == "init" && f.Synthetic != "" {
		return true
	}
	return strings.HasPrefix(f.Name(), "init#")
}

func isHandlerSig(sig *types.Signature) bool {
	return sig.Params().Len() == 2 && sig.Results().Len() == 0 &&
		sig.Params().At(0).Type().String() == "net/http.ResponseWriter" && sig.Params().At(1).Type().String() == "*net/http.Request"
}

// handlerRoots: functions of handler type whose value is taken somewhere, and ServeHTTP methods.
func (P *Program) handlerRoots() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				operands := in.Operands(ops[:0])
				var callee *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = &ci.Common().Value
				}
				for _, o := range operands {
					if o == nil || *o == nil || o == callee {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && g.Blocks != nil && isHandlerSig(g.Signature) {
						set[g] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g := mc.Fn.(*ssa.Function); isHandlerSig(g.Signature) {
						set[g] = true
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if sel := P.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "ServeHTTP"); sel != nil {
						if m := P.prog.MethodValue(sel); m != nil && m.Blocks != nil && isHandlerSig(m.Signature) {
							set[m] = true
						}
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range set {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

// rootState creates a state with unknown arguments.
func (e *Engine) rootState(fn *ssa.Function) *State {
	e.rootFn = fn
	e.rootName = fn.RelString(nil)
	e.fnSeen[fn] = true
	args := make([]*Term, len(fn.Params))
	st0 := &State{eng: e}
	for i, p := range fn.Params {
		args[i] = tSym("arg:"+fn.Name()+":"+p.Name(), p.Type())
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			st0.setNil(args[i], false)
		}
	}
	binds := make([]*Term, len(fn.FreeVars))
	for i, p := range fn.FreeVars {
		binds[i] = tSym("free:"+fn.Name()+":"+p.Name(), p.Type())
		st0.setNil(binds[i], false)
	}
	st := e.newState(fn, args, binds)
	for _, f := range st0.facts {
		st.setFact(f.t, f.f)
	}
	return st
}
