package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = checkLeaks
}

// C17: every attempt that was begun is closed or cancelled at the end.
func checkLeaks(P *Program, r *Report) {
	r.rule = "typestate over every path: an upstream request that was handed to the client is open until its call returned no response, its response body was closed or its context was cancelled or timed out; " +
		"at the end of request handling (returns and panics) none is open, and after the roundtrip timeout was received while waiting for an upstream every attempt made so far was cancelled; " +
		"and what is recorded on an attempt (a struct that holds a cancel function) is never recorded on a copy that is dropped unread"
	closer := func(in ssa.Instruction, name string) critMode {
		switch name {
		case "net/http.NewRequestWithContext":
			return critArg0
		case "(io.Closer).Close", "(io.ReadCloser).Close":
			return critRecv
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if isDoSig(name, ci.Common().Signature()) {
				return critArgs
			}
			if ci.Common().StaticCallee() == nil && !ci.Common().IsInvoke() && ci.Common().Signature().Params().Len() == 0 && name == "dynamic" {
				return critRecv
			}
		}
		return critNone
	}
	runHandlers(P, r, handlerCfg{depth: 2, crit: closer}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		// reqCtx: the context of the request a call was made with
		reqCtx := func(args []*Term) *Term {
			for _, a := range args {
				if a = unwrap(a); isCall(a, "httpreq") {
					return a.args[0]
				}
			}
			return nil
		}
		within := func(x, ctx *Term) bool { return x.contains(func(y *Term) bool { return y == ctx }) }
		drop := func(st *State, key string, dead func(ctx *Term) bool) {
			var keep []*Term
			l := st.oget(key)
			for _, x := range l {
				if !dead(x) {
					keep = append(keep, x)
				}
			}
			if len(keep) == len(l) {
				return
			}
			if len(keep) == 0 {
				st.odel(key)
			} else {
				st.oset(key, keep...)
			}
		}
		cancelled := func(st *State, ctx *Term) {
			d := func(x *Term) bool { return within(x, ctx) }
			drop(st, "open", d)
			drop(st, "must", d)
			drop(st, "live", d)
		}
		end := func(st *State, pos, how string) {
			r.count("ends checked")
			if l := st.oget("open"); len(l) > 0 {
				r.violate(st, "leak", pos, "request handling "+how+" although the response of an upstream attempt ("+l[0].String()+") was neither closed nor its request cancelled")
			}
			if l := st.oget("must"); len(l) > 0 {
				r.violate(st, "abort", pos, "the roundtrip timed out while an upstream was waited for, but an attempt made so far ("+l[0].String()+") was not cancelled")
			}
		}
		add := func(st *State, key string, x *Term) {
			for _, y := range st.oget(key) {
				if x == y {
					return
				}
			}
			st.oset(key, append(append([]*Term(nil), st.oget(key)...), x)...)
		}
		o.Call = func(c *CallEv) {
			st := c.st
			switch {
			case c.name == "dynamic" && c.fn != nil && isCall(c.fn, "cancelfn"):
				r.site("cancel sites", c.pos())
				cancelled(st, c.fn.args[0])
			case c.meth == "Close" && len(c.args) > 0 && upBody(unwrap(c.arg(0))):
				b := unwrap(c.arg(0))
				r.site("close sites", c.pos())
				drop(st, "open", func(ctx *Term) bool { return within(b, ctx) })
			case c.isDo():
				r.count("upstream calls seen")
				r.site("upstream call sites", c.pos())
				if reqCtx(c.args) == nil {
					r.violate(st, "context", c.pos(), "an upstream request is sent whose context is not known, it cannot be cancelled")
				}
			}
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if c.name == "net/http.NewRequestWithContext" && res.op == OTuple && isCall(res.args[0], "httpreq") {
				add(st, "live", res.args[0].args[0])
			}
			if c.isDo() {
				if ctx := reqCtx(c.args); ctx != nil {
					for _, x := range st.oget("live") {
						if x == ctx {
							add(st, "open", ctx)
						}
					}
				}
			}
		}
		o.Select = func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
			if idx < 0 || !isCall(chans[idx], "done") {
				return
			}
			ctx := chans[idx].args[0]
			att := false
			for _, x := range append(append([]*Term(nil), st.oget("live")...), st.oget("gone")...) {
				if x == ctx || within(x, ctx) {
					att = true
				}
			}
			if att {
				cancelled(st, ctx)
				return
			}
			if blocking {
				for _, x := range st.oget("live") {
					add(st, "must", x)
				}
			}
		}
		// goroutines still under way hold their response, too
		o.Go = func(st *State, f *Term, args []*Term, in ssa.Instruction) {
			for _, x := range st.oget("live") {
				if st.reachesTerm(f, args, x) {
					add(st, "open", x)
				}
			}
		}
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			var d *Term
			switch {
			case isResult(t, "do", 1) && f.nilness == 2, isResult(t, "do", 0) && f.nilness == 1:
				d = t.args[0]
			default:
				if b, ok := isFieldOf(t, "Body"); ok && f.nilness == 1 && isResult(b, "do", 0) {
					d = b.args[0]
				}
			}
			if d != nil {
				drop(st, "open", func(ctx *Term) bool { return within(d, ctx) })
			}
		}}
		ev.hook(o)
		o.Exit = func(st *State, res []*Term) {
			ev.scan(st)
			end(st, P.pos(fn.Pos()), "returns")
		}
		o.PanicExit = func(st *State) { end(st, P.pos(fn.Pos()), "ends with a panic") }
		return o
	})
	r.looked = map[*ssa.Function]bool{}
	lostRecords(P, r)
	r.atLeast("upstream call sites", 1)
	r.atLeast("close sites", 1)
	r.atLeast("cancel sites", 1)
	r.atLeast("ends checked", 3)
}

// reachesTerm: can the goroutine get at the value?
func (st *State) reachesTerm(f *Term, args []*Term, x *Term) bool {
	seen := map[*Term]bool{}
	work := []*Term{}
	found := false
	add := func(t *Term) {
		if t.contains(func(y *Term) bool { return y == x }) {
			found = true
		}
		for _, s := range t.syms {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	add(f)
	for _, a := range args {
		add(a)
	}
	for len(work) > 0 && !found {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if o := st.obj(s); o != nil {
			for _, c := range o.cells {
				if isCall(c.v, "httpreq") || c.v.op == OAlloc || c.v.op == OClosure {
					add(c.v)
				}
			}
		}
	}
	return found
}

// lostRecords: nothing is recorded on a copy of an attempt that is never looked at again.
func lostRecords(P *Program, r *Report) {
	holds := func(t types.Type) *types.Struct {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !P.ownPkg(n.Obj().Pkg()) {
			return nil
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if isNamed(s.Field(i).Type(), "context.CancelFunc") {
				return s
			}
			if f, ok := s.Field(i).Type().Underlying().(*types.Signature); ok && f.Params().Len() == 0 && f.Results().Len() == 0 {
				return s
			}
		}
		return nil
	}
	for _, f := range P.funcs {
		if !P.ownFn(f) {
			continue
		}
		each(f, func(in ssa.Instruction) {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Referrers() == nil {
				return
			}
			s := holds(deref(a.Type()))
			if s == nil {
				return
			}
			var stores []*ssa.Store
			field := map[*ssa.Store]int{}
			loads := map[int][]ssa.Instruction{}
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Val == a {
						return
					}
				case *ssa.UnOp:
					for i := 0; i < s.NumFields(); i++ {
						loads[i] = append(loads[i], u)
					}
				case *ssa.FieldAddr:
					for _, v := range *u.Referrers() {
						switch v := v.(type) {
						case *ssa.Store:
							if v.Val == u {
								return
							}
							stores, field[v] = append(stores, v), u.Field
						default:
							loads[u.Field] = append(loads[u.Field], v)
						}
					}
				case *ssa.DebugRef:
				default:
					return
				}
			}
			r.looked[f] = true
			r.count("local attempts checked")
			for _, w := range stores {
				read := false
				for _, l := range loads[field[w]] {
					read = read || comesAfter(w, l)
				}
				if !read {
					r.violateVia(nil, "lost", P.pos(w.Pos()), "the field "+s.Field(field[w]).Name()+" of an attempt is set on a copy of it that is never looked at again, the attempt itself stays as it was"+inFn(w))
				}
			}
		})
	}
}

// comesAfter: can the second instruction run after the first?
func comesAfter(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}
