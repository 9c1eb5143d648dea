package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkKeyRefresh }

func isFetch(name string) bool { return strings.HasPrefix(name, jwx+"jwk.Fetch") }

const refreshWait = int64(10e9)

func checkKeyRefresh(P *Program, r *Report) {
	r.rule = "on every path through the loading of a remote key set: a fetch, and every change of a key set, happens only while a slot is held, taken with an attempt known to have succeeded, of one of a semaphore with room for one; the slot is given back exactly once on every path that took it, and on no other; " +
		"the fetch uses a client with a finite timeout; before the slot is given back at least ten seconds are waited, or it is known that no refresh was counted before, and the refresh is counted; keys are only dropped once a fetch is known to have succeeded with keys"
	const sem = "(*golang.org/x/sync/semaphore.Weighted)."
	slots := map[string]bool{}
	runFuncs(P, r, "key set loaders", P.jwtMethods("LoadJwks"), handlerCfg{full: true, variants: 400}, func(root *ssa.Function) *Observer {
		o := &Observer{}
		bad := func(st *State, rule string, in ssa.Instruction, msg string) {
			r.violate(st, rule, P.pos(instrPos(in)), msg+inFn(in))
		}
		held := func(st *State) bool {
			t := st.oget("try")
			return len(t) == 1 && st.truth(t[0]) == 1 && !st.ohas("released")
		}
		o.Call = func(c *CallEv) {
			st := c.st
			switch {
			case isFetch(c.name):
				r.site("fetches", c.pos())
				slots[c.pos()] = true
				if !held(st) {
					bad(st, "single", c.in, "a key set is fetched without the refresh slot being held")
				}
				if !fetchBounded(st, c) {
					bad(st, "timeout", c.in, "a key set is fetched without a timeout")
				}
				st.otag("fetched")
			case c.name == sem+"Release":
				r.count("releases checked")
				if !held(st) {
					bad(st, "release", c.in, "the refresh slot is given back without being held")
				}
				if k, ok := intConst(c.arg(1)); !ok || k != 1 {
					bad(st, "release", c.in, "more or less than the slot is given back")
				}
				if st.ohas("fetched") && !st.ohas("waited") {
					first := false
					for _, fe := range st.facts {
						if selfField(fe.t, "updateCount") && (fe.f.hi <= 0 || fe.f.eq == tInt(0)) {
							first = true
						}
					}
					if !first {
						bad(st, "throttle", c.in, "the refresh slot is given back without having been held for ten seconds although refreshes may have happened before")
					}
				}
				if st.ohas("fetched") && !st.ohas("counted") {
					bad(st, "throttle", c.in, "the refresh slot is given back without the refresh having been counted")
				}
				st.otag("released")
				st.odel("try")
			case c.name == "time.Sleep":
				if k, ok := intConst(st.norm(c.arg(0))); ok && k >= refreshWait && held(st) && st.ohas("fetched") {
					st.otag("waited")
				}
			}
		}
		o.Select = func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
			if idx >= 0 && isCall(chans[idx], "after") && held(st) && st.ohas("fetched") {
				if k, ok := intConst(chans[idx].args[len(chans[idx].args)-1]); ok && k >= refreshWait {
					st.otag("waited")
				}
			}
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if res == nil {
				return
			}
			if c.name == sem+"TryAcquire" {
				r.site("slots taken", c.pos())
				if k, ok := intConst(c.arg(1)); !ok || k < 1 {
					bad(st, "single", c.in, "the attempt for the refresh slot does not ask for it")
				}
				if len(st.oget("try")) > 0 && st.truth(st.oget("try")[0]) != 2 {
					bad(st, "release", c.in, "the refresh slot is taken twice")
				}
				st.odel("released")
				st.odel("waited")
				st.odel("counted")
				st.odel("fetched")
				st.oset("try", res)
			}
			if isFetch(c.name) && res.op == OTuple && len(res.args) == 2 {
				st.oset("set", res.args[0], res.args[1])
			}
		}
		o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if p.op == OFieldAddr && p.str == "updateCount" && isJwtBase(p.args[0]) {
				old := st.load(p, s.Val.Type())
				b, k := linear(v)
				b2, k2 := linear(old)
				if b == b2 && k > k2 {
					st.otag("counted")
				} else if b != b2 || k != k2 {
					bad(st, "throttle", in, "the count of refreshes is set to "+v.String())
				}
				return
			}
			name := ""
			if p.op == OFieldAddr && keyFamilies[p.str].algs != nil && isJwtBase(p.args[0]) {
				name = p.str
			} else if q := p; q.op == OFieldAddr || q.op == OIndexAddr {
				if q.op == OFieldAddr {
					q = q.args[0]
				}
				if q.op == OIndexAddr {
					name = keySetOf(q.args[0])
				}
			}
			if name == "" {
				return
			}
			r.count("key set changes checked")
			if !held(st) {
				bad(st, "single", in, "the key set "+name+" is changed without the refresh slot being held")
			}
			set := st.oget("set")
			if len(set) != 2 || st.isNil(set[1]) != 1 {
				bad(st, "keep", in, "the key set "+name+" is changed although no fetch is known to have succeeded")
				return
			}
			if p.op != OFieldAddr || p.str != name {
				return
			}
			old := st.norm(st.load(p, s.Val.Type()))
			t := st.norm(v)
			for t != old && isCall(t, "append") {
				t = st.norm(t.args[0])
			}
			if t == old {
				return
			}
			some := false
			for _, fe := range st.facts {
				if fe.t.op == OLen && fe.f.lo > 0 {
					if b, ok := isFieldOf(fe.t.args[0], "Keys"); ok && b == set[0] {
						some = true
					}
				}
			}
			if !some {
				bad(st, "keep", in, "the keys held in "+name+" are dropped although the set fetched is not known to hold keys")
			}
		}
		end := func(st *State) {
			if t := st.oget("try"); len(t) == 1 && st.truth(t[0]) != 2 {
				r.violate(st, "release", P.pos(root.Pos()), "the refresh slot is not given back ("+root.Name()+")")
			}
			r.count("ends checked")
		}
		o.Exit = func(st *State, res []*Term) { end(st) }
		o.PanicExit = end
		// every remote key is looked at on its own, whatever is in the sets then
		keys := &sweeps{P: P, r: r, elem: P.libType(jwx+"jwk", "Key"), seq: func(t *Term) bool { return true }}
		o.Loop = func(st *State, ph *ssa.Phi, v *Term) {
			if keys.elem == nil || !keys.at(st, ph.Block()) {
				return
			}
			for _, ob := range append([]*Obj(nil), st.heap...) {
				if n := ob.without(func(p *Term) bool { return p.op == OFieldAddr && keyFamilies[p.str].algs != nil }); n != ob {
					st.setObj(n)
				}
			}
		}
		return o
	})
	r.atLeast("fetches", 1)
	r.atLeast("slots taken", 1)
	r.atLeast("releases checked", 1)
	r.atLeast("key set changes checked", 1)
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch n := instrName(in); {
				case isFetch(n):
					if !slots[P.pos(instrPos(in))] {
						r.violate(nil, "elsewhere", P.pos(instrPos(in)), "a key set is fetched elsewhere"+inFn(in))
					}
				case n == "golang.org/x/sync/semaphore.NewWeighted":
					r.site("slots made", P.pos(instrPos(in)))
					c, ok := in.(ssa.CallInstruction).Common().Args[0].(*ssa.Const)
					if !ok || c.Value == nil || c.Int64() != 1 {
						r.violate(nil, "single", P.pos(instrPos(in)), "a semaphore is made that does not have room for exactly one"+inFn(in))
					}
				case n == sem+"Release" || n == sem+"TryAcquire" || n == sem+"Acquire":
					if !explored(r, f) {
						r.violate(nil, "elsewhere", P.pos(instrPos(in)), "the refresh slot is taken or given back elsewhere"+inFn(in))
					}
				}
			}
		}
	}
	r.atLeast("slots made", 1)
}

func explored(r *Report, f *ssa.Function) bool {
	for _, e := range r.engines {
		if e.fnSeen[f] {
			return true
		}
	}
	return false
}

// fetchBounded: does the fetch end on its own?
func fetchBounded(st *State, c *CallEv) bool {
	if strings.HasSuffix(c.name, "WithContext") {
		if x := c.arg(0); isCall(x, "ctx") && len(x.args) > 2 {
			return true
		}
	}
	bound := false
	for _, a := range listOf(st, c.arg(len(c.args)-1)) {
		if !isCall(a, jwx+"jwk.WithHTTPClient") {
			continue
		}
		cl := a.args[0]
		i := fieldIndex(cl.typ, "Timeout")
		if i < 0 {
			i = fieldIndex(c.in.Parent().Prog.ImportedPackage("net/http").Type("Client").Type(), "Timeout")
		}
		v := st.norm(st.load(tFieldAddr(cl, i, "Timeout"), types.Typ[types.Int64]))
		k, ok := intConst(v)
		f := st.fact(v)
		bound = ok && k > 0 || f.lo > 0
	}
	return bound
}
