package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// futureLoads knows which fields may still be read from a program point on. What a state knows about fields that nobody
// will read again does not tell states apart.
type futureLoads struct {
	s      *Slice
	names  map[string]int
	list   []string
	words  int
	total  map[*ssa.Function]bitset
	suffix map[*ssa.BasicBlock][]bitset // by pc, including successors
	kept   map[ssa.Instruction]bool
	tval   map[*Term]bitset // names a held value keeps alive
	tload  map[*Term]bitset // names of the fields a term was read from
	mark   []uint32
	gen    uint32
	dead   *Term
	calls  map[ssa.Instruction][]*ssa.Function
}

func newFutureLoads(s *Slice) *futureLoads {
	f := &futureLoads{s: s, names: map[string]int{}, total: map[*ssa.Function]bitset{}, suffix: map[*ssa.BasicBlock][]bitset{},
		tval: map[*Term]bitset{}, tload: map[*Term]bitset{}, calls: map[ssa.Instruction][]*ssa.Function{}, dead: tSym("$dead", nil)}
	// names
	var fns []*ssa.Function
	for _, fn := range s.P.funcs {
		if s.reach[fn] {
			fns = append(fns, fn)
		}
	}
	own := map[*ssa.Function][]int{}
	add := func(fn *ssa.Function, n string) { own[fn] = append(own[fn], f.id(n)) }
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s.keep(in) {
					f.gens(in, func(n string) { add(fn, n) })
				}
			}
		}
	}
	f.words = (len(f.list) + 63) / 64
	for _, fn := range fns {
		t := make(bitset, f.words)
		for _, k := range own[fn] {
			t.set(k)
		}
		f.total[fn] = t
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			t := f.total[fn]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, g := range f.callees(in) {
						if u := f.total[g]; u != nil && t.or(u) {
							ch = true
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		f.suffixes(fn)
	}
	return f
}

func (f *futureLoads) id(n string) int {
	k, ok := f.names[n]
	if !ok {
		k = len(f.list)
		f.names[n] = k
		f.list = append(f.list, n)
	}
	return k
}

func nameOfField(t types.Type, i int) string {
	if v := fieldVar(t, i); v != nil {
		return v.Name()
	}
	return "?"
}

// gens: names of fields the instruction may read, without the functions it calls.
func (f *futureLoads) gens(in ssa.Instruction, add func(string)) {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		if in.Referrers() != nil {
			only := true
			for _, u := range *in.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == in {
					continue
				}
				if _, ok := u.(*ssa.DebugRef); ok {
					continue
				}
				only = false
			}
			if only {
				return
			}
		}
		add(nameOfField(in.X.Type(), in.Field))
	case *ssa.Field:
		add(nameOfField(in.X.Type(), in.Field))
	case *ssa.UnOp:
		if in.Op == token.MUL {
			f.nested(in.Type(), add, 0)
		}
	case ssa.CallInstruction:
		c := in.Common()
		if len(f.s.kept) > 0 && isListen(instrName(in)) {
			for _, n := range f.s.kept {
				add(n)
			}
		}
		if g := c.StaticCallee(); g != nil && g.Blocks != nil && f.s.P.ownFn(g) {
			return
		}
		for _, a := range c.Args {
			f.argNames(a, add)
		}
		if c.IsInvoke() {
			f.argNames(c.Value, add)
		}
	}
}

func (f *futureLoads) argNames(a ssa.Value, add func(string)) {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	t := a.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
		// varargs: whatever was boxed
		if s, ok := a.(*ssa.Slice); ok {
			if al, ok := s.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, u := range *al.Referrers() {
					if ia, ok := u.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
						for _, w := range *ia.Referrers() {
							if st, ok := w.(*ssa.Store); ok {
								if _, deep := st.Val.(*ssa.Slice); !deep {
									f.argNames(st.Val, add)
								}
							}
						}
					}
				}
			}
		}
	}
	f.nested(t, add, 0)
}

// nested: the fields inside a value of the type, also behind pointers.
func (f *futureLoads) nested(t types.Type, add func(string), d int) {
	if d > 4 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			add(u.Field(i).Name())
			ft := u.Field(i).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			f.nested(ft, add, d+1)
		}
	case *types.Array:
		f.nested(u.Elem(), add, d+1)
	}
}

func (P *Program) ownFn(g *ssa.Function) bool {
	if g.Pkg != nil {
		return P.ownPkg(g.Pkg.Pkg)
	}
	if g.Object() != nil && g.Object().Pkg() != nil {
		return P.ownPkg(g.Object().Pkg())
	}
	return g.Blocks != nil
}

// callees: functions of the repository that may run because of the instruction.
func (f *futureLoads) callees(in ssa.Instruction) []*ssa.Function {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if r, ok := f.calls[in]; ok {
		return r
	}
	set := map[*ssa.Function]bool{}
	c := ci.Common()
	value := func(v ssa.Value) {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeClosure:
				set[x.Fn.(*ssa.Function)] = true
				return
			case *ssa.Function:
				set[x] = true
				return
			}
			break
		}
		if sg, ok := v.Type().Underlying().(*types.Signature); ok {
			for _, g := range f.s.P.bySig[sigKeyOf(sg)] {
				set[g] = true
			}
		}
	}
	methods := func(t types.Type) {
		for _, ty := range []types.Type{t, types.NewPointer(t)} {
			ms := f.s.P.prog.MethodSets.MethodSet(ty)
			for i := 0; i < ms.Len(); i++ {
				if m := f.s.P.prog.MethodValue(ms.At(i)); m != nil && m.Blocks != nil && f.s.P.ownFn(m) {
					set[m] = true
				}
			}
		}
	}
	if !isBuiltin(c.Value) {
		g := c.StaticCallee()
		switch {
		case g != nil && g.Blocks != nil && f.s.P.ownFn(g):
			set[g] = true
		default:
			if g == nil {
				for _, h := range f.s.targets(c) {
					set[h] = true
				}
				if !c.IsInvoke() {
					value(c.Value)
				}
			}
			for _, a := range c.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					methods(mi.X.Type())
					continue
				}
				switch u := a.Type().Underlying().(type) {
				case *types.Signature:
					value(a)
				case *types.Interface:
					if u.NumMethods() > 0 {
						for _, p := range f.s.P.ssaPkgs {
							for _, m := range p.Members {
								if t, ok := m.(*ssa.Type); ok {
									if types.Implements(t.Type(), u) || types.Implements(types.NewPointer(t.Type()), u) {
										methods(t.Type())
									}
								}
							}
						}
					}
				case *types.Pointer:
					if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && f.s.P.ownPkg(n.Obj().Pkg()) {
						methods(n)
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for g := range set {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].RelString(nil) < r[j].RelString(nil) })
	f.calls[in] = r
	return r
}

func (f *futureLoads) suffixes(fn *ssa.Function) {
	n := len(fn.Blocks)
	in := make([]bitset, n)
	own := make([][]bitset, n)
	for i, b := range fn.Blocks {
		own[i] = make([]bitset, len(b.Instrs)+1)
		own[i][len(b.Instrs)] = make(bitset, f.words)
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			c := own[i][j+1].clone()
			if f.s.keep(b.Instrs[j]) {
				f.gens(b.Instrs[j], func(s string) { c.set(f.id(s)) })
			}
			for _, g := range f.callees(b.Instrs[j]) {
				if t := f.total[g]; t != nil {
					c.or(t)
				}
			}
			own[i][j] = c
		}
		in[i] = own[i][0].clone()
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			for _, s := range fn.Blocks[i].Succs {
				if in[i].or(in[s.Index]) {
					ch = true
				}
			}
		}
	}
	for i, b := range fn.Blocks {
		out := make(bitset, f.words)
		for _, s := range b.Succs {
			out.or(in[s.Index])
		}
		for j := range own[i] {
			own[i][j].or(out)
		}
		f.suffix[b] = own[i]
	}
}

var noBits = bitset{}

func orInto(a, b bitset) {
	for i := range b {
		a[i] |= b[i]
	}
}

// value: the names a held value keeps alive: the fields its addresses point into, and what its functions read.
func (f *futureLoads) value(t *Term) bitset {
	switch t.op {
	case OConst, ONil, OSym, OAlloc, OGlobal, OLoad, OField, OBin, OUn, OLen, OCap, OIsType:
		return nil
	}
	if r, ok := f.tval[t]; ok {
		return r
	}
	var r bitset
	or := func(b bitset) {
		if len(b) == 0 {
			return
		}
		if r == nil {
			r = make(bitset, f.words)
		}
		orInto(r, b)
	}
	switch t.op {
	case OFieldAddr:
		if k, ok := f.names[t.str]; ok {
			b := make(bitset, f.words)
			b.set(k)
			or(b)
		}
	case OClosure, OFunc:
		if t.fn != nil {
			or(f.total[t.fn])
		}
	}
	for _, a := range t.args {
		or(f.value(a))
	}
	if r == nil {
		r = noBits
	}
	f.tval[t] = r
	return r
}

// loads: the names of all fields the parts of a term were read from.
func (f *futureLoads) loads(t *Term) bitset {
	if len(t.args) == 0 {
		return nil
	}
	if r, ok := f.tload[t]; ok {
		return r
	}
	var r bitset
	set := func(n string) {
		if r == nil {
			r = make(bitset, f.words+1)
		}
		if k, ok := f.names[n]; ok {
			r.set(k)
		} else {
			r.set(f.words * 64) // a field nobody reads
		}
	}
	switch t.op {
	case OLoad:
		for p := t.args[0]; p.op == OFieldAddr || p.op == OIndexAddr; p = p.args[0] {
			if p.op == OFieldAddr {
				set(p.str)
			}
		}
	case OField:
		set(t.str)
	}
	for _, a := range t.args {
		if b := f.loads(a); len(b) > 0 {
			if r == nil {
				r = make(bitset, f.words+1)
			}
			orInto(r, b)
		}
	}
	if r == nil {
		r = noBits
	}
	f.tload[t] = r
	return r
}

func (f *futureLoads) isDead(n string, live bitset) bool {
	k, ok := f.names[n]
	return !ok || !live.has(k)
}

// deadPath: is the address inside a field nobody reads any more?
func (f *futureLoads) deadPath(p *Term, live bitset) bool {
	for ; p.op == OFieldAddr || p.op == OIndexAddr; p = p.args[0] {
		if p.op == OFieldAddr && p.str[:1] != "$" && f.isDead(p.str, live) {
			return true
		}
	}
	return false
}

func (f *futureLoads) at(st *State) bitset {
	live := make(bitset, f.words)
	callNames := func(c *ssa.CallCommon, site ssa.Instruction) {
		if site != nil {
			for _, g := range f.callees(site) {
				orInto(live, f.total[g])
			}
			f.gens(site, func(n string) {
				if k, ok := f.names[n]; ok {
					live.set(k)
				}
			})
		}
	}
	for i, fr := range st.frames {
		if sx := f.suffix[fr.block]; sx != nil && !fr.unwind {
			pc := fr.pc
			if i < len(st.frames)-1 && st.frames[i+1].kind == fkCall {
				pc++
			}
			if pc < len(sx) {
				orInto(live, sx[pc])
			}
		}
		if fr.fn.Recover != nil {
			if sx := f.suffix[fr.fn.Recover]; sx != nil {
				orInto(live, sx[0])
			}
		}
		for _, d := range fr.defers {
			callNames(d.call, d.site)
			if d.fn != nil {
				orInto(live, f.value(d.fn))
			}
			for _, a := range d.args {
				orInto(live, f.value(a))
			}
		}
		for _, r := range fr.regs {
			if r != nil {
				orInto(live, f.value(r))
			}
		}
	}
	for _, p := range st.pending {
		orInto(live, f.value(p.fn))
		for _, a := range p.args {
			orInto(live, f.value(a))
		}
	}
	for _, o := range st.heap {
		for _, c := range o.cells {
			orInto(live, f.value(c.v))
		}
	}
	for _, o := range st.obs {
		for _, v := range o.v {
			orInto(live, f.value(v))
		}
	}
	return live
}

func (f *futureLoads) hold(t *Term) {
	for int(t.id) >= len(f.mark) {
		f.mark = append(f.mark, make([]uint32, 4096)...)
	}
	if f.mark[t.id] == f.gen {
		return
	}
	f.mark[t.id] = f.gen
	for _, a := range t.args {
		f.hold(a)
	}
}

func (f *futureLoads) isHeld(t *Term) bool { return int(t.id) < len(f.mark) && f.mark[t.id] == f.gen }

// needsDead: does the term have a part that was read from a dead field and is held nowhere?
func (f *futureLoads) needsDead(t *Term, live bitset) bool {
	if f.isHeld(t) {
		return false
	}
	ls := f.loads(t)
	if len(ls) == 0 {
		return false
	}
	out := ls[f.words] != 0
	for i := 0; i < f.words && !out; i++ {
		out = ls[i]&^live[i] != 0
	}
	if !out {
		return false
	}
	switch t.op {
	case OLoad:
		if f.deadPath(t.args[0], live) {
			return true
		}
	case OField:
		if f.isDead(t.str, live) {
			return true
		}
	}
	for _, a := range t.args {
		if f.needsDead(a, live) {
			return true
		}
	}
	return false
}

// prune forgets what nobody will read.
func (f *futureLoads) prune(st *State) {
	live := f.at(st)
	var ch []*Obj
	for _, o := range st.heap {
		if o.root.op != OAlloc {
			continue
		}
		no := o
		for _, c := range o.cells {
			if c.v != f.dead && c.p.op == OFieldAddr && f.deadPath(c.p, live) {
				no = no.with(c.p, f.dead)
			}
		}
		if no != o {
			ch = append(ch, no)
		}
	}
	for _, o := range ch {
		st.setObj(o)
	}
	f.gen++
	for _, fr := range st.frames {
		for _, r := range fr.regs {
			if r != nil {
				f.hold(r)
			}
		}
		for _, d := range fr.defers {
			if d.fn != nil {
				f.hold(d.fn)
			}
			for _, a := range d.args {
				f.hold(a)
			}
		}
	}
	for _, o := range st.heap {
		for _, c := range o.cells {
			f.hold(c.v)
		}
	}
	for _, o := range st.obs {
		for _, v := range o.v {
			f.hold(v)
		}
	}
	for _, p := range st.pending {
		f.hold(p.fn)
		for _, a := range p.args {
			f.hold(a)
		}
	}
	for _, l := range st.locks {
		f.hold(l)
	}
	if st.panicV != nil {
		f.hold(st.panicV)
	}
	var nf []factEntry
	for i, fe := range st.facts {
		if f.needsDead(fe.t, live) {
			if nf == nil {
				nf = append(make([]factEntry, 0, len(st.facts)), st.facts[:i]...)
			}
			continue
		}
		if nf != nil {
			nf = append(nf, fe)
		}
	}
	if nf != nil {
		st.facts = nf
	}
}
