package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// value resolves an SSA operand.
func (e *Engine) value(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zero(v.Type())
		}
		cv := v.Value
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			cv = constant.ToFloat(cv)
		}
		return tConst(cv, v.Type())
	case *ssa.Global:
		return tGlobal(v)
	case *ssa.Function:
		return mk(OFunc, "", nil, nil, v, 0, 0)
	case *ssa.Builtin:
		return mk(OBuiltin, v.Name(), nil, nil, nil, 0, 0)
	}
	f := st.top()
	t := f.regs[f.info.num[v]]
	if t == nil {
		// a value that liveness considered dead, or an unresolved path
		return tSym("undef:"+v.Name()+":"+f.fn.Name(), v.Type())
	}
	return t
}

func (e *Engine) setReg(st *State, v ssa.Value, t *Term) {
	f := st.mut()
	f.regs[f.info.num[v]] = t
}

// exec runs a state until it has to be queued or ends.
func (e *Engine) exec(st *State) {
	for {
		if st.dead || len(st.frames) == 0 {
			return
		}
		f := st.top()
		if f.unwind {
			if !e.unwindStep(st) {
				return
			}
			continue
		}
		if f.pc == 0 {
			e.blocksSeen[f.block] = true
		}
		if f.pc >= len(f.block.Instrs) {
			e.rep.undecided("fell off a block in " + f.fn.Name())
			return
		}
		in := f.block.Instrs[f.pc]
		e.nSteps++
		if !e.step(st, in) {
			return
		}
	}
}

func (e *Engine) next(st *State) { st.mut().pc++ }

// jump transfers control to a block; evaluates phis. Returns false if the state was queued.
func (e *Engine) jump(st *State, to *ssa.BasicBlock) bool {
	f := st.mut()
	from := f.block
	if f.did || f.iters > 0 {
		switch {
		case !f.info.inLoop[to.Index]:
			f.did, f.iters = false, 0
		case f.did && f.info.loopHead[to.Index] && to.Dominates(from):
			// a loop around upstream attempts is followed as deep as a recursion
			f.did = false
			f.iters++
			if f.iters >= e.maxRecursion {
				e.recursionCut++
				e.notes["attempts in a loop of "+f.fn.Name()+" followed "+itoa(e.maxRecursion)+" rounds"] = true
				st.dead = true
				return false
			}
		}
	}
	// evaluate phis in parallel
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if len(phis) > 0 {
		edge := -1
		for i, p := range to.Preds {
			if p == from {
				edge = i
				break
			}
		}
		vals := make([]*Term, len(phis))
		for i, ph := range phis {
			if e.sl != nil && !e.sl.need[ph] {
				continue
			}
			vals[i] = e.value(st, ph.Edges[edge])
			if v := e.splitFlag(st, ph, vals[i], to, edge); v != nil {
				vals[i] = v
				f = st.mut()
			} else if st.dead {
				return false
			}
		}
		// counters of loops whose bound is not a constant become one abstract iteration
		conc := map[*ssa.Phi]bool{}
		for i, ph := range phis {
			if vals[i] == nil {
				continue
			}
			if _, ok := f.info.counters[ph]; ok {
				conc[ph] = e.concreteLoop(st, to, phis, vals)
				if !conc[ph] {
					step := f.info.counters[ph]
					entry := !f.info.dominates(to, from)
					_ = entry
					// the initial value bounds the counter
					lo, hi := int64(minI), int64(maxI)
					for j, ed := range ph.Edges {
						if f.info.dominates(to, to.Preds[j]) {
							continue
						}
						if c, ok := ed.(*ssa.Const); ok && c.Value != nil {
							if step > 0 {
								lo = c.Int64()
							} else {
								hi = c.Int64()
							}
						}
					}
					name := "loop:" + siteName(f, ph)
					s := tSym(name, ph.Type())
					limits := loopLimits(st, s, vals[i], step, ph, lo != minI || hi != maxI)
					e.refresh(st, s)
					f = st.mut()
					// values of the other phis may have been renamed
					for j, p2 := range phis {
						if _, ctr := f.info.counters[p2]; (j > i || j < i && !ctr) && vals[j] != nil {
							vals[j] = e.value(st, p2.Edges[edge])
						}
					}
					if lo != minI || hi != maxI {
						nf := topFact
						nf.lo, nf.hi = lo, hi
						st.setFact(s, &nf)
					}
					for _, c := range limits {
						st.assume(c, true)
						f = st.mut()
					}
					vals[i] = s
				}
			}
		}
		for i, ph := range phis {
			f.regs[f.info.num[ph]] = vals[i]
		}
		if e.obs != nil && e.obs.Loop != nil {
			for i, ph := range phis {
				if _, ok := f.info.counters[ph]; ok && vals[i] != nil {
					e.obs.Loop(st, ph, vals[i])
				}
			}
		}
	}
	f.prev = from
	f.block = to
	f.pc = 0
	// phis are done
	if len(to.Preds) > 1 {
		e.push(st)
		return false
	}
	f.pc = len(phis)
	return true
}

// loopLimits: what the start of a counter that is not a constant says about all its values.
func loopLimits(st *State, s, v *Term, step int64, ph *ssa.Phi, known bool) []*Term {
	if known || step == 0 {
		return nil
	}
	var r []*Term
	limit := func(b *Term, k int64) {
		if b == nil || b.op == OConst || b.contains(func(x *Term) bool { return x == s }) {
			return
		}
		if step < 0 {
			r = append(r, tBin(token.LSS, s, tAdd(b, tInt(k+1))))
		} else {
			r = append(r, tBin(token.LSS, tAdd(b, tInt(k-1)), s))
		}
	}
	b, k := linear(st.norm(v))
	if b != s {
		limit(b, k)
		return r
	}
	if (k < 0) != (step < 0) {
		return nil
	}
	eachRel(st, func(a, b *Term, lo, hi int64) {
		if a == s && b != nil {
			if step < 0 && hi != maxI {
				limit(b, hi)
			}
			if step > 0 && lo != minI {
				limit(b, lo)
			}
		}
	})
	return r
}

// splitFlag decides a condition that is kept in a flag along with constants, before it can be merged with them.
func (e *Engine) splitFlag(st *State, ph *ssa.Phi, v *Term, to *ssa.BasicBlock, edge int) *Term {
	bt, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsBoolean == 0 || v == nil || v.op == OConst {
		return nil
	}
	flag := false
	for _, x := range ph.Edges {
		if _, ok := x.(*ssa.Const); ok {
			flag = true
		}
	}
	if !flag {
		return nil
	}
	c := st.norm(v)
	if st.truth(c) == 0 {
		// both ways: the other one comes back here
		n := st.fork()
		n.mut()
		if n.assume(c, false) {
			n.note(c.String() + " is false")
			if e.obs != nil && e.obs.Branch != nil {
				e.obs.Branch(n, nil, c, false)
			}
			if e.jump(n, to) {
				e.push(n)
			}
		}
		if !st.assume(c, true) {
			st.dead = true
			return nil
		}
		st.note(c.String() + " is true")
		if e.obs != nil && e.obs.Branch != nil {
			e.obs.Branch(st, nil, c, true)
		}
	}
	switch st.truth(c) {
	case 1:
		return tBool(true)
	case 2:
		return tBool(false)
	}
	return nil
}

// concreteLoop: is the condition of the loop head a constant for constant counters?
func (e *Engine) concreteLoop(st *State, head *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) bool {
	tmp := map[ssa.Value]*Term{}
	for i, ph := range phis {
		tmp[ph] = vals[i]
	}
	get := func(v ssa.Value) *Term {
		if t, ok := tmp[v]; ok {
			return t
		}
		return e.value(st, v)
	}
	for i, ph := range phis {
		if _, ok := st.top().info.counters[ph]; ok {
			c, isC := intConst(vals[i])
			if !isC || c > 300 || c < -300 {
				return false
			}
		}
	}
	for _, in := range head.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.BinOp:
			tmp[in] = e.binop(st, in.Op, get(in.X), get(in.Y), in.X.Type(), in.Y.Type())
		case *ssa.UnOp:
			switch in.Op {
			case token.NOT:
				tmp[in] = mkNot(get(in.X))
			case token.MUL:
				tmp[in] = st.load(get(in.X), deref(in.X.Type()))
			default:
				return false
			}
		case *ssa.FieldAddr:
			tmp[in] = tFieldAddr(get(in.X), in.Field, fieldName(in))
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			tmp[in] = tLen(st.norm(get(in.Call.Args[0])))
		case *ssa.If:
			c := st.norm(get(in.Cond))
			_, ok := boolConst(c)
			if !ok {
				return false
			}
			// both operands must be constants, not merely known bounds
			if b, isB := in.Cond.(*ssa.BinOp); isB {
				if _, ok := st.norm(get(b.X)).isConst(); !ok {
					return false
				}
				if _, ok := st.norm(get(b.Y)).isConst(); !ok {
					return false
				}
			}
			return true
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return false
}

func (t *Term) isConst() (constant.Value, bool) { return t.cv, t.op == OConst }

func fieldName(fa *ssa.FieldAddr) string {
	return structOf(deref(fa.X.Type())).Field(fa.Field).Name()
}

func mkNot(c *Term) *Term {
	if b, ok := boolConst(c); ok {
		return tBool(!b)
	}
	if c.op == OUn && c.str == "!" {
		return c.args[0]
	}
	return mk(OUn, "!", nil, nil, nil, 0, 0, c)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tBool(true)
	}
	if a.op == OConst && b.op == OConst {
		ka, kb := a.cv.Kind(), b.cv.Kind()
		if ka == kb || (isNum(ka) && isNum(kb)) {
			return tBool(constant.Compare(a.cv, token.EQL, b.cv))
		}
		return tBool(false)
	}
	// x == true
	for i := 0; i < 2; i++ {
		if v, ok := boolConst(b); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
		a, b = b, a
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return tBool(false)
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == OIface && b.op == OConst {
		return mkEq(a.args[0], b)
	}
	if b.op == OIface && a.op == OConst {
		return mkEq(a, b.args[0])
	}
	// empty string
	for i := 0; i < 2; i++ {
		if s, ok := strConst(b); ok && s == "" {
			l := tLen(a)
			return mkEq(l, tInt(0))
		}
		a, b = b, a
	}
	if a.op == ONil && b.op != ONil {
		a, b = b, a
	} else if b.op != ONil && a.op == OConst {
		a, b = b, a
	} else if b.op != ONil && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	// x + c == k
	if k, ok := intConst(b); ok {
		if base, off := linear(a); base != nil && off != 0 {
			return mkEq(base, tInt(k-off))
		}
	}
	// nil against what is never nil is decided by the state
	return mk(OBin, "==", nil, nil, nil, 0, 0, a, b)
}

func mkLt(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		if isNum(a.cv.Kind()) && isNum(b.cv.Kind()) || a.cv.Kind() == b.cv.Kind() && a.cv.Kind() == constant.String {
			return tBool(constant.Compare(a.cv, token.LSS, b.cv))
		}
	}
	if a == b {
		return tBool(false)
	}
	ba, ca := linear(a)
	bb, cb := linear(b)
	if ba == bb && ba != nil {
		return tBool(ca < cb)
	}
	// constants to the right
	if ba != nil && bb != nil && ca != 0 {
		a = ba
		b = tAdd(bb, tInt(cb-ca))
	} else if bb == nil && ca != 0 && ba != nil {
		a = ba
		b = tInt(cb - ca)
	} else if ba == nil && cb != 0 && bb != nil {
		a = tInt(ca - cb)
		b = bb
	}
	return mk(OBin, "<", nil, nil, nil, 0, 0, a, b)
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) binop(st *State, op token.Token, a, b *Term, ta, tb types.Type) *Term {
	a, b = st.norm(a), st.norm(b)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if s := structOf(ta); s != nil && a.op == OStruct || s != nil && b.op == OStruct {
			r = tBool(true)
			for i := 0; i < s.NumFields(); i++ {
				c := mkEq(fieldOf(a, i, s), fieldOf(b, i, s))
				if bc, ok := boolConst(c); ok && !bc {
					r = c
					break
				} else if !ok {
					r = mk(OBin, "==", nil, nil, nil, 0, 0, a, b)
				}
			}
		} else {
			r = mkEq(a, b)
		}
		switch st.truth(r) {
		case 1:
			r = tBool(true)
		case 2:
			r = tBool(false)
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		var r *Term
		neg := false
		if !isInteger(ta) {
			// no linear arithmetic on floats and strings
			x, y := a, b
			if op == token.GTR || op == token.LEQ {
				x, y = b, a
			}
			neg = op == token.LEQ || op == token.GEQ
			if x.op == OConst && y.op == OConst {
				r = mkLt(x, y)
			} else {
				r = mk(OBin, "<f", nil, nil, nil, 0, 0, x, y)
			}
		} else {
			switch op {
			case token.LSS:
				r = mkLt(a, b)
			case token.GTR:
				r = mkLt(b, a)
			case token.GEQ:
				r, neg = mkLt(a, b), true
			case token.LEQ:
				r, neg = mkLt(b, a), true
			}
		}
		switch st.truth(r) {
		case 1:
			r = tBool(true)
		case 2:
			r = tBool(false)
		}
		if neg {
			return mkNot(r)
		}
		return r
	case token.LAND, token.LOR:
		return mk(OBin, op.String(), nil, nil, nil, 0, 0, a, b)
	}
	r := tBin(op, a, b)
	if r.op == OBin && r.typ == nil {
		r.typ = ta
	}
	return r
}

func (e *Engine) step(st *State, in ssa.Instruction) bool {
	if e.sl != nil && !e.sl.keep(in) {
		if v, ok := in.(ssa.Value); ok {
			if f := st.top(); f.regs[f.info.num[v]] != nil {
				e.setReg(st, v, nil)
			}
		}
		e.next(st)
		return true
	}
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		e.next(st)
	case *ssa.Alloc:
		f := st.top()
		t := tAlloc(siteName(f, in), deref(in.Type()))
		e.refresh(st, t)
		o := &Obj{root: t}
		o.rehash()
		st.setObj(o)
		e.setReg(st, in, t)
		e.next(st)
	case *ssa.BinOp:
		if (in.Op == token.QUO || in.Op == token.REM) && isInteger(in.X.Type()) {
			if e.obs.Deref != nil && st.norm(e.value(st, in.Y)).op != OConst {
				if !e.obs.Deref(st, e.value(st, in.Y), in, "div") {
					return false
				}
			}
		}
		t := e.binop(st, in.Op, e.value(st, in.X), e.value(st, in.Y), in.X.Type(), in.Y.Type())
		e.setReg(st, in, t)
		e.next(st)
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.ChangeInterface:
		e.setReg(st, in, e.value(st, in.X))
		e.next(st)
	case *ssa.ChangeType:
		e.setReg(st, in, e.value(st, in.X))
		e.next(st)
	case *ssa.Convert:
		e.setReg(st, in, e.convert(st, e.value(st, in.X), in.X.Type(), in.Type()))
		e.next(st)
	case *ssa.MultiConvert:
		e.setReg(st, in, e.convert(st, e.value(st, in.X), in.X.Type(), in.Type()))
		e.next(st)
	case *ssa.SliceToArrayPointer:
		e.setReg(st, in, e.value(st, in.X))
		e.next(st)
	case *ssa.MakeInterface:
		x := e.value(st, in.X)
		if x.op == OTA && types.Identical(x.typ, in.X.Type()) {
			e.setReg(st, in, x.args[0])
		} else {
			e.setReg(st, in, mk(OIface, "", in.X.Type(), nil, nil, 0, 0, x))
		}
		e.next(st)
	case *ssa.MakeClosure:
		args := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			args[i] = e.value(st, b)
		}
		e.setReg(st, in, mk(OClosure, "", nil, nil, in.Fn.(*ssa.Function), 0, 0, args...))
		e.next(st)
	case *ssa.MakeMap:
		f := st.top()
		t := tAlloc(siteName(f, in), in.Type())
		e.refresh(st, t)
		o := &Obj{root: t}
		o.rehash()
		st.setObj(o)
		e.setReg(st, in, t)
		e.next(st)
	case *ssa.MakeChan:
		f := st.top()
		t := tAlloc(siteName(f, in), in.Type())
		e.refresh(st, t)
		o := &Obj{root: t}
		o.rehash()
		st.setObj(o)
		e.setReg(st, in, t)
		e.next(st)
	case *ssa.MakeSlice:
		f := st.top()
		et := in.Type().Underlying().(*types.Slice).Elem()
		t := tAlloc(siteName(f, in), types.NewArray(et, 0))
		e.refresh(st, t)
		o := &Obj{root: t}
		o.rehash()
		st.setObj(o)
		n := st.norm(e.value(st, in.Len))
		if c, ok := intConst(n); ok && c >= 0 {
			e.setReg(st, in, mk(OSliceV, "", in.Type(), nil, nil, 0, c, t))
		} else {
			e.setReg(st, in, mk(OCall, "makeslice", in.Type(), nil, nil, 0, 0, t, n))
		}
		e.next(st)
	case *ssa.FieldAddr:
		x := e.value(st, in.X)
		if !e.deref(st, x, in, "field") {
			return false
		}
		e.setReg(st, in, tFieldAddr(st.normPtr(x), in.Field, fieldName(in)))
		e.next(st)
	case *ssa.Field:
		x := e.value(st, in.X)
		e.setReg(st, in, e.dom(st, fieldOf(x, in.Field, structOf(in.X.Type()))))
		e.next(st)
		return e.splitReg(st, in)
	case *ssa.IndexAddr:
		return e.indexAddr(st, in)
	case *ssa.Index:
		x, i := st.norm(e.value(st, in.X)), st.norm(e.value(st, in.Index))
		if s, ok := strConst(x); ok {
			if k, ok := intConst(i); ok && k >= 0 && k < int64(len(s)) {
				e.setReg(st, in, tInt(int64(s[k])))
				e.next(st)
				return true
			}
		}
		if x.op == OCall && x.str == "array" {
			if k, ok := intConst(i); ok && k >= 0 && k < int64(len(x.args)) {
				e.setReg(st, in, x.args[k])
				e.next(st)
				return true
			}
		}
		if !e.index(st, x, i, in) {
			return false
		}
		e.setReg(st, in, mk(OCall, "index", in.Type(), nil, nil, 0, 0, x, i))
		e.next(st)
	case *ssa.Lookup:
		return e.lookup(st, in)
	case *ssa.MapUpdate:
		m := e.value(st, in.Map)
		k := st.norm(e.value(st, in.Key))
		v := e.value(st, in.Value)
		if !e.deref(st, m, in, "map") {
			return false
		}
		p := tIndexAddr(m, k)
		if e.obs.MapSet != nil {
			e.obs.MapSet(st, m, k, v, in)
		}
		e.onStore(st, p, v, in)
		root := m.root()
		o := st.objOrNew(root)
		if k.op != OConst && k.op != OStruct {
			o = o.without(func(x *Term) bool { return x != p && ptrUnder(x, m) })
			n := *o
			n.fuzzy = tStr("idx")
			n.rehash()
			o = &n
		}
		st.setObj(o.with(p, v))
		e.next(st)
	case *ssa.Range:
		return e.rangeInit(st, in)
	case *ssa.Next:
		return e.rangeNext(st, in)
	case *ssa.Extract:
		t := e.value(st, in.Tuple)
		e.setReg(st, in, e.typed(tExt(t, in.Index), in.Type()))
		e.next(st)
		return e.splitReg(st, in)
	case *ssa.Slice:
		return e.slice(st, in)
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Store:
		p := e.value(st, in.Addr)
		v := e.value(st, in.Val)
		if !e.deref(st, p, in, "store") {
			return false
		}
		p = st.normPtr(p)
		e.onStore(st, p, v, in)
		st.store(p, v, in.Val.Type())
		e.next(st)
	case *ssa.If:
		return e.branch(st, in)
	case *ssa.Jump:
		return e.jump(st, in.Block().Succs[0])
	case *ssa.Return:
		res := make([]*Term, len(in.Results))
		for i, r := range in.Results {
			res[i] = e.value(st, r)
		}
		return e.ret(st, res)
	case *ssa.RunDefers:
		f := st.top()
		if len(f.defers) == 0 {
			e.next(st)
			return true
		}
		f = st.mut()
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
		return e.invoke(st, d, fkDefer)
	case *ssa.Panic:
		v := e.value(st, in.X)
		return e.doPanic(st, v)
	case *ssa.Defer:
		d := e.resolveCall(st, &in.Call, in)
		f := st.mut()
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		e.next(st)
	case *ssa.Go:
		d := e.resolveCall(st, &in.Call, in)
		fn := d.fn
		if fn == nil {
			fn = tCall("extern:" + calleeName(&in.Call))
		}
		if e.obs.Go != nil {
			e.obs.Go(st, fn, d.args, in)
		}
		st.pending = append(st.pending[:len(st.pending):len(st.pending)], pendingGo{fn: fn, args: d.args, site: siteName(st.top(), in)})
		e.next(st)
	case *ssa.Send:
		ch := e.value(st, in.Chan)
		v := e.value(st, in.X)
		if ch.root().op == OAlloc {
			p := tFieldAddr(ch, 1, "$queue")
			q := st.load(p, types.Typ[types.Int])
			if q.op != OList {
				q = mk(OList, "", nil, nil, nil, 0, 0)
			}
			if len(q.args) < 4 {
				q = mk(OList, "", nil, nil, nil, 0, 0, append(append([]*Term(nil), q.args...), v)...)
			}
			o := st.objOrNew(ch)
			st.setObj(o.with(p, q))
		}
		e.next(st)
	case *ssa.Select:
		return e.selectInstr(st, in)
	case *ssa.Call:
		d := e.resolveCall(st, &in.Call, in)
		return e.invoke(st, d, fkCall)
	default:
		e.rep.undecided(fmt.Sprintf("instruction %T in %s not supported", in, st.top().fn.Name()))
		return false
	}
	return true
}

func (s *State) normPtr(p *Term) *Term { return p }

func (e *Engine) typed(t *Term, typ types.Type) *Term {
	if t.typ == nil && t.op != OConst && t.op != ONil && t.op != OTuple && t.op != OList {
		t.typ = typ
	}
	return t
}

func (e *Engine) dom(st *State, t *Term) *Term { return t }

// splitReg splits the value of a register into the cases the observer asks for.
func (e *Engine) splitReg(st *State, v ssa.Value) bool {
	if e.obs.Domain == nil {
		return true
	}
	f := st.top()
	t := f.regs[f.info.num[v]]
	return e.splitTerm(st, t)
}

func (e *Engine) splitTerm(st *State, t *Term) bool {
	if t == nil || t.op == OConst || t.op == ONil || e.obs.Domain == nil {
		return true
	}
	if f := st.fact(t); f.eq != nil {
		return true
	}
	cases := e.obs.Domain(st, t)
	if cases == nil {
		return true
	}
	for _, c := range cases {
		n := st.fork()
		nf := topFact
		nf.eq = c
		n.setFact(t, &nf)
		if s, ok := strConst(c); ok {
			l := mk(OLen, "", nil, nil, nil, 0, 0, t)
			lf := topFact
			lf.lo, lf.hi = int64(len(s)), int64(len(s))
			n.setFact(l, &lf)
		}
		n.note(fmt.Sprintf("case %s = %s", t, c))
		e.push(n)
	}
	return false
}

func (e *Engine) unop(st *State, in *ssa.UnOp) bool {
	x := e.value(st, in.X)
	switch in.Op {
	case token.NOT:
		e.setReg(st, in, mkNot(st.norm(x)))
	case token.SUB:
		x = st.norm(x)
		if x.op == OConst {
			e.setReg(st, in, tConst(constant.UnaryOp(token.SUB, x.cv, 0), nil))
		} else {
			e.setReg(st, in, mk(OUn, "-", in.Type(), nil, nil, 0, 0, x))
		}
	case token.XOR:
		e.setReg(st, in, mk(OUn, "^", in.Type(), nil, nil, 0, 0, x))
	case token.MUL:
		if !e.deref(st, x, in, "load") {
			return false
		}
		v := e.typed(st.load(x, in.Type()), in.Type())
		if e.obs.Load != nil {
			e.obs.Load(st, x, v, in)
		}
		e.setReg(st, in, v)
		e.next(st)
		return e.splitReg(st, in)
	case token.ARROW:
		return e.recv(st, in, x)
	}
	e.next(st)
	return true
}

func (e *Engine) onStore(st *State, p, v *Term, in ssa.Instruction) {
	if e.obs.Store != nil {
		e.obs.Store(st, p, v, in)
	}
}

// deref checks an address that is about to be used. false: the path ends here.
func (e *Engine) deref(st *State, x *Term, in ssa.Instruction, what string) bool {
	if e.obs.Deref != nil {
		if !e.obs.Deref(st, x, in, what) {
			return false
		}
	}
	if st.isNil(x) == 1 {
		// certain nil dereference
		return e.doPanic(st, tStr("nil dereference at "+e.P.pos(instrPos(in))))
	}
	return true
}

func (e *Engine) index(st *State, s, idx *Term, in ssa.Instruction) bool {
	if e.obs.Index != nil {
		if !e.obs.Index(st, s, idx, in, 0) {
			return false
		}
	}
	return true
}

func (e *Engine) indexAddr(st *State, in *ssa.IndexAddr) bool {
	x := e.value(st, in.X)
	i := st.norm(e.value(st, in.Index))
	if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
		if !e.deref(st, x, in, "index") {
			return false
		}
		e.setReg(st, in, tIndexAddr(x, i))
		e.next(st)
		return true
	}
	if st.norm(x).op == ONil {
		x = tNil()
	}
	if !e.index(st, x, i, in) {
		return false
	}
	switch x.op {
	case ONil:
		return e.doPanic(st, tStr("index of nil slice at "+e.P.pos(instrPos(in))))
	case OSliceV:
		if k, ok := intConst(i); ok {
			if k < 0 || k >= x.m {
				return e.doPanic(st, tStr("index out of range at "+e.P.pos(instrPos(in))))
			}
			e.setReg(st, in, tIndexAddr(x.args[0], tInt(x.n+k)))
		} else {
			e.setReg(st, in, tIndexAddr(x.args[0], i))
		}
	case OSliceOf:
		lo := x.args[1]
		if lo.op == ONil {
			lo = tInt(0)
		}
		base := x.args[0]
		if base.op == OSliceV || base.op == OAlloc {
			e.setReg(st, in, tIndexAddr(x, i))
		} else {
			e.setReg(st, in, tIndexAddr(base, tAdd(i, lo)))
		}
	default:
		e.setReg(st, in, tIndexAddr(x, i))
	}
	e.next(st)
	return true
}

func (e *Engine) slice(st *State, in *ssa.Slice) bool {
	x := e.value(st, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return tNil()
		}
		return st.norm(e.value(st, v))
	}
	lo, hi := opt(in.Low), opt(in.High)
	if e.obs.Index != nil {
		if hi.op != ONil {
			if !e.obs.Index(st, x, hi, in, 1) {
				return false
			}
		} else if lo.op != ONil {
			if !e.obs.Index(st, x, lo, in, 1) {
				return false
			}
		}
	}
	l, lok := int64(0), true
	if lo.op != ONil {
		l, lok = intConst(lo)
	}
	h, hok := int64(0), false
	if hi.op != ONil {
		h, hok = intConst(hi)
	}
	var r *Term
	switch {
	case x.op == OAlloc || (x.op == OFieldAddr || x.op == OIndexAddr || x.op == OGlobal):
		if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
			if hi.op == ONil {
				h, hok = at.Len(), true
			}
		}
		if lok && hok && h >= l {
			r = mk(OSliceV, "", in.Type(), nil, nil, l, h-l, x)
		}
	case x.op == OSliceV:
		if hi.op == ONil {
			h, hok = x.m, true
		}
		if lok && hok && h >= l && h <= x.m {
			r = mk(OSliceV, "", in.Type(), nil, nil, x.n+l, h-l, x.args[0])
		}
	case x.op == ONil && lok && (hi.op == ONil || hok && h == 0) && l == 0:
		r = x
	default:
		if s, ok := strConst(st.norm(x)); ok && lok {
			if hi.op == ONil {
				h, hok = int64(len(s)), true
			}
			if hok && l <= h && h <= int64(len(s)) {
				r = tStr(s[l:h])
			}
		}
		if r == nil && l == 0 && lok && hi.op == ONil {
			r = x
		}
	}
	if r == nil {
		r = mk(OSliceOf, "", in.Type(), nil, nil, 0, 0, x, lo, hi)
	}
	e.setReg(st, in, r)
	e.next(st)
	return true
}

func (e *Engine) convert(st *State, x *Term, from, to types.Type) *Term {
	x = st.norm(x)
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return x
		}
		if fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			if x.op == OConst {
				if tb.Info()&types.IsFloat != 0 {
					return tConst(constant.ToFloat(x.cv), to)
				}
				if v := constant.ToInt(x.cv); v.Kind() == constant.Int {
					return tConst(v, to)
				}
			}
			return mk(OConv, "num", to, nil, nil, 0, 0, x)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
	}
	if isStringOrBytes(from) && isStringOrBytes(to) {
		// back and forth
		if x.op == OConv && types.Identical(x.args[0].typOr(to), to) && isStringOrBytes(to) && !isByteSlice(to) {
			return x.args[0]
		}
		return mk(OConv, "", to, nil, nil, 0, 0, x)
	}
	return mk(OConv, "", to, nil, nil, 0, 0, x)
}

func isByteSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (t *Term) typOr(d types.Type) types.Type {
	if t.op == OConst && t.cv.Kind() == constant.String {
		return d
	}
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func (e *Engine) lookup(st *State, in *ssa.Lookup) bool {
	m := st.norm(e.value(st, in.X))
	k := st.norm(e.value(st, in.Index))
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if !e.index(st, m, k, in) {
			return false
		}
		if s, ok := strConst(m); ok {
			if i, ok := intConst(k); ok && i >= 0 && i < int64(len(s)) {
				e.setReg(st, in, tInt(int64(s[i])))
				e.next(st)
				return true
			}
		}
		e.setReg(st, in, mk(OCall, "index", in.Type(), nil, nil, 0, 0, m, k))
		e.next(st)
		return true
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if e.obs.Load != nil {
		e.obs.Load(st, tIndexAddr(m, k), nil, in)
	}
	var v, ok *Term
	p := tIndexAddr(m, k)
	o := st.obj(m.root())
	var c *Term
	if o != nil {
		c = o.get(p)
	}
	switch {
	case m.op == ONil:
		v, ok = zero(mt.Elem()), tBool(false)
	case c != nil:
		v, ok = c, tBool(true)
	case m.op == OAlloc && (o == nil || o.fuzzy == nil) && k.op == OConst && e.allConstKeys(o, m):
		v, ok = zero(mt.Elem()), tBool(false)
	case m.op == OAlloc && (o == nil || len(o.cells) == 0 && o.fuzzy == nil):
		v, ok = zero(mt.Elem()), tBool(false)
	case m.op == OAlloc && o != nil && o.fuzzy == nil && !o.summary && e.allConstKeys(o, m) && len(o.cells) <= 24:
		// the key is one of those in the map, or none of them
		for _, cc := range o.cells {
			if cc.p.op != OIndexAddr || cc.p.args[0] != m {
				continue
			}
			eq := mkEq(k, cc.p.args[1])
			tr := st.truth(eq)
			if tr == 2 {
				continue
			}
			n := st.fork()
			n.mut()
			if tr == 1 || n.assume(eq, true) {
				if in.CommaOk {
					e.setReg(n, in, tTuple(cc.v, tBool(true)))
				} else {
					e.setReg(n, in, cc.v)
				}
				n.note(eq.String() + " is true")
				e.next(n)
				e.push(n)
			}
			if tr == 1 || !st.assume(eq, false) {
				return false
			}
		}
		v, ok = zero(mt.Elem()), tBool(false)
	default:
		var ver []*Term
		ver = append(ver, m, k)
		if o != nil && o.fuzzy != nil {
			ver = append(ver, o.fuzzy)
		}
		v = mk(OLookup, "", mt.Elem(), nil, nil, 0, 0, ver...)
		ok = mk(OCall, "haskey", types.Typ[types.Bool], nil, nil, 0, 0, ver...)
		// an absent key gives the zero value
		switch st.truth(ok) {
		case 2:
			v = zero(mt.Elem())
		}
	}
	if in.CommaOk {
		e.setReg(st, in, tTuple(v, ok))
	} else {
		e.setReg(st, in, v)
	}
	e.next(st)
	if in.CommaOk {
		return true
	}
	return e.splitReg(st, in)
}

func (e *Engine) allConstKeys(o *Obj, m *Term) bool {
	if o == nil {
		return true
	}
	for _, c := range o.cells {
		if c.p.op == OIndexAddr && c.p.args[0] == m && c.p.args[1].op != OConst {
			return false
		}
	}
	return true
}

// ---- ranges over maps and strings --------------------------------------

func (e *Engine) rangeInit(st *State, in *ssa.Range) bool {
	x := st.norm(e.value(st, in.X))
	f := st.top()
	t := tAlloc(siteName(f, in)+"it", in.Type())
	e.refresh(st, t)
	x = st.norm(e.value(st, in.X))
	o := &Obj{root: t}
	o.rehash()
	o = o.with(tFieldAddr(t, 0, "$x"), x)
	o = o.with(tFieldAddr(t, 1, "$pos"), tInt(0))
	st.setObj(o)
	e.setReg(st, in, t)
	e.next(st)
	return true
}

func (e *Engine) rangeNext(st *State, in *ssa.Next) bool {
	it := e.value(st, in.Iter)
	o := st.obj(it)
	var x *Term
	pos := int64(0)
	if o != nil {
		x = o.get(tFieldAddr(it, 0, "$x"))
		pos, _ = intConst(o.get(tFieldAddr(it, 1, "$pos")))
	}
	rg := in.Iter.(*ssa.Range)
	finish := func(s *State, ok bool, k, v *Term) {
		s.mut()
		if ok {
			e.setReg(s, in, tTuple(tBool(true), k, v))
		} else {
			e.setReg(s, in, tTuple(tBool(false), tNil(), tNil()))
		}
		if e.obs.RangeNext != nil {
			if !ok {
				k, v = nil, nil
			}
			e.obs.RangeNext(s, x, k, v, in)
		}
		e.next(s)
	}
	if in.IsString {
		n := st.fork()
		finish(n, false, nil, nil)
		e.push(n)
		k := e.symFor(st, in, "k", types.Typ[types.Int])
		finish(st, true, k, mk(OCall, "index", types.Typ[types.Rune], nil, nil, 0, 0, x, k))
		e.push(st)
		return false
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	if x != nil && (x.op == ONil || x.op == OAlloc) {
		mo := st.obj(x)
		if x.op == ONil || mo == nil || (mo.fuzzy == nil && e.allConstKeys(mo, x) && !mo.summary) {
			var cells []cell
			if mo != nil && x.op != ONil {
				for _, c := range mo.cells {
					if c.p.op == OIndexAddr && c.p.args[0] == x {
						cells = append(cells, c)
					}
				}
			}
			if int(pos) >= len(cells) {
				finish(st, false, nil, nil)
			} else {
				st.setObj(o.with(tFieldAddr(it, 1, "$pos"), tInt(pos+1)))
				finish(st, true, cells[pos].p.args[1], cells[pos].v)
			}
			return true
		}
	}
	if x == nil {
		x = tSym("rangeof", rg.X.Type())
	}
	// no more elements
	n := st.fork()
	finish(n, false, nil, nil)
	e.push(n)
	// one more element
	if e.obs.RangeKeys != nil {
		if keys := e.obs.RangeKeys(st, x, in); keys != nil {
			for _, k := range keys {
				s := st.fork()
				s.mut()
				v := e.mapGet(s, x, k, mt)
				s.note(fmt.Sprintf("range key %s", k))
				finish(s, true, k, v)
				e.push(s)
			}
			return false
		}
	}
	k := e.symFor(st, in, "k", mt.Key())
	v := e.mapGet(st, x, k, mt)
	// an element that exists
	if v.op == OLookup {
		st.assume(mk(OCall, "haskey", types.Typ[types.Bool], nil, nil, 0, 0, v.args...), true)
	}
	finish(st, true, k, v)
	e.push(st)
	return false
}

func (e *Engine) mapGet(st *State, m, k *Term, mt *types.Map) *Term {
	o := st.obj(m.root())
	if o != nil {
		if c := o.get(tIndexAddr(m, k)); c != nil {
			return c
		}
		if o.fuzzy != nil {
			return mk(OLookup, "", mt.Elem(), nil, nil, 0, 0, m, k, o.fuzzy)
		}
	}
	return mk(OLookup, "", mt.Elem(), nil, nil, 0, 0, m, k)
}

// ---- type assertions ----------------------------------------------------

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert) bool {
	x := st.norm(e.value(st, in.X))
	t := in.AssertedType
	var cond *Term
	if x.op == ONil {
		cond = tBool(false)
	} else {
		cond = mk(OIsType, "", t, nil, nil, 0, 0, x)
	}
	val := func(s *State) *Term {
		if types.IsInterface(t) {
			return x
		}
		if x.op == OIface {
			return x.args[0]
		}
		return mk(OTA, "", t, nil, nil, 0, 0, x)
	}
	if !in.CommaOk {
		switch st.truth(cond) {
		case 1:
		case 2:
			return e.doPanic(st, tStr("type assertion fails at "+e.P.pos(instrPos(in))))
		default:
			if e.obs.Deref != nil && !e.obs.Deref(st, x, in, "assert") {
				return false
			}
			st.assume(cond, true)
		}
		e.setReg(st, in, val(st))
		e.next(st)
		return true
	}
	tr := st.truth(cond)
	if tr != 1 {
		n := st
		if tr == 0 {
			n = st.fork()
		}
		if n.assume(cond, false) || tr == 2 {
			n.mut()
			e.setReg(n, in, tTuple(zero(t), tBool(false)))
			e.next(n)
			if tr == 0 {
				e.push(n)
			} else {
				return true
			}
		}
	}
	st.assume(cond, true)
	e.setReg(st, in, tTuple(val(st), tBool(true)))
	e.next(st)
	if tr == 0 {
		e.push(st)
		return false
	}
	return true
}

// ---- branches ------------------------------------------------------------

func (e *Engine) branch(st *State, in *ssa.If) bool {
	b := in.Block()
	if e.sl != nil && !e.sl.rel[in] {
		// nothing that matters depends on it
		n := st.fork()
		n.mut()
		if e.jump(n, b.Succs[1]) {
			e.push(n)
		}
		st.mut()
		return e.jump(st, b.Succs[0])
	}
	c := st.norm(e.value(st, in.Cond))
	switch st.truth(c) {
	case 1:
		if e.obs.Branch != nil {
			e.obs.Branch(st, in, c, true)
		}
		return e.jump(st, b.Succs[0])
	case 2:
		if e.obs.Branch != nil {
			e.obs.Branch(st, in, c, false)
		}
		return e.jump(st, b.Succs[1])
	}
	e.nForks++
	n := st.fork()
	pos := ""
	if ip := instrPos(in); ip.IsValid() {
		pos = e.P.pos(ip)
	}
	if n.assume(c, false) {
		if pos != "" {
			n.note(fmt.Sprintf("%s: %s is false", pos, c))
		}
		if e.obs.Branch != nil {
			e.obs.Branch(n, in, c, false)
		}
		n.mut()
		if e.jump(n, b.Succs[1]) {
			e.push(n)
		}
	}
	if st.assume(c, true) {
		if pos != "" {
			st.note(fmt.Sprintf("%s: %s is true", pos, c))
		}
		if e.obs.Branch != nil {
			e.obs.Branch(st, in, c, true)
		}
		if e.jump(st, b.Succs[0]) {
			e.push(st)
		}
	}
	return false
}

// ---- returns, panics -----------------------------------------------------

func (e *Engine) ret(st *State, res []*Term) bool {
	f := st.top()
	if e.obs.FnRet != nil {
		args := make([]*Term, len(f.fn.Params))
		for i := range args {
			args[i] = f.regs[i]
		}
		e.obs.FnRet(st, f.fn, args, res)
	}
	if len(st.frames) == 1 {
		if e.obs.Exit != nil {
			e.obs.Exit(st, res)
		}
		st.dead = true
		return false
	}
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	caller := st.mut()
	switch f.kind {
	case fkCall:
		if v, ok := f.retInst.(ssa.Value); ok {
			if _, isCall := f.retInst.(*ssa.Call); isCall {
				e.setReg(st, v, tupled(res))
			}
		}
		caller.pc++
	case fkDefer:
		// RunDefers is executed again, or unwinding continues
		if f.unwind || caller.unwind {
			return true
		}
	case fkGo:
		// the blocking instruction is executed again
	case fkModel:
		if f.after != nil {
			f.after(st, res)
		}
	}
	if len(f.fn.Blocks) == 1 && f.kind == fkCall {
		return true
	}
	if st.dead {
		return false
	}
	if caller.unwind {
		return true
	}
	e.push(st)
	return false
}

func tupled(res []*Term) *Term {
	switch len(res) {
	case 0:
		return tNil()
	case 1:
		return res[0]
	}
	return tTuple(res...)
}

// doPanic starts unwinding. Returns false if the state is finished.
func (e *Engine) doPanic(st *State, v *Term) bool {
	st.panicV = v
	f := st.mut()
	f.unwind = true
	st.note("panic at " + e.P.pos(instrPos(f.block.Instrs[min(f.pc, len(f.block.Instrs)-1)])))
	return true
}

func (e *Engine) unwindStep(st *State) bool {
	f := st.top()
	if len(f.defers) > 0 {
		f = st.mut()
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
		return e.invoke(st, d, fkDefer)
	}
	if st.panicV == nil {
		// recovered: the function returns normally with its named results
		f = st.mut()
		f.unwind = false
		if rb := f.fn.Recover; rb != nil {
			f.prev = f.block
			f.block = rb
			f.pc = 0
			return true
		}
		res := make([]*Term, f.fn.Signature.Results().Len())
		for i := range res {
			res[i] = zero(f.fn.Signature.Results().At(i).Type())
		}
		return e.ret(st, res)
	}
	// pop
	if len(st.frames) == 1 {
		if e.obs.PanicExit != nil {
			e.obs.PanicExit(st)
		}
		st.dead = true
		return false
	}
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	if f.kind == fkGo {
		// panic in a goroutine ends the process
		if e.obs.PanicExit != nil {
			e.obs.PanicExit(st)
		}
		st.dead = true
		return false
	}
	c := st.mut()
	c.unwind = true
	return true
}

// willRecover: a deferred function of some active frame calls recover.
func (e *Engine) willRecover(st *State) bool {
	for _, f := range st.frames {
		for _, d := range f.defers {
			if d.fn != nil && d.fn.fn != nil {
				for _, b := range d.fn.fn.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// ---- channels ------------------------------------------------------------

type chanStatus int

const (
	chNever chanStatus = iota
	chReady
	chMaybe   // external channel: may or may not be ready
	chPending // a goroutine that did not run yet may make it ready
)

func (e *Engine) chanState(st *State, ch *Term) chanStatus {
	if st.isNil(ch) == 1 {
		return chNever
	}
	if ch.op == OAlloc {
		if v := st.load(tFieldAddr(ch, 0, "$closed"), types.Typ[types.Bool]); v != tBool(false) {
			return chReady
		}
		if q := st.load(tFieldAddr(ch, 1, "$queue"), types.Typ[types.Int]); q.op == OList && len(q.args) > 0 {
			return chReady
		}
		for _, p := range st.pending {
			if p.fn.contains(func(t *Term) bool { return t == ch }) || e.reaches(st, p, ch) {
				return chPending
			}
		}
		return chNever
	}
	if st.fact(tCall("fired", ch)).b == 1 {
		return chReady
	}
	if e.obs.WaitHanded {
		for _, p := range st.pending {
			if p.fn.contains(func(t *Term) bool { return t == ch }) || e.reaches(st, p, ch) {
				return chPending
			}
		}
	}
	return chMaybe
}

// reaches: can the pending goroutine get at the channel through its arguments?
func (e *Engine) reaches(st *State, p pendingGo, ch *Term) bool {
	seen := map[*Term]bool{}
	var work []*Term
	found := false
	add := func(t *Term) {
		found = found || t == ch
		for _, s := range t.syms {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	add(p.fn)
	for _, a := range p.args {
		add(a)
	}
	for len(work) > 0 && !found {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s == ch {
			return true
		}
		if o := st.obj(s); o != nil {
			for _, c := range o.cells {
				add(c.v)
			}
		}
	}
	return found
}

// runPending runs goroutine i inline; the current instruction is executed again afterwards.
func (e *Engine) runPending(st *State, i int) bool {
	p := st.pending[i]
	np := append([]pendingGo(nil), st.pending[:i]...)
	st.pending = append(np, st.pending[i+1:]...)
	if p.fn.fn == nil || p.fn.fn.Blocks == nil {
		return true
	}
	st.note("goroutine " + p.fn.fn.Name() + " runs")
	e.pushFrame(st, p.fn.fn, p.args, p.fn.args, fkGo, nil, "go")
	return true
}

func (e *Engine) recvValue(st *State, ch *Term, typ types.Type) (v, ok *Term) {
	if ch.op == OAlloc {
		p := tFieldAddr(ch, 1, "$queue")
		if q := st.load(p, types.Typ[types.Int]); q.op == OList && len(q.args) > 0 {
			o := st.objOrNew(ch)
			st.setObj(o.with(p, mk(OList, "", nil, nil, nil, 0, 0, q.args[1:]...)))
			return q.args[0], tBool(true)
		}
		return zero(typ), tBool(false)
	}
	return mk(OCall, "recv", typ, nil, nil, 0, 0, ch), mk(OCall, "recvok", types.Typ[types.Bool], nil, nil, 0, 0, ch)
}

func (e *Engine) recv(st *State, in *ssa.UnOp, ch *Term) bool {
	switch e.chanState(st, ch) {
	case chNever:
		if e.obs.Select != nil {
			e.obs.Select(st, in, []*Term{ch}, -2, true)
		}
		st.dead = true
		return false
	case chPending:
		for i, p := range st.pending {
			if p.fn.contains(func(t *Term) bool { return t == ch }) || e.reaches(st, p, ch) {
				return e.runPending(st, i)
			}
		}
	case chMaybe:
		st.assume(tCall("fired", ch), true)
	}
	v, ok := e.recvValue(st, ch, in.X.Type().Underlying().(*types.Chan).Elem())
	if e.obs.Select != nil {
		e.obs.Select(st, in, []*Term{ch}, 0, true)
	}
	if in.CommaOk {
		e.setReg(st, in, tTuple(v, ok))
	} else {
		e.setReg(st, in, v)
	}
	e.next(st)
	return true
}

func (e *Engine) selectInstr(st *State, in *ssa.Select) bool {
	chans := make([]*Term, len(in.States))
	for i, s := range in.States {
		chans[i] = e.value(st, s.Chan)
	}
	status := make([]chanStatus, len(chans))
	anyReady, any := false, false
	for i := range chans {
		if in.States[i].Dir == types.SendOnly {
			status[i] = chMaybe
		} else {
			status[i] = e.chanState(st, chans[i])
		}
		if status[i] == chReady && chans[i].op == OAlloc {
			anyReady = true
		}
		if status[i] != chNever {
			any = true
		}
	}
	if !any && in.Blocking {
		if e.obs.Select != nil {
			e.obs.Select(st, in, chans, -2, true)
		}
		st.dead = true
		return false
	}
	choose := func(s *State, idx int) {
		s.mut()
		res := []*Term{tInt(int64(idx)), tBool(true)}
		for i, x := range in.States {
			if x.Dir == types.SendOnly {
				continue
			}
			et := x.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				v, ok := e.recvValue(s, chans[i], et)
				res[1] = ok
				res = append(res, v)
			} else {
				res = append(res, zero(et))
			}
		}
		if idx >= 0 && chans[idx].op != OAlloc {
			s.assume(tCall("fired", chans[idx]), true)
		}
		e.setReg(s, in, tTuple(res...))
		if e.obs.Select != nil {
			e.obs.Select(s, in, chans, idx, in.Blocking)
		}
		s.note(fmt.Sprintf("%s: select takes case %d", e.P.pos(in.Pos()), idx))
		e.next(s)
		e.push(s)
	}
	allocReady := -1
	for i, s := range status {
		if s == chReady && (allocReady < 0) {
			if chans[i].op == OAlloc {
				allocReady = i
			}
		}
	}
	_ = anyReady
	firedReady := false
	for i, s := range status {
		if s == chReady && chans[i].op != OAlloc {
			firedReady = true
		}
	}
	if !in.Blocking {
		// a poll
		if !firedReady && allocReady < 0 {
			choose(st.fork(), -1)
		}
		for i, s := range status {
			switch s {
			case chReady:
				choose(st.fork(), i)
			case chMaybe:
				choose(st.fork(), i)
			case chPending:
				// may have completed already
				n := st.fork()
				for k, p := range n.pending {
					if p.fn.contains(func(t *Term) bool { return t == chans[i] }) || e.reaches(n, p, chans[i]) {
						n.mut()
						e.runPending(n, k)
						e.push(n)
						break
					}
				}
			}
		}
		return false
	}
	if allocReady < 0 && e.obs.WaitHanded && st.ohas("$ran") {
		for i, s := range status {
			if s == chReady {
				allocReady = i
				break
			}
		}
	}
	if allocReady >= 0 && st.ohas("$ran") {
		// a goroutine just completed for this select: its case is taken
		st.odel("$ran")
		choose(st, allocReady)
		return false
	}
	for i, s := range status {
		switch s {
		case chReady, chMaybe:
			choose(st.fork(), i)
		case chPending:
			n := st.fork()
			for k, p := range n.pending {
				if p.fn.contains(func(t *Term) bool { return t == chans[i] }) || e.reaches(n, p, chans[i]) {
					n.mut()
					n.otag("$ran")
					e.runPending(n, k)
					e.push(n)
					break
				}
			}
		}
	}
	return false
}
