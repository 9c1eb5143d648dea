package main

import (
	"go/constant"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- facts -------------------------------------------------------------

// Fact is what is known about one term. It is immutable.
type Fact struct {
	nilness int8 // 1 nil, 2 not nil
	b       int8 // 1 true, 2 false
	lo, hi  int64
	eq      *Term
	ne      []*Term
	dyn     types.Type // dynamic type of an interface value
	notDyn  []types.Type
}

var topFact = Fact{lo: math.MinInt64, hi: math.MaxInt64}

func (f *Fact) isTop() bool {
	return f.nilness == 0 && f.b == 0 && f.lo == math.MinInt64 && f.hi == math.MaxInt64 && f.eq == nil && len(f.ne) == 0 && f.dyn == nil && len(f.notDyn) == 0
}

func (f *Fact) hash() uint64 {
	h := mix(uint64(f.nilness)<<8|uint64(f.b), uint64(f.lo))
	h = mix(h, uint64(f.hi))
	if f.eq != nil {
		h = mix(h, f.eq.h)
	}
	for _, n := range f.ne {
		h = mix(h, n.h)
	}
	if f.dyn != nil {
		h = mix(h, hashStr(tkey(f.dyn)))
	}
	for _, t := range f.notDyn {
		h = mix(h, hashStr(tkey(t)))
	}
	return h
}

// implies: every concrete value allowed by f is allowed by g.
func (f *Fact) implies(g *Fact) bool {
	if g.nilness != 0 && g.nilness != f.nilness {
		return false
	}
	if g.b != 0 && g.b != f.b {
		return false
	}
	if f.lo < g.lo || f.hi > g.hi {
		if f.eq == nil {
			return false
		}
	}
	if g.eq != nil && f.eq != g.eq {
		return false
	}
	for _, n := range g.ne {
		ok := f.eq != nil && f.eq != n
		for _, m := range f.ne {
			if m == n {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if g.dyn != nil && (f.dyn == nil || tkey(f.dyn) != tkey(g.dyn)) {
		return false
	}
	for _, t := range g.notDyn {
		ok := f.dyn != nil && tkey(f.dyn) != tkey(t)
		for _, u := range f.notDyn {
			if tkey(u) == tkey(t) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// join returns the union of f and g if it is exactly representable.
func joinFacts(f, g *Fact) (*Fact, bool) {
	if f.implies(g) {
		return g, true
	}
	if g.implies(f) {
		return f, true
	}
	// only one component may differ
	r := *f
	diff := 0
	if f.nilness != g.nilness {
		diff++
		if f.nilness != 0 && g.nilness != 0 {
			r.nilness = 0
		} else {
			return nil, false
		}
	}
	if f.b != g.b {
		diff++
		if f.b != 0 && g.b != 0 {
			r.b = 0
		} else {
			return nil, false
		}
	}
	if f.lo != g.lo || f.hi != g.hi {
		diff++
		a, b := f, g
		if a.lo > b.lo {
			a, b = b, a
		}
		if a.hi != math.MaxInt64 && b.lo > a.hi+1 {
			return nil, false
		}
		r.lo = a.lo
		r.hi = a.hi
		if b.hi > r.hi {
			r.hi = b.hi
		}
	}
	if f.eq != g.eq || !sameTerms(f.ne, g.ne) {
		diff++
		// eq c joined with ne c (and equal otherwise)
		a, b := f, g
		if a.eq == nil {
			a, b = b, a
		}
		if a.eq == nil || b.eq != nil {
			return nil, false
		}
		var ne []*Term
		found := false
		for _, n := range b.ne {
			if n == a.eq {
				found = true
			} else {
				ne = append(ne, n)
			}
		}
		if !found {
			return nil, false
		}
		// the remaining ne must hold for a as well: a.eq differs from them
		r.eq = nil
		r.ne = ne
	}
	if tk(f.dyn) != tk(g.dyn) || !sameTypes(f.notDyn, g.notDyn) {
		diff++
		a, b := f, g
		if a.dyn == nil {
			a, b = b, a
		}
		if a.dyn == nil || b.dyn != nil {
			return nil, false
		}
		var nd []types.Type
		found := false
		for _, t := range b.notDyn {
			if tkey(t) == tkey(a.dyn) {
				found = true
			} else {
				nd = append(nd, t)
			}
		}
		if !found {
			return nil, false
		}
		r.dyn = nil
		r.notDyn = nd
	}
	if diff != 1 {
		return nil, false
	}
	return &r, true
}

func tk(t types.Type) string { return tkey(t) }

func sameTypes(a, b []types.Type) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if tkey(a[i]) != tkey(b[i]) {
			return false
		}
	}
	return true
}
func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type factEntry struct {
	t *Term
	f *Fact
}

// ---- heap --------------------------------------------------------------

type cell struct {
	p *Term
	v *Term
}

// Obj holds the known cells of one object. Immutable.
type Obj struct {
	root  *Term
	cells []cell // sorted by p.id
	// fuzzy: unknown stores happened, absent cells are not initial values any more
	fuzzy *Term
	// summary: stands for several concrete objects, stores are weak
	summary bool
	h       uint64
}

func (o *Obj) rehash() {
	h := o.root.h
	for _, c := range o.cells {
		h += mix(c.p.h, c.v.h)
	}
	if o.fuzzy != nil {
		h = mix(h, o.fuzzy.h)
	}
	if o.summary {
		h++
	}
	o.h = h
}

func (o *Obj) get(p *Term) *Term {
	i := sort.Search(len(o.cells), func(i int) bool { return o.cells[i].p.id >= p.id })
	if i < len(o.cells) && o.cells[i].p == p {
		return o.cells[i].v
	}
	return nil
}

func (o *Obj) with(p, v *Term) *Obj {
	n := *o
	i := sort.Search(len(o.cells), func(i int) bool { return o.cells[i].p.id >= p.id })
	if i < len(o.cells) && o.cells[i].p == p {
		if o.cells[i].v == v {
			return o
		}
		n.cells = append([]cell(nil), o.cells...)
		n.cells[i].v = v
	} else {
		n.cells = make([]cell, 0, len(o.cells)+1)
		n.cells = append(n.cells, o.cells[:i]...)
		n.cells = append(n.cells, cell{p, v})
		n.cells = append(n.cells, o.cells[i:]...)
	}
	n.rehash()
	return &n
}

func (o *Obj) without(pred func(p *Term) bool) *Obj {
	n := *o
	n.cells = nil
	for _, c := range o.cells {
		if !pred(c.p) {
			n.cells = append(n.cells, c)
		}
	}
	if len(n.cells) == len(o.cells) {
		return o
	}
	n.rehash()
	return &n
}

// ---- observer state ----------------------------------------------------

type obsEntry struct {
	k string
	v []*Term
}

// ---- frames ------------------------------------------------------------

type deferred struct {
	call *ssa.CallCommon
	fn   *Term // resolved callee value (closure/func), nil for static external
	args []*Term
	site ssa.Instruction
}

type Frame struct {
	owner  *State
	fn     *ssa.Function
	info   *FnInfo
	regs   []*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	ctx    uint64 // hash of the call string
	// kind of continuation when this frame returns
	kind    frameKind
	retInst ssa.Instruction              // call instruction in the caller, nil for kinds without result
	unwind  bool                         // running defers because of a panic
	after   func(st *State, res []*Term) // for kind==fkModel: run after return (must be deterministic)
	tag     string
	// loops around upstream calls: how often they came round with one, and whether this round had one
	iters int
	did   bool
}

type frameKind uint8

const (
	fkCall  frameKind = iota // normal call, result goes to retInst
	fkDefer                  // deferred call, continue running defers of the caller
	fkGo                     // goroutine run inline, the instruction of the caller is executed again
	fkModel                  // called by the model of an external function
)

// ---- state -------------------------------------------------------------

type pendingGo struct {
	fn   *Term
	args []*Term
	site string
}

type State struct {
	eng     *Engine
	frames  []*Frame
	heap    []*Obj // sorted by root.id
	facts   []factEntry
	obs     []obsEntry
	locks   []*Term // held locks (terms tagged by mode)
	pending []pendingGo
	panicV  *Term // value of the panic being unwound
	trail   *trail
	dead    bool
	steps   int
}

type trail struct {
	prev *trail
	pos  string
	n    int
}

func (s *State) fork() *State {
	n := *s
	// neither may change a frame of the other
	for _, f := range s.frames {
		if f.owner == s {
			f.owner = nil
		}
	}
	n.frames = append([]*Frame(nil), s.frames...)
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	n.locks = s.locks[:len(s.locks):len(s.locks)]
	n.pending = s.pending[:len(s.pending):len(s.pending)]
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// mut returns the top frame for modification.
func (s *State) mut() *Frame {
	f := s.frames[len(s.frames)-1]
	if f.owner != s {
		n := *f
		n.owner = s
		n.regs = append([]*Term(nil), f.regs...)
		n.defers = f.defers[:len(f.defers):len(f.defers)]
		s.frames[len(s.frames)-1] = &n
		return &n
	}
	return f
}

// attempted notes an upstream attempt for the loops around it.
func (s *State) attempted() {
	for i, f := range s.frames {
		if f.did || !f.info.inLoop[f.block.Index] {
			continue
		}
		if f.owner != s {
			n := *f
			n.owner = s
			n.regs = append([]*Term(nil), f.regs...)
			n.defers = f.defers[:len(f.defers):len(f.defers)]
			f = &n
			s.frames[i] = f
		}
		f.did = true
	}
}

func (s *State) disown() {
	for _, f := range s.frames {
		if f.owner == s {
			f.owner = nil
		}
	}
}

func (s *State) note(pos string) {
	n := 1
	if s.trail != nil {
		if s.trail.pos == pos {
			return
		}
		n = s.trail.n + 1
	}
	s.trail = &trail{s.trail, pos, n}
}

func (s *State) obj(root *Term) *Obj {
	i := sort.Search(len(s.heap), func(i int) bool { return s.heap[i].root.id >= root.id })
	if i < len(s.heap) && s.heap[i].root == root {
		return s.heap[i]
	}
	return nil
}

func (s *State) setObj(o *Obj) {
	i := sort.Search(len(s.heap), func(i int) bool { return s.heap[i].root.id >= o.root.id })
	if i < len(s.heap) && s.heap[i].root == o.root {
		if s.heap[i] == o {
			return
		}
		h := append([]*Obj(nil), s.heap...)
		h[i] = o
		s.heap = h
		return
	}
	h := make([]*Obj, 0, len(s.heap)+1)
	h = append(h, s.heap[:i]...)
	h = append(h, o)
	h = append(h, s.heap[i:]...)
	s.heap = h
}

func (s *State) objOrNew(root *Term) *Obj {
	if o := s.obj(root); o != nil {
		return o
	}
	o := &Obj{root: root}
	o.rehash()
	return o
}

// ---- memory ------------------------------------------------------------

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// zero value of a type
func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsNumeric != 0:
			return tInt(0)
		}
		return tNil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zero(u.Field(i).Type())
		}
		return mkStruct(t, args)
	case *types.Array:
		return mk(OCall, "zeroarray", t, nil, nil, u.Len(), 0)
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zero(u.At(i).Type())
		}
		return tTuple(args...)
	}
	return tNil()
}

func mkStruct(t types.Type, args []*Term) *Term {
	// all fields of the same opaque value: the value itself
	if len(args) > 0 {
		var base *Term
		same := true
		for i, a := range args {
			var b *Term
			switch {
			case a.op == OField && a.n == int64(i):
				b = a.args[0]
			case a.op == OLoad && a.args[0].op == OFieldAddr && a.args[0].n == int64(i):
				b = mk(OLoad, "", t, nil, nil, 0, 0, append([]*Term{a.args[0].args[0]}, a.args[1:]...)...)
			}
			if b == nil || (base != nil && b != base) {
				same = false
				break
			}
			base = b
		}
		if same && base != nil && base.typ != nil && types.Identical(base.typ.Underlying(), t.Underlying()) {
			return base
		}
	}
	return mk(OStruct, "", t, nil, nil, 0, 0, args...)
}

func tLoadRaw(p *Term, typ types.Type) *Term { return mk(OLoad, "", typ, nil, nil, 0, 0, p) }

// fieldOf projects a struct value.
func fieldOf(v *Term, i int, st *types.Struct) *Term {
	switch v.op {
	case OStruct:
		return v.args[i]
	case OLoad:
		return mk(OLoad, "", st.Field(i).Type(), nil, nil, 0, 0, append([]*Term{tFieldAddr(v.args[0], i, st.Field(i).Name())}, v.args[1:]...)...)
	}
	return mk(OField, st.Field(i).Name(), st.Field(i).Type(), nil, nil, int64(i), 0, v)
}

func ptrUnder(p, base *Term) bool {
	for {
		if p == base {
			return true
		}
		if p.op == OFieldAddr || p.op == OIndexAddr {
			p = p.args[0]
			continue
		}
		return false
	}
}

func (s *State) load(p *Term, typ types.Type) *Term {
	root := p.root()
	o := s.obj(root)
	if o != nil {
		if v := o.get(p); v != nil {
			return v
		}
	}
	if st := structOf(typ); st != nil {
		// nothing known about parts of it: one opaque value
		if root.op != OAlloc {
			any := false
			if o != nil {
				for _, c := range o.cells {
					if ptrUnder(c.p, p) {
						any = true
						break
					}
				}
			}
			if !any {
				return s.initial(o, p, typ)
			}
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = s.load(tFieldAddr(p, i, st.Field(i).Name()), st.Field(i).Type())
		}
		return mkStruct(typ, args)
	}
	if at, ok := typ.Underlying().(*types.Array); ok && root.op == OAlloc {
		if at.Len() <= 64 {
			args := make([]*Term, at.Len())
			for i := range args {
				args[i] = s.load(tIndexAddr(p, tInt(int64(i))), at.Elem())
			}
			return mk(OCall, "array", typ, nil, nil, 0, 0, args...)
		}
	}
	return s.initial(o, p, typ)
}

// value of a cell that was never stored to
func (s *State) initial(o *Obj, p *Term, typ types.Type) *Term {
	root := p.root()
	if o != nil && o.fuzzy != nil {
		return mk(OLoad, "", typ, nil, nil, 0, 0, p, o.fuzzy)
	}
	if root.op == OCall && root.str == "copyof" {
		memo := map[*Term]*Term{}
		if q := rebase(p, root, root.args[0], memo); q != nil {
			return s.load(q, typ)
		}
	}
	if root.op == OList && p.op == OIndexAddr && p.args[0] == root {
		if k, ok := intConst(p.args[1]); ok && k >= 0 && int(k) < len(root.args) {
			return root.args[k]
		}
	}
	if root.op == OAlloc {
		// element of an allocated array at an unknown index
		q := p
		for q.op == OFieldAddr || q.op == OIndexAddr {
			if q.op == OIndexAddr && q.args[1].op != OConst {
				return mk(OLoad, "", typ, nil, nil, 0, 0, p)
			}
			q = q.args[0]
		}
		return zero(typ)
	}
	return tLoadRaw(p, typ)
}

// rebase moves an address from one root to another.
func rebase(p, from, to *Term, memo map[*Term]*Term) *Term {
	if p == from {
		return to
	}
	switch p.op {
	case OFieldAddr:
		return tFieldAddr(rebase(p.args[0], from, to, memo), int(p.n), p.str)
	case OIndexAddr:
		b := rebase(p.args[0], from, to, memo)
		if b.op == OSliceV {
			if k, ok := intConst(p.args[1]); ok {
				return tIndexAddr(b.args[0], tInt(b.n+k))
			}
			return tIndexAddr(b.args[0], p.args[1])
		}
		return tIndexAddr(b, p.args[1])
	}
	return p
}

func (s *State) store(p, v *Term, typ types.Type) {
	if st := structOf(typ); st != nil && st.NumFields() > 0 {
		if v.op == OStruct || p.root().op == OAlloc || true {
			for i := 0; i < st.NumFields(); i++ {
				s.store(tFieldAddr(p, i, st.Field(i).Name()), fieldOf(v, i, st), st.Field(i).Type())
			}
			return
		}
	}
	if at, ok := typ.Underlying().(*types.Array); ok {
		if v.op == OCall && v.str == "array" {
			for i, e := range v.args {
				s.store(tIndexAddr(p, tInt(int64(i))), e, at.Elem())
			}
			return
		}
		if v.op == OCall && v.str == "zeroarray" {
			root := p.root()
			if o := s.obj(root); o != nil {
				s.setObj(o.without(func(q *Term) bool { return ptrUnder(q, p) }))
			}
			return
		}
	}
	root := p.root()
	o := s.objOrNew(root)
	// a store at an unknown index may hit any element
	q := p
	for q.op == OFieldAddr || q.op == OIndexAddr {
		if q.op == OIndexAddr && q.args[1].op != OConst {
			arr := q.args[0]
			o = o.without(func(x *Term) bool { return ptrUnder(x, arr) && x != p })
			if root.op == OAlloc || true {
				n := *o
				n.fuzzy = tStr("idx")
				n.rehash()
				o = &n
			}
			break
		}
		if q.op == OIndexAddr && q.args[1].op == OConst {
			// forget what is known about unknown indexes of the same array
			arr := q.args[0]
			o = o.without(func(x *Term) bool {
				if x == p || !ptrUnder(x, arr) {
					return false
				}
				for x != arr {
					if x.op == OIndexAddr && x.args[0] == arr && x.args[1].op != OConst {
						return true
					}
					x = x.args[0]
				}
				return false
			})
		}
		q = q.args[0]
	}
	if o.summary {
		if old := o.get(p); old != nil && old != v {
			v = mk(OLoad, "", typ, nil, nil, 0, 0, p, tStr("weak"))
		}
	}
	s.setObj(o.with(p, v))
}

// havoc forgets everything about an object.
func (s *State) havoc(root *Term, why *Term) {
	n := &Obj{root: root, fuzzy: why}
	if o := s.obj(root); o != nil {
		n.summary = o.summary
	}
	n.rehash()
	s.setObj(n)
}

// havocAt forgets the part of an object at and below p.
func (s *State) havocAt(p *Term, typ types.Type, why *Term) {
	if st := structOf(typ); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s.havocAt(tFieldAddr(p, i, f.Name()), f.Type(), why)
		}
		return
	}
	root := p.root()
	o := s.objOrNew(root)
	o = o.without(func(q *Term) bool { return ptrUnder(q, p) })
	s.setObj(o.with(p, mk(OLoad, "", typ, nil, nil, 0, 0, p, why)))
}

// ---- facts -------------------------------------------------------------

// forgetFacts keeps only what is known of the terms f holds for.
func (s *State) forgetFacts(f func(t *Term) bool) {
	var nf []factEntry
	for _, e := range s.facts {
		if f(e.t) {
			nf = append(nf, e)
		}
	}
	s.facts = nf
}

func (s *State) fact(t *Term) *Fact {
	i := sort.Search(len(s.facts), func(i int) bool { return s.facts[i].t.id >= t.id })
	if i < len(s.facts) && s.facts[i].t == t {
		return s.facts[i].f
	}
	return &topFact
}

func (s *State) setFact(t *Term, f *Fact) {
	i := sort.Search(len(s.facts), func(i int) bool { return s.facts[i].t.id >= t.id })
	if i < len(s.facts) && s.facts[i].t == t {
		nf := append([]factEntry(nil), s.facts...)
		if f.isTop() {
			nf = append(nf[:i], nf[i+1:]...)
		} else {
			nf[i].f = f
		}
		s.facts = nf
		return
	}
	if f.isTop() {
		return
	}
	nf := make([]factEntry, 0, len(s.facts)+1)
	nf = append(nf, s.facts[:i]...)
	nf = append(nf, factEntry{t, f})
	nf = append(nf, s.facts[i:]...)
	s.facts = nf
}

// norm replaces a term by the constant it is known to equal.
func (s *State) norm(t *Term) *Term {
	if t == nil || t.op == OConst || t.op == ONil {
		return t
	}
	f := s.fact(t)
	if f.eq != nil {
		return f.eq
	}
	if f.nilness == 1 {
		return tNil()
	}
	if f.b == 1 {
		return tBool(true)
	}
	if f.b == 2 {
		return tBool(false)
	}
	if f.lo == f.hi {
		return tInt(f.lo)
	}
	return t
}

const minI, maxI = math.MinInt64, math.MaxInt64

func (s *State) interval(t *Term) (int64, int64) {
	if c, ok := intConst(t); ok {
		return c, c
	}
	base, k := linear(t)
	lo, hi := int64(minI), int64(maxI)
	f := s.fact(t)
	lo, hi = f.lo, f.hi
	if base != t && base != nil {
		bf := s.fact(base)
		bl, bh := bf.lo, bf.hi
		if base.op == OLen && bl < 0 {
			bl = 0
		}
		if base.op == OLen && bl == 0 && isCall(base.args[0], "gzip") {
			bl = 1 // a stream has a header
		}
		if bl != minI && bl+k > lo {
			lo = bl + k
		}
		if bh != maxI && bh+k < hi {
			hi = bh + k
		}
	}
	if (t.op == OLen || t.op == OCap) && lo < 0 {
		lo = 0
	}
	if t.op == OLen && lo == 0 && isCall(t.args[0], "gzip") {
		lo = 1
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && lo < 0 {
			lo = 0
		}
	}
	return lo, hi
}

// isNil: 1 nil, 2 not nil, 0 unknown
func (s *State) isNil(t *Term) int {
	switch t.op {
	case ONil:
		return 1
	case OConst, OAlloc, OGlobal, OFieldAddr, OIndexAddr, OClosure, OFunc, OIface, OStruct:
		return 2
	case OSliceV:
		return 2
	case OConv:
		if t.args[0].op == OConst {
			return 2
		}
	case OLoad:
		// package level error values of libraries and such
		if g := t.args[0]; g.op == OGlobal && len(t.args) == 1 && t.typ != nil && isErrorType(t.typ) && s.eng.constGlobal(g.str) {
			return 2
		}
	case OCall:
		if nonNilCalls[t.str] {
			return 2
		}
	}
	f := s.fact(t)
	if f.nilness != 0 {
		return int(f.nilness)
	}
	if f.dyn != nil || f.eq != nil {
		return 2
	}
	// a slice or map of positive length is not nil
	if lf := s.fact(mk(OLen, "", nil, nil, nil, 0, 0, t)); lf.lo > 0 {
		return 2
	}
	return 0
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// truth evaluates a boolean term: 1 true, 2 false, 0 unknown.
func (s *State) truth(c *Term) int {
	if b, ok := boolConst(c); ok {
		if b {
			return 1
		}
		return 2
	}
	if c.op == OUn && c.str == "!" {
		switch s.truth(c.args[0]) {
		case 1:
			return 2
		case 2:
			return 1
		}
		return 0
	}
	if f := s.fact(c); f.b != 0 {
		return int(f.b)
	}
	switch c.op {
	case OBin:
		a, b := c.args[0], c.args[1]
		switch c.str {
		case "==":
			if a.op == ONil || b.op == ONil {
				x := a
				if a.op == ONil {
					x = b
				}
				return s.isNil(x)
			}
			na, nb := s.norm(a), s.norm(b)
			if na == nb {
				return 1
			}
			if na.op == OConst && nb.op == OConst {
				if constant.Compare(na.cv, tokEQL, nb.cv) {
					return 1
				}
				return 2
			}
			k, x := na, nb
			if k.op != OConst {
				k, x = nb, na
			}
			if k.op == OConst {
				f := s.fact(x)
				for _, n := range f.ne {
					if n == k {
						return 2
					}
				}
				if i, ok := intConst(k); ok {
					lo, hi := s.interval(x)
					if i < lo || i > hi {
						return 2
					}
				}
				if str, ok := strConst(k); ok {
					lo, hi := s.interval(tLen(x))
					if int64(len(str)) < lo || int64(len(str)) > hi {
						return 2
					}
				}
			}
			// distinct addresses
			if isAddr(na) && isAddr(nb) {
				return 2
			}
			if (isAddr(na) && s.isNil(nb) == 1) || (isAddr(nb) && s.isNil(na) == 1) {
				return 2
			}
		case "<":
			na, nb := s.norm(a), s.norm(b)
			if na == nb {
				return 2
			}
			al, ah := s.interval(na)
			bl, bh := s.interval(nb)
			if ah != maxI && bl != minI && ah < bl {
				return 1
			}
			if al != minI && bh != maxI && al >= bh {
				return 2
			}
			// same base: x+c < x+d
			ba, ca := linear(na)
			bb, cb := linear(nb)
			if ba == bb && ba != nil {
				if ca < cb {
					return 1
				}
				return 2
			}
			// known a<b and others: a < b+1 from a<b ; transitivity by one offset
			if ba != nil && bb != nil {
				// look for a fact base_a < base_b + k
				for _, fe := range s.facts {
					t := fe.t
					if t.op != OBin || t.str != "<" || fe.f.b == 0 {
						continue
					}
					xa, xc := linear(t.args[0])
					ya, yc := linear(t.args[1])
					k := yc - xc
					if xa == ba && ya == bb {
						// fact: a < b + k (or a >= b + k)
						want := cb - ca // a < b + want ?
						if fe.f.b == 1 && k <= want {
							return 1
						}
						if fe.f.b == 2 && k >= want {
							return 2
						}
					}
					if xa == bb && ya == ba {
						// fact: b < a + k  <=> a > b - k ; so a < b + want is false if want <= -k+1
						want := cb - ca
						if fe.f.b == 1 && want <= -k+1 {
							return 2
						}
						// fact: b >= a + k <=> a <= b - k <=> a < b-k+1
						if fe.f.b == 2 && want >= -k+1 {
							return 1
						}
					}
				}
			}
		}
	case OIsType:
		v := c.args[0]
		if s.isNil(v) == 1 {
			return 2
		}
		if v.op == OIface {
			if typeMatches(v.typ, c.typ) {
				return 1
			}
			return 2
		}
		f := s.fact(v)
		if f.dyn != nil && !types.IsInterface(c.typ) {
			if tkey(f.dyn) == tkey(c.typ) {
				return 1
			}
			return 2
		}
		if f.dyn != nil && types.IsInterface(c.typ) {
			if typeMatches(f.dyn, c.typ) {
				return 1
			}
			return 2
		}
		for _, t := range f.notDyn {
			if tkey(t) == tkey(c.typ) {
				return 2
			}
		}
	}
	return 0
}

func isAddr(t *Term) bool {
	r := t.root()
	return r.op == OAlloc || r.op == OGlobal || t.op == OClosure || t.op == OFunc
}

func typeMatches(dyn, want types.Type) bool {
	if i, ok := want.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, i)
	}
	return types.Identical(dyn, want) || tkey(dyn) == tkey(want)
}

// assume adds a condition; false means contradiction.
func (s *State) assume(c *Term, val bool) bool {
	switch s.truth(c) {
	case 1:
		return val
	case 2:
		return !val
	}
	if c.op == OUn && c.str == "!" {
		return s.assume(c.args[0], !val)
	}
	switch c.op {
	case OBin:
		a, b := c.args[0], c.args[1]
		switch c.str {
		case "==":
			if a.op == ONil || b.op == ONil {
				x := a
				if a.op == ONil {
					x = b
				}
				s.setNil(x, val)
				return true
			}
			na, nb := s.norm(a), s.norm(b)
			k, x := na, nb
			if k.op != OConst {
				k, x = nb, na
			}
			if k.op == OConst {
				s.setEq(x, k, val)
				return true
			}
		case "<":
			na, nb := s.norm(a), s.norm(b)
			if k, ok := intConst(na); ok {
				return s.bound(nb, val, true, k)
			}
			if k, ok := intConst(nb); ok {
				return s.bound(na, val, false, k)
			}
			// bounds from the other side
			if val {
				if _, bh := s.interval(nb); bh != maxI {
					s.bound(na, true, false, bh)
				}
				if al, _ := s.interval(na); al != minI {
					s.bound(nb, true, true, al)
				}
			} else {
				// a >= b
				if bl, _ := s.interval(nb); bl != minI {
					s.bound(na, false, false, bl)
				}
				if _, ah := s.interval(na); ah != maxI {
					s.bound(nb, false, true, ah)
				}
			}
		}
	case OIsType:
		v := c.args[0]
		f := *s.fact(v)
		if val {
			if !types.IsInterface(c.typ) {
				f.dyn = c.typ
				f.notDyn = nil
			}
			f.nilness = 2
		} else if !types.IsInterface(c.typ) {
			f.notDyn = append(append([]types.Type(nil), f.notDyn...), c.typ)
			sort.Slice(f.notDyn, func(i, j int) bool { return tkey(f.notDyn[i]) < tkey(f.notDyn[j]) })
		}
		s.setFact(v, &f)
		if types.IsInterface(c.typ) {
			g := *s.fact(c)
			g.b = 2
			if val {
				g.b = 1
			}
			s.setFact(c, &g)
		}
		return true
	}
	f := *s.fact(c)
	f.b = 2
	if val {
		f.b = 1
	}
	s.setFact(c, &f)
	return true
}

// bound: constLeft: k < x is val ; else x < k is val
func (s *State) bound(x *Term, val, constLeft bool, k int64) bool {
	base, off := linear(x)
	if base == nil {
		return true
	}
	t := base
	k -= off
	f := *s.fact(t)
	lo, hi := s.interval(t)
	f.lo, f.hi = lo, hi
	if t.op == OLen && f.lo == 0 && f.hi == maxI {
		// implicit
	}
	switch {
	case constLeft && val: // k < t
		if k+1 > f.lo {
			f.lo = k + 1
		}
	case constLeft && !val: // t <= k
		if k < f.hi {
			f.hi = k
		}
	case !constLeft && val: // t < k
		if k-1 < f.hi {
			f.hi = k - 1
		}
	default: // t >= k
		if k > f.lo {
			f.lo = k
		}
	}
	if f.lo > f.hi {
		return false
	}
	s.setFactLen(t, &f)
	return true
}

// setFactLen stores a numeric fact; a length of a string known to be 0 makes the string empty.
func (s *State) setFactLen(t *Term, f *Fact) {
	if (t.op == OLen || t.op == OCap) && f.lo == 0 {
		g := *f
		g.lo = minI
		// keep the canonical form: lengths are never negative anyway
		if g.hi == maxI {
			g.lo = minI
		}
		f = &g
		if f.hi == 0 {
			f.lo = 0
		}
	}
	s.setFact(t, f)
}

func (s *State) setNil(x *Term, isnil bool) {
	f := *s.fact(x)
	if isnil {
		f.nilness = 1
	} else {
		f.nilness = 2
	}
	s.setFact(x, &f)
	// nil slices and maps are empty
	if isnil && x.typ != nil {
		switch x.typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			l := tLen(x)
			if l.op != OConst {
				g := *s.fact(l)
				g.lo, g.hi = 0, 0
				s.setFact(l, &g)
			}
		}
	}
}

func (s *State) setEq(x, k *Term, val bool) {
	if i, ok := intConst(k); ok {
		base, off := linear(x)
		if base != nil {
			i -= off
			f := *s.fact(base)
			lo, hi := s.interval(base)
			f.lo, f.hi = lo, hi
			if val {
				f.lo, f.hi = i, i
				f.ne = nil
			} else {
				if f.lo == i {
					f.lo++
				} else if f.hi == i {
					f.hi--
				} else {
					f.ne = addNe(f.ne, tInt(i))
				}
			}
			s.setFactLen(base, &f)
			return
		}
	}
	if str, ok := strConst(k); ok && str == "" {
		l := tLen(x)
		if l.op != OConst {
			s.setEq(l, tInt(0), val)
			return
		}
	}
	f := *s.fact(x)
	if val {
		f.eq = k
		f.ne = nil
	} else {
		f.ne = addNe(f.ne, k)
	}
	s.setFact(x, &f)
}

func addNe(ne []*Term, k *Term) []*Term {
	for _, n := range ne {
		if n == k {
			return ne
		}
	}
	r := append(append([]*Term(nil), ne...), k)
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// ---- observer state ----------------------------------------------------

func (s *State) oget(k string) []*Term {
	for _, e := range s.obs {
		if e.k == k {
			return e.v
		}
	}
	return nil
}
func (s *State) ohas(k string) bool {
	for _, e := range s.obs {
		if e.k == k {
			return true
		}
	}
	return false
}
func (s *State) oset(k string, v ...*Term) {
	n := make([]obsEntry, 0, len(s.obs)+1)
	done := false
	for _, e := range s.obs {
		if e.k == k {
			n = append(n, obsEntry{k, v})
			done = true
		} else {
			if !done && e.k > k {
				n = append(n, obsEntry{k, v})
				done = true
			}
			n = append(n, e)
		}
	}
	if !done {
		n = append(n, obsEntry{k, v})
	}
	s.obs = n
}
func (s *State) odel(k string) {
	var n []obsEntry
	for _, e := range s.obs {
		if e.k != k {
			n = append(n, e)
		}
	}
	s.obs = n
}
func (s *State) oint(k string) int64 {
	v := s.oget(k)
	if len(v) == 0 {
		return 0
	}
	c, _ := intConst(v[0])
	return c
}
func (s *State) osetInt(k string, i int64) { s.oset(k, tInt(i)) }
func (s *State) otag(k string)             { s.oset(k) }
