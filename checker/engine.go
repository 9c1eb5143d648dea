package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

var dbgOn = os.Getenv("J8A_HIST") != ""

// Observer is the property automaton that rides along.
type Observer struct {
	name string
	// Call is invoked for every call of a function outside the repository (or an intrinsic), before its model runs.
	Call func(c *CallEv)
	// Ret is invoked after the model of such a call produced its result, in each resulting state.
	Ret func(c *CallEv, st *State, res *Term)
	// Enter is invoked when a repository function is about to be inlined. Returning true stops inlining: the call is
	// treated as an opaque external one.
	Stub func(st *State, fn *ssa.Function, args []*Term) bool
	// Exit is invoked when the root function returned normally.
	Exit func(st *State, res []*Term)
	// PanicExit is invoked when a panic leaves the root function.
	PanicExit func(st *State)
	// FnRet is invoked when any repository function returns.
	FnRet func(st *State, fn *ssa.Function, args []*Term, res []*Term)
	// Load and Store see memory accesses.
	Load  func(st *State, p *Term, v *Term, in ssa.Instruction)
	Store func(st *State, p *Term, v *Term, in ssa.Instruction)
	// Deref sees every address computation from a pointer, and every fixed index.
	Deref func(st *State, v *Term, in ssa.Instruction, what string) bool
	// Index sees every element access with its index.
	Index func(st *State, s, idx *Term, in ssa.Instruction, slack int64) bool
	// Go sees goroutine starts.
	Go func(st *State, fn *Term, args []*Term, in ssa.Instruction)
	// Select sees the choice made at a select or receive. idx -1 is default.
	Select func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool)
	// Domain lists the cases a value is split into.
	Domain func(st *State, t *Term) []*Term
	// RangeKeys lists the key cases of a range over a map.
	RangeKeys func(st *State, m *Term, in ssa.Instruction) []*Term
	// RangeNext sees the steps of map and slice ranges.
	RangeNext func(st *State, m, key, val *Term, in ssa.Instruction)
	// Branch sees decided conditions.
	Branch func(st *State, in *ssa.If, cond *Term, val bool)
	// Loop sees each iteration start of counted loops.
	Loop func(st *State, ph *ssa.Phi, v *Term)
	// Merge allows to forget the difference of two values in a cell when states meet.
	Merge func(p *Term) bool
	// WaitHanded runs the goroutine that was handed a channel from outside of the root where that channel is waited for.
	WaitHanded bool
	// TrackLog tells log events of different places apart.
	TrackLog bool
	// TrackHeaders keeps the content of header maps.
	TrackHeaders bool
	// OnlyHeaders: the content of no other headers of the response
	OnlyHeaders []string
	// TrackBody follows the content of buffers and gzip coders.
	TrackBody bool
	// Enter sees every repository function that is entered.
	Enter func(st *State, fn *ssa.Function, args []*Term)
	// After is called when a root was explored completely.
	After func()
	// Sorted sees the outcome of the comparison a slice is sorted by, for two unknown elements, i before j.
	Sorted func(st *State, x, i, j, less *Term, in ssa.Instruction)
	// Append sees every append.
	Append func(st *State, base, add *Term, in ssa.Instruction)
	// MapSet sees map updates and deletes (v is nil).
	MapSet func(st *State, m, k, v *Term, in ssa.Instruction)
}

type Engine struct {
	P     *Program
	obs   *Observer
	infos map[*ssa.Function]*FnInfo

	initHeap  []*Obj
	initFacts []factEntry
	constG    map[string]bool

	queue     stateHeap
	waiting   map[uint64][]*item
	processed map[uint64][][]factEntry
	seq       int
	headCount map[uint64][]variant
	joinCap   int
	loopCap   int

	// statistics
	nStates, nSteps, nMerged, nForks int
	fnSeen                           map[*ssa.Function]bool
	blocksSeen                       map[*ssa.BasicBlock]bool
	callsSeen                        map[string]map[ssa.Instruction]bool
	limit                            int
	rootFn                           *ssa.Function
	rootName                         string
	overflow                         string
	rep                              *Report
	persist                          map[*Term]bool
	maxDepthFrames                   int
	notes                            map[string]bool
	recursionCut                     int
	maxRecursion                     int
	widened                          int
	sl                               *Slice
	hidden                           map[*ssa.Function]int
}

type item struct {
	st   *State
	hash uint64
	prio []int
	seq  int
	dead bool
}

type stateHeap []*item

func (h stateHeap) Len() int { return len(h) }
func (h stateHeap) Less(i, j int) bool {
	a, b := h[i].prio, h[j].prio
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	return h[i].seq < h[j].seq
}
func (h stateHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *stateHeap) Push(x any)   { *h = append(*h, x.(*item)) }
func (h *stateHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func NewEngine(P *Program, obs *Observer, rep *Report) *Engine {
	return &Engine{P: P, obs: obs, infos: map[*ssa.Function]*FnInfo{}, rep: rep,
		fnSeen: map[*ssa.Function]bool{}, blocksSeen: map[*ssa.BasicBlock]bool{},
		callsSeen: map[string]map[ssa.Instruction]bool{}, limit: envInt("J8A_LIMIT", 1000000), constG: map[string]bool{},
		persist: map[*Term]bool{}, notes: map[string]bool{}, hidden: map[*ssa.Function]int{}, maxRecursion: 4, joinCap: envInt("J8A_CAP", joinVariants), loopCap: loopVariants, maxDepthFrames: 60}
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := newFnInfo(fn, len(e.infos))
	e.infos[fn] = i
	return i
}

func (e *Engine) constGlobal(name string) bool {
	// package level variables of other packages are treated as constants; own ones when never written after init
	if !strings.Contains(name, "simonmittag/j8a") {
		return true
	}
	return e.constG[name]
}

// newState creates a state about to execute fn.
func (e *Engine) newState(fn *ssa.Function, args []*Term, binds []*Term) *State {
	st := &State{eng: e, heap: e.initHeap, facts: e.initFacts}
	fi := e.info(fn)
	f := &Frame{owner: st, fn: fn, info: fi, regs: make([]*Term, len(fi.vals)), block: fn.Blocks[0], ctx: hashStr(fn.RelString(nil))}
	for i := range fn.Params {
		f.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		f.regs[len(fn.Params)+i] = binds[i]
	}
	st.frames = []*Frame{f}
	return st
}

func (e *Engine) persistTerm(t *Term) *Term {
	for _, s := range t.syms {
		e.persist[s] = true
	}
	return t
}

func (e *Engine) resetSearch() {
	e.queue = nil
	e.waiting = map[uint64][]*item{}
	e.processed = map[uint64][][]factEntry{}
	e.headCount = map[uint64][]variant{}
	e.nStates = 0
}

// Run explores all paths from the given states.
func (e *Engine) Run(sts ...*State) {
	e.resetSearch()
	for _, s := range sts {
		e.push(s)
	}
	for e.queue.Len() > 0 {
		it := heap.Pop(&e.queue).(*item)
		if it.dead {
			continue
		}
		// take it out of the waiting bucket
		b := e.waiting[it.hash]
		for i, x := range b {
			if x == it {
				b = append(b[:i:i], b[i+1:]...)
				break
			}
		}
		if len(b) == 0 {
			delete(e.waiting, it.hash)
		} else {
			e.waiting[it.hash] = b
		}
		e.processed[it.hash] = append(e.processed[it.hash], it.st.facts)
		e.nStates++
		if late := e.nStates&1023 == 0 && time.Since(started) > timeBudget; e.nStates > e.limit || late {
			if dbgOn {
				e.dbgDump()
			}
			e.overflow = fmt.Sprintf("analysis of %s exceeded %d states", e.rootName, e.limit)
			if late {
				e.overflow = "analysis of " + e.rootName + " takes too long"
			}
			e.rep.undecided(e.overflow)
			return
		}
		st := it.st
		if dbgOn {
			dbgCount(st)
		}
		st.disown()
		e.exec(st)
	}
	if dbgOn && e.rootName != "init" {
		e.dbgDump()
	}
}

func factsImply(f, g []factEntry) bool { // f is stronger or equal
	i := 0
	for _, ge := range g {
		for i < len(f) && f[i].t.id < ge.t.id {
			i++
		}
		if i >= len(f) || f[i].t != ge.t {
			return false
		}
		if !f[i].f.implies(ge.f) {
			return false
		}
	}
	return true
}

// joinFactSets merges two fact sets exactly, if they differ in one term only.
func joinFactSets(f, g []factEntry) ([]factEntry, bool) {
	if factsImply(f, g) {
		return g, true
	}
	if factsImply(g, f) {
		return f, true
	}
	var out []factEntry
	i, j := 0, 0
	diff := 0
	for i < len(f) || j < len(g) {
		switch {
		case j >= len(g) || (i < len(f) && f[i].t.id < g[j].t.id):
			return nil, false
		case i >= len(f) || g[j].t.id < f[i].t.id:
			return nil, false
		default:
			a, b := f[i].f, g[j].f
			if a == b || (a.implies(b) && b.implies(a)) {
				out = append(out, f[i])
			} else {
				diff++
				if diff > 1 {
					return nil, false
				}
				u, ok := joinFacts(a, b)
				if !ok {
					return nil, false
				}
				if !u.isTop() {
					out = append(out, factEntry{f[i].t, u})
				}
			}
			i++
			j++
		}
	}
	return out, true
}

// push queues a state, merging it with waiting ones at the same place.
func (e *Engine) push(st *State) {
	if st.dead {
		return
	}
	e.canon(st)
	h := e.hash(st)
	for _, p := range e.processed[h] {
		if factsImply(st.facts, p) {
			e.nMerged++
			return
		}
	}
	// merging of variants
	{
		if w := e.widen(st, h); w != nil {
			st = w
			e.canon(st)
			h = e.hash(st)
			for _, p := range e.processed[h] {
				if factsImply(st.facts, p) {
					e.nMerged++
					return
				}
			}
		}
	}
again:
	for _, w := range e.waiting[h] {
		if w.dead {
			continue
		}
		if j, ok := joinFactSets(st.facts, w.st.facts); ok {
			e.nMerged++
			if factsImply(j, w.st.facts) && factsImply(w.st.facts, j) {
				return
			}
			// replace the waiting one by the join
			w.dead = true
			b := e.waiting[h]
			for i, x := range b {
				if x == w {
					e.waiting[h] = append(b[:i:i], b[i+1:]...)
					break
				}
			}
			n := st.fork()
			n.facts = j
			st = n
			for _, p := range e.processed[h] {
				if factsImply(st.facts, p) {
					return
				}
			}
			goto again
		}
	}
	e.seq++
	it := &item{st: st, hash: h, seq: e.seq}
	for _, f := range st.frames {
		it.prio = append(it.prio, f.info.rpo[f.block.Index]*1000+f.pc)
	}
	e.waiting[h] = append(e.waiting[h], it)
	heap.Push(&e.queue, it)
}

// shape hashes the control location only
func intConst2(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return intConst(t)
}

func (e *Engine) shape(st *State) uint64 {
	var h uint64 = 77
	for _, f := range st.frames {
		h = mix(h, f.ctx)
		h = mix(h, uint64(f.info.id)<<32|uint64(f.block.Index)<<12|uint64(f.pc))
		if f.did {
			h = mix(h, 98)
		}
		h = mix(h, uint64(f.iters))
		// loops with a constant number of steps are followed step by step
		for i, n := range f.info.counterRegs {
			if c, ok := intConst2(f.regs[n]); ok {
				h = mix(h, uint64(c)+0x9e37+uint64(i)<<32)
			}
		}
	}
	for i, r := range st.top().regs {
		// flags are kept apart
		if r != nil && r.op == OConst && r.cv != nil && r.cv.Kind() == constant.Bool {
			h = mix(h, uint64(i)<<1^r.h)
		}
	}
	for _, o := range st.obs {
		h = mix(h, hashStr(o.k))
		for _, v := range o.v {
			h = mix(h, v.h)
		}
	}
	for _, l := range st.locks {
		h = mix(h, l.h)
	}
	return mix(h, uint64(len(st.pending)))
}

var started = time.Now()

// a check that takes longer gives up and says so
var timeBudget = 8 * time.Minute

// Above this many variants of a state at one place, variants are merged: what they disagree on is forgotten.
const (
	loopVariants = 24
	joinVariants = 40
	maxVariants  = 160
)

func (e *Engine) widen(st *State, h uint64) *State {
	sh := e.shape(st)
	for _, fe := range st.facts {
		h = mix(h, mix(fe.t.h, fe.f.hash()))
	}
	f := st.top()
	limit := max(3, int(float64(e.joinCap)*refineJoin))
	if f.pc == 0 && f.info.loopHead[f.block.Index] {
		limit = max(3, int(float64(e.loopCap)*refineLoop))
	}
	prev := e.headCount[sh]
	if len(prev) < limit {
		for _, p := range prev {
			if p.h == h {
				return nil
			}
		}
		e.headCount[sh] = append(prev, variant{st.fork(), h})
		return nil
	}
	// generalise against the most similar one
	var p *State
	if len(prev) >= maxVariants {
		p = prev[len(prev)-1].st
	} else {
		best := 1 << 30
		held := heldTerms(st)
		for i := len(prev) - 1; i >= 0; i-- {
			if d := distance(st, prev[i].st, held, best); d < best {
				best, p = d, prev[i].st
			}
		}
	}
	e.widened++
	n := e.generalise(st, p, "wide:"+strconv.FormatUint(sh, 36))
	e.canon(n)
	nh := e.hash(n)
	for _, v := range prev {
		if v.h == nh && factsImply(n.facts, v.st.facts) {
			return n
		}
	}
	if len(prev) >= maxVariants {
		prev[len(prev)-1] = variant{n.fork(), nh}
	} else {
		e.headCount[sh] = append(prev, variant{n.fork(), nh})
	}
	return n
}

type variant struct {
	st *State
	h  uint64
}

// heldTerms lists the values variables and memory hold.
func heldTerms(st *State) map[*Term]bool {
	m := map[*Term]bool{}
	for _, f := range st.frames {
		for _, r := range f.regs {
			if r != nil && r.op != OConst {
				m[r] = true
			}
		}
	}
	for _, o := range st.heap {
		for _, c := range o.cells {
			if c.v.op != OConst {
				m[c.v] = true
			}
		}
	}
	return m
}

func factWeight(fe factEntry, held map[*Term]bool) int {
	w := 1
	switch {
	case fe.f.b != 0:
		w = 3
	case fe.f.nilness != 0:
		w = 2
	}
	if held[fe.t] {
		w *= 4
	}
	return w
}

// distance weighs what two states at one place disagree on. What is known about the values of variables weighs more.
func distance(a, b *State, held map[*Term]bool, stop int) int {
	d := 0
	for i, f := range a.frames {
		g := b.frames[i]
		if f == g {
			continue
		}
		for r := range f.regs {
			if f.regs[r] != g.regs[r] {
				d += 4
			}
		}
		if len(f.defers) != len(g.defers) {
			d += 50
		}
	}
	if d >= stop {
		return d
	}
	i, j := 0, 0
	for i < len(a.heap) || j < len(b.heap) {
		switch {
		case j >= len(b.heap) || (i < len(a.heap) && a.heap[i].root.id < b.heap[j].root.id):
			d += 6
			i++
		case i >= len(a.heap) || b.heap[j].root.id < a.heap[i].root.id:
			d += 6
			j++
		default:
			if a.heap[i] != b.heap[j] {
				x, y := a.heap[i].cells, b.heap[j].cells
				k, l := 0, 0
				for k < len(x) || l < len(y) {
					switch {
					case l >= len(y) || (k < len(x) && x[k].p.id < y[l].p.id):
						d += 3
						k++
					case k >= len(x) || y[l].p.id < x[k].p.id:
						d += 3
						l++
					default:
						if x[k].v != y[l].v {
							d += 3
						}
						k++
						l++
					}
				}
			}
			i++
			j++
		}
		if d >= stop {
			return d
		}
	}
	i, j = 0, 0
	for i < len(a.facts) || j < len(b.facts) {
		switch {
		case j >= len(b.facts) || (i < len(a.facts) && a.facts[i].t.id < b.facts[j].t.id):
			d += factWeight(a.facts[i], held)
			i++
		case i >= len(a.facts) || b.facts[j].t.id < a.facts[i].t.id:
			d++
			j++
		default:
			if a.facts[i].f != b.facts[j].f && !(a.facts[i].f.implies(b.facts[j].f) && b.facts[j].f.implies(a.facts[i].f)) {
				d += factWeight(a.facts[i], held)
			}
			i++
			j++
		}
		if d >= stop {
			return d
		}
	}
	return d
}

// valueFact is what is known about a value, as a fact.
func (s *State) valueFact(v *Term) *Fact {
	f := *s.fact(v)
	switch s.isNil(v) {
	case 1:
		f.nilness = 1
	case 2:
		f.nilness = 2
	}
	if v.op == OConst && v.cv != nil {
		switch v.cv.Kind() {
		case constant.Bool:
			f.b = 2
			if constant.BoolVal(v.cv) {
				f.b = 1
			}
		case constant.Int:
			if i, ok := constant.Int64Val(v.cv); ok {
				f.lo, f.hi = i, i
			}
		}
		f.eq = v
	} else if t := v.typ; t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			f.lo, f.hi = s.interval(v)
		}
	}
	if v.op == OIface && v.typ != nil {
		f.dyn = v.typ
	}
	return &f
}

// hull: what two facts have in common. Bounds that move are given up.
func hull(f, g *Fact) *Fact {
	if f.implies(g) {
		return g
	}
	r := topFact
	if f.nilness == g.nilness {
		r.nilness = f.nilness
	}
	if f.b == g.b {
		r.b = f.b
	}
	if f.lo >= g.lo {
		r.lo = g.lo
	} else if f.lo >= 0 {
		r.lo = 0
	}
	if f.hi <= g.hi {
		r.hi = g.hi
	}
	if f.eq == g.eq {
		r.eq = f.eq
	}
	for _, n := range g.ne {
		if f.eq != nil && f.eq != n {
			r.ne = append(r.ne, n)
			continue
		}
		for _, m := range f.ne {
			if m == n {
				r.ne = append(r.ne, n)
			}
		}
	}
	if f.dyn != nil && g.dyn != nil && tkey(f.dyn) == tkey(g.dyn) {
		r.dyn = f.dyn
	}
	return &r
}

func cellType(c cell) types.Type {
	if c.v.typ != nil && c.v.op != OIface {
		return c.v.typ
	}
	return derefTermType(c.p)
}

// generalise weakens st by everything it does not share with p.
func (e *Engine) generalise(st, p *State, name string) *State {
	n := st.fork()
	type slot struct {
		frame, reg int
		root, cell *Term
		w          *Term
		f          *Fact
	}
	var slots []slot
	// what holds the same in both still holds the same
	type pair struct{ a, b *Term }
	shared := map[pair]*Term{}
	var fresh []*Term
	forCell := func(at *Term, t types.Type, a, b *Term) *Term {
		if w := shared[pair{a, b}]; w != nil {
			return w
		}
		sym := tSym(name+"@"+strconv.FormatUint(at.h, 36), nil)
		fresh = append(fresh, sym)
		w := mk(OLoad, "", t, nil, nil, 0, 0, at, sym)
		if b != nil {
			shared[pair{a, b}] = w
		}
		return w
	}
	for _, o := range n.heap {
		q := p.obj(o.root)
		if q == o || q == nil {
			continue
		}
		k := 0
		for _, c := range o.cells {
			for k < len(q.cells) && q.cells[k].p.id < c.p.id {
				k++
			}
			var pv *Term
			if k < len(q.cells) && q.cells[k].p == c.p {
				pv = q.cells[k].v
			}
			if pv == c.v {
				continue
			}
			f := &topFact
			if pv != nil {
				f = hull(st.valueFact(c.v), p.valueFact(pv))
			} else if q.fuzzy == nil && o.fuzzy == nil && cellType(c) != nil {
				pv = p.load(c.p, cellType(c))
				if pv == c.v {
					continue
				}
				f = hull(st.valueFact(c.v), p.valueFact(pv))
			}
			slots = append(slots, slot{root: o.root, cell: c.p, w: forCell(c.p, cellType(c), c.v, pv), f: f})
		}
		// cells only the other one has
		k = 0
		for _, c := range q.cells {
			for k < len(o.cells) && o.cells[k].p.id < c.p.id {
				k++
			}
			if k < len(o.cells) && o.cells[k].p == c.p {
				continue
			}
			if q.fuzzy != nil || o.fuzzy != nil || cellType(c) == nil {
				continue
			}
			v := st.load(c.p, cellType(c))
			if v == c.v {
				continue
			}
			slots = append(slots, slot{root: o.root, cell: c.p, w: forCell(c.p, cellType(c), v, c.v), f: hull(st.valueFact(v), p.valueFact(c.v))})
		}
	}
	var forReg func(nm string, t types.Type, a, b *Term) *Term
	forReg = func(nm string, t types.Type, a, b *Term) *Term {
		if a == b {
			return a
		}
		if w := shared[pair{a, b}]; w != nil {
			return w
		}
		if sp := structOf(t); sp != nil && a.op == OStruct && b.op == OStruct && len(a.args) == sp.NumFields() && len(b.args) == sp.NumFields() {
			var l []*Term
			for i := range a.args {
				l = append(l, forReg(nm+"."+strconv.Itoa(i), sp.Field(i).Type(), a.args[i], b.args[i]))
			}
			return mk(OStruct, "", a.typ, nil, nil, 0, 0, l...)
		}
		w := tSym(nm, t)
		fresh = append(fresh, w)
		shared[pair{a, b}] = w
		return w
	}
	for i, f := range n.frames {
		pf := p.frames[i]
		if f == pf {
			continue
		}
		for r := range f.regs {
			a, b := f.regs[r], pf.regs[r]
			if a != b && a != nil && b != nil {
				if a.op == OTuple || b.op == OTuple || a.op == OClosure || a.op == OFunc {
					continue
				}
				w := forReg(name+"."+strconv.Itoa(i)+"."+strconv.Itoa(r), f.info.vals[r].Type(), a, b)
				slots = append(slots, slot{frame: i, reg: r, w: w, f: hull(st.valueFact(a), p.valueFact(b))})
			}
		}
	}
	var facts []factEntry
	for _, fe := range n.facts {
		h := hull(fe.f, p.fact(fe.t))
		if !h.isTop() {
			facts = append(facts, factEntry{fe.t, h})
		}
	}
	if e.rep.verbose {
		msg := "merged, forgetting"
		for _, fe := range n.facts {
			if h := hull(fe.f, p.fact(fe.t)); h.isTop() {
				msg += " " + fe.t.String() + ";"
			}
		}
		for _, s := range slots {
			if s.cell != nil {
				msg += " cell " + s.cell.String() + ";"
			} else {
				msg += " reg " + n.frames[s.frame].fn.Name() + "/" + n.frames[s.frame].info.vals[s.reg].Name() + ";"
			}
		}
		n.note(msg)
	}
	n.facts = facts
	for _, w := range fresh {
		e.refresh(n, w)
	}
	for _, s := range slots {
		if s.root == nil {
			f := n.frames[s.frame]
			c := *f
			c.owner = n
			c.regs = append([]*Term(nil), f.regs...)
			c.regs[s.reg] = s.w
			n.frames[s.frame] = &c
		} else if o := n.obj(s.root); o != nil {
			n.setObj(o.with(s.cell, s.w))
		}
	}
	for _, s := range slots {
		if s.w.op == OStruct {
			continue
		}
		f := *s.f
		if f.eq != nil && f.eq.op != OConst {
			f.eq = nil
		}
		n.setFact(s.w, &f)
	}
	return n
}

// hash identifies everything but the facts.
func (e *Engine) hash(st *State) uint64 {
	var h uint64 = 1469598103934665603
	for _, f := range st.frames {
		h = mix(h, f.ctx)
		h = mix(h, uint64(f.info.id)<<32|uint64(f.block.Index)<<12|uint64(f.pc))
		h = mix(h, uint64(f.kind))
		if f.unwind {
			h = mix(h, 99)
		}
		if f.did {
			h = mix(h, 98)
		}
		if f.iters > 0 {
			h = mix(h, 0x51ed+uint64(f.iters))
		}
		if f.tag != "" {
			h = mix(h, hashStr(f.tag))
		}
		for i, r := range f.regs {
			if r != nil {
				h = mix(h, uint64(i)*1000003^r.h)
			}
		}
		for _, d := range f.defers {
			h = mix(h, 5)
			if d.fn != nil {
				h = mix(h, d.fn.h)
			}
			for _, a := range d.args {
				h = mix(h, a.h)
			}
		}
	}
	for _, o := range st.heap {
		h = mix(h, o.h)
	}
	for _, o := range st.obs {
		h = mix(h, hashStr(o.k))
		for _, v := range o.v {
			h = mix(h, v.h)
		}
	}
	for _, l := range st.locks {
		h = mix(h, l.h)
	}
	for _, p := range st.pending {
		h = mix(h, p.fn.h)
		for _, a := range p.args {
			h = mix(h, a.h)
		}
	}
	if st.panicV != nil {
		h = mix(h, st.panicV.h)
	}

	return h
}

// canon drops dead registers, unreachable objects and facts about unreachable values.
func (e *Engine) canon(st *State) {
	for i, f := range st.frames {
		var live bitset
		if i == len(st.frames)-1 && f.pc == 0 && !f.unwind {
			live = f.info.liveIn[f.block.Index]
		} else if f.unwind {
			live = nil
		} else {
			pc := f.pc
			if pc < len(f.block.Instrs) {
				in := f.block.Instrs[pc]
				if i == len(st.frames)-1 {
					// about to execute in
					if l, ok := f.info.liveAt[in]; ok {
						live = l
					}
				} else {
					live = f.info.liveCall[in]
				}
			}
		}
		if live == nil && !f.unwind {
			continue
		}
		var nf *Frame
		for r, v := range f.regs {
			if v != nil && (f.unwind || !live.has(r)) {
				if nf == nil {
					c := *f
					c.owner = st
					c.regs = append([]*Term(nil), f.regs...)
					nf = &c
				}
				nf.regs[r] = nil
			}
		}
		if nf != nil {
			st.frames[i] = nf
		}
	}
	// decided conditions
	for i, f := range st.frames {
		var nf *Frame
		for r, v := range f.regs {
			if v == nil {
				continue
			}
			if k := st.decided(v); k != nil {
				if nf == nil {
					c := *f
					c.owner = st
					c.regs = append([]*Term(nil), f.regs...)
					nf = &c
				}
				nf.regs[r] = k
			}
		}
		if nf != nil {
			st.frames[i] = nf
		}
	}
	var ch []*Obj
	for _, o := range st.heap {
		var no *Obj
		for _, c := range o.cells {
			if k := st.decided(c.v); k != nil {
				if no == nil {
					no = o
				}
				no = no.with(c.p, k)
			}
		}
		if no != nil {
			ch = append(ch, no)
		}
	}
	for _, o := range ch {
		st.setObj(o)
	}
	if e.sl != nil {
		if e.sl.future == nil {
			e.sl.future = newFutureLoads(e.sl)
		}
		e.sl.future.prune(st)
	}
	// reachability
	live := map[*Term]bool{}
	var work []*Term
	mark := func(t *Term) {
		for _, s := range t.syms {
			if !live[s] {
				live[s] = true
				work = append(work, s)
			}
		}
	}
	for _, f := range st.frames {
		for _, r := range f.regs {
			if r != nil {
				mark(r)
			}
		}
		for _, d := range f.defers {
			if d.fn != nil {
				mark(d.fn)
			}
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, o := range st.obs {
		for _, v := range o.v {
			mark(v)
		}
	}
	for _, p := range st.pending {
		mark(p.fn)
		for _, a := range p.args {
			mark(a)
		}
	}
	for _, l := range st.locks {
		mark(l)
	}

	if st.panicV != nil {
		mark(st.panicV)
	}
	done := make([]bool, len(st.heap))
	isLive := func(t *Term) bool {
		for _, s := range t.syms {
			if !live[s] && !e.persist[s] {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i, o := range st.heap {
			if done[i] || !isLive(o.root) {
				continue
			}
			done[i] = true
			changed = true
			for _, c := range o.cells {
				mark(c.v)
				mark(c.p)
			}
		}
	}
	all := true
	for _, d := range done {
		if !d {
			all = false
		}
	}
	if !all {
		var nh []*Obj
		for i, o := range st.heap {
			if done[i] {
				nh = append(nh, o)
			}
		}
		st.heap = nh
	}
	keep := true
	for _, fe := range st.facts {
		if !isLive(fe.t) {
			keep = false
			break
		}
	}
	if !keep {
		var nf []factEntry
		for _, fe := range st.facts {
			if isLive(fe.t) {
				nf = append(nf, fe)
			}
		}
		st.facts = nf
	}
}

// decided returns the constant a condition is known to equal.
func (st *State) decided(v *Term) *Term {
	switch v.op {
	case OConst, ONil, OAlloc, OGlobal, OClosure, OFunc, OStruct, OTuple, OSliceV, OIface, OFieldAddr, OIndexAddr:
		return nil
	}
	if v.typ == nil && v.op != OBin && v.op != OUn {
		return nil
	}
	if v.typ != nil {
		b, ok := v.typ.Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Bool && b.Kind() != types.UntypedBool {
			return nil
		}
	} else if v.op == OBin {
		switch v.str {
		case "==", "!=", "<", "<=", ">", ">=":
		default:
			return nil
		}
	} else if v.str != "!" {
		return nil
	}
	switch st.truth(v) {
	case 1:
		return tBool(true)
	case 2:
		return tBool(false)
	}
	return nil
}

// refresh renames an existing instance of a symbol, because its program point is executed again.
func (e *Engine) refresh(st *State, sym *Term) {
	e.rename(st, sym, mk(sym.op, strings.TrimSuffix(sym.str, "'")+"'", sym.typ, nil, nil, 0, 0))
}

// rename replaces a symbol everywhere in the state.
func (e *Engine) rename(st *State, sym, old *Term) {
	used := false
	chk := func(t *Term) bool { return t != nil && t.has(sym) }
	for _, f := range st.frames {
		for _, r := range f.regs {
			if chk(r) {
				used = true
			}
		}
		for _, d := range f.defers {
			if chk(d.fn) {
				used = true
			}
			for _, a := range d.args {
				if chk(a) {
					used = true
				}
			}
		}
	}
	for _, o := range st.heap {
		if used {
			break
		}
		if chk(o.root) {
			used = true
		}
		for _, c := range o.cells {
			if chk(c.v) || chk(c.p) {
				used = true
				break
			}
		}
	}
	for _, o := range st.obs {
		for _, v := range o.v {
			if chk(v) {
				used = true
			}
		}
	}
	for _, p := range st.pending {
		if chk(p.fn) {
			used = true
		}
		for _, a := range p.args {
			if chk(a) {
				used = true
			}
		}
	}
	factUsed := false
	for _, fe := range st.facts {
		if fe.t.has(sym) {
			factUsed = true
			break
		}
	}
	if !used && !factUsed {
		return
	}
	memo := map[*Term]*Term{}
	sb := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, sym, old, memo)
	}
	if used {
		for i, f := range st.frames {
			hit := false
			for _, r := range f.regs {
				if chk(r) {
					hit = true
				}
			}
			for _, d := range f.defers {
				if chk(d.fn) {
					hit = true
				}
				for _, a := range d.args {
					if chk(a) {
						hit = true
					}
				}
			}
			if !hit {
				continue
			}
			n := *f
			n.owner = st
			n.regs = make([]*Term, len(f.regs))
			for k, r := range f.regs {
				n.regs[k] = sb(r)
			}
			n.defers = nil
			for _, d := range f.defers {
				nd := deferred{call: d.call, fn: sb(d.fn), site: d.site}
				for _, a := range d.args {
					nd.args = append(nd.args, sb(a))
				}
				n.defers = append(n.defers, nd)
			}
			st.frames[i] = &n
		}
		oldHeap := st.heap
		st.heap = nil
		var moved []*Obj
		for _, o := range oldHeap {
			hit := chk(o.root)
			if !hit {
				for _, c := range o.cells {
					if chk(c.v) || chk(c.p) {
						hit = true
						break
					}
				}
			}
			if !hit {
				st.heap = append(st.heap, o)
				continue
			}
			n := &Obj{root: sb(o.root), fuzzy: o.fuzzy, summary: o.summary}
			if n.root != o.root {
				n.summary = true
			}
			for _, c := range o.cells {
				n.cells = append(n.cells, cell{sb(c.p), sb(c.v)})
			}
			sort.Slice(n.cells, func(i, j int) bool { return n.cells[i].p.id < n.cells[j].p.id })
			// two cells may have become one
			var cs []cell
			for _, c := range n.cells {
				if len(cs) > 0 && cs[len(cs)-1].p == c.p {
					if cs[len(cs)-1].v != c.v {
						cs[len(cs)-1].v = mk(OLoad, "", c.v.typ, nil, nil, 0, 0, c.p, tStr("weak"))
					}
					continue
				}
				cs = append(cs, c)
			}
			n.cells = cs
			n.rehash()
			moved = append(moved, n)
		}
		for _, n := range moved {
			if x := st.obj(n.root); x != nil {
				n = mergeObj(x, n)
			}
			st.setObj(n)
		}
		if len(st.obs) > 0 {
			no := make([]obsEntry, len(st.obs))
			for i, o := range st.obs {
				no[i] = obsEntry{k: o.k}
				for _, v := range o.v {
					no[i].v = append(no[i].v, sb(v))
				}
			}
			st.obs = no
		}
		if len(st.pending) > 0 {
			np := make([]pendingGo, len(st.pending))
			for i, p := range st.pending {
				np[i] = pendingGo{fn: sb(p.fn), site: p.site}
				for _, a := range p.args {
					np[i].args = append(np[i].args, sb(a))
				}
			}
			st.pending = np
		}
		if len(st.locks) > 0 {
			nl := make([]*Term, len(st.locks))
			for i, l := range st.locks {
				nl[i] = sb(l)
			}
			st.locks = nl
		}
	}
	// facts move to the old name only if it was not in use before
	oldInUse := false
	for _, fe := range st.facts {
		if fe.t.has(old) {
			oldInUse = true
		}
	}
	var nf []factEntry
	for _, fe := range st.facts {
		if fe.t.has(old) {
			continue
		}
		if !fe.t.has(sym) {
			nf = append(nf, fe)
			continue
		}
		if !oldInUse {
			f := *fe.f
			f.eq = sb(f.eq)
			nf = append(nf, factEntry{sb(fe.t), &f})
		}
	}
	sort.Slice(nf, func(i, j int) bool { return nf[i].t.id < nf[j].t.id })
	st.facts = nf
}

func mergeObj(a, b *Obj) *Obj {
	n := &Obj{root: a.root, summary: true, fuzzy: a.fuzzy}
	if n.fuzzy == nil {
		n.fuzzy = b.fuzzy
	}
	m := map[*Term]*Term{}
	for _, c := range a.cells {
		m[c.p] = c.v
	}
	seen := map[*Term]bool{}
	weak := func(p, v *Term) *Term { return mk(OLoad, "", v.typ, nil, nil, 0, 0, p, tStr("weak")) }
	for _, c := range b.cells {
		seen[c.p] = true
		if v, ok := m[c.p]; ok && v == c.v {
			continue
		}
		m[c.p] = weak(c.p, c.v)
	}
	for _, c := range a.cells {
		if !seen[c.p] {
			m[c.p] = weak(c.p, c.v)
		}
	}
	for p, v := range m {
		n.cells = append(n.cells, cell{p, v})
	}
	sort.Slice(n.cells, func(i, j int) bool { return n.cells[i].p.id < n.cells[j].p.id })
	n.rehash()
	return n
}

func (e *Engine) symFor(st *State, in ssa.Instruction, what string, typ types.Type) *Term {
	f := st.top()
	name := siteName(f, in) + what
	s := tSym(name, typ)
	e.refresh(st, s)
	return s
}

func siteName(f *Frame, in ssa.Instruction) string {
	idx := -1
	if in.Block() != nil {
		for i, x := range in.Block().Instrs {
			if x == in {
				idx = i
				break
			}
		}
		return f.fn.Name() + "." + strconv.Itoa(in.Block().Index) + "." + strconv.Itoa(idx) + "@" + strconv.FormatUint(f.ctx&0xffffff, 36)
	}
	return f.fn.Name() + "@" + strconv.FormatUint(f.ctx&0xffffff, 36)
}
