package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FnInfo caches per function analysis results.
type FnInfo struct {
	fn          *ssa.Function
	num         map[ssa.Value]int
	vals        []ssa.Value
	rpo         []int // by block index
	loopHead    []bool
	inLoop      []bool   // blocks of natural loops
	liveIn      []bitset // by block index, including phis of the block
	liveCall    map[ssa.Instruction]bitset
	liveAt      map[ssa.Instruction]bitset
	counters    map[*ssa.Phi]int64 // induction variables with their step
	counterList []*ssa.Phi
	counterRegs []int // the registers of the counters and their next values
	stores      bool  // no effects besides results
	id          int
}

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i/64]&(1<<(uint(i)%64)) != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (uint(i) % 64) }
func (b bitset) clear(i int)    { b[i/64] &^= 1 << (uint(i) % 64) }
func (b bitset) clone() bitset  { return append(bitset(nil), b...) }
func (b bitset) or(c bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | c[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}

func newFnInfo(fn *ssa.Function, id int) *FnInfo {
	fi := &FnInfo{fn: fn, num: map[ssa.Value]int{}, liveCall: map[ssa.Instruction]bitset{}, liveAt: map[ssa.Instruction]bitset{}, counters: map[*ssa.Phi]int64{}, id: id}
	add := func(v ssa.Value) {
		fi.num[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	fi.rpo = make([]int, n)
	fi.loopHead = make([]bool, n)
	// reverse post order and back edges
	seen := make([]int8, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = 1
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if seen[s.Index] == 0 {
				dfs(s)
			} else if seen[s.Index] == 1 {
				fi.loopHead[s.Index] = true
			}
		}
		seen[b.Index] = 2
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && seen[fn.Recover.Index] == 0 {
			dfs(fn.Recover)
		}
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	fi.inLoop = make([]bool, n)
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if !body[x] {
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
			for x := range body {
				fi.inLoop[x.Index] = true
			}
		}
	}
	fi.liveness()
	for _, b := range fn.Blocks {
		if !fi.loopHead[b.Index] {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			var step int64
			ok = true
			for i, e := range ph.Edges {
				if !fi.dominates(b, b.Preds[i]) {
					continue
				}
				st, isStep := stepOf(e, ph)
				if !isStep || (step != 0 && st != step) {
					ok = false
					break
				}
				step = st
			}
			if ok && step != 0 {
				fi.counters[ph] = step
				fi.counterList = append(fi.counterList, ph)
				fi.counterRegs = append(fi.counterRegs, fi.num[ph])
				for _, ed := range ph.Edges {
					if b, ok := ed.(*ssa.BinOp); ok && (b.X == ssa.Value(ph) || b.Y == ssa.Value(ph)) {
						fi.counterRegs = append(fi.counterRegs, fi.num[b])
					}
				}
			}
		}
	}
	return fi
}

func stepOf(e ssa.Value, ph *ssa.Phi) (int64, bool) {
	b, ok := e.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || b.X != ssa.Value(ph) {
		return 0, false
	}
	k := c.Int64()
	switch b.Op {
	case token.ADD:
		return k, true
	case token.SUB:
		return -k, true
	}
	return 0, false
}

func (fi *FnInfo) dominates(a, b *ssa.BasicBlock) bool { return a == b || a.Dominates(b) }

func (fi *FnInfo) liveness() {
	n := len(fi.fn.Blocks)
	nv := len(fi.vals)
	fi.liveIn = make([]bitset, n)
	liveOut := make([]bitset, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = newBits(nv)
		liveOut[i] = newBits(nv)
	}
	use := func(b bitset, in ssa.Instruction) {
		var ops [16]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if o != nil && *o != nil {
				if k, ok := fi.num[*o]; ok {
					b.set(k)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			out := newBits(nv)
			for _, s := range b.Succs {
				// live-in of the successor without its phis, plus phi operands of this edge
				l := fi.liveIn[s.Index].clone()
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					l.clear(fi.num[ph])
				}
				for j, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if k, ok := fi.num[ph.Edges[j]]; ok {
							l.set(k)
						}
					}
				}
				out.or(l)
			}
			liveOut[i] = out
			cur := out.clone()
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					// phis were evaluated on the edge: they stay live if used
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					cur.clear(fi.num[v])
				}
				if isResume(in) {
					// live while the instruction is suspended: after it, and its own operands are not needed,
					// except for instructions that are executed again
					l := cur.clone()
					switch in.(type) {
					case *ssa.Select, *ssa.UnOp, *ssa.RunDefers, *ssa.Send:
						use(l, in)
					}
					fi.liveCall[in] = l
				}
				use(cur, in)
				fi.liveAt[in] = cur.clone()
			}
			if fi.liveIn[i].or(cur) {
				changed = true
			}
		}
	}
}

func isResume(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Call, *ssa.RunDefers, *ssa.Select, *ssa.UnOp, *ssa.Send, *ssa.Defer, *ssa.Go, *ssa.Panic:
		return true
	}
	return false
}
