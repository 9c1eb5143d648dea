package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkShared }

// share: where a value leads. Bit k says that k loads further on is memory that others can get at.
type share uint8

const (
	shPoints share = 1 << iota // it is a reference into memory that others can get at, or a struct that has one
	shHolds                    // it refers to memory of its own that such references are in
	_
	shDeep
)

// in: what leads to memory that such a value was put into
func (h share) in() share { return h<<1&(shDeep<<1-1) | h&shDeep }

// out: what is found in memory that such a value leads to
func (h share) out() share { return h>>1 | h&(shPoints|shDeep) }

// at is what is known of a value: where it leads, and what it is the address of.
type at struct {
	sh  share
	loc string
}

// lockSet: the locks that are held for certain, "w:" exclusively, "r:" shared
type lockSet map[string]bool

func (l lockSet) key() string {
	var s []string
	for k := range l {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (l lockSet) with(k string) lockSet {
	n := lockSet{}
	for x := range l {
		n[x] = true
	}
	n[k] = true
	return n
}

func (l lockSet) without(k string) lockSet {
	n := lockSet{}
	for x := range l {
		if x != k {
			n[x] = true
		}
	}
	return n
}

type access struct {
	root  int
	write bool
	in    ssa.Instruction
	locks lockSet
	way   []string
}

type rootInfo struct {
	name  string
	multi bool
}

type sharing struct {
	P        *Program
	r        *Report
	fields   map[*types.Var]share // what references are kept in a field
	free     map[*ssa.FreeVar]at
	changed  bool
	memo     map[string]*sharedRun
	accesses map[string]map[string]access
	weak     map[string]map[string]access // accesses to fields, by the type of the field
	roots    []rootInfo
	rootOf   map[*ssa.Function]int
	root     int
	stack    []string
	queue    []func()
	quiet    bool // the results are not final yet
	named    []types.Type
	flow     *flow
	looked   map[*ssa.Function]bool
	captured map[*ssa.Alloc]bool
	keptFns  map[*ssa.Function]bool
}

type sharedRun struct {
	res  []at
	exit lockSet
	done bool
}

func leads(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if leads(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return leads(u.Elem())
	}
	return false
}

// content: what is found where a value leads
func (s *sharing) content(a at, t types.Type) at {
	if a.sh == 0 || !leads(t) {
		return at{}
	}
	return at{sh: a.sh.out()}
}

// part: what a field or an element of a value leads to
func part(a at, t types.Type) at {
	if a.sh == 0 || !leads(t) {
		return at{}
	}
	return at{sh: a.sh}
}

func join(a, b at) at {
	c := at{sh: a.sh | b.sh, loc: a.loc}
	if a.loc != b.loc && b.loc != "" {
		c.loc = b.loc
		if a.loc != "" {
			c.loc = ""
		}
	}
	return c
}

func typeName(t types.Type) string { return shortName(types.TypeString(t, nil)) }

func sharedField(t types.Type, v *types.Var) string {
	return "field " + typeName(deref(t)) + "." + v.Name()
}

// one function in one context
type sharedFn struct {
	s     *sharing
	fn    *ssa.Function
	vals  map[ssa.Value]at
	tup   map[ssa.Value][]at
	entry map[*ssa.BasicBlock]lockSet
	res   []at
	exit  lockSet
	note  bool // record accesses
	again bool

	defers []*ssa.Defer
}

func (s *sharing) run(fn *ssa.Function, args []at, locks lockSet) *sharedRun {
	var k strings.Builder
	fmt.Fprintf(&k, "%d|%p|", s.root, fn)
	for _, a := range args {
		fmt.Fprintf(&k, "%d%s;", a.sh, a.loc)
	}
	k.WriteString(locks.key())
	key := k.String()
	if m, ok := s.memo[key]; ok {
		return m
	}
	m := &sharedRun{exit: locks}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		m.res = append(m.res, at{})
	}
	s.memo[key] = m
	if len(s.stack) > 40 {
		return m
	}
	s.looked[fn] = true
	s.stack = append(s.stack, shortName(fn.RelString(nil)))
	f := &sharedFn{s: s, fn: fn, vals: map[ssa.Value]at{}, tup: map[ssa.Value][]at{}, entry: map[*ssa.BasicBlock]lockSet{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.vals[p] = args[i]
		}
	}
	for _, fv := range fn.FreeVars {
		f.vals[fv] = s.free[fv]
	}
	each(fn, func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok {
			f.defers = append(f.defers, d)
		}
	})
	f.solve(locks)
	m.res, m.exit, m.done = f.res, f.exit, true
	s.stack = s.stack[:len(s.stack)-1]
	return m
}

func (f *sharedFn) val(v ssa.Value) at {
	switch v := v.(type) {
	case *ssa.Global:
		if v.Pkg == nil || !f.s.P.ownPkg(v.Pkg.Pkg) {
			return at{}
		}
		return at{sh: shPoints, loc: "variable " + v.Name()}
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return at{}
	case *ssa.FieldAddr:
		a := f.val(v.X)
		fv := fieldVar(v.X.Type(), v.Field)
		a.loc = sharedField(v.X.Type(), fv)
		a.sh |= f.s.fields[fv]
		return a
	case *ssa.IndexAddr:
		a := f.val(v.X)
		a.loc = "elements of " + typeName(elements(v.X.Type()))
		return a
	}
	return f.vals[v]
}

func elements(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (f *sharedFn) set(v ssa.Value, a at) {
	if a.sh == 0 {
		a = at{loc: a.loc}
	}
	old, ok := f.vals[v]
	n := a
	if ok {
		n = at{sh: old.sh | a.sh, loc: a.loc}
	}
	if n != old || !ok {
		f.vals[v] = n
		f.again = true
	}
}

func (f *sharedFn) solve(locks lockSet) {
	blocks := f.fn.DomPreorder()
	for i := 0; i < 20; i++ {
		f.again = false
		for _, b := range blocks {
			for _, in := range b.Instrs {
				f.value(in)
			}
		}
		if !f.again {
			break
		}
	}
	// the locks that are held, over all ways to a block
	f.entry[f.fn.Blocks[0]] = locks
	work := []*ssa.BasicBlock{f.fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		out := f.block(b)
		for i, succ := range b.Succs {
			l := f.branch(b, i, out)
			if old, ok := f.entry[succ]; ok {
				m := lockSet{}
				for k := range old {
					if l[k] {
						m[k] = true
					}
				}
				if len(m) == len(old) {
					continue
				}
				l = m
			}
			f.entry[succ] = l
			work = append(work, succ)
		}
	}
	f.note = true
	f.res = make([]at, f.fn.Signature.Results().Len())
	first := true
	for _, b := range blocks {
		if _, ok := f.entry[b]; !ok {
			continue
		}
		out := f.block(b)
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, v := range ret.Results {
				f.res[i] = join(f.res[i], f.val(v))
			}
			if first {
				f.exit, first = out, false
			} else {
				for k := range f.exit {
					if !out[k] {
						f.exit = f.exit.without(k)
					}
				}
			}
		}
	}
	if first {
		f.exit = locks
	}
}

// branch: what a condition says about locks
func (f *sharedFn) branch(b *ssa.BasicBlock, i int, l lockSet) lockSet {
	cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return l
	}
	v, neg := cond.Cond, false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, neg = u.X, !neg
	}
	if c, ok := v.(*ssa.Call); ok && (i == 0) != neg {
		name := calleeName(c.Common())
		if strings.HasSuffix(name, ".TryAcquire") || strings.HasSuffix(name, ".TryLock") {
			if k := f.lockKey(c.Common()); k != "" {
				return l.with("w:" + k)
			}
		}
		if strings.HasSuffix(name, ".TryRLock") {
			if k := f.lockKey(c.Common()); k != "" {
				return l.with("r:" + k)
			}
		}
	}
	if eq, ok := v.(*ssa.BinOp); ok && (eq.Op == token.EQL || eq.Op == token.NEQ) {
		if c, ok := eq.X.(*ssa.Call); ok && strings.HasSuffix(calleeName(c.Common()), "semaphore.Weighted).Acquire") {
			if (eq.Op == token.EQL) == ((i == 0) != neg) {
				if k := f.lockKey(c.Common()); k != "" {
					return l.with("w:" + k)
				}
			}
		}
	}
	return l
}

// lockKey: which lock it is; none if it is one that nobody else has
func (f *sharedFn) lockKey(c *ssa.CallCommon) string {
	v := c.Value
	if !c.IsInvoke() {
		v = c.Args[0]
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// the lock is reached through a pointer that is kept somewhere
		if a := f.val(u.X); a.sh != 0 {
			return a.loc
		}
	}
	a := f.val(v)
	if a.sh&shPoints == 0 || a.loc == "" {
		return ""
	}
	return a.loc
}

func (f *sharedFn) block(b *ssa.BasicBlock) lockSet {
	l := f.entry[b]
	for _, in := range b.Instrs {
		l = f.effect(in, l)
	}
	return l
}

func (f *sharedFn) value(in ssa.Instruction) {
	s := f.s
	switch in := in.(type) {
	case *ssa.Alloc:
		if s.captured[in] {
			f.set(in, at{sh: shPoints, loc: "variable " + in.Comment + " of " + shortName(in.Parent().RelString(nil))})
		} else if _, ok := f.vals[in]; !ok {
			f.vals[in] = at{}
		}
	case *ssa.Phi:
		var a at
		for i, e := range in.Edges {
			if i == 0 {
				a = f.val(e)
			} else {
				a = join(a, f.val(e))
			}
		}
		f.set(in, a)
	case *ssa.ChangeType:
		f.set(in, f.val(in.X))
	case *ssa.ChangeInterface:
		f.set(in, f.val(in.X))
	case *ssa.MakeInterface:
		f.set(in, f.val(in.X))
	case *ssa.Convert:
		if leads(in.Type()) && leads(in.X.Type()) {
			f.set(in, f.val(in.X))
		}
	case *ssa.TypeAssert:
		a := f.val(in.X)
		if !leads(in.AssertedType) {
			a = at{}
		}
		if in.CommaOk {
			f.setTup(in, 0, a)
		} else {
			f.set(in, a)
		}
	case *ssa.Slice:
		a := f.val(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Pointer); !ok {
			a.loc = ""
		}
		f.set(in, a)
	case *ssa.Extract:
		if t := f.tup[in.Tuple]; in.Index < len(t) {
			f.set(in, t[in.Index])
		}
	case *ssa.Field:
		a := part(f.val(in.X), in.Type())
		fv := fieldVar(in.X.Type(), in.Field)
		if x := s.fields[fv]; x != 0 && leads(in.Type()) {
			a = join(a, s.content(at{sh: x}, in.Type()))
		}
		f.set(in, a)
	case *ssa.Index:
		f.set(in, part(f.val(in.X), in.Type()))
	case *ssa.Lookup:
		if in.CommaOk {
			f.setTup(in, 0, s.content(f.val(in.X), in.Type().(*types.Tuple).At(0).Type()))
		} else {
			f.set(in, s.content(f.val(in.X), in.Type()))
		}
	case *ssa.Next:
		if r, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
			tp := in.Type().(*types.Tuple)
			for i := 1; i < 3; i++ {
				f.setTup(in, i, s.content(f.val(r.X), tp.At(i).Type()))
			}
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if a, ok := in.X.(*ssa.Alloc); ok && f.vals[a].sh&shPoints == 0 {
				if sts, ok := s.storesTo(a); ok {
					var x at
					for _, st := range sts {
						if reaches(st, in, sts) {
							x = join(x, f.val(st.Val))
						}
					}
					f.set(in, at{sh: x.sh})
					return
				}
			}
			f.set(in, s.content(f.val(in.X), in.Type()))
		case token.ARROW:
			a := s.content(f.val(in.X), in.X.Type().Underlying().(*types.Chan).Elem())
			if in.CommaOk {
				f.setTup(in, 0, a)
			} else {
				f.set(in, a)
			}
		}
	case *ssa.Store:
		f.keep(in.Addr, f.val(in.Val), in.Val.Type())
	case *ssa.MapUpdate:
		f.keep(in.Map, f.val(in.Value), in.Value.Type())
	case *ssa.Send:
		f.keep(in.Chan, f.val(in.X), in.X.Type())
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, v := range in.Bindings {
			a := f.val(v)
			if al, ok := v.(*ssa.Alloc); ok && a.sh&shPoints == 0 {
				if sts, ok := s.storesTo(al); ok {
					a.sh = 0
					for _, st := range sts {
						if reaches(st, in, sts) || reaches(in, st, nil) {
							a.sh |= f.val(st.Val).sh.in()
						}
					}
				}
			}
			old := s.free[g.FreeVars[i]]
			n := at{sh: old.sh | a.sh, loc: a.loc}
			if n != old {
				s.free[g.FreeVars[i]] = n
				s.changed = true
			}
		}
	case ssa.CallInstruction:
		f.call(in, nil)
	}
}

func (f *sharedFn) setTup(v ssa.Value, i int, a at) {
	t := f.tup[v]
	for len(t) <= i {
		t = append(t, at{})
	}
	if n := (at{sh: t[i].sh | a.sh, loc: a.loc}); n != t[i] {
		t[i] = n
		f.again = true
	}
	f.tup[v] = t
}

// keep: a reference is put into memory
func (f *sharedFn) keep(addr ssa.Value, a at, t types.Type) {
	if a.sh == 0 || !leads(t) {
		return
	}
	for v := addr; ; {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			fv := fieldVar(x.X.Type(), x.Field)
			if h := a.sh.in(); f.s.fields[fv]|h != f.s.fields[fv] {
				f.s.fields[fv] |= h
				f.s.changed = true
				f.again = true
			}
			return
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Phi, *ssa.Call, *ssa.UnOp, *ssa.Parameter, *ssa.FreeVar:
			o := f.val(x)
			f.set(x, at{sh: o.sh | a.sh.in(), loc: o.loc})
			return
		}
		return
	}
}

// effect: what an instruction does to shared memory and to the locks
func (f *sharedFn) effect(in ssa.Instruction, l lockSet) lockSet {
	switch in := in.(type) {
	case *ssa.Store:
		f.touch(in, in.Addr, in.Val.Type(), true, l)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			f.touch(in, in.X, in.Type(), false, l)
		}
	case *ssa.MapUpdate:
		f.container(in, in.Map, true, l)
	case *ssa.Lookup:
		f.container(in, in.X, false, l)
	case *ssa.Range:
		f.container(in, in.X, false, l)
	case *ssa.Go:
		f.spawn(in)
	case *ssa.Defer:
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			l = f.call(f.defers[i], l)
		}
	case ssa.CallInstruction:
		return f.call(in, l)
	}
	return l
}

// container: a map as a whole, or the elements of a slice
func (f *sharedFn) container(in ssa.Instruction, v ssa.Value, write bool, l lockSet) {
	if f.val(v).sh&shPoints == 0 {
		return
	}
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice, *types.Array:
		f.access(in, "elements of "+typeName(v.Type()), nil, write, l)
	}
}

func (f *sharedFn) touch(in ssa.Instruction, addr ssa.Value, t types.Type, write bool, l lockSet) {
	a := f.val(addr)
	if a.sh&shPoints == 0 {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok && ownStruct(f.s.P, t) {
		for i := 0; i < st.NumFields(); i++ {
			f.fieldsOf(in, t, st.Field(i), write, l, 0)
		}
		if strings.HasPrefix(a.loc, "field ") || a.loc == "" || strings.HasPrefix(a.loc, "elements ") {
			return
		}
	}
	loc := a.loc
	if loc == "" {
		loc = "memory of type " + typeName(t)
	}
	var of types.Type
	if strings.HasPrefix(loc, "field ") {
		of = t
	}
	f.access(in, loc, of, write, l)
}

func (f *sharedFn) fieldsOf(in ssa.Instruction, t types.Type, v *types.Var, write bool, l lockSet, d int) {
	if isLockType(v.Type()) {
		return
	}
	if st, ok := v.Type().Underlying().(*types.Struct); ok && d < 3 && ownStruct(f.s.P, v.Type()) {
		for i := 0; i < st.NumFields(); i++ {
			f.fieldsOf(in, v.Type(), st.Field(i), write, l, d+1)
		}
		return
	}
	f.access(in, sharedField(t, v), v.Type(), write, l)
}

func isLockType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func (f *sharedFn) access(in ssa.Instruction, loc string, of types.Type, write bool, l lockSet) {
	s := f.s
	if !f.note || s.quiet {
		return
	}
	kind := "shared reads"
	if write {
		kind = "shared writes"
	}
	s.r.site(kind, s.P.pos(instrPos(in))+" "+loc)
	a := access{root: s.root, write: write, in: in, locks: l, way: append([]string{s.roots[s.root].name}, s.stack...)}
	put := func(m map[string]map[string]access, k string) {
		if m[k] == nil {
			m[k] = map[string]access{}
		}
		m[k][fmt.Sprintf("%d|%v|%p|%s", s.root, write, in, l.key())] = a
	}
	put(s.accesses, loc)
	if of != nil {
		put(s.weak, "memory of type "+typeName(of))
	}
}

func (f *sharedFn) spawn(in *ssa.Go) {
	c := in.Common()
	own, _ := f.s.callees(c)
	for _, g := range own {
		f.s.begin(f, g, c, in.Block(), f.s.roots[f.s.root].multi)
	}
}

// begin: another task starts
func (s *sharing) begin(f *sharedFn, g *ssa.Function, c *ssa.CallCommon, b *ssa.BasicBlock, multi bool) {
	args := []at{}
	if c != nil {
		vs := c.Args
		if c.IsInvoke() {
			vs = append([]ssa.Value{c.Value}, vs...)
		}
		for _, a := range vs {
			args = append(args, f.val(a))
		}
	}
	loop := false
	if b != nil {
		loop = inLoop(b)
	}
	id := s.newRoot(g, multi || loop)
	s.queue = append(s.queue, func() {
		s.root = id
		s.run(g, args, lockSet{})
	})
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

func (s *sharing) newRoot(g *ssa.Function, multi bool) int {
	if id, ok := s.rootOf[g]; ok {
		s.roots[id].multi = s.roots[id].multi || multi
		return id
	}
	s.roots = append(s.roots, rootInfo{name: "task " + shortName(g.RelString(nil)), multi: multi})
	s.rootOf[g] = len(s.roots) - 1
	return len(s.roots) - 1
}

// notConcurrent: library types whose methods must not be used by two tasks at a time
var notConcurrent = regexp.MustCompile(`^\(?\*?(bytes\.Buffer|strings\.Builder|math/rand\.Rand|bufio\.[A-Za-z]+|compress/[a-z]+\.(Writer|Reader)|encoding/[a-z]+\.(Encoder|Decoder)|container/.*|text/tabwriter\.Writer|github.com/shirou/gopsutil/(v3/)?process\.Process)\)?\.`)

var headerWriters = regexp.MustCompile(`^\((net/http\.Header|net/url\.Values|net/textproto\.MIMEHeader)\)\.(Set|Add|Del)$`)

// call: what is known of the results (locks nil), or the effect on shared memory and locks.
func (f *sharedFn) call(ci ssa.CallInstruction, l lockSet) lockSet {
	s := f.s
	c := ci.Common()
	in := ci.(ssa.Instruction)
	effects := l != nil
	if _, ok := in.(*ssa.Go); ok {
		return l
	}
	val, _ := in.(ssa.Value)
	give := func(i int, a at) {
		if val == nil || effects {
			return
		}
		if c.Signature().Results().Len() == 1 {
			f.set(val, a)
		} else {
			f.setTup(val, i, a)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			a := f.val(c.Args[0])
			if len(c.Args) > 1 {
				if x := f.val(c.Args[1]); x.sh != 0 && leads(val.Type().Underlying().(*types.Slice).Elem()) {
					a.sh |= x.sh.out().in()
				}
			}
			a.loc = ""
			if !effects {
				f.set(val, a)
			} else if f.val(c.Args[0]).sh&shPoints != 0 {
				f.container(in, c.Args[0], true, l)
			}
			if effects && len(c.Args) > 1 {
				f.container(in, c.Args[1], false, l)
			}
		case "copy":
			if effects {
				f.container(in, c.Args[0], true, l)
				f.container(in, c.Args[1], false, l)
			} else if x := f.val(c.Args[1]); x.sh != 0 {
				f.keep(c.Args[0], at{sh: x.sh.out()}, c.Args[1].Type().Underlying())
			}
		case "delete", "clear":
			if effects {
				f.container(in, c.Args[0], true, l)
			}
		}
		return l
	}
	name := calleeName(c)
	own, library := s.callees(c)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	if effects {
		if lk, done := f.lockCall(name, c, l); done {
			return lk
		}
	}
	out := l
	if len(own) > 0 {
		var as []at
		for _, a := range args {
			as = append(as, f.val(a))
		}
		entry := l
		if !effects {
			entry = lockSet{}
		}
		first := true
		for _, g := range own {
			q := s.quiet
			s.quiet = q || !effects || !f.note
			m := s.runNote(g, as, entry)
			s.quiet = q
			for i, a := range m.res {
				give(i, a)
			}
			if effects {
				if first && !library {
					out, first = m.exit, false
				} else {
					for k := range out {
						if !m.exit[k] {
							out = out.without(k)
						}
					}
				}
			}
		}
		if !library {
			return out
		}
	}
	if !effects {
		switch {
		case strings.HasPrefix(name, "(*sync/atomic.") || name == "(*sync.Map).Load" || name == "(*sync.Map).LoadOrStore" || strings.HasPrefix(name, "sync/atomic.Load"):
			give(0, at{sh: shPoints})
		}
		return l
	}
	// functions that a library calls
	for i, a := range args {
		t := a
		if m, ok := t.(*ssa.MakeInterface); ok {
			t = m.X
		}
		var g *ssa.Function
		switch x := t.(type) {
		case *ssa.MakeClosure:
			g = x.Fn.(*ssa.Function)
		case *ssa.Function:
			g = x
		}
		if g == nil || g.Blocks == nil || !s.P.ownFn(g) {
			continue
		}
		if name == "time.AfterFunc" || strings.HasPrefix(name, "net/http.") || strings.HasPrefix(name, "(*net/http.") {
			if f.note {
				s.begin(f, g, nil, in.Block(), s.roots[s.root].multi || name != "time.AfterFunc")
			}
			continue
		}
		held := l
		if strings.HasSuffix(name, "sync.Once).Do") {
			if k := f.lockKey(c); k != "" {
				held = l.with("w:" + k)
			}
		}
		_ = i
		q := s.quiet
		s.quiet = q || !f.note
		s.runNote(g, nil, held)
		s.quiet = q
	}
	if strings.HasSuffix(name, "sync.Once).Do") {
		if k := f.lockKey(c); k != "" {
			out = out.with("r:" + k)
		}
	}
	meth := name[strings.LastIndexByte(name, '.')+1:]
	for i, a := range args {
		if f.val(a).sh&shPoints == 0 {
			continue
		}
		v := a
		for {
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
				continue
			}
			break
		}
		switch {
		case i == 0 && (notConcurrent.MatchString(name) || notConcurrent.MatchString("("+tkey(v.Type())+").")):
			f.access(in, "state of "+typeName(deref(v.Type())), nil, true, l)
		case i == 0 && headerWriters.MatchString(name):
			f.access(in, "elements of "+typeName(v.Type()), nil, true, l)
		case strings.HasPrefix(name, "sort.") && i == 0 && !strings.HasPrefix(meth, "Search") && !strings.HasSuffix(meth, "AreSorted") && !strings.HasSuffix(meth, "IsSorted"),
			strings.HasPrefix(name, "slices.Sort") && i == 0, name == "slices.Reverse",
			name == "io.ReadFull" && i == 1, meth == "Read" && i == 1:
			f.container(in, v, true, l)
		case strings.Contains(meth, "Unmarshal") && i == len(args)-1, strings.HasPrefix(meth, "Decode") && i == len(args)-1, strings.HasPrefix(meth, "Scan") && i > 0:
			if p, ok := v.Type().Underlying().(*types.Pointer); ok {
				f.touch(in, v, p.Elem(), true, l)
			}
		case strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "fmt."):
			f.container(in, v, false, l)
		}
	}
	return out
}

// runNote goes through a function; its accesses are noted only the first time.
func (s *sharing) runNote(g *ssa.Function, as []at, l lockSet) *sharedRun {
	if s.quiet {
		// not final: kept apart from what is noted
		memo := s.memo
		s.memo = s.prelim()
		m := s.run(g, as, l)
		s.memo = memo
		return m
	}
	return s.run(g, as, l)
}

var prelim map[string]*sharedRun

func (s *sharing) prelim() map[string]*sharedRun { return prelim }

func (f *sharedFn) lockCall(name string, c *ssa.CallCommon, l lockSet) (lockSet, bool) {
	i := strings.LastIndexByte(name, '.')
	recv, meth := name[:max(i, 0)], name[i+1:]
	isLock := strings.HasSuffix(recv, "sync.Mutex)") || strings.HasSuffix(recv, "sync.RWMutex)") || strings.HasSuffix(recv, "sync.Locker)") || strings.HasSuffix(recv, "semaphore.Weighted)") || recv == "(sync.Locker"
	if !isLock && !(strings.Contains(recv, "sync.Locker")) {
		return l, false
	}
	k := f.lockKey(c)
	if k == "" {
		return l, true
	}
	f.s.r.site("locks", k)
	switch meth {
	case "Lock":
		return l.with("w:" + k), true
	case "RLock":
		return l.with("r:" + k), true
	case "Unlock", "Release":
		return l.without("w:" + k), true
	case "RUnlock":
		return l.without("r:" + k), true
	}
	return l, true
}

// guarded: does a lock keep the two accesses apart?
func guarded(w, a access) bool {
	for k := range w.locks {
		if !strings.HasPrefix(k, "w:") {
			continue
		}
		if a.locks[k] || !a.write && a.locks["r:"+k[2:]] {
			return true
		}
	}
	if a.write {
		return false
	}
	return false
}

// C19: no unsynchronised sharing.
func checkShared(P *Program, r *Report) {
	r.rule = "over all code that requests and background tasks run (each function in the context of what its arguments lead to and which locks are held): memory that is reached from a package variable, from a setting, or from a variable that several background tasks have captured, is only written " +
		"with a lock held exclusively that every other access to it by a task that can run at the same time holds too (mutexes, semaphores, sync.Once; what sync/atomic and sync.Pool do is no such access), and methods of library types that are not safe for concurrent use count as writes"
	s := &sharing{P: P, r: r, fields: map[*types.Var]share{}, free: map[*ssa.FreeVar]at{}, rootOf: map[*ssa.Function]int{}, looked: map[*ssa.Function]bool{}, captured: map[*ssa.Alloc]bool{}}
	s.flow = &flow{P: P}
	for _, p := range P.ssaPkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				s.flow.named = append(s.flow.named, t.Type(), types.NewPointer(t.Type()))
			}
		}
	}
	sort.Slice(s.flow.named, func(i, j int) bool { return tkey(s.flow.named[i]) < tkey(s.flow.named[j]) })
	handlers := P.handlerRoots()
	inRequests := P.reachable(handlers...)
	// background tasks that are started outside of request handling
	type spawnSite struct {
		fn *ssa.Function
		in ssa.CallInstruction
		g  *ssa.Function
	}
	var spawns []spawnSite
	shared := map[*ssa.Alloc]int{}
	for _, fn := range P.funcs {
		if inRequests[fn] {
			continue
		}
		each(fn, func(in ssa.Instruction) {
			var targets []ssa.Value
			switch in := in.(type) {
			case *ssa.Go:
				targets = []ssa.Value{in.Call.Value}
			case *ssa.Call:
				if calleeName(in.Common()) == "time.AfterFunc" {
					targets = in.Call.Args
				}
			case *ssa.Store:
				// functions that a library is given to call
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && !ownStruct(P, fa.X.Type()) {
					if m, ok := in.Val.(*ssa.MakeClosure); ok {
						spawns = append(spawns, spawnSite{fn: fn, g: m.Fn.(*ssa.Function)})
					} else if g, ok := in.Val.(*ssa.Function); ok && g.Blocks != nil && P.ownFn(g) {
						spawns = append(spawns, spawnSite{fn: fn, g: g})
					}
				}
			}
			for _, t := range targets {
				m, closure := t.(*ssa.MakeClosure)
				var g *ssa.Function
				if closure {
					g = m.Fn.(*ssa.Function)
					for _, b := range m.Bindings {
						if a, ok := b.(*ssa.Alloc); ok {
							shared[a]++
							if inLoop(in.Block()) && !inLoop(a.Block()) {
								shared[a]++
							}
							if usedAfter(a, in) {
								shared[a]++
							}
						}
					}
				} else if x, ok := t.(*ssa.Function); ok {
					g = x
				}
				if g != nil && g.Blocks != nil && P.ownFn(g) {
					ci, _ := in.(ssa.CallInstruction)
					spawns = append(spawns, spawnSite{fn: fn, in: ci, g: g})
				}
			}
		})
	}
	for a, n := range shared {
		if n > 1 {
			s.captured[a] = true
		}
	}
	for round := 0; round < 12; round++ {
		s.changed = false
		s.memo, prelim = map[string]*sharedRun{}, map[string]*sharedRun{}
		s.accesses, s.weak = map[string]map[string]access{}, map[string]map[string]access{}
		s.roots, s.rootOf, s.queue = nil, map[*ssa.Function]int{}, nil
		for _, h := range handlers {
			id := s.newRoot(h, true)
			s.roots[id].name = "request handler " + shortName(h.RelString(nil))
			h := h
			s.queue = append(s.queue, func() {
				s.root = id
				s.run(h, nil, lockSet{})
			})
		}
		for _, sp := range spawns {
			sp := sp
			loop := sp.in == nil || inLoop(sp.in.Block())
			id := s.newRoot(sp.g, loop)
			for _, fv := range sp.g.FreeVars {
				if a := captured(fv); a != nil && s.captured[a] {
					s.free[fv] = at{sh: shPoints, loc: "variable " + a.Comment + " of " + shortName(sp.fn.RelString(nil))}
				} else if leads(deref(fv.Type())) {
					// what the variable leads to may be known to others
					s.free[fv] = at{sh: shHolds}
				}
			}
			var args []at
			for _, p := range sp.g.Params {
				a := at{}
				if leads(p.Type()) && sp.in != nil {
					a.sh = shPoints
				}
				args = append(args, a)
			}
			s.queue = append(s.queue, func() {
				s.root = id
				s.run(sp.g, args, lockSet{})
			})
		}
		for n := 0; len(s.queue) > 0 && n < 5000; n++ {
			q := s.queue[0]
			s.queue = s.queue[1:]
			s.stack = nil
			q()
		}
		if !s.changed {
			break
		}
	}
	r.looked = s.looked
	s.compare()
	for _, ro := range s.roots {
		r.site("concurrent tasks", ro.name)
	}
	r.atLeast("concurrent tasks", 5)
	r.atLeast("shared reads", 50)
}

// callees: a call of a function value can only reach functions that are kept, handed on or
// returned somewhere in the program's own code; not those that are begun as tasks or given to
// a library at once.
func (s *sharing) callees(c *ssa.CallCommon) ([]*ssa.Function, bool) {
	l, library := s.flow.callees(c)
	if c.StaticCallee() != nil || c.IsInvoke() {
		return l, library
	}
	var m []*ssa.Function
	for _, g := range l {
		if s.kept()[g] {
			m = append(m, g)
		}
	}
	return m, library
}

func (s *sharing) kept() map[*ssa.Function]bool {
	if s.keptFns != nil {
		return s.keptFns
	}
	s.keptFns = map[*ssa.Function]bool{}
	var use func(g *ssa.Function, v ssa.Value, in ssa.Instruction)
	use = func(g *ssa.Function, v ssa.Value, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.ChangeType:
			for _, u := range *in.Referrers() {
				use(g, in, u)
			}
			return
		case *ssa.MakeInterface:
			for _, u := range *in.Referrers() {
				use(g, in, u)
			}
			return
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && !ownStruct(s.P, fa.X.Type()) {
				return
			}
		case *ssa.DebugRef:
			return
		case ssa.CallInstruction:
			c := in.Common()
			if c.Value == v && !c.IsInvoke() {
				if _, ok := in.(*ssa.Go); ok {
					return
				}
				// called where it is made
				return
			}
			if h := c.StaticCallee(); h != nil && !(h.Blocks != nil && s.P.ownFn(h)) {
				return
			}
		}
		s.keptFns[g] = true
	}
	for _, fn := range s.P.funcs {
		each(fn, func(in ssa.Instruction) {
			if m, ok := in.(*ssa.MakeClosure); ok {
				for _, u := range *m.Referrers() {
					use(m.Fn.(*ssa.Function), m, u)
				}
				return
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					use(g, g, in)
				}
			}
		})
	}
	return s.keptFns
}

// storesTo: all writes to a local variable, if each of them is seen to replace it as a whole
func (s *sharing) storesTo(a *ssa.Alloc) ([]*ssa.Store, bool) {
	var l []*ssa.Store
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != a || u.Val == a {
				return nil, false
			}
			l = append(l, u)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b != a {
					continue
				}
				for _, x := range *g.FreeVars[i].Referrers() {
					switch x.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return nil, false
					}
				}
			}
		default:
			return nil, false
		}
	}
	return l, true
}

// reaches: is there a way from one instruction to another that none of the others is on?
func reaches(from, to ssa.Instruction, not []*ssa.Store) bool {
	stop := map[ssa.Instruction]bool{}
	for _, st := range not {
		stop[st] = true
	}
	// scan looks at the instructions of a block, from a given one on.
	scan := func(l []ssa.Instruction) (found, ended bool) {
		for _, in := range l {
			if in == to {
				return true, true
			}
			if stop[in] {
				return false, true
			}
		}
		return false, false
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			if found, ended := scan(b.Instrs[i+1:]); ended {
				return found
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		found, ended := scan(x.Instrs)
		if found {
			return true
		}
		if !ended {
			work = append(work, x.Succs...)
		}
	}
	return false
}

func ownStruct(P *Program, t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return !ok || n.Obj().Pkg() != nil && P.ownPkg(n.Obj().Pkg())
}

// usedAfter: is the variable used again once the task was begun?
func usedAfter(a *ssa.Alloc, in ssa.Instruction) bool {
	for _, u := range *a.Referrers() {
		if _, ok := u.(*ssa.MakeClosure); ok || u.Parent() != in.Parent() {
			continue
		}
		if u.Block() == in.Block() {
			if before(in, u) {
				return true
			}
			continue
		}
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock(nil), in.Block().Succs...)
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			if b == u.Block() {
				return true
			}
			if !seen[b] {
				seen[b] = true
				work = append(work, b.Succs...)
			}
		}
	}
	return false
}

func (s *sharing) compare() {
	var locs []string
	for l := range s.accesses {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	for _, loc := range locs {
		var writes, others []access
		for _, a := range s.accesses[loc] {
			if a.write {
				writes = append(writes, a)
			}
			others = append(others, a)
		}
		if m := s.weak[loc]; m != nil {
			for _, a := range m {
				if a.write {
					writes = append(writes, a)
				}
				others = append(others, a)
			}
		}
		key := func(a access) string {
			return s.P.pos(instrPos(a.in)) + fmt.Sprint(a.root, a.write, a.locks.key())
		}
		sort.Slice(writes, func(i, j int) bool { return key(writes[i]) < key(writes[j]) })
		sort.Slice(others, func(i, j int) bool { return key(others[i]) < key(others[j]) })
		s.r.count("locations compared")
		for _, w := range writes {
			for _, a := range others {
				if w.root == a.root && !s.roots[w.root].multi {
					continue
				}
				s.r.count("pairs compared")
				if guarded(w, a) {
					continue
				}
				how := "read"
				if a.write {
					how = "written"
				}
				s.r.violateVia(append(append([]string{"write:"}, w.way...), append([]string{"other: " + s.P.pos(instrPos(a.in))}, a.way...)...), "race", s.P.pos(instrPos(w.in)),
					fmt.Sprintf("the %s is written here by %s%s while it can be %s at %s by %s, and no lock is held by both (here: %s, there: %s)", loc, s.roots[w.root].name, inFn(w.in), how, s.P.pos(instrPos(a.in)), s.roots[a.root].name, orNone(w.locks), orNone(a.locks)))
				break
			}
		}
	}
}

func orNone(l lockSet) string {
	if k := l.key(); k != "" {
		return k
	}
	return "none"
}
