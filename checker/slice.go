package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Slice is the part of the program a property depends on: a backward slice over control and data dependences, through
// calls, fields and elements, starting from the events the property talks about. Everything else is skipped by the path
// analysis: branches outside the slice are not told apart, and values outside it are unknown.
type Slice struct {
	P      *Program
	roots  []*ssa.Function
	reach  map[*ssa.Function]bool
	rel    map[ssa.Instruction]bool // instructions that have to be executed
	need   map[ssa.Value]bool       // values that have to be known
	locs   map[string]bool
	funcs  map[*ssa.Function]bool // functions with something relevant inside
	result map[*ssa.Function]map[int]bool
	cdep   map[*ssa.BasicBlock][]*ssa.BasicBlock
	work   []func()

	// indexes
	stores   map[string][]ssa.Instruction // by location
	content  map[string][]ssa.Instruction // external calls that may change an object, by type of the object
	callers  map[*ssa.Function][]ssa.Instruction
	closures map[*ssa.Function][]ssa.Instruction // where the function value is made or mentioned
	params   map[*ssa.Function]map[int]bool
	blockRel map[*ssa.BasicBlock]bool
	objs     map[string]bool
	only     []string
	hidden   map[*ssa.Function][]int // functions whose result is left unknown
	cost     map[*ssa.Function]int
	refs     map[*ssa.Function][]*ssa.Function
	limit    int
	open     func(f *ssa.Function) bool
	crit     Criterion
	events   int
	cause    string
	headers  bool // the content of header maps matters
	prov     bool // where values come from matters
	priv     map[*ssa.Alloc]bool
	why      map[string]string
	future   *futureLoads
	alias    map[string]map[string]bool
	kept     []string // fields read by the observer when the server starts to listen
}

// Criterion selects the events and what of them matters.
type Criterion func(in ssa.Instruction, name string) critMode

type critMode int

const (
	critNone critMode = iota
	critExec          // that it happens
	critRecv          // and on which object
	critArgs          // and with which operands
	critDeep          // and with which content of the operands
	critArg0          // critArg0+i: and with which argument i
)

func maxMode(a, b critMode) critMode {
	if a > b {
		a, b = b, a
	}
	if b >= critArg0 && (a == critArgs || a == critDeep) {
		return a
	}
	if b >= critArg0 && a >= critArg0 && a != b {
		return critArgs
	}
	if a > b {
		return a
	}
	return b
}

func (P *Program) NewSlice(roots []*ssa.Function, limit int, headers, prov bool, within map[*ssa.Function]bool, only []string, crit Criterion) *Slice {
	refs, bySig := P.callRefs()
	_ = bySig
	s := &Slice{P: P, only: only, headers: headers, prov: prov, roots: roots, reach: P.reachable(roots...), rel: map[ssa.Instruction]bool{}, need: map[ssa.Value]bool{},
		locs: map[string]bool{}, funcs: map[*ssa.Function]bool{}, result: map[*ssa.Function]map[int]bool{},
		cdep: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, stores: map[string][]ssa.Instruction{}, content: map[string][]ssa.Instruction{},
		callers: map[*ssa.Function][]ssa.Instruction{}, closures: map[*ssa.Function][]ssa.Instruction{}, blockRel: map[*ssa.BasicBlock]bool{},
		objs: map[string]bool{}, why: map[string]string{}, priv: map[*ssa.Alloc]bool{}, crit: crit, hidden: map[*ssa.Function][]int{}, cost: map[*ssa.Function]int{}, refs: refs, limit: limit}
	if within != nil {
		for f := range s.reach {
			if !within[f] {
				delete(s.reach, f)
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range P.funcs {
		if s.reach[f] {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		s.controlDeps(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					s.closures[g] = append(s.closures[g], in)
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s.index(f, in, refs)
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m := crit(in, instrName(in))
				if m == critNone {
					continue
				}
				s.events++
				s.cause = "EVENT"
				s.mark(in)
				switch m {
				case critRecv:
					if ci, ok := in.(ssa.CallInstruction); ok {
						c := ci.Common()
						if c.IsInvoke() || c.StaticCallee() == nil {
							s.needVal(c.Value)
						} else if c.Signature().Recv() != nil && len(c.Args) > 0 {
							s.needVal(c.Args[0])
						}
					}
				case critArgs:
					s.shallow(in)
				case critDeep:
					s.operands(in)
				}
				if m >= critArg0 {
					if ci, ok := in.(ssa.CallInstruction); ok && int(m-critArg0) < len(ci.Common().Args) {
						s.needVal(ci.Common().Args[m-critArg0])
					}
				}
			}
		}
	}
	s.drain()
	return s
}

func (s *Slice) drain() {
	for len(s.work) > 0 {
		w := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		w()
	}
}

// keepNamed: the observer reads the field, given as Type.Field or package.Type.Field.
func (s *Slice) keepNamed(name string) bool {
	i := strings.LastIndexByte(name, '.')
	typ, field := name[:i], name[i+1:]
	var t types.Type
	if k := strings.LastIndexByte(typ, '.'); k >= 0 {
		t = s.P.libType(typ[:k], typ[k+1:])
	} else {
		for _, p := range s.P.ssaPkgs {
			if m, ok := p.Members[typ].(*ssa.Type); ok {
				t = m.Type()
			}
		}
	}
	if t == nil {
		return false
	}
	st := structOf(t)
	for k := 0; st != nil && k < st.NumFields(); k++ {
		if st.Field(k).Name() == field {
			s.cause = "KEPT"
			s.needLoc(fieldLoc(st.Field(k)))
			if sl, ok := st.Field(k).Type().Underlying().(*types.Slice); ok {
				s.needLoc("e:" + tkey(sl.Elem()))
			}
			s.kept = append(s.kept, field)
			s.drain()
			return true
		}
	}
	return false
}

// keepField: the observer reads this place when the server starts to listen.
func (s *Slice) keepField(c *cfgPath) {
	s.cause = "KEPT"
	s.needLoc("g:" + c.runner.RelString(nil))
	for _, v := range c.vars {
		s.needLoc(fieldLoc(v))
		s.kept = append(s.kept, v.Name())
	}
	s.drain()
}

// index records where things are stored, called and created.
func (s *Slice) index(f *ssa.Function, in ssa.Instruction, refs map[*ssa.Function][]*ssa.Function) {
	var callee ssa.Value
	if ci, ok := in.(ssa.CallInstruction); ok {
		c := ci.Common()
		if g := c.StaticCallee(); g != nil && g.Blocks != nil {
			s.callers[g] = append(s.callers[g], in)
			callee = c.Value
		} else if c.IsInvoke() || (g == nil && !isBuiltin(c.Value)) {
			for _, g := range s.targets(c) {
				s.callers[g] = append(s.callers[g], in)
			}
		}
	}
	var ops [16]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if o == nil || *o == nil {
			continue
		}
		if g, ok := (*o).(*ssa.Function); ok && g.Blocks != nil && *o != callee {
			s.closures[g] = append(s.closures[g], in)
		}
	}
	if l, k := aliased(in); l != "" {
		if s.alias == nil {
			s.alias = map[string]map[string]bool{}
		}
		if s.alias[l] == nil {
			s.alias[l] = map[string]bool{}
		}
		s.alias[l][k] = true
	}
	switch in := in.(type) {
	case *ssa.MakeInterface:
		ms := s.P.prog.MethodSets.MethodSet(in.X.Type())
		for i := 0; i < ms.Len(); i++ {
			if m := s.P.prog.MethodValue(ms.At(i)); m != nil && m.Blocks != nil {
				s.closures[m] = append(s.closures[m], in)
			}
		}
	case *ssa.Store:
		for _, l := range s.locsOf(in.Addr, deref(in.Addr.Type()), true) {
			s.stores[l] = append(s.stores[l], in)
		}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		for _, l := range append(s.typeLocs(mt.Elem(), 0), "e:"+tkey(mt.Elem())) {
			s.stores[l] = append(s.stores[l], in)
		}
	case *ssa.Send:
		s.stores["c:"+tkey(in.X.Type())] = append(s.stores["c:"+tkey(in.X.Type())], in)
	case *ssa.Select:
		for _, st := range in.States {
			if st.Send != nil {
				s.stores["c:"+tkey(st.Send.Type())] = append(s.stores["c:"+tkey(st.Send.Type())], in)
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		if g := c.StaticCallee(); g != nil && g.Blocks != nil {
			return
		}
		n := calleeName(c)
		if isPure(n) {
			return
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for _, a := range args {
			t := a.Type()
			for {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
					t = a.Type()
					continue
				}
				break
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Interface:
				s.content[tkey(t)] = append(s.content[tkey(t)], in)
				if _, ok := u.(*types.Pointer); ok && s.mayFill(n, deref(t)) {
					for _, l := range s.locsOf(a, deref(t), true) {
						s.stores[l] = append(s.stores[l], in)
					}
				}
			case *types.Slice:
				if strings.HasPrefix(n, "sort.") || n == "builtin copy" || strings.HasSuffix(n, ".Read") || n == "io.ReadFull" || n == "crypto/rand.Read" {
					s.stores["e:"+tkey(u.Elem())] = append(s.stores["e:"+tkey(u.Elem())], in)
				}
			case *types.Chan:
				s.content[tkey(t)] = append(s.content[tkey(t)], in)
			}
		}
	}
}

// aliased: the address of a field or an element that is passed around, so that it may be stored to as a plain pointer.
func aliased(in ssa.Instruction) (loc, ptr string) {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.FieldAddr:
		v, loc = x, fieldLoc(fieldVar(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		v, loc = x, "e:"+tkey(deref(x.Type()))
	default:
		return "", ""
	}
	if structOf(deref(v.Type())) != nil || v.Referrers() == nil {
		return "", ""
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == v {
				continue
			}
		case ssa.CallInstruction:
			if g := u.Common().StaticCallee(); g != nil && g.Blocks == nil || isBuiltin(u.Common().Value) {
				continue
			}
		case *ssa.Phi, *ssa.MakeClosure:
		default:
			continue
		}
		return loc, "p:" + tkey(deref(v.Type()))
	}
	return "", ""
}

// mayFill: a library call that may store into the variable it is given a pointer to. Library objects keep their state to
// themselves.
func (s *Slice) mayFill(name string, t types.Type) bool {
	if strings.Contains(name, "Unmarshal") || strings.Contains(name, "Decode") || strings.Contains(name, "Scan") {
		return true
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() == nil || s.P.ownPkg(n.Obj().Pkg())
	}
	return true
}

func isBuiltin(v ssa.Value) bool {
	_, ok := v.(*ssa.Builtin)
	return ok
}

func sigKeyOf(sg *types.Signature) string {
	return sigKey(sg)
}

// targets of a dynamic call inside the repository
func (s *Slice) targets(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return s.P.bySig[sigKeyOf(c.Signature())]
	}
	var r []*ssa.Function
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	for _, p := range s.P.ssaPkgs {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if it != nil && types.Implements(ty, it) {
					if sel := s.P.prog.MethodSets.MethodSet(ty).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						if m := s.P.prog.MethodValue(sel); m != nil && m.Blocks != nil {
							r = append(r, m)
						}
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].RelString(nil) < r[j].RelString(nil) })
	return r
}

// private tells whether the memory behind an alloc is only used by name: stored, loaded, captured by closures that do the
// same. Struct variables that are copied as a whole are not private, their fields live on elsewhere.
func (s *Slice) private(a *ssa.Alloc) bool {
	if p, ok := s.priv[a]; ok {
		return p
	}
	s.priv[a] = false
	_, isStruct := deref(a.Type()).Underlying().(*types.Struct)
	p := s.privUses(a, a, isStruct, 0)
	s.priv[a] = p
	return p
}

func (s *Slice) privUses(a *ssa.Alloc, v ssa.Value, isStruct bool, d int) bool {
	if v.Referrers() == nil || d > 6 {
		return false
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != v {
				return false
			}
		case *ssa.UnOp:
			if isStruct {
				if _, whole := u.Type().Underlying().(*types.Struct); whole {
					return false
				}
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !s.privUses(a, u, false, d+1) {
				return false
			}
		case *ssa.FieldAddr:
			if !s.privUses(a, u, isStruct, d+1) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v && !s.privUses(a, u.Fn.(*ssa.Function).FreeVars[i], isStruct, d+1) {
					return false
				}
			}
		case *ssa.Slice:
			// the slice is handed to library calls only
			if u.Referrers() == nil {
				continue
			}
			for _, w := range *u.Referrers() {
				ci, ok := w.(ssa.CallInstruction)
				if !ok {
					return false
				}
				if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// copied: the struct was stored as a whole, the field comes from elsewhere.
func (s *Slice) copied(fa *ssa.FieldAddr) bool {
	a := s.rootAlloc(fa)
	if a == nil || !s.private(a) || a.Referrers() == nil {
		return false
	}
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a {
			return true
		}
	}
	return false
}

// rootAlloc finds the variable an address belongs to.
func (s *Slice) rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			f := x.Parent()
			idx := -1
			for i, p := range f.FreeVars {
				if p == x {
					idx = i
				}
			}
			var one ssa.Value
			for _, in := range s.closures[f] {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					return nil
				}
				if one != nil && one != mc.Bindings[idx] {
					return nil
				}
				one = mc.Bindings[idx]
			}
			if one == nil {
				return nil
			}
			v = one
		default:
			return nil
		}
	}
}

// locsOf names the memory an address of a value of type t covers. With whole, also the fields inside a struct.
func (s *Slice) locsOf(addr ssa.Value, t types.Type, whole bool) []string {
	if a := s.rootAlloc(addr); a != nil && s.private(a) {
		return []string{"a:" + a.Parent().RelString(nil) + a.Name()}
	}
	var r []string
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		r = append(r, fieldLoc(fieldVar(x.X.Type(), x.Field)))
	case *ssa.IndexAddr:
		r = append(r, "e:"+tkey(t))
	case *ssa.Global:
		r = append(r, "g:"+x.RelString(nil))
	default:
		r = append(r, "p:"+tkey(t))
	}
	if !whole {
		return r
	}
	return append(r, s.typeLocs(t, 0)...)
}

func fieldLoc(v *types.Var) string {
	if v == nil {
		return "f:?"
	}
	k, ok := fieldLocs[v]
	if !ok {
		k = "f:" + v.Name() + "#" + itoa(len(fieldLocs))
		fieldLocs[v] = k
	}
	return k
}

var fieldLocs = map[*types.Var]string{}

func itoa(i int) string { return tInt(int64(i)).cv.String() }

// typeLocs: the fields inside a struct value, all elements of an array value.
func (s *Slice) typeLocs(t types.Type, d int) []string {
	if d > 5 {
		return nil
	}
	var r []string
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() && !s.P.ownPkg(u.Field(i).Pkg()) {
				continue
			}
			r = append(r, fieldLoc(u.Field(i)))
			r = append(r, s.typeLocs(u.Field(i).Type(), d+1)...)
		}
	case *types.Array:
		r = append(r, "e:"+tkey(u.Elem()))
		r = append(r, s.typeLocs(u.Elem(), d+1)...)
	}
	return r
}

// ---- marking -------------------------------------------------------------

// mark: the instruction has to be executed.
func (s *Slice) mark(in ssa.Instruction) {
	if s.rel[in] {
		return
	}
	s.rel[in] = true
	old := s.cause
	s.because(s.inKey(in))
	defer func() { s.cause = old }()
	s.markBlock(in.Block())
	if _, ok := in.(*ssa.Defer); ok {
		return
	}
}

func (s *Slice) markBlock(b *ssa.BasicBlock) {
	if s.blockRel[b] {
		return
	}
	s.blockRel[b] = true
	s.markFunc(b.Parent())
	s.controlOf(b)
}

// markIf: the outcome of the branch at the end of c matters.
func (s *Slice) markIf(c *ssa.BasicBlock) {
	if len(c.Instrs) == 0 {
		return
	}
	if i, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If); ok && !s.rel[i] {
		s.rel[i] = true
		old := s.cause
		s.because(s.inKey(i))
		defer func() { s.cause = old }()
		s.needVal(i.Cond)
		s.controlOf(c)
	}
}

func (s *Slice) markFunc(f *ssa.Function) {
	if s.funcs[f] {
		return
	}
	s.funcs[f] = true
	old := s.cause
	s.because("fn:" + f.RelString(nil))
	defer func() { s.cause = old }()
	s.later(func() {
		for _, idx := range s.hidden[f] {
			s.expandResult(f, idx)
		}
		delete(s.hidden, f)
		for _, in := range s.callers[f] {
			s.markCall(in)
		}
		for _, in := range s.closures[f] {
			s.carrier(in)
		}
	})
}

func (s *Slice) later(f func()) {
	c := s.cause
	s.work = append(s.work, func() { s.cause = c; f() })
}

// because notes why something entered the slice, for diagnosis.
func (s *Slice) because(k string) {
	if _, ok := s.why[k]; !ok {
		s.why[k] = s.cause
	}
	s.cause = k
}

func (s *Slice) inKey(in ssa.Instruction) string {
	return "in:" + s.P.pos(in.Pos()) + ":" + in.String()
}

func (s *Slice) markCall(in ssa.Instruction) {
	s.mark(in)
	c := in.(ssa.CallInstruction).Common()
	if c.IsInvoke() || c.StaticCallee() == nil {
		s.needVal(c.Value)
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		s.needVal(mc)
	}
}

// carrier: an instruction that mentions a relevant function as a value.
func (s *Slice) carrier(in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		if _, isCall := in.(ssa.CallInstruction); !isCall {
			s.needVal(v)
			s.flow(v, map[ssa.Value]bool{})
			return
		}
	}
	s.flowUse(in, nil, map[ssa.Value]bool{})
}

// flow follows a function value (or an object with methods) forward to the external calls that may run it.
func (s *Slice) flow(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		s.flowUse(u, v, seen)
	}
}

func (s *Slice) flowUse(u ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) {
	switch u := u.(type) {
	case *ssa.ChangeType:
		s.flow(u, seen)
	case *ssa.ChangeInterface:
		s.flow(u, seen)
	case *ssa.MakeInterface:
		s.flow(u, seen)
	case *ssa.Phi:
		s.flow(u, seen)
	case ssa.CallInstruction:
		c := u.Common()
		if isBuiltin(c.Value) {
			return
		}
		g := c.StaticCallee()
		if g == nil || g.Blocks == nil {
			if v != nil {
				if _, ok := v.Type().Underlying().(*types.Signature); !ok && !runsMethods(calleeName(c)) {
					return
				}
			}
			s.mark(u)
			s.operands(u)
			return
		}
		for i, a := range c.Args {
			if a == v && i < len(g.Params) {
				s.flow(g.Params[i], seen)
			}
		}
	}
}

// runsMethods: library functions that call methods of their arguments in a way that matters
func runsMethods(name string) bool {
	return strings.HasPrefix(name, "sort.")
}

// needVarargs: the elements of an argument list built for the call, and struct operands.
func (s *Slice) needVarargs(v ssa.Value) {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Slice:
		if a := s.rootAlloc(v); a != nil && s.private(a) {
			s.needLoc("a:" + a.Parent().RelString(nil) + a.Name())
		}
	case *types.Struct:
		_ = u
		for _, l := range s.typeLocs(v.Type(), 0) {
			s.needLoc(l)
		}
	}
}

func (s *Slice) shallow(in ssa.Instruction) {
	var ops [16]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if o != nil && *o != nil {
			s.needVal(*o)
			if _, ok := in.(ssa.CallInstruction); ok {
				s.needVarargs(*o)
			}
		}
	}
}

func (s *Slice) operands(in ssa.Instruction) {
	var ops [16]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if o != nil && *o != nil {
			s.needVal(*o)
			s.needContent(*o)
		}
	}
}

// needContent: what a pointer or slice handed to a library refers to.
func (s *Slice) needContent(v ssa.Value) {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	t := v.Type()
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		for _, l := range s.locsOf(v, u.Elem(), true) {
			s.needLoc(l)
		}
		s.needObj(t)
	case *types.Struct:
		for _, l := range s.typeLocs(t, 0) {
			s.needLoc(l)
		}
	case *types.Slice:
		if a := s.rootAlloc(v); a != nil && s.private(a) {
			s.needLoc("a:" + a.Parent().RelString(nil) + a.Name())
		} else if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
			s.needLoc("e:" + tkey(u.Elem()))
			for _, l := range s.typeLocs(u.Elem(), 0) {
				s.needLoc(l)
			}
		}
	case *types.Map, *types.Interface, *types.Chan:
		s.needObj(t)
	}
}

var skipObj = map[string]bool{"error": true, "interface{}": true, "any": true, "context.Context": true}

// needObj: library objects of this type are tracked, so are the calls that change them.
func (s *Slice) needObj(t types.Type) {
	k := tkey(t)
	if (k == "net/http.Header" || k == "net/textproto.MIMEHeader") && !s.headers {
		return
	}
	if s.objs[k] || skipObj[k] {
		return
	}
	if strings.HasPrefix(k, "*"+zl) {
		return
	}
	s.objs[k] = true
	old := s.cause
	s.because("obj:" + k)
	defer func() { s.cause = old }()
	if mt, ok := t.Underlying().(*types.Map); ok {
		s.needLoc("e:" + tkey(mt.Elem()))
	}
	if ct, ok := t.Underlying().(*types.Chan); ok {
		s.needLoc("c:" + tkey(ct.Elem()))
	}
	s.later(func() {
		for _, in := range s.content[k] {
			if len(s.only) > 0 && otherHeader(in, s.only) {
				continue
			}
			s.mark(in)
			s.operands(in)
		}
	})
}

// needMap: what a map holds.
func (s *Slice) needMap(t types.Type) {
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return
	}
	if tkey(t) == "net/http.Header" && !s.headers {
		return
	}
	s.needLoc("e:" + tkey(mt.Elem()))
	s.needObj(t)
}

func (s *Slice) needLoc(l string) {
	if s.locs[l] {
		return
	}
	s.locs[l] = true
	old := s.cause
	s.because("loc:" + l)
	defer func() { s.cause = old }()
	s.later(func() {
		for k := range s.alias[l] {
			s.needLoc(k)
		}
		for _, in := range s.stores[l] {
			s.mark(in)
			switch in := in.(type) {
			case *ssa.Store:
				s.needVal(in.Val)
				s.needVal(in.Addr)
			default:
				s.shallow(in)
			}
		}
	})
}

func (s *Slice) needVal(v ssa.Value) {
	if s.need[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function, *ssa.Global:
		return
	}
	s.need[v] = true
	old := s.cause
	s.because("val:" + s.valKey(v))
	defer func() { s.cause = old }()
	s.later(func() { s.expand(v) })
}

func (s *Slice) expand(v ssa.Value) {
	switch v := v.(type) {
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == v {
				idx = i
			}
		}
		for _, in := range s.callers[f] {
			c := in.(ssa.CallInstruction).Common()
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, args...)
			}
			if idx < len(args) {
				s.needVal(args[idx])
			}
		}
	case *ssa.FreeVar:
		f := v.Parent()
		idx := -1
		for i, p := range f.FreeVars {
			if p == v {
				idx = i
			}
		}
		for _, in := range s.closures[f] {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				s.needVal(mc.Bindings[idx])
			}
		}
	case *ssa.Phi:
		for i, ed := range v.Edges {
			s.needVal(ed)
			p := v.Block().Preds[i]
			s.controlOf(p)
			s.markIf(p)
		}
	case *ssa.Call:
		s.needCall(v, -1)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			s.need[v.Tuple] = true
			s.needCall(c, v.Index)
			return
		}
		s.needVal(v.Tuple)
	case *ssa.UnOp:
		s.needVal(v.X)
		switch v.Op {
		case token.MUL:
			for _, l := range s.locsOf(v.X, v.Type(), false) {
				s.needLoc(l)
			}
			if fa, ok := v.X.(*ssa.FieldAddr); ok && s.copied(fa) {
				s.needLoc(fieldLoc(fieldVar(fa.X.Type(), fa.Field)))
			}
		case token.ARROW:
			s.mark(v)
			s.needObj(v.X.Type())
		}
	case *ssa.Lookup:
		s.needVal(v.X)
		s.needVal(v.Index)
		s.needMap(v.X.Type())
	case *ssa.Next:
		s.mark(v)
		s.needVal(v.Iter)
	case *ssa.Range:
		s.needVal(v.X)
		s.needMap(v.X.Type())
	case *ssa.Select:
		s.mark(v)
		s.operands(v)
	case *ssa.Alloc:
	case *ssa.Field:
		s.needVal(v.X)
		s.needLoc(fieldLoc(fieldVar(v.X.Type(), v.Field)))
	default:
		if in, ok := v.(ssa.Instruction); ok {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o != nil && *o != nil {
					s.needVal(*o)
				}
			}
		}
	}
}

func (s *Slice) controlOf(b *ssa.BasicBlock) {
	for _, c := range s.cdep[b] {
		s.markIf(c)
	}
}

// needCall: the result idx (or all) of a call is needed.
func (s *Slice) needCall(c *ssa.Call, idx int) {
	s.need[c] = true
	com := c.Common()
	var ts []*ssa.Function
	g := com.StaticCallee()
	switch {
	case g != nil && g.Blocks != nil:
		ts = []*ssa.Function{g}
	case com.IsInvoke():
		s.needVal(com.Value)
		ts = s.targets(com)
	case g == nil && !isBuiltin(com.Value):
		s.needVal(com.Value)
		ts = s.targets(com)
	}
	for _, t := range ts {
		s.needResult(t, idx)
	}
	if mc, ok := com.Value.(*ssa.MakeClosure); ok {
		s.needVal(mc)
	}
	if len(ts) == 0 || com.IsInvoke() {
		// library: the result depends on the arguments
		if s.prov || isBuiltin(com.Value) || isPure(calleeName(com)) || keepsArgs(calleeName(com)) {
			for _, a := range com.Args {
				s.needVal(a)
				if g == nil || g.Blocks == nil {
					s.needVarargs(a)
				}
			}
		} else if calleeName(com) == "net/http.NewRequestWithContext" {
			s.needVal(com.Args[0])
		}
		if !isBuiltin(com.Value) && !isPure(calleeName(com)) {
			s.mark(c)
		}
	}
}

// keepsArgs: library calls with a model that relates the result to the operands. The results of others are just unknown,
// unless a property asks where values come from.
func keepsArgs(name string) bool {
	for _, p := range []string{"context.With", "(context.Context).", "(*net/http.Request).", "time.", "(*sync.", "(sync.", "(*golang.org/x/sync/",
		"(net/http.Header).", "(*github.com/lestrrat-go/jwx/jwa.SignatureAlgorithm)", "sort."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (s *Slice) needResult(f *ssa.Function, idx int) {
	m := s.result[f]
	if m == nil {
		m = map[int]bool{}
		s.result[f] = m
	}
	if m[idx] {
		return
	}
	m[idx] = true
	s.later(func() {
		if s.opaque(f) {
			s.hidden[f] = append(s.hidden[f], idx)
			return
		}
		s.expandResult(f, idx)
	})
}

func (s *Slice) expandResult(f *ssa.Function, idx int) {
	s.later(func() {
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			s.controlOf(b)
			for i, v := range r.Results {
				if idx < 0 || i == idx {
					s.needVal(v)
				}
			}
		}
	})
}

// controlDeps computes, for every block, the branches that decide whether it runs.
func (s *Slice) controlDeps(f *ssa.Function) {
	n := len(f.Blocks)
	exit := n
	succ := make([][]int, n)
	for _, b := range f.Blocks {
		for _, t := range b.Succs {
			succ[b.Index] = append(succ[b.Index], t.Index)
		}
		if len(b.Succs) == 0 {
			succ[b.Index] = append(succ[b.Index], exit)
		}
	}
	// blocks that cannot reach an exit: pretend they can
	for {
		can := make([]bool, n+1)
		can[exit] = true
		for ch := true; ch; {
			ch = false
			for i := 0; i < n; i++ {
				if can[i] {
					continue
				}
				for _, t := range succ[i] {
					if can[t] {
						can[i] = true
						ch = true
					}
				}
			}
		}
		fixed := true
		for i := n - 1; i >= 0; i-- {
			if !can[i] {
				succ[i] = append(succ[i], exit)
				fixed = false
				break
			}
		}
		if fixed {
			break
		}
	}
	pdom := make([]bitset, n+1)
	for i := range pdom {
		pdom[i] = newBits(n + 1)
		if i == exit {
			pdom[i].set(exit)
		} else {
			for j := 0; j <= n; j++ {
				pdom[i].set(j)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nb := newBits(n + 1)
			for j := 0; j <= n; j++ {
				ok := true
				for _, t := range succ[i] {
					if !pdom[t].has(j) {
						ok = false
						break
					}
				}
				if ok {
					nb.set(j)
				}
			}
			nb.set(i)
			for k := range nb {
				if nb[k] != pdom[i][k] {
					pdom[i] = nb
					ch = true
					break
				}
			}
		}
	}
	for _, a := range f.Blocks {
		if len(a.Succs) < 2 {
			continue
		}
		for _, b := range f.Blocks {
			// b is control dependent on a: b postdominates a successor of a, but not a itself (strictly)
			some := false
			for _, t := range a.Succs {
				if pdom[t.Index].has(b.Index) {
					some = true
				}
			}
			if some && !(pdom[a.Index].has(b.Index) && a != b) {
				s.cdep[b] = append(s.cdep[b], a)
			}
		}
	}
}

// opaque: a large computation without events of its own. Its result is left unknown.
func (s *Slice) opaque(f *ssa.Function) bool {
	return s.limit >= 0 && !s.funcs[f] && s.costOf(f) > s.limit
}

// costOf: the number of blocks of a function with everything it calls
func (s *Slice) costOf(f *ssa.Function) int {
	if c, ok := s.cost[f]; ok {
		return c
	}
	s.cost[f] = 1000 // recursion
	n := len(f.Blocks)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil {
					n += s.costOf(g)
				}
			}
		}
	}
	if n > 1000 {
		n = 1000
	}
	s.cost[f] = n
	return n
}

// isHidden: calls of f are not entered, the result is unknown.
func (s *Slice) isHidden(f *ssa.Function) bool {
	_, h := s.hidden[f]
	return h && !s.funcs[f]
}

// ---- queries ---------------------------------------------------------------

// keep reports whether the instruction is part of the slice.
func (s *Slice) keep(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.RunDefers, *ssa.If:
		return true
	case *ssa.Phi:
		return s.need[in]
	}
	if s.rel[in] {
		return true
	}
	if v, ok := in.(ssa.Value); ok {
		return s.need[v]
	}
	return false
}

func (s *Slice) stats() (fns, ifs, instrs int) {
	fns = len(s.funcs)
	for in := range s.rel {
		if _, ok := in.(*ssa.If); ok {
			ifs++
		}
	}
	return fns, ifs, len(s.rel) + len(s.need)
}

func (s *Slice) valKey(v ssa.Value) string {
	n := ""
	if p := v.Parent(); p != nil {
		n = p.RelString(nil)
	}
	return n + " " + v.Name() + "=" + v.String()
}

// explain prints how a key got into the slice.
func (s *Slice) explain(sub string) {
	n := 0
	var ks []string
	for k := range s.why {
		if strings.Contains(k, sub) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		println("== " + k)
		for i := 0; i < 60; i++ {
			c := s.why[k]
			if c == "" || c == k {
				break
			}
			println("   <- " + c)
			k = c
		}
		if n++; n > 2 {
			return
		}
	}
}
