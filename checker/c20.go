package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkLate }

// ---- what a task touches besides its own memory ---------------------------------

// taskVal is where a value of a task may come from.
type taskVal struct {
	t     *Term  // known when the task was begun
	float string // read from memory that others change, while it runs
}

type taskWrite struct {
	addr *Term
	at   taskPos
	pos  string
	what string
}

type taskPos struct {
	in  ssa.Instruction // in the function of the task itself
	end bool            // deferred
}

type taskSignal struct {
	ch    *Term
	at    taskPos
	pos   string
	close bool
}

type taskScan struct {
	P       *Program
	st      *State
	fn      *ssa.Function
	writes  []taskWrite
	signals []taskSignal
	bad     func(pos, msg string)
	depth   int
	at      taskPos
	inner   bool // in a task of the task
}

type taskEnv struct {
	fn   *ssa.Function
	args [][]taskVal
	free [][]taskVal
}

// scanTask looks at everything a task may do on its own.
func scanTask(P *Program, st *State, fn *Term, args []*Term, bad func(pos, msg string)) *taskScan {
	s := &taskScan{P: P, st: st, fn: fn.fn, bad: bad}
	env := &taskEnv{fn: fn.fn}
	for _, a := range args {
		env.args = append(env.args, []taskVal{{t: a}})
	}
	for _, b := range fn.args {
		env.free = append(env.free, []taskVal{{t: b}})
	}
	s.scan(env)
	return s
}

func (s *taskScan) scan(env *taskEnv) {
	if s.depth > 4 || env.fn.Blocks == nil {
		return
	}
	s.depth++
	top := s.depth == 1
	for _, b := range env.fn.Blocks {
		for _, in := range b.Instrs {
			if top {
				_, d := in.(*ssa.Defer)
				s.at = taskPos{in, d}
			}
			s.instr(env, in)
		}
	}
	s.depth--
}

func (s *taskScan) write(env *taskEnv, v ssa.Value, in ssa.Instruction, what string) {
	for _, g := range s.val(env, v, 0) {
		switch {
		case g.float != "":
			s.bad(s.P.pos(instrPos(in)), "the background call of an attempt "+what+" that it only finds when it gets there ("+g.float+"), which may be that of a later attempt"+inFn(in))
		case g.t != nil:
			at := s.at
			if s.inner {
				at.in = nil
			}
			s.writes = append(s.writes, taskWrite{g.t, at, s.P.pos(instrPos(in)), what})
		}
	}
}

func (s *taskScan) signal(env *taskEnv, v ssa.Value, in ssa.Instruction, closes bool) {
	for _, g := range s.val(env, v, 0) {
		switch {
		case g.float != "":
			s.bad(s.P.pos(instrPos(in)), "the background call of an attempt signals on a channel that it only finds when it gets there ("+g.float+"), which may be that of a later attempt"+inFn(in))
		case g.t != nil:
			s.signals = append(s.signals, taskSignal{g.t, s.at, s.P.pos(instrPos(in)), closes})
		}
	}
}

func (s *taskScan) instr(env *taskEnv, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		s.write(env, in.Addr, in, "writes into memory")
	case *ssa.MapUpdate:
		s.write(env, in.Map, in, "changes a map")
	case *ssa.Send:
		s.signal(env, in.Chan, in, false)
	case ssa.CallInstruction:
		s.call(env, in)
	}
}

func (s *taskScan) call(env *taskEnv, in ssa.CallInstruction) {
	c := in.Common()
	name := calleeName(c)
	if _, ok := in.(*ssa.Go); ok {
		defer func(x bool) { s.inner = x }(s.inner)
		s.inner = true
	}
	var g *ssa.Function
	var free []ssa.Value
	if g = c.StaticCallee(); g == nil {
		if m, ok := c.Value.(*ssa.MakeClosure); ok {
			g = m.Fn.(*ssa.Function)
		}
	}
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		free = m.Bindings
	}
	switch {
	case name == "builtin close":
		s.signal(env, c.Args[0], in, true)
	case name == "builtin copy" || name == "builtin append":
		if name == "builtin copy" {
			s.write(env, c.Args[0], in, "copies into memory")
		}
	case g != nil && s.P.ownFn(g):
		e := &taskEnv{fn: g}
		for _, a := range c.Args {
			e.args = append(e.args, s.val(env, a, 0))
		}
		for _, b := range free {
			e.free = append(e.free, s.val(env, b, 0))
		}
		s.scan(e)
	case strings.HasPrefix(name, "(*sync.WaitGroup).Done"):
		s.signal(env, c.Args[0], in, false)
	case strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic."):
	case c.IsInvoke():
		t := c.Value.Type()
		if isNamed(t, "net/http.ResponseWriter") {
			for _, g := range s.val(env, c.Value, 0) {
				if g.float != "" || g.t != nil {
					s.bad(s.P.pos(instrPos(in)), "the background call of an attempt uses the writer of the client response"+inFn(in))
				}
			}
		}
	case strings.HasPrefix(name, "(net/http.Header)."):
		if m := name[strings.LastIndex(name, ".")+1:]; m == "Set" || m == "Add" || m == "Del" {
			s.write(env, c.Args[0], in, "changes headers")
		}
	default:
		// libraries may write where they are pointed to
		for _, a := range c.Args {
			switch x := a.(type) {
			case *ssa.FreeVar, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				if p, ok := x.Type().Underlying().(*types.Pointer); ok && structOf(p.Elem()) == nil || isNamed(deref(x.Type()), "bytes.Buffer") || isNamed(deref(x.Type()), "strings.Builder") {
					s.write(env, a, in, "lets a library write into memory")
				}
			case *ssa.MakeInterface:
				switch x.X.(type) {
				case *ssa.FreeVar, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
					if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						s.write(env, x.X, in, "lets a library write into memory")
					}
				}
			}
		}
	}
}

// val: where may it come from? Nothing: from the task itself.
func (s *taskScan) val(env *taskEnv, v ssa.Value, d int) []taskVal {
	if d > 30 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.FreeVar:
		for i, f := range env.fn.FreeVars {
			if f == v && i < len(env.free) {
				return env.free[i]
			}
		}
	case *ssa.Parameter:
		for i, f := range env.fn.Params {
			if f == v && i < len(env.args) {
				return env.args[i]
			}
		}
	case *ssa.Global:
		return []taskVal{{t: tGlobal(v)}}
	case *ssa.FieldAddr:
		var r []taskVal
		for _, g := range s.val(env, v.X, d+1) {
			if g.t != nil {
				name := ""
				if f := fieldVar(v.X.Type(), v.Field); f != nil {
					name = f.Name()
				}
				g.t = tFieldAddr(g.t, v.Field, name)
			}
			r = append(r, g)
		}
		return r
	case *ssa.IndexAddr:
		return s.val(env, v.X, d+1)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		var r []taskVal
		for _, g := range s.val(env, v.X, d+1) {
			switch {
			case g.float != "":
				r = append(r, g)
			case g.t != nil:
				if ok, own := s.fixed(env, v); ok {
					r = append(r, taskVal{t: s.st.norm(s.st.load(g.t, v.Type()))})
				} else if !own {
					r = append(r, taskVal{float: g.t.String()})
				}
			}
		}
		return r
	case *ssa.Phi:
		var r []taskVal
		for _, e := range v.Edges {
			r = append(r, s.val(env, e, d+1)...)
		}
		return r
	case *ssa.ChangeType:
		return s.val(env, v.X, d+1)
	case *ssa.Convert:
		return s.val(env, v.X, d+1)
	case *ssa.MakeInterface:
		return s.val(env, v.X, d+1)
	case *ssa.ChangeInterface:
		return s.val(env, v.X, d+1)
	case *ssa.TypeAssert:
		return s.val(env, v.X, d+1)
	case *ssa.Slice:
		return s.val(env, v.X, d+1)
	case *ssa.Field:
		return s.val(env, v.X, d+1)
	}
	return nil
}

// fixed: does the load always see what was there when the task began (or what the task put there)?
func (s *taskScan) fixed(env *taskEnv, v *ssa.UnOp) (fixed, own bool) {
	fv, ok := v.X.(*ssa.FreeVar)
	if !ok {
		if g, ok := v.X.(*ssa.Global); ok {
			return !s.P.writtenGlobals()[g.RelString(nil)], false
		}
		return false, false
	}
	// the variable and everything that captures it
	root := captured(fv)
	if root == nil {
		return false, false
	}
	inside, outside := 0, 0
	for _, w := range capturedStores(root) {
		in := false
		for f := w.Parent(); f != nil; f = f.Parent() {
			if f == s.fn {
				in = true
			}
		}
		if in {
			inside++
		} else {
			outside++
		}
	}
	return inside == 0 && outside <= 1, inside > 0
}

// captured: the variable behind a captured one
func captured(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	for i, f := range fn.FreeVars {
		if f != fv || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
					switch x := m.Bindings[i].(type) {
					case *ssa.Alloc:
						return x
					case *ssa.FreeVar:
						return captured(x)
					}
				}
			}
		}
	}
	return nil
}

// capturedStores: all assignments to a variable, wherever it is captured
func capturedStores(a ssa.Value) []*ssa.Store {
	var r []*ssa.Store
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == a {
				r = append(r, u)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == a {
					r = append(r, capturedStores(u.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return r
}

// covers: has the write always happened when the signal comes?
func (s *taskScan) covers(g taskSignal, w taskWrite) bool {
	if w.at.in == nil || g.at.in == nil {
		return false
	}
	if g.at.in == w.at.in {
		return true // in a function that does both: see the order there
	}
	switch {
	case g.at.end && !w.at.end:
		return true
	case g.at.end && w.at.end:
		// the last one deferred is the first to run
		return !before(w.at.in, g.at.in)
	case w.at.end:
		return false
	}
	return !before(g.at.in, w.at.in)
}

// before: can the second one come after the first one?
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// ---- the check ------------------------------------------------------------------

// exchangeTask: is it about upstream attempts?
func exchangeTask(P *Program, fn *ssa.Function) bool {
	for f := range P.reachable(fn) {
		if !P.ownFn(f) {
			continue
		}
		about := func(t types.Type) bool {
			t = deref(deref(t))
			return isNamed(t, "net/http.Response") || isNamed(t, "net/http.Request") || isNamedLocal(P, t, "Proxy") || isNamedLocal(P, t, "Atmpt")
		}
		for _, v := range f.FreeVars {
			if about(v.Type()) {
				return true
			}
			if c, ok := deref(v.Type()).Underlying().(*types.Chan); ok && c != nil {
				return true
			}
		}
		for _, v := range f.Params {
			if about(v.Type()) {
				return true
			}
		}
	}
	return false
}

func checkLate(P *Program, r *Report) {
	r.rule = "at every start of a background task for an upstream attempt (and of its timers): everything that the task writes into, and every channel on which it signals, is fixed when it is begun; on every path of request handling, memory the task writes is not read before a signal was received " +
		"that only this task gives, after all of its writes; no two attempts share such a channel; the task does not touch the client response"
	// the kinds of values such tasks leave behind
	kinds := map[string]bool{}
	tasks := map[*ssa.Function]bool{}
	note := func(v ssa.Value) {
		if m, ok := v.(*ssa.MakeClosure); ok {
			v = m.Fn
		}
		if f, ok := v.(*ssa.Function); ok && P.ownFn(f) && exchangeTask(P, f) {
			tasks[f] = true
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					note(g.Call.Value)
				}
				if ci, ok := in.(ssa.CallInstruction); ok && instrName(in) == "time.AfterFunc" {
					note(ci.Common().Args[1])
				}
			}
		}
	}
	for f := range tasks {
		for g := range P.reachable(f) {
			if !P.ownFn(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						kinds[tkey(s.Val.Type())] = true
					}
				}
			}
		}
	}
	crit := func(in ssa.Instruction, name string) critMode {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL && kinds[tkey(in.Type())] {
				return critArgs
			}
			if in.Op == token.ARROW {
				return critArgs
			}
		case *ssa.Select:
			return critArgs
		case *ssa.Go:
			return critDeep
		}
		if name == "(*sync.WaitGroup).Wait" {
			return critArgs
		}
		return critNone
	}
	runHandlers(P, r, handlerCfg{depth: 2, crit: crit}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		inTask := func(st *State) bool {
			for _, f := range st.frames {
				if f.kind == fkGo {
					return true
				}
			}
			return false
		}
		o.Go = func(st *State, f *Term, args []*Term, in ssa.Instruction) {
			if f.fn == nil || !tasks[f.fn] {
				return
			}
			r.site("tasks", P.pos(instrPos(in)))
			bad := func(pos, msg string) { r.violate(st, "late", pos, msg) }
			s := scanTask(P, st, f, args, bad)
			for _, g := range s.signals {
				for _, old := range st.oget("signals") {
					if old == g.ch {
						r.violate(st, "shared", g.pos, "two tasks signal on the same channel, so that the end of one is taken for that of the other")
					}
				}
			}
			racy := append([]*Term(nil), st.oget("racy")...)
			for _, w := range s.writes {
				r.site("writes of tasks", w.pos)
				e := []*Term{w.addr}
				for _, g := range s.signals {
					if s.covers(g, w) {
						e = append(e, g.ch)
					}
				}
				racy = append(racy, tTuple(e...))
			}
			if len(racy) > 0 {
				st.oset("racy", racy...)
			}
			sig := append([]*Term(nil), st.oget("signals")...)
			for _, g := range s.signals {
				r.site("signals", g.pos)
				if !contains(sig, g.ch) {
					sig = append(sig, g.ch)
				}
			}
			if len(sig) > 0 {
				st.oset("signals", sig...)
			}
		}
		joined := func(st *State, ch *Term) {
			r.count("signals received")
			var keep []*Term
			for _, e := range st.oget("racy") {
				if !contains(e.args[1:], ch) {
					keep = append(keep, e)
				}
			}
			st.odel("racy")
			if len(keep) > 0 {
				st.oset("racy", keep...)
			}
		}
		o.Select = func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
			if idx >= 0 {
				joined(st, chans[idx])
			}
		}
		within := func(a, b *Term) bool {
			for ; a != nil; a = a.args[0] {
				if a == b {
					return true
				}
				if a.op != OFieldAddr && a.op != OIndexAddr {
					return false
				}
			}
			return false
		}
		read := func(st *State, p *Term, pos, where string) {
			if p == nil || inTask(st) {
				return
			}
			r.count("reads checked")
			for _, e := range st.oget("racy") {
				if within(p, e.args[0]) || within(e.args[0], p) {
					r.violate(st, "early", pos, "memory is read that the background call of an attempt may still write, as its end was not waited for"+where)
				}
			}
		}
		o.Load = func(st *State, p, v *Term, in ssa.Instruction) { read(st, p, P.pos(instrPos(in)), inFn(in)) }
		o.Call = func(c *CallEv) {
			switch {
			case c.name == "(*sync.WaitGroup).Wait":
				joined(c.st, c.arg(0))
			case c.name == "close":
				if !inTask(c.st) && contains(c.st.oget("signals"), c.arg(0)) {
					r.violate(c.st, "shared", c.pos(), "the channel on which a background call signals its end is closed by others"+inFn(c.in))
				}
			default:
				for _, a := range c.args {
					if a.op == OFieldAddr || a.op == OIndexAddr || a.op == OAlloc {
						read(c.st, a, c.pos(), inFn(c.in))
					}
				}
			}
		}
		return o
	})
	r.atLeast("tasks", 1)
	r.atLeast("signals", 1)
	r.atLeast("signals received", 1)
	r.atLeast("reads checked", 1)
}
