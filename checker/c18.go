package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkAccessLog }

const accessKey = "dwnResCode"

func isLogCall(name string) bool {
	return strings.HasPrefix(name, "(*"+zl+".Event).") || strings.HasPrefix(name, zl+"/log.") || strings.HasPrefix(name, "(*"+zl+".Logger).")
}

// emits: the calls that write a log entry
func emits(meth string) bool {
	switch meth {
	case "Msg", "Msgf", "Send", "MsgFunc":
		return true
	}
	return false
}

// C18: one access log entry per response, with the status that was sent.
func checkAccessLog(P *Program, r *Report) {
	r.rule = "on every path of every request handler exactly one log entry with the field " + accessKey + " is written at a level that is on by default, and that field is the status that is sent"
	rel := P.eventsWith(accessKey)
	runHandlers(P, r, handlerCfg{depth: 2, crit: func(in ssa.Instruction, name string) critMode {
		if name == writeHeader {
			return critArgs
		}
		return rel[in]
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{TrackLog: true}
		same := func(st *State, a, b *Term) bool {
			a, b = st.norm(a), st.norm(b)
			return a == b || st.truth(mkEq(a, b)) == 1
		}
		o.Call = func(c *CallEv) {
			st := c.st
			where := " (in " + shortName(c.in.Parent().RelString(nil)) + ")"
			if strings.HasPrefix(c.name, "(*"+zl+".Event).") && emits(c.meth) {
				ev := c.arg(0)
				e := st.oget("entry")
				if len(e) != 2 || e[0] != ev {
					return
				}
				v := e[1]
				st.odel("entry")
				r.count("log entries checked")
				r.site("access log sites", c.pos())
				if lv := strings.TrimPrefix(ev.str, "zevent:"); ev.op == OCall && (lv == "trace" || lv == "debug") {
					r.violate(st, "level", c.pos(), "the access log entry is written at level "+lv+", which is off by default"+where)
				}
				if st.ohas("logged") {
					r.violate(st, "second entry", c.pos(), "a second access log entry is written for the same response"+where)
				}
				if s := st.oget("status"); len(s) == 1 {
					if !same(st, s[0], v) {
						r.violate(st, "status", c.pos(), "the access log says "+v.String()+" but the status sent is "+s[0].String()+where)
					}
				} else if st.ohas("sent") {
					r.violate(st, "status", c.pos(), "the status that was sent is not known here"+where)
				}
				st.oset("logged", v)
				return
			}
			if strings.HasPrefix(c.name, "(*"+zl+".Event).") && len(c.args) > 2 {
				if k, ok := strConst(st.norm(c.arg(1))); ok && k == accessKey {
					st.oset("entry", c.arg(0), st.norm(c.arg(2)))
				}
				return
			}
			e, ok := respEvent(c)
			if !ok || e.header || st.ohas("sent") {
				return
			}
			s := tInt(200)
			if e.commit {
				s = e.status
			}
			st.otag("sent")
			r.site("status line sites", c.pos())
			if s == nil {
				return
			}
			st.oset("status", s)
			if l := st.oget("logged"); len(l) == 1 && !same(st, l[0], s) {
				r.violate(st, "status", c.pos(), "the access log said "+l[0].String()+" but the status sent is "+s.String()+where)
			}
		}
		o.Exit = func(st *State, res []*Term) {
			r.count("handler returns checked")
			if st.ohas("sent") && !st.ohas("logged") {
				r.violate(st, "no entry", P.pos(fn.Pos()), "the handler "+shortName(fn.RelString(nil))+" can return without an access log entry for its response")
			}
			if !st.ohas("sent") && st.ohas("logged") {
				r.violate(st, "no response", P.pos(fn.Pos()), "the handler "+shortName(fn.RelString(nil))+" logs a response that was not sent")
			}
		}
		return o
	})
	r.atLeast("access log sites", 1)
	r.atLeast("status line sites", 2)
}

// eventsWith: the calls on log events that may carry the field.
func (P *Program) eventsWith(key string) map[ssa.Instruction]critMode {
	rel := map[ssa.Instruction]critMode{}
	isEvent := func(v ssa.Value) bool { return tkey(v.Type()) == "*"+zl+".Event" }
	onEvent := func(in ssa.Instruction) *ssa.CallCommon {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !strings.HasPrefix(instrName(in), "(*"+zl+".Event).") || len(ci.Common().Args) == 0 {
			return nil
		}
		return ci.Common()
	}
	isKey := func(in ssa.Instruction) bool {
		c := onEvent(in)
		if c == nil || len(c.Args) != 3 {
			return false
		}
		k, ok := c.Args[1].(*ssa.Const)
		return !ok || k.Value != nil && k.Value.ExactString() == `"`+key+`"`
	}
	has := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isKey(in) {
					has[f] = true
				}
			}
		}
	}
	touches := func(f *ssa.Function) bool {
		for g := range P.reachable(f) {
			if has[g] {
				return true
			}
		}
		return false
	}
	for _, f := range P.funcs {
		group := map[ssa.Value]ssa.Value{}
		var find func(v ssa.Value) ssa.Value
		find = func(v ssa.Value) ssa.Value {
			if p, ok := group[v]; ok && p != v {
				return find(p)
			}
			return v
		}
		union := func(a, b ssa.Value) { group[find(a)] = find(b) }
		marked := map[ssa.Value]bool{}
		var mark []ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && isEvent(v) {
					switch x := in.(type) {
					case *ssa.Phi:
						for _, e := range x.Edges {
							union(v, e)
						}
					case ssa.CallInstruction:
						c := x.Common()
						if onEvent(in) != nil {
							union(v, c.Args[0])
						} else if g := c.StaticCallee(); g != nil && g.Blocks != nil {
							if touches(g) {
								mark = append(mark, v)
							}
						} else if !isLogCall(instrName(in)) {
							mark = append(mark, v)
						}
					default:
						mark = append(mark, v)
					}
				}
				if isKey(in) {
					mark = append(mark, in.(ssa.CallInstruction).Common().Args[0])
				} else if ci, ok := in.(ssa.CallInstruction); ok && onEvent(in) == nil {
					for _, a := range ci.Common().Args {
						if g := ci.Common().StaticCallee(); isEvent(a) && (g == nil || touches(g)) {
							mark = append(mark, a)
						}
					}
				}
			}
		}
		for _, p := range f.Params {
			if isEvent(p) && has[f] {
				mark = append(mark, p)
			}
		}
		for _, v := range mark {
			marked[find(v)] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c := onEvent(in); c != nil && marked[find(c.Args[0])] {
					if isKey(in) {
						rel[in] = critArgs
					} else {
						rel[in] = critRecv
					}
				} else if v, ok := in.(ssa.Value); ok && isEvent(v) && marked[find(v)] && isLogCall(instrName(in)) {
					rel[in] = critExec
				}
			}
		}
	}
	return rel
}
