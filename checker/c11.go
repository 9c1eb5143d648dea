package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkDeadlines
}

// seconds reads a duration that is a configured number of seconds.
func seconds(t *Term) (setting *Term, ok bool) {
	t = unconv(t)
	if t == nil || t.op != OBin || t.str != "*" {
		return nil, false
	}
	for i := 0; i < 2; i++ {
		if k, c := intConst(t.args[i]); c && k == 1000000000 {
			return unconv(t.args[1-i]), true
		}
	}
	return nil, false
}

func unconv(t *Term) *Term {
	for t != nil && t.op == OConv {
		t = t.args[0]
	}
	return t
}

// closureVal: what a value inside a function value is, if it comes from what the function captured.
func closureVal(st *State, f *Term, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v && i < len(f.args) {
				return f.args[i]
			}
		}
	case *ssa.UnOp:
		if a := closureVal(st, f, v.X); a != nil && v.Op.String() == "*" {
			return st.load(a, v.Type())
		}
	case *ssa.FieldAddr:
		if a := closureVal(st, f, v.X); a != nil {
			if fv := fieldVar(v.X.Type(), v.Field); fv != nil {
				return tFieldAddr(a, v.Field, fv.Name())
			}
		}
	case *ssa.ChangeType:
		return closureVal(st, f, v.X)
	}
	return nil
}

// alwaysCalls lists the function values that are called whenever f runs, as terms.
func (e *Engine) alwaysCalls(st *State, f *Term, depth int) []*Term {
	if f == nil || depth > 3 {
		return nil
	}
	if isCall(f, "cancelfn") {
		return []*Term{f}
	}
	if (f.op != OClosure && f.op != OFunc) || f.fn == nil || f.fn.Blocks == nil {
		return nil
	}
	fn := f.fn
	val := func(v ssa.Value) *Term { return closureVal(st, f, v) }
	var exits []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
				exits = append(exits, b)
			}
		}
	}
	var r []*Term
	for _, b := range fn.Blocks {
		always := true
		for _, x := range exits {
			if !b.Dominates(x) {
				always = false
			}
		}
		if !always {
			continue
		}
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().IsInvoke() {
				continue
			}
			if t := val(ci.Common().Value); t != nil {
				r = append(r, e.alwaysCalls(st, t, depth+1)...)
			}
		}
	}
	return r
}

// syncOnly: functions that run while a root waits for them, with the function that leads there. Background tasks and
// timers are left out.
func (P *Program) syncOnly(roots []*ssa.Function, stop ...*ssa.Function) map[*ssa.Function]*ssa.Function {
	refs, _ := P.callRefs()
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	stopped := map[*ssa.Function]bool{}
	for _, f := range stop {
		stopped[f] = true
	}
	for _, f := range roots {
		from[f] = nil
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		away, here := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		fnOf := func(v ssa.Value) *ssa.Function {
			switch v := v.(type) {
			case *ssa.Function:
				return v
			case *ssa.MakeClosure:
				return v.Fn.(*ssa.Function)
			}
			return nil
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var later ssa.Value
				switch x := in.(type) {
				case *ssa.Go:
					later = x.Call.Value
				case *ssa.Call:
					if calleeName(&x.Call) == "time.AfterFunc" && len(x.Call.Args) > 1 {
						later = x.Call.Args[1]
					}
				case *ssa.MakeClosure:
					// counted where it is used
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g := fnOf(*o); g != nil {
						if *o == later {
							away[g] = true
						} else {
							here[g] = true
						}
					}
				}
			}
		}
		for _, g := range refs[f] {
			if away[g] && !here[g] || stopped[g] {
				continue
			}
			if _, ok := from[g]; !ok {
				from[g] = f
				work = append(work, g)
			}
		}
	}
	return from
}

// bodyReader: a reader of an upstream body, not what was read from one
func bodyReader(t *Term) bool {
	if t == nil || t.op == OCall && (t.str == "readall" || t.str == "readallerr") {
		return false
	}
	if b, ok := isFieldOf(t, "Body"); ok && b.contains(func(y *Term) bool { return isResult(y, "do", 0) }) {
		return true
	}
	for _, a := range t.args {
		if bodyReader(a) {
			return true
		}
	}
	return false
}

// blocksForever: calls that wait for something else than the upstream of the request.
func blocksForever(name string) string {
	switch {
	case strings.HasSuffix(name, "/jwk.Fetch"), strings.HasSuffix(name, "/jwk.FetchHTTP"), strings.HasSuffix(name, "/jwk.FetchHTTPWithContext"):
		return "a key set is fetched"
	case strings.HasSuffix(name, "semaphore.Weighted).Acquire"):
		return "a semaphore is waited for"
	case name == "(*sync.WaitGroup).Wait", name == "(*sync.Cond).Wait":
		return "other tasks are waited for"
	case name == "net/http.Get", name == "net/http.Post", name == "net/http.Head", name == "net/http.PostForm", name == "net.Dial", name == "crypto/tls.Dial":
		return "another server is contacted"
	}
	return ""
}

// C11: every wait has both deadlines.
func checkDeadlines(P *Program, r *Report) {
	r.rule = "typestate of timers and contexts on every path: at each blocking receive or select of request handling some case is the end of a context (or of a timer) armed with Upstream.ReadTimeoutSeconds for the current attempt, " +
		"and some case one armed with Downstream.RoundTripTimeoutSeconds; a call that waits for the upstream itself is allowed only with a request context armed with both; " +
		"the request of every attempt has a context armed with the read timeout; nothing that waits for key sets, semaphores or other tasks is called in line with a request"
	roots := P.handlerRoots()
	// what is called in line
	in := P.syncOnly(roots)
	var fns []*ssa.Function
	for f := range in {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := x.(*ssa.Go); ok {
					continue
				}
				r.count("calls in line with requests")
				n := calleeName(ci.Common())
				if w := blocksForever(n); w != "" {
					path := shortName(f.RelString(nil))
					for g := in[f]; g != nil; g = in[g] {
						path = shortName(g.RelString(nil)) + " > " + path
					}
					r.violate(nil, "in line", P.pos(x.Pos()), w+" ("+shortName(n)+") while a request waits: "+path)
				}
			}
		}
	}
	at := &attempts{P: P, skip: setOf("matched", "errnil", "errset", "readok", "readerr", "stmid", "stok", "st4xx", "stlow", "stbad", "steq")}
	crit := func(in ssa.Instruction, name string) critMode {
		if name == "(*time.Timer).Stop" || name == "(*time.Timer).Reset" || name == "time.NewTimer" || name == "time.After" {
			return critArgs
		}
		if ci, ok := in.(ssa.CallInstruction); ok && isDoSig(name, ci.Common().Signature()) {
			return critArgs
		}
		switch name {
		case "io/ioutil.ReadAll", "io.ReadAll", "io.ReadFull":
			return critArg0
		case "io.Copy", "io.CopyN", "io.CopyBuffer", "(*bytes.Buffer).ReadFrom":
			return critArgs
		}
		if name == "net/http.NewRequest" || name == "net/http.NewRequestWithContext" {
			return critArg0
		}
		return critNone
	}
	runHandlers(P, r, handlerCfg{depth: 2, crit: crit}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		kind := func(dur *Term) string {
			s, ok := seconds(dur)
			switch {
			case !ok:
				return ""
			case cfgField(s, "Upstream", "ReadTimeoutSeconds"):
				return "up"
			case cfgField(s, "Downstream", "RoundTripTimeoutSeconds"):
				return "dwn"
			}
			return ""
		}
		arm := func(st *State, k string, x *Term) {
			for _, y := range st.oget("arm" + k) {
				if x == y {
					return
				}
			}
			l := append(append([]*Term(nil), st.oget("arm"+k)...), x)
			if len(l) > 6 {
				l = l[1:]
			}
			st.oset("arm"+k, l...)
		}
		armed := func(st *State, k string, x *Term) bool {
			for _, y := range st.oget("arm" + k) {
				if x == y {
					return true
				}
			}
			return false
		}
		old := func(st *State, ctx *Term) bool {
			for _, k := range st.oget("oldctx") {
				for c := k; isCall(c, "ctx"); c = c.args[0] {
					if c == ctx {
						return true
					}
				}
			}
			return false
		}
		// covered: which deadlines end the context
		covered := func(st *State, ctx *Term) (up, dwn bool) {
			for c := ctx; isCall(c, "ctx"); c = c.args[0] {
				ks := []string{}
				if len(c.args) > 2 {
					ks = append(ks, kind(c.args[2]))
				}
				if armed(st, "up", c) {
					ks = append(ks, "up")
				}
				if armed(st, "dwn", c) {
					ks = append(ks, "dwn")
				}
				for _, k := range ks {
					switch {
					case k == "up" && !old(st, c):
						up = true
					case k == "dwn":
						dwn = true
					}
				}
			}
			return
		}
		inGo := func(st *State) bool {
			for _, f := range st.frames {
				if f.kind == fkGo {
					return true
				}
			}
			return false
		}
		current := func(st *State, ctx *Term) bool {
			k := st.oget("ctx")
			if len(k) != 1 {
				return false
			}
			for c := k[0]; isCall(c, "ctx"); c = c.args[0] {
				if c == ctx {
					return true
				}
			}
			return false
		}
		reqOf := func(t *Term) (ctx *Term) {
			t.contains(func(x *Term) bool {
				if isCall(x, "httpreq") && ctx == nil {
					ctx = x.args[0]
				}
				return ctx != nil
			})
			return
		}
		direct := func(st *State, pos, what string, t *Term) {
			if inGo(st) {
				return
			}
			r.count("direct waits checked")
			ctx := reqOf(t)
			up, dwn := false, false
			if ctx != nil {
				up, dwn = covered(st, ctx)
			}
			if !up || !dwn {
				r.violate(st, "direct wait", pos, what+" in line with the request, and not both timeouts end it")
			}
		}
		o.Call = func(c *CallEv) {
			st := c.st
			switch {
			case c.name == "(*time.Timer).Stop" || c.name == "(*time.Timer).Reset":
				tm := c.arg(0)
				if !isCall(tm, "timer") || len(tm.args) < 3 {
					return
				}
				for _, f := range c.e.alwaysCalls(st, tm.args[2], 0) {
					for _, k := range []string{"armup", "armdwn"} {
						var keep []*Term
						for _, y := range st.oget(k) {
							if y != f.args[0] {
								keep = append(keep, y)
							}
						}
						if len(keep) == 0 {
							st.odel(k)
						} else {
							st.oset(k, keep...)
						}
					}
				}
			case c.isDo():
				r.site("upstream call sites", c.pos())
				r.count("upstream calls checked")
				var ctx *Term
				for _, a := range c.args {
					if a = unwrap(a); isCall(a, "httpreq") {
						ctx = a.args[0]
					}
				}
				if ctx == nil {
					r.violate(st, "cancel", c.pos(), "an upstream request is sent whose context is not known")
					return
				}
				if up, _ := covered(st, ctx); !up {
					r.violate(st, "cancel", c.pos(), "an upstream request is sent that the read timeout of the attempt does not cancel")
				}
				for _, a := range c.args {
					if a = unwrap(a); isCall(a, "httpreq") {
						direct(st, c.pos(), "the upstream is called", a)
					}
				}
			case len(c.args) > 0 && c.sig != nil && c.sig.Results().Len() > 0 && c.meth != "Close" && !strings.HasPrefix(c.meth, "New"):
				for _, a := range c.args {
					if a != nil && bodyReader(unwrap(a)) {
						direct(st, c.pos(), "the upstream body is read", unwrap(a))
						break
					}
				}
			}
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if c.name == "time.AfterFunc" {
				k := kind(c.arg(0))
				if k == "" {
					return
				}
				r.site("timers", c.pos())
				for _, f := range c.e.alwaysCalls(st, c.arg(1), 0) {
					arm(st, k, f.args[0])
				}
			}
		}
		o.Select = func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
			if !blocking || inGo(st) {
				return
			}
			r.count("waits checked")
			r.site("waits", P.pos(in.Pos()))
			up, dwn := false, false
			for _, ch := range chans {
				switch {
				case isCall(ch, "done"):
					u, d := covered(st, ch.args[0])
					// the read timeout has to be the one of this attempt
					for c := ch.args[0]; isCall(c, "ctx"); c = c.args[0] {
						if current(st, c) {
							up = up || u
						}
					}
					dwn = dwn || d
				case isCall(ch, "after"):
					k := kind(ch.args[1])
					up, dwn = up || k == "up", dwn || k == "dwn"
				default:
					if b, ok := isFieldOf(ch, "C"); ok && isCall(b, "timer") {
						k := kind(b.args[1])
						up, dwn = up || k == "up", dwn || k == "dwn"
					}
				}
			}
			if !up {
				r.violate(st, "read timeout", P.pos(in.Pos()), "request handling waits here and does not wake up on the armed read timeout of the current attempt (in "+shortName(in.Parent().RelString(nil))+")")
			}
			if !dwn {
				r.violate(st, "roundtrip", P.pos(in.Pos()), "request handling waits here and does not wake up on the armed roundtrip timeout (in "+shortName(in.Parent().RelString(nil))+")")
			}
		}
		at.install(o)
		return o
	})
	r.atLeast("upstream call sites", 1)
	r.atLeast("waits checked", 2)
	r.atLeast("calls in line with requests", 20)
}

var _ = types.Typ
