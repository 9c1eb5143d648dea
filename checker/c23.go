package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = checkPools }

const (
	poolGet = "(*sync.Pool).Get"
	poolPut = "(*sync.Pool).Put"
)

// pooledArgs: does the function take or return what comes out of pools?
func pooledSig(fn *ssa.Function) bool {
	coder := func(tu *types.Tuple) bool {
		for i := 0; i < tu.Len(); i++ {
			t := tu.At(i).Type()
			if isNamed(deref(t), "compress/gzip.Writer") || isNamed(deref(t), "compress/gzip.Reader") || isNamed(deref(t), "bytes.Buffer") || isNamed(deref(t), "sync.Pool") {
				return true
			}
		}
		return false
	}
	return coder(fn.Signature.Params()) || coder(fn.Signature.Results()) || len(fn.FreeVars) > 0 || fn.Parent() != nil
}

// poolUsers: the functions that use pooled things on their own, without passing them on.
func (P *Program) poolUsers() []*ssa.Function {
	user := map[*ssa.Function]bool{}
	var own func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	own = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if fn == nil || seen[fn] || !P.ownFn(fn) {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if instrName(in) == poolGet {
					return true
				}
				var next []*ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					next = append(next, c.Common().StaticCallee())
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					next = append(next, m.Fn.(*ssa.Function))
				}
				for _, f := range next {
					if f != nil && pooledSig(f) && own(f, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range P.funcs {
		if f.Blocks != nil && !pooledSig(f) && own(f, map[*ssa.Function]bool{}) {
			user[f] = true
		}
	}
	var r []*ssa.Function
	for _, f := range P.funcs {
		if user[f] {
			r = append(r, f)
		}
	}
	return r
}

func checkPools(P *Program, r *Report) {
	r.rule = "on every path through every function that takes something out of a pool: a gzip coder is reset onto a buffer made on this path before anything else is done with it; it is put back at most once, into the pool it came from, and nothing is done with it afterwards; " +
		"what was compressed is only taken from the buffer after the writer was closed; nothing that came out of a pool is returned, kept in shared memory or handed to another task, and bytes of a pooled buffer are only copied"
	runFuncs(P, r, "users of pools", P.poolUsers(), handlerCfg{full: true, variants: 400}, func(root *ssa.Function) *Observer {
		o := &Observer{}
		bad := func(st *State, rule string, in ssa.Instruction, msg string) {
			r.violate(st, rule, P.pos(instrPos(in)), msg+inFn(in))
		}
		in := func(st *State, k string, t *Term) bool {
			for _, x := range st.oget(k) {
				if x == t {
					return true
				}
			}
			return false
		}
		add := func(st *State, k string, t *Term) {
			if !in(st, k, t) {
				st.oset(k, append(append([]*Term(nil), st.oget(k)...), t)...)
			}
		}
		del := func(st *State, k string, t *Term) {
			var l []*Term
			for _, x := range st.oget(k) {
				if x != t {
					l = append(l, x)
				}
			}
			st.odel(k)
			if len(l) > 0 {
				st.oset(k, l...)
			}
		}
		coder := func(t *Term) *Term {
			t = unwrap(t)
			if isCall(t, "poolget") {
				return t
			}
			return nil
		}
		kind := func(st *State, g *Term) string {
			d := st.fact(g).dyn
			switch {
			case d == nil:
				return ""
			case isNamed(deref(d), "compress/gzip.Writer"):
				return "writer"
			case isNamed(deref(d), "compress/gzip.Reader"):
				return "reader"
			}
			return "other"
		}
		fresh := func(st *State, t *Term) bool {
			t = unwrap(t)
			if g := coder(t); g != nil && kind(st, g) == "other" && in(st, "reset", g) && !in(st, "put", g) {
				return true
			}
			if t.contains(func(x *Term) bool { return isCall(x, "poolget") || x.op == OGlobal }) && !isCall(t, "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader", "bufio.NewReader") {
				return false
			}
			switch {
			case t.op == OAlloc:
				return !st.eng.persist[t] && !st.ohas("shared:"+t.String())
			case isCall(t, "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader"):
				return true
			case isCall(t, "bufio.NewReader", "bufio.NewWriter"):
				return true
			}
			return false
		}
		o.Call = func(c *CallEv) {
			st := c.st
			switch c.name {
			case poolGet:
				r.site("taken from pools", c.pos())
				return
			case poolPut:
				r.site("put into pools", c.pos())
				g := coder(c.arg(1))
				switch {
				case g == nil:
					bad(st, "put", c.in, "what is put into the pool did not come from one: "+unwrap(c.arg(1)).String())
				case in(st, "put", g):
					bad(st, "twice", c.in, "what came out of the pool is put back twice")
				case g.args[0] != c.arg(0):
					bad(st, "put", c.in, "what came out of "+g.args[0].String()+" is put into another pool")
				}
				if g != nil {
					add(st, "put", g)
					if in(st, "viewed", g) {
						bad(st, "bytes", c.in, "a buffer is put into a pool although its bytes are still in use")
					}
				}
				return
			}
			if strings.HasPrefix(c.name, "builtin") || c.in == nil {
				return
			}
			if ci, ok := c.in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && P.ownFn(f) {
					return
				}
			}
			for i := range c.args {
				g := coder(c.arg(i))
				if g == nil {
					continue
				}
				r.count("uses of pooled things")
				if in(st, "put", g) {
					bad(st, "after", c.in, "what came out of the pool is used after it was put back ("+c.name+")")
					continue
				}
				k := kind(st, g)
				reset := strings.HasPrefix(c.name, "(*compress/gzip.") && c.meth == "Reset" || c.meth == "Reset" && i == 0
				switch {
				case reset:
					if k == "writer" || k == "reader" {
						if !fresh(st, c.arg(1)) {
							bad(st, "buffer", c.in, "a pooled coder is reset onto something that is not its own: "+unwrap(c.arg(1)).String())
						}
						add(st, "reset", g)
						del(st, "closed", g)
						if k == "writer" {
							st.oset("dst:"+unwrap(c.arg(1)).String(), g)
						}
					} else {
						add(st, "reset", g)
					}
				case k != "other" && !in(st, "reset", g):
					bad(st, "reset", c.in, "a coder out of the pool is used before it is reset ("+c.name+")")
				case k == "other" && !in(st, "reset", g):
					bad(st, "reset", c.in, "a buffer out of the pool is used before it is emptied ("+c.name+")")
				case c.meth == "Close":
					add(st, "closed", g)
				case c.meth == "Write" || c.meth == "WriteString" || i == 0 && c.name == "io.Copy":
					del(st, "closed", g)
				}
				if k == "other" && (c.meth == "Bytes" || c.meth == "Next") && i == 0 {
					if v, ok := c.in.(ssa.Value); ok && !onlyCopied(v) {
						add(st, "viewed", g)
					}
				}
			}
			if strings.HasPrefix(c.name, "(*bytes.Buffer).") && (c.meth == "Bytes" || c.meth == "String" || c.meth == "WriteTo" || c.meth == "Read" || c.meth == "Next") || c.name == "io.ReadAll" || c.name == "io/ioutil.ReadAll" {
				if g := one(st, "dst:"+unwrap(c.arg(0)).String()); g != nil {
					r.count("outputs of compressors")
					if !in(st, "closed", g) {
						bad(st, "close", c.in, "what was compressed is taken before the compressor was closed")
					}
				}
			}
		}
		shared := func(st *State, t *Term) bool {
			hit := false
			t.contains(func(x *Term) bool { hit = hit || isCall(x, "poolget"); return hit })
			return hit && pooledType(t)
		}
		o.Store = func(st *State, p, v *Term, ins ssa.Instruction) {
			if coder(v) != nil && p.root().op != OAlloc {
				bad(st, "escape", ins, "what came out of the pool is kept in "+p.String())
			}
			if p.root().op != OAlloc && v.op == OAlloc {
				st.otag("shared:" + v.String())
			}
		}
		o.Go = func(st *State, fn *Term, args []*Term, ins ssa.Instruction) {
			for _, a := range append(append([]*Term(nil), fn.args...), args...) {
				if coder(a) != nil {
					bad(st, "escape", ins, "what came out of the pool is handed to another task")
				}
			}
		}
		o.Exit = func(st *State, res []*Term) {
			r.count("ends checked")
			for _, v := range res {
				if coder(v) != nil || shared(st, v) {
					r.violate(st, "escape", P.pos(root.Pos()), "what came out of a pool is returned ("+root.Name()+")")
				}
			}
			for _, g := range st.oget("viewed") {
				if in(st, "put", g) {
					r.violate(st, "bytes", P.pos(root.Pos()), "bytes of a pooled buffer are used on ("+root.Name()+")")
				}
			}
		}
		return o
	})
	// what pools the program has must have been seen at work
	gets, puts := 0, 0
	for _, fn := range P.funcs {
		each(fn, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				switch calleeName(c.Common()) {
				case "(*sync.Pool).Get":
					gets++
				case "(*sync.Pool).Put":
					puts++
				}
			}
		})
	}
	if gets > 0 {
		r.atLeast("taken from pools", gets)
		r.atLeast("uses of pooled things", gets)
	}
	if puts > 0 {
		r.atLeast("put into pools", puts)
	}
	// the pools are used nowhere else
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n := instrName(in); (n == poolGet || n == poolPut) && !explored(r, f) {
					r.violate(nil, "elsewhere", P.pos(instrPos(in)), "a pool is used in a way that is not analysed"+inFn(in))
				}
			}
		}
	}
}

func pooledType(t *Term) bool {
	return t.typ != nil && (isNamed(deref(t.typ), "compress/gzip.Writer") || isNamed(deref(t.typ), "compress/gzip.Reader") || isNamed(deref(t.typ), "bytes.Buffer"))
}

// onlyCopied: are the bytes only copied from?
func onlyCopied(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Convert:
			if b, ok := u.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return false
			}
		case ssa.CallInstruction:
			n := instrName(u)
			cc := u.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					continue
				case "append", "copy":
					if len(cc.Args) > 1 && cc.Args[1] == v && cc.Args[0] != v {
						continue
					}
				}
				return false
			}
			if n != "bytes.Clone" {
				return false
			}
		default:
			return false
		}
	}
	return true
}
