package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C32"] = checkFallible }

// outcomeOf is what tells whether the operation that a value comes from has failed.
type outcomeOf struct {
	fail *Term // its error: nil when it did not fail
	ok   *Term // its flag
	name string
}

// nilable: operations whose result says by itself that they failed
var nilable = map[string]bool{
	"encoding/pem.Decode": true, "net.ParseIP": true, "net.ParseMAC": true, "flag.Lookup": true, "(*net.IPNet).IP": true,
	"(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).FindSubmatch": true, "(*regexp.Regexp).FindStringIndex": true, "(*regexp.Regexp).FindIndex": true,
	"(*regexp.Regexp).FindStringSubmatchIndex": true, "(*regexp.Regexp).FindAllString": true, "(*regexp.Regexp).FindAllStringSubmatch": true,
	"net/http.(*Request).MultipartReader": true, "(*html/template.Template).Lookup": true,
}

// repeats: can the function come to be called again while it runs?
func repeats(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var into func(g *ssa.Function) bool
	into = func(g *ssa.Function) (again bool) {
		if seen[g] {
			return false
		}
		seen[g] = true
		each(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h == f || h != nil && h.Blocks != nil && into(h) {
					again = true
				}
			}
		})
		return again
	}
	return into(f)
}

func pointery(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Slice:
		return true
	}
	return false
}

type fallibles struct {
	P  *Program
	r  *Report
	by map[*Term]outcomeOf
}

func component(res *Term, i int) *Term {
	if res.op == OTuple {
		if i < len(res.args) {
			return res.args[i]
		}
		return nil
	}
	return tExt(res, i)
}

func (f *fallibles) note(c *CallEv, st *State, res *Term) {
	if c.sig == nil || res == nil {
		return
	}
	n := c.sig.Results().Len()
	if n == 1 && nilable[c.name] {
		f.by[st.norm(res)] = outcomeOf{name: c.name}
		f.r.site("operations that can fail", c.pos())
		return
	}
	if n == 1 {
		if _, ok := c.sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
			switch c.name {
			case "strings.Split", "strings.SplitAfter", "bytes.Split":
				st.assume(tBin(token.LSS, tInt(0), tLen(res)), true)
			}
		}
		return
	}
	if n < 2 {
		return
	}
	last := c.sig.Results().At(n - 1).Type()
	var o outcomeOf
	switch {
	case isErrorType(last):
		o.fail = component(res, n-1)
	case isBoolType(last):
		o.ok = component(res, n-1)
	default:
		return
	}
	o.name = c.name
	for i := 0; i < n-1; i++ {
		x := component(res, i)
		if x != nil && x.op == ONil && pointery(c.sig.Results().At(i).Type()) {
			// this way it failed
			st.otag("failed")
			continue
		}
		if x != nil && pointery(c.sig.Results().At(i).Type()) && x.op != OAlloc {
			f.r.site("operations that can fail", c.pos())
			f.by[st.norm(x)] = o
			f.by[x] = o
		}
	}
}

// ruledOut: is it known that the operation has not failed?
func (f *fallibles) ruledOut(st *State, v *Term) (bool, string) {
	v = st.norm(v)
	if st.isNil(v) == 2 {
		return true, ""
	}
	o, ok := f.by[v]
	if !ok {
		return true, ""
	}
	if o.fail != nil && st.isNil(st.norm(o.fail)) == 1 {
		return true, ""
	}
	if o.ok != nil && st.truth(st.norm(o.ok)) == 1 {
		return true, ""
	}
	return false, o.name
}

// open: is there anything whose failure has not been ruled out?
func (f *fallibles) open(st *State, fn *ssa.Function, args []*Term) bool {
	if st.ohas("failed") {
		return true
	}
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && i < len(args) && st.isNil(args[i]) == 1 {
			return true
		}
	}
	bad := false
	look := func(t *Term) {
		t.contains(func(x *Term) bool {
			if _, ok := f.by[x]; ok && !bad && st.isNil(x) == 0 {
				if ok, _ := f.ruledOut(st, x); !ok {
					bad = true
				}
			}
			return bad
		})
	}
	for _, a := range args {
		look(a)
	}
	for _, o := range st.heap {
		for _, c := range o.cells {
			if bad {
				return true
			}
			look(c.v)
		}
	}
	return bad
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// maybeNil: fields of libraries that are nil for ordinary inputs
func maybeNil(t *Term) string {
	for _, f := range []struct{ typ, field string }{
		{"net/http.Request", "TLS"}, {"net/http.Response", "TLS"}, {"net/url.URL", "User"}, {"net/http.Request", "MultipartForm"}, {"crypto/x509.Certificate", "PublicKey"},
	} {
		if b, ok := isFieldOf(t, f.field); ok && b.typ != nil && isNamed(deref(b.typ), f.typ) {
			return "the field " + f.field + " of a " + f.typ
		}
	}
	return ""
}

// external: what comes from outside of the code, with any length
func external(t *Term) bool {
	for d := 0; d < 40; d++ {
		switch t.op {
		case OConv, OSliceOf, OExt, OTA:
			t = t.args[0]
			continue
		case OCall:
			switch {
			case isCall(t, "hdrget"):
				return true
			case strings.HasPrefix(t.str, "strings.") || strings.HasPrefix(t.str, "bytes.") || strings.HasPrefix(t.str, "(*regexp.Regexp).") || strings.HasPrefix(t.str, "path"):
				return true
			case strings.HasPrefix(t.str, "net") || strings.HasPrefix(t.str, "os.") || strings.HasPrefix(t.str, "(*net/"):
				return true
			}
			return false
		case OLoad, OField:
			return loadsFromLib(t)
		}
		return false
	}
	return false
}

// decodedAny: an element of a map whose values can be anything, such as decoding makes
func decodedAny(t *Term) bool {
	if t.op == OExt {
		t = t.args[0]
	}
	if t.op != OLookup {
		return false
	}
	if t.typ != nil {
		if i, ok := t.typ.Underlying().(*types.Interface); ok {
			return i.NumMethods() == 0
		}
	}
	return true
}

// loadsFromLib: does it come out of a request or a response?
func loadsFromLib(t *Term) bool {
	for t != nil && len(t.args) > 0 {
		b := t.args[0]
		if b.typ != nil {
			d := deref(b.typ)
			if isNamed(d, "net/http.Request") || isNamed(d, "net/http.Response") || isNamed(d, "net/url.URL") || isNamed(d, "crypto/tls.ConnectionState") {
				return true
			}
		}
		switch t.op {
		case OLoad, OField, OFieldAddr, OIndexAddr, OSliceOf:
		default:
			return false
		}
		t = b
	}
	return false
}

func checkFallible(P *Program, r *Report) {
	r.rule = "in every function, entered with anything, with what it calls followed: what an operation of a library returned together with an error or a flag, and what it returns nil for when it fails, is dereferenced, called or asserted only where on this path the error is known to be nil, the flag known to be set, or the value known not to be nil; " +
		"nothing is dereferenced that is certainly nil; and what comes from outside is indexed or cut at a fixed position only where it is known to be long enough; " +
		"and what is cut into pieces of a fixed size, in a loop that only looks whether something is left, is known to have a multiple of that length"
	heavy := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		if f.Blocks == nil {
			continue
		}
		for g := range P.reachable(f) {
			each(g, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok && isDoSig(instrName(in), ci.Common().Signature()) {
					heavy[f] = true
				}
			})
		}
	}
	called := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		each(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && !heavy[f] {
				if g := ci.Common().StaticCallee(); g != nil && g != f {
					called[g] = true
				}
			}
		})
	}
	analysed := func(f *ssa.Function) bool {
		return f.Blocks != nil && (f.Parent() == nil || spawned(f)) && f.Name() != "init" && f.Synthetic == "" && P.ownFn(f)
	}
	for _, f := range P.funcs {
		if !analysed(f) {
			continue
		}
		certain := (!called[f] || token.IsExported(f.Name()))
		runFuncs(P, r, "functions", []*ssa.Function{f}, handlerCfg{full: true, depth: 2}, func(root *ssa.Function) *Observer {
			o := &Observer{WaitHanded: heavy[f] && !repeats(f)}
			fl := &fallibles{P, r, map[*Term]outcomeOf{}}
			o.Ret = fl.note
			o.Select = func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
				if idx >= 0 && idx < len(chans) && chans[idx].op != OAlloc && len(st.pending) > 0 {
					// it may be the goroutine that did not run yet that has signalled
					st.otag("guessed")
				}
			}
			if heavy[f] {
				o.Stub = func(st *State, fn *ssa.Function, args []*Term) bool {
					if !analysed(fn) || fl.open(st, fn, args) {
						return false
					}
					res := fn.Signature.Results()
					if n := res.Len(); n > 1 && (isErrorType(res.At(n-1).Type()) || isBoolType(res.At(n-1).Type())) {
						for i := 0; i < n-1; i++ {
							if pointery(res.At(i).Type()) {
								return false
							}
						}
					}
					return true
				}
			}
			o.Deref = func(st *State, v *Term, in ssa.Instruction, what string) bool {
				pos := P.pos(instrPos(in))
				switch what {
				case "assert":
					r.count("assertions checked")
					if t := st.norm(v); !typeTested(in) && !isCall(t, "poolget") && (external(t) || decodedAny(t) || fl.by[t].name != "") {
						r.violate(st, "assert", pos, "what came from outside is taken for something of a type that it may not have"+inFn(in))
					}
				case "div":
				default:
					r.count("uses checked")
					if ok, name := fl.ruledOut(st, v); !ok {
						r.violate(st, "unchecked", pos, "the result of "+name+" is used although it may have failed"+inFn(in))
					}
					if name := maybeNil(v); name != "" && st.isNil(v) == 0 {
						r.violate(st, "unchecked", pos, name+", which may be nil, is used without a check"+inFn(in))
					}
					if st.isNil(v) == 1 && certain && !st.ohas("guessed") {
						r.violate(st, "nil", pos, "what is certainly nil is used ("+what+")"+inFn(in))
					}
				}
				return true
			}
			o.Index = func(st *State, s, idx *Term, in ssa.Instruction, slack int64) bool {
				if _, ok := intConst(idx); !ok {
					return true
				}
				s = st.norm(s)
				known, _ := st.inside(s, idx, in, slack)
				r.count("fixed positions checked")
				if known {
					return true
				}
				pos := P.pos(instrPos(in))
				if ok, name := fl.ruledOut(st, s); !ok {
					r.violate(st, "unchecked", pos, "the result of "+name+" is indexed although it may have failed"+inFn(in))
				} else if _, ok := fl.by[s]; !ok && external(s) {
					r.violate(st, "short", pos, "what came from outside is indexed at a fixed position although it may be shorter"+inFn(in))
				}
				return true
			}
			return o
		})
	}
	cutUp(P, r)
	r.atLeast("operations that can fail", 10)
	r.atLeast("uses checked", 100)
}

// typeTested: has the same value been found to be of the type on all ways to here?
func typeTested(in ssa.Instruction) bool {
	ta, ok := in.(*ssa.TypeAssert)
	if !ok || ta.X.Referrers() == nil {
		return false
	}
	for _, u := range *ta.X.Referrers() {
		t, ok := u.(*ssa.TypeAssert)
		if !ok || !t.CommaOk || !types.Identical(t.AssertedType, ta.AssertedType) {
			continue
		}
		for _, x := range *t.Referrers() {
			ex, ok := x.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				continue
			}
			for _, c := range *ex.Referrers() {
				if c, ok := c.(*ssa.If); ok {
					if yes := c.Block().Succs[0]; len(yes.Preds) == 1 && (yes == ta.Block() || yes.Dominates(ta.Block())) {
						return true
					}
				}
			}
		}
	}
	return false
}

// stride: is it x[i:i+k] in a loop in which i goes up by k from start as long as it is within x?
func stride(in ssa.Instruction) (k, start int64) {
	sl, ok := in.(*ssa.Slice)
	if !ok {
		return 0, 0
	}
	by := func(v, base ssa.Value) int64 {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			x, y := b.X, b.Y
			if y == base {
				x, y = y, x
			}
			if c, ok := y.(*ssa.Const); ok && x == base && c.Value != nil {
				n, _ := constant.Int64Val(constant.ToInt(c.Value))
				return n
			}
		}
		return 0
	}
	phi, ok := sl.Low.(*ssa.Phi)
	if !ok || sl.High == nil {
		return 0, 0
	}
	if k = by(sl.High, phi); k < 2 {
		return 0, 0
	}
	steps := false
	for _, e := range phi.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil {
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			start = n
		} else if by(e, phi) == k {
			steps = true
		} else {
			return 0, 0
		}
	}
	if !steps {
		return 0, 0
	}
	// the loop asks i < len(x)
	for _, u := range *phi.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok {
			continue
		}
		of := b.Y
		if (b.Op == token.GTR || b.Op == token.NEQ) && b.Y == phi || b.Op == token.NEQ {
			if b.Y == phi {
				of = b.X
			}
		} else if b.Op != token.LSS || b.X != phi {
			continue
		}
		if c, ok := of.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && c.Call.Args[0] == sl.X {
				return k, start
			}
		}
	}
	return 0, 0
}

// cutUp: what is cut into pieces of a size has a multiple of that length.
func cutUp(P *Program, r *Report) {
	for _, f := range P.funcs {
		if !P.ownFn(f) {
			continue
		}
		each(f, func(in ssa.Instruction) {
			k, start := stride(in)
			if k < 2 || start%k != 0 {
				return
			}
			pos := P.pos(instrPos(in))
			r.site("pieces cut off in steps", pos)
			if n, ok := (&lengths{P: P, k: k}).left(in.(*ssa.Slice).X, in.Block(), 0); !ok || n != 0 {
				r.violateVia(nil, "short", pos, fmt.Sprintf("a text is cut into pieces of %d although it is not known to have a multiple of that length", k)+inFn(in))
			}
		})
	}
}

// lengths: what is left of lengths when they are divided by k
type lengths struct {
	P *Program
	k int64
}

func isLen(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func intOf(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return constant.Int64Val(c.Value)
	}
	return 0, false
}

// rests: the remainders of len(x) by k that the condition being so leaves
func (l *lengths) rests(c ssa.Value, yes bool, x ssa.Value) map[int64]bool {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		return l.rests(u.X, !yes, x)
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return nil
	}
	n, ok := intOf(b.Y)
	m, ok2 := b.X.(*ssa.BinOp)
	if !ok || !ok2 || isLen(m.X) != x {
		return nil
	}
	d, ok := intOf(m.Y)
	if !ok || !(m.Op == token.REM && d == l.k || m.Op == token.AND && d == l.k-1 && l.k&d == 0) {
		return nil
	}
	res := map[int64]bool{}
	for i := int64(0); i < l.k; i++ {
		if constant.Compare(constant.MakeInt64(i), b.Op, constant.MakeInt64(n)) == yes {
			res[i] = true
		}
	}
	return res
}

// left: what is left of the length of v in the block (or on the way from it to the other)
func (l *lengths) left(v ssa.Value, b *ssa.BasicBlock, depth int) (int64, bool) {
	return l.leftOn(v, b, nil, depth)
}

func (l *lengths) leftOn(v ssa.Value, b, to *ssa.BasicBlock, depth int) (int64, bool) {
	if depth > 12 {
		return 0, false
	}
	can := map[int64]bool{}
	for i := int64(0); i < l.k; i++ {
		can[i] = true
	}
	narrow := func(c *ssa.If, yes bool) {
		if m := l.rests(c.Cond, yes, v); m != nil {
			for i := range can {
				if !m[i] {
					delete(can, i)
				}
			}
		}
	}
	ifOf := func(x *ssa.BasicBlock) *ssa.If {
		if len(x.Instrs) == 0 {
			return nil
		}
		c, _ := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		return c
	}
	if c := ifOf(b); c != nil && to != nil && b.Succs[0] != b.Succs[1] {
		narrow(c, b.Succs[0] == to)
	}
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		if c := ifOf(d); c != nil {
			for i, s := range d.Succs {
				if len(s.Preds) == 1 && (s == x || s.Dominates(x)) {
					narrow(c, i == 0)
				}
			}
		}
	}
	if len(can) == 1 {
		for i := range can {
			return i, true
		}
	}
	join := func(n int, one func(i int) (int64, bool)) (int64, bool) {
		var res int64
		for i := 0; i < n; i++ {
			x, ok := one(i)
			if !ok || i > 0 && x != res {
				return 0, false
			}
			res = x
		}
		return res, n > 0
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return int64(len(constant.StringVal(v.Value))) % l.k, true
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			x, ok := l.leftOn(v.X, v.Block(), nil, depth+1)
			y, ok2 := l.leftOn(v.Y, v.Block(), nil, depth+1)
			return (x + y) % l.k, ok && ok2
		}
	case *ssa.Phi:
		return join(len(v.Edges), func(i int) (int64, bool) {
			return l.leftOn(v.Edges[i], v.Block().Preds[i], v.Block(), depth+1)
		})
	case *ssa.Parameter:
		f := v.Parent()
		at := -1
		for i, p := range f.Params {
			if p == v {
				at = i
			}
		}
		var calls []*ssa.CallCommon
		var blocks []*ssa.BasicBlock
		for _, g := range l.P.funcs {
			each(g, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					calls, blocks = append(calls, ci.Common()), append(blocks, in.Block())
				}
			})
		}
		return join(len(calls), func(i int) (int64, bool) { return l.leftOn(calls[i].Args[at], blocks[i], nil, depth+1) })
	case *ssa.Call:
		switch g := v.Call.StaticCallee(); {
		case g == nil:
		case g.Blocks != nil && l.P.ownFn(g):
			var rets []*ssa.Return
			each(g, func(in ssa.Instruction) {
				if ret, ok := in.(*ssa.Return); ok {
					rets = append(rets, ret)
				}
			})
			return join(len(rets), func(i int) (int64, bool) { return l.leftOn(rets[i].Results[0], rets[i].Block(), nil, depth+1) })
		case g.RelString(nil) == "encoding/hex.EncodeToString" && l.k == 2:
			return 0, true
		case g.RelString(nil) == "fmt.Sprintf" && l.k == 2:
			// two digits for each byte
			if c, ok := v.Call.Args[0].(*ssa.Const); ok && c.Value != nil {
				if f := constant.StringVal(c.Value); f == "%x" || f == "%X" {
					return 0, printsBytes(v.Call.Args[1])
				}
			}
		}
	}
	return 0, false
}

// printsBytes: is what is printed bytes?
func printsBytes(args ssa.Value) bool {
	s, ok := args.(*ssa.Slice)
	if !ok {
		return false
	}
	bytes := false
	for _, u := range *s.X.Referrers() {
		if a, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *a.Referrers() {
				if w, ok := w.(*ssa.Store); ok {
					m, ok := w.Val.(*ssa.MakeInterface)
					if !ok {
						return false
					}
					t, ok := m.X.Type().Underlying().(*types.Slice)
					if !ok || !types.Identical(t.Elem(), types.Typ[types.Byte]) {
						return false
					}
					bytes = true
				}
			}
		}
	}
	return bytes
}
