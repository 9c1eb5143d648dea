package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallEv is a call of a function whose source is not part of the repository.
type CallEv struct {
	e    *Engine
	st   *State
	in   ssa.Instruction
	name string // full name, as types.Func.FullName prints it
	meth string // bare method or function name
	args []*Term
	fn   *Term // callee value if it is not a declared function
	sig  *types.Signature
	kind frameKind
}

func (c *CallEv) arg(i int) *Term {
	if i < len(c.args) {
		return c.args[i]
	}
	return tNil()
}

func (c *CallEv) pos() string { return c.e.P.pos(instrPos(c.in)) }

// outcome is one way a modelled call may end.
type outcome struct {
	st  *State
	res *Term
}

func calleeName(call *ssa.CallCommon) string {
	if call.IsInvoke() {
		return call.Method.FullName()
	}
	if f := call.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return f.RelString(nil)
}

// resolveCall evaluates callee and arguments.
func (e *Engine) resolveCall(st *State, call *ssa.CallCommon, in ssa.Instruction) deferred {
	d := deferred{call: call, site: in}
	if call.IsInvoke() {
		recv := e.value(st, call.Value)
		for _, a := range call.Args {
			d.args = append(d.args, e.value(st, a))
		}
		dyn, inner := types.Type(nil), (*Term)(nil)
		if recv.op == OIface {
			dyn, inner = recv.typ, recv.args[0]
		} else if f := st.fact(recv); f.dyn != nil {
			dyn, inner = f.dyn, mk(OTA, "", f.dyn, nil, nil, 0, 0, recv)
		}
		if dyn != nil {
			if m := e.P.prog.LookupMethod(dyn, call.Method.Pkg(), call.Method.Name()); m != nil && (m.Blocks != nil || m.Synthetic != "") {
				if m.Blocks != nil {
					d.fn = mk(OFunc, "", nil, nil, m, 0, 0)
					d.args = append([]*Term{inner}, d.args...)
					return d
				}
			} else if m != nil {
				d.fn = mk(OFunc, "", nil, nil, m, 0, 0)
				d.args = append([]*Term{inner}, d.args...)
				return d
			}
		}
		d.args = append([]*Term{recv}, d.args...)
		return d
	}
	v := e.value(st, call.Value)
	for _, a := range call.Args {
		d.args = append(d.args, e.value(st, a))
	}
	d.fn = v
	return d
}

// pushFrame enters a repository function.
func (e *Engine) pushFrame(st *State, fn *ssa.Function, args, binds []*Term, kind frameKind, retInst ssa.Instruction, tag string) *Frame {
	fi := e.info(fn)
	e.fnSeen[fn] = true
	top := st.mut()
	ctx := mix(top.ctx, hashStr(fn.RelString(nil)))
	idx := 0
	if top.pc < len(top.block.Instrs) {
		idx = top.block.Index*10007 + top.pc
	}
	// recursion of the same function keeps its context, so that symbols stay few; recency keeps them apart
	ctx = mix(ctx, uint64(idx))
	f := &Frame{owner: st, fn: fn, info: fi, regs: make([]*Term, len(fi.vals)), block: fn.Blocks[0], ctx: ctx, kind: kind, retInst: retInst, tag: tag}
	for i := range fn.Params {
		if i < len(args) {
			f.regs[i] = args[i]
		}
	}
	for i := range fn.FreeVars {
		if i < len(binds) {
			f.regs[len(fn.Params)+i] = binds[i]
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], f)
	return f
}

// invoke performs a resolved call. It returns true if st goes on.
func (e *Engine) invoke(st *State, d deferred, kind frameKind) bool {
	if d.fn != nil {
		switch d.fn.op {
		case OFunc, OClosure:
			fn := d.fn.fn
			if fn.Blocks != nil {
				return e.enter(st, d, kind, fn)
			}
		case OBuiltin:
			return e.builtin(st, d, kind)
		case ONil:
			return e.doPanic(st, tStr("call of nil function"))
		}
	}
	return e.external(st, d, kind)
}

func (e *Engine) enter(st *State, d deferred, kind frameKind, fn *ssa.Function) bool {
	if e.obs.Stub != nil && e.obs.Stub(st, fn, d.args) {
		return e.opaqueCall(st, d, kind, "stub:"+fnName(fn))
	}
	if e.sl != nil && e.sl.isHidden(fn) {
		return e.hiddenCall(st, d, kind, fn)
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n >= e.maxRecursion {
		e.recursionCut++
		e.notes["recursion of "+fn.Name()+" followed "+strconv.Itoa(e.maxRecursion)+" levels deep"] = true
		st.dead = true
		return false
	}
	if len(st.frames) > e.maxDepthFrames {
		e.rep.undecided("call depth exceeded in " + fn.Name())
		st.dead = true
		return false
	}
	var ri ssa.Instruction
	if kind == fkCall {
		ri = d.site
	}
	e.pushFrame(st, fn, d.args, d.fn.args, kind, ri, "")
	if e.obs.Enter != nil {
		e.obs.Enter(st, fn, d.args)
	}
	return !st.dead
}

func (e *Engine) opaqueCall(st *State, d deferred, kind frameKind, name string) bool {
	sig := d.call.Signature()
	c := &CallEv{e: e, st: st, in: d.site, name: name, meth: name, args: d.args, sig: sig, kind: kind}
	return e.finish(c, []outcome{{st, c.opaque(name, false)}})
}

// hiddenCall: a large computation that has no effect on what is tracked. Its results are unknown.
func (e *Engine) hiddenCall(st *State, d deferred, kind frameKind, fn *ssa.Function) bool {
	e.hidden[fn]++
	c := &CallEv{e: e, st: st, in: d.site, name: "hidden:" + fnName(fn), meth: fn.Name(), args: d.args, sig: d.call.Signature(), kind: kind}
	rt := c.resultTypes()
	out := make([]*Term, len(rt))
	for i, t := range rt {
		s := tSym(siteName(st.top(), d.site)+"h"+string(rune('0'+i)), t)
		e.refresh(st, s)
		out[i] = s
	}
	var res *Term = tNil()
	if len(out) == 1 {
		res = out[0]
	} else if len(out) > 1 {
		res = tTuple(out...)
	}
	return e.finish(c, []outcome{{st, res}})
}

// external handles a call that leaves the repository.
func (e *Engine) external(st *State, d deferred, kind frameKind) bool {
	c := &CallEv{e: e, st: st, in: d.site, args: d.args, kind: kind, sig: d.call.Signature()}
	switch {
	case d.fn != nil && (d.fn.op == OFunc || d.fn.op == OClosure):
		c.name = fnName(d.fn.fn)
		c.sig = d.fn.fn.Signature
	case d.call.IsInvoke():
		c.name = d.call.Method.FullName()
	default:
		c.name = "dynamic"
		c.fn = d.fn
	}
	c.meth = c.name[strings.LastIndexByte(c.name, '.')+1:]
	if d.call.IsInvoke() && d.fn == nil {
		if !e.deref(st, d.args[0], d.site, "invoke") {
			return false
		}
		if st.panicV != nil && st.top().unwind {
			return true
		}
	}
	if m := e.callsSeen[c.name]; m == nil {
		e.callsSeen[c.name] = map[ssa.Instruction]bool{d.site: true}
	} else {
		m[d.site] = true
	}
	if e.obs.Call != nil {
		e.obs.Call(c)
		if st.dead {
			return false
		}
	}
	if c.isDo() || strings.HasPrefix(c.name, "net/http.NewRequest") {
		st.attempted()
	}
	outs, done := c.model()
	if done {
		// the model arranged for the continuation itself
		return !st.dead
	}
	return e.finish(c, outs)
}

// finish delivers results. All outcomes but a single one on the calling state are queued.
func (e *Engine) finish(c *CallEv, outs []outcome) bool {
	if len(outs) == 0 {
		c.st.dead = true
		return false
	}
	for _, o := range outs {
		if e.obs.Ret != nil {
			e.obs.Ret(c, o.st, o.res)
		}
	}
	if len(outs) == 1 && outs[0].st == c.st {
		if c.st.dead {
			return false
		}
		e.deliver(c, c.st, outs[0].res)
		if c.kind == fkCall {
			if v, ok := c.in.(*ssa.Call); ok {
				return e.splitReg(c.st, v)
			}
		}
		return true
	}
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		e.deliver(c, o.st, o.res)
		if c.kind == fkCall {
			if v, ok := c.in.(*ssa.Call); ok {
				if !e.splitReg(o.st, v) {
					continue
				}
			}
		}
		e.push(o.st)
	}
	return false
}

func (e *Engine) deliver(c *CallEv, st *State, res *Term) {
	st.mut()
	if c.kind == fkCall {
		if v, ok := c.in.(*ssa.Call); ok && res != nil {
			e.setReg(st, v, e.typed(res, v.Type()))
		}
		st.mut().pc++
	}
}

// result type helpers

func (c *CallEv) resultTypes() []types.Type {
	var r []types.Type
	for i := 0; i < c.sig.Results().Len(); i++ {
		r = append(r, c.sig.Results().At(i).Type())
	}
	return r
}

// snap makes an argument independent of later memory changes where its content is known.
func snap(st *State, t *Term, d int) *Term {
	t = st.norm(t)
	if d <= 0 {
		return t
	}
	switch t.op {
	case OSliceV:
		var et types.Type
		if t.typ != nil {
			if s, ok := t.typ.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		if et == nil {
			return t
		}
		if t.m > 64 {
			return t
		}
		args := make([]*Term, t.m)
		for i := range args {
			args[i] = snap(st, st.load(tIndexAddr(t.args[0], tInt(t.n+int64(i))), et), d-1)
		}
		return mk(OList, "", t.typ, nil, nil, 0, 0, args...)
	case OIface:
		in := snap(st, t.args[0], d-1)
		if in != t.args[0] {
			return mk(OIface, "", t.typ, nil, nil, 0, 0, in)
		}
	case OStruct:
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = snap(st, a, d-1)
			ch = ch || args[i] != a
		}
		if ch {
			return mk(OStruct, "", t.typ, nil, nil, 0, 0, args...)
		}
	}
	return t
}

func (c *CallEv) snaps() []*Term {
	r := make([]*Term, len(c.args))
	for i, a := range c.args {
		r[i] = snap(c.st, a, 4)
	}
	return r
}

// freshSym is a symbol for this call site in this context.
func (c *CallEv) freshSym(what string) *Term {
	// the state may be renamed: arguments have to follow
	f := c.st.top()
	s := tSym(siteName(f, c.in)+what, types.Typ[types.UnsafePointer])
	c.e.refreshWith(c.st, s, c.args)
	return s
}

// refreshWith renames old instances of s in the state and in the given terms.
func (e *Engine) refreshWith(st *State, s *Term, ts []*Term) {
	used := false
	for _, t := range ts {
		if t.has(s) {
			used = true
		}
	}
	if used {
		// make the renaming visible: rename in the arguments exactly as in the state
		old := mk(s.op, strings.TrimSuffix(s.str, "'")+"'", s.typ, nil, nil, 0, 0)
		memo := map[*Term]*Term{}
		for i, t := range ts {
			ts[i] = subst(t, s, old, memo)
		}
	}
	e.refresh(st, s)
}

// opaque builds the result of a call: a function of its arguments, and of the call instance unless pure.
func (c *CallEv) opaque(name string, pure bool) *Term {
	rt := c.resultTypes()
	if len(rt) == 0 {
		return tNil()
	}
	var args []*Term
	var fresh *Term
	if !pure {
		fresh = c.freshSym("r")
	}
	args = c.snaps()
	for i, a := range args {
		if a.depth > 24 {
			args[i] = tStr("…")
		}
	}
	if fresh != nil {
		args = append(args, fresh)
	}
	if len(rt) == 1 {
		return mk(OCall, name, rt[0], nil, nil, 0, 0, args...)
	}
	t := mk(OCall, name, c.sig.Results(), nil, nil, 0, 0, args...)
	out := make([]*Term, len(rt))
	for i, ty := range rt {
		out[i] = mk(OExt, "", ty, nil, nil, int64(i), 0, t)
	}
	return tTuple(out...)
}

var pureCallPrefixes = []string{
	"strings.", "strconv.", "fmt.Sprint", "errors.", "unicode", "math.", "math/bits.", "path.", "path/filepath.",
	"net/url.", "(*net/url.URL).", "(net/url.Values).Get", "(*regexp.Regexp).", "regexp.", "encoding/hex.", "(*encoding/base64.Encoding).",
	"(time.Duration).", "(time.Time).", "time.Now", "time.Since", "time.Until", "time.Date", "time.Unix", "time.Parse", "os.Getenv", "runtime.",
	"(error).", "(fmt.Stringer).", "(github.com/lestrrat-go/jwx/jwa.", "(*math/big.Int).Cmp", "(*math/big.Int).Sign", "(*math/big.Int).BitLen",
	"(*github.com/hako/durafmt.", "github.com/hako/durafmt.", "(github.com/hako/durafmt.",
	"bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains", "bytes.Index", "bytes.Compare", "bytes.ToLower", "bytes.ToUpper", "bytes.Trim",
	"net.SplitHostPort", "net.ParseIP", "net.JoinHostPort", "(crypto/elliptic.Curve).", "(net/http.ConnState)", "net/http.StatusText",
	"net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey", "(*net/http.Request).UserAgent", "(*net/http.Request).Referer",
	"(*net/http.Request).ProtoAtLeast", "(*net/http.Request).Context", "(context.Context).Value", "(context.Context).Deadline",
	"context.Background", "context.TODO", "encoding/json.Valid", "(*strings.Builder).Len", "(net/http.ResponseWriter).Header",
	"(*github.com/lestrrat-go/jwx/jws.Message).Signatures", "(*github.com/lestrrat-go/jwx/jwk.Set).Len",
	"(github.com/lestrrat-go/jwx/jwk.Key).KeyID", "(github.com/lestrrat-go/jwx/jwk.Key).Algorithm", "(github.com/lestrrat-go/jwx/jwk.Key).KeyType",
	"github.com/lestrrat-go/jwx/jwt.WithVerify", "github.com/lestrrat-go/jwx/jwk.WithHTTPClient", "os.Getpid", "net/http.HandlerFunc",
	"encoding/json.Marshal", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Len", "log.New",
	"(github.com/google/uuid.UUID).", "(encoding/base64.Encoding).",
}

func isPure(name string) bool {
	for _, p := range pureCallPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// calls whose result is never nil
var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "httpreq": true, "ctx": true, "done": true, "cancelfn": true, "timer": true,
	"net/http.NewServeMux": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "strings.NewReader": true,
	"bufio.NewReader": true, "net/http.MaxBytesReader": true, "io.LimitReader": true, "io.NopCloser": true, "io/ioutil.NopCloser": true,
	"(net/http.ResponseWriter).Header": true, "golang.org/x/sync/semaphore.NewWeighted": true, "regexp.MustCompile": true,
	"context.Background": true, "context.TODO": true, "log.New": true, "json": true, "crypto/x509.NewCertPool": true,
	"makeslice": true, "zevent": true, "zevent:fatal": true, "zevent:panic": true, "after": true, "append": true, "crypto/md5.New": true,
	"(*net/http.Request).Context": true, "sentinel": true, "github.com/hako/durafmt.Parse": true, "(*github.com/hako/durafmt.Durafmt).LimitFirstN": true,
	"compress/gzip.NewWriter": true, "copyof": true, "readallbuf": false, "time.NewTicker": true, "(*net/http.Request).WithContext": true,
	"(*net/http.Request).Clone": true,
}

// foldPure evaluates pure calls on constants and brings equal formulations to one form.
func (c *CallEv) foldPure() *Term {
	st := c.st
	a := func(i int) *Term { return st.norm(c.arg(i)) }
	s := func(i int) (string, bool) { return strConst(a(i)) }
	two := func(f func(x, y string) bool) *Term {
		x, ok1 := s(0)
		y, ok2 := s(1)
		if ok1 && ok2 {
			return tBool(f(x, y))
		}
		return nil
	}
	one := func(f func(x string) string) *Term {
		if x, ok := s(0); ok {
			return tStr(f(x))
		}
		return nil
	}
	switch c.name {
	case "strings.EqualFold":
		if r := two(strings.EqualFold); r != nil {
			return r
		}
		x, y := a(0), a(1)
		if x == y {
			return tBool(true)
		}
		// keep the constant, lower cased, to the right
		for i := 0; i < 2; i++ {
			if k, ok := strConst(y); ok {
				return mk(OCall, "eqfold", types.Typ[types.Bool], nil, nil, 0, 0, x, tStr(strings.ToLower(k)))
			}
			x, y = y, x
		}
	case "strings.Contains":
		if r := two(strings.Contains); r != nil {
			return r
		}
		if k, ok := s(1); ok && k == "" {
			return tBool(true)
		}
	case "strings.HasPrefix":
		return two(strings.HasPrefix)
	case "strings.HasSuffix":
		return two(strings.HasSuffix)
	case "strings.Index":
		x, ok1 := s(0)
		y, ok2 := s(1)
		if ok1 && ok2 {
			return tInt(int64(strings.Index(x, y)))
		}
	case "strings.ToLower":
		return one(strings.ToLower)
	case "strings.ToUpper":
		if x := a(0); x.op == OCall && x.str == c.name {
			return x
		}
		return one(strings.ToUpper)
	case "strings.TrimSpace":
		return one(strings.TrimSpace)
	case "strings.Title":
		return one(strings.Title)
	case "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey":
		return one(textproto.CanonicalMIMEHeaderKey)
	case "strings.Join":
		l := snap(st, c.arg(0), 1)
		if l.op == OList {
			sep := a(1)
			var r *Term = tStr("")
			for i, x := range l.args {
				if i > 0 {
					r = tBin(token.ADD, r, sep)
				}
				r = tBin(token.ADD, r, x)
			}
			return r
		}
	case "strconv.Itoa":
		return dec(a(0))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := intConst(a(1)); ok && b == 10 {
			return dec(a(0))
		}
	case "fmt.Sprint":
		l := snap(st, c.arg(0), 2)
		if l.op == OList && len(l.args) == 1 {
			if r := fmtArg('v', l.args[0]); r != nil {
				return r
			}
		}
	case "fmt.Sprintf":
		if f, ok := s(0); ok {
			l := snap(st, c.arg(1), 4)
			if l.op == ONil {
				l = mk(OList, "", nil, nil, nil, 0, 0)
			}
			if l.op == OList {
				if r := sprintf(f, l.args); r != nil {
					return r
				}
			}
		}
	case "bytes.HasPrefix":
		if l := snap(st, c.arg(1), 1); l.op == OList && len(l.args) == 0 {
			return tBool(true)
		}
	}
	return nil
}

func dec(t *Term) *Term {
	if k, ok := intConst(t); ok {
		return tStr(strconv.FormatInt(k, 10))
	}
	return mk(OCall, "dec", types.Typ[types.String], nil, nil, 0, 0, t)
}

func fmtArg(verb byte, t *Term) *Term {
	v := t
	var ty types.Type
	if t.op == OIface {
		v, ty = t.args[0], t.typ
	}
	if ty == nil {
		return nil
	}
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	if n, isN := ty.(*types.Named); isN && n.NumMethods() > 0 {
		return nil
	}
	switch {
	case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
		return v
	case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
		return dec(v)
	}
	return nil
}

// sprintf turns simple formats into concatenations.
func sprintf(f string, args []*Term) *Term {
	var r *Term = tStr("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = tBin(token.ADD, r, tStr(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			r = tBin(token.ADD, r, tStr("%"))
			continue
		}
		if k >= len(args) {
			return nil
		}
		p := fmtArg(f[i], args[k])
		if p == nil {
			// keep the argument as an opaque part
			if f[i] == 's' || f[i] == 'v' || f[i] == 'd' {
				p = mk(OCall, "fmtarg", types.Typ[types.String], nil, nil, int64(f[i]), 0, args[k])
			} else {
				return nil
			}
		}
		k++
		r = tBin(token.ADD, r, p)
	}
	if k != len(args) {
		return nil
	}
	return r
}

// ---- builtins -----------------------------------------------------------

func (e *Engine) builtin(st *State, d deferred, kind frameKind) bool {
	c := &CallEv{e: e, st: st, in: d.site, name: "builtin " + d.fn.str, meth: d.fn.str, args: d.args, kind: kind, sig: d.call.Signature()}
	one := func(t *Term) bool { return e.finish2(c, t) }
	a := c.args
	switch d.fn.str {
	case "len":
		x := st.norm(a[0])
		if x.op == OAlloc {
			if _, ok := x.typ.Underlying().(*types.Map); ok {
				return one(e.mapLen(st, x))
			}
		}
		return one(st.norm(tLen(x)))
	case "cap":
		x := st.norm(a[0])
		if x.op == ONil {
			return one(tInt(0))
		}
		return one(mk(OCap, "", types.Typ[types.Int], nil, nil, 0, 0, x))
	case "append":
		return e.appendBuiltin(c)
	case "copy":
		dst := st.norm(a[0])
		if dst.op == OSliceV {
			src := snap(st, a[1], 1)
			et := sliceElem(dst.typ)
			if src.op == OList && et != nil {
				for i := int64(0); i < dst.m && i < int64(len(src.args)); i++ {
					st.store(tIndexAddr(dst.args[0], tInt(dst.n+i)), src.args[i], et)
				}
			} else {
				st.havoc(dst.args[0].root(), tCall("copied", a[1]))
			}
		} else if dst.op == OCall && dst.str == "makeslice" {
			st.havoc(dst.args[0].root(), tCall("copied", a[1]))
		}
		if dst.op != ONil {
			e.onStore(st, tIndexAddr(dst, tSym("i", types.Typ[types.Int])), a[1], c.in)
		}
		return one(mk(OCall, "copied", types.Typ[types.Int], nil, nil, 0, 0, dst, a[1]))
	case "delete":
		m := st.norm(a[0])
		k := st.norm(a[1])
		if e.obs.MapSet != nil {
			e.obs.MapSet(st, m, k, nil, c.in)
		}
		e.onStore(st, tIndexAddr(m, k), tNil(), c.in)
		if m.op != ONil {
			o := st.objOrNew(m.root())
			if k.op != OConst || m.op != OAlloc {
				o = o.without(func(x *Term) bool { return ptrUnder(x, m) })
				n := *o
				n.fuzzy = tStr("idx")
				n.rehash()
				o = &n
			} else {
				p := tIndexAddr(m, k)
				o = o.without(func(x *Term) bool { return x == p })
			}
			st.setObj(o)
		}
		return one(tNil())
	case "close":
		ch := a[0]
		if e.obs.Call != nil {
			c.name = "close"
			e.obs.Call(c)
			if st.dead {
				return false
			}
		}
		if ch.op == OAlloc {
			o := st.objOrNew(ch)
			st.setObj(o.with(tFieldAddr(ch, 0, "$closed"), tBool(true)))
		} else {
			st.assume(tCall("fired", ch), true)
		}
		return one(tNil())
	case "panic":
		return e.doPanic(st, a[0])
	case "recover":
		n := len(st.frames)
		if n >= 2 && st.frames[n-1].kind == fkDefer && st.frames[n-2].unwind && st.panicV != nil {
			v := st.panicV
			st.panicV = nil
			if v.op != OIface && v.op != OConst {
				v = mk(OCall, "sentinel", nil, nil, nil, 0, 0, v)
			}
			return one(v)
		}
		return one(tNil())
	case "print", "println":
		return one(tNil())
	case "ssa:wrapnilchk":
		return one(a[0])
	case "min", "max":
		return one(mk(OCall, d.fn.str, c.resultTypes()[0], nil, nil, 0, 0, a...))
	case "clear":
		if m := st.norm(a[0]); m.op == OAlloc {
			o := &Obj{root: m}
			o.rehash()
			st.setObj(o)
		}
		e.onStore(st, tIndexAddr(a[0], tSym("i", types.Typ[types.Int])), tNil(), c.in)
		return one(tNil())
	}
	var t *Term = tNil()
	if c.sig != nil && c.sig.Results().Len() > 0 {
		t = c.opaque(c.name, true)
	}
	return one(t)
}

func (e *Engine) mapLen(st *State, m *Term) *Term {
	o := st.obj(m)
	if o == nil {
		return tInt(0)
	}
	if o.fuzzy != nil || o.summary || !e.allConstKeys(o, m) {
		return tLen(m)
	}
	n := 0
	for _, c := range o.cells {
		if c.p.op == OIndexAddr && c.p.args[0] == m {
			n++
		}
	}
	return tInt(int64(n))
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (e *Engine) finish2(c *CallEv, res *Term) bool {
	e.deliver(c, c.st, res)
	return true
}

func (e *Engine) appendBuiltin(c *CallEv) bool {
	st := c.st
	base, add := st.norm(c.args[0]), st.norm(c.args[1])
	typ := c.resultTypes()[0]
	et := sliceElem(typ)
	if base.op != ONil && !(base.op == OSliceV) {
		e.onStore(st, tIndexAddr(base, tSym("appended", types.Typ[types.Int])), add, c.in)
	}
	if e.obs.Append != nil {
		e.obs.Append(st, base, add, c.in)
	}
	if add.op == ONil {
		return e.finish2(c, c.args[0])
	}
	list := func(x *Term) ([]*Term, bool) {
		switch x.op {
		case ONil:
			return nil, true
		case OSliceV:
			if x.m > 64 {
				return nil, false
			}
			var r []*Term
			for i := int64(0); i < x.m; i++ {
				r = append(r, st.load(tIndexAddr(x.args[0], tInt(x.n+i)), et))
			}
			return r, true
		case OList:
			return x.args, true
		}
		return nil, false
	}
	lb, ok1 := list(base)
	la, ok2 := list(add)
	if ok1 && ok2 && len(lb)+len(la) <= 64 {
		if len(lb)+len(la) == 0 {
			return e.finish2(c, base)
		}
		t := tAlloc(siteName(st.top(), c.in), types.NewArray(et, int64(len(lb)+len(la))))
		all := append(append([]*Term(nil), lb...), la...)
		e.refreshWith(st, t, all)
		o := &Obj{root: t}
		o.rehash()
		st.setObj(o)
		for i, v := range all {
			st.store(tIndexAddr(t, tInt(int64(i))), v, et)
		}
		return e.finish2(c, mk(OSliceV, "", typ, nil, nil, 0, int64(len(all)), t))
	}
	if ok1 && len(lb) == 0 {
		s := c.freshSym("cp")
		add = st.norm(c.args[1])
		return e.finish2(c, mk(OCall, "copyof", typ, nil, nil, 0, 0, add, s))
	}
	s := snap(st, add, 2)
	if base.depth > 20 {
		return e.finish2(c, mk(OCall, "append", typ, nil, nil, 0, 0, tSym("longlist", typ), s))
	}
	return e.finish2(c, mk(OCall, "append", typ, nil, nil, 0, 0, base, s))
}

var _ = fmt.Sprint
var _ = constant.MakeBool
