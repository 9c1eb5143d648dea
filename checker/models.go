package main

import (
	"go/token"
	"go/types"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const zl = "github.com/rs/zerolog"

func tBoolTyp() types.Type { return types.Typ[types.Bool] }

// isDo: does this call send an upstream request?
func (c *CallEv) isDo() bool { return isDoSig(c.name, c.sig) }

func isDoSig(name string, sig *types.Signature) bool {
	if sig == nil || sig.Results().Len() != 2 {
		return false
	}
	if sig.Results().At(0).Type().String() != "*net/http.Response" {
		return false
	}
	if name == "net/http.ReadResponse" {
		return false
	}
	return true
}

func isNamed(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name() == name
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

// isWriter: is the value the response writer handed to the handler?
func isWriter(t *Term) bool {
	for t.op == OIface || t.op == OTA {
		t = t.args[0]
	}
	return (t.op == OSym || t.op == OLoad || t.op == OField) && isNamed(t.typ, "net/http.ResponseWriter")
}

// model runs the semantics of an external call. done: the continuation is already arranged.
func (c *CallEv) model() (outs []outcome, done bool) {
	e, st := c.e, c.st
	one := func(t *Term) ([]outcome, bool) { return []outcome{{st, t}}, false }
	void := func() ([]outcome, bool) { return []outcome{{st, tNil()}}, false }

	// cancel functions and other function values
	if c.name == "dynamic" {
		if c.fn != nil && c.fn.op == OCall && c.fn.str == "cancelfn" {
			e.fire(st, mk(OCall, "done", nil, nil, nil, 0, 0, c.fn.args[0]))
			return void()
		}
		return one(c.opaque("dynamic", false))
	}

	// resources
	switch {
	case strings.HasPrefix(c.name, "(*"+zl+".Event)."):
		return c.logEvent()
	case strings.HasPrefix(c.name, zl+"/log.") || strings.HasPrefix(c.name, "(*"+zl+".Logger)."):
		switch c.meth {
		case "Trace", "Debug", "Info", "Warn", "Error", "Fatal", "Panic", "Log", "Err", "WithLevel":
			return one(c.newEvent(strings.ToLower(c.meth)))
		case "Print", "Printf":
			return void()
		}
		return one(c.opaque(c.name, false))
	}

	if e.obs.TrackBody {
		if outs, ok := c.bodyModel(); ok {
			return outs, false
		}
	}
	if isPure(c.name) {
		if r := c.foldPure(); r != nil {
			return one(r)
		}
		if c.name == "encoding/json.Marshal" {
			a := unwrap(c.arg(0))
			if a.op == OAlloc && structOf(derefTermType(a)) != nil {
				a = st.load(a, derefTermType(a))
			}
			v := snap(st, a, 5)
			t := mk(OCall, "json", types.NewSlice(types.Typ[types.Byte]), nil, nil, 0, 0, v)
			return one(tTuple(t, tNil()))
		}
		if c.name == "(*net/http.Request).Context" {
			if r := c.arg(0); r.op == OCall && r.str == "httpreq" {
				return one(r.args[0])
			}
		}
		return one(c.opaque(c.name, true))
	}

	switch c.name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "syscall.Exit":
		return nil, false
	case "log.Panic", "log.Panicf", "log.Panicln":
		e.doPanic(st, tStr("log.Panic"))
		return nil, true

	// contexts and timers
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		s := c.freshSym("ctx")
		args := []*Term{c.arg(0), s}
		if len(c.args) > 1 {
			args = append(args, st.norm(c.arg(1)), tStr(c.name))
		}
		ctx := mk(OCall, "ctx", c.resultTypes()[0], nil, nil, 0, 0, args...)
		return one(tTuple(ctx, mk(OCall, "cancelfn", c.resultTypes()[1], nil, nil, 0, 0, ctx)))
	case "context.WithValue":
		return one(c.arg(0))
	case "(context.Context).Done":
		return one(mk(OCall, "done", nil, nil, nil, 0, 0, c.arg(0)))
	case "(context.Context).Err":
		d := mk(OCall, "done", nil, nil, nil, 0, 0, c.arg(0))
		errT := mk(OCall, "sentinel", c.resultTypes()[0], nil, nil, 0, 0, d)
		if e.fired(st, d) {
			return one(errT)
		}
		n := st.fork()
		e.fire(n, d)
		return []outcome{{st, tNil()}, {n, errT}}, false
	case "time.AfterFunc":
		s := c.freshSym("t")
		if e.obs.Go != nil {
			e.obs.Go(st, c.arg(1), nil, c.in)
		}
		return one(mk(OCall, "timer", c.resultTypes()[0], nil, nil, 0, 0, s, st.norm(c.arg(0)), c.arg(1)))
	case "time.After", "time.Tick":
		s := c.freshSym("t")
		return one(mk(OCall, "after", c.resultTypes()[0], nil, nil, 0, 0, s, st.norm(c.arg(0))))
	case "time.NewTimer", "time.NewTicker":
		s := c.freshSym("t")
		return one(mk(OCall, "timer", c.resultTypes()[0], nil, nil, 0, 0, s, st.norm(c.arg(0))))
	case "time.Sleep":
		return void()

	// synchronisation
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st.lock(tCall("lock", c.arg(0)))
		return void()
	case "(*sync.RWMutex).RLock":
		st.lock(tCall("rlock", c.arg(0)))
		return void()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		st.unlock(tCall("lock", c.arg(0)))
		return void()
	case "(*sync.RWMutex).RUnlock":
		st.unlock(tCall("rlock", c.arg(0)))
		return void()
	case "(sync.Locker).Lock", "(sync.Locker).Unlock":
		l := c.arg(0)
		if l.op == OIface {
			l = l.args[0]
		}
		if c.meth == "Lock" {
			st.lock(tCall("lock", l))
		} else {
			st.unlock(tCall("lock", l))
		}
		return void()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		n := st.fork()
		n.lock(tCall("lock", c.arg(0)))
		return []outcome{{st, tBool(false)}, {n, tBool(true)}}, false
	case "(*sync.Once).Do":
		f := c.arg(1)
		l := tCall("once", c.arg(0))
		st.lock(l)
		return nil, c.callBack(f, nil, func(s *State, _ []*Term) {
			s.unlock(l)
			c.resume(s, tNil())
		})
	case "(*sync.Pool).Get":
		s := c.freshSym("pool")
		r := mk(OCall, "poolget", c.resultTypes()[0], nil, nil, 0, 0, c.arg(0), s)
		if t := e.poolType(st, c.arg(0)); t != nil {
			f := topFact
			f.dyn = t
			f.nilness = 2
			st.setFact(r, &f)
		}
		return one(r)
	case "(*sync.Pool).Put":
		return void()
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return void()
	case "golang.org/x/sync/semaphore.NewWeighted":
		s := c.freshSym("sem")
		return one(mk(OCall, c.name, c.resultTypes()[0], nil, nil, 0, 0, st.norm(c.arg(0)), s))
	case "(*golang.org/x/sync/semaphore.Weighted).TryAcquire":
		s := c.freshSym("got")
		return one(mk(OCall, c.name, tBoolTyp(), nil, nil, 0, 0, c.arg(0), s))
	case "(*golang.org/x/sync/semaphore.Weighted).Release":
		return void()

	case "github.com/lestrrat-go/jwx/jwk.Fetch", "github.com/lestrrat-go/jwx/jwk.FetchHTTP", "github.com/lestrrat-go/jwx/jwk.FetchHTTPWithContext":
		// there is a key set exactly when there is no error
		s := c.freshSym("fetch")
		p := mk(OCall, c.name, c.resultTypes()[0], nil, nil, 0, 0, append(c.snaps(), s)...)
		er := mk(OCall, "sentinel", c.resultTypes()[1], nil, nil, 0, 0, tStr("jwk.Fetch"), s)
		n := st.fork()
		st.setNil(p, false)
		n.setNil(er, false)
		return []outcome{{st, tTuple(p, tNil())}, {n, tTuple(tNil(), er)}}, false

	// sorting runs the comparison and the exchange once, on unknown elements
	case "sort.Sort", "sort.Stable":
		return nil, c.sortModel()
	case "sort.Slice", "sort.SliceStable":
		x := c.arg(0)
		if x.op == OIface {
			x = x.args[0]
		}
		i, j := tSym("sort.i", types.Typ[types.Int]), tSym("sort.j", types.Typ[types.Int])
		return nil, c.callBack(c.arg(1), []*Term{i, j}, func(s *State, res []*Term) {
			if e.obs.Sorted != nil && len(res) == 1 {
				e.obs.Sorted(s, x, i, j, res[0], c.in)
			}
			e.onStore(s, tIndexAddr(x, i), tSym("sort.x", nil), c.in)
			s.permute(x)
			c.resume(s, tNil())
		})

	// readers
	case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader", "bufio.NewReader", "net/http.MaxBytesReader", "io.LimitReader",
		"io.NopCloser", "io/ioutil.NopCloser", "bufio.NewReaderSize", "io.TeeReader", "io.MultiReader":
		if c.name == "net/http.MaxBytesReader" || c.name == "io.NopCloser" || c.name == "io/ioutil.NopCloser" {
			t := c.opaque(c.name, false)
			return one(t)
		}
		return one(c.opaque(c.name, false))
	case "io/ioutil.ReadAll", "io.ReadAll":
		s := c.freshSym("rd")
		r := c.arg(0)
		if r.op == OIface {
			r = r.args[0]
		}
		buf := mk(OCall, "readall", c.resultTypes()[0], nil, nil, 0, 0, r, s)
		er := mk(OCall, "readallerr", c.resultTypes()[1], nil, nil, 0, 0, r, s)
		return one(tTuple(buf, er))
	case "encoding/json.Unmarshal", "github.com/ghodss/yaml.Unmarshal", "gopkg.in/yaml.v2.Unmarshal":
		p := c.arg(1)
		if p.op == OIface {
			p = p.args[0]
		}
		s := c.freshSym("um")
		p = c.arg(1)
		if p.op == OIface {
			p = p.args[0]
		}
		e.havocPtr(st, p, mk(OCall, "decoded", nil, nil, nil, 0, 0, s))
		er := mk(OCall, c.name, c.resultTypes()[0], nil, nil, 0, 0, c.arg(0), s)
		return one(er)
	case "encoding/pem.Decode":
		s := c.freshSym("pem")
		data := c.arg(0)
		p := mk(OCall, "pem", c.resultTypes()[0], nil, nil, 0, 0, data, s)
		rest := mk(OCall, "pemrest", c.resultTypes()[1], nil, nil, 0, 0, data, s)
		n := st.fork()
		st.setNil(p, false)
		return []outcome{{st, tTuple(p, rest)}, {n, tTuple(tNil(), data)}}, false
	case "(*github.com/lestrrat-go/jwx/jwa.SignatureAlgorithm).Accept":
		s := c.freshSym("acc")
		p, v := c.arg(0), c.arg(1)
		in := v
		if in.op == OIface {
			in = in.args[0]
		}
		n := st.fork()
		st.store(p, in, deref(c.sig.Recv().Type()))
		er := mk(OCall, "accepterr", c.resultTypes()[0], nil, nil, 0, 0, in, s)
		n.setNil(er, false)
		for _, a := range []string{"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "none", "PS256", "PS384", "PS512", "RS256", "RS384", "RS512"} {
			if !n.assume(tBin(token.EQL, in, tStr(a)), false) {
				return one(tNil())
			}
		}
		return []outcome{{st, tNil()}, {n, er}}, false

	// http
	case "net/http.NewRequestWithContext", "net/http.NewRequest":
		s := c.freshSym("req")
		a := c.snaps()
		if c.name == "net/http.NewRequest" {
			a = append([]*Term{mk(OCall, "context.Background", nil, nil, nil, 0, 0)}, a...)
		}
		a = append(a, s)
		req := mk(OCall, "httpreq", c.resultTypes()[0], nil, nil, 0, 0, a...)
		n := st.fork()
		er := mk(OCall, "sentinel", c.resultTypes()[1], nil, nil, 0, 0, tStr("NewRequest"), s)
		return []outcome{{st, tTuple(req, tNil())}, {n, tTuple(tNil(), er)}}, false
	case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
		r := c.arg(0)
		if r.op == OCall && r.str == "httpreq" {
			a := append([]*Term(nil), r.args...)
			a[0] = c.arg(1)
			return one(mk(OCall, "httpreq", r.typ, nil, nil, 0, 0, a...))
		}
		return one(c.opaque(c.name, true))
	case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS",
		"net/http.ListenAndServe", "net/http.ListenAndServeTLS":
		s := c.freshSym("lerr")
		er := mk(OCall, "sentinel", c.resultTypes()[0], nil, nil, 0, 0, tStr("listen"), s)
		return one(er)
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del", "(net/textproto.MIMEHeader).Set", "(net/textproto.MIMEHeader).Add":
		c.headerWrite()
		return void()
	case "(net/http.Header).Get":
		return one(c.headerGet())
	case "(net/http.ResponseWriter).Write", "(net/http.ResponseWriter).WriteHeader":
		if c.meth == "Write" {
			return one(c.opaque(c.name, false))
		}
		return void()
	}
	if c.isDo() {
		t := c.opaque("do", false)
		return one(t)
	}
	// everything else: opaque, and it may change what its arguments point to
	t := c.opaque(c.name, false)
	if !readOnlyCall(c.name) {
		for i := range c.args {
			a := c.args[i]
			if a.op == OIface {
				a = a.args[0]
			}
			if (a.op == OAlloc || a.op == OFieldAddr || a.op == OIndexAddr) && a.root().op == OAlloc {
				if _, isChan := chanType(a.root().typ); isChan {
					continue
				}
				e.havocPtr(st, a, mk(OCall, "by", nil, nil, nil, 0, 0, tStr(c.name)))
			}
		}
	}
	return one(t)
}

func chanType(t types.Type) (*types.Chan, bool) {
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	return c, ok
}

func readOnlyCall(name string) bool {
	for _, p := range []string{"fmt.", "log.", "(*log.", "(*" + zl, zl, "(io.Closer).", "(*os.File).Close", "(*net/http.ServeMux).", "flag.", "(*crypto/x509.Certificate).",
		"(*crypto/x509.CertPool)", "(hash.Hash)", "(*bytes.Buffer).", "(*strings.Builder).", "(*compress/gzip.Writer).", "(*compress/gzip.Reader).", "io.WriteString"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// havocPtr forgets what p points to.
func (e *Engine) havocPtr(st *State, p *Term, why *Term) {
	if p.op == ONil {
		return
	}
	if p.op == OAlloc || p.op == OGlobal {
		n := &Obj{root: p, fuzzy: why}
		n.rehash()
		if o := st.obj(p); o != nil {
			n.summary = o.summary
		}
		// nested pointers to allocated objects
		st.setObj(n)
		return
	}
	if p.root().op == OAlloc {
		st.havoc(p.root(), why)
	}
}

func (st *State) lock(l *Term) {
	st.locks = append(append([]*Term(nil), st.locks...), l)
}

func (st *State) unlock(l *Term) {
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i] == l {
			st.locks = append(append([]*Term(nil), st.locks[:i]...), st.locks[i+1:]...)
			return
		}
	}
}

// fire marks a done channel, and those of derived contexts, as closed.
func (e *Engine) fire(st *State, d *Term) {
	st.assume(tCall("fired", d), true)
}

func (e *Engine) fired(st *State, d *Term) bool {
	for d.op == OCall && d.str == "done" {
		if st.fact(tCall("fired", d)).b == 1 {
			return true
		}
		ctx := d.args[0]
		if ctx.op != OCall || ctx.str != "ctx" {
			return false
		}
		d = mk(OCall, "done", nil, nil, nil, 0, 0, ctx.args[0])
	}
	return st.fact(tCall("fired", d)).b == 1
}

// callBack runs a function value inline; after gets control when it returns. Returns true if handled.
func (c *CallEv) callBack(f *Term, args []*Term, after func(s *State, res []*Term)) bool {
	if f.op == OIface {
		f = f.args[0]
	}
	if (f.op == OClosure || f.op == OFunc) && f.fn.Blocks != nil {
		fr := c.e.pushFrame(c.st, f.fn, args, f.args, fkModel, nil, "model:"+c.name)
		fr.after = after
		if c.e.obs.Enter != nil {
			c.e.obs.Enter(c.st, f.fn, args)
		}
		return true
	}
	after(c.st, nil)
	return true
}

// resume continues after a call whose model ran other code first.
func (c *CallEv) resume(s *State, res *Term) {
	if c.e.obs.Ret != nil {
		c.e.obs.Ret(c, s, res)
	}
	c.e.deliver(c, s, res)
}

func (st *State) permute(x *Term) {
	if x.op == OIface {
		x = x.args[0]
	}
	switch x.op {
	case OSliceV:
		st.havoc(x.args[0].root(), tStr("sorted"))
	default:
		if o := st.obj(x.root()); o != nil && x.op == OLoad {
			st.havoc(x.root(), tStr("sorted"))
		}
	}
	st.oset("sorted", append(append([]*Term(nil), st.oget("sorted")...), x)...)
}

func (c *CallEv) sortModel() bool {
	e, st := c.e, c.st
	x := c.arg(0)
	if x.op != OIface {
		e.finish2(c, tNil())
		return true
	}
	meth := func(n string) *ssa.Function {
		ms := e.P.prog.MethodSets.MethodSet(x.typ)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return e.P.prog.MethodValue(ms.At(i))
			}
		}
		return nil
	}
	less, swap := meth("Less"), meth("Swap")
	i, j := tSym("sort.i", types.Typ[types.Int]), tSym("sort.j", types.Typ[types.Int])
	fin := func(s *State) {
		s.permute(x)
		c.resume(s, tNil())
	}
	if less == nil || swap == nil || less.Blocks == nil || swap.Blocks == nil {
		// e.g. sort.Reverse
		fin(st)
		return true
	}
	fr := e.pushFrame(st, less, []*Term{x.args[0], i, j}, nil, fkModel, nil, "less")
	fr.after = func(s *State, res []*Term) {
		if e.obs.Sorted != nil && len(res) == 1 {
			e.obs.Sorted(s, x.args[0], i, j, res[0], c.in)
		}
		fr2 := e.pushFrame(s, swap, []*Term{x.args[0], i, j}, nil, fkModel, nil, "swap")
		fr2.after = func(s *State, res []*Term) { fin(s) }
	}
	return true
}

// poolType finds the one type a pool's New function returns.
func (e *Engine) poolType(st *State, pool *Term) types.Type {
	pt := pool.root()
	_ = pt
	stp := structOf(derefTermType(pool))
	if stp == nil {
		return nil
	}
	idx := -1
	for i := 0; i < stp.NumFields(); i++ {
		if stp.Field(i).Name() == "New" {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	f := st.load(tFieldAddr(pool, idx, "New"), stp.Field(idx).Type())
	if f.op != OFunc && f.op != OClosure || f.fn.Blocks == nil {
		return nil
	}
	var typ types.Type
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			m, ok := r.Results[0].(*ssa.MakeInterface)
			if !ok || (typ != nil && !types.Identical(typ, m.X.Type())) {
				return nil
			}
			typ = m.X.Type()
		}
	}
	return typ
}

func derefTermType(p *Term) types.Type {
	if p.op == OGlobal || p.op == OAlloc {
		return p.typ
	}
	if p.typ != nil {
		return deref(p.typ)
	}
	if p.op == OFieldAddr {
		if s := structOf(derefTermType(p.args[0])); s != nil && int(p.n) < s.NumFields() {
			return s.Field(int(p.n)).Type()
		}
	}
	return nil
}

// ---- log events -----------------------------------------------------------

func (c *CallEv) newEvent(level string) *Term {
	typ := c.resultTypes()[0]
	if !c.e.obs.TrackLog {
		switch level {
		case "fatal", "panic":
			return mk(OCall, "zevent:"+level, typ, nil, nil, 0, 0)
		}
		return mk(OCall, "zevent", typ, nil, nil, 0, 0)
	}
	// one value per call site: the events made there are told apart by what the path did, see logEvent
	return mk(OCall, "zevent:"+level, typ, nil, nil, 0, 0, tStr(c.pos()))
}

func (c *CallEv) logEvent() ([]outcome, bool) {
	st, e := c.st, c.e
	ev := c.arg(0)
	level := ""
	switch {
	case ev.op == OCall && strings.HasPrefix(ev.str, "zevent:"):
		level = ev.str[7:]
	}
	switch c.meth {
	case "Msg", "Msgf", "Send", "MsgFunc":
		switch level {
		case "fatal":
			return nil, false
		case "panic":
			e.doPanic(st, tStr("log.Panic"))
			return nil, true
		}
		return []outcome{{st, tNil()}}, false
	case "Enabled":
		return []outcome{{st, c.opaque(c.name, true)}}, false
	}
	return []outcome{{st, ev}}, false
}

// ---- headers ---------------------------------------------------------------

func canonKey(k *Term) *Term {
	if s, ok := strConst(k); ok {
		return tStr(textproto.CanonicalMIMEHeaderKey(s))
	}
	return k
}

// emptyAtFirst: header maps that have no entries when the handler gets them
func emptyAtFirst(m *Term) bool {
	if m.op == OCall && m.str == "(net/http.ResponseWriter).Header" {
		return true
	}
	if m.op == OLoad && m.args[0].op == OFieldAddr && m.args[0].args[0].op == OCall && m.args[0].args[0].str == "httpreq" {
		return true
	}
	return false
}

// seqOf: the collection that a loop took the element from
func seqOf(v *Term) *Term {
	if v.op == OLoad {
		v = v.args[0]
	}
	if v.op != OIndexAddr {
		return nil
	}
	if b, _ := linear(v.args[1]); b == nil || b.op != OSym {
		return nil
	}
	return v.args[0]
}

func (c *CallEv) headerWrite() {
	st := c.st
	if !c.e.obs.TrackHeaders {
		return
	}
	m := c.arg(0)
	k := canonKey(st.norm(c.arg(1)))
	if c.otherHeader(k) {
		return
	}
	p := tIndexAddr(m, k)
	o := st.objOrNew(m.root())
	switch c.meth {
	case "Set":
		st.setObj(o.with(p, mk(OList, "", nil, nil, nil, 0, 0, st.norm(c.arg(2)))))
	case "Add":
		old := o.get(p)
		var args []*Term
		switch {
		case old != nil && old.op == OList:
			args = append(args, old.args...)
		case old != nil:
			args = append(args, tCall("values", old))
		case !emptyAtFirst(m) || o.fuzzy != nil:
			args = append(args, tCall("values", mk(OLookup, "", nil, nil, nil, 0, 0, m, k)))
		}
		v := st.norm(c.arg(2))
		if n := len(args); n == 0 {
			args = append(args, v)
		} else if q := seqOf(v); q != nil && (seqOf(args[n-1]) == q || args[n-1] == tCall("values", q)) {
			// one after the other of the values of another header
			many := tCall("values", q)
			if n > 1 && args[n-2] == many {
				n--
			}
			args = append(args[:n-1:n-1], many, many)
		} else if args[n-1] != v {
			args = append(args, v)
		}
		if len(args) > 6 {
			args = args[:6]
		}
		st.setObj(o.with(p, mk(OList, "", nil, nil, nil, 0, 0, args...)))
	case "Del":
		st.setObj(o.with(p, mk(OList, "", nil, nil, nil, 0, 0)))
	}
}

// otherHeader: a header that this observer does not follow
func (c *CallEv) otherHeader(k *Term) bool {
	only := c.e.obs.OnlyHeaders
	if len(only) == 0 {
		return false
	}
	s, ok := strConst(k)
	for _, o := range only {
		if ok && s == o {
			return false
		}
	}
	return ok || k == otherKey()
}

func (c *CallEv) headerGet() *Term {
	st := c.st
	m := c.arg(0)
	k := canonKey(st.norm(c.arg(1)))
	if c.e.obs.TrackHeaders && c.otherHeader(k) && emptyAtFirst(m) {
		return mk(OCall, "hdrget", types.Typ[types.String], nil, nil, 0, 0, m, k, c.freshSym("hdr"))
	}
	if c.e.obs.TrackHeaders {
		o := st.obj(m.root())
		var v *Term
		if o != nil {
			v = o.get(tIndexAddr(m, k))
		}
		if v != nil {
			if v.op == OList {
				if len(v.args) == 0 {
					return tStr("")
				}
				return v.args[0]
			}
			if v.op == OSliceV && v.m > 0 {
				return st.load(tIndexAddr(v.args[0], tInt(v.n)), types.Typ[types.String])
			}
			return mk(OCall, "hdrget", types.Typ[types.String], nil, nil, 0, 0, v)
		}
		if emptyAtFirst(m) && (o == nil || o.fuzzy == nil) {
			return tStr("")
		}
	}
	return mk(OCall, "hdrget", types.Typ[types.String], nil, nil, 0, 0, m, k)
}

var _ = token.ADD
