package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C31"] = checkSecrets }

// what a value may contain
type labels uint8

const (
	lToken labels = 1 << iota
	lKey
	lBody
	lConfig
	lFmtObj  // an object whose formatted text has some of the above in it
	lJSONObj // the same for its JSON
	lText    // the text that was made of such an object
)

func (l labels) String() string {
	var s []string
	for i, n := range []string{"the Authorization header or bearer token", "key material", "the content of a body", "the text of the configuration", "an object that has secrets or bodies in it", "an object that has secrets or bodies in it", "an object that has secrets or bodies in it"} {
		if n == s0(s) {
			continue
		}
		if l&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, ", ")
}

func s0(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[len(s)-1]
}

const lContent = lToken | lKey | lBody | lConfig | lText

// flow is a taint analysis over the whole program: every function is looked at once per chain of its last two call sites,
// the fields of a struct type are told apart, everything else that is reached through pointers is not.
type flow struct {
	P      *Program
	r      *Report
	nodes  map[interface{}]int
	lab    []labels
	what   []string
	out    [][]edge
	from   []map[labels]int // where each label came from first
	seen   map[ctxFn]bool
	work   []ctxFn
	sinks  []sinkAt
	boxes  []boxAt
	source map[*types.Var]labels
	named  []types.Type
	libs   map[string]bool
	sites  map[string]ssa.CallInstruction
}

type edge struct {
	to   int
	mask labels
	conv labels // what turns into text on the way
}
type ctxFn struct {
	ctx string
	fn  *ssa.Function
}
type valNode struct {
	ctx string
	v   ssa.Value
}
type tupNode struct {
	ctx string
	v   ssa.Value
	i   int
}
type resNode struct {
	ctx string
	fn  *ssa.Function
	i   int
}
type sinkAt struct {
	node int
	in   ssa.Instruction
	name string
	mask labels
}
type boxAt struct {
	node int
	t    types.Type
}

func (f *flow) node(k interface{}, what func() string) int {
	if n, ok := f.nodes[k]; ok {
		return n
	}
	n := len(f.lab)
	f.nodes[k] = n
	f.lab = append(f.lab, 0)
	f.out = append(f.out, nil)
	f.from = append(f.from, nil)
	f.what = append(f.what, what())
	return n
}

func (f *flow) edge(a, b int, mask labels) { f.edgeConv(a, b, mask, 0) }

func (f *flow) edgeConv(a, b int, mask, conv labels) {
	if a < 0 || b < 0 || a == b {
		return
	}
	for _, e := range f.out[a] {
		if e == (edge{b, mask, conv}) {
			return
		}
	}
	f.out[a] = append(f.out[a], edge{b, mask, conv})
}

const all labels = 255

// both: two names of the same memory
func (f *flow) flow(a, b int, t types.Type) {
	f.edge(a, b, all)
	if reference(t) {
		f.edge(b, a, all)
	}
}

func reference(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reference(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// byField: structs whose fields are told apart
func (f *flow) byField(t types.Type) bool {
	t = deref(t)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	if f.P.ownPkg(n.Obj().Pkg()) {
		return true
	}
	switch n.Obj().Pkg().Path() {
	case "net/http", "net/url", "crypto/tls":
		return true
	}
	return false
}

// carries: can a value of this type have the text of a secret or a body in it?
func (f *flow) carries(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		if f.byField(p.Elem()) {
			return false
		}
		t = p.Elem()
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return f.carries(t)
		}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch p := n.Obj().Pkg().Path(); p {
		case "time", "context", "sync", "sync/atomic", "net", "net/url", "regexp", "crypto/tls", "crypto/rsa", "crypto/ecdsa", "crypto/x509", "crypto/elliptic", "math/big", "reflect",
			"os", "os/signal", zl, "github.com/lestrrat-go/jwx/jwa", "hash":
			return n.Obj().Name() == "File" || n.Obj().Name() == "Values"
		case "net/http":
			return n.Obj().Name() == "Header"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Uint8 || u.Kind() == types.Int32 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		return !f.byField(t)
	case *types.Slice:
		return f.carries(u.Elem())
	case *types.Array:
		return f.carries(u.Elem())
	case *types.Map:
		return f.carries(u.Elem()) || f.carries(u.Key())
	case *types.Chan:
		return f.carries(u.Elem())
	case *types.Pointer:
		return f.carries(u.Elem())
	case *types.Signature, *types.Tuple:
		return false
	}
	return true
}

// at is the node of a value; -1 if it cannot have anything in it.
func (f *flow) at(ctx string, v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return -1
	case *ssa.FieldAddr:
		if f.byField(v.X.Type()) {
			fv := fieldVar(v.X.Type(), v.Field)
			if !f.carries(fv.Type()) {
				return -1
			}
			return f.field(fv, v.X.Type())
		}
		return f.at(ctx, v.X)
	case *ssa.IndexAddr:
		if !f.carries(deref(v.Type())) {
			return -1
		}
		return f.at(ctx, v.X)
	case *ssa.Global:
		if !f.carries(deref(v.Type())) {
			return -1
		}
		return f.node(v, func() string { return "variable " + v.Name() })
	}
	if !f.carries(v.Type()) {
		return -1
	}
	if _, ok := v.(*ssa.FreeVar); ok {
		ctx = ""
	}
	return f.node(valNode{ctx, v}, func() string {
		w := f.P.pos(v.Pos())
		if p := v.Parent(); p != nil {
			w += " in " + shortName(p.RelString(nil))
		}
		return w
	})
}

func (f *flow) field(v *types.Var, owner types.Type) int {
	n := f.node(v, func() string { return "field " + shortName(types.TypeString(deref(owner), nil)) + "." + v.Name() })
	if l, ok := f.source[v]; ok {
		f.mark(n, l)
	}
	return n
}

func (f *flow) tup(ctx string, v ssa.Value, i int, t types.Type) int {
	if !f.carries(t) {
		return -1
	}
	return f.node(tupNode{ctx, v, i}, func() string { return f.P.pos(v.Pos()) })
}

func (f *flow) res(ctx string, fn *ssa.Function, i int) int {
	if !f.carries(fn.Signature.Results().At(i).Type()) {
		return -1
	}
	return f.node(resNode{ctx, fn, i}, func() string { return "result of " + shortName(fn.RelString(nil)) })
}

func (f *flow) mark(n int, l labels) {
	if n >= 0 {
		f.lab[n] |= l
	}
}

func (f *flow) enter(ctx string, fn *ssa.Function) string {
	if fn.Parent() != nil {
		ctx = ""
	}
	k := ctxFn{ctx, fn}
	if !f.seen[k] {
		f.seen[k] = true
		f.work = append(f.work, k)
	}
	return ctx
}

func pushCtx(ctx string, in ssa.Instruction) string {
	s := fmt.Sprintf("%p", in)
	if i := strings.LastIndexByte(ctx, ' '); i >= 0 {
		ctx = ctx[i+1:]
	}
	return strings.TrimSpace(ctx + " " + s)
}

// constOf: the strings that a value can be, looking at the call sites that lead here
func (f *flow) constOf(v ssa.Value, depth int) ([]string, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return []string{constant.StringVal(v.Value)}, true
		}
	case *ssa.ChangeType:
		return f.constOf(v.X, depth)
	case *ssa.Phi:
		if depth > 4 {
			return nil, false
		}
		var l []string
		for _, e := range v.Edges {
			s, ok := f.constOf(e, depth+1)
			if !ok {
				return nil, false
			}
			l = append(l, s...)
		}
		return l, true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return f.globalStrings(g)
		}
	}
	return nil, false
}

// globalStrings: what a variable is set to, if that is written down in one place
func (f *flow) globalStrings(g *ssa.Global) ([]string, bool) {
	var l []string
	ok := true
	visit := func(fn *ssa.Function) {
		each(fn, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op != g {
					continue
				}
				if s, is := in.(*ssa.Store); is && s.Addr == g {
					c, k := f.constOf(s.Val, 5)
					l, ok = append(l, c...), ok && k
				} else if u, is := in.(*ssa.UnOp); !is || u.Op != token.MUL {
					ok = false
				}
			}
		})
	}
	for _, fn := range f.P.funcs {
		visit(fn)
	}
	if in := g.Pkg.Func("init"); in != nil {
		visit(in)
	}
	return l, ok && len(l) > 0
}

// strings that the value can be in this context
func (f *flow) keys(ctx string, v ssa.Value) ([]string, bool) {
	if l, ok := f.constOf(v, 0); ok {
		return l, true
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || ctx == "" {
		return nil, false
	}
	parts := strings.Split(ctx, " ")
	site := f.sites[parts[len(parts)-1]]
	if site == nil {
		return nil, false
	}
	for i, q := range p.Parent().Params {
		if q == p && i < len(site.Common().Args) {
			up := ""
			if len(parts) > 1 {
				up = parts[0]
			}
			return f.keys(up, site.Common().Args[i])
		}
	}
	return nil, false
}

var declassified = regexp.MustCompile(`^(KeyID|Algorithm|KeyType|KeyUsage|Len|Cap|Type|DetectContentType|TypeOf)$`)

// functions that write to what their arguments point at
var writesArgs = regexp.MustCompile(`Unmarshal|Decode|Read|Copy|Encode|Scan|Write|Fprint|Marshal|Indent|Compact|Execute|Append|Put|Raw`)

// callees: the own functions that a call can reach
func (f *flow) callees(c *ssa.CallCommon) (l []*ssa.Function, library bool) {
	if g := c.StaticCallee(); g != nil {
		if g.Blocks != nil && f.P.ownFn(g) {
			return []*ssa.Function{g}, false
		}
		return nil, true
	}
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, t := range f.named {
			if it != nil && types.Implements(t, it) {
				if sel := f.P.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if m := f.P.prog.MethodValue(sel); m != nil && m.Blocks != nil {
						l = append(l, m)
					}
				}
			}
		}
		return l, true
	}
	_, bySig := f.P.callRefs()
	return bySig[sigKey(c.Signature())], true
}

// keepError: library functions whose errors quote what they were given
func keepError(name string) bool {
	for _, p := range []string{"errors.", "fmt.", "strconv.", "net/url.", "time.Parse", "github.com/pkg/errors.", "net/http.NewRequest", "net/textproto."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func pkgOf(name string) string {
	name = strings.TrimLeft(name, "(*")
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		if j := strings.IndexByte(name[i:], '.'); j >= 0 {
			return name[:i+j]
		}
		return name
	}
	if j := strings.IndexByte(name, '.'); j >= 0 {
		return name[:j]
	}
	return name
}

func (f *flow) call(ctx string, ci ssa.CallInstruction) {
	c := ci.Common()
	in := ci.(ssa.Instruction)
	f.sites[fmt.Sprintf("%p", in)] = ci
	val, _ := in.(ssa.Value)
	result := func(i int) int {
		rs := c.Signature().Results()
		switch {
		case val == nil || rs.Len() <= i:
			return -1
		case rs.Len() == 1:
			return f.at(ctx, val)
		}
		return f.tup(ctx, val, i, rs.At(i).Type())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			f.flow(f.at(ctx, c.Args[0]), f.at(ctx, val), val.Type())
			if len(c.Args) > 1 {
				f.edge(f.at(ctx, c.Args[1]), f.at(ctx, val), all)
			}
		case "copy":
			f.edge(f.at(ctx, c.Args[1]), f.at(ctx, c.Args[0]), all)
		case "min", "max":
			for _, a := range c.Args {
				f.edge(f.at(ctx, a), f.at(ctx, val), all)
			}
		case "print", "println":
			for _, a := range c.Args {
				f.sink(f.at(ctx, a), in, b.Name(), lContent)
			}
		}
		return
	}
	own, library := f.callees(c)
	for _, g := range own {
		sub := pushCtx(ctx, in)
		if len(own) > 1 || library {
			sub = ""
		}
		sub = f.enter(sub, g)
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{nil}, args...)
		}
		for i, p := range g.Params {
			if i < len(args) && args[i] != nil {
				f.flow(f.at(ctx, args[i]), f.at(sub, p), p.Type())
			}
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if i < c.Signature().Results().Len() {
				f.flow(f.res(sub, g, i), result(i), g.Signature.Results().At(i).Type())
			}
		}
	}
	if library {
		f.libcall(ctx, ci, result)
	}
}

func (f *flow) sink(n int, in ssa.Instruction, name string, mask labels) {
	pos := f.P.pos(instrPos(in))
	f.r.site("values put out", pos)
	if n >= 0 {
		f.sinks = append(f.sinks, sinkAt{n, in, name, mask})
	}
}

// writesLog: what a function of a library puts out, given its arguments
func writesLog(name string) (from int, mask labels) {
	switch {
	case strings.HasPrefix(name, "(*"+zl+".Event).") || strings.HasPrefix(name, "("+zl+".Context).") || strings.HasPrefix(name, "(*"+zl+".Array)."):
		m := name[strings.LastIndexByte(name, '.')+1:]
		if m == "Msgf" {
			return 1, lContent | lFmtObj
		}
		return 1, lContent | lJSONObj
	case strings.HasPrefix(name, zl+"/log.Print"):
		return 0, lContent | lFmtObj
	case strings.HasPrefix(name, "(*"+zl+".Logger).Print") || strings.HasPrefix(name, "(*"+zl+".Logger).Write") || strings.HasPrefix(name, "("+zl+".Logger).Write"):
		return 1, lContent | lFmtObj
	case strings.HasPrefix(name, "log.") && name != "log.New" && name != "log.SetOutput":
		return 0, lContent | lFmtObj
	case strings.HasPrefix(name, "(*log.Logger).") || strings.HasPrefix(name, "(*log/syslog.Writer)."):
		return 1, lContent | lFmtObj
	case strings.HasPrefix(name, "log/slog."):
		return 0, lContent | lFmtObj | lJSONObj
	case strings.HasPrefix(name, "(*log/slog.Logger)."):
		return 1, lContent | lFmtObj | lJSONObj
	case strings.HasPrefix(name, "fmt.Print"):
		return 0, lContent | lFmtObj
	}
	return -1, 0
}

// standardStream: os.Stdout, os.Stderr or the logger
func standardStream(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Global:
			return x.Pkg.Pkg.Path() == "os" && (x.Name() == "Stdout" || x.Name() == "Stderr") || strings.HasPrefix(x.Pkg.Pkg.Path(), zl)
		}
		return tkey(v.Type()) == zl+".Logger" || tkey(v.Type()) == "*"+zl+".Logger"
	}
}

func (f *flow) libcall(ctx string, ci ssa.CallInstruction, result func(int) int) {
	c := ci.Common()
	in := ci.(ssa.Instruction)
	name := calleeName(c)
	f.libs[name] = true
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	if from, mask := writesLog(name); from >= 0 {
		for i, a := range args {
			if i >= from {
				f.sink(f.at(ctx, a), in, name, mask)
			}
		}
		return
	}
	meth := name[strings.LastIndexByte(name, '.')+1:]
	rs := c.Signature().Results()
	pkg := pkgOf(name)
	if (strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "io.WriteString") || name == "(*os.File).Write" || name == "(*os.File).WriteString" || strings.HasPrefix(name, "io.Copy")) && len(args) > 1 && standardStream(args[0]) {
		for _, a := range args[1:] {
			f.sink(f.at(ctx, a), in, name, lContent|lFmtObj)
		}
		return
	}
	// sources
	switch name {
	case "os.Getenv", "os.LookupEnv", "syscall.Getenv":
		if k, ok := f.keys(ctx, args[0]); ok {
			for _, s := range k {
				if s == "J8ACFG_YML" {
					f.mark(result(0), lConfig)
					f.r.site("sources", f.P.pos(instrPos(in)))
				}
			}
		} else {
			f.mark(result(0), lConfig)
			f.r.site("sources", f.P.pos(instrPos(in)))
		}
		return
	case "os.Environ":
		f.mark(result(0), lConfig)
		return
	case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile":
		f.mark(result(0), lConfig)
		f.r.site("sources", f.P.pos(instrPos(in)))
		return
	case "(net/http.Header).Get", "(net/http.Header).Values", "(net/textproto.MIMEHeader).Get", "(net/textproto.MIMEHeader).Values":
		auth := true
		if k, ok := f.keys(ctx, args[1]); ok {
			auth = false
			for _, s := range k {
				auth = auth || isAuthKey(s)
			}
		}
		mask := all
		if !auth {
			mask &^= lToken
		}
		f.edge(f.at(ctx, args[0]), result(0), mask)
		return
	case "(*net/http.Request).BasicAuth":
		f.mark(result(0), lToken)
		f.mark(result(1), lToken)
		return
	case "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue":
		f.mark(result(0), lBody)
		return
	case "net/http/httputil.DumpRequest", "net/http/httputil.DumpRequestOut":
		f.mark(result(0), lToken|lBody)
		return
	case "net/http/httputil.DumpResponse":
		f.mark(result(0), lBody)
		return
	}
	if strings.HasPrefix(pkg, "crypto/") || strings.HasPrefix(pkg, "hash") || declassified.MatchString(meth) {
		if pkg != "crypto/tls" && pkg != "crypto/cipher" {
			return
		}
	}
	mask, conv := lContent, labels(0)
	switch {
	case strings.HasPrefix(name, "fmt."):
		conv = lFmtObj
	case strings.Contains(meth, "Marshal") && !strings.Contains(meth, "Unmarshal") || strings.Contains(name, "encoding/") && meth == "Encode":
		conv = lJSONObj
	case strings.Contains(pkg, "spew") || strings.Contains(pkg, "pretty"):
		conv = lFmtObj | lJSONObj
	}
	if strings.Contains(pkg, "lestrrat-go/jwx/jwt") || strings.Contains(pkg, "lestrrat-go/jwx/jws") {
		// what a token says is not the token
		return
	}
	if name == "(error).Error" || meth == "Error" && rs.Len() == 1 {
		f.edge(f.at(ctx, args[0]), result(0), all)
		return
	}
	if fn := c.StaticCallee(); fn != nil && strings.Contains(pkg, "jwx/jwk") && strings.HasPrefix(meth, "Fetch") {
		f.mark(result(0), lKey)
		f.r.site("sources", f.P.pos(instrPos(in)))
		return
	}
	receives := func(i int) bool {
		if i == 0 && (c.IsInvoke() || c.Signature().Recv() != nil) {
			return true
		}
		return writesArgs.MatchString(meth)
	}
	for i, a := range args {
		n := f.at(ctx, a)
		if n < 0 {
			continue
		}
		for j := 0; j < rs.Len(); j++ {
			if isErrorType(rs.At(j).Type()) && (!keepError(name) || strings.HasPrefix(name, "net/http.") && !textual(a.Type())) {
				continue
			}
			f.edgeConv(n, result(j), mask, conv)
			if reference(rs.At(j).Type()) && reference(a.Type()) {
				f.edge(result(j), n, mask)
			}
		}
		for k, b := range args {
			if k == i || !receives(k) {
				continue
			}
			switch b.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
				f.edgeConv(n, f.at(ctx, b), mask, conv)
			}
		}
	}
}

func textual(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isAuthKey(s string) bool {
	return textproto.CanonicalMIMEHeaderKey(s) == "Authorization"
}

func (f *flow) function(k ctxFn) {
	ctx, fn := k.ctx, k.fn
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.instr(ctx, in)
		}
	}
}

func (f *flow) instr(ctx string, in ssa.Instruction) {
	if ci, ok := in.(ssa.CallInstruction); ok {
		f.call(ctx, ci)
		return
	}
	into := func(v ssa.Value, ops ...ssa.Value) {
		for _, o := range ops {
			f.flow(f.at(ctx, o), f.at(ctx, v), v.Type())
		}
	}
	oneWay := func(v ssa.Value, ops ...ssa.Value) {
		for _, o := range ops {
			f.edge(f.at(ctx, o), f.at(ctx, v), all)
		}
	}
	switch in := in.(type) {
	case *ssa.Phi:
		into(in, in.Edges...)
	case *ssa.ChangeType:
		into(in, in.X)
	case *ssa.ChangeInterface:
		oneWay(in, in.X)
		f.edge(f.at(ctx, in), f.at(ctx, in.X), all)
	case *ssa.Convert:
		oneWay(in, in.X)
	case *ssa.SliceToArrayPointer:
		into(in, in.X)
	case *ssa.MakeInterface:
		oneWay(in, in.X)
		if reference(in.X.Type()) {
			f.edge(f.at(ctx, in), f.at(ctx, in.X), lContent)
		}
		if n := f.at(ctx, in); n >= 0 {
			f.boxes = append(f.boxes, boxAt{n, in.X.Type()})
			f.texts(in.X.Type(), n)
		}
	case *ssa.TypeAssert:
		n := f.at(ctx, in)
		if in.CommaOk {
			n = f.tup(ctx, in, 0, in.AssertedType)
		}
		f.edge(f.at(ctx, in.X), n, all)
		if reference(in.AssertedType) {
			f.edge(n, f.at(ctx, in.X), all)
		}
	case *ssa.Extract:
		if n := f.tup(ctx, in.Tuple, in.Index, in.Type()); n >= 0 {
			f.flow(n, f.at(ctx, in), in.Type())
		}
	case *ssa.Field:
		if f.byField(in.X.Type()) {
			if fv := fieldVar(in.X.Type(), in.Field); f.carries(fv.Type()) {
				f.flow(f.field(fv, in.X.Type()), f.at(ctx, in), in.Type())
			}
		} else {
			into(in, in.X)
		}
	case *ssa.Index:
		into(in, in.X)
	case *ssa.Lookup:
		n := f.at(ctx, in)
		if in.CommaOk {
			n = f.tup(ctx, in, 0, in.Type().(*types.Tuple).At(0).Type())
		}
		mask := all
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			k, known := f.keys(ctx, in.Index)
			auth := !known
			for _, s := range k {
				auth = auth || isAuthKey(s)
			}
			_, lists := m.Elem().Underlying().(*types.Slice)
			if known && (!lists || !auth) {
				// one claim of a token, or another header
				mask &^= lToken
			}
			if reference(m.Elem()) {
				f.edge(n, f.at(ctx, in.X), all)
			}
		}
		f.edge(f.at(ctx, in.X), n, mask)
	case *ssa.Slice:
		into(in, in.X)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			into(in, in.X)
		case token.ARROW:
			n := f.at(ctx, in)
			if in.CommaOk {
				n = f.tup(ctx, in, 0, in.Type().(*types.Tuple).At(0).Type())
			}
			f.edge(f.at(ctx, in.X), n, all)
		}
	case *ssa.BinOp:
		if in.Op == token.ADD {
			oneWay(in, in.X, in.Y)
		}
	case *ssa.Store:
		a := f.at(ctx, in.Addr)
		f.flow(f.at(ctx, in.Val), a, in.Val.Type())
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			f.given(ctx, fa, in.Val)
		}
	case *ssa.MapUpdate:
		m := f.at(ctx, in.Map)
		f.flow(f.at(ctx, in.Value), m, in.Value.Type())
		f.edge(f.at(ctx, in.Key), m, all)
	case *ssa.Send:
		f.flow(f.at(ctx, in.X), f.at(ctx, in.Chan), in.X.Type())
	case *ssa.Range:
		// the iterator stands for what it goes over
	case *ssa.Next:
		r, ok := in.Iter.(*ssa.Range)
		if !ok {
			return
		}
		x := f.at(ctx, r.X)
		tp := in.Type().(*types.Tuple)
		if in.IsString {
			f.edge(x, f.tup(ctx, in, 2, tp.At(2).Type()), all)
			return
		}
		m, ok := r.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		// names of headers are no secrets
		if !isNamed(r.X.Type(), "net/http.Header") {
			f.edge(x, f.tup(ctx, in, 1, tp.At(1).Type()), all)
		}
		v := f.tup(ctx, in, 2, tp.At(2).Type())
		f.edge(x, v, all)
		if reference(m.Elem()) {
			f.edge(v, x, all)
		}
	case *ssa.Select:
		i := 2
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				f.edge(f.at(ctx, s.Chan), f.tup(ctx, in, i, in.Type().(*types.Tuple).At(i).Type()), all)
				i++
			} else {
				f.edge(f.at(ctx, s.Send), f.at(ctx, s.Chan), all)
			}
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		f.enter("", g)
		for i, v := range in.Bindings {
			a, b := f.at(ctx, v), f.at("", g.FreeVars[i])
			f.edge(a, b, all)
			f.edge(b, a, all)
		}
	case *ssa.Return:
		for i, v := range in.Results {
			f.flow(f.at(ctx, v), f.res(ctx, in.Parent(), i), v.Type())
		}
	}
}

// given: a parameter that is kept as a secret is one
func (f *flow) given(ctx string, fa *ssa.FieldAddr, v ssa.Value) {
	if !f.byField(fa.X.Type()) {
		return
	}
	l, ok := f.source[fieldVar(fa.X.Type(), fa.Field)]
	if !ok {
		return
	}
	if p, ok := v.(*ssa.Parameter); ok {
		f.mark(f.at(ctx, p), l)
	}
}

// texts: what an object's own methods make of it when it is put out
func (f *flow) texts(t types.Type, n int) {
	for _, m := range []string{"String", "Error", "MarshalJSON", "MarshalText", "GoString", "Format"} {
		sel := f.P.prog.MethodSets.MethodSet(t).Lookup(nil, m)
		if sel == nil {
			continue
		}
		g := f.P.prog.MethodValue(sel)
		if g == nil || g.Blocks == nil || !f.P.ownFn(g) || g.Signature.Results().Len() == 0 {
			continue
		}
		sub := f.enter("", g)
		f.edge(f.res(sub, g, 0), n, all)
	}
}

// inside: is there a field with a label in an object of this type, as far as it is put out?
func (f *flow) inside(t types.Type, json bool, top bool, seen map[types.Type]bool) *types.Var {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if sel := f.P.prog.MethodSets.MethodSet(t); !isErrorType(t) {
		names := []string{"String", "Error", "Format"}
		if json {
			names = []string{"MarshalJSON", "MarshalText"}
		}
		for _, m := range names {
			if sel.Lookup(nil, m) != nil {
				return nil
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if json || top {
			return f.inside(u.Elem(), json, false, seen)
		}
	case *types.Slice:
		return f.inside(u.Elem(), json, false, seen)
	case *types.Array:
		return f.inside(u.Elem(), json, false, seen)
	case *types.Map:
		return f.inside(u.Elem(), json, false, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			v := u.Field(i)
			if json && (!v.Exported() || strings.Contains(u.Tag(i), `json:"-"`)) {
				continue
			}
			if n, ok := f.nodes[v]; ok && f.lab[n]&lContent != 0 {
				return v
			}
			if _, ok := f.source[v]; ok {
				return v
			}
			if x := f.inside(v.Type(), json, false, seen); x != nil {
				return x
			}
		}
	}
	return nil
}

var secretField = regexp.MustCompile(`(?i)^(key|secret|privatekey|password)$`)

// sources: the fields that hold secrets and bodies
func (f *flow) sources() {
	seen := map[types.Type]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Elem())
		case *types.Struct:
			if !f.byField(t) {
				return
			}
			if n, ok := t.(*types.Named); ok && !f.P.ownPkg(n.Obj().Pkg()) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				v := u.Field(i)
				if secretField.MatchString(v.Name()) && f.carries(v.Type()) {
					f.source[v] = lKey
					f.r.site("secret fields", v.Name()+" "+f.P.pos(v.Pos()))
				}
				visit(v.Type())
			}
		}
	}
	if t := f.P.ownType("Config"); t != nil {
		visit(t)
	}
	lib := func(name string, l labels, fields ...string) {
		i := strings.LastIndexByte(name, '.')
		var t types.Type
		for _, p := range f.P.prog.AllPackages() {
			if p.Pkg.Path() == name[:i] && p.Type(name[i+1:]) != nil {
				t = p.Type(name[i+1:]).Type()
			}
		}
		if t == nil {
			return
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for j := 0; j < s.NumFields(); j++ {
			for _, n := range fields {
				if s.Field(j).Name() == n {
					f.source[s.Field(j)] |= l
					f.r.site("secret fields", name+"."+n)
				}
			}
		}
	}
	lib("net/http.Request", lToken, "Header")
	lib("net/http.Request", lBody, "Body", "Form", "PostForm")
	lib("net/http.Response", lBody, "Body")
	lib("crypto/tls.Certificate", lKey, "PrivateKey")
}

// C31: no secret and no body is put into the log.
func checkSecrets(P *Program, r *Report) {
	r.rule = "taint over the whole program, each function once per chain of its last two call sites: what comes from the Authorization header, from the key settings of the configuration and what is made of them, from the text of the configuration, " +
		"and from the body of a request or response never becomes an argument of a log event, of a logger or of what prints to the standard streams, nor does an object that has any of it in what is put out of it"
	f := &flow{P: P, r: r, nodes: map[interface{}]int{}, seen: map[ctxFn]bool{}, source: map[*types.Var]labels{}, libs: map[string]bool{}, sites: map[string]ssa.CallInstruction{}}
	for _, p := range P.ssaPkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				f.named = append(f.named, t.Type(), types.NewPointer(t.Type()))
			}
		}
	}
	sort.Slice(f.named, func(i, j int) bool { return tkey(f.named[i]) < tkey(f.named[j]) })
	f.sources()
	called := map[*ssa.Function]bool{}
	for _, fn := range P.funcs {
		each(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g != fn {
					called[g] = true
				}
			}
		})
	}
	drain := func() {
		for len(f.work) > 0 {
			k := f.work[0]
			f.work = f.work[1:]
			f.function(k)
		}
	}
	for _, fn := range P.funcs {
		if fn.Blocks != nil && (!called[fn] || token.IsExported(fn.Name())) && fn.Parent() == nil {
			f.enter("", fn)
		}
	}
	drain()
	for _, fn := range P.funcs {
		done := false
		for k := range f.seen {
			done = done || k.fn == fn
		}
		if !done && fn.Blocks != nil {
			f.enter("", fn)
		}
	}
	drain()
	r.looked = map[*ssa.Function]bool{}
	for k := range f.seen {
		r.looked[k.fn] = true
	}
	for again := true; again; {
		f.solve()
		again = false
		for _, b := range f.boxes {
			var l labels
			if f.inside(b.t, false, true, map[types.Type]bool{}) != nil {
				l |= lFmtObj
			}
			if f.inside(b.t, true, true, map[types.Type]bool{}) != nil {
				l |= lJSONObj
			}
			if l&^f.lab[b.node] != 0 {
				f.lab[b.node] |= l
				again = true
			}
		}
	}
	sort.SliceStable(f.sinks, func(i, j int) bool { return instrPos(f.sinks[i].in) < instrPos(f.sinks[j].in) })
	for _, s := range f.sinks {
		r.count("values checked")
		if l := f.lab[s.node] & s.mask; l != 0 {
			r.violateVia(f.trail(s.node, l), "secret", P.pos(instrPos(s.in)), l.String()+" is put out here by "+shortName(s.name)+inFn(s.in))
		}
	}
	r.counts["nodes"] = len(f.lab)
	r.counts["functions in contexts"] = len(f.seen)
	r.atLeast("values put out", 40)
	r.atLeast("secret fields", 5)
	r.atLeast("sources", 2)
}

func (f *flow) solve() {
	var work []int
	for n, l := range f.lab {
		if l != 0 {
			work = append(work, n)
		}
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		for _, e := range f.out[n] {
			add := f.lab[n] & e.mask
			if f.lab[n]&e.conv != 0 {
				add |= lText
			}
			add &^= f.lab[e.to]
			if add == 0 {
				continue
			}
			f.lab[e.to] |= add
			if f.from[e.to] == nil {
				f.from[e.to] = map[labels]int{}
			}
			for b := labels(1); b != 0 && b <= add; b <<= 1 {
				if add&b != 0 {
					f.from[e.to][b] = n
				}
			}
			work = append(work, e.to)
		}
	}
}

// trail: how the label got to the node
func (f *flow) trail(n int, l labels) []string {
	b := labels(1)
	for l&b == 0 {
		b <<= 1
	}
	var t []string
	for i := 0; i < 60; i++ {
		if len(t) == 0 || t[len(t)-1] != f.what[n] {
			t = append(t, f.what[n])
		}
		m, ok := f.from[n][b]
		if !ok {
			break
		}
		n = m
	}
	for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
		t[i], t[j] = t[j], t[i]
	}
	return t
}
