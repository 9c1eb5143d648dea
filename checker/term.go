package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an abstract value.
type Op uint8

const (
	OConst     Op = iota // constant (cv, typ)
	ONil                 // nil of any nilable type
	OSym                 // opaque symbol, one per program point and calling context
	OAlloc               // address of an object allocated by the analysed code
	OGlobal              // address of a package level variable
	OFieldAddr           // &base.field
	OIndexAddr           // &base[idx]
	OLoad                // initial content of symbolic memory at a pointer
	OField               // field of an opaque struct value
	OStruct              // struct value, field by field
	OTuple               // multiple results
	OBin                 // binary operation that did not fold
	OUn                  // unary operation that did not fold
	OLen                 // len(x)
	OCap                 // cap(x)
	OSliceV              // slice of an allocated array with known bounds: args[0]=array ptr, n=lo, m=len
	OSliceOf             // slicing an opaque value
	OClosure             // function with bound variables
	OFunc                // plain function
	OIface               // concrete value in an interface (typ, value)
	OConv                // conversion that changes representation
	OCall                // result of a pure operation
	OExt                 // component of an opaque tuple
	OLookup              // m[k] of an opaque map
	OTA                  // successful type assertion of an opaque interface value
	OIsType              // does the interface value have this type
	OList                // snapshot of slice elements (only as operand of pure operations)
	OBuiltin
)

var opNames = [...]string{"const", "nil", "sym", "alloc", "global", "fieldaddr", "indexaddr", "load", "field", "struct", "tuple", "bin", "un", "len", "cap", "slicev", "sliceof", "closure", "func", "iface", "conv", "call", "ext", "lookup", "ta", "istype", "list", "builtin"}

// Term is an immutable, hash-consed abstract value. Pointer equality is value equality.
type Term struct {
	id    int32
	op    Op
	str   string
	typ   types.Type
	cv    constant.Value
	args  []*Term
	fn    *ssa.Function
	n, m  int64
	depth int32
	h     uint64
	syms  []*Term // symbols and allocs inside, sorted by id
}

type termTable struct {
	tab   map[string]*Term
	next  int32
	types map[string]types.Type
}

var TT = &termTable{tab: map[string]*Term{}, types: map[string]types.Type{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

var typeKeyCache = map[types.Type]string{}

func tkey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeyCache[t]; ok {
		return k
	}
	k := typeKey(t)
	typeKeyCache[t] = k
	return k
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func hashStr(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

const maxDepth = 40

func mk(op Op, str string, typ types.Type, cv constant.Value, fn *ssa.Function, n, m int64, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 'A')
	sb.WriteString(str)
	sb.WriteByte(0)
	switch op {
	case OConst, OAlloc, OIface, OConv, OTA, OIsType, OStruct:
		sb.WriteString(tkey(typ))
	}
	sb.WriteByte(0)
	if cv != nil {
		sb.WriteString(cv.ExactString())
	}
	if fn != nil {
		fmt.Fprintf(&sb, "%p", fn)
	}
	sb.WriteByte(0)
	sb.WriteString(strconv.FormatInt(n, 36))
	sb.WriteByte(',')
	sb.WriteString(strconv.FormatInt(m, 36))
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.FormatInt(int64(a.id), 36))
	}
	k := sb.String()
	if t, ok := TT.tab[k]; ok {
		return t
	}
	t := &Term{id: TT.next, op: op, str: str, typ: typ, cv: cv, fn: fn, n: n, m: m, args: args, h: mix(hashStr(k), uint64(op))}
	TT.next++
	set := map[*Term]bool{}
	if op == OSym || op == OAlloc {
		set[t] = true
	}
	for _, a := range args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, s := range a.syms {
			set[s] = true
		}
	}
	if len(set) > 0 {
		for s := range set {
			t.syms = append(t.syms, s)
		}
		sort.Slice(t.syms, func(i, j int) bool { return t.syms[i].id < t.syms[j].id })
	}
	TT.tab[k] = t
	return t
}

func tNil() *Term { return mk(ONil, "", nil, nil, nil, 0, 0) }

func tConst(cv constant.Value, typ types.Type) *Term {
	// the type of a constant is irrelevant for its value, except float against integer
	return mk(OConst, "", nil, cv, nil, 0, 0)
}
func tInt(i int64) *Term  { return tConst(constant.MakeInt64(i), nil) }
func tBool(b bool) *Term  { return tConst(constant.MakeBool(b), nil) }
func tStr(s string) *Term { return tConst(constant.MakeString(s), nil) }
func tSym(name string, typ types.Type) *Term {
	return mk(OSym, name, typ, nil, nil, 0, 0)
}
func tAlloc(site string, typ types.Type) *Term { return mk(OAlloc, site, typ, nil, nil, 0, 0) }
func tGlobal(g *ssa.Global) *Term {
	return mk(OGlobal, g.RelString(nil), deref(g.Type()), nil, nil, 0, 0)
}
func tFieldAddr(base *Term, i int, name string) *Term {
	return mk(OFieldAddr, name, nil, nil, nil, int64(i), 0, base)
}
func tIndexAddr(base, idx *Term) *Term { return mk(OIndexAddr, "", nil, nil, nil, 0, 0, base, idx) }
func tLoad(p *Term, typ types.Type) *Term {
	if len(p.args) > 60 {
		panic("deep")
	}
	return mk(OLoad, "", typ, nil, nil, 0, 0, p)
}
func tTuple(a ...*Term) *Term { return mk(OTuple, "", nil, nil, nil, 0, 0, a...) }
func tLen(a *Term) *Term {
	switch a.op {
	case ONil:
		return tInt(0)
	case OConst:
		if a.cv.Kind() == constant.String {
			return tInt(int64(len(constant.StringVal(a.cv))))
		}
	case OSliceV:
		return tInt(a.m)
	case OList:
		return tInt(int64(len(a.args)))
	case OCall:
		if a.str == "append" {
			// args: base, list
			return tAdd(tLen(a.args[0]), tLen(a.args[1]))
		}
		if a.str == "copyof" {
			return tLen(a.args[0])
		}
	case OSliceOf:
		// args: base, lo, hi
		lo, hi := a.args[1], a.args[2]
		if hi.op == ONil {
			hi = tLen(a.args[0])
		}
		if lo.op == ONil {
			lo = tInt(0)
		}
		if c, ok := intConst(lo); ok {
			return tAdd(hi, tInt(-c))
		}
	case OConv:
		// string <-> []byte keeps the length
		if isStringOrBytes(a.typ) && a.args[0].typ != nil && isStringOrBytes(a.args[0].typ) {
			return tLen(a.args[0])
		}
		if isStringOrBytes(a.typ) {
			return tLen(a.args[0])
		}
	}
	return mk(OLen, "", nil, nil, nil, 0, 0, a)
}

func isStringOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte
		}
	}
	return false
}

func tCall(name string, args ...*Term) *Term { return mk(OCall, name, nil, nil, nil, 0, 0, args...) }
func tExt(t *Term, i int) *Term {
	if t.op == OTuple {
		return t.args[i]
	}
	return mk(OExt, "", nil, nil, nil, int64(i), 0, t)
}
func tAdd(a, b *Term) *Term { return tBin(token.ADD, a, b) }

func intConst(t *Term) (int64, bool) {
	if t != nil && t.op == OConst && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func strConst(t *Term) (string, bool) {
	if t != nil && t.op == OConst && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func boolConst(t *Term) (bool, bool) {
	if t != nil && t.op == OConst && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

// linear splits t into base + constant.
func linear(t *Term) (*Term, int64) {
	if c, ok := intConst(t); ok {
		return nil, c
	}
	if t.op == OBin && t.str == "+" {
		if c, ok := intConst(t.args[1]); ok {
			return t.args[0], c
		}
	}
	return t, 0
}

// tBin builds a binary operation on numbers and strings, folding what can be folded. Comparisons are handled by cmp.
func tBin(op token.Token, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		ka, kb := a.cv.Kind(), b.cv.Kind()
		if op != token.SHL && op != token.SHR {
			if ka == constant.Int && kb == constant.Int {
				if op == token.QUO || op == token.REM {
					if constant.Sign(b.cv) != 0 {
						o := op
						if op == token.QUO {
							o = token.QUO_ASSIGN
						}
						return tConst(constant.BinaryOp(a.cv, o, b.cv), nil)
					}
				} else {
					return tConst(constant.BinaryOp(a.cv, op, b.cv), nil)
				}
			} else if ka == kb || (isNum(ka) && isNum(kb)) {
				if !(op == token.QUO && constant.Sign(b.cv) == 0) {
					return tConst(constant.BinaryOp(a.cv, op, b.cv), nil)
				}
			}
		} else if n, ok := constant.Uint64Val(b.cv); ok && n < 64 {
			return tConst(constant.Shift(a.cv, op, uint(n)), nil)
		}
	}
	switch op {
	case token.SUB:
		if c, ok := intConst(b); ok {
			return tBin(token.ADD, a, tInt(-c))
		}
		// (x+c)-x
		ba, ca := linear(a)
		bb, cb := linear(b)
		if ba == bb && ba != nil {
			return tInt(ca - cb)
		}
	case token.ADD:
		if isStrTerm(a) || isStrTerm(b) {
			if s, ok := strConst(a); ok && s == "" {
				return b
			}
			if s, ok := strConst(b); ok && s == "" {
				return a
			}
			// associate to the right list: concat(a...) flattened
			var parts []*Term
			add := func(t *Term) {
				if t.op == OCall && t.str == "concat" {
					parts = append(parts, t.args...)
				} else {
					parts = append(parts, t)
				}
			}
			add(a)
			add(b)
			var out []*Term
			for _, p := range parts {
				if s, ok := strConst(p); ok && len(out) > 0 {
					if s0, ok0 := strConst(out[len(out)-1]); ok0 {
						out[len(out)-1] = tStr(s0 + s)
						continue
					}
				}
				out = append(out, p)
			}
			if len(out) == 1 {
				return out[0]
			}
			return tCall("concat", out...)
		}
		if _, ok := intConst(a); ok {
			a, b = b, a
		}
		if c, ok := intConst(b); ok {
			if c == 0 {
				return a
			}
			if base, k := linear(a); base != nil && base != a {
				return tBin(token.ADD, base, tInt(k+c))
			}
		} else if !isFloatTerm(a) && !isFloatTerm(b) && a.id > b.id {
			a, b = b, a
		}
	case token.MUL:
		if _, ok := intConst(a); ok {
			a, b = b, a
		}
		if c, ok := intConst(b); ok && c == 1 {
			return a
		}
		if _, isC := intConst(b); !isC && a.id > b.id {
			a, b = b, a
		}
	}
	return mk(OBin, op.String(), nil, nil, nil, 0, 0, a, b)
}

func isFloatTerm(t *Term) bool { return t.op == OConst && t.cv.Kind() == constant.Float }

func isNum(k constant.Kind) bool { return k == constant.Int || k == constant.Float }

// string typed terms: constants, concat, or marked
func isStrTerm(t *Term) bool {
	switch t.op {
	case OConst:
		return t.cv.Kind() == constant.String
	case OCall:
		return t.str == "concat"
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// root returns the object an address points into.
func (t *Term) root() *Term {
	for t.op == OFieldAddr || t.op == OIndexAddr {
		t = t.args[0]
	}
	return t
}

func (t *Term) has(s *Term) bool {
	for _, x := range t.syms {
		if x == s {
			return true
		}
	}
	return false
}

// contains reports whether pred holds for t or any operand of it.
func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	if d <= 0 {
		return "…"
	}
	as := func(a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, x.show(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		return t.cv.String()
	case ONil:
		return "nil"
	case OSym:
		return "$" + t.str
	case OAlloc:
		return "new@" + t.str
	case OGlobal:
		return "&" + shortName(t.str)
	case OFieldAddr:
		return "&" + strings.TrimPrefix(t.args[0].show(d-1), "&") + "." + t.str
	case OIndexAddr:
		return "&" + strings.TrimPrefix(t.args[0].show(d-1), "&") + "[" + t.args[1].show(d-1) + "]"
	case OLoad:
		s := t.args[0].show(d)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OField:
		return t.args[0].show(d-1) + "." + t.str
	case OBin:
		return "(" + t.args[0].show(d-1) + t.str + t.args[1].show(d-1) + ")"
	case OUn:
		return t.str + t.args[0].show(d-1)
	case OLen:
		return "len(" + t.args[0].show(d-1) + ")"
	case OFunc:
		return "func " + t.fn.Name()
	case OClosure:
		return "closure " + t.fn.Name()
	case OIface:
		return t.args[0].show(d)
	case OCall:
		return shortName(t.str) + "(" + as(t.args) + ")"
	case OExt:
		return t.args[0].show(d-1) + "#" + strconv.Itoa(int(t.n))
	case OLookup:
		return t.args[0].show(d-1) + "[" + t.args[1].show(d-1) + "]"
	case OSliceV:
		return fmt.Sprintf("slice(%s,%d,%d)", t.args[0].show(d-1), t.n, t.m)
	case OStruct:
		return "{" + as(t.args) + "}"
	case OTA, OIsType, OConv:
		return opNames[t.op] + "[" + shortName(tkey(t.typ)) + "](" + as(t.args) + ")"
	}
	return opNames[t.op] + "(" + t.str + as(t.args) + ")"
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/simonmittag/", "")
	return s
}

// subst replaces symbols inside a term.
func subst(t *Term, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if !t.has(from) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = subst(a, from, to, memo)
	}
	r := mk(t.op, t.str, t.typ, t.cv, t.fn, t.n, t.m, args...)
	memo[t] = r
	return r
}
