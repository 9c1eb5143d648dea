package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- header maps ------------------------------------------------------------

func isHeaderTyp(t types.Type) bool {
	k := tkey(t)
	return k == "net/http.Header" || k == "net/textproto.MIMEHeader"
}

// critHeaders: everything that changes header maps.
func critHeaders(in ssa.Instruction, name string) critMode {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if isHeaderTyp(x.Map.Type()) {
			return critArgs
		}
	case ssa.CallInstruction:
		if strings.HasPrefix(name, "(net/http.Header).") || strings.HasPrefix(name, "(net/textproto.MIMEHeader).") {
			switch name[strings.LastIndexByte(name, '.')+1:] {
			case "Set", "Add", "Del":
				return critArgs
			}
		}
		if name == "builtin delete" && len(x.Common().Args) == 2 && isHeaderTyp(x.Common().Args[0].Type()) {
			return critArgs
		}
		if strings.HasPrefix(name, "maps.") || strings.HasPrefix(name, "net/http.Redirect") || strings.HasPrefix(name, "net/http.Error") {
			return critArgs
		}
	}
	return critNone
}

// constKey: the fixed name of the header that a call or assignment is about
func constKey(in ssa.Instruction, name string) (string, bool) {
	var k ssa.Value
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if isHeaderTyp(x.Map.Type()) {
			k = x.Key
		}
	case ssa.CallInstruction:
		a := x.Common().Args
		if len(a) > 1 && (strings.HasPrefix(name, "(net/http.Header).") || strings.HasPrefix(name, "(net/textproto.MIMEHeader).") || name == "builtin delete") && isHeaderTyp(a[0].Type()) {
			k = a[1]
		}
	}
	c, ok := k.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return canonStr(constant.StringVal(c.Value)), true
}

// otherHeader: does the instruction change another header than these?
func otherHeader(in ssa.Instruction, only []string) bool {
	name := ""
	if c, ok := in.(ssa.CallInstruction); ok {
		name = calleeName(c.Common())
	}
	k, ok := constKey(in, name)
	for _, o := range only {
		if k == o {
			return false
		}
	}
	return ok
}

// critHeader: everything that may change one header; calls for other headers are left out.
func critHeader(in ssa.Instruction, name string, keys ...string) critMode {
	if otherHeader(in, keys) {
		return critNone
	}
	return critHeaders(in, name)
}

// headerCall reads calls that change a header map.
func headerCall(c *CallEv) (m, key, val *Term, meth string, ok bool) {
	if !strings.HasPrefix(c.name, "(net/http.Header).") && !strings.HasPrefix(c.name, "(net/textproto.MIMEHeader).") {
		return
	}
	switch c.meth {
	case "Set", "Add":
		return c.arg(0), canonKey(c.st.norm(c.arg(1))), c.st.norm(c.arg(2)), c.meth, true
	case "Del":
		return c.arg(0), canonKey(c.st.norm(c.arg(1))), nil, c.meth, true
	}
	return
}

// respHeaders: the headers of the response to the client
func respHeaders(m *Term) bool {
	return m != nil && m.op == OCall && m.str == "(net/http.ResponseWriter).Header"
}

// upHeaders: the headers of an upstream response
func upHeaders(m *Term) bool {
	b, ok := isFieldOf(m, "Header")
	return ok && isResult(b, "do", 0)
}

// outHeaders: the headers of a request to an upstream
func outHeaders(m *Term) bool {
	b, ok := isFieldOf(m, "Header")
	return ok && isCall(b, "httpreq")
}

// inHeaders: the headers of the request that came in
func inHeaders(m *Term) bool { return reqField(m, "Header") }

// headerKeys splits the keys of a header map into the given ones and all others.
func headerKeys(st *State, keys []string) []*Term {
	var r []*Term
	sym := otherKey()
	for _, k := range keys {
		t := tStr(k)
		r = append(r, t)
		notKey(st, sym, k)
	}
	return append(r, sym)
}

func otherKey() *Term { return tSym("other header", types.Typ[types.String]) }

// notKey: the symbol stands for a header with another name, in whatever letter case it is compared.
func notKey(st *State, sym *Term, k string) {
	st.setEq(sym, tStr(k), false)
	for _, f := range []struct{ n, v string }{{"strings.ToLower", strings.ToLower(k)}, {"strings.ToUpper", strings.ToUpper(k)}, {"net/http.CanonicalHeaderKey", k}, {"net/textproto.CanonicalMIMEHeaderKey", k}} {
		st.setEq(mk(OCall, f.n, types.Typ[types.String], nil, nil, 0, 0, sym), tStr(f.v), false)
	}
	for _, a := range [][]*Term{{sym, tStr(strings.ToLower(k))}, {tStr(strings.ToLower(k)), sym}} {
		f := topFact
		f.b = 2
		st.setFact(mk(OCall, "eqfold", types.Typ[types.Bool], nil, nil, 0, 0, a...), &f)
	}
}

// headerCell: what is known about the values of a header.
func headerCell(st *State, m *Term, key string) *Term {
	if o := st.obj(m.root()); o != nil {
		return o.get(tIndexAddr(m, tStr(key)))
	}
	return nil
}

// headerValues lists the values of a header, nil when they are not known. ok is false when it is not known at all.
func headerValues(st *State, m *Term, key string) (vals []*Term, ok bool) {
	c := headerCell(st, m, key)
	switch {
	case c == nil:
		o := st.obj(m.root())
		return nil, emptyAtFirst(m) && (o == nil || o.fuzzy == nil)
	case c.op == OList:
		return c.args, true
	case c.op == ONil:
		return nil, true
	case c.op == OSliceV && c.m >= 0 && c.m < 8:
		for i := int64(0); i < c.m; i++ {
			vals = append(vals, st.load(tIndexAddr(c.args[0], tInt(c.n+i)), types.Typ[types.String]))
		}
		return vals, true
	}
	return []*Term{tCall("values", c)}, true
}

// parts flattens a concatenation.
func parts(t *Term) []*Term {
	if t.op == OBin && t.str == "+" {
		return append(parts(t.args[0]), parts(t.args[1])...)
	}
	if isCall(t, "concat") {
		var r []*Term
		for _, a := range t.args {
			r = append(r, parts(a)...)
		}
		return r
	}
	return []*Term{t}
}
