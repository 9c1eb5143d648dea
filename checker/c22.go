package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkKeySets }

var keyFamilies = map[string]struct {
	algs map[string]bool
	typ  string
}{
	"RSAPublic":   {setOf("RS256", "RS384", "RS512", "PS256", "PS384", "PS512"), "crypto/rsa.PublicKey"},
	"ECDSAPublic": {setOf("ES256", "ES384", "ES512"), "crypto/ecdsa.PublicKey"},
	"Secret":      {setOf("HS256", "HS384", "HS512"), ""},
}

var ecdsaSize = map[string]int64{"ES256": 256, "ES384": 384, "ES512": 521}

// keySetOf: the key set a value is, or was grown from
func keySetOf(t *Term) string {
	for t != nil && isCall(t, "append") {
		t = t.args[0]
	}
	if t == nil {
		return ""
	}
	for n := range keyFamilies {
		if b, ok := isFieldOf(t, n); ok && isJwtBase(b) {
			return n
		}
	}
	return ""
}

func isJwtBase(b *Term) bool {
	t := b.typ
	return t == nil || structOf(deref(t)) != nil && fieldIndex(t, "JwksUrl") >= 0
}

func plainKey(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func checkKeySets(P *Program, r *Report) {
	r.rule = "wherever a key set of a jwt configuration (RSAPublic, ECDSAPublic, Secret) is changed, on every path: what was there before stays in it; every key added or replaced was decoded by a call whose error is known to be nil, or whose result is known to be of the set's key type; " +
		"the algorithm it is added for is known, belongs to the set, and for a remote key is known to be what the key declares and to be the configured one; an ECDSA key's bit size is known to be that of the algorithm; " +
		"it is only appended when the ids of all keys there are known to differ from its id, and a key is only replaced when its id is known to be the same, and then always"
	runFuncs(P, r, "key loaders", P.jwtMethods("parseKey", "LoadJwks"), handlerCfg{full: true, variants: 2000}, func(root *ssa.Function) *Observer {
		o := &Observer{}
		keyLoads(P, r, root, o)
		return o
	})
	r.atLeast("keys added", 3)
	r.atLeast("keys replaced", 1)
	// nobody else changes them
	seen := map[*ssa.Function]bool{}
	for _, e := range r.engines {
		for f := range e.fnSeen {
			seen[f] = true
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || keyFamilies[fieldName(fa)].algs == nil || fieldIndex(fa.X.Type(), "JwksUrl") < 0 {
					continue
				}
				r.count("direct assignments to key sets")
				if seen[f] || emptySlice(s.Val) {
					continue
				}
				r.violate(nil, "elsewhere", P.pos(s.Pos()), "a key set is assigned outside of what loads the configured keys"+inFn(s))
			}
		}
	}
}

// emptySlice: nothing is in it
func emptySlice(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		c, ok := v.Len.(*ssa.Const)
		return ok && c.Int64() == 0
	case *ssa.Slice:
		if v.High != nil {
			c, ok := v.High.(*ssa.Const)
			return ok && c.Int64() == 0
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			arr, ok := deref(a.Type()).Underlying().(*types.Array)
			return ok && arr.Len() == 0
		}
	case *ssa.ChangeType:
		return emptySlice(v.X)
	}
	return false
}

func keyLoads(P *Program, r *Report, root *ssa.Function, o *Observer) {
	kidType := P.ownType("KidPair")
	w := &sweeps{P: P, r: r, tags: []string{"differs"}, elem: kidType, seq: func(t *Term) bool { return keySetOf(t) != "" }}
	w.end = func(st *State, seq *Term, all func(string) bool) {
		if all("differs") {
			st.oset("absent", append([]*Term{seq}, st.oget("kids")...)...)
		} else {
			st.odel("absent")
		}
		st.odel("kids")
	}
	// elemKid: the id of the key at an index of a key set
	elemKid := func(t *Term) (seq, idx *Term, ok bool) {
		b, ok := isFieldOf(t, "Kid")
		if !ok {
			return nil, nil, false
		}
		if b.op == OLoad {
			b = b.args[0]
		}
		if b.op != OIndexAddr || keySetOf(b.args[0]) == "" {
			return nil, nil, false
		}
		return b.args[0], b.args[1], true
	}
	other := func(st *State, t *Term, f *Fact) (idx, seq, kid *Term, eq, ok bool) {
		if t.op == OBin && (t.str == "==" || t.str == "!=") && f.b != 0 {
			for i, a := range t.args {
				if s, x, is := elemKid(a); is {
					return x, s, st.norm(t.args[1-i]), (f.b == 1) == (t.str == "=="), true
				}
			}
		}
		if s, x, is := elemKid(t); is && f.eq != nil {
			return x, s, f.eq, true, true
		}
		return
	}
	ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
		x, s, kid, eq, ok := other(st, t, f)
		if !ok {
			return
		}
		if l, at := w.loopAt(x); !at || !st.ohas("on|"+l) {
			return
		}
		if eq {
			if !has(st, "match", "met") {
				st.oset("match", s, x, kid)
				st.otag("met")
			}
			return
		}
		ks := st.oget("kids")
		for _, k := range ks {
			if k == kid {
				w.flag(st, "differs", x)
				return
			}
		}
		st.oset("kids", append(append([]*Term(nil), ks...), kid)...)
		w.flag(st, "differs", x)
	}}
	ev.hook(o)
	w.install(o)
	bad := func(st *State, rule string, in ssa.Instruction, msg string) {
		r.violate(st, rule, P.pos(instrPos(in)), msg+inFn(in))
	}
	lost := func(st *State, in ssa.Instruction, where string) {
		if st.ohas("match") {
			bad(st, "replace", in, "a key whose id is known already does not replace the one that is there"+where)
			st.odel("match")
		}
	}
	// every remote key is looked at on its own, whatever is in the sets then
	keys := &sweeps{P: P, r: r, elem: P.libType(jwx+"jwk", "Key"), seq: func(t *Term) bool { return true }}
	lp := o.Loop
	o.Loop = func(st *State, ph *ssa.Phi, v *Term) {
		if lp != nil {
			lp(st, ph, v)
		}
		st.odel("met")
		if keys.elem == nil || !keys.at(st, ph.Block()) {
			return
		}
		r.site("loops over remote keys", P.pos(ph.Block().Instrs[0].Pos()))
		lost(st, ph, "")
		for l := range w.loops {
			w.forget(st, l)
		}
		for _, k := range []string{"raw", "absent", "kids"} {
			st.odel(k)
		}
		for _, ob := range append([]*Obj(nil), st.heap...) {
			n := ob.without(func(p *Term) bool { return p.op == OFieldAddr && keyFamilies[p.str].algs != nil })
			if n != ob {
				st.setObj(n)
			}
		}
	}

	o.Ret = func(c *CallEv, st *State, res *Term) {
		if res == nil {
			return
		}
		if c.meth == "Raw" && strings.HasPrefix(c.name, "("+jwx+"jwk.") {
			e := res
			if e.op == OTuple {
				e = e.args[len(e.args)-1]
			}
			d := plainKey(c.arg(1))
			st.oset("raw", c.arg(0), d, st.norm(st.load(d, types.Typ[types.UnsafePointer])), e)
			r.count("remote keys decoded")
		}
	}
	// check one key that enters a set
	enter := func(st *State, in ssa.Instruction, set, key, kid *Term, name string) {
		fam := keyFamilies[name]
		key = plainKey(st.norm(key))
		alg := ""
		algs := 0
		learn := func(t *Term, f *Fact) {
			if s, ok := strConst(f.eq); f.eq != nil && ok {
				if s != alg {
					algs++
				}
				alg = s
			}
		}
		typed := func(k *Term) bool {
			f := st.fact(k)
			return f.dyn != nil && isNamed(f.dyn, fam.typ) || k.typ != nil && isNamed(k.typ, fam.typ)
		}
		remote := false
		decoded := false
		switch {
		case fam.typ == "":
			decoded = key.op == OConv && selfField(key.args[0], "Key")
			if !decoded {
				bad(st, "decoded", in, "the secret that is stored is "+key.String()+", not the configured key")
				return
			}
		case isCall(key, "crypto/x509.ParsePKIXPublicKey") || key.op == OExt && isCall(key.args[0], "crypto/x509.ParsePKIXPublicKey", "crypto/x509.ParsePKCS1PublicKey"):
			decoded = typed(key) && (isCall(key.args[0], "crypto/x509.ParsePKIXPublicKey") || st.isNil(tExt(key.args[0], 1)) == 1)
		default:
			if b, ok := isFieldOf(key, "PublicKey"); ok && b.op == OExt && isCall(b.args[0], "crypto/x509.ParseCertificate") {
				decoded = typed(key) && (st.isNil(tExt(b.args[0], 1)) == 1 || st.isNil(b) == 2)
				break
			}
			if raw := st.oget("raw"); len(raw) == 4 && (raw[1] == key || raw[2] == key) {
				remote = true
				decoded = st.isNil(raw[3]) == 1 && typed(key)
				if kid == nil || !isCall(kid, "("+jwx+"jwk.Key).KeyID") || kid.args[0] != raw[0] {
					bad(st, "id", in, "the key is stored under an id that is not its own")
				}
			}
		}
		if !decoded {
			bad(st, "decoded", in, "a key enters "+name+" that is not known to have been decoded as "+fam.typ+" without an error: "+key.String())
			return
		}
		declared := false
		for _, fe := range st.facts {
			t := fe.t
			for t.op == OConv {
				t = t.args[0]
			}
			isAlg := selfField(t, "Alg") || t.op == OSym && isNamed(t.typ, jwx+"jwa.SignatureAlgorithm")
			if remote && isCall(t, "("+jwx+"jwk.Key).Algorithm") && t.args[0] == st.oget("raw")[0] {
				isAlg = true
				if fe.f.eq != nil && selfField(fe.f.eq, "Alg") {
					declared = true
				}
			}
			if isAlg {
				learn(t, fe.f)
			}
			if t.op == OBin && t.str == "==" && fe.f.b == 1 && remote {
				for i, a := range t.args {
					if isCall(a, "("+jwx+"jwk.Key).Algorithm") && a.args[0] == st.oget("raw")[0] && selfField(st.norm(t.args[1-i]), "Alg") {
						declared = true
					}
				}
			}
		}
		if remote && !declared {
			// both are known to be the same algorithm
			a, b := st.oget("raw")[0], false
			for _, fe := range st.facts {
				if isCall(fe.t, "("+jwx+"jwk.Key).Algorithm") && fe.t.args[0] == a && fe.f.eq != nil {
					for _, g := range st.facts {
						b = b || selfField(g.t, "Alg") && g.f.eq == fe.f.eq
					}
				}
			}
			if !b {
				bad(st, "declared", in, "a remote key enters "+name+" that is not known to declare exactly the configured algorithm")
			}
		}
		if !fam.algs[alg] || algs != 1 {
			bad(st, "algorithm", in, "a key enters "+name+" for an algorithm that is not known to belong there ("+alg+")")
			return
		}
		if want := ecdsaSize[alg]; want > 0 {
			ok := false
			for _, fe := range st.facts {
				if _, is := isFieldOf(fe.t, "BitSize"); is && fe.t.contains(func(x *Term) bool { return x == key }) {
					k, c := intConst(fe.f.eq)
					ok = ok || fe.f.eq != nil && c && k == want || fe.f.lo == want && fe.f.hi == want
				}
			}
			if !ok {
				bad(st, "size", in, "an ECDSA key enters whose bit size is not known to be that of "+alg)
			}
		}
	}
	o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
		// an element is replaced
		if _, ok := in.(*ssa.Store); !ok {
			return
		}
		ia, key, kid := (*Term)(nil), (*Term)(nil), (*Term)(nil)
		if p.op == OFieldAddr && p.args[0].op == OIndexAddr && keySetOf(p.args[0].args[0]) != "" {
			ia = p.args[0]
			if p.str != "Key" {
				bad(st, "replace", in, "the "+p.str+" of a key that is held is changed")
				return
			}
			key = v
		} else if p.op == OIndexAddr && keySetOf(p.args[0]) != "" {
			ia, key, kid = p, structFieldOf(v, "Key"), structFieldOf(v, "Kid")
		}
		if ia != nil {
			r.count("keys replaced")
			m := st.oget("match")
			if len(m) != 3 || m[0] != ia.args[0] || m[1] != ia.args[1] || kid != nil && st.norm(kid) != m[2] {
				bad(st, "replace", in, "a key is replaced whose id is not known to be that of the new one")
				return
			}
			if key == nil {
				bad(st, "replace", in, "a key is replaced by something that is not known: "+v.String())
				return
			}
			st.odel("match")
			enter(st, in, ia.args[0], key, m[2], keySetOf(ia.args[0]))
			return
		}
		if p.op != OFieldAddr || keyFamilies[p.str].algs == nil || !isJwtBase(p.args[0]) {
			return
		}
		old := st.norm(st.load(p, in.(*ssa.Store).Val.Type()))
		v = st.norm(v)
		if v == old {
			return
		}
		var added []*Term
		t := v
		for t != old && isCall(t, "append") {
			l := listOf(st, t.args[1])
			if l == nil {
				break
			}
			added = append(added, l...)
			t = st.norm(t.args[0])
		}
		if t != old {
			bad(st, "keep", in, "the keys that are held are not known to stay in "+p.str+": "+v.String())
			return
		}
		lost(st, in, ", it is added a second time")
		for _, a := range added {
			r.count("keys added")
			key, kid := structFieldOf(a, "Key"), structFieldOf(a, "Kid")
			if key == nil || kid == nil {
				bad(st, "decoded", in, "what enters "+p.str+" is not known: "+a.String())
				continue
			}
			abs := st.oget("absent")
			known := len(abs) > 0 && abs[0] == old
			for _, k := range abs[min(1, len(abs)):] {
				known = known && k == st.norm(kid)
			}
			if !known {
				bad(st, "twice", in, "a key is added to "+p.str+" although not all ids held there are known to differ from its own")
			}
			enter(st, in, old, key, st.norm(kid), p.str)
		}
	}
	o.Call = func(c *CallEv) {
		if c.meth == "Raw" {
			lost(c.st, c.in, "")
			c.st.odel("met")
		}
	}
	o.Exit = func(st *State, res []*Term) {
		if st.ohas("match") {
			r.violate(st, "replace", P.pos(root.Pos()), "a key whose id is known already does not replace the one that is there ("+root.Name()+")")
		}
	}
}

// ownType: a type of the program by name
func (P *Program) ownType(name string) types.Type {
	for _, p := range P.ssaPkgs {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}
