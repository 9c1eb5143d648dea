package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C27"] = checkJwtConfig }

// jwtMethods: the methods of jwt configurations with a name
func (P *Program) jwtMethods(names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range P.funcs {
		if f.Blocks == nil || f.Signature.Recv() == nil || !isNamedLocal(P, f.Signature.Recv().Type(), "Jwt") {
			continue
		}
		for _, n := range names {
			if f.Name() == n {
				r = append(r, f)
			}
		}
	}
	return r
}

// reaches: do the function or what it calls directly contain such an instruction?
func (P *Program) reaches(fn *ssa.Function, f func(in ssa.Instruction, name string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] || !P.ownFn(fn) {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if f(in, instrName(in)) {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); !isGo && walk(c.Common().StaticCallee()) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// loadsKeys: does the function read key material and report an error?
func (P *Program) loadsKeys(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() == 0 || !types.Identical(res.At(res.Len()-1).Type(), errType()) {
		return false
	}
	return P.reaches(fn, func(in ssa.Instruction, name string) bool {
		return name == "encoding/pem.Decode" || strings.HasPrefix(name, jwx+"jwk.Fetch") || strings.HasPrefix(name, "crypto/x509.Parse")
	})
}

// selfField: the field of the receiver
func selfField(t *Term, name string) bool {
	b, ok := isFieldOf(t, name)
	return ok && b.op == OSym
}

func checkJwtConfig(P *Program, r *Report) {
	r.rule = "at every return of the validation of a jwt configuration whose error may be nil, on every path: the name is known not to be empty; the algorithm is known to be one of the supported ones; if it is none, the key is known to be empty; " +
		"else a key or key-set URL is known to be there, loading it with this algorithm was tried and the error returned is the one loading reported, or that is known to be nil; " +
		"the skew is known to be a number of at least 0, or was known to be empty and is 120 now"
	supported := setOf("RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "ES384", "ES512", "none")
	runFuncs(P, r, "validations", P.jwtMethods("Validate"), handlerCfg{full: true, variants: 400}, func(root *ssa.Function) *Observer {
		o := &Observer{}
		var self *Term
		o.Enter = func(st *State, fn *ssa.Function, args []*Term) {
			if fn == root && len(args) > 0 {
				self = args[0]
				st.oset("self", self)
			}
		}
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			empty, full := false, false
			x := t
			if t.op == OLen {
				x = t.args[0]
				empty, full = f.hi == 0, f.lo > 0
			} else {
				empty = f.eq == tStr("")
				for _, n := range f.ne {
					full = full || n == tStr("")
				}
				if s, ok := strConst(f.eq); f.eq != nil && ok && s != "" {
					full = true
				}
			}
			for _, n := range []string{"Name", "Key", "JwksUrl", "AcceptableSkewSeconds"} {
				if selfField(x, n) {
					if empty {
						tag("empty:" + n)
					} else if full {
						tag("full:" + n)
					}
				}
			}
			if selfField(t, "Alg") && f.eq != nil {
				if s, ok := strConst(f.eq); ok {
					switch {
					case s == "none":
						tag("alg:none")
					case supported[s]:
						tag("alg:ok")
					default:
						tag("alg:other")
					}
				}
			}
			if t.op == OExt && isCall(t.args[0], "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint") && selfField(t.args[0].args[0], "AcceptableSkewSeconds") {
				if t.n == 1 && f.nilness == 1 {
					tag("skew:number")
				}
				if t.n == 0 && f.lo >= 0 {
					tag("skew:positive")
				}
				if t.n == 0 && f.hi < 0 {
					tag("skew:negative")
				}
			}
			if strings.HasPrefix(t.str, "stub:") && t.op == OCall && f.nilness == 1 {
				for _, l := range st.oget("loads") {
					if l == t {
						tag("loaded")
					}
				}
			}
		}}
		ev.hook(o)
		o.Stub = func(st *State, fn *ssa.Function, args []*Term) bool {
			if fn == root || !P.loadsKeys(fn) {
				return false
			}
			r.site("key loaders", shortName(fn.RelString(nil)))
			return true
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if strings.HasPrefix(c.name, "stub:") && res != nil {
				r.count("key loads")
				// the algorithm it is told must be the configured one
				for i := range c.args {
					if i >= c.sig.Params().Len()+1 || i == 0 {
						continue
					}
					if !isNamed(c.sig.Params().At(i-1).Type(), jwx+"jwa.SignatureAlgorithm") {
						continue
					}
					a := c.arg(i)
					for a.op == OConv {
						a = a.args[0]
					}
					if selfField(a, "Alg") {
						continue
					}
					ok := false
					for _, fe := range st.facts {
						ok = ok || selfField(fe.t, "Alg") && fe.f.eq == st.norm(a)
					}
					if !ok {
						// an algorithm that is not known is refused by the loader
						if s, isC := strConst(a); !isC || s != "" {
							r.violate(st, "algorithm", c.pos(), "the key is loaded for the algorithm "+a.String()+", which is not the configured one"+inFn(c.in))
						}
					}
				}
				e := res
				if e.op == OTuple {
					e = e.args[len(e.args)-1]
				}
				st.oset("loads", append(append([]*Term(nil), st.oget("loads")...), e)...)
			}
		}
		o.Exit = func(st *State, res []*Term) {
			if len(res) == 0 {
				return
			}
			e := st.norm(res[len(res)-1])
			if st.isNil(e) == 2 {
				r.count("refusals")
				return
			}
			r.count("acceptances checked")
			bad := func(rule, msg string) {
				r.violate(st, rule, P.pos(root.Pos()), msg+" ("+shortName(root.RelString(nil))+")")
			}
			if !st.ohas("full:Name") {
				bad("name", "a jwt configuration is accepted that is not known to have a name")
			}
			loaded := st.ohas("loaded")
			for _, l := range st.oget("loads") {
				loaded = loaded || l == e
			}
			switch {
			case st.ohas("alg:none"):
				if !st.ohas("empty:Key") {
					bad("none", "the algorithm none is accepted although key material is not known to be absent")
				}
			case st.ohas("alg:ok"):
				if !has(st, "full:Key", "full:JwksUrl") {
					bad("key", "a jwt configuration is accepted that is known neither to have a key nor a key-set URL")
				} else if !loaded {
					bad("key", "a jwt configuration is accepted although its key is not known to have been loaded without an error")
				}
			default:
				bad("algorithm", "a jwt configuration is accepted whose algorithm is not known to be a supported one")
			}
			if st.isNil(e) != 1 && !loaded {
				bad("error", "the error that is returned may be nil or not: "+e.String())
			}
			v := st.load(tFieldAddr(self, fieldIndex(root.Signature.Recv().Type(), "AcceptableSkewSeconds"), "AcceptableSkewSeconds"), types.Typ[types.String])
			s, fixed := strConst(st.norm(v))
			switch {
			case st.ohas("empty:AcceptableSkewSeconds"):
				if !fixed || s != "120" {
					bad("skew", "the skew is "+v.String()+" where none is configured, the documented default is 120")
				}
			case !st.ohas("skew:number"):
				bad("skew", "a skew is accepted that is not known to be a number")
			case !st.ohas("skew:positive"):
				bad("skew", "a skew is accepted that is not known not to be negative")
			case !selfField(v, "AcceptableSkewSeconds"):
				bad("skew", "the configured skew is replaced by "+v.String())
			}
		}
		return o
	})
	r.atLeast("acceptances checked", 2)
	r.atLeast("refusals", 3)
	r.atLeast("key loads", 1)
}

func fieldIndex(t types.Type, name string) int {
	sp := structOf(deref(t))
	for i := 0; sp != nil && i < sp.NumFields(); i++ {
		if sp.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
