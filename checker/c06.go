package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = func(P *Program, r *Report) { checkAccess(P, r, true) }
	checks["C07"] = func(P *Program, r *Report) { checkAccess(P, r, false) }
}

const jwx = "github.com/lestrrat-go/jwx/"

func critToken(in ssa.Instruction, name string) critMode {
	switch {
	case strings.HasSuffix(name, "jwa.SignatureAlgorithm).Accept"), strings.HasPrefix(name, jwx+"jwt."), strings.HasPrefix(name, jwx+"jws."):
		return critArgs
	case strings.HasPrefix(name, "("+jwx+"jwt.Token)."):
		return critArgs
	}
	return critNone
}

var algFamily = map[string]string{
	"RS256": "RSAPublic", "RS384": "RSAPublic", "RS512": "RSAPublic", "PS256": "RSAPublic", "PS384": "RSAPublic", "PS512": "RSAPublic",
	"ES256": "ECDSAPublic", "ES384": "ECDSAPublic", "ES512": "ECDSAPublic",
	"HS256": "Secret", "HS384": "Secret", "HS512": "Secret",
}

// jwtRoute: the route whose jwt setting the value is
func jwtRoute(t *Term) *Term {
	b, ok := isFieldOf(t, "Jwt")
	if !ok {
		return nil
	}
	if i, ok := routeElem(b); ok {
		return i
	}
	for b.op == OLoad && b.args[0].op == OSym {
		b = b.args[0]
	}
	if b.op != OSym {
		return nil
	}
	return b
}

// jwtOf: the route whose jwt configuration the value is
func jwtOf(t *Term) *Term {
	if t.op == OExt && t.n == 0 {
		t = t.args[0]
	}
	if t.op == OLoad && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.op != OLookup {
		return nil
	}
	if _, ok := isFieldOf(t.args[0], "Jwt"); !ok {
		return nil
	}
	return jwtRoute(t.args[1])
}

// jwtSetting: a setting of the jwt configuration of a route
func jwtSetting(t *Term, name string) *Term {
	b, ok := isFieldOf(t, name)
	if !ok {
		return nil
	}
	return jwtOf(b)
}

// keySets: the key sets a value is made of, with the route they belong to
func keySets(t *Term) (names []string, routes []*Term) {
	t.contains(func(x *Term) bool {
		for _, n := range []string{"RSAPublic", "ECDSAPublic", "Secret"} {
			if k := jwtSetting(x, n); k != nil {
				for i := range names {
					if names[i] == n && routes[i] == k {
						return false
					}
				}
				names, routes = append(names, n), append(routes, k)
			}
		}
		return false
	})
	return
}

// plainToken strips what only presents a text in another form.
func plainToken(t *Term) *Term {
	for {
		switch {
		case t.op == OConv, t.op == OIface:
			t = t.args[0]
		case t.op == OCall && (readerMaker(t.str) || t.str == "strings.TrimSpace" || t.str == "copyof") && len(t.args) > 0:
			t = t.args[0]
		default:
			return t
		}
	}
}

// bearer: does the text come from the Authorization header of the request, and from nothing else of the request?
func bearer(t *Term) bool {
	from, other := false, false
	t.contains(func(x *Term) bool {
		switch {
		case isCall(x, "hdrget") || x.op == OLookup || isCall(x, "(net/http.Header).Values"):
			if inHeaders(x.args[0]) {
				if hdrName(x.args[1], "Authorization") {
					from = true
				} else {
					other = true
				}
			} else if isCall(x, "hdrget") {
				other = true
			}
		case x.op == OCall && strings.HasPrefix(x.str, "(*net/http.Request)."):
			other = true
		default:
			if b, ok := isFieldOf(x, x.fieldName()); ok && isRequest(b) && !reqField(x, "Header") {
				other = true
			}
		}
		return false
	})
	return from && !other
}

func (t *Term) fieldName() string {
	switch {
	case t.op == OField:
		return t.str
	case t.op == OLoad && t.args[0].op == OFieldAddr:
		return t.args[0].str
	}
	return ""
}

func isParse(name string) bool {
	switch name {
	case jwx + "jwt.Parse", jwx + "jwt.ParseString", jwx + "jwt.ParseReader", jwx + "jwt.ParseVerify":
		return true
	}
	return false
}

// parsedFrom: the text a parsed token was read from
func parsedFrom(t *Term) *Term {
	for t.op == OIface || t.op == OConv {
		t = t.args[0]
	}
	if t.op == OExt && t.n == 0 && t.args[0].op == OCall && isParse(t.args[0].str) {
		return plainToken(t.args[0].args[0])
	}
	return nil
}

// claims: the date claims, the method that reads each, and the direction in which the skew moves it
var claims = []struct {
	key, meth string
	sign      int64
}{{"iat", "IssuedAt", -1}, {"nbf", "NotBefore", -1}, {"exp", "Expiration", 1}}

// skewSeconds: is the value the configured skew, converted to a number? Of which route?
func skewSeconds(t *Term) *Term {
	t = unconv(t)
	if t.op == OExt && t.n == 0 && isCall(t.args[0], "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint") {
		return jwtSetting(t.args[0].args[0], "AcceptableSkewSeconds")
	}
	return nil
}

// skewTime: d as sign * seconds, in nanoseconds
func skewTime(t *Term) (route *Term, sign int64) {
	var fs []*Term
	var flat func(x *Term)
	flat = func(x *Term) {
		for x.op == OConv {
			x = x.args[0]
		}
		if x.op == OBin && x.str == "*" {
			flat(x.args[0])
			flat(x.args[1])
			return
		}
		if x.op == OUn && x.str == "-" {
			fs = append(fs, tInt(-1))
			flat(x.args[0])
			return
		}
		fs = append(fs, x)
	}
	flat(t)
	k := int64(1)
	for _, f := range fs {
		if n, ok := intConst(f); ok {
			k *= n
			continue
		}
		if b, off := linear(f); off == 0 && b != f {
			flat(b)
		}
		if route != nil {
			return nil, 0
		}
		if route = skewSeconds(f); route == nil {
			return nil, 0
		}
	}
	switch k {
	case 1e9:
		return route, 1
	case -1e9:
		return route, -1
	}
	return nil, 0
}

func sameRoute(a, b *Term) bool { return a != nil && b != nil && a == b }

// checkAccess: C06 (gate) is about what is served, C07 about what a token is accepted for.
func checkAccess(P *Program, r *Report, gate bool) {
	if gate {
		r.rule = "on every path of every request handler: once the route is known, an upstream request is built and a status other than 401 is sent only where the route is known to name no jwt configuration, " +
			"or where a verification of a token under the key of that very configuration (or its algorithm is known to be none) and a date check are both known to have returned no error"
	} else {
		r.rule = "at every upstream request and every status other than 401 of a route with a jwt configuration, on every path: the token whose signature verification is known to have returned no error was taken from the Authorization header only, " +
			"verified with exactly the configured algorithm and a key of the configuration's key set for it, unless that is known to be none; the same token's date claims, each moved by exactly the configured skew, are known to have been verified without an error"
	}
	runHandlers(P, r, handlerCfg{depth: 1, limit: 400, prov: true, crit: func(in ssa.Instruction, name string) critMode {
		return maxMode(critRoutes(in, name), maxMode(critStatus(in, name), critToken(in, name)))
	}}, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		w := &routeWalk{P: P, r: r, bad: func(*State, string, string, string) {}}
		bad := func(st *State, rule, pos, msg string) {
			if !gate {
				r.violate(st, rule, pos, msg)
			}
		}
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			if st.dead {
				return
			}
			set := func(k string, v ...*Term) {
				if !st.ohas(k) {
					st.oset(k, v...)
				}
			}
			if t.op == OLen && f.hi == 0 || f.eq == tStr("") {
				x := t
				if t.op == OLen {
					x = t.args[0]
				}
				if k := jwtRoute(x); k != nil {
					set("nojwt", k)
				}
			}
			if k := jwtSetting(t, "Alg"); k != nil {
				if s, ok := strConst(f.eq); f.eq != nil && ok {
					if s == "none" {
						set("none", k)
					}
					if fam := algFamily[s]; fam != "" {
						set("fam", tStr(fam), k)
					}
				} else if f.eq == nil && len(f.ne) >= len(algFamily) {
					n := 0
					for _, x := range f.ne {
						if s, ok := strConst(x); ok && algFamily[s] != "" {
							n++
						}
					}
					if n == len(algFamily) {
						// the validation of the configuration leaves only one
						set("none", k)
					}
				}
			}
			for _, cl := range claims {
				if !st.ohas("looked:"+cl.key) && t.contains(func(x *Term) bool { return isCall(x, "("+jwx+"jwt.Token)."+cl.meth) }) && (f.b != 0 || f.lo > minI || f.hi < maxI) {
					set("looked:" + cl.key)
				}
			}
			if f.nilness == 1 {
				if v := st.oget("vparse"); len(v) > 0 && v[0] == t {
					set("sig", v[1], v[2])
				}
				if v := st.oget("vdate"); len(v) > 0 && v[0] == t {
					set("date", v[1], v[2])
				}
			}
		}}
		ev.hook(o)
		o.Ret = func(c *CallEv, st *State, res *Term) {
			switch {
			case strings.HasSuffix(c.name, "jwa.SignatureAlgorithm).Accept"):
				// the validation of the configuration leaves only known algorithms
				if res != nil && st.isNil(res) == 2 {
					v := c.arg(1)
					if v.op == OIface {
						v = v.args[0]
					}
					if jwtSetting(v, "Alg") != nil {
						st.dead = true
					}
				}
			case isParse(c.name):
				r.count("parses")
				r.site("parse sites", c.pos())
				var opts []*Term
				if len(c.args) > 1 {
					opts = listOf(st, c.arg(len(c.args)-1))
				}
				errT := tExt(res, 1)
				tok := plainToken(c.arg(0))
				valid, vskew := false, false
				for _, op := range opts {
					for op.op == OIface {
						op = op.args[0]
					}
					switch {
					case isCall(op, jwx+"jwt.WithVerify") && len(op.args) >= 2:
						alg, key := op.args[0], op.args[1]
						for key.op == OIface {
							key = key.args[0]
						}
						for alg.op == OConv {
							alg = alg.args[0]
						}
						k, prob := verification(st, alg, key)
						if prob != "" {
							bad(st, "signature", c.pos(), prob+inFn(c.in))
						}
						if !bearer(tok) {
							bad(st, "token", c.pos(), "the token that is verified is "+tok.String()+", which is not taken from the Authorization header of the request alone"+inFn(c.in))
						}
						r.count("verifications checked")
						if k != nil {
							st.oset("vparse", errT, tok, k)
						}
					case isCall(op, jwx+"jwt.WithValidate") && op.args[0] == tBool(true):
						valid = true
					case isCall(op, jwx+"jwt.WithAcceptableSkew"):
						if k, sign := skewTime(op.args[0]); k != nil && sign == 1 {
							vskew = true
							st.oset("skewroute", k)
						}
					}
				}
				if valid && vskew {
					st.oset("vdate", errT, tok, st.oget("skewroute")[0])
				} else if valid {
					bad(st, "skew", c.pos(), "the date claims are checked without the configured skew"+inFn(c.in))
				}
			case strings.HasPrefix(c.name, "("+jwx+"jwt.Token)."):
				if c.meth == "Set" || c.meth == "Remove" {
					key, isKey := strConst(st.norm(c.arg(1)))
					tok := c.arg(0)
					if c.meth == "Set" && isKey {
						for _, cl := range claims {
							if cl.key != key {
								continue
							}
							v := c.arg(2)
							for v.op == OIface || v.op == OConv {
								v = v.args[0]
							}
							if isCall(v, "(time.Time).Add") && isCall(v.args[0], "("+jwx+"jwt.Token)."+cl.meth) && parsedFrom(v.args[0].args[0]) == parsedFrom(tok) {
								if k, sign := skewTime(v.args[1]); k != nil && sign == cl.sign {
									r.count("claims moved")
									st.oset("moved:"+key, k)
									return
								}
							}
							bad(st, "skew", c.pos(), "the claim "+key+" is changed to "+v.String()+", which is not the claim moved by the configured skew"+inFn(c.in))
							return
						}
					}
					bad(st, "claims", c.pos(), "a claim of the token is changed before it is verified"+inFn(c.in))
				}
			case c.name == jwx+"jwt.Verify" || c.name == jwx+"jwt.Validate":
				tok := parsedFrom(c.arg(0))
				if tok == nil {
					bad(st, "date", c.pos(), "what is verified is no token parsed here: "+c.arg(0).String()+inFn(c.in))
					return
				}
				r.count("date checks")
				r.site("date check sites", c.pos())
				var route *Term
				for _, op := range listOf(st, c.arg(1)) {
					for op.op == OIface {
						op = op.args[0]
					}
					if isCall(op, jwx+"jwt.WithAcceptableSkew") {
						if k, sign := skewTime(op.args[0]); k != nil && sign == 1 {
							route = k
							continue
						}
					}
					bad(st, "skew", c.pos(), "the date claims are verified with the option "+op.String()+inFn(c.in))
				}
				if route == nil {
					for _, cl := range claims {
						if m := one(st, "moved:"+cl.key); m != nil {
							route = m
						} else if !st.ohas("looked:" + cl.key) {
							bad(st, "skew", c.pos(), "the claim "+cl.key+" is verified without the configured skew although it is not known to be absent"+inFn(c.in))
						}
					}
				}
				if route == nil {
					route = tNil() // no claim is there
				}
				for _, cl := range claims {
					st.odel("moved:" + cl.key)
					st.odel("looked:" + cl.key)
				}
				e := res
				if e.op == OTuple {
					e = e.args[0]
				}
				if !bearer(tok) {
					bad(st, "token", c.pos(), "the token whose dates are verified is "+tok.String()+", which is not taken from the Authorization header of the request alone"+inFn(c.in))
				}
				st.oset("vdate", e, tok, route)
			}
		}
		own := func(st *State) (route *Term, known bool) {
			if m := one(st, "rl:match"); m != nil {
				return m, true
			}
			return nil, false
		}
		// the handlers of single routes have theirs as a captured variable
		captured := false
		for _, fv := range fn.FreeVars {
			if isNamedLocal(P, deref(fv.Type()), "Route") {
				captured = true
			}
		}
		accepted := func(st *State) (prob string) {
			route, known := own(st)
			is := func(k *Term) bool {
				if k == nil {
					return false
				}
				if known {
					return sameRoute(k, route)
				}
				return captured && k.op == OSym
			}
			if nj := one(st, "nojwt"); nj != nil && is(nj) {
				r.count("open routes")
				return ""
			}
			r.count("protected routes checked")
			date := st.oget("date")
			sig := st.oget("sig")
			none := st.oget("none")
			switch {
			case len(date) == 0:
				return "no date check of a token is known to have succeeded"
			case len(sig) == 0 && len(none) == 0:
				return "no signature check of a token is known to have succeeded, nor is the configured algorithm known to be none"
			case len(sig) > 0 && !is(sig[1]):
				return "the token was verified with the jwt configuration of another route"
			case len(sig) == 0 && !is(none[0]):
				return "the algorithm none belongs to the jwt configuration of another route"
			case date[1] != tNil() && !is(date[1]):
				return "the skew belongs to the jwt configuration of another route"
			case len(sig) > 0 && sig[0] != date[0]:
				return "the token whose signature was verified is not the one whose dates were"
			case !bearer(date[0]):
				return "the token is not taken from the Authorization header of the request alone"
			}
			return ""
		}
		o.Call = func(c *CallEv) {
			st := c.st
			if e, ok := respEvent(c); ok && !e.header {
				st.dead = true
				_, known := own(st)
				if !known && !captured {
					if code, ok := statusConst(e); e.status == nil || ok && code < 400 {
						r.violate(st, "no route", c.pos(), "content is served although no route is known to match"+inFn(c.in))
					}
					return
				}
				r.site("status lines", c.pos())
				if code, ok := statusConst(e); ok && code == 401 {
					r.count("rejections")
					return
				}
				if p := accepted(st); p != "" {
					r.violate(st, "served", c.pos(), "a status other than 401 is sent for a route that may name a jwt configuration, although "+p+inFn(c.in))
				}
				return
			}
			if isNewRequest(c.name) {
				r.site("attempt sites", c.pos())
				if p := accepted(st); p != "" {
					r.violate(st, "forwarded", c.pos(), "an upstream request is made for a route that may name a jwt configuration, although "+p+inFn(c.in))
				}
				st.dead = true
			}
		}
		w.install(o)
		return o
	})
	r.atLeast("protected routes checked", 2)
	r.atLeast("open routes", 2)
	r.atLeast("rejections", 2)
	r.atLeast("parses", 1)
}

// verification: the route whose algorithm and key are used, and what is wrong about them
func verification(st *State, alg, key *Term) (route *Term, prob string) {
	fam := one0(st, "fam")
	var famRoute *Term
	if l := st.oget("fam"); len(l) == 2 {
		famRoute = l[1]
	}
	if k := jwtSetting(alg, "Alg"); k != nil {
		route = k
		if f := st.fact(alg); f.eq != nil {
			if s, ok := strConst(f.eq); ok {
				fam, famRoute = algFamily[s], k
			}
		}
	} else if s, ok := strConst(alg); ok {
		// known to be the configured one
		for _, fe := range st.facts {
			if k := jwtSetting(fe.t, "Alg"); k != nil && fe.f.eq == alg {
				route, fam, famRoute = k, algFamily[s], k
			}
		}
	}
	if route == nil {
		return nil, "the signature is verified with the algorithm " + alg.String() + ", which is not known to be the configured one"
	}
	names, routes := keySets(key)
	switch {
	case len(names) == 0:
		return nil, "the signature is verified with the key " + key.String() + ", which is not from a key set of the jwt configuration"
	case len(names) > 1:
		return nil, "the signature is verified with a key that may be from several key sets: " + key.String()
	case routes[0] != route:
		return nil, "the signature is verified with the algorithm of one jwt configuration and the key of another"
	case fam == "" || famRoute != route:
		return route, "the signature is verified with a key from " + names[0] + " although the configured algorithm is not known to belong to these keys"
	case fam != names[0]:
		return route, "the signature is verified with a key from " + names[0] + " although the configured algorithm needs " + fam
	}
	return route, ""
}

func one0(st *State, key string) string {
	if l := st.oget(key); len(l) > 0 {
		s, _ := strConst(l[0])
		return s
	}
	return ""
}

// listOf: the elements of a list of arguments
func listOf(st *State, t *Term) []*Term {
	switch {
	case t.op == OList:
		return t.args
	case t.op == OSliceV && t.m >= 0 && t.m < 8:
		var r []*Term
		for i := int64(0); i < t.m; i++ {
			r = append(r, st.load(tIndexAddr(t.args[0], tInt(t.n+i)), nil))
		}
		return r
	}
	return nil
}
