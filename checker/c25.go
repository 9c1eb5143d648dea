package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkBootConfig }

// elemField: an address of a field of an element of a collection: collection, index, names of the fields
func elemField(p *Term) (seq, idx *Term, path []string, ok bool) {
	for p.op == OFieldAddr {
		path = append([]string{p.str}, path...)
		p = p.args[0]
	}
	if p.op != OIndexAddr {
		return
	}
	return p.args[0], p.args[1], path, true
}

// eachField calls f for a store to an element, field by field.
func eachField(p, v *Term, f func(p, v *Term)) {
	t := v.typ
	if v.op == OStruct && structOf(t) != nil {
		for i, a := range v.args {
			eachField(tFieldAddr(p, i, structOf(t).Field(i).Name()), a, f)
		}
		return
	}
	if st := structOf(t); st != nil && v.op != OConst {
		for i := 0; i < st.NumFields(); i++ {
			eachField(tFieldAddr(p, i, st.Field(i).Name()), fieldOf(v, i, st), f)
		}
		return
	}
	f(p, v)
}

func sortSym(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.str, "sort.") }

func sameParts(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bootRoutes follows what happens to the configured routes before the server listens.
type bootRoutes struct {
	*sweeps
	strict bool // patterns must be the anchored path
}

const (
	tagSlash    = "slash"
	tagCompiled = "compiled"
	tagCompOk   = "compile ok"
	tagTrans    = "transform"
	tagJwtRef   = "jwt"
	tagScheme   = "scheme"
	tagName     = "name"
	tagValid    = "valid"
)

func critBootRoutes(in ssa.Instruction, name string) critMode {
	switch name {
	case "regexp.Compile", "regexp.MustCompile", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
		return critArgs
	}
	return critComparison(in)
}

// critComparison: results of functions that compare two elements
func critComparison(in ssa.Instruction) critMode {
	if rt, ok := in.(*ssa.Return); ok {
		sg := in.Parent().Signature
		if sg.Params().Len() == 2 && sg.Results().Len() == 1 && len(rt.Results) == 1 && types.Identical(sg.Results().At(0).Type(), types.Typ[types.Bool]) &&
			types.Identical(sg.Params().At(0).Type(), types.Typ[types.Int]) && types.Identical(sg.Params().At(1).Type(), types.Typ[types.Int]) {
			return critArgs
		}
	}
	return critNone
}

func isCompile(t *Term) (pat *Term, must, ok bool) {
	switch {
	case isCall(t, "regexp.MustCompile", "regexp.MustCompilePOSIX"):
		return t.args[0], true, true
	case t.op == OExt && t.n == 0 && isCall(t.args[0], "regexp.Compile", "regexp.CompilePOSIX"):
		return t.args[0].args[0], false, true
	}
	return
}

func isRoutes(t *Term) bool { _, ok := isFieldOf(t, "Routes"); return ok }

func (w *bootRoutes) install(o *Observer) {
	w.sweeps.install(o)
	ld := func(st *State, p *Term, typ types.Type) *Term { return st.norm(st.load(p, typ)) }
	str := types.Typ[types.String]
	onStore := o.Store
	o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
		if onStore != nil {
			onStore(st, p, v, in)
		}
		eachField(p, v, func(p, v *Term) {
			seq, idx, path, ok := elemField(p)
			if !ok || !isRoutes(seq) || len(path) != 1 || sortSym(idx) {
				return
			}
			v = st.norm(v)
			switch path[0] {
			case "Path":
				if v == ld(st, p, str) {
					return
				}
				// the old pattern and order do not belong to the new path
				for _, t := range []string{tagCompiled, tagSlash} {
					w.unflag(st, t, idx)
					undone(st, t, seq)
				}
				unsort(st, seq)
				if ps := parts(v); len(ps) > 0 {
					if s, ok := strConst(ps[0]); ok && strings.HasPrefix(s, "/") {
						w.flag(st, tagSlash, idx)
					}
				}
			case "PathRegex":
				if v.typ != nil && v == st.load(p, v.typ) {
					return
				}
				w.unflag(st, tagCompiled, idx)
				w.unflag(st, tagCompOk, idx)
				undone(st, tagCompiled, seq)
				undone(st, tagCompOk, seq)
				pat, must, ok := isCompile(v)
				if !ok {
					return
				}
				w.r.site("patterns compiled", w.P.pos(instrPos(in)))
				var pp *Term
				for q := p; q.op == OFieldAddr; q = q.args[0] {
					pp = q.args[0]
				}
				cur := st.norm(st.load(pathAddr(pp), str))
				ps := parts(pat)
				switch {
				case len(ps) >= 3 && sameParts(ps[1:len(ps)-1], parts(cur)) && anchors(ps[0], ps[len(ps)-1]):
					w.flag(st, tagCompiled, idx)
				case len(ps) >= 3 && sameParts(mergeConst(ps), mergeConst(append(append([]*Term{tStr("^(?:")}, parts(cur)...), tStr(")")))):
					w.flag(st, tagCompiled, idx)
				case !w.strict && containsParts(ps, parts(cur)):
					w.flag(st, tagCompiled, idx)
				}
				if must || st.isNil(mk(OExt, "", errType(), nil, nil, 1, 0, v.args[0])) == 1 {
					w.flag(st, tagCompOk, idx)
				}
			}
		})
	}
	o.Sorted = func(st *State, x, i, j, less *Term, in ssa.Instruction) {
		if !isRoutes(x) {
			return
		}
		w.r.site("sorts of the routes", w.P.pos(instrPos(in)))
		w.r.count("comparisons checked")
		st.odel("badorder")
		rt := sliceElem(x.typ)
		pos := fieldSteps(rt, "Path", 0)
		if len(pos) != 1 {
			st.otag("badorder")
			return
		}
		l := func(k *Term) *Term { return st.norm(tLen(st.load(tFieldAddr(tIndexAddr(x, k), pos[0], "Path"), str))) }
		for _, c := range []struct {
			a, b *Term
			less bool
		}{{l(i), l(j), false}, {l(j), l(i), true}} {
			n := st.fork()
			if n.assume(mkLess(c.b, c.a), true) && n.assume(less, c.less) {
				// a longer path may be ordered after a shorter one
				st.otag("badorder")
				return
			}
		}
	}
	ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
		empty := func(x *Term) bool {
			if x.op == OLen {
				return false
			}
			s, ok := strConst(f.eq)
			return f.eq != nil && ok && s == ""
		}
		field := func(x *Term, name string) (*Term, bool) { return routeField(x, name) }
		if t.op == OLen {
			if _, hi := st.interval(t); hi == 0 {
				if k, ok := field(t.args[0], "Transform"); ok {
					w.flag(st, tagTrans, k)
				}
				if k, ok := field(t.args[0], "Jwt"); ok {
					w.flag(st, tagJwtRef, k)
				}
			}
		}
		if k, ok := field(t, "Transform"); ok && empty(t) {
			w.flag(st, tagTrans, k)
		}
		if k, ok := field(t, "Jwt"); ok && empty(t) {
			w.flag(st, tagJwtRef, k)
		}
		if s := startsWith(t, f, "/"); s != nil {
			if k, ok := field(s, "Transform"); ok {
				w.flag(st, tagTrans, k)
			}
			if k, ok := field(s, "Path"); ok {
				w.flag(st, tagSlash, k)
			}
		}
		if isCall(t, "haskey") && f.b == 1 || t.op == OLookup && st.isNil(t) == 2 {
			if _, ok := isFieldOf(t.args[0], "Jwt"); ok {
				if k, ok := field(t.args[1], "Jwt"); ok {
					w.flag(st, tagJwtRef, k)
				}
			}
		}
		if t.op == OExt && t.n == 1 && isCall(t.args[0], "regexp.Compile", "regexp.CompilePOSIX") && f.nilness == 1 {
			for _, k := range routeIdx(t) {
				w.flag(st, tagCompOk, k)
			}
		}
	}}
	ev.hook(o)
}

func pathAddr(route *Term) *Term {
	// the address of the path of the route the address is of
	return tFieldAddr(route, 0, "Path")
}

func mkLess(a, b *Term) *Term { return tBin(tokLSS, a, b) }

func anchors(a, b *Term) bool {
	x, ok1 := strConst(a)
	y, ok2 := strConst(b)
	return ok1 && ok2 && y == ")" && (x == "^(?:" || x == "^(" || x == `\A(?:` || x == `\A(`)
}

// mergeConst joins neighbouring constants.
func mergeConst(ps []*Term) []*Term {
	var r []*Term
	for _, p := range ps {
		s, ok := strConst(p)
		if ok && len(r) > 0 {
			if q, ok := strConst(r[len(r)-1]); ok {
				r[len(r)-1] = tStr(q + s)
				continue
			}
		}
		r = append(r, p)
	}
	return r
}

func containsParts(all, some []*Term) bool {
	for _, p := range some {
		if p.op == OConst {
			continue
		}
		found := false
		for _, q := range all {
			if p == q {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return len(some) > 0
}

func unsort(st *State, seq *Term) {
	var l []*Term
	for _, t := range st.oget("sorted") {
		if t.op == OIface {
			t = t.args[0]
		}
		if t != seq {
			l = append(l, t)
		}
	}
	st.odel("sorted")
	if len(l) > 0 {
		st.oset("sorted", l...)
	}
}

func isSorted(st *State, seq *Term) bool {
	for _, t := range st.oget("sorted") {
		if t.op == OIface {
			t = t.args[0]
		}
		if t == seq {
			return true
		}
	}
	return false
}

// bootPass explores the start up to listening and hands over the value of the settings there.
func bootPass(P *Program, r *Report, cfg handlerCfg, names []string, setup func(o *Observer), at func(c *CallEv, vals map[string]*Term, bad func(rule, msg string))) {
	var paths []*cfgPath
	for _, n := range names {
		c, err := P.liveConfig(strings.Split(n, ".")...)
		if err != nil {
			r.undecided(err.Error())
			return
		}
		paths = append(paths, c)
	}
	cfg.keep = paths
	if cfg.limit == 0 {
		cfg.limit = 200
	}
	runBoot(P, r, cfg, func(fn *ssa.Function) *Observer {
		o := &Observer{}
		setup(o)
		if cfg.about != nil {
			fr := o.FnRet
			o.FnRet = func(st *State, f *ssa.Function, args, res []*Term) {
				st.forgetFacts(cfg.about)
				// settings that are fixed and settings that were read are kept apart
				for i, p := range paths {
					if v := st.norm(p.value(st)); v.op == OConst {
						st.oset("live:"+names[i], v)
					} else {
						st.odel("live:" + names[i])
					}
				}
				if fr != nil {
					fr(st, f, args, res)
				}
			}
		}
		call := o.Call
		o.Call = func(c *CallEv) {
			if call != nil {
				call(c)
			}
			if !isListen(c.name) {
				return
			}
			r.count("listening states")
			r.site("listens", c.pos())
			vals := map[string]*Term{}
			for i, p := range paths {
				vals[names[i]] = p.value(c.st)
			}
			at(c, vals, func(rule, msg string) { r.violate(c.st, rule, c.pos(), "the server listens although "+msg+inFn(c.in)) })
		}
		return o
	})
}

func emptyColl(st *State, t *Term) bool {
	if st.isNil(t) == 1 {
		return true
	}
	_, hi := st.interval(st.norm(tLen(t)))
	return hi == 0
}

func routesPass(P *Program, r *Report, strict bool, at func(c *CallEv, routes *Term, bad func(rule, msg string))) {
	w := &bootRoutes{strict: strict, sweeps: &sweeps{P: P, r: r, tags: []string{tagSlash, tagCompiled, tagCompOk, tagTrans, tagJwtRef}, seq: isRoutes}}
	w.end = func(st *State, seq *Term, all func(string) bool) {
		r.count("loops over the routes")
		for _, t := range w.tags {
			if all(t) {
				setDone(st, t, seq)
			}
		}
	}
	bootPass(P, r, handlerCfg{crit: critBootRoutes, fields: []string{"Route.Path", "Route.PathRegex"}}, []string{"Routes"}, w.install, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
		at(c, vals["Routes"], bad)
	})
}

// C25: what is known of the configuration when the server starts to listen.
func checkBootConfig(P *Program, r *Report) {
	r.rule = "on every path from the start of the program to listening: every jwt configuration passed its validation without an error; every route has a path with a leading slash, a pattern compiled without an error " +
		"from the path in its final form, a transform that is empty or starts with a slash, and no or a known jwt configuration; the routes were sorted after their paths were final; every upstream got its scheme and name; " +
		"the default policy exists (the values of the connection settings are C26)"
	routesPass(P, r, false, func(c *CallEv, routes *Term, bad func(rule, msg string)) {
		st := c.st
		for _, x := range []struct{ tag, msg string }{
			{tagSlash, "not every route path is known to start with a slash"},
			{tagCompiled, "not every route has a pattern compiled from the final form of its path"},
			{tagCompOk, "not every route pattern is known to have compiled"},
			{tagTrans, "not every route transform was checked"},
			{tagJwtRef, "not every jwt reference of a route was checked"},
		} {
			if !done(st, x.tag, routes) {
				bad(x.tag, x.msg)
			}
		}
		if !isSorted(st, routes) {
			bad("sorted", "the routes were not sorted after their paths were final")
		}
	})
	r.atLeast("loops over the routes", 1)
	// jwt configurations
	{
		isJwts := func(t *Term) bool { _, ok := isFieldOf(t, "Jwt"); return ok }
		w := &sweeps{P: P, r: r, tags: []string{tagValid}, seq: isJwts}
		w.end = func(st *State, seq *Term, all func(string) bool) {
			if all(tagValid) {
				setDone(st, tagValid, seq)
			}
		}
		isValidate := func(fn *ssa.Function) bool {
			return fn.Name() == "Validate" && fn.Signature.Recv() != nil && isNamedLocal(P, fn.Signature.Recv().Type(), "Jwt")
		}
		bootPass(P, r, handlerCfg{crit: func(in ssa.Instruction, name string) critMode {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && isValidate(g) {
					return critRecv
				}
			}
			return critNone
		}}, []string{"Jwt"}, func(o *Observer) {
			w.install(o)
			o.Stub = func(st *State, fn *ssa.Function, args []*Term) bool {
				if !isValidate(fn) {
					return false
				}
				r.count("jwt validations")
				st.oset("validating", args[0])
				return true
			}
			o.Ret = func(c *CallEv, st *State, res *Term) {
				if strings.HasPrefix(c.name, "stub:") && st.ohas("validating") && res != nil {
					st.oset("verdict", res, one(st, "validating"))
					st.odel("validating")
				}
			}
			ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
				v := st.oget("verdict")
				if len(v) != 2 || v[0] != t || f.nilness != 1 {
					return
				}
				if v[1].op == OLookup && isJwts(v[1].args[0]) {
					w.flag(st, tagValid, v[1].args[1])
				}
			}}
			ev.hook(o)
		}, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
			if !done(c.st, tagValid, vals["Jwt"]) && !emptyColl(c.st, vals["Jwt"]) {
				bad("jwt", "not every jwt configuration is known to have been validated without an error")
			}
		})
		r.atLeast("jwt validations", 1)
	}
	// upstreams
	{
		isRes := func(t *Term) bool {
			if _, ok := isFieldOf(t, "Resources"); ok {
				return true
			}
			if t.op == OLookup {
				_, ok := isFieldOf(t.args[0], "Resources")
				return ok
			}
			return false
		}
		w := &sweeps{P: P, r: r, tags: []string{tagScheme, tagName}, seq: isRes}
		w.end = func(st *State, seq *Term, all func(string) bool) {
			for _, t := range w.tags {
				if !all(t) {
					continue
				}
				if seq.op == OLookup {
					w.flag(st, t, seq.args[1])
				} else {
					r.count("loops over the resources")
					setDone(st, t, seq)
				}
			}
		}
		bootPass(P, r, handlerCfg{fields: []string{"URL.Scheme", "ResourceMapping.Name"}}, []string{"Resources"}, func(o *Observer) {
			w.install(o)
			// a scheme that may stay as it is
			ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
				x := t
				if isCall(t, "strings.Contains") {
					x = t.args[0]
				}
				if x.op != OLoad {
					return
				}
				seq, idx, path, ok := elemField(x.args[0])
				if ok && seq.op == OLookup && isRes(seq) && path[len(path)-1] == "Scheme" && schemeOk(st, st.norm(x), x) {
					w.flag(st, tagScheme, idx)
				}
			}}
			ev.hook(o)
			o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
				eachField(p, v, func(p, v *Term) {
					seq, idx, path, ok := elemField(p)
					if !ok || seq.op != OLookup || !isRes(seq) {
						return
					}
					if n := path[len(path)-1]; n != "Scheme" && n != "Name" {
						return
					}
					v = st.norm(v)
					old := st.norm(st.load(p, types.Typ[types.String]))
					switch path[len(path)-1] {
					case "Scheme":
						w.unflag(st, tagScheme, idx)
						if schemeOk(st, v, old) {
							w.flag(st, tagScheme, idx)
						}
					case "Name":
						if len(path) != 1 || v == old && v != seq.args[1] {
							return
						}
						w.unflag(st, tagName, idx)
						if v == seq.args[1] {
							w.flag(st, tagName, idx)
						}
					}
				})
			}
		}, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
			for _, t := range w.tags {
				if !done(c.st, t, vals["Resources"]) && !emptyColl(c.st, vals["Resources"]) {
					bad(t, "not every upstream was given its "+t)
				}
			}
		})
		r.atLeast("loops over the resources", 1)
	}
	// default policy
	bootPass(P, r, handlerCfg{crit: func(in ssa.Instruction, name string) critMode {
		if mu, ok := in.(*ssa.MapUpdate); ok && strings.HasSuffix(tkey(mu.Map.Type().Underlying().(*types.Map).Elem()), ".Policy") {
			return critDeep
		}
		return critNone
	}, fields: []string{"LabelWeight.Label", "LabelWeight.Weight"}}, []string{"Policies"}, func(o *Observer) {
		o.MapSet = func(st *State, m, k, v *Term, in ssa.Instruction) {
			if s, ok := strConst(k); !ok || s != "default" || v == nil {
				return
			}
			r.site("default policies", P.pos(instrPos(in)))
			l := snap(st, v, 4)
			if l.op == OList && len(l.args) == 1 && l.args[0].op == OStruct && len(l.args[0].args) == 2 {
				a, b := l.args[0].args[0], l.args[0].args[1]
				if s, ok := strConst(a); ok && s == "default" && b.op == OConst && constant.Compare(constant.ToFloat(b.cv), tokEQL, constant.MakeFloat64(1)) {
					st.oset("defpol", m)
				}
			}
		}
	}, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
		if !c.st.ohas("defpol") || one(c.st, "defpol") != c.st.norm(vals["Policies"]) && one(c.st, "defpol") != vals["Policies"] {
			bad("policy", "the default policy was not added to the policies it uses")
		}
	})
	r.atLeast("listening states", 8)
}

// schemeOk: the scheme an upstream gets for the one configured
func schemeOk(st *State, v, old *Term) bool {
	has := func(s string) int {
		if x, ok := strConst(st.norm(old)); ok {
			if strings.Contains(x, s) {
				return 1
			}
			return 2
		}
		return st.truth(mk(OCall, "strings.Contains", types.Typ[types.Bool], nil, nil, 0, 0, old, tStr(s)))
	}
	_, hi := st.interval(st.norm(tLen(old)))
	lo, _ := st.interval(st.norm(tLen(old)))
	switch s, ok := strConst(v); {
	case ok && s == "https":
		return has("https") == 1
	case ok && s == "http":
		return hi == 0 || has("https") == 2 || has("http") == 2
	case ok:
		return false
	}
	return v == old && lo > 0 && has("http") == 2
}

func isNamedLocal(P *Program, t types.Type, name string) bool {
	n, ok := deref(t).(*types.Named)
	if p, isP := t.(*types.Pointer); isP {
		n, ok = p.Elem().(*types.Named)
	}
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && P.ownPkg(n.Obj().Pkg())
}
