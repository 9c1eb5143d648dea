package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isListen(name string) bool {
	for _, p := range []string{"(*net/http.Server).", "net/http."} {
		if r := strings.TrimPrefix(name, p); r != name {
			switch r {
			case "ListenAndServe", "ListenAndServeTLS", "Serve", "ServeTLS":
				return true
			}
		}
	}
	return false
}

func listensTLS(name string) bool { return strings.HasSuffix(name, "TLS") }

// bootRoots: the programs of the repository that start a server.
func (P *Program) bootRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, p := range P.ssaPkgs {
		f := p.Func("main")
		if p.Pkg.Name() != "main" || f == nil {
			continue
		}
		found := false
		for g := range P.reachable(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if isListen(instrName(in)) {
						found = true
					}
				}
			}
		}
		if found {
			r = append(r, f)
		}
	}
	return r
}

// endsProgram: a log call that does not return.
func endsProgram(in ssa.Instruction, name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return true
	}
	if !strings.HasPrefix(name, "(*"+zl+".Event).") {
		return false
	}
	switch strings.TrimPrefix(name, "(*"+zl+".Event).") {
	case "Msg", "Msgf", "Send", "MsgFunc":
	default:
		return false
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	return fatalEvent(c.Common().Args[0], 0)
}

func fatalEvent(v ssa.Value, d int) bool {
	if d > 40 {
		return true
	}
	switch v := v.(type) {
	case *ssa.Call:
		n := instrName(v)
		if strings.HasPrefix(n, "(*"+zl+".Event).") && len(v.Call.Args) > 0 {
			return fatalEvent(v.Call.Args[0], d+1)
		}
		return !strings.HasPrefix(n, zl) && !strings.HasPrefix(n, "(*"+zl) || strings.HasSuffix(n, ".Fatal") || strings.HasSuffix(n, ".Panic") || strings.HasSuffix(n, ".WithLevel")
	case *ssa.Phi:
		for _, e := range v.Edges {
			if fatalEvent(e, d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// runBoot explores the start of the server up to listening.
func runBoot(P *Program, r *Report, cfg handlerCfg, mkObs func(fn *ssa.Function) *Observer) {
	roots := P.bootRoots()
	if cfg.depth == 0 {
		cfg.depth = 2
	}
	if cfg.limit == 0 {
		cfg.limit = 25
	}
	// what runs before the server listens: not the handlers, and no background task
	within := map[*ssa.Function]bool{}
	for f := range P.syncOnly(roots, P.handlerRoots()...) {
		within[f] = true
	}
	P.backgroundListens(r, within)
	sl := P.NewSlice(roots, cfg.limit, cfg.headers, cfg.prov, within, nil, func(in ssa.Instruction, name string) critMode {
		m := critNone
		if isListen(name) {
			m = critRecv
		}
		if endsProgram(in, name) {
			m = critRecv
		}
		if name == "builtin recover" {
			m = maxMode(m, critExec)
		}
		if cfg.crit != nil {
			m = maxMode(m, cfg.crit(in, name))
		}
		return m
	})
	for _, c := range cfg.keep {
		sl.keepField(c)
	}
	for _, f := range cfg.fields {
		if !sl.keepNamed(f) {
			r.undecided("no field " + f + " in the configuration")
		}
	}
	r.slices = append(r.slices, sl)
	if w := os.Getenv("J8A_WHY"); w != "" {
		for _, k := range strings.Split(w, ";") {
			sl.explain(k)
		}
		os.Exit(3)
	}
	for _, fn := range roots {
		r.site("programs", shortName(fn.RelString(nil)))
		e := NewEngine(P, nil, r)
		e.obs = mkObs(fn)
		e.initGlobals()
		e.maxRecursion = cfg.depth
		if cfg.variants > 0 {
			e.joinCap, e.loopCap = cfg.variants, cfg.variants
		}
		e.sl = sl
		e.Run(e.rootState(fn))
		r.engines = append(r.engines, e)
		if e.obs.After != nil {
			e.obs.After()
		}
	}
	r.atLeast("programs", 1)
}

// backgroundListens adds the background tasks that listen.
func (P *Program) backgroundListens(r *Report, within map[*ssa.Function]bool) {
	listens := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isListen(instrName(in)) {
					return true
				}
			}
		}
		return false
	}
	for again := true; again; {
		again = false
		for f := range within {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g, ok := in.(*ssa.Go)
					if !ok {
						continue
					}
					if isListen(calleeName(&g.Call)) {
						r.violate(nil, "background", P.pos(instrPos(in)), "the server listens in the background, which this analysis does not follow")
						continue
					}
					var fn *ssa.Function
					switch v := g.Call.Value.(type) {
					case *ssa.Function:
						fn = v
					case *ssa.MakeClosure:
						fn = v.Fn.(*ssa.Function)
					}
					if fn == nil || within[fn] {
						continue
					}
					for h := range P.syncOnly([]*ssa.Function{fn}, P.handlerRoots()...) {
						if listens(h) {
							for k := range P.syncOnly([]*ssa.Function{fn}, P.handlerRoots()...) {
								within[k] = true
							}
							again = true
							break
						}
					}
				}
			}
		}
	}
}

// cfgPath: the fields from the live environment down to the one named.
type cfgPath struct {
	runner *ssa.Global
	typs   []types.Type // struct types, one per step
	idx    []int
	vars   []*types.Var
	typ    types.Type
}

// liveConfig finds the place the server reads a setting from while it runs.
func (P *Program) liveConfig(path ...string) (*cfgPath, error) {
	c := &cfgPath{}
	for _, p := range P.ssaPkgs {
		if g, ok := p.Members["Runner"].(*ssa.Global); ok {
			c.runner = g
		}
	}
	if c.runner == nil {
		return nil, fmt.Errorf("no live environment (Runner)")
	}
	t := deref(c.runner.Type())
	for _, f := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		steps := fieldSteps(t, f, 0)
		if steps == nil {
			return nil, fmt.Errorf("no setting %s", strings.Join(path, "."))
		}
		for _, i := range steps {
			st := structOf(t)
			if st == nil {
				return nil, fmt.Errorf("no setting %s", strings.Join(path, "."))
			}
			c.typs, c.idx, c.vars = append(c.typs, t), append(c.idx, i), append(c.vars, st.Field(i))
			t = st.Field(i).Type()
		}
	}
	c.typ = t
	return c, nil
}

// fieldSteps: the way to a field, also of embedded structs.
func fieldSteps(t types.Type, name string, d int) []int {
	st := structOf(t)
	if st == nil || d > 3 {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if r := fieldSteps(st.Field(i).Type(), name, d+1); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

// value of the setting in a state.
func (c *cfgPath) value(st *State) *Term {
	p := tGlobal(c.runner)
	t := deref(c.runner.Type())
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p = st.norm(st.load(p, t))
		t = pt.Elem()
	}
	for i, k := range c.idx {
		p = tFieldAddr(p, k, c.vars[i].Name())
	}
	return st.load(p, c.typ)
}
