package main

import (
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// handlerCfg says how the request handlers are explored for a property.
type handlerCfg struct {
	// crit marks further instructions that matter, besides the common ones.
	crit Criterion
	// full: follow everything, without slicing
	full  bool
	depth int
	// headers: the content of header maps matters; prov: where values come from matters
	headers, prov bool
	// only: of no other headers of the response
	only []string
	// limit: computations without events above this size are left unknown
	limit int
	// keep: settings the observer reads when the server starts to listen
	keep []*cfgPath
	// fields the observer reads, by type and name
	fields []string
	// variants of the state kept apart at one place
	variants int
	// about: what is known of other terms is forgotten when a function returns
	about func(t *Term) bool
}

// runHandlers explores every request handler.
func runHandlers(P *Program, r *Report, cfg handlerCfg, mkObs func(fn *ssa.Function) *Observer) {
	roots := P.handlerRoots()
	if cfg.depth == 0 {
		cfg.depth = 3
	}
	var sl *Slice
	if !cfg.full {
		if cfg.limit == 0 {
			cfg.limit = 25
		}
		det := P.detached(roots)
		sl = P.NewSlice(roots, cfg.limit, cfg.headers, cfg.prov, nil, cfg.only, func(in ssa.Instruction, name string) critMode {
			m := critNone
			if !det[in.Parent()] {
				m = coreEvent(in, name)
			}
			if cfg.crit != nil {
				m = maxMode(m, cfg.crit(in, name))
			}
			return m
		})
		r.slices = append(r.slices, sl)
		if w := os.Getenv("J8A_WHY"); w != "" {
			for _, k := range strings.Split(w, ";") {
				sl.explain(k)
			}
			os.Exit(3)
		}
	}
	runRoots(P, r, "request handlers", roots, sl, cfg, mkObs)
	r.atLeast("request handlers", 2)
}

// runFuncs explores some functions on their own, with any arguments.
func runFuncs(P *Program, r *Report, what string, roots []*ssa.Function, cfg handlerCfg, mkObs func(fn *ssa.Function) *Observer) {
	if cfg.depth == 0 {
		cfg.depth = 3
	}
	runRoots(P, r, what, roots, nil, cfg, mkObs)
	r.atLeast(what, 1)
}

func runRoots(P *Program, r *Report, what string, roots []*ssa.Function, sl *Slice, cfg handlerCfg, mkObs func(fn *ssa.Function) *Observer) {
	for _, fn := range roots {
		r.site(what, shortName(fn.RelString(nil)))
		e := NewEngine(P, nil, r)
		e.obs = mkObs(fn)
		e.obs.OnlyHeaders = cfg.only
		e.initGlobals()
		e.maxRecursion = cfg.depth
		if cfg.variants > 0 {
			e.joinCap, e.loopCap = cfg.variants, cfg.variants
		}
		e.sl = sl
		st := e.rootState(fn)
		if e.obs.Enter != nil {
			e.obs.Enter(st, fn, st.top().regs[:len(fn.Params)])
		}
		e.Run(st)
		r.engines = append(r.engines, e)
		if e.obs.After != nil {
			e.obs.After()
		}
	}
}

func init() {
	checks["C00"] = func(P *Program, r *Report) {
		runHandlers(P, r, handlerCfg{}, func(fn *ssa.Function) *Observer { return &Observer{} })
	}
}
