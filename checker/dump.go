package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// DUMP prints the decided conditions and the calls of the handlers, for development.
func init() {
	dump := func(cfg handlerCfg) check {
		return func(P *Program, r *Report) {
			seen := map[string]bool{}
			runHandlers(P, r, cfg, func(fn *ssa.Function) *Observer {
				return &Observer{
					TrackHeaders: cfg.headers,
					Branch: func(st *State, in *ssa.If, c *Term, val bool) {
						seen[P.pos(instrPos(in))+" IF "+c.String()] = true
					},
					Ret: func(c *CallEv, st *State, res *Term) {
						s := c.pos() + " CALL " + c.name + "("
						for _, a := range c.args {
							s += st.norm(a).String() + ", "
						}
						seen[s+")"] = true
					},
					Select: func(st *State, in ssa.Instruction, chans []*Term, idx int, blocking bool) {
						s := P.pos(instrPos(in)) + " SELECT "
						for _, a := range chans {
							s += a.String() + ", "
						}
						seen[s+fmt.Sprint(idx, blocking)] = true
					},
				}
			})
			var l []string
			for s := range seen {
				l = append(l, s)
			}
			sort.Strings(l)
			for _, s := range l {
				fmt.Println(s)
			}
		}
	}
	checks["DUMP"] = dump(handlerCfg{})
	checks["DUMPP"] = dump(handlerCfg{prov: true, depth: 2})
	checks["DUMPH"] = dump(handlerCfg{headers: true, prov: true, depth: 1})
}
