package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkDefaults }

type setting struct {
	section, name string
	def           *Term
}

// C26: the settings the server starts with.
func checkDefaults(P *Program, r *Report) {
	r.rule = "on every path from the start of the program to listening, the setting the server will read is either the decoded one, which is known to be set there, or the documented default, " +
		"and then the decoded one is known to be unset; the mode may be folded in case, the port defaults to 443 where the mode is known to be TLS and to 8080 where it is known not to be"
	settings := []setting{
		{"Downstream", "ReadTimeoutSeconds", tInt(120)},
		{"Downstream", "RoundTripTimeoutSeconds", tInt(240)},
		{"Downstream", "IdleTimeoutSeconds", tInt(120)},
		{"Downstream", "MaxBodyBytes", tInt(2 << 20)},
		{"Downstream", "Mode", tStr("HTTP")},
		{"Downstream", "Port", nil},
		{"Upstream", "SocketTimeoutSeconds", tInt(3)},
		{"Upstream", "ReadTimeoutSeconds", tInt(120)},
		{"Upstream", "IdleTimeoutSeconds", tInt(120)},
		{"Upstream", "PoolSize", tInt(32768)},
		{"Upstream", "MaxAttempts", tInt(1)},
	}
	for _, s := range settings {
		s := s
		c, err := P.liveConfig("Connection", s.section, s.name)
		if err != nil {
			r.undecided(err.Error())
			continue
		}
		keep := []*cfgPath{c}
		mode, err := P.liveConfig("Connection", "Downstream", "Mode")
		if err != nil {
			r.undecided(err.Error())
			continue
		}
		if s.name == "Port" {
			keep = append(keep, mode)
		}
		r.site("settings", s.section+"."+s.name)
		runBoot(P, r, handlerCfg{limit: 200, keep: keep}, func(fn *ssa.Function) *Observer {
			o := &Observer{}
			orig := func(t *Term) bool {
				if !cfgField(t, "Connection", s.section, s.name) {
					return false
				}
				return t.op == OLoad && len(t.args) == 2 && isCall(t.args[1], "decoded")
			}
			fold := func(t *Term) *Term {
				if isCall(t, "strings.ToUpper") {
					return t.args[0]
				}
				return t
			}
			o.Call = func(c2 *CallEv) {
				st := c2.st
				if !isListen(c2.name) {
					return
				}
				r.count("listening states")
				r.site("listens", c2.pos())
				v := c.value(st)
				bad := func(rule, msg string) {
					r.violate(st, rule, c2.pos(), "the server listens with "+s.section+"."+s.name+" "+msg+inFn(c2.in))
				}
				if v.op == OConst {
					r.count("defaults")
					if !st.ohas("unset") {
						bad("overridden", "fixed to "+v.String()+" although it is not known to be unset in the configuration")
					}
					want := s.def
					if s.name == "Port" {
						m := st.norm(mode.value(st))
						tls := 0
						if k, ok := strConst(m); ok {
							tls = 2
							if strings.EqualFold(k, "TLS") {
								tls = 1
							}
						} else if st.ohas("tls") != st.ohas("notls") && cfgField(fold(m), "Connection", "Downstream", "Mode") {
							tls = 2
							if st.ohas("tls") {
								tls = 1
							}
						}
						switch tls {
						case 1:
							want = tInt(443)
						case 2:
							want = tInt(8080)
						default:
							bad("default", "defaulted without knowing the mode")
							return
						}
					}
					if v != want {
						bad("default", "defaulted to "+v.String()+" instead of "+want.String())
					}
					return
				}
				r.count("given settings")
				if !orig(v) && !(s.name == "Mode" && orig(fold(v))) {
					bad("changed", "set to "+v.String()+", which is neither the configured value nor the default")
					return
				}
				if !st.ohas("set") {
					bad("unset", "left unset")
				}
			}
			ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
				if s.name == "Port" {
					switch tlsMode(st, t, f) {
					case 1:
						tag("tls")
					case 2:
						tag("notls")
					}
				}
				if t.op == OLen && orig(t.args[0]) || orig(t) && !isString(t) {
					lo, hi := st.interval(t)
					switch {
					case lo == 0 && hi == 0:
						tag("unset")
					case lo > 0 || hi < 0:
						tag("set")
					}
					for _, k := range f.ne {
						if z, ok := intConst(k); ok && z == 0 {
							tag("set")
						}
					}
				} else if orig(t) {
					if z, ok := strConst(f.eq); f.eq != nil && ok {
						if z == "" {
							tag("unset")
						} else {
							tag("set")
						}
					}
					for _, k := range f.ne {
						if z, ok := strConst(k); ok && z == "" {
							tag("set")
						}
					}
				}
			}}
			ev.hook(o)
			return o
		})
	}
	r.atLeast("listening states", 2*len(settings))
	r.atLeast("defaults", len(settings))
	r.atLeast("given settings", len(settings))
}

func isString(t *Term) bool { return isStringOrBytes(t.typ) }
