package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C30"] = checkClient }

// fieldAt: the value of a field of the object a pointer leads to
func fieldAt(st *State, p *Term, typ types.Type, name string) *Term {
	i := fieldIndex(typ, name)
	if i < 0 || p == nil {
		return nil
	}
	sp := structOf(deref(typ))
	return st.norm(st.load(tFieldAddr(p, i, name), sp.Field(i).Type()))
}

func checkClient(P *Program, r *Report) {
	r.rule = "the client made for upstream requests, on every path: its transport is its own and verifies certificates unless the setting for not doing so is on (the flag is the setting, or false, or the setting is known to be on); connections are dialled by a dialer whose timeout is the configured socket timeout in seconds, TLS handshakes have the same limit, " +
		"idle connections the configured idle timeout, and both pool limits are the configured size; on a redirect it always stops at the response; nothing else makes or changes the client, and no code turns verification off anywhere else"
	lib := func(pkg, name string) types.Type {
		if p := P.prog.ImportedPackage(pkg); p != nil && p.Type(name) != nil {
			return p.Type(name).Type()
		}
		return nil
	}
	client, transport, tlsConf, dialer := lib("net/http", "Client"), lib("net/http", "Transport"), lib("crypto/tls", "Config"), lib("net", "Dialer")
	if client == nil || transport == nil || tlsConf == nil || dialer == nil {
		r.undecided("the types of the HTTP client are not there")
		return
	}
	makes := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		if res.Len() != 1 || f.Parent() != nil || f.Blocks == nil {
			return false
		}
		t := res.At(0).Type()
		return (isNamed(deref(t), "net/http.Client") || isNamedLocal(P, t, "HTTPClient")) && P.reaches(f, func(in ssa.Instruction, name string) bool {
			a, ok := in.(*ssa.Alloc)
			return ok && isNamed(deref(a.Type()), "net/http.Client")
		})
	}
	var roots []*ssa.Function
	for _, f := range P.funcs {
		if makes(f) {
			roots = append(roots, f)
		}
	}
	redirects := map[*ssa.Function]bool{}
	upstream := []string{"Connection", "Upstream"}
	isCfg := func(t *Term, name string) bool {
		return cfgField(unconv(t), append(append([]string(nil), upstream...), name)...)
	}
	secs := func(t *Term, name string) bool {
		s, ok := seconds(t)
		return ok && isCfg(s, name)
	}
	runFuncs(P, r, "client factories", roots, handlerCfg{full: true}, func(root *ssa.Function) *Observer {
		o := &Observer{}
		o.Exit = func(st *State, res []*Term) {
			r.count("clients checked")
			bad := func(rule, msg string) {
				r.violate(st, rule, P.pos(root.Pos()), msg+" ("+root.Name()+")")
			}
			c := plainKey(st.norm(res[0]))
			if c.op == ONil {
				return
			}
			tr := plainKey(fieldAt(st, c, client, "Transport"))
			switch {
			case tr.op == ONil:
				bad("transport", "the client has no transport of its own")
				return
			case tr.op != OAlloc:
				bad("transport", "the transport of the client is not known: "+tr.String())
				return
			}
			if d := st.obj(tr); d != nil && d.fuzzy != nil {
				bad("transport", "what is set for the transport is not known")
				return
			}
			get := func(n string) *Term { return fieldAt(st, tr, transport, n) }
			// verification
			if tc := get("TLSClientConfig"); tc.op != ONil {
				v := fieldAt(st, tc, tlsConf, "InsecureSkipVerify")
				on := func() bool {
					for _, fe := range st.facts {
						if isCfg(fe.t, "TlsInsecureSkipVerify") && fe.f.b == 1 {
							return true
						}
					}
					return false
				}
				switch {
				case st.truth(v) == 2, isCfg(v, "TlsInsecureSkipVerify"):
				case st.truth(v) == 1 && on():
				default:
					bad("verify", "certificates of upstream servers are not verified if "+v.String()+", not only if the configuration says so")
				}
			}
			for _, n := range []string{"DialTLS", "DialTLSContext", "TLSNextProto"} {
				if v := get(n); v != nil && v.op != ONil {
					if n != "TLSNextProto" {
						bad("verify", "TLS connections are made in another way ("+n+")")
					}
				}
			}
			if v := get("TLSHandshakeTimeout"); !secs(v, "SocketTimeoutSeconds") {
				bad("handshake", "the limit for TLS handshakes is "+v.String()+", not the configured socket timeout")
			}
			if v := get("IdleConnTimeout"); !secs(v, "IdleTimeoutSeconds") {
				bad("idle", "the limit for idle connections is "+v.String()+", not the configured idle timeout")
			}
			for _, n := range []string{"MaxIdleConns", "MaxIdleConnsPerHost"} {
				if v := get(n); !isCfg(v, "PoolSize") {
					bad("pool", n+" is "+v.String()+", not the configured pool size")
				}
			}
			if v := st.norm(get("DisableKeepAlives")); st.truth(v) == 1 {
				bad("pool", "connections are never kept")
			}
			// dialling
			d := get("DialContext")
			if d.op == ONil {
				d = get("Dial")
			}
			dials := 0
			limit := func(dl *Term) {
				dials++
				if v := fieldAt(st, dl, dialer, "Timeout"); v == nil || !secs(v, "SocketTimeoutSeconds") {
					bad("dial", "the limit for connecting is "+v.String()+", not the configured socket timeout")
				}
			}
			if fn := fnOf(d); d.op == OClosure && fn != nil {
				if isDialer(strings.TrimSuffix(fn.RelString(nil), "$bound")) && len(d.args) > 0 {
					limit(d.args[0])
				} else {
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							n := instrName(in)
							if isDialer(n) {
								if dl := closureVal(st, d, in.(ssa.CallInstruction).Common().Args[0]); dl != nil {
									limit(dl)
									continue
								}
							}
							if strings.HasPrefix(n, "net.Dial") || isDialer(n) {
								bad("dial", "a connection is made without the configured timeout")
							}
						}
					}
				}
			}
			if dials == 0 {
				bad("dial", "connections are not known to be made by a dialer with the configured timeout: "+d.String())
			}
			// redirects
			cr := fieldAt(st, c, client, "CheckRedirect")
			fn := fnOf(cr)
			if fn == nil || fn.Blocks == nil {
				bad("redirect", "the client follows redirects: "+cr.String())
			} else {
				redirects[fn] = true
			}
		}
		return o
	})
	r.atLeast("clients checked", 1)
	var rd []*ssa.Function
	for f := range redirects {
		rd = append(rd, f)
	}
	if len(rd) > 0 {
		runFuncs(P, r, "redirect decisions", rd, handlerCfg{full: true}, func(root *ssa.Function) *Observer {
			o := &Observer{}
			o.Exit = func(st *State, res []*Term) {
				if len(res) != 1 || !strings.Contains(plainKey(res[0]).String(), "net/http.ErrUseLastResponse") {
					r.violate(st, "redirect", P.pos(root.Pos()), "redirects may be followed: "+res[0].String()+inFnName(root))
				}
			}
			return o
		})
	}
	// nobody else
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && !explored(r, f) {
					t := deref(fa.X.Type())
					n := fieldName(fa)
					if isNamed(t, "crypto/tls.Config") && n == "InsecureSkipVerify" {
						if c, ok := s.Val.(*ssa.Const); !ok || c.Value == nil || c.Value.String() != "false" {
							r.violate(nil, "verify", P.pos(s.Pos()), "certificate verification is turned off elsewhere"+inFn(s))
						}
					}
				}
				if g, ok := s.Addr.(*ssa.Global); ok && isNamedLocal(P, deref(g.Type()), "HTTPClient") && !explored(r, f) {
					r.site("uses of the client", P.pos(s.Pos()))
					c, ok := s.Val.(*ssa.Call)
					if !ok || c.Common().StaticCallee() == nil || !explored(r, c.Common().StaticCallee()) {
						r.violate(nil, "client", P.pos(s.Pos()), "the upstream client is replaced by one that was not checked"+inFn(s))
					}
				}
			}
		}
	}
}

func inFnName(f *ssa.Function) string { return " (in " + shortName(f.RelString(nil)) + ")" }

// fnOf: the function a function value stands for
func fnOf(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	return t.fn
}

func isDialer(name string) bool {
	return name == "(*net.Dialer).DialContext" || name == "(*net.Dialer).Dial"
}
