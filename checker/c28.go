package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = checkTLS
	checks["C29"] = checkServer
}

// The suites with forward secrecy and authenticated encryption.
var goodSuites = map[int64]bool{
	0x1301: true, 0x1302: true, 0x1303: true,
	0xc02b: true, 0xc02c: true, 0xc02f: true, 0xc030: true, 0xcca8: true, 0xcca9: true,
}

const versionTLS12 = 0x0303

// libField loads a field of a library struct.
func libField(st *State, p *Term, t types.Type, name string) *Term {
	sp := structOf(t)
	for i := 0; sp != nil && i < sp.NumFields(); i++ {
		if sp.Field(i).Name() == name {
			return st.norm(st.load(tFieldAddr(p, i, name), sp.Field(i).Type()))
		}
	}
	return nil
}

// libType: a library type, as the code of the repository sees it
func (P *Program) libType(pkg, name string) types.Type {
	is := func(t types.Type) types.Type {
		n, ok := t.(*types.Named)
		if ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg {
			return n
		}
		return nil
	}
	var fall types.Type
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if t := is(deref(fa.X.Type())); t != nil {
						return t
					}
				}
				if v, ok := in.(ssa.Value); ok && fall == nil {
					fall = is(deref(v.Type()))
				}
			}
		}
	}
	return fall
}

func serverField(c *CallEv, P *Program, name string) *Term {
	if !strings.HasPrefix(c.name, "(*net/http.Server).") {
		return nil
	}
	return libField(c.st, c.arg(0), P.libType("net/http", "Server"), name)
}

// apart: a function that neither itself nor in what it calls handles a value of
// any of these types, and that gives back no more than plain values.
func (P *Program) apart(fn *ssa.Function, memo map[*ssa.Function]bool, interest func(t types.Type) bool) bool {
	if v, ok := memo[fn]; ok {
		return v
	}
	ok := true
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if _, basic := t.Underlying().(*types.Basic); !basic && !types.Identical(t, errType()) {
			ok = false
		}
	}
	for g := range P.reachable(fn) {
		if !ok {
			break
		}
		for _, p := range g.Params {
			ok = ok && !interest(deref(p.Type()))
		}
		for _, p := range g.FreeVars {
			ok = ok && !interest(deref(p.Type()))
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if v, isV := in.(ssa.Value); isV && interest(deref(v.Type())) {
					ok = false
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && interest(deref((*op).Type())) {
						ok = false
					}
				}
			}
		}
	}
	memo[fn] = ok
	return ok
}

// stubApart: such functions are not followed.
func stubApart(P *Program, o *Observer, fields []string) {
	var all []string
	add := func(p string) {
		for _, x := range all {
			if x == p {
				return
			}
		}
		all = append(all, p)
	}
	for _, f := range fields {
		add(f[:strings.LastIndex(f, ".")])
	}
	for _, n := range []string{"Runtime", "Config", "Connection", "Downstream"} {
		add(n)
	}
	memo := map[*ssa.Function]bool{}
	o.Stub = func(st *State, fn *ssa.Function, args []*Term) bool {
		return P.apart(fn, memo, func(t types.Type) bool {
			n, ok := t.(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				return false
			}
			name := n.Obj().Name()
			if !P.ownPkg(n.Obj().Pkg()) {
				name = n.Obj().Pkg().Path() + "." + name
			}
			for _, x := range all {
				if x == name {
					return true
				}
			}
			return false
		})
	}
}

// tagFields keeps states apart that stored different values in these fields of
// library structs and settings.
func tagFields(P *Program, o *Observer, fields, settings []string) {
	prev := o.Store
	o.Store = func(st *State, p, v *Term, in ssa.Instruction) {
		if prev != nil {
			prev(st, p, v, in)
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		t := deref(fa.X.Type())
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return
		}
		name := structOf(t).Field(fa.Field).Name()
		l := settings
		if !P.ownPkg(n.Obj().Pkg()) {
			name = n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + name
			l = fields
		}
		for _, f := range l {
			if f == name || strings.HasSuffix(f, "."+name) {
				if v = st.norm(v); v.depth > 20 {
					v = tStr("…")
				}
				st.oset("at:"+name, v)
			}
		}
	}
}

func hasTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func isKeyPair(t *Term) bool { return isCall(t, "crypto/tls.X509KeyPair") }

// C28: how the server listens.
func checkTLS(P *Program, r *Report) {
	r.rule = "on every path from the start of the program to listening: with TLS only where the mode is known to be TLS, without only where it is known not to be; with TLS the server uses a configuration of its own with a minimum " +
		"version of at least 1.2, no callback that replaces it, a non-empty list of approved suites (forward secrecy and AEAD), no certificate files, and certificates that contain only the configured key pair, whose leaf is known to have been parsed, " +
		"to name a DNS name and to have been verified without an error"
	tlsConf := P.libType("crypto/tls", "Config")
	if tlsConf == nil {
		r.undecided("crypto/tls is not used")
		return
	}
	var fields []string
	for _, f := range []string{"MinVersion", "MaxVersion", "CipherSuites", "Certificates", "GetCertificate", "GetConfigForClient"} {
		fields = append(fields, "crypto/tls.Config."+f)
	}
	about := func(t *Term) bool {
		return t.contains(func(x *Term) bool {
			return cfgField(x, "Downstream", "Mode") || x.op == OCall && (strings.Contains(x.str, "crypto/"))
		})
	}
	fields = append(fields, "net/http.Server.TLSConfig", "crypto/tls.Certificate.Certificate", "crypto/x509.Certificate.DNSNames")
	bootPass(P, r, handlerCfg{variants: 150, about: about, fields: fields, crit: func(in ssa.Instruction, name string) critMode {
		switch {
		case isListen(name), name == "crypto/tls.X509KeyPair", name == "crypto/tls.LoadX509KeyPair", name == "crypto/x509.ParseCertificate",
			strings.HasPrefix(name, "(*crypto/x509.Certificate).Verify"):
			return critArgs
		}
		return critNone
	}}, []string{"Connection.Downstream.Mode", "Connection.Downstream.Cert", "Connection.Downstream.Key"}, func(o *Observer) {
		ev := &evidence{fact: func(st *State, t *Term, f *Fact, tag func(string)) {
			switch tlsMode(st, t, f) {
			case 1:
				tag("tls")
			case 2:
				tag("notls")
			}
			add := func(key string, x *Term) {
				if !x.contains(func(y *Term) bool { return y.op == OIndexAddr && y.args[1] == tInt(0) && y.args[0].contains(isKeyPair) }) {
					return
				}
				for _, y := range st.oget(key) {
					if y == x {
						return
					}
				}
				st.oset(key, append(append([]*Term(nil), st.oget(key)...), x)...)
			}
			switch {
			case t.op == OLen && f.lo >= 1:
				if b, ok := isFieldOf(t.args[0], "DNSNames"); ok {
					add("named", st.norm(b))
				}
			case f.nilness == 1 && t.op == OExt && t.n == 1 && isCall(t.args[0], "crypto/x509.ParseCertificate"):
				add("parsed", t.args[0])
			case f.nilness == 1:
				l := st.oget("verify")
				for i := 0; i+1 < len(l); i += 2 {
					if l[i+1] == t {
						add("verified", l[i])
					}
				}
			}
		}}
		ev.hook(o)
		tagFields(P, o, fields, nil)
		stubApart(P, o, fields)
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if c.name == "(*crypto/x509.Certificate).Verify" {
				r.site("verifications", c.pos())
				t := res
				if t.op == OTuple {
					t = t.args[1]
				}
				st.oset("verify", append(append([]*Term(nil), st.oget("verify")...), st.norm(c.arg(0)), t)...)
			}
		}
	}, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
		st := c.st
		mode := st.norm(vals["Connection.Downstream.Mode"])
		tls := 0
		if k, ok := strConst(mode); ok {
			tls = 2
			if strings.EqualFold(k, "TLS") {
				tls = 1
			}
		} else if st.ohas("tls") != st.ohas("notls") {
			tls = 2
			if st.ohas("tls") {
				tls = 1
			}
		}
		if !listensTLS(c.name) {
			r.count("listening without TLS")
			if tls != 2 {
				bad("plaintext", "without TLS, although the mode is not known not to be TLS")
			}
			return
		}
		r.count("listening with TLS")
		if tls != 1 {
			bad("mode", "with TLS, although the mode is not known to be TLS")
		}
		conf := serverField(c, P, "TLSConfig")
		if conf == nil || st.isNil(conf) == 1 {
			bad("configuration", "with TLS, without a TLS configuration of its own")
			return
		}
		for _, a := range c.args[1:] {
			if s, ok := strConst(st.norm(a)); isString(a) && (!ok || s != "") {
				bad("files", "with TLS, with certificate files")
			}
		}
		fld := func(n string) *Term { return libField(st, conf, tlsConf, n) }
		if k, ok := intConst(fld("MinVersion")); !ok || k < versionTLS12 {
			bad("version", "with TLS, with the minimum version "+fld("MinVersion").String())
		}
		if k, ok := intConst(fld("MaxVersion")); !ok || k != 0 && k < versionTLS12 {
			bad("version", "with TLS, with the maximum version "+fld("MaxVersion").String())
		}
		for _, n := range []string{"GetCertificate", "GetConfigForClient"} {
			if v := fld(n); st.isNil(v) != 1 {
				bad("callback", "with TLS, with "+n+", which may replace what was verified")
			}
		}
		suites := snap(st, fld("CipherSuites"), 3)
		if suites.op != OList || len(suites.args) == 0 {
			bad("suites", "with TLS, with the suites "+suites.String())
		} else {
			for _, s := range suites.args {
				r.count("suites checked")
				if k, ok := intConst(s); !ok || !goodSuites[k] {
					bad("suites", "with TLS, with the suite "+s.String()+", which is not an approved one")
				}
			}
		}
		certs := fld("Certificates")
		n, ok := intConst(st.norm(tLen(certs)))
		if !ok || n != 1 {
			bad("certificates", "with TLS, with "+certs.String()+" as its certificates")
			return
		}
		ct := P.libType("crypto/tls", "Certificate")
		der := libField(st, tIndexAddr(certs, tInt(0)), ct, "Certificate")
		if certs.op == OSliceV {
			der = libField(st, tIndexAddr(certs.args[0], tInt(certs.n)), ct, "Certificate")
		}
		if der == nil || !der.contains(func(x *Term) bool {
			return isCall(x, "crypto/tls.X509KeyPair") && x.args[0].contains(func(y *Term) bool { return cfgField(y, "Downstream", "Cert") }) &&
				x.args[1].contains(func(y *Term) bool { return cfgField(y, "Downstream", "Key") })
		}) {
			bad("key pair", "with TLS, with a certificate that is not the configured one: "+der.String())
			return
		}
		for _, cert := range st.oget("verified") {
			// the leaf, parsed from the first block of the certificate
			if cert.op != OExt || cert.n != 0 || !isCall(cert.args[0], "crypto/x509.ParseCertificate") || !hasTerm(st.oget("parsed"), cert.args[0]) {
				continue
			}
			block := cert.args[0].args[0]
			if !block.contains(func(x *Term) bool { return x.op == OIndexAddr && x.args[0] == der && x.args[1] == tInt(0) }) {
				continue
			}
			if !hasTerm(st.oget("named"), cert) {
				bad("DNS name", "with TLS, with a certificate that is not known to name a DNS name")
			}
			return
		}
		bad("chain", "with TLS, with a certificate that is not known to have been parsed and verified")
	})
	r.atLeast("listening with TLS", 1)
	r.atLeast("listening without TLS", 1)
	r.atLeast("suites checked", 1)
}

// C29: the server that listens.
func checkServer(P *Program, r *Report) {
	r.rule = "on every path from the start of the program to listening, the server object has: the address \":\" and the live port; the read timeout (of the headers too) and the idle timeout equal to the live settings in seconds; " +
		"a write timeout of at least the live roundtrip timeout in seconds; and a handler that has the proxy handler for the path /"
	const ds = "Connection.Downstream."
	passes := []struct {
		what   string
		fields []string
		names  []string
	}{
		{"addr", []string{"Addr"}, []string{ds + "Port"}},
		{"read", []string{"ReadTimeout"}, []string{ds + "ReadTimeoutSeconds"}},
		{"header", []string{"ReadHeaderTimeout"}, []string{ds + "ReadTimeoutSeconds"}},
		{"write", []string{"WriteTimeout"}, []string{ds + "RoundTripTimeoutSeconds"}},
		{"idle", []string{"IdleTimeout"}, []string{ds + "IdleTimeoutSeconds"}},
		{"handler", []string{"Handler"}, nil},
	}
	isHandler := map[*ssa.Function]bool{}
	for _, f := range P.handlerRoots() {
		for g := range P.reachable(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && isDoSig(instrName(in), c.Common().Signature()) {
						isHandler[f] = true
					}
				}
			}
		}
	}
	// a handler that hands its request to such a handler in any case
	for _, f := range P.funcs {
		if len(f.Blocks) == 0 || f.Signature.Params().Len() != 2 || isHandler[f] {
			continue
		}
		np := len(f.Params)
		for _, in := range f.Blocks[0].Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && isHandler[c.Call.StaticCallee()] && len(c.Call.Args) == 2 &&
				c.Call.Args[0] == f.Params[np-2] && c.Call.Args[1] == f.Params[np-1] {
				isHandler[f] = true
			}
		}
	}
	muxReg := func(name string) bool {
		return name == "(*net/http.ServeMux).Handle" || name == "(*net/http.ServeMux).HandleFunc" || name == "net/http.Handle" || name == "net/http.HandleFunc"
	}
	for _, pass := range passes {
		what, names := pass.what, pass.names
		about := func(t *Term) bool {
			return t.contains(func(x *Term) bool {
				if cfgField(x, "Downstream", "Mode") {
					return true
				}
				for _, n := range names {
					if cfgField(x, "Downstream", strings.TrimPrefix(n, ds)) {
						return true
					}
				}
				return false
			})
		}
		var fields []string
		for _, f := range pass.fields {
			fields = append(fields, "net/http.Server."+f)
		}
		bootPass(P, r, handlerCfg{variants: 150, about: about, fields: fields, crit: func(in ssa.Instruction, name string) critMode {
			if isListen(name) || muxReg(name) && what == "handler" || strings.HasPrefix(name, "net.Listen") {
				return critArgs
			}
			return critNone
		}}, names, func(o *Observer) {
			tagFields(P, o, fields, names)
			o.Call = func(c *CallEv) {
				if !muxReg(c.name) {
					return
				}
				st := c.st
				i := 0
				mux := tSym("default mux", nil)
				if strings.HasPrefix(c.name, "(") {
					i, mux = 1, st.norm(c.arg(0))
				}
				if s, ok := strConst(st.norm(c.arg(i))); ok && s == "/" {
					h := c.arg(i + 1)
					for h.op == OIface || h.op == OConv {
						h = h.args[0]
					}
					if h.fn != nil && isHandler[h.fn] {
						st.oset("routed", append(append([]*Term(nil), st.oget("routed")...), mux)...)
					}
				}
			}
		}, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
			st := c.st
			fld := func(n string) *Term {
				v := serverField(c, P, n)
				if v == nil {
					return tNil()
				}
				return v
			}
			sec := func(v *Term, name string, least bool) bool {
				if n, ok := intConst(st.norm(vals[ds+name])); ok {
					d, isK := intConst(v)
					return isK && (d == n*1000000000 || least && d > n*1000000000)
				}
				b, k := v, int64(0)
				if b.op == OBin && b.str == "+" {
					b, k = linear(v)
				}
				x, ok := seconds(b)
				return ok && st.norm(unconv(x)) == st.norm(vals[ds+name]) && (k == 0 || least && k > 0)
			}
			switch what {
			case "addr":
				a := fld("Addr")
				ps := parts(a)
				want := st.norm(vals[names[0]])
				ok := len(ps) == 2 && ps[0] == tStr(":") && isCall(ps[1], "dec", "strconv.Itoa") && st.norm(unconv(ps[1].args[0])) == want
				if k, isK := intConst(want); isK {
					s, isS := strConst(a)
					ok = ok || isS && s == ":"+itoa(int(k))
				}
				if !ok {
					bad("port", "its address is "+a.String()+", not made of the port "+want.String())
				}
			case "read":
				if v := fld("ReadTimeout"); !sec(v, "ReadTimeoutSeconds", false) {
					bad("read timeout", "its read timeout is "+v.String())
				}
			case "header":
				// (0 stands for the read timeout)
				if v := fld("ReadHeaderTimeout"); !sec(v, "ReadTimeoutSeconds", false) && v != tInt(0) {
					bad("read header timeout", "its read timeout for headers is "+v.String())
				}
			case "write":
				if v := fld("WriteTimeout"); !sec(v, "RoundTripTimeoutSeconds", true) {
					bad("write timeout", "its write timeout is "+v.String())
				}
			case "idle":
				if v := fld("IdleTimeout"); !sec(v, "IdleTimeoutSeconds", false) {
					bad("idle timeout", "its idle timeout is "+v.String())
				}
			case "handler":
				h := fld("Handler")
				for h.op == OIface || h.op == OConv {
					h = h.args[0]
				}
				if st.isNil(h) == 1 {
					h = tSym("default mux", nil)
				}
				ok := h.fn != nil && isHandler[h.fn]
				for _, m := range st.oget("routed") {
					ok = ok || m == h
				}
				if !ok {
					bad("handler", "its handler "+h.String()+" is not known to route every path")
				}
			}
		})
	}
	r.atLeast("listening states", 10)
}
