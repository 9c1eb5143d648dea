package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkConfigSource }

// isDecode: the call that fills the configuration; the argument with the text and the one with the place
func isDecode(name string) bool {
	switch name {
	case "encoding/json.Unmarshal", "github.com/ghodss/yaml.Unmarshal", "gopkg.in/yaml.v2.Unmarshal":
		return true
	}
	return false
}

// sourceErr: the error of an operation that opens or reads a source, for its result
func sourceErr(name string) int64 {
	switch name {
	case "os.ReadFile", "io/ioutil.ReadFile":
		// (reading a file that could not be opened fails)
		return 1
	}
	return -1
}

// C24: no listening with a configuration that was not read and decoded.
func checkConfigSource(P *Program, r *Report) {
	r.rule = "on every path from the start of the program to listening: the routes the server uses come from a decoding that is known to have succeeded, of a text from the environment or of a file that is known to have been opened and " +
		"read to the end without an error, and there is at least one route; a program that does not listen because of such an error ends with a fatal log event, a panic or an exit code"
	bootPass(P, r, handlerCfg{fields: []string{"Config.Routes"}, crit: func(in ssa.Instruction, name string) critMode {
		if isDecode(name) || sourceErr(name) >= 0 || name == "os.Open" || name == "os.OpenFile" || name == "io.ReadAll" || name == "io/ioutil.ReadAll" {
			return critArgs
		}
		return critNone
	}}, []string{"Routes"}, func(o *Observer) {
		o.Call = func(c *CallEv) {
			if isListen(c.name) && !c.st.ohas("listened") {
				c.st.otag("listened")
			}
		}
		o.Ret = func(c *CallEv, st *State, res *Term) {
			if isDecode(c.name) || strings.HasPrefix(c.name, "os.Open") || sourceErr(c.name) >= 0 {
				st.otag("tried")
			}
			switch {
			case isDecode(c.name) && res != nil:
				r.site("decodings", c.pos())
				st.oset("decodes", append(append([]*Term(nil), st.oget("decodes")...), c.arg(0), res)...)
			case sourceErr(c.name) >= 0:
				r.site("files read", c.pos())
			}
		}
		o.Exit = func(st *State, res []*Term) {
			if st.ohas("listened") {
				return
			}
			if st.ohas("tried") {
				r.violate(st, "silent end", "program", "the program ends without an error and without having listened")
			}
		}
	}, func(c *CallEv, vals map[string]*Term, bad func(rule, msg string)) {
		st := c.st
		routes := vals["Routes"]
		if lo, _ := st.interval(st.norm(tLen(routes))); lo < 1 {
			bad("no routes", "the configuration is not known to have a route")
		}
		l := st.oget("decodes")
		found := false
		for i := 0; i+1 < len(l); i += 2 {
			text, err := l[i], l[i+1]
			if !routes.contains(func(x *Term) bool {
				return isCall(x, "decoded") && len(x.args) > 0 && err.contains(func(y *Term) bool { return y == x.args[0] })
			}) {
				continue
			}
			found = true
			r.count("decodings checked")
			if st.isNil(err) != 1 {
				bad("decode", "its configuration is not known to have been decoded without an error")
			}
			src := 0
			text.contains(func(x *Term) bool {
				switch {
				case isCall(x, "os.Getenv"), x.op == OExt && x.n == 0 && isCall(x.args[0], "os.LookupEnv"):
					src++
				case isCall(x, "readall"):
					src++
					er := mk(OCall, "readallerr", errType(), nil, nil, 0, 0, x.args...)
					if st.isNil(er) != 1 {
						bad("read", "its configuration is not known to have been read without an error")
					}
				case x.op == OExt && x.n == 0 && x.args[0].op == OCall && sourceErr(x.args[0].str) >= 0:
					src++
					if st.isNil(mk(OExt, "", errType(), nil, nil, sourceErr(x.args[0].str), 0, x.args[0])) != 1 {
						bad("open", "its configuration is not known to have been opened without an error")
					}
				}
				return false
			})
			if src == 0 {
				bad("source", "its configuration was decoded from "+text.String()+", which is neither a file nor the environment")
			}
		}
		if !found {
			bad("decode", "its routes do not come from a decoding of the configuration")
		}
	})
	r.atLeast("decodings checked", 2)
	r.atLeast("listening states", 2)
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }
