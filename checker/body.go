package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Byte contents: what in-memory buffers and gzip coders hold, followed through the library calls that fill, wrap and
// empty them. Contents are terms: cat(a,b), gzip(a) for what a closed gzip writer produced from a, readall(r) for what was
// read from a reader, with gunzip(a) as the reader of what a decompresses to.

var bytesTyp = types.NewSlice(types.Typ[types.Byte])

func tCat(a, b *Term) *Term {
	if s, ok := strConst(a); ok && s == "" {
		return b
	}
	if s, ok := strConst(b); ok && s == "" {
		return a
	}
	if a.depth > 16 || b.depth > 22 {
		return mk(OCall, "bytes…", bytesTyp, nil, nil, 0, 0)
	}
	return mk(OCall, "cat", bytesTyp, nil, nil, 0, 0, a, b)
}

func bodyCell(p *Term, n string) *Term { return tFieldAddr(p, -1, n) }

func (st *State) bodyGet(p *Term, n string) *Term {
	if p == nil {
		return nil
	}
	if o := st.obj(p.root()); o != nil {
		if v := o.get(bodyCell(p, n)); v != nil {
			return v
		}
	}
	return nil
}

func (st *State) bodySet(p *Term, n string, v *Term) {
	st.setObj(st.objOrNew(p.root()).with(bodyCell(p, n), v))
}

// content: what a buffer, a reader or a byte slice holds.
func (st *State) content(r *Term) *Term {
	r = unwrap(r)
	if v := st.bodyGet(r, "$data"); v != nil {
		return v
	}
	if r.op == OCall {
		switch {
		case isCall(r, "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader"):
			return r.args[0]
		case isCall(r, "bufio.NewReader", "bufio.NewReaderSize", "io.NopCloser", "io/ioutil.NopCloser"):
			return st.content(r.args[0])
		}
	}
	if src := st.bodyGet(r, "$src"); src != nil {
		return mk(OCall, "gunzip", bytesTyp, nil, nil, 0, 0, src)
	}
	if r.root().op == OAlloc && isNamed(derefTermType(r), "bytes.Buffer") {
		if o := st.obj(r.root()); o == nil || o.fuzzy == nil {
			return tStr("")
		}
	}
	return r
}

// reader: the reader itself, or gunzip(x) for decompressors
func (st *State) reader(r *Term) *Term {
	r = unwrap(r)
	if src := st.bodyGet(r, "$src"); src != nil {
		return mk(OCall, "gunzip", bytesTyp, nil, nil, 0, 0, src)
	}
	return r
}

func (st *State) addContent(dst, data *Term) {
	dst = unwrap(dst)
	if isZipWriter(st, dst) {
		old := st.bodyGet(dst, "$in")
		if old == nil {
			old = tStr("")
		}
		st.bodySet(dst, "$in", tCat(old, data))
		return
	}
	old := st.content(dst)
	if old == dst {
		old = mk(OCall, "prior", bytesTyp, nil, nil, 0, 0, dst)
	}
	st.bodySet(dst, "$data", tCat(old, data))
}

func isZipWriter(st *State, t *Term) bool { return st.bodyGet(t, "$dst") != nil }

// bodyModel: calls that move bytes.
func (c *CallEv) bodyModel() ([]outcome, bool) {
	st := c.st
	one := func(t *Term) ([]outcome, bool) { return []outcome{{st, t}}, true }
	switch c.name {
	case "compress/gzip.NewWriter":
		w := c.opaque(c.name, false)
		st.bodySet(w, "$dst", unwrap(c.arg(0)))
		return one(w)
	case "compress/gzip.NewWriterLevel":
		w := c.opaque(c.name, false)
		if w.op == OTuple {
			st.bodySet(w.args[0], "$dst", unwrap(c.arg(0)))
		}
		return one(w)
	case "(*compress/gzip.Writer).Reset":
		w := unwrap(c.arg(0))
		st.bodySet(w, "$dst", unwrap(c.arg(1)))
		st.bodySet(w, "$in", tStr(""))
		return one(tNil())
	case "(*compress/gzip.Writer).Write", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "io.WriteString":
		if c.name == "io.WriteString" && isWriter(unwrap(c.arg(0))) {
			return nil, false
		}
		r := c.opaque(c.name, false)
		st.addContent(c.arg(0), st.norm(c.arg(1)))
		return one(r)
	case "(*compress/gzip.Writer).Close":
		w := unwrap(c.arg(0))
		r := c.opaque(c.name, false)
		dst, in := st.bodyGet(w, "$dst"), st.bodyGet(w, "$in")
		if dst != nil {
			if in == nil {
				in = tStr("")
			}
			if isWriter(dst) {
				return one(r)
			}
			st.addContent(dst, mk(OCall, "gzip", bytesTyp, nil, nil, 0, 0, in))
			st.bodySet(w, "$in", tStr(""))
		}
		return one(r)
	case "(*bytes.Buffer).Reset":
		st.bodySet(unwrap(c.arg(0)), "$data", tStr(""))
		return one(tNil())
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		b := unwrap(c.arg(0))
		if v := st.content(b); v != b {
			return one(v)
		}
	case "bytes.Clone":
		return one(c.arg(0))
	case "compress/gzip.NewReader":
		r := c.opaque(c.name, false)
		if r.op == OTuple {
			st.bodySet(r.args[0], "$src", st.content(c.arg(0)))
		}
		return one(r)
	case "(*compress/gzip.Reader).Reset":
		z := unwrap(c.arg(0))
		src := st.content(c.arg(1))
		er := mk(OCall, "readallerr", c.resultTypes()[0], nil, nil, 0, 0, mk(OCall, "gunzip", bytesTyp, nil, nil, 0, 0, src), c.freshSym("zr"))
		st.bodySet(z, "$src", src)
		return one(er)
	case "io/ioutil.ReadAll", "io.ReadAll":
		s := c.freshSym("rd")
		r := st.reader(c.arg(0))
		return one(tTuple(mk(OCall, "readall", c.resultTypes()[0], nil, nil, 0, 0, r, s), mk(OCall, "readallerr", c.resultTypes()[1], nil, nil, 0, 0, r, s)))
	case "io.Copy", "(*bytes.Buffer).ReadFrom":
		if isWriter(unwrap(c.arg(0))) {
			return nil, false
		}
		s := c.freshSym("rd")
		r := st.reader(c.arg(1))
		rt := c.resultTypes()
		data := mk(OCall, "readall", bytesTyp, nil, nil, 0, 0, r, s)
		if k := st.content(c.arg(1)); k != unwrap(c.arg(1)) && !isCall(k, "gunzip") {
			data = k
		}
		st.addContent(c.arg(0), data)
		return one(tTuple(mk(OLen, "", rt[0], nil, nil, 0, 0, data), mk(OCall, "readallerr", rt[1], nil, nil, 0, 0, r, s)))
	}
	return nil, false
}

// critBody: the calls that move bytes.
func critBody(in ssa.Instruction, name string) critMode {
	for _, p := range []string{"(*compress/gzip.", "compress/gzip.New", "(*bytes.Buffer).", "bytes.New", "io.Copy", "io.WriteString", "(*sync.Pool).Get"} {
		if strings.HasPrefix(name, p) {
			return critArgs
		}
	}
	if name == "io.ReadAll" || name == "io/ioutil.ReadAll" {
		return critArgs
	}
	return critNone
}
