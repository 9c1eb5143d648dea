package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// stackOf names the functions on the analysed call stack.
func stackOf(st *State) string {
	var s []string
	for _, f := range st.frames {
		s = append(s, fmt.Sprintf("%s.%d", f.fn.Name(), f.block.Index))
	}
	return strings.Join(s, ">")
}

var dbgHist = map[string]int{}
var dbgSample = map[string][]*State{}

func dbgCount(st *State) {
	k := stackOf(st)
	dbgHist[k]++
	if n := len(dbgSample[k]); n < 400 {
		dbgSample[k] = append(dbgSample[k], st.fork())
	}
}

func (e *Engine) dbgDump() {
	if e.sl != nil {
		var fs []string
		for f := range e.fnSeen {
			fs = append(fs, f.Name())
		}
		sort.Strings(fs)
		fmt.Fprintln(os.Stderr, "followed:", fs)
		fs = nil
		for f := range e.sl.hidden {
			fs = append(fs, f.Name())
		}
		fmt.Fprintln(os.Stderr, "hidden:", fs)
		var ls []string
		for l := range e.sl.locs {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		fmt.Fprintln(os.Stderr, "tracked:", ls)
		fs = nil
		for o := range e.sl.objs {
			fs = append(fs, o)
		}
		sort.Strings(fs)
		fmt.Fprintln(os.Stderr, "objects:", fs)
	}
	fmt.Fprintln(os.Stderr, e.rootName, "states", e.nStates, "merged", e.nMerged, "widened", e.widened, "reccut", e.recursionCut)
	defer func() { dbgHist, dbgSample = map[string]int{}, map[string][]*State{} }()
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range dbgHist {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i > 40 {
			break
		}
		fmt.Fprintf(os.Stderr, "%7d %s\n", x.n, x.k)
	}
	// differences among the samples of the given place
	want := os.Getenv("J8A_AT")
	if want == "" && len(l) > 0 {
		want = l[0].k
	}
	ss := dbgSample[want]
	fmt.Fprintf(os.Stderr, "== %s: %d samples\n", want, len(ss))
	vals := map[string]map[string]int{}
	add := func(k, v string) {
		if vals[k] == nil {
			vals[k] = map[string]int{}
		}
		vals[k][v]++
	}
	for _, s := range ss {
		seen := map[string]bool{}
		put := func(k, v string) {
			if !seen[k] {
				add(k, v)
			}
			seen[k] = true
		}
		for i, f := range s.frames {
			for r, v := range f.regs {
				if v != nil {
					put(fmt.Sprintf("reg %d:%s/%s", i, f.fn.Name(), f.info.vals[r].Name()), v.show(4))
				}
			}
		}
		for _, o := range s.heap {
			for _, c := range o.cells {
				put("cell "+c.p.show(5), c.v.show(5))
			}
			if o.fuzzy != nil {
				put("fuzzy "+o.root.show(3), o.fuzzy.show(3))
			}
		}
		for _, f := range s.facts {
			put("fact "+f.t.show(6), fmt.Sprintf("%+v", f.f.show()))
		}
		for _, o := range s.obs {
			put("obs "+o.k, fmt.Sprint(o.v))
		}
		put("pending", fmt.Sprint(len(s.pending)))
		put("locks", fmt.Sprint(s.locks))
	}
	var ks []string
	for k, m := range vals {
		t := 0
		for _, n := range m {
			t += n
		}
		if t < len(ss) {
			m["<absent>"] = len(ss) - t
		}
		if len(m) > 1 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return score(vals[ks[i]], len(ss)) > score(vals[ks[j]], len(ss)) })
	for i, k := range ks {
		if i > 60 {
			break
		}
		fmt.Fprintf(os.Stderr, "  %s:\n", k)
		j := 0
		for v, n := range vals[k] {
			if j++; j > 5 {
				break
			}
			fmt.Fprintf(os.Stderr, "      %5d %s\n", n, v)
		}
	}
}

func score(m map[string]int, n int) int {
	max := 0
	for _, x := range m {
		if x > max {
			max = x
		}
	}
	return n - max
}

func (f *Fact) show() string {
	var s []string
	switch f.nilness {
	case 1:
		s = append(s, "nil")
	case 2:
		s = append(s, "notnil")
	}
	switch f.b {
	case 1:
		s = append(s, "true")
	case 2:
		s = append(s, "false")
	}
	if f.lo != minI || f.hi != maxI {
		s = append(s, fmt.Sprintf("[%d,%d]", f.lo, f.hi))
	}
	if f.eq != nil {
		s = append(s, "="+f.eq.String())
	}
	for _, n := range f.ne {
		s = append(s, "!="+n.String())
	}
	if f.dyn != nil {
		s = append(s, "is "+tkey(f.dyn))
	}
	for _, t := range f.notDyn {
		s = append(s, "isnt "+tkey(t))
	}
	return strings.Join(s, ",")
}

func envInt(k string, d int) int {
	n := 0
	if _, err := fmt.Sscan(os.Getenv(k), &n); err == nil {
		return n
	}
	return d
}
