package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects what a check found and what it covered.
type Report struct {
	prop     string
	rule     string
	tier     string
	seed     int
	out      string // verif directory
	start    time.Time
	viols    []violation
	seen     map[string]bool
	counts   map[string]int
	samples  map[string][]string
	distinct map[string]map[string]bool
	known    []string
	knownHit map[string]bool
	assume   []string
	engines  []*Engine
	looked   map[*ssa.Function]bool // functions looked at without being run through
	slices   []*Slice
	verbose  bool
}

type violation struct {
	rule, pos, msg string
	path           []string
}

func newReport(prop string) *Report {
	return &Report{prop: prop, start: time.Now(), seen: map[string]bool{}, counts: map[string]int{}, samples: map[string][]string{},
		distinct: map[string]map[string]bool{}, knownHit: map[string]bool{}}
}

// count records one decided instance of a rule.
func (r *Report) count(kind string) { r.counts[kind]++ }

// site records a distinct construct a rule was applied to.
func (r *Report) site(kind, what string) {
	m := r.distinct[kind]
	if m == nil {
		m = map[string]bool{}
		r.distinct[kind] = m
	}
	m[what] = true
}

func (r *Report) violate(st *State, rule, pos, msg string) {
	key := rule + "|" + pos + "|" + msg
	if r.seen[key] {
		return
	}
	// one report per rule and construct
	k2 := rule + "|" + pos
	if r.seen[k2] {
		return
	}
	r.seen[key] = true
	r.seen[k2] = true
	v := violation{rule: rule, pos: pos, msg: msg}
	if st != nil {
		v.path = trailOf(st, 60)
	}
	r.viols = append(r.viols, v)
}

// violateVia: a violation with the way it came about
func (r *Report) violateVia(way []string, rule, pos, msg string) {
	n := len(r.viols)
	r.violate(nil, rule, pos, msg)
	if len(r.viols) > n {
		r.viols[n].path = way
	}
}

func (r *Report) undecided(msg string) {
	r.violate(nil, "undecided", "analysis", msg)
}

func trailOf(st *State, n int) []string {
	var t []string
	for x := st.trail; x != nil && len(t) < n; x = x.prev {
		t = append(t, x.pos)
	}
	for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
		t[i], t[j] = t[j], t[i]
	}
	return t
}

// atLeast fails the check if a rule was applied to fewer constructs than were confirmed to exist.
func (r *Report) atLeast(kind string, n int) {
	have := r.counts[kind]
	if d := len(r.distinct[kind]); d > 0 {
		have = d
	}
	if have < n {
		r.violate(nil, "anchor", kind, fmt.Sprintf("the rule found %d instances of '%s' in the source, at least %d are expected: the construct the property rests on is gone or not recognised", have, kind, n))
	}
}

func (r *Report) finish() int {
	explanation := r.rule
	nviol := 0
	replay := filepath.Join(r.out, "evidence", r.prop+".violations.txt")
	var sb strings.Builder
	sort.SliceStable(r.viols, func(i, j int) bool { return r.viols[i].pos < r.viols[j].pos })
	for _, v := range r.viols {
		line := fmt.Sprintf("%s: [%s] %s", v.pos, v.rule, v.msg)
		if k := r.isKnown(v); k != "" {
			if !r.knownHit[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, line)
			}
			r.knownHit[k] = true
			continue
		}
		nviol++
		fmt.Fprintln(&sb, line)
		for _, p := range v.path {
			fmt.Fprintln(&sb, "    "+p)
		}
		if nviol <= 12 {
			fmt.Println(line)
			if r.verbose {
				for _, p := range v.path {
					fmt.Println("    " + p)
				}
			}
		}
	}
	cov := map[string]any{"explanation": explanation}
	states, steps, merged, paths := 0, 0, 0, 0
	fns := map[string]bool{}
	blocks := 0
	ext := 0
	notes := map[string]bool{}
	for _, e := range r.engines {
		states += e.nStates
		steps += e.nSteps
		merged += e.nMerged
		paths += e.nForks
		for f := range e.fnSeen {
			fns[f.RelString(nil)] = true
		}
		blocks += len(e.blocksSeen)
		for _, m := range e.callsSeen {
			ext += len(m)
		}
		for n := range e.notes {
			notes[n] = true
		}
	}
	for f := range r.looked {
		fns[f.RelString(nil)] = true
	}
	if len(r.engines) > 0 || len(r.looked) > 0 {
		cov["abstract_states"] = states
		cov["instructions_interpreted"] = steps
		cov["states_merged"] = merged
		cov["branches_followed_both_ways"] = paths
		cov["functions_analysed"] = len(fns)
		cov["basic_blocks_analysed"] = blocks
		cov["external_call_sites"] = ext
		var fl []string
		for f := range fns {
			fl = append(fl, shortName(f))
		}
		sort.Strings(fl)
		cov["functions"] = fl
		if len(notes) > 0 {
			var nl []string
			for n := range notes {
				nl = append(nl, n)
			}
			sort.Strings(nl)
			cov["bounds"] = nl
		}
	}
	inst := map[string]int{}
	for k, n := range r.counts {
		inst[k] = n
	}
	if len(inst) > 0 {
		cov["rule_applications"] = inst
	}
	if len(r.distinct) > 0 {
		m := map[string][]string{}
		for k, s := range r.distinct {
			var l []string
			for x := range s {
				l = append(l, x)
			}
			sort.Strings(l)
			if len(l) > 40 {
				l = append(l[:40], fmt.Sprintf("… %d in all", len(s)))
			}
			m[k] = l
		}
		cov["constructs"] = m
	}
	if len(r.knownHit) > 0 {
		cov["known_findings_seen"] = len(r.knownHit)
	}
	ev := map[string]any{"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "other", "coverage": cov,
		"wall_s": float64(int(time.Since(r.start).Seconds()*1000)) / 1000, "violations": nviol}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	os.MkdirAll(filepath.Join(r.out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.out, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
	if nviol > 0 {
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
		return 1
	}
	os.Remove(replay)
	var parts []string
	for k, n := range r.counts {
		parts = append(parts, fmt.Sprintf("%s: %d", k, n))
	}
	for k, s := range r.distinct {
		parts = append(parts, fmt.Sprintf("%s: %d", k, len(s)))
	}
	sort.Strings(parts)
	fmt.Printf("OK property=%s states=%d functions=%d %s (%.1fs)\n", r.prop, states, len(fns), strings.Join(parts, ", "), time.Since(r.start).Seconds())
	return 0
}

func (r *Report) isKnown(v violation) string {
	for _, k := range r.known {
		// known findings name rule and function, never line numbers
		f := strings.SplitN(k, "|", 2)
		if len(f) == 2 && f[0] == v.rule && strings.Contains(v.msg, f[1]) {
			return k
		}
	}
	return ""
}
