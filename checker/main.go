package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type check func(P *Program, r *Report)

var checks = map[string]check{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: j8acheck PROPERTY")
		os.Exit(2)
	}
	prop := os.Args[1]
	repo := os.Getenv("J8A_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("J8A_VERIF")
	if verif == "" {
		exe, _ := os.Executable()
		verif = filepath.Dir(filepath.Dir(exe))
	}
	r := newReport(prop)
	r.out = verif
	r.tier = os.Getenv("VERIF_TIER")
	if r.tier != "thorough" {
		r.tier = "quick"
	}
	r.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.verbose = os.Getenv("J8A_VERBOSE") != ""
	c, ok := checks[prop]
	if !ok {
		fmt.Println("no check for", prop)
		os.Exit(2)
	}
	P, err := loadProgram(repo)
	if err != nil {
		r.violate(nil, "load", "repository", "the source does not load: "+err.Error())
		os.Exit(r.finish())
	}
	first := r.fresh()
	attempt(c, P, first)
	took := time.Since(started)
	if len(first.viols) > 0 && first.imprecise() != 0 {
		// What was merged may have cost what tells that the property holds: look again, merging later (or earlier, when there
		// was too much to look at). Each run by itself covers everything.
		ladder := [][2]float64{{6, 1}, {6, 6}}
		if first.imprecise() < 0 {
			ladder = [][2]float64{{0.25, 0.5}}
		}
		for _, f := range ladder {
			refineJoin, refineLoop = f[0], f[1]
			again := r.fresh()
			started, timeBudget = time.Now(), min(2*time.Minute, 3*took+30*time.Second)
			attempt(c, P, again)
			if r.verbose {
				for _, v := range again.viols {
					fmt.Println("again", f, v.pos, v.rule, v.msg)
				}
			}
			if len(again.viols) == 0 {
				again.assume = append(again.assume, fmt.Sprint("a run with the usual limits on merging variants was not conclusive, this is one with limits scaled by ", f))
				first = again
				break
			}
		}
	}
	os.Exit(first.finish())
}

// attempt runs the check.
func attempt(c check, P *Program, r *Report) {
	defer func() {
		if os.Getenv("J8A_DEBUG") != "" {
			return
		}
		if x := recover(); x != nil {
			r.violate(nil, "undecided", "analysis", fmt.Sprint("the analysis failed: ", x))
		}
	}()
	c(P, r)
}

// how many variants of a state are kept apart at one place is scaled by these
var refineJoin, refineLoop = 1.0, 1.0

// imprecise: did the exploration merge variants (1), or was there too much to look at (-1)?
func (r *Report) imprecise() int {
	merged := 0
	for _, e := range r.engines {
		if e.overflow != "" {
			return -1
		}
		if e.widened > 0 {
			merged = 1
		}
	}
	return merged
}

// fresh is an empty report on the same.
func (r *Report) fresh() *Report {
	n := newReport(r.prop)
	n.out, n.tier, n.seed, n.verbose = r.out, r.tier, r.seed, r.verbose
	return n
}
