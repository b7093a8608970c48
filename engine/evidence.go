package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	prop, tier string
	seed       int
	harn       []map[string]interface{}
	fns        map[string]bool
	bounds     []string
	paths      int64
	forks      int64
	steps      int64
	asserts    int64
	incomplete int
}

func newEvidence(prop, tier string, seed int) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, fns: map[string]bool{}}
}

func (e *evidence) addHarness(x *Explorer, status string, left int) {
	e.paths += x.paths
	e.forks += x.forks
	e.steps += x.steps
	e.asserts += x.asserts
	if status != "complete" {
		e.incomplete++
	}
	for b := range x.bounds {
		e.bounds = append(e.bounds, x.name+": "+b)
	}
	x.cover.Range(func(k, v interface{}) bool {
		e.fns[strings.ReplaceAll(k.(*FnInfo).fn.String(), modulePath+"/", "")] = true
		return true
	})
	e.harn = append(e.harn, map[string]interface{}{"harness": x.name, "status": status, "paths": x.paths, "ends": x.ends, "instructions": x.steps, "assertions": x.asserts, "wall_s": x.wall.Seconds()})
}

func (e *evidence) finish(verif string, pl *Pool, p *Program, start time.Time, validated, vfail int, confirmed, unconfirmed []*Violation, notes, vac []string, queries int64) {
	sort.Strings(e.bounds)
	var fns []string
	for f := range e.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	viol := []map[string]interface{}{}
	for _, v := range confirmed {
		viol = append(viol, map[string]interface{}{"harness": v.Harness, "what": v.Msg, "replay": v.Replay, "native": v.Note})
	}
	if len(notes) > 40 {
		notes = append(notes[:40:40], fmt.Sprintf("and %d more", len(notes)-40))
	}
	out := map[string]interface{}{
		"property": e.prop,
		"tier":     e.tier,
		"seed":     e.seed,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        e.paths + e.forks,
			"transitions":                   e.steps,
			"traces_validated_against_impl": validated,
			"trace_mismatches":              vfail,
			"samples":                       e.paths,
			"paths":                         e.paths,
			"assertions_discharged":         e.asserts,
			"solver_queries":                queries,
			"solver_time_s":                 pl.stats.Seconds(),
			"solver_unknown":                pl.stats.Unknowns(),
			"functions_encoded":             fns,
			"bounds":                        e.bounds,
			"harnesses":                     e.harn,
			"incomplete_harnesses":          e.incomplete,
			"outside_bounds":                notes,
			"vacuous":                       vac,
			"unconfirmed_counterexamples":   len(unconfirmed),
		},
		"assumptions": []string{
			"environment (file system, sockets, clock, randomness, profiler, logger, formatting) is replaced by the stand-ins in /verif/shim, which have the documented behaviour of the originals",
			"goroutines switch at lock, channel, atomic, sleep and go operations only",
			"the engine's translation of Go SSA to bit-vector terms is validated by replaying completed paths natively",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": viol,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, e.prop+".json"), b, 0644)
}
