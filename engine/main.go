package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func fatal(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("h", "", "run only the harnesses whose name contains this")
	verbose := flag.Bool("v", false, "")
	budget := flag.Int("t", 0, "time budget in seconds")
	jobs := flag.Int("j", 0, "")
	replayFile := flag.String("replay", "", "replay a counterexample file natively")
	noNative := flag.Bool("nonative", false, "")
	flag.Parse()
	debug.SetMemoryLimit(14 << 30)
	if *prop == "" {
		fatal(2, "no property")
	}
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	area := strings.ToLower(*prop)
	if i := strings.IndexByte(area, '-'); i > 0 {
		area = area[:i]
	}
	work, err := os.MkdirTemp("", "verif-"+area+"-")
	if err != nil {
		fatal(2, "%v", err)
	}
	defer os.RemoveAll(work)
	code := run(*prop, *tier, *repo, *verif, *only, *verbose, *budget, *jobs, *replayFile, *noNative, work, area, seed, start)
	os.RemoveAll(work)
	os.Exit(code)
}

func run(prop, tier, repo, verif, only string, verbose bool, budget, jobs int, replayFile string, noNative bool, work, area string, seed int, start time.Time) int {
	os.Setenv("TZ", "UTC")
	if err := copyMod(repo, work); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ov, names, err := makeOverlay(repo, verif, area)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	type nb struct {
		bin string
		err error
	}
	nch := make(chan nb, 1)
	if noNative {
		nch <- nb{"", fmt.Errorf("off")}
	} else {
		go func() { b, e := buildNative(repo, work, area, ov, false); nch <- nb{b, e} }()
	}
	if replayFile != "" {
		n := <-nch
		if n.err != nil && !lateArgs {
			lateArgs = true
			return run(prop, tier, repo, verif, only, verbose, budget, jobs, replayFile, noNative, work, area, seed, start)
		}
		if n.err != nil {
			fmt.Fprintln(os.Stderr, n.err)
			return 2
		}
		out, code := runNative(n.bin, replayFile, 30*time.Second)
		fmt.Print(out)
		if b, err := buildNative(repo, work, area, ov, true); code == 4 && err == nil {
			// a data race only shows under the race detector
			out, code = runNative(b, replayFile, 60*time.Second)
			fmt.Print(out)
		}
		if code == 0 {
			return 0
		}
		return 1
	}
	p, pkg, err := loadProgram(repo, work, area, ov)
	if err != nil {
		if !lateArgs {
			lateArgs = true
			if !noNative {
				<-nch
			}
			return run(prop, tier, repo, verif, only, verbose, budget, jobs, replayFile, noNative, work, area, seed, start)
		}
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tLoad := time.Since(start)
	if err := p.runInit(pkg, verbose); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tInit := time.Since(start)
	if budget == 0 {
		budget = 200
		if tier == "thorough" {
			budget = 600
		}
	}
	if jobs == 0 {
		jobs = runtime.NumCPU()
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	pl := &Pool{p: p, deadline: start.Add(time.Duration(budget) * time.Second), thorough: tier == "thorough", verbose: verbose, knownIDs: map[string]bool{}}
	for k := range known {
		pl.knownIDs[k] = true
	}
	for _, n := range names {
		if !chosen(n, only) {
			continue
		}
		fn := pkg.Func(n)
		x := newExplorer(n, fn, pl)
		x.queue = append(x.queue, p.newState(fn))
		pl.xs = append(pl.xs, x)
	}
	pl.run(jobs)
	tExp := time.Since(start)
	if coverFile != "" {
		writeCover(pl.xs)
	}

	n := <-nch
	if n.err != nil && !noNative {
		fmt.Fprintln(os.Stderr, n.err)
		return 2
	}
	// replay violations and validate traces
	var confirmed, unconfirmed []*Violation
	validated, vfail := 0, 0
	var vmsgs []string
	raceBin := ""
	rdir := filepath.Join(verif, "evidence", "replay")
	for _, x := range pl.xs {
		for i, v := range x.viol {
			os.MkdirAll(rdir, 0755)
			f := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", prop, x.name, i))
			writeInput(f, x.name, tier, v.Inputs)
			v.Replay = f
			if noNative {
				confirmed = append(confirmed, v)
				continue
			}
			if strings.HasPrefix(v.Msg, "data race") {
				// the same schedule under the Go race detector
				if raceBin == "" {
					b, err := buildNative(repo, work, area, ov, true)
					if err != nil {
						fmt.Fprintln(os.Stderr, err)
						return 2
					}
					raceBin = b
				}
				out, code := runNative(raceBin, f, 60*time.Second)
				v.Note = lastLines(out, 12)
				if strings.Contains(out, "DATA RACE") {
					v.Confirmed = true
					confirmed = append(confirmed, v)
				} else {
					v.Note = fmt.Sprintf("native exit %d: %s", code, v.Note)
					unconfirmed = append(unconfirmed, v)
				}
				continue
			}
			out, code := runNative(n.bin, f, 20*time.Second)
			v.Note = lastLines(out, 6)
			hang := strings.HasPrefix(v.Msg, "does not terminate") || strings.Contains(v.Msg, "blocked")
			if code == 3 || code == 2 || (code == -1 && hang) || strings.Contains(out, "fatal error:") {
				v.Confirmed = true
				confirmed = append(confirmed, v)
			} else {
				unconfirmed = append(unconfirmed, v)
				v.Note = fmt.Sprintf("native exit %d: %s", code, v.Note)
			}
		}
		if noNative {
			continue
		}
		for i, t := range x.traces {
			f := filepath.Join(work, fmt.Sprintf("t-%s-%d.json", x.name, i))
			writeInput(f, x.name, tier, t.Inputs)
			out, code := runNative(n.bin, f, 20*time.Second)
			var obs []string
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "OBS ") {
					obs = append(obs, l)
				}
			}
			if code == 0 && strings.Join(obs, "\n") == strings.Join(t.Obs, "\n") {
				validated++
			} else {
				vfail++
				vmsgs = append(vmsgs, fmt.Sprintf("%s: native exit %d %s\n engine: %v\n native: %v\n inputs: %v", x.name, code, lastLines(out, 3), t.Obs, obs, t.Inputs))
			}
		}
	}
	// report
	notes := map[string]int64{}
	ev := newEvidence(prop, tier, seed)
	vac := []string{}
	for _, x := range pl.xs {
		st := "complete"
		left := len(x.queue)
		if left > 0 || x.ends["timeout"] > 0 {
			st = fmt.Sprintf("INCOMPLETE: %d states left", left+int(x.ends["timeout"]))
			notes[x.name+": time budget reached with paths left; the unexplored ones are outside the bound"]++
		}
		for m := range x.must {
			if !x.covers[m] {
				vac = append(vac, x.name+": "+m)
			}
		}
		for m, c := range x.endMsgs {
			notes[x.name+": "+m] += c
		}
		for m, c := range x.notes {
			notes[x.name+": "+m] += c
		}
		fmt.Printf("  %-34s %s paths=%d ends=%v instr=%d asserts=%d fork-depth=%d wall=%.1fs\n", x.name, st, x.paths, x.ends, x.steps, x.asserts, x.maxDepth, x.wall.Seconds())
		ev.addHarness(x, st, left)
	}
	var ns []string
	for m, c := range notes {
		ns = append(ns, fmt.Sprintf("%s (x%d)", m, c))
	}
	sort.Strings(ns)
	for i, m := range ns {
		if i < 25 || verbose {
			fmt.Println("  NOTE", m)
		}
	}
	for _, m := range vac {
		fmt.Println("  VACUOUS cover point not reached:", m)
	}
	for i, m := range vmsgs {
		if i < 5 {
			fmt.Println("  MODEL-MISMATCH", m)
		}
	}
	for i, v := range unconfirmed {
		if i < 10 {
			fmt.Printf("  UNCONFIRMED (not reported) %s: %s %v\n", v.Harness, v.Msg, v.Note)
		}
	}
	fmt.Printf("  load %.1fs init %.1fs explore %.1fs total %.1fs; solver: %s; traces validated natively: %d (mismatches %d)\n", tLoad.Seconds(), (tInit - tLoad).Seconds(), (tExp - tInit).Seconds(), time.Since(start).Seconds(), pl.stats.String(), validated, vfail)
	usedKnown := map[string]bool{}
	for _, x := range pl.xs {
		for k := range x.known {
			usedKnown[k] = true
		}
	}
	var ks []string
	for k := range usedKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[k])
	}
	ev.finish(verif, pl, p, start, validated, vfail, confirmed, unconfirmed, ns, vac, atomic.LoadInt64(&pl.stats.Queries))
	if len(confirmed) > 0 {
		v := confirmed[0]
		for i, c := range confirmed {
			if i < 8 {
				fmt.Printf("  violated: %s: %s\n    %s\n", c.Harness, c.Msg, strings.ReplaceAll(c.Note, "\n", "\n    "))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.Replay)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s\n", prop, tier)
	return 0
}

func lastLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func writeInput(f, harness, tier string, in []inRec) {
	j, _ := json.Marshal(map[string]interface{}{"harness": harness, "tier": tier, "inputs": in})
	os.WriteFile(f, j, 0644)
}

func runNative(bin, input string, d time.Duration) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = append(os.Environ(), "VERIF_INPUT="+input, "TZ=UTC", "GOMEMLIMIT=2GiB")
	cmd.Dir = os.TempDir()
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err := cmd.Run()
	if ctx.Err() != nil {
		return b.String(), -1
	}
	if err == nil {
		return b.String(), 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return b.String(), ee.ExitCode()
	}
	return b.String() + err.Error(), 125
}

// loadKnown reads the known findings of a property: lines "known: property=ID id=NAME text".
func loadKnown(file, prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "id=") {
			r[f[2][3:]] = strings.Join(f[3:], " ")
		}
	}
	return r
}

// chosen says whether a harness name contains one of the comma-separated parts.
func chosen(name, only string) bool {
	for _, o := range strings.Split(only, ",") {
		if strings.Contains(name, o) {
			return true
		}
	}
	return false
}
