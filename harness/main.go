package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	fProp   = flag.String("prop", "", "property id")
	fMode   = flag.String("mode", "drive", "drive, work, replay, dist, list")
	fShard  = flag.Int("shard", 0, "")
	fSeed   = flag.Uint64("seed", 1, "")
	fCases  = flag.Int("cases", 0, "")
	fOut    = flag.String("out", "", "report file of a worker")
	fTrace  = flag.String("trace", "", "file for the current case")
	fVerif  = flag.String("verif", "/verif", "")
	fFile   = flag.String("file", "", "replay file")
	fBudget = flag.Duration("budget", 0, "")
	fShards = flag.Int("shards", 8, "")
	fEnum   = flag.Int("enum", -1, "small scope: 0 none, 1 quick, 2 thorough (default: by tier)")
	fShrink = flag.Duration("shrink", 25*time.Second, "time to shrink a failure")
)

func main() {
	testing.Init()
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	if *fMode == "list" {
		fmt.Println(strings.Join(sortedIDs(), "\n"))
		return
	}
	if *fMode == "fresh" {
		b, err := io.ReadAll(os.Stdin)
		if err != nil {
			os.Exit(3)
		}
		q, err := safeParse(string(b))
		os.Stdout.WriteString(outcome(q, err))
		return
	}
	p := registry[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(3)
	}
	switch *fMode {
	case "work":
		work(p)
	case "replay":
		replay(p)
	case "drive":
		os.Exit(drive(p))
	}
}

func caseLimit(p *Prop) time.Duration {
	if p.caseSec > 0 {
		return time.Duration(p.caseSec) * time.Second
	}
	return 60 * time.Second
}

func writeJSON(file string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func work(p *Prop) {
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	watchdog(caseLimit(p), func(why string) {
		v := &violation{Property: p.ID, Error: why}
		if c, ok := currentCase.Load().(*any); ok {
			v.Case, _ = json.Marshal(*c)
			v.Text = p.show(*c)
		}
		writeJSON(*fOut, workerReport{Stuck: true, Violation: v})
		os.Exit(7)
	})
	rep := p.runShard(*fSeed, *fCases, *fShard, *fTrace, *fBudget)
	writeJSON(*fOut, rep)
}

// replay runs the oracle on a saved case, without rapid. Exit 0: passes, 1: fails.
func replay(p *Prop) {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	c, err := p.decode(v.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	watchdog(caseLimit(p), func(why string) {
		fmt.Println(why)
		os.Exit(1)
	})
	fmt.Println(p.show(c))
	o := &Obs{}
	caseStart.Store(time.Now().UnixNano())
	if err := p.runCheck(c, o); err != nil {
		fmt.Println("FAILS:", err)
		os.Exit(1)
	}
	fmt.Println("passes")
}

type shardResult struct {
	rep  *workerReport
	err  string
	log  string
	code int
}

func runWorker(p *Prop, shard int, seed uint64, cases int, dir string, trace bool, budget time.Duration) shardResult {
	out := filepath.Join(dir, fmt.Sprintf("shard%d.json", shard))
	os.Remove(out)
	args := []string{"-mode", "work", "-prop", p.ID, "-shard", strconv.Itoa(shard), "-seed", fmt.Sprint(seed),
		"-cases", strconv.Itoa(cases), "-out", out, "-budget", budget.String(), "-shrink", fShrink.String(), "-verif", *fVerif,
		"-shards", strconv.Itoa(*fShards), "-enum", strconv.Itoa(*fEnum)}
	if trace {
		args = append(args, "-trace", filepath.Join(dir, fmt.Sprintf("trace%d.json", shard)))
	}
	cmd := exec.Command(os.Args[0], args...)
	logf := filepath.Join(dir, fmt.Sprintf("shard%d.log", shard))
	f, err := os.Create(logf)
	if err != nil {
		return shardResult{err: err.Error()}
	}
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if !p.Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	}
	rerr := cmd.Run()
	r := shardResult{}
	if cmd.ProcessState != nil {
		r.code = cmd.ProcessState.ExitCode()
	}
	if rerr != nil {
		r.err = rerr.Error()
	}
	lb, _ := os.ReadFile(logf)
	r.log = string(lb)
	if b, e := os.ReadFile(out); e == nil {
		var rep workerReport
		if json.Unmarshal(b, &rep) == nil {
			r.rep = &rep
		}
	}
	return r
}

// abnormal death of a worker that is attributable to the code under test
func deathReason(r shardResult) string {
	for _, s := range []string{"WARNING: DATA RACE", "stack overflow", "goroutine stack exceeds", "fatal error: concurrent map",
		"fatal error: all goroutines are asleep", "fatal error: "} {
		if i := strings.Index(r.log, s); i >= 0 {
			return firstLines(r.log[i:], 40)
		}
	}
	if strings.Contains(r.log, "panic: ") && strings.Contains(r.log, "go-open-soql-parser") {
		return firstLines(r.log[strings.Index(r.log, "panic: "):], 40)
	}
	return ""
}

func drive(p *Prop) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if *fEnum < 0 {
		*fEnum = 1
		if tier == "thorough" {
			*fEnum = 2
		}
	}
	cases := p.Quick
	budget := 240 * time.Second
	if tier == "thorough" {
		cases = p.Thorough
		budget = 40 * time.Minute
	}
	if *fCases > 0 {
		cases = *fCases
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	shards := *fShards
	if p.Shards > 0 {
		shards = p.Shards
	}
	if shards > cases {
		shards = cases
	}
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)

	*fShards = shards
	res := make([]shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			n := cases / shards
			if i < cases%shards {
				n++
			}
			res[i] = runWorker(p, i, mix(seed, uint64(i)+1000), n, dir, false, budget)
		}(i)
	}
	wg.Wait()

	tot := workerReport{Labels: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]bool{}
	var viol *violation
	for i, r := range res {
		rep := r.rep
		if viol != nil && (rep == nil || rep.Stuck) {
			continue
		}
		if rep == nil {
			why := deathReason(r)
			if why == "" {
				fmt.Fprintf(os.Stderr, "worker %d ended without a result: %s\n%s\n", i, r.err, clip(r.log, 4000))
				return 3
			}
			// find the case that kills the worker
			n := cases / shards
			if i < cases%shards {
				n++
			}
			r2 := runWorker(p, i, mix(seed, uint64(i)+1000), n, dir, true, budget)
			tb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("trace%d.json", i)))
			v := &violation{Property: p.ID, Error: why, Case: tb}
			if r2.rep != nil {
				v.Error = "worker died: " + why
				if len(tb) == 0 {
					v.Case = json.RawMessage("null")
				}
			}
			if c, err := p.decode(tb); err == nil {
				v.Text = p.show(c)
			} else {
				v.Case = json.RawMessage("null")
			}
			if viol == nil {
				viol = v
			}
			continue
		}
		if rep.GenError != "" {
			fmt.Fprintf(os.Stderr, "worker %d: generator error: %s\n", i, clip(rep.GenError, 4000))
			return 3
		}
		if rep.Stuck {
			// confirm in a fresh process before believing the clock
			f := filepath.Join(dir, "stuck.json")
			writeJSON(f, rep.Violation)
			cmd := exec.Command(os.Args[0], "-mode", "replay", "-prop", p.ID, "-file", f, "-verif", *fVerif)
			cmd.Env = os.Environ()
			out, err := cmd.CombinedOutput()
			if err == nil {
				fmt.Fprintf(os.Stderr, "worker %d was slow (%s); the case passes on its own\n", i, rep.Violation.Error)
				tot.Incomplete = true
				continue
			}
			rep.Violation.Error += "\n" + clip(string(out), 2000)
		}
		if rep.Violation != nil && (viol == nil || len(rep.Violation.Text) < len(viol.Text)) {
			viol = rep.Violation
		}
		tot.Evaluations += rep.Evaluations
		tot.Enumerated += rep.Enumerated
		tot.Nontrivial += rep.Nontrivial
		tot.Incomplete = tot.Incomplete || rep.Incomplete
		for _, h := range rep.Hashes {
			distinct[h] = true
		}
		for k, v := range rep.Labels {
			tot.Labels[k] += v
		}
		for k, v := range rep.Known {
			tot.Known[k] += v
		}
		if len(tot.Samples) < 6 {
			for _, s := range rep.Samples {
				if len(tot.Samples) < 6 {
					tot.Samples = append(tot.Samples, s)
				}
			}
		}
	}
	if tot.Samples == nil {
		tot.Samples = []string{}
	}

	nviol := 0
	if viol != nil {
		nviol = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": tot.Evaluations, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": tot.Samples, "classes": tot.Labels, "known_findings": tot.Known,
			"stopped_by_time_budget": tot.Incomplete, "workers": shards, "of_complete_small_scope": tot.Enumerated,
		},
		"violations": nviol,
		"wall_s":     time.Since(start).Seconds(),
	}
	if len(p.assume) > 0 {
		ev["assumptions"] = p.assume
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}

	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, tot.Evaluations, len(distinct), time.Since(start).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range sortedKeys(tot.Labels) {
			fmt.Printf("  %-40s %d (%.1f%%)\n", k, tot.Labels[k], 100*float64(tot.Labels[k])/float64(tot.Evaluations))
		}
	}
	for _, k := range sortedKeys(tot.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if viol != nil {
		rdir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(rdir, 0o755)
		file := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, seed))
		vb, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(file, append(vb, '\n'), 0o644)
		fmt.Printf("input: %s\n%s\n", viol.Text, clip(viol.Error, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	return 0
}
