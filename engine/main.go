package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type nativeCase struct {
	Harness  string  `json:"harness"`
	Inputs   []InVal `json:"inputs"`
	Thorough bool    `json:"thorough"`
}

type nativeRes struct {
	Failed  []string    `json:"failed"`
	Panic   string      `json:"panic"`
	Assume  bool        `json:"assume"`
	Obs     [][2]string `json:"obs"`
	Err     string      `json:"err"`
	Timeout bool        `json:"timeout"`
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

// native runs cases in a child process, one line each; a case that does not
// answer in time is a timeout and the child is restarted.
func native(bin string, cases []nativeCase, limit time.Duration) []nativeRes {
	out := make([]nativeRes, len(cases))
	i := 0
	for i < len(cases) {
		cmd := exec.Command("bash", "-c", "ulimit -v 16000000; exec \"$0\" serve", bin)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
		in, _ := cmd.StdinPipe()
		o, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			for ; i < len(cases); i++ {
				out[i].Err = err.Error()
			}
			return out
		}
		rd := bufio.NewReaderSize(o, 1<<20)
		lines := make(chan string)
		go func() {
			for {
				l, err := rd.ReadString('\n')
				if err != nil {
					close(lines)
					return
				}
				lines <- l
			}
		}()
		dead := false
		for i < len(cases) && !dead {
			b, _ := json.Marshal(cases[i])
			io.WriteString(in, string(b)+"\n")
			select {
			case l, ok := <-lines:
				if !ok {
					out[i].Err = "native process died"
					out[i].Timeout = true
					dead = true
				} else {
					json.Unmarshal([]byte(l), &out[i])
				}
			case <-time.After(limit):
				out[i].Timeout = true
				dead = true
			}
			i++
		}
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
	}
	return out
}

// raced runs a case with its operations at once under the race detector and says
// whether it ever ends badly: with a data race, a deadlock or a crash.
func raced(verif, nat string, c nativeCase) bool {
	if nat == "" {
		return false
	}
	bin := filepath.Join(filepath.Dir(nat), "vharness-race")
	raceOnce.Do(func() {
		if b, err := exec.Command(filepath.Join(verif, "tools", "build.sh"), "race").CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "race build: %v\n%s", err, b)
		}
	})
	if _, err := os.Stat(bin); err != nil {
		return false
	}
	b, _ := json.Marshal(c)
	var bad atomic.Bool
	var wg sync.WaitGroup
	for range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4 && !bad.Load(); k++ {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				cmd := exec.CommandContext(ctx, bin, "serve")
				cmd.Env = append(os.Environ(), "VSYM_RACE=1", "GORACE=halt_on_error=1")
				cmd.Stdin = strings.NewReader(string(b) + "\n")
				o, err := cmd.Output()
				cancel()
				var r nativeRes
				json.Unmarshal(o, &r)
				if err != nil || r.Panic != "" || len(r.Failed) > 0 {
					bad.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	return bad.Load()
}

var raceOnce sync.Once

func findHarnesses(p *Prog, prop string, thorough bool, only string) []*ssa.Function {
	var fs []*ssa.Function
	for _, sp := range p.ssa.AllPackages() {
		if sp.Pkg.Path() != "vharness/props" {
			continue
		}
		for n, mb := range sp.Members {
			f, ok := mb.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "H_"+prop+"_") {
				continue
			}
			if strings.HasSuffix(n, "_T") && !thorough {
				continue
			}
			if only != "" && !strings.Contains(","+only+",", ","+n+",") {
				continue
			}
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	hdir := flag.String("harness", "/verif/harness", "harness module")
	verif := flag.String("verif", "/verif", "verif dir")
	nat := flag.String("native", "", "native harness binary")
	only := flag.String("only", "", "only these harness functions")
	budget := flag.Int("budget", 0, "seconds of exploration")
	workers := flag.Int("j", 8, "workers")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("cpuprofile", "", "")
	steps := flag.Int64("steps", 40_000_000, "steps per path")
	initOnly := flag.Bool("init", false, "")
	flag.Parse()
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 300
		if thorough {
			*budget = 720
		}
	}
	env := os.Environ()
	p, err := Load(*hdir, env)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	fs := findHarnesses(p, *prop, thorough, *only)
	if len(fs) == 0 && !*initOnly {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(3)
	}
	// worker machines
	ms := make([]*M, *workers)
	var wg sync.WaitGroup
	initErrs := make([][]string, *workers)
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ms[i] = NewM(p)
			initErrs[i] = ms[i].initAll()
		}()
	}
	wg.Wait()
	tInit := time.Since(t0)
	if *verbose || *initOnly {
		fmt.Fprintln(os.Stderr, loadTimes, "init done", tInit, "steps", ms[0].steps)
		for _, e := range initErrs[0] {
			fmt.Fprintln(os.Stderr, "init:", e)
		}
	}
	if *initOnly {
		return
	}
	if olds, _ := filepath.Glob(filepath.Join(*verif, "evidence", "replay-"+*prop+"-*.json")); len(olds) > 0 {
		for _, o := range olds {
			os.Remove(o)
		}
	}
	tStart := time.Now()
	deadline := tStart.Add(time.Duration(*budget) * time.Second)
	sch := &Sched{}
	sch.cond = sync.NewCond(&sch.mu)
	var jobs []*Job
	for _, f := range fs {
		j := &Job{Name: f.Name(), Fn: p.Func(f), Thorough: thorough, MaxSteps: *steps, Deadline: deadline, Res: newResult(), start: time.Now()}
		jobs = append(jobs, j)
		sch.queue = append(sch.queue, &Task{job: j})
	}
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t := sch.get()
				if t == nil {
					return
				}
				if time.Now().After(deadline) {
					t.job.mu.Lock()
					t.job.Res.Truncated++
					t.job.mu.Unlock()
				} else {
					ms[i].runTask(sch, t)
				}
				sch.finish()
			}
		}()
	}
	wg.Wait()
	for i := range ms {
		ms[i].sol.Close()
	}
	wallExplore := time.Since(tStart)

	// ---- replay and validation against the real build
	total := newResult()
	for _, j := range jobs {
		total.merge(j.Res)
	}
	kf := loadKnown(filepath.Join(*verif, "known_findings.json"), *prop)
	var cases []nativeCase
	var viol []Violation
	for _, j := range jobs {
		perLabel := map[string]int{}
		for _, v := range j.Res.Viol {
			if perLabel[v.Label] >= 5 {
				continue
			}
			perLabel[v.Label]++
			viol = append(viol, v)
			cases = append(cases, nativeCase{v.Harness, v.Inputs, v.Thor})
		}
	}
	confirmed := 0
	unconfirmed := map[string]int{}
	exit := 0
	knownHit := map[string]bool{}
	reported := map[string]bool{}
	var vres []nativeRes
	if *nat != "" && len(cases) > 0 {
		// each violation in its own process: no state carries over
		vres = make([]nativeRes, len(cases))
		var rw sync.WaitGroup
		sem := make(chan bool, 8)
		for i := range cases {
			rw.Add(1)
			go func() {
				defer rw.Done()
				sem <- true
				vres[i] = native(*nat, cases[i:i+1], 20*time.Second)[0]
				<-sem
			}()
		}
		rw.Wait()
	}
	raceTries := 0
	for i, v := range viol {
		ok := false
		if strings.HasPrefix(v.Label, "monitor:") || strings.HasPrefix(v.Label, "deadlock:") {
			if reported[v.Harness+"|"+v.Label] {
				confirmed++
				continue
			}
			if raceTries++; raceTries <= 12 {
				ok = raced(*verif, *nat, cases[i])
			}
		}
		if vres != nil && !ok {
			r := vres[i]
			if v.Steps {
				ok = r.Timeout
			} else if strings.HasPrefix(v.Label, "panic: ") {
				ok = r.Panic != ""
			} else {
				for _, f := range r.Failed {
					if f == v.Label {
						ok = true
					}
				}
				// the same input breaking the property in another way counts too
				if !ok && (r.Panic != "" || len(r.Failed) > 0) && !r.Assume {
					ok = true
				}
			}
		}
		if !ok {
			unconfirmed[v.Harness+": "+v.Label]++
			if *verbose {
				b, _ := json.Marshal(v)
				fmt.Fprintf(os.Stderr, "UNCONFIRMED %s\n  native: %+v\n", b, vres)
			}
			continue
		}
		confirmed++
		if k := matchKnown(kf, v); k != nil {
			knownHit[k.What] = true
			continue
		}
		key := v.Harness + "|" + v.Label
		if reported[key] {
			continue
		}
		reported[key] = true
		rp := filepath.Join(*verif, "evidence", "replay-"+*prop+"-"+strconv.Itoa(len(reported))+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "violation": v, "native": vres[i], "how": "./check.sh replay " + rp}, "", " ")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		fmt.Printf("  %s: %s (%s)\n", v.Harness, v.Label, v.Where)
		for _, in := range v.Inputs {
			fmt.Printf("    %s = %s\n", in.Name, in.Val)
		}
		exit = 1
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	// sampled path models: the real code must behave as the encoding says
	validated, mism := 0, 0
	var mnotes []string
	if *nat != "" && len(total.Samples) > 0 {
		var cs []nativeCase
		var smp []Sample
		cnt := map[string]int{}
		for _, j := range jobs {
			for _, s := range j.Res.Samples {
				if cnt[s.Harness] < maxSamples {
					cnt[s.Harness]++
					smp = append(smp, s)
					cs = append(cs, nativeCase{s.Harness, s.Inputs, s.Thor})
				}
			}
		}
		rs := native(*nat, cs, 20*time.Second)
		for i, r := range rs {
			bad := r.Timeout || r.Err != "" || r.Panic != "" || r.Assume || len(r.Failed) > 0 || len(r.Obs) != len(smp[i].Obs)
			if !bad {
				for k := range r.Obs {
					if r.Obs[k] != smp[i].Obs[k] {
						bad = true
					}
				}
			}
			if bad {
				mism++
				if len(mnotes) < 5 || *verbose {
					b, _ := json.Marshal(smp[i])
					c, _ := json.Marshal(r)
					mnotes = append(mnotes, "sample "+string(b)+" native "+string(c))
				}
				if len(r.Failed) > 0 || r.Panic != "" {
					// the real code breaks the property on this input although
					// the encoding missed it: still a genuine failing input
					v := Violation{Harness: smp[i].Harness, Label: "native: " + strings.Join(r.Failed, "; ") + r.Panic, Inputs: smp[i].Inputs, Thor: smp[i].Thor}
					if len(r.Failed) > 0 {
						v2 := v
						v2.Label = r.Failed[0]
						if k := matchKnown(kf, v2); k != nil {
							continue
						}
					}
					if !reported["native"] {
						reported["native"] = true
						rp := filepath.Join(*verif, "evidence", "replay-"+*prop+"-n.json")
						b, _ := json.MarshalIndent(map[string]any{"property": *prop, "violation": v, "native": r}, "", " ")
						os.WriteFile(rp, b, 0o644)
						fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", *prop, rp, v.Harness, v.Label)
						exit = 1
					}
				}
			} else {
				validated++
			}
		}
	}
	// ---- evidence
	exhaustive := total.Truncated == 0 && total.Undecided == 0 && len(total.Unsup) == 0
	perH := []map[string]any{}
	for _, j := range jobs {
		r := j.Res
		perH = append(perH, map[string]any{
			"harness": j.Name, "bounds": harnessDoc(j.Fn), "paths": r.Paths, "completed": r.Completed, "infeasible_or_assumed_away": r.Assumed,
			"instructions": r.Steps, "forks": r.Forks, "merged_branches": r.Merges, "assertions_checked": r.Asserts,
			"assertion_labels": r.Labels, "reached": r.Reach, "not_explored_time": r.Truncated, "undecided": r.Undecided, "unsupported": r.Unsup,
			"complete_within_bounds": r.Truncated == 0 && r.Undecided == 0 && len(r.Unsup) == 0,
			"max_path_instructions":  r.MaxPathSteps, "notes": r.Notes,
		})
	}
	var repoFns []string
	nStd := 0
	for c := range total.Funcs {
		if c.inRepo {
			repoFns = append(repoFns, c.name)
		} else if c.intr == nil {
			nStd++
		}
	}
	sort.Strings(repoFns)
	repoFns = uniq(repoFns)
	var stubs []string
	for c := range total.Funcs {
		if c.intr != nil && !strings.HasPrefix(c.name, "vharness") {
			stubs = append(stubs, c.name)
		}
	}
	sort.Strings(stubs)
	stubs = uniq(stubs)
	samples := []any{}
	for i, s := range total.Samples {
		if i >= 6 {
			break
		}
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]any{
			"states":                        total.Paths,
			"transitions":                   total.Steps,
			"traces_validated_against_impl": validated,
			"traces_mismatching":            mism,
			"mismatch_notes":                mnotes,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
			"explanation":                   "states = symbolic paths ended (each covers all inputs satisfying its path condition); transitions = SSA instructions executed symbolically; exhaustive = every path within the stated bounds was decided",
			"functions_encoded_repo":        repoFns,
			"functions_encoded_other":       nStd,
			"functions_modelled":            stubs,
			"harnesses":                     perH,
			"queries": map[string]any{
				"solver": total.Solver.Queries, "sat": total.Solver.Sat, "unsat": total.Solver.Unsat, "unknown": total.Solver.Unknown,
				"decided_by_byte_domain": total.Solver.Domain, "decided_by_model_reuse": total.Solver.Model, "decided_by_model_search": total.Solver.Simplified,
				"solver_seconds": total.Solver.Time.Seconds(),
			},
			"violations_confirmed_natively": confirmed,
			"violations_not_reproduced":     unconfirmed,
			"init_notes":                    initErrs[0],
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(reported),
		"assumptions": []string{
			"bounds are those listed per harness; inputs outside them are not covered",
			"functions listed under functions_modelled are replaced by models of their documented behaviour",
			"z3 is trusted for unsat answers; every sat answer is re-evaluated against the encoding and every violation is replayed on the compiled code",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if *only == "" {
		os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d completed), %d instr, %d asserts, %d queries (%.1fs), validated %d/%d, exhaustive=%v, load+init %.1fs explore %.1fs total %.1fs\n",
		*prop, *tier, len(jobs), total.Paths, total.Completed, total.Steps, total.Asserts, total.Solver.Queries, total.Solver.Time.Seconds(), validated, validated+mism, exhaustive, tInit.Seconds(), wallExplore.Seconds(), time.Since(t0).Seconds())
	if *verbose {
		for _, j := range jobs {
			r := j.Res
			fmt.Printf(" %s: paths %d done %d assumed %d viol %d steps %d forks %d merges %d trunc %d undec %d t=%.1fs solver %d q %.1fs (dom %d model %d search %d)\n", j.Name, r.Paths, r.Completed, r.Assumed, r.Violating, r.Steps, r.Forks, r.Merges, r.Truncated, r.Undecided, j.end.Sub(j.start).Seconds(), r.Solver.Queries, r.Solver.Time.Seconds(), r.Solver.Domain, r.Solver.Model, r.Solver.Simplified)
			fmt.Println("   labels", r.Labels, "reach", r.Reach)
			for _, k := range sortedKeys(r.Unsup) {
				fmt.Println("   UNSUP", r.Unsup[k], k)
			}
			for _, k := range sortedKeys(r.Notes) {
				fmt.Println("   NOTE", r.Notes[k], k)
			}
			for _, k := range sortedKeys(r.VCount) {
				fmt.Println("   VIOL", r.VCount[k], k)
			}
		}
		for k, n := range unconfirmed {
			fmt.Println(" UNCONFIRMED", n, k)
		}
		for _, n := range mnotes {
			fmt.Println(" MISMATCH", n)
		}
		if os.Getenv("GOSYM_HOT") != "" {
			type fc struct {
				n string
				c int64
			}
			var l []fc
			for c, n := range total.Funcs {
				l = append(l, fc{c.name, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].c > l[j].c })
			for i := 0; i < len(l) && i < 40; i++ {
				fmt.Println("   HOT", l[i].c, l[i].n)
			}
		}
	} else if mism > 0 || len(unconfirmed) > 0 {
		fmt.Printf("note: %d path models and %d counterexamples did not reproduce natively (see evidence)\n", mism, len(unconfirmed))
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	_ = runtime.NumCPU
	os.Exit(exit)
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func uniq(s []string) []string {
	var o []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			o = append(o, x)
		}
	}
	return o
}

// harnessDoc is the harness's doc comment: it states the bounds.
func harnessDoc(c *CFunc) string {
	return funcDoc(c.fn)
}

func loadKnown(path, prop string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var all, out []known
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return nil
	}
	for _, k := range all {
		if k.Property == prop && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(ks []known, v Violation) *known {
	for i := range ks {
		if ks[i].Harness == v.Harness && ks[i].Label == v.Label {
			return &ks[i]
		}
	}
	return nil
}
