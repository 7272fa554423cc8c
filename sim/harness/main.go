package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sp301415/ringo-snark/simhook"
)

var (
	fProp    = flag.String("prop", "", "property")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fTier    = flag.String("tier", "quick", "tier")
	fBudget  = flag.Float64("budget", 30, "seconds of exploration")
	fWorkers = flag.Int("workers", runtime.NumCPU(), "worker processes")
	fWorker  = flag.Int("worker", -1, "run as this worker")
	fReplay  = flag.String("replay", "", "replay this file")
	fTry     = flag.String("try", "", "run this plan and print the result")
	fOut     = flag.String("out", "", "evidence file")
	fReplays = flag.String("replays", "", "directory for replay files")
	fRaceBin = flag.String("racebin", "", "race-detecting build")
	fKnown   = flag.String("known", "", "known findings")
	fPlan    = flag.Int("plan", -1, "print this plan")
	fOne     = flag.Int("one", -1, "run only this plan, verbosely")
	fRaceRun = flag.Bool("racerun", false, "worker of the race-detecting build")
	fMax     = flag.Int("max", 0, "stop after this many runs")
)

func main() {
	flag.Parse()

	simhook.SetNumCPU(1)
	switch {
	case *fReplay != "":
		os.Exit(replay(*fReplay))
	case *fTry != "":
		os.Exit(tryPlan(*fTry))
	case *fProp == "":
		ids := []string{}
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	case *fPlan >= 0:
		p := planAt(props[*fProp], *fSeed, *fPlan, *fTier)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	case *fOne >= 0:
		p := planAt(props[*fProp], *fSeed, *fOne, *fTier)
		t := time.Now()
		res, run := runPlan(p, true)
		for _, l := range run.lines {
			fmt.Println(l)
		}
		b, _ := json.Marshal(res)
		fmt.Println(short(string(b), 2000))
		fmt.Println("took", time.Since(t))
	case *fWorker >= 0:
		worker()
	default:
		os.Exit(master())
	}
}

// scriptLen caches how long the fixed part is.
func scriptLen(pr *Prop, tier string) int {
	n := 0
	if pr.Script != nil {
		for pr.Script(n, tier) != nil {
			n++
		}
	}
	return n
}

// planMu guards the caches of the generators: the master draws plans in several
// goroutines. (A run never draws one.)
var planMu sync.Mutex

// planAt returns the i-th plan of the exploration.
func planAt(pr *Prop, seed uint64, i int, tier string) *Plan {
	planMu.Lock()
	defer planMu.Unlock()
	var p *Plan
	if pr.Script != nil {
		p = pr.Script(i, tier)
	}
	if p == nil {
		p = pr.Gen(newRng(mix(seed, uint64(i), 77)), tier)
	}
	p.Prop = pr.ID
	p.Index = i
	if p.Seed == 0 {
		p.Seed = mix(seed, uint64(i), 78)
	}
	if p.Cfg == nil {
		p.Cfg = map[string]int64{}
	}
	for j := range p.Ops {
		if p.Ops[j].Seed == 0 {
			p.Ops[j].Seed = mix(p.Seed, uint64(j), 79)
		}
	}
	return p
}

// isRace tells whether a plan has to run in the race-detecting build.
func isRace(p *Plan) bool { return p.Cfg["race"] == 1 }

func worker() {
	pr := props[*fProp]
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	start := time.Now()
	n := scriptLen(pr, *fTier)
	kn := loadKnown(*fKnown)
	for i := *fWorker; ; i += *fWorkers {
		if *fMax > 0 && i >= *fMax {
			break
		}
		// The fixed part is always run in full; past it, the budget decides.
		if i >= n && time.Since(start).Seconds() > *fBudget {
			break
		}
		if time.Since(start).Seconds() > *fBudget+240 {
			break
		}
		p := planAt(pr, *fSeed, i, *fTier)
		if isRace(p) != *fRaceRun {
			continue
		}
		fmt.Fprintf(os.Stderr, "RUN %d\n", i)
		res, _ := runPlan(p, false)
		enc.Encode(res)
		out.Flush()
		if res.Viol != nil && !isKnown(kn, pr.ID, res.Viol.Class) {
			return
		}
	}
}

// tryPlan runs a plan and prints its result.
func tryPlan(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, _ := runPlan(&p, false)
	json.NewEncoder(os.Stdout).Encode(res)
	return 0
}

// Replay is a replay file.
type Replay struct {
	Violation  *Violation `json:"violation"`
	Digest     string     `json:"digest"`
	OrigIndex  int        `json:"original_index"`
	OrigSeed   uint64     `json:"verif_seed"`
	OrigOps    int        `json:"original_ops"`
	Plan       *Plan      `json:"plan"`
	Log        []string   `json:"log,omitempty"`
	HowTo      string     `json:"how_to"`
	Reproduced int        `json:"reproduced_of_3"`
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rp.Plan == nil || props[rp.Plan.Prop] == nil {
		fmt.Fprintln(os.Stderr, "not a replay file")
		return 2
	}
	if isRace(rp.Plan) && !simhook.Race {
		if *fRaceBin == "" {
			fmt.Fprintln(os.Stderr, "this replay needs the race-detecting build")
			return 2
		}
		cmd := exec.Command(*fRaceBin, "-replay", path)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Env = raceEnv()
		if err := cmd.Run(); err != nil {
			if ee, ok := err.(*exec.ExitError); ok {
				return ee.ExitCode()
			}
			return 2
		}
		return 0
	}
	if v := rp.Violation; v != nil && (v.Class == "no-return" || v.Class == "process-dies") {
		r := subTryFor(rp.Plan, 120*time.Second)
		if r == nil || r.Viol == nil {
			fmt.Println("no violation")
			return 0
		}
		fmt.Printf("%s: %s\n", r.Viol.Class, r.Viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Plan.Prop, path)
		return 1
	}
	res, run := runPlan(rp.Plan, true)
	for _, l := range run.lines {
		fmt.Println(l)
	}
	if res.Viol == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("digest %s (recorded %s)\n", res.Digest, rp.Digest)
	fmt.Printf("%s: %s\n", res.Viol.Class, res.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Plan.Prop, path)
	return 1
}

func raceEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=7 log_path="+filepath.Join(os.TempDir(), fmt.Sprintf("ringosim-race-%d", os.Getpid())))
}

// subTry runs a plan in a fresh process.
func subTry(p *Plan) *Result { return subTryFor(p, 60*time.Second) }

// subTryFor also turns a process that does not return, or that the library brings down, into a violation.
func subTryFor(p *Plan, limit time.Duration) *Result {
	f, err := os.CreateTemp("", "ringosim-plan-*.json")
	if err != nil {
		return nil
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(p)
	f.Close()
	bin := os.Args[0]
	if isRace(p) && !simhook.Race {
		bin = *fRaceBin
	}
	cmd := exec.Command(bin, "-try", f.Name())
	cmd.Env = append(raceEnv(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if cmd.Start() != nil {
		return nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var r Result
		if json.Unmarshal(out.Bytes(), &r) == nil {
			return &r
		}
		if fr := deathFrame(errs.String()); fr != "" && err != nil {
			return &Result{Viol: &Violation{Class: "process-dies", Msg: "the process died in " + fr + ": " + short(errs.String(), 200)}}
		}
		return nil
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return &Result{Viol: &Violation{Class: "no-return", Msg: fmt.Sprintf("an operation had not returned after %v", limit)}}
	}
}

// deathFrame finds the library in the last words of a process that Go ended.
func deathFrame(text string) string {
	for _, m := range []string{"fatal error:", "panic:", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(text, m); i >= 0 && !strings.Contains(text, "out of memory") {
			return firstFrame(text[i:])
		}
	}
	return ""
}

// minimise shrinks a failing plan while it fails with the same class.
func minimise(p *Plan, class string, budget time.Duration) (*Plan, *Result) {
	deadline := time.Now().Add(budget)
	best := p.clone()
	limit := 60 * time.Second
	if class == "no-return" {
		// Runs take a few seconds at most.
		limit = 100 * time.Second
	}
	bestRes := subTryFor(best, limit)
	if class == "no-return" {
		limit = 30 * time.Second
	}
	if bestRes == nil || bestRes.Viol == nil || bestRes.Viol.Class != class {
		return nil, bestRes
	}
	try := func(q *Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		r := subTryFor(q, limit)
		if r != nil && r.Viol != nil && r.Viol.Class == class {
			best, bestRes = q, r
			return true
		}
		return false
	}
	// Operations: drop chunks of halving size.
	for sz := len(best.Ops) / 2; sz >= 1; sz /= 2 {
		for i := 0; i+sz <= len(best.Ops); {
			q := best.clone()
			q.Ops = append(q.Ops[:i], q.Ops[i+sz:]...)
			if !try(q) {
				i += sz
			}
		}
	}
	// Arguments: simpler numbers.
	for i := range best.Ops {
		for j := range best.Ops[i].N {
			for _, v := range []int64{0, 1, best.Ops[i].N[j] / 2} {
				if best.Ops[i].N[j] == v || (v != 0 && best.Ops[i].N[j] < v) {
					continue
				}
				q := best.clone()
				q.Ops[i].N[j] = v
				if try(q) {
					break
				}
			}
		}
	}
	// Configuration: simpler numbers.
	keys := make([]string, 0, len(best.Cfg))
	for k := range best.Cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "race" || k == "field" {
			continue
		}
		for _, v := range []int64{0, 1, best.Cfg[k] / 2} {
			if best.Cfg[k] == v || v > best.Cfg[k] {
				continue
			}
			q := best.clone()
			q.Cfg[k] = v
			if try(q) {
				break
			}
		}
	}
	// Schedule: make it explicit, then drop switches.
	if len(bestRes.Sched) > 0 && best.Sched == nil {
		q := best.clone()
		q.Sched = bestRes.Sched
		if try(q) {
			for sz := len(best.Sched) / 2; sz >= 1; sz /= 2 {
				for i := 0; i+sz <= len(best.Sched); {
					if time.Now().After(deadline) {
						break
					}
					q := best.clone()
					q.Sched = append(q.Sched[:i], q.Sched[i+sz:]...)
					if !try(q) {
						i += sz
					}
				}
			}
		}
	}
	return best, bestRes
}

type known struct{ prop, class, text string }

func isKnown(kn []known, prop, class string) bool {
	for _, k := range kn {
		if k.prop == prop && k.class == class {
			return true
		}
	}
	return false
}

func loadKnown(path string) (l []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		l = append(l, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "class="), f[2]})
	}
	return l
}

func master() int {
	start := time.Now()
	pr := props[*fProp]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		return 2
	}
	fmt.Printf("ringosim property=%s seed=%d tier=%s budget=%.0fs workers=%d\n", pr.ID, *fSeed, *fTier, *fBudget, *fWorkers)

	var mu sync.Mutex
	var results []*Result
	var problems []string
	type lostRun struct {
		index int
		hung  bool
	}
	var lost []lostRun
	stop := make(chan struct{})
	var stopOnce sync.Once
	var wg sync.WaitGroup

	launch := func(bin string, idx int, race bool, total int) {
		defer wg.Done()
		args := []string{"-prop", pr.ID, "-seed", strconv.FormatUint(*fSeed, 10), "-tier", *fTier,
			"-budget", fmt.Sprint(*fBudget), "-workers", fmt.Sprint(total), "-worker", fmt.Sprint(idx), "-max", fmt.Sprint(*fMax), "-known", *fKnown}
		if race {
			args = append(args, "-racerun")
		}
		cmd := exec.Command(bin, args...)
		cmd.Env = append(raceEnv(), "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=3GiB")
		op, _ := cmd.StdoutPipe()
		ep, _ := cmd.StderrPipe()
		if err := cmd.Start(); err != nil {
			mu.Lock()
			problems = append(problems, err.Error())
			mu.Unlock()
			return
		}
		fin := make(chan struct{})
		go func() {
			select {
			case <-stop:
				cmd.Process.Kill()
			case <-fin:
			}
		}()
		var tail []string
		lastRun := -1
		lastAt := time.Now()
		var tmu sync.Mutex
		edone := make(chan struct{})
		go func() {
			defer close(edone)
			sc := bufio.NewScanner(ep)
			sc.Buffer(make([]byte, 1<<20), 1<<20)
			for sc.Scan() {
				tmu.Lock()
				if s, ok := strings.CutPrefix(sc.Text(), "RUN "); ok {
					lastRun, _ = strconv.Atoi(s)
					lastAt = time.Now()
				} else {
					tail = append(tail, sc.Text())
					if len(tail) > 400 {
						tail = tail[len(tail)-300:]
					}
				}
				tmu.Unlock()
			}
		}()
		// A run that makes no progress in real time is looked at again, alone, afterwards.
		hung := false
		go func() {
			for {
				select {
				case <-fin:
					return
				case <-time.After(2 * time.Second):
				}
				tmu.Lock()
				h := time.Since(lastAt) > 120*time.Second
				if h {
					hung = true
				}
				tmu.Unlock()
				if h {
					cmd.Process.Kill()
					return
				}
			}
		}()
		sc := bufio.NewScanner(op)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var r Result
			if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
				continue
			}
			mu.Lock()
			results = append(results, &r)
			mu.Unlock()
			if r.Viol != nil {
				if !isKnown(loadKnown(*fKnown), pr.ID, r.Viol.Class) {
					stopOnce.Do(func() { close(stop) })
				}
			}
		}
		<-edone
		err := cmd.Wait()
		close(fin)
		if err != nil {
			select {
			case <-stop:
				return
			default:
			}
			mu.Lock()
			tmu.Lock()
			if lastRun >= 0 {
				lost = append(lost, lostRun{lastRun, hung})
			}
			problems = append(problems, fmt.Sprintf("worker %d (race %v): %v, hung %v, in run %d\n%s", idx, race, err, hung, lastRun, strings.Join(tail, "\n")))
			tmu.Unlock()
			mu.Unlock()
			stopOnce.Do(func() { close(stop) })
		}
	}

	w := *fWorkers
	if pr.Race && *fRaceBin != "" {
		for i := 0; i < w; i++ {
			wg.Add(2)
			go launch(*fRaceBin, i, true, w)
			go launch(os.Args[0], i, false, w)
		}
	} else {
		for i := 0; i < w; i++ {
			wg.Add(1)
			go launch(os.Args[0], i, false, w)
		}
	}
	wg.Wait()

	sort.Slice(results, func(i, j int) bool { return results[i].Index < results[j].Index })
	if len(problems) > 0 {
		anyViol := false
		for _, r := range results {
			anyViol = anyViol || r.Viol != nil && !isKnown(loadKnown(*fKnown), pr.ID, r.Viol.Class)
		}
		// Runs that took their process with them, or never ended.
		for _, l := range lost {
			if anyViol {
				break
			}
			q := subTryFor(planAt(pr, *fSeed, l.index, *fTier), 120*time.Second)
			if q != nil && q.Viol != nil && (q.Viol.Class == "process-dies" || l.hung && q.Viol.Class == "no-return") {
				q.Index = l.index
				results = append(results, q)
				anyViol = true
			}
		}
		if !anyViol {
			fmt.Fprintln(os.Stderr, strings.Join(problems, "\n"))
			fmt.Println("ERROR: the simulation broke; no verdict")
			return 3
		}
	}

	kn := loadKnown(*fKnown)
	var viol *Result
	for _, r := range results {
		if r.Viol == nil {
			continue
		}
		if !isKnown(kn, pr.ID, r.Viol.Class) && viol == nil {
			viol = r
		}
	}
	for _, k := range kn {
		if k.prop == pr.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, k.text)
		}
	}

	// Determinism: some runs again, in fresh processes, must log the same.
	checked, diverged := 0, 0
	if viol == nil {
		var idx []*Result
		step := max(1, len(results)/8)
		for i := 0; i < len(results); i += step {
			idx = append(idx, results[i])
		}
		var dwg sync.WaitGroup
		sem := make(chan struct{}, w)
		for _, r := range idx {
			dwg.Add(1)
			go func() {
				defer dwg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				q := subTry(planAt(pr, *fSeed, r.Index, *fTier))
				mu.Lock()
				defer mu.Unlock()
				if q == nil {
					return
				}
				checked++
				if q.Digest != r.Digest {
					diverged++
					problems = append(problems, fmt.Sprintf("run %d is not deterministic: %s and %s", r.Index, r.Digest, q.Digest))
				}
			}()
		}
		dwg.Wait()
	}

	code := 0
	if viol != nil {
		code = 1
		p := planAt(pr, *fSeed, viol.Index, *fTier)
		fmt.Printf("run %d: %s: %s\n", viol.Index, viol.Viol.Class, viol.Viol.Msg)
		mb := 45 * time.Second
		if viol.Viol.Class == "no-return" {
			mb = 200 * time.Second
		}
		q, qr := minimise(p, viol.Viol.Class, mb)
		if q == nil {
			q, qr = p, viol
			fmt.Println("note: the violation did not reproduce in a fresh process; reported unminimised")
		}
		rep := 0
		for i := 0; i < 3; i++ {
			if viol.Viol.Class == "no-return" && i > 0 {
				break
			}
			if r := subTry(q); r != nil && r.Viol != nil && r.Viol.Class == viol.Viol.Class && r.Digest == qr.Digest {
				rep++
			}
		}
		os.MkdirAll(*fReplays, 0755)
		path := filepath.Join(*fReplays, fmt.Sprintf("%s-seed%d-run%d.json", pr.ID, *fSeed, viol.Index))
		rf := Replay{Violation: qr.Viol, Digest: qr.Digest, OrigIndex: viol.Index, OrigSeed: *fSeed,
			OrigOps: len(p.Ops), Plan: q, Reproduced: rep, HowTo: "bash check.sh --replay " + path}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("minimised to %d of %d operations; reproduced %d of 3 times in fresh processes\n", len(q.Ops), len(p.Ops), rep)
		fmt.Printf("%s: %s\n", qr.Viol.Class, qr.Viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
	} else if diverged > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(problems, "\n"))
		fmt.Println("ERROR: runs are not deterministic; no verdict")
		code = 3
	}

	writeEvidence(pr, results, viol, start, checked, diverged)
	return code
}

func writeEvidence(pr *Prop, results []*Result, viol *Result, start time.Time, checked, diverged int) {
	wall := time.Since(start).Seconds()
	faults, probes, kinds := map[string]int64{}, map[string]int64{}, map[string]int64{}
	shapes := map[string]bool{}
	inter := map[uint64]bool{}
	var events, simTime, netTime int64
	nontrivial := 0
	var samples []any
	seenKind := map[string]bool{}
	for _, r := range results {
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
		for _, x := range r.Inter {
			inter[x] = true
		}
		kinds[r.Kind]++
		events += r.Events
		simTime += r.SimTime
		netTime += r.NetTime
		nt := r.Events > 1
		if pr.Nontrivial != nil {
			nt = pr.Nontrivial(r)
		}
		if nt && !shapes[r.Shape] {
			shapes[r.Shape] = true
			nontrivial++
		}
		if !seenKind[r.Kind] && len(samples) < 12 {
			seenKind[r.Kind] = true
			samples = append(samples, map[string]any{"run": r.Index, "case": short(r.Shape, 600), "log_digest": r.Digest})
		}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	reps := int(float64(len(results)) / max(wall, 0.001) * 3600)
	ev := map[string]any{
		"property": pr.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":               len(results),
			"distinct_nontrivial":       nontrivial,
			"rule":                      pr.Rule,
			"samples":                   samples,
			"simulated_runs":            len(results),
			"seeds_per_hour":            reps,
			"simulated_time_statements": simTime,
			"simulated_network_time":    netTime,
			"events_logged":             events,
			"faults_injected":           faults,
			"probes_hit":                probes,
			"runs_by_kind":              kinds,
			"distinct_interleavings":    len(inter),
			"interleaving_measure":      "hash of the sequence of (thread, statements run before the next switch)",
			"determinism_reruns":        checked,
			"determinism_divergences":   diverged,
			"components_real":           pr.Real,
			"components_simulated":      pr.Stub,
			"exhaustive":                false,
		},
		"assumptions": []string{
			"the Go compiler, runtime, race detector, math/big, lattigo and gnark-crypto are trusted",
			"exploration samples schedules, faults and inputs; it proves nothing about those it did not run",
		},
		"wall_s":     wall,
		"violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if *fOut != "" {
		os.MkdirAll(filepath.Dir(*fOut), 0755)
		if err := os.WriteFile(*fOut, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("runs=%d distinct=%d interleavings=%d faults=%v kinds=%v wall=%.1fs\n", len(results), nontrivial, len(inter), faults, kinds, wall)
}
