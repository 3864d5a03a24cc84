// Command simbin explores simulated executions of log4g.
//
//	simbin check  -prop C01 -tier quick -seed 1 -root /verif
//	simbin replay FILE [-v]
//	simbin one -prop C01 -seed N -i I [-v]
//	simbin worker ...            (internal)
//	simbin hashes -prop C01 ...  (determinism test)
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"github.com/xtfly/log4g/zzsim/harness"
	"github.com/xtfly/log4g/zzsim/simrt"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simbin: "+f+"\n", a...)
	os.Exit(2)
}

func runSeed(seed int64, prop string, i int) uint64 {
	x := uint64(seed)*0x9E3779B97F4A7C15 + uint64(i)*0xBF58476D1CE4E5B9
	for _, c := range prop {
		x = (x ^ uint64(c)) * 0x100000001b3
	}
	x ^= x >> 31
	x *= 0x94D049BB133111EB
	return (x ^ x>>29) & (1<<53 - 1)
}

// replayFile is what reproduces one violation.
type replayFile struct {
	Property string        `json:"property"`
	Class    string        `json:"class"`
	Detail   string        `json:"detail"`
	Seed     uint64        `json:"seed"`
	Index    int           `json:"index"`
	Hash     string        `json:"hash"`
	Steps    int           `json:"steps"`
	Prog     *harness.Prog `json:"prog"`
	Trace    *simrt.Trace  `json:"trace"`
	History  []string      `json:"history,omitempty"`
}

// found is a line a worker prints for a violating run.
type found struct {
	Index  int
	Seed   uint64
	Class  string
	Detail string
}

// stats is the summary a worker prints at the end.
type stats struct {
	Runs, Nontriv   int
	Steps, Switches int64
	SimNs           float64
	Faults, Probes  map[string]int
	Kinds           map[string]int
	Scheds          []uint64
	Pairs           []uint64
	MaxSteps        int
	Stuck           string
	Decisions       int64
	Sample          json.RawMessage `json:",omitempty"`
	Ops             int64
	Finds           []found
}

func main() {
	if len(os.Args) < 2 {
		die("no command")
	}
	debug.SetGCPercent(400)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	root := fs.String("root", "/verif", "")
	idx := fs.Int("i", 0, "")
	stride := fs.Int("stride", 1, "")
	n := fs.Int("n", 0, "")
	secs := fs.Float64("secs", 0, "")
	verbose := fs.Bool("v", false, "")
	all := fs.Bool("all", false, "")
	var file string
	args := os.Args[2:]
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		file = args[0]
		args = args[1:]
	}
	fs.Parse(args)
	switch cmd {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *root, *n, *secs))
	case "worker":
		worker(*prop, *seed, *idx, *stride, *n, *secs, *all)
	case "replay":
		os.Exit(replay(file, *verbose))
	case "one":
		one(*prop, *seed, *idx, *verbose)
	case "hashes":
		for i := 0; i < *n; i++ {
			sd := runSeed(*seed, *prop, i)
			r := harness.Run(harness.Gen(*prop, sd), sd, nil, false)
			fmt.Printf("%s %d %016x %016x %d %d\n", *prop, i, r.Hash, r.SchedHash, r.Steps, len(r.Violations))
		}
	case "hunt":
		hunt(*prop, *seed, *idx, *n)
	case "props":
		fmt.Println(strings.Join(harness.Props(), " "))
	default:
		die("unknown command %s", cmd)
	}
}

// hunt counts the classes of violations over a range of runs.
func hunt(prop string, seed int64, from, n int) {
	cnt, first := map[string]int{}, map[string]string{}
	bad := 0
	t0 := time.Now()
	for i := from; i < from+n; i++ {
		sd := runSeed(seed, prop, i)
		r := harness.Run(harness.Gen(prop, sd), sd, nil, false)
		if r.Stuck != "" {
			fmt.Println("STUCK", i, r.Stuck)
			return
		}
		if len(r.Violations) > 0 {
			bad++
			v := r.Violations[0]
			cnt[v.Class]++
			if first[v.Class] == "" {
				first[v.Class] = fmt.Sprintf("run %d: %s", i, v.Detail)
			}
		}
	}
	fmt.Printf("%s: %d of %d runs violate, %.0f runs/s\n", prop, bad, n, float64(n)/time.Since(t0).Seconds())
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %6d %s: %s\n", cnt[k], k, first[k])
	}
}

func one(prop string, seed int64, i int, verbose bool) {
	sd := runSeed(seed, prop, i)
	p := harness.Gen(prop, sd)
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	r := harness.Run(p, sd, nil, verbose)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	fmt.Printf("steps=%d switches=%d sim=%v faults=%v probes=%v capped=%v hash=%x\n", r.Steps, r.Switches, r.SimTime, r.FaultsHit, r.Probes, r.Capped, r.Hash)
	if r.Stuck != "" {
		fmt.Println(r.Stuck)
	}
	for _, v := range r.Violations {
		fmt.Println("violation", v.Class, v.Detail)
	}
	// the recorded decisions must reproduce the run
	r2 := harness.Run(p, sd, r.Trace, false)
	fmt.Printf("replay hash=%x\n", r2.Hash)
}

func worker(prop string, seed int64, from, stride, n int, secs float64, all bool) {
	st := stats{Faults: map[string]int{}, Probes: map[string]int{}, Kinds: map[string]int{}}
	scheds := map[uint64]bool{}
	pairs := map[uint64]bool{}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	classes := map[string]bool{}
	for i := from; i < n; i += stride {
		if secs > 0 && time.Now().After(deadline) {
			break
		}
		sd := runSeed(seed, prop, i)
		p := harness.Gen(prop, sd)
		ops := p.Ops()
		if st.Sample == nil && i == from {
			st.Sample, _ = json.Marshal(p)
		}
		r := harness.Run(p, sd, nil, false)
		st.Runs++
		st.Steps += int64(r.Steps)
		st.Switches += int64(r.Switches)
		st.SimNs += float64(r.SimTime)
		st.Ops += int64(ops)
		st.Decisions += int64(r.Trace.Len())
		st.Kinds[p.Kind]++
		if r.Steps > st.MaxSteps {
			st.MaxSteps = r.Steps
		}
		for k, v := range r.FaultsHit {
			st.Faults[k] += v
		}
		for k, v := range r.Probes {
			st.Probes[k] += v
		}
		if r.Switches > 2 {
			st.Nontriv++
			scheds[r.SchedHash^r.Hash] = true
		}
		for k := range r.Pairs {
			pairs[k] = true
		}
		if r.Stuck != "" {
			st.Stuck = fmt.Sprintf("run %d (seed %d): %s", i, sd, r.Stuck)
			break
		}
		if len(r.Violations) > 0 {
			v := r.Violations[0]
			if all && classes[v.Class] {
				continue
			}
			classes[v.Class] = true
			st.Finds = append(st.Finds, found{i, sd, v.Class, v.Detail})
			if !all {
				break
			}
		}
	}
	for k := range scheds {
		st.Scheds = append(st.Scheds, k)
	}
	for k := range pairs {
		st.Pairs = append(st.Pairs, k)
	}
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(&st)
	w.Flush()
}

func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	r := harness.Run(rf.Prog, rf.Seed, rf.Trace, verbose)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if r.Stuck != "" {
		die("%s", r.Stuck)
	}
	same := false
	for _, v := range r.Violations {
		fmt.Printf("violation %s: %s\n", v.Class, v.Detail)
		same = same || v.Class == rf.Class
	}
	fmt.Printf("hash %016x (recorded %s), %d steps\n", r.Hash, rf.Hash, r.Steps)
	if same {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Println("the recorded violation does not occur")
	return 0
}

// minimise shrinks a violating run while its class persists.
func minimise(p *harness.Prog, seed uint64, tr *simrt.Trace, class string, budget time.Duration) (*harness.Prog, uint64, *simrt.Trace) {
	deadline := time.Now().Add(budget)
	fails := func(q *harness.Prog, sd uint64, t *simrt.Trace) *simrt.Trace {
		r := harness.Run(q, sd, t, false)
		if r.Stuck != "" {
			return nil
		}
		for _, v := range r.Violations {
			if v.Class == class {
				return r.Trace
			}
		}
		return nil
	}
	clone := func(q *harness.Prog) *harness.Prog {
		b, _ := json.Marshal(q)
		var c harness.Prog
		json.Unmarshal(b, &c)
		return &c
	}
	try := func(q *harness.Prog) bool {
		if t := fails(q, seed, tr); t != nil {
			p, tr = q, t
			return true
		}
		for k := 0; k < 25 && time.Now().Before(deadline); k++ {
			sd := seed + uint64(k)*7919 + 1
			if t := fails(q, sd, nil); t != nil {
				p, seed, tr = q, sd, t
				return true
			}
		}
		return false
	}
	for again := true; again && time.Now().Before(deadline); {
		again = false
		// lives
		for i := len(p.Lives) - 1; i >= 0 && len(p.Lives) > 1 && time.Now().Before(deadline); i-- {
			q := clone(p)
			q.Lives = append(q.Lives[:i:i], q.Lives[i+1:]...)
			again = try(q) || again
		}
		// tasks, emptied rather than removed so that task numbers stay
		for l := range p.Lives {
			for t := len(p.Lives[l].Tasks) - 1; t >= 0 && time.Now().Before(deadline); t-- {
				if len(p.Lives[l].Tasks[t].Ops) == 0 {
					continue
				}
				q := clone(p)
				q.Lives[l].Tasks[t].Ops = nil
				again = try(q) || again
			}
		}
		// steps, in chunks
		for l := range p.Lives {
			for t := range p.Lives[l].Tasks {
				for sz := (len(p.Lives[l].Tasks[t].Ops) + 1) / 2; sz >= 1; sz /= 2 {
					for i := len(p.Lives[l].Tasks[t].Ops) - sz; i >= 0 && time.Now().Before(deadline); i -= sz {
						if i+sz > len(p.Lives[l].Tasks[t].Ops) {
							continue
						}
						q := clone(p)
						o := q.Lives[l].Tasks[t].Ops
						q.Lives[l].Tasks[t].Ops = append(o[:i:i], o[i+sz:]...)
						again = try(q) || again
					}
				}
			}
		}
	}
	// decisions
	for st := range tr.D {
		for sz := (len(tr.D[st]) + 1) / 2; sz >= 1; sz /= 2 {
			for i := len(tr.D[st]) - sz; i >= 0 && time.Now().Before(deadline.Add(budget/2)); i -= sz {
				if i+sz > len(tr.D[st]) {
					continue
				}
				c := tr.Clone()
				c.D[st] = append(c.D[st][:i:i], c.D[st][i+sz:]...)
				if t := fails(p, seed, c); t != nil && t.Len() <= tr.Len() {
					tr = t
				}
			}
		}
	}
	return p, seed, tr
}

type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Detail   string `json:"detail"` // regular expression on the detail of the minimised violation
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(root, prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		die("known_findings.json: %v", err)
	}
	var r []knownFinding
	for _, f := range k.Findings {
		if f.Property == prop && f.Fixed == "" {
			r = append(r, f)
		}
	}
	return r
}

// budgets: runs per tier; a wall clock cap keeps slow machines within the limit.
func budget(prop, tier string) (int, float64) {
	n, ok := quickRuns[prop]
	if !ok {
		n = 60000
	}
	if tier == "thorough" {
		return n * 60, 1800
	}
	return n, 300
}

var quickRuns = map[string]int{"C01": 150000, "C02": 150000, "C03": 150000, "C04": 150000, "C06": 100000, "C23": 150000,
	"C15": 100000, "C16": 100000, "C17": 100000, "C07": 150000, "C08": 150000, "C09": 100000, "C10": 100000, "C11": 100000, "C12": 250000, "C22": 200000, "C25": 120000, "C29": 100000, "C30": 80000}

func check(prop, tier string, seed int64, root string, nOver int, secsOver float64) int {
	t0 := time.Now()
	if prop == "C21" && harness.DriverMissing() {
		die("the in-package driver for C21 does not build with this tree")
	}
	n, secs := budget(prop, tier)
	if nOver > 0 {
		n = nOver
	}
	if secsOver > 0 {
		secs = secsOver
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d\n", prop, tier, seed, n, nw)
	self, _ := os.Executable()
	sts := make([]stats, nw)
	errs := make([]error, nw)
	var wg sync.WaitGroup
	known := loadKnown(root, prop)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			a := []string{"worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-i", fmt.Sprint(w), "-stride", fmt.Sprint(nw), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(secs)}
			if len(known) > 0 {
				a = append(a, "-all")
			}
			c := exec.Command(self, a...)
			c.Env = append(os.Environ(), "GOMAXPROCS=2")
			c.Stderr = os.Stderr
			out, err := c.StdoutPipe()
			if err == nil {
				err = c.Start()
			}
			if err == nil {
				var b []byte
				b, err = io.ReadAll(out)
				if e := c.Wait(); e != nil {
					err = e
				} else {
					err = json.Unmarshal(b, &sts[w])
				}
			}
			errs[w] = err
		}(w)
	}
	wg.Wait()
	for w, err := range errs {
		if err != nil {
			die("worker %d: %v", w, err)
		}
	}
	tot := stats{Faults: map[string]int{}, Probes: map[string]int{}, Kinds: map[string]int{}}
	scheds, pairs := map[uint64]bool{}, map[uint64]bool{}
	var finds []found
	for _, s := range sts {
		tot.Runs += s.Runs
		tot.Nontriv += s.Nontriv
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.SimNs += s.SimNs
		tot.Ops += s.Ops
		tot.Decisions += s.Decisions
		if s.MaxSteps > tot.MaxSteps {
			tot.MaxSteps = s.MaxSteps
		}
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Probes {
			tot.Probes[k] += v
		}
		for k, v := range s.Kinds {
			tot.Kinds[k] += v
		}
		for _, k := range s.Scheds {
			scheds[k] = true
		}
		for _, k := range s.Pairs {
			pairs[k] = true
		}
		finds = append(finds, s.Finds...)
		if s.Stuck != "" && tot.Stuck == "" {
			tot.Stuck = s.Stuck
		}
	}
	sort.Slice(finds, func(i, j int) bool { return finds[i].Index < finds[j].Index })
	wall := time.Since(t0).Seconds()
	writeEvidence := func(viol int) {
		ev := map[string]interface{}{
			"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viol,
			"assumptions": assumptions,
			"coverage": map[string]interface{}{
				"evaluations":               tot.Runs,
				"distinct_nontrivial":       len(scheds),
				"rule":                      "one evaluation is one simulated execution, from one seed, of a generated program under a generated schedule and fault sequence; it is non-trivial when it has more than two task switches, and distinct by the hash of its complete event log and schedule",
				"samples":                   samples(sts),
				"runs_and_seeds_per_hour":   int(float64(tot.Runs) / wall * 3600),
				"nontrivial":                tot.Nontriv,
				"simulated_seconds":         tot.SimNs / 1e9,
				"scheduling_steps":          tot.Steps,
				"task_switches":             tot.Switches,
				"program_steps":             tot.Ops,
				"nondefault_decisions":      tot.Decisions,
				"max_steps_of_a_run":        tot.MaxSteps,
				"faults_injected":           tot.Faults,
				"probes_hit":                tot.Probes,
				"program_kinds":             tot.Kinds,
				"distinct_preemption_pairs": len(pairs),
				"real_components":           "all of github.com/xtfly/log4g (instrumented copy of the working tree), log/syslog, context, bufio, bytes.Buffer, compress/gzip, archive/tar, archive/zip, fmt, regexp, yaml.v2, encoding/json",
				"stubbed_components":        "goroutine scheduler, channels and sync primitives, clocks and timers, file system, standard streams, signals, local syslog socket, process lifetime, random sources",
			},
		}
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
			die("%v", err)
		}
	}
	fmt.Printf("%d runs (%d distinct, non-trivial) in %.1fs, %.0f simulated s, %d switches, %d preemption pairs, max steps %d\nfaults %v\nprobes %v\n",
		tot.Runs, len(scheds), wall, tot.SimNs/1e9, tot.Switches, len(pairs), tot.MaxSteps, tot.Faults, tot.Probes)
	for _, f := range finds {
		fmt.Printf("run %d (seed %d) violates %s: %s\n", f.Index, f.Seed, f.Class, f.Detail)
		rf := shrink(prop, f, root, self)
		if k := matchKnown(known, rf); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			continue
		}
		path := save(rf, root, self)
		writeEvidence(1)
		fmt.Printf("%s: %s\n", rf.Class, rf.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if tot.Stuck != "" {
		die("%s", tot.Stuck)
	}
	writeEvidence(0)
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

var assumptions = []string{
	"simulated storage keeps every completed write and rename (process crash, not power loss)",
	"one task runs at a time and switches happen at statement boundaries, inside read-modify-write statements and at synchronisation, file, clock and channel operations (sequentially consistent memory)",
	"sampled executions: a clean batch is evidence, not proof",
}

func samples(sts []stats) []interface{} {
	var r []interface{}
	for _, s := range sts {
		if len(r) < 2 && s.Sample != nil {
			r = append(r, s.Sample)
		}
	}
	return r
}

func matchKnown(ks []knownFinding, rf *replayFile) *knownFinding {
	for i, k := range ks {
		if k.Class != "" && k.Class != rf.Class {
			continue
		}
		if ok, err := regexp.MatchString(k.Detail, rf.Detail); err == nil && ok {
			return &ks[i]
		}
	}
	return nil
}

func shrink(prop string, f found, root, self string) *replayFile {
	p := harness.Gen(prop, f.Seed)
	r := harness.Run(p, f.Seed, nil, false)
	if len(r.Violations) == 0 || r.Violations[0].Class != f.Class {
		die("run %d (seed %d) is not reproducible: worker saw %s, parent %v", f.Index, f.Seed, f.Class, r.Violations)
	}
	tr := r.Trace
	seed := f.Seed
	if strings.HasSuffix(f.Class, ":livelock") {
		tr = r.Trace // too long to shrink
	} else {
		p, seed, tr = minimise(p, f.Seed, tr, f.Class, 20*time.Second)
	}
	r = harness.Run(p, seed, tr, true)
	rf := &replayFile{Property: prop, Class: f.Class, Seed: seed, Index: f.Index, Hash: fmt.Sprintf("%016x", r.Hash), Steps: r.Steps, Prog: p, Trace: tr}
	for _, v := range r.Violations {
		if v.Class == f.Class {
			rf.Detail = v.Detail
			break
		}
	}
	h := r.Log
	if len(h) > 400 {
		h = h[len(h)-400:]
	}
	rf.History = h
	return rf
}

func save(rf *replayFile, root, self string) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", rf.Property, rf.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	out, err := exec.Command(self, "replay", path).CombinedOutput()
	if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() != 1 || !strings.Contains(string(out), "hash "+rf.Hash) {
		die("replay of %s does not reproduce the violation in a fresh process:\n%s", path, out)
	}
	fmt.Printf("minimised to %d program steps and %d non-default decisions, reproduced in a fresh process\n", rf.Prog.Ops(), rf.Trace.Len())
	return path
}
