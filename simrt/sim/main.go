package sim

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Known is one entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
}

func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "open" {
			m[k.Class] = k.What
		}
	}
	return m
}

// Main is the entry point of a simulation binary.
func Main(props ...*Prop) {
	var (
		id       = flag.String("prop", "", "property")
		mode     = flag.String("mode", "check", "check|worker|replay|minimise|describe|digest")
		tier     = flag.String("tier", "quick", "quick|thorough")
		seed     = flag.Uint64("seed", 1, "VERIF_SEED")
		first    = flag.Int("first", 0, "")
		stride   = flag.Int("stride", 1, "")
		last     = flag.Int("last", 0, "")
		progress = flag.String("progress", "", "")
		out      = flag.String("out", "", "")
		file     = flag.String("file", "", "replay file")
		dir      = flag.String("verif", "/verif", "directory of the framework")
		runs     = flag.Int("runs", 0, "override the number of runs")
		workers  = flag.Int("workers", runtime.NumCPU(), "")
		wall     = flag.Int("wall", 0, "stop after this many seconds")
		race     = flag.String("race", "", "binary with the race detector, also used")
		verb     = flag.Bool("v", false, "")
	)
	flag.Parse()
	var p *Prop
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q in this binary\n", *id)
		os.Exit(2)
	}
	known := loadKnown(filepath.Join(*dir, "known-findings.jsonl"), p.ID)
	deadline := time.Now().Add(time.Hour * 24)
	if *wall > 0 {
		deadline = time.Now().Add(time.Duration(*wall) * time.Second)
	}
	switch *mode {
	case "worker", "digest":
		os.Exit(worker(p, *tier, *seed, *first, *stride, *last, *progress, *out, known, deadline, *mode == "digest"))
	case "replay", "describe", "minimise":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if *mode == "minimise" {
			minimise(p, &rp, known, deadline)
			save(&rp, *out)
			os.Exit(0)
		}
		if *mode == "describe" {
			if !describe(p, &rp, known) {
				os.Exit(3)
			}
			save(&rp, *out)
			os.Exit(0)
		}
		res := replayFile(p, &rp, known)
		if *verb {
			for _, l := range res.log {
				fmt.Println("  ", l)
			}
		}
		if res.viol == nil {
			fmt.Println("replay: no violation")
			os.Exit(0)
		}
		fmt.Printf("replay: %s: %s\n", res.viol.Class, res.viol.Msg)
		if res.viol.Class != rp.Class {
			os.Exit(4)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *file)
		os.Exit(1)
	}
	os.Exit((&orch{p: p, tier: *tier, seed: *seed, dir: *dir, runs: *runs, workers: *workers, wall: *wall, race: *race, known: known}).check())
}

func save(rp *Replay, out string) {
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

type orch struct {
	p       *Prop
	tier    string
	seed    uint64
	dir     string
	runs    int
	workers int
	wall    int
	race    string
	known   map[string]string
	tmp     string
}

func (o *orch) args(extra ...string) []string {
	return append([]string{"-prop", o.p.ID, "-tier", o.tier, "-seed", fmt.Sprint(o.seed), "-verif", o.dir}, extra...)
}

func (o *orch) command(bin string, extra ...string) *exec.Cmd {
	c := exec.Command(bin, o.args(extra...)...)
	c.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=7 log_path="+filepath.Join(o.tmp, "race"))
	return c
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	return -2
}

func (o *orch) check() int {
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp(filepath.Dir(exe), "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.tmp = tmp
	defer os.RemoveAll(tmp)
	total := o.runs
	if total == 0 {
		total = o.p.Quick
		if o.tier == "thorough" {
			total = o.p.Thorough
		}
	}
	if o.wall == 0 {
		o.wall = 420
		if o.tier == "thorough" {
			o.wall = 6 * 3600
		}
	}
	type batch struct {
		bin, name string
		total     int
		idx0      int
	}
	batches := []batch{{exe, "plain", total, 0}}
	if o.race != "" {
		// the race build is about ten times slower; it gets its own runs
		batches = append(batches, batch{o.race, "race", total / 8, 1 << 24})
	}
	all := Stats{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]string{}}
	keys, scheds, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	per := map[string]int{}
	var viol *Replay
	status, repeated, exactly := 0, 0, 0
	for _, b := range batches {
		budget := o.wall
		if len(batches) > 1 {
			budget = o.wall / 2
		}
		sts, v, code := o.batch(b.bin, b.name, b.idx0, b.total, budget)
		for _, s := range sts {
			all.Runs += s.Runs
			per[b.name] += s.Runs
			all.NonTrivial += s.NonTrivial
			all.SimNS += s.SimNS
			all.Steps += s.Steps
			all.Switches += s.Switches
			all.Contended += s.Contended
			all.Points += s.Points
			all.FaultRuns += s.FaultRuns
			all.Digest ^= s.Digest
			for k, n := range s.Faults {
				all.Faults[k] += n
			}
			for k, n := range s.Probes {
				all.Probes[k] += n
			}
			for k, w := range s.Known {
				all.Known[k] = w
			}
			for _, k := range s.Keys {
				keys[k] = true
			}
			for _, k := range s.Scheds {
				scheds[k] = true
			}
			if b.name == "plain" {
				for _, k := range s.Sites {
					sites[k] = true
				}
			}
			if len(all.Samples) < 3 {
				all.Samples = append(all.Samples, s.Samples...)
			}
		}
		if code != 0 {
			status = code
			break
		}
		if v != nil {
			viol = v
			break
		}
		if code == 0 {
			n, m := o.repeat(b.bin, sts)
			repeated += n
			exactly += m
		}
	}
	if exactly < repeated {
		fmt.Fprintf(os.Stderr, "%s: note: %d of %d runs repeated in fresh processes were not the same\n", o.p.ID, repeated-exactly, repeated)
	}
	if status == 2 {
		fmt.Fprintf(os.Stderr, "%s: the check could not be completed\n", o.p.ID)
		return 2
	}
	wall := time.Since(start).Seconds()
	nv := 0
	if viol != nil {
		nv = 1
	}
	o.evidence(&all, len(keys), len(scheds), sites, per, wall, nv, [2]int{repeated, exactly})
	var ks []string
	for k := range all.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.p.ID, all.Known[k])
	}
	if viol != nil {
		rdir := filepath.Join(o.dir, "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", o.p.ID, o.seed, viol.Run))
		viol.How = fmt.Sprintf("bash check.sh %s --replay %s", o.p.ID, path)
		save(viol, path)
		fmt.Printf("%s: %s: %s\n", o.p.ID, viol.Class, viol.Message)
		fmt.Printf("%s: run %d of seed %d, %s build, %d choices minimised to %d\n", o.p.ID, viol.Run, o.seed, viol.Build, viol.Original, len(viol.Choices))
		for _, l := range viol.Log {
			fmt.Println("   ", clip(l, 300))
		}
		for _, l := range viol.Faults {
			fmt.Println("    fault:", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.p.ID, path)
		return 1
	}
	fmt.Printf("%s: held on %d runs (%d non-trivial, %d distinct), %d faults injected, %d schedules, %.1fs\n", o.p.ID, all.Runs, all.NonTrivial, len(keys), sum(all.Faults), len(scheds), wall)
	return 0
}

// repeat does the last runs of every worker again, each in a process of its own, and counts those that are the same.
func (o *orch) repeat(bin string, sts []Stats) (repeated, exactly int) {
	var jobs []Done
	for _, s := range sts {
		jobs = append(jobs, s.Last...)
	}
	same := make(chan bool, len(jobs))
	slots := make(chan bool, 8)
	for _, j := range jobs {
		slots <- true
		go func(j Done) {
			b, err := o.command(bin, "-mode", "digest", "-first", fmt.Sprint(j.Run), "-stride", "1", "-last", fmt.Sprint(j.Run+1)).Output()
			if err != nil && len(b) == 0 {
				b = []byte(err.Error())
			}
			<-slots
			same <- strings.Contains(string(b), fmt.Sprintf("D %d %s", j.Run, j.Digest))
		}(j)
	}
	for range jobs {
		repeated++
		if <-same {
			exactly++
		}
	}
	return repeated, exactly
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

const perRunWall = 90 * time.Second

// batch runs idx0 <= idx < idx0+total over the workers.
func (o *orch) batch(bin, name string, idx0, total, wall int) (sts []Stats, viol *Replay, code int) {
	type wres struct {
		code int
		out  string
		prog string
		w    int
		msg  string
	}
	nw := o.workers
	if nw > total {
		nw = total
	}
	if nw == 0 {
		return nil, nil, 0
	}
	res := make(chan wres, nw)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stopped := false
	stop := func() {
		mu.Lock()
		stopped = true
		for _, c := range procs {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
		mu.Unlock()
	}
	for w := 0; w < nw; w++ {
		out := filepath.Join(o.tmp, fmt.Sprintf("%s-%d", name, w))
		prog := out + ".progress"
		c := o.command(bin, "-mode", "worker", "-first", fmt.Sprint(idx0+w), "-stride", fmt.Sprint(nw), "-last", fmt.Sprint(idx0+total),
			"-progress", prog, "-out", out, "-wall", fmt.Sprint(wall))
		var stderr tail
		c.Stderr = &stderr
		c.Stdout = &stderr
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			stop()
			return nil, nil, 2
		}
		procs[w] = c
		go func(w int) {
			err := c.Wait()
			res <- wres{exitCode(err), out, prog, w, stderr.String()}
		}(w)
	}
	// watchdog: a run that makes no progress in real time
	done := make(chan struct{})
	defer close(done)
	hung := map[int]bool{}
	go func() {
		last := map[int]string{}
		since := map[int]time.Time{}
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			for w := 0; w < nw; w++ {
				b, _ := os.ReadFile(filepath.Join(o.tmp, fmt.Sprintf("%s-%d.progress", name, w)))
				if s := string(b); s != last[w] {
					last[w], since[w] = s, time.Now()
				} else if t, ok := since[w]; ok && time.Since(t) > perRunWall {
					mu.Lock()
					if c := procs[w]; c != nil && !hung[w] {
						hung[w] = true
						c.Process.Kill()
					}
					mu.Unlock()
				}
			}
		}
	}()
	var cands []*Replay
	for i := 0; i < nw; i++ {
		r := <-res
		mu.Lock()
		delete(procs, r.w)
		h := hung[r.w]
		mu.Unlock()
		if b, err := os.ReadFile(r.out); err == nil {
			var s Stats
			if json.Unmarshal(b, &s) == nil {
				sts = append(sts, s)
			}
		}
		if stopped {
			continue
		}
		switch {
		case r.code == 0:
		case r.code == 10:
			var rp Replay
			b, _ := os.ReadFile(r.out + ".viol")
			if err := json.Unmarshal(b, &rp); err != nil {
				fmt.Fprintln(os.Stderr, "unreadable violation:", err)
				code = 2
				stop()
				continue
			}
			cands = append(cands, &rp)
			stop()
		case h:
			fmt.Fprintf(os.Stderr, "%s: a run made no progress for %v:\n%s\n", o.p.ID, perRunWall, r.msg)
			code = 2
			stop()
		default:
			// the process died: rerun the run it was in, alone
			b, _ := os.ReadFile(r.prog)
			idx, err := strconv.Atoi(strings.TrimSpace(string(b)))
			if err != nil || strings.Contains(r.msg, "HARNESS") {
				fmt.Fprintf(os.Stderr, "%s: worker failed (%d):\n%s\n", o.p.ID, r.code, r.msg)
				code = 2
				stop()
				continue
			}
			if rp := o.died(bin, name, idx, r.msg); rp != nil {
				cands = append(cands, rp)
				stop()
			} else {
				fmt.Fprintf(os.Stderr, "%s: worker died (%d) in run %d and the run alone does not:\n%s\n", o.p.ID, r.code, idx, r.msg)
				code = 2
				stop()
			}
		}
	}
	if code != 0 {
		return sts, nil, code
	}
	if len(cands) == 0 {
		return sts, nil, 0
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Run < cands[j].Run })
	for _, c := range cands {
		if v := o.confirm(bin, c); v != nil {
			return sts, v, 0
		}
	}
	fmt.Fprintf(os.Stderr, "%s: a violation did not replay (%s: %s)\n", o.p.ID, cands[0].Class, cands[0].Message)
	return sts, nil, 2
}

// died handles a run that ends the whole process (stack exhaustion, runtime fatal error).
func (o *orch) died(bin, name string, idx int, msg string) *Replay {
	for k := 0; k < 2; k++ {
		out := filepath.Join(o.tmp, "died")
		c := o.command(bin, "-mode", "worker", "-first", fmt.Sprint(idx), "-stride", "1", "-last", fmt.Sprint(idx+1), "-out", out)
		var t tail
		c.Stderr, c.Stdout = &t, &t
		code := exitCode(c.Run())
		if code == 0 || code == 10 {
			return nil
		}
		msg = t.String()
	}
	first := msg
	if i := strings.Index(msg, "fatal error"); i >= 0 {
		first = msg[i:]
	}
	return &Replay{Property: o.p.ID, Class: "process-died", Message: "the whole process dies: " + clip(first, 600), Seed: o.seed, Run: idx,
		RunSeed: runSeed(o.seed, o.p.ID, idx), Tier: o.tier, Build: name, Mode: "sequence", First: idx, Stride: 1}
}

// confirm minimises a violation and checks that it replays in fresh processes.
func (o *orch) confirm(bin string, rp *Replay) *Replay {
	if rp.Class == "process-died" {
		return rp
	}
	in := filepath.Join(o.tmp, "in.json")
	min := filepath.Join(o.tmp, "min.json")
	out := filepath.Join(o.tmp, "out.json")
	save(rp, in)
	times := 2
	if rp.Build == "race" {
		times = 4
	}
	ok := func(f string) bool {
		for k := 0; k < times; k++ {
			if exitCode(o.command(bin, "-mode", "replay", "-file", f).Run()) != 1 {
				return false
			}
		}
		return true
	}
	load := func(f string) *Replay {
		b, err := os.ReadFile(f)
		var r Replay
		if err != nil || json.Unmarshal(b, &r) != nil {
			return nil
		}
		return &r
	}
	if ok(in) {
		limit := "60"
		if o.tier == "thorough" {
			limit = "300"
		}
		if exitCode(o.command(bin, "-mode", "minimise", "-file", in, "-out", min, "-wall", limit).Run()) == 0 && ok(min) {
			return load(min)
		}
		if exitCode(o.command(bin, "-mode", "describe", "-file", in, "-out", out).Run()) == 0 {
			return load(out)
		}
		return rp
	}
	// it may need state left by earlier runs of the same process
	for k := 1; ; k *= 4 {
		q := *rp
		q.Mode, q.Choices = "sequence", nil
		q.First = rp.Run - k*rp.Stride
		if q.First < rp.First {
			q.First = rp.First
		}
		save(&q, in)
		if ok(in) {
			if exitCode(o.command(bin, "-mode", "describe", "-file", in, "-out", out).Run()) == 0 {
				return load(out)
			}
			return &q
		}
		if q.First == rp.First {
			return nil
		}
	}
}

// tail keeps the beginning and the end of an output.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<15:1<<15], t.b[len(t.b)-1<<14:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return clip(string(t.b), 6000)
}

func (o *orch) evidence(st *Stats, distinct, scheds int, sites map[int]bool, per map[string]int, wall float64, violations int, again [2]int) {
	exe, _ := os.Executable()
	siteNames := loadSites()
	_ = exe
	bySrc := map[string]int{}
	for i := range sites {
		n := siteNames[i]
		if j := strings.LastIndex(n, ":"); j > 0 {
			bySrc[n[:j]]++
		}
	}
	hours := wall / 3600
	if st.Faults == nil {
		st.Faults = map[string]int{}
	}
	var missing []string
	for _, w := range o.p.Want {
		if st.Faults[w] == 0 && st.Probes[w] == 0 {
			missing = append(missing, w)
		}
	}
	if missing == nil {
		missing = []string{}
	}
	samples := st.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": o.p.ID, "tier": o.tier, "seed": o.seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":                       st.Runs,
			"distinct_nontrivial":               distinct,
			"rule":                              o.p.Rule,
			"samples":                           samples,
			"simulated_runs_and_seeds_per_hour": int(float64(st.Runs) / hours),
			"runs_by_build":                     per,
			"nontrivial_runs":                   st.NonTrivial,
			"simulated_seconds":                 float64(st.SimNS) / 1e9,
			"scheduling_points_executed":        st.Steps,
			"context_switches":                  st.Switches,
			"blocked_lock_acquisitions":         st.Contended,
			"fault_points_passed":               st.Points,
			"runs_with_faults":                  st.FaultRuns,
			"faults_injected":                   st.Faults,
			"rare_conditions_reached":           st.Probes,
			"expected_but_not_reached":          missing,
			"distinct_schedules":                scheds,
			"distinct_schedules_measure":        "hash of the (task, statement) pairs at every context switch of a run",
			"statements_reached":                len(sites),
			"statements_reached_by_file":        bySrc,
			"runs_repeated_in_fresh_processes":  again[0],
			"runs_repeated_exactly":             again[1],
			"log_digest":                        fmt.Sprintf("%016x", st.Digest),
			"components_real":                   o.p.Real,
			"components_stub":                   o.p.Stub,
		},
		"assumptions": append([]string{"sampled, not exhaustive: a clean batch is evidence, not proof"}, o.p.Assume...),
	}
	os.MkdirAll(filepath.Join(o.dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(o.dir, "evidence", o.p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
