package sim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/simrt/rt"
)

// Stats of a batch of runs; mergeable.
type Stats struct {
	Runs       int               `json:"runs"`
	NonTrivial int               `json:"nontrivial"`
	SimNS      int64             `json:"sim_ns"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	Contended  int64             `json:"contended"`
	Points     int64             `json:"points"`
	Faults     map[string]int    `json:"faults"`
	FaultRuns  int               `json:"fault_runs"`
	Probes     map[string]int    `json:"probes"`
	Keys       []uint64          `json:"keys"`
	Scheds     []uint64          `json:"scheds"`
	Sites      []int             `json:"sites"`
	Samples    []string          `json:"samples"`
	Digest     uint64            `json:"digest"`
	Known      map[string]string `json:"known"`
	Last       []Done            `json:"last"`
}

// Done is a finished run and the digest of all it did.
type Done struct {
	Run    int    `json:"run"`
	Digest string `json:"digest"`
}

// Replay is the file a violation is written to.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`     // VERIF_SEED
	Run      int      `json:"run"`      // number of the run in the batch
	RunSeed  uint64   `json:"run_seed"` // seed of this run
	Tier     string   `json:"tier"`
	Build    string   `json:"build"` // plain or race
	Mode     string   `json:"mode"`  // choices | sequence
	First    int      `json:"first,omitempty"`
	Stride   int      `json:"stride,omitempty"`
	Choices  []uint32 `json:"choices"`
	Original int      `json:"original_choices"`
	Faults   []string `json:"faults"`
	Schedule []string `json:"schedule"`
	Log      []string `json:"log"`
	How      string   `json:"how"`
}

func runSeed(seed uint64, prop string, idx int) uint64 {
	return rt.Mix(rt.Mix(seed, hash(prop)), uint64(idx)+1)
}

func raceReport() string {
	lp := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			lp = f[9:]
		}
	}
	b, err := os.ReadFile(lp + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return "(no report file)"
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, " at 0x") {
			l = l[:strings.Index(l, " at 0x")]
		}
		if strings.Contains(l, "Goroutine") && strings.Contains(l, "created at") {
			break
		}
		if strings.TrimSpace(l) != "" {
			keep = append(keep, l)
		}
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func tune() {
	debug.SetMaxStack(768 << 20)
	if rt.RaceBuild {
		// one P, no GC in the middle of runs: keeps incidental synchronisation
		// inside the runtime and the standard library the same in every replay
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
	} else {
		runtime.GOMAXPROCS(2)
		debug.SetGCPercent(200)
	}
}

// worker runs idx = first, first+stride, ... < last.
func worker(p *Prop, tier string, seed uint64, first, stride, last int, progress, out string, known map[string]string, deadline time.Time, logDigests bool) int {
	tune()
	st := Stats{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]string{}}
	keys := map[uint64]bool{}
	scheds := map[uint64]bool{}
	var prog *os.File
	if progress != "" {
		f, err := os.Create(progress)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		prog = f
		defer f.Close()
	}
	n := 0
	for idx := first; idx < last; idx += stride {
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%-12d", idx)), 0)
		}
		if time.Now().After(deadline) {
			break
		}
		rs := runSeed(seed, p.ID, idx)
		res := one(p, tier, rs, nil, known)
		st.Runs++
		n++
		if logDigests {
			fmt.Printf("D %d %016x\n", idx, res.digest)
		}
		st.Digest ^= rt.Mix(res.digest, uint64(idx))
		st.Last = append(st.Last, Done{idx, fmt.Sprintf("%016x", res.digest)})
		if len(st.Last) > 3 {
			st.Last = st.Last[1:]
		}
		st.SimNS += rt.Now()
		st.Steps += rt.Steps()
		st.Switches += rt.Switches()
		st.Contended += rt.Contended()
		st.Points += rt.Points()
		for k, v := range rt.Injected() {
			st.Faults[k] += v
		}
		if rt.FaultCount > 0 {
			st.FaultRuns++
		}
		for k, v := range rt.Probes() {
			st.Probes[k] += v
		}
		for k, v := range res.known {
			st.Known[k] = v
		}
		if rt.Switches() > 0 {
			scheds[rt.SchedHash()] = true
		}
		if res.nontrivial {
			st.NonTrivial++
			keys[res.key] = true
			if len(st.Samples) < 2 {
				s := strings.Join(head(res.log, 14), " | ")
				if len(rt.FiredAt) > 0 {
					s += " | FAULTS: " + strings.Join(head(rt.FiredAt, 8), "; ")
				}
				st.Samples = append(st.Samples, fmt.Sprintf("run %d: %s", idx, clip(s, 1800)))
			}
		}
		if res.viol != nil {
			rp := Replay{Property: p.ID, Class: res.viol.Class, Message: res.viol.Msg, Seed: seed, Run: idx, RunSeed: rs,
				Tier: tier, Build: build(), Mode: "choices", Choices: res.choices, Original: len(res.choices), Log: res.log, Faults: rt.FiredAt, First: first, Stride: stride}
			b, _ := json.Marshal(rp)
			if err := os.WriteFile(out+".viol", b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			writeStats(&st, keys, scheds, out)
			return 10
		}
		if rt.RaceBuild && n%50 == 0 {
			runtime.GC()
		}
	}
	if err := writeStats(&st, keys, scheds, out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func build() string {
	if rt.RaceBuild {
		return "race"
	}
	return "plain"
}

func head(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), fmt.Sprintf("... %d more", len(s)-n))
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeStats(st *Stats, keys, scheds map[uint64]bool, out string) error {
	for k := range keys {
		st.Keys = append(st.Keys, k)
	}
	for k := range scheds {
		st.Scheds = append(st.Scheds, k)
	}
	for i, h := range rt.SiteHits() {
		if h != 0 {
			st.Sites = append(st.Sites, i)
		}
	}
	f, err := os.Create(out)
	if err != nil {
		return err
	}
	w := bufio.NewWriter(f)
	if err := json.NewEncoder(w).Encode(st); err != nil {
		return err
	}
	if err := w.Flush(); err != nil {
		return err
	}
	return f.Close()
}

// replayFile replays and returns the violation found.
func replayFile(p *Prop, rp *Replay, known map[string]string) result {
	tune()
	if rp.Mode == "sequence" {
		var res result
		for idx := rp.First; idx <= rp.Run; idx += rp.Stride {
			res = one(p, rp.Tier, runSeed(rp.Seed, p.ID, idx), nil, known)
			if res.viol != nil && idx == rp.Run {
				return res
			}
		}
		return res
	}
	return one(p, rp.Tier, rp.RunSeed, append([]uint32{}, rp.Choices...), known)
}

// minimise shrinks a choice list while the same class of violation persists.
func minimise(p *Prop, rp *Replay, known map[string]string, until time.Time) {
	tune()
	class := rp.Class
	best := append([]uint32(nil), rp.Choices...)
	tries := 0
	try := func(c []uint32) bool {
		if time.Now().After(until) {
			return false
		}
		tries++
		if rt.RaceBuild && tries%50 == 0 {
			runtime.GC()
		}
		res := one(p, rp.Tier, rp.RunSeed, append([]uint32{}, c...), known) // never nil: nil means a random run
		if res.viol == nil || res.viol.Class != class {
			return false
		}
		got := trim(res.choices)
		if less(got, c) {
			best = got
		} else {
			best = trim(c)
		}
		return true
	}
	best0 := trim(best)
	if !try(best0) {
		return
	}
	for pass := 0; pass < 6; pass++ {
		before := append([]uint32(nil), best...)
		// delete chunks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if !try(c) {
					i += size
				}
			}
			if time.Now().After(until) {
				break
			}
		}
		// zero chunks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				c := append([]uint32(nil), best...)
				ch := false
				for j := i; j < i+size; j++ {
					ch = ch || c[j] != 0
					c[j] = 0
				}
				if ch {
					try(c)
				}
			}
			if time.Now().After(until) {
				break
			}
		}
		// smaller values
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 1 {
				c := append([]uint32(nil), best...)
				c[i] = best[i] / 2
				if !try(c) {
					c = append([]uint32(nil), best...)
					c[i]--
					if !try(c) {
						break
					}
				}
			}
		}
		if len(before) == len(best) && !less(best, before) {
			break
		}
		if time.Now().After(until) {
			break
		}
	}
	rp.Choices = best
	describe(p, rp, known)
}

// describe fills in the human readable part from the choices.
func describe(p *Prop, rp *Replay, known map[string]string) bool {
	res := replayFile(p, rp, known)
	if res.viol == nil {
		return false
	}
	rp.Class, rp.Message = res.viol.Class, res.viol.Msg
	rp.Log = res.log
	rp.Faults = append([]string(nil), rt.FiredAt...)
	rp.Schedule = nil
	sites := loadSites()
	for _, t := range rt.Trace() {
		rp.Schedule = append(rp.Schedule, fmt.Sprintf("at %s: task %d continues", sites[t[1]], t[0]))
		if len(rp.Schedule) > 400 {
			break
		}
	}
	return true
}

func loadSites() map[int]string {
	m := map[int]string{0: "wait or end of a task"}
	exe, _ := os.Executable()
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json"))
	if err != nil {
		return m
	}
	var l []struct {
		F string `json:"f"`
		L int    `json:"l"`
	}
	if json.Unmarshal(b, &l) == nil {
		for i, x := range l {
			if i > 0 {
				m[i] = fmt.Sprintf("%s:%d", x.F, x.L)
			}
		}
	}
	return m
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	sa, sb := uint64(0), uint64(0)
	for i := range a {
		sa += uint64(a[i])
		sb += uint64(b[i])
	}
	return sa < sb
}

func trim(c []uint32) []uint32 {
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return append([]uint32(nil), c[:n]...)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
