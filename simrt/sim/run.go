// Package sim runs properties: many seeded runs over several worker processes,
// minimising and replaying of failures, evidence.
package sim

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
)

// Prop is one property and the simulation deciding it.
type Prop struct {
	ID       string
	Rule     string // how runs are made and what makes one non-trivial
	Run      func(*R)
	Quick    int // runs per tier
	Thorough int
	Real     []string // components running real code
	Stub     []string // components replaced
	Want     []string // probes and fault kinds that must be reached in a tier-sized batch
	Assume   []string
}

// Violation is a property broken by one run.
type Violation struct {
	Class string // stable across minimisation
	Msg   string
}

// R is one simulated run.
type R struct {
	Prop       *Prop
	Tier       string
	viol       *Violation
	log        []string
	shape      []string
	nontrivial bool
	verbose    bool
	known      map[string]string
	KnownHits  map[string]string
}

type stopRun struct{}

// Fail records a violation. In the driver it also ends the run.
func (r *R) Fail(class, format string, args ...interface{}) {
	if why, ok := r.known[class]; ok {
		r.KnownHits[class] = why
		return
	}
	if r.viol == nil {
		r.viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
	}
	if rt.TaskID() < 0 {
		panic(stopRun{})
	}
}

// Failed tells whether a violation was recorded.
func (r *R) Failed() bool { return r.viol != nil }

// Log notes an event of the run (shown in the replay file, part of determinism checks).
func (r *R) Log(format string, args ...interface{}) {
	if len(r.log) < 5000 {
		r.log = append(r.log, fmt.Sprintf(format, args...))
	}
}

// Shape adds to what distinguishes this run from others.
func (r *R) Shape(format string, args ...interface{}) {
	if len(args) == 0 {
		r.shape = append(r.shape, format)
		return
	}
	r.shape = append(r.shape, fmt.Sprintf(format, args...))
}

// NonTrivial marks the run as exercising what the property is about.
func (r *R) NonTrivial() { r.nontrivial = true }

// Probe counts a rare condition.
func (r *R) Probe(name string) { rt.Probe(name) }

// Stop ends the run early without a verdict.
func (r *R) Stop() { panic(stopRun{}) }

// Must fails unless the outcome is a normal return.
func (r *R) Must(o rt.Outcome, what string) {
	if o.OK {
		return
	}
	switch {
	case o.Panic != nil:
		r.Fail("panic", "%s panicked: %v\n%s", what, o.Panic, trimStack(o.Stack))
	case o.Stop == rt.StopSteps:
		r.Fail("hang", "%s did not return within its step budget (%d steps)", what, o.Steps)
	case o.Stop == rt.StopDeadlock:
		r.Fail("deadlock", "%s never returns: all tasks are blocked", what)
	case o.Stop == rt.StopAlloc:
		r.Fail("memory", "%s asked for more memory than its budget: %s", what, o.Detail)
	default:
		r.Fail("stopped-"+o.Stop, "%s was stopped: %s %s", what, o.Stop, o.Detail)
	}
}

func trimStack(s string) string {
	var keep []string
	lines := strings.Split(s, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "gomorphy") || strings.Contains(l, "binutils") {
			if j := strings.Index(l, " +0x"); j > 0 {
				l = l[:j]
			}
			if strings.HasPrefix(l, "\t") {
				keep = append(keep, "    "+strings.TrimSpace(l))
			}
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func hash(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// result of one run.
type result struct {
	viol       *Violation
	choices    []uint32
	nontrivial bool
	key        uint64
	log        []string
	known      map[string]string
	digest     uint64
}

// one performs a run. If replay is nil, seed decides.
func one(p *Prop, tier string, seed uint64, replay []uint32, known map[string]string) (res result) {
	rt.Begin(seed, replay)
	simos.Reset("/home/u")
	r := &R{Prop: p, Tier: tier, known: known, KnownHits: map[string]string{}}
	races := rt.RaceCount()
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(stopRun); !ok {
					fmt.Fprintf(os.Stderr, "HARNESS: panic in the driver: %v\n%s\n", v, debug.Stack())
					os.Exit(3)
				}
			}
		}()
		p.Run(r)
	}()
	if n := rt.RaceCount() - races; n > 0 && r.viol == nil {
		if why, ok := known["race"]; ok {
			r.KnownHits["race"] = why
		} else {
			r.viol = &Violation{Class: "race", Msg: "data race reported by the race detector on this schedule:\n" + raceReport()}
		}
	}
	res.viol = r.viol
	res.choices = rt.Choices()
	res.nontrivial = r.nontrivial
	res.key = hash(append(append([]string{}, r.shape...), fmt.Sprint(rt.SchedHash()), strings.Join(rt.FiredAt, ";"))...)
	res.log = r.log
	res.known = r.KnownHits
	var inj []string
	for k, v := range rt.Injected() {
		inj = append(inj, fmt.Sprint(k, v))
	}
	for k, v := range rt.Probes() {
		inj = append(inj, fmt.Sprint(k, v))
	}
	sort.Strings(inj)
	ch := fnv.New64a()
	for _, c := range res.choices {
		ch.Write([]byte{byte(c), byte(c >> 8), byte(c >> 16), byte(c >> 24)})
	}
	v := ""
	if r.viol != nil {
		v = r.viol.Class
	}
	res.digest = hash(fmt.Sprint(ch.Sum64()), fmt.Sprint(rt.SchedHash(), rt.Steps(), rt.Now()), strings.Join(r.log, "\n"),
		strings.Join(inj, ","), strings.Join(rt.FiredAt, ";"), v)
	if os.Getenv("VERIF_PARTS") != "" {
		fmt.Printf("choices %v\nsteps %d now %d sched %d\n%s\n%v\n%v\n", res.choices, rt.Steps(), rt.Now(), rt.SchedHash(), strings.Join(r.log, "\n"), inj, rt.FiredAt)
	}
	return res
}
