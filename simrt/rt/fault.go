package rt

// Fault points.  Code at a seam calls Fire(op, kinds...) whenever it could
// legally misbehave; armed faults decide whether it does.

const maxArmed = 8

type armed struct {
	op    string // "" means any
	left  int
	done  bool
	more  int // times it goes on failing after the first one
	crash bool
	stall int64    // the process is held up for so long
	kinds []string // restricts the kinds; nil means any
}

var (
	plan       [maxArmed]armed
	nplan      int
	injected   counter  // fault kind -> times really injected (this run)
	probes     counter  // rare conditions reached (this run)
	FiredAt    []string // human readable list of injected faults
	FaultCount int
	points     int64
)

// counter counts by name without a map: maps would show up in the race detector.
type counter struct {
	name [128]string
	n    [128]int
	used int
}

//go:norace
func (c *counter) add(name string) {
	for i := 0; i < c.used; i++ {
		if c.name[i] == name {
			c.n[i]++
			return
		}
	}
	if c.used < len(c.name) {
		c.name[c.used], c.n[c.used] = name, 1
		c.used++
	}
}

func (c *counter) all() map[string]int {
	m := map[string]int{}
	for i := 0; i < c.used; i++ {
		m[c.name[i]] = c.n[i]
	}
	return m
}

// Injected returns the faults really injected in this run, by kind.
func Injected() map[string]int { return injected.all() }

// Probes returns the rare conditions reached in this run.
func Probes() map[string]int { return probes.all() }

// FaultReset forgets everything about the previous run.
func FaultReset() {
	nplan = 0
	FaultCount = 0
	points = 0
	FiredAt = nil
	injected.used = 0
	probes.used = 0
}

// Disarm removes faults that have not fired.
func Disarm() { nplan = 0 }

// Arm schedules one fault at the (skip+1)-th matching fault point.
func Arm(op string, skip int, kinds ...string) {
	if nplan < maxArmed {
		plan[nplan] = armed{op: op, left: skip, kinds: kinds}
		nplan++
	}
}

// ArmFor schedules a fault that lasts: it fires at the (skip+1)-th matching fault point and at the next times-1.
func ArmFor(times int, op string, skip int, kinds ...string) {
	n := nplan
	Arm(op, skip, kinds...)
	if nplan > n {
		plan[n].more = times - 1
	}
}

// ArmCrash schedules a process kill at the (skip+1)-th matching fault point.
func ArmCrash(op string, skip int) {
	if nplan < maxArmed {
		plan[nplan] = armed{op: op, left: skip, crash: true}
		nplan++
	}
}

// ArmStall holds a process up for some time at the (skip+1)-th matching fault point.
// Being slow is not a fault: FaultCount does not change.
func ArmStall(op string, skip int, ns int64) {
	if nplan < maxArmed {
		plan[nplan] = armed{op: op, left: skip, stall: ns}
		nplan++
	}
}

// Unfired is the number of armed faults that have not fired.
func Unfired() int {
	n := 0
	for i := 0; i < nplan; i++ {
		if !plan[i].done {
			n++
		}
	}
	return n
}

// Points is the number of fault points passed in this run.
func Points() int64 { return points }

// Probe counts that a rare condition was reached.
//
//go:norace
func Probe(name string) { probes.add(name) }

// Note records an injected fault.
//
//go:norace
func Note(kind, where string) {
	injected.add(kind)
	FaultCount++
	if len(FiredAt) < 1000 {
		FiredAt = append(FiredAt, kind+" at "+where)
	}
}

// Tally counts an injected nuisance which is not worth a line in the trace.
//
//go:norace
func Tally(kind string) { injected.add(kind) }

// Fire is called at a fault point with the misbehaviours possible there.
// It returns "", one of kinds, or "crash".
//
//go:norace
func Fire(op, where string, kinds ...string) string {
	if !InTask() {
		return ""
	}
	points++
	for i := 0; i < nplan; i++ {
		a := &plan[i]
		if a.done || a.op != "" && a.op != op {
			continue
		}
		var can []string
		if !a.crash && a.stall == 0 {
			for _, k := range kinds {
				if a.kinds == nil || has(a.kinds, k) {
					can = append(can, k)
				}
			}
			if len(can) == 0 {
				continue
			}
		}
		if a.left > 0 {
			a.left--
			continue
		}
		if a.more > 0 {
			if a.more--; a.kinds == nil { // the trouble that lasts is one and the same
				k := can[Choose(len(can))]
				a.kinds = []string{k}
				can = a.kinds
			}
		} else {
			a.done = true
		}
		if a.stall > 0 {
			injected.add("stall")
			if len(FiredAt) < 1000 {
				FiredAt = append(FiredAt, "stall at "+op+" "+where)
			}
			Sleep(a.stall)
			continue
		}
		if a.crash {
			Note("crash", op+" "+where)
			return "crash"
		}
		k := can[Choose(len(can))]
		Note(k, op+" "+where)
		return k
	}
	return ""
}

//go:norace
func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
