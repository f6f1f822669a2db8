package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"

	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var c10 = sim.Prop{
	ID: "C10", Quick: 60000, Thorough: 4_000_000,
	Rule: "a run builds a random index (in some runs at or past the format's limits) and saves it to a stream that fails or accepts part of the data at a byte the seed " +
		"picks, or through the loader onto a disk with injected create/write/sync/close/rename failures, quotas and full disks; then saves it again without faults; " +
		"non-trivial: a fault really hit the save, or the index is at the limits",
	Run: runC10, Real: append([]string{"pkg/opencorpora (Loader.SaveIndex, LoadIndex)"}, indexParts...), Stub: []string{"streams, file system (simulated), amarin/logging (silent)"},
	Want: []string{"stream-write-error", "stream-short-write", "write-error", "short-write", "disk-full", "close-error", "close-lost-data", "sync-error", "rename-error", "create-error", "quota-full",
		"over-limit", "at-limit", "refused", "saved-again", "large-index"},
}

var c11 = sim.Prop{
	ID: "C11", Quick: 60000, Thorough: 5_000_000,
	Rule: "a run saves one or two new indexes over a previous one (or none) while a second process loads the file repeatedly; disk faults, a process kill or a power loss " +
		"(unsynced data lost, torn or reordered, a suffix of the directory changes lost) hit at points the seed picks; the file is classified after every visible change, " +
		"after restart, and after a later clean save; non-trivial: a fault, kill or power loss hit the save, or the loader read while a save was running",
	Run: runC11, Real: append([]string{"pkg/opencorpora (Loader.SaveIndex, LoadIndex)"}, indexParts...), Stub: []string{"file system, processes, scheduler (simulated), amarin/logging (silent)"},
	Want: []string{"crash", "power-loss", "lost-data", "torn-data", "write-error", "disk-full", "sync-error", "close-error", "rename-error", "create-error", "loaded-during-save", "no-previous", "two-saves", "large-index", "killed-again-and-again", "linked-directory"},
}

// genLimits makes an index at or past what the format can hold.
func genLimits(r *sim.R) (*index.Index, *model, func()) {
	x, m := index.New(), newModel()
	kind, n := rt.Choose(3), 254+rt.Choose(3)
	if n > 255 {
		r.Probe("over-limit")
	} else {
		r.Probe("at-limit")
	}
	r.Log("limit %d reached with %d", kind, n)
	name := func(i int) dag.TagName { return dag.TagName(fmt.Sprintf("%04d", i)) }
	var sets [][]dag.TagName
	tags := 5
	switch kind {
	case 0: // tags
		tags = n
		sets = [][]dag.TagName{{name(0)}, {name(n - 1), name(1)}}
	case 1: // tags of one analysis
		var s []dag.TagName
		for i := 0; i < n; i++ {
			s = append(s, name(i%tags))
		}
		sets = [][]dag.TagName{s, {name(1)}}
	case 2: // analyses of one word
		tags = 40
		for i := 0; i < n; i++ {
			sets = append(sets, []dag.TagName{name(i % tags), name((i / tags) % tags), name(i % tags)})
		}
	}
	for i := 0; i < tags; i++ {
		m.tag(name(i), "")
	}
	k := key([]rune("много"))
	m.add(k)
	for _, s := range sets {
		m.attach(k, s)
	}
	return x, m, func() {
		for i := 0; i < tags; i++ {
			x.TagID(name(i), "")
		}
		nd, err := x.AddRunes([]rune("много"))
		if err != nil {
			panic(err)
		}
		for _, s := range sets {
			if err := nd.AddTagSet(s...); err != nil {
				panic(err)
			}
		}
	}
}

var saveOps = []string{"create", "write", "sync", "close", "rename", "chtimes", "remove", "mkdir", "stat", "chmod", "truncate"}

// saveFaults are failures that mean the data did not reach the file.
var saveFaults = []string{"create-error", "write-error", "short-write", "disk-full", "quota-full", "sync-error", "close-error", "close-lost-data", "rename-error"}

// armSave schedules one fault of a save.
func armSave() {
	op := []string{"write", "sync", "close", "rename", "create", ""}[rt.Weighted(4, 2, 2, 2, 1, 1)]
	skip := 0
	if op == "write" || op == "" {
		skip = rt.Choose(300)
		if rt.OneIn(2) {
			skip = rt.Log(8)
		}
	} else if rt.OneIn(4) {
		skip = 1
	}
	rt.Arm(op, skip, saveKinds...)
}

var saveKinds = []string{"create-error", "write-error", "short-write", "disk-full", "sync-error", "close-error", "close-lost-data", "rename-error", "no-permission", "too-many-files", "remove-error",
	"mkdir-error", "chtimes-error", "chmod-error", "truncate-error"}

func runC10(r *sim.R) {
	logs(r)
	rt.SetPolicy(0, 10)
	var x *index.Index
	var m *model
	var fill func()
	limits := rt.OneIn(60)
	if limits {
		x, m, fill = genLimits(r)
		r.NonTrivial()
	} else {
		x, m, fill = genIndex(1+rt.Choose(6), rt.Choose(7))
	}
	r.Must(rt.Call(big, fill), "building the index")
	var err error
	var data []byte
	file := rt.OneIn(2)
	target := ""
	loader := newLoader("")
	if file {
		simos.HarnessMkdirAll(dataDir(""))
		target = path.Join(dataDir(""), opencorpora.LocalCompiledFilename)
		faulty := !limits || rt.OneIn(3)
		if faulty {
			for n := 1 + rt.Weighted(4, 1); n > 0; n-- {
				if rt.OneIn(12) {
					simos.Conf().Quota = rt.Choose(400)
				} else {
					armSave()
				}
			}
		}
		out := rt.Call(big, func() { err = loader.SaveIndex(x, target) })
		rt.Disarm()
		simos.Conf().Quota, simos.Conf().FullDisk = 0, false
		r.Must(out, "saving to a file")
		hit := ""
		for k := range rt.Injected() {
			for _, f := range saveFaults {
				if k == f {
					hit += " " + k
				}
			}
		}
		if hit != "" {
			r.NonTrivial()
			if err == nil {
				r.Fail("save-silent", "saving reported success although the disk failed: %s", strings.Join(rt.FiredAt, "; "))
			}
		}
		if err != nil && rt.FaultCount == 0 && !limits {
			r.Fail("save-failed", "saving to a healthy disk failed: %v", err)
		}
		if err == nil {
			var ok bool
			if data, ok = simos.HarnessGet(target); !ok {
				r.Fail("save-silent", "saving reported success but there is no file at %s; disk: %v", target, simos.HarnessTree())
			}
		}
	} else {
		w := stream.NewWriter()
		var size int
		r.Must(rt.Call(big, func() {
			d, _ := save(x)
			size = len(d)
		}), "measuring")
		if !limits || rt.OneIn(3) {
			w.FailAt, w.Silent, w.Sticky = rt.Choose(size+1), rt.OneIn(2), !rt.OneIn(3)
		}
		r.Must(rt.Call(big, func() { err = x.BinaryWriteTo(binutils.NewBinaryWriter(w)) }), "saving to a stream")
		if w.Failed {
			r.NonTrivial()
			if err == nil {
				r.Fail("save-silent", "saving reported success although the stream failed at byte %d of %d (silently short: %v)", w.FailAt, size, w.Silent)
			}
		} else if err != nil && !limits {
			r.Fail("save-failed", "saving to a healthy stream failed: %v", err)
		}
		data = w.Data
	}
	r.Log("saved (file: %v) %d tags %d nodes %d words -> %d bytes, %v; faults %v", file, len(m.tags), len(m.nodes), len(m.forms), len(data), err, rt.FiredAt)
	if err != nil {
		r.Probe("refused")
	}
	r.Shape("%d %d %d %d %v %v %v", len(m.tags), len(m.nodes), len(m.forms), len(data), err != nil, limits, rt.FiredAt)
	var d string
	check := func(what string, data []byte) {
		y := index.New()
		var lerr error
		r.Must(rt.Call(big, func() { lerr = loadInto(y, &plain{data}) }), "loading")
		if lerr != nil {
			r.Fail("unloadable", "%s reported success but what it wrote does not load: %v", what, lerr)
		}
		r.Must(rt.Call(big, func() { d = differs(y, m) }), "asking the loaded index")
		if d != "" {
			r.Fail("different", "%s reported success but what it wrote loads with other answers: %s", what, d)
		}
	}
	if err == nil {
		check("the save", append([]byte(nil), data...))
	}
	r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the index after the save")
	if d != "" {
		r.Fail("index-changed", "after the save (%v) the index answers differently: %s", err, d)
	}
	// once more without faults
	if file {
		r.Must(rt.Call(big, func() { err = loader.SaveIndex(x, target) }), "saving again")
		if err == nil {
			data, _ = simos.HarnessGet(target)
		}
	} else {
		r.Must(rt.Call(big, func() { data, err = save(x) }), "saving again")
	}
	if err != nil && !limits {
		r.Fail("save-failed", "after a failed save, saving without faults failed: %v", err)
	}
	if err == nil {
		r.Probe("saved-again")
		check("the later save", append([]byte(nil), data...))
	}
	r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the index")
	if d != "" {
		r.Fail("index-changed", "after saving again the index answers differently: %s", d)
	}
}

// generations tells which of the given models a stored index holds.
func generations(data []byte, ms []*model) (is []int, why string) {
	y := index.New()
	if err := loadInto(y, &plain{append([]byte(nil), data...)}); err != nil {
		return nil, fmt.Sprintf("%d bytes which do not load: %v", len(data), err)
	}
	for i, m := range ms {
		if m == nil {
			continue
		}
		if d := differs(y, m); d == "" {
			is = append(is, i)
		} else {
			why += fmt.Sprintf("not #%d: %s; ", i, d)
		}
	}
	return is, why
}

func runC11(r *sim.R) {
	logs(r)
	rt.SetPolicy(rt.Choose(5), 10)
	dir := []string{"", "d", "/srv/data"}[rt.Choose(3)]
	loader := newLoader(dir)
	makeData(r, dir)
	target := path.Join(dataDir(dir), opencorpora.LocalCompiledFilename)
	saves := 1 + rt.Weighted(3, 1)
	if saves > 1 {
		r.Probe("two-saves")
	}
	var xs []*index.Index
	ms := []*model{nil}
	prev := !rt.OneIn(5)
	if prev {
		x, m, fill := genIndex(1+rt.Choose(4), 1+rt.Choose(4))
		var err error
		r.Must(rt.Call(big, func() { fill(); err = loader.SaveIndex(x, target) }), "saving the first index")
		if err != nil {
			r.Fail("save-failed", "saving without faults failed: %v", err)
		}
		simos.MakeDurable()
		ms[0] = m
	} else {
		r.Probe("no-previous")
	}
	if rt.OneIn(12) { // earlier saves were killed, one after the other
		r.Probe("killed-again-and-again")
		x, _, fill := genIndex(1+rt.Choose(4), 1+rt.Choose(4))
		r.Must(rt.Call(big, fill), "building")
		op, skip := []string{"write", "sync", "close"}[rt.Weighted(4, 1, 1)], 0
		if op == "write" {
			skip = rt.Log(6)
		}
		before, _ := simos.HarnessGet(target)
		for n := 2 + rt.Choose(8); n > 0; n-- {
			rt.ArmCrash(op, skip)
			out := rt.Exec(big, rt.Client{Proc: 3 + n, Fn: func() { loader.SaveIndex(x, target) }})[0]
			rt.Disarm()
			if out.Stop != rt.StopCrash {
				r.Must(out, "a save to be killed")
			}
		}
		simos.MakeDurable()
		if prev { // one that was not killed counts for nothing here
			simos.HarnessPut(target, append([]byte(nil), before...), rt.LocalNS())
		} else if _, ok := simos.HarnessGet(target); ok {
			simos.HarnessRemoveAll(target)
		}
		simos.MakeDurable()
	}
	for i := 0; i < saves; i++ {
		x, m, fill := genIndex(1+rt.Choose(4), 1+rt.Choose(5))
		r.Must(rt.Call(big, fill), "building")
		xs, ms = append(xs, x), append(ms, m)
	}
	// state: is the file there, and which generation is it; checked after every change
	last := int64(-2)
	state := -1 // index into ms; -1 missing or not yet known
	seen := ""
	look := func() {
		v := simos.HarnessVersion(target)
		if v == last {
			return
		}
		last = v
		data, ok := simos.HarnessGet(target)
		if !ok {
			state, seen = -1, "no file"
			if prev {
				r.Fail("vanished", "the compiled index disappears during the save; disk: %v", simos.HarnessTree())
			}
			return
		}
		is, why := generations(data, ms)
		if len(is) == 0 {
			r.Fail("neither", "during the save the file at %s is neither the complete previous index nor the complete new one: %s", target, why)
			return
		}
		state, seen = is[len(is)-1], fmt.Sprint("generations ", is)
	}
	rt.Call(big, func() { rt.Quiet(look) })
	simos.Conf().OnChange = func() {
		if rt.InTask() {
			rt.Quiet(look)
		}
	}
	done := make([]error, saves)
	finished := 0
	running := false
	loads := 0
	clients := []rt.Client{{Proc: 1, Fn: func() {
		for i := range xs {
			running = true
			done[i] = loader.SaveIndex(xs[i], target)
			running = false
			finished++
		}
	}}}
	withLoader := rt.OneIn(2)
	if withLoader {
		n := 1 + rt.Choose(3)
		clients = append(clients, rt.Client{Proc: 2, Fn: func() {
			l := newLoader(dir)
			for i := 0; i < n && !r.Failed(); i++ {
				during := running
				before := rt.FaultCount
				x, err := l.LoadIndex()
				if during || running {
					rt.Probe("loaded-during-save")
					r.NonTrivial()
				}
				if err != nil {
					if prev && rt.FaultCount == before {
						r.Fail("load-during-save", "loading while a save was running failed: %v", err)
					}
					continue
				}
				loads++
				ok := false
				why := ""
				rt.Quiet(func() {
					for _, m := range ms {
						if m == nil {
							continue
						}
						if d := differs(x, m); d == "" {
							ok = true
						} else {
							why = d
						}
					}
				})
				if !ok {
					r.Fail("loaded-mixture", "an index loaded while a save was running is neither the previous nor the new one: %s", why)
				}
			}
		}})
	}
	kill := rt.Choose(3)
	switch kill {
	case 1, 2:
		op := []string{"write", "sync", "close", "rename", "create", "remove", ""}[rt.Weighted(3, 2, 2, 3, 1, 1, 3)]
		skip := rt.Log(9)
		if op != "write" && op != "" {
			skip = rt.Choose(2)
		}
		rt.ArmCrash(op, skip)
	}
	if kill != 1 || rt.OneIn(4) {
		for n := rt.Weighted(1, 4, 1); n > 0; n-- {
			armSave()
		}
	}
	outs := rt.Exec(rt.Budget{Steps: 20_000_000, Alloc: 20_000_000}, clients...)
	rt.Disarm()
	simos.Conf().FullDisk = false
	simos.Conf().OnChange = nil
	if rt.FaultCount > 0 {
		r.NonTrivial()
	}
	killed := outs[0].Stop == rt.StopCrash
	if !killed {
		r.Must(outs[0], "the saving process")
	}
	for _, o := range outs[1:] {
		if o.Stop != rt.StopCrash {
			r.Must(o, "the loading process")
		}
	}
	r.Log("saves %d of %d finished %v, killed %v, loads %d, file: %s, faults %v", finished, saves, done, killed, loads, seen, rt.FiredAt)
	if r.Failed() {
		r.Stop()
	}
	lossy := false
	if kill == 2 || rt.OneIn(6) {
		lossy = true
		simos.PowerLoss()
		r.NonTrivial()
	}
	last = -2
	r.Must(rt.Call(big, look), "examining the file")
	r.Shape("%d %v %d %v", state, killed, finished, lossy)
	if prev && state < 0 {
		r.Fail("vanished", "after the save (killed: %v, power loss: %v) there is no compiled index any more; disk: %v", killed, lossy, simos.HarnessTree())
	}
	if !lossy {
		// the last save that returned success is in place unless a later one was begun
		for i := finished - 1; i >= 0; i-- {
			if done[i] == nil {
				if data, ok := simos.HarnessGet(target); !ok || !holds(r, data, ms[i+1:]) {
					r.Fail("not-in-place", "save %d reported success but the file holds %s", i+1, seen)
				}
				break
			}
		}
	}
	// leftovers do not hinder a later save
	x, m, fill := genIndex(2, 2)
	var err error
	r.Must(rt.Call(big, func() { fill(); err = loader.SaveIndex(x, target) }), "a later save")
	if err != nil {
		r.Fail("save-failed", "after a faulty save, saving without faults failed: %v", err)
	}
	data, _ := simos.HarnessGet(target)
	if !holds(r, data, []*model{m}) {
		r.Fail("not-in-place", "after a faulty save, a clean save reported success but the file does not hold the new index")
	}
	var y *index.Index
	r.Must(rt.Call(big, func() { y, err = loader.LoadIndex() }), "loading")
	if err != nil || y == nil {
		r.Fail("load-failed", "loading after a clean save failed: %v", err)
	}
}

func holds(r *sim.R, data []byte, ms []*model) (ok bool) {
	r.Must(rt.Call(big, func() {
		is, _ := generations(data, ms)
		ok = len(is) > 0
	}), "examining the file")
	return ok
}
