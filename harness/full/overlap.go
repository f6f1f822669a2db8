package main

import (
	"bytes"
	"errors"
	"time"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
)

var c23 = sim.Prop{
	ID: "C23", Quick: 30000, Thorough: 3_000_000,
	Rule: "a run lets two to four processes - updates, forced or not, and saves of an index - work on one data directory at once, in one to three rounds, with new and malformed publications, network and " +
		"disk faults, kills and power losses the seed places; after every change the compiled file must be one complete published or saved dictionary, readers must load such a one, in a round without any " +
		"fault nobody may fail, and when all have ended one unforced update must leave the current publication compiled; non-trivial: two writers really overlapped",
	Run: runC23, Real: loaderParts, Stub: loaderStubs,
	Want: []string{"overlap", "three-writers", "saver", "reader", "no-faults", "crash", "power-loss", "write-error", "disk-full", "rename-error", "http-cut", "published-during-download", "published-meanwhile",
		"malformed", "first-update", "leftover", "stall", "one-process"},
}

// runC23 overlaps updates and saves of one data directory.
func runC23(r *sim.R) {
	s := newSite(r)
	s.srv.publish(false)
	if rt.OneIn(3) {
		r.Probe("first-update")
	} else if err, _ := s.update(true); err != nil {
		r.Fail("failed", "the first update failed although nothing went wrong: %v; dictionary: %s", err, short(s.srv.cur().xml))
	}
	simos.MakeDurable()
	target := s.path(opencorpora.LocalCompiledFilename)
	var saved []*model
	all := func() []*model { return append(s.models(), saved...) }
	last := simos.HarnessVersion(target)
	_, present := simos.HarnessGet(target)
	look := func() {
		v := simos.HarnessVersion(target)
		if v == last {
			return
		}
		last = v
		data, ok := simos.HarnessGet(target)
		if !ok {
			if present {
				r.Fail("vanished", "the compiled index disappeared; disk: %v", simos.HarnessTree())
			}
			return
		}
		present = true
		if is, why := generations(data, all()); len(is) == 0 {
			r.Fail("broken", "with several writers at work the compiled file is not one complete dictionary: %s", why)
		}
	}
	for round := 1 + rt.Weighted(3, 2, 1); round > 0 && !r.Failed(); round-- {
		s.clock()
		if rt.OneIn(2) {
			s.srv.publish(rt.OneIn(6))
		}
		simos.HarnessMkdirAll(s.path("")) // a saver needs it
		armed := !rt.OneIn(3)
		if armed {
			if rt.OneIn(5) {
				s.srv.midway = 1 + rt.Choose(4)
			}
			if rt.OneIn(10) {
				simos.Conf().Quota = 1 + rt.Log(13)
			}
			for k := rt.Weighted(2, 4, 1); k > 0; k-- {
				armUpdate()
			}
			if rt.OneIn(3) {
				armKill()
			}
		}
		n := 2 + rt.Weighted(5, 2, 1)
		if n > 2 {
			rt.Probe("three-writers")
		}
		var cs []rt.Client
		errs := make([]error, n)
		force := make([]bool, n)
		working, most := 0, 0
		for i := 0; i < n; i++ {
			i := i
			l := s.loader()
			if i > 0 && rt.OneIn(4) { // another goroutine of the process before, with a loader of its own
				rt.Probe("one-process")
			} else {
				s.proc++
				rt.StartProc(s.proc % 200)
			}
			p := s.proc % 200
			errs[i] = errors.New("did not return")
			var delay int64
			if rt.OneIn(2) {
				delay = s.srv.latency * int64(rt.Log(6)) / 2
			}
			if rt.OneIn(4) {
				delay = int64(rt.Log(24))
			}
			fn := func() { errs[i] = l.Update(force[i]) }
			if rt.OneIn(5) {
				rt.Probe("saver")
				x, m, fill := genIndex(1+rt.Choose(4), 1+rt.Choose(4))
				r.Must(rt.Call(big, fill), "building an index")
				saved = append(saved, m)
				fn = func() { errs[i] = l.SaveIndex(x, target) }
			} else {
				force[i] = rt.OneIn(2)
			}
			cs = append(cs, rt.Client{Proc: p, Fn: func() {
				if delay > 0 {
					rt.Sleep(delay)
				}
				if working++; working > most {
					most = working
				}
				fn()
				working--
			}})
		}
		if rt.OneIn(4) {
			loads := 1 + rt.Choose(4)
			gap := s.srv.latency * int64(1+rt.Choose(6))
			cs = append(cs, rt.Client{Proc: 250, Fn: func() {
				rt.Probe("reader")
				l := s.loader()
				for ; loads > 0 && !r.Failed(); loads-- {
					there := present
					before := rt.FaultCount
					x, err := l.LoadIndex()
					if err != nil {
						if there && rt.FaultCount == before {
							r.Fail("load", "loading the index while others were writing it failed: %v", err)
						}
						continue
					}
					s.known(x, all)
					rt.Sleep(gap)
				}
			}})
		}
		if rt.OneIn(4) {
			at := s.srv.latency * int64(rt.Log(8)) / 4
			cs = append(cs, rt.Client{Proc: 251, Fn: func() {
				rt.Sleep(at)
				rt.Quiet(func() { s.srv.publish(armed && rt.OneIn(4)) })
				rt.Probe("published-meanwhile")
			}})
		}
		for k := rt.Weighted(2, 2, 1); k > 0; k-- { // a process held up at one point
			op := []string{"", "rename", "stat", "open", "create", "write", "read", "sync", "close"}[rt.Weighted(5, 3, 2, 2, 1, 1, 1, 1, 1)]
			skip := rt.Choose(6)
			if op == "" || op == "write" || op == "read" {
				skip = rt.Log(9)
			}
			rt.ArmStall(op, skip, s.srv.latency*int64(1+rt.Log(5)))
		}
		faults := rt.FaultCount
		simos.Conf().OnChange = func() {
			if rt.InTask() {
				rt.Quiet(look)
			}
		}
		outs := rt.Exec(rt.Budget{Steps: 300_000_000, Alloc: 500_000_000}, cs...)
		simos.Conf().OnChange = nil
		if r.Failed() {
			r.Stop()
		}
		killed := false
		for i, o := range outs {
			if o.Stop == rt.StopCrash {
				killed = true
				continue
			}
			r.Must(o, "one of several processes using the data directory")
			if i < n {
				r.Log("process #%d (forced: %v) -> %v", i, force[i], errs[i])
			}
		}
		r.Log("round over at %s: %d writers, %d at once, killed %v, current publication %v, faults %v", time.Duration(rt.Now()), n, most, killed, s.srv.cur(), rt.FiredAt)
		if most > 1 {
			rt.Probe("overlap")
			r.NonTrivial()
		}
		good := true
		for _, p := range s.srv.pubs {
			good = good && p.what == ""
		}
		if rt.FaultCount == faults && !killed && good && simos.Conf().Quota == 0 && !simos.Conf().FullDisk && s.srv.trouble == 0 {
			rt.Probe("no-faults")
			for i, err := range errs {
				if err != nil {
					r.Fail("disturbed", "process #%d (forced: %v) failed although nothing went wrong but others working at the same time: %v", i, force[i], err)
				}
			}
		}
		if s.aftermath(killed) {
			_, present = simos.HarnessGet(target)
		}
		simos.Conf().Quota = 0
		r.Must(rt.Call(big, look), "examining the compiled index")
		if rt.OneIn(2) {
			simos.MakeDurable()
		}
		s.shape(errs[0])
	}
	s.clock()
	s.calm()
	cur := s.srv.cur()
	stored, _ := simos.HarnessGet(s.path(opencorpora.LocalSourceFilename))
	intact := len(stored) == 0
	for _, p := range s.srv.pubs {
		intact = intact || bytes.Equal(stored, p.body)
	}
	err, _ := s.update(false)
	switch {
	case err == nil:
		s.uptodate("an unforced update when all others had ended", len(s.srv.pubs)-1)
		s.check("an unforced update when all others had ended succeeded", cur)
	case cur.what == "" && intact:
		r.Fail("failed", "an unforced update without faults, when all others had ended, failed: %v; publications %v; disk: %v", err, s.srv.pubs, simos.HarnessTree())
	}
	s.shape(err)
}

// known checks that a loaded index is one complete dictionary.
func (s *site) known(x *index.Index, ms func() []*model) {
	why, ok := "", false
	rt.Quiet(func() {
		for _, m := range ms() {
			if m == nil {
				continue
			}
			d := differs(x, m)
			ok = ok || d == ""
			why += d + "; "
		}
	})
	if !ok {
		s.r.Fail("loaded-mixture", "an index loaded while others were writing it is not one complete dictionary: %s", why)
	}
}
