package main

import (
	"fmt"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"

	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
)

// maxRequests is more than an attempt can need: checks and downloads, each once more after a damaged archive or dictionary.
const maxRequests = 8

var c26 = sim.Prop{
	ID: "C26", Quick: 20000, Thorough: 2_000_000,
	Rule: "a run brings a data directory into some state (attempts with faults and kills, damaged or missing files), then trouble sets in that does not end: every request or every read of an answer " +
		"fails in one way, every system call of one kind fails, the disk is full, the server has a new publication (good or malformed) for every request, or several of these; under it several update " +
		"attempts and single stages, forced or not, must each end within a step budget, after at most 8 requests; when the trouble is over one forced " +
		"update must succeed and one more must leave the directory alone; non-trivial: trouble really hit",
	Run: runC26, Real: loaderParts, Stub: loaderStubs,
	Want: []string{"server-trouble", "answer-trouble", "disk-trouble", "full-disk", "restless", "damaged-files", "command"},
}

func runC26(r *sim.R) {
	s := newSite(r)
	s.srv.publish(rt.OneIn(5))
	names := []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename}
	for n := rt.Weighted(3, 3, 1); n > 0; n-- { // some state to begin with
		if rt.OneIn(2) {
			armUpdate()
		}
		if rt.OneIn(3) {
			armKill()
		}
		_, killed := s.update(rt.OneIn(2))
		s.aftermath(killed)
		if rt.OneIn(3) {
			s.srv.publish(rt.OneIn(4))
		}
	}
	s.calm()
	if rt.OneIn(3) {
		r.Probe("damaged-files")
		for _, name := range names {
			d, ok := simos.HarnessGet(s.path(name))
			if !ok || !rt.OneIn(2) {
				continue
			}
			d = append([]byte(nil), d...)
			switch at := rt.Choose(len(d) + 1); {
			case rt.OneIn(4):
				simos.HarnessRemoveAll(s.path(name))
				continue
			case rt.OneIn(2) || at == len(d):
				d = d[:at]
			default:
				d[at] ^= 1 << uint(rt.Choose(8))
			}
			if name == opencorpora.LocalSourceFilename { // may unpack all the same: its stamp must stay true
				simos.HarnessSet(s.path(name), d)
				continue
			}
			simos.HarnessPut(s.path(name), d, rt.LocalNS()-int64(rt.Choose(3))*int64(time.Hour))
		}
	}
	before := rt.FaultCount
	for n := 1 + rt.Weighted(4, 1); n > 0; n-- { // trouble that does not end
		kind := func(kinds []string) []string { return kinds[rt.Choose(len(kinds)):][:1] }
		switch rt.Weighted(4, 4, 4, 1, 3) {
		case 0:
			r.Probe("server-trouble")
			rt.ArmFor(1_000_000, "http", rt.Choose(3), kind(httpKinds)...)
		case 1:
			r.Probe("answer-trouble")
			rt.ArmFor(1_000_000, "http-read", rt.Log(3), kind([]string{"http-reset", "http-cut", "http-corrupt"})...)
		case 2:
			r.Probe("disk-trouble")
			rt.ArmFor(1_000_000, []string{"write", "read", "rename", "create", "sync", "close", "stat", "open", "chtimes", "mkdir", "remove"}[rt.Choose(11)], rt.Log(3))
		case 3:
			r.Probe("full-disk")
			simos.Conf().Quota = 1 + rt.Log(9)
		case 4:
			r.Probe("restless")
			s.srv.restless = 1 + rt.Choose(3)
		}
	}
	for n := 1 + rt.Choose(4); n > 0; n-- {
		s.clock()
		requests := s.srv.requests
		what := "an update"
		switch rt.Weighted(6, 1, 1, 1) {
		case 0:
			err, _ := s.update(rt.OneIn(2))
			s.shape(err)
		default:
			p := s.process()
			var err error
			var f func(l *opencorpora.Loader)
			switch rt.Choose(3) {
			case 0:
				what, f = "a download", func(l *opencorpora.Loader) { _, err = l.DownloadUpdate() }
			case 1:
				what, f = "an unpack", func(l *opencorpora.Loader) { err = l.UnpackUpdate() }
			case 2:
				what, f = "a check", func(l *opencorpora.Loader) { _, err = l.IsUpdateRequired() }
			}
			r.Must(rt.Exec(attempt, rt.Client{Proc: p, Fn: func() { f(s.own()) }})[0], what)
			r.Log("%s -> %v", what, err)
		}
		asked := s.srv.requests - requests
		if asked > maxRequests {
			r.Fail("insists", "%s asked the server %d times; faults: %.300v", what, asked, fmt.Sprint(rt.FiredAt))
		}
	}
	if rt.FaultCount > before || s.srv.restless > 0 {
		r.NonTrivial()
	}
	s.srv.restless = 0
	s.calm()
	if s.srv.cur().what != "" {
		s.srv.publish(false)
	}
	s.clock()
	if err, _ := s.update(true); err != nil {
		r.Fail("no-convergence", "a forced update after the trouble failed: %v; disk: %v", err, simos.HarnessTree())
	}
	s.check("a forced update after the trouble succeeded", s.srv.cur())
	if rt.OneIn(4) {
		s.settled()
	}
}
