package main

import (
	"path"
	"strings"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
)

var c24 = sim.Prop{
	ID: "C24", Quick: 60000, Thorough: 6_000_000,
	Rule: "a run makes 1..8 operations of one process - whole updates, single stages, loads and saves of intact and damaged files - with disk and network faults the seed places; after every one, " +
		"however it ended, no goroutine may run on for an hour, no file may be open, no answer of the server held and no file beyond the three of the dictionary left (unless removing it was made to fail), and a saved index must answer; " +
		"non-trivial: an operation failed",
	Run: runC24, Real: loaderParts, Stub: loaderStubs,
	Want: []string{"update", "stage", "load", "save", "failed-update", "failed-stage", "failed-load", "failed-save", "write-error", "disk-full", "sync-error", "rename-error", "create-error", "chtimes-error",
		"read-error", "http-cut", "http-status", "malformed", "damaged", "crash"},
}

// runC24 looks for what operations leave behind.
func runC24(r *sim.R) {
	s := newSite(r)
	s.srv.publish(rt.OneIn(8))
	loader := s.loader()
	known := map[string]bool{}
	for _, n := range []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename} {
		p := s.path(n)
		if !path.IsAbs(p) {
			p = path.Join("/home/u", p)
		}
		known[path.Clean(p)] = true
		known[path.Join(simos.Resolve(path.Dir(p)), n)] = true
	}
	for _, f := range files() { // symbolic links
		known[f] = true
	}
	var x *index.Index
	var m *model
	for n := 1 + rt.Choose(8); n > 0; n-- {
		s.clock()
		if rt.OneIn(4) {
			s.srv.publish(rt.OneIn(4))
		}
		if rt.OneIn(8) {
			simos.Conf().Quota = 1 + rt.Log(13)
		}
		if name := s.path([]string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename}[rt.Choose(3)]); rt.OneIn(6) {
			if d, ok := simos.HarnessGet(name); ok && len(d) > 0 {
				d = append([]byte(nil), d...)
				if rt.OneIn(2) {
					d = d[:rt.Choose(len(d))]
				} else {
					d[rt.Choose(len(d))] ^= byte(1 + rt.Choose(255))
				}
				simos.HarnessSet(name, d)
				r.Probe("damaged")
			}
		}
		for k := rt.Weighted(1, 5, 2); k > 0; k-- {
			armUpdate()
		}
		if rt.OneIn(12) {
			armKill()
		}
		for _, e := range files() {
			known[e] = true
		}
		fired := len(rt.FiredAt)
		var err error
		what, kind := "", ""
		var op func()
		switch rt.Weighted(3, 3, 2, 3) {
		case 0:
			force := rt.OneIn(2)
			kind, what = "update", "an update"
			op = func() { err = loader.Update(force) }
		case 1:
			kind = "stage"
			switch rt.Choose(5) {
			case 0:
				what, op = "the update check", func() { _, err = loader.IsUpdateRequired() }
			case 1:
				what, op = "a download", func() { _, err = loader.DownloadUpdate() }
			case 2:
				what, op = "unpacking", func() { err = loader.UnpackUpdate() }
			case 3:
				what, op = "compiling", func() {
					err = loader.ParseUpdate(s.path(opencorpora.LocalUnpackedFilename), s.path(opencorpora.LocalCompiledFilename))
				}
			case 4:
				what, op = "looking for files", func() { loader.IsDownloadExists(); loader.IsUnpackedExists() }
			}
		case 2:
			kind, what = "load", "loading"
			op = func() { _, err = loader.LoadIndex() }
		case 3:
			kind, what = "save", "saving"
			if x == nil || rt.OneIn(3) {
				var fill func()
				x, m, fill = genIndex(1+rt.Choose(4), 1+rt.Choose(5))
				r.Must(rt.Call(big, fill), "building an index")
			}
			to := s.path(opencorpora.LocalCompiledFilename)
			if rt.OneIn(8) {
				to = "/no/such/directory/file"
			}
			op = func() { err = loader.SaveIndex(x, to) }
		}
		r.Probe(kind)
		p := s.process()
		working := 0
		out := rt.Exec(attempt, rt.Client{Proc: p, Fn: func() {
			op()
			working = rt.Settle()
		}})[0]
		rt.Disarm()
		simos.Conf().FullDisk = simos.Conf().FullDisk && rt.OneIn(3)
		simos.Conf().Quota = 0
		if out.Stop == rt.StopCrash {
			s.lives = false
			simos.HarnessForget()
			s.srv.bodies = nil
			if kind == "save" {
				x = nil
			}
			r.NonTrivial()
			continue
		}
		r.Must(out, what)
		r.Log("%s -> %v; faults so far %v", what, err, rt.FiredAt)
		r.Shape("%s %v %d", what, err != nil, len(rt.FiredAt))
		if err != nil {
			r.Probe("failed-" + kind)
			r.NonTrivial()
		}
		if working > 0 {
			r.Fail("goroutine", "%s returned (%v) and an hour later %d goroutines it started were still there; faults %v", what, err, working, rt.FiredAt)
		}
		if open := simos.HarnessOpen(); len(open) > 0 {
			r.Fail("open-file", "%s returned (%v) and left open: %v; faults %v", what, err, open, rt.FiredAt)
		}
		if held := s.srv.held(); held > 0 {
			r.Fail("held-answer", "%s returned (%v) and left %d answers of the server neither read nor closed; faults %v", what, err, held, rt.FiredAt)
		}
		if !has(rt.FiredAt[fired:], []string{"remove-error", "no-permission"}) {
			for _, f := range files() {
				if !known[f] && !strings.HasPrefix(f, "/mnt/away/") {
					r.Fail("left-over", "%s returned (%v) and left the file %s behind; faults %v", what, err, f, rt.FiredAt)
				}
			}
		}
		if kind == "save" {
			var d string
			r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the index just saved")
			if d != "" {
				r.Fail("changed", "after saving (%v) the index answers differently: %s", err, d)
			}
		}
	}
}

// files lists all files on the simulated disk.
func files() (names []string) {
	for _, e := range simos.HarnessTree() {
		if !strings.HasSuffix(e, "/") {
			names = append(names, strings.SplitN(e, " ", 2)[0])
		}
	}
	return names
}
