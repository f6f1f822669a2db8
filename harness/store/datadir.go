package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"

	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
)

var c16 = sim.Prop{
	ID: "C16", Quick: 400000, Thorough: 40_000_000,
	Rule: "1..4 simulated processes prepare data directories on the simulated disk at once, with disk faults, kills and power loss, over 1..3 rounds, " +
		"and resolve file paths while another process creates and removes the file; non-trivial: two processes interleaved or a fault or kill hit",
	Run: runC16, Real: []string{"pkg/common (MakeDomainDataPath, DomainDataPath, DomainFilePath)", "pkg/dag (ResolveFilePath)"},
	Stub: []string{"file system, processes, power (simulated)"},
	Want: []string{"crash", "power-loss", "mkdir-fault", "stat-fault", "existing-file-kept", "in-the-way", "appeared-meanwhile", "linked"},
}

func runC16(r *sim.R) {
	rt.SetPolicy(rt.Choose(5), 1000)
	if rt.OneIn(2) {
		prepare(r)
	} else {
		resolve(r)
	}
}

var domains = []string{"opencorpora", "d", "a/b", "other.domain", "x y"}

func prepare(r *sim.R) {
	nd := 1 + rt.Choose(2)
	doms := make([]string, nd)
	for i := range doms {
		doms[i] = domains[rt.Choose(len(domains))]
	}
	kept := map[string]string{}
	// something may be there already
	if rt.OneIn(2) {
		p := path.Join("/home/u/.data", doms[0])
		simos.HarnessMkdirAll(p)
		f := p + "/keep.dat"
		simos.HarnessPut(f, []byte("precious"), 0)
		kept[f] = "precious"
		simos.MakeDurable()
		r.Probe("existing-file-kept")
	}
	blocked := ""
	if rt.OneIn(12) { // a file where a directory should be
		blocked = doms[nd-1]
		p := path.Join("/home/u/.data", blocked)
		if !simos.HarnessIsDir(p) {
			simos.HarnessMkdirAll(path.Dir(p))
			simos.HarnessPut(p, []byte("file"), 0)
			kept[p] = "file"
			r.Probe("in-the-way")
		} else {
			blocked = ""
		}
	} else if rt.OneIn(8) { // a symbolic link where a directory should be
		p := path.Join("/home/u/.data", strings.Split(doms[0], "/")[0])
		if rt.OneIn(2) {
			p = "/home/u/.data"
		}
		if !simos.HarnessIsDir(p) {
			simos.HarnessMkdirAll("/mnt/store")
			simos.HarnessPut("/mnt/store/keep", []byte("kept"), 0)
			kept[p+"/keep"] = "kept"
			simos.HarnessSymlink([]string{"/mnt/store", "../../mnt/store", "../../../mnt/store"}[rt.Choose(3)], p)
			if !simos.HarnessIsDir(p) { // a link which leads nowhere else
				simos.HarnessRemoveAll(p)
				simos.HarnessSymlink("/mnt/store", p)
			}
			r.Probe("linked")
		}
	}
	rounds := 1 + rt.Choose(3)
	for round := 0; round < rounds; round++ {
		np := 1 + rt.Weighted(1, 3, 2, 1)
		errs := make([]error, np)
		names := make([]string, np)
		written := make([]string, np)
		werr := make([]error, np)
		var clients []rt.Client
		for k := 0; k < np; k++ {
			k := k
			names[k] = doms[rt.Choose(nd)]
			use := rt.OneIn(2)
			clients = append(clients, rt.Client{Proc: 1 + k, Fn: func() {
				errs[k] = common.MakeDomainDataPath(names[k])
				if errs[k] == nil && use {
					// usable at once under the reported path
					rt.Quiet(func() {
						fn := common.DomainFilePath(names[k], fmt.Sprintf("file%d-%d", round, k))
						werr[k] = simos.WriteFile(fn, []byte(fn), 0o644)
						if werr[k] == nil {
							written[k] = fn
						}
					})
				}
			}})
		}
		faults := rt.OneIn(2)
		if faults {
			for i := 1 + rt.Choose(2); i > 0; i-- {
				rt.Arm([]string{"mkdir", "stat", "getwd", ""}[rt.Choose(4)], rt.Choose(6))
			}
		}
		if rt.OneIn(4) {
			rt.ArmCrash("mkdir", rt.Choose(5))
			faults = true
		}
		before := rt.FaultCount
		outs := rt.Exec(rt.Budget{Steps: 200_000, Alloc: 1_000_000}, clients...)
		rt.Disarm()
		hit := rt.FaultCount > before
		if hit {
			r.NonTrivial()
			for k, v := range rt.Injected() {
				if strings.Contains(strings.Join(rt.FiredAt, " "), "mkdir") && v > 0 && k != "crash" {
					r.Probe("mkdir-fault")
					break
				}
			}
		}
		if rt.Switches() > int64(np) {
			r.NonTrivial()
		}
		for k, o := range outs {
			r.Log("round %d process %d: prepare %q -> %v %v (faults hit %v)", round, k, names[k], errs[k], o, hit)
			r.Shape("%q %v %v", names[k], errs[k] != nil, o.Stop)
			if o.Stop == rt.StopCrash {
				continue
			}
			r.Must(o, "MakeDomainDataPath")
			obstructed := blocked != "" && (names[k] == blocked || strings.HasPrefix(names[k], blocked+"/"))
			switch {
			case errs[k] == nil && obstructed:
				r.Fail("false-success", "preparing %q succeeded although a file is in the way", names[k])
			case errs[k] == nil:
				p := common.DomainDataPath(names[k])
				if !simos.HarnessIsDir(path.Join("/home/u", p)) {
					r.Fail("not-there", "preparing %q succeeded but %s is not a directory", names[k], p)
				}
				if werr[k] != nil {
					r.Fail("not-usable", "preparing %q succeeded but creating a file there failed: %v", names[k], werr[k])
				}
			case errs[k] != nil && !hit && !obstructed:
				r.Fail("false-failure", "preparing %q failed without any fault: %v", names[k], errs[k])
			}
			if written[k] != "" {
				kept[path.Join("/home/u", written[k])] = written[k]
			}
		}
		for f, c := range kept {
			got, ok := simos.HarnessGet(f)
			if !ok || string(got) != c {
				r.Fail("lost-file", "%s was there before and is now %q (exists %v)", f, got, ok)
			}
		}
		if rt.OneIn(4) {
			simos.PowerLoss()
			rt.Probe("power-loss-round")
			for f := range kept {
				if got, ok := simos.HarnessGet(f); !ok || string(got) != kept[f] {
					delete(kept, f) // was not durable, the disk may lose it
				}
			}
			if blocked != "" {
				if _, ok := simos.HarnessGet(path.Join("/home/u/.data", blocked)); !ok {
					blocked = ""
				}
			}
		}
	}
	// fault free again: it must work now
	for _, d := range doms {
		if blocked != "" && (d == blocked || strings.HasPrefix(d, blocked+"/")) {
			continue
		}
		var err error
		r.Must(rt.Call(rt.Budget{Steps: 200_000, Alloc: 1_000_000}, func() { err = common.MakeDomainDataPath(d) }), "MakeDomainDataPath")
		if err != nil {
			r.Fail("no-recovery", "preparing %q fails after the faults are over: %v", d, err)
		}
		if !simos.HarnessIsDir(path.Join("/home/u", common.DomainDataPath(d))) {
			r.Fail("not-there", "preparing %q succeeded but the directory is not there", d)
		}
	}
}

var fileNames = []string{"dict.idx", "dict", "a.b.c", ".hidden", "x.", "слово.dat", "with space.idn", "..idx", "UP.IDX"}
var dirNames = []string{"", "sub", "sub/deep", "../other", "./sub/../sub", "/abs/dir", "/abs", "dots.d"}

func resolve(r *sim.R) {
	dir := dirNames[rt.Choose(len(dirNames))]
	name := fileNames[rt.Choose(len(fileNames))]
	arg := name
	if dir != "" {
		arg = dir + "/" + name
		if rt.OneIn(6) {
			arg = dir + "//" + name
		}
	}
	abs := path.Clean(arg)
	if !path.IsAbs(abs) {
		abs = path.Join("/home/u", arg)
	}
	asDir := rt.OneIn(8)
	simos.HarnessMkdirAll(path.Dir(abs))
	exists := rt.OneIn(2)
	real := abs
	if rt.OneIn(6) { // a symbolic link to something that comes and goes
		r.Probe("linked")
		real = "/srv/real/thing"
		simos.HarnessMkdirAll("/srv/real")
		simos.HarnessSymlink(real, abs)
	}
	make1 := func() {
		if real != abs && asDir {
			simos.HarnessMkdirAll(real)
		} else if real != abs {
			simos.HarnessPut(real, []byte("x"), 0)
		} else if asDir {
			simos.HarnessMkdirAll(abs)
		} else {
			simos.HarnessPut(abs, []byte("x"), 0)
		}
	}
	if exists {
		make1()
	}
	toggles := rt.Choose(4)
	// existence over time: seen[0]/seen[1] since the call began
	var sawThere, sawAbsent bool
	calls := 1 + rt.Choose(3)
	fault := rt.OneIn(4)
	type res struct {
		d, f, e           string
		err               error
		there, absent     bool
		faulted, finished bool
	}
	results := make([]res, calls)
	cur := exists
	clients := []rt.Client{{Proc: 1, Fn: func() {
		for i := range results {
			sawThere, sawAbsent = cur, !cur
			before := rt.FaultCount
			x := &results[i]
			x.d, x.f, x.e, x.err = dag.ResolveFilePath(arg)
			x.there, x.absent = sawThere, sawAbsent
			x.faulted = rt.FaultCount > before
			x.finished = true
		}
	}}}
	if toggles > 0 {
		clients = append(clients, rt.Client{Proc: 2, Fn: func() {
			for i := 0; i < toggles; i++ {
				rt.Sleep(int64(rt.Choose(40)) * 1000)
				rt.Y(0)
				rt.Quiet(func() {
					if cur {
						simos.HarnessRemoveAll(real)
					} else {
						make1()
					}
				})
				cur = !cur
				sawThere = sawThere || cur
				sawAbsent = sawAbsent || !cur
			}
		}})
	}
	if fault {
		rt.Arm([]string{"stat", "getwd"}[rt.Choose(2)], rt.Choose(calls))
	}
	outs := rt.Exec(rt.Budget{Steps: 200_000, Alloc: 1_000_000}, clients...)
	rt.Disarm()
	for _, o := range outs {
		r.Must(o, "ResolveFilePath")
	}
	if rt.FaultCount > 0 {
		r.Probe("stat-fault")
		r.NonTrivial()
	}
	if rt.Switches() > 2 {
		r.NonTrivial()
	}
	for i, x := range results {
		r.Log("resolve %q #%d -> %q %q %q %v (there %v, absent %v, fault %v)", arg, i, x.d, x.f, x.e, x.err, x.there, x.absent, x.faulted)
		r.Shape("%q %v %v %v", arg, x.err != nil, x.there, x.absent)
		if x.there && x.absent {
			r.Probe("appeared-meanwhile")
		}
		if x.err == nil && !x.there {
			r.Fail("false-success", "resolving %q succeeded although %s did not exist at any moment of the call", arg, abs)
		}
		if x.err != nil && !x.absent && !x.faulted {
			r.Fail("false-failure", "resolving %q failed although %s existed all the time: %v", arg, abs, x.err)
		}
		if x.err == nil && x.faulted {
			// the only stat of the call failed: it cannot have confirmed anything, unless it retried
			r.Probe("fault-tolerated")
		}
		if x.err == nil {
			if x.d+x.f+x.e != abs {
				r.Fail("wrong-path", "resolving %q gives %q + %q + %q, which is not %s", arg, x.d, x.f, x.e, abs)
			}
			if !strings.HasSuffix(x.d, "/") || strings.Contains(x.f+x.e, "/") {
				r.Fail("wrong-path", "resolving %q splits %s into %q, %q, %q", arg, abs, x.d, x.f, x.e)
			}
			if x.e != "" && (x.e[0] != '.' || strings.Contains(x.e[1:], ".")) || x.e == "" && strings.Contains(x.f, ".") {
				r.Fail("wrong-ext", "resolving %q takes %q for the extension of %s", arg, x.e, abs)
			}
		}
	}
}
