package main

import (
	"bytes"
	"compress/bzip2"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"path"
	"reflect"
	"strings"
	"time"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"

	"verif.local/simrt/flag"
	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
)

var loaderParts = append([]string{"pkg/opencorpora (Loader, Parser)", "pkg/common", "net/http client, compress/bzip2, encoding/xml"}, indexParts...)
var loaderStubs = []string{"http.RoundTripper (simulated server and network)", "file system, processes, clocks (simulated)", "amarin/libxml (token loop over encoding/xml)", "amarin/logging (silent, or formats everything)"}

var c12 = sim.Prop{
	ID: "C12", Quick: 40000, Thorough: 4_000_000,
	Rule: "a run makes 1..4 update attempts (forced or not, each in a new process or in the one before it) hit by network faults, disk faults, kills and power losses the seed places (in some runs up to ten attempts before them are killed at one place), with new and " +
		"malformed publications before and during downloads, clock jumps and leftovers of older versions, in one of several data directories; then one forced update without " +
		"faults must succeed and the compiled index must answer exactly like the current publication; non-trivial: a fault, kill, power loss or publication happened",
	Run: runC12, Real: loaderParts, Stub: loaderStubs,
	Want: []string{"crash", "power-loss", "http-refused", "http-timeout", "http-status", "http-reset", "http-cut", "http-corrupt", "http-bad-stamp", "write-error", "disk-full", "rename-error",
		"published-during-download", "malformed", "leftover", "cut-between-streams", "lost-data", "no-directory", "clock-ahead", "clock-behind", "huge", "killed-again-and-again", "same-process", "other-date", "twin", "linked-directory"},
}

var c13 = sim.Prop{
	ID: "C13", Quick: 60000, Thorough: 5_000_000,
	Rule: "a run makes one update (after none, a complete or a faulty earlier one) of a generated dictionary - in a third of the runs malformed in one of two dozen ways - with network and disk " +
		"faults the seed places; if it reports success and had something to fetch or was forced, the compiled index must hold exactly one complete published dictionary; if it reports " +
		"an error, the compiled index must be the previous one or a complete published one; non-trivial: a fault was injected, the dictionary was malformed, or it was compiled and compared",
	Run: runC13, Real: loaderParts, Stub: loaderStubs,
	Want: append([]string{"huge", "many-lemmas", "compiled", "refused", "stages", "cut-between-streams", "malformed-refused", "unforced", "crash", "http-cut", "http-corrupt", "http-status", "short-read", "read-error", "write-error", "close-lost-data"}, malformations[1:]...),
}

var c14 = sim.Prop{
	ID: "C14", Quick: 120000, Thorough: 10_000_000,
	Rule: "a run is a sequence of 3..9 events - publications, clock jumps, hours passing, downloads, unforced updates and update checks with or without faults, restarts, power losses - " +
		"on one data directory; which version the stored archive holds is decided by its bytes, and every check and download is compared with the stamps of that and the current version; " +
		"non-trivial: a check was compared after a download with a clock error, a fault or a publication in between",
	Run: runC14, Real: []string{"pkg/opencorpora (Loader.IsUpdateRequired, DownloadUpdate, Update)", "net/http client"}, Stub: loaderStubs,
	Want: []string{"clock-ahead", "clock-behind", "published-during-download", "check-failed", "required", "up-to-date", "power-loss", "crash", "http-stall", "http-bad-stamp", "http-no-stamp", "http-portal", "stat-error"},
}

var c15 = sim.Prop{
	ID: "C15", Quick: 40000, Thorough: 4_000_000,
	Rule: "starting from a compiled dictionary that loads, a run makes 1..4 update attempts with network faults, disk faults, kills, power losses and malformed publications while a second " +
		"process loads the index again and again; after every visible change of the compiled file, after every restart and in every load it must hold a complete published dictionary, " +
		"never an older one than before; non-trivial: a fault, kill, power loss or malformed publication happened, or the reader overlapped an attempt",
	Run: runC15, Real: loaderParts, Stub: loaderStubs,
	Want: []string{"crash", "power-loss", "http-cut", "http-corrupt", "http-status", "write-error", "disk-full", "malformed", "replaced", "loaded-during-update", "published-during-download"},
}

var c21 = sim.Prop{
	ID: "C21", Quick: 40000, Thorough: 4_000_000,
	Rule: "a run makes 1..4 update attempts - unforced mostly, by library calls and by the update command - hit by network and disk faults, kills and power losses the seed places, with new and " +
		"malformed publications before and during them; every unforced one that reports success must leave the compiled index at a publication current during the attempt; then an unforced update without " +
		"faults must compile the current publication, or report an error if that is malformed or the stored archive is damaged; non-trivial: a fault, kill, power loss or publication happened",
	Run: runC21, Real: append([]string{"cmd/opencorpora_update"}, loaderParts...), Stub: loaderStubs,
	Want: []string{"command", "crash", "power-loss", "http-refused", "http-status", "http-cut", "http-corrupt", "http-bad-stamp", "http-no-stamp", "http-portal", "write-error", "disk-full", "rename-error", "stat-error",
		"published-during-download", "malformed", "resumed", "refused", "settled"},
}

var c17 = sim.Prop{
	ID: "C17", Quick: 40000, Thorough: 4_000_000,
	Rule: "a run compiles one generated dictionary two to four times - by ParseUpdate or by a complete update, in other directories, processes, wall clocks and speeds, under other map iteration " +
		"orders, with short reads, over leftovers of a killed or failed compile - and optimizes and saves the result again; all compiled files must be byte-identical; " +
		"non-trivial: the environments really differed",
	Run: runC17, Real: loaderParts, Stub: loaderStubs,
	Want: []string{"killed-before", "leftover", "short-read", "slow", "clock", "saved-again", "full-update", "existing-compiled"},
}

// site is one machine with its data directory and the server it talks to.
type site struct {
	r    *sim.R
	dir  string
	srv  *remote
	proc int

	lives bool // the process of the last attempt still runs
	still bool // nothing changes but what updates do
	kept  *opencorpora.Loader
	where string // its directory
}

func newSite(r *sim.R) *site {
	rt.SetPolicy(rt.Weighted(3, 1, 1), []int64{10, 1000, 50_000, 2_000_000}[rt.Weighted(4, 2, 1, 1)])
	logs(r)
	budgets(1)
	if rt.OneIn(6) { // other times: about the ends of years, leap days, the ends of 32 bit counters
		r.Probe("other-date")
		at := []int64{1<<31 - 1, 1<<32 - 1, 1735689600, 4102444800, 1709164800, 951782400, 5_000_000_000, 86400 * 365}[rt.Choose(8)]
		rt.SetEpoch(at - int64(rt.Log(20)) + 1000)
	}
	s := &site{r: r, dir: []string{"", "/srv/data", "d", "/var/lib/a/b"}[rt.Choose(4)], srv: newRemote()}
	if rt.OneIn(2) {
		makeData(r, s.dir)
	} else {
		r.Probe("no-directory")
	}
	if rt.OneIn(4) {
		simos.Conf().MaxRead = 1 + rt.Log(12)
	}
	if z := rt.Weighted(4, 1, 1, 1, 1); z > 0 {
		r.Probe("time-zone")
		rt.SetZone([]string{"MSK", "PST", "IST", "BST"}[z-1], []int{3 * 3600, -8 * 3600, 5*3600 + 1800, 3600}[z-1])
	}
	return s
}

// big makes some runs ones with huge dictionaries.
func (s *site) big(n int) {
	if rt.OneIn(n) {
		s.r.Probe("huge")
		s.srv.huge = true
		s.srv.chunk = 1 << 20
		budgets(20)
		simos.Conf().MaxRead = 0
	}
}

func (s *site) path(name string) string {
	return path.Join(s.data(), name)
}

// data is where the files of the site belong.
func (s *site) data() string { return dataDir(s.dir) }

func dataDir(dir string) string {
	if dir == "" {
		return ".data/opencorpora"
	}
	return dir
}

// makeData makes the data directory, in some runs through a symbolic link.
func makeData(r *sim.R, dir string) {
	if d := dataDir(dir); rt.OneIn(7) {
		r.Probe("linked-directory")
		if dir == "" && rt.OneIn(2) {
			d = path.Dir(d)
		}
		to := []string{"/mnt/big/dictionaries", "/home/u/kept"}[rt.Choose(2)]
		simos.HarnessMkdirAll(to)
		if to == "/home/u/kept" && !path.IsAbs(d) {
			to = []string{"", "../", "../../"}[strings.Count(d, "/")] + "kept"
		}
		simos.HarnessSymlink(to, d)
	}
	simos.HarnessMkdirAll(dataDir(dir))
}

// loader makes a loader of the site, constructed for its directory or directed there later.
func (s *site) loader() *opencorpora.Loader { return newLoader(s.dir) }

// process tells which process makes the next attempt: a new one, or the one that made the last.
func (s *site) process() int {
	if s.lives && rt.OneIn(3) {
		s.r.Probe("same-process")
		s.r.Log("in the same process as before")
		return s.proc % 200
	}
	if !s.still && rt.OneIn(25) { // somebody keeps a file elsewhere and puts a link in its place
		n := []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename}[rt.Weighted(2, 1, 1)]
		if simos.HarnessMove(s.path(n), "/mnt/away/"+n) {
			s.r.Probe("linked-file")
			s.r.Log("%s is a symbolic link now", n)
		}
	}
	s.proc++
	rt.StartProc(s.proc % 200)
	s.lives, s.kept = true, nil
	return s.proc % 200
}

// own is the loader of that process, which may use it more than once.
func (s *site) own() *opencorpora.Loader {
	if s.kept == nil || s.where != s.dir || rt.OneIn(2) {
		s.kept, s.where = s.loader(), s.dir
	}
	return s.kept
}

func newLoader(dir string) *opencorpora.Loader {
	switch rt.Weighted(6, 1, 1) {
	case 1:
		l := opencorpora.NewLoader("elsewhere")
		l.SetDataPath(dir)
		return l
	case 2:
		l := opencorpora.NewLoader("")
		l.SetDataPath(dir)
		return l
	}
	return opencorpora.NewLoader(dir)
}

// clock lets time pass and the local clock go wrong.
func (s *site) clock() {
	if rt.OneIn(2) {
		rt.Sleep(int64(time.Minute) << uint(rt.Choose(16)))
	}
	switch rt.Weighted(4, 2, 2, 1) {
	case 1:
		rt.JumpClock(int64(time.Second) << uint(rt.Choose(28)))
		s.r.Probe("clock-ahead")
	case 2:
		rt.JumpClock(-int64(time.Second) << uint(rt.Choose(28)))
		s.r.Probe("clock-behind")
	case 3:
		rt.JumpClock(0)
	}
}

// armUpdate schedules one fault of an update.
func armUpdate() {
	if rt.OneIn(7) { // trouble that lasts
		op := []string{"http", "http-read", "write", "read", "rename", "create", "sync", "close", "stat", "open", "chtimes", "mkdir", "remove"}[rt.Weighted(5, 4, 3, 2, 2, 2, 1, 1, 1, 2, 1, 1, 1)]
		rt.Probe("lasting-trouble")
		rt.ArmFor(2+rt.Choose(15), op, rt.Log(3))
		return
	}
	switch rt.Weighted(3, 3, 5, 2, 2) {
	case 0:
		rt.Arm("http", rt.Choose(3))
	case 1:
		rt.Arm("http-read", rt.Log(4))
	case 2:
		op := []string{"write", "sync", "close", "rename", "create", "open", "read", "stat", "mkdir", "chtimes", "remove"}[rt.Weighted(5, 2, 2, 3, 2, 2, 3, 1, 1, 1, 1)]
		skip := rt.Choose(4)
		if op == "write" || op == "read" {
			skip = rt.Log(9)
		}
		rt.Arm(op, skip)
	case 3:
		rt.Arm("", rt.Log(9))
	case 4:
		rt.Arm([]string{"write", "sync", "close"}[rt.Choose(3)], rt.Log(8), saveKinds...)
	}
}

func armKill() { rt.ArmCrash(killPlace()) }

func killPlace() (string, int) {
	op := []string{"", "http", "http-read", "write", "rename", "create", "sync", "close", "open", "remove"}[rt.Weighted(4, 1, 2, 3, 3, 1, 1, 1, 1, 1)]
	skip := rt.Choose(4)
	if op == "" || op == "write" || op == "http-read" {
		skip = rt.Log(10)
	}
	return op, skip
}

// runUpdater is the main function of the update command, where it is part of the binary.
var runUpdater func()

// update runs one attempt in a process of its own: a call of the library or the update command.
func (s *site) update(force bool, others ...rt.Client) (err error, killed bool) {
	before := s.proc
	p := s.process()
	err = errors.New("did not return")
	what := "an update"
	run := func() { err = s.own().Update(force) }
	if s.dir == "" && runUpdater != nil && s.proc != before && rt.OneIn(3) {
		s.lives = false
		what = "the update command"
		s.r.Probe("command")
		args := [][]string{{"-f=false"}, {"-d", "-f=false"}}[rt.Choose(2)]
		if force {
			args = [][]string{nil, {"-f"}, {"-d"}, {"-f=true", "-d=false"}}[rt.Choose(4)]
		}
		run = func() {
			flag.Boot(args...)
			runUpdater()
			err = nil
		}
	}
	cs := append([]rt.Client{{Proc: p, Fn: run}}, others...)
	outs := rt.Exec(attempt, cs...)
	killed = outs[0].Stop == rt.StopCrash
	s.lives = s.lives && !killed
	if outs[0].Stop == rt.StopExit && what != "an update" {
		outs[0] = rt.Outcome{OK: true, Detail: outs[0].Detail}
		if err = nil; outs[0].Detail != "0" {
			err = errors.New("exit code " + outs[0].Detail)
		}
	}
	if !killed {
		s.r.Must(outs[0], what)
	}
	for _, o := range outs[1:] {
		if o.Stop != rt.StopCrash {
			s.r.Must(o, "a process reading the index")
		}
	}
	s.r.Log(what+" (forced: %v) by process %d at %s -> %v, killed %v; current publication %v; faults so far %v", force, p,
		time.Duration(rt.Now()), err, killed, s.srv.cur(), rt.FiredAt)
	return err, killed
}

func (s *site) calm() {
	rt.Disarm()
	simos.Conf().FullDisk = false
	simos.Conf().Quota = 0
	s.srv.midway = 0
	s.srv.trouble = 0
}

// after an attempt: maybe a power loss, maybe the disk stays full.
func (s *site) aftermath(killed bool) (lossy bool) {
	rt.Disarm()
	s.srv.midway = 0
	if killed && rt.OneIn(3) || rt.OneIn(8) {
		simos.PowerLoss()
		s.lives = false
		lossy = true
	}
	if rt.OneIn(2) {
		simos.Conf().FullDisk = false
	}
	return lossy
}

// load reads the compiled index as a user would.
func (s *site) load() (x *index.Index, err error) {
	s.r.Must(rt.Call(big, func() { x, err = s.loader().LoadIndex() }), "loading the compiled index")
	return x, err
}

// check compares the compiled index with one publication.
func (s *site) check(what string, p *pub) {
	x, err := s.load()
	if err != nil || x == nil {
		s.r.Fail("not-loadable", "%s, but the compiled index does not load: %v; disk: %v", what, err, simos.HarnessTree())
	}
	var d string
	s.r.Must(rt.Call(big, func() { d = differs(x, p.m) }), "asking the compiled index")
	if d != "" {
		s.r.Fail("different", "%s, but the compiled index differs from publication %v: %s; dictionary: %s", what, p, d, short(p.xml))
	}
}

func short(b []byte) string {
	if len(b) > 1500 {
		return string(b[:1500]) + "..."
	}
	return string(b)
}

func (s *site) models() (ms []*model) {
	for _, p := range s.srv.pubs {
		ms = append(ms, p.m)
	}
	return ms
}

// shape describes the state of the data directory for counting distinct runs.
func (s *site) shape(err error) {
	e := "ok"
	if err != nil {
		e = err.Error()
		if i := strings.LastIndex(e, ": "); i > 0 && len(e) > 60 {
			e = e[i:]
		}
	}
	_, a := simos.HarnessGet(s.path(opencorpora.LocalSourceFilename))
	b, u := simos.HarnessGet(s.path(opencorpora.LocalUnpackedFilename))
	c, k := simos.HarnessGet(s.path(opencorpora.LocalCompiledFilename))
	s.r.Shape("%s %v %v %d %v %d %d", e, a, u, len(b), k, len(c), len(s.srv.pubs))
}

func runC12(r *sim.R) {
	s := newSite(r)
	s.big(1500)
	s.srv.publish(rt.OneIn(12))
	if rt.OneIn(5) {
		r.Probe("leftover")
		r.NonTrivial()
		for _, n := range []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename} {
			d := s.srv.cur().body
			if n == opencorpora.LocalUnpackedFilename {
				d = s.srv.cur().xml
			}
			if ends := streamEnds(d); len(ends) > 0 && n == opencorpora.LocalSourceFilename && rt.OneIn(2) {
				d = d[:ends[rt.Choose(len(ends))]]
				r.Probe("cut-between-streams")
			} else {
				d = d[:rt.Choose(len(d)+1)]
			}
			if n == opencorpora.LocalSourceFilename && len(d) == len(s.srv.cur().body) {
				d = d[:len(d)/2]
			}
			suffix := []string{"", "", ".tmp", ".new"}[rt.Choose(4)]
			if rt.OneIn(2) {
				simos.HarnessPut(s.path(n)+suffix, append([]byte(nil), d...), rt.LocalNS()+int64(rt.Choose(3)-1)*int64(time.Hour))
			}
		}
	}
	if rt.OneIn(12) { // one attempt after the other is killed at the same place
		r.Probe("killed-again-and-again")
		op, skip := killPlace()
		force := !rt.OneIn(3)
		for n := 3 + rt.Choose(8); n > 0; n-- {
			s.clock()
			rt.ArmCrash(op, skip)
			_, killed := s.update(force)
			rt.Disarm()
			if killed && rt.OneIn(12) {
				simos.PowerLoss()
			}
		}
	}
	for n := 1 + rt.Choose(4); n > 0; n-- {
		s.clock()
		if rt.OneIn(4) {
			s.srv.publish(rt.OneIn(5))
		}
		if rt.OneIn(5) {
			s.srv.midway = 1 + rt.Choose(4)
		}
		if rt.OneIn(10) {
			simos.Conf().Quota = 1 + rt.Log(13)
		}
		for k := rt.Weighted(2, 4, 1); k > 0; k-- {
			armUpdate()
		}
		if rt.OneIn(3) {
			armKill()
		}
		err, killed := s.update(rt.OneIn(2))
		s.aftermath(killed)
		s.shape(err)
	}
	if rt.FaultCount > 0 || len(s.srv.pubs) > 1 {
		r.NonTrivial()
	}
	s.clock()
	if s.srv.cur().what != "" || rt.OneIn(4) {
		s.srv.publish(false)
	}
	s.calm()
	err, _ := s.update(true)
	if err != nil {
		r.Fail("no-convergence", "a forced update without faults failed: %v; publications %v; disk: %v", err, s.srv.pubs, simos.HarnessTree())
	}
	s.check("a forced update without faults succeeded", s.srv.cur())
	s.shape(err)
}

// uptodate checks that an update which reported success left a publication compiled that was current since first.
func (s *site) uptodate(what string, first int) {
	data, ok := simos.HarnessGet(s.path(opencorpora.LocalCompiledFilename))
	if !ok {
		s.r.Fail("no-compiled", "%s reported success, but there is no compiled index; disk: %v", what, simos.HarnessTree())
	}
	why := ""
	s.r.Must(rt.Call(big, func() {
		is, w := generations(data, s.models())
		switch {
		case len(is) == 0:
			why = w
		case is[len(is)-1] < first:
			why = fmt.Sprintf("it is publication #%d", is[len(is)-1]+1)
		}
	}), "examining the compiled file")
	if why != "" {
		s.r.Fail("stale", "%s reported success, but the compiled index does not hold publication %v (or a later one): %s; disk: %v", what, s.srv.pubs[first], why, simos.HarnessTree())
	}
}

func runC21(r *sim.R) {
	s := newSite(r)
	s.srv.publish(rt.OneIn(12))
	for n := 1 + rt.Choose(4); n > 0; n-- {
		s.clock()
		if rt.OneIn(4) {
			s.srv.publish(rt.OneIn(5))
		}
		if rt.OneIn(5) {
			s.srv.midway = 1 + rt.Choose(4)
		}
		if rt.OneIn(12) {
			simos.Conf().Quota = 1 + rt.Log(13)
		}
		for k := rt.Weighted(2, 4, 1); k > 0; k-- {
			armUpdate()
		}
		if rt.OneIn(3) {
			armKill()
		}
		first := len(s.srv.pubs) - 1
		force := rt.OneIn(4)
		fired := len(rt.FiredAt)
		err, killed := s.update(force)
		if has(rt.FiredAt[fired:], []string{"http-no-stamp", "http-portal"}) {
			first = 0 // the server did not tell that it is newer
		}
		if err == nil && !killed && !force {
			s.uptodate("an unforced update", first)
		}
		s.aftermath(killed)
		s.shape(err)
	}
	if rt.FaultCount > 0 || len(s.srv.pubs) > 1 {
		r.NonTrivial()
	}
	s.clock()
	if rt.OneIn(6) {
		s.srv.publish(false)
	}
	s.calm()
	cur := s.srv.cur()
	stored, _ := simos.HarnessGet(s.path(opencorpora.LocalSourceFilename))
	intact := len(stored) == 0
	for _, p := range s.srv.pubs {
		intact = intact || bytes.Equal(stored, p.body)
	}
	gets := s.srv.gets
	err, _ := s.update(false)
	switch {
	case err == nil:
		s.uptodate("an unforced update without faults", len(s.srv.pubs)-1)
		s.check("an unforced update without faults succeeded", cur)
		if rt.OneIn(3) {
			s.settled()
		}
		if s.srv.gets == gets {
			r.Probe("resumed")
		}
	case cur.what == "" && intact:
		r.Fail("failed", "an unforced update without faults failed: %v; publications %v; disk: %v", err, s.srv.pubs, simos.HarnessTree())
	default:
		r.Probe("refused")
	}
	s.shape(err)
}

// settled checks that one more unforced update finds nothing to do.
func (s *site) settled() {
	state := func() (t []string, v []int64) {
		for _, name := range []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename} {
			v = append(v, simos.HarnessVersion(s.path(name)))
		}
		return simos.HarnessTree(), v
	}
	s.r.Probe("settled")
	s.clock()
	before, bv := state()
	gets := s.srv.gets
	s.still = true
	err, _ := s.update(false)
	s.still = false
	after, av := state()
	switch {
	case err != nil:
		s.r.Fail("failed", "an unforced update right after a successful one failed: %v", err)
	case s.srv.gets != gets:
		s.r.Fail("redone", "an unforced update right after a successful one downloaded the same dictionary again")
	case !reflect.DeepEqual(before, after) || !reflect.DeepEqual(bv, av):
		s.r.Fail("redone", "an unforced update right after a successful one changed files: before %s %v, after %s %v", before, bv, after, av)
	}
}

// manyLemmas compiles as many lemmas as the real dictionary has, or a limit of 16 bits or a round number would stop at.
func (s *site) manyLemmas() {
	r := s.r
	r.Probe("many-lemmas")
	total := []int{66_000, 101_000, 201_000, 392_000}[rt.Weighted(3, 3, 2, 1)] + rt.Choose(1000)
	per := 200 + rt.Choose(800) // lemmas for a new word
	names := genTagNames(3)
	m := newModel()
	var b bytes.Buffer
	b.WriteString("<?xml version=\"1.0\"?>\n<dictionary version=\"0.92\" revision=\"1\">\n<grammemes>")
	for _, n := range names {
		b.WriteString("<grammeme parent=\"\"><name>")
		xml.EscapeText(&b, []byte(n))
		b.WriteString("</name><alias/><description/></grammeme>\n")
		m.tag(n, "")
	}
	b.WriteString("</grammemes><lemmata>\n")
	first := rt.Log(9)
	for i := 0; i < total; i++ {
		word := fmt.Sprintf("слово%d", i/per)
		set := []dag.TagName{names[i%len(names)], names[i/7%len(names)]}
		fmt.Fprintf(&b, "<lemma id=\"%d\" rev=\"%d\"><l t=\"%s\"><g v=\"", first+i, i, word)
		xml.EscapeText(&b, []byte(set[0]))
		fmt.Fprintf(&b, "\"/></l><f t=\"%s\"><g v=\"", word)
		xml.EscapeText(&b, []byte(set[1]))
		b.WriteString("\"/></f></lemma>\n")
		k := key([]rune(word))
		m.add(k)
		m.attach(k, set)
	}
	b.WriteString("</lemmata></dictionary>")
	source, compiled := s.path(opencorpora.LocalUnpackedFilename), s.path(opencorpora.LocalCompiledFilename)
	simos.HarnessPut(source, b.Bytes(), rt.LocalNS())
	simos.Conf().MaxRead = 0
	var err error
	l := s.loader()
	r.Must(rt.Call(rt.Budget{Steps: 2_000_000_000, Alloc: 2_000_000_000}, func() { err = l.ParseUpdate(source, compiled) }), "compiling many lemmas")
	if err != nil {
		r.Fail("failed", "compiling a dictionary of %d lemmas without faults failed: %v", total, err)
	}
	now, _ := simos.HarnessGet(compiled)
	why := ""
	r.Must(rt.Call(big, func() {
		is, w := generations(now, []*model{m})
		if why = w; len(is) > 0 {
			why = ""
		}
	}), "examining the compiled file")
	if why != "" {
		r.Fail("bad-compiled", "compiling a dictionary of %d lemmas (%d bytes) reported success, but %s", total, b.Len(), why)
	}
	r.Log("%d lemmas, %d words, %d bytes", total, len(m.forms), b.Len())
	r.Shape("%d %d", total, per)
	r.NonTrivial()
}

func runC13(r *sim.R) {
	s := newSite(r)
	if rt.OneIn(8000) {
		s.manyLemmas()
		return
	}
	s.big(2500)
	var before []byte
	prior := rt.Choose(3)
	if prior > 0 {
		s.srv.publish(false)
		if prior == 2 {
			armUpdate()
			if rt.OneIn(3) {
				armKill()
			}
		}
		_, killed := s.update(rt.OneIn(2))
		if prior == 2 {
			s.aftermath(killed)
		}
		s.calm()
		rt.Sleep(int64(time.Hour))
		rt.FaultCount = 0
	}
	s.clock()
	if prior == 0 || rt.OneIn(2) {
		p := s.srv.publish(rt.OneIn(3))
		if p.what != "" {
			r.Probe(p.what)
			r.NonTrivial()
		}
	}
	if rt.OneIn(3) {
		s.stages()
		return
	}
	compiled := s.path(opencorpora.LocalCompiledFilename)
	if d, ok := simos.HarnessGet(compiled); ok {
		before = append([]byte(nil), d...)
	}
	old := before != nil
	oldGen := -1
	if old {
		r.Must(rt.Call(big, func() {
			if is, _ := generations(before, s.models()); len(is) > 0 {
				oldGen = is[0]
			}
		}), "examining the compiled file")
	}
	force := rt.OneIn(2)
	gets := s.srv.gets
	for k := rt.Weighted(2, 4, 1); k > 0; k-- {
		armUpdate()
	}
	if rt.OneIn(6) {
		s.srv.midway = 1 + rt.Choose(4)
	}
	first := len(s.srv.pubs) - 1
	err, killed := s.update(force)
	fetched := s.srv.gets > gets
	rt.Disarm()
	simos.Conf().FullDisk = false
	if rt.FaultCount > 0 {
		r.NonTrivial()
	}
	s.shape(err)
	data, exists := simos.HarnessGet(compiled)
	if killed {
		return
	}
	var is []int
	why := "there is no compiled index"
	if exists {
		r.Must(rt.Call(big, func() { is, why = generations(data, s.models()) }), "examining the compiled file")
	}
	if err != nil {
		r.Probe("refused")
		switch {
		case old && !exists:
			r.Fail("taken-away", "an update failed (%v) and the compiled index is gone", err)
		case exists && !bytes.Equal(data, before) && len(is) == 0:
			r.Fail("bad-compiled", "an update failed (%v) and left a compiled index that is not a complete published dictionary: %s", err, why)
		}
		if s.srv.cur().what != "" {
			r.Probe("malformed-refused")
		}
		if rt.FaultCount == 0 && s.srv.pubs[first].what == "" && s.srv.cur().what == "" && prior != 2 {
			r.Fail("failed", "an update of publication %v failed although nothing went wrong: %v; dictionary: %s", s.srv.cur(), err, short(s.srv.cur().xml))
		}
		return
	}
	if !force && !fetched {
		r.Probe("unforced")
		if exists && !bytes.Equal(data, before) && len(is) == 0 {
			r.Fail("bad-compiled", "an update changed the compiled index to something else than a complete published dictionary: %s", why)
		}
		return
	}
	if !force {
		r.Probe("unforced")
	}
	if !exists {
		r.Fail("no-compiled", "an update (forced: %v, fetched: %v) reported success, but there is no compiled index; disk: %v", force, fetched, simos.HarnessTree())
	}
	if len(is) == 0 {
		r.Fail("different", "an update (forced: %v, fetched: %v) reported success, but the compiled index is not a complete published dictionary: %s; dictionary: %s", force, fetched, why, short(s.srv.cur().xml))
	}
	r.Probe("compiled")
	r.NonTrivial()
	if is[0] < oldGen {
		r.Fail("older", "an update reported success, but went from publication #%d back to #%d", oldGen+1, is[0]+1)
	}
	// without faults of the check it is a version current during the update
	if rt.FaultCount == 0 && is[len(is)-1] < first {
		r.Fail("stale", "an update without faults reported success, but compiled publication #%d while #%d was current", is[len(is)-1]+1, first+1)
	}
	x, lerr := s.load()
	if lerr != nil || x == nil {
		r.Fail("not-loadable", "an update reported success, but the compiled index does not load: %v", lerr)
	}
}

// stages runs the parts of an update one by one, each with faults of its own.
func (s *site) stages() {
	r := s.r
	r.Probe("stages")
	archive, source, compiled := s.path(opencorpora.LocalSourceFilename), s.path(opencorpora.LocalUnpackedFilename), s.path(opencorpora.LocalCompiledFilename)
	get := func(name string) []byte {
		d, ok := simos.HarnessGet(name)
		if !ok {
			return nil
		}
		return append([]byte{}, d...)
	}
	step := func(what, target, not string, f func(l *opencorpora.Loader) error) (err error, killed bool, fired []string) {
		n := len(rt.FiredAt)
		for k := rt.Weighted(2, 3, 1); k > 0; k-- {
			armUpdate()
		}
		if rt.OneIn(12) {
			armKill()
		}
		p := s.process()
		err = errors.New("did not return")
		out := rt.Exec(attempt, rt.Client{Proc: p, Fn: func() { err = f(s.own()) }})[0]
		s.calm()
		killed = out.Stop == rt.StopCrash
		s.lives = !killed
		if !killed {
			r.Must(out, what)
		}
		fired = rt.FiredAt[n:]
		if err == nil && !killed {
			for _, f := range fired {
				kind, at, _ := strings.Cut(f, " at ")
				if op, where, _ := strings.Cut(at, " "); strings.HasPrefix(where, target) && !strings.HasPrefix(where, not) &&
					(op == "write" && kind != "short-write" || op == "sync" || op == "close" || op == "rename" || op == "create") {
					r.Fail("silent", "%s reported success, but the disk failed: %s", what, f)
				}
			}
		}
		r.Log("%s -> %v, killed %v; faults %v", what, err, killed, fired)
		r.Shape("%s %v %v", what, err != nil, fired)
		if err == nil && len(fired) > 0 {
			r.NonTrivial()
		}
		return err, killed, fired
	}
	for n := 1 + rt.Choose(3); n > 0; n-- {
		before := get(archive)
		served := len(s.srv.served)
		var updated bool
		if rt.OneIn(5) {
			s.srv.midway = 1 + rt.Choose(4)
		}
		err, killed, fired := step("a download", archive, "?", func(l *opencorpora.Loader) (err error) { updated, err = l.DownloadUpdate(); return err })
		now := get(archive)
		whole := false
		for _, p := range s.srv.served[served:] {
			whole = whole || bytes.Equal(now, p.body)
		}
		unseen := has(fired, []string{"http-corrupt", "http-portal"}) || !s.srv.framed && has(fired, []string{"http-cut"})
		switch {
		case unseen:
		case err == nil && updated && !killed && !whole:
			r.Fail("bad-archive", "a download reported success, but stored %d bytes (%v) which are not the archive served", len(now), now != nil)
		case (err != nil || !updated) && !whole && !bytes.Equal(now, before):
			r.Fail("bad-archive", "a download reported %v %v, but left other %d bytes (%v) than the %d before", updated, err, len(now), now != nil, len(before))
		case err != nil && !killed && len(fired) == 0:
			r.Fail("failed", "a download without faults failed: %v", err)
		}
		if rt.OneIn(6) && before != nil {
			simos.HarnessPut(archive, before[:rt.Choose(len(before)+1)], rt.LocalNS())
		}

		before = get(source)
		data := get(archive)
		want, werr := io.ReadAll(bzip2.NewReader(bytes.NewReader(data)))
		err, killed, fired = step("an unpack", source, archive, func(l *opencorpora.Loader) error { return l.UnpackUpdate() })
		now = get(source)
		whole = werr == nil && now != nil && bytes.Equal(now, want)
		switch {
		case err == nil && !killed && !whole:
			r.Fail("bad-unpacked", "an unpack of %d bytes (readable: %v) reported success, but left %d bytes (%v) instead of %d", len(data), werr, len(now), now != nil, len(want))
		case err != nil && !whole && (!bytes.Equal(now, before) || (now == nil) != (before == nil)):
			r.Fail("bad-unpacked", "an unpack reported %v, but left other %d bytes than the %d before", err, len(now), len(before))
		case err != nil && !killed && data != nil && werr == nil && len(fired) == 0:
			r.Fail("failed", "an unpack without faults failed: %v", err)
		}
		if rt.OneIn(6) && now != nil {
			simos.HarnessPut(source, now[:rt.Choose(len(now)+1)], rt.LocalNS())
		}

		before = get(compiled)
		data = get(source)
		var p *pub
		for _, q := range s.srv.pubs {
			if data != nil && bytes.Equal(q.xml, data) {
				p = q
			}
		}
		err, killed, fired = step("a compile", compiled, "?", func(l *opencorpora.Loader) error { return l.ParseUpdate(source, compiled) })
		now = get(compiled)
		changed := !bytes.Equal(now, before) || (now == nil) != (before == nil)
		why := "it was not compiled"
		if p != nil && p.m != nil && now != nil {
			r.Must(rt.Call(big, func() {
				is, w := generations(now, []*model{p.m})
				if why = w; len(is) > 0 {
					why = ""
				}
			}), "examining the compiled file")
		} else if p == nil || p.m == nil {
			why = "it is not a complete dictionary"
			// cutting only what follows the last element leaves it complete
			for _, q := range s.srv.pubs {
				d := q.dict
				if d.what == "two-roots" {
					d = getDict(d.id, 0) // cut between its roots it is complete, too
				}
				if d.m != nil && len(data) > 0 && bytes.Equal(bytes.TrimSpace(data), bytes.TrimSpace(d.xml)) && now != nil {
					r.Must(rt.Call(big, func() {
						if is, _ := generations(now, []*model{d.m}); len(is) > 0 {
							why = ""
						}
					}), "examining the compiled file")
				}
			}
		}
		switch {
		case err == nil && !killed && why != "":
			r.Fail("bad-compiled", "compiling %d bytes of publication %v reported success, but %s: %s", len(data), p, why, short(data))
		case err != nil && changed && why != "":
			r.Fail("bad-compiled", "compiling reported %v (killed: %v), but changed the compiled file of %d bytes to %d bytes, and %s", err, killed, len(before), len(now), why)
		case err != nil && !killed && len(fired) == 0 && p != nil && p.m != nil:
			r.Fail("failed", "compiling %v without faults failed: %v", p, err)
		}
		if rt.OneIn(2) {
			s.clock()
			rt.Sleep(int64(time.Hour))
			q := s.srv.publish(rt.OneIn(4))
			r.Log("published %v", q)
		}
	}
	r.NonTrivial()
}

func runC14(r *sim.R) {
	s := newSite(r)
	s.srv.goodMid = true
	s.srv.publish(false)
	archive := s.path(opencorpora.LocalSourceFilename)
	unknown := map[int]bool{} // versions fetched with an unreadable stamp
	interesting := false
	for n := 3 + rt.Choose(7); n > 0; n-- {
		// which version is stored, by its bytes
		stored := -1
		strange := false
		if d, ok := simos.HarnessGet(archive); ok {
			strange = true
			for i, p := range s.srv.pubs {
				if bytes.Equal(d, p.body) {
					stored, strange = i, false
				}
			}
		}
		must, may := true, true // whether an update is required, or may be said to be
		switch {
		case strange:
			must, may = false, true
		case stored >= 0:
			must = s.srv.cur().stamp > s.srv.pubs[stored].stamp
			may = must || unknown[stored]
		}
		arm := func() {
			if !rt.OneIn(3) {
				return
			}
			interesting = true
			switch rt.Choose(5) {
			case 0:
				armUpdate()
			case 1:
				rt.Arm("stat", rt.Choose(2))
			case 2:
				rt.Arm("http-read", rt.Choose(3), "http-stall")
			default:
				rt.Arm("http", rt.Choose(2))
			}
		}
		p := s.process()
		fired := len(rt.FiredAt)
		heads, gets := s.srv.heads, s.srv.gets
		var required, updated bool
		err := errors.New("did not return")
		cur := s.srv.cur()
		switch rt.Weighted(3, 2, 4, 4, 1, 1, 1) {
		case 0:
			interesting = interesting || stored >= 0
			r.Log("published %v", s.srv.publish(false))
		case 1:
			s.clock()
			interesting = true
		case 2: // check
			arm()
			out := rt.Exec(big, rt.Client{Proc: p, Fn: func() { required, err = s.own().IsUpdateRequired() }})[0]
			rt.Disarm()
			r.Log("check by process %d -> %v %v; stored #%d (strange %v), current %v; faults %v", p, required, err, stored+1, strange, cur, rt.FiredAt[fired:])
			r.Shape("check %v %v %v %v", required, err != nil, must, may)
			if out.Stop == rt.StopCrash {
				s.lives = false
				break
			}
			r.Must(out, "an update check")
			failed := has(rt.FiredAt[fired:], headFailures) || has(rt.FiredAt[fired:], []string{"stat-error", "no-permission", "too-many-files"})
			if failed {
				r.Probe("check-failed")
				if err == nil && !required {
					r.Fail("check-silent", "an update check that could not be completed (%v) reported up to date", rt.FiredAt[fired:])
				}
				break
			}
			if has(rt.FiredAt[fired:], []string{"http-no-stamp", "http-portal"}) {
				if err != nil {
					r.Fail("check-failed", "an update check of an answer without modification stamp failed: %v", err)
				}
				break // nothing tells whether it changed
			}
			if has(rt.FiredAt[fired:], []string{"http-bad-stamp"}) {
				if err == nil && !required && must {
					r.Fail("missed", "an update check with an unreadable remote stamp reported up to date while #%d is stored and %v is current", stored+1, cur)
				}
				break
			}
			if err != nil {
				r.Fail("check-failed", "an update check without faults failed: %v", err)
			}
			if must && !required {
				r.Fail("missed", "publication %v is newer than the stored %s but no update is required; clock error %v; disk %v", cur, s.name(stored), time.Duration(rt.LocalNS()-rt.TrueNS()), simos.HarnessTree())
			}
			if !may && required {
				r.Fail("again", "publication %v is stored already but an update is required; clock error %v; disk %v", cur, time.Duration(rt.LocalNS()-rt.TrueNS()), simos.HarnessTree())
			}
			if required {
				r.Probe("required")
			} else {
				r.Probe("up-to-date")
			}
			if interesting {
				r.NonTrivial()
			}
		case 3: // download, alone or in an update
			if rt.OneIn(3) {
				s.srv.midway = 1 + rt.Choose(3)
			}
			arm()
			if rt.OneIn(8) {
				armKill()
			}
			whole := rt.OneIn(4)
			force := whole && rt.OneIn(3)
			out := rt.Exec(attempt, rt.Client{Proc: p, Fn: func() {
				l := s.own()
				if whole {
					err = l.Update(force)
				} else {
					updated, err = l.DownloadUpdate()
				}
			}})[0]
			rt.Disarm()
			simos.Conf().FullDisk = false
			s.srv.midway = 0
			got := s.srv.gets > gets
			r.Log("download (in an update: %v, forced: %v) by process %d -> %v %v, fetched %v, killed %v; stored was #%d (strange %v), current was %v; faults %v", whole, force, p, updated, err, got,
				out.Stop == rt.StopCrash, stored+1, strange, cur, rt.FiredAt[fired:])
			r.Shape("download %v %v %v %v %v", updated, err != nil, must, may, got)
			if has(rt.FiredAt[fired:], []string{"http-bad-stamp", "http-no-stamp", "http-portal"}) {
				for _, p := range s.srv.pubs {
					unknown[p.n-1] = true
				}
				may = true // the stamps cannot be compared
			}
			may = may || force && len(rt.FiredAt) > fired // a forced update may answer any trouble with a fresh copy
			for _, f := range rt.FiredAt[fired:] {
				// an archive that could not be read may be fetched afresh
				may = may || strings.HasPrefix(f, "read-error at read ") && strings.Contains(f, opencorpora.LocalSourceFilename)
			}
			if out.Stop != rt.StopCrash {
				r.Must(out, "a download")
			}
			if got && !may {
				r.Fail("again", "publication %v is stored already but was downloaded again; clock error %v", cur, time.Duration(rt.LocalNS()-rt.TrueNS()))
			}
			if out.Stop == rt.StopCrash {
				s.lives = false
				break
			}
			if len(rt.FiredAt) > fired {
				failed := has(rt.FiredAt[fired:], headFailures) || has(rt.FiredAt[fired:], []string{"stat-error", "no-permission", "http-reset"})
				if failed && err == nil && must && !got && !force {
					r.Fail("check-silent", "a download that could not be completed (%v) reported no error", rt.FiredAt[fired:])
				}
				break
			}
			if err != nil && !(whole && strange) {
				r.Fail("download-failed", "a download without faults failed: %v", err)
			}
			if must && (!got || !whole && !updated) {
				r.Fail("missed", "publication %v is newer than the stored %s but was not downloaded", cur, s.name(stored))
			}
			if got && err == nil {
				d, ok := simos.HarnessGet(archive)
				if !ok || !bytes.Equal(d, s.srv.served[len(s.srv.served)-1].body) {
					r.Fail("archive", "a download without faults reported success but the stored archive is not the one served")
				}
				if s.srv.cur() != cur {
					r.NonTrivial()
				}
			}
			_ = heads
		case 4: // power loss
			simos.PowerLoss()
			s.lives = false
			r.Log("power loss")
		case 5:
			simos.MakeDurable()
		case 6:
			var files [2]bool
			_, down := simos.HarnessGet(archive)
			_, unpacked := simos.HarnessGet(s.path(opencorpora.LocalUnpackedFilename))
			r.Must(rt.Exec(big, rt.Client{Proc: p, Fn: func() {
				l := s.own()
				files = [2]bool{l.IsDownloadExists(), l.IsUnpackedExists()}
			}})[0], "looking for files")
			if files != [2]bool{down, unpacked} {
				r.Fail("files", "the downloaded file is there: %v, the unpacked: %v; but the loader says %v", down, unpacked, files)
			}
		}
	}
}

func (s *site) name(stored int) string {
	if stored < 0 {
		return "(nothing)"
	}
	return s.srv.pubs[stored].String()
}

func has(fired []string, kinds []string) bool {
	for _, f := range fired {
		for _, k := range kinds {
			if strings.HasPrefix(f, k+" ") {
				return true
			}
		}
	}
	return false
}

func runC15(r *sim.R) {
	s := newSite(r)
	s.srv.publish(false)
	if err, _ := s.update(true); err != nil {
		r.Fail("failed", "the first update failed although nothing went wrong: %v; dictionary: %s", err, short(s.srv.cur().xml))
	}
	s.check("the first update succeeded", s.srv.cur())
	simos.MakeDurable()
	target := s.path(opencorpora.LocalCompiledFilename)
	state, floor := 0, 0
	last := simos.HarnessVersion(target)
	look := func() {
		v := simos.HarnessVersion(target)
		if v == last {
			return
		}
		last = v
		data, ok := simos.HarnessGet(target)
		if !ok {
			r.Fail("vanished", "the compiled index disappeared; disk: %v", simos.HarnessTree())
			return
		}
		is, why := generations(data, s.models())
		if len(is) == 0 {
			r.Fail("broken", "the compiled index is not a complete published dictionary: %s", why)
			return
		}
		g := is[len(is)-1]
		if g < state {
			r.Fail("older", "the compiled index went from publication #%d back to #%d", state+1, g+1)
		}
		if g > state {
			rt.Probe("replaced")
		}
		state = g
	}
	for n := 1 + rt.Choose(4); n > 0 && !r.Failed(); n-- {
		s.clock()
		if !rt.OneIn(4) {
			if s.srv.publish(rt.OneIn(3)).what != "" {
				r.NonTrivial()
			}
		}
		if rt.OneIn(5) {
			s.srv.midway = 1 + rt.Choose(4)
		}
		if rt.OneIn(10) {
			simos.Conf().Quota = 1 + rt.Log(13)
		}
		for k := rt.Weighted(2, 4, 1); k > 0; k-- {
			armUpdate()
		}
		if rt.OneIn(3) {
			armKill()
		}
		var others []rt.Client
		if rt.OneIn(3) {
			loads := 1 + rt.Choose(4)
			gap := s.srv.latency * int64(1+rt.Choose(6))
			before := rt.FaultCount
			others = append(others, rt.Client{Proc: 250, Fn: func() {
				l := s.loader()
				for ; loads > 0 && !r.Failed(); loads-- {
					x, err := l.LoadIndex()
					rt.Probe("loaded-during-update")
					if err != nil {
						if rt.FaultCount == before {
							r.Fail("load-during-update", "loading the index during an update failed: %v", err)
						}
						continue
					}
					why, ok := "", false
					rt.Quiet(func() {
						for _, m := range s.models()[floor:] {
							if m == nil {
								continue
							}
							d := differs(x, m)
							ok = ok || d == ""
							why += d + "; "
						}
					})
					if !ok {
						r.Fail("loaded-mixture", "an index loaded during an update is not a complete published dictionary: %s", why)
					}
					rt.Sleep(gap)
				}
			}})
			r.NonTrivial()
		}
		simos.Conf().OnChange = func() {
			if rt.InTask() {
				rt.Quiet(look)
			}
		}
		err, killed := s.update(rt.OneIn(2), others...)
		simos.Conf().OnChange = nil
		if r.Failed() {
			r.Stop()
		}
		if s.aftermath(killed) {
			state = floor // unsynced directory changes may be gone
		}
		simos.Conf().Quota = 0
		r.Must(rt.Call(big, look), "examining the compiled index")
		if state < floor {
			r.Fail("older", "after a power loss the compiled index is publication #%d, older than the durable #%d", state+1, floor+1)
		}
		if rt.OneIn(2) {
			simos.MakeDurable()
			floor = state
		}
		s.shape(err)
		if r.Failed() {
			r.Stop()
		}
		x, lerr := s.load()
		if lerr != nil || x == nil {
			r.Fail("not-loadable", "after an update attempt (%v) the compiled index does not load: %v", err, lerr)
		}
		if d := differsCall(r, x, s.srv.pubs[state].m); d != "" {
			r.Fail("broken", "after an update attempt the compiled index is not publication #%d any more: %s", state+1, d)
		}
	}
	if rt.FaultCount > 0 {
		r.NonTrivial()
	}
}

func differsCall(r *sim.R, x *index.Index, m *model) (d string) {
	r.Must(rt.Call(big, func() { d = differs(x, m) }), "asking the index")
	return d
}

func runC17(r *sim.R) {
	s := newSite(r)
	d := getDict(uint32(rt.Log(15)), 0)
	p := &pub{dict: d, n: 1, stamp: rt.TrueNS()/1e9 - 1000}
	s.srv.pubs = append(s.srv.pubs, p)
	r.Shape("%d", d.id)
	var first []byte
	envs := []string{}
	n := 2 + rt.Weighted(4, 2, 1)
	for i := 0; i < n; i++ {
		env := ""
		if i > 0 {
			s.clock()
			env += fmt.Sprint(" clock error ", time.Duration(rt.LocalNS()-rt.TrueNS()))
			r.Probe("clock")
			ns := []int64{10, 100_000, 20_000_000}[rt.Choose(3)]
			rt.SetPolicy(0, ns)
			if ns > 1e6 {
				r.Probe("slow")
			}
			env += fmt.Sprint(" step ", time.Duration(ns))
			if rt.OneIn(2) {
				simos.Conf().MaxRead = 1 + rt.Log(12)
				env += fmt.Sprint(" reads up to ", simos.Conf().MaxRead)
				r.Probe("short-read")
			}
			if rt.OneIn(3) {
				s.dir = []string{"/elsewhere", "x/y", ""}[rt.Choose(3)]
			}
		}
		whole := rt.OneIn(4)
		target := s.path(opencorpora.LocalCompiledFilename)
		source := s.path(opencorpora.LocalUnpackedFilename)
		simos.HarnessMkdirAll(s.data())
		if !whole {
			simos.HarnessPut(source, append([]byte(nil), d.xml...), rt.LocalNS())
		}
		if _, ok := simos.HarnessGet(target); ok {
			r.Probe("existing-compiled")
		}
		one := func() (err error, killed bool) {
			if whole {
				r.Probe("full-update")
				return s.update(true)
			}
			p := s.process()
			out := rt.Exec(attempt, rt.Client{Proc: p, Fn: func() {
				err = s.own().ParseUpdate(source, target)
			}})[0]
			s.lives = out.Stop != rt.StopCrash
			if out.Stop != rt.StopCrash {
				r.Must(out, "compiling")
			}
			return err, out.Stop == rt.StopCrash
		}
		if i > 0 && rt.OneIn(3) { // an interrupted compile before
			if rt.OneIn(2) {
				rt.ArmCrash([]string{"write", "rename", "close", "sync"}[rt.Weighted(4, 1, 1, 1)], rt.Log(8))
			} else {
				armSave()
			}
			_, killed := one()
			s.calm()
			if killed {
				r.Probe("killed-before")
				env += " after a killed compile"
			}
		}
		if rt.OneIn(6) {
			r.Probe("leftover")
			simos.HarnessPut(target+".tmp", bytes.Repeat([]byte("x"), rt.Choose(5000)), rt.LocalNS())
			env += " over a leftover"
		}
		err, _ := one()
		if err != nil {
			r.Fail("failed", "compiling failed although nothing went wrong (%s): %v; dictionary: %s", env, err, short(d.xml))
		}
		data, ok := simos.HarnessGet(target)
		if !ok {
			r.Fail("failed", "compiling reported success but there is no compiled index")
		}
		data = append([]byte(nil), data...)
		envs = append(envs, env)
		r.Log("compiled dictionary %d (whole update: %v;%s): %d bytes", d.id, whole, env, len(data))
		if first == nil {
			first = data
		} else if !bytes.Equal(first, data) {
			r.Fail("differs", "compiling dictionary %d again (whole update: %v;%s) gives another file: %s; dictionary: %s", d.id, whole, env, firstDiff(first, data), short(d.xml))
		}
		if rt.OneIn(2) { // optimize and save the compiled index again
			r.Probe("saved-again")
			x, err := s.load()
			if err != nil {
				r.Fail("not-loadable", "the compiled index does not load: %v", err)
			}
			again := s.path("again.dat")
			k := rt.Choose(3)
			r.Must(rt.Call(big, func() {
				for ; k > 0; k-- {
					x.Optimize()
				}
				err = s.loader().SaveIndex(x, again)
			}), "saving again")
			b, _ := simos.HarnessGet(again)
			if err != nil || !bytes.Equal(b, first) {
				r.Fail("differs", "loading, optimizing and saving the compiled index of dictionary %d again gives another file (%v): %s", d.id, err, firstDiff(first, b))
			}
		}
	}
	r.NonTrivial()
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d of %d is %#x, was %#x of %d", i, len(b), b[i], a[i], len(a))
		}
	}
	return fmt.Sprintf("%d bytes instead of %d", len(b), len(a))
}

// logs decides whether what is logged gets formatted, as with debug logging on.
func logs(r *sim.R) {
	logging.Sink = nil
	if rt.OneIn(6) && !rt.RaceBuild { // package fmt would hide races
		r.Probe("debug-logging")
		logging.Sink = func(logging.Level, string) {}
	}
}
