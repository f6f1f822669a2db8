package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
	simsync "verif.local/simrt/sync"
)

var c18 = sim.Prop{
	ID: "C18", Quick: 250000, Thorough: 20_000_000,
	Rule: "1..4 simulated callers share one index of tag sets or of variants under a readers/writer lock: they index (in any element order), find, get, list and save " +
		"it (some saves hit a stream failure, in some runs the process is killed at a byte of a save); then it is reloaded from the last completed save, through a stream " +
		"in pieces, and used by more callers; checked against a map model; non-trivial: callers interleaved, or a reload happened",
	Run: runC18, Real: []string{"internal/index (TagSetIndex, TagSetTable, TagSet, VariantsIndex, VariantsTable, TagSetIDCollection)", "amarin/binutils"},
	Stub: []string{"readers/writer lock, scheduler, storage (simulated)"},
	Want: []string{"crash", "stream-write-error", "reload", "unknown-longer-than-any", "unknown-id", "many-entries", "repeated-element", "empty", "full-table"},
}

// entry is a tag set or a variant.
type entry []uint32

func (e entry) key() string { return fmt.Sprint([]uint32(e)) }

func (e entry) sorted() entry {
	r := append(entry(nil), e...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (e entry) permuted() entry {
	r := append(entry(nil), e...)
	for i := 0; i+1 < len(r) && i < 12; i++ {
		j := i + rt.Choose(len(r)-i)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// idx is either of the two containers.
type idx struct {
	name  string
	max   uint32
	index func(entry) uint32
	find  func(entry) (uint32, bool)
	get   func(uint32) (entry, bool)
	list  func() []uint32
	save  func(*binutils.BinaryWriter) error
	load  func(*binutils.BinaryReader) error
	dump  func() string
}

func tagSetOf(e entry) index.TagSet {
	r := make(index.TagSet, len(e))
	for i, v := range e {
		r[i] = dag.TagID(v)
	}
	return r
}

func variantOf(e entry) index.TagSetIDCollection {
	r := make(index.TagSetIDCollection, len(e))
	for i, v := range e {
		r[i] = index.TagSetID(v)
	}
	return r
}

func newIdx(kind int) idx {
	if kind == 0 {
		x := make(index.TagSetIndex, 0)
		return idx{name: "tag set index", max: 256,
			index: func(e entry) uint32 { return uint32(x.Index(tagSetOf(e))) },
			find:  func(e entry) (uint32, bool) { id, ok := x.Find(tagSetOf(e)); return uint32(id), ok },
			get: func(id uint32) (e entry, ok bool) {
				s, ok := x.Get(index.TagSetID(id))
				for _, v := range s {
					e = append(e, uint32(v))
				}
				return
			},
			list: func() (r []uint32) {
				for _, id := range x.TableIDs() {
					r = append(r, uint32(id))
				}
				return
			},
			save: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) },
			load: func(rd *binutils.BinaryReader) error { return x.BinaryReadFrom(rd) },
			dump: func() string { return fmt.Sprint([]index.TagSetTable(x)) }}
	}
	x := make(index.VariantsIndex, 0)
	return idx{name: "variants index", max: 0,
		index: func(e entry) uint32 { return uint32(x.Index(variantOf(e))) },
		find:  func(e entry) (uint32, bool) { id, ok := x.Find(variantOf(e)); return uint32(id), ok },
		get: func(id uint32) (e entry, ok bool) {
			s := x.Get(index.VariantID(id))
			for _, v := range s {
				e = append(e, uint32(v))
			}
			if has := x.Has(index.VariantID(id)); has != (len(s) > 0) && id != 0 {
				return entry{0xBAD}, !has
			}
			return e, len(s) > 0
		},
		list: func() (r []uint32) {
			for _, id := range x.KnownID() {
				r = append(r, uint32(id))
			}
			return
		},
		save: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) },
		load: func(rd *binutils.BinaryReader) error { return x.BinaryReadFrom(rd) },
		dump: func() string { return fmt.Sprintf("%v", []index.VariantsTable(x)) }}
}

type idsModel struct {
	ids map[string]uint32
	set map[uint32]string
}

func newIds() *idsModel { return &idsModel{ids: map[string]uint32{}, set: map[uint32]string{}} }

func (m *idsModel) clone() *idsModel {
	n := newIds()
	for k, v := range m.ids {
		n.ids[k] = v
		n.set[v] = k
	}
	return n
}

func (m *idsModel) listed() string {
	var r []int
	for id := range m.set {
		r = append(r, int(id))
	}
	sort.Ints(r)
	return fmt.Sprint(r)
}

func genEntries(r *sim.R, x idx, n int) (u []entry) {
	l := 1 + rt.Log(3)
	if rt.OneIn(10) {
		l = 1 + rt.Log(7)
	}
	space := 1 + rt.Choose(6)
	for i := 0; i < n; i++ {
		e := make(entry, 1+rt.Choose(l))
		for k := range e {
			switch rt.Weighted(6, 1, 1) {
			case 0:
				e[k] = uint32(rt.Choose(space))
			case 1:
				e[k] = uint32(rt.Choose(256))
			case 2:
				e[k] = uint32(rt.Choose(4))<<16 | uint32(rt.Choose(1<<16))
			}
			if x.max != 0 {
				e[k] %= x.max
			}
		}
		e = e.sorted()
		for k := 1; k < len(e); k++ {
			if e[k] == e[k-1] {
				r.Probe("repeated-element")
			}
		}
		u = append(u, e)
	}
	return u
}

type idsOp struct {
	kind   int // 0 index 1 find 2 get 3 find unknown 4 get unknown 5 list 6 save 7 empty
	e      entry
	id     uint32
	failAt int
}

// fullTable saves and loads one table as large as its length field and its ids allow.
func fullTable(r *sim.R) {
	n := 65533 + rt.Choose(6)
	tagSets := rt.OneIn(2)
	r.Probe("full-table")
	r.NonTrivial()
	r.Must(rt.Call(big, func() {
		w := stream.NewWriter()
		var err error
		var same, ok bool
		var m int
		if tagSets {
			t, back := make(index.TagSetTable, n), index.TagSetTable{}
			for i := range t {
				t[i] = index.TagSet{dag.TagID(i >> 8), dag.TagID(i)}
			}
			if err = t.BinaryWriteTo(binutils.NewBinaryWriter(w)); err == nil {
				err = back.BinaryReadFrom(binutils.NewBinaryReader(&plain{w.Data}))
				ok = err == nil
			}
			m, same = len(back), len(back) == n
			for i := 0; i < n && same; i++ {
				same = back[i].EqualTo(t[i])
			}
		} else {
			t, back := make(index.VariantsTable, n), index.VariantsTable{}
			for i := range t {
				t[i] = index.TagSetIDCollection{index.TagSetID(i)}
			}
			if err = t.BinaryWriteTo(binutils.NewBinaryWriter(w)); err == nil {
				err = back.BinaryReadFrom(binutils.NewBinaryReader(&plain{w.Data}))
				ok = err == nil
			}
			m, same = len(back), len(back) == n
			for i := 0; i < n && same; i++ {
				same = back[i].EqualTo(t[i])
			}
		}
		switch {
		case err != nil && (n <= 65535 || n == 65536 && !tagSets): // 65536 variants have ids of their own
			r.Fail("save-failed", "a table of %d entries (tag sets: %v) is refused: %v", n, tagSets, err)
		case ok && !same:
			r.Fail("save-silent", "a table of %d entries (tag sets: %v) was saved and loaded as one of %d", n, tagSets, m)
		case !ok && len(w.Data) > 100:
			r.Fail("save-silent", "a table of %d entries (tag sets: %v) was saved and cannot be loaded: %v", n, tagSets, err)
		}
	}), "a full table")
	r.Log("table of %d entries, tag sets: %v", n, tagSets)
}

func runC18(r *sim.R) {
	if rt.OneIn(8000) {
		fullTable(r)
		return
	}
	rt.SetPolicy(rt.Choose(5), 10)
	kind := rt.Choose(2)
	x := newIdx(kind)
	m := newIds()
	var saved []byte
	var savedModel *idsModel
	if rt.OneIn(60) { // many entries of one length
		r.Probe("many-entries")
		n := 200 + rt.Choose(200)
		if kind == 0 && n > 255 {
			n = 256
		}
		r.Must(rt.Call(big, func() {
			for i := 0; i < n; i++ {
				e := entry{uint32(i)}
				id := x.index(e)
				if old := m.set[id]; old != "" {
					r.Fail("id-shared", "%s: %v got id %#x which belongs to %s", x.name, e, id, old)
					return
				}
				m.ids[e.key()], m.set[id] = id, e.key()
			}
		}), "indexing many entries")
	}
	u := genEntries(r, x, 1+rt.Choose(6))
	other := genEntries(r, x, 1+rt.Choose(3))
	longest := 0
	rounds := 1 + rt.Weighted(2, 3, 1)
	for round := 0; round < rounds; round++ {
		nc := 1 + rt.Weighted(1, 3, 3, 2)
		var mu simsync.RWMutex
		logs := make([][]string, nc)
		var clients []rt.Client
		for k := 0; k < nc; k++ {
			k := k
			var ops []idsOp
			for i := 1 + rt.Choose(6); i > 0; i-- {
				o := idsOp{kind: rt.Weighted(9, 4, 4, 2, 2, 2, 2, 1), e: u[rt.Choose(len(u))], failAt: -1}
				switch o.kind {
				case 0:
					o.e = o.e.permuted()
				case 3:
					o.e = other[rt.Choose(len(other))]
					if rt.OneIn(2) {
						o.e = nil
						for j := 0; j < 20+rt.Choose(300); j++ {
							o.e = append(o.e, uint32(j/4))
						}
					}
				case 4:
					switch rt.Choose(4) {
					case 0:
						o.id = uint32(rt.Choose(8))
					case 1:
						o.id = uint32(rt.Choose(6))<<16 | uint32(rt.Choose(6))
					case 2:
						o.id = uint32(rt.Choose(1<<16))<<16 | uint32(rt.Choose(1<<16))
					case 3:
						o.id = 0xFFFF0000 + uint32(rt.Choose(1<<16))
					}
				case 6:
					if rt.OneIn(3) {
						o.failAt = rt.Choose(40)
					}
				}
				ops = append(ops, o)
			}
			clients = append(clients, rt.Client{Proc: 1, Fn: func() {
				note := func(f string, a ...interface{}) { logs[k] = append(logs[k], fmt.Sprintf(f, a...)) }
				for _, o := range ops {
					if r.Failed() {
						return
					}
					switch o.kind {
					case 0:
						mu.Lock()
						e := o.e.sorted()
						id := x.index(append(entry(nil), o.e...))
						if len(e) > longest {
							longest = len(e)
						}
						old, had := m.ids[e.key()]
						switch {
						case had && old != id:
							r.Fail("id-changed", "%s: %v had id %#x and is now indexed as %#x", x.name, e, old, id)
						case !had && m.set[id] != "":
							r.Fail("id-shared", "%s: %v got id %#x which belongs to %s", x.name, e, id, m.set[id])
						}
						m.ids[e.key()], m.set[id] = id, e.key()
						if g, ok := x.get(id); !ok || g.key() != e.key() {
							r.Fail("wrong-entry", "%s: %v was indexed as %#x, which is %v, %v", x.name, e, id, g, ok)
						}
						mu.Unlock()
						note("index %v -> %#x", o.e, id)
					case 1, 3:
						mu.RLock()
						before := x.dump()
						id, found := x.find(append(entry(nil), o.e...))
						want, had := m.ids[o.e.key()]
						if len(o.e) > longest && !had {
							rt.Probe("unknown-longer-than-any")
						}
						switch {
						case had && (!found || id != want):
							r.Fail("lost", "%s: %v was indexed as %#x but Find says %#x, %v", x.name, o.e, want, id, found)
						case !had && found:
							r.Fail("phantom", "%s: %v was never indexed but Find says id %#x", x.name, o.e, id)
						}
						if x.dump() != before {
							r.Fail("find-changed", "%s: Find(%v) changed the index", x.name, o.e)
						}
						mu.RUnlock()
						note("find %v -> %#x %v", o.e, id, found)
					case 2, 4:
						mu.RLock()
						id := o.id
						if o.kind == 2 {
							id = m.ids[o.e.key()]
						}
						before := x.dump()
						e, found := x.get(id)
						want, had := m.set[id]
						switch {
						case had && (!found || e.key() != want):
							r.Fail("wrong-entry", "%s: id %#x belongs to %s but Get says %v, %v", x.name, id, want, e, found)
						case !had && found:
							r.Fail("phantom", "%s: id %#x was never given but Get says %v", x.name, id, e)
						case !had:
							rt.Probe("unknown-id")
						}
						if x.dump() != before {
							r.Fail("get-changed", "%s: Get(%#x) changed the index", x.name, id)
						}
						mu.RUnlock()
						note("get %#x -> %v %v", id, e, found)
					case 5:
						mu.RLock()
						var l []int
						for _, id := range x.list() {
							l = append(l, int(id))
						}
						sort.Ints(l)
						if s := fmt.Sprint(l); s != m.listed() {
							r.Fail("list", "%s: the known ids are listed as %v; given were %v", x.name, s, m.listed())
						}
						mu.RUnlock()
						note("list %d", len(l))
					case 6:
						mu.RLock()
						w := stream.NewWriter()
						w.FailAt, w.Sticky = o.failAt, true
						err := x.save(binutils.NewBinaryWriter(w))
						snap := m.clone()
						mu.RUnlock()
						if err == nil && w.Failed {
							r.Fail("save-silent", "%s: saving reported success although the stream failed", x.name)
						}
						if err != nil && !w.Failed && longest < 256 {
							r.Fail("save-failed", "%s: saving %d entries to a healthy stream failed: %v", x.name, len(snap.ids), err)
						}
						if err == nil {
							mu.Lock()
							saved, savedModel = w.Data, snap
							mu.Unlock()
						}
						note("save %d entries -> %v", len(snap.ids), err)
					case 7:
						rt.Probe("empty")
						mu.Lock()
						before := x.dump()
						id := x.index(nil)
						fid, found := x.find(nil)
						if id != 0 || fid != 0 || found != (kind == 1) {
							r.Fail("empty", "%s: the empty entry has id %#x, %#x %v", x.name, id, fid, found)
						}
						if x.dump() != before {
							r.Fail("empty", "%s: the empty entry changed the index", x.name)
						}
						mu.Unlock()
						note("empty")
					}
				}
			}})
		}
		if rt.OneIn(3) {
			rt.ArmCrash("stream-write", rt.Log(5))
		}
		outs := rt.Exec(rt.Budget{Steps: 5_000_000, Alloc: 10_000_000}, clients...)
		rt.Disarm()
		crashed := false
		for k := range logs {
			for _, l := range logs[k] {
				r.Log("%s, round %d caller %d: %s", x.name, round, k, l)
				r.Shape(l)
			}
		}
		for _, o := range outs {
			if o.Stop == rt.StopCrash {
				crashed = true
				continue
			}
			r.Must(o, "a caller of the "+x.name)
		}
		if r.Failed() {
			r.Stop()
		}
		if rt.Switches() > int64(nc) {
			r.NonTrivial()
		}
		if savedModel != nil && (crashed || rt.OneIn(2)) {
			r.Probe("reload")
			r.NonTrivial()
			rd := stream.NewReader(saved)
			fresh := newIdx(kind)
			if rt.OneIn(3) && !crashed {
				fresh = x // loading replaces what the object held
			}
			var err error
			r.Must(rt.Call(big, func() { err = fresh.load(binutils.NewBinaryReader(source(rd))) }), "reload")
			if err != nil {
				r.Fail("reload-failed", "%s: reloading the last completed save failed (%v): %v", x.name, rd, err)
			}
			x, m = fresh, savedModel.clone()
			longest = 0
			for k := range m.ids {
				if n := 1 + strings.Count(k, " "); n > longest {
					longest = n
				}
			}
			r.Log("round %d: reloaded %d entries (killed: %v)", round, len(m.ids), crashed)
		} else if crashed {
			x, m, longest = newIdx(kind), newIds(), 0
		}
		r.Must(rt.Call(big, func() {
			var keys []string
			for k := range m.ids {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				e, found := x.get(m.ids[k])
				if !found || e.key() != k {
					r.Fail("wrong-entry", "%s: after round %d id %#x of %s gives %v, %v", x.name, round, m.ids[k], k, e, found)
					return
				}
				if id, found := x.find(e); !found || id != m.ids[k] {
					r.Fail("lost", "%s: after round %d %s with id %#x is found as %#x, %v", x.name, round, k, m.ids[k], id, found)
					return
				}
			}
			if n := len(x.list()); n != len(m.ids) {
				r.Fail("list", "%s: after round %d %d ids are listed, %d given", x.name, round, n, len(m.ids))
			}
		}), "final look-ups")
	}
}
