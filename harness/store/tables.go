package main

import (
	"fmt"
	"sort"

	"github.com/amarin/gomorphy/pkg/storage"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	simsync "verif.local/simrt/sync"
)

var c05 = sim.Prop{
	ID: "C05", Quick: 250000, Thorough: 20_000_000,
	Rule: "1..4 simulated callers share one table or collection under a readers/writer lock and index, find and get sets of a small universe (in any " +
		"element order), unknown sets, unknown ids and the empty set; the seed picks the interleaving at every statement; checked against a map model after " +
		"every call; non-trivial: at least two callers really interleaved, or a look-up in a state that never held such a set",
	Run: runC05, Real: []string{"pkg/storage (Table8, Table16, Collection8x8, Collection16, Set8, Set16)"}, Stub: []string{"readers/writer lock and scheduler (simulated)"},
	Want: []string{"unknown-longer-than-any", "unknown-id", "empty-rejected", "many-sets", "full-table", "reader-reader"},
}

// coll is any of the four containers.
type coll struct {
	name  string
	index func([]uint16) uint32
	find  func([]uint16) (uint32, bool)
	get   func(uint32) ([]uint16, bool)
	dump  func() uint64
	wide  bool
	idmax uint32
	col   bool
}

func s8(el []uint16) storage.Set8   { return set{el: el}.set8() }
func s16(el []uint16) storage.Set16 { return set{el: el}.set16() }

func el8(s storage.Set8) (r []uint16) {
	for _, e := range s {
		r = append(r, uint16(e))
	}
	return
}

func el16(s storage.Set16) (r []uint16) {
	for _, e := range s {
		r = append(r, uint16(e))
	}
	return
}

func mix(h uint64, v int) uint64 { return (h ^ uint64(v+1)) * 1099511628211 }

func dump8(h uint64, t storage.Table8) uint64 {
	h = mix(h, len(t))
	for _, s := range t {
		h = mix(h, len(s)+1000)
		for _, e := range s {
			h = mix(h, int(e))
		}
	}
	return h
}

func dump16(h uint64, t storage.Table16) uint64 {
	h = mix(h, len(t))
	for _, s := range t {
		h = mix(h, len(s)+1000)
		for _, e := range s {
			h = mix(h, int(e))
		}
	}
	return h
}

func newColl(kind int) coll {
	switch kind {
	case 0:
		var t storage.Table8
		return coll{name: "Table8", idmax: 255,
			index: func(e []uint16) uint32 { return uint32(t.Index(s8(e))) },
			find:  func(e []uint16) (uint32, bool) { id, ok := t.Find(s8(e)); return uint32(id), ok },
			get:   func(id uint32) ([]uint16, bool) { s, ok := t.Get(storage.ID8(id)); return el8(s), ok },
			dump:  func() uint64 { return dump8(1, t) }}
	case 1:
		var t storage.Table16
		return coll{name: "Table16", wide: true, idmax: 65535,
			index: func(e []uint16) uint32 { return uint32(t.Index(s16(e))) },
			find:  func(e []uint16) (uint32, bool) { id, ok := t.Find(s16(e)); return uint32(id), ok },
			get:   func(id uint32) ([]uint16, bool) { s, ok := t.Get(storage.ID16(id)); return el16(s), ok },
			dump:  func() uint64 { return dump16(1, t) }}
	case 2:
		c := storage.Collection8x8{}
		return coll{name: "Collection8x8", col: true, idmax: 65535,
			index: func(e []uint16) uint32 { return uint32(c.Index(s8(e))) },
			find:  func(e []uint16) (uint32, bool) { id, ok := c.Find(s8(e)); return uint32(id), ok },
			get:   func(id uint32) ([]uint16, bool) { s, ok := c.Get(storage.ID16(id)); return el8(s), ok },
			dump: func() (h uint64) {
				h = mix(1, len(c))
				for _, t := range c {
					h = dump8(h, t)
				}
				return
			}}
	default:
		c := storage.Collection16{}
		return coll{name: "Collection16", col: true, wide: true, idmax: 1<<32 - 1,
			index: func(e []uint16) uint32 { return uint32(c.Index(s16(e))) },
			find:  func(e []uint16) (uint32, bool) { id, ok := c.Find(s16(e)); return uint32(id), ok },
			get:   func(id uint32) ([]uint16, bool) { s, ok := c.Get(storage.ID32(id)); return el16(s), ok },
			dump: func() (h uint64) {
				h = mix(1, len(c))
				for _, t := range c {
					h = dump16(h, t)
				}
				return
			}}
	}
}

func key(e []uint16) string { return fmt.Sprint(e) }

func sorted(e []uint16) []uint16 {
	r := append([]uint16(nil), e...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func permute(e []uint16) []uint16 {
	r := append([]uint16(nil), e...)
	for i := 0; i+1 < len(r) && i < 12; i++ {
		j := i + rt.Choose(len(r)-i)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// genUniverse makes distinct sorted sets. In a table all have one length.
func genUniverse(c coll, n int) (u [][]uint16) {
	seen := map[string]bool{}
	l := 1 + rt.Log(3)
	if c.col && rt.OneIn(12) {
		l = 1 + rt.Log(8)
	}
	max := 256
	if c.wide {
		max = 65536
	}
	for i := 0; len(u) < n && i < n*20; i++ {
		ln := l
		if c.col {
			ln = 1 + rt.Choose(l)
		}
		have := map[uint16]bool{}
		var s []uint16
		near := rt.Choose(3)
		for k := 0; len(s) < ln && k < ln*40; k++ {
			var e uint16
			switch near {
			case 0:
				e = uint16(rt.Choose(min(max, ln+2)))
			case 1:
				e = uint16(max - 1 - rt.Choose(min(max, ln+2)))
			default:
				e = uint16(rt.Choose(max))
			}
			if !have[e] {
				have[e] = true
				s = append(s, e)
			}
		}
		s = sorted(s)
		if len(s) == ln && !seen[key(s)] {
			seen[key(s)] = true
			u = append(u, s)
		}
	}
	return u
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type idModel struct {
	ids map[string]uint32
	set map[uint32]string
}

type setOp struct {
	kind int // 0 index 1 find 2 get known id 3 find unknown 4 get unknown id 5 index empty 6 find empty
	el   []uint16
	arg  uint32
}

func runC05(r *sim.R) {
	c := newColl(rt.Choose(4))
	if rt.OneIn(40) {
		fillTable(r, c)
		return
	}
	rt.SetPolicy(rt.Choose(5), 10)
	nc := 1 + rt.Weighted(1, 3, 3, 2)
	u := genUniverse(c, 1+rt.Choose(6))
	other := genUniverse(c, 1+rt.Choose(4)) // some may coincide with u: fine, the model decides
	m := idModel{ids: map[string]uint32{}, set: map[uint32]string{}}
	var mu simsync.RWMutex
	var clients []rt.Client
	logs := make([][]string, nc)
	readers := 0
	longest := 0
	for k := 0; k < nc; k++ {
		k := k
		var ops []setOp
		for i := 1 + rt.Choose(7); i > 0; i-- {
			o := setOp{kind: rt.Weighted(8, 4, 4, 3, 2, 1, 1)}
			switch o.kind {
			case 0:
				o.el = permute(u[rt.Choose(len(u))])
			case 1:
				o.el = u[rt.Choose(len(u))]
			case 2:
				o.el = u[rt.Choose(len(u))]
			case 3:
				o.el = other[rt.Choose(len(other))]
				if rt.OneIn(2) { // longer than anything seen
					o.el = nil
					for j := 0; j < 20+rt.Choose(8); j++ {
						o.el = append(o.el, uint16(j))
					}
					if rt.OneIn(6) {
						o.el = make([]uint16, 256+rt.Choose(3))
					}
				}
			case 4:
				switch rt.Choose(3) {
				case 0:
					o.arg = uint32(rt.Choose(8))
				case 1:
					o.arg = uint32(rt.Choose(4))<<8 | uint32(rt.Choose(4))
				default:
					o.arg = uint32(rt.Choose(1<<16))<<16 | uint32(rt.Choose(1<<16))
				}
				if o.arg > c.idmax {
					o.arg &= c.idmax
				}
			}
			ops = append(ops, o)
		}
		clients = append(clients, rt.Client{Proc: 0, Fn: func() {
			for _, o := range ops {
				if r.Failed() {
					return
				}
				switch o.kind {
				case 0:
					mu.Lock()
					el := sorted(o.el)
					id := c.index(append([]uint16(nil), o.el...))
					if len(el) > longest {
						longest = len(el)
					}
					old, had := m.ids[key(el)]
					switch {
					case had && old != id:
						r.Fail("id-changed", "%s: %v had id %d and is now indexed as %d", c.name, el, old, id)
					case !had && m.set[id] != "":
						r.Fail("id-shared", "%s: %v got id %d which belongs to %s", c.name, el, id, m.set[id])
					}
					m.ids[key(el)] = id
					m.set[id] = key(el)
					mu.Unlock()
					logs[k] = append(logs[k], fmt.Sprintf("index %v -> %d", o.el, id))
				case 1, 3:
					mu.RLock()
					addNoRace(&readers, 1)
					before := c.dump()
					id, found := c.find(append([]uint16(nil), o.el...))
					want, had := m.ids[key(o.el)]
					if len(o.el) > longest && !had {
						rt.Probe("unknown-longer-than-any")
					}
					switch {
					case had && (!found || id != want):
						r.Fail("lost", "%s: %v was indexed as %d but Find says %d, %v", c.name, o.el, want, id, found)
					case !had && found:
						r.Fail("phantom", "%s: %v was never indexed but Find says id %d", c.name, o.el, id)
					}
					if c.dump() != before {
						r.Fail("find-changed", "%s: Find(%v) changed the container", c.name, o.el)
					}
					addNoRace(&readers, -1)
					mu.RUnlock()
					logs[k] = append(logs[k], fmt.Sprintf("find %v -> %d %v", o.el, id, found))
				case 2, 4:
					mu.RLock()
					if addNoRace(&readers, 0) > 0 {
						rt.Probe("reader-reader")
					}
					addNoRace(&readers, 1)
					id := o.arg
					if o.kind == 2 {
						var had bool
						if id, had = m.ids[key(o.el)]; !had {
							id = uint32(len(m.ids)) & c.idmax
						}
					}
					before := c.dump()
					el, found := c.get(id)
					want, had := m.set[id]
					switch {
					case had && (!found || key(el) != want):
						r.Fail("wrong-set", "%s: id %d belongs to %s but Get says %v, %v", c.name, id, want, el, found)
					case !had && found:
						r.Fail("phantom", "%s: id %d was never given but Get says %v", c.name, id, el)
					case !had:
						rt.Probe("unknown-id")
					}
					if c.dump() != before {
						r.Fail("get-changed", "%s: Get(%d) changed the container", c.name, id)
					}
					addNoRace(&readers, -1)
					mu.RUnlock()
					logs[k] = append(logs[k], fmt.Sprintf("get %d -> %v %v", id, el, found))
				case 5:
					mu.Lock()
					before := c.dump()
					var p interface{}
					func() {
						defer func() { p = recover() }()
						c.index([]uint16{})
					}()
					if p == nil {
						r.Fail("empty-accepted", "%s: indexing an empty set was not rejected", c.name)
					} else {
						rt.Probe("empty-rejected")
					}
					if c.dump() != before {
						r.Fail("rejected-changed", "%s: a rejected empty set changed the container", c.name)
					}
					mu.Unlock()
					logs[k] = append(logs[k], "index empty")
				case 6:
					mu.RLock()
					if id, found := c.find(nil); found && c.col {
						r.Fail("phantom", "%s: the empty set is found as %d", c.name, id)
					}
					mu.RUnlock()
				}
			}
		}})
	}
	outs := rt.Exec(rt.Budget{Steps: 3_000_000, Alloc: 10_000_000}, clients...)
	r.Log("%s shared by %d callers", c.name, nc)
	for k := range logs {
		for _, l := range logs[k] {
			r.Log("caller %d: %s", k, l)
			r.Shape(l)
		}
	}
	for _, o := range outs {
		r.Must(o, "a caller of "+c.name)
	}
	if rt.Switches() > int64(nc) {
		r.NonTrivial()
	}
	if r.Failed() {
		r.Stop()
	}
	// everything indexed is still there
	checkAll(r, c, m)
}

func checkAll(r *sim.R, c coll, m idModel) {
	var keys []string
	for k := range m.ids {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r.Must(rt.Call(rt.Budget{Steps: 100_000_000, Alloc: 10_000_000}, func() {
		for _, k := range keys {
			id := m.ids[k]
			el, found := c.get(id)
			if !found || key(el) != k {
				r.Fail("wrong-set", "%s: at the end id %d of %s gives %v, %v", c.name, id, k, el, found)
				return
			}
			fid, found := c.find(el)
			if !found || fid != id {
				r.Fail("lost", "%s: at the end %s with id %d is found as %d, %v", c.name, k, id, fid, found)
				return
			}
		}
	}), "final look-ups")
}

// fillTable fills one table towards (and up to) its documented capacity.
func fillTable(r *sim.R, c coll) {
	n := 257 + rt.Choose(100)
	if !c.wide {
		n = 256
		r.Probe("full-table")
	}
	r.Probe("many-sets")
	r.NonTrivial()
	l := 2 + rt.Choose(2)
	step := 1 + 2*rt.Choose(20)
	r.Shape("%s %d sets of %d step %d", c.name, n, l, step)
	r.Log("%s filled with %d sets of %d elements", c.name, n, l)
	m := idModel{ids: map[string]uint32{}, set: map[uint32]string{}}
	r.Must(rt.Call(rt.Budget{Steps: 100_000_000, Alloc: 50_000_000}, func() {
		for i := 0; i < n; i++ {
			el := []uint16{uint16(i * step % 256), 0, 300}
			el[1] = uint16(i * step / 256 % 256)
			if !c.wide {
				el[2] = 77
			}
			el = sorted(el[:l])
			if _, had := m.ids[key(el)]; had {
				continue
			}
			id := c.index(permute(el))
			if old := m.set[id]; old != "" {
				r.Fail("id-shared", "%s: %v got id %d which belongs to %s", c.name, el, id, old)
				return
			}
			m.ids[key(el)] = id
			m.set[id] = key(el)
		}
	}), "filling")
	r.Probe(fmt.Sprintf("filled-%s", c.name))
	checkAll(r, c, m)
}

// addNoRace keeps a counter of the harness out of the race detector's sight: it
// is only written by the running task, but under a readers lock.
//
//go:norace
//go:noinline
func addNoRace(p *int, d int) int {
	*p += d
	return *p
}
