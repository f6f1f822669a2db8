package main

import (
	"fmt"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
	simsync "verif.local/simrt/sync"
)

var c06 = sim.Prop{
	ID: "C06", Quick: 300000, Thorough: 20_000_000,
	Rule: "1..4 simulated callers share one tag registry under a readers/writer lock and register, look up and save it (some saves hit a stream failure, " +
		"in some runs the process is killed at a byte of a save); then the registry is reloaded from the last completed save and used by more callers; " +
		"non-trivial: callers interleaved, or a reload happened",
	Run: runC06, Real: []string{"pkg/dag (Idx, Tag, TagName)", "amarin/binutils"}, Stub: []string{"readers/writer lock, scheduler, storage (simulated)"},
	Want: []string{"crash", "stream-write-error", "reload", "re-register-other-parent", "unknown-id", "many-tags"},
}

type regModel struct {
	ids  map[dag.TagName]dag.TagID
	tags []dag.Tag // by id
}

func (m *regModel) clone() *regModel {
	n := &regModel{ids: map[dag.TagName]dag.TagID{}}
	for k, v := range m.ids {
		n.ids[k] = v
	}
	n.tags = append(n.tags, m.tags...)
	return n
}

type regOp struct {
	kind   int // 0 register 1 find 2 get 3 save 4 get unknown
	name   dag.TagName
	parent dag.TagName
	id     int
	failAt int
}

func dumpIdx(x dag.Idx) string { return fmt.Sprintf("%q", []dag.Tag(x)) }

func runC06(r *sim.R) {
	rt.SetPolicy(rt.Choose(5), 10)
	idx := dag.NewIndex()
	m := &regModel{ids: map[dag.TagName]dag.TagID{}}
	var saved []byte
	var savedModel *regModel
	n0 := 0
	if rt.OneIn(30) { // a registry that already holds many tags
		n0 = 100 + rt.Choose(140)
		r.Probe("many-tags")
		r.Must(rt.Call(big, func() {
			for i := 0; i < n0; i++ {
				name := dag.TagName(fmt.Sprintf("n%03d", i))
				id := idx.Index(name, "")
				m.ids[name] = id
				m.tags = append(m.tags, dag.Tag{Parent: dag.EmptyTagName, Name: name})
			}
		}), "registering many tags")
	}
	var names []dag.TagName
	for i := 0; i < 1+rt.Choose(5); i++ {
		names = append(names, genName(i))
	}
	rounds := 1 + rt.Weighted(2, 3, 1)
	for round := 0; round < rounds; round++ {
		nc := 1 + rt.Weighted(1, 3, 3, 2)
		var mu simsync.RWMutex
		logs := make([][]string, nc)
		var clients []rt.Client
		for k := 0; k < nc; k++ {
			k := k
			var ops []regOp
			for i := 1 + rt.Choose(6); i > 0; i-- {
				o := regOp{kind: rt.Weighted(8, 4, 4, 2, 1), name: names[rt.Choose(len(names))], failAt: -1}
				switch o.kind {
				case 0:
					o.parent = genParent(names)
				case 1:
					if rt.OneIn(3) {
						o.name = genName(9)
					}
				case 2:
					o.id = rt.Choose(n0 + 6)
				case 3:
					if rt.OneIn(3) {
						o.failAt = rt.Choose(30)
					}
				case 4:
					o.id = rt.Choose(256)
				}
				ops = append(ops, o)
			}
			clients = append(clients, rt.Client{Proc: 1, Fn: func() {
				for _, o := range ops {
					if r.Failed() {
						return
					}
					switch o.kind {
					case 0:
						mu.Lock()
						id := idx.Index(o.name, o.parent)
						old, had := m.ids[o.name]
						switch {
						case had && id != old:
							r.Fail("id-changed", "%q had id %d and is now registered as %d", o.name, old, id)
						case !had && int(id) != len(m.tags) && int(id) < len(m.tags):
							r.Fail("id-shared", "%q got id %d which belongs to %q", o.name, id, m.tags[id].Name)
						case !had && int(id) != len(m.tags):
							// ids need not be dense by the property, but lookups must agree; keep the model simple
							for len(m.tags) < int(id) {
								m.tags = append(m.tags, dag.Tag{})
							}
						}
						if had && canon(o.parent) != m.tags[old].Parent {
							rt.Probe("re-register-other-parent")
						}
						if !had {
							m.ids[o.name] = id
							m.tags = append(m.tags, dag.Tag{Parent: canon(o.parent), Name: o.name})
						}
						tag, found := idx.Get(id)
						if !found || tag.Name != o.name || canon(tag.Parent) != m.tags[m.ids[o.name]].Parent {
							r.Fail("wrong-tag", "%q registered below %q (first below %q) has id %d, which is %q below %q (found %v)", o.name, o.parent, m.tags[m.ids[o.name]].Parent, id, tag.Name, tag.Parent, found)
						}
						mu.Unlock()
						logs[k] = append(logs[k], fmt.Sprintf("register %q below %q -> %d", o.name, o.parent, id))
					case 1:
						mu.RLock()
						id, found := idx.Find(o.name)
						want, had := m.ids[o.name]
						if had != found || had && id != want {
							r.Fail("wrong-id", "looking up %q gives %d, %v; registered: %d, %v", o.name, id, found, want, had)
						}
						n := idx.Len()
						if n != len(m.ids) {
							r.Fail("length", "the registry has %d tags after %d registrations of different names", n, len(m.ids))
						}
						mu.RUnlock()
						logs[k] = append(logs[k], fmt.Sprintf("find %q -> %d %v", o.name, id, found))
					case 2, 4:
						mu.RLock()
						tag, found := idx.Get(dag.TagID(o.id))
						had := o.id < len(m.tags) && m.tags[o.id].Name != ""
						if !had {
							rt.Probe("unknown-id")
						}
						if had != found || had && (tag.Name != m.tags[o.id].Name || canon(tag.Parent) != m.tags[o.id].Parent) {
							r.Fail("wrong-tag", "id %d is %q below %q, %v; registered: %v (known %d)", o.id, tag.Name, tag.Parent, found, had, len(m.tags))
						}
						mu.RUnlock()
						logs[k] = append(logs[k], fmt.Sprintf("get %d -> %q %v", o.id, tag.Name, found))
					case 3:
						mu.RLock()
						w := stream.NewWriter()
						w.FailAt, w.Sticky = o.failAt, true
						err := idx.BinaryWriteTo(binutils.NewBinaryWriter(w))
						snap := m.clone()
						mu.RUnlock()
						if err == nil && w.Failed {
							r.Fail("save-silent", "saving the registry reported success although the stream failed")
						}
						if err != nil && !w.Failed {
							r.Fail("save-failed", "saving %d tags to a healthy stream failed: %v", len(snap.tags), err)
						}
						if err == nil {
							mu.Lock()
							saved, savedModel = w.Data, snap
							mu.Unlock()
						}
						logs[k] = append(logs[k], fmt.Sprintf("save %d tags -> %v", len(snap.tags), err))
					}
				}
			}})
		}
		if rt.OneIn(3) {
			rt.ArmCrash("stream-write", rt.Log(5))
		}
		outs := rt.Exec(rt.Budget{Steps: 5_000_000, Alloc: 10_000_000}, clients...)
		rt.Disarm()
		crashed := false
		for k := range logs {
			for _, l := range logs[k] {
				r.Log("round %d caller %d: %s", round, k, l)
				r.Shape(l)
			}
		}
		for _, o := range outs {
			if o.Stop == rt.StopCrash {
				crashed = true
				continue
			}
			r.Must(o, "a caller of the registry")
		}
		if r.Failed() {
			r.Stop()
		}
		if rt.Switches() > int64(nc) {
			r.NonTrivial()
		}
		if savedModel != nil && (crashed || rt.OneIn(2)) {
			// reload from the last completed save
			r.Probe("reload")
			r.NonTrivial()
			rd := stream.NewReader(saved)
			fresh := dag.NewIndex()
			var err error
			r.Must(rt.Call(big, func() { err = fresh.BinaryReadFrom(binutils.NewBinaryReader(source(rd))) }), "reload")
			if err != nil {
				r.Fail("reload-failed", "reloading the last completed save failed (%v): %v", rd, err)
			}
			idx, m = fresh, savedModel.clone()
			want := dag.Idx(m.tags)
			if d := sameIdx(want, idx); d != "" {
				r.Fail("reload-differs", "the reloaded registry differs from the last completed save (%v): %s", rd, d)
			}
			r.Log("round %d: reloaded %d tags (killed: %v)", round, idx.Len(), crashed)
		} else if crashed {
			idx, m = dag.NewIndex(), &regModel{ids: map[dag.TagName]dag.TagID{}}
			n0 = 0
		}
	}
}
