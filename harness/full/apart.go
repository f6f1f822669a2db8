package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/pkg/storage"

	simos "verif.local/simrt/os"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var c25 = sim.Prop{
	ID: "C25", Quick: 40000, Thorough: 4_000_000,
	Rule: "2..4 simulated goroutines of one process work at once, each on objects of its own: an index (filled, asked, optimized, saved, reloaded, with failing saves and damaged loads), an index " +
		"of tag sets or variants, a tag catalogue, id sets and their tables, or a data directory (compiling well- and malformed dictionaries, saving, loading, updating); the seed picks the interleaving " +
		"at every statement; each must see exactly what it sees working alone on fresh objects, what was handed out must stay as it was, and changing it must change no answer; part of the runs is " +
		"executed under the race detector; non-trivial: goroutines really interleaved",
	Run: runC25, Real: append([]string{"pkg/storage (sets, tables, collections)"}, loaderParts...), Stub: append([]string{"scheduler, streams (simulated)"}, loaderStubs...),
	Want: []string{"index", "ids", "catalogue", "sets", "directory", "overlap", "failed-save", "failed-load", "handed-out", "changed-by-caller", "malformed"},
}

// transcript is what one worker saw.
type transcript struct {
	r     *sim.R
	who   string
	lines []string
	kept  []func() string // what was handed out and changed since
}

func (t *transcript) add(format string, args ...interface{}) {
	t.lines = append(t.lines, fmt.Sprintf(format, args...))
}

// keep remembers what was handed out: show describes it, now and later.
func (t *transcript) keep(what string, show func() string) {
	was := show()
	t.kept = append(t.kept, func() string {
		if now := show(); now != was {
			return fmt.Sprintf("%s was %s and is now %s", what, was, now)
		}
		return ""
	})
}

func (t *transcript) settle() {
	for _, k := range t.kept {
		if d := k(); d != "" {
			t.r.Fail("handed-out", "%s: what had been handed out changed: %s", t.who, d)
			return
		}
	}
}

func runC25(r *sim.R) {
	logs(r)
	n := 2 + rt.Weighted(4, 2, 1)
	var srv *remote
	works := make([]func(*transcript), n) // each run of one works on fresh objects
	names := make([]string, n)
	for i := range works {
		k := rt.Weighted(5, 3, 2, 2, 3)
		if k == 4 && rt.RaceBuild {
			k = 0
		}
		switch k {
		case 0:
			names[i], works[i] = "index", indexWork(r)
		case 1:
			names[i], works[i] = "ids", idsWork(r)
		case 2:
			names[i], works[i] = "catalogue", catalogueWork(r)
		case 3:
			names[i], works[i] = "sets", setsWork(r)
		case 4:
			if srv == nil {
				srv = newRemote()
				srv.publish(false)
			}
			names[i], works[i] = "directory", directoryWork(r, i)
		}
		r.Probe(names[i])
	}
	alone, together := make([]*transcript, n), make([]*transcript, n)
	mk := func(i int) *transcript { return &transcript{r: r, who: fmt.Sprintf("goroutine %d (%s)", i, names[i])} }
	solo := func() {
		rt.SetPolicy(0, 10)
		for i, w := range works {
			t := mk(i)
			alone[i] = t
			r.Must(rt.Call(rt.Budget{Steps: 100_000_000, Alloc: 200_000_000}, func() { w(t) }), t.who+" working alone")
		}
	}
	first := rt.OneIn(2)
	if first {
		solo()
	}
	rt.SetPolicy(rt.Choose(5), 10)
	switches := rt.Switches()
	var cs []rt.Client
	for i, w := range works {
		w, t := w, mk(i)
		together[i] = t
		cs = append(cs, rt.Client{Fn: func() { w(t) }})
	}
	for i, o := range rt.Exec(rt.Budget{Steps: 300_000_000, Alloc: 500_000_000}, cs...) {
		r.Must(o, together[i].who+" working beside others")
	}
	if rt.Switches()-switches > int64(n) {
		r.Probe("overlap")
		r.NonTrivial()
	}
	if !first {
		solo()
	}
	for i := range works {
		a, b := alone[i].lines, together[i].lines
		for k := 0; k < len(a) || k < len(b); k++ {
			la, lb := "(nothing)", "(nothing)"
			if k < len(a) {
				la = a[k]
			}
			if k < len(b) {
				lb = b[k]
			}
			if la != lb {
				r.Fail("influenced", "%s beside others (%v) saw %q where it sees %q alone, after %q", together[i].who, names, lb, la, strings.Join(a[:k], "; "))
			}
		}
		r.Log("%s: %s", together[i].who, strings.Join(b, "; "))
		r.Shape("%s %d", names[i], len(b))
	}
}

// indexWork uses an index of its own.
func indexWork(r *sim.R) func(*transcript) {
	type op struct {
		kind int // 0 add 1 tag 2 ask 3 optimize 4 save 5 reload 6 failed load 7 failed save 8 counts 9 children 10 compare
		w    []rune
		tags []dag.TagName
		n    int
		own  bool
	}
	alpha := genAlphabet()
	tags := genTagNames(1 + rt.Choose(6))
	var ops []op
	for i := 3 + rt.Choose(12); i > 0; i-- {
		o := op{kind: rt.Weighted(8, 2, 4, 1, 2, 2, 1, 1, 1, 2, 1), w: genRunes(alpha, 4), tags: pickTags(tags, 4), n: rt.Log(7), own: rt.OneIn(3)}
		if o.kind == 1 && len(o.tags) == 0 {
			o.tags = tags[:1]
		}
		ops = append(ops, o)
	}
	half := tags[:(len(tags)+1)/2]
	return func(t *transcript) {
		x, m := index.New(), newModel()
		var data []byte
		var saved *model
		for _, g := range half {
			x.TagID(g, "")
			m.tag(g, "")
		}
		for _, o := range ops {
			switch o.kind {
			case 0:
				w := append([]rune(nil), o.w...)
				set := append([]dag.TagName(nil), o.tags...)
				n, err := x.AddRunes(w)
				if err != nil {
					t.add("add: error")
					continue
				}
				err = n.AddTagSet(set...)
				if o.own { // the caller goes on using its memory
					rt.Probe("changed-by-caller")
					for i := range w {
						w[i] = '#'
					}
					for i := range set {
						set[i] = "####"
					}
				}
				m.add(key(o.w))
				ok := m.attach(key(o.w), o.tags)
				t.add("add %q %q: %v", string(o.w), o.tags, err == nil)
				if ok != (err == nil) {
					r.Fail("attach", "%s: attaching %q to %q gives error %v, expected success: %v", t.who, o.tags, string(o.w), err, ok)
				}
			case 1:
				id := x.TagID(o.tags[0], tags[0])
				m.tag(o.tags[0], tags[0])
				t.add("tag %q: %d", o.tags[0], id)
				list := x.Tags()
				t.keep("a list of tags", func() string { return fmt.Sprintf("%q", []dag.Tag(list)) })
			case 2:
				n, err := x.FetchRunes(o.w)
				if err != nil {
					t.add("ask %q: unknown", string(o.w))
					continue
				}
				sets := n.TagSets()
				t.add("ask %q: %q %v", string(o.w), n.Word(), sets)
				if o.own {
					for _, s := range sets {
						for i := range s {
							s[i] = dag.Tag{Name: "####"}
						}
					}
					break
				}
				rt.Probe("handed-out")
				t.keep(fmt.Sprintf("the analyses of %q", string(o.w)), func() string { return fmt.Sprint(sets) })
				if nd, ok := n.(*index.Node); ok {
					it := nd.Item()
					t.keep(fmt.Sprintf("the item of %q", string(o.w)), func() string { return fmt.Sprintf("%+v", it) })
				}
			case 3:
				x.Optimize()
			case 4:
				d, err := save(x)
				t.add("save: %d bytes, %v", len(d), err == nil)
				if err == nil {
					data, saved = d, m.clone()
				}
			case 5:
				if saved == nil {
					break
				}
				if o.own {
					x = index.New()
				}
				err := loadInto(x, stream.NewReader(data))
				t.add("reload: %v", err == nil)
				if m = saved.clone(); err != nil {
					r.Fail("load-failed", "%s: reloading what was saved failed: %v", t.who, err)
				}
			case 6:
				if saved == nil {
					break
				}
				rt.Probe("failed-load")
				err := loadInto(x, stream.NewReader(data[:o.n%len(data)]))
				t.add("load a part: %v", err == nil)
			case 7:
				rt.Probe("failed-save")
				w := stream.NewWriter()
				w.FailAt = o.n
				err := x.BinaryWriteTo(binutils.NewBinaryWriter(w))
				t.add("failing save: %v %v", err == nil, w.Failed)
			case 8:
				t.add("counts: %d %d", x.WordsCount(), x.NodesCount())
			case 9:
				n, err := x.FetchRunes(o.w[:1])
				id := dag.ID(0)
				if nd, ok := n.(*index.Node); ok && err == nil {
					id = nd.Id()
				}
				kids, nodes := x.GetChildrenIDMap(id), x.GetChildrenMap(id)
				t.add("children of %d: %s", id, children(kids))
				if o.own {
					for k := range kids {
						kids[k] = 7777
					}
					kids['#'], nodes['#'] = 1, n
					break
				}
				rt.Probe("handed-out")
				t.keep("a map of children", func() string { return children(kids) + fmt.Sprint(len(nodes)) })
			case 10:
				if d := differs(x, m); d != "" {
					r.Fail("answers", "%s: %s", t.who, d)
				}
			}
			if r.Failed() {
				return
			}
		}
		if d := differs(x, m); d != "" {
			r.Fail("answers", "%s at the end: %s", t.who, d)
			return
		}
		t.settle()
	}
}

func children(kids dag.IdMap) string {
	var s []string
	for l, id := range kids {
		s = append(s, fmt.Sprintf("%q:%d", l, id))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// idsWork uses an index of tag sets or of variants of its own.
func idsWork(r *sim.R) func(*transcript) {
	kind := rt.Choose(2)
	u := genEntries(r, newIdx(kind), 1+rt.Choose(6))
	type op struct {
		kind int // 0 index 1 find 2 get 3 list 4 save 5 reload
		e    entry
		n    int
	}
	var ops []op
	for i := 3 + rt.Choose(14); i > 0; i-- {
		ops = append(ops, op{rt.Weighted(6, 3, 3, 1, 1, 1), u[rt.Choose(len(u))], rt.Choose(8)})
	}
	return func(t *transcript) {
		x := newIdx(kind)
		var data []byte
		var known []uint32
		for _, o := range ops {
			switch o.kind {
			case 0:
				id := x.index(append(entry(nil), o.e...))
				known = append(known, id)
				t.add("index %v: %#x", o.e, id)
			case 1:
				id, ok := x.find(append(entry(nil), o.e...))
				t.add("find %v: %#x %v", o.e, id, ok)
			case 2:
				if len(known) == 0 {
					break
				}
				id := known[o.n%len(known)]
				e, ok := x.get(id)
				t.add("get %#x: %v %v", id, e, ok)
			case 3:
				t.add("list: %v", x.list())
			case 4:
				w := stream.NewWriter()
				err := x.save(binutils.NewBinaryWriter(w))
				t.add("save: %d bytes, %v", len(w.Data), err)
				data = w.Data
			case 5:
				if data == nil {
					break
				}
				x = newIdx(kind)
				t.add("reload: %v", x.load(binutils.NewBinaryReader(stream.NewReader(data))))
			}
		}
		t.add("at the end: %s", x.dump())
	}
}

// catalogueWork uses a tag catalogue of its own.
func catalogueWork(r *sim.R) func(*transcript) {
	names := genTagNames(1 + rt.Choose(6))
	type op struct {
		kind         int // 0 index 1 find 2 get 3 save 4 reload 5 failed load
		name, parent dag.TagName
		n            int
	}
	var ops []op
	for i := 3 + rt.Choose(14); i > 0; i-- {
		ops = append(ops, op{rt.Weighted(6, 3, 3, 2, 1, 1), names[rt.Choose(len(names))], names[rt.Choose(len(names))], rt.Choose(20)})
	}
	return func(t *transcript) {
		x := dag.NewIndex()
		var data []byte
		for _, o := range ops {
			switch o.kind {
			case 0:
				t.add("register %q below %q: %d", o.name, o.parent, x.Index(o.name, o.parent))
			case 1:
				id, ok := x.Find(o.name)
				t.add("find %q: %d %v", o.name, id, ok)
			case 2:
				tag, ok := x.Get(dag.TagID(o.n))
				t.add("get %d: %q %v", o.n, tag, ok)
			case 3:
				w := stream.NewWriter()
				err := x.BinaryWriteTo(binutils.NewBinaryWriter(w))
				t.add("save: %q, %v", w.Data, err)
				data = w.Data
			case 4:
				if data == nil {
					break
				}
				old := x
				t.keep("a catalogue", func() string { return fmt.Sprintf("%q", []dag.Tag(old)) })
				x = nil
				t.add("reload: %v", x.BinaryReadFrom(binutils.NewBinaryReader(stream.NewReader(data))))
			case 5:
				if len(data) < 2 {
					break
				}
				rt.Probe("failed-load")
				var y dag.Idx
				t.add("load a part: %v", y.BinaryReadFrom(binutils.NewBinaryReader(stream.NewReader(data[:1+o.n%(len(data)-1)]))) == nil)
			}
		}
		t.add("at the end: %q", []dag.Tag(x))
		t.settle()
	}
}

// setsWork uses id sets, tables and collections of its own.
func setsWork(r *sim.R) func(*transcript) {
	type op struct {
		kind int // 0 write and read 1 collection of small ids 2 collection of big ids 3 part
		e    []uint16
		n    int
	}
	var ops []op
	for i := 3 + rt.Choose(10); i > 0; i-- {
		o := op{kind: rt.Weighted(4, 3, 3, 1), n: rt.Choose(8)}
		for k := 1 + rt.Log(3); k > 0; k-- {
			o.e = append(o.e, uint16(rt.Choose(4)+rt.Choose(2)*rt.Choose(1<<12)))
		}
		ops = append(ops, o)
	}
	return func(t *transcript) {
		var c8 storage.Collection8x8
		var c16 storage.Collection16
		var ids8 []storage.ID16
		var ids16 []storage.ID32
		for _, o := range ops {
			s8, s16 := make(storage.Set8, len(o.e)), make(storage.Set16, len(o.e))
			for i, v := range o.e {
				s8[i], s16[i] = storage.ID8(v), storage.ID16(v)
			}
			switch o.kind {
			case 0, 3:
				w := stream.NewWriter()
				a, err := s8.WriteTo(w)
				b, err2 := s16.WriteTo(w)
				d := w.Data
				if o.kind == 3 {
					rt.Probe("failed-load")
					d = d[:o.n%len(d)]
				}
				rd := stream.NewReader(d)
				var r8 storage.Set8
				var r16 storage.Set16
				c, err3 := r8.ReadFrom(rd)
				t.add("write %d %v %d %v, read %d %v", a, err, b, err2, c, err3 == nil)
				if err3 == nil {
					e, err4 := r16.ReadFrom(rd)
					t.add("%v, %d %v", r8, e, err4 == nil)
					if err4 == nil {
						t.add("%v", r16)
						t.keep("a set", func() string { return fmt.Sprint(r8, r16) })
					}
				}
			case 1:
				id := c8.Index(s8)
				ids8 = append(ids8, id)
				s, ok := c8.Get(ids8[o.n%len(ids8)])
				t.add("index %v: %d; get %d: %v %v", o.e, id, ids8[o.n%len(ids8)], s, ok)
				t.keep("a stored set", func() string { return fmt.Sprint(s) })
			case 2:
				id := c16.Index(s16)
				ids16 = append(ids16, id)
				s, ok := c16.Get(ids16[o.n%len(ids16)])
				t.add("index %v: %d; get %d: %v %v", o.e, id, ids16[o.n%len(ids16)], s, ok)
				t.keep("a stored set", func() string { return fmt.Sprint(s) })
			}
		}
		t.settle()
	}
}

// directoryWork uses a data directory of its own.
func directoryWork(r *sim.R, i int) func(*transcript) {
	type op struct {
		kind int // 0 compile 1 save 2 load 3 update 4 unpack and compile again
		d    *dict
		x    func() (*index.Index, *model, func())
		f    bool
	}
	var ops []op
	for n := 1 + rt.Choose(3); n > 0; n-- {
		o := op{kind: rt.Weighted(4, 2, 2, 3), f: rt.OneIn(2)}
		switch o.kind {
		case 0:
			how := 0
			if rt.OneIn(4) {
				how = 1 + rt.Choose(len(malformations)-1)
			}
			if o.d = getDict(uint32(rt.Log(15)), how); o.d.what == "not-bzip2" {
				o.d = getDict(o.d.id, 0)
			}
			if o.d.what != "" {
				r.Probe("malformed")
			}
		}
		ops = append(ops, o)
	}
	runs := 0
	return func(t *transcript) {
		runs++
		dir := fmt.Sprintf("/data/%d/%d", i, runs)
		simos.HarnessMkdirAll(dir)
		l := opencorpora.NewLoader(dir)
		source, compiled := path.Join(dir, opencorpora.LocalUnpackedFilename), path.Join(dir, opencorpora.LocalCompiledFilename)
		for _, o := range ops {
			switch o.kind {
			case 0:
				simos.HarnessPut(source, append([]byte(nil), o.d.xml...), rt.LocalNS())
				t.add("compile %d %s: %v", o.d.id, o.d.what, l.ParseUpdate(source, compiled) == nil)
			case 1:
				x := index.New()
				x.TagID("NOUN", "")
				if n, err := x.AddString("дом"); err == nil && o.f {
					_ = n.AddTagSet("NOUN")
				}
				t.add("save: %v", l.SaveIndex(x, compiled))
			case 2:
				x, err := l.LoadIndex()
				if err != nil {
					t.add("load: error")
					break
				}
				t.add("load: %d %d %d", x.WordsCount(), x.NodesCount(), len(x.Tags()))
			case 3:
				t.add("update (forced: %v): %v", o.f, l.Update(o.f) == nil)
			}
			data, ok := simos.HarnessGet(compiled)
			t.add("compiled: %v %x", ok, sum(data))
		}
		var names []string
		for _, n := range simos.HarnessTree() {
			if f := strings.Fields(n); strings.HasPrefix(f[0], dir+"/") {
				names = append(names, strings.TrimPrefix(f[0], dir))
			}
		}
		t.add("files: %q", names)
	}
}

func sum(data []byte) (h uint64) {
	h = 14695981039346656037
	for _, b := range data {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return h
}
