package main

import (
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var c27 = sim.Prop{
	ID: "C27", Quick: 250000, Thorough: 20_000_000,
	Rule: "a run writes 1..6 parts of a compiled index (tag sets, tables and indexes of them, variants, tables and indexes of them, items and item lists) one behind another to a simulated stream, " +
		"which may fail at a byte the seed picks, and reads them back from a stream in pieces, which may be cut or fail, into fresh or used values; " +
		"non-trivial: a failure hit an unfinished part, a read delivered less than asked, or a part too long for the format was written",
	Run: runC27, Real: []string{"internal/index (TagSet, TagSetTable, TagSetIndex, TagSetIDCollection, VariantsTable, VariantsIndex, Item, Items)", "amarin/binutils reader and writer"},
	Stub: []string{"io.Reader / io.Writer arguments (simulated streams)"},
	Want: []string{"short-read", "eof-with-data", "too-long", "longest", "used-receiver", "stream-cut", "stream-read-error", "stream-write-error", "stream-short-write", "counted",
		"tag set", "tag sets table", "tag sets index", "variant", "variants table", "variants index", "item", "items"},
}

// part is one value of any of the types an index consists of.
type part struct {
	name   string
	fits   bool
	write  func(*binutils.BinaryWriter) error
	read   func(*binutils.BinaryReader) error
	direct func(io.Writer) (int64, error) // if the type has it
	take   func(io.Reader) (int64, error)
	flat   func() []uint32
	keep   func() func() []uint32 // what a caller has who copied the value
}

func flatTags(r []uint32, s index.TagSet) []uint32 {
	r = append(r, uint32(len(s)))
	for _, t := range s {
		r = append(r, uint32(t))
	}
	return r
}

func flatTable(r []uint32, t index.TagSetTable) []uint32 {
	r = append(r, uint32(len(t)))
	for _, s := range t {
		r = flatTags(r, s)
	}
	return r
}

func flatVariant(r []uint32, s index.TagSetIDCollection) []uint32 {
	r = append(r, uint32(len(s)))
	for _, t := range s {
		r = append(r, uint32(t))
	}
	return r
}

func flatVariants(r []uint32, t index.VariantsTable) []uint32 {
	r = append(r, uint32(len(t)))
	for _, s := range t {
		r = flatVariant(r, s)
	}
	return r
}

func flatItem(r []uint32, i index.Item) []uint32 {
	return append(r, uint32(i.Parent), uint32(i.ID), uint32(i.Letter), uint32(i.Variants))
}

func all[T any](x []T, each func([]uint32, T) []uint32) []uint32 {
	r := []uint32{uint32(len(x))}
	for _, t := range x {
		r = each(r, t)
	}
	return r
}

// newPart makes a part of a kind, empty if v is nil. Its content are the numbers of v.
func newPart(kind int, v *numbers) part {
	switch kind {
	case 0:
		x := v.tags()
		return part{name: "tag set", fits: len(x) <= 255, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			direct: func(w io.Writer) (int64, error) { return x.WriteTo(w) }, take: func(r io.Reader) (int64, error) { return x.ReadFrom(r) },
			flat: func() []uint32 { return flatTags(nil, x) },
			keep: func() func() []uint32 { y := x; return func() []uint32 { return flatTags(nil, y) } }}
	case 1:
		x := v.table()
		return part{name: "tag sets table", fits: len(x) <= 65535, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() []uint32 { return flatTable(nil, x) },
			keep: func() func() []uint32 { y := x; return func() []uint32 { return flatTable(nil, y) } }}
	case 2:
		x := index.TagSetIndex{}
		for i := v.count(4); i > 0; i-- {
			x = append(x, v.table())
		}
		return part{name: "tag sets index", fits: true, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() []uint32 { return all(x, flatTable) },
			keep: func() func() []uint32 { y := x; return func() []uint32 { return all(y, flatTable) } }}
	case 3:
		x := v.variant()
		return part{name: "variant", fits: len(x) <= 255, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() []uint32 { return flatVariant(nil, x) },
			keep: func() func() []uint32 { y := x; return func() []uint32 { return flatVariant(nil, y) } }}
	case 4:
		x := v.variants()
		return part{name: "variants table", fits: len(x) <= 65536, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() []uint32 { return flatVariants(nil, x) },
			keep: func() func() []uint32 { y := x; return func() []uint32 { return flatVariants(nil, y) } }}
	case 5:
		x := index.VariantsIndex{}
		n := v.count(4)
		if v != nil && v.long && v.kind == kind {
			n = v.n
		}
		for i := n; i > 0; i-- {
			x = append(x, v.variants())
		}
		return part{name: "variants index", fits: len(x) <= 255, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() []uint32 { return all(x, flatVariants) },
			keep: func() func() []uint32 { y := x; return func() []uint32 { return all(y, flatVariants) } }}
	case 6:
		x := index.Item{}
		if v != nil {
			x = index.Item{Parent: dag.ID(v.next()), ID: dag.ID(v.next()), Letter: rune(v.next() & 0x1fffff), Variants: index.VariantID(v.next())}
		}
		return part{name: "item", fits: true, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() []uint32 { return flatItem(nil, x) }}
	default:
		x := index.NewItems()
		n := v.count(40)
		if v != nil && v.long && v.kind == 7 {
			n = v.n
		}
		for i := n; i > 0; i-- {
			it := x.NewChild(dag.ID(v.next()), rune(v.next()&0x1fffff))
			x.Get(it.ID).Variants = index.VariantID(v.next())
		}
		return part{name: "items", fits: true, write: func(w *binutils.BinaryWriter) error { return x.BinaryWriteTo(w) }, read: func(r *binutils.BinaryReader) error { return x.BinaryReadFrom(r) },
			flat: func() (r []uint32) {
				r = append(r, uint32(x.NextID()))
				for i := dag.ID(1); i < x.NextID(); i++ {
					r = flatItem(r, *x.Get(i))
				}
				return r
			}}
	}
}

// numbers produces the content of a part.
type numbers struct {
	x    uint32
	kind int
	long bool // a part about as long as its format allows
	n    int
	high bool
}

func (v *numbers) next() uint32 {
	v.x = v.x*1664525 + 1013904223
	if v.high {
		return v.x | 0x80000080
	}
	return v.x >> 7
}

// count is a number below limit, mostly small.
func (v *numbers) count(limit uint32) int {
	if v == nil {
		return 0
	}
	return int(v.next() >> 3 % limit)
}

func (v *numbers) length(kind int) int {
	if v != nil && v.long && v.kind == kind {
		return v.n
	}
	return v.count(6)
}

func (v *numbers) tags() (s index.TagSet) {
	for i := v.length(0); i > 0; i-- {
		s = append(s, dag.TagID(v.next()))
	}
	return s
}

func (v *numbers) table() (t index.TagSetTable) {
	for i := v.length(1); i > 0; i-- {
		t = append(t, v.tags())
	}
	return t
}

func (v *numbers) variant() (s index.TagSetIDCollection) {
	for i := v.length(3); i > 0; i-- {
		s = append(s, index.TagSetID(v.next()))
	}
	return s
}

func (v *numbers) variants() (t index.VariantsTable) {
	for i := v.length(4); i > 0; i-- {
		t = append(t, v.variant())
	}
	return t
}

// genPart makes a part and what it must read back as.
func genPart(r *sim.R) (part, int, []uint32) {
	kind := rt.Choose(8)
	v := &numbers{x: uint32(rt.Choose(1 << 16)), kind: kind, high: rt.OneIn(3)}
	switch {
	case (kind == 0 || kind == 3 || kind == 5) && rt.OneIn(8):
		v.long, v.n = true, 250+rt.Choose(12)
	case rt.OneIn(60):
		v.long, v.n = true, rt.Edge(3, 8)
		if kind != 0 && kind != 3 && kind != 5 && rt.OneIn(4) {
			v.n = rt.Edge(8, 12)
			if kind == 7 {
				v.n = rt.Edge(8, 16) - 1 // with the root
			}
		}
	case (kind == 1 || kind == 4) && rt.OneIn(400):
		v.long, v.n = true, 65530+rt.Choose(12)
	}
	var p part
	var want []uint32
	r.Must(rt.Call(big, func() { p = newPart(kind, v); want = p.flat() }), "making a part")
	r.Probe(p.name)
	if v.long && p.fits && v.n >= 250 {
		r.Probe("longest")
	}
	return p, kind, want
}

func sameNumbers(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func brief(v []uint32) string {
	if len(v) > 24 {
		return fmt.Sprintf("%d numbers %v..", len(v), v[:24])
	}
	return fmt.Sprint(v)
}

func runC27(r *sim.R) {
	w := stream.NewWriter()
	failing := rt.OneIn(3)
	if failing {
		w.FailAt, w.Silent, w.Sticky = rt.Log(10), rt.OneIn(2), rt.OneIn(2)
	}
	type written struct {
		name string
		kind int
		want []uint32
		end  int
	}
	var parts []written
	shared := binutils.NewBinaryWriter(w)
	for n := 1 + rt.Choose(6); n > 0; n-- {
		p, kind, want := genPart(r)
		before, failed := len(w.Data), w.Failed
		var err error
		count := int64(-1)
		r.Must(rt.Call(big, func() {
			switch {
			case p.direct != nil && rt.OneIn(2):
				count, err = p.direct(w)
			case rt.OneIn(2):
				err = p.write(shared)
			default:
				err = p.write(binutils.NewBinaryWriter(w))
			}
		}), "writing a "+p.name)
		took := len(w.Data) - before
		r.Log("write %s %s -> %d bytes, count %d, err %v", p.name, brief(want), took, count, err)
		r.Shape("%s %d", p.name, len(want))
		if count >= 0 {
			r.Probe("counted")
			if count != int64(took) {
				r.Fail("write-count", "writing %s %s reported %d bytes, the stream accepted %d (error %v)", p.name, brief(want), count, took, err)
			}
		}
		if now := p.flat(); !sameNumbers(now, want) {
			r.Fail("changed-by-writing", "writing (%v) turned %s %s into %s", err, p.name, brief(want), brief(now))
		}
		switch {
		case !p.fits:
			r.Probe("too-long")
			r.NonTrivial()
			if err == nil {
				r.Fail("overlong-written", "%s of %d numbers was written although the format has no room for its length", p.name, len(want))
			}
			w.Data = w.Data[:before]
			if w.Failed && !failed {
				r.Stop()
			}
			continue
		case w.Failed && !failed || failed && w.Sticky:
			r.NonTrivial()
			if err == nil {
				r.Fail("write-silent", "writing %s reported success, the stream accepted only %d bytes", p.name, took)
			}
			w.Data = w.Data[:before]
			continue
		case err != nil:
			r.Fail("write-failed", "writing %s %s to a healthy stream failed: %v", p.name, brief(want), err)
		}
		if now := len(w.Data); now == before {
			r.Fail("write-nothing", "writing %s %s reported success and wrote nothing", p.name, brief(want))
		}
		parts = append(parts, written{p.name, kind, want, len(w.Data)})
	}
	if len(parts) == 0 {
		return
	}
	var used [8]*part
	for round := 0; round < 2; round++ {
		rd := stream.NewReader(w.Data)
		k := len(w.Data) + 1
		if round == 0 && rt.OneIn(2) {
			k = rt.Choose(len(w.Data))
			rd.Fail(k, []error{io.EOF, io.ErrUnexpectedEOF, stream.ErrInjected}[rt.Weighted(2, 1, 1)], rt.OneIn(2))
		}
		var src io.Reader = rd
		if rt.OneIn(5) {
			src = stream.ByteReader{Reader: rd}
		}
		reader := binutils.NewBinaryReader(src)
		var held []func() []uint32
		start := 0
		for i, p := range parts {
			var q part
			r.Must(rt.Call(big, func() { q = newPart(p.kind, nil) }), "making a part")
			switch {
			case used[p.kind] != nil && rt.OneIn(3):
				r.Probe("used-receiver")
				q = *used[p.kind]
				for j := range held {
					if parts[j].kind == p.kind && q.keep == nil {
						held[j] = nil // may be the one used again
					}
				}
			case rt.OneIn(4):
				r.Probe("used-receiver")
				r.Must(rt.Call(big, func() { q = newPart(p.kind, &numbers{x: uint32(i), kind: -1}) }), "making a part")
			}
			var err error
			count := int64(-1)
			r.Must(rt.Call(big, func() {
				switch {
				case q.take != nil && rt.OneIn(2):
					count, err = q.take(src)
				case rt.OneIn(2):
					err = q.read(reader)
				default:
					err = q.read(binutils.NewBinaryReader(src))
				}
			}), "reading a "+p.name)
			took := rd.Pos - start
			complete := p.end <= k
			r.Log("read %s from %v -> %d bytes, count %d, err %v", p.name, rd, took, count, err)
			if count >= 0 && count != int64(took) {
				r.Fail("read-count", "reading %s reported %d bytes and took %d (%v, error %v)", p.name, count, took, rd, err)
			}
			var got []uint32
			r.Must(rt.Call(big, func() { got = q.flat() }), "looking at a part read")
			switch {
			case err == nil && !complete:
				r.Fail("invented", "reading %s succeeded with %s although only %d of its %d bytes were delivered (%v)", p.name, brief(got), k-start, p.end-start, rd)
			case err == nil && !sameNumbers(got, p.want):
				r.Fail("changed", "%s was written as %s and read back as %s (%v)", p.name, brief(p.want), brief(got), rd)
			case err == nil && rd.Pos != p.end:
				r.Fail("consumed", "reading %s took %d bytes, its write produced %d (%v)", p.name, took, p.end-start, rd)
			case err != nil && complete && !(p.end == k && rd.Failed):
				r.Fail("read-failed", "reading %s failed although all its bytes were delivered (%v): %v", p.name, rd, err)
			}
			used[p.kind] = &q
			if err != nil {
				r.NonTrivial()
				break
			}
			if q.keep != nil {
				held = append(held, q.keep())
			} else {
				held = append(held, q.flat)
			}
			start = p.end
		}
		for i, flat := range held {
			if flat == nil {
				continue
			}
			if got := flat(); !sameNumbers(got, parts[i].want) {
				r.Fail("changed-later", "%s was read as %s and turned into %s by later reads", parts[i].name, brief(parts[i].want), brief(got))
			}
		}
		if rd.Short > 0 {
			r.Probe("short-read")
			r.NonTrivial()
		}
		if rd.WithEOF {
			r.Probe("eof-with-data")
		}
		if k > len(w.Data) {
			break
		}
	}
}
