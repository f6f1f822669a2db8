package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"syscall"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var c09 = sim.Prop{
	ID: "C09", Quick: 120000, Thorough: 8_000_000,
	Rule: "a run saves a random index, damages the bytes (truncation, bit flips, overwritten fields, splices of two versions, lost or repeated pieces, read errors) and " +
		"loads them into a fresh or used index under a step and memory budget proportional to the size; after a successful load every operation is exercised; " +
		"non-trivial: the damaged bytes differ from the saved ones or the read failed",
	Run: runC09, Real: indexParts, Stub: []string{"streams, stored bytes (damaged by the simulator), amarin/logging (silent)"},
	Want: []string{"truncation", "bit-flip", "overwrite", "splice", "cut-out", "repeat", "length-field", "read-error", "rejected", "accepted", "accepted-different", "used-receiver", "large-index"},
}

var readErrors = []error{stream.ErrInjected, io.ErrUnexpectedEOF, io.ErrNoProgress, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}, errors.New(""), io.ErrClosedPipe}

// snapshot is every answer of an index in one string.
func snapshot(x *index.Index, m *model) string { return differs(x, m) }

// exercise runs every operation on an index whose contents are unknown.
func exercise(x *index.Index, words [][]rune, tags []dag.TagName) (err error) {
	n := x.NodesCount()
	_ = x.WordsCount()
	known := x.Tags()
	for i := range known {
		_ = string(known[i].Name) + string(known[i].Parent)
	}
	for id, step := 0, 1+n/200; id <= n+1; id += step {
		node, err := x.Get(dag.ID(id))
		if err != nil || node == nil {
			continue
		}
		_ = node.Word()
		_ = node.TagSets()
		_ = node.String()
		_ = x.GetChildrenMap(dag.ID(id))
		_ = x.GetChildrenIDMap(dag.ID(id))
		if k, ok := node.(*index.Node); ok && id <= n {
			it := k.Item()
			if c, err := x.Variants(it.Variants); err == nil {
				sets := x.TagSetIndex()
				for _, s := range c {
					if ts, ok := sets.Get(s); ok {
						_, _ = x.TagSet(ts)
					}
				}
			}
		}
	}
	for _, c := range x.Children() {
		_ = c.Word()
		_ = c.TagSets()
	}
	for _, w := range words {
		if node, err := x.FetchRunes(w); err == nil {
			_ = node.Word()
			_ = node.TagSets()
		}
		_, _ = x.FetchItemFromParent(dag.ID(n/2), w)
	}
	for _, t := range x.TagSetIndex() {
		_ = t.String()
	}
	if len(known) < 250 {
		for _, t := range tags {
			x.TagID(t, "")
		}
	}
	for i, w := range words {
		node, err := x.AddRunes(append(append([]rune(nil), w...), rune('0'+i%10)))
		if err == nil {
			_ = node.AddTagSet(tags...)
			_ = node.TagSets()
		}
		if node, err := x.AddRunes(w); err == nil {
			_ = node.AddTagSet(tags[:1]...)
			_ = node.TagSets()
		}
	}
	x.Optimize()
	data, err := save(x)
	if err != nil {
		return nil // a refused save is an answer
	}
	y := index.New()
	if err := loadInto(y, &plain{data}); err != nil {
		return fmt.Errorf("it was saved again without error but then does not load: %v", err)
	}
	return nil
}

func damage(r *sim.R, data []byte, other []byte) ([]byte, bool) {
	d := append([]byte(nil), data...)
	trunc := false
	for n := 1 + rt.Weighted(4, 2, 1); n > 0; n-- {
		if len(d) == 0 {
			break
		}
		switch rt.Weighted(3, 4, 3, 2, 2, 1, 4) {
		case 0:
			k := rt.Choose(len(d))
			d = d[:k]
			r.Log("truncated to %d bytes", k)
			rt.Note("truncation", fmt.Sprintf("byte %d", k))
			trunc = true
		case 1:
			k, b := rt.Choose(len(d)), rt.Choose(8)
			d[k] ^= 1 << b
			r.Log("bit %d of byte %d flipped", b, k)
			rt.Note("bit-flip", fmt.Sprintf("byte %d", k))
		case 2:
			k, l := rt.Choose(len(d)), 1+rt.Log(4)
			v := []byte{0, 0xFF, 1, 0x7F, byte(rt.Choose(256))}[rt.Choose(5)]
			for i := k; i < k+l && i < len(d); i++ {
				d[i] = v
			}
			r.Log("%d bytes from %d overwritten with %#x", l, k, v)
			rt.Note("overwrite", fmt.Sprintf("byte %d", k))
		case 3: // old and new file mixed page-wise
			k := rt.Choose(len(d))
			if k < len(other) {
				d = append(append([]byte(nil), d[:k]...), other[k:]...)
				r.Log("spliced at %d with another index of %d bytes", k, len(other))
				rt.Note("splice", fmt.Sprintf("byte %d", k))
			}
		case 4:
			k := rt.Choose(len(d))
			l := 1 + rt.Choose(len(d)-k)
			if l > 20 {
				l = 1 + l%20
			}
			d = append(append([]byte(nil), d[:k]...), d[k+l:]...)
			r.Log("%d bytes at %d lost", l, k)
			rt.Note("cut-out", fmt.Sprintf("byte %d", k))
		case 5:
			k := rt.Choose(len(d))
			l := 1 + rt.Choose(len(d)-k)
			d = append(append(append([]byte(nil), d[:k+l]...), d[k:k+l]...), d[k+l:]...)
			r.Log("%d bytes at %d repeated", l, k)
			rt.Note("repeat", fmt.Sprintf("byte %d", k))
		case 6: // an aligned field gets an interesting value
			if len(d) < 8 {
				continue
			}
			k := rt.Choose(len(d) - 4)
			vals := [][]byte{{0xFF, 0xFF, 0xFF, 0xFF}, {0x7F, 0xFF, 0xFF, 0xFF}, {0x80, 0, 0, 0}, {0, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 0, byte(rt.Choose(8))}, {0, byte(rt.Choose(4)), 0, byte(rt.Choose(4))}, {0, 0xFF, 0xFF, 0xFF}}
			copy(d[k:], vals[rt.Choose(len(vals))])
			r.Log("four bytes at %d became % x", k, d[k:k+4])
			rt.Note("length-field", fmt.Sprintf("byte %d", k))
		}
	}
	return d, trunc
}

func runC09(r *sim.R) {
	logs(r)
	x, m, fill := genIndex(1+rt.Choose(6), rt.Choose(8))
	_, m2, fill2 := func() (*index.Index, *model, func()) { return genIndex(1+rt.Choose(6), rt.Choose(8)) }()
	_ = m2
	var data, other []byte
	var err error
	r.Must(rt.Call(big, func() { fill(); data, err = save(x) }), "building the index")
	if err != nil {
		r.Fail("save-failed", "saving failed: %v", err)
	}
	y, my, fillY := genIndex(2, 2)
	r.Must(rt.Call(big, func() {
		fill2()
		if rt.OneIn(2) { // a later version of the same index
			n, e := x.AddRunes([]rune("новое"))
			if e == nil {
				_ = n.AddTagSet(m.tags[0].Name)
			}
		}
		other, err = save(x)
	}), "building another version")
	if err != nil {
		r.Fail("save-failed", "saving failed: %v", err)
	}
	used := rt.OneIn(3)
	if used {
		r.Probe("used-receiver")
		r.Must(rt.Call(big, fillY), "filling the receiver")
		if rt.OneIn(3) {
			var df string
			r.Must(rt.Call(big, func() { df = differs(y, my) }), "asking the receiver")
			if df != "" {
				r.Fail("answers", "before the load: %s", df)
			}
		}
	} else {
		y, my = index.New(), newModel()
	}
	mode := rt.Weighted(5, 2, 2)
	d := data
	fullTrunc := -1
	rd := stream.NewReader(data)
	switch mode {
	case 0:
		d, _ = damage(r, data, other)
		rd.Data = d
	case 1: // pure truncation: always an error
		fullTrunc = rt.Choose(len(data))
		rd.Data = data[:fullTrunc]
		rt.Note("truncation", fmt.Sprintf("byte %d", fullTrunc))
		r.Log("only the first %d of %d bytes", fullTrunc, len(data))
	case 2:
		k := rt.Choose(len(data))
		e := readErrors[rt.Choose(len(readErrors))]
		rd.Fail(k, e, rt.OneIn(3))
		rt.Note("read-error", fmt.Sprintf("byte %d", k))
		r.Log("reading fails at byte %d of %d: %v", k, len(data), e)
	}
	if string(rd.Data) != string(data) || rd.FailAt >= 0 {
		r.NonTrivial()
	}
	// time and memory in proportion to the size
	n := int64(len(rd.Data))
	b := rt.Budget{Steps: 400*n + 200_000, Alloc: 24*n + 100_000} // one two-byte length may be trusted before its items are read
	out := rt.Call(b, func() { err = loadInto(y, source(rd)) })
	r.Log("load of %d bytes (saved: %d, used receiver: %v, %v) -> %v", len(rd.Data), len(data), used, rd, err)
	r.Shape("%d %d %v", mode, len(rd.Data), err != nil)
	r.Must(out, "loading a damaged index")
	if err == nil && mode == 1 {
		r.Fail("truncated-accepted", "the first %d of %d bytes were accepted as a complete index (%v)", fullTrunc, len(data), rd)
	}
	if err == nil && mode == 2 {
		r.Fail("read-error-ignored", "reading failed at byte %d of %d but loading reported success (%v)", rd.FailAt, len(data), rd)
	}
	if err != nil {
		r.Probe("rejected")
		if mode == 0 && string(rd.Data) == string(data) {
			r.Fail("good-rejected", "an undamaged index was rejected: %v", err)
		}
		var df string
		r.Must(rt.Call(big, func() { df = differs(y, my) }), "using the receiving index after a failed load")
		if df != "" {
			r.Fail("receiver-changed", "a failed load (%v) changed the receiving index: %s", err, df)
		}
		// and it can still load the good one
		r.Must(rt.Call(big, func() { err = loadInto(y, &plain{data}) }), "loading the undamaged index afterwards")
		if err != nil {
			r.Fail("good-rejected", "after a failed load the undamaged index was rejected: %v", err)
		}
		r.Must(rt.Call(big, func() { df = differs(y, m) }), "using the index")
		if df != "" {
			r.Fail("stale", "after a failed load the undamaged index loads with wrong answers: %s", df)
		}
		return
	}
	r.Probe("accepted")
	if string(rd.Data) != string(data) {
		r.Probe("accepted-different")
	}
	words := [][]rune{[]rune("a"), []rune("ab"), []rune("аб"), []rune("美"), []rune("новое")}
	for _, k := range m.keys() {
		if len(words) < 12 {
			words = append(words, unkey(k))
		}
	}
	var exErr error
	r.Must(rt.Call(rt.Budget{Steps: 20_000_000, Alloc: 20_000_000}, func() { exErr = exercise(y, words, tagPool[:3]) }), "using an index loaded from damaged bytes")
	if exErr != nil {
		r.Fail("unsafe", "an index loaded from damaged bytes is not usable: %v", exErr)
	}
}
