package main

import (
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/pkg/dag"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var tagParts = []string{"pkg/dag (Tag, TagName, Idx)", "amarin/binutils reader and writer"}

var c03 = sim.Prop{
	ID: "C03", Quick: 500000, Thorough: 40_000_000,
	Rule: "a run writes a tag catalogue (built through the registry or literally, up to past the length limit, sometimes with a name the format cannot hold), " +
		"followed by other data, and reads it back through a reader splitting the bytes as the seed decides; non-trivial: a read delivered less than asked, " +
		"end-of-file came with data, or the catalogue was not representable",
	Run: runC03, Real: tagParts, Stub: []string{"io.Reader / io.Writer arguments (simulated streams)"},
	Want: []string{"short-read", "eof-with-data", "too-many-tags", "bad-name", "trailing-data", "reused-receiver", "name-bytes"},
}

var c04 = sim.Prop{
	ID: "C04", Quick: 500000, Thorough: 40_000_000,
	Rule: "a run reads or writes a tag name, tag or catalogue with one stream failure at a byte the seed picks and then uses the objects on a good stream; " +
		"non-trivial: the failure really hit the unfinished value",
	Run: runC04, Real: tagParts, Stub: []string{"io.Reader / io.Writer arguments (simulated streams)"},
	Want: []string{"stream-cut", "stream-read-error", "stream-write-error", "stream-short-write"},
}

const letters = "ABCNOUVERPSTabcdxyz0189_-. "

// genName makes a four byte tag name that is not the empty marker.
func genName(i int) dag.TagName {
	switch rt.Weighted(6, 3, 2, 1) {
	case 1:
		return dag.TagName([]string{"POST", "NOUN", "VERB", "anim", "masc", "plur", "Name", "Surn"}[rt.Choose(8)])
	case 2: // two cyrillic letters
		return dag.TagName(string([]rune{rune('а' + rt.Choose(32)), rune('а' + rt.Choose(32))}))
	case 3: // anything
		b := []byte{byte(rt.Choose(256)), byte(rt.Choose(256)), byte(rt.Choose(256)), byte(rt.Choose(256))}
		if string(b) != "    " && string(b) != string(dag.EmptyTagName) {
			return dag.TagName(b)
		}
	}
	b := []byte{letters[rt.Choose(len(letters)-2)], letters[rt.Choose(len(letters))], letters[rt.Choose(len(letters))], byte('0' + i%10)}
	return dag.TagName(b)
}

func genParent(known []dag.TagName) dag.TagName {
	switch rt.Choose(4) {
	case 0:
		return ""
	case 1:
		return dag.EmptyTagName
	case 2:
		return genName(7)
	default:
		if len(known) > 0 {
			return known[rt.Choose(len(known))]
		}
		return ""
	}
}

func canon(p dag.TagName) dag.TagName {
	if p == "" {
		return dag.EmptyTagName
	}
	return p
}

// genCatalogue builds a catalogue of unique names and tells whether it is representable.
func genCatalogue(r *sim.R, odd bool) (idx dag.Idx, ok bool) {
	n := rt.Log(4)
	if rt.OneIn(8) {
		n = rt.Log(9)
	}
	if rt.OneIn(10) {
		n = 250 + rt.Choose(10)
	}
	if !odd && n > 255 {
		n = 255
	}
	ok = true
	seen := map[dag.TagName]bool{}
	var known []dag.TagName
	var tags []dag.Tag
	bad := -1
	if odd && rt.OneIn(6) && n > 0 {
		bad = rt.Choose(n)
	}
	for i := 0; i < n; i++ {
		name := dag.TagName(fmt.Sprintf("%04x", i))
		if i < 24 {
			name = genName(i)
		}
		for k := 0; seen[name]; k++ {
			name = dag.TagName(fmt.Sprintf("~%03x", i+k*1024))
		}
		var parent dag.TagName
		if i < 24 {
			parent = genParent(known)
		} else if i%3 == 0 {
			parent = known[i%7]
		}
		if i == bad {
			odd := []dag.TagName{"ABC", "ABCDE", "байт", "A", "ABCDEFGH"}[rt.Choose(5)]
			if rt.OneIn(2) {
				name = odd
			} else {
				parent = odd
			}
			ok = false
			r.Probe("bad-name")
		}
		seen[name] = true
		known = append(known, name)
		tags = append(tags, dag.Tag{Parent: parent, Name: name})
	}
	if n > 255 {
		ok = false
		r.Probe("too-many-tags")
	}
	if rt.OneIn(2) && n < 200 {
		idx = dag.NewIndex()
		for _, t := range tags {
			t := t
			r.Must(rt.Call(big, func() { idx.Index(t.Name, t.Parent) }), "Index")
		}
	} else if rt.OneIn(2) {
		idx = dag.Idx(append([]dag.Tag(nil), tags...))
	} else {
		r.Must(rt.Call(big, func() { idx = dag.NewIndex(tags...) }), "NewIndex")
	}
	return idx, ok
}

func sameIdx(a, b dag.Idx) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d tags instead of %d", len(b), len(a))
	}
	for i := range a {
		if a[i].Name != b[i].Name || canon(a[i].Parent) != canon(b[i].Parent) {
			return fmt.Sprintf("id %d: %q below %q instead of %q below %q", i, b[i].Name, b[i].Parent, a[i].Name, canon(a[i].Parent))
		}
	}
	return ""
}

// nameBytes turns one name into its bytes and back.
func nameBytes(r *sim.R) {
	name := genName(3)
	ok := true
	switch rt.Choose(5) {
	case 0:
		name = []dag.TagName{"", dag.EmptyTagName}[rt.Choose(2)]
	case 1:
		name, ok = []dag.TagName{"A", "AB", "ABC", "ABCDE", "байт", " ", "     "}[rt.Choose(7)], false
	}
	given := make([]byte, rt.Choose(9))
	for i := range given {
		given[i] = byte(rt.Choose(4) * 32)
	}
	r.Probe("name-bytes")
	r.Log("name %q to bytes and back, and from %x", name, given)
	r.Must(rt.Call(big, func() {
		b, err := name.MarshalBinary()
		if (err == nil) != ok {
			r.Fail("bytes", "the bytes of name %q: %x, %v", name, b, err)
			return
		}
		if ok {
			got := dag.TagName("used")
			if err := got.UnmarshalBinary(b); len(b) != 4 || err != nil || got != canon(name) {
				r.Fail("bytes", "name %q has the bytes %x, which are name %q, %v", name, b, got, err)
			}
			for i := range b {
				b[i] = '!'
			}
			if got != canon(name) {
				r.Fail("bytes", "changing the bytes of name %q changed it to %q", name, got)
			}
		}
		got := dag.TagName("used")
		want := canon(dag.TagName(given))
		if string(given) == "    " {
			want = dag.EmptyTagName
		}
		switch err := got.UnmarshalBinary(append([]byte(nil), given...)); {
		case len(given) != 4 && err == nil:
			r.Fail("bytes", "%d bytes %x are taken as name %q", len(given), given, got)
		case len(given) == 4 && (err != nil || got != want):
			r.Fail("bytes", "bytes %x are taken as name %q, %v", given, got, err)
		}
	}), "a name and its bytes")
}

func runC03(r *sim.R) {
	if rt.OneIn(12) {
		nameBytes(r)
	}
	idx, ok := genCatalogue(r, true)
	w := stream.NewWriter()
	var err error
	r.Must(rt.Call(big, func() { err = idx.BinaryWriteTo(binutils.NewBinaryWriter(w)) }), "BinaryWriteTo")
	r.Log("write %d tags -> %d bytes, err %v (representable %v)", idx.Len(), len(w.Data), err, ok)
	r.Shape("n%d ok%v %x", idx.Len(), ok, w.Data)
	if !ok {
		r.NonTrivial()
		if err == nil {
			r.Fail("unrepresentable-written", "a catalogue of %d tags the format cannot represent was written without an error", idx.Len())
		}
		return
	}
	if err != nil {
		r.Fail("write-failed", "writing %d tags to a healthy stream failed: %v", idx.Len(), err)
	}
	size := len(w.Data)
	data := append([]byte(nil), w.Data...)
	if rt.OneIn(2) {
		r.Probe("trailing-data")
		for i := rt.Choose(12); i >= 0; i-- {
			data = append(data, byte(rt.Choose(256)))
		}
	}
	rd := stream.NewReader(data)
	src := source(rd)
	r.Log("read back: %v", rd)
	r.Shape("mode%d eof%v", rd.Mode, rd.WithEOF)
	got := dag.NewIndex()
	if rt.OneIn(3) {
		r.Probe("reused-receiver")
		got = dag.NewIndex(dag.Tag{Name: "used"}, dag.Tag{Name: "also"})
		if rt.OneIn(2) { // as large as the one to read
			got = dag.NewIndex(make([]dag.Tag, len(idx)+rt.Choose(3))...)
		}
	}
	before := got
	wasBefore := append(dag.Idx(nil), got...)
	br := binutils.NewBinaryReader(src)
	r.Must(rt.Call(big, func() { err = got.BinaryReadFrom(br) }), "BinaryReadFrom")
	if err != nil {
		r.Fail("read-failed", "reading %d tags back failed on a complete stream (%v): %v", idx.Len(), rd, err)
	}
	if d := sameIdx(idx, got); d != "" {
		r.Fail("changed", "the catalogue changed on its way through the stream (%v): %s", rd, d)
	}
	if d := sameIdx(wasBefore, before); d != "" {
		r.Fail("changed-later", "reading a catalogue changed the one held before: %s", d)
	}
	for i := range got {
		if got[i].Parent == "" {
			r.Fail("parent-empty", "an absent parent reads back as %q", got[i].Parent)
		}
	}
	if rd.Pos != size {
		r.Fail("consumed", "reading took %d bytes, writing produced %d (%v)", rd.Pos, size, rd)
	}
	r.Must(rt.Call(big, func() {
		for i := 0; i < len(idx); i += 1 + len(idx)/16 {
			id, found := got.Find(idx[i].Name)
			wid, _ := idx.Find(idx[i].Name)
			if !found || id != wid {
				r.Fail("lookup", "after reading back, %q has id %v (found %v), it was written as %v", idx[i].Name, id, found, wid)
			}
			tag, found := got.Get(dag.TagID(i))
			if !found || tag.Name != idx[i].Name {
				r.Fail("lookup", "after reading back, id %d is %v (found %v)", i, tag, found)
			}
		}
		if _, found := got.Get(dag.TagID(len(idx))); found && len(idx) < 256 {
			r.Fail("lookup", "id %d was never written but is found", len(idx))
		}
	}), "lookups")
	if rd.Short > 0 {
		r.Probe("short-read")
		r.NonTrivial()
	}
	if rd.WithEOF {
		r.Probe("eof-with-data")
		r.NonTrivial()
	}
}

// value is something with a binary form.
type value interface {
	BinaryWriteTo(*binutils.BinaryWriter) error
}

func runC04(r *sim.R) {
	kind := rt.Choose(3)
	var v value
	var idx dag.Idx
	var tag dag.Tag
	var name dag.TagName
	switch kind {
	case 0:
		idx, _ = genCatalogue(r, false)
		v = idx
	case 1:
		tag = dag.Tag{Parent: genParent(nil), Name: genName(1)}
		v = tag
	default:
		name = genName(2)
		v = name
	}
	w := stream.NewWriter()
	var err error
	r.Must(rt.Call(big, func() { err = v.BinaryWriteTo(binutils.NewBinaryWriter(w)) }), "BinaryWriteTo")
	if err != nil {
		r.Fail("write-failed", "writing to a healthy stream failed: %v", err)
	}
	total := len(w.Data)
	k := rt.Choose(total)
	if rt.OneIn(2) {
		k = total - 1 - rt.Choose(9)
		if k < 0 {
			k = 0
		}
	}
	r.Shape("kind%d total%d k%d %x", kind, total, k, w.Data)
	if rt.OneIn(2) {
		// failing writer
		bw := stream.NewWriter()
		bw.FailAt, bw.Silent, bw.Sticky = k, rt.OneIn(2), rt.OneIn(2)
		out := binutils.NewBinaryWriter(bw)
		r.Must(rt.Call(big, func() { err = v.BinaryWriteTo(out) }), "BinaryWriteTo")
		r.Log("write %T of %d bytes to a stream failing after %d (silent %v): %v", v, total, k, bw.Silent, err)
		if !bw.Failed {
			r.Fail("incomplete", "writing stopped after %d of %d bytes without the stream failing (error %v)", len(bw.Data), total, err)
		}
		r.NonTrivial()
		if err == nil {
			r.Fail("write-silent", "writing %T reported success although the stream accepted only %d of %d bytes", v, k, total)
		}
		return
	}
	rd := stream.NewReader(append([]byte(nil), w.Data...))
	ferr := error(stream.ErrInjected)
	switch rt.Choose(4) {
	case 0, 1:
		ferr = io.EOF
	case 2:
		ferr = io.ErrUnexpectedEOF
	}
	rd.Fail(k, ferr, rt.OneIn(2))
	var gotIdx = dag.NewIndex()
	var gotTag dag.Tag
	var gotName dag.TagName
	read := func(src io.Reader) error {
		br := binutils.NewBinaryReader(src)
		switch kind {
		case 0:
			return gotIdx.BinaryReadFrom(br)
		case 1:
			return gotTag.BinaryReadFrom(br)
		default:
			return gotName.BinaryReadFrom(br)
		}
	}
	src := source(rd)
	r.Must(rt.Call(big, func() { err = read(src) }), "BinaryReadFrom")
	r.Log("read %T of %d bytes from %v: %v", v, total, rd, err)
	if rd.Failed {
		r.NonTrivial()
	}
	if err == nil {
		r.Fail("invented", "reading %T reported success although only %d of %d bytes were delivered (%v)", v, k, total, rd)
	}
	good := stream.NewReader(append([]byte(nil), w.Data...))
	r.Must(rt.Call(big, func() { err = read(good) }), "BinaryReadFrom")
	if err != nil {
		r.Fail("after-failure", "after a failed read, reading a complete stream failed: %v", err)
	}
	switch kind {
	case 0:
		if d := sameIdx(idx, gotIdx); d != "" {
			r.Fail("after-failure", "after a failed read, reading again gave %s", d)
		}
	case 1:
		if gotTag.Name != tag.Name || gotTag.Parent != canon(tag.Parent) {
			r.Fail("after-failure", "after a failed read, reading again gave %q below %q", gotTag.Name, gotTag.Parent)
		}
	default:
		if gotName != name {
			r.Fail("after-failure", "after a failed read, reading again gave %q", gotName)
		}
	}
}
