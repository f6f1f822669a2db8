package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/amarin/gomorphy/pkg/storage"

	"verif.local/simrt/rt"
	"verif.local/simrt/sim"
	"verif.local/simrt/stream"
)

var big = rt.Budget{Steps: 20_000_000, Alloc: 50_000_000}

var setParts = []string{"pkg/storage (Set8, Set16)", "amarin/binutils reader and writer"}

var c01 = sim.Prop{
	ID: "C01", Quick: 500000, Thorough: 40_000_000,
	Rule: "a run writes 1..6 id sets (8/16 bit, lengths up to past the format limit) to a simulated stream and reads them back through a reader " +
		"that splits the bytes as the seed decides; non-trivial: at least one read delivered less than asked, or end-of-file came with data, or a set too long was written",
	Run: runC01, Real: setParts, Stub: []string{"io.Reader / io.Writer arguments (simulated streams)"},
	Want: []string{"short-read", "eof-with-data", "too-long", "reused-receiver", "len-max"},
}

var c02 = sim.Prop{
	ID: "C02", Quick: 500000, Thorough: 40_000_000,
	Rule: "a run writes or reads 1..4 id sets with one stream failure (cut, error, error with data, short write) at a byte the seed picks, then reuses the " +
		"objects on a good stream; non-trivial: the failure really hit an unfinished set",
	Run: runC02, Real: setParts, Stub: []string{"io.Reader / io.Writer arguments (simulated streams)"},
	Want: []string{"stream-cut", "stream-read-error", "stream-write-error", "stream-short-write"},
}

// set is one id set of either width.
type set struct {
	wide bool
	el   []uint16
}

func (s set) String() string {
	w := 8
	if s.wide {
		w = 16
	}
	if len(s.el) > 12 {
		return fmt.Sprintf("set%d(%d elements %v..)", w, len(s.el), s.el[:6])
	}
	return fmt.Sprintf("set%d%v", w, s.el)
}

func (s set) fits() bool {
	if s.wide {
		return len(s.el) <= 65535
	}
	return len(s.el) <= 255
}

func (s set) size() int {
	if s.wide {
		return 2 + 2*len(s.el)
	}
	return 1 + len(s.el)
}

func (s set) set8() storage.Set8 {
	r := make(storage.Set8, len(s.el))
	for i, e := range s.el {
		r[i] = storage.ID8(e)
	}
	return r
}

func (s set) set16() storage.Set16 {
	r := make(storage.Set16, len(s.el))
	for i, e := range s.el {
		r[i] = storage.ID16(e)
	}
	return r
}

func (s set) write(w io.Writer) (int64, error) {
	if s.wide {
		return s.set16().WriteTo(w)
	}
	return s.set8().WriteTo(w)
}

// receivers that may be reused.
type receivers struct {
	s8  storage.Set8
	s16 storage.Set16
}

func (rc *receivers) read(wide bool, r io.Reader) (el []uint16, n int64, err error) {
	if wide {
		n, err = rc.s16.ReadFrom(r)
	} else {
		n, err = rc.s8.ReadFrom(r)
	}
	return rc.get(wide), n, err
}

func (rc *receivers) get(wide bool) (el []uint16) {
	if wide {
		for _, e := range rc.s16 {
			el = append(el, uint16(e))
		}
		return
	}
	for _, e := range rc.s8 {
		el = append(el, uint16(e))
	}
	return
}

func same(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func genSet(tooLong bool) set {
	s := set{wide: rt.OneIn(2)}
	n := 0
	switch rt.Weighted(6, 8, 2, 1, 1) {
	case 4: // around the sizes of buffers
		n = rt.Edge(2, 8)
		if s.wide && rt.OneIn(6) {
			n = rt.Edge(8, 13)
		}
		if s.wide && rt.OneIn(60) {
			n = rt.Edge(14, 15)
		}
	case 0:
		n = rt.Choose(4)
	case 1:
		n = rt.Log(5)
	case 2:
		n = rt.Log(8)
	case 3: // around the limits
		n = 250 + rt.Choose(12)
		if s.wide && rt.OneIn(60) {
			n = 65530 + rt.Choose(12)
		}
	}
	if !tooLong {
		lim := 255
		if s.wide {
			lim = 65535
		}
		if n > lim {
			n = lim
		}
	}
	mask := uint16(255)
	if s.wide {
		mask = 65535
	}
	style := rt.Choose(4)
	x := uint16(rt.Choose(65536))
	for i := 0; i < n; i++ {
		switch style {
		case 0: // ascending small
			s.el = append(s.el, uint16(i)&mask)
		case 1: // high
			s.el = append(s.el, (65535-uint16(i))&mask)
		case 2: // spread
			x = x*25173 + 13849
			s.el = append(s.el, x&mask)
		default:
			if i < 12 {
				s.el = append(s.el, uint16(rt.Choose(65536))&mask)
			} else {
				x = x*25173 + 13849
				s.el = append(s.el, x&mask)
			}
		}
	}
	return s
}

// source hides the concrete reader type or offers more than Read.
func source(r *stream.Reader) io.Reader {
	if rt.OneIn(5) {
		return stream.ByteReader{Reader: r}
	}
	return r
}

func runC01(r *sim.R) {
	n := 1 + rt.Choose(6)
	w := stream.NewWriter()
	var sets []set
	var ends []int
	for i := 0; i < n; i++ {
		s := genSet(true)
		before := len(w.Data)
		var cnt int64
		var err error
		r.Must(rt.Call(big, func() { cnt, err = s.write(w) }), "WriteTo")
		took := int64(len(w.Data) - before)
		r.Log("write %v -> %d bytes, count %d, err %v", s, took, cnt, err)
		if cnt != took {
			r.Fail("write-count", "WriteTo of %v reported %d bytes but wrote %d", s, cnt, took)
		}
		if !s.fits() {
			r.Probe("too-long")
			r.NonTrivial()
			r.Shape("long%d", len(s.el))
			if err == nil {
				r.Fail("overlong-written", "WriteTo of a set of %d elements succeeded although the length field cannot hold it", len(s.el))
			}
			w.Data = w.Data[:before]
			continue
		}
		if err != nil {
			r.Fail("write-failed", "WriteTo of %v on a healthy stream failed: %v", s, err)
		}
		if len(s.el) == 255 || len(s.el) == 65535 {
			r.Probe("len-max")
		}
		sets = append(sets, s)
		ends = append(ends, len(w.Data))
	}
	if len(sets) == 0 {
		return
	}
	rd := stream.NewReader(w.Data)
	src := source(rd)
	r.Log("read back: %v", rd)
	r.Shape("mode%d eof%v", rd.Mode, rd.WithEOF)
	rc := &receivers{}
	var held []receivers // what the caller has after each read
	for i, s := range sets {
		if rt.OneIn(2) {
			rc = &receivers{}
		} else if i > 0 {
			r.Probe("reused-receiver")
		}
		start := rd.Pos
		var el []uint16
		var cnt int64
		var err error
		r.Must(rt.Call(big, func() { el, cnt, err = rc.read(s.wide, src) }), "ReadFrom")
		r.Shape("%v%d", s.wide, len(s.el))
		if err != nil {
			r.Fail("read-failed", "ReadFrom of set %d (%v) failed on a complete stream (%v): %v", i, s, rd, err)
		}
		if !same(el, s.el) {
			r.Fail("changed", "set %d was written as %v and read back as %v (%v)", i, s, set{s.wide, el}, rd)
		}
		if rd.Pos != ends[i] {
			r.Fail("consumed", "reading set %d took %d bytes from the stream, its write produced %d (%v)", i, rd.Pos-start, ends[i]-start, rd)
		}
		if cnt != int64(rd.Pos-start) {
			r.Fail("read-count", "ReadFrom of %v reported %d bytes but took %d", s, cnt, rd.Pos-start)
		}
		held = append(held, *rc)
	}
	for i, s := range sets {
		if el := held[i].get(s.wide); !same(el, s.el) {
			r.Fail("changed-later", "set %d was read as %v and turned into %v by later reads", i, s, set{s.wide, el})
		}
	}
	if rd.Short > 0 {
		r.Probe("short-read")
		r.NonTrivial()
	}
	if rd.WithEOF {
		r.Probe("eof-with-data")
		r.NonTrivial()
	}
}

func runC02(r *sim.R) {
	if rt.OneIn(2) {
		brokenRead(r)
	} else {
		brokenWrite(r)
	}
}

func genSets(n int) (sets []set) {
	for i := 0; i < n; i++ {
		sets = append(sets, genSet(false))
	}
	return
}

func brokenRead(r *sim.R) {
	sets := genSets(1 + rt.Choose(4))
	w := stream.NewWriter()
	var ends []int
	for _, s := range sets {
		r.Must(rt.Call(big, func() { _, _ = s.write(w) }), "WriteTo")
		ends = append(ends, len(w.Data))
	}
	data := append([]byte(nil), w.Data...)
	total := len(data)
	if total == 0 {
		r.Stop()
	}
	var k int
	if rt.OneIn(2) { // near the end or a boundary
		e := ends[rt.Choose(len(ends))]
		k = e - 1 - rt.Choose(4)
		if k < 0 {
			k = 0
		}
	} else {
		k = rt.Choose(total)
	}
	if e := rt.Edge(5, 13); rt.OneIn(8) && e < total {
		k = e
	}
	rd := stream.NewReader(data)
	err := error(stream.ErrInjected)
	switch rt.Choose(4) {
	case 0, 1:
		err = io.EOF
	case 2:
		err = io.ErrUnexpectedEOF
	}
	rd.Fail(k, err, rt.OneIn(2))
	src := source(rd)
	r.Log("read %v from %v", sets, rd)
	rc := &receivers{}
	start := 0
	for i, s := range sets {
		var el []uint16
		var cnt int64
		var rerr error
		r.Must(rt.Call(big, func() { el, cnt, rerr = rc.read(s.wide, src) }), "ReadFrom")
		r.Shape("%v%d@%d", s.wide, len(s.el), k-start)
		if cnt != int64(rd.Pos-start) {
			r.Fail("read-count", "ReadFrom of %v reported %d bytes but took %d (%v, error %v)", s, cnt, rd.Pos-start, rd, rerr)
		}
		complete := ends[i] <= k
		switch {
		case rerr == nil && !complete:
			r.Fail("invented", "ReadFrom reported success and %v although only %d of the %d bytes of %v were delivered (%v)", set{s.wide, el}, k-start, ends[i]-start, s, rd)
		case rerr == nil && !same(el, s.el):
			r.Fail("changed", "set %d was written as %v and read back as %v (%v)", i, s, set{s.wide, el}, rd)
		case rerr == nil && rd.Pos != ends[i]:
			r.Fail("consumed", "reading set %d took %d bytes, its write produced %d (%v)", i, rd.Pos-start, ends[i]-start, rd)
		case rerr != nil && complete && !(ends[i] == k && rd.Failed):
			r.Fail("read-failed", "ReadFrom of %v failed although all its bytes were delivered before the failure (%v): %v", s, rd, rerr)
		}
		if rerr != nil {
			if rd.Failed && !complete {
				r.NonTrivial()
			}
			break
		}
		start = ends[i]
	}
	// the receivers work again on a good stream
	good := stream.NewReader(data)
	for i, s := range sets {
		var el []uint16
		var rerr error
		r.Must(rt.Call(big, func() { el, _, rerr = rc.read(s.wide, good) }), "ReadFrom")
		if rerr != nil || !same(el, s.el) {
			r.Fail("after-failure", "after a failed read, reading set %d (%v) again into the same variable gave %v, error %v", i, s, set{s.wide, el}, rerr)
		}
	}
}

func brokenWrite(r *sim.R) {
	sets := genSets(1 + rt.Choose(4))
	total := 0
	for _, s := range sets {
		total += s.size()
	}
	k := rt.Choose(total)
	if rt.OneIn(2) {
		k = total - 1 - rt.Choose(4)
		if k < 0 {
			k = 0
		}
	}
	if e := rt.Edge(5, 13); rt.OneIn(8) && e < total {
		k = e
	}
	w := stream.NewWriter()
	w.FailAt, w.Silent, w.Sticky = k, rt.OneIn(2), rt.OneIn(2)
	r.Log("write %v to a stream failing after %d bytes (silent %v, sticky %v)", sets, k, w.Silent, w.Sticky)
	start := 0
	for i, s := range sets {
		before := len(w.Data)
		failedBefore := w.Failed
		var cnt int64
		var err error
		r.Must(rt.Call(big, func() { cnt, err = s.write(w) }), "WriteTo")
		took := len(w.Data) - before
		r.Shape("%v%d@%d", s.wide, len(s.el), k-start)
		if cnt != int64(took) {
			r.Fail("write-count", "WriteTo of %v reported %d bytes but the stream accepted %d (error %v)", s, cnt, took, err)
		}
		if w.Failed && !failedBefore {
			r.NonTrivial()
			if err == nil {
				r.Fail("write-silent", "WriteTo of %v reported success although the stream accepted only part of its data", s)
			}
			if w.Silent && !errors.Is(err, io.ErrShortWrite) {
				r.Probe("short-write-other-error")
			}
			break
		}
		if err != nil {
			r.Fail("write-failed", "WriteTo of set %d failed on a healthy stream: %v", i, err)
		}
		start += s.size()
	}
}
