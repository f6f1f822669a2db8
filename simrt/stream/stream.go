// Package stream provides readers and writers whose behaviour the simulator decides.
package stream

import (
	"errors"
	"fmt"
	"io"

	"verif.local/simrt/rt"
)

// ErrInjected is the error of an injected stream failure.
var ErrInjected = errors.New("injected stream failure")

// Reader delivers Data in pieces.
type Reader struct {
	Data    []byte
	Pos     int
	Mode    int // 0 all that fits, 1 single bytes, 2 random pieces, 3 pages, 4 mixed with empty reads
	WithEOF bool
	FailAt  int   // fail once Pos reaches this (-1: never)
	Err     error // error to fail with
	Once    bool  // delivers the rest if read again after the failure
	WithErr bool  // deliver the last bytes together with the error
	Reads   int
	Short   int // reads that delivered less than asked although more data was there
	empty   int
	page    int
	Failed  bool
}

// Modes of splitting.
const (
	Whole = iota
	Bytes
	Pieces
	Pages
	Holes
	NModes
)

// NewReader makes a reader with a delivery mode the simulator picks.
func NewReader(data []byte) *Reader {
	r := &Reader{Data: data, FailAt: -1}
	r.Mode = rt.Weighted(2, 2, 3, 1, 1)
	r.WithEOF = rt.OneIn(3)
	r.page = 1 + rt.Log(7)
	return r
}

// Fail makes the reader fail at byte k.
func (r *Reader) Fail(k int, err error, with bool) {
	r.FailAt, r.Err, r.WithErr = k, err, with
	r.Once = err != io.EOF && !with && rt.OneIn(3)
}

func (r *Reader) String() string {
	s := fmt.Sprintf("%d bytes, %s", len(r.Data), [...]string{"whole", "single bytes", "random pieces", fmt.Sprintf("pages of %d", r.page), "pieces and empty reads"}[r.Mode])
	if r.WithEOF {
		s += ", EOF with last data"
	}
	if r.FailAt >= 0 {
		s += fmt.Sprintf(", fails at %d with %v", r.FailAt, r.Err)
		if r.WithErr {
			s += " (with data)"
		}
		if r.Once {
			s += " (once)"
		}
	}
	return s
}

func (r *Reader) Read(p []byte) (int, error) {
	rt.Y(0)
	r.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.Data)
	if r.FailAt >= 0 && r.FailAt < end && !(r.Once && r.Failed) {
		end = r.FailAt
	}
	avail := end - r.Pos
	if avail <= 0 {
		if r.FailAt >= 0 && r.Pos >= r.FailAt && !(r.Once && r.Failed) {
			r.fail()
			return 0, r.Err
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > avail {
		n = avail
	}
	full := n
	switch r.Mode {
	case Bytes:
		n = 1
	case Pieces:
		if n > 1 {
			n = n - rt.Choose(n)
		}
	case Pages:
		if left := r.page - r.Pos%r.page; n > left {
			n = left
		}
	case Holes:
		if r.empty < 2 && rt.OneIn(4) {
			r.empty++
			rt.Tally("empty-read")
			return 0, nil
		}
		r.empty = 0
		if n > 1 {
			n = n - rt.Choose(n)
		}
	}
	if n < full {
		r.Short++
		rt.Tally("short-read")
	}
	copy(p, r.Data[r.Pos:r.Pos+n])
	r.Pos += n
	if r.Pos == end {
		if r.FailAt >= 0 && r.Pos == r.FailAt && r.WithErr {
			r.fail()
			return n, r.Err
		}
		if r.FailAt < 0 && r.WithEOF {
			rt.Tally("data-with-eof")
			return n, io.EOF
		}
	}
	return n, nil
}

func (r *Reader) fail() {
	if !r.Failed {
		r.Failed = true
		kind := "stream-read-error"
		if r.Err == io.EOF {
			kind = "stream-cut"
		}
		rt.Note(kind, fmt.Sprintf("byte %d of %d", r.FailAt, len(r.Data)))
	}
}

// Writer accepts data and may fail.
type Writer struct {
	Data   []byte
	FailAt int  // accept this many bytes, then fail (-1: never)
	Silent bool // a failing write accepts part of the data and reports no error
	Sticky bool // keeps failing
	Failed bool
	Crash  bool
	Writes int
	Closed bool
}

// NewWriter makes a writer that accepts everything.
func NewWriter() *Writer { return &Writer{FailAt: -1} }

func (w *Writer) Write(p []byte) (int, error) {
	rt.Y(0)
	w.Writes++
	if w.Failed && w.Sticky {
		if w.Silent {
			return 0, nil
		}
		return 0, ErrInjected
	}
	switch rt.Fire("stream-write", fmt.Sprintf("byte %d", len(w.Data))) {
	case "crash":
		w.Data = append(w.Data, p[:rt.Choose(len(p)+1)]...)
		rt.Crash("killed while writing")
	}
	if w.FailAt >= 0 && !w.Failed && len(w.Data)+len(p) > w.FailAt {
		n := w.FailAt - len(w.Data)
		w.Failed = true
		w.Data = append(w.Data, p[:n]...)
		if w.Silent {
			rt.Note("stream-short-write", fmt.Sprintf("byte %d", w.FailAt))
			return n, nil
		}
		rt.Note("stream-write-error", fmt.Sprintf("byte %d", w.FailAt))
		return n, ErrInjected
	}
	w.Data = append(w.Data, p...)
	return len(p), nil
}

// ByteReader is a Reader that also offers ReadByte and ReadBytes, as bufio does.
type ByteReader struct{ *Reader }

// ReadByte reads one byte.
func (b ByteReader) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := b.Read(p[:])
		if n == 1 {
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// ReadBytes reads up to and including the delimiter.
func (b ByteReader) ReadBytes(delim byte) (res []byte, err error) {
	for {
		c, err := b.ReadByte()
		if err != nil {
			return res, err
		}
		res = append(res, c)
		if c == delim {
			return res, nil
		}
	}
}
