ID='C25-name-buffer'; PROP='C25'
EDITS=[('pkg/dag/name.go','''	emptyTagNameBytes = []byte{0x20, 0x20, 0x20, 0x20}
''','''	emptyTagNameBytes = []byte{0x20, 0x20, 0x20, 0x20}

	// nameBuffer spares an allocation for every tag name.
	nameBuffer [tagNameLen]byte
'''),
('pkg/dag/name.go','''	res := []byte(g)

	if len(res) != tagNameLen {
		return []byte{}, fmt.Errorf("%w: %T.MarshalBinary(%v)=%v len=%d", Error, g, g, res, len(res))
	}

	return res, nil''','''	if len(g) != tagNameLen {
		return []byte{}, fmt.Errorf("%w: %T.MarshalBinary(%v)=%v len=%d", Error, g, g, []byte(g), len(g))
	}

	copy(nameBuffer[:], g)

	return nameBuffer[:], nil''')]
NEEDS='two catalogues saved at once by different goroutines, one filling the buffer between the filling and the writing of the other'
BREAKS='a saved catalogue holds a name of another catalogue'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/pkg/dag"
)

// meanwhile lets another goroutine save its own catalogue before the data is taken.
type meanwhile struct {
	bytes.Buffer
	again bool
}

func (w *meanwhile) Write(p []byte) (int, error) {
	if !w.again {
		done := make(chan error)
		go func() {
			other := dag.NewIndex()
			other.Index("VERB", "")
			done <- other.BinaryWriteTo(binutils.NewBinaryWriter(new(bytes.Buffer)))
		}()
		if err := <-done; err != nil {
			return 0, err
		}
	}

	return w.Buffer.Write(p)
}

func main() {
	mine := dag.NewIndex()
	mine.Index("NOUN", "")
	w := new(meanwhile)
	if err := mine.BinaryWriteTo(binutils.NewBinaryWriter(w)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	saved := dag.NewIndex()
	if err := saved.BinaryReadFrom(binutils.NewBinaryReader(&w.Buffer)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if _, found := saved.Find("NOUN"); !found {
		fmt.Println("saved:", saved)
		os.Exit(1)
	}
}
'''
