ID='C27-buffered-tag-set'; PROP='C27'
EDITS=[('internal/index/tagset_def.go','''	writer := binutils.NewBinaryWriter(w)
	err = tagSet.BinaryWriteTo(writer)
	return int64(writer.BytesWritten()), err
''','''	var buffer bytes.Buffer

	if err = tagSet.BinaryWriteTo(binutils.NewBinaryWriter(&buffer)); err != nil {
		return 0, err
	}

	_, err = w.Write(buffer.Bytes())

	return int64(buffer.Len()), err
'''),('internal/index/tagset_def.go','import (\n\t"fmt"','import (\n\t"bytes"\n\t"fmt"')]
NEEDS='a stream that accepts only a part of the data, without an error of its own or with one'
BREAKS='bytes never accepted are counted as written, and a short write is no error'
DEMO='''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/amarin/gomorphy/internal/index"
)

// limited accepts a number of bytes only.
type limited struct {
	left, taken int
	err         error
}

func (w *limited) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		w.taken += len(p)

		return len(p), nil
	}
	n := w.left
	w.left = 0
	w.taken += n

	return n, w.err
}

func main() {
	for left := 0; left < 4; left++ {
		for _, failure := range []error{nil, errors.New("disk full")} {
			w := &limited{left: left, err: failure}
			n, err := index.TagSet{1, 2, 3}.WriteTo(w)
			if err == nil || n != int64(w.taken) {
				fmt.Println("room for", left, "count", n, "accepted", w.taken, "error", err)
				os.Exit(1)
			}
		}
	}
}
'''
