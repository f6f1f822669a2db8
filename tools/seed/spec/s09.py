ID='C09-items-until-end'; PROP='C09'
EDITS=[('internal/index/items.go','''		if err = loaded[idx].BinaryReadFrom(reader); err != nil {
			return err
		}
''','''		if err = loaded[idx].BinaryReadFrom(reader); err != nil {
			if !errors.Is(err, io.EOF) {
				return fmt.Errorf("%w: items: read %d: %v", Error, idx, err)
			}

			// nothing of this item there: it is the end of the list
			loaded, itemListLen = loaded[:idx], uint32(idx)
		}
'''),('internal/index/items.go','import (\n	"fmt"\n','import (\n	"errors"\n	"fmt"\n	"io"\n')]
NEEDS='a compiled index cut exactly at the end of an item (one of 16 cut positions)'
BREAKS='the cut file loads as a smaller dictionary instead of being reported as damaged'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
)

func main() {
	idx := index.New()
	idx.TagID("NOUN", "")
	for _, word := range []string{"a", "ab", "b"} {
		node, err := idx.AddString(word)
		if err == nil {
			err = node.AddTagSet("NOUN")
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	var stream bytes.Buffer
	if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&stream)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for cut := 0; cut < stream.Len(); cut++ {
		if err := index.New().BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(stream.Bytes()[:cut]))); err == nil {
			fmt.Println("index cut to", cut, "bytes of", stream.Len(), "loads")
			os.Exit(1)
		}
	}
}
'''
