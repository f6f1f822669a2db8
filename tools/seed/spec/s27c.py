ID='C27-last-full-block'; PROP='C27'
EDITS=[('internal/index/items.go','''	indexToWrite := items.items[:items.nextID]
	for _, item := range indexToWrite {
		err = item.BinaryWriteTo(writer)
		if err != nil {
			return err
		}
	}

	return nil
}
''','''	indexToWrite := items.items[:items.nextID]
	for len(indexToWrite) > blockItems {
		if err = writeBlock(indexToWrite[:blockItems], writer); err != nil {
			return err
		}

		indexToWrite = indexToWrite[blockItems:]
	}

	return writeBlock(indexToWrite[:len(indexToWrite)%blockItems], writer)
}

// blockItems is the number of items written at once.
const blockItems = 4096

// writeBlock writes items with one call of the writer.
func writeBlock(block []Item, writer *binutils.BinaryWriter) (err error) {
	buffer := new(bytes.Buffer)
	buffer.Grow(len(block) * 16)
	blockWriter := binutils.NewBinaryWriter(buffer)

	for _, item := range block {
		if err = item.BinaryWriteTo(blockWriter); err != nil {
			return err
		}
	}

	return writer.WriteBytes(buffer.Bytes())
}
'''),('internal/index/items.go','import (\n\t"fmt"','import (\n\t"bytes"\n\t"fmt"')]
NEEDS='a list whose number of items is an exact multiple of 4096, written and read back'
BREAKS='the last block of items is not written, and the write reports success'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	for _, count := range []int{1, 100, 4094, 4095, 4096, 8191} {
		items := index.NewItems()
		for i := 0; i < count; i++ {
			items.NewChild(dag.ID(i), 'a')
		}

		var file bytes.Buffer
		if err := items.BinaryWriteTo(binutils.NewBinaryWriter(&file)); err != nil {
			fmt.Println(count, err)
			os.Exit(1)
		}

		loaded := index.NewItems()
		if err := loaded.BinaryReadFrom(binutils.NewBinaryReader(&file)); err != nil {
			fmt.Println(count, err)
			os.Exit(1)
		}

		if loaded.NextID() != items.NextID() || *loaded.Get(dag.ID(count)) != *items.Get(dag.ID(count)) {
			fmt.Println(count, "items are read back as", loaded.NextID()-1)
			os.Exit(1)
		}
	}
}
'''
