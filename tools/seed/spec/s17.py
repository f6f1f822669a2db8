ID='C17-order-of-map'; PROP='C17'
EDITS=[('internal/index/idx.go','''	for _, collectionID := range knownCollections {
		if _, ok := usedCollectionID[collectionID]; ok {
''','''	for collectionID := range usedCollectionID {
		if index.collectionIdx.Has(collectionID) {
''')]
NEEDS='a dictionary with several sets of analyses in use and at least one no more used, compiled more than once'
BREAKS='the numbers of the analyses depend on the iteration order of a map, so compiled files of one dictionary differ'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

func compile() []byte {
	idx := index.New()
	names := []dag.TagName{"AAAA", "BBBB", "CCCC", "DDDD", "EEEE"}
	for _, name := range names {
		idx.TagID(name, "")
	}
	for i, name := range names {
		node, err := idx.AddString(string(rune('a' + i)))
		if err == nil {
			err = node.AddTagSet(name)
		}
		if err == nil && i == 0 {
			err = node.AddTagSet("AAAA", "BBBB")
		}
		if err != nil {
			panic(err)
		}
	}
	idx.Optimize()
	var stream bytes.Buffer
	if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&stream)); err != nil {
		panic(err)
	}

	return stream.Bytes()
}

func main() {
	first := compile()
	for i := 0; i < 200; i++ {
		if !bytes.Equal(first, compile()) {
			fmt.Println("compiled files differ")
			os.Exit(1)
		}
	}
}
'''
