ID='C03-name-ending-in-space'; PROP='C03'
EDITS=[('pkg/dag/name.go','''		isEmpty = tagNameBytes[idx] == emptyTagNameBytes[idx]
		if !isEmpty {
			break
		}
''','''		isEmpty = tagNameBytes[idx] == emptyTagNameBytes[idx]
''')]
NEEDS='a tag name of four characters the last of which is a space (names shorter than four characters are documented to be filled up with spaces)'
BREAKS='such a name reads back as the empty tag name, losing the tag and every lookup by its name'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	idx := dag.NewIndex()
	idx.Index("POST", "")
	id := idx.Index("sg  ", "POST")
	var stream bytes.Buffer
	if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&stream)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	var back dag.Idx
	if err := back.BinaryReadFrom(binutils.NewBinaryReader(&stream)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if got, found := back.Find("sg  "); !found || got != id {
		fmt.Printf("tag \\"sg  \\": id %d found %v in %v\\n", got, found, back)
		os.Exit(1)
	}
}
'''
