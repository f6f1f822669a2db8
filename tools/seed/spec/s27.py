ID='C27-variant-reuses-receiver'; PROP='C27'
EDITS=[('internal/index/variant_def.go','''	*t = make(TagSetIDCollection, tagSetIndexLen)
	for idx''','''	if cap(*t) < int(tagSetIndexLen) {
		*t = make(TagSetIDCollection, tagSetIndexLen)
	}

	*t = (*t)[:tagSetIndexLen]
	for idx''')]
NEEDS='variants read one after another into the same variable, an earlier one (not shorter) still in use'
BREAKS='reading a variant changes the one read before'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
)

func main() {
	var (
		buffer bytes.Buffer
		got    index.TagSetIDCollection
		all    []index.TagSetIDCollection
	)
	want := []index.TagSetIDCollection{{1, 2, 3}, {4, 5}}
	writer := binutils.NewBinaryWriter(&buffer)
	for _, variant := range want {
		if err := variant.BinaryWriteTo(writer); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	reader := binutils.NewBinaryReader(&buffer)
	for range want {
		if err := got.BinaryReadFrom(reader); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		all = append(all, got)
	}
	for i, variant := range want {
		if !variant.EqualTo(all[i]) {
			fmt.Println("wrote", variant, "read", all[i])
			os.Exit(1)
		}
	}
}
'''
