ID='C18-lookup-before-sort'; PROP='C18'
EDITS=[('internal/index/variant_table.go','''	sort.Sort(item) // sort item before find or adding to index to compare and search easy.

	if storageIdx, found = variantsTable.Find(item); found {
		return storageIdx
	}

	storageIdx = VariantSubID(len(*variantsTable))
''','''	if storageIdx, found = variantsTable.Find(item); found {
		return storageIdx
	}

	storageIdx = VariantSubID(len(*variantsTable))
'''),('internal/index/variant_idx.go','''	sort.Sort(item)

	tableNumber := CollectionTableNumber(len(item) - 1)
''','''	tableNumber := CollectionTableNumber(len(item) - 1)
'''),('internal/index/variant_idx.go','	"math"\n	"sort"\n','	"math"\n'),('internal/index/variant_table.go','	"math"\n	"sort"\n','	"math"\n')]
NEEDS='the same analyses indexed twice in different order (both the index and its table lost the sort, each relied on the other)'
BREAKS='one set of analyses gets two ids'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/internal/index"
)

func main() {
	var variants index.VariantsIndex
	first := variants.Index(index.TagSetIDCollection{4, 2, 9})
	if id := variants.Index(index.TagSetIDCollection{2, 9, 4}); id != first {
		fmt.Println("same variants have ids", first, id)
		os.Exit(1)
	}
}
'''
