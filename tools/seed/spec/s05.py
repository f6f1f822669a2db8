ID='C05-lookup-before-sort'; PROP='C05'
EDITS=[('pkg/storage/table16.go','''	item.Sort() // sort item before find or adding to index.

	if id, found = table16.Find(item); found {
		return id
	}
''','''	if id, found = table16.Find(item); found {
		return id
	}

	item.Sort() // sort item before adding to index.
''')]
NEEDS='a set of several elements indexed again in an order which is not sorted'
BREAKS='the same set gets a second id'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/pkg/storage"
)

func main() {
	var collection storage.Collection16
	first := collection.Index(storage.Set16{5, 3, 8})
	for _, set := range []storage.Set16{{3, 5, 8}, {8, 5, 3}, {5, 3, 8}} {
		if id := collection.Index(set); id != first {
			fmt.Printf("same set has ids %d and %d\\n", first, id)
			os.Exit(1)
		}
	}
}
'''
