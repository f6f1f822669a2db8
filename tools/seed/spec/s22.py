ID='C22-node-past-the-last'; PROP='C22'
EDITS=[('internal/index/items.go','''	if intID >= int(items.NextID()) {
		return nil''','''	if intID >= len(items.items) {
		return nil''')]
NEEDS='an id just past the last node, while the list of nodes has room for more (its allocated part is longer than the used one)'
BREAKS='words are added below a node that does not exist and analyses are attached to it, without an error'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	idx := index.New()
	idx.TagID("NOUN", "")
	for _, word := range []string{"a", "ab", "abc", "b", "bc", "bcd"} {
		if _, err := idx.AddString(word); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		next := dag.ID(idx.NodesCount() + 1)
		if err := idx.GetItem(next).AddTagSet("NOUN"); err == nil {
			fmt.Println("attached to node", next, "of", idx.NodesCount())
			os.Exit(1)
		}
		if _, err := idx.AddToNode(next, []rune("x")); err == nil {
			fmt.Println("added below node", next, "of", idx.NodesCount())
			os.Exit(1)
		}
	}
}
'''
