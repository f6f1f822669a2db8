ID='C22-counted-before-check'; PROP='C22'
EDITS=[('internal/index/node.go','''	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
	if item.Variants == 0 {
		node.index.wordsCount++
	}
''','''	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
'''),('internal/index/node.go','''	tagSet := make(TagSet, len(newTagSet))
	for idx, tagName''','''	if item := node.index.getItem(node.id); item != nil && item.Variants == 0 {
		node.index.wordsCount++
	}

	tagSet := make(TagSet, len(newTagSet))
	for idx, tagName''')]
NEEDS='attaching an analysis with an unknown tag to a word that has none yet'
BREAKS='the refused operation changes the word count (until the index is saved and loaded again)'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/internal/index"
)

func main() {
	idx := index.New()
	idx.TagID("NOUN", "")
	node, err := idx.AddString("word")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if err = node.AddTagSet("NOUN", "????"); err == nil {
		fmt.Println("unknown tag attached")
		os.Exit(1)
	}
	if n := idx.WordsCount(); n != 0 {
		fmt.Println("words:", n)
		os.Exit(1)
	}
	if err = node.AddTagSet("NOUN"); err != nil || idx.WordsCount() != 1 {
		fmt.Println("words:", idx.WordsCount(), err)
		os.Exit(1)
	}
}
'''
