ID='C07-shared-variants'; PROP='C07'
EDITS=[('internal/index/variant_def.go','''	res := make(TagSetIDCollection, len(t)+1)
	copy(res, t)
	res[len(t)] = additionalTagSetID
	sort.Sort(res)
''','''	res := append(t, additionalTagSetID)
	sort.Sort(res)
''')]
NEEDS='two words sharing analyses, each getting a different further one, so that the two extended lists share memory (needs a list with spare capacity, that is three analyses)'
BREAKS='analyses attached to one word appear on another word instead of its own'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	idx := index.New()
	names := []dag.TagName{"AAAA", "BBBB", "CCCC", "DDDD", "EEEE"}
	for _, name := range names {
		idx.TagID(name, "")
	}
	want := map[string][]dag.TagName{
		"one": {"AAAA", "BBBB", "CCCC", "DDDD"},
		"two": {"AAAA", "BBBB", "CCCC", "EEEE"},
	}
	for _, word := range []string{"one", "two"} {
		node, err := idx.AddString(word)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, name := range want[word] {
			if err = node.AddTagSet(name); err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
		}
	}
	for word, tags := range want {
		node, err := idx.FetchString(word)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		have := map[dag.TagName]bool{}
		for _, set := range node.TagSets() {
			for _, tag := range set {
				have[tag.Name] = true
			}
		}
		for _, name := range tags {
			if !have[name] || len(have) != len(tags) {
				fmt.Printf("%s has %v, want %v\\n", word, have, tags)
				os.Exit(1)
			}
		}
	}
}
'''
