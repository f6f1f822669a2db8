ID='C25-cached-analyses'; PROP='C25'
EDITS=[('internal/index/idx.go','''	wordsCount    int
}
''','''	wordsCount    int

	analyses map[VariantID][]dag.TagSet // analyses asked before
}
'''),
('internal/index/idx.go','''		wordsCount:    0,
	}
''','''		wordsCount:    0,
		analyses:      make(map[VariantID][]dag.TagSet),
	}
'''),
('internal/index/idx.go','''	index.wordsCount = loaded.wordsCount
''','''	index.wordsCount = loaded.wordsCount
	index.analyses = loaded.analyses
'''),
('internal/index/idx.go','''	index.collectionIdx = newIndex

''','''	index.collectionIdx = newIndex
	index.analyses = make(map[VariantID][]dag.TagSet)

'''),
('internal/index/node.go','''	collection = node.index.collectionIdx.Get(item.Variants)
	res = make''','''	if res, found = node.index.analyses[item.Variants]; found {
		return append([]dag.TagSet{}, res...)
	}

	collection = node.index.collectionIdx.Get(item.Variants)
	res = make'''),
('internal/index/node.go','''			}
		}
	}

	return res
}''','''			}
		}
	}

	node.index.analyses[item.Variants] = res

	return append([]dag.TagSet{}, res...)
}''')]
NEEDS='a caller that sorts or changes the tags of an analysis it was given, and another word with the same analyses asked later'
BREAKS='the change is seen in the answers about every word sharing the analyses'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/internal/index"
)

func main() {
	idx := index.New()
	idx.TagID("NOUN", "")
	idx.TagID("sing", "")
	for _, word := range []string{"cat", "dog"} {
		node, err := idx.AddString(word)
		if err == nil {
			err = node.AddTagSet("NOUN", "sing")
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	cat, err := idx.FetchString("cat")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	mine := cat.TagSets()
	mine[0][0], mine[0][1] = mine[0][1], mine[0][0]
	mine[0] = nil
	dog, err := idx.FetchString("dog")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if got := dog.TagSets(); len(got) != 1 || len(got[0]) != 2 || got[0][0].Name != "NOUN" || got[0][1].Name != "sing" {
		fmt.Println("dog:", got)
		os.Exit(1)
	}
}
'''
