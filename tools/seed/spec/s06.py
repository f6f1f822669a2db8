ID='C06-late-parent'; PROP='C06'
EDITS=[('pkg/dag/idx.go','''	if id, found = tagsIndex.Find(name); found {
		return id
	}
''','''	if id, found = tagsIndex.Find(name); found && (*tagsIndex)[id].Parent == EmptyTagName {
		(*tagsIndex)[id].Parent = parent
	}

	if found {
		return id
	}
''')]
NEEDS='a tag registered without a parent and registered again with one'
BREAKS='the parent given first does not stay: a top level tag becomes a child of another one'
DEMO='''package main

import (
	"fmt"
	"os"

	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	idx := dag.NewIndex()
	id := idx.Index("POST", "")
	idx.Index("NOUN", "POST")
	idx.Index("POST", "NOUN")
	if tag, _ := idx.Get(id); tag.Parent != dag.EmptyTagName {
		fmt.Println("parent of POST is now", tag.Parent)
		os.Exit(1)
	}
}
'''
