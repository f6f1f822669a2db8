ID='C08-save-releases-lock'; PROP='C08'
EDITS=[('internal/index/idx.go','''	index.mu.Lock()
	defer index.mu.Unlock()

	if err = index.writeTagsDefinitions(writer); err != nil {
		return err
	}
	if err = index.writeTagSetsDefinitions(writer); err != nil {
		return err
	}
	if err = index.writeCollectionsDefinitions(writer); err != nil {
		return err
	}
	if err = index.writeItemsDefinitions(writer); err != nil {
		return err
	}

	return nil
''','''	for _, writeSection := range []func(*binutils.BinaryWriter) error{
		index.writeTagsDefinitions,
		index.writeTagSetsDefinitions,
		index.writeCollectionsDefinitions,
		index.writeItemsDefinitions,
	} {
		index.mu.Lock() // let others go on between sections
		err = writeSection(writer)
		index.mu.Unlock()

		if err != nil {
			return err
		}
	}

	return nil
''')]
NEEDS='an analysis attached by another goroutine between two sections of a save'
BREAKS='the saved file mixes two states of the index and does not load'
DEMO='''package main

import (
	"bytes"
	"fmt"
	"os"
	"time"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
)

type target struct {
	bytes.Buffer
	calls, at int
	then      func()
}

func (t *target) Write(p []byte) (int, error) {
	t.calls++
	if t.calls > t.at {
		time.Sleep(time.Millisecond)
	}
	if t.calls == t.at {
		done := make(chan struct{})
		go func() {
			t.then()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Millisecond):
		}
	}

	return t.Buffer.Write(p)
}

func add(idx *index.Index, word string) {
	node, err := idx.AddString(word)
	if err == nil {
		err = node.AddTagSet("NOUN", "VERB")
	}
	if err != nil {
		panic(err)
	}
}

func main() {
	for at := 1; at < 40; at++ {
		idx := index.New()
		idx.TagID("NOUN", "")
		idx.TagID("VERB", "")
		node, _ := idx.AddString("ab")
		_ = node.AddTagSet("NOUN")
		finished := make(chan struct{})
		stream := &target{at: at, then: func() { add(idx, "b"); close(finished) }}
		if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(stream)); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if stream.calls >= at {
			<-finished
		}
		if err := index.New().BinaryReadFrom(binutils.NewBinaryReader(&stream.Buffer)); err != nil {
			fmt.Println("word added at write", at, "of the save, it does not load:", err)
			os.Exit(1)
		}
	}
}
'''
