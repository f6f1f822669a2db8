ID='C10-only-last-item-checked'; PROP='C10'
EDITS=[('internal/index/items.go','''		err = item.BinaryWriteTo(writer)
		if err != nil {
			return err
		}
	}

	return nil
''','''		err = item.BinaryWriteTo(writer)
	}

	return err
''')]
NEEDS='a writer which fails while an item other than the last one is written and works again afterwards (for example a quota or a full disk somebody makes room on)'
BREAKS='an index with a hole in its data is reported as saved'
DEMO='''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
)

type once struct{ fail, calls int }

func (o *once) Write(p []byte) (int, error) {
	o.calls++
	if o.calls == o.fail {
		return 0, errors.New("no space left")
	}

	return len(p), nil
}

func main() {
	idx := index.New()
	if _, err := idx.AddString("abcdef"); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	count := &once{}
	if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(count)); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for fail := 1; fail <= count.calls; fail++ {
		if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&once{fail: fail})); err == nil {
			fmt.Println("write", fail, "of", count.calls, "failed, the index is reported as saved")
			os.Exit(1)
		}
	}
}
'''
