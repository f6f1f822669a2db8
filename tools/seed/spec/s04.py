ID='C04-tag-write-error-lost'; PROP='C04'
EDITS=[('pkg/dag/idx.go','''		if err = tagsIndex[idx].BinaryWriteTo(writer); err != nil {
			return fmt.Errorf("%w: cant write indexed %d", common.ErrMarshal, idx)
		}
	}
''','''		if err = tagsIndex[idx].BinaryWriteTo(writer); err != nil {
			err = fmt.Errorf("%w: cant write indexed %d", common.ErrMarshal, idx)
		}
	}
''')]
NEEDS='a writer which refuses a part of the data of a tag'
BREAKS='the error is only kept in a variable nobody looks at, a catalogue which was not written is reported as written'
DEMO='''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/pkg/dag"
)

type limited struct{ left int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		return 0, errors.New("no space left")
	}
	l.left -= len(p)

	return len(p), nil
}

func main() {
	idx := dag.NewIndex()
	idx.Index("POST", "")
	idx.Index("NOUN", "POST")
	for left := 0; left < 17; left++ {
		if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&limited{left})); err == nil {
			fmt.Println("catalogue of 17 bytes reported as written in", left)
			os.Exit(1)
		}
	}
}
'''
