ID='C02-buffered-count'; PROP='C02'
EDITS=[('pkg/storage/set16.go','''	writer := binutils.NewBinaryWriter(w)
''','''	buffer := bufio.NewWriter(w) // do not bother target with every single value
	writer := binutils.NewBinaryWriter(buffer)

	defer func() {
		if flushErr := buffer.Flush(); err == nil {
			err = flushErr
		}
	}()

'''),('pkg/storage/set16.go','import (\n','import (\n	"bufio"\n')]
NEEDS='a writer which fails after accepting a part of the data'
BREAKS='the reported byte count is what was buffered, not what was transferred'
DEMO='''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/amarin/gomorphy/pkg/storage"
)

type limited struct{ left, taken int }

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if n > l.left {
		n = l.left
	}
	l.left -= n
	l.taken += n
	if n < len(p) {
		return n, errors.New("no space left")
	}

	return n, nil
}

func main() {
	set := storage.Set16{3, 5, 9}
	for left := 0; left < 9; left++ {
		target := &limited{left: left}
		n, err := set.WriteTo(target)
		if n != int64(target.taken) || (err == nil) != (left >= 8) {
			fmt.Printf("%d bytes accepted: %d reported, error %v\\n", target.taken, n, err)
			os.Exit(1)
		}
	}
}
'''
