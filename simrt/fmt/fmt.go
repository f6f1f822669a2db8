// Package fmt replaces the standard package in simulated code. It is the
// formatting half of Go's own fmt (BSD licence, see GOROOT/LICENSE) with two
// changes: printers are not recycled through a sync.Pool, which would order
// unrelated goroutines for the race detector, at random; and printing goes to
// the simulated terminal.
package fmt

import (
	real "fmt"
	"io"

	"verif.local/simrt/rt"
)

func terminal(s string) (int, error) {
	if rt.Terminal != nil && !rt.Dying() {
		rt.Terminal(s)
	}
	return len(s), nil
}

type (
	Scanner   = real.Scanner
	ScanState = real.ScanState
)

func Sscanf(s, format string, a ...interface{}) (int, error) { return real.Sscanf(s, format, a...) }
func Sscan(s string, a ...interface{}) (int, error)          { return real.Sscan(s, a...) }
func Sscanln(s string, a ...interface{}) (int, error)        { return real.Sscanln(s, a...) }
func Fscanf(r io.Reader, format string, a ...interface{}) (int, error) {
	return real.Fscanf(r, format, a...)
}
func Fscan(r io.Reader, a ...interface{}) (int, error)   { return real.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...interface{}) (int, error) { return real.Fscanln(r, a...) }
