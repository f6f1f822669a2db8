// Package ioutil replaces io/ioutil in simulated code.
package ioutil

import (
	"io"
	"io/fs"

	"verif.local/simrt/os"
)

var Discard = io.Discard

func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, m fs.FileMode) error { return os.WriteFile(n, d, m) }
func TempFile(d, p string) (*os.File, error)            { return os.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return os.MkdirTemp(d, p) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	ents, err := os.ReadDir(n)
	if err != nil {
		return nil, err
	}
	var res []fs.FileInfo
	for _, e := range ents {
		if i, err := e.Info(); err == nil {
			res = append(res, i)
		}
	}
	return res, nil
}
