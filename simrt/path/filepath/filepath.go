// Package filepath replaces path/filepath in simulated code.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"sort"

	"verif.local/simrt/os"
)

const (
	Separator     = real.Separator
	ListSeparator = real.ListSeparator
)

var (
	SkipDir       = fs.SkipDir
	SkipAll       = real.SkipAll
	ErrBadPattern = real.ErrBadPattern
)

type WalkFunc = real.WalkFunc

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}
func Base(p string) string              { return real.Base(p) }
func Clean(p string) string             { return real.Clean(p) }
func Dir(p string) string               { return real.Dir(p) }
func Ext(p string) string               { return real.Ext(p) }
func FromSlash(p string) string         { return p }
func ToSlash(p string) string           { return p }
func IsAbs(p string) bool               { return real.IsAbs(p) }
func IsLocal(p string) bool             { return real.IsLocal(p) }
func Join(e ...string) string           { return real.Join(e...) }
func Match(pat, n string) (bool, error) { return real.Match(pat, n) }
func Rel(b, t string) (string, error)   { return real.Rel(b, t) }
func Split(p string) (string, string)   { return real.Split(p) }
func SplitList(p string) []string       { return real.SplitList(p) }
func VolumeName(p string) string        { return "" }
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	return os.Resolve(real.Clean(p)), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := real.Split(pattern)
	if dir == "" {
		dir = "."
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var res []string
	for _, e := range ents {
		if ok, _ := real.Match(file, e.Name()); ok {
			res = append(res, real.Join(dir, e.Name()))
		}
	}
	sort.Strings(res)
	return res, nil
}

func Walk(root string, fn WalkFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, fi fs.FileInfo, fn WalkFunc) error {
	err := fn(p, fi, nil)
	if err != nil || !fi.IsDir() {
		if err == SkipDir && fi.IsDir() {
			return nil
		}
		return err
	}
	ents, err := os.ReadDir(p)
	if err != nil {
		return fn(p, fi, err)
	}
	for _, e := range ents {
		q := real.Join(p, e.Name())
		i, err := os.Lstat(q)
		if err != nil {
			if err = fn(q, nil, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err = walk(q, i, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		if fi == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), err)
	})
}
