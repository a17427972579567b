// Package vfilepath is path/filepath over the file systems of vos.
package vfilepath

import (
	"io/fs"
	"path/filepath"
	"slices"
	"strings"

	"verif.local/shim/vos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

type WalkFunc = filepath.WalkFunc

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

func Abs(p string) (string, error)    { return filepath.Abs(p) }
func Base(p string) string            { return filepath.Base(p) }
func Clean(p string) string           { return filepath.Clean(p) }
func Dir(p string) string             { return filepath.Dir(p) }
func Ext(p string) string             { return filepath.Ext(p) }
func FromSlash(p string) string       { return filepath.FromSlash(p) }
func HasPrefix(p, x string) bool      { return strings.HasPrefix(p, x) }
func IsAbs(p string) bool             { return filepath.IsAbs(p) }
func IsLocal(p string) bool           { return filepath.IsLocal(p) }
func Join(p ...string) string         { return filepath.Join(p...) }
func Match(p, n string) (bool, error) { return filepath.Match(p, n) }
func Rel(b, t string) (string, error) { return filepath.Rel(b, t) }
func Split(p string) (string, string) { return filepath.Split(p) }
func SplitList(p string) []string     { return filepath.SplitList(p) }
func ToSlash(p string) string         { return filepath.ToSlash(p) }
func VolumeName(p string) string      { return filepath.VolumeName(p) }

func EvalSymlinks(p string) (string, error) {
	if !vos.Installed() {
		return filepath.EvalSymlinks(p)
	}
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if !vos.Installed() {
		return filepath.Glob(pattern)
	}
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := vos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dirs := []string{filepath.Clean(dir)}
	if dir == "" {
		dirs = []string{"."}
	}
	if strings.ContainsAny(dirs[0], `*?[\`) {
		v, err := Glob(dirs[0])
		if err != nil {
			return nil, err
		}
		dirs = v
	}
	var r []string
	for _, d := range dirs {
		v, err := vos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range v {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				r = append(r, filepath.Join(d, e.Name()))
			}
		}
	}
	slices.Sort(r)
	return r, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	if !vos.Installed() {
		return filepath.WalkDir(root, fn)
	}
	i, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	v, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range v {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	if !vos.Installed() {
		return filepath.Walk(root, fn)
	}
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, i, err)
	})
}
