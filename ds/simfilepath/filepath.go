// Package simfilepath stands in for path/filepath.
package simfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"

	"verif.local/ds/simos"
)

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join("/work", p), nil
}

func EvalSymlinks(p string) (string, error) {
	_, err := simos.Stat(p)
	return path.Clean(p), err
}

func Glob(pat string) ([]string, error) {
	if _, err := path.Match(pat, ""); err != nil {
		return nil, err
	}
	dir, file := path.Split(pat)
	l, err := simos.ReadDir(path.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range l {
		if ok, _ := path.Match(file, e.Name()); ok {
			r = append(r, path.Join(dir, e.Name()))
		}
	}
	sort.Strings(r)
	return r, nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	st, err := simos.Stat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = walk(root, st, fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, st fs.FileInfo, fn filepath.WalkFunc) error {
	if err := fn(p, st, nil); err != nil || !st.IsDir() {
		return err
	}
	l, err := simos.Infos(p)
	if err != nil {
		return fn(p, st, err)
	}
	for _, e := range l {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				if e.IsDir() {
					continue
				}
				return nil
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, st fs.FileInfo, err error) error {
		var d fs.DirEntry
		if st != nil {
			d = fs.FileInfoToDirEntry(st)
		}
		return fn(p, d, err)
	})
}
