// Package filepath shadows the parts of path/filepath that touch the disk.
package filepath

import (
	"io/fs"
	"path"
	"path/filepath"

	simos "github.com/donnie4w/gofer/verifsim/shadow/os"
)

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join("/work", p), nil
}

func EvalSymlinks(p string) (string, error) { return p, nil }

func Glob(pattern string) (m []string, err error) {
	d := path.Dir(pattern)
	for _, p := range simos.TheFS().List(d) {
		if ok, _ := filepath.Match(path.Base(pattern), path.Base(p)); ok {
			m = append(m, path.Join(d, path.Base(p)))
		}
	}
	return
}

func Walk(root string, fn filepath.WalkFunc) error {
	i, err := simos.Stat(root)
	return walk(root, i, err, fn)
}

func walk(p string, i fs.FileInfo, err error, fn filepath.WalkFunc) error {
	if e := fn(p, i, err); e != nil || err != nil || !i.IsDir() {
		return e
	}
	for _, q := range simos.TheFS().List(p) {
		i, err := simos.Stat(q)
		if e := walk(q, i, err, fn); e != nil {
			return e
		}
	}
	return nil
}
