// Package ioutil is the simulated io/ioutil.
package ioutil

import (
	"io/fs"

	simos "github.com/donnie4w/gofer/verifsim/shadow/os"
)

func ReadFile(name string) ([]byte, error)                    { return simos.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return simos.WriteFile(name, b, perm) }
func TempFile(dir, pattern string) (*simos.File, error)       { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return simos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := simos.ReadDir(name)
	var r []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
