// Package expmmap stands in for golang.org/x/exp/mmap on the simulated file system.
package expmmap

import (
	"errors"
	"io"

	simos "github.com/donnie4w/gofer/verifsim/shadow/os"
)

type ReaderAt struct {
	data   []byte
	closed bool
}

func Open(name string) (*ReaderAt, error) {
	f, err := simos.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	if fi.Size() == 0 {
		return &ReaderAt{data: []byte{}}, nil
	}
	b, err := simos.MapFile(f, int(fi.Size()), 0)
	if err != nil {
		return nil, err
	}
	return &ReaderAt{data: b}, nil
}

func (r *ReaderAt) Close() error {
	if r.data == nil {
		return nil
	}
	if len(r.data) == 0 {
		r.data = nil
		return nil
	}
	d := r.data
	r.data = nil
	return simos.UnmapFile(d)
}

func (r *ReaderAt) Len() int      { return len(r.data) }
func (r *ReaderAt) At(i int) byte { return r.data[i] }
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if r.data == nil {
		return 0, errors.New("mmap: closed")
	}
	if off < 0 || int64(len(r.data)) < off {
		return 0, errors.New("mmap: invalid ReadAt offset")
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
