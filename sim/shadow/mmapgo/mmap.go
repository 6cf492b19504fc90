// Package mmapgo stands in for github.com/edsrzf/mmap-go on the simulated file
// system (same API, mappings share the simulated page cache).
package mmapgo

import (
	"errors"
	"syscall"
	"unsafe"

	simos "github.com/donnie4w/gofer/verifsim/shadow/os"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

type MMap []byte

func Map(f *simos.File, prot, flags int) (MMap, error) { return MapRegion(f, -1, prot, flags, 0) }

func MapRegion(f *simos.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%simos.PageSize != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		return make([]byte, length), nil
	}
	if length < 0 {
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		length = int(fi.Size() - offset)
		if length == 0 {
			return nil, errors.New("mmap: zero length")
		}
	}
	b, err := simos.MapFile(f, length, offset)
	if err != nil {
		return nil, err
	}
	if prot&COPY != 0 {
		b = append([]byte(nil), b...)
	}
	return b, nil
}

func (m *MMap) Lock() error   { return nil }
func (m *MMap) Unlock() error { return nil }

func (m MMap) Flush() error {
	if len(m) == 0 {
		return syscall.EINVAL
	}
	if e := simos.TheFS().Msync(uintptr(unsafe.Pointer(&m[0])), uintptr(len(m)), true); e != 0 {
		return e
	}
	return nil
}

func (m *MMap) Unmap() error {
	err := simos.UnmapFile(*m)
	*m = nil
	return err
}
