// Package os is the simulated operating system: an in-memory file system with
// an explicit page cache / durable storage split, process ids, and nothing else.
package os

import (
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/donnie4w/gofer/verifsim/sim"
)

const PageSize = 4096

// inode is one file: data is what a running process sees (page cache), dur is
// what the device holds.
type inode struct {
	id     int
	dir    bool
	data   []byte
	dur    []byte
	base   []byte // backing store of a mapped file (page aligned, fixed)
	wmu    sim.WaitQ
	locked bool
	mtime  int64
	mode   os.FileMode
	maps   int
}

func (n *inode) lock() {
	for n.locked {
		n.wmu.Wait("inode lock")
	}
	n.locked = true
}
func (n *inode) unlock() { n.locked = false; n.wmu.WakeAll() }

func alignedStore(capacity int) []byte {
	b := make([]byte, capacity+PageSize)
	off := int(-uintptr(unsafe.Pointer(&b[0])) & (PageSize - 1))
	return b[off : off+capacity : off+capacity]
}

// resize sets the length, zero-filling growth.
func (n *inode) resize(size int) {
	if n.base != nil {
		if size > len(n.base) && n.maps == 0 {
			n.data = append(make([]byte, 0, size*2), n.data...)
			n.base = nil
			n.resize(size)
			return
		}
		if size > len(n.base) {
			panic(sim.Fatal{Msg: "sim fs: growth of a mapped file beyond its reservation"})
		}
		old := len(n.data)
		n.data = n.base[:size]
		for i := size; i < old; i++ {
			n.base[i] = 0
		}
		return
	}
	if size <= cap(n.data) {
		old := len(n.data)
		n.data = n.data[:size]
		for i := old; i < size; i++ {
			n.data[i] = 0
		}
		return
	}
	c := size * 2
	nb := make([]byte, size, c)
	copy(nb, n.data)
	n.data = nb
}

// MapStore pins the file's memory so that a mapping can share it.
func (n *inode) mapStore() []byte {
	if n.base == nil {
		c := (len(n.data)+PageSize-1)/PageSize*PageSize + 16*PageSize
		b := alignedStore(c)
		copy(b, n.data)
		n.base = b
		n.data = b[:len(n.data)]
	}
	return n.base
}

func (n *inode) syncAll() { n.dur = append([]byte(nil), n.data...) }

// syncRange makes [lo,hi) durable, page granular.
func (n *inode) syncRange(lo, hi int) {
	lo = lo / PageSize * PageSize
	hi = (hi + PageSize - 1) / PageSize * PageSize
	if hi > len(n.data) {
		hi = len(n.data)
	}
	if len(n.dur) < hi {
		d := make([]byte, hi)
		copy(d, n.dur)
		n.dur = d
	}
	if lo < hi {
		copy(n.dur[lo:hi], n.data[lo:hi])
	}
}

type FS struct {
	names   map[string]*inode
	dnames  map[string]*inode
	journal []func(m map[string]*inode)
	seq     int
	// knobs, set by the scenario
	P       map[string]float64 // fault kind -> probability per call
	Match   func(path string) bool
	Cap     int64 // bytes available; 0 = unlimited
	ChunkP  float64
	maps    []*mapping
	handles []*File
	tmpSeq  int
	Writes  int64 // write system calls
	Syncs   int64
}

type mapping struct {
	n    *inode
	addr uintptr
	size int
	gone bool
}

// TheFS returns the file system of the current run.
func TheFS() *FS {
	if sim.S == nil {
		panic(sim.Fatal{Msg: "sim: file access outside a run"})
	}
	if f, ok := sim.S.Data["fs"].(*FS); ok {
		return f
	}
	f := &FS{names: map[string]*inode{}, dnames: map[string]*inode{}, P: map[string]float64{}}
	for _, d := range []string{"/", "/tmp", "/work"} {
		n := &inode{id: f.seq, dir: true, mode: os.ModeDir | 0777}
		f.seq++
		f.names[d] = n
		f.dnames[d] = n
	}
	sim.S.Data["fs"] = f
	return f
}

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

func (f *FS) fault(kind, p string) bool {
	pr := f.P[kind]
	if f.Match != nil && !f.Match(p) {
		return false
	}
	return sim.Choose("disk."+kind, 2, pr) == 1
}

func (f *FS) log(op func(m map[string]*inode)) {
	op(f.names)
	f.journal = append(f.journal, op)
}

// commit makes every completed metadata operation durable (what fsync does on a
// journalling file system).
func (f *FS) commit() {
	for _, op := range f.journal {
		op(f.dnames)
	}
	f.journal = nil
}

func (f *FS) used() int64 {
	var t int64
	seen := map[*inode]bool{}
	for _, n := range f.names {
		if !seen[n] {
			seen[n] = true
			t += int64(len(n.data))
		}
	}
	return t
}

// ProcessCrash closes every handle and mapping; the page cache survives.
func (f *FS) ProcessCrash() {
	for _, h := range f.handles {
		h.closed = true
	}
	f.handles = nil
	for _, m := range f.maps {
		m.gone = true
		m.n.maps--
	}
	f.maps = nil
	for _, n := range f.names {
		n.locked = false
		n.wmu = sim.WaitQ{}
	}
	if OnCrash != nil {
		OnCrash()
	}
}

// OnCrash gives the next process fresh package variables.
var OnCrash func()

// PowerLoss additionally drops what was not durable: a seed-chosen subset of
// the dirty pages and a seed-chosen suffix of the metadata operations is lost.
func (f *FS) PowerLoss() {
	f.ProcessCrash()
	k := sim.Pick("powerloss.meta", len(f.journal)+1)
	if sim.Pick("powerloss.meta.all", 3) == 0 {
		k = len(f.journal)
	}
	for _, op := range f.journal[:k] {
		op(f.dnames)
	}
	f.journal = nil
	var ps []string
	for p := range f.dnames {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	done := map[*inode]bool{}
	f.names = map[string]*inode{}
	for _, p := range ps {
		n := f.dnames[p]
		f.names[p] = n
		if n.dir || done[n] {
			continue
		}
		done[n] = true
		n.data = append([]byte(nil), n.data...)
		n.base = nil
		if string(n.data) == string(n.dur) {
			continue
		}
		switch sim.Pick("powerloss.mode", 4) {
		case 0:
			n.data = append([]byte(nil), n.dur...)
		case 1:
		default:
			lo, hi := len(n.dur), len(n.data)
			if lo > hi {
				lo, hi = hi, lo
			}
			size := lo
			switch sim.Pick("powerloss.size", 3) {
			case 0:
				size = hi
			case 1:
				size = lo + sim.Pick("powerloss.sz", hi-lo+1)
			}
			r := make([]byte, size)
			for o := 0; o < size; o += PageSize {
				e := min(o+PageSize, size)
				switch sim.Pick("powerloss.page", 3) {
				case 0:
					if o < len(n.dur) {
						copy(r[o:e], n.dur[o:])
					}
				default:
					if o < len(n.data) {
						copy(r[o:e], n.data[o:])
					} else if o < len(n.dur) {
						copy(r[o:e], n.dur[o:])
					}
				}
			}
			n.data = r
		}
		n.syncAll()
	}
}

// Peek reads a file without scheduling points or faults (oracles).
func (f *FS) Peek(p string) ([]byte, bool) {
	n := f.names[abs(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// PeekDurable reads what the device is guaranteed to hold.
func (f *FS) PeekDurable(p string) ([]byte, bool) {
	n := f.dnames[abs(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.dur...), true
}

// Plant creates a durable file (scenario set-up, or damage to stored bytes).
func (f *FS) Plant(p string, b []byte) {
	p = abs(p)
	n := f.names[p]
	if n == nil {
		n = &inode{id: f.seq, mode: 0666}
		f.seq++
		f.names[p] = n
		f.dnames[p] = n
	}
	n.resize(len(b))
	copy(n.data, b)
	n.mtime = stamp()
	n.syncAll()
}

// stamp is a modification time now: like a kernel's, it has the granularity of
// the timer tick.
func stamp() int64 { return sim.Now() / 4e6 * 4e6 }

func (f *FS) List(dir string) []string {
	dir = abs(dir)
	var l []string
	for p := range f.names {
		if p != dir && path.Dir(p) == dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// Msync is the system call behind a mapped file's synchronous flush.
func (f *FS) Msync(addr uintptr, length uintptr, sync bool) syscall.Errno {
	sim.Prim(sim.KIO)
	if addr%PageSize != 0 {
		return syscall.EINVAL
	}
	for _, m := range f.maps {
		end := m.addr + uintptr((m.size+PageSize-1)/PageSize*PageSize)
		if !m.gone && addr >= m.addr && addr < end {
			rl := (length + PageSize - 1) / PageSize * PageSize
			if addr+rl > end {
				return syscall.ENOMEM
			}
			if sim.Choose("disk.eio-msync", 2, f.P["eio-msync"]) == 1 {
				return syscall.EIO
			}
			if sync {
				lo := int(addr - m.addr)
				sim.Prim(sim.KIO)
				f.Syncs++
				m.n.syncRange(lo, lo+int(rl))
				f.commit()
				sim.Prim(sim.KIO)
			}
			return 0
		}
	}
	if length == 0 {
		return 0
	}
	return syscall.ENOMEM
}

// MapFile maps length bytes of the file (shared).
func MapFile(h *File, length int, off int64) ([]byte, error) {
	sim.Prim(sim.KIO)
	f := TheFS()
	if h == nil || h.closed {
		return nil, syscall.EBADF
	}
	if length <= 0 {
		return nil, syscall.EINVAL
	}
	if f.fault("mmap", h.path) {
		return nil, syscall.ENOMEM
	}
	st := h.n.mapStore()
	if off%PageSize != 0 || off < 0 {
		return nil, syscall.EINVAL
	}
	if int(off)+length > len(st) {
		panic(sim.Fatal{Msg: "sim fs: mapping beyond the reservation"})
	}
	b := st[off : int(off)+length : int(off)+length]
	h.n.maps++
	f.maps = append(f.maps, &mapping{n: h.n, addr: uintptr(unsafe.Pointer(&b[0])), size: length})
	return b, nil
}

// UnmapFile ends a mapping.
func UnmapFile(b []byte) error {
	sim.Prim(sim.KIO)
	if len(b) == 0 {
		return syscall.EINVAL
	}
	f := TheFS()
	a := uintptr(unsafe.Pointer(&b[0]))
	for i, m := range f.maps {
		if m.addr == a && m.size == len(b) {
			m.gone = true
			m.n.maps--
			f.maps = append(f.maps[:i:i], f.maps[i+1:]...)
			return nil
		}
	}
	return syscall.EINVAL
}

type fileInfo struct {
	name string
	size int64
	mode fs.FileMode
	mt   int64
	dir  bool
	n    *inode
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() fs.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return time.Unix(0, i.mt) }
func (i *fileInfo) IsDir() bool        { return i.dir }
func (i *fileInfo) Sys() any {
	return &syscall.Stat_t{Ino: uint64(i.n.id), Size: i.size, Nlink: 1, Blksize: PageSize, Mtim: syscall.NsecToTimespec(i.mt), Ctim: syscall.NsecToTimespec(i.mt)}
}

func (n *inode) info(p string) os.FileInfo {
	return &fileInfo{path.Base(p), int64(len(n.data)), n.mode, n.mtime, n.dir, n}
}
