package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/verifsim/sim"
)

// File is an open file of the simulated file system.
type File struct {
	n       *inode
	path    string
	flag    int
	pos     int64
	closed  bool
	wlock   bool
	rlock   bool
	wq, rq  sim.WaitQ
	std     bool
	fd      uintptr
	lastOff int64
}

var (
	errAppend = errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	errNeg    = errors.New("negative offset")
)

var (
	Stdin  = &File{std: true, path: "/dev/stdin"}
	Stdout = &File{std: true, path: "/dev/stdout", fd: 1}
	Stderr = &File{std: true, path: "/dev/stderr", fd: 2}
)

func (f *File) beginW() {
	for f.wlock {
		f.wq.Wait("file write lock")
	}
	f.wlock = true
}
func (f *File) endW() { f.wlock = false; f.wq.WakeAll() }
func (f *File) beginR() {
	for f.rlock {
		f.rq.Wait("file read lock")
	}
	f.rlock = true
}
func (f *File) endR() { f.rlock = false; f.rq.WakeAll() }

func (f *File) chk(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.path, os.ErrClosed)
	}
	return nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	sim.Prim(sim.KIO)
	f := TheFS()
	p := abs(name)
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if f.fault("open", p) {
		return nil, perr("open", name, syscall.EMFILE)
	}
	n := f.names[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := f.names[path.Dir(p)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		n = &inode{id: f.seq, mode: perm & 0777, mtime: stamp()}
		f.seq++
		nn := n
		f.log(func(m map[string]*inode) { m[p] = nn })
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR|os.O_TRUNC) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.resize(0)
			n.mtime = stamp()
		}
	}
	h := &File{n: n, path: name, flag: flag, fd: uintptr(10 + len(f.handles))}
	f.handles = append(f.handles, h)
	return h, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		f := TheFS()
		f.tmpSeq++
		h, err := OpenFile(dir+"/"+pre+strconv.Itoa(100000+f.tmpSeq)+suf, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return h, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	f := TheFS()
	f.tmpSeq++
	p := dir + "/" + strings.ReplaceAll(pattern, "*", "") + strconv.Itoa(100000+f.tmpSeq)
	return p, Mkdir(p, 0700)
}

func (f *File) Name() string { return f.path }
func (f *File) Fd() uintptr  { return f.fd }

// doWrite is one Write/WriteAt: page by page into the page cache, then the
// injected outcome.
func (f *File) doWrite(b []byte, off int64, appendMode bool) (int, error) {
	fsy := TheFS()
	limit, werr := len(b), error(nil)
	f.lastOff = off
	if len(b) > 0 {
		fsy.Writes++
		if fsy.fault("eio-write", f.path) {
			return 0, syscall.EIO
		}
		if fsy.fault("enospc", f.path) {
			limit, werr = 0, syscall.ENOSPC
		}
		if limit > 1 && fsy.fault("short-write", f.path) {
			limit = 1 + sim.Pick("disk.short", len(b)-1)
			werr = syscall.ENOSPC
			if sim.Pick("disk.short-e", 2) == 0 {
				werr = syscall.EIO
			}
		}
	}
	n := f.n
	n.lock()
	done := false
	defer func() {
		if done {
			n.unlock()
		}
	}()
	if appendMode {
		off = int64(len(n.data))
	}
	if fsy.Cap > 0 && len(b) > 0 {
		if free := fsy.Cap - fsy.used(); int64(limit) > free {
			limit = int(max(free, 0))
			werr = syscall.ENOSPC
			sim.S.Fault("disk.full")
		}
	}
	w := 0
	for w < limit {
		e := int(min(int64(limit), (off+int64(w))/PageSize*PageSize+PageSize-off))
		if fsy.ChunkP > 0 && e-w > 1 && sim.Pick("disk.chunk", 1000) < int(fsy.ChunkP*1000) {
			e = w + 1 + sim.Pick("disk.chunkn", e-w)
			if e > limit {
				e = limit
			}
		}
		if w > 0 {
			sim.Prim(sim.KIO)
		}
		if need := off + int64(e); need > int64(len(n.data)) {
			n.resize(int(need))
		}
		copy(n.data[off+int64(w):], b[w:e])
		w = e
	}
	n.mtime = stamp()
	if f.flag&(os.O_SYNC) != 0 {
		n.syncRange(int(off), int(off)+w)
		fsy.commit()
	}
	f.lastOff = off
	done = true
	return w, werr
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	sim.Prim(sim.KIO)
	if f.std {
		return len(b), nil
	}
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	f.beginW()
	ok := false
	defer func() {
		if ok {
			f.endW()
		}
	}()
	if f.closed {
		ok = true
		return 0, perr("write", f.path, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		ok = true
		return 0, perr("write", f.path, syscall.EBADF)
	}
	n, err := f.doWrite(b, f.pos, f.flag&os.O_APPEND != 0)
	f.pos = f.lastOff + int64(n)
	ok = true
	sim.Prim(sim.KIO)
	if err != nil {
		return n, perr("write", f.path, err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		return 0, errAppend
	}
	if off < 0 {
		return 0, perr("writeat", f.path, errNeg)
	}
	sim.Prim(sim.KIO)
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	f.beginW()
	ok := false
	defer func() {
		if ok {
			f.endW()
		}
	}()
	save := f.lastOff
	n, err := f.doWrite(b, off, false)
	f.lastOff = save
	ok = true
	sim.Prim(sim.KIO)
	if err != nil {
		return n, perr("write", f.path, err)
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	sim.Prim(sim.KIO)
	if f.std {
		return 0, io.EOF
	}
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	fsy := TheFS()
	if len(b) == 0 {
		return 0, nil
	}
	f.beginR()
	defer f.endR()
	if fsy.fault("eio-read", f.path) {
		return 0, perr("read", f.path, syscall.EIO)
	}
	if f.pos >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, f.n.data[f.pos:])
	if k > 1 && fsy.fault("short-read", f.path) {
		k = 1 + sim.Pick("disk.shortread", k-1)
	}
	f.pos += int64(k)
	return k, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.path, errNeg)
	}
	sim.Prim(sim.KIO)
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if TheFS().fault("eio-read", f.path) {
		return 0, perr("read", f.path, syscall.EIO)
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, f.n.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	sim.Prim(sim.KIO)
	if TheFS().fault("eio-seek", f.path) {
		return 0, perr("seek", f.path, syscall.EIO)
	}
	var np int64
	switch whence {
	case io.SeekStart:
		np = off
	case io.SeekCurrent:
		np = f.pos + off
	case io.SeekEnd:
		np = int64(len(f.n.data)) + off
	default:
		return 0, perr("seek", f.path, syscall.EINVAL)
	}
	if np < 0 {
		return 0, perr("seek", f.path, syscall.EINVAL)
	}
	f.pos = np
	return np, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	sim.Prim(sim.KIO)
	if err := f.chk("truncate"); err != nil {
		return err
	}
	if size < 0 {
		return perr("truncate", f.path, syscall.EINVAL)
	}
	if TheFS().fault("eio-truncate", f.path) {
		return perr("truncate", f.path, syscall.EIO)
	}
	f.n.lock()
	f.n.resize(int(size))
	f.n.mtime = stamp()
	f.n.unlock()
	sim.Prim(sim.KIO)
	return nil
}

func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	sim.Prim(sim.KIO)
	if f.std {
		return nil
	}
	fsy := TheFS()
	fsy.Syncs++
	if fsy.fault("eio-sync", f.path) {
		return perr("sync", f.path, syscall.EIO)
	}
	f.n.syncAll()
	fsy.commit()
	sim.Prim(sim.KIO)
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.path, os.ErrClosed)
	}
	sim.Prim(sim.KIO)
	if f.closed {
		return perr("close", f.path, os.ErrClosed)
	}
	f.closed = true
	if f.std {
		return nil
	}
	if TheFS().fault("eio-close", f.path) {
		return perr("close", f.path, syscall.EIO)
	}
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	sim.Prim(sim.KIO)
	if TheFS().fault("eio-stat", f.path) {
		return nil, perr("stat", f.path, syscall.EIO)
	}
	return f.n.info(f.path), nil
}

func (f *File) Chmod(m os.FileMode) error { return f.chk("chmod") }

func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }

func (f *File) ReadDir(int) ([]fs.DirEntry, error) { return ReadDir(f.path) }

func (f *File) Readdir(int) (r []os.FileInfo, err error) {
	es, err := ReadDir(f.path)
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			r = append(r, i)
		}
	}
	return r, err
}

func (f *File) Readdirnames(int) (r []string, err error) {
	es, err := ReadDir(f.path)
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

// ReadFrom and WriteTo are what io.Copy uses on a file.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Chown(uid, gid int) error         { return f.chk("chown") }
func (f *File) Chdir() error                     { return perr("chdir", f.path, syscall.ENOTDIR) }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

func Stat(name string) (os.FileInfo, error) {
	sim.Prim(sim.KIO)
	fsy := TheFS()
	p := abs(name)
	if fsy.fault("eio-stat", p) {
		return nil, perr("stat", name, syscall.EIO)
	}
	n := fsy.names[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return n.info(p), nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok && ok2 && x.n == y.n
}

func Chtimes(name string, atime, mtime time.Time) error {
	sim.Prim(sim.KIO)
	n := TheFS().names[abs(name)]
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	if !mtime.IsZero() {
		n.mtime = mtime.UnixNano()
	}
	return nil
}

func Mkdir(name string, perm os.FileMode) error {
	sim.Prim(sim.KIO)
	f := TheFS()
	p := abs(name)
	if f.names[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d := f.names[path.Dir(p)]
	if d == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if !d.dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if f.fault("mkdir", p) {
		return perr("mkdir", name, syscall.ENOSPC)
	}
	n := &inode{id: f.seq, dir: true, mode: os.ModeDir | perm&0777}
	f.seq++
	f.log(func(m map[string]*inode) { m[p] = n })
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	f := TheFS()
	p := abs(name)
	if n := f.names[p]; n != nil {
		sim.Prim(sim.KIO)
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if p == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if err := MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	if err := Mkdir(p, perm); err != nil {
		if n := f.names[p]; n != nil && n.dir {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	sim.Prim(sim.KIO)
	f := TheFS()
	p := abs(name)
	n := f.names[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(f.List(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.log(func(m map[string]*inode) { delete(m, p) })
	return nil
}

func RemoveAll(name string) error {
	sim.Prim(sim.KIO)
	f := TheFS()
	p := abs(name)
	var l []string
	for q := range f.names {
		if q == p || strings.HasPrefix(q, p+"/") {
			l = append(l, q)
		}
	}
	f.log(func(m map[string]*inode) {
		for _, q := range l {
			delete(m, q)
		}
	})
	return nil
}

func Rename(from, to string) error {
	sim.Prim(sim.KIO)
	f := TheFS()
	a, b := abs(from), abs(to)
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	n := f.names[a]
	if n == nil {
		return le(syscall.ENOENT)
	}
	if d := f.names[path.Dir(b)]; d == nil || !d.dir {
		return le(syscall.ENOENT)
	}
	if t := f.names[b]; t != nil && t.dir {
		return le(syscall.EEXIST)
	}
	if f.fault("eio-rename", b) {
		return le(syscall.EIO)
	}
	f.log(func(m map[string]*inode) {
		x := m[a]
		if x == nil {
			x = n
		}
		delete(m, a)
		m[b] = x
	})
	sim.Prim(sim.KIO)
	return nil
}

func Link(from, to string) error {
	sim.Prim(sim.KIO)
	f := TheFS()
	a, b := abs(from), abs(to)
	n := f.names[a]
	if n == nil {
		return perr("link", from, syscall.ENOENT)
	}
	if f.names[b] != nil {
		return perr("link", to, syscall.EEXIST)
	}
	f.log(func(m map[string]*inode) { m[b] = n })
	return nil
}

func Truncate(name string, size int64) error {
	h, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(size)
}

func Chmod(name string, m os.FileMode) error { return nil }

func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var r []byte
	buf := make([]byte, 8192)
	for {
		n, err := h.Read(buf)
		r = append(r, buf[:n]...)
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return r, err
		}
	}
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(b)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

type dirEntry struct{ i os.FileInfo }

func (d dirEntry) Name() string               { return d.i.Name() }
func (d dirEntry) IsDir() bool                { return d.i.IsDir() }
func (d dirEntry) Type() fs.FileMode          { return d.i.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.i, nil }

func ReadDir(name string) ([]os.DirEntry, error) {
	sim.Prim(sim.KIO)
	f := TheFS()
	p := abs(name)
	n := f.names[p]
	if n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var r []os.DirEntry
	for _, q := range f.List(p) {
		r = append(r, dirEntry{f.names[q].info(q)})
	}
	return r, nil
}

func Getwd() (string, error)    { return "/work", nil }
func TempDir() string           { return "/tmp" }
func Hostname() (string, error) { return "simhost", nil }
func Getppid() int              { return 1 }
func Exit(code int)             { panic(sim.Fatal{Msg: "os.Exit called"}) }
func Getpagesize() int          { return PageSize }

// Getpid differs between process generations.
func Getpid() int {
	if sim.S == nil {
		return 4000
	}
	if v, ok := sim.S.Data["pid"].(int); ok {
		return v
	}
	return 4000 + sim.S.Gen
}

// FileByFd finds an open file (raw system calls).
func FileByFd(fd uintptr) *File {
	for _, h := range TheFS().handles {
		if h.fd == fd && !h.closed {
			return h
		}
	}
	return nil
}
