package scen

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"hash/adler32"
	"io"
	"strings"

	"github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/compress"
	pbuf "github.com/donnie4w/gofer/pool/buffer"
	"github.com/donnie4w/gofer/util"
	sos "github.com/donnie4w/gofer/verifsim/shadow/os"
	"github.com/donnie4w/gofer/verifsim/sim"
)

type poolObj struct {
	owner int
	data  []int64
}

// pat is the deterministic content of a payload.
func pat(seed, n int64) []byte {
	b := make([]byte, n)
	x := uint64(seed)*0x9E3779B97F4A7C15 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

func init() {
	Reg(&Scenario{
		ID: "C17", Title: "pooled objects are exclusive and reset", Twin: 10, Quick: 360000, HardMax: 5000000, SoftMax: 20000,
		Rule: "2-4 tasks (rarely 9, with up to 40 objects at a time) taking 1-3 objects at a time, giving them back themselves or leaving that to another task, from the buffer package's pool, a generic pool with and without reset and constructor, and the size-routed bytes.Buffer pool; ownership and content checked at every step",
		Min:  map[string]int64{"psize": 1},
		Real: []string{"buffer.Buffer", "pool/buffer.NewPool", "pool/buffer.BufferPool"}, Stub: []string{"sync.Pool (bag that may lose or withhold objects)"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"psize": r.In(1, 6)}}
			n := int64(0)
			nt, no, many := 2+r.N(3), 6, int64(3)
			if r.N(50) == 0 {
				nt, no, many = 2+r.N(8), 15, 40
			}
			one := int64(-1)
			if r.P(0.4) {
				one = int64(r.N(4))
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				n++
				if r.P(0.05) {
					return Op{K: "nil", A: []int64{int64(r.N(4))}}
				}
				size := r.Of(0, 1, 7, 8, 40, 300)
				if r.N(40) == 0 {
					size = r.Of(512, 1024, 1025, 4096, 5000, 70_000)
				}
				k := int64(r.N(4))
				if one >= 0 && r.P(0.9) {
					k = one
				}
				// the last argument: another task gives the objects back
				return Op{K: "use", A: []int64{k, n, r.In(1, many), int64(r.N(3)), size, r.Of(0, 0, 1)}}
			})
			return p
		},
		Run: func(p *Prog) {
			held := map[any]int{}
			take := func(x any, ti int) {
				if o, ok := held[x]; ok {
					sim.Fail("shared", "task %d was handed an object that task %d still holds", ti, o)
				}
				held[x] = ti
			}
			withReset := pbuf.NewPool(func() *poolObj { return &poolObj{data: make([]int64, 0, 4)} }, func(o *poolObj) { o.data = o.data[:0]; o.owner = 0 })
			bare := pbuf.NewPool[poolObj](nil, nil)
			bp := pbuf.NewBufferPool(int(p.G("psize")))
			var left []func(ti int) // what others took and this task is to give back
			sweep := func(ti int) {
				for len(left) > 0 {
					f := left[0]
					left = left[1:]
					f(ti)
				}
			}
			giveBack := func(o Op, ti int, f func(ti int)) {
				if o.G(5) == 1 {
					left = append(left, f)
				} else {
					f(ti)
				}
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					sweep(ti)
					if o.K == "nil" {
						Must("Put(nil)", func() {
							switch o.G(0) {
							case 0:
								var b *buffer.Buffer
								if buffer.BufPool.Put(&b) {
									sim.Fail("put-nil", "Put of nothing reports success")
								}
							case 1:
								var b *poolObj
								if withReset.Put(&b) {
									sim.Fail("put-nil", "Put of nothing reports success")
								}
							case 2:
								bp.Put(nil)
							case 3:
								var b *buffer.Buffer
								b.Free()
							}
						})
						continue
					}
					n := int(o.G(2))
					id := o.G(1)
					switch o.G(0) {
					case 0:
						var l []*buffer.Buffer
						for j := 0; j < n; j++ {
							b := buffer.NewBufferByPool()
							take(b, ti)
							if b.Len() != 0 {
								sim.Fail("dirty", "pooled buffer comes with %d bytes", b.Len())
							}
							b.Write(pat(id*100+int64(j), o.G(4)))
							l = append(l, b)
						}
						work(o.G(3))
						giveBack(o, ti, func(ti int) {
							for j, b := range l {
								if !bytes.Equal(b.Bytes(), pat(id*100+int64(j), o.G(4))) {
									sim.Fail("corrupt", "content of a held buffer changed")
								}
								if id%3 == 0 { // partly consumed before it goes back
									b.Read(make([]byte, 3))
								}
								delete(held, b)
								b.Free()
							}
						})
					case 1, 2:
						pool := withReset
						if o.G(0) == 2 {
							pool = bare
						}
						var l []*poolObj
						for j := 0; j < n; j++ {
							x := pool.Get()
							if x == nil {
								sim.Fail("nil", "pool handed out nothing")
							}
							take(x, ti)
							if o.G(0) == 1 && (len(x.data) != 0 || x.owner != 0) {
								sim.Fail("dirty", "pooled object was not reset: %+v", *x)
							}
							x.owner = ti + 1
							x.data = append(x.data[:0], id, int64(j))
							l = append(l, x)
						}
						work(o.G(3))
						giveBack(o, ti, func(int) {
							for j, x := range l {
								if x.owner != ti+1 || len(x.data) != 2 || x.data[0] != id || x.data[1] != int64(j) {
									sim.Fail("corrupt", "content of a held object changed: %+v", *x)
								}
								delete(held, x)
								y := x
								if !pool.Put(&y) || y != nil {
									sim.Fail("put", "Put of an object failed or left the caller's pointer set")
								}
							}
						})
					case 3:
						var l []*bytes.Buffer
						for j := 0; j < n; j++ {
							b := bp.Get(int(o.G(4)))
							take(b, ti)
							if b.Len() != 0 {
								sim.Fail("dirty", "pooled bytes.Buffer comes with %d bytes", b.Len())
							}
							b.Write(pat(id*100+int64(j), o.G(4)))
							l = append(l, b)
						}
						work(o.G(3))
						giveBack(o, ti, func(int) {
							for j, b := range l {
								if !bytes.Equal(b.Bytes(), pat(id*100+int64(j), o.G(4))) {
									sim.Fail("corrupt", "content of a held bytes.Buffer changed")
								}
								delete(held, b)
								if !bp.Put(b) {
									sim.Fail("put", "Put of a bytes.Buffer failed")
								}
							}
						})
					}
				}
			})
			sweep(-1)
		},
	})

	Reg(&Scenario{
		ID: "C18", Title: "Buffer is a byte stream", Twin: 10, Quick: 360000, HardMax: 10000000, SoftMax: 400000,
		Rule: "1-3 tasks, each running up to 14 (rarely 120) operations (all writers, Read, io.ReadFull, io.ReadAll, io.Copy in and out with short and failing sources, Reset, Bytes, String, Len) on its own Buffer from any constructor, against a byte-slice model",
		Real: []string{"buffer.Buffer", "pool/buffer"}, Stub: []string{"sync.Pool"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{}}
			n := int64(0)
			no := 14
			if r.N(60) == 0 {
				no = 120
			}
			p.T = genOps(r, 1+r.N(3), no, func(t, i int) Op {
				n++
				k := []string{"write", "wstr", "wbyte", "wint", "read", "full", "all", "out", "in", "reset", "new", "move"}[r.W(6, 2, 2, 2, 8, 2, 1, 1, 2, 1, 2, 1)]
				size := r.Of(0, 1, 2, 3, 8, 20, 64)
				if r.N(40) == 0 {
					size = r.Of(511, 512, 513, 1024, 4095, 4096, 4097, 33_000, 70_000)
				}
				return Op{K: k, A: []int64{n, size, int64(r.N(4))}}
			})
			for i := range p.T {
				p.T[i] = append([]Op{{K: "new", A: []int64{int64(i), 4, int64(r.N(4))}}}, p.T[i]...)
			}
			return p
		},
		Run: func(p *Prog) {
			Tasks(p, func(ti int, ops []Op) {
				var b *buffer.Buffer
				var m []byte
				var strs, copies []string // strings handed out stay as they are
				mk := func(o Op) {
					m = nil
					switch o.G(2) {
					case 0:
						b = buffer.NewBuffer()
					case 1:
						b = buffer.NewBufferWithCapacity(int(o.G(1)))
					case 2:
						b = buffer.NewBufferByPool()
					default:
						m = pat(o.G(0), o.G(1))
						b = buffer.NewBufferBySlice(append([]byte(nil), m...))
					}
				}
				mk(Op{})
				for _, o := range ops {
					data := pat(o.G(0), o.G(1))
					switch o.K {
					case "new":
						if o.G(0)%2 == 0 {
							b.Free()
						}
						mk(o)
					case "write":
						n, err := b.Write(data)
						if n != len(data) || err != nil {
							sim.Fail("write", "Write of %d bytes returned %d, %v", len(data), n, err)
						}
						m = append(m, data...)
						for i := range data {
							data[i] = 0xEE // the caller may reuse its slice
						}
					case "wstr":
						n, err := b.WriteString(string(data))
						if n != len(data) || err != nil {
							sim.Fail("write", "WriteString of %d bytes returned %d, %v", len(data), n, err)
						}
						m = append(m, data...)
					case "wbyte":
						if err := b.WriteByte(byte(o.G(0))); err != nil {
							sim.Fail("write", "WriteByte: %v", err)
						}
						m = append(m, byte(o.G(0)))
					case "wint":
						v := int32(sim.Mix(uint64(o.G(0)), 3))
						n, err := b.WriteInt32(int(v))
						if n != 4 || err != nil {
							sim.Fail("write", "WriteInt32 appended 4 bytes but returned %d, %v", n, err)
						}
						m = binary.BigEndian.AppendUint32(m, uint32(v))
					case "read":
						d := make([]byte, o.G(1))
						n, err := b.Read(d)
						want := min(len(d), len(m))
						if n != want || !bytes.Equal(d[:n], m[:n]) {
							sim.Fail("read", "Read of %d bytes with %d buffered returned %d bytes (content right: %v)", len(d), len(m), n, n <= len(m) && bytes.Equal(d[:n], m[:n]))
						}
						if (err == io.EOF) != (len(m) == 0 && len(d) > 0) || err != nil && err != io.EOF {
							sim.Fail("eof", "Read of %d bytes with %d buffered returned error %v", len(d), len(m), err)
						}
						m = m[n:]
					case "full":
						d := make([]byte, o.G(1))
						n, err := io.ReadFull(b, d)
						want := min(len(d), len(m))
						if n != want || (err == nil) != (want == len(d)) || !bytes.Equal(d[:n], m[:n]) {
							sim.Fail("read", "ReadFull of %d bytes with %d buffered: %d, %v", len(d), len(m), n, err)
						}
						m = m[n:]
					case "all":
						d, err := io.ReadAll(limitReads{b, new(int)})
						if err != nil || !bytes.Equal(d, m) {
							sim.Fail("read", "ReadAll with %d buffered: %d bytes, %v", len(m), len(d), err)
						}
						m = nil
					case "out":
						var d bytes.Buffer
						n, err := io.Copy(&d, limitReads{b, new(int)})
						if err != nil || int(n) != len(m) || !bytes.Equal(d.Bytes(), m) {
							sim.Fail("read", "Copy out of %d buffered bytes: %d, %v", len(m), n, err)
						}
						m = nil
					case "in":
						// a source that delivers in small pieces and may fail half way
						src := &flakySrc{data: data, step: int(o.G(2)) + 1}
						if sim.Choose("short-read", 2, 0.3) != 0 {
							src.failAt = len(data) / 2
							src.fails = true
						}
						n, err := io.Copy(b, src)
						want := len(data)
						if src.fails {
							want = src.failAt
						}
						if int(n) != want || (err != nil) != src.fails {
							sim.Fail("write", "Copy in of %d bytes: %d, %v", want, n, err)
						}
						m = append(m, data[:want]...)
					case "move": // everything goes over to another Buffer
						old, om := b, m
						mk(o)
						var src io.Reader = old // its own WriteTo, if it has one, or read after read
						if o.G(0)%2 == 0 {
							src = limitReads{old, new(int)}
						}
						n, err := io.Copy(b, src)
						if err != nil || int(n) != len(om) {
							sim.Fail("read", "Copy of %d bytes to another Buffer: %d, %v", len(om), n, err)
						}
						m = append(m, om...)
						if old.Len() != 0 {
							sim.Fail("read", "%d bytes are left in a Buffer after all were copied out of it", old.Len())
						}
						old.Free()
					case "reset":
						b.Reset()
						m = nil
					}
					if b.Len() != len(m) || !bytes.Equal(b.Bytes(), m) || b.String() != string(m) {
						sim.Fail("content", "after %s the buffer holds %d bytes %x, expected %d bytes %x", o, b.Len(), b.Bytes(), len(m), m)
					}
					if len(strs) < 6 {
						strs, copies = append(strs, b.String()), append(copies, string(m))
					}
					for i, s := range strs {
						if s != copies[i] {
							sim.Fail("string", "after %s a string obtained earlier from the buffer reads %.60x, was %.60x", o, s, copies[i])
						}
					}
				}
			})
			var none *buffer.Buffer
			Must("nil buffer", func() {
				if _, err := none.Write([]byte{1}); err == nil {
					sim.Fail("nil", "Write to a nil buffer succeeds")
				}
				if n, err := none.Read(make([]byte, 1)); n != 0 || err != io.EOF {
					sim.Fail("nil", "Read from a nil buffer: %d, %v", n, err)
				}
			})
		},
	})

	Reg(&Scenario{
		ID: "C32", Title: "damaged compressed data is never decoded to something else", Quick: 12000, HardMax: 10000000, SoftMax: 400000, NoVC: true,
		Rule: "1-3 tasks x 1-5 payloads of 0-3000 (rarely 70000, very rarely up to 20 million) bytes compressed in every format, kept in a file of the simulated disk that loses its tail, tears at a power loss or flips a byte, then decoded: the original or an error; arguments and earlier results stay as they are",
		Real: []string{"compress", "util (Zlib, Gzip)", "compress/flate, gzip, zlib, snappy, zstd as shipped"}, Stub: []string{"file system with page cache, power loss and read corruption"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{}}
			n := int64(0)
			one := int64(r.N(9))
			same := r.N(2) == 0 // the tasks use one format
			p.T = genOps(r, 1+r.N(3), 5, func(t, i int) Op {
				n++
				c := int64(r.N(9))
				if same {
					c = one
				}
				return Op{K: "blob", A: []int64{c, n, r.Of(0, 1, 5, 30, 200, 1000, 3000, 0, 1, 5, 30, 200, 1000, 3000, r.Of(3000, 40_000, 70_000)), int64(r.N(3)), r.Of(0, 0, 1, 2, 3), int64(r.U64() >> 2), int64(r.N(4)), int64(r.N(4)), int64(r.N(4))}}
			})
			if r.P(0.004) { // sizes beyond every buffer and window, one in a while
				o := p.T[0][0].A
				o[2] = r.Of(300_000, 300_000, 1_200_000, 1_200_000, 3_000_000, 9_000_000, 20_000_000)
				o[4] = r.Of(0, 0, 0, 1, 2)
			}
			return p
		},
		Run: runBlobs,
	})
}

type limitReads struct {
	b *buffer.Buffer
	n *int
}

func (l limitReads) Read(p []byte) (int, error) {
	if *l.n++; *l.n > 1000 {
		sim.Fail("eof", "reading the buffer to its end does not terminate")
	}
	return l.b.Read(p)
}

type flakySrc struct {
	data   []byte
	off    int
	step   int
	fails  bool
	failAt int
}

func (s *flakySrc) Read(p []byte) (int, error) {
	end := len(s.data)
	if s.fails {
		end = s.failAt
	}
	if s.off >= end {
		if s.fails {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), s.step)], s.data[s.off:end])
	s.off += n
	return n, nil
}

func runBlobs(p *Prog) {
	type codec struct {
		name     string
		checksum bool
		enc      func([]byte) ([]byte, error)
		dec      func([]byte) ([]byte, error)
	}
	codecs := []codec{
		{"compress.Zlib", true, compress.Zlib, compress.UnZlib},
		{"compress.ZlibLevel", true, func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, 9) }, compress.UnZlib},
		{"compress.Gzip", true, compress.Gzip, compress.UnGzip},
		{"compress.Snappy", false, func(b []byte) ([]byte, error) { return compress.Snappy(b), nil }, compress.UnSnappy},
		{"compress.Zstd", true, compress.Zstd, compress.UnZstd},
		{"compress.ZstdLevel", true, func(b []byte) ([]byte, error) { return compress.ZstdLevel(b, 3) }, compress.UnZstd},
		{"util.Zlib", true, util.Zlib, util.UnZlib},
		{"util.Gzip", true, func(b []byte) ([]byte, error) { x, err := util.Gzip(b); return x.Bytes(), err }, func(b []byte) ([]byte, error) { x, err := util.UnGzip(b); return x.Bytes(), err }},
		{"util.Snappy", false, func(b []byte) ([]byte, error) { return util.SnappyEncode(b), nil }, func(b []byte) ([]byte, error) {
			x := util.SnappyDecode(b)
			if x == nil {
				return nil, io.ErrUnexpectedEOF // its way of reporting an error
			}
			return x, nil
		}},
	}
	fs := sos.TheFS()
	var keep Keep
	Tasks(p, func(ti int, ops []Op) {
		for i, o := range ops {
			work(o.G(6))
			c := codecs[o.G(0)]
			data := pat(o.G(1), o.G(2))
			switch o.G(3) { // how compressible
			case 1:
				for j := range data {
					data[j] = byte('a' + j/7%3)
				}
			case 2:
				for j := range data {
					data[j] &= 7
				}
			}
			keep.Add(c.name, data)
			var enc []byte
			var err error
			Must(c.name, func() { enc, err = c.enc(data) })
			if err != nil {
				sim.Fail("encode", "%s of %d bytes: %v", c.name, len(data), err)
			}
			keep.Add(c.name, enc)
			work(o.G(7))
			name := "/work/blob" + string(rune('a'+i)) + string(rune('a'+ti))
			f, err := sos.Create(name)
			if err != nil {
				sim.Fail("harness", "create: %v", err)
			}
			f.Write(enc)
			damage := o.G(4)
			if damage == 0 {
				f.Sync()
			}
			f.Close()
			x := uint64(o.G(5))
			stored := append([]byte(nil), enc...)
			switch damage {
			case 1: // the tail is lost (an entirely empty blob is not recognisable in every format)
				if len(stored) > 1 {
					stored = stored[:1+x%uint64(len(stored)-1)]
					fs.Plant(name, stored)
					sim.S.Fault("lost-tail")
				}
			case 2: // a byte changes
				if len(stored) > 0 {
					stored[x%uint64(len(stored))] ^= byte(1 << (x >> 40 % 8))
					fs.Plant(name, stored)
					sim.S.Fault("bit-flip")
				}
			case 3: // the tail was never written: zeros up to the old length
				if len(stored) > 0 {
					at := x % uint64(len(stored))
					for j := at; j < uint64(len(stored)); j++ {
						stored[j] = 0
					}
					fs.Plant(name, stored)
					sim.S.Fault("torn-tail")
				}
			}
			rd, err := sos.ReadFile(name)
			if err != nil {
				sim.Fail("harness", "read: %v", err)
			}
			var got []byte
			var derr error
			keep.Add(c.name+" decoder", rd)
			Must(c.name+" decoder", func() { got, derr = c.dec(rd) })
			keep.Add(c.name+" decoder", got)
			if strings.HasSuffix(c.name, "Gzip") {
				var cerr error
				Must("CheckGzipType", func() { cerr = util.CheckGzipType(rd) })
				if _, err := gzip.NewReader(bytes.NewReader(rd)); (err == nil) != (cerr == nil) {
					sim.Fail("gzip-type", "CheckGzipType: %v, but the header: %v", cerr, err)
				}
			}
			work(o.G(8))
			keep.Check()
			if c.name == "util.Snappy" && len(data) == 0 && got == nil {
				derr = nil // nothing and "cannot decode" look alike there
			}
			if bytes.Equal(rd, enc) {
				if derr != nil || !bytes.Equal(got, data) {
					sim.Fail("round-trip", "%s: %d bytes decode to %d bytes, %v", c.name, len(data), len(got), derr)
				}
				continue
			}
			if strings.HasSuffix(c.name, "Zlib") || strings.HasSuffix(c.name, "ZlibLevel") {
				if derr == nil && !bytes.Equal(got, data) && adler32.Checksum(got) == adler32.Checksum(data) {
					sim.Probe("adler-collision") // the format's own limit: its checksum cannot tell these apart
					continue
				}
			}
			if derr == nil && !bytes.Equal(got, data) && (c.checksum || damage == 1) {
				sim.Fail("silent-damage", "%s: %d bytes stored in %d, damaged (%d) to %d, decode without error to %d different bytes", c.name, len(data), len(enc), damage, len(rd), len(got))
			}
			sim.Probe("damage-seen")
		}
	})
	keep.Check()
}
