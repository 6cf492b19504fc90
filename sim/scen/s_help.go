package scen

import (
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"reflect"
	"regexp"
	"strings"
	"time"

	athrift "github.com/apache/thrift/lib/go/thrift"
	gthrift "github.com/donnie4w/gothrift/thrift"
	"golang.org/x/crypto/blake2b"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/fast"
	"github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// helpRec is what the gob and JSON helpers carry.
type helpRec struct {
	I int64
	S string
	B []byte
	M map[string]int64
	L []int32
	P *helpRec
}

func helpMake(id, n int64, deep bool) helpRec {
	r := helpRec{I: id * 0x1234567, S: fmt.Sprintf("s%d-é", id), B: pat(id, n), L: []int32{int32(id), -1, int32(n)}}
	if len(r.B) == 0 {
		r.B = nil
	}
	if id%2 == 0 {
		r.M = map[string]int64{"a": id, "b": -n}
	}
	if deep {
		q := helpMake(id+1, n/2, false)
		r.P = &q
	}
	return r
}

// helpT is a hand-written thrift struct: 1: i64, 2: binary.
type helpT struct {
	I int64
	B []byte
}

func (t *helpT) rw(get func() (byte, int16, error), i func() (int64, error), b func() ([]byte, error), skip, end func() error) error {
	for {
		typ, id, err := get()
		if err != nil {
			return err
		}
		switch {
		case typ == 0: // STOP
			return nil
		case id == 1 && typ == 10:
			if t.I, err = i(); err != nil {
				return err
			}
		case id == 2 && typ == 11:
			if t.B, err = b(); err != nil {
				return err
			}
		default:
			return fmt.Errorf("field %d of type %d", id, typ)
		}
		if err = end(); err != nil {
			return err
		}
	}
}

type helpA struct{ helpT }
type helpG struct{ helpT }

func (t *helpA) Write(c context.Context, p athrift.TProtocol) error {
	p.WriteStructBegin(c, "t")
	p.WriteFieldBegin(c, "I", athrift.I64, 1)
	p.WriteI64(c, t.I)
	p.WriteFieldEnd(c)
	p.WriteFieldBegin(c, "B", athrift.STRING, 2)
	p.WriteBinary(c, t.B)
	p.WriteFieldEnd(c)
	p.WriteFieldStop(c)
	return p.WriteStructEnd(c)
}

func (t *helpA) Read(c context.Context, p athrift.TProtocol) error {
	if _, err := p.ReadStructBegin(c); err != nil {
		return err
	}
	return t.rw(func() (byte, int16, error) { _, a, b, e := p.ReadFieldBegin(c); return byte(a), b, e },
		func() (int64, error) { return p.ReadI64(c) }, func() ([]byte, error) { return p.ReadBinary(c) }, nil,
		func() error { return p.ReadFieldEnd(c) })
}

func (t *helpG) Write(c context.Context, p gthrift.TProtocol) error {
	p.WriteStructBegin(c, "t")
	p.WriteFieldBegin(c, "I", gthrift.I64, 1)
	p.WriteI64(c, t.I)
	p.WriteFieldEnd(c)
	p.WriteFieldBegin(c, "B", gthrift.STRING, 2)
	p.WriteBinary(c, t.B)
	p.WriteFieldEnd(c)
	p.WriteFieldStop(c)
	return p.WriteStructEnd(c)
}

func (t *helpG) Read(c context.Context, p gthrift.TProtocol) error {
	if _, err := p.ReadStructBegin(c); err != nil {
		return err
	}
	return t.rw(func() (byte, int16, error) { _, a, b, e := p.ReadFieldBegin(c); return byte(a), b, e },
		func() (int64, error) { return p.ReadI64(c) }, func() ([]byte, error) { return p.ReadBinary(c) }, nil,
		func() error { return p.ReadFieldEnd(c) })
}

// crc8 is CRC-8 with polynomial x^8+x^2+x+1, bit by bit.
func crc8(bs []byte) (r byte) {
	for _, b := range bs {
		r ^= b
		for i := 0; i < 8; i++ {
			if r&0x80 != 0 {
				r = r<<1 ^ 7
			} else {
				r <<= 1
			}
		}
	}
	return
}

var helpKinds = []string{"int64", "int32", "int16", "ints", "gob", "json", "thrift", "gothrift", "proto", "base58", "hash", "rand", "text", "time", "match"}

func init() {
	Reg(&Scenario{
		ID: "C36", Title: "encoding, hashing and random helpers", Quick: 360000, HardMax: 4000000, SoftMax: 300000,
		Rule: "1-4 tasks x 1-4 calls of the integer, gob, JSON, thrift, protobuf, base58, hash and random helpers with values of all sizes, every result held and compared later, decoders also given truncated data, the entropy source failing",
		Real: []string{"util", "base58", "thrift", "fast", "encoding/gob, encoding/json, thrift and protobuf libraries as shipped"},
		Stub: []string{"crypto/rand, hash/maphash seed, clock"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"entropy": r.Of(0, 0, 0, 50, 100), "same": int64(r.N(2)), "zones": r.Of(0, 0, 0, 50, 100)}}
			nt, no := 1+r.N(4), 4
			if r.P(0.01) {
				nt, no = 1+r.N(2), 40
			}
			one := int64(-1)
			if r.P(0.6) { // everybody uses the same helper
				one = int64(r.N(len(helpKinds)))
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(len(helpKinds)))
				if one >= 0 && r.P(0.8) {
					k = one
				}
				var v int64
				switch r.N(5) {
				case 0:
					v = r.Of(0, 1, -1, 57, 58, 59, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1<<31-1, 1<<31, -1<<31, 1<<32-1, 1<<32, 1<<62, 1<<63-1, -1<<63)
				case 1:
					v = int64(r.N(1000)) - 500
				default:
					v = int64(r.U64()) >> r.N(64)
				}
				return Op{K: helpKinds[k], A: []int64{v, r.Of(0, 1, 2, 7, 8, 9, 16, 30, 63, 64, 65, 200, 1000), int64(r.N(4)), int64(r.N(2000))}}
			})
			if r.P(0.02) {
				p.T[0][0].A[1] = r.Of(4096, 5000, 65535, 65536, 70000)
			}
			return p
		},
		Run: func(p *Prog) {
			if e := p.G("entropy"); e > 0 {
				sim.S.Data["entropy-fail"] = float64(e) / 100
			}
			if e := p.G("zones"); e > 0 {
				sim.S.Data["no-zones"] = float64(e) / 100
			}
			hashes := map[string]uint64{}
			rids := map[int64]bool{}
			var res Keep
			Tasks(p, func(ti int, ops []Op) {
				for oi, o := range ops {
					work(o.G(2))
					v, n, x := o.G(0), o.G(1), o.G(3)
					if p.G("same") == 1 && o.G(2) < 2 {
						ti, oi = 0, 0
					}
					id := int64(ti*50 + oi)
					eq := func(what string, ok bool) {
						if !ok {
							sim.Fail("wrong", "%s gives a wrong result for value %d, size %d", what, v, n)
						}
					}
					blob := pat(id, n)
					orig := append([]byte(nil), blob...)
					full := pat(id+7, 8)
					switch o.K {
					case "int64":
						var b []byte
						Must(o.K, func() { b = util.Int64ToBytes(v) })
						eq("Int64ToBytes", bytes.Equal(b, binary.BigEndian.AppendUint64(nil, uint64(v))))
						res.Add("Int64ToBytes", b)
						work(o.G(2))
						var w, w2, w3 int64
						Must(o.K, func() {
							w, w2, w3 = util.BytesToInt64(b), util.BytesToInt64(full[:x%9]), util.BytesToInt64(append(b[:8:8], 1, 2))
						})
						eq("BytesToInt64", w == v && w3 == v)
						eq("BytesToInt64 of fewer bytes", uint64(w2) == binary.BigEndian.Uint64(append(make([]byte, 8-x%9), full[:x%9]...)))
					case "int32":
						i := int32(v)
						var b []byte
						Must(o.K, func() { b = util.Int32ToBytes(i) })
						eq("Int32ToBytes", bytes.Equal(b, binary.BigEndian.AppendUint32(nil, uint32(i))))
						res.Add("Int32ToBytes", b)
						work(o.G(2))
						var w, w2, w3 int32
						Must(o.K, func() {
							w, w2, w3 = util.BytesToInt32(b), util.BytesToInt32(full[:x%5]), util.BytesToInt32(append(b[:4:4], 1, 2))
						})
						eq("BytesToInt32", w == i && w3 == i)
						eq("BytesToInt32 of fewer bytes", uint32(w2) == binary.BigEndian.Uint32(append(make([]byte, 4-x%5), full[:x%5]...)))
					case "int16":
						i := int16(v)
						var b []byte
						Must(o.K, func() { b = util.Int16ToBytes(i) })
						eq("Int16ToBytes", bytes.Equal(b, binary.BigEndian.AppendUint16(nil, uint16(i))))
						res.Add("Int16ToBytes", b)
						work(o.G(2))
						var w, w2, w3 int16
						Must(o.K, func() {
							w, w2, w3 = util.BytesToInt16(b), util.BytesToInt16(full[:x%3]), util.BytesToInt16(append(b[:2:2], 1, 2))
						})
						eq("BytesToInt16", w == i && w3 == i)
						eq("BytesToInt16 of fewer bytes", uint16(w2) == binary.BigEndian.Uint16(append(make([]byte, 2-x%3), full[:x%3]...)))
					case "ints":
						a := make([]int64, n%2000)
						var want []byte
						for i := range a {
							a[i] = v + int64(i)*x
							want = binary.BigEndian.AppendUint64(want, uint64(a[i]))
						}
						c := append([]int64(nil), a...)
						var b []byte
						var back []int64
						Must(o.K, func() { b = util.IntArrayToBytes(a) })
						eq("IntArrayToBytes", bytes.Equal(b, want) && reflect.DeepEqual(append([]int64(nil), a...), c))
						res.Add("IntArrayToBytes", b)
						work(o.G(2))
						Must(o.K, func() { back = util.BytesToIntArray(b) })
						eq("BytesToIntArray", len(back) == len(c) && (len(c) == 0 || reflect.DeepEqual(back, c)))
					case "gob":
						rec := helpMake(id, n, v&1 == 0)
						var b []byte
						var err error
						Must(o.K, func() { b, err = util.Encode(rec) })
						eq("Encode", err == nil && reflect.DeepEqual(rec, helpMake(id, n, v&1 == 0)))
						res.Add("Encode", b)
						work(o.G(2))
						var back *helpRec
						Must(o.K, func() { back, err = util.Decode[helpRec](b) })
						eq("Decode", err == nil && reflect.DeepEqual(*back, rec))
						if v&2 == 0 {
							Must(o.K, func() { _, err = util.Decode[helpRec](b[:x%int64(len(b))]) })
							if err == nil {
								sim.Fail("damaged", "Decode of the first %d of %d bytes reports no error", x%int64(len(b)), len(b))
							}
						}
						eq("Decode", reflect.DeepEqual(*back, rec))
					case "json":
						rec := helpMake(id, n, v&1 == 0)
						var b []byte
						var err error
						Must(o.K, func() { b = util.JsonEncode(rec) })
						want, _ := json.Marshal(rec)
						eq("JsonEncode", bytes.Equal(b, want))
						res.Add("JsonEncode", b)
						work(o.G(2))
						var back helpRec
						Must(o.K, func() { back, err = util.JsonDecode[helpRec](b) })
						eq("JsonDecode", err == nil && reflect.DeepEqual(back, rec))
						if v&2 == 0 {
							Must(o.K, func() { _, err = util.JsonDecode[helpRec](b[:x%int64(len(b))]) })
							if err == nil {
								sim.Fail("damaged", "JsonDecode of the first %d of %d bytes reports no error", x%int64(len(b)), len(b))
							}
						}
						eq("JsonDecode", reflect.DeepEqual(back, rec))
					case "thrift", "gothrift":
						var b, c []byte
						var err, err2 error
						a, g := &helpA{helpT{v, blob}}, &helpG{helpT{v, blob}}
						a2, g2 := &helpA{}, &helpG{}
						if o.K == "thrift" {
							Must(o.K, func() { b = thrift.TEncode(a) })
						} else {
							Must(o.K, func() { b = util.TEncode(g) })
						}
						eq("TEncode", a.I == v && g.I == v && bytes.Equal(blob, orig))
						res.Add("TEncode", b)
						cut := b[:x%int64(max(len(b), 1))]
						work(o.G(2))
						t := &a2.helpT
						if o.K == "thrift" {
							var q *helpA
							Must(o.K, func() { q, err = thrift.TDecode(b, a2); _, err2 = thrift.TDecode(cut, &helpA{}) })
							eq("TDecode", q == a2)
						} else {
							t = &g2.helpT
							var q *helpG
							Must(o.K, func() { q, err = util.TDecode(b, g2); _, err2 = util.TDecode(cut, &helpG{}) })
							eq("TDecode", q == g2)
						}
						c = t.B
						eq("TDecode", err == nil && t.I == v && bytes.Equal(c, orig))
						res.Add("TDecode", c)
						if err2 == nil {
							sim.Fail("damaged", "TDecode of the first %d of %d bytes reports no error", len(cut), len(b))
						}
					case "proto":
						m := wrapperspb.Bytes(blob)
						var b []byte
						var err error
						Must(o.K, func() { b = util.Marshal(m) })
						want, _ := proto.Marshal(wrapperspb.Bytes(orig))
						eq("Marshal", bytes.Equal(b, want) && bytes.Equal(m.Value, orig))
						res.Add("Marshal", b)
						work(o.G(2))
						back := &wrapperspb.BytesValue{}
						Must(o.K, func() { err = util.Unmarshal(b, back) })
						eq("Unmarshal", err == nil && bytes.Equal(back.Value, orig))
						res.Add("Unmarshal", back.Value)
						if len(b) > 1 {
							Must(o.K, func() { err = util.Unmarshal(b[:1+x%int64(len(b)-1)], &wrapperspb.BytesValue{}) })
							if err == nil {
								sim.Fail("damaged", "Unmarshal of %d of %d bytes reports no error", 1+x%int64(len(b)-1), len(b))
							}
						}
					case "base58":
						const alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
						u := uint64(v)
						want := ""
						for y := u; y > 0; y /= 58 {
							want = alpha[y%58:y%58+1] + want
						}
						var b []byte
						var w uint64
						var ok, ok2 bool
						Must(o.K, func() { b = base58.EncodeForInt64(u) })
						eq("EncodeForInt64", string(b) == want)
						res.Add("EncodeForInt64", b)
						work(o.G(2))
						Must(o.K, func() { w, ok = base58.DecodeForInt64(b) })
						eq("DecodeForInt64", ok && w == u)
						bad := append([]byte(nil), b...)
						bad = append(bad[:int(x)%(len(bad)+1)], "0OIl+/ \x00\xff"[x%9])
						Must(o.K, func() { _, ok2 = base58.DecodeForInt64(bad) })
						if ok2 {
							sim.Fail("damaged", "DecodeForInt64 accepts %q", bad)
						}
					case "hash":
						m5, s1, b2 := md5.Sum(orig), sha1.Sum(orig), blake2b.Sum256(orig)
						f32, f64 := fnv.New32a(), fnv.New64a()
						f32.Write(orig)
						f64.Write(orig)
						var h64 uint64
						Must(o.K, func() {
							switch x % 10 {
							case 0:
								b := util.MD5(blob)
								eq("MD5", bytes.Equal(b, m5[:]))
								res.Add("MD5", b)
							case 1:
								b := util.SHA1(blob)
								eq("SHA1", bytes.Equal(b, s1[:]))
								res.Add("SHA1", b)
							case 2:
								eq("Md5Str", util.Md5Str(string(blob)) == strings.ToUpper(hex.EncodeToString(m5[:])))
							case 3:
								eq("Sha1Str", util.Sha1Str(string(blob)) == strings.ToUpper(hex.EncodeToString(s1[:])))
							case 4:
								eq("CRC8", util.CRC8(blob) == crc8(orig))
							case 5:
								eq("CRC32", util.CRC32(blob) == crc32.ChecksumIEEE(orig))
							case 6:
								eq("CRC64", util.CRC64(blob) == crc64.Checksum(orig, crc64.MakeTable(crc64.ECMA)))
							case 7:
								eq("FNVHash32", util.FNVHash32(blob) == f32.Sum32())
							case 8:
								eq("FNVHash64", util.FNVHash64(blob) == f64.Sum64())
							case 9:
								b, err := util.Blake2b(blob)
								eq("Blake2b", err == nil && bytes.Equal(b, b2[:]))
								res.Add("Blake2b", b)
							}
							h64 = util.Hash64(blob)
						})
						if w, ok := hashes[string(orig)]; ok && w != h64 {
							sim.Fail("wrong", "Hash64 of the same %d bytes differs between calls", n)
						}
						for k, w := range hashes {
							if w == h64 && k != string(orig) {
								sim.Fail("wrong", "Hash64 of two different inputs of %d and %d bytes is the same", len(k), n)
							}
						}
						hashes[string(orig)] = h64
					case "rand":
						lim := v & (1<<62 - 1) >> (x % 62)
						if lim == 0 {
							lim = 1
						}
						var u uint
						var i, rid int64
						var err error
						Must(o.K, func() { u = util.RandUint(uint(lim)); rid = util.UUID64(); util.UUID32() })
						eq("RandUint", u < uint(lim))
						if rids[rid] {
							sim.Fail("wrong", "UUID64 gives the same number twice")
						}
						rids[rid] = true
						Must(o.K, func() { i, err = util.RandInt64Strict(lim) })
						if err == nil {
							eq("RandInt64Strict", i >= 0 && i < lim)
						} else if p.G("entropy") == 0 {
							sim.Fail("wrong", "RandInt64Strict fails although the system has entropy: %v", err)
						} else {
							sim.Probe("entropy-error")
						}
					case "time":
						// after 1992, when the zone's offset last changed
						at := time.Unix(700_000_000+int64(uint64(v)%2_000_000_000), 0).UTC()
						str := at.Add(8 * time.Hour).Format("2006-01-02 15:04:05")
						var t time.Time
						var err, err2 error
						Must(o.K, func() { t, err = util.StrToTimeFormat(str) })
						if err == nil {
							eq("StrToTimeFormat", t.Equal(at) && t.Format("2006-01-02 15:04:05") == str)
						} else if p.G("zones") == 0 {
							sim.Fail("wrong", "StrToTimeFormat(%q): %v", str, err)
						} else {
							sim.Probe("no-zones")
						}
						bad := []string{"", str[:x%19], str + "0", strings.Replace(str, " ", "T", 1), "2024-13-01 00:00:00", "2024-02-30 00:00:00", "2023-02-29 10:00:00", str[:11] + "24:00:00"}[x%8]
						Must(o.K, func() { _, err2 = util.StrToTimeFormat(bad) })
						if err2 == nil {
							sim.Fail("damaged", "StrToTimeFormat accepts %q", bad)
						}
					case "match":
						pats := []string{"a+b", "^a+b$", "a.b", "", "(", "[a-", "^(ab|ba)*$", "a{2,3}b", "^.{3}$", "(?i)AB", "\\", "a**"}
						pt := pats[uint64(v)%uint64(len(pats))]
						if x%2 == 0 { // long ones that differ at one end
							pt = "^(abbaabbaabbaabba){0,1}" + pt
						}
						str := ""
						for i := int64(0); i < n%20; i++ {
							str += string("abAB\n"[(uint64(v)>>(i*3))%5])
						}
						var got bool
						Must(o.K, func() { got = util.MatchString(pt, str) })
						re, err := regexp.Compile(pt)
						eq("MatchString "+pt, got == (err == nil && re.MatchString(str)))
					case "text":
						a, b := string(blob), fmt.Sprint(v)
						var s string
						var sl []byte
						Must(o.K, func() { s = util.Concat(a, "", b, a); sl = fast.StringToSlice(a) })
						eq("Concat", s == a+b+a)
						eq("StringToSlice", string(sl) == a)
						res.Add("StringToSlice", sl)
					}
					if !bytes.Equal(blob, orig) {
						sim.Fail("argument", "%s changed its argument", o.K)
					}
					sim.Probe(o.K)
				}
			})
			res.Check()
		},
	})
}
