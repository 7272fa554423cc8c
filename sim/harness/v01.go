package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/jindo/simzp"
	"github.com/sp301415/ringo-snark/simhook"
)

// V01: vectors of field elements in streams that fail, on devices that fill up, with
// workers and callers in any order.

// vecObj is a vector of one of the fields.
type vecObj interface {
	WriteTo(w io.Writer) (int64, error)
	ReadFrom(r io.Reader) (int64, error)
	AsyncReadFrom(r io.Reader) (int64, error, chan error)
	MarshalBinary() ([]byte, error)
	UnmarshalBinary(b []byte) error
	// set makes the vector hold l, in a slice of some more capacity, which holds other things.
	set(l []*big.Int, extra int)
	// drop makes it nil.
	drop()
	// is tells how it differs from l.
	is(l []*big.Int) string
}

type vecKind struct {
	name  string
	bytes int
	mod   *big.Int
	mk    func() vecObj
}

type vecOf[U comparable, V ~[]U, PU interface {
	*U
	SetBigInt(*big.Int) *U
}, PV interface {
	*V
	WriteTo(w io.Writer) (int64, error)
	ReadFrom(r io.Reader) (int64, error)
	AsyncReadFrom(r io.Reader) (int64, error, chan error)
	MarshalBinary() ([]byte, error)
	UnmarshalBinary(b []byte) error
}] struct{ v PV }

func (x vecOf[U, V, PU, PV]) WriteTo(w io.Writer) (int64, error)  { return x.v.WriteTo(w) }
func (x vecOf[U, V, PU, PV]) ReadFrom(r io.Reader) (int64, error) { return x.v.ReadFrom(r) }
func (x vecOf[U, V, PU, PV]) AsyncReadFrom(r io.Reader) (int64, error, chan error) {
	return x.v.AsyncReadFrom(r)
}
func (x vecOf[U, V, PU, PV]) MarshalBinary() ([]byte, error) { return x.v.MarshalBinary() }
func (x vecOf[U, V, PU, PV]) UnmarshalBinary(b []byte) error { return x.v.UnmarshalBinary(b) }
func (x vecOf[U, V, PU, PV]) drop()                          { *x.v = nil }
func (x vecOf[U, V, PU, PV]) set(l []*big.Int, extra int) {
	v := make(V, len(l)+extra)
	for i := range v {
		if i < len(l) {
			PU(&v[i]).SetBigInt(l[i])
		} else {
			PU(&v[i]).SetBigInt(big.NewInt(int64(77 + i)))
		}
	}
	*x.v = v[:len(l)]
}
func (x vecOf[U, V, PU, PV]) is(l []*big.Int) string {
	v := *x.v
	if v == nil {
		return "it is nil"
	}
	if len(v) != len(l) {
		return fmt.Sprintf("it has %d elements instead of %d", len(v), len(l))
	}
	for i := range v {
		var u U
		PU(&u).SetBigInt(l[i])
		if u != v[i] {
			return fmt.Sprintf("element %d of %d is %v instead of %v", i, len(l), v[i], u)
		}
	}
	return ""
}

func vecKindOf[U comparable, V ~[]U, PU interface {
	*U
	SetBigInt(*big.Int) *U
}, PV interface {
	*V
	WriteTo(w io.Writer) (int64, error)
	ReadFrom(r io.Reader) (int64, error)
	AsyncReadFrom(r io.Reader) (int64, error, chan error)
	MarshalBinary() ([]byte, error)
	UnmarshalBinary(b []byte) error
}](name string, bytes int, mod *big.Int) vecKind {
	return vecKind{name, bytes, mod, func() vecObj { return vecOf[U, V, PU, PV]{new(V)} }}
}

var vecKinds = []vecKind{
	vecKindOf[zp110.Uint, zp110.Vector]("zp110", zp110.Bytes, zp110.Modulus()),
	vecKindOf[zp220.Uint, zp220.Vector]("zp220", zp220.Bytes, zp220.Modulus()),
	vecKindOf[zp440.Uint, zp440.Vector]("zp440", zp440.Bytes, zp440.Modulus()),
	vecKindOf[zp880.Uint, zp880.Vector]("zp880", zp880.Bytes, zp880.Modulus()),
	vecKindOf[simzp.Uint, simzp.Vector]("jindo zp", simzp.Bytes, simzp.Modulus()),
	vecKindOf[bfvzp.Uint, bfvzp.Vector]("example bfv", bfvzp.Bytes, bfvzp.Modulus()),
	vecKindOf[multzp.Uint, multzp.Vector]("example mult", multzp.Bytes, multzp.Modulus()),
}

// encode is the reference encoding.
func (k *vecKind) encode(l []*big.Int) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(l)))
	for _, x := range l {
		b = append(b, x.FillBytes(make([]byte, k.bytes))...)
	}
	return b
}

// decode is the reference decoding of what a reader delivered. It returns the elements up to
// the first that is not one, whether they are all there, and whether one of those there is bad.
func (k *vecKind) decode(b []byte) (l []*big.Int, complete, bad bool) {
	if len(b) < 4 {
		return nil, false, false
	}
	n := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	complete = len(b) == n*k.bytes
	for i := 0; i < n && len(b) >= k.bytes; i++ {
		x := new(big.Int).SetBytes(b[:k.bytes])
		if x.Cmp(k.mod) >= 0 {
			return l, complete, true
		}
		l = append(l, x)
		b = b[k.bytes:]
	}
	return l, complete, false
}

func (k *vecKind) draw(d *Rng, n int) []*big.Int {
	l := make([]*big.Int, n)
	pat := d.n(4)
	for i := range l {
		x := new(big.Int).SetBytes(d.bytes(k.bytes + 8))
		x.Mod(x, k.mod)
		c := d.n(8)
		if pat == 0 {
			c = 7
		}
		switch c {
		case 0:
			x.SetInt64(0)
		case 1:
			x.SetInt64(1)
		case 2:
			x.Sub(k.mod, big.NewInt(1))
		case 3:
			x.SetInt64(int64(d.n(1 << 20)))
		case 4:
			x.SetInt64(1)
			x.Lsh(x, uint(d.n(k.mod.BitLen()-1)))
		}
		l[i] = x
	}
	return l
}

var errInjected = errors.New("injected")

// device is a file on a device that may fill up or break, read and written in pieces.
type device struct {
	data []byte

	d     *Rng
	chunk int // most bytes at once, 0 for all

	// How writing goes: after failAt bytes it fails.
	failAt int
	failed bool

	// How reading goes: it delivers data up to end, and then reports err.
	pos      int
	end      int
	err      error
	together bool // the error comes with the last bytes
	empty    int  // per cent of reads that deliver nothing
	signal   bool // it has reported the end or an error
	got      []byte
	calls    int
}

func (v *device) Write(b []byte) (int, error) {
	v.calls++
	simhook.Y()
	n := len(b)
	if v.failAt >= 0 && len(v.data)+n > v.failAt {
		n = max(0, v.failAt-len(v.data))
		v.failed = true
		v.data = append(v.data, b[:n]...)
		return n, errInjected
	}
	// A device takes its bytes one block after the other; a crash tears.
	for i := 0; i < n; {
		m := n - i
		if v.chunk > 0 {
			m = min(m, v.chunk)
		}
		v.data = append(v.data, b[i:i+m]...)
		i += m
		simhook.Y()
	}
	return n, nil
}

func (v *device) Read(b []byte) (int, error) {
	v.calls++
	simhook.Y()
	if len(b) == 0 || v.empty > 0 && v.d.p(v.empty) {
		return 0, nil
	}
	n := len(b)
	if v.chunk > 0 {
		n = min(n, 1+v.d.n(v.chunk))
	}
	n = min(n, v.end-v.pos)
	copy(b, v.data[v.pos:v.pos+n])
	v.got = append(v.got, v.data[v.pos:v.pos+n]...)
	v.pos += n
	if n == 0 || v.together && v.pos == v.end {
		v.signal = true
		return n, v.err
	}
	return n, nil
}

// vecMuts are what happens to a stream between writer and reader.
const (
	mutNone = iota
	mutTorn
	mutZeroTail
	mutModulus
	mutAbove
	mutOnes
	mutTwo
	mutAll
	mutLonger
	mutShorter
	mutFlip
	mutNoise
	mutTrailing
	numVecMuts
)

var vecMutNames = [...]string{"none", "torn", "zero_tail", "modulus", "above_modulus", "all_ones", "two_bad", "all_bad", "longer_header", "shorter_header", "bit_flip", "noise", "trailing"}

func (k *vecKind) mutate(d *Rng, b []byte, kind int, pos int64) []byte {
	b = append([]byte(nil), b...)
	n := (len(b) - 4) / k.bytes
	at := 0
	if n > 0 {
		at = int(pos) % n
	}
	bad := func(i int, x *big.Int) {
		if n > 0 && x.BitLen() <= 8*k.bytes {
			x.FillBytes(b[4+i*k.bytes : 4+(i+1)*k.bytes])
		}
	}
	above := func() *big.Int {
		x := big.NewInt(int64(1 + d.n(1000)))
		if d.p(50) {
			x.SetBytes(d.bytes(k.bytes))
			x.Rsh(x, uint(d.n(8*k.bytes)))
		}
		x.Add(x, k.mod)
		if x.BitLen() > 8*k.bytes {
			x.Set(k.mod)
		}
		return x
	}
	switch kind {
	case mutTorn:
		b = b[:int(pos)%len(b)]
	case mutZeroTail:
		clear(b[int(pos)%len(b):])
	case mutModulus:
		bad(at, k.mod)
	case mutAbove:
		bad(at, above())
	case mutOnes:
		x := big.NewInt(1)
		bad(at, x.Lsh(x, uint(8*k.bytes)).Sub(x, big.NewInt(1)))
	case mutTwo:
		bad(at, above())
		bad(d.n(n), k.mod)
	case mutAll:
		for i := 0; i < n; i++ {
			bad(i, above())
		}
	case mutLonger:
		binary.BigEndian.PutUint32(b, uint32(n+1+d.n(300)))
	case mutShorter:
		if n > 0 {
			binary.BigEndian.PutUint32(b, uint32(d.n(n)))
		}
	case mutFlip:
		if len(b) > 4 {
			b[4+int(pos)%(len(b)-4)] ^= 1 << uint(d.n(8))
		}
	case mutNoise:
		if len(b) > 4 {
			i := 4 + int(pos)%(len(b)-4)
			copy(b[i:], d.bytes(min(len(b)-i, 1+d.n(64))))
		}
	case mutTrailing:
		b = append(b, d.bytes(1+d.n(200))...)
	}
	return b
}

var vecLens = []int{0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 31, 64, 100, 257}

// v01Out is what an operation found, to be reported by the main thread.
type v01Out struct {
	op    int
	class string
	msg   string
	line  string
}

// v01Wait is an asynchronous read whose outcome is due.
type v01Wait struct {
	op   int
	ch   chan error
	n    int64
	err  error
	dev  *device
	k    *vecKind
	v    vecObj
	what string
}

func execV01(p *Plan, r *Run) {
	simhook.SetNumCPU(max(1, int(p.Cfg["cpus"])))
	nt := max(1, int(p.Cfg["threads"]))
	data := newRng(mix(p.Seed, 5))
	type sharedVec struct {
		l []*big.Int
		v vecObj
		e []byte
	}
	shared := make([]sharedVec, len(vecKinds))
	for i := range shared {
		k := &vecKinds[i]
		l := k.draw(data, 1+data.n(40))
		shared[i] = sharedVec{l, k.mk(), k.encode(l)}
		shared[i].v.set(l, 0)
	}
	lanes := make([][]*v01Out, nt)
	faults := make([]map[string]int64, nt)
	fns := make([]func(), nt)
	crash := make([]int64, nt)
	// The files that a thread was writing when it crashed.
	type torn struct {
		k    *vecKind
		dev  *device
		want []byte
	}
	cur := make([]*torn, nt)
	for t := 0; t < nt; t++ {
		crash[t] = p.Cfg[fmt.Sprintf("crash%d", t)]
		lanes[t] = make([]*v01Out, 0, 4*len(p.Ops)+8)
		faults[t] = map[string]int64{}
		var ops []int
		for i, o := range p.Ops {
			if int(o.n(0))%nt == t {
				ops = append(ops, i)
			}
		}
		// The vectors that a thread reads into again and again.
		own := make([]vecObj, 2*len(vecKinds))
		for i := range own {
			own[i] = vecKinds[i%len(vecKinds)].mk()
		}
		busy := make([]bool, len(own))
		var due []*v01Wait
		fns[t] = func() {
			put := func(o *v01Out) { lanes[t] = append(lanes[t], o) }
			bad := func(op int, class, f string, a ...any) { put(&v01Out{op: op, class: class, msg: fmt.Sprintf(f, a...)}) }
			ok := func(op int, f string, a ...any) { put(&v01Out{op: op, line: fmt.Sprintf(f, a...)}) }
			// judge compares what a read did with what its reader delivered.
			judge := func(w *v01Wait) {
				l, complete, isBad := w.k.decode(w.dev.got)
				switch {
				case w.n >= 0 && w.n != int64(len(w.dev.got)):
					bad(w.op, "wrong-count", "%s %s reports %d bytes, and took %d", w.k.name, w.what, w.n, len(w.dev.got))
				case w.err == nil && !complete:
					bad(w.op, "accepts-partial", "%s %s reports success after %d bytes, which are no vector", w.k.name, w.what, len(w.dev.got))
				case w.err == nil && isBad:
					bad(w.op, "accepts-bad", "%s %s reports success with an element out of range", w.k.name, w.what)
				case w.err == nil:
					if s := w.v.is(l); s != "" {
						bad(w.op, "wrong-contents", "%s %s: %s", w.k.name, w.what, s)
						return
					}
				case complete && !isBad:
					bad(w.op, "refuses-good", "%s %s of a vector of %d: %v", w.k.name, w.what, len(l), w.err)
				case !complete && !isBad && !w.dev.signal:
					bad(w.op, "refuses-good", "%s %s gave up after %d bytes: %v", w.k.name, w.what, len(w.dev.got), w.err)
				}
				ok(w.op, "%s %s: %d bytes, %v", w.k.name, w.what, len(w.dev.got), w.err == nil)
			}
			await := func(w *v01Wait) {
				// The channel is always closed. If it is not, the threads wait for ever.
				early := w.err
				for {
					e, more := simhook.Recv2(w.ch)
					if !more {
						break
					}
					if e == nil {
						bad(w.op, "wrong-error", "%s %s sends nil", w.k.name, w.what)
					}
					if w.err == nil {
						w.err = e
					}
				}
				if early == nil && w.err != nil {
					faults[t]["async_error_on_channel"]++
				}
				judge(w)
			}
			for _, i := range ops {
				o := p.Ops[i]
				d := newRng(mix(o.Seed, 3))
				ki := int(o.n(1)) % len(vecKinds)
				k := &vecKinds[ki]
				l := k.draw(d, vecLens[int(o.n(2))%len(vecLens)])
				enc := k.encode(l)
				dev := &device{d: d, failAt: -1}
				switch o.K {
				case "write", "writeshared", "marshal":
					v := k.mk()
					v.set(l, d.n(3))
					if o.K == "writeshared" {
						v, l, enc = shared[ki].v, shared[ki].l, shared[ki].e
					} else if len(l) == 0 && d.p(50) {
						v.drop()
					}
					if o.K == "marshal" {
						b, err := v.MarshalBinary()
						if err != nil || !bytes.Equal(b, enc) {
							bad(i, "wrong-encoding", "%s MarshalBinary of %d elements: %v", k.name, len(l), err)
						}
						ok(i, "%s marshal %d", k.name, len(b))
						break
					}
					dev.chunk = int(o.n(4))
					switch o.n(3) % 4 {
					case 1:
						dev.failAt = int(o.n(5)) % len(enc)
						faults[t]["device_full"]++
					case 2:
						dev.failAt = int(o.n(5)) % 5
						faults[t]["device_full"]++
					case 3:
						dev.failAt = len(enc)
					}
					cur[t] = &torn{k, dev, enc}
					n, err := v.WriteTo(dev)
					cur[t] = nil
					switch {
					case n == 0 && len(dev.data) > 0 && len(dev.data) < 4 && err != nil && strings.HasPrefix(k.name, "example "):
						// Of these, see known-findings.txt.
						bad(i, "header-count-"+strings.ReplaceAll(k.name, " ", "-"), "%s WriteTo reports %d bytes, and wrote %d of the header", k.name, n, len(dev.data))
					case n != int64(len(dev.data)):
						bad(i, "wrong-count", "%s WriteTo reports %d bytes, and wrote %d of %d", k.name, n, len(dev.data), len(enc))
					case (err != nil) != dev.failed:
						bad(i, "wrong-error", "%s WriteTo: error %v, and writing failed: %v", k.name, err, dev.failed)
					case err == nil && !bytes.Equal(dev.data, enc):
						bad(i, "wrong-encoding", "%s WriteTo of %d elements wrote %d bytes", k.name, len(l), len(dev.data))
					case !bytes.HasPrefix(enc, dev.data):
						bad(i, "wrong-encoding", "%s WriteTo of %d elements wrote something else", k.name, len(l))
					}
					if o.K == "write" && len(l) > 0 {
						if s := v.is(l); s != "" {
							bad(i, "changes-vector", "%s WriteTo: %s", k.name, s)
						}
					}
					ok(i, "%s write %d %v", k.name, n, err == nil)

				case "read", "stream":
					// N: thread, kind, length, how, mutation, position, reader, error position, target, later
					m := int(o.n(4)) % numVecMuts
					dev.data = k.mutate(d, enc, m, o.n(5))
					if m != mutNone {
						faults[t]["stream_"+vecMutNames[m]]++
					}
					more := 0
					ends := map[int]bool{}
					if o.K == "stream" {
						// Several vectors, one after the other, in one file.
						more = 1 + d.n(3)
						for j := 0; j < more; j++ {
							ends[len(dev.data)] = m != mutTrailing && m != mutTorn
							dev.data = append(dev.data, k.encode(k.draw(d, d.n(20)))...)
						}
					}
					dev.end, dev.err = len(dev.data), io.EOF
					dev.chunk = []int{0, 1, 2, k.bytes - 1, k.bytes + 1, 4, 50, 1000}[int(o.n(6))%8]
					dev.together = o.n(6)/8%2 == 1
					if o.n(6)/16%3 == 1 {
						dev.empty = 20
					}
					if e := o.n(7); e > 0 {
						dev.end = min(dev.end, int(e-1)%(len(dev.data)+1))
						dev.err = errInjected
						faults[t]["read_error"]++
					}
					for j := 0; j <= more; j++ {
						// What is read into.
						ti := ki + len(vecKinds)*int(o.n(8)%2)
						v := own[ti]
						if busy[ti] || o.n(8)/2%3 == 1 {
							ti = -1
							v = k.mk()
							switch d.n(3) {
							case 0:
								v.set(k.draw(d, d.n(10)), 0)
							case 1:
								v.set(k.draw(d, d.n(4)), d.n(300))
							}
						}
						w := &v01Wait{op: i, k: k, v: v, dev: dev}
						how := o.n(3) + int64(j)
						switch how % 3 {
						case 0:
							w.what = "ReadFrom"
							w.n, w.err = v.ReadFrom(dev)
							judge(w)
						case 1:
							w.what = "AsyncReadFrom"
							w.n, w.err, w.ch = v.AsyncReadFrom(dev)
							if o.n(9)%2 == 1 && j == more {
								if ti >= 0 {
									busy[ti] = true
								}
								due = append(due, w)
								continue
							}
							await(w)
						case 2:
							if o.K == "stream" || dev.err != io.EOF {
								w.what = "ReadFrom"
								w.n, w.err = v.ReadFrom(dev)
								judge(w)
								break
							}
							w.what = "UnmarshalBinary"
							in := append([]byte(nil), dev.data...)
							w.n, w.err = -1, v.UnmarshalBinary(in)
							if !bytes.Equal(in, dev.data) {
								bad(i, "changes-stream", "%s UnmarshalBinary changed its input", k.name)
							}
							// It takes what it needs of it.
							dev.got = dev.data
							if len(in) >= 4 {
								dev.got = in[:min(len(in), 4+int(binary.BigEndian.Uint32(in))*k.bytes)]
							}
							dev.signal = true
							judge(w)
						}
						if w.err != nil || !ends[dev.pos] {
							// What follows is no header; anything may be allocated for it.
							break
						}
						dev.got = nil
					}
				}
				// What was left for later, in some order.
				for len(due) > 0 && d.p(30) {
					j := d.n(len(due))
					w := due[j]
					due = append(due[:j], due[j+1:]...)
					await(w)
					clear(busy)
					for _, x := range due {
						for ti := range own {
							if own[ti] == x.v {
								busy[ti] = true
							}
						}
					}
				}
			}
			for _, w := range due {
				await(w)
			}
		}
	}
	r.threads(fns, crash)
	if r.viol != nil {
		return
	}
	// Reported at the end, so that it does not hide anything else.
	var last func()
	defer func() {
		if last != nil && r.viol == nil {
			last()
		}
	}()
	for t := range lanes {
		for _, o := range lanes[t] {
			if strings.HasPrefix(o.class, "header-count-") {
				last = func() { r.fail(o.class, "op %d (thread %d of %d): %s", o.op, t, nt, o.msg) }
				continue
			}
			if o.class != "" {
				r.fail(o.class, "op %d (thread %d of %d): %s", o.op, t, nt, o.msg)
				return
			}
			r.log("%d %s", o.op, o.line)
		}
		for f, n := range faults[t] {
			r.faults[f] += n
		}
	}
	for i := range shared {
		if s := shared[i].v.is(shared[i].l); s != "" {
			r.fail("changes-vector", "%s, a vector that was only written: %s", vecKinds[i].name, s)
			return
		}
	}
	// After a crash, what the file has is the start of the vector, and reading it says so.
	for t, c := range cur {
		if c == nil {
			continue
		}
		r.fault("crash_while_writing")
		if !bytes.HasPrefix(c.want, c.dev.data) {
			r.fail("wrong-encoding", "thread %d crashed, and wrote something else (%s)", t, c.k.name)
			return
		}
		dev := &device{data: c.dev.data, end: len(c.dev.data), err: io.EOF, d: data, failAt: -1}
		v := c.k.mk()
		n, err := v.ReadFrom(dev)
		whole := len(c.want) == len(dev.data)
		r.log("torn %d of %d: %d %v", len(dev.data), len(c.want), n, err == nil)
		if (err == nil) != whole {
			r.fail("accepts-partial", "%s ReadFrom of %d of %d bytes: %v", c.k.name, len(dev.data), len(c.want), err)
			return
		}
	}
}

func genV01(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "threads", Cfg: map[string]int64{"threads": int64(1 + r.n(4))}}
	schedCfg(r, p.Cfg)
	p.Cfg["cpus"] = pick(r, []int64{1, 2, 3, 5, 8, 16, 64})
	nt := p.Cfg["threads"]
	for n := 2 + r.n(12); n > 0; n-- {
		t, k, l := r.n64(nt), int64(r.n(len(vecKinds))), int64(r.n(len(vecLens)))
		if r.p(60) {
			l = int64(r.n(11))
		}
		if r.p(35) {
			p.Ops = append(p.Ops, Op{K: pick(r, []string{"write", "write", "write", "writeshared", "marshal"}),
				N: []int64{t, k, l, int64(r.n(4)), pick(r, []int64{0, 1, 5, 7, 64}), int64(r.n(1 << 16))}})
			continue
		}
		m := int64(0)
		if r.p(60) {
			m = int64(r.n(numVecMuts))
		}
		e := int64(0)
		if r.p(25) {
			e = 1 + int64(r.n(1<<15))
		}
		p.Ops = append(p.Ops, Op{K: pick(r, []string{"read", "read", "read", "stream"}),
			N: []int64{t, k, l, int64(pick(r, []int{0, 1, 1, 1, 2})), m, int64(r.n(1 << 16)), int64(r.n(48)), e, int64(r.n(6)), int64(r.n(2))}})
	}
	if r.p(25) {
		p.Cfg[fmt.Sprintf("crash%d", r.n64(nt))] = 1 + r.n64(3000)
	}
	if r.p(25) {
		p.Kind = "races"
		p.Cfg["race"] = 1
	}
	return p
}

// scriptV01 takes every kind of vector through every place where a write can fail and every
// place where a stream can end or break, and every one of its elements out of range.
func scriptV01(i int, tier string) *Plan {
	ks := len(vecKinds)
	if i >= 8*ks {
		return nil
	}
	k := &vecKinds[i%ks]
	part := i / ks
	p := &Plan{Kind: []string{"every-write-end", "every-read-end", "every-read-error", "every-element", "workers", "races", "every-async-end", "streams"}[part],
		Cfg: map[string]int64{"threads": 1 + int64(part/4), "mean": []int64{0, 0, 0, 0, 10, 100, 50, 30}[part], "burst": int64(i % 2), "cpus": int64(1 + i%5)}}
	n := int64(3) // vecLens[3]
	size := int64(4 + 3*k.bytes)
	ki := int64(i % ks)
	r := newRng(uint64(900 + i))
	switch part {
	case 0:
		for e := int64(0); e <= size; e++ {
			p.Ops = append(p.Ops, Op{K: "write", N: []int64{0, ki, n, 1 + 2*(e/size), 0, e}, Seed: uint64(e)})
		}
	case 1, 6:
		for e := int64(0); e < size; e++ {
			p.Ops = append(p.Ops, Op{K: "read", N: []int64{e % 2, ki, n, int64(part / 6), mutTorn, e, e % 48, 0, e % 6, 0}, Seed: uint64(e)})
		}
	case 2:
		for e := int64(0); e <= size; e++ {
			p.Ops = append(p.Ops, Op{K: "read", N: []int64{0, ki, n, e % 2, 0, 0, e % 48, 1 + e, e % 6, 0}, Seed: uint64(e)})
		}
	case 3:
		for e := int64(0); e < 31; e++ {
			for m := int64(mutModulus); m <= mutTwo; m++ {
				p.Ops = append(p.Ops, Op{K: "read", N: []int64{0, ki, 10, (e + m) % 3, m, e, e % 8, 0, e % 6, 0}, Seed: uint64(e)})
			}
		}
	case 4, 5:
		p.Cfg["cpus"] = pick(r, []int64{2, 3, 7, 8})
		p.Cfg["race"] = int64(part - 4)
		for e := 0; e < 20; e++ {
			p.Ops = append(p.Ops, Op{K: "read", N: []int64{int64(e % 2), ki, int64(r.n(len(vecLens))), 1, pick(r, []int64{0, 0, mutModulus, mutTwo, mutAll}), int64(r.n(300)), 0, 0,
				int64(r.n(6)), int64(r.n(2))}, Seed: uint64(e)},
				Op{K: "writeshared", N: []int64{int64(e+1) % 2, ki, 0, 0, 0, 0}, Seed: uint64(e)})
		}
	case 7:
		for e := 0; e < 30; e++ {
			p.Ops = append(p.Ops, Op{K: "stream", N: []int64{int64(e % 2), ki, int64(r.n(8)), int64(r.n(3)), pick(r, []int64{0, 0, mutModulus, mutLonger, mutShorter}), int64(r.n(300)), int64(r.n(48)), 0,
				int64(r.n(6)), int64(r.n(2))}, Seed: uint64(e)})
		}
	}
	return p
}

func init() {
	register(&Prop{
		ID: "V01", Race: true, Script: scriptV01, Gen: genV01, Exec: execV01,
		Rule: "1 to 4 threads that write vectors of the seven fields to devices that fill up at any byte, and read them (synchronously, asynchronously, from memory) from " +
			"streams torn, zeroed, corrupted or broken at any place, in pieces of any size, with 1 to 64 workers, alone or one after the other in one file, into new or used " +
			"vectors, x seeded schedules x crashes; what was delivered is decoded with math/big; races by the detector under the same schedules",
		Real: []string{"Vector streams of all seven generated fields", "their conversion workers"},
		Stub: []string{"devices (readers and writers)", "thread scheduler", "wait groups and channels (same semantics, under the scheduler)", "number of CPUs"},
	})
}
