package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/simhook"
)

// M02: samplers, seeded and not, in several threads and across restarts.

const (
	kUniSeed = iota
	kUni
	kRndSeed
	kRnd
	kCosac
	kTwin
	kTwinCopy
	numSmpKinds
)

var smpNames = [numSmpKinds]string{"seeded uniform", "uniform", "seeded rounded Gaussian", "rounded Gaussian", "COSAC", "twin-CDT", "twin-CDT copy"}

// smp is a sampler and what it delivered.
type smp struct {
	kind  int
	seed  []byte
	sigma float64
	u     *csprng.UniformSampler
	r     *csprng.RoundedGaussianSampler
	c     *csprng.COSACSampler
	t     *csprng.TwinCDTGaussianSampler
	uses  []smpUse
	notes []string
	from  int
}

// smpUse is a use of a sampler. Consecutive reads are one use.
type smpUse struct {
	action        int
	n             int
	bound         uint64
	center, sigma float64
	out           []byte
	ints          []int64
}

func newSmp(kind int, seed []byte, sigma float64, root *csprng.TwinCDTGaussianSampler) *smp {
	s := &smp{kind: kind, sigma: sigma}
	switch kind {
	case kUniSeed, kRndSeed:
		// The seed belongs to the caller, who changes it afterwards.
		s.seed = append([]byte(nil), seed...)
		mine := make([]byte, len(seed), len(seed)+8)
		copy(mine, seed)
		if kind == kUniSeed {
			s.u = csprng.NewUniformSamplerWithSeed(mine)
		} else {
			s.r = csprng.NewRoundedGaussianSamplerWithSeed(mine)
		}
		if !bytes.Equal(mine, seed) {
			s.notes = append(s.notes, "the seed was changed")
		}
		for i := range mine {
			mine[i] ^= 0xff
		}
	case kUni:
		s.u = csprng.NewUniformSampler()
	case kRnd:
		s.r = csprng.NewRoundedGaussianSampler()
	case kCosac:
		s.c = csprng.NewCOSACSampler()
	case kTwin:
		s.t = csprng.NewTwinCDTGaussianSampler(sigma)
	case kTwinCopy:
		s.t = root.SafeCopy()
		s.sigma = root.StdDev()
	}
	if s.t != nil && s.t.StdDev() != s.sigma {
		s.notes = append(s.notes, "StdDev is not what was asked for")
	}
	return s
}

const (
	aRead = iota
	aSample
	aSampleN
	aFloat
	numActions
)

// use uses a sampler. whole tells not to split reads.
func (s *smp) use(d *Rng, action, n int, bound uint64, center, sigma float64, whole bool) {
	if s.u != nil {
		var use smpUse
		if action == aRead && len(s.uses) > 0 && s.uses[len(s.uses)-1].action == aRead {
			use = s.uses[len(s.uses)-1]
			s.uses = s.uses[:len(s.uses)-1]
		}
		use.action, use.bound = action, bound
		use.n += n
		var b [8]byte
		switch action {
		case aRead:
			for n > 0 {
				k := n
				if !whole {
					k = d.n(n + 1)
					if d.p(20) {
						k = min(n, 1+d.n(3))
					}
				}
				// The buffer holds something, and is part of a larger one.
				buf := d.bytes(k + 16)
				was := append([]byte(nil), buf...)
				m, err := s.u.Read(buf[8 : 8+k])
				if m != k || err != nil {
					s.notes = append(s.notes, fmt.Sprintf("Read of %d bytes gave %d, %v", k, m, err))
				}
				if !bytes.Equal(buf[:8], was[:8]) || !bytes.Equal(buf[8+k:], was[8+k:]) {
					s.notes = append(s.notes, "Read wrote outside of the buffer it was given")
				}
				use.out = append(use.out, buf[8:8+k]...)
				n -= k
			}
		case aSample:
			for ; n > 0; n-- {
				binary.LittleEndian.PutUint64(b[:], s.u.Sample())
				use.out = append(use.out, b[:]...)
			}
		case aSampleN:
			for ; n > 0; n-- {
				v := s.u.SampleN(bound)
				if v >= bound {
					s.notes = append(s.notes, fmt.Sprintf("SampleN(%d) gave %d", bound, v))
				}
				binary.LittleEndian.PutUint64(b[:], v)
				use.out = append(use.out, b[:]...)
			}
		case aFloat:
			for ; n > 0; n-- {
				v := s.u.SampleFloat()
				if !(v >= 0 && v < 1) {
					s.notes = append(s.notes, fmt.Sprintf("SampleFloat gave %g", v))
				}
				binary.LittleEndian.PutUint64(b[:], math.Float64bits(v))
				use.out = append(use.out, b[:]...)
			}
		}
		s.uses = append(s.uses, use)
		return
	}
	if s.t != nil {
		sigma = s.sigma
	}
	use := smpUse{action: -1, n: n, center: center, sigma: sigma}
	tail := 10*sigma + 2
	if s.t != nil {
		tail = 9*sigma + 2
	}
	for ; n > 0; n-- {
		v := s.gauss(center, sigma)
		if !(math.Abs(float64(v)-center) <= tail) {
			s.notes = append(s.notes, fmt.Sprintf("a sample of centre %g and deviation %g is %d", center, sigma, v))
		}
		if s.t != nil && n%8 == 0 {
			w := s.t.SampleCoset(center)
			k := math.Round(w - center)
			if !(math.Abs(w) <= tail) || math.Abs(center+k-w) > 1e-6*(1+math.Abs(center)) {
				s.notes = append(s.notes, fmt.Sprintf("a sample of the coset of %g with deviation %g is %g", center, sigma, w))
			}
		}
		use.ints = append(use.ints, v)
	}
	s.uses = append(s.uses, use)
}

func (s *smp) gauss(center, sigma float64) int64 {
	switch {
	case s.r != nil:
		return s.r.Sample(center, sigma)
	case s.c != nil:
		return s.c.Sample(center, sigma)
	}
	return s.t.Sample(center)
}

func eqUses(a, b []smpUse) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].out, b[i].out) || len(a[i].ints) != len(b[i].ints) {
			return false
		}
		for j := range a[i].ints {
			if a[i].ints[j] != b[i].ints[j] {
				return false
			}
		}
	}
	return true
}

// Centres at which something changes: cells of the tables, integers, halves, and their neighbours.
func center02(d *Rng) float64 {
	var c float64
	switch d.n(6) {
	case 0:
		c = 0
	case 1:
		c = float64(d.n(257)-128) / 128
	case 2:
		c = float64(d.n(2001)-1000) / 2
	case 3:
		c = float64(int64(d.u64()>>20)) / (1 << 30)
	case 4:
		c = (float64(d.n(1<<20))/(1<<20) - 0.5) * 4
	case 5:
		c = float64(int64(1)<<(20+d.n(25))) + float64(d.n(128))/128
	}
	switch d.n(5) {
	case 0:
		c = math.Nextafter(c, math.Inf(1))
	case 1:
		c = math.Nextafter(c, math.Inf(-1))
	case 2:
		c += []float64{1e-17, -1e-17, 1e-12, -1e-12, 1e-300, -1e-300}[d.n(6)]
	}
	if d.p(50) {
		c = -c
	}
	return c
}

var sigmas02 = []float64{0.7, 1, 1.5, 2, 3.2, 10, 40, 300}

func seed02(p *Plan, sel, variant int) []byte {
	d := newRng(mix(p.Seed, 900+uint64(sel)))
	n := []int{0, 1, 16, 32, 48, 64, 100, 200}[sel%8]
	b := d.bytes(n)
	switch variant % 5 {
	case 1:
		if n > 0 {
			b[n-1] ^= 1
		}
	case 2:
		if n > 0 {
			b[0] ^= 0x80
		}
	case 3:
		b = append(b, 0)
	case 4:
		if n > 0 {
			k := newRng(mix(p.Seed, 950+uint64(sel))).n(8 * n)
			b[k/8] ^= 1 << (k % 8)
		}
	}
	return b
}

const m02Slots = 3

func execM02(p *Plan, r *Run) {
	nt := max(1, int(p.Cfg["threads"]))
	root := csprng.NewTwinCDTGaussianSampler(sigmas02[int(p.Cfg["sigma"])%len(sigmas02)])
	rootSmp := &smp{kind: kTwin, t: root, sigma: root.StdDev(), from: -1}
	// With few free bytes of entropy, samplers still differ.
	if w := p.Cfg["free"]; w > 0 {
		simhook.Ent.FreeFrom, simhook.Ent.FreeTo = 4*(w-1), 4*w
		r.fault("entropy_mostly_fixed")
	}
	type newRec struct {
		op int
		s  *smp
	}
	all := make([][]newRec, nt)
	fns := make([]func(), nt)
	crash := make([]int64, nt)
	for t := 0; t < nt; t++ {
		crash[t] = p.Cfg[fmt.Sprintf("crash%d", t)]
		all[t] = make([]newRec, 0, len(p.Ops))
		fns[t] = func() {
			var slots [m02Slots]*smp
			make1 := func(op, slot int, o Op) {
				if nt == 1 {
					simhook.Ent.Bytes = 0
				}
				s := newSmp(int(o.n(2))%numSmpKinds, seed02(p, int(o.n(3)), int(o.n(4))), sigmas02[int(o.n(5))%len(sigmas02)], root)
				slots[slot] = s
				all[t] = append(all[t], newRec{op, s})
			}
			for i, o := range p.Ops {
				if int(o.n(0))%nt != t || o.K == "dist" {
					continue
				}
				slot := int(o.n(1)) % m02Slots
				if o.K == "new" {
					make1(i, slot, o)
					continue
				}
				s := slots[slot]
				if t == 0 && o.K == "root" {
					s = rootSmp
				}
				if s == nil {
					make1(i, slot, Op{N: []int64{0, 0, kUni}})
					s = slots[slot]
				}
				d := newRng(mix(p.Seed, o.Seed))
				bound, center, sigma := bound02(d), center02(d), sigmas02[d.n(len(sigmas02))]
				if o.n(4) > 0 {
					sigma = 40
				}
				s.use(d, int(o.n(2))%numActions, int(o.n(3)), bound, center, sigma, false)
			}
		}
	}
	if nt == 1 {
		fns[0]()
	} else {
		r.threads(fns, crash)
	}
	simhook.Ent.FreeFrom, simhook.Ent.FreeTo = 0, 0
	if r.viol != nil {
		return
	}
	var smps []newRec
	for t := range all {
		smps = append(smps, all[t]...)
	}
	smps = append(smps, newRec{-1, rootSmp})
	for _, x := range smps {
		if len(x.s.notes) > 0 {
			r.fail("bad-sample", "op %d, %s sampler: %s", x.op, smpNames[x.s.kind], x.s.notes[0])
			return
		}
	}
	if p.Cfg["race"] == 1 {
		return
	}
	// A seeded sampler restarts with the same stream, alone, in another process.
	for _, x := range smps {
		if x.s.seed == nil && x.s.kind != kUniSeed && x.s.kind != kRndSeed {
			continue
		}
		again := newSmp(x.s.kind, x.s.seed, 0, nil)
		for _, u := range x.s.uses {
			again.use(newRng(1), u.action, u.n, u.bound, u.center, u.sigma, true)
		}
		if !eqUses(again.uses, x.s.uses) {
			r.fail("not-reproducible", "op %d: the stream of a %s sampler with a seed of %d bytes is another one than alone", x.op, smpNames[x.s.kind], len(x.s.seed))
			return
		}
		r.probe("restart")
	}
	// Nothing is delivered twice.
	words := map[uint64]string{}
	seeds := map[string]bool{}
	seqs := map[string]string{}
	for _, x := range smps {
		name := fmt.Sprintf("the %s sampler of op %d", smpNames[x.s.kind], x.op)
		id := ""
		if x.s.kind == kUniSeed || x.s.kind == kRndSeed {
			id = fmt.Sprintf("%d %x", x.s.kind, x.s.seed)
			if seeds[id] {
				continue
			}
			seeds[id] = true
		}
		first := true
		for _, u := range x.s.uses {
			if u.action == aRead || u.action == aSample {
				for i := 0; i+8 <= len(u.out); i++ {
					w := binary.LittleEndian.Uint64(u.out[i:])
					if was, ok := words[w]; ok {
						r.fail("stream-repeats", "%s repeats bytes of %s", name, was)
						return
					}
					words[w] = name
				}
				continue
			}
			if u.action < 0 && u.n >= 40 && u.sigma >= 10 {
				// The offsets from the centre, of which 40 of a wide distribution never coincide.
				k := fmt.Sprint(u.sigma, offsets(u.ints, u.center)[:40])
				if was, ok := seqs[k]; ok && first {
					r.fail("samples-repeat", "%s repeats the samples of %s", name, was)
					return
				}
				seqs[k] = name
			}
		}
		if len(x.s.uses) > 0 {
			u := x.s.uses[0]
			r.log("%s: %d uses, %x %v", name, len(x.s.uses), head(u.out, 8), u.ints[:min(4, len(u.ints))])
		}
	}
	// Samples follow their distribution, as far as that many can tell: chance exceeds the
	// deviation that is allowed with probability 10^-20.
	for i, o := range p.Ops {
		if o.K != "dist" {
			continue
		}
		d := newRng(mix(p.Seed, o.Seed, uint64(i)))
		if o.n(0) >= 5 {
			if !uniform02(r, d, int(o.n(0)), int(o.n(2))) {
				return
			}
			r.probe("distribution")
			continue
		}
		n := int(o.n(2))
		s := newSmp([]int{kRndSeed, kRnd, kCosac, kTwin, kTwinCopy}[int(o.n(0))%5], d.bytes(32), sigmas02[int(o.n(1))%5], root)
		c := center02(d)
		if o.n(3) == 1 {
			c = math.Nextafter(float64(d.n(100)-50), math.Inf(-1))
		}
		sigma := s.sigma
		if s.kind == kTwinCopy && sigma > 4 {
			continue
		}
		if s.t == nil {
			sigma = sigmas02[int(o.n(1))%5]
		}
		// The discrete samplers are made for deviations above the smoothing parameter.
		if s.r == nil && sigma < 1.5 {
			n = min(n, 2000)
			if sigma < 1 {
				continue
			}
		}
		v := make([]int64, n)
		for j := range v {
			v[j] = s.gauss(c, sigma)
		}
		sort.Slice(v, func(a, b int) bool { return v[a] < v[b] })
		var cdf func(x int64) float64
		if s.r != nil {
			cdf = func(x int64) float64 { return 0.5 * math.Erfc(-(float64(x)+0.5-c)/(sigma*math.Sqrt2)) }
		} else {
			cdf = gaussCDF(c, sigma)
		}
		below := 0
		for x, j := v[0]-1, 0; j < n; x++ {
			for j < n && v[j] <= x {
				j++
			}
			below = j
			got, want := float64(below)/float64(n), cdf(x)
			if e := float64(n) * divergence(got, want); e > 50 {
				r.fail("wrong-distribution", "%s sampler, centre %g, deviation %g: %d of %d samples are at most %d instead of %.1f", smpNames[s.kind], c, sigma, below, n, x, want*float64(n))
				return
			}
		}
		r.probe("distribution")
	}
}

// uniform02 compares draws of the uniform sampler with the uniform distribution: by halves, quarters
// and so on of the range down to 1/64, and by remainders.
func uniform02(r *Run, d *Rng, kind, n int) bool {
	u := csprng.NewUniformSamplerWithSeed(d.bytes(32))
	if d.p(50) {
		u = csprng.NewUniformSampler()
	}
	what, draw, size := "Sample", u.Sample, math.Exp2(64)
	switch kind % 3 {
	case 1:
		b := bound02(d)
		if d.p(60) {
			// What is left over when the range is divided by the bound is a large part of it.
			b = []uint64{1<<63 + 1, 1<<63 + 1<<61, 1<<63 - 1<<58, 1<<62 + 1<<60, math.MaxUint64/3 + 2, math.MaxUint64/5*2 + 9, 1<<63 + 1<<62}[d.n(7)] - uint64(d.n(2))
		}
		what, draw, size = fmt.Sprintf("SampleN(%d)", b), func() uint64 { return u.SampleN(b) }, float64(b)
	case 2:
		what, draw, size = "SampleFloat", func() uint64 { return uint64(u.SampleFloat() * (1 << 52)) }, math.Exp2(52)
	}
	v := make([]float64, n)
	var bits [64]int
	for i := range v {
		x := draw()
		v[i] = float64(x)
		for b := range bits {
			bits[b] += int(x >> b & 1)
		}
	}
	judge := func(got int, want float64, of string) bool {
		// The size of the range is a float64: allow for its rounding.
		if e := float64(n) * divergence(float64(got)/float64(n), want); e > 50 {
			r.fail("wrong-distribution", "%s: %d of %d draws %s instead of %.1f", what, got, n, of, want*float64(n))
			return false
		}
		return true
	}
	sort.Float64s(v)
	for q := 1; q < 64; q++ {
		at := math.Floor(size * float64(q) / 64)
		if !judge(sort.SearchFloat64s(v, at), at/size, fmt.Sprintf("are below %g", at)) {
			return false
		}
	}
	// The lowest bits are even whatever the bound, if it is large.
	if size >= 1<<40 {
		for b := 0; b < 20; b++ {
			if !judge(bits[b], 0.5, fmt.Sprintf("have bit %d", b)) {
				return false
			}
		}
	}
	return true
}

// divergence bounds how likely a binomial variable is off: by Chernoff, the probability that the
// relative frequency is got or further from want is at most exp(-n*divergence).
func divergence(got, want float64) float64 {
	want = min(max(want, 1e-300), 1)
	d := 0.0
	if got > 0 {
		d += got * math.Log(got/want)
	}
	if got < 1 {
		d += (1 - got) * (math.Log1p(-got) - math.Log(max(1-want, 1e-18)))
	}
	return d
}

func head(b []byte, n int) []byte { return b[:min(n, len(b))] }

func offsets(v []int64, c float64) []int64 {
	w := make([]int64, len(v))
	for i := range v {
		w[i] = v[i] - int64(math.Round(c))
	}
	return w
}

// gaussCDF is the distribution function of the discrete Gaussian.
func gaussCDF(c, sigma float64) func(int64) float64 {
	lo, hi := int64(math.Floor(c-12*sigma)), int64(math.Ceil(c+12*sigma))
	sum := 0.0
	tab := make([]float64, hi-lo+1)
	for x := lo; x <= hi; x++ {
		z := (float64(x) - c) / sigma
		sum += math.Exp(-z * z / 2)
		tab[x-lo] = sum
	}
	return func(x int64) float64 {
		if x < lo {
			return 0
		}
		if x > hi {
			return 1
		}
		return tab[x-lo] / sum
	}
}

func bound02(d *Rng) uint64 {
	switch d.n(6) {
	case 0:
		return 1 + uint64(d.n(16))
	case 1:
		return 1 << d.n(64)
	case 2:
		return 1<<d.n(64) + 1
	case 3:
		return math.MaxUint64 - uint64(d.n(3))
	case 4:
		return 1<<63 + uint64(d.n(100))
	}
	return d.u64() | 1
}

func genM02(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "threads", Cfg: map[string]int64{"threads": int64(2 + r.n(3)), "sigma": int64(r.n(len(sigmas02)))}}
	schedCfg(r, p.Cfg)
	delete(p.Cfg, "cpus")
	nt := int(p.Cfg["threads"])
	if r.p(20) {
		p.Cfg[fmt.Sprintf("crash%d", r.n(nt))] = 1 + r.n64(3000)
	}
	if r.p(35) {
		p.Kind = "history"
		p.Cfg["threads"] = 1
		nt = 1
		if r.p(40) {
			p.Cfg["free"] = 1 + r.n64(16)
		}
	}
	bytes := 0
	for n := 4 + r.n(16); n > 0; n-- {
		o := Op{K: pick(r, []string{"new", "new", "use", "use", "use", "root"}), N: []int64{int64(r.n(nt)), int64(r.n(m02Slots))}, Seed: r.u64()}
		switch o.K {
		case "new":
			kind := r.n(numSmpKinds)
			if r.p(40) {
				kind = pick(r, []int{kUniSeed, kUni})
			}
			o.N = append(o.N, int64(kind), int64(r.n(8)), int64(r.n(5)), int64(r.n(len(sigmas02))))
		default:
			k := r.n(60)
			if r.p(15) && bytes < 40000 {
				k = 1000 + r.n(300)
				bytes += 8 * k
			}
			o.N = append(o.N, int64(r.n(numActions)), int64(k))
		}
		p.Ops = append(p.Ops, o)
	}
	if p.Cfg["free"] > 0 {
		p.Ops = genFree(p.Cfg["free"])
		p.Cfg["sigma"] = 6
	}
	if r.p(50) {
		p.Ops = append(p.Ops, Op{K: "dist", N: []int64{int64(r.n(8)), int64(r.n(5)), 1000 << r.n(6)}, Seed: r.u64()})
	}
	if p.Kind == "threads" && r.p(20) {
		p.Kind = "races"
		p.Cfg["race"] = 1
	}
	return p
}

func scriptM02(i int, tier string) *Plan {
	p := &Plan{Kind: "history", Cfg: map[string]int64{"threads": 1, "sigma": int64(i % 5)}}
	switch {
	case i < 16:
		p.Cfg["free"], p.Cfg["sigma"] = int64(i+1), 6
		p.Ops = genFree(int64(i + 1))
	case i < 24:
		// Every seed with its variants.
		for v := int64(0); v < 5; v++ {
			for k, kind := range []int64{kUniSeed, kRndSeed} {
				p.Ops = append(p.Ops, Op{K: "new", N: []int64{0, int64(k), kind, int64(i), v}}, Op{K: "use", N: []int64{0, int64(k), 0, 300}, Seed: uint64(v)},
					Op{K: "use", N: []int64{0, int64(k), 1, 60}}, Op{K: "use", N: []int64{0, int64(k), 0, 50}})
			}
		}
	case i < 24+20:
		j := int64(i - 24)
		for k := uint64(0); k < 30; k++ {
			p.Ops = append(p.Ops, Op{K: "dist", N: []int64{j % 5, j / 5, 1000}, Seed: k*100 + uint64(i)})
		}
		for k := uint64(0); k < 2; k++ {
			p.Ops = append(p.Ops, Op{K: "dist", N: []int64{j % 5, j / 5, 400000, int64(k)}, Seed: k*100 + uint64(i)})
		}
		for k := uint64(0); k < 4; k++ {
			p.Ops = append(p.Ops, Op{K: "dist", N: []int64{5 + j%3, 0, 50000}, Seed: 7 + k*100 + uint64(i)})
		}
	case i < 24+28:
		p.Kind = "threads"
		p.Cfg["threads"] = 3
		p.Cfg["mean"] = []int64{3, 100}[i%2]
		if i%4 >= 2 {
			p.Kind = "races"
			p.Cfg["race"] = 1
		}
		for t := int64(0); t < 3; t++ {
			for k := int64(0); k < numSmpKinds; k++ {
				p.Ops = append(p.Ops, Op{K: "new", N: []int64{t, k, k, 3, 0, 2}}, Op{K: "use", N: []int64{t, k, k % 2, 50}, Seed: uint64(t)}, Op{K: "root", N: []int64{t, k, 0, 40}})
			}
		}
	default:
		return nil
	}
	return p
}

// genFree makes two samplers of each kind that differ in few bytes of their entropy alone. The
// second half of it is used only by those that draw two seeds.
func genFree(free int64) (ops []Op) {
	kinds := []int{kUni, kRnd, kTwin, kTwinCopy, kCosac}
	if free > 8 {
		kinds = []int{kCosac}
	}
	for _, k := range kinds {
		for i := int64(0); i < 2; i++ {
			ops = append(ops, Op{K: "new", N: []int64{0, i, int64(k), 0, 0, 5}}, Op{K: "use", N: []int64{0, i, i % 2, 100, 1}, Seed: 77})
		}
	}
	return ops
}

func init() {
	register(&Prop{
		ID: "M02", Race: true, Script: scriptM02, Gen: genM02, Exec: execM02,
		Rule: "1 to 4 threads of uniform, rounded Gaussian, COSAC and twin-CDT samplers, seeded (8 lengths, seeds that differ in one bit or a trailing zero) or not, " +
			"safe copies, reads split at seeded points into buffers that hold something, x seeded schedules x thread crashes x restarts from the seed x entropy of " +
			"which only 4 bytes vary; bounds up to 2^64-1, centres at and next to table cells, integers and halves; streams compared with fresh samplers alone, and " +
			"searched for repetitions; empirical distribution functions against the exact ones",
		Real: []string{"csprng samplers"},
		Stub: []string{"thread scheduler", "entropy source"},
	})
}
