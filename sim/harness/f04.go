//go:build f04

package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	modgen "github.com/sp301415/ringo-snark/jindo-modulus"
	"github.com/sp301415/ringo-snark/simhook"
	"github.com/sp301415/ringo-snark/simhook/simmod"
)

// F04: the modulus generator, as a process that is asked for fields, on a disk that fails,
// and that ends at any point.

// modReq is what the generator is asked for.
type modReq struct {
	bits string // the value of -n
	b, k string // the values of -b and -k
	out  string // the value of -o
	pkg  string // the value of -p
}

func (q *modReq) args() (l []string) {
	for _, a := range [][2]string{{"-n", q.bits}, {"-b", q.b}, {"-k", q.k}, {"-o", q.out}, {"-p", q.pkg}} {
		if a[1] != "" {
			l = append(l, a[0], a[1])
		}
	}
	return l
}

// dir is where the package has to be, from the working directory.
func (q *modReq) dir() string {
	p := q.pkg
	if p == "" {
		p = "zp"
	}
	return filepath.Join(q.out, strings.ToLower(p))
}

const (
	modOrder = 31      // the field has roots of unity of order 2^31
	modBase  = 1 << 25 // the largest base
)

// suitable tells whether p is a field of a length in [lo, hi) that the library can use.
func suitable(p *big.Int, lo, hi int) string {
	if n := p.BitLen(); n < lo || n >= hi {
		return fmt.Sprintf("it has %d bits", n)
	}
	if !p.ProbablyPrime(30) {
		return "it is not prime"
	}
	m := new(big.Int).Sub(p, big.NewInt(1))
	if m.TrailingZeroBits() < modOrder {
		return fmt.Sprintf("it has roots of unity of order 2^%d only", m.TrailingZeroBits())
	}
	// The base is the last square root, as the encoder of the library computes it, or one before it.
	for i := 0; i < 30; i++ {
		r := new(big.Int).Sqrt(m)
		if new(big.Int).Mul(r, r).Cmp(m) != 0 {
			break
		}
		m = r
		if m.Cmp(big.NewInt(modBase)) <= 0 {
			return ""
		}
	}
	return "it is not a power of a small base, plus one"
}

var existing = map[[2]int]bool{}

// existsModulus tells whether there is such a field.
func existsModulus(lo, hi int) bool {
	l := [2]int{lo, hi}
	if _, ok := existing[l]; !ok {
		existing[l] = searchModulus(lo, hi)
	}
	return existing[l]
}

func searchModulus(lo, hi int) bool {
	for k := 2; k < hi; k *= 2 {
		step := int64(1) << uint((modOrder+k-1)/k)
		from := max(step, int64(math.Exp2(float64(lo-2)/float64(k)))/step*step)
		for b := from; b <= modBase; b += step {
			p := new(big.Int).Exp(big.NewInt(b), big.NewInt(int64(k)), nil)
			p.Add(p, big.NewInt(1))
			if p.BitLen() >= hi {
				break
			}
			if p.BitLen() >= lo && p.ProbablyPrime(20) {
				return true
			}
		}
	}
	return false
}

var (
	reBits  = regexp.MustCompile(`^[0-9]+$`)
	reRange = regexp.MustCompile(`^[0-9]+-[0-9]+$`)
)

// expect returns what the answer to a request has to be: a refusal, one prime, or any suitable one of a length.
func (q *modReq) expect() (refuse bool, p *big.Int, lo, hi int) {
	num := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil || n > 1<<20 {
			return -1
		}
		return n
	}
	if q.bits != "" {
		switch {
		case reBits.MatchString(q.bits):
			lo = num(q.bits)
			hi = lo + 1
		case reRange.MatchString(q.bits):
			f := strings.Split(q.bits, "-")
			lo, hi = num(f[0]), num(f[1])
		default:
			return true, nil, 0, 0
		}
		if lo < 0 || hi < 0 || lo >= hi || !existsModulus(lo, hi) {
			return true, nil, 0, 0
		}
		return false, nil, lo, hi
	}
	b, ok := new(big.Int).SetString(q.b, 10)
	k := num(q.k)
	if !ok || k <= 0 || b.Sign() <= 0 || !b.IsUint64() {
		return true, nil, 0, 0
	}
	p = new(big.Int).Exp(b, big.NewInt(int64(k)), nil)
	p.Add(p, big.NewInt(1))
	// There is no Montgomery form modulo two.
	if !p.ProbablyPrime(30) || p.Bit(0) == 0 {
		return true, nil, 0, 0
	}
	return false, p, 0, 0
}

// modProc is a machine that the generator runs on.
type modProc struct{ root string }

func newModProc() *modProc {
	root, err := os.MkdirTemp("", "modgen-")
	if err == nil {
		root, err = filepath.EvalSymlinks(root)
	}
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	must(err)
	must(os.MkdirAll(filepath.Join(root, "work", "sub"), 0755))
	must(os.WriteFile(filepath.Join(root, "work", "go.mod"), []byte("module ex\n\ngo 1.24\n"), 0644))
	for _, d := range []string{"bin", "bin-half"} {
		must(os.Mkdir(filepath.Join(root, d), 0755))
		must(os.WriteFile(filepath.Join(root, d, "gofmt"), []byte("#!/bin/sh\nexit 0\n"), 0755))
	}
	must(os.WriteFile(filepath.Join(root, "bin", "asmfmt"), []byte("#!/bin/sh\nexit 0\n"), 0755))
	return &modProc{root}
}

func (m *modProc) close() { os.RemoveAll(m.root) }

// how a process ended.
type modEnd struct {
	code    int
	crashed bool
	w       *simmod.World
	ran     int64
}

// run starts the generator and lets it end.
func (m *modProc) run(q *modReq, w simmod.World, crashAt int64, half bool) *modEnd {
	w.Root = filepath.Join(m.root, "work")
	simmod.Start(&w)
	wd, _ := os.Getwd()
	path := os.Getenv("PATH")
	args, stdout, stderr := os.Args, os.Stdout, os.Stderr
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	bin := "bin"
	if half {
		bin = "bin-half"
	}
	os.Setenv("PATH", filepath.Join(m.root, bin)+":/nonexistent")
	os.Chdir(w.Root)
	os.Args = append([]string{"jindo-modulus"}, q.args()...)
	os.Stdout, os.Stderr = null, null
	old := map[string]string{}
	flag.CommandLine.SetOutput(io.Discard)
	flag.VisitAll(func(f *flag.Flag) {
		old[f.Name] = f.Value.String()
		f.Value.Set(f.DefValue)
	})
	defer func() {
		flag.VisitAll(func(f *flag.Flag) { f.Value.Set(old[f.Name]) })
		os.Args, os.Stdout, os.Stderr = args, stdout, stderr
		null.Close()
		os.Chdir(wd)
		os.Setenv("PATH", path)
	}()
	s := simhook.Run(simhook.Config{Seed: 1, CrashAt: []int64{crashAt}}, modgen.RunMain)
	t := s.Task(0)
	e := &modEnd{w: &w, ran: t.Ran()}
	switch v := t.Panic.(type) {
	case nil:
	case simmod.Exited:
		e.code = v.Code
	case simmod.Crashed, simhook.Crash:
		e.crashed = true
	default:
		e.code = 2
	}
	return e
}

// files returns what is below the working directory.
func (m *modProc) files() map[string]string {
	root := filepath.Join(m.root, "work")
	l := map[string]string{}
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(root, p)
			if rel != "go.mod" {
				l[rel] = string(b)
			}
		}
		return nil
	})
	return l
}

func fileNames(l map[string]string) (n []string) {
	for f := range l {
		n = append(n, f)
	}
	sort.Strings(n)
	return n
}

var reModulus = regexp.MustCompile(`_modulus\.SetString\("([0-9a-f]+)", 16\)`)

// inspect returns the modulus of the package in dir, or what is wrong with it.
func (m *modProc) inspect(q *modReq) (p *big.Int, fault string) {
	dir := q.dir()
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(m.root, "work", dir)
	}
	name := filepath.Base(q.dir())
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, "there is no package where it was asked for"
	}
	fset := token.NewFileSet()
	n := 0
	methods := map[string]int{}
	consts := map[string]*big.Int{}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		src, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		af, err := parser.ParseFile(fset, e.Name(), src, parser.SkipObjectResolution)
		if err != nil {
			return nil, fmt.Sprintf("%s does not parse: %v", e.Name(), err)
		}
		if af.Name.Name != name {
			return nil, fmt.Sprintf("%s is of package %s", e.Name(), af.Name.Name)
		}
		if e.Name() != "element.go" {
			continue
		}
		n++
		if x := reModulus.FindSubmatch(src); x != nil {
			p, _ = new(big.Int).SetString(string(x[1]), 16)
		}
		unsafe := false
		for _, im := range af.Imports {
			unsafe = unsafe || im.Path.Value == `"unsafe"`
		}
		if !unsafe {
			return nil, "element.go does not import unsafe"
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv != nil && len(d.Recv.List) == 1 {
					if st, ok := d.Recv.List[0].Type.(*ast.StarExpr); ok {
						if id, ok := st.X.(*ast.Ident); ok && id.Name == "Uint" {
							methods[d.Name.Name]++
						}
					}
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if v, ok := s.(*ast.ValueSpec); ok && len(v.Names) == 1 && len(v.Values) == 1 {
						if lit, ok := v.Values[0].(*ast.BasicLit); ok {
							x, _ := new(big.Int).SetString(lit.Value, 0)
							consts[v.Names[0].Name] = x
						}
					}
				}
			}
		}
	}
	if n == 0 || p == nil {
		return nil, "there is no element.go with a modulus"
	}
	for _, f := range []string{"New", "Slice", "Limb", "Inverse", "SetBigInt", "Equal", "Bytes"} {
		if methods[f] != 1 {
			return nil, fmt.Sprintf("method %s is there %d times", f, methods[f])
		}
	}
	if c := consts["Bits"]; c == nil || c.Int64() != int64(p.BitLen()) {
		return nil, "the length in it is wrong"
	}
	if p.BitLen() > 31 {
		x := new(big.Int)
		for i := p.BitLen() / 64; i >= 0; i-- {
			if c := consts[fmt.Sprintf("q%d", i)]; c != nil {
				x.Lsh(x, 64)
				x.Add(x, c)
			}
		}
		if x.Cmp(p) != 0 {
			return nil, "the limbs of the modulus differ from the modulus"
		}
	}
	return p, ""
}

var modPkgs = []string{"", "zp", "ZP", "Field2", "modq"}
var modOuts = []string{"", ".", "out", "sub/../deep/er", "./sub", "sub/", "ABS", "ABS/x"}

// reqOf makes the request of an operation: kind, two numbers, output, package.
func (m *modProc) reqOf(o Op) *modReq {
	q := &modReq{}
	a, b := o.n(1), o.n(2)
	abs := func(x int64) int64 {
		if x < 0 {
			return -x
		}
		return x
	}
	fast := func(n int64) int64 {
		// Primes of these lengths are squares of a base plus one, of which there are few: the search takes long.
		if n = abs(n); n > 33 && n < 60 {
			n += 30
		}
		// The field generator has no code for some longer ones.
		return n % 640
	}
	switch o.n(0) % 7 {
	case 0:
		q.bits = fmt.Sprint(fast(a))
	case 1:
		lo := fast(a) % 590
		hi := lo + b%40
		if lo < 34 && hi > 34 {
			lo, hi = lo+60, hi+60
		}
		q.bits = fmt.Sprintf("%d-%d", lo, hi)
	case 2:
		q.b, q.k = fmt.Sprint(abs(a)), fmt.Sprint(abs(b))
	case 3:
		// Powers of two of even numbers: some of them are prime.
		k := int64(1) << uint(abs(b)%6)
		q.b, q.k = fmt.Sprint(2*(abs(a)%4000)), fmt.Sprint(k)
	case 4:
		l := []string{"x", "12-", "-", "70-70", "90-70", "0", "12a", " 70", "70 ", "70-80-90", "1e2", "0x70", "+70", "-70", "18446744073709551726", "70,80", "99999999999999999999-99999999999999999999", "70_0", "7.5"}
		q.bits = l[int(abs(a))%len(l)]
	case 5:
		// The length counts, whatever else is said.
		q.bits = fmt.Sprint(60 + abs(a)%300)
		q.b, q.k = fmt.Sprint(abs(b)), "2"
	case 6:
		q.bits = fmt.Sprintf("%d-%d", abs(a), abs(b))
	}
	if strings.HasPrefix(q.bits, "-") {
		q.bits = "x" + q.bits
	}
	q.out = modOuts[int(abs(o.n(3)))%len(modOuts)]
	if strings.HasPrefix(q.out, "ABS") {
		q.out = filepath.Join(m.root, "work", q.out)
	}
	q.pkg = modPkgs[int(abs(o.n(4)))%len(modPkgs)]
	return q
}

func execF04(p *Plan, r *Run) {
	if p.Kind == "use" {
		execF04Use(p, r)
		return
	}
	for i, o := range p.Ops {
		execF04Req(i, o, r)
		if r.viol != nil {
			return
		}
	}
}

func execF04Req(i int, o Op, r *Run) {
	m := newModProc()
	defer m.close()
	q := m.reqOf(o)
	what := strings.ReplaceAll(strings.Join(q.args(), " "), m.root, "")
	refuse, prime, lo, hi := q.expect()
	// check judges what a process left when it ended by itself.
	check := func(e *modEnd, faulted bool, when string) bool {
		switch {
		case len(e.w.Escapes) > 0:
			r.fail("writes-elsewhere", "op %d (%s)%s: %s", i, what, when, strings.ReplaceAll(e.w.Escapes[0], m.root, ""))
		case e.crashed:
		case e.code != 0 && refuse:
			if l := fileNames(m.files()); len(l) > 0 && !faulted && o.n(5) == 0 && prime == nil && q.bits != "" {
				r.fail("refusal-leaves-files", "op %d (%s)%s is refused, and leaves %v", i, what, when, l)
			}
		case e.code != 0:
			if !faulted {
				r.fail("refuses-good", "op %d (%s)%s: the generator ends with code %d, though there is such a field", i, what, when, e.code)
			}
		case refuse:
			r.fail("accepts-bad", "op %d (%s)%s: the generator reports success, though there is no such field", i, what, when)
		default:
			x, s := m.inspect(q)
			if s == "" && prime != nil && x.Cmp(prime) != 0 {
				s = fmt.Sprintf("the modulus is %v instead of %v", x, prime)
			}
			if s == "" && prime == nil {
				if s = suitable(x, lo, hi); s != "" {
					s = fmt.Sprintf("the modulus %v is not suitable: %s", x, s)
				}
			}
			if s != "" {
				r.fail("bad-package", "op %d (%s)%s reports success: %s", i, what, when, s)
			}
		}
		return r.viol == nil
	}

	fk := int(o.n(5))
	if fk < 0 {
		fk = -fk
	}
	fk %= simmod.NumFaults + 2
	w := simmod.World{}
	crashAt := int64(0)
	half := false
	switch {
	case fk == simmod.NumFaults:
		crashAt = 1 + (o.n(6)*7919+o.n(7))%4000
		if o.n(7)%2 == 1 {
			// After the search.
			pre := newModProc()
			pq := *q
			pq.out = strings.ReplaceAll(pq.out, m.root, pre.root)
			crashAt = max(1, pre.run(&pq, simmod.World{}, 0, false).ran-o.n(7)/2%40)
			pre.close()
		}
	case fk == simmod.NumFaults+1:
		half = true
	case fk > 0:
		w.At, w.Kind, w.Where = 1+int(o.n(6))%4, fk, int(o.n(7))%1000
	}
	e := m.run(q, w, crashAt, half)
	faulted := e.w.Fired > 0 || half || crashAt > 0
	switch {
	case e.w.Fired > 0:
		r.fault(simmod.FaultNames[fk])
	case e.crashed:
		r.fault("crash_at_statement")
	case half:
		r.fault("no_formatter")
	default:
		r.fault("none")
	}
	r.log("op %d %s: code %d crashed %v, %v", i, what, e.code, e.crashed, e.w.Ops)
	if !check(e, faulted, " with "+strings.ReplaceAll(fmt.Sprint(e.w.Ops), m.root, "")) || !faulted && o.n(8) == 0 {
		return
	}

	// Run again, it gives what it would have given at once.
	e = m.run(q, simmod.World{}, 0, false)
	r.log("op %d again: code %d, %v", i, e.code, e.w.Ops)
	if !check(e, refuse, " the second time") || refuse {
		return
	}
	fresh := newModProc()
	defer fresh.close()
	fq := *q
	fq.out = strings.ReplaceAll(fq.out, m.root, fresh.root)
	if fe := fresh.run(&fq, simmod.World{}, 0, false); fe.code != e.code {
		r.fail("history-matters", "op %d (%s): code %d after a failure, %d without", i, what, e.code, fe.code)
		return
	}
	got, want := m.files(), fresh.files()
	if a, b := fileNames(got), fileNames(want); strings.Join(a, " ") != strings.Join(b, " ") {
		r.fail("history-matters", "op %d (%s): the files are %v after a failure, %v without", i, what, a, b)
		return
	}
	for _, f := range fileNames(want) {
		if got[f] != want[f] {
			r.fail("history-matters", "op %d (%s): after a failure and another run, %s is not what it is at once", i, what, f)
			return
		}
	}
	r.probe("recovered")
}

const useSrc = `package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"

	"ex/zp"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/math/bignum"
)

var _ bignum.Uint[*zp.Uint] = (*zp.Uint)(nil)

func bad(f string, a ...any) {
	fmt.Printf("BAD "+f+"\n", a...)
	os.Exit(0)
}

func main() {
	q := zp.Modulus()
	rng := rand.New(rand.NewSource(1))
	var z *zp.Uint
	a, b := z.New(), z.New()
	if a == b || a == nil || !a.IsZero() {
		bad("New does not make a new zero")
	}
	if z.New().Limb() != (q.BitLen()+63)/64 {
		bad("Limb is %d for %d bits", z.New().Limb(), q.BitLen())
	}
	for i := 0; i < 200; i++ {
		x := new(big.Int).Rand(rng, q)
		switch i {
		case 0:
			x.SetInt64(0)
		case 1:
			x.SetInt64(1)
		case 2:
			x.Sub(q, big.NewInt(1))
		}
		e := z.New().SetBigInt(x)
		keep := *e
		res := make([]uint64, e.Limb()+1)
		res[e.Limb()] = 77
		e.Slice(res[:e.Limb()])
		y := new(big.Int)
		for j := e.Limb() - 1; j >= 0; j-- {
			y.Lsh(y, 64)
			y.Add(y, new(big.Int).SetUint64(res[j]))
		}
		if y.Cmp(x) != 0 || res[e.Limb()] != 77 || *e != keep {
			bad("Slice of %v is %v", x, y)
		}
	}
	// Transforms of the ranks that circuits use.
	for _, n := range []int{1 << 4, 1 << 13} {
		ev := bigpoly.NewCyclicEvaluator[*zp.Uint](n)
		f, g := ev.NewPoly(false), ev.NewPoly(false)
		for i := 0; i < n; i++ {
			f.Coeffs[i].SetBigInt(new(big.Int).Rand(rng, q))
		}
		g.Coeffs[1].SetUint64(1)
		h := ev.InvNTT(ev.Mul(ev.NTT(f), ev.NTT(g)))
		for i := 0; i < n; i++ {
			if !h.Coeffs[(i+1)%n].Equal(f.Coeffs[i]) {
				bad("a product of rank %d is wrong", n)
			}
		}
	}
	params := jindo.NewParameters[*zp.Uint](1<<10, 1)
	prv, vrf := jindo.NewProver[*zp.Uint](params, []byte("crs")), jindo.NewVerifier[*zp.Uint](params, []byte("crs"))
	v := make([]*zp.Uint, 700)
	for i := range v {
		v[i] = z.New().SetBigInt(new(big.Int).Rand(rng, q))
	}
	x := z.New().SetBigInt(new(big.Int).Rand(rng, q))
	com, open := prv.Commit(v)
	y, pf := prv.Evaluate(x, [][]*zp.Uint{v}, []*jindo.Commitment{com}, []*jindo.Opening{open})
	if !vrf.Verify(x, []*jindo.Commitment{com}, y, pf) {
		bad("an honest proof over the field is rejected")
	}
	y[0].Add(y[0], z.New().SetUint64(1))
	if vrf.Verify(x, []*jindo.Commitment{com}, y, pf) {
		bad("a false evaluation over the field is accepted")
	}
	fmt.Println("GOOD", q)
}
`

// execF04Use generates a field, compiles it, and proves an evaluation with it.
func execF04Use(p *Plan, r *Run) {
	repo := os.Getenv("RINGOSIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	m := newModProc()
	defer m.close()
	work := filepath.Join(m.root, "work")
	gomod, err1 := os.ReadFile(filepath.Join(repo, "go.mod"))
	gosum, err2 := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err1 != nil || err2 != nil {
		panic("harness: no go.mod")
	}
	i := bytes.IndexByte(gomod, '\n')
	gomod = append([]byte("module ex\n"), gomod[i+1:]...)
	gomod = append(gomod, []byte("\nrequire github.com/sp301415/ringo-snark v0.0.0\nreplace github.com/sp301415/ringo-snark => "+repo+"\n")...)
	os.WriteFile(filepath.Join(work, "go.mod"), gomod, 0644)
	os.WriteFile(filepath.Join(work, "go.sum"), gosum, 0644)
	q := &modReq{bits: fmt.Sprint(p.Cfg["bits"])}
	if p.Cfg["b"] != 0 {
		q = &modReq{b: fmt.Sprint(p.Cfg["b"]), k: fmt.Sprint(p.Cfg["k"])}
	}
	e := m.run(q, simmod.World{}, 0, false)
	if e.code != 0 {
		r.fail("refuses-good", "%v: the generator ends with code %d, though there is such a field", q.args(), e.code)
		return
	}
	os.WriteFile(filepath.Join(work, "main.go"), []byte(useSrc), 0644)
	bin := filepath.Join(m.root, "use")
	c := exec.Command("go", "build", "-o", bin, ".")
	c.Dir = work
	if out, err := c.CombinedOutput(); err != nil {
		r.fail("unusable-package", "%v: the library does not compile with the package: %s", q.args(), short(strings.ReplaceAll(string(out), m.root, ""), 400))
		return
	}
	out, err := exec.Command(bin).CombinedOutput()
	if err != nil || !strings.HasPrefix(string(out), "GOOD") {
		r.fail("unusable-package", "%v: %v %s", q.args(), err, short(strings.ReplaceAll(string(out), m.root, ""), 400))
		return
	}
	r.log("%v: %s", q.args(), out)
	r.fault("none")
}

func genF04(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "requests", Cfg: map[string]int64{}}
	for i := 0; i < 6; i++ {
		kind := pick(r, []int64{0, 0, 0, 1, 1, 2, 3, 3, 4, 5})
		a, b := r.n64(300), r.n64(700)
		switch kind {
		case 0:
			if r.p(10) {
				a = r.n64(640)
			}
		case 2:
			b = pick(r, []int64{0, 1, 2, 3, 4, 6, 8, 16})
			if r.p(30) {
				a = r.n64(1 << 40)
			}
		}
		p.Ops = append(p.Ops, Op{K: "request", N: []int64{kind, a, b, r.n64(int64(len(modOuts))), r.n64(int64(len(modPkgs))),
			pick(r, []int64{0, 1, 1, 2, 2, 3, 4, 4, 4, 5, 6, 6, 7}), r.n64(3), r.n64(4000), r.n64(2)}, Seed: r.u64()})
	}
	return p
}

// scriptF04 walks through lengths, requests that have to be refused, and every fault at every operation.
func scriptF04(i int, tier string) *Plan {
	p := &Plan{Kind: "requests", Cfg: map[string]int64{}}
	use := [][3]int64{{110}, {220}, {0, 12640, 8}, {330}, {65}, {500}}
	switch {
	case i < len(use):
		return &Plan{Kind: "use", Cfg: map[string]int64{"bits": use[i][0], "b": use[i][1], "k": use[i][2]}}
	case i < 16:
		// Every fault at every operation.
		for at := int64(0); at < 4; at++ {
			for k := int64(1); k < simmod.NumFaults; k++ {
				p.Ops = append(p.Ops, Op{K: "request", N: []int64{0, 90 + int64(i)*20, 0, int64(i), at, k, at, int64(i)*97 + k*211, 0}})
			}
		}
	case i == 16:
		for a := int64(0); a < 19; a++ {
			p.Ops = append(p.Ops, Op{K: "request", N: []int64{4, a, 0, a, a, 0, 0, 0, 0}})
		}
	case i < 24:
		// Lengths in turn, those first that are near where the exponent changes.
		for a := int64(i-17) * 30; a < int64(i-16)*30; a++ {
			n := a
			if n > 33 && n < 60 {
				continue
			}
			p.Ops = append(p.Ops, Op{K: "request", N: []int64{0, n, 0, 0, 0, 0, 0, 0, 0}})
		}
	case i < 32:
		for a := int64(0); a < 20; a++ {
			lo := []int64{51, 52, 60, 26, 33, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 400, 399, 512}[a]
			if lo < 60 {
				lo += 30
			}
			p.Ops = append(p.Ops, Op{K: "request", N: []int64{1, lo, int64(i-24) * 5, a, 0, 0, 0, 0, 0}})
		}
	case i < 36:
		for a := int64(1); a < 40; a++ {
			p.Ops = append(p.Ops, Op{K: "request", N: []int64{2 + int64(i%2), a, (a + int64(i)) % 9, a, 0, 0, 0, 0, 0}})
		}
	case i > 36 && i < 40:
		// The lengths of squares plus one, whose search is longer.
		for _, a := range [][]int64{{33, 34, 36, 37, 38, 39}, {40, 35}, {42}}[i-37] {
			p.Ops = append(p.Ops, Op{K: "request", N: []int64{6, a, a + 1, 0, 0, 0, 0, 0, 0}})
		}
	case i == 36:
		// Ranges in which the search runs out of bases for an exponent.
		for a, l := range [][2]int64{{51, 80}, {52, 54}, {53, 64}, {99, 104}, {100, 200}, {26, 27}, {20, 30}, {76, 101}, {200, 400}, {433, 434}, {433, 435}, {0, 1}, {0, 30}} {
			p.Ops = append(p.Ops, Op{K: "request", N: []int64{6, l[0], l[1], int64(a), 0, 0, 0, 0, 0}})
		}
		p.Ops = append(p.Ops, Op{K: "request", N: []int64{0, 433, 0, 0, 0, 0, 0, 0, 0}})
	default:
		return nil
	}
	return p
}

func init() {
	register(&Prop{
		ID: "F04", Script: scriptF04, Gen: genF04, Exec: execF04,
		Rule: "processes of the modulus generator asked for lengths, ranges, bases and exponents (well formed or not), output directories and names, on a disk each operation " +
			"of which may fail, tear or be the last one before a crash, without formatters, or crashed at any statement, and then run again; what is there after success " +
			"is parsed and compared with a search of its own for suitable primes, and with a run without faults; some fields are compiled and used by the library",
		Real: []string{"jindo-modulus", "gnark-crypto's field generator", "jindo and math/bigpoly over some of the generated fields"},
		Stub: []string{"the generator's file operations and exit (faults on a scratch directory)", "gofmt and asmfmt (do nothing)"},
	})
}
