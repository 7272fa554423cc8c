// Command instr writes instrumented copies of the library's sources, and an
// overlay file for "go build -overlay" that puts them (and the simulator's own
// packages) in place of the originals. /repo itself is never written.
//
// Edits are made by byte offset, on the line they belong to, so that line
// numbers, directives and comments stay as they are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/sp301415/ringo-snark"

// seams maps the imports that are nondeterministic, or that the simulator
// wants to observe, to the packages that stand in for them.
var seams = map[string]string{
	"sync":          mod + "/simhook/sync",
	"crypto/rand":   mod + "/simhook/rand",
	"crypto/sha3":   mod + "/simhook/sha3",
	"crypto/sha256": mod + "/simhook/sha256",
}

// hooks are the exported functions whose calls the simulator can observe and alter.
var hooks = map[string]bool{
	"jindo.NewCommitKey":           true,
	"jindo.Prover.Commit":          true,
	"jindo.Prover.Evaluate":        true,
	"jindo.Verifier.Verify":        true,
	"buckler.Encoder.RandEncode":   true,
	"buckler.Encoder.RandEncodeTo": true,
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type file struct {
	fset   *token.FileSet
	src    []byte
	edits  []edit
	tail   []string
	yields int
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *file) ins(p token.Pos, s string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, s, len(f.edits)})
}
func (f *file) rep(p, e token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(e), s, len(f.edits)})
}
func (f *file) text(p, e token.Pos) string { return string(f.src[f.off(p):f.off(e)]) }

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].pos != f.edits[j].pos {
			return f.edits[i].pos < f.edits[j].pos
		}
		// What is inserted at a place comes before what replaces the text there.
		if a, b := f.edits[i].end == f.edits[i].pos, f.edits[j].end == f.edits[j].pos; a != b {
			return a
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var out []byte
	last := 0
	for _, e := range f.edits {
		if e.pos < last {
			panic("overlapping edits")
		}
		out = append(out, f.src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	return append(out, f.src[last:]...)
}

type opts struct {
	yield   bool
	conc    bool // rewrite go statements, channel operations and NumCPU
	maps    map[string]bool
	pkgName string
	// main makes a command a package that can be imported, with its system behind a seam.
	main bool
	// asm names the functions written in assembly whose calls the race detector is told of.
	asm map[string]bool
}

// asmFuncs returns the functions without a body that take nothing but pointers to an element.
func asmFuncs(files []string) map[string]bool {
	l := map[string]bool{}
	for _, p := range files {
		if !strings.HasSuffix(p, "_amd64.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body != nil || fd.Recv != nil || fd.Type.Results != nil || len(fd.Type.Params.List) != 1 {
				continue
			}
			if st, ok := fd.Type.Params.List[0].Type.(*ast.StarExpr); ok {
				id, ok := st.X.(*ast.Ident)
				if ok && id.Name == "Uint" && fd.Name.Name == "mul" && len(fd.Type.Params.List[0].Names) == 3 {
					l[fd.Name.Name] = true
				}
			}
		}
	}
	return l
}

// asmText is the file that tells the race detector what the assembly touches.
func asmText(pkg string) string {
	return `package ` + pkg + `

//go:noinline
func simTouch(w, x, y *Uint) uint64 {
	a := w[0]
	w[0] = a
	return a ^ x[0] ^ y[0]
}

func simmul(res, x, y *Uint) { simTouch(res, x, y); mul(res, x, y) }
`
}

func instrument(path string, o opts) ([]byte, []string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	f := &file{fset: token.NewFileSet(), src: src}
	af, err := parser.ParseFile(f.fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	var found []string

	if o.main {
		systemSeam(f, af)
	}
	f.ins(af.Name.End(), "; import simhook \""+mod+"/simhook\"")

	runtimeName := ""
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "runtime" {
			runtimeName = "runtime"
			if im.Name != nil {
				runtimeName = im.Name.Name
			}
		}
		if np, ok := seams[p]; ok {
			name := ""
			if im.Name == nil {
				name = filepath.Base(p) + " "
			}
			f.rep(im.Path.Pos(), im.Path.End(), name+strconv.Quote(np))
		}
	}

	inSelect := map[ast.Node]bool{}
	comma2 := map[ast.Node]bool{}
	usedRuntime := false

	if len(o.asm) > 0 && strings.HasSuffix(path, "_amd64.go") {
		ast.Inspect(af, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && o.asm[id.Name] {
					f.rep(id.Pos(), id.End(), "sim"+id.Name)
				}
			}
			return true
		})
	}

	stmts := func(list []ast.Stmt) {
		if !o.yield {
			return
		}
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			f.ins(s.Pos(), "simhook.Y(); ")
			f.yields++
		}
	}

	var stack []ast.Node
	ast.Inspect(af, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return false
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				break
			}
			recv := ""
			var recvName string
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := x.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				switch y := t.(type) {
				case *ast.IndexExpr:
					t = y.X
				case *ast.IndexListExpr:
					t = y.X
				}
				if id, ok := t.(*ast.Ident); ok {
					recv = id.Name + "."
				}
				if len(x.Recv.List[0].Names) == 1 {
					recvName = x.Recv.List[0].Names[0].Name
				}
			}
			key := o.pkgName + "." + recv + x.Name.Name
			if hooks[key] {
				found = append(found, key)
				args := []string{strconv.Quote(key)}
				if recvName != "" && recvName != "_" {
					args = append(args, recvName)
				} else {
					args = append(args, "nil")
				}
				for _, p := range x.Type.Params.List {
					for _, nm := range p.Names {
						if nm.Name == "_" {
							args = append(args, "nil")
						} else {
							args = append(args, "&"+nm.Name)
						}
					}
				}
				call := "if simhook.Hooks { simhook.Enter(" + strings.Join(args, ", ") + ") }; "
				if x.Type.Results != nil {
					var res []string
					ok := true
					if len(x.Type.Results.List[0].Names) == 0 {
						for i, r := range x.Type.Results.List {
							nm := fmt.Sprintf("simR%d", i)
							pre := ""
							if i == 0 && !x.Type.Results.Opening.IsValid() {
								pre = "("
							}
							f.ins(r.Type.Pos(), pre+nm+" ")
							if pre != "" {
								f.ins(r.Type.End(), ")")
							}
							res = append(res, "&"+nm)
						}
					} else {
						for _, r := range x.Type.Results.List {
							for _, nm := range r.Names {
								if nm.Name == "_" {
									ok = false
								}
								res = append(res, "&"+nm.Name)
							}
						}
					}
					if ok {
						call += "if simhook.Hooks { defer simhook.Exit(" + args[0] + ", " + args[1] + ", " + strings.Join(res, ", ") + ") }; "
					}
				}
				f.ins(x.Body.Lbrace+1, " "+call)
			}
		case *ast.BlockStmt:
			// The body of a switch or select holds clauses, not statements.
			if len(stack) >= 2 {
				switch stack[len(stack)-2].(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			if x.Comm != nil {
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					if m != nil {
						inSelect[m] = true
					}
					return true
				})
			}
			stmts(x.Body)
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				comma2[x.Rhs[0]] = true
			}
		case *ast.RangeStmt:
			name := ""
			switch y := x.X.(type) {
			case *ast.Ident:
				name = y.Name
			case *ast.SelectorExpr:
				name = y.Sel.Name
			}
			if o.maps[name] {
				f.ins(x.X.Pos(), "simhook.MapSeq(")
				f.ins(x.X.End(), ")")
			}
		}
		if o.conc {
			switch x := n.(type) {
			case *ast.GoStmt:
				if lit, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
					f.rep(x.Go, lit.Pos(), "simhook.Go(")
					f.rep(lit.End(), x.Call.End(), ")")
					break
				}
				pre := "{ simF := "
				f.rep(x.Go, x.Call.Fun.Pos(), pre)
				f.ins(x.Call.Fun.End(), "; ")
				var names []string
				prev := x.Call.Fun.End()
				for i, a := range x.Call.Args {
					nm := fmt.Sprintf("simA%d", i)
					names = append(names, nm)
					f.rep(prev, a.Pos(), nm+" := ")
					f.ins(a.End(), "; ")
					prev = a.End()
				}
				dots := ""
				if x.Call.Ellipsis.IsValid() {
					dots = "..."
				}
				f.rep(prev, x.Call.End(), "simhook.Go(func() { simF("+strings.Join(names, ", ")+dots+") }) }")
			case *ast.SendStmt:
				if inSelect[x] {
					break
				}
				f.ins(x.Chan.Pos(), "simhook.SendTo(")
				f.rep(x.Chan.End(), x.Value.Pos(), ")(")
				f.ins(x.Value.End(), ")")
			case *ast.UnaryExpr:
				if x.Op != token.ARROW || inSelect[x] {
					break
				}
				fn := "simhook.Recv("
				if comma2[x] {
					fn = "simhook.Recv2("
				}
				f.rep(x.OpPos, x.X.Pos(), fn)
				f.ins(x.X.End(), ")")
			case *ast.SelectorExpr:
				id, ok := x.X.(*ast.Ident)
				if ok && runtimeName != "" && id.Name == runtimeName && x.Sel.Name == "NumCPU" {
					f.rep(x.Pos(), x.End(), "simhook.NumCPU")
					usedRuntime = true
				}
			}
		}
		return true
	})

	out := append(f.apply(), []byte("\nvar _ = simhook.On\n")...)
	if usedRuntime {
		out = append(out, []byte("\nvar _ = "+runtimeName+".NumCPU\n")...)
	}
	for _, t := range f.tail {
		out = append(out, []byte("\n"+t+"\n")...)
	}
	return out, found, nil
}

// systemCalls are the functions that simmod stands in for.
var systemCalls = map[string]bool{
	"os.Exit": true, "os.ReadFile": true, "os.WriteFile": true, "os.Mkdir": true, "os.MkdirAll": true, "os.Remove": true,
	"os.RemoveAll": true, "os.Rename": true, "os.Create": true, "os.Open": true, "os.OpenFile": true,
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"github.com/consensys/gnark-crypto/field/generator.GenerateFF": true,
}

// systemSeam makes a file of a command one of package modgen, which calls simmod.
func systemSeam(f *file, af *ast.File) {
	f.rep(af.Name.Pos(), af.Name.End(), "modgen; import simmod \""+mod+"/simhook/simmod\"")
	names := map[string]string{}
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		names[name] = p
	}
	keep := map[string]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := x.X.(*ast.Ident)
		if ok && systemCalls[names[id.Name]+"."+x.Sel.Name] {
			f.rep(id.Pos(), id.End(), "simmod")
			keep[id.Name+"."+x.Sel.Name] = true
		}
		return true
	})
	f.tail = append(f.tail, "var _ = simmod.Exit")
	for k := range keep {
		f.tail = append(f.tail, "var _ = "+k)
	}
	sort.Strings(f.tail)
}

// mapNames returns the names of the fields and variables of a package that hold maps,
// and are not also the name of something else.
func mapNames(files []string) map[string]bool {
	yes, no := map[string]bool{}, map[string]bool{}
	for _, p := range files {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			continue
		}
		note := func(names []*ast.Ident, t ast.Expr) {
			for _, nm := range names {
				if _, ok := t.(*ast.MapType); ok {
					yes[nm.Name] = true
				} else if t != nil {
					no[nm.Name] = true
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Field:
				note(x.Names, x.Type)
			case *ast.ValueSpec:
				note(x.Names, x.Type)
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					break
				}
				for i, l := range x.Lhs {
					id, ok := l.(*ast.Ident)
					if !ok {
						continue
					}
					isMap := false
					if len(x.Rhs) == len(x.Lhs) {
						switch r := x.Rhs[i].(type) {
						case *ast.CallExpr:
							if fn, ok := r.Fun.(*ast.Ident); ok && fn.Name == "make" && len(r.Args) > 0 {
								_, isMap = r.Args[0].(*ast.MapType)
							}
						case *ast.CompositeLit:
							_, isMap = r.Type.(*ast.MapType)
						}
					}
					if isMap {
						yes[id.Name] = true
					} else {
						no[id.Name] = true
					}
				}
			}
			return true
		})
	}
	for k := range no {
		delete(yes, k)
	}
	return yes
}

func main() {
	repo := flag.String("repo", "/repo", "")
	sim := flag.String("sim", "", "directory of the simulator's sources")
	out := flag.String("out", "", "output directory")
	noMaps := flag.Bool("nomaps", false, "leave ranges over maps alone")
	modgen := flag.Bool("modgen", false, "with the modulus generator")
	race := flag.Bool("race", false, "for the race detector")
	flag.Parse()

	replace := map[string]string{}
	var found []string
	n := 0
	put := func(path string, data []byte) {
		dst := filepath.Join(*out, "src", fmt.Sprintf("%03d_%s", n, filepath.Base(path)))
		n++
		if err := os.WriteFile(dst, data, 0644); err != nil {
			fatal(err)
		}
		replace[path] = dst
	}
	if err := os.MkdirAll(filepath.Join(*out, "src"), 0755); err != nil {
		fatal(err)
	}

	sources := func(dir string) []string {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil
		}
		var l []string
		for _, e := range ents {
			nm := e.Name()
			if e.IsDir() || !strings.HasSuffix(nm, ".go") || strings.HasSuffix(nm, "_test.go") {
				continue
			}
			l = append(l, filepath.Join(dir, nm))
		}
		return l
	}

	// The library proper: every statement is a yield point.
	for _, d := range []string{"jindo", "buckler", "math/csprng", "math/bigpoly"} {
		files := sources(filepath.Join(*repo, d))
		maps := map[string]bool{}
		if !*noMaps {
			maps = mapNames(files)
		}
		for _, p := range files {
			data, fd, err := instrument(p, opts{yield: true, conc: true, maps: maps, pkgName: filepath.Base(d)})
			if err != nil {
				fatal(err)
			}
			found = append(found, fd...)
			put(p, data)
		}
	}

	// The generated fields: only streams, goroutines and randomness; arithmetic is left alone.
	for _, d := range []string{"jindo/internal/zp", "buckler/internal/zp110", "buckler/internal/zp220",
		"buckler/internal/zp440", "buckler/internal/zp880", "examples/bfv/zp", "examples/mult/zp"} {
		files := sources(filepath.Join(*repo, d))
		asm := map[string]bool{}
		if *race {
			asm = asmFuncs(files)
		}
		if len(asm) > 0 {
			put(filepath.Join(*repo, d, "sim_touch_amd64.go"), []byte(asmText(filepath.Base(d))))
		}
		for _, p := range files {
			b, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			s := string(b)
			isVec := strings.Contains(s, "AsyncReadFrom") || strings.Contains(s, "sync.WaitGroup")
			if !isVec && !strings.Contains(s, "\"crypto/rand\"") && !strings.Contains(s, "\"sync\"") && !strings.Contains(s, "go func") &&
				!(len(asm) > 0 && strings.HasSuffix(p, "_amd64.go")) {
				continue
			}
			data, _, err := instrument(p, opts{yield: isVec, conc: true, asm: asm, pkgName: filepath.Base(d)})
			if err != nil {
				fatal(err)
			}
			put(p, data)
		}
	}

	// The modulus generator: a command, as a package.
	if *modgen {
		d := filepath.Join(*repo, "jindo-modulus")
		for _, p := range sources(d) {
			data, _, err := instrument(p, opts{yield: true, main: true, pkgName: "modgen"})
			if err != nil {
				fatal(err)
			}
			put(p, data)
		}
		put(filepath.Join(d, "sim_main.go"), []byte("package modgen\n\n// RunMain runs the command.\nfunc RunMain() { main() }\n"))
	}

	// The simulator's own packages.
	add := func(from, to string) {
		filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				fatal(err)
			}
			if !info.IsDir() && strings.HasSuffix(p, ".go") {
				rel, _ := filepath.Rel(from, p)
				replace[filepath.Join(to, rel)] = p
			}
			return nil
		})
	}
	add(filepath.Join(*sim, "simhook"), filepath.Join(*repo, "simhook"))
	add(filepath.Join(*sim, "jindozp"), filepath.Join(*repo, "jindo/simzp"))
	add(filepath.Join(*sim, "harness"), filepath.Join(*repo, "buckler/ringosim"))

	if *race {
		// The pools inside the standard library (of fmt and math/big) order the threads
		// that happen to reuse an object, which hides races of the code that calls them.
		// Let these pools keep nothing, as they are free to do.
		if b, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
			file := filepath.Join(strings.TrimSpace(string(b)), "src", "sync", "pool.go")
			src, err := os.ReadFile(file)
			const drop = "if runtime_randn(4) == 0 {"
			if err == nil && strings.Count(string(src), drop) == 1 {
				to := filepath.Join(*out, "sync_pool.go")
				s := strings.Replace(string(src), drop, "if runtime_randn(4) < 4 {", 1)
				if err := os.WriteFile(to, []byte(s), 0644); err != nil {
					fatal(err)
				}
				replace[file] = to
			}
		}
	}

	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fatal(err)
	}
	sort.Strings(found)
	if err := os.WriteFile(filepath.Join(*out, "hooks.txt"), []byte(strings.Join(found, "\n")+"\n"), 0644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}
