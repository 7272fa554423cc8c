// Package simmod stands in for what the modulus generator asks of its system: its disk, on
// which every operation may fail, tear or be the last one, and its end.
package simmod

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	_ "unsafe" // for linkname

	"github.com/consensys/gnark-crypto/field/generator"
	"github.com/consensys/gnark-crypto/field/generator/config"
)

// Exited is the value that the process panics with when it ends itself.
type Exited struct{ Code int }

// Crashed is the value that the process panics with when the plan ends it.
type Crashed struct{}

// ErrDisk is what a failing disk reports.
var ErrDisk = errors.New("simulated disk failure")

// What happens to an operation.
const (
	None        = iota
	Fail        // it fails, without effect
	FailPartly  // it fails, with part of its effect
	CrashBefore // the process ends before it
	CrashPartly // the process ends in the middle of it
	CrashAfter  // the process ends after it
	NumFaults
)

// FaultNames are the names of these.
var FaultNames = [NumFaults]string{"none", "disk_error", "disk_error_torn", "crash_before", "crash_torn", "crash_after"}

// World is the disk.
type World struct {
	// Root holds all that the process may touch.
	Root string
	// At is the operation (1 is the first) that is faulted, with Kind; Where is how far a torn one gets, in 1/1000.
	At    int
	Kind  int
	Where int
	// Ops are the operations made so far, Fired those that were faulted, Escapes those out of bounds.
	Ops     []string
	Fired   int
	Escapes []string
}

// W is the disk of the process that runs.
var W = &World{}

// op begins an operation and tells what happens to it.
func op(name, path string, out bool) int {
	W.Ops = append(W.Ops, name)
	k := None
	if len(W.Ops) == W.At {
		k = W.Kind
		W.Fired++
	}
	if out && !inside(path) {
		W.Escapes = append(W.Escapes, name+" "+path)
		return Fail
	}
	if k == CrashBefore {
		panic(Crashed{})
	}
	return k
}

func inside(path string) bool {
	abs, err := filepath.Abs(path)
	return err == nil && (abs == W.Root || strings.HasPrefix(abs, W.Root+"/"))
}

func after(k int) {
	if k >= CrashPartly {
		panic(Crashed{})
	}
}

// Exit ends the process.
func Exit(code int) { panic(Exited{code}) }

// Fatal, Fatalf and Fatalln are those of log.
func Fatal(...any)          { panic(Exited{1}) }
func Fatalf(string, ...any) { panic(Exited{1}) }
func Fatalln(...any)        { panic(Exited{1}) }

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	k := op("read "+filepath.Base(name), name, false)
	if k == Fail {
		return nil, ErrDisk
	}
	b, err := os.ReadFile(name)
	if k == FailPartly && err == nil {
		return b[:len(b)*W.Where/1000], ErrDisk
	}
	after(k)
	return b, err
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	k := op("write "+filepath.Base(name), name, true)
	if k == Fail {
		return ErrDisk
	}
	n := len(data)
	if k == FailPartly || k == CrashPartly {
		n = n * W.Where / 1000
	}
	err := os.WriteFile(name, data[:n], perm)
	if k == FailPartly && err == nil {
		return ErrDisk
	}
	after(k)
	return err
}

func plain(name, path string, f func() error) error {
	k := op(name+" "+filepath.Base(path), path, true)
	if k == Fail || k == FailPartly {
		return ErrDisk
	}
	err := f()
	after(k)
	return err
}

func Mkdir(p string, m fs.FileMode) error {
	return plain("mkdir", p, func() error { return os.Mkdir(p, m) })
}
func MkdirAll(p string, m fs.FileMode) error {
	return plain("mkdirall", p, func() error { return os.MkdirAll(p, m) })
}
func Remove(p string) error    { return plain("remove", p, func() error { return os.Remove(p) }) }
func RemoveAll(p string) error { return plain("removeall", p, func() error { return os.RemoveAll(p) }) }
func Rename(a, p string) error { return plain("rename", p, func() error { return os.Rename(a, p) }) }

func file(name, path string, out bool, f func() (*os.File, error)) (*os.File, error) {
	k := op(name+" "+filepath.Base(path), path, out)
	if k == Fail || k == FailPartly {
		return nil, ErrDisk
	}
	h, err := f()
	after(k)
	return h, err
}

func Create(p string) (*os.File, error) {
	return file("create", p, true, func() (*os.File, error) { return os.Create(p) })
}
func Open(p string) (*os.File, error) {
	return file("open", p, false, func() (*os.File, error) { return os.Open(p) })
}
func OpenFile(p string, flag int, perm fs.FileMode) (*os.File, error) {
	return file("openfile", p, flag&(os.O_WRONLY|os.O_RDWR) != 0, func() (*os.File, error) { return os.OpenFile(p, flag, perm) })
}

// What the field generator remembers of the files that its process has written.
//
//go:linkname mARM64 github.com/consensys/gnark-crypto/field/generator.mARM64
var mARM64 sync.Map

//go:linkname mAMD64 github.com/consensys/gnark-crypto/field/generator.mAMD64
var mAMD64 sync.Map

// Start makes w the disk of a new process.
func Start(w *World) {
	W = w
	mARM64.Clear()
	mAMD64.Clear()
}

// GenerateFF is the real generator, whose files arrive on the disk in order.
func GenerateFF(f *config.Field, dir string, options ...generator.Option) error {
	k := op("generate", dir, true)
	if k == Fail {
		return ErrDisk
	}
	had := map[string][]byte{}
	walk(dir, func(p string) { had[p], _ = os.ReadFile(p) })
	err := generator.GenerateFF(f, dir, options...)
	if k == FailPartly || k == CrashPartly {
		var l []string
		walk(dir, func(p string) { l = append(l, p) })
		sort.Strings(l)
		if len(l) > 0 {
			cut := len(l) * W.Where / 1000
			for i, p := range l[cut:] {
				b, _ := os.ReadFile(p)
				switch old, ok := had[p]; {
				case i == 0:
					os.WriteFile(p, b[:len(b)*(W.Where%10)/10], 0644)
				case ok:
					os.WriteFile(p, old, 0644)
				default:
					os.Remove(p)
				}
			}
		}
		if k == FailPartly {
			return fmt.Errorf("generate: %w", ErrDisk)
		}
	}
	after(k)
	return err
}

func walk(dir string, f func(p string)) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			f(p)
		}
		return nil
	})
}
