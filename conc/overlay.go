// Package conc puts the library under a controlled scheduler: it rewrites the
// standard library's sync and sync/atomic so that every synchronisation
// operation first asks a hook, and builds a race-detecting driver with them.
package conc

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

const hookGo = `package atomic

import "unsafe"

// VerifHook is told about synchronisation operations: the kind of operation and
// the object. It returns whether the library under test made the call.
var VerifHook func(op int, p unsafe.Pointer) bool

func VerifTell(op int, p unsafe.Pointer) bool {
	if h := VerifHook; h != nil {
		return h(op, p)
	}
	return false
}
`

// The operations. A point is an operation that may be preempted but never blocks.
const (
	Point = iota
	Lock
	Locked // taken without blocking, by TryLock
	Unlock
	RLock
	RLocked
	RUnlock
	Read // a point that changes nothing
)

const poolGo = `package sync

import (
	"internal/race"
	"sync/atomic"
	"unsafe"
)

// Pool never hands an object of the standard library from one goroutine to
// another, because that would order their steps; objects of the library under
// test are handed on at once.
type Pool struct {
	noCopy noCopy
	n      int
	items  [8]any
	New    func() any
}

var poolRaceHash [128]uint64

func poolRaceAddr(x any) unsafe.Pointer {
	ptr := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	h := uint32((uint64(uint32(ptr)) * 0x85ebca6b) >> 16)
	return unsafe.Pointer(&poolRaceHash[h%uint32(len(poolRaceHash))])
}

func (p *Pool) Put(x any) {
	if x == nil || !atomic.VerifTell(0, unsafe.Pointer(p)) || p.n == len(p.items) {
		return
	}
	if race.Enabled {
		race.ReleaseMerge(poolRaceAddr(x))
	}
	p.items[p.n] = x
	p.n++
}

func (p *Pool) Get() any {
	if atomic.VerifTell(0, unsafe.Pointer(p)) && p.n > 0 {
		p.n--
		x := p.items[p.n]
		p.items[p.n] = nil
		if race.Enabled {
			race.Acquire(poolRaceAddr(x))
		}
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
`

// replaceOnce fails unless old occurs exactly once.
func replaceOnce(s, old, new string) (string, error) {
	if strings.Count(s, old) != 1 {
		return "", fmt.Errorf("%q occurs %d times", old, strings.Count(s, old))
	}
	return strings.Replace(s, old, new, 1), nil
}

// An RWMutex is told by an address inside it, because a Mutex is its first field.
func tell(op int, p string) string {
	return fmt.Sprintf("atomic.VerifTell(%d, unsafe.Pointer(%s))", op, p)
}

// load tells a method header that only loads.
func load(h string) int {
	if strings.Contains(h, ") Load()") {
		return Read
	}
	return Point
}

// patches are the function headers to extend, by file.
func patches(name, s string) (string, error) {
	var err error
	rep := func(old, new string) {
		if err == nil {
			s, err = replaceOnce(s, old, new)
		}
	}
	head := func(sig, stmt string) { rep(sig+" {\n", sig+" {\n\t"+stmt+"\n") }
	imports := func() {
		rep("\tisync \"internal/sync\"\n", "\tisync \"internal/sync\"\n\t\"sync/atomic\"\n\t\"unsafe\"\n")
	}
	switch name {
	case "mutex.go":
		imports()
		head("func (m *Mutex) Lock()", tell(Lock, "m"))
		rep("\treturn m.mu.TryLock()\n", "\t"+tell(Point, "m")+"\n\tok := m.mu.TryLock()\n\tif ok {\n\t\t"+tell(Locked, "m")+"\n\t}\n\treturn ok\n")
		head("func (m *Mutex) Unlock()", "defer "+tell(Unlock, "m"))
	case "rwmutex.go":
		head("func (rw *RWMutex) RLock()", tell(RLock, "(*byte)(unsafe.Add(unsafe.Pointer(rw), 1))"))
		head("func (rw *RWMutex) RUnlock()", "defer "+tell(RUnlock, "(*byte)(unsafe.Add(unsafe.Pointer(rw), 1))"))
		head("func (rw *RWMutex) Lock()", tell(Lock, "(*byte)(unsafe.Add(unsafe.Pointer(rw), 1))"))
		head("func (rw *RWMutex) Unlock()", "defer "+tell(Unlock, "(*byte)(unsafe.Add(unsafe.Pointer(rw), 1))"))
		rep("func (rw *RWMutex) TryRLock() bool {\n", "func (rw *RWMutex) TryRLock() bool {\n\t"+tell(Point, "(*byte)(unsafe.Add(unsafe.Pointer(rw), 1))")+"\n\tok := rw.tryRLock()\n\tif ok {\n\t\t"+tell(RLocked, "rw")+"\n\t}\n\treturn ok\n}\n\nfunc (rw *RWMutex) tryRLock() bool {\n")
		rep("func (rw *RWMutex) TryLock() bool {\n", "func (rw *RWMutex) TryLock() bool {\n\t"+tell(Point, "(*byte)(unsafe.Add(unsafe.Pointer(rw), 1))")+"\n\tok := rw.tryLock()\n\tif ok {\n\t\t"+tell(Locked, "rw")+"\n\t}\n\treturn ok\n}\n\nfunc (rw *RWMutex) tryLock() bool {\n")
	case "once.go":
		rep("import (\n", "import (\n\t\"unsafe\"\n")
		head("func (o *Once) Do(f func())", "if o.done.Load() {\n\t\t"+tell(Read, "o")+"\n\t} else {\n\t\t"+tell(Point, "o")+"\n\t}")
	case "map.go":
		imports()
		re := regexp.MustCompile(`(?m)^(func \(m \*Map\) .* \{)$`)
		if len(re.FindAllString(s, -1)) < 8 {
			return "", fmt.Errorf("map.go: methods not found")
		}
		s = re.ReplaceAllStringFunc(s, func(h string) string {
			if strings.HasPrefix(h, "func (m *Map) Load(") {
				return h + "\n\t" + tell(Read, "m")
			}
			return h + "\n\t" + tell(Point, "m")
		})
	case "atomic/type.go":
		re := regexp.MustCompile(`(?m)^(func \(x \*\w+(?:\[T\])?\) .*?\) *(?:\w+|\*T|\([^)]*\))? *\{)`)
		if n := len(re.FindAllString(s, -1)); n < 40 {
			return "", fmt.Errorf("type.go: %d methods found", n)
		}
		s = re.ReplaceAllStringFunc(s, func(h string) string {
			return fmt.Sprintf("%s VerifTell(%d, unsafe.Pointer(x)); ", h, load(h))
		})
	case "atomic/value.go":
		re := regexp.MustCompile(`(?m)^(func \(v \*Value\) .* \{)$`)
		if n := len(re.FindAllString(s, -1)); n < 4 {
			return "", fmt.Errorf("value.go: %d methods found", n)
		}
		s = re.ReplaceAllStringFunc(s, func(h string) string {
			return fmt.Sprintf("%s\n\tVerifTell(%d, unsafe.Pointer(v))", h, load(h))
		})
	}
	return s, err
}

// WriteOverlay writes the rewritten files below dir and returns the overlay file.
func WriteOverlay(repo, dir string) (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src", "sync")
	replace := map[string]string{}
	put := func(name, text string) error {
		f := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		if old, err := os.ReadFile(f); err != nil || string(old) != text {
			if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
				return err
			}
		}
		replace[filepath.Join(src, name)] = f
		return nil
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	for _, n := range []string{"mutex.go", "rwmutex.go", "once.go", "map.go", "atomic/type.go", "atomic/value.go"} {
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return "", err
		}
		s, err := patches(n, string(b))
		if err != nil {
			return "", fmt.Errorf("%s: %v", n, err)
		}
		if err := put(n, s); err != nil {
			return "", err
		}
	}
	if err := put("pool.go", poolGo); err != nil {
		return "", err
	}
	if err := put("atomic/verifhook.go", hookGo+funcs()); err != nil {
		return "", err
	}
	if err := libFuncs(repo, dir, replace); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

// funcs are told forms of the functions of sync/atomic.
func funcs() string {
	var b strings.Builder
	for _, t := range [][2]string{{"Int32", "int32"}, {"Int64", "int64"}, {"Uint32", "uint32"}, {"Uint64", "uint64"}, {"Uintptr", "uintptr"}, {"Pointer", "unsafe.Pointer"}} {
		f := func(name, params, ret, args string) {
			fmt.Fprintf(&b, "\nfunc Verif%s%s(p *%s%s) %s {\n\tVerifTell(0, unsafe.Pointer(p))\n\t", name, t[0], t[1], params, ret)
			if ret != "" {
				b.WriteString("return ")
			}
			fmt.Fprintf(&b, "%s%s(p%s)\n}\n", name, t[0], args)
		}
		f("Load", "", t[1], "")
		f("Store", ", v "+t[1], "", ", v")
		f("Swap", ", v "+t[1], t[1], ", v")
		f("CompareAndSwap", ", o, n "+t[1], "bool", ", o, n")
		if t[0] != "Pointer" {
			f("Add", ", v "+t[1], t[1], ", v")
			f("And", ", v "+t[1], t[1], ", v")
			f("Or", ", v "+t[1], t[1], ", v")
		}
	}
	return b.String()
}

var funcCall = regexp.MustCompile(`\batomic\.((?:Load|Store|Swap|CompareAndSwap|Add|And|Or)(?:Int32|Int64|Uint32|Uint64|Uintptr|Pointer)\()`)

// libFuncs makes the library call the told forms.
func libFuncs(repo, dir string, replace map[string]string) error {
	return filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "cmd" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !strings.Contains(string(b), "\"sync/atomic\"") || !funcCall.Match(b) {
			return nil
		}
		f := filepath.Join(dir, "lib_"+strings.ReplaceAll(strings.Trim(p, "/"), "/", "_"))
		replace[p] = f
		return os.WriteFile(f, funcCall.ReplaceAll(b, []byte("atomic.Verif$1")), 0o644)
	})
}

// Uncontrolled finds a construct of the library, outside its tests and
// commands, whose blocking the scheduler does not control; "" if there is none.
func Uncontrolled(repo string) (found string) {
	fset := token.NewFileSet()
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil || found != "" {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "cmd" || n == "testdata" || n == "_test") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, ".pb.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			bad := ""
			switch x := n.(type) {
			case *ast.GoStmt:
				bad = "go statement"
			case *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				bad = "channel"
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					bad = "channel"
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "sync" && (x.Sel.Name == "Cond" || x.Sel.Name == "NewCond" || x.Sel.Name == "WaitGroup") {
					bad = "sync." + x.Sel.Name
				}
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" && (x.Sel.Name == "AfterFunc" || x.Sel.Name == "Sleep") {
					bad = "time." + x.Sel.Name
				}
			}
			if bad != "" && found == "" {
				found = fmt.Sprintf("%s at %s", bad, fset.Position(n.Pos()))
			}
			return found == ""
		})
		return nil
	})
	return found
}
