// mkoverlay prepares a "go build -overlay" description that
//
//   - adds the deterministic scheduler to a pinned copy of the Go runtime and
//     a few seams to the standard library (scratch copies only), and
//   - inserts a scheduling point before every statement of the code under test
//     (scratch copies only; line numbers are kept), and
//   - places the harness sources at <repo>/internal/verifsim so that they can
//     import internal packages.
//
// Nothing under the repository or GOROOT is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type patch struct {
	file     string
	old, new string
}

var stdPatches = []patch{
	// Per-goroutine simulation state.
	{"runtime/runtime2.go", "\tvalgrindStackID uintptr\n}", "\tvalgrindStackID uintptr\n\n\tsimID   uint32\n\tsimPrio uint32\n}"},
	{"runtime/runtime2.go", "	waitReasonSynctestSelect:        true,\n}", "	waitReasonSynctestSelect:        true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n}"},
	// Scheduler.
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simst.on {\n\t\treturn simRunqget(pp), false\n\t}\n"},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simst.on {\n\t\treturn 0\n\t}\n"},
	{"runtime/proc.go", "\tif preempted && sched.gcwaiting.Load() {\n", "\tif simst.on && gp.bubble != nil {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n"},
	{"runtime/proc.go", "\tnewg.goid = pp.goidcache\n", "\tnewg.goid = pp.goidcache\n\tsimRegister(newg)\n"},
	{"runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
	// The runtime's own randomness.
	{"runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simAuxn(uint32(norder + 1))"},
	{"runtime/sema.go", "s.ticket = cheaprand() | 1", "s.ticket = simAux() | 1"},
	{"runtime/time.go", "t.rand = cheaprand()", "t.rand = simAux()"},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n	for {", "	if simInBubble() {\n		return simnext(&simst.rnd)\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {"},
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i)*7 + 1\n	}\n	globalRand.state.Init(*seed)\n"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n\treturn nanotime()\n", "func internal_sync_nanotime() int64 {\n\treturn simNano()\n"},
	// Scheduling points at synchronisation operations.
	{"runtime/chan.go", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tif block {\n\t\tSimYield()\n\t}\n"},
	{"runtime/chan.go", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tif block {\n\t\tSimYield()\n\t}\n"},
	{"runtime/select.go", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tSimYield()\n\tgp := getg()\n"},
	{"sync/mutex.go", "\tm.mu.Lock()\n", "\truntime.SimYield()\n\tm.mu.Lock()\n"},
	{"sync/mutex.go", "\tm.mu.Unlock()\n", "\tm.mu.Unlock()\n\truntime.SimYield()\n"},
	{"sync/mutex.go", "import (\n", "import (\n\t\"runtime\"\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime.SimYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tdefer runtime.SimYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\truntime.SimYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n\tdefer runtime.SimYield()\n"},
	{"sync/rwmutex.go", "import (\n", "import (\n\t\"runtime\"\n"},
	// Network seam.
	{"net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n"},
	{"net/dial.go", "// A Dialer contains options for connecting to an address.\n", "// SimDial, when set, replaces dialing.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\n\n// A Dialer contains options for connecting to an address.\n"},
	// Run a bubble without a *testing.T.
	{"testing/synctest/synctest.go", "func Wait() {\n", "func Wait() {\n\tsynctest.Wait()\n}\n\n// Run runs f in a bubble.\nfunc Run(f func()) { synctest.Run(f) }\n\nfunc waitOld() {\n"},
	// File-system seam.
	{"os/file.go", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\tif SimOpen != nil {\n\t\tif err := SimOpen(name, flag); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n"},
	{"os/file.go", "func (f *File) Write(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n", "func (f *File) Write(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"write\"); err != nil {\n\t\treturn 0, err\n\t}\n\tif SimWrite != nil {\n\t\tif m, err := SimWrite(f.name, b); err != nil {\n\t\t\tif m > 0 {\n\t\t\t\tf.write(b[:m])\n\t\t\t}\n\t\t\treturn m, err\n\t\t}\n\t}\n"},
	{"os/file.go", "func (f *File) Read(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n", "func (f *File) Read(b []byte) (n int, err error) {\n\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n\tif SimRead != nil {\n\t\tm, err := SimRead(f.name, len(b))\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\tb = b[:min(len(b), m)]\n\t}\n"},
	{"os/dir.go", "func ReadDir(name string) ([]DirEntry, error) {\n", "func ReadDir(name string) ([]DirEntry, error) {\n\tif SimOpen != nil {\n\t\tif err := SimOpen(name, O_RDONLY); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n"},
	{"os/file_posix.go", "func (f *File) Close() error {\n\tif f == nil {\n\t\treturn ErrInvalid\n\t}\n", "func (f *File) Close() error {\n\tif f == nil {\n\t\treturn ErrInvalid\n\t}\n\tif SimClose != nil && f.file != nil {\n\t\tif err := SimClose(f.name); err != nil {\n\t\t\tf.file.close()\n\t\t\treturn err\n\t\t}\n\t}\n"},
	{"os/file.go", "// Name returns the name of the file as presented to Open.\n", "// Simulation hooks: each may fail the operation on the named file.\nvar (\n\tSimOpen  func(name string, flag int) error\n\tSimWrite func(name string, b []byte) (int, error)\n\tSimClose func(name string) error\n\t// SimRead may fail a read or limit it to max bytes.\n\tSimRead func(name string, n int) (max int, err error)\n)\n\n// Name returns the name of the file as presented to Open.\n"},
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	out := flag.String("out", "", "scratch output directory")
	noyield := flag.Bool("noyield", false, "do not instrument the code under test")
	flag.Parse()
	if *out == "" {
		die("-out required")
	}
	gb, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	goroot := strings.TrimSpace(string(gb))
	repl := map[string]string{}
	put := func(target string, data []byte) {
		dst := filepath.Join(*out, "ov", strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			die("%v", err)
		}
		if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, data) {
			if err := os.WriteFile(dst, data, 0o644); err != nil {
				die("%v", err)
			}
		}
		repl[target] = dst
	}

	// 1. Standard library.
	files := map[string]string{}
	for _, p := range stdPatches {
		s, ok := files[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				die("%v", err)
			}
			s = string(b)
		}
		if strings.Count(s, p.old) != 1 {
			die("%s: pattern found %d times, want 1 (unexpected Go version?): %q", p.file, strings.Count(s, p.old), p.old)
		}
		files[p.file] = strings.Replace(s, p.old, p.new, 1)
	}
	for f, s := range files {
		put(filepath.Join(goroot, "src", f), []byte(s))
	}
	rt, err := os.ReadFile(filepath.Join(*verif, "rt", "sim.go"))
	if err != nil {
		die("%v", err)
	}
	put(filepath.Join(goroot, "src/runtime/sim.go"), rt)

	// 2. Code under test: a scheduling point before every statement.
	if !*noyield {
		for _, dir := range []string{".", "xsql", "schema", "migrate", "pkg", "internal"} {
			root := filepath.Join(*repo, dir)
			err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					return err
				}
				if fi.IsDir() {
					if p != root && (dir == "." || fi.Name() == "testdata" || strings.HasPrefix(fi.Name(), ".") || fi.Name() == "verifsim") {
						return filepath.SkipDir
					}
					return nil
				}
				if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
					return nil
				}
				src, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				if dst, ok := instrument(p, src); ok {
					put(p, dst)
				}
				return nil
			})
			if err != nil && !os.IsNotExist(err) {
				die("%v", err)
			}
		}
	}

	// 3. Harness sources.
	hs, err := filepath.Glob(filepath.Join(*verif, "sim", "*.go"))
	if err != nil || len(hs) == 0 {
		die("no harness sources: %v", err)
	}
	for _, h := range hs {
		repl[filepath.Join(*repo, "internal", "verifsim", filepath.Base(h))] = h
	}

	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

const alias = "simrt__"

// instrument inserts scheduling points. Files that do not parse are left to
// the compiler to report.
func instrument(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	call := alias + ".SimYield();"
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			list = append(list, ins{off(s.Pos()), call})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	// Bodies of switch and select hold clauses, not statements: drop the
	// insertions made for those.
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	kept := list[:0]
	for _, i := range list {
		if !clause[i.off] {
			kept = append(kept, i)
		}
	}
	list = kept
	if len(list) == 0 {
		return nil, false
	}
	list = append(list, ins{off(f.Name.End()), "; import " + alias + " \"runtime\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out bytes.Buffer
	last := 0
	for _, i := range list {
		out.Write(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(src[last:])
	return out.Bytes(), true
}
