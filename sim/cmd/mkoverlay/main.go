// mkoverlay writes a `go build -overlay` file that (1) replaces parts of the Go runtime with a
// seeded, single-threaded scheduler (see ../../rt/verif.go) and (2) inserts a yield point before
// every statement of the code under test, read from its current working tree.
//
//	mkoverlay -goroot G -rt DIR -repo /repo -out DIR
//
// DIR receives std/ (patched runtime), repo/ (instrumented sources) and overlay.json.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

type edit struct{ old, new string }

var stdEdits = map[string][]edit{
	"src/runtime/proc.go": {
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif verifPut(gp) {\n\t\treturn\n\t}\n"},
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif verifOn && pp.runnext == 0 && pp.runqhead == pp.runqtail {\n\t\treturn verifGet(), false\n\t}\n"},
		{"\tdropg()\n\tlock(&sched.lock)\n\tglobrunqput(gp)\n\tunlock(&sched.lock)\n\n\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n", "\tdropg()\n\tif verifPut(gp) {\n\t\tschedule()\n\t}\n\tlock(&sched.lock)\n\tglobrunqput(gp)\n\tunlock(&sched.lock)\n\n\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n"},
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif verifOn || verifNoRetake {\n\t\treturn 0\n\t}\n"},
		{"\tnewg.goid = pp.goidcache\n", "\tnewg.goid = pp.goidcache\n\tnewg.verifPrio = 0\n"},
	},
	"src/runtime/runtime2.go": {
		{"\tvalgrindStackID uintptr\n}\n", "\tvalgrindStackID uintptr\n\n\tverifPrio uint64\n}\n"},
		{"\twaitReasonSynctestSelect:        true,\n", "\twaitReasonSynctestSelect:        true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n\twaitReasonSyncWaitGroupWait: true,\n\twaitReasonChanReceive: true,\n\twaitReasonChanSend: true,\n\twaitReasonSelect: true,\n"},
	},
	"src/runtime/debug.go": {
		{"func NumCPU() int {\n", "func NumCPU() int {\n\tif verifOn && verifCfg.CPUs > 0 {\n\t\treturn verifCfg.CPUs\n\t}\n"},
		{"\tlock(&sched.lock)\n\tret := int(gomaxprocs)\n", "\tif n <= 0 && verifOn && verifCfg.CPUs > 0 {\n\t\treturn verifCfg.CPUs\n\t}\n\tlock(&sched.lock)\n\tret := int(gomaxprocs)\n"},
	},
	"src/os/file.go": {
		{"func Readlink(name string) (string, error) {\n\treturn readlink(name)\n", "func Readlink(name string) (string, error) {\n\treal, verifErr := verifPath(\"readlink\", name)\n\tif verifErr != nil {\n\t\treturn \"\", verifErr\n\t}\n\ts, err := readlink(real)\n\treturn s, verifFix(err, name)\n"},
		{"\ttestlog.Open(name)\n\tf, err := openFileNolog(name, flag, perm)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n", "\ttestlog.Open(name)\n\tverifName := name\n\tname, verifErr := verifPath(\"open\", name)\n\tif verifErr != nil {\n\t\treturn nil, verifErr\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n\tif err != nil {\n\t\treturn nil, verifFix(err, verifName)\n\t}\n\tf.name = verifName\n"},
		{"\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n\tn, e := f.read(b)\n", "\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n\tb, verifErr := verifRead(f, b)\n\tif verifErr != nil {\n\t\treturn 0, verifErr\n\t}\n\tn, e := f.read(b)\n"},
	},
	"src/os/stat.go": {
		{"\ttestlog.Stat(name)\n\treturn statNolog(name)\n", "\ttestlog.Stat(name)\n\treal, verifErr := verifPath(\"stat\", name)\n\tif verifErr != nil {\n\t\treturn nil, verifErr\n\t}\n\tfi, err := statNolog(real)\n\treturn fi, verifFix(err, name)\n"},
		{"\ttestlog.Stat(name)\n\treturn lstatNolog(name)\n", "\ttestlog.Stat(name)\n\treal, verifErr := verifPath(\"lstat\", name)\n\tif verifErr != nil {\n\t\treturn nil, verifErr\n\t}\n\tfi, err := lstatNolog(real)\n\treturn fi, verifFix(err, name)\n"},
	},
	"src/runtime/sema.go": {
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif b := getg().bubble; b != nil {\n\t\treturn b.now\n\t}\n"},
	},
	"src/runtime/rand.go": {
		{"\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(i*37 + 11)\n\t}\n"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif verifOn && verifInBubble() {\n\t\treturn verifRandNext()\n\t}\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif verifNoRetake {\n\t\tverifAux += 0x9e3779b97f4a7c15\n\t\treturn uint32(verifMix64(verifAux))\n\t}\n\treturn verifCheapReal()\n}\n\n// verifCheap is the simulated stream, for draws the code under test can observe.\n//\n//go:nosplit\nfunc verifCheap() uint32 {\n\tif verifOn && verifInBubble() {\n\t\treturn uint32(verifRandNext())\n\t}\n\treturn cheaprand()\n}\n\n//go:nosplit\nfunc verifCheapReal() uint32 {\n"},
	},
	// Under the race detector a pool drops items at random. Here it keeps none: repeatable, and what goes
	// through a pool does not order the goroutines that share nothing else.
	"src/sync/pool.go": {
		{"\t\tif runtime_randn(4) == 0 {\n", "\t\tif true {\n"},
	},
	// The hashes of a process are the same in every process.
	"src/hash/maphash/maphash_runtime.go": {
		{"func randUint64() uint64 {\n", "func randUint64() uint64 {\n\tif true {\n\t\treturn 0x9e3779b97f4a7c15\n\t}\n"},
	},
	"src/runtime/select.go": {
		{"\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := verifCheap() % uint32(norder+1)\n"},
	},
	"src/runtime/time.go": {
		{"\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = verifCheap()\n"},
	},
	// Sampling decisions that depend on real contention must not draw from the simulated stream.
	"src/runtime/lock_spinbit.go": {
		{"\t\treturn cheaprandn(rate32) == 0\n", "\t\treturn verifCheapReal()%rate32 == 0\n"},
		{"\tantiStarve := cheaprandn(mutexTailWakePeriod) == 0\n", "\tantiStarve := verifCheapReal()%mutexTailWakePeriod == 0\n"},
	},
	"src/runtime/mprof.go": {
		{"\tif rate <= 0 || (rate > cycles && cheaprand64()%rate > cycles) {\n", "\tif rate <= 0 || (rate > cycles && int64(verifCheapReal())%rate > cycles) {\n"},
		{"\tif cheaprandn(gTrackingPeriod) == 0 {\n", "\tif verifCheapReal()%gTrackingPeriod == 0 {\n"},
		{"uint64(cheaprand64()) % uint64(prev)", "uint64(verifCheapReal()) % uint64(prev)"},
		{"uint64(cheaprand64()) % uint64(cycles)", "uint64(verifCheapReal()) % uint64(cycles)"},
		{"\tif rate > 0 && cheaprand64()%rate == 0 {\n", "\tif rate > 0 && int64(verifCheapReal())%rate == 0 {\n"},
	},
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...); os.Exit(3) }

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func write(path string, b []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	must(os.WriteFile(path, b, 0o644))
}

func main() {
	goroot := flag.String("goroot", "", "")
	rt := flag.String("rt", "", "")
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	extra := flag.String("extra", "", "dir=importpath list of further module dirs to instrument, comma separated")
	flag.Parse()
	repl := map[string]string{}
	for rel, eds := range stdEdits {
		src := filepath.Join(*goroot, rel)
		b, err := os.ReadFile(src)
		must(err)
		s := string(b)
		for _, e := range eds {
			if strings.Count(s, e.old) != 1 {
				die("patch point not found exactly once in %s: %q", rel, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		dst := filepath.Join(*out, "std", rel)
		write(dst, []byte(s))
		repl[src] = dst
	}
	b, err := os.ReadFile(filepath.Join(*rt, "verif.go"))
	must(err)
	dst := filepath.Join(*out, "std/src/runtime/verif.go")
	write(dst, b)
	repl[filepath.Join(*goroot, "src/runtime/verif.go")] = dst

	b, err = os.ReadFile(filepath.Join(*rt, "os_verif.go"))
	must(err)
	dst = filepath.Join(*out, "std/src/os/verif.go")
	write(dst, b)
	repl[filepath.Join(*goroot, "src/os/verif.go")] = dst

	files, stmts := instrumentTree(*repo, filepath.Join(*out, "repo"), repl)
	if *extra != "" {
		for i, d := range strings.Split(*extra, ",") {
			f, s := instrumentTree(d, filepath.Join(*out, fmt.Sprintf("extra%d", i)), repl)
			files += f
			stmts += s
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	write(filepath.Join(*out, "overlay.json"), js)
	fmt.Printf("instrumented files=%d yieldpoints=%d\n", files, stmts)
}

func instrumentTree(root, out string, repl map[string]string) (nf, ns int) {
	var paths []string
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			if p != root {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			paths = append(paths, p)
		}
		return nil
	}))
	sort.Strings(paths)
	ctx := build.Default
	for _, p := range paths {
		if ok, err := ctx.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(p)
		must(err)
		res, n, err := instrument(p, src)
		if err != nil {
			// leave the file to the compiler, which reports it
			continue
		}
		if n == 0 {
			continue
		}
		rel, _ := filepath.Rel(root, p)
		dst := filepath.Join(out, rel)
		write(dst, res)
		repl[p] = dst
		nf++
		ns += n
	}
	return
}

func instrument(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.VAR && slices.Contains(f.Decls, ast.Decl(n)) {
				return false // what a pool makes: a pool drops items at random under the race detector
			}
		case *ast.CompositeLit:
			if t, ok := n.Type.(*ast.SelectorExpr); ok && t.Sel.Name == "Pool" {
				return false
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	// offsets via //line directives are avoided by using the file's own base
	if len(at) == 0 {
		return src, 0, nil
	}
	base := fset.File(f.Pos()).Base()
	type cut struct {
		from, to int // bytes that are replaced
		text     string
		order    int
	}
	var cuts []cut
	for _, o := range at {
		cuts = append(cuts, cut{o, o, "verifrt.VerifYield();", 0})
	}
	// an update of shared memory is split into its read and its write, with a yield point between them
	for _, u := range updates(f) {
		off := func(p token.Pos) int { return int(p) - base }
		x := string(src[off(u.x.Pos()):off(u.x.End())])
		tail := ";verifrt.VerifYield();" + x + "=verifTmp}"
		switch s := u.s.(type) {
		case *ast.IncDecStmt:
			cuts = append(cuts, cut{off(s.Pos()), off(s.End()), "{verifTmp:=" + x + s.Tok.String()[:1] + "1" + tail, 1})
		case *ast.AssignStmt:
			if s.Tok == token.ASSIGN {
				cuts = append(cuts, cut{off(s.Pos()), off(s.Rhs[0].Pos()), "{verifTmp:=", 1}, cut{off(s.End()), off(s.End()), tail, -1})
			} else {
				cuts = append(cuts, cut{off(s.Pos()), off(s.Rhs[0].Pos()), "{verifTmp:=" + x + strings.TrimSuffix(s.Tok.String(), "=") + "(", 1}, cut{off(s.End()), off(s.End()), ")" + tail, -1})
			}
		}
		at = append(at, 0)
	}
	sort.SliceStable(cuts, func(i, j int) bool {
		if cuts[i].from != cuts[j].from {
			return cuts[i].from < cuts[j].from
		}
		return cuts[i].order < cuts[j].order
	})
	var buf bytes.Buffer
	prev := int(f.Name.End()) - base
	buf.Write(src[:prev])
	buf.WriteString(`; import verifrt "runtime"`)
	for _, c := range cuts {
		buf.Write(src[prev:c.from])
		buf.WriteString(c.text)
		prev = c.to
	}
	buf.Write(src[prev:])
	return buf.Bytes(), len(at), nil
}

type update struct {
	s ast.Stmt
	x ast.Expr
}

// updates finds the statements that read and write one variable that other goroutines may share: a field, what a
// pointer leads to, or a variable of an enclosing function.
func updates(f *ast.File) (out []update) {
	var lits []map[string]bool // the names each enclosing function literal declares
	var visit func(n ast.Node)
	plain := func(x ast.Expr) bool {
		ok := true
		ast.Inspect(x, func(n ast.Node) bool {
			switch n.(type) {
			case nil, *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr, *ast.IndexExpr, *ast.BasicLit:
			default:
				ok = false
			}
			return ok
		})
		return ok
	}
	shared := func(x ast.Expr) bool {
		if !plain(x) {
			return false
		}
		for {
			switch y := x.(type) {
			case *ast.ParenExpr:
				x = y.X
			case *ast.IndexExpr:
				x = y.X
			case *ast.Ident:
				return y.Name != "_" && len(lits) > 0 && !lits[len(lits)-1][y.Name]
			default:
				return true
			}
		}
	}
	same := func(a, b ast.Expr) bool {
		return types.ExprString(a) == types.ExprString(b)
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.IncDecStmt:
				if shared(s.X) {
					out = append(out, update{s, s.X})
				}
			case *ast.AssignStmt:
				if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !shared(s.Lhs[0]) {
					continue
				}
				if s.Tok == token.ASSIGN {
					c, ok := s.Rhs[0].(*ast.CallExpr)
					if !ok || len(c.Args) == 0 {
						continue
					}
					if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "append" || !same(c.Args[0], s.Lhs[0]) {
						continue
					}
				}
				out = append(out, update{s, s.Lhs[0]})
			}
		}
	}
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				names := map[string]bool{}
				declared(m, names)
				lits = append(lits, names)
				visit(m.Body)
				lits = lits[:len(lits)-1]
				return false
			case *ast.BlockStmt:
				stmts(m.List)
			case *ast.CaseClause:
				stmts(m.Body)
			case *ast.CommClause:
				stmts(m.Body)
			}
			return true
		})
	}
	visit(f)
	return out
}

// declared collects the names that a function literal declares.
func declared(l *ast.FuncLit, names map[string]bool) {
	ast.Inspect(l, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return n == l
		case *ast.Field:
			for _, id := range n.Names {
				names[id.Name] = true
			}
		case *ast.ValueSpec:
			for _, id := range n.Names {
				names[id.Name] = true
			}
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE {
				for _, x := range n.Lhs {
					if id, ok := x.(*ast.Ident); ok {
						names[id.Name] = true
					}
				}
			}
		case *ast.RangeStmt:
			if n.Tok == token.DEFINE {
				for _, x := range []ast.Expr{n.Key, n.Value} {
					if id, ok := x.(*ast.Ident); ok {
						names[id.Name] = true
					}
				}
			}
		}
		return true
	})
}
