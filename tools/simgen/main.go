// simgen translates the Go packages of the system under test (and a few of
// their dependencies) into a copy in which every source of nondeterminism -
// goroutines, channels, select, locks, atomics, clocks, files, sockets,
// randomness, map iteration order and plain shared-memory accesses - goes
// through the deterministic simulator (package verifsim/sim).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const simPath = "github.com/donnie4w/gofer/verifsim"

// dependencies that are translated too (import path -> location below verifsim)
var depTranslate = map[string]string{
	"container/list":                   simPath + "/dep/list",
	"github.com/golang/groupcache/lru": simPath + "/dep/lru",
	"github.com/google/btree":          simPath + "/dep/btree",
	"golang.org/x/net/websocket":       simPath + "/dep/websocket",
}

// whole-package replacements (import path -> stub)
var pkgReplace = map[string]string{
	"github.com/edsrzf/mmap-go": simPath + "/shadow/mmapgo",
	"golang.org/x/exp/mmap":     simPath + "/shadow/expmmap",
}

// symbol-level shadows (import path -> package whose exported names win)
var shadows = map[string]string{
	"sync":                  simPath + "/shadow/sync",
	"sync/atomic":           simPath + "/shadow/atomic",
	"time":                  simPath + "/shadow/time",
	"context":               simPath + "/shadow/context",
	"os":                    simPath + "/shadow/os",
	"io/ioutil":             simPath + "/shadow/ioutil",
	"path/filepath":         simPath + "/shadow/filepath",
	"os/signal":             simPath + "/shadow/signal",
	"net":                   simPath + "/shadow/net",
	"net/http":              simPath + "/shadow/http",
	"crypto/rand":           simPath + "/shadow/crand",
	"crypto/tls":            simPath + "/shadow/tls",
	"math/rand":             simPath + "/shadow/rand",
	"math/rand/v2":          simPath + "/shadow/randv2",
	"hash/maphash":          simPath + "/shadow/maphash",
	"runtime":               simPath + "/shadow/runtime",
	"runtime/debug":         simPath + "/shadow/debug",
	"maps":                  simPath + "/shadow/maps",
	"syscall":               simPath + "/shadow/syscall",
	"golang.org/x/sys/unix": simPath + "/shadow/unix",
	"golang.org/x/exp/maps": simPath + "/shadow/xmaps",
}

var noYieldFile = map[string]bool{} // files without preemption at plain accesses (none)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	DepOnly    bool
	Incomplete bool
	Error      *struct{ Err string }
}

var (
	repo   = flag.String("repo", "/repo", "")
	out    = flag.String("out", "", "output module directory (already holds verifsim/ sources)")
	modf   = flag.String("modfile", "", "modfile for go list")
	gobin  = flag.String("go", "go", "")
	siteNo int
	sites  []string
)

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"simgen:"}, a...)...)
	os.Exit(3)
}

func golist(args ...string) []*pkgInfo {
	cmd := exec.Command(*gobin, append([]string{"list", "-e", "-mod=mod", "-modfile=" + *modf, "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,Imports,ImportMap,DepOnly,Incomplete,Error"}, args...)...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list:", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var r []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		r = append(r, p)
	}
	return r
}

type checked struct {
	info  *pkgInfo
	fset  *token.FileSet
	files []*ast.File
	names []string
	pkg   *types.Package
	ti    *types.Info
}

func main() {
	flag.Parse()
	const mod = "github.com/donnie4w/gofer"
	// 1. repo packages
	var roots []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(*repo, p)
			if rel == "image" || rel == "verifsim" {
				return filepath.SkipDir
			}
			m, _ := filepath.Glob(filepath.Join(p, "*.go"))
			for _, f := range m {
				if !strings.HasSuffix(f, "_test.go") {
					if rel == "." {
						roots = append(roots, ".")
					} else {
						roots = append(roots, "./"+rel)
					}
					break
				}
			}
		}
		return nil
	})
	sort.Strings(roots)
	all := golist(roots...)
	isRepo := func(ip string) bool { return ip == mod || strings.HasPrefix(ip, mod+"/") }
	var ext []string
	for _, p := range all {
		if isRepo(p.ImportPath) {
			if p.ImportPath == mod+"/image" {
				fatal("a package imports image, which cannot be compiled here")
			}
			continue
		}
		ext = append(ext, p.ImportPath)
	}
	for d := range depTranslate {
		ext = append(ext, d)
	}
	// 2. export data of everything external
	exp := map[string]string{}
	byPath := map[string]*pkgInfo{}
	for _, p := range golist(append([]string{"-export"}, ext...)...) {
		byPath[p.ImportPath] = p
		if p.Export != "" {
			exp[p.ImportPath] = p.Export
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", lookup)
	done := map[string]*types.Package{}
	var order []*checked
	// deps first (leaf packages), then the repo in dependency order (go list -deps is topological)
	var todo []*pkgInfo
	var deps []string
	for d := range depTranslate {
		deps = append(deps, d)
	}
	sort.Strings(deps)
	for _, d := range deps {
		if byPath[d] == nil {
			fatal("missing dependency", d)
		}
		todo = append(todo, byPath[d])
	}
	for _, p := range all {
		if isRepo(p.ImportPath) {
			todo = append(todo, p)
		}
	}
	for _, p := range todo {
		c := &checked{info: p, fset: fset}
		for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			c.files = append(c.files, af)
			c.names = append(c.names, f)
		}
		if len(c.files) == 0 {
			continue
		}
		c.ti = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{},
		}
		var terr error
		conf := types.Config{
			Importer: importerFunc(func(path string) (*types.Package, error) {
				if path == "unsafe" {
					return types.Unsafe, nil
				}
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				if t, ok := done[path]; ok {
					return t, nil
				}
				return gc.Import(path)
			}),
			Error: func(err error) {
				if terr == nil {
					terr = err
				}
			},
			GoVersion: "go1.23",
			Sizes:     types.SizesFor("gc", "amd64"),
		}
		if p.Standard {
			conf.GoVersion = ""
		}
		pkg, err := conf.Check(p.ImportPath, fset, c.files, c.ti)
		if err != nil {
			if terr != nil {
				err = terr
			}
			fatal("typecheck", p.ImportPath, err)
		}
		c.pkg = pkg
		if isRepo(p.ImportPath) {
			done[p.ImportPath] = pkg
		}
		// dependency packages stay imported from export data in the original
		// type check; only their emitted copies are remapped
		order = append(order, c)
	}
	loadShadows()
	translated := map[string]bool{}
	for _, c := range order {
		translated[c.info.ImportPath] = true
	}
	var resets []string
	for _, c := range order {
		outPath := c.info.ImportPath
		if d, ok := depTranslate[outPath]; ok {
			outPath = d
		}
		dir := filepath.Join(*out, strings.TrimPrefix(strings.TrimPrefix(outPath, mod), "/"))
		os.MkdirAll(dir, 0755)
		t := &translator{c: c, repoRel: strings.TrimPrefix(strings.TrimPrefix(c.info.ImportPath, mod), "/"), translated: translated}
		t.outPath = outPath
		t.run(dir)
		if c.pkg.Name() != "main" {
			resets = append(resets, outPath)
		}
	}
	// reset registry + site table
	var b strings.Builder
	fmt.Fprintf(&b, "package simmeta\n\nimport (\n\t%q\n", simPath+"/sim")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, r)
	}
	b.WriteString(")\n\nfunc ResetAll() {\n\tsim.NewAddrs()\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tp%d.%s()\n", i, resetName(r))
	}
	b.WriteString("}\n\nvar Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	dir := filepath.Join(*out, "verifsim", "simmeta")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, "meta.go"), []byte(b.String()), 0644); err != nil {
		fatal(err)
	}
}

// resetName is unique per package, since packages may dot-import each other.
func resetName(outPath string) string {
	return "SimReset__" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(strings.TrimPrefix(outPath, "github.com/donnie4w/"))
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

var shadowSyms = map[string]map[string]bool{}

func loadShadows() {
	for ip, sp := range shadows {
		dir := filepath.Join(*out, strings.TrimPrefix(sp, "github.com/donnie4w/gofer/"))
		fs := token.NewFileSet()
		m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		syms := map[string]bool{}
		for _, f := range m {
			af, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						syms[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if s.Name.IsExported() {
								syms[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if n.IsExported() {
									syms[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		if len(syms) > 0 {
			shadowSyms[ip] = syms
		}
	}
}
