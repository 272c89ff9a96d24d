package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/rodb-io/rodb"

// Program is /repo's current source (plus the harness overlay) in SSA form.
type Program struct {
	prog      *ssa.Program
	progMu    sync.Mutex
	pkgs      []*packages.Package
	initOrder []*ssa.Package
	redirects map[string]*ssa.Function
	rtErrType types.Type
	loadTime  time.Duration
	npkgs     int
	zeroOK    map[string]bool
	initCache sync.Map
}

// overlayFiles maps /repo/pkg/... paths to the harness files below dir.
func overlayFiles(dir string, keep func(rel string) bool) (map[string]string, error) {
	r := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if keep == nil || keep(rel) {
			r[filepath.Join(repoDir, rel)] = p
		}
		return nil
	})
	return r, err
}

var repoDir = envOr("GOSYMEX_REPO", "/repo")
var verifDir = envOr("GOSYMEX_VERIF", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func loadProgram(groups []string) (*Program, error) {
	t0 := time.Now()
	files, err := overlayFiles(filepath.Join(verifDir, "overlay"), func(rel string) bool {
		if strings.HasPrefix(rel, "pkg/zzcmd/") {
			return false
		}
		if strings.HasPrefix(rel, "pkg/zzh/") {
			g := strings.Split(rel, "/")[2]
			for _, x := range groups {
				if x == g {
					return true
				}
			}
			return false
		}
		return true
	})
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for to, from := range files {
		b, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		ov[to] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOARCH=mips64le", "GOOS=linux", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		BuildFlags: []string{"-tags=sqlite_fts5"},
		Overlay:    ov,
	}
	pats := []string{repoMod + "/pkg/zzmodels", repoMod + "/pkg/zzrt"}
	for _, g := range groups {
		pats = append(pats, repoMod+"/pkg/zzh/"+g)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	p := &Program{pkgs: ps, redirects: map[string]*ssa.Function{}, zeroOK: map[string]bool{}}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		p.npkgs++
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("the code does not compile with the harness:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if sp := prog.Package(pk.Types); sp != nil {
			p.initOrder = append(p.initOrder, sp)
		}
		if pk.PkgPath == modelsPkg || strings.HasPrefix(pk.PkgPath, repoMod+"/pkg/zzh/") {
			for _, f := range pk.Syntax {
				p.readRedirects(prog.Package(pk.Types), f)
			}
		}
	})
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		if t := rp.Type("errorString"); t != nil {
			p.rtErrType = t.Type()
		}
	}
	p.loadTime = time.Since(t0)
	return p, nil
}

// readRedirects: "//sym:redirect KEY..." above a model function makes it replace KEY;
// "//sym:zero GLOBAL..." makes a global of an uninitialised package usable at its zero value.
func (p *Program) readRedirects(sp *ssa.Package, f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if rest, ok := strings.CutPrefix(c.Text, "//sym:redirect "); ok {
				for _, k := range strings.Fields(rest) {
					p.redirects[k] = sp.Func(fd.Name.Name)
				}
			}
			if rest, ok := strings.CutPrefix(c.Text, "//sym:zero "); ok {
				for _, k := range strings.Fields(rest) {
					p.zeroOK[k] = true
				}
			}
		}
	}
}

var initPkgs = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`errors io io/fs unicode unicode/utf8 unicode/utf16 strings strconv internal/strconv bytes sort slices bufio encoding/csv encoding/xml encoding/base64 encoding/binary encoding/hex html path path/filepath
		regexp regexp/syntax net/url math math/bits container/list container/heap cmp iter internal/oserror internal/stringslite internal/bytealg internal/fmtsort context encoding
		golang.org/x/text/encoding golang.org/x/text/encoding/internal golang.org/x/text/encoding/unicode golang.org/x/text/encoding/charmap golang.org/x/text/encoding/ianaindex golang.org/x/text/encoding/japanese golang.org/x/text/transform golang.org/x/text/runes golang.org/x/text/encoding/internal/identifier golang.org/x/text/internal/utf8internal
		github.com/antchfx/xmlquery github.com/antchfx/xpath github.com/golang/groupcache/lru net/textproto gopkg.in/yaml.v2 golang.org/x/net/html/charset internal/filepathlite internal/testlog encoding/json encoding/json/internal encoding/json/internal/jsonopts encoding/json/internal/jsonflags encoding/json/internal/jsonwire encoding/json/jsontext encoding/json/v2 encoding/base32
		golang.org/x/text/encoding/htmlindex golang.org/x/text/language golang.org/x/text/internal/language golang.org/x/text/encoding/simplifiedchinese golang.org/x/text/encoding/traditionalchinese golang.org/x/text/encoding/korean
		mime net/http/internal/ascii net/http/httptest database/sql database/sql/driver github.com/mattn/go-sqlite3`) {
		initPkgs[p] = true
	}
}

func (p *Program) initAllowed(path string) bool {
	return initPkgs[path] || strings.HasPrefix(path, repoMod+"/")
}

func (p *Program) lookupFunc(pkg, name string) *ssa.Function {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(&pathAbort{kind: "unsupported", msg: "package not loaded: " + pkg})
	}
	f := sp.Func(name)
	if f == nil {
		panic(&pathAbort{kind: "unsupported", msg: "function not found: " + pkg + "." + name})
	}
	return f
}

func (p *Program) lookupType(pkg, name string) types.Type {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil || sp.Type(name) == nil {
		panic(&pathAbort{kind: "unsupported", msg: "type not found: " + pkg + "." + name})
	}
	return sp.Type(name).Type()
}

func (p *Program) isTarget(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pk := fn.Pkg
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Pkg
		}
	}
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	return strings.HasPrefix(path, repoMod+"/") && !strings.Contains(path, "/zz")
}

func (p *Program) buildFn(fn *ssa.Function) {}

// Engine: one exploration of one harness.
type Engine struct {
	*Program
	prof     map[string]int
	profMu   sync.Mutex
	deadline time.Time
	stop     atomic.Bool
	maxAlloc int64
	maxSteps int64
	params   map[string]int
	parMu    sync.Mutex
	parSeen  map[string]int
	solverMs int
	maxViol  int
	isKnown  func(*Violation) bool
}

func (e *Engine) expired() bool { return e.stop.Load() || time.Now().After(e.deadline) }

func (e *Engine) noteParam(name string, def int) {
	e.parMu.Lock()
	e.parSeen[name] = def
	e.parMu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
