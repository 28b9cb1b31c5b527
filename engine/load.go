package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/schemalex/schemalex"

// harnessConfig is /verif/harness/<prop>/config.json.
type harnessConfig struct {
	// InPkg names directories of /verif/harness/inpkg whose trees are added to the repository.
	InPkg []string `json:"inpkg"`
	// Stubs replaces imports: repository directory -> import path -> stub package name.
	Stubs map[string]map[string]string `json:"stubs"`
	// Copy makes an importable copy of a command: from, to, package.
	Copy []struct {
		From, To, Package string
		Stubs             map[string]string
	} `json:"copy"`
	// Funcs lists functions of the repository the property is anchored in (for the evidence).
	Focus []string `json:"focus"`
	// Bounds describes the bounds per tier, in words.
	Bounds map[string][]string `json:"bounds"`
	// Assumptions and what lies outside the bounds.
	Assumptions []string `json:"assumptions"`
	Steps       int64    `json:"steps"`
}

type env struct {
	repo, verif string
	prop        string
	cfg         harnessConfig
	overlay     map[string][]byte
	harnesses   []string
	pkgPath     string
	dir         string // scratch
}

func newEnv(repo, verif, prop string) (*env, error) {
	e := &env{repo: repo, verif: verif, prop: prop, overlay: map[string][]byte{}}
	low := strings.ToLower(prop)
	hd := filepath.Join(verif, "harness", low)
	if b, err := os.ReadFile(filepath.Join(hd, "config.json")); err == nil {
		if err := json.Unmarshal(b, &e.cfg); err != nil {
			return nil, fmt.Errorf("config.json: %w", err)
		}
	}
	e.pkgPath = modPath + "/internal/vharness/" + low
	if err := e.tree(filepath.Join(verif, "harness", "vsym"), filepath.Join(repo, "internal", "vsym")); err != nil {
		return nil, err
	}
	if err := e.tree(filepath.Join(verif, "harness", "hlib"), filepath.Join(repo, "internal", "vharness", "hlib")); err != nil {
		return nil, err
	}
	if err := e.tree(filepath.Join(verif, "harness", "stub"), filepath.Join(repo, "internal", "vstub")); err != nil {
		return nil, err
	}
	if err := e.tree(hd, filepath.Join(repo, "internal", "vharness", low)); err != nil {
		return nil, err
	}
	for _, n := range e.cfg.InPkg {
		if err := e.tree(filepath.Join(verif, "harness", "inpkg", n), repo); err != nil {
			return nil, err
		}
	}
	for dir, st := range e.cfg.Stubs {
		if dir == "*" {
			if err := e.rewriteAll(st); err != nil {
				return nil, err
			}
			continue
		}
		if err := e.rewriteDir(filepath.Join(repo, dir), filepath.Join(repo, dir), "", st); err != nil {
			return nil, err
		}
	}
	for _, c := range e.cfg.Copy {
		if err := e.rewriteDir(filepath.Join(repo, c.From), filepath.Join(repo, c.To), c.Package, c.Stubs); err != nil {
			return nil, err
		}
	}
	// harness functions: exported, no parameters, named H...
	fset := token.NewFileSet()
	pk, err := parser.ParseDir(fset, hd, nil, 0)
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H") && fd.Type.Params.NumFields() == 0 && fd.Type.Results == nil {
					e.harnesses = append(e.harnesses, fd.Name.Name)
				}
			}
		}
	}
	sort.Strings(e.harnesses)
	if len(e.harnesses) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t%q\n\th %q\n)\n\nfunc main() {\n\tvsym.Main(map[string]func(){\n", vsymPath, e.pkgPath)
	for _, h := range e.harnesses {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h, h)
	}
	sb.WriteString("\t})\n}\n")
	e.overlay[filepath.Join(repo, "internal", "vharness", "zzmain", "main.go")] = []byte(sb.String())
	return e, nil
}

func (e *env) tree(from, to string) error {
	return filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		e.overlay[filepath.Join(to, rel)] = b
		return nil
	})
}

// rewriteAll replaces imports in all packages of the repository that are no commands.
func (e *env) rewriteAll(stubs map[string]string) error {
	return filepath.Walk(e.repo, func(p string, i os.FileInfo, err error) error {
		if err != nil || !i.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(e.repo, p)
		if n := i.Name(); rel == "cmd" || rel == filepath.Join("internal", "cmd") || rel != "." && (n[0] == '.' || n[0] == '_' || n == "testdata") {
			return filepath.SkipDir
		}
		return e.rewriteDir(p, p, "", stubs)
	})
}

// rewriteDir adds the non-test Go files of a directory with some imports replaced by stubs.
func (e *env) rewriteDir(from, to, pkg string, stubs map[string]string) error {
	fs, err := filepath.Glob(filepath.Join(from, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, b, parser.ImportsOnly|parser.ParseComments)
		if err != nil {
			return err
		}
		type edit struct {
			lo, hi int
			s      string
		}
		var eds []edit
		if pkg != "" {
			eds = append(eds, edit{fset.Position(af.Name.Pos()).Offset, fset.Position(af.Name.End()).Offset, pkg})
		}
		for _, im := range af.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if s, ok := stubs[p]; ok {
				eds = append(eds, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, strconv.Quote(modPath + "/internal/vstub/" + s)})
			}
		}
		if len(eds) == 0 && from == to {
			continue
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].lo > eds[j].lo })
		src := string(b)
		for _, d := range eds {
			src = src[:d.lo] + d.s + src[d.hi:]
		}
		e.overlay[filepath.Join(to, filepath.Base(f))] = []byte(src)
	}
	return nil
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off")
	return env
}

// modfile makes scratch copies of go.mod and go.sum so that no command touches the repository's.
func (e *env) modfile() (string, error) {
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.repo, n))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(e.dir, n), b, 0o644); err != nil {
			return "", err
		}
	}
	return filepath.Join(e.dir, "go.mod"), nil
}

type program struct {
	prog  *ssa.Program
	order []*ssa.Package // dependencies first
	main  *ssa.Package
	repo  map[*ssa.Package]bool
}

func (e *env) load() (*program, error) {
	mf, err := e.modfile()
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        e.repo,
		Env:        goEnv(),
		Overlay:    e.overlay,
		BuildFlags: []string{"-modfile=" + mf},
	}
	pkgs, err := packages.Load(cfg, e.pkgPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || p == pkgs[0] {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("the harness does not compile against this tree:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &program{prog: prog, main: spkgs[0], repo: map[*ssa.Package]bool{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		if sp := prog.Package(p.Types); sp != nil {
			pr.order = append(pr.order, sp)
			if strings.HasPrefix(p.PkgPath, modPath) && !strings.Contains(p.PkgPath, "/internal/v") || strings.Contains(p.PkgPath, "/internal/vcmd") {
				pr.repo[sp] = true
			}
		}
	})
	return pr, nil
}

// initAllowed says whether a package's initialiser is run in the model.
func initAllowed(path string) bool {
	first := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		first = path[:i]
	}
	if strings.Contains(first, ".") {
		return true
	}
	switch path {
	case "errors", "io", "bytes", "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "sort", "context", "net/url", "slices", "maps", "math", "math/bits", "path", "path/filepath", "bufio", "io/ioutil", "internal/stringslite", "internal/itoa", "internal/oserror", "io/fs", "hash", "cmp", "iter", "container/list", "container/heap", "text/tabwriter", "encoding/hex", "encoding/base64", "encoding/binary", "html", "flag", "internal/filepathlite", "database/sql/driver", "time":
		return true
	}
	return false
}
