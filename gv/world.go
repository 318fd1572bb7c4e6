package main

// The program under verification and the contracts about it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program with its contracts.
type World struct {
	dir     string
	fset    *token.FileSet
	prog    *ssa.Program
	sp      *Spec
	pkgs    map[string]*types.Package
	tyCache map[string]*STy
	tmu     sync.Mutex
	loops   map[*ssa.Function]*loopInfo
	lmu     sync.Mutex
	globals map[string]int64
	tags    map[string]int64
	tagT    map[int64]types.Type
	byName  map[string]types.Type
	gmu     sync.Mutex
	funcs   map[string]*ssa.Function
	repo    map[*types.Package]bool
	stubB   *ssa.BasicBlock
	guards  map[string][]guardRef
	conts   map[string]*LockDecl
	sol     *Solvers
	prop    string
	timeout int
	models  map[string]*ssa.Function
}

type guardRef struct {
	d   *LockDecl
	all bool
}

type loopInfo struct{ headers map[*ssa.BasicBlock]*loop }

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// Load reads and builds the packages of dir.
func Load(dir, verif string, patterns []string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	// executable models of library functions are loaded as one more package, from memory
	if b, err := os.ReadFile(filepath.Join(verif, "models", "models.go.txt")); err == nil {
		cfg.Overlay = map[string][]byte{filepath.Join(dir, "verifmodels", "models.go"): b}
		patterns = append(append([]string{}, patterns...), "./verifmodels")
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	w := &World{dir: dir, tyCache: map[string]*STy{}, loops: map[*ssa.Function]*loopInfo{}, globals: map[string]int64{},
		tags: map[string]int64{}, tagT: map[int64]types.Type{}, byName: map[string]types.Type{}, funcs: map[string]*ssa.Function{}, pkgs: map[string]*types.Package{}, repo: map[*types.Package]bool{}, models: map[string]*ssa.Function{}}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		w.fset = p.Fset
	}
	prog, _ := ssautil.AllPackages(ps, ssa.GlobalDebug)
	w.prog = prog
	prog.Build()
	for _, p := range prog.AllPackages() {
		n := p.Pkg.Name()
		path := p.Pkg.Path()
		inRepo := strings.HasPrefix(path, "github.com/cybozu-go/aptutil")
		if inRepo {
			w.repo[p.Pkg] = true
		}
		old := w.pkgs[n]
		if old == nil || inRepo || !w.repo[old] && prefPkg(path, old.Path()) {
			if old == nil || !w.repo[old] || !inRepo {
				w.pkgs[n] = p.Pkg
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !w.repo[fn.Pkg.Pkg] {
			continue
		}
		if fn.Synthetic != "" {
			continue
		}
		if fn.Pkg.Pkg.Name() == "verifmodels" {
			if fn.Parent() == nil {
				w.models[strings.ReplaceAll(fn.Name(), "__", ".")] = fn
			}
			continue
		}
		w.funcs[funcKey(fn)] = fn
	}
	return w, nil
}

var wellKnown = map[string]string{"errors": "github.com/pkg/errors", "log": "github.com/cybozu-go/log", "url": "net/url", "heap": "container/heap", "http": "net/http", "path": "path", "json": "encoding/json", "hex": "encoding/hex", "os": "os", "io": "io", "context": "context", "time": "time", "well": "github.com/cybozu-go/well", "strings": "strings", "bytes": "bytes"}

func prefPkg(a, b string) bool {
	n := a[strings.LastIndexByte(a, '/')+1:]
	if w, ok := wellKnown[n]; ok {
		return w == a
	}
	if n2 := b[strings.LastIndexByte(b, '/')+1:]; wellKnown[n2] == b {
		return false
	}
	return len(a) < len(b)
}

// LoadSpecs reads all contract files of a directory.
func (w *World) LoadSpecs(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvs"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	w.sp = newSpec()
	for _, f := range fs {
		if err := w.sp.parseFile(f); err != nil {
			return err
		}
	}
	if err := w.sp.checkNames(); err != nil {
		return err
	}
	w.guards = map[string][]guardRef{}
	w.conts = map[string]*LockDecl{}
	for _, d := range w.sp.locks {
		root := d.typ
		if !strings.Contains(root, ".") {
			root = d.pkg + "." + root
		}
		for _, g := range d.guards {
			switch g.kind {
			case "field":
				if g.e.op == "sel" && g.e.args[0].op == "id" && g.e.args[0].name == "this" {
					k := root + "." + g.e.name
					w.guards[k] = append(w.guards[k], guardRef{d, false})
				}
			case "all":
				n := g.name
				if strings.Count(n, ".") == 1 {
					n = d.pkg + "." + n
				}
				w.guards[n] = append(w.guards[n], guardRef{d, true})
			case "contents":
				if g.e.op == "sel" && g.e.args[0].op == "id" && g.e.args[0].name == "this" {
					w.conts[root+"."+g.e.name] = d
				}
			}
		}
	}
	return nil
}

func (w *World) guardOf(k string) []guardRef      { return w.guards[k] }
func (w *World) contentsOf(k string) *LockDecl    { return w.conts[k] }
func (w *World) contractFor(key string) *Contract { return w.sp.contracts[key] }

var pathAlias = map[string]bool{"Clean": true, "Join": true, "Dir": true, "Base": true, "Ext": true, "IsAbs": true}

func (w *World) alias(key string) string {
	if a, ok := w.sp.aliases[key]; ok {
		return a
	}
	if strings.HasPrefix(key, "filepath.") && pathAlias[key[9:]] {
		return "path." + key[9:]
	}
	return key
}

func (w *World) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && w.repo[fn.Pkg.Pkg]
}

func (w *World) globalID(name string) int64 {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	if id, ok := w.globals[name]; ok {
		return id
	}
	id := int64(len(w.globals) + 1)
	if id > 900 {
		panic(unsup("too many globals"))
	}
	w.globals[name] = id
	return id
}

// regexpOf finds the pattern of a package-level regular expression.
func (w *World) regexpOf(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || t.op != "int" {
		return "", false
	}
	w.gmu.Lock()
	name := ""
	for n, id := range w.globals {
		if fmt.Sprint(id) == t.String() {
			name = n
		}
	}
	w.gmu.Unlock()
	for _, p := range w.prog.AllPackages() {
		f := p.Func("init")
		if f == nil || !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.Pkg.Pkg.Name()+"."+g.Name() != name {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || funcKey(c.Call.StaticCallee()) != "regexp.MustCompile" {
					return "", false
				}
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					return constant.StringVal(k.Value), true
				}
			}
		}
	}
	return "", false
}

func (w *World) tagID(name string) int64 {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	if id, ok := w.tags[name]; ok {
		return id
	}
	id := int64(len(w.tags) + 1)
	w.tags[name] = id
	if !strings.HasPrefix(name, "global.") {
		func() {
			defer func() { recover() }()
			ps := ""
			t := w.goType(name, ps)
			if n, ok := t.(*types.Pointer); ok {
				if nm, ok := n.Elem().(*types.Named); ok && w.repo[nm.Obj().Pkg()] {
					w.tagT[id] = t
				}
			} else if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil && w.repo[nm.Obj().Pkg()] {
				w.tagT[id] = t
			}
		}()
	}
	return id
}

func (w *World) tagType(id int64) types.Type {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	return w.tagT[id]
}

// stub is a block that only returns.
func (w *World) stub() *ssa.BasicBlock {
	if w.stubB == nil {
		w.stubB = &ssa.BasicBlock{Instrs: []ssa.Instruction{&ssa.Return{}}}
	}
	return w.stubB
}

// loopsOf finds the natural loops of a function.
func (w *World) loopsOf(fn *ssa.Function) *loopInfo {
	w.lmu.Lock()
	defer w.lmu.Unlock()
	if l, ok := w.loops[fn]; ok {
		return l
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.headers[h]
			if l == nil {
				l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				li.headers[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	w.loops[fn] = li
	return li
}
