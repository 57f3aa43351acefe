package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed stub/smtpd.go.txt
var stubFS embed.FS

const smtpdPath = "github.com/siebenmann/smtpd"

// srcImporter type-checks imported packages from GOROOT source without
// function bodies. It needs neither network nor build cache.
type srcImporter struct {
	fset *token.FileSet
	ctx  build.Context
	pkgs map[string]*types.Package
}

func (si *srcImporter) Import(path string) (*types.Package, error) {
	return si.ImportFrom(path, "", 0)
}

func (si *srcImporter) ImportFrom(path, dir string, _ types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := si.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return p, nil
	}
	var files []*ast.File
	name := path
	if path == smtpdPath {
		b, err := stubFS.ReadFile("stub/smtpd.go.txt")
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(si.fset, "smtpd-stub.go", b, 0)
		if err != nil {
			return nil, err
		}
		files = []*ast.File{f}
	} else {
		root := filepath.Join(si.ctx.GOROOT, "src")
		d := filepath.Join(root, path)
		if _, err := os.Stat(d); err != nil {
			d = filepath.Join(root, "vendor", path)
			name = "vendor/" + path
			if _, err := os.Stat(d); err != nil {
				return nil, fmt.Errorf("package %s is not in the standard library", path)
			}
			if p, ok := si.pkgs[name]; ok && p != nil {
				return p, nil
			}
		}
		bp, err := si.ctx.ImportDir(d, 0)
		if err != nil {
			return nil, err
		}
		for _, fn := range bp.GoFiles {
			f, err := parser.ParseFile(si.fset, filepath.Join(d, fn), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
	}
	si.pkgs[path] = nil
	conf := types.Config{Importer: si, IgnoreFuncBodies: true, FakeImportC: true, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64")}
	p, err := conf.Check(name, si.fset, files, nil)
	if p == nil {
		delete(si.pkgs, path)
		return nil, err
	}
	p.MarkComplete()
	si.pkgs[path] = p
	si.pkgs[name] = p
	return p, nil
}

// Prog is the type-checked program under analysis.
type Prog struct {
	dir       string
	fset      *token.FileSet
	pkg       *types.Package
	info      *types.Info
	files     []*ast.File
	ssa       *ssa.Package
	prog      *ssa.Program
	funcs     []*ssa.Function // all source functions incl. methods and closures
	byName    map[string]*ssa.Function
	constMaps map[*ssa.Global]map[string]mapEntry
	globalRO  map[*ssa.Global]bool
	globalIni map[*ssa.Global]ssa.Value // the one value a read-only global gets
	tests     map[*ssa.Function][]*ssa.BinOp
	modCache  map[*ssa.Function]*modSet
	blkLoop   map[*ssa.BasicBlock]bool
	rpo       map[*ssa.BasicBlock]int
	live      map[*ssa.BasicBlock]map[ssa.Value]bool
	loopHead  map[*ssa.BasicBlock]bool
	instrID   map[ssa.Instruction]int
}

type mapEntry struct{ k, v *Term }

func loadProg(dir string) (*Prog, error) {
	fset := token.NewFileSet()
	ctx := build.Default
	ctx.CgoEnabled = false
	ctx.GOOS, ctx.GOARCH = "linux", "amd64"
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	if len(files) == 0 {
		return nil, fmt.Errorf("no Go files in %s", dir)
	}
	si := &srcImporter{fset: fset, ctx: ctx, pkgs: map[string]*types.Package{}}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	var errs []error
	conf := types.Config{Importer: si, Error: func(e error) { errs = append(errs, e) }, Sizes: types.SizesFor("gc", "amd64")}
	pkg, _ := conf.Check("sinksmtp", fset, files, info)
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking: %v (and %d more)", errs[0], len(errs)-1)
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var all []*types.Package
	for _, p := range si.pkgs {
		if p != nil && !seen[p] {
			seen[p] = true
			all = append(all, p)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Path() < all[j].Path() })
	for _, p := range all {
		prog.CreatePackage(p, nil, nil, true)
	}
	sp := prog.CreatePackage(pkg, files, info, false)
	sp.Build()
	P := &Prog{dir: dir, fset: fset, pkg: pkg, info: info, files: files, ssa: sp, prog: prog,
		byName: map[string]*ssa.Function{}, modCache: map[*ssa.Function]*modSet{},
		blkLoop: map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{},
		live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, loopHead: map[*ssa.BasicBlock]bool{},
		instrID: map[ssa.Instruction]int{}}
	P.collect()
	P.findConstMaps()
	return P, nil
}

func (P *Prog) collect() {
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		P.funcs = append(P.funcs, f)
		P.byName[fnName(f)] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range P.ssa.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := P.ssa.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if named, ok := m.Type().(*types.Named); ok {
				for i := 0; i < named.NumMethods(); i++ {
					add(P.prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
}

// fnName gives "f", "T.m" or "f$1".
func fnName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil && f.Parent() == nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func (P *Prog) isRepo(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for p := f.Parent(); p != nil; p = f.Parent() {
		f = p
	}
	if f.Pkg == P.ssa {
		return true
	}
	// synthetic wrappers and instantiations of repo functions have bodies
	if f.Pkg == nil {
		return true
	}
	return false
}

// fn finds a function by name.
func (P *Prog) fn(name string) *ssa.Function { return P.byName[name] }

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (P *Prog) constInt(name string) (int64, bool) {
	c, ok := P.pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	t := mkConstVal(c.Val(), c.Type())
	return t.intVal()
}

// importedConst finds pkg.Name in an imported package.
func (P *Prog) importedConst(path, name string) (int64, bool) {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return mkConstVal(c.Val(), c.Type()).intVal()
			}
		}
	}
	return 0, false
}

// findConstMaps extracts package-level map literals with constant contents
// that are never modified after initialisation.
func (P *Prog) findConstMaps() {
	P.constMaps = map[*ssa.Global]map[string]mapEntry{}
	P.globalRO = map[*ssa.Global]bool{}
	P.globalIni = map[*ssa.Global]ssa.Value{}
	written := map[*ssa.Global]bool{}
	initFn := P.ssa.Func("init")
	for _, f := range P.funcs {
		isInit := f == initFn
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isInit {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						// a load; if a map, check it is not updated
						if x.Op == token.MUL {
							if mapMutated(x, map[ssa.Value]bool{}) {
								written[g] = true
							}
							continue
						}
					}
					written[g] = true
				}
			}
		}
	}
	if initFn == nil {
		return
	}
	maps := map[ssa.Value]map[string]mapEntry{}
	bad := map[ssa.Value]bool{}
	storeCount := map[*ssa.Global]int{}
	for _, b := range initFn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeMap:
				maps[x] = map[string]mapEntry{}
			case *ssa.MapUpdate:
				k, okk := x.Key.(*ssa.Const)
				if !okk {
					bad[x.Map] = true
					continue
				}
				kt := mkConstVal(k.Value, k.Type())
				var vt *Term
				switch v := x.Value.(type) {
				case *ssa.Const:
					vt = mkConstVal(v.Value, v.Type())
				case *ssa.Function:
					vt = mkFn(v)
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
						vt = memTerm(globalTerm(g), epoch0, v.Type())
					}
				}
				if vt == nil {
					bad[x.Map] = true
					continue
				}
				if m := maps[x.Map]; m != nil {
					m[kt.aux] = mapEntry{kt, vt}
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					storeCount[g]++
					P.globalIni[g] = x.Val
					if m, ok := maps[x.Val]; ok && !bad[x.Val] {
						P.constMaps[g] = m
					}
				}
			}
		}
	}
	for g := range P.constMaps {
		if written[g] || storeCount[g] != 1 {
			delete(P.constMaps, g)
		}
	}
	for _, m := range P.ssa.Members {
		if g, ok := m.(*ssa.Global); ok && !written[g] {
			P.globalRO[g] = true
		}
	}
	for g := range P.globalIni {
		if !P.globalRO[g] || storeCount[g] != 1 || P.elemsLeak(g) {
			delete(P.globalIni, g)
		}
	}
}

// elemsLeak: the elements of a global slice may be changed somewhere.
func (P *Prog) elemsLeak(g *ssa.Global) bool {
	if _, ok := derefType(g.Type()).Underlying().(*types.Slice); !ok {
		return false
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != g {
					continue
				}
				for _, r := range *u.Referrers() {
					switch x := r.(type) {
					case *ssa.IndexAddr:
						for _, r2 := range *x.Referrers() {
							if l, ok := r2.(*ssa.UnOp); !ok || l.Op != token.MUL {
								return true
							}
						}
					case *ssa.Call:
						if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							return true
						}
					case *ssa.DebugRef:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// globalVal is the value of a read-only global, if it is known.
func (P *Prog) globalVal(g *ssa.Global) *Term {
	v, ok := P.globalIni[g]
	if !ok {
		return nil
	}
	return P.initVal(v)
}

func (P *Prog) initVal(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return mkConstVal(x.Value, x.Type())
		}
	case *ssa.Function:
		return mkFn(x)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && P.globalRO[g] {
			if t := P.globalVal(g); t != nil {
				return t
			}
			return memTerm(globalTerm(g), epoch0, x.Type())
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		ar, ok := derefType(al.Type()).Underlying().(*types.Array)
		if !ok || ar.Len() > 32 {
			return nil
		}
		es := make([]*Term, ar.Len())
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				k, ok := y.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, r2 := range *y.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok || s.Addr != y {
						return nil
					}
					es[k.Int64()] = P.initVal(s.Val)
				}
			case *ssa.Slice:
			default:
				return nil
			}
		}
		for _, e := range es {
			if e == nil {
				return nil
			}
		}
		return mkSliceLit(es, x.Type())
	}
	return nil
}

// mapMutated reports whether a map value may be updated, or otherwise leaves
// simple lookups.
func mapMutated(v ssa.Value, seen map[ssa.Value]bool) bool {
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return false
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "delete" {
					return true
				}
				continue
			}
			// passed to a repo function: check its parameter
			if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
				for i, a := range x.Call.Args {
					if a == v && i < len(f.Params) && mapMutated(f.Params[i], seen) {
						return true
					}
				}
				continue
			}
			return true
		case *ssa.Phi:
			if mapMutated(x, seen) {
				return true
			}
		}
	}
	return false
}
