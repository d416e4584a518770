package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/strangelove-ventures/horcrux"
const sigPkg = modPath + "/signer"
const protoPkg = modPath + "/signer/proto"
const cmdPkg = modPath + "/cmd/horcrux/cmd"

// Program is the loaded source of the repository.
type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	typs    map[string]*types.Package
	syntax  []*packages.Package
	fns     []*ssa.Function // all functions with a body in the repo (without generated protobuf code)
	inRepo  map[*ssa.Function]bool
	mutable map[string]bool // classes (T.f, []T) that are stored to outside construction
	stores  map[*ssa.Alloc]int
	live    map[*ssa.Function]*liveInfo
	loops   map[*ssa.Function]*loopInfo
	repo    string
}

func load(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir:   repo,
		Tests: false,
		Env:   os.Environ(),
	}
	cfg.Mode = packages.LoadSyntax
	pkgs, err := packages.Load(cfg, "./signer/...", "./cmd/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ssaPkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, typs: map[string]*types.Package{},
		inRepo: map[*ssa.Function]bool{}, mutable: map[string]bool{}, stores: map[*ssa.Alloc]int{},
		live: map[*ssa.Function]*liveInfo{}, loops: map[*ssa.Function]*loopInfo{}, syntax: pkgs, repo: repo}
	for i, sp := range ssaPkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.pkgs[pkgs[i].PkgPath] = sp
	}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if q.Types != nil {
			p.typs[q.PkgPath] = q.Types
		}
	})
	for _, exported := range []bool{true, false} {
		for _, pk := range pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok && tn.Exported() == exported {
					if s := structOf(tn.Type()); s != nil && structOwner[s] == "" {
						structOwner[s] = typeName(tn.Type())
					}
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		for _, im := range sp.Pkg.Imports() {
			p.addImports(im)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 {
			continue
		}
		pk := fnPkg(fn)
		if pk != sigPkg && pk != protoPkg && pk != cmdPkg && pk != modPath+"/cmd/horcrux" {
			continue
		}
		p.inRepo[fn] = true
		if pk == protoPkg {
			continue
		}
		p.fns = append(p.fns, fn)
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.scanStores()
	return p, nil
}

func (p *Program) addImports(im *types.Package) {
	if _, ok := p.typs[im.Path()]; ok {
		return
	}
	p.typs[im.Path()] = im
	for _, d := range im.Imports() {
		p.addImports(d)
	}
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

// class of an address: the struct field or element type it denotes
func fieldClass(structT types.Type, i int) string {
	s := structOf(structT)
	if s == nil {
		return "?"
	}
	return structName(structT) + "." + s.Field(i).Name()
}

// scanStores finds which classes are written after construction.
func (p *Program) scanStores() {
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						p.stores[a]++
					}
					if fv, ok := x.Addr.(*ssa.FreeVar); ok {
						if a := freeVarAlloc(fv); a != nil {
							p.stores[a] += 2 // stored from a closure
						}
					}
					if _, fresh := rootOf(x.Addr).(*ssa.Alloc); fresh {
						continue
					}
					p.markMutable(x.Addr)
				}
			}
		}
	}
}

func freeVarAlloc(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				switch v := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return v
				case *ssa.FreeVar:
					return freeVarAlloc(v)
				}
			}
		}
	}
	return nil
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			// arrays are part of the object, slices are not
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Array); ok {
					v = x.X
					continue
				}
			}
			return v
		default:
			return v
		}
	}
}

func (p *Program) markMutable(addr ssa.Value) {
	for v := addr; ; {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			p.mutable[fieldClass(derefT(x.X.Type()), x.Field)] = true
			if v == addr {
				p.markAll(derefT(x.Type()), 0)
			}
			return
		case *ssa.IndexAddr:
			if v == addr {
				p.markAll(derefT(x.Type()), 0)
			}
			p.mutable["[]"+typKey(derefT(x.Type()))] = true
			return
		case *ssa.Global:
			p.mutable["global "+globalName(x)] = true
			p.markAll(derefT(x.Type()), 0)
			return
		default:
			// whole value behind a pointer
			p.markAll(derefT(v.Type()), 0)
			p.mutable["*"+typKey(derefT(v.Type()))] = true
			return
		}
	}
}

// method finds the method of a dynamic type, if it has a body that can be named.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	if t == genericErrT || t == wrapErrT {
		return nil
	}
	if p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()) == nil {
		return nil
	}
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func globalName(x *ssa.Global) string {
	switch {
	case x.Pkg != nil:
		return x.Pkg.Pkg.Path() + "." + x.Name()
	case x.Object() != nil && x.Object().Pkg() != nil:
		return x.Object().Pkg().Path() + "." + x.Name()
	}
	return x.Name()
}

func (p *Program) markAll(t types.Type, d int) {
	s := structOf(t)
	if s == nil || d > 5 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		p.mutable[fieldClass(t, i)] = true
		p.markAll(s.Field(i).Type(), d+1)
	}
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.repo+"/"), q.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	b := in.Block()
	if b == nil {
		return in.Parent().Pos()
	}
	at := -1
	for i, x := range b.Instrs {
		if x == in {
			at = i
		}
	}
	for i := at; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	for i := at; i < len(b.Instrs) && i >= 0; i++ {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return in.Parent().Pos()
}

// namedType looks a type of the loaded program up ("pkg.T").
func (p *Program) namedType(pkg, name string) types.Type {
	tp := p.typs[pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// calleeName is the resolved name of a called function: pkg.F, (pkg.T).M or invoke pkg.I.M.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		t := c.Value.Type()
		return "invoke " + typeName(t) + "." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return fnName(v)
	case *ssa.Builtin:
		return "builtin " + v.Name()
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if f.Parent() != nil || f.Synthetic != "" && f.Object() == nil {
		return f.String()
	}
	if o, ok := f.Object().(*types.Func); ok {
		return funcName(o)
	}
	return f.String()
}

func funcName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return typeName(t) + "." + o.Name()
	}
	if o.Pkg() != nil {
		return o.Pkg().Path() + "." + o.Name()
	}
	return o.Name()
}
