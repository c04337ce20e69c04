package main

// Loads the package under verification from /repo's working
// tree, type checks it against the Go 1.23 standard library
// and builds its SSA form.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Prog struct {
	fset        *token.FileSet
	pkg         *types.Package
	ssa         *ssa.Package
	prog        *ssa.Program
	sizes       types.Sizes
	alias       map[*ssa.Function]string
	fns         map[string]*ssa.Function // by short name (Type.Method for methods)
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	inits       map[*ssa.Global]bool // initialised once by init, never written after
	dts         map[string]*Sort
	pools       map[*ssa.Global]types.Type
	initWritten map[*ssa.Global]bool
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func loadProg(dir, goroot string) (*Prog, error) {
	bc := build.Default
	bc.GOROOT = goroot
	bc.CgoEnabled = false
	bc.ReleaseTags = nil
	for i := 1; i <= 23; i++ {
		bc.ReleaseTags = append(bc.ReleaseTags, fmt.Sprintf("go1.%d", i))
	}
	build.Default = bc
	fset := token.NewFileSet()
	bp, err := bc.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	p := &Prog{fset: fset, sizes: types.SizesFor("gc", "amd64"), alias: map[*ssa.Function]string{}, fns: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, dts: map[string]*Sort{}, pools: map[*ssa.Global]types.Type{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Sizes: p.sizes, GoVersion: "go1.18"}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	p.pkg, err = conf.Check("github.com/wI2L/jettison", fset, files, info)
	if err != nil {
		return nil, err
	}
	p.prog = ssa.NewProgram(fset, ssa.GlobalDebug)
	seen := map[*types.Package]bool{}
	var add func(q *types.Package)
	add = func(q *types.Package) {
		for _, r := range q.Imports() {
			if !seen[r] {
				seen[r] = true
				p.prog.CreatePackage(r, nil, nil, true)
				add(r)
			}
		}
	}
	add(p.pkg)
	p.ssa = p.prog.CreatePackage(p.pkg, files, info, false)
	p.ssa.Build()
	for _, m := range p.ssa.Members {
		switch x := m.(type) {
		case *ssa.Function:
			p.fns[x.Name()] = x
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						p.fns[x.Name()+"."+f.Name()] = f
					}
				}
			}
		}
	}
	p.findInits()
	return p, nil
}

func (p *Prog) fnName(f *ssa.Function) string {
	if n := p.alias[f]; n != "" {
		return n
	}
	if f.Parent() != nil {
		return p.fnName(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func (p *Prog) allFns() []*ssa.Function {
	var r []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var ns []string
	for n := range p.fns {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		add(p.fns[n])
	}
	return r
}

// findInits finds the globals only written by the package
// initialiser, and the types stored in each pool.
func (p *Prog) findInits() {
	p.inits = map[*ssa.Global]bool{}
	p.initWritten = map[*ssa.Global]bool{}
	for _, m := range p.ssa.Members {
		if g, ok := m.(*ssa.Global); ok {
			p.inits[g] = true
		}
	}
	for _, f := range p.allFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if cf := c.Call.StaticCallee(); cf != nil && cf.String() == "(*sync.Pool).Put" {
						if g, ok := c.Call.Args[0].(*ssa.Global); ok {
							if mi, ok := c.Call.Args[1].(*ssa.MakeInterface); ok {
								p.pools[g] = mi.X.Type()
							}
						}
						continue
					}
				}
				if f.Name() == "init" && f.Synthetic != "" {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue // load
					}
					if u, ok := in.(*ssa.IndexAddr); ok && u.X == g && onlyLoads(u) {
						continue
					}
					if u, ok := in.(*ssa.FieldAddr); ok && u.X == g && onlyLoads(u) {
						continue
					}
					if u, ok := in.(*ssa.Slice); ok && u.X == g {
						continue
					}
					delete(p.inits, g)
				}
			}
		}
	}
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if u, ok := r.(*ssa.UnOp); ok && u.X == v {
			continue
		}
		return false
	}
	return true
}

// loopsOf returns the natural loops of f, by header.
func (p *Prog) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := p.loops[f]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := r[h]
			if l == nil {
				l = &Loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				r[h] = l
			}
			var mark func(x *ssa.BasicBlock)
			mark = func(x *ssa.BasicBlock) {
				if l.body[x] {
					return
				}
				l.body[x] = true
				for _, pr := range x.Preds {
					mark(pr)
				}
			}
			mark(b)
		}
	}
	p.loops[f] = r
	return r
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// ---- sorts of Go types

func isReflectType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "github.com/wI2L/jettison" {
			return ""
		}
		return p.Name()
	})
}

// transparent reports whether the fields of the struct
// type t are modelled.
func transparent(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	switch n.Obj().Pkg().Path() {
	case "github.com/wI2L/jettison":
		return true
	case "reflect":
		return n.Obj().Name() == "StructField"
	}
	return false
}

func (p *Prog) sortOf(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool
		case u.Info()&types.IsString != 0:
			return Bytes
		case u.Kind() == types.Float32:
			return F32
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return F64
		}
		return Int
	case *types.Slice:
		return SeqOf(p.sortOf(u.Elem()))
	case *types.Array:
		return SeqOf(p.sortOf(u.Elem()))
	case *types.Struct:
		if typeName(t) == "bytes.Buffer" {
			return Bytes
		}
		if !transparent(t) {
			return Int
		}
		name := typeName(t)
		if s := p.dts[name]; s != nil {
			return s
		}
		nm := name
		if strings.ContainsAny(nm, " {") {
			nm = fmt.Sprintf("anon%d", len(p.dts))
		}
		s := &Sort{Kind: SDT, Name: nm}
		p.dts[name] = s
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n := f.Name()
			if n == "_" {
				n = fmt.Sprintf("_%d", i)
			}
			s.Fields = append(s.Fields, SField{n, p.sortOf(f.Type())})
			if lo, hi, ok := intRange(f.Type()); ok {
				declRange("sel:"+s.Name+"."+n, lo, hi)
			}
		}
		return s
	}
	return Int
}
