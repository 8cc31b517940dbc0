package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked SSA form of the repository under analysis.
type Program struct {
	effort int // factor of the limits (thorough: more)
	dir    string
	fset   *token.FileSet
	pkgs   []*packages.Package
	prog   *ssa.Program
	spkgs  map[string]*ssa.Package // by path suffix after the module path
	fns    []*ssa.Function         // all functions with a body in the repository
	mod    string
	files  int

	globals map[*ssa.Global]ssa.Value
}

const modPath = "github.com/CAU-CPSS/logument"

func load(dir string, overlay map[string][]byte) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	// the module file must stay as it is
	if _, err := os.Stat(filepath.Join(dir, "go.mod")); err == nil {
		cfg.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if ov := countedLoops(cfg.Fset, pkgs, overlay); ov != nil {
		cfg.Overlay, cfg.Fset = ov, token.NewFileSet()
		if pkgs, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
	}
	p := &Program{effort: 1, dir: dir, fset: cfg.Fset, spkgs: map[string]*ssa.Package{}, mod: modPath}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		p.files += len(pk.GoFiles)
	}
	p.pkgs = pkgs
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.spkgs[strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), p.mod), "/")] = sp
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.inRepo(f) {
			p.fns = append(p.fns, f)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool { return p.fns[i].String() < p.fns[j].String() })
	p.closeKinds()
	return p, nil
}

// countedLoops rewrites loops over the integers below a bound ("for i := range
// n") to loops with a condition, of which the SSA form has its test at the head.
func countedLoops(fset *token.FileSet, pkgs []*packages.Package, overlay map[string][]byte) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	var out map[string][]byte
	for _, pk := range pkgs {
		for _, f := range pk.Syntax {
			name := fset.Position(f.Pos()).Filename
			text, given := overlay[name]
			if !given {
				var err error
				if text, err = os.ReadFile(name); err != nil {
					continue
				}
			}
			var edits []edit
			ast.Inspect(f, func(n ast.Node) bool {
				r, ok := n.(*ast.RangeStmt)
				if !ok || r.Value != nil || r.Key != nil && r.Tok != token.DEFINE {
					return true
				}
				b, ok := pk.TypesInfo.Types[r.X].Type.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				v := "verif__i"
				typ := "int"
				if r.Key != nil {
					id, ok := r.Key.(*ast.Ident)
					if !ok {
						return true
					}
					if id.Name != "_" {
						v = id.Name
						obj := pk.TypesInfo.Defs[id]
						if obj == nil || assigned(pk.TypesInfo, r.Body, obj) {
							return true
						}
					}
				}
				T := pk.TypesInfo.Types[r.X].Type
				if bt, ok := T.(*types.Basic); ok && bt.Info()&types.IsUntyped == 0 {
					typ = bt.Name()
				} else if !ok {
					return true
				}
				x := fset.Position(r.X.Pos()).Offset
				y := fset.Position(r.X.End()).Offset
				bound := fmt.Sprintf("%s(%s)", typ, text[x:y])
				head := fmt.Sprintf("for %s, verif__n := %s(0), %s; %s < verif__n; %s++ ", v, typ, bound, v, v)
				if strings.Contains(head, "\n") {
					return true
				}
				edits = append(edits, edit{fset.Position(r.For).Offset, y, head})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			for _, e := range edits {
				text = append(append(append([]byte{}, text[:e.from]...), e.text...), text[e.to:]...)
			}
			if out == nil {
				out = map[string][]byte{}
				for k, v := range overlay {
					out[k] = v
				}
			}
			out[name] = text
		}
	}
	return out
}

// assigned: the body assigns to the variable or takes its address.
func assigned(info *types.Info, body ast.Node, obj types.Object) (found bool) {
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && info.Uses[id] == obj
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				found = found || is(e)
			}
		case *ast.IncDecStmt:
			found = found || is(n.X)
		case *ast.UnaryExpr:
			found = found || n.Op == token.AND && is(n.X)
		}
		return true
	})
	return
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), p.mod)
}

// closeKinds finds the interfaces that only types of their own package can
// implement, with the implementing types that the program uses.
func (p *Program) closeKinds() {
	sp := p.spkgs["internal/tson"]
	if sp == nil {
		return
	}
	vt := sp.Type("Value")
	if vt == nil {
		return
	}
	it, ok := vt.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	seen := map[string]types.Type{}
	add := func(t types.Type) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return
		}
		if _, ok := t.(*types.Pointer); ok {
			return
		}
		if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil {
			for i := 0; i < n.TypeArgs().Len(); i++ {
				if _, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
					return
				}
			}
		} else if ok && n.TypeParams() != nil {
			return
		}
		if types.Implements(t, it) {
			seen[types.TypeString(t, nil)] = t
		}
	}
	for _, pk := range p.pkgs {
		for _, tv := range pk.TypesInfo.Types {
			if tv.IsType() && tv.Type != nil {
				add(tv.Type)
			}
		}
	}
	var ks []types.Type
	for _, k := range sortedKeys(seen) {
		ks = append(ks, seen[k])
	}
	closedKinds.Set(vt.Type(), ks)
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 { // method
		tn, m := name[:i], name[i+1:]
		ty := sp.Type(tn)
		if ty == nil {
			return nil
		}
		for _, t := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
			sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m)
			if sel != nil {
				f := p.prog.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d:%d", rel, ps.Line, ps.Column)
}

// where locates an instruction, falling back to a neighbour with a position.
func (p *Program) where(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	for _, j := range i.Block().Instrs {
		if j.Pos().IsValid() {
			return p.pos(j.Pos())
		}
	}
	return i.Parent().String()
}
