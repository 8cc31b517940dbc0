package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// logEval is an interpreter for package logument: the document and patch
// packages are opaque (P01 and T05 show that their functions are pure), and
// the receiver's version list is in ascending order (L02, L08).
func logEval(p *Program, opaque ...string) *Eval {
	e := newEval(p)
	e.forgetExit = true
	e.unroll = true
	e.opaque = func(f *ssa.Function) bool {
		pk := fnPkg(f)
		if pk == nil {
			return false
		}
		if strings.HasSuffix(pk.Pkg.Path(), "/tson") || strings.HasSuffix(pk.Pkg.Path(), "/tsonpatch") {
			return !constructor(f)
		}
		for _, o := range opaque {
			if f.RelString(nil) == o || strings.HasSuffix(f.RelString(nil), o) {
				return true
			}
		}
		return false
	}
	// a copy of a document is the same document (T02, T05 and T09)
	e.identity = func(f *ssa.Function) bool { return fullName(f) == modPath+"/"+pkgTson+".Clone" }
	e.ascending = func(t *Term) bool { return fieldOf(t, "Version") }
	return e
}

// fieldOf: t is the initial content of field name of a Logument parameter.
func fieldOf(t *Term, name string) bool {
	if t.op != OField || t.args[0].op != ODeref || t.args[0].args[0].op != OSym {
		return false
	}
	st := structType(t.args[0].typ)
	var i int
	fmt.Sscan(t.aux, &i)
	return st != nil && i < st.NumFields() && st.Field(i).Name() == name
}

func debugComp(p *Program, pkg, name string, opaque ...string) {
	fn := p.fn(pkg, name)
	e := logEval(p, opaque...)
	outs := e.root(fn, e.paramSyms(fn))
	fmt.Println("steps", e.steps, "approx", e.approx, "loops", len(e.loopsByKey), "outcomes", len(outs))
	for _, o := range outs {
		x := &comp{e: e}
		fmt.Println("== outcome:", o.st.pc)
		for _, r := range o.results {
			x.debug(o.st, r, "  ")
		}
		for k, v := range o.st.heap {
			fmt.Println("   heap", k, "=", v)
			if k.op == OSym || k.op == ODeref || k.op == OMapInit {
				x.debugV(o.st, v, "      ")
			}
		}
		for _, f := range x.fails {
			fmt.Println("   FAIL", f)
		}
	}
	for k := range e.problems {
		fmt.Println("PROBLEM", k)
	}
}

func (x *comp) debug(st *State, r *Term, ind string) {
	v := r
	if c, ok := st.heap[r]; ok {
		v = c
	}
	if r.op == OAlloc {
		if p, ok := under(r.typ).(*types.Pointer); ok {
			v = x.e.load(st, r, p.Elem())
		}
	}
	fmt.Println(ind+"value", r, "=", v)
	x.debugV(st, v, ind)
}

func (x *comp) debugV(st *State, v *Term, ind string) {
	if v.op == OStruct {
		for i, a := range v.args {
			fmt.Println(ind+"field", structType(v.typ).Field(i).Name())
			x.debug(st, a, ind+"  ")
		}
		return
	}
	t := v.typ
	isMap := v.op == OMapEmpty || v.op == OInsert || v.op == OMapInit
	if _, ok := under(t).(*types.Map); ok {
		isMap = true
	}
	if isMap {
		for _, g := range x.maps(v) {
			fmt.Println(ind+"  gen", g)
			if g.elem.op != OOpLookup() {
				if _, ok := under(g.elem.typ).(*types.Slice); ok {
					for _, h := range x.inner(g) {
						fmt.Println(ind+"      list", h)
					}
				}
			}
		}
		return
	}
	if _, ok := under(t).(*types.Slice); ok {
		for _, g := range x.list(v) {
			fmt.Println(ind+"  gen", g, "sort", g.sort)
		}
	}
}

func OOpLookup() Op { return OLookup }

// constructor: f only puts its arguments together.
func constructor(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || f.Signature.Recv() != nil || len(f.Params) == 0 {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		switch i := i.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
		case *ssa.Store:
			if _, global := i.Addr.(*ssa.Global); global {
				return false
			}
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}
