package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cells: a function over documents is decided for each kind of document that
// it can be given. The kinds are those of the closed interface of documents.

// docKind is one kind of document value.
type docKind struct {
	name string
	T    types.Type // nil for null
	obj  bool
	arr  bool
	leaf bool
	bt   types.Type // type of a leaf's value
	vi   int        // index of its value field
	ti   int        // index of its timestamp field
}

// docKinds lists null, objects, arrays and the leaves.
func docKinds() (iface types.Type, out []docKind) {
	closedKinds.Iterate(func(T types.Type, v any) {
		if iface != nil {
			return
		}
		iface = T
		out = append(out, docKind{name: "null"})
		for _, k := range v.([]types.Type) {
			d := docKind{T: k, vi: -1, ti: -1}
			switch u := k.Underlying().(type) {
			case *types.Map:
				d.name, d.obj = "object", true
			case *types.Slice:
				d.name, d.arr = "array", true
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					switch u.Field(i).Name() {
					case "Value":
						d.vi = i
					case "Timestamp":
						d.ti = i
					}
				}
				if d.vi >= 0 && d.ti >= 0 {
					d.leaf, d.bt = true, u.Field(d.vi).Type()
					d.name = types.TypeString(d.bt, nil)
				}
			}
			if d.name != "" {
				out = append(out, d)
			}
		}
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return
}

// docCell is a document of a known kind.
type docCell struct {
	k    docKind
	t    *Term // the interface value
	v    *Term // its payload
	val  *Term // leaf: the value
	ts   *Term // leaf: the timestamp
	lits []Lit // what makes t a document of the kind, if t is given
}

// symbolic makes a document of the kind.
func (e *Eval) docCell(k docKind, iface types.Type, name string) docCell {
	d := docCell{k: k}
	if k.T == nil {
		d.t = e.in.Zero(iface)
		return d
	}
	d.v = e.in.mk(OSym, k.T, name, nil, nil)
	d.t = e.in.MakeIface(k.T, d.v)
	d.fields(e)
	return d
}

func (d *docCell) fields(e *Eval) {
	if d.k.leaf {
		st := structType(d.k.T)
		d.val = e.in.Field(d.v, d.k.vi, st.Field(d.k.vi).Type())
		d.ts = e.in.Field(d.v, d.k.ti, st.Field(d.k.ti).Type())
	}
}

// as describes the given value under the assumption that it is of the kind.
func (e *Eval) docAs(k docKind, iface types.Type, t *Term) docCell {
	d := docCell{k: k, t: t}
	if k.T == nil {
		d.lits = []Lit{{e.in.Eq(t, e.in.Zero(iface)), true}}
		return d
	}
	d.v = e.in.Unbox(t, k.T)
	d.lits = []Lit{{e.in.TypeIs(t, k.T), true}}
	d.fields(e)
	return d
}

func (c *Conj) withAll(ls []Lit) *Conj {
	for _, l := range ls {
		if c == nil {
			return nil
		}
		c = c.with(l.atom, l.val)
	}
	return c
}

// open lists the literals of c that hold does not decide; ok is false if they
// contradict each other.
func (c *Conj) undecidedBy(hold *Conj) (open []Lit, ok bool) {
	n := hold
	for _, l := range c.lits {
		v, known := n.decide(l.atom)
		switch {
		case !known && always(l):
		case !known:
			open = append(open, l)
			if n = n.with(l.atom, l.val); n == nil {
				return nil, false
			}
		case v != l.val:
			return nil, false
		}
	}
	return open, true
}

// always: l is a fact about a library function.
func always(l Lit) bool {
	a := l.atom
	if l.val || a.op != OLt || a.args[0].op != OLen || a.args[1].op != OLen {
		return false
	}
	f := a.args[1].args[0]
	if f.op != OCall || f.args == nil || f.args[0] != a.args[0].args[0] {
		return false
	}
	switch f.callName() {
	case "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSpace", "strings.TrimSuffix":
		return true
	}
	return false
}

// isError: the error result t is not nil under pc.
func errorResult(pc *Conj, t *Term, in *Interner) (fails, known bool) {
	if t.isNil() {
		return false, true
	}
	if in.knownNonNil(t) {
		return true, true
	}
	v, ok := pc.decide(in.Eq(t, in.Zero(types.Universe.Lookup("error").Type())))
	return !v, ok
}

// stringer for terms in messages
func brief(t any) string {
	s := fmt.Sprint(t)
	s = strings.ReplaceAll(s, "github.com/CAU-CPSS/logument/internal/", "")
	return clip(s, 700)
}

// repoPkgFn: f belongs to the package with the path suffix.
func repoPkgFn(f *ssa.Function, suffix string) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasSuffix(pk.Pkg.Path(), suffix)
}

// failsOnly: every return that is reachable from b, which is entered from
// from, gives an error that is not nil.
func failsOnly(from, b *ssa.BasicBlock) bool {
	if b == nil {
		return false
	}
	found := false
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(from, b *ssa.BasicBlock) bool
	rec = func(from, b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if len(b.Instrs) == 0 {
			return false
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			found = true
			if len(r.Results) == 0 {
				return false
			}
			v := r.Results[len(r.Results)-1]
			if phi, isPhi := v.(*ssa.Phi); isPhi && phi.Block() == b {
				for i, p := range b.Preds {
					if seen[p] || p == from {
						if !surelyError(phi.Edges[i], p, b) {
							return false
						}
					}
				}
				return true
			}
			return isErr(v.Type()) && surelyError(v, b, nil)
		}
		for _, s := range b.Succs {
			if !rec(b, s) {
				return false
			}
		}
		return true
	}
	return rec(from, b) && found
}

// surelyError: v is not nil at the end of b (on the edge to to).
func surelyError(v ssa.Value, b, to *ssa.BasicBlock) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if f := v.Common().StaticCallee(); f != nil {
			switch f.String() {
			case "fmt.Errorf", "errors.New":
				return true
			}
		}
	}
	test := func(p, s *ssa.BasicBlock) bool {
		if len(p.Instrs) == 0 || len(p.Succs) != 2 || p.Succs[0] == p.Succs[1] {
			return false
		}
		c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		op, ok := c.Cond.(*ssa.BinOp)
		if !ok || !(op.X == v && isNilConst(op.Y) || op.Y == v && isNilConst(op.X)) {
			return false
		}
		return op.Op == token.NEQ && p.Succs[0] == s || op.Op == token.EQL && p.Succs[1] == s
	}
	if to != nil && test(b, to) {
		return true
	}
	for ; b != nil; b = b.Idom() {
		if p := b.Idom(); p != nil && len(b.Preds) == 1 && test(p, b) {
			return true
		}
	}
	return false
}
