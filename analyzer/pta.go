package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Points-to and effect analysis: inclusion-based, field-sensitive, cloned per
// call string (recursion merged), from one root function whose parameters
// reference unknown caller-owned objects.

type PObj struct {
	id     int
	label  string
	typ    types.Type // type of the content; for boxes the dynamic type
	ext    bool       // owned by the caller or global
	wild   bool       // interface content of unknown dynamic type
	box    bool
	parent *PObj
	fn     *ssa.Function // function objects
	pos    token.Pos
}

type PLoc struct {
	o    *PObj
	path string
}

func (l PLoc) String() string { return l.o.label + l.path }

type pslot struct {
	o    *PObj
	path string
}

type pset map[PLoc]bool

type PCtx struct {
	id     int
	fn     *ssa.Function
	parent *PCtx
	site   ssa.Instruction
}

func (c *PCtx) stack(p *Program) string {
	var s []string
	for x := c; x != nil; x = x.parent {
		n := x.fn.Name()
		if x.site != nil {
			n += " (called at " + p.where(x.site) + ")"
		}
		s = append(s, n)
	}
	return strings.Join(s, " < ")
}

type Effect struct {
	loc   PLoc
	kind  string // store, insert, delete, append, sort, copy, unknown
	instr ssa.Instruction
	ctx   *PCtx
}

type PTA struct {
	p       *Program
	slots   map[pslot]pset
	objs    map[string]*PObj
	regs    map[string]*PObj
	ctxs    map[string]*PCtx
	list    []*PCtx
	root    *PCtx
	changed bool
	effects map[string]*Effect
	notes   map[string]bool
	done    map[pslot]bool
	rounds  int
}

func newPTA(p *Program, root *ssa.Function) *PTA {
	a := &PTA{p: p, slots: map[pslot]pset{}, objs: map[string]*PObj{}, regs: map[string]*PObj{}, ctxs: map[string]*PCtx{}, effects: map[string]*Effect{}, notes: map[string]bool{}, done: map[pslot]bool{}}
	a.root = a.ctx(nil, nil, root)
	for _, pr := range root.Params {
		a.bindExt(pr)
	}
	for a.changed = true; a.changed && a.rounds < 200; a.rounds++ {
		a.changed = false
		for i := 0; i < len(a.list); i++ {
			a.function(a.list[i])
		}
	}
	return a
}

func (a *PTA) bindExt(pr *ssa.Parameter) {
	E := a.obj("param:"+pr.Name(), pr.Type(), func(o *PObj) { o.ext = true; o.label = pr.Name() })
	R := a.reg(a.root, pr)
	for _, lp := range leafPaths(pr.Type()) {
		a.addAll(pslot{R, lp.path}, a.get(pslot{E, lp.path}, lp.typ))
	}
}

func (a *PTA) ctx(parent *PCtx, site ssa.Instruction, fn *ssa.Function) *PCtx {
	depth := 0
	for c := parent; c != nil; c = c.parent {
		if c.fn == fn {
			return c
		}
		depth++
	}
	k := fmt.Sprintf("%p", fn)
	if parent != nil && depth < 12 {
		k = fmt.Sprintf("%d|%p|%p", parent.id, site, fn)
	}
	if c, ok := a.ctxs[k]; ok {
		return c
	}
	c := &PCtx{id: len(a.list) + 1, fn: fn, parent: parent, site: site}
	a.ctxs[k] = c
	a.list = append(a.list, c)
	a.changed = true
	return c
}

func (a *PTA) obj(key string, typ types.Type, init func(*PObj)) *PObj {
	if o, ok := a.objs[key]; ok {
		return o
	}
	o := &PObj{id: len(a.objs) + 1, typ: typ, label: key}
	if init != nil {
		init(o)
	}
	a.objs[key] = o
	a.changed = true
	return o
}

func (a *PTA) reg(c *PCtx, v ssa.Value) *PObj {
	k := fmt.Sprintf("%d|%p", c.id, v)
	if o, ok := a.regs[k]; ok {
		return o
	}
	o := &PObj{id: -len(a.regs) - 1, label: v.Name(), typ: v.Type()}
	a.regs[k] = o
	return o
}

type leafPath struct {
	path string
	typ  types.Type
}

func leafPaths(t types.Type) []leafPath { return leafPathsN(t, 0) }

func leafPathsN(t types.Type, depth int) (r []leafPath) {
	if depth > 6 {
		return nil
	}
	sub := func(prefix string, ft types.Type) {
		for _, l := range leafPathsN(ft, depth+1) {
			r = append(r, leafPath{prefix + l.path, l.typ})
		}
	}
	if tt, ok := t.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			sub(fmt.Sprintf("#%d", i), tt.At(i).Type())
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			sub("."+u.Field(i).Name(), u.Field(i).Type())
		}
	case *types.Array:
		sub("[*]", u.Elem())
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []leafPath{{"", t}}
	}
	return
}

func (a *PTA) add(s pslot, l PLoc) {
	m := a.slots[s]
	if m == nil {
		m = pset{}
		a.slots[s] = m
	}
	if !m[l] {
		m[l] = true
		a.changed = true
	}
}

func (a *PTA) addAll(s pslot, x pset) {
	for l := range x {
		a.add(s, l)
	}
}

// extType finds an enclosing external object with the same content type.
func (a *PTA) child(parent *PObj, path string, typ types.Type, box, wild bool) *PObj {
	n := 0
	for o := parent; o != nil; o = o.parent {
		if o.box == box && o.wild == wild && types.Identical(o.typ, typ) && !strings.HasPrefix(o.label, "\x00") {
			return o
		}
		n++
	}
	key := fmt.Sprintf("child|%d|%s|%s|%v", parent.id, path, types.TypeString(typ, nil), box)
	return a.obj(key, typ, func(o *PObj) {
		o.ext, o.parent, o.box, o.wild = parent.ext, parent, box, wild
		o.label = parent.label + path
	})
}

// get is the content of a slot; contents of caller-owned objects are created on demand.
func (a *PTA) get(s pslot, t types.Type) pset {
	if (s.o.ext || s.o.wild) && !a.done[s] {
		a.done[s] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			a.add(s, PLoc{a.child(s.o, s.path+"*", u.Elem(), false, false), ""})
		case *types.Slice, *types.Map, *types.Chan:
			a.add(s, PLoc{a.child(s.o, s.path, t, false, false), ""})
		case *types.Interface:
			if ks, ok := closedKinds.At(t).([]types.Type); ok {
				for _, k := range ks {
					a.add(s, PLoc{a.child(s.o, s.path, k, true, false), ""})
				}
			} else {
				a.add(s, PLoc{a.child(s.o, s.path, t, true, true), ""})
			}
		}
	}
	return a.slots[s]
}

// val is the points-to set of one leaf of a value as seen in block b.
func (a *PTA) val(c *PCtx, v ssa.Value, path string, t types.Type, b *ssa.BasicBlock) pset {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		o := a.obj("global:"+v.String(), v.Type().Underlying().(*types.Pointer).Elem(), func(o *PObj) { o.ext = true; o.label = v.Name() })
		return pset{PLoc{o, ""}: true}
	case *ssa.Function:
		o := a.obj(fmt.Sprintf("func:%p", v), v.Type(), func(o *PObj) { o.fn = v })
		return pset{PLoc{o, ""}: true}
	case *ssa.Builtin:
		return nil
	}
	r := a.get(pslot{a.reg(c, v), path}, t)
	if path == "" && b != nil && isIface(v.Type()) {
		only, not := typeFacts(v, b)
		if only != nil || len(not) > 0 {
			f := pset{}
			for l := range r {
				if !l.o.box || l.o.wild {
					f[l] = true
					continue
				}
				keep := true
				if only != nil && !isIface(only) && !types.Identical(l.o.typ, only) {
					keep = false
				}
				for _, n := range not {
					if types.Identical(l.o.typ, n) {
						keep = false
					}
				}
				if keep {
					f[l] = true
				}
			}
			return f
		}
	}
	return r
}

// typeFacts: what the dominating type tests say about the interface value v in block b.
func typeFacts(v ssa.Value, b *ssa.BasicBlock) (only types.Type, not []types.Type) {
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		if len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		ex, ok := iff.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || ta.X != v {
			continue
		}
		if x == d.Succs[0] && len(x.Preds) == 1 {
			if only == nil {
				only = ta.AssertedType
			}
		} else if x == d.Succs[1] && len(x.Preds) == 1 {
			not = append(not, ta.AssertedType)
		}
	}
	return
}

func (a *PTA) copyVal(c *PCtx, dst pslot, v ssa.Value, t types.Type, b *ssa.BasicBlock) {
	for _, lp := range leafPaths(t) {
		a.addAll(pslot{dst.o, dst.path + lp.path}, a.val(c, v, lp.path, lp.typ, b))
	}
}

func (a *PTA) effect(l PLoc, kind string, in ssa.Instruction, c *PCtx) {
	if !l.o.ext {
		return
	}
	k := fmt.Sprintf("%d|%s|%s|%p", l.o.id, l.path, kind, in)
	if a.effects[k] == nil {
		a.effects[k] = &Effect{l, kind, in, c}
	}
}

// load copies the content at the locations of ptrs into dst.
func (a *PTA) loadInto(dst pslot, ptrs pset, suffix string, t types.Type) {
	for l := range ptrs {
		for _, lp := range leafPaths(t) {
			a.addAll(pslot{dst.o, dst.path + lp.path}, a.get(pslot{l.o, l.path + suffix + lp.path}, lp.typ))
		}
	}
}

func (a *PTA) function(c *PCtx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(c, b, in)
		}
	}
}

func (a *PTA) fresh(c *PCtx, in ssa.Instruction, tag string, t types.Type) *PObj {
	return a.obj(fmt.Sprintf("alloc|%d|%p|%s", c.id, in, tag), t, func(o *PObj) {
		o.label = fmt.Sprintf("new(%s)", a.p.pos(in.Pos()))
		o.pos = in.Pos()
	})
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (a *PTA) instr(c *PCtx, b *ssa.BasicBlock, in ssa.Instruction) {
	vv := func(v ssa.Value) pset { return a.val(c, v, "", v.Type(), b) }
	switch in := in.(type) {
	case *ssa.Alloc:
		o := a.fresh(c, in, "", elemOf(in.Type()))
		a.add(pslot{a.reg(c, in), ""}, PLoc{o, ""})
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for l := range vv(in.X) {
			a.add(pslot{a.reg(c, in), ""}, PLoc{l.o, l.path + "." + st.Field(in.Field).Name()})
		}
	case *ssa.IndexAddr:
		for l := range vv(in.X) {
			a.add(pslot{a.reg(c, in), ""}, PLoc{l.o, l.path + "[*]"})
		}
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		for _, lp := range leafPaths(in.Type()) {
			a.addAll(pslot{a.reg(c, in), lp.path}, a.val(c, in.X, "."+st.Field(in.Field).Name()+lp.path, lp.typ, b))
		}
	case *ssa.Index:
		for _, lp := range leafPaths(in.Type()) {
			a.addAll(pslot{a.reg(c, in), lp.path}, a.val(c, in.X, "[*]"+lp.path, lp.typ, b))
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			a.loadInto(pslot{a.reg(c, in), ""}, vv(in.X), "", in.Type())
		} else if in.Op == token.ARROW {
			p := ""
			if in.CommaOk {
				p = "#0"
			}
			a.loadInto(pslot{a.reg(c, in), p}, vv(in.X), "[*]", elemOf(in.X.Type()))
		}
	case *ssa.Store:
		for l := range vv(in.Addr) {
			a.effect(l, "store", in, c)
			a.copyVal(c, pslot{l.o, l.path}, in.Val, in.Val.Type(), b)
		}
	case *ssa.MapUpdate:
		for l := range vv(in.Map) {
			a.effect(l, "insert", in, c)
			a.copyVal(c, pslot{l.o, l.path + "[k]"}, in.Key, in.Key.Type(), b)
			a.copyVal(c, pslot{l.o, l.path + "[v]"}, in.Value, in.Value.Type(), b)
		}
	case *ssa.Lookup:
		m, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		p := ""
		if in.CommaOk {
			p = "#0"
		}
		a.loadInto(pslot{a.reg(c, in), p}, vv(in.X), "[v]", m.Elem())
	case *ssa.Range:
		a.addAll(pslot{a.reg(c, in), ""}, vv(in.X))
	case *ssa.Next:
		rg, _ := in.Iter.(*ssa.Range)
		if rg == nil || in.IsString {
			return
		}
		if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
			a.loadInto(pslot{a.reg(c, in), "#1"}, vv(rg.X), "[k]", m.Key())
			a.loadInto(pslot{a.reg(c, in), "#2"}, vv(rg.X), "[v]", m.Elem())
		}
	case *ssa.Slice:
		a.addAll(pslot{a.reg(c, in), ""}, vv(in.X))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.add(pslot{a.reg(c, v), ""}, PLoc{a.fresh(c, in, "", v.Type()), ""})
	case *ssa.MakeClosure:
		o := a.obj(fmt.Sprintf("clo|%d|%p", c.id, in), in.Type(), func(o *PObj) { o.fn = in.Fn.(*ssa.Function) })
		for i, bd := range in.Bindings {
			a.copyVal(c, pslot{o, fmt.Sprintf("$%d", i)}, bd, bd.Type(), b)
		}
		a.add(pslot{a.reg(c, in), ""}, PLoc{o, ""})
	case *ssa.MakeInterface:
		o := a.obj(fmt.Sprintf("box|%d|%p", c.id, in), in.X.Type(), func(o *PObj) { o.box = true; o.label = "box(" + a.p.pos(in.Pos()) + ")" })
		a.copyVal(c, pslot{o, ""}, in.X, in.X.Type(), b)
		a.add(pslot{a.reg(c, in), ""}, PLoc{o, ""})
	case *ssa.ChangeInterface:
		a.addAll(pslot{a.reg(c, in), ""}, vv(in.X))
	case *ssa.ChangeType:
		a.copyVal(c, pslot{a.reg(c, in), ""}, in.X, in.Type(), b)
	case *ssa.Convert:
		if _, ok := in.Type().Underlying().(*types.Slice); ok {
			if isString(in.X.Type()) {
				a.add(pslot{a.reg(c, in), ""}, PLoc{a.fresh(c, in, "", in.Type()), ""})
				return
			}
		}
		a.copyVal(c, pslot{a.reg(c, in), ""}, in.X, in.Type(), b)
	case *ssa.TypeAssert:
		p := ""
		if in.CommaOk {
			p = "#0"
		}
		R := a.reg(c, in)
		for l := range vv(in.X) {
			if isIface(in.AssertedType) {
				if l.o.wild || types.Implements(l.o.typ, in.AssertedType.Underlying().(*types.Interface)) {
					a.add(pslot{R, p}, l)
				}
				continue
			}
			if l.o.wild {
				ch := a.child(l.o, "", in.AssertedType, true, false)
				a.loadInto(pslot{R, p}, pset{PLoc{ch, ""}: true}, "", in.AssertedType)
			} else if types.Identical(l.o.typ, in.AssertedType) {
				a.loadInto(pslot{R, p}, pset{l: true}, "", in.AssertedType)
			}
		}
	case *ssa.Phi:
		for i, ev := range in.Edges {
			a.copyVal(c, pslot{a.reg(c, in), ""}, ev, in.Type(), b.Preds[i])
		}
	case *ssa.Extract:
		for _, lp := range leafPaths(in.Type()) {
			a.addAll(pslot{a.reg(c, in), lp.path}, a.val(c, in.Tuple, fmt.Sprintf("#%d", in.Index)+lp.path, lp.typ, b))
		}
	case *ssa.Return:
		for i, r := range in.Results {
			a.copyVal(c, pslot{a.ret(c), fmt.Sprintf("#%d", i)}, r, r.Type(), b)
		}
	case ssa.CallInstruction:
		a.call(c, b, in)
	case *ssa.Send:
		for l := range vv(in.Chan) {
			a.copyVal(c, pslot{l.o, l.path + "[*]"}, in.X, in.X.Type(), b)
		}
	case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Panic, *ssa.RunDefers, *ssa.DebugRef:
	case *ssa.Select, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		a.notes[a.p.where(in.(ssa.Instruction))+": unsupported instruction"] = true
	}
}

func (a *PTA) ret(c *PCtx) *PObj {
	return a.obj(fmt.Sprintf("ret|%d", c.id), nil, nil)
}

// results: locations returned by the root function as result i.
func (a *PTA) results(i int) pset { return a.slots[pslot{a.ret(a.root), fmt.Sprintf("#%d", i)}] }

func (a *PTA) call(c *PCtx, b *ssa.BasicBlock, in ssa.CallInstruction) {
	cc := in.Common()
	var res *PObj
	if v := in.Value(); v != nil {
		res = a.reg(c, v)
	}
	bind := func(fn *ssa.Function, recv func(dst pslot, t types.Type), clo *PObj) {
		if fn.Blocks == nil || !a.p.inRepo(fn) && fn.Synthetic == "" {
			a.external(c, b, in, fn, res)
			return
		}
		cx := a.ctx(c, in, fn)
		k := 0
		if recv != nil && len(fn.Params) > 0 {
			recv(pslot{a.reg(cx, fn.Params[0]), ""}, fn.Params[0].Type())
			k = 1
		}
		for i, arg := range cc.Args {
			if k+i < len(fn.Params) {
				a.copyVal(c, pslot{a.reg(cx, fn.Params[k+i]), ""}, arg, arg.Type(), b)
			}
		}
		if clo != nil {
			for i, fv := range fn.FreeVars {
				for _, lp := range leafPaths(fv.Type()) {
					a.addAll(pslot{a.reg(cx, fv), lp.path}, a.slots[pslot{clo, fmt.Sprintf("$%d", i) + lp.path}])
				}
			}
		}
		if res != nil {
			a.takeResults(res, cx, fn.Signature.Results())
		}
	}
	if cc.IsInvoke() {
		for l := range a.val(c, cc.Value, "", cc.Value.Type(), b) {
			l := l
			if l.o.wild || !l.o.box {
				a.externalResult(c, in, res)
				continue
			}
			fn := a.p.prog.LookupMethod(l.o.typ, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				continue
			}
			bind(fn, func(dst pslot, t types.Type) { a.loadInto(dst, pset{l: true}, "", t) }, nil)
		}
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		a.builtin(c, b, in, f.Name(), res)
		return
	case *ssa.Function:
		bind(f, nil, nil)
		return
	}
	for l := range a.val(c, cc.Value, "", cc.Value.Type(), b) {
		if l.o.fn != nil {
			bind(l.o.fn, nil, l.o)
		}
	}
}

func (a *PTA) takeResults(res *PObj, cx *PCtx, rt *types.Tuple) {
	ro := a.ret(cx)
	for i := 0; i < rt.Len(); i++ {
		pre := fmt.Sprintf("#%d", i)
		for _, lp := range leafPaths(rt.At(i).Type()) {
			dst := pre + lp.path
			if rt.Len() == 1 {
				dst = lp.path
			}
			a.addAll(pslot{res, dst}, a.slots[pslot{ro, pre + lp.path}])
		}
	}
}

func (a *PTA) builtin(c *PCtx, b *ssa.BasicBlock, in ssa.CallInstruction, name string, res *PObj) {
	args := in.Common().Args
	vv := func(v ssa.Value) pset { return a.val(c, v, "", v.Type(), b) }
	switch name {
	case "append":
		et := elemOf(args[0].Type())
		o := a.fresh(c, in, "append", args[0].Type())
		a.add(pslot{res, ""}, PLoc{o, ""})
		a.loadInto(pslot{o, "[*]"}, vv(args[0]), "[*]", et)
		full := false
		if s, ok := args[0].(*ssa.Slice); ok && s.Max != nil && s.Max == s.High {
			full = true // no spare capacity: append always copies
		}
		targets := pset{PLoc{o, ""}: true}
		if !full {
			for l := range vv(args[0]) {
				a.effect(PLoc{l.o, l.path + "[*]"}, "append", in, c)
				a.add(pslot{res, ""}, l)
				targets[l] = true
			}
		}
		if len(args) > 1 {
			for l := range targets {
				a.loadInto(pslot{l.o, l.path + "[*]"}, vv(args[1]), "[*]", et)
			}
		}
	case "copy":
		et := elemOf(args[0].Type())
		for l := range vv(args[0]) {
			a.effect(PLoc{l.o, l.path + "[*]"}, "copy", in, c)
			if et != nil {
				a.loadInto(pslot{l.o, l.path + "[*]"}, vv(args[1]), "[*]", et)
			}
		}
	case "delete", "clear":
		for l := range vv(args[0]) {
			a.effect(l, "delete", in, c)
		}
	case "min", "max":
	}
}

// externalResult: an unknown but unshared result.
func (a *PTA) externalResult(c *PCtx, in ssa.CallInstruction, res *PObj) {
	if res == nil {
		return
	}
	o := a.obj(fmt.Sprintf("extres|%d|%p", c.id, in), res.typ, func(o *PObj) {
		o.wild = true
		o.label = "result(" + a.p.pos(in.Pos()) + ")"
	})
	for _, lp := range leafPaths(res.typ) {
		a.addAll(pslot{res, lp.path}, a.get(pslot{o, lp.path}, lp.typ))
	}
}

var readOnlyPkgs = map[string]bool{
	"fmt": true, "strings": true, "strconv": true, "errors": true, "math": true, "math/rand": true, "time": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bytes": true, "reflect": true, "os": true,
	"path/filepath": true, "log": true, "flag": true, "net/http": true, "net/url": true,
	"github.com/davecgh/go-spew/spew": true, "encoding/csv": true, "io": true, "runtime": true, "bufio": true,
}

// external models functions outside of the repository.
func (a *PTA) external(c *PCtx, b *ssa.BasicBlock, in ssa.CallInstruction, fn *ssa.Function, res *PObj) {
	args := in.Common().Args
	vv := func(i int) pset {
		if i >= len(args) {
			return nil
		}
		s := a.val(c, args[i], "", args[i].Type(), b)
		if !isIface(args[i].Type()) {
			return s
		}
		r := pset{} // look into the interface
		for l := range s {
			if l.o.box && !l.o.wild {
				for _, lp := range leafPaths(l.o.typ) {
					if lp.path == "" {
						for x := range a.get(pslot{l.o, l.path}, lp.typ) {
							r[x] = true
						}
					}
				}
			} else {
				r[l] = true
			}
		}
		return r
	}
	argType := func(i int) types.Type {
		t := args[i].Type()
		for l := range a.val(c, args[i], "", t, b) {
			if isIface(t) && l.o.box && !l.o.wild {
				return l.o.typ
			}
		}
		return t
	}
	base := fn
	if fn.Origin() != nil {
		base = fn.Origin()
	}
	pkg, name := "", base.Name()
	if pk := fnPkg(fn); pk != nil {
		pkg = pk.Pkg.Path()
	} else if base.Object() != nil && base.Object().Pkg() != nil {
		pkg = base.Object().Pkg().Path()
	}
	callback := func(i int, elems pset, et types.Type) {
		for l := range a.val(c, args[i], "", args[i].Type(), b) {
			if f := l.o.fn; f != nil && f.Blocks != nil {
				cx := a.ctx(c, in, f)
				for k, fv := range f.FreeVars {
					for _, lp := range leafPaths(fv.Type()) {
						a.addAll(pslot{a.reg(cx, fv), lp.path}, a.slots[pslot{l.o, fmt.Sprintf("$%d", k) + lp.path}])
					}
				}
				for _, pr := range f.Params {
					if et != nil && types.Identical(pr.Type(), et) {
						a.loadInto(pslot{a.reg(cx, pr), ""}, elems, "[*]", et)
					}
				}
			}
		}
	}
	sortArr := func(kind string) {
		for l := range vv(0) {
			a.effect(PLoc{l.o, l.path + "[*]"}, kind, in, c)
		}
	}
	shallow := func() {
		if res == nil {
			return
		}
		t := fn.Signature.Results().At(0).Type()
		o := a.fresh(c, in, "copy", t)
		a.add(pslot{res, ""}, PLoc{o, ""})
		switch u := t.Underlying().(type) {
		case *types.Slice:
			for i := range args {
				if _, ok := args[i].Type().Underlying().(*types.Slice); ok {
					src := vv(i)
					if name == "Concat" { // variadic: slice of slices
						inner := pset{}
						for l := range src {
							for x := range a.get(pslot{l.o, l.path + "[*]"}, t) {
								inner[x] = true
							}
						}
						src = inner
					}
					a.loadInto(pslot{o, "[*]"}, src, "[*]", u.Elem())
				}
			}
		case *types.Map:
			a.loadInto(pslot{o, "[k]"}, vv(0), "[k]", u.Key())
			a.loadInto(pslot{o, "[v]"}, vv(0), "[v]", u.Elem())
		}
	}
	switch pkg {
	case "sort":
		switch name {
		case "Slice", "SliceStable":
			sortArr("sort")
			et := elemOf(argType(0))
			callback(1, vv(0), et)
		case "Sort", "Stable":
			sortArr("sort")
		case "Strings", "Ints", "Float64s":
			sortArr("sort")
		case "Search":
			callback(1, nil, nil)
		}
		return
	case "slices":
		switch name {
		case "Clone", "Concat", "Repeat", "Grow":
			shallow()
		case "Sort", "SortFunc", "SortStableFunc":
			sortArr("sort")
			if len(args) > 1 {
				callback(1, vv(0), elemOf(args[0].Type()))
			}
		case "Reverse":
			sortArr("store")
		case "Insert", "Delete", "DeleteFunc", "Compact", "CompactFunc", "Replace":
			sortArr("store")
			shallow()
			for l := range vv(0) {
				a.add(pslot{res, ""}, l)
			}
			if len(args) > 1 {
				callback(1, vv(0), elemOf(args[0].Type()))
			}
		case "Sorted", "Collect", "SortedFunc", "SortedStableFunc":
			if res != nil {
				o := a.fresh(c, in, "seq", fn.Signature.Results().At(0).Type())
				a.add(pslot{res, ""}, PLoc{o, ""})
				et := elemOf(o.typ)
				for l := range a.val(c, args[0], "", args[0].Type(), b) {
					for _, lp := range leafPaths(et) {
						a.addAll(pslot{o, "[*]" + lp.path}, a.slots[pslot{l.o, "[seq]" + lp.path}])
					}
				}
				if len(args) > 1 {
					callback(1, pset{PLoc{o, ""}: true}, et)
				}
			}
		case "Values", "All", "Backward":
			a.seq(c, in, res, func(o *PObj) { a.loadInto(pslot{o, "[seq]"}, vv(0), "[*]", elemOf(args[0].Type())) })
		case "IndexFunc", "ContainsFunc", "BinarySearchFunc", "EqualFunc", "MaxFunc", "MinFunc":
			callback(len(args)-1, vv(0), elemOf(args[0].Type()))
			if res != nil && name[1] != 'n' {
				a.loadInto(pslot{res, ""}, vv(0), "[*]", elemOf(args[0].Type()))
			}
		default:
		}
		return
	case "maps":
		switch name {
		case "Clone":
			shallow()
		case "Copy":
			mt, _ := args[0].Type().Underlying().(*types.Map)
			for l := range vv(0) {
				a.effect(l, "insert", in, c)
				if mt != nil {
					a.loadInto(pslot{l.o, l.path + "[k]"}, vv(1), "[k]", mt.Key())
					a.loadInto(pslot{l.o, l.path + "[v]"}, vv(1), "[v]", mt.Elem())
				}
			}
		case "DeleteFunc":
			for l := range vv(0) {
				a.effect(l, "delete", in, c)
			}
		case "Keys", "Values", "All":
			mt, _ := args[0].Type().Underlying().(*types.Map)
			if mt != nil {
				a.seq(c, in, res, func(o *PObj) {
					if name == "Keys" {
						a.loadInto(pslot{o, "[seq]"}, vv(0), "[k]", mt.Key())
					} else {
						a.loadInto(pslot{o, "[seq]"}, vv(0), "[v]", mt.Elem())
					}
				})
			}
		}
		return
	case "encoding/json":
		out := -1
		switch {
		case name == "Unmarshal":
			out = 1
		case name == "Decode":
			out = 1
		}
		if out >= 0 {
			for l := range vv(out) {
				a.effect(l, "store", in, c)
				if l.o.typ != nil && !l.o.ext {
					a.fillFresh(c, in, l)
				}
			}
		}
		a.externalResult(c, in, res)
		return
	}
	if pkg == "reflect" && name == "Swapper" {
		sortArr("sort")
	}
	if pkg != "" && !readOnlyPkgs[pkg] && !strings.HasPrefix(pkg, "github.com/schollz") {
		for i := range args {
			for l := range vv(i) {
				a.effect(l, "unknown call "+pkg+"."+name, in, c)
			}
		}
		a.notes["unmodelled "+pkg+"."+name] = true
	}
	if pkg == "fmt" && strings.HasPrefix(name, "Fprint") {
		// writes to its first argument only
	}
	a.externalResult(c, in, res)
}

// fillFresh gives a decoded variable unknown, unshared content.
func (a *PTA) fillFresh(c *PCtx, in ssa.Instruction, l PLoc) {
	o := a.obj(fmt.Sprintf("decoded|%d|%p", c.id, in), l.o.typ, func(o *PObj) {
		o.wild = true
		o.label = "decoded(" + a.p.pos(in.Pos()) + ")"
	})
	t := l.o.typ
	if l.path != "" {
		return
	}
	for _, lp := range leafPaths(t) {
		a.addAll(pslot{l.o, lp.path}, a.get(pslot{o, lp.path}, lp.typ))
	}
}

func (a *PTA) seq(c *PCtx, in ssa.Instruction, res *PObj, fill func(*PObj)) {
	if res == nil {
		return
	}
	o := a.obj(fmt.Sprintf("seq|%d|%p", c.id, in), nil, nil)
	fill(o)
	a.add(pslot{res, ""}, PLoc{o, ""})
}

// reach lists the container objects (maps, arrays, pointees) reachable from locs.
func (a *PTA) reach(from pset) map[*PObj]bool {
	seen := map[*PObj]bool{}
	var todo []*PObj
	push := func(o *PObj) {
		if !seen[o] {
			seen[o] = true
			todo = append(todo, o)
		}
	}
	for l := range from {
		push(l.o)
	}
	bySlot := map[*PObj][]pslot{}
	for s := range a.slots {
		bySlot[s.o] = append(bySlot[s.o], s)
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, s := range bySlot[o] {
			for l := range a.slots[s] {
				push(l.o)
			}
		}
	}
	return seen
}

func isContainer(o *PObj) bool {
	if o.box || o.wild || o.typ == nil {
		return false
	}
	switch o.typ.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

func (a *PTA) sortedEffects() []*Effect {
	var es []*Effect
	for _, k := range sortedKeys(a.effects) {
		es = append(es, a.effects[k])
	}
	sort.SliceStable(es, func(i, j int) bool { return a.p.where(es[i].instr) < a.p.where(es[j].instr) })
	return es
}
