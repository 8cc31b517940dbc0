package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	st  *State
	val *Term
}

func one(st *State, v *Term) []callRes { return []callRes{{st, v}} }

// callee resolves the called function value and its arguments (receiver first).
func (e *Eval) callee(fr *Frame, st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := e.val(fr, st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(fr, st, a))
		}
		if recv.op == OIface {
			dyn := recv.obj.(types.Type)
			if sel := e.p.prog.MethodSets.MethodSet(dyn).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := e.p.prog.MethodValue(sel); f != nil {
					return e.in.mk(OClosure, f.Type(), "", nil, f), append([]*Term{recv.args[0]}, args...)
				}
			}
		}
		return e.in.mk(OSym, nil, "invoke:"+c.Method.FullName(), nil, nil), append([]*Term{recv}, args...)
	}
	fn := e.val(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return fn, args
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return obj.FullName()
	}
	return f.String()
}

// dispatch interprets a call.
func (e *Eval) dispatch(fr *Frame, st *State, fn *Term, args []*Term, call *ssa.CallCommon, instr ssa.Instruction) []callRes {
	rt := resultType(call)
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b.Name(), args, call, instr)
	}
	if fn.op != OClosure {
		name := "dynamic"
		if fn.op == OSym && strings.HasPrefix(fn.aux, "invoke:") {
			name = strings.TrimPrefix(fn.aux, "invoke:")
			if e.checkPanics && len(args) > 0 && args[0].op != OIface && args[0].op != OErr {
				r := args[0]
				if r.op == OTypeOf {
					r = r.args[0]
				}
				switch {
				case r.op == OIface:
				case r.isNil():
					e.oblige(fr, st, instr, "method of nil", Lit{e.in.Bool(false), true})
				default:
					t := r.typ
					if t == nil {
						t = call.Value.Type()
					}
					e.oblige(fr, st, instr, "method of nil", Lit{e.in.Eq(r, e.in.Zero(t)), false})
				}
			}
			if name == "(error).Error" {
				return one(st, e.pure(name, tString, args...))
			}
		} else if e.checkPanics && fn.isNil() {
			e.oblige(fr, st, instr, "nil function", Lit{e.in.Bool(false), true})
		}
		if e.trace != nil && e.trace(name) {
			st = st.clone()
			e.event(st, "call", name, instr, fr, args...)
		}
		return one(st, e.unknown(fr, instr, rt, name))
	}
	f := fn.obj.(*ssa.Function)
	name := fullName(f)
	if e.trace != nil && e.trace(name) {
		st = st.clone()
		cargs := make([]*Term, len(args))
		for i, a := range args {
			cargs[i] = e.deepContent(st, a)
		}
		e.event(st, "call", name, instr, fr, cargs...)
	}
	if e.identity != nil && len(args) == 1 && e.identity(f) {
		return one(st, resTerm(e, args))
	}
	if e.opaque != nil && e.opaque(f) {
		return e.opaqueCall(fr, st, f, fn, args, rt, instr, false)
	}
	if f.Blocks != nil && (e.p.inRepo(f) || f.Synthetic != "" && fnPkg(f) == nil || f.Synthetic != "" && e.p.inRepoWrapper(f)) {
		active := 0
		for g := fr; g != nil; g = g.parent {
			if g.fn == f {
				active++
			}
		}
		if active > 0 {
			// a call with an argument of a known kind is a dispatch, not a descent
			known := false
			for _, a := range args {
				known = known || a.op == OIface
			}
			if !e.unroll || !known || active > 2 {
				if e.unroll && len(args) > 0 && f.Signature.Recv() != nil && ptrElem(f.Signature.Recv().Type()) != nil {
					e.problem(fr, instr, "recursive method")
				}
				return e.opaqueCall(fr, st, f, fn, args, rt, instr, true)
			}
		}
		depth := 0
		for g := fr; g != nil; g = g.parent {
			depth++
		}
		if depth < 30 {
			var out []callRes
			for _, o := range e.callFn(fr, st, f, fn.args, args, instr) {
				out = append(out, callRes{o.st, resTerm(e, o.results)})
			}
			return out
		}
		e.problem(fr, instr, "call depth exceeded")
	}
	return e.model(fr, st, f, name, args, call, rt, instr)
}

func (p *Program) inRepoWrapper(f *ssa.Function) bool {
	return strings.Contains(f.String(), p.mod)
}

func resTerm(e *Eval, rs []*Term) *Term {
	switch len(rs) {
	case 0:
		return e.in.Tuple()
	case 1:
		return rs[0]
	}
	return e.in.Tuple(rs...)
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// deepContent replaces references to tracked objects by their contents.
func (e *Eval) deepContent(st *State, t *Term) *Term {
	if t.op == OIface {
		return e.in.MakeIface(t.obj.(types.Type), e.deepContent(st, t.args[0]))
	}
	if c, ok := st.heap[t]; ok && c != t {
		return c
	}
	return t
}

// opaqueCall yields an uninterpreted result that depends on the arguments only.
func (e *Eval) opaqueCall(fr *Frame, st *State, f *ssa.Function, clo *Term, args []*Term, rt types.Type, instr ssa.Instruction, rec bool) []callRes {
	if e.onOpaque != nil && (rec || e.hookOpaque) {
		e.onOpaque(e, fr, st, f, clo, args, instr)
	}
	cargs := make([]*Term, len(args))
	hasPtr := false
	for i, a := range args {
		cargs[i] = e.deepContent(st, a)
		if i < len(f.Params) {
			if _, ok := under(f.Params[i].Type()).(*types.Pointer); ok {
				hasPtr = true
			}
		}
	}
	if f.Signature.Recv() != nil {
		if _, ok := under(f.Signature.Recv().Type()).(*types.Pointer); ok {
			hasPtr = true
		}
	}
	mk := func(typ types.Type, i int) *Term {
		call := e.pure(fullName(f), nil, cargs...)
		if hasPtr { // results may depend on memory: one value per call site
			call = e.in.mk(OCall, nil, e.allocName(fr, instr), nil, e.callInfo(fullName(f), false), cargs...)
		}
		if i < 0 {
			return e.in.mk(OExtract, typ, "0", nil, nil, call)
		}
		return e.in.mk(OExtract, typ, fmt.Sprint(i), nil, nil, call)
	}
	var res *Term
	if tup, ok := rt.(*types.Tuple); ok {
		a := make([]*Term, tup.Len())
		for i := range a {
			a[i] = mk(tup.At(i).Type(), i)
		}
		res = e.in.Tuple(a...)
	} else {
		res = mk(rt, -1)
	}
	if e.recResult != nil && rec {
		res = e.recResult(f, cargs, res)
	}
	st = st.clone()
	if e.afterRec != nil && rec {
		e.afterRec(e, fr, st, f, args, res, instr)
	} else if rec {
		e.forget(fr, st, f, clo, args, instr)
	} else if e.afterOpaque != nil {
		e.afterOpaque(e, st, f, args, cargs, res)
	}
	return one(st, res)
}

// forget: f may have changed what its pointers point to.
func (e *Eval) forget(fr *Frame, st *State, f *ssa.Function, clo *Term, args []*Term, instr ssa.Instruction) {
	change := func(v ssa.Value, a *Term) {
		p, ok := under(v.Type()).(*types.Pointer)
		if !ok || a == nil || readOnly(v, map[ssa.Value]bool{}) {
			return
		}
		switch a.op {
		case OAlloc, OGlobal, OFieldPtr, OElemPtr:
			e.store(st, a, e.unknown(fr, instr, p.Elem(), "changed by "+f.Name()), p.Elem())
		}
	}
	for i, p := range f.Params {
		if i < len(args) {
			change(p, args[i])
		}
	}
	if clo != nil {
		for i, v := range f.FreeVars {
			if i < len(clo.args) {
				change(v, clo.args[i])
			}
		}
	}
}

// readOnly: nothing is written through the pointer v.
func readOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !readOnly(r.(ssa.Value), seen) {
				return false
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !readOnly(f.FreeVars[i], seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			f := r.Common().StaticCallee()
			if f == nil || f.Blocks == nil {
				return false
			}
			for i, a := range r.Common().Args {
				if a == v && (i >= len(f.Params) || !readOnly(f.Params[i], seen)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (e *Eval) builtin(fr *Frame, st *State, name string, args []*Term, call *ssa.CallCommon, instr ssa.Instruction) []callRes {
	rt := resultType(call)
	switch name {
	case "len":
		x := args[0]
		if _, ok := under(call.Args[0].Type()).(*types.Map); ok {
			return one(st, e.in.Len(e.mapContent(st, x)))
		}
		if pt := ptrElem(call.Args[0].Type()); pt != nil {
			return one(st, e.in.Int(under(pt).(*types.Array).Len()))
		}
		return one(st, e.lenOf(st, x))
	case "cap":
		return one(st, e.unknown(fr, instr, rt, "cap"))
	case "append":
		a := e.content(st, args[0])
		if len(args) == 1 {
			return one(st, a)
		}
		b := e.content(st, args[1])
		if a.isNil() {
			a = e.in.mk(OSliceLit, call.Args[0].Type(), "", nil, nil)
		}
		if a.op == OMake {
			if n, ok := a.args[0].constInt(); ok && n == 0 {
				a = e.in.mk(OSliceLit, call.Args[0].Type(), "", nil, nil)
			}
		}
		return one(st, e.in.Append(a, b))
	case "copy":
		st = st.clone()
		dst, src := e.content(st, args[0]), e.content(st, args[1])
		st.heap[args[0]] = e.pure("copy", call.Args[0].Type(), dst, src)
		if d := args[0]; d.op == OSliceOf && d.args[2] == e.in.Len(d.args[0]) && (d.args[0].op == OSym || st.heap[d.args[0]] != nil) {
			// the whole changes, too
			st.heap[d.args[0]] = e.pure("copyat", call.Args[0].Type(), e.content(st, d.args[0]), d.args[1], src)
		}
		return one(st, e.unknown(fr, instr, rt, "copied"))
	case "delete":
		st = st.clone()
		c := e.mapContent(st, args[0])
		st.heap[args[0]] = e.in.mk(ODelete, c.typ, "", nil, nil, c, args[1])
		if e.traceStore {
			e.event(st, "mapdelete", "", instr, fr, args...)
		}
		return one(st, e.in.Tuple())
	case "clear":
		st = st.clone()
		if m, ok := under(call.Args[0].Type()).(*types.Map); ok {
			_ = m
			st.heap[args[0]] = e.in.mk(OMapEmpty, nil, "", nil, nil)
		} else {
			c := e.content(st, args[0])
			st.heap[args[0]] = e.in.mk(OMake, c.typ, "clear", nil, nil, e.in.Len(c))
		}
		return one(st, e.in.Tuple())
	case "min", "max":
		cur := []callRes{{st, args[0]}}
		for _, b := range args[1:] {
			var next []callRes
			for _, r := range cur {
				t, f := e.split(r.st, e.in.Lt(b, r.val))
				if name == "max" {
					t, f = f, t
				}
				if t != nil {
					next = append(next, callRes{t, b})
				}
				if f != nil {
					next = append(next, callRes{f, r.val})
				}
			}
			cur = next
		}
		return cur
	case "recover":
		return one(st, e.in.Zero(rt))
	case "print", "println", "close":
		return one(st, e.in.Tuple())
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	e.problem(fr, instr, "builtin "+name)
	return one(st, e.unknown(fr, instr, rt, name))
}

// ---- library models ----

// packages whose functions depend on their arguments only
var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true,
	"unicode/utf16": true, "path": true, "path/filepath": true, "errors": true, "cmp": true, "bytes": true, "time": false, "net/url": true}

func (e *Eval) sprintf(st *State, args []*Term) *Term {
	format, ok := args[0].constString()
	va := e.content(st, args[1])
	if !ok || va.op != OSliceLit && !va.isNil() {
		return e.pure("fmt.Sprintf", tString, args[0], va)
	}
	var parts []*Term
	n := 0
	lit := func(s string) { parts = append(parts, e.in.Const(tString, constant.MakeString(s))) }
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(format[i:])
			break
		}
		lit(format[i : i+j])
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			return e.pure("fmt.Sprintf", tString, args[0], va)
		}
		verb := format[i : k+1]
		i = k + 1
		if verb == "%%" {
			lit("%")
			continue
		}
		if n >= len(va.args) {
			return e.pure("fmt.Sprintf", tString, args[0], va)
		}
		a := va.args[n]
		n++
		parts = append(parts, e.fmtVerb(st, verb, a))
	}
	return e.concat(parts...)
}

// fmtVerb is the text of one formatted operand.
func (e *Eval) fmtVerb(st *State, verb string, a *Term) *Term {
	if a.op == OIface {
		dyn := a.obj.(types.Type)
		v := e.content(st, a.args[0])
		_, isBasic := under(dyn).(*types.Basic)
		hasMethods := types.NewMethodSet(dyn).Len() > 0
		switch {
		case isString(dyn) && !hasMethods:
			switch verb {
			case "%s", "%v":
				return v
			case "%q":
				return e.pure("strconv.Quote", tString, v)
			}
		case isInteger(dyn) && isBasic && !hasMethods:
			switch verb {
			case "%d", "%v":
				if n, ok := v.constInt(); ok {
					return e.in.Const(tString, constant.MakeString(strconv.FormatInt(n, 10)))
				}
				return e.pure("decimal", tString, v)
			}
		case isBool(dyn) && (verb == "%v" || verb == "%t"):
			if b, ok := v.constBool(); ok {
				return e.in.Const(tString, constant.MakeString(strconv.FormatBool(b)))
			}
			return e.pure("strconv.FormatBool", tString, v)
		case verb == "%s":
			if sl, ok := under(dyn).(*types.Slice); ok {
				if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Byte {
					return e.convert(v, dyn, tString)
				}
			}
		}
		return e.pure("fmt:"+verb, tString, a)
	}
	return e.pure("fmt:"+verb, tString, a)
}

func (e *Eval) bufText(st *State, p *Term) *Term {
	c := e.load(st, p, tString)
	if c.op == OStruct {
		return e.in.Const(tString, constant.MakeString(""))
	}
	return c
}

func (e *Eval) model(fr *Frame, st *State, f *ssa.Function, name string, args []*Term, call *ssa.CallCommon, rt types.Type, instr ssa.Instruction) []callRes {
	c := func(i int) *Term { return e.content(st, args[i]) }
	str := func(s *Term) []callRes { return one(st, s) }
	nilErr := e.in.Zero(types.Universe.Lookup("error").Type())
	switch name {
	case "fmt.Errorf", "errors.New":
		return one(st, e.in.mk(OErr, nil, "", nil, nil))
	case "fmt.Sprintf":
		return str(e.sprintf(st, args))
	case "fmt.Sprint":
		if va := c(0); va.op == OSliceLit && len(va.args) == 1 {
			return str(e.fmtVerb(st, "%v", va.args[0]))
		}
		return str(e.pure(name, tString, c(0)))
	case "fmt.Sprintln":
		return str(e.pure(name, tString, c(0)))
	case "fmt.Print", "fmt.Println", "fmt.Printf", "log.Printf", "log.Println":
		return one(st, e.unknown(fr, instr, rt, name))
	case "fmt.Fprintf":
		if w := args[0]; w.op == OIface && (w.args[0].op == OAlloc || w.args[0].op == OFieldPtr) && isTextBuffer(w.obj.(types.Type)) {
			st = st.clone()
			e.store(st, w.args[0], e.concat(e.bufText(st, w.args[0]), e.sprintf(st, args[1:])), tString)
			return one(st, e.in.Tuple(e.unknown(fr, instr, tInt, "n"), nilErr))
		}
	case "io.WriteString":
		if w := args[0]; w.op == OIface && (w.args[0].op == OAlloc || w.args[0].op == OFieldPtr) && isTextBuffer(w.obj.(types.Type)) {
			st = st.clone()
			e.store(st, w.args[0], e.concat(e.bufText(st, w.args[0]), args[1]), tString)
			return one(st, e.in.Tuple(e.unknown(fr, instr, tInt, "n"), nilErr))
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		st = st.clone()
		e.store(st, args[0], e.concat(e.bufText(st, args[0]), args[1]), tString)
		return one(st, e.in.Tuple(e.in.Len(args[1]), nilErr))
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		st = st.clone()
		e.store(st, args[0], e.concat(e.bufText(st, args[0]), e.convert(c(1), call.Args[1].Type(), tString)), tString)
		return one(st, e.in.Tuple(e.in.Len(args[1]), nilErr))
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		st = st.clone()
		e.store(st, args[0], e.concat(e.bufText(st, args[0]), e.charText(args[1])), tString)
		return one(st, nilErr)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		st = st.clone()
		e.store(st, args[0], e.concat(e.bufText(st, args[0]), e.charText(args[1])), tString)
		return one(st, e.in.Tuple(e.in.Int(1), nilErr))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return str(e.bufText(st, args[0]))
	case "(*bytes.Buffer).Bytes":
		return one(st, e.convert(e.bufText(st, args[0]), tString, rt))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(st, e.in.Len(e.bufText(st, args[0])))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st, e.in.Tuple())
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st = st.clone()
		e.store(st, args[0], e.in.Const(tString, constant.MakeString("")), tString)
		return one(st, e.in.Tuple())
	case "strconv.FormatInt", "strconv.FormatUint":
		if n, ok := args[1].constInt(); ok && n == 10 {
			return str(e.pure("decimal", tString, args[0]))
		}
	case "math.Min", "math.Max": // of finite numbers
		return e.builtin(fr, st, strings.ToLower(strings.TrimPrefix(name, "math.")), args, call, instr)
	case "strconv.Itoa":
		return str(e.pure("decimal", tString, args[0]))
	case "strings.Join":
		if l := c(0); l.op == OSliceLit && len(l.args) < 20 {
			var ps []*Term
			for i, a := range l.args {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, a)
			}
			return one(st, e.concat(ps...))
		}
		return str(e.pure(name, tString, c(0), args[1]))
	case "strings.NewReplacer":
		return one(st, e.in.mk(OCall, rt, "", nil, e.callInfo(name, true), c(0)))
	case "(*strings.Replacer).Replace":
		return str(e.pure(name, tString, args[0], args[1]))
	case "strings.Split":
		v := e.pure(name, rt, args...)
		st = st.clone()
		if s, ok := args[1].constString(); ok && s != "" {
			e.assume(st, e.in.Lt(e.in.Len(v), e.in.Int(1)), false)
		}
		return one(st, v)
	case "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSpace", "strings.TrimSuffix":
		v := e.pure(name, rt, args...)
		st = st.clone()
		e.assume(st, e.in.Lt(e.in.Len(args[0]), e.in.Len(v)), false)
		return one(st, v)
	case "strings.HasPrefix":
		v := e.pure(name, rt, args...)
		t, fs := e.split(st, v)
		var out []callRes
		if t != nil {
			e.assume(t, e.in.Lt(e.in.Len(args[0]), e.in.Len(args[1])), false)
			if s, ok := args[1].constString(); ok {
				for i := range s {
					e.assume(t, e.in.Eq(e.in.Elem(args[0], e.in.Int(int64(i)), types.Typ[types.Byte]), e.in.Const(types.Typ[types.Byte], constant.MakeInt64(int64(s[i])))), true)
				}
			}
			if len(t.pc) > 0 {
				out = append(out, callRes{t, e.in.Bool(true)})
			}
		}
		if fs != nil {
			// "" is the only string of length 0
			if s, ok := args[1].constString(); ok && len(s) == 1 {
				var np DNF
				b := e.in.Eq(e.in.Elem(args[0], e.in.Int(0), types.Typ[types.Byte]), e.in.Const(types.Typ[types.Byte], constant.MakeInt64(int64(s[0]))))
				ln := e.in.Eq(e.in.Len(args[0]), e.in.Int(0))
				for _, cj := range fs.pc {
					if n := cj.with(ln, true); n != nil {
						np = append(np, n)
					}
					if n := cj.with(ln, false); n != nil {
						if n = n.with(b, false); n != nil {
							np = append(np, n)
						}
					}
				}
				fs.pc = np
			}
			if len(fs.pc) > 0 {
				out = append(out, callRes{fs, e.in.Bool(false)})
			}
		}
		return out
	case "(encoding/json.Number).Float64", "(encoding/json.Number).Int64", "(encoding/json.Number).String":
		return one(st, e.pure(name, rt, args...))
	case "reflect.TypeOf":
		return one(st, e.in.TypeOf(args[0]))
	case "reflect.DeepEqual":
		a, b := args[0], args[1]
		if a == b {
			return one(st, e.in.Bool(true))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return one(st, e.pure(name, tBool, a, b))
	case "slices.Clone", "bytes.Clone":
		return one(st, c(0))
	case "strings.Clone":
		return one(st, args[0])
	case "maps.Clone":
		m := e.in.mk(OAlloc, rt, e.allocName(fr, instr), nil, nil)
		st = st.clone()
		st.heap[m] = e.mapContent(st, args[0])
		return one(st, m)
	case "maps.Copy":
		st = st.clone()
		st.heap[args[0]] = e.pure("maps.Copy", nil, e.mapContent(st, args[0]), e.mapContent(st, args[1]))
		return one(st, e.in.Tuple())
	case "maps.Keys", "maps.Values":
		return one(st, e.pure(name, rt, e.mapContent(st, args[0])))
	case "slices.Collect":
		return one(st, e.pure(name, rt, args...))
	case "slices.Sorted":
		return one(st, e.sorted(e.pure("slices.Collect", rt, args...), e.sortInfo("natural", true)))
	case "slices.Values", "slices.All":
		return one(st, e.pure(name, rt, c(0)))
	case "slices.Delete":
		x := c(0)
		return one(st, e.in.Append(e.in.SliceOf(x, e.in.Int(0), args[1], rt), e.in.SliceOf(x, args[2], e.in.Len(x), rt)))
	case "slices.Insert":
		if n, ok := args[1].constInt(); ok && n == 0 && len(args) == 3 {
			if va := c(2); va.op == OSliceLit {
				return one(st, e.in.Append(va, c(0)))
			}
		}
	case "slices.Concat":
		va := c(0)
		if va.op == OSliceLit {
			r := e.in.mk(OSliceLit, rt, "", nil, nil)
			for _, x := range va.args {
				r = e.in.Append(r, e.content(st, x))
			}
			return one(st, r)
		}
	case "slices.Equal", "bytes.Equal":
		return one(st, e.in.Eq(c(0), c(1)))
	case "slices.Contains", "slices.Index":
		return one(st, e.pure(name, rt, c(0), args[1]))
	case "slices.Reverse":
		st = st.clone()
		st.heap[args[0]] = e.pure("reversed", call.Args[0].Type(), c(0))
		return one(st, e.in.Tuple())
	case "sort.Slice", "sort.SliceStable":
		x := args[0]
		if x.op == OIface {
			x = x.args[0]
		}
		return e.sortModel(fr, st, x, args[1], name == "sort.SliceStable", false, instr)
	case "slices.SortFunc", "slices.SortStableFunc":
		return e.sortModel(fr, st, args[0], args[1], name == "slices.SortStableFunc", true, instr)
	case "slices.SortedFunc", "slices.SortedStableFunc":
		col := e.pure("slices.Collect", rt, args[0])
		rs := e.sortModel(fr, st, col, args[1], name == "slices.SortedStableFunc", true, instr)
		for i := range rs {
			rs[i].val = e.content(rs[i].st, col)
		}
		return rs
	case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort":
		st = st.clone()
		cc := c(0)
		e.setContent(st, args[0], e.sorted(cc, e.sortInfo("natural", true)))
		return one(st, e.in.Tuple())
	case "sort.Search":
		return e.searchModel(fr, st, args[0], args[1], instr)
	case "cmp.Compare":
		return one(st, e.pure(name, rt, args...))
	case "encoding/json.Marshal":
		v := e.in.mk(OCall, nil, "", nil, e.callInfo(name, false), e.deepContent(st, args[0]))
		return one(st, e.in.Tuple(e.in.mk(OExtract, call.Signature().Results().At(0).Type(), "0", nil, nil, v), e.in.mk(OExtract, call.Signature().Results().At(1).Type(), "1", nil, nil, v)))
	}
	pk := ""
	if p := f.Pkg; p != nil {
		pk = p.Pkg.Path()
	} else if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if purePkgs[pk] && !strings.HasPrefix(name, "(*") {
		cargs := make([]*Term, len(args))
		for i, a := range args {
			cargs[i] = e.deepContent(st, a)
		}
		if tup, ok := rt.(*types.Tuple); ok {
			v := e.pure(name, nil, cargs...)
			rs := make([]*Term, tup.Len())
			for i := range rs {
				rs[i] = e.in.mk(OExtract, tup.At(i).Type(), fmt.Sprint(i), nil, nil, v)
			}
			return one(st, e.in.Tuple(rs...))
		}
		return one(st, e.pure(name, rt, cargs...))
	}
	// unknown effects: the results are unknown, and so is memory that is
	// passed by pointer
	st = st.clone()
	if e.extArgs != nil {
		e.recordExt(fr, st, name, args, instr)
	}
	for i, a := range args {
		t := a
		if t.op == OIface {
			t = t.args[0]
		}
		if t.op == OAlloc || t.op == OFieldPtr || t.op == OElemPtr {
			if _, tracked := st.heap[t]; tracked || t.op != OAlloc {
				var et types.Type
				if t.typ != nil {
					et = ptrElem(t.typ)
				}
				if et != nil {
					e.store(st, t, e.in.mk(OUnknown, et, fmt.Sprintf("out%d:%s@%s", i, name, e.allocName(fr, instr)), nil, nil), et)
				}
			}
		}
	}
	return one(st, e.unknown(fr, instr, rt, name))
}

func (e *Eval) charText(c *Term) *Term {
	if n, ok := c.constInt(); ok {
		return e.in.Const(tString, constant.MakeString(string(rune(n))))
	}
	return e.pure("char", tString, c)
}

func isTextBuffer(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

// SortInfo describes how a slice was sorted: less holds the outcomes of the
// comparison of elements $a and $b.
type SortInfo struct {
	kind   string
	stable bool
	// key is the compared key of $a when the order is ascending by one key
	key  *Term
	desc bool
}

var sortInfos = map[string]*SortInfo{}

func (e *Eval) sortInfo(kind string, stable bool) *SortInfo {
	k := fmt.Sprintf("%p|%s|%v", e, kind, stable)
	if s, ok := sortInfos[k]; ok {
		return s
	}
	s := &SortInfo{kind: kind, stable: stable}
	sortInfos[k] = s
	return s
}

// sortModel evaluates the comparison function on two arbitrary elements.
func (e *Eval) sortModel(fr *Frame, st *State, x, less *Term, stable, byValue bool, instr ssa.Instruction) []callRes {
	st = st.clone()
	c := e.content(st, x)
	var et types.Type
	if x.typ != nil {
		et = elemType(x.typ)
	}
	if et == nil && c.typ != nil {
		et = elemType(c.typ)
	}
	info := e.sortInfo("unknown@"+e.allocName(fr, instr), stable)
	if less.op == OClosure {
		f := less.obj.(*ssa.Function)
		var a, b *Term
		tmp := st.clone()
		var args []*Term
		i, j := e.in.mk(OSym, tInt, "$i", nil, nil), e.in.mk(OSym, tInt, "$j", nil, nil)
		if byValue {
			a, b = e.in.mk(OSym, et, "$a", nil, nil), e.in.mk(OSym, et, "$b", nil, nil)
			args = []*Term{a, b}
		} else {
			// element i of x is $a, element j is $b
			for _, s := range []*Term{i, j} {
				e.assume(tmp, e.in.Lt(s, e.in.Int(0)), false)
				e.assume(tmp, e.in.Lt(s, e.in.Len(c)), true)
			}
			a, b = e.in.Elem(c, i, et), e.in.Elem(c, j, et)
			args = []*Term{i, j}
		}
		var outs []Outcome
		if f.Blocks != nil {
			outs = e.callFn(fr, tmp, f, less.args, args, instr)
		} else if fullName(f) == "cmp.Compare" && byValue {
			outs = []Outcome{{tmp, []*Term{e.pure("cmp.Compare", tInt, a, b)}}}
		}
		if len(outs) == 1 && len(outs[0].results) == 1 {
			r := outs[0].results[0]
			desc := false
			var ka, kb *Term
			switch {
			case r.op == OLt && !byValue:
				ka, kb = r.args[0], r.args[1]
			case r.op == OCall && r.callName() == "cmp.Compare" && byValue:
				ka, kb = r.args[0], r.args[1]
			}
			if ka != nil {
				mentions := func(t, s *Term) bool { return t.contains(func(x *Term) bool { return x == s }) }
				if mentions(ka, b) && mentions(kb, a) && !mentions(ka, a) {
					ka, kb, desc = kb, ka, true
				}
				if mentions(ka, a) && !mentions(ka, b) && mentions(kb, b) && !mentions(kb, a) {
					ga := e.in.subst(ka, map[*Term]*Term{a: e.in.mk(OSym, et, "$e", nil, nil)})
					gb := e.in.subst(kb, map[*Term]*Term{b: e.in.mk(OSym, et, "$e", nil, nil)})
					if ga == gb {
						info = e.sortInfo(fmt.Sprintf("key:%d:%v", ga.id, desc), stable)
						info.key, info.desc = ga, desc
						if ga.op == OSym && ga.aux == "$e" && !desc {
							info = e.sortInfo("natural", true)
						}
					}
				}
			}
		} else if byValue && len(outs) > 1 {
			// three-way comparison by cases
			if k := e.threeWay(outs, a, b, et); k != nil {
				info = e.sortInfo(fmt.Sprintf("key:%d:%v", k.id, false), stable)
				info.key = k
				if k.op == OSym {
					info = e.sortInfo("natural", true)
				}
			}
		}
	}
	e.setContent(st, x, e.sorted(c, info))
	return one(st, e.in.Tuple())
}

// setContent records the new content of the slice x.
func (e *Eval) setContent(st *State, x, c *Term) {
	if e.content(st, x) == c {
		return
	}
	// the list of a map entry: the entry has the new content
	if x.op == OLookup {
		if _, ok := st.heap[x]; !ok {
			var ref *Term
			n := 0
			for r, v := range st.heap {
				if v == x.args[0] {
					ref = r
					n++
				}
			}
			if n == 0 && x.args[0].op == OMapInit {
				ref, n = x.args[0].args[0], 1
			}
			if n == 1 {
				st.heap[ref] = e.in.mk(OInsert, x.args[0].typ, "", nil, nil, x.args[0], x.args[1], c)
				return
			}
		}
	}
	st.heap[x] = c
}

// sorted is c sorted according to info.
func (e *Eval) sorted(c *Term, info *SortInfo) *Term {
	if strings.HasPrefix(info.kind, "natural") && e.ascending != nil && e.ascending(c) {
		return c
	}
	return e.in.mk(OSorted, c.typ, info.kind+fmt.Sprint(info.stable), nil, info, c)
}

// threeWay recognises a comparison that is negative iff key(a) < key(b) and
// positive iff key(b) < key(a).
func (e *Eval) threeWay(outs []Outcome, a, b *Term, et types.Type) *Term {
	var key *Term
	for _, o := range outs {
		for _, c := range o.st.pc {
			for _, l := range c.lits {
				if l.atom.op == OLt || l.atom.op == OEq {
					for _, t := range l.atom.args {
						if t.contains(func(x *Term) bool { return x == a }) {
							key = t
						}
					}
				}
			}
		}
	}
	if key == nil {
		return nil
	}
	kb := e.in.subst(key, map[*Term]*Term{a: b})
	lt, gt := e.in.Lt(key, kb), e.in.Lt(kb, key)
	for _, o := range outs {
		n, ok := o.results[0].constInt()
		if !ok {
			return nil
		}
		for _, c := range o.st.pc {
			l, okl := c.decide(lt)
			g, okg := c.decide(gt)
			switch {
			case n < 0 && !(okl && l), n > 0 && !(okg && g), n == 0 && !(okl && !l && okg && !g):
				return nil
			}
		}
	}
	return e.in.subst(key, map[*Term]*Term{a: e.in.mk(OSym, et, "$e", nil, nil)})
}

// searchModel: sort.Search returns the smallest index at which the (monotone)
// predicate holds.
func (e *Eval) searchModel(fr *Frame, st *State, n, pred *Term, instr ssa.Instruction) []callRes {
	idx := e.in.mk(OUnknown, tInt, "search@"+e.allocName(fr, instr), nil, nil)
	var out []callRes
	if pred.op != OClosure {
		return one(st, idx)
	}
	f := pred.obj.(*ssa.Function)
	// smaller index exists
	try := func(zero, atEnd bool) {
		s := st.clone()
		e.assume(s, e.in.Lt(idx, e.in.Int(0)), false)
		e.assume(s, e.in.Lt(n, idx), false)
		if !e.assume(s, e.in.Eq(idx, e.in.Int(0)), zero) || !e.assume(s, e.in.Eq(idx, n), atEnd) {
			return
		}
		states := []*State{s}
		check := func(at *Term, want bool) {
			var next []*State
			for _, x := range states {
				for _, o := range e.callFn(fr, x, f, pred.args, []*Term{at}, instr) {
					y := o.st.clone()
					if e.assume(y, o.results[0], want) {
						next = append(next, y)
					}
				}
			}
			states = next
		}
		if !zero {
			check(e.in.AddK(idx, -1), false)
		}
		if !atEnd {
			check(idx, true)
		}
		v := idx
		if zero {
			v = e.in.Int(0)
		}
		for _, x := range states {
			out = append(out, callRes{x, v})
		}
	}
	try(true, true)
	try(true, false)
	try(false, true)
	try(false, false)
	return out
}

// subst replaces subterms and renormalises.
func (in *Interner) subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = rec(a)
			same = same && args[i] == a
		}
		r := t
		if !same {
			r = in.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (in *Interner) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OField:
		n, _ := strconv.Atoi(t.aux)
		return in.Field(a[0], n, t.typ)
	case OUnbox:
		return in.Unbox(a[0], t.obj.(types.Type))
	case OTypeIs:
		return in.TypeIs(a[0], t.obj.(types.Type))
	case OLt:
		return in.Lt(a[0], a[1])
	case OEq:
		return in.Eq(a[0], a[1])
	case ONot:
		return in.Not(a[0])
	case OAddK:
		_, k := splitAddK(t)
		return in.AddK(a[0], k)
	case OBin:
		switch t.aux {
		case "+":
			if isInteger(t.typ) {
				return in.Add(a[0], a[1])
			}
		case "-":
			if isInteger(t.typ) {
				return in.Sub(a[0], a[1])
			}
		}
	case OLen:
		return in.Len(a[0])
	case OElem:
		return in.Elem(a[0], a[1], t.typ)
	case OLookup:
		return in.Lookup(a[0], a[1], t.typ)
	case OHas:
		return in.Has(a[0], a[1])
	case OExtract:
		n, _ := strconv.Atoi(t.aux)
		return in.Extract(a[0], n, t.typ)
	}
	return in.mk(t.op, t.typ, t.aux, t.cv, t.obj, a...)
}
