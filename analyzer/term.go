package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Op is the head symbol of a Term.
type Op uint8

const (
	OConst     Op = iota // constant (cv != nil) or typed zero/nil (cv == nil)
	OSym                 // unknown input; aux is its unique name
	OStruct              // struct value, one arg per field
	OField               // field aux of a struct value
	OIface               // interface holding args[0]; obj is its dynamic type
	OUnbox               // payload of the interface args[0]; obj is the asserted type
	OTypeIs              // bool: the dynamic type of args[0] is obj
	OTypeOf              // reflect.TypeOf(args[0])
	OLt                  // bool: args[0] < args[1]
	OEq                  // bool: args[0] == args[1]
	ONot                 // bool
	OBin                 // other binary operators; aux is the operator
	OUn                  // other unary operators; aux is the operator
	OAddK                // args[0] + constant aux
	OLen                 // len(args[0])
	OElem                // args[0][args[1]] of a slice/array/string value
	OSliceLit            // slice with the given elements
	OSliceOf             // args[0][args[1]:args[2]]
	OMake                // make([]T, args[0]) with zero elements
	OAppend              // append(args[0], args[1]...)
	OStoreElem           // args[0] with element args[1] set to args[2]
	OSorted              // args[0] sorted; aux describes order and stability, obj is *SortInfo
	OMapEmpty            // empty map content
	OMapInit             // unknown initial content of the map args[0]
	OInsert              // map content args[0] with args[1] -> args[2]
	ODelete              // map content args[0] without key args[1]
	OLookup              // value of key args[1] in map content args[0]
	OHas                 // bool: key args[1] is in map content args[0]
	OAlloc               // reference to an object allocated during the analysis
	OGlobal              // address of a global
	OFieldPtr            // address of field aux of *args[0]
	OElemPtr             // address of element args[1] of args[0]
	ODeref               // unknown initial content of pointer args[0]
	OCall                // result of an uninterpreted call; obj is *CallInfo
	OExtract             // component aux of a tuple
	OTuple               // tuple value
	OClosure             // function value obj with bindings args
	OConvert             // numeric/string conversion of args[0]
	OErr                 // some non-nil error
	OLoop                // loop-carried value; obj is *Loop, aux names the location
	OClos                // value of a finished loop for given iterations of the enclosing ones; obj is *clos
	OPrev                // value of a loop variable before an iteration; obj is *Loop
	OIterKey             // key produced by the map iteration of loop obj
	OUnknown             // unknown value, unique by aux
)

// Term is an immutable, interned value description.
type Term struct {
	id   int
	op   Op
	typ  types.Type
	args []*Term
	aux  string
	cv   constant.Value
	obj  any
}

type Interner struct {
	m    map[string]*Term
	list []*Term
	tkey typeutil.Map
	okey map[any]int
	seq  int
}

func NewInterner() *Interner {
	return &Interner{m: map[string]*Term{}, okey: map[any]int{}}
}

func (in *Interner) typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s := in.tkey.At(t); s != nil {
		return s.(string)
	}
	s := fmt.Sprintf("t%d", in.tkey.Len()+1)
	in.tkey.Set(t, s)
	return s
}

func (in *Interner) objKey(o any) string {
	if o == nil {
		return ""
	}
	if t, ok := o.(types.Type); ok {
		return "T:" + in.typeKey(t)
	}
	if _, ok := in.okey[o]; !ok {
		in.okey[o] = len(in.okey) + 1
	}
	return fmt.Sprintf("O%d", in.okey[o])
}

func (in *Interner) mk(op Op, typ types.Type, aux string, cv constant.Value, obj any, args ...*Term) *Term {
	var sb strings.Builder
	tk := ""
	switch op {
	case OConst, OSym, OStruct, OMake, OConvert, OUnknown, OSliceLit, OMapEmpty:
		tk = in.typeKey(typ)
	}
	fmt.Fprintf(&sb, "%d|%s|%s|%s|", op, tk, aux, in.objKey(obj))
	if cv != nil {
		sb.WriteString(cv.ExactString())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := in.m[k]; ok {
		return t
	}
	t := &Term{id: len(in.list), op: op, typ: typ, args: args, aux: aux, cv: cv, obj: obj}
	in.list = append(in.list, t)
	in.m[k] = t
	return t
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isIface(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isNumeric(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
)

func (in *Interner) Int(n int64) *Term {
	return in.Const(tInt, constant.MakeInt64(n))
}

func (in *Interner) Bool(b bool) *Term { return in.Const(tBool, constant.MakeBool(b)) }

func (in *Interner) Const(t types.Type, cv constant.Value) *Term {
	if cv == nil {
		return in.Zero(t)
	}
	if isBool(t) {
		t = tBool
	}
	if isInteger(t) {
		cv = constant.ToInt(cv)
	} else if isNumeric(t) {
		cv = constant.ToFloat(cv)
	}
	return in.mk(OConst, t, "", cv, nil)
}

// Zero is the zero value of t.
func (in *Interner) Zero(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Const(t, constant.MakeBool(false))
		case u.Info()&types.IsString != 0:
			return in.Const(t, constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return in.Const(t, constant.MakeInt64(0))
		case u.Info()&types.IsFloat != 0:
			return in.Const(t, constant.MakeFloat64(0))
		}
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = in.Zero(u.Field(i).Type())
		}
		return in.mk(OStruct, t, "", nil, nil, args...)
	case *types.Interface:
		return in.mk(OConst, nil, "nil", nil, nil) // one nil interface for all types
	}
	return in.mk(OConst, t, "nil", nil, nil)
}

func (t *Term) isNil() bool { return t.op == OConst && t.cv == nil && t.aux == "nil" }

func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

func (t *Term) constString() (string, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (t *Term) constBool() (val, ok bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

func (in *Interner) Field(t *Term, i int, ft types.Type) *Term {
	if t.op == OStruct {
		return t.args[i]
	}
	return in.mk(OField, ft, fmt.Sprint(i), nil, nil, t)
}

func structType(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

// WithField returns the struct value t with field i replaced.
func (in *Interner) WithField(t *Term, st types.Type, i int, v *Term) *Term {
	s := structType(st)
	args := make([]*Term, s.NumFields())
	for k := range args {
		if k == i {
			args[k] = v
		} else {
			args[k] = in.Field(t, k, s.Field(k).Type())
		}
	}
	// a struct made of all the fields of one value is that value
	if args[0].op == OField {
		base := args[0].args[0]
		same := true
		for k, a := range args {
			if a.op != OField || a.args[0] != base || a.aux != fmt.Sprint(k) {
				same = false
				break
			}
		}
		if same && base.typ != nil && types.Identical(base.typ, st) {
			return base
		}
	}
	return in.mk(OStruct, st, "", nil, nil, args...)
}

func (in *Interner) MakeIface(dyn types.Type, v *Term) *Term {
	if isIface(dyn) {
		return v
	}
	return in.mk(OIface, nil, "", nil, dyn, v)
}

func (in *Interner) Unbox(t *Term, T types.Type) *Term {
	if isIface(T) {
		return t
	}
	if t.op == OIface && types.Identical(t.obj.(types.Type), T) {
		return t.args[0]
	}
	return in.mk(OUnbox, T, "", nil, T, t)
}

func (in *Interner) TypeIs(t *Term, T types.Type) *Term {
	if t.isNil() {
		return in.Bool(false)
	}
	if t.op == OIface {
		dyn := t.obj.(types.Type)
		if it, ok := under(T).(*types.Interface); ok {
			return in.Bool(types.Implements(dyn, it))
		}
		return in.Bool(types.Identical(dyn, T))
	}
	if it, ok := under(T).(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return in.Not(in.Eq(t, in.Zero(T)))
		}
	}
	return in.mk(OTypeIs, tBool, "", nil, T, t)
}

func (in *Interner) TypeOf(t *Term) *Term {
	return in.mk(OTypeOf, nil, "", nil, nil, t)
}

func (in *Interner) Not(t *Term) *Term {
	if b, ok := t.constBool(); ok {
		return in.Bool(!b)
	}
	if t.op == ONot {
		return t.args[0]
	}
	return in.mk(ONot, tBool, "", nil, nil, t)
}

func (in *Interner) knownNonNil(t *Term) bool {
	switch t.op {
	case OIface, OAlloc, OClosure, OErr, OSliceLit, OMake, OGlobal, OFieldPtr, OElemPtr, OStoreElem, OInsert, OMapEmpty:
		return true
	case OCall:
		if ci, ok := t.obj.(*CallInfo); ok && ci.nonNil {
			return true
		}
	case OAppend:
		return t.args[1].op == OSliceLit && len(t.args[1].args) > 0 || in.knownNonNil(t.args[0])
	}
	return false
}

func (in *Interner) Eq(a, b *Term) *Term {
	isFloat := func(t *Term) bool {
		bt, ok := under(t.typ).(*types.Basic)
		return ok && bt.Info()&types.IsFloat != 0
	}
	if a == b && !(a.typ != nil && isFloat(a) && a.op != OConst) {
		return in.Bool(true)
	}
	if a.op == OConst && b.op == OConst && a.cv != nil && b.cv != nil {
		return in.Bool(constant.Compare(a.cv, token.EQL, b.cv))
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		if a.isNil() {
			return in.Bool(true)
		}
		if in.knownNonNil(a) {
			return in.Bool(false)
		}
		b = in.mk(OConst, nil, "nil", nil, nil)
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.obj.(types.Type), b.obj.(types.Type)) {
			return in.Bool(false)
		}
		return in.Eq(a.args[0], b.args[0])
	}
	if a.op == OAlloc && b.op == OAlloc {
		return in.Bool(false)
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		if v, ok := a.constBool(); ok {
			a, b = b, a
			_ = v
		}
		if v, ok := b.constBool(); ok {
			if v {
				return a
			}
			return in.Not(a)
		}
	}
	// an empty string is a string of length 0
	if s, ok := b.constString(); ok && s == "" {
		return in.Eq(in.Len(a), in.Int(0))
	}
	if s, ok := a.constString(); ok && s == "" {
		return in.Eq(in.Len(b), in.Int(0))
	}
	// x + k == y + l
	ab, ak := splitAddK(a)
	bb, bk := splitAddK(b)
	if isIntTerm(a) && isIntTerm(b) && (ak != 0 || bk != 0) {
		if ab == bb {
			return in.Bool(ak == bk)
		}
		if ab != nil && bb != nil {
			if ab.id > bb.id {
				ab, bb, ak, bk = bb, ab, bk, ak
			}
			a, b = ab, in.AddK(bb, bk-ak)
			return in.mk(OEq, tBool, "", nil, nil, a, b)
		}
	}
	if b.op != OConst && (a.op == OConst || a.id > b.id) {
		a, b = b, a
	}
	return in.mk(OEq, tBool, "", nil, nil, a, b)
}

func isBoolTerm(t *Term) bool { return t.typ != nil && isBool(t.typ) }

func isIntTerm(t *Term) bool { return t.typ != nil && isInteger(t.typ) }

func (in *Interner) Lt(a, b *Term) *Term {
	if a == b {
		return in.Bool(false)
	}
	if a.op == OConst && b.op == OConst && a.cv != nil && b.cv != nil {
		return in.Bool(constant.Compare(a.cv, token.LSS, b.cv))
	}
	if isIntTerm(a) && isIntTerm(b) {
		ab, ak := splitAddK(a)
		bb, bk := splitAddK(b)
		minus := func(t *Term) bool { return t != nil && t.op == OBin && t.aux == "-" }
		switch {
		case minus(ab) && minus(bb) && ab.args[1] == bb.args[1]:
			return in.Lt(in.AddK(ab.args[0], ak), in.AddK(bb.args[0], bk))
		case minus(ab) && bb == nil:
			return in.Lt(ab.args[0], in.AddK(ab.args[1], bk-ak))
		case minus(bb) && ab == nil:
			return in.Lt(in.AddK(bb.args[1], ak-bk), bb.args[0])
		}
		if ab != nil && ab == bb {
			return in.Bool(ak < bk)
		}
		if ab != nil && bb != nil && ak != 0 {
			return in.mk(OLt, tBool, "", nil, nil, ab, in.AddK(bb, bk-ak))
		}
	}
	return in.mk(OLt, tBool, "", nil, nil, a, b)
}

// splitAddK returns base, k with t == base + k (base nil for constants).
func splitAddK(t *Term) (*Term, int64) {
	if n, ok := t.constInt(); ok {
		return nil, n
	}
	if t.op == OAddK {
		var k int64
		fmt.Sscan(t.aux, &k)
		return t.args[0], k
	}
	return t, 0
}

func (in *Interner) AddK(t *Term, k int64) *Term {
	if n, ok := t.constInt(); ok {
		return in.Const(t.typ, constant.BinaryOp(constant.MakeInt64(n), token.ADD, constant.MakeInt64(k)))
	}
	base, k0 := splitAddK(t)
	if k0+k == 0 {
		return base
	}
	return in.mk(OAddK, base.typ, fmt.Sprint(k0+k), nil, nil, base)
}

func (in *Interner) Add(a, b *Term) *Term {
	if n, ok := b.constInt(); ok {
		return in.AddK(a, n)
	}
	if n, ok := a.constInt(); ok {
		return in.AddK(b, n)
	}
	ab, ak := splitAddK(a)
	bb, bk := splitAddK(b)
	if ab.id > bb.id {
		ab, bb = bb, ab
	}
	// (x - y) + y
	if ab.op == OBin && ab.aux == "-" && ab.args[1] == bb {
		return in.AddK(ab.args[0], ak+bk)
	}
	if bb.op == OBin && bb.aux == "-" && bb.args[1] == ab {
		return in.AddK(bb.args[0], ak+bk)
	}
	return in.AddK(in.mk(OBin, ab.typ, "+", nil, nil, ab, bb), ak+bk)
}

func (in *Interner) Sub(a, b *Term) *Term {
	if n, ok := b.constInt(); ok {
		return in.AddK(a, -n)
	}
	ab, ak := splitAddK(a)
	bb, bk := splitAddK(b)
	if ab != nil && ab == bb {
		return in.Const(a.typ, constant.MakeInt64(ak-bk))
	}
	if ab == nil {
		ab = a
		ak = 0
	}
	if ab.op == OBin && ab.aux == "+" {
		if ab.args[0] == bb {
			return in.AddK(ab.args[1], ak-bk)
		}
		if ab.args[1] == bb {
			return in.AddK(ab.args[0], ak-bk)
		}
	}
	return in.AddK(in.mk(OBin, ab.typ, "-", nil, nil, ab, bb), ak-bk)
}

func (in *Interner) Len(t *Term) *Term {
	switch t.op {
	case OConst:
		if s, ok := t.constString(); ok {
			return in.Int(int64(len(s)))
		}
		if t.isNil() {
			return in.Int(0)
		}
	case OSliceLit:
		return in.Int(int64(len(t.args)))
	case OMake:
		return t.args[0]
	case OAppend:
		return in.Add(in.Len(t.args[0]), in.Len(t.args[1]))
	case OStoreElem, OSorted:
		return in.Len(t.args[0])
	case OMapEmpty:
		return in.Int(0)
	case OSliceOf:
		return in.Sub(t.args[2], t.args[1])
	case OConvert:
		if t.aux == "bytes" {
			return in.Len(t.args[0])
		}
	case OCall:
		if n := t.callName(); n == "copy" || n == "copyat" || n == "reversed" {
			return in.Len(t.args[0])
		} else if n == "concat" && len(t.args) > 0 {
			sum := in.Int(0)
			for _, a := range t.args {
				sum = in.Add(sum, in.Len(a))
			}
			return sum
		}
	}
	return in.mk(OLen, tInt, "", nil, nil, t)
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func (in *Interner) Elem(c, i *Term, et types.Type) *Term {
	switch c.op {
	case OSliceLit:
		if n, ok := i.constInt(); ok && n >= 0 && int(n) < len(c.args) {
			return c.args[n]
		}
	case OStoreElem:
		if c.args[1] == i {
			return c.args[2]
		}
		n, ok1 := i.constInt()
		m, ok2 := c.args[1].constInt()
		if ok1 && ok2 && n != m {
			return in.Elem(c.args[0], i, et)
		}
	case OMake:
		return in.Zero(et)
	case OSliceOf:
		return in.Elem(c.args[0], in.Add(c.args[1], i), et)
	case OConvert:
		if c.aux == "bytes" {
			return in.Elem(c.args[0], i, et)
		}
	case OConst:
		if s, ok := c.constString(); ok {
			if n, ok := i.constInt(); ok && n >= 0 && int(n) < len(s) {
				return in.Const(et, constant.MakeInt64(int64(s[n])))
			}
		}
	}
	return in.mk(OElem, et, "", nil, nil, c, i)
}

func (in *Interner) Append(a, b *Term) *Term {
	if b.op == OSliceLit && len(b.args) == 0 || b.isNil() {
		return a
	}
	return in.mk(OAppend, a.typ, "", nil, nil, a, b)
}

func (in *Interner) SliceOf(x, lo, hi *Term, typ types.Type) *Term {
	if lo == nil {
		lo = in.Int(0)
	}
	full := hi == nil || hi == in.Len(x)
	if hi == nil {
		hi = in.Len(x)
	}
	if n, ok := lo.constInt(); ok && n == 0 && full {
		return x
	}
	if x.op == OSliceOf {
		return in.mk(OSliceOf, typ, "", nil, nil, x.args[0], in.Add(x.args[1], lo), in.Add(x.args[1], hi))
	}
	if x.op == OSliceLit {
		l, ok1 := lo.constInt()
		h, ok2 := hi.constInt()
		if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(x.args) {
			return in.mk(OSliceLit, typ, "", nil, nil, x.args[l:h]...)
		}
	}
	return in.mk(OSliceOf, typ, "", nil, nil, x, lo, hi)
}

func (in *Interner) Extract(t *Term, i int, typ types.Type) *Term {
	if t.op == OTuple {
		return t.args[i]
	}
	return in.mk(OExtract, typ, fmt.Sprint(i), nil, nil, t)
}

func (in *Interner) Tuple(args ...*Term) *Term { return in.mk(OTuple, nil, "", nil, nil, args...) }

func (in *Interner) Fresh(typ types.Type, name string) *Term {
	in.seq++
	return in.mk(OUnknown, typ, fmt.Sprintf("%s#%d", name, in.seq), nil, nil)
}

// Lookup and Has resolve a key in a map content.
func (in *Interner) Lookup(m, k *Term, et types.Type) *Term {
	if m.isNil() {
		return in.Zero(et)
	}
	switch m.op {
	case OMapEmpty:
		return in.Zero(et)
	case OInsert:
		if m.args[1] == k {
			return m.args[2]
		}
		if distinct(m.args[1], k) {
			return in.Lookup(m.args[0], k, et)
		}
	case ODelete:
		if m.args[1] == k {
			return in.Zero(et)
		}
		if distinct(m.args[1], k) {
			return in.Lookup(m.args[0], k, et)
		}
	}
	return in.mk(OLookup, et, "", nil, nil, m, k)
}

func (in *Interner) Has(m, k *Term) *Term {
	if m.isNil() {
		return in.Bool(false)
	}
	switch m.op {
	case OMapEmpty:
		return in.Bool(false)
	case OInsert:
		if m.args[1] == k {
			return in.Bool(true)
		}
		if distinct(m.args[1], k) {
			return in.Has(m.args[0], k)
		}
	case ODelete:
		if m.args[1] == k {
			return in.Bool(false)
		}
		if distinct(m.args[1], k) {
			return in.Has(m.args[0], k)
		}
	}
	return in.mk(OHas, tBool, "", nil, nil, m, k)
}

// distinct reports that a and b certainly differ.
func distinct(a, b *Term) bool {
	if a.op == OConst && b.op == OConst && a.cv != nil && b.cv != nil {
		return a != b && !constant.Compare(a.cv, token.EQL, b.cv)
	}
	ab, ak := splitAddK(a)
	bb, bk := splitAddK(b)
	return ab != nil && ab == bb && ak != bk
}

// CallInfo identifies an uninterpreted callee.
type CallInfo struct {
	name   string
	nonNil bool
	fn     *ssa.Function
	instr  ssa.Instruction
}

func (t *Term) callName() string {
	if t.op == OCall {
		return t.obj.(*CallInfo).name
	}
	return ""
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 9 {
		return "…"
	}
	a := func(i int) string { return t.args[i].show(d + 1) }
	all := func() string {
		s := make([]string, len(t.args))
		for i, x := range t.args {
			s[i] = x.show(d + 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		if t.cv != nil {
			return t.cv.String()
		}
		return t.aux
	case OSym, OUnknown:
		return t.aux
	case OStruct:
		return shortType(t.typ) + "{" + all() + "}"
	case OField:
		st := structType(t.args[0].typ)
		n := t.aux
		var i int
		fmt.Sscan(t.aux, &i)
		if st != nil && i < st.NumFields() {
			n = st.Field(i).Name()
		}
		return a(0) + "." + n
	case OIface:
		return "iface(" + shortType(t.obj.(types.Type)) + ":" + a(0) + ")"
	case OUnbox:
		return a(0) + ".(" + shortType(t.obj.(types.Type)) + ")"
	case OTypeIs:
		return "(" + a(0) + " is " + shortType(t.obj.(types.Type)) + ")"
	case OTypeOf:
		return "TypeOf(" + a(0) + ")"
	case OLt:
		return "(" + a(0) + " < " + a(1) + ")"
	case OEq:
		return "(" + a(0) + " == " + a(1) + ")"
	case ONot:
		return "!" + a(0)
	case OBin:
		return "(" + a(0) + " " + t.aux + " " + a(1) + ")"
	case OUn:
		return t.aux + a(0)
	case OAddK:
		return "(" + a(0) + "+" + t.aux + ")"
	case OLen:
		return "len(" + a(0) + ")"
	case OElem:
		return a(0) + "[" + a(1) + "]"
	case OSliceLit:
		return "[" + all() + "]"
	case OSliceOf:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OMake:
		return "make(" + all() + ")"
	case OAppend:
		return "append(" + all() + ")"
	case OStoreElem:
		return "store(" + all() + ")"
	case OSorted:
		return "sorted<" + t.aux + ">(" + a(0) + ")"
	case OMapEmpty:
		return "{}"
	case OMapInit:
		return "*" + a(0)
	case OInsert:
		return "insert(" + all() + ")"
	case ODelete:
		return "delete(" + all() + ")"
	case OLookup:
		return a(0) + "{" + a(1) + "}"
	case OHas:
		return "(" + a(1) + " in " + a(0) + ")"
	case OAlloc:
		return "&" + t.aux
	case OGlobal:
		return "&global." + t.aux
	case OFieldPtr:
		return "&" + a(0) + "->" + t.aux
	case OElemPtr:
		return "&" + a(0) + "[" + a(1) + "]"
	case ODeref:
		return "*" + a(0)
	case OCall:
		return t.obj.(*CallInfo).name + "(" + all() + ")"
	case OExtract:
		return a(0) + "#" + t.aux
	case OTuple:
		return "<" + all() + ">"
	case OClosure:
		return "func " + t.obj.(*ssa.Function).Name()
	case OConvert:
		return shortType(t.typ) + "(" + a(0) + ")"
	case OErr:
		return "error!"
	case OLoop:
		return t.obj.(*Loop).name() + "." + t.aux
	case OClos:
		return t.aux + "<" + all() + ">"
	case OPrev:
		return t.obj.(*Loop).name() + ".prev." + t.aux
	case OIterKey:
		return t.obj.(*Loop).name() + ".key"
	}
	return fmt.Sprintf("op%d(%s)", t.op, all())
}

// contains reports whether t contains a subterm satisfying f.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
