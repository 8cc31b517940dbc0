package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "P06", run: ruleP06,
		explanation: "Abstract interpretation of ApplyOperation, once for each kind of document, operation type and kind of value, at the root, at the last segment and at an earlier one: every successful outcome must build the leaf from the operation's value and timestamp, keep every other member or element, and take away exactly the named node; deeper segments by induction over the recursion. Values that are no leaf and unsupported operations must be errors.",
		assumptions: []string{"operation values are those the documentation lists (strings, booleans, Go number types); user-defined types and pointers are outside", "no integer overflow", "documents of bounded depth"}})
}

// applier analyses the application of one operation, kind by kind.
type applier struct {
	c              *Ctx
	e              *Eval
	in             *Interner
	iface          types.Type
	kinds          []docKind
	opT            types.Type
	fn             *ssa.Function
	doc, parts, op int
	cur            applyCell
	clean          bool
	P, OP          *Term
	D              docCell
	single         *Term   // the operation of ApplyOperation
	refusals       []*Conj // when it fails before it descends
}

type applyCell struct {
	k     docKind
	parts int // 0, 1 or 2 for more
	op    string
	val   string
}

func (c applyCell) String() string {
	s := fmt.Sprintf("%s in %s at %d", c.op, c.k.name, c.parts)
	if c.val != "" {
		s += " of " + c.val
	}
	return s
}

// descender is the recursive function that applies an operation below fn.
func descender(fn *ssa.Function, isDoc func(types.Type) bool) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	callees := func(f *ssa.Function) (out []*ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && repoPkgFn(g, "/tsonpatch") {
						out = append(out, g)
					}
				}
			}
		}
		return
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		order = append(order, f)
		for _, g := range callees(f) {
			visit(g)
		}
	}
	visit(fn)
	reaches := func(from, to *ssa.Function) bool {
		s := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function) bool
		rec = func(f *ssa.Function) bool {
			for _, g := range callees(f) {
				if g == to {
					return true
				}
				if !s[g] {
					s[g] = true
					if rec(g) {
						return true
					}
				}
			}
			return false
		}
		return rec(from)
	}
	for _, f := range order {
		doc, parts := false, false
		for _, p := range f.Params {
			doc = doc || isDoc(p.Type())
			parts = parts || isStrings(p.Type())
		}
		if doc && parts && reaches(f, f) {
			return f
		}
	}
	return nil
}

func isStrings(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isString(s.Elem())
}

func (a *applier) args(cell applyCell) (args []*Term, pc *Conj, heap map[*Term]*Term) {
	in := a.in
	pc = in.newConj(nil)
	heap = map[*Term]*Term{}
	args = make([]*Term, len(a.fn.Params))
	d := a.e.docCell(cell.k, a.iface, "D")
	args[a.doc] = d.t
	parts := in.mk(OSym, a.fn.Params[a.parts].Type(), "parts", nil, nil)
	args[a.parts] = parts
	n := in.Len(parts)
	switch cell.parts {
	case 0, 1:
		pc = pc.with(in.Eq(n, in.Int(int64(cell.parts))), true)
	default:
		pc = pc.with(in.Lt(n, in.Int(2)), false)
	}
	st := structType(a.opT)
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		f := st.Field(i)
		switch f.Name() {
		case "Op":
			if cell.op == "other" {
				fs[i] = in.mk(OSym, f.Type(), "op", nil, nil)
				for _, o := range opNames {
					pc = pc.with(in.Eq(fs[i], in.Const(f.Type(), constant.MakeString(o))), false)
				}
			} else {
				fs[i] = in.Const(f.Type(), constant.MakeString(cell.op))
			}
		case "Value":
			switch cell.val {
			case "nil":
				fs[i] = in.Zero(f.Type())
			case "other", "":
				fs[i] = in.mk(OSym, f.Type(), "V", nil, nil)
				if cell.val == "other" {
					pc = pc.with(in.Eq(fs[i], in.Zero(f.Type())), false)
					for _, T := range valueTypes {
						pc = pc.with(in.TypeIs(fs[i], T), false)
					}
				}
			default:
				for _, T := range valueTypes {
					if T.Name() == cell.val {
						fs[i] = in.MakeIface(T, in.mk(OSym, T, "V", nil, nil))
					}
				}
			}
		default:
			fs[i] = in.mk(OSym, f.Type(), "op."+f.Name(), nil, nil)
		}
	}
	args[a.op] = in.mk(OStruct, a.opT, "", nil, nil, fs...)
	return
}

var opNames = []string{"add", "remove", "replace", "move", "copy", "test"}

var valueTypes = []*types.Basic{types.Typ[types.String], types.Typ[types.Float64], types.Typ[types.Int], types.Typ[types.Bool]}

func newApplier(c *Ctx) *applier {
	a := &applier{c: c, doc: -1, parts: -1, op: -1}
	a.iface, a.kinds = docKinds()
	fn := c.p.fn(pkgPat, "ApplyOperation")
	if fn == nil || a.iface == nil || len(fn.Params) != 2 {
		c.undecided("anchor", "ApplyOperation", "-", "the function is not found")
		return nil
	}
	a.opT = fn.Params[1].Type()
	isDoc := func(t types.Type) bool { return types.Identical(t, a.iface) }
	a.fn = descender(fn, isDoc)
	if a.fn == nil || structType(a.opT) == nil {
		c.undecided("anchor", "ApplyOperation", c.p.pos(fn.Pos()), "the function that descends into the document is not found")
		return nil
	}
	for i, p := range a.fn.Params {
		switch {
		case isDoc(p.Type()) && a.doc < 0:
			a.doc = i
		case isStrings(p.Type()) && a.parts < 0:
			a.parts = i
		case types.Identical(p.Type(), a.opT) && a.op < 0:
			a.op = i
		default:
			a.doc = len(a.fn.Params)
		}
	}
	if a.doc < 0 || a.doc == len(a.fn.Params) || a.parts < 0 || a.op < 0 || a.fn.Signature.Results().Len() != 2 {
		c.undecided("anchor", a.fn.Name(), c.p.pos(a.fn.Pos()), "the arguments of the function are not recognised")
		return nil
	}
	return a
}

func ruleP06(c *Ctx) {
	a := newApplier(c)
	if a == nil {
		return
	}
	a.e = newEval(c.p)
	a.in = a.e.in
	a.e.forgetExit = true
	a.e.opaque = func(f *ssa.Function) bool { return repoPkgFn(f, "/tson") }
	for _, cell := range a.cells() {
		a.cell(cell)
	}
	for _, f := range a.e.entered() {
		c.analysed[f] = true
	}
	a.entry("ApplyOperation")
}

func (a *applier) cells() (out []applyCell) {
	for _, k := range a.kinds {
		for n := 0; n <= 2; n++ {
			for _, op := range append(append([]string{}, opNames...), "other") {
				vals := []string{""}
				if op == "add" || op == "replace" {
					vals = []string{"string", "float64", "int", "bool", "nil", "other"}
				}
				for _, v := range vals {
					out = append(out, applyCell{k, n, op, v})
				}
			}
		}
	}
	return
}

func (a *applier) cell(cell applyCell) {
	e := a.e
	a.cur, a.clean = cell, true
	args, pc, heap := a.args(cell)
	a.P, a.OP = args[a.parts], args[a.op]
	a.D = e.docCell(cell.k, a.iface, "D")
	e.problems, e.approx = map[string]bool{}, 0
	e.loopsByKey = map[string]*Loop{}
	st := &State{env: map[ssa.Value]*Term{}, heap: heap, pc: DNF{pc}}
	outs := e.callFn(nil, st, a.fn, nil, args, nil)
	if len(e.problems) > 0 {
		a.open("cells", "not followed: %s", sortedKeys(e.problems)[0])
		return
	}
	if e.approx > 0 {
		a.open("cells", "too many cases")
		return
	}
	succeeds, fails := 0, 0
	for _, o := range outs {
		for _, pc := range o.st.pc {
			failed, known := errorResult(pc, o.results[1], a.in)
			if !known {
				a.open("cells", "whether the operation fails is not decided: %s", brief(o.results[1]))
				continue
			}
			if failed {
				fails++
				continue
			}
			succeeds++
			a.success(o.st, pc, o.results[0])
		}
	}
	if a.mustHave() && succeeds == 0 && a.clean {
		a.bad("refused", "the operation always fails")
	}
	if a.clean {
		a.c.ok("cells", cell.String())
	}
}

func (a *applier) bad(rule, f string, args ...any) {
	a.clean = false
	a.c.bad(rule, a.cur.String(), a.c.p.pos(a.fn.Pos()), f, args...)
}

func (a *applier) open(rule, f string, args ...any) {
	a.clean = false
	a.c.undecided(rule, a.cur.String(), a.c.p.pos(a.fn.Pos()), f, args...)
}

// mustHave: there are documents, paths and values for which the operation
// succeeds.
func (a *applier) mustHave() bool {
	c := a.cur
	switch {
	case c.parts > 0 && !c.k.obj && !c.k.arr:
		return false
	case c.op == "remove":
		return c.parts > 0
	case c.op == "add" || c.op == "replace":
		return c.val != "nil" && c.val != "other"
	}
	return false
}

// success judges the effect of an operation that succeeds.
func (a *applier) success(st *State, pc *Conj, res *Term) {
	c := a.cur
	in := a.in
	value := (c.op == "add" || c.op == "replace") && c.val != "nil"
	if c.parts > 1 && (!value && c.op != "remove" || c.val == "other") && a.delegated(pc) {
		return // refused further below
	}
	if c.val == "other" {
		// further kinds of values may be supported
		T := otherKind(pc, a.opField("Value"))
		if T == nil {
			a.bad("refuses", "a value that a leaf cannot hold is accepted")
			return
		}
	}
	if c.op == "test" {
		a.test(st, pc, res)
		return
	}
	if !value && c.op != "remove" {
		a.bad("refuses", "the operation is not refused")
		return
	}
	if c.parts == 0 {
		if c.op == "remove" {
			if !res.isNil() {
				a.bad("effect", "removing the whole document yields %s", brief(res))
			}
			return
		}
		a.effects(st, pc, nil)
		a.leaf(pc, res)
		return
	}
	if !c.k.obj && !c.k.arr {
		if res == a.D.t {
			a.bad("refuses", "an operation below a leaf or null is not refused")
		} else {
			a.open("refuses", "an operation below a leaf or null yields %s", brief(res))
		}
		return
	}
	if res.op != OIface || !types.Identical(res.obj.(types.Type), c.k.T) {
		if res.isNil() || res.op == OIface {
			a.bad("effect", "the container becomes %s", brief(res))
		} else {
			a.open("effect", "the container becomes %s", brief(res))
		}
		return
	}
	if c.k.obj {
		m := res.args[0]
		content := a.e.mapContent(st, m)
		a.effects(st, pc, m)
		a.member(st, pc, m, content)
		return
	}
	ref := res.args[0]
	a.effects(st, pc, ref)
	a.element(st, pc, a.e.content(st, ref))
	_ = in
}

// delegated: the conditions show that the operation succeeded further below.
func (a *applier) delegated(pc *Conj) bool {
	for _, l := range pc.lits {
		if !l.val || l.atom.op != OEq {
			continue
		}
		for _, t := range l.atom.args {
			if t.op == OExtract && t.aux == "1" && t.args[0].op == OCall && t.args[0].callName() == fullName(a.fn) &&
				t.args[0].args[a.op] == a.OP && t.args[0].args[a.parts] == a.in.SliceOf(a.P, a.in.Int(1), nil, a.P.typ) {
				return true
			}
		}
	}
	return false
}

// effects: nothing else that exists is written.
func (a *applier) effects(st *State, pc *Conj, res *Term) {
	for _, k := range sortedTerms(st.heap) {
		if k == res || k == a.D.v || localOnly(k) && k.op != OSliceOf {
			continue
		}
		if k.op == OSliceOf && k.args[0] == a.D.v {
			continue // part of the array itself
		}
		a.open("effect", "%s is written, too", brief(k))
	}
}

func sortedTerms(m map[*Term]*Term) (out []*Term) {
	for k := range m {
		out = append(out, k)
	}
	slices.SortFunc(out, func(x, y *Term) int { return x.id - y.id })
	return
}

// opField is the field of the operation.
func (a *applier) opField(name string) *Term {
	st := structType(a.opT)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return a.in.Field(a.OP, i, st.Field(i).Type())
		}
	}
	return nil
}

// otherKind is the type that the conditions know v to have.
func otherKind(pc *Conj, v *Term) types.Type {
	for _, l := range pc.lits {
		if l.val && l.atom.op == OTypeIs && l.atom.args[0] == v {
			return l.atom.obj.(types.Type)
		}
	}
	return nil
}

// leaf: t is the leaf for the operation's value.
func (a *applier) leaf(pc *Conj, t *Term) {
	if t.op != OIface {
		if t.isNil() {
			a.bad("leaf", "no leaf is written")
		} else {
			a.open("leaf", "the leaf %s is not followed", brief(t))
		}
		return
	}
	T := t.obj.(types.Type)
	var k *docKind
	for i := range a.kinds {
		if a.kinds[i].T != nil && types.Identical(a.kinds[i].T, T) {
			k = &a.kinds[i]
		}
	}
	if k == nil || !k.leaf {
		a.open("leaf", "%s is written", brief(t))
		return
	}
	l := a.e.docAs(*k, a.iface, t)
	v := a.opField("Value")
	var want *Term
	kind := a.cur.val
	switch kind {
	case "other":
		S := otherKind(pc, v)
		b, ok := S.Underlying().(*types.Basic)
		if !ok {
			a.open("leaf", "a value of the type %s is accepted", S)
			return
		}
		want = a.e.convert(a.in.Unbox(v, S), S, k.bt)
		switch {
		case b.Info()&types.IsString != 0:
			kind = "string"
		case b.Info()&types.IsNumeric != 0:
			kind = "float64"
		case b.Info()&types.IsBoolean != 0:
			kind = "bool"
		}
	case "int":
		want = a.e.convert(v.args[0], types.Typ[types.Int], k.bt)
		kind = "float64"
	default:
		want = v.args[0]
	}
	if b, ok := k.bt.Underlying().(*types.Basic); !ok || b.Name() != kind {
		a.bad("leaf", "the value becomes a %s", k.name)
		return
	}
	if l.val != want {
		a.differs("leaf", "value", l.val, want)
	}
	if ts := a.opField("Timestamp"); l.ts != ts {
		a.differs("leaf", "timestamp", l.ts, ts)
	}
}

func (a *applier) differs(rule, what string, got, want *Term) {
	if got.op == OUnknown || got.op == OLoop || got.op == OCall && strings.Contains(got.callName(), a.c.p.mod) {
		a.open(rule, "the %s is %s, not followed", what, brief(got))
		return
	}
	a.bad(rule, "the %s is %s, not %s", what, brief(got), brief(want))
}

// child: t replaces the child c below the first segment. absent: c does not
// exist.
func (a *applier) child(pc *Conj, t, c *Term, absent bool) {
	in := a.in
	if a.cur.parts == 1 {
		a.leaf(pc, t)
		return
	}
	if t == c {
		a.bad("effect", "the child is left as it is")
		return
	}
	if t.op != OExtract || t.aux != "0" || t.args[0].op != OCall || t.args[0].callName() != fullName(a.fn) {
		if t.op == OExtract && t.args[0].op == OCall {
			a.open("descent", "the child becomes %s, not followed", brief(t))
		} else {
			a.bad("descent", "the child becomes %s", brief(t))
		}
		return
	}
	call := t.args[0]
	if p := call.args[a.parts]; p != in.SliceOf(a.P, in.Int(1), nil, a.P.typ) {
		if p == a.P || p.op == OSliceOf && p.args[0] == a.P {
			a.bad("descent", "the path goes on with %s", brief(p))
		} else {
			a.open("descent", "the path goes on with %s", brief(p))
		}
	}
	if op := call.args[a.op]; op != a.OP {
		a.open("descent", "the operation becomes %s", brief(op))
	}
	d := call.args[a.doc]
	if d == c || c != nil && d == a.boxed(pc, c) {
		return
	}
	// a new container
	empty := false
	if d.op == OIface {
		p := d.args[0]
		switch {
		case p.op == OMapEmpty || p.op == OSliceLit && len(p.args) == 0:
			empty = true
		case p.op == OMake:
			n, isC := p.args[0].constInt()
			empty = isC && n == 0
		}
	}
	switch {
	case !empty && (d.op == OLookup || d.op == OElem):
		a.bad("descent", "the operation goes on in %s", brief(d))
		return
	case !empty:
		a.open("descent", "the operation goes on in %s", brief(d))
		return
	}
	if a.cur.op == "remove" {
		a.bad("effect", "a removal adds a container")
		return
	}
	if absent {
		return
	}
	if is := pc.with(in.Eq(c, in.Zero(a.iface)), false); is != nil {
		// the child may exist
		for _, k := range a.kinds {
			if k.T == nil {
				continue
			}
			if pc.withAll([]Lit{{in.Eq(c, in.Zero(a.iface)), false}, {in.TypeIs(c, k.T), true}}) != nil && !a.ruledOut(pc, c) {
				a.bad("effect", "an existing %s is replaced by an empty container", k.name)
				return
			}
		}
	}
}

// ruledOut: the conditions know that the key of the child is missing.
func (a *applier) ruledOut(pc *Conj, c *Term) bool {
	if c.op != OLookup {
		return false
	}
	v, known := pc.decide(a.in.Has(c.args[0], c.args[1]))
	return known && !v
}

// boxed: c after a type switch.
func (a *applier) boxed(pc *Conj, c *Term) *Term {
	for _, k := range a.kinds {
		if k.T == nil {
			continue
		}
		if v, known := pc.decide(a.in.TypeIs(c, k.T)); known && v {
			return a.in.MakeIface(k.T, a.in.Unbox(c, k.T))
		}
	}
	return nil
}

// descended: the conditions show that the operation succeeded in child.
func (a *applier) descended(pc *Conj, child *Term) bool {
	for _, l := range pc.lits {
		if l.atom.contains(func(t *Term) bool {
			return t.op == OCall && t.callName() == fullName(a.fn) && (t.args[a.doc] == child || t.args[a.doc] == a.boxed(pc, child))
		}) {
			return true
		}
	}
	return false
}

// member: the content of the object after the operation.
func (a *applier) member(st *State, pc *Conj, m, content *Term) {
	in := a.in
	base := in.mk(OMapInit, a.D.v.typ, "", nil, nil, a.D.v)
	key := in.Elem(a.P, in.Int(0), tString)
	var val *Term
	state := ""
	t := content
	for ; t.op == OInsert || t.op == ODelete; t = t.args[0] {
		if t.args[1] != key {
			if k := t.args[1]; k.op == OElem || k.op == OConst || k.op == OSym {
				a.bad("effect", "the member %s is written", brief(k))
			} else {
				a.open("effect", "the member %s is written", brief(k))
			}
			return
		}
		if state == "" {
			if state = "delete"; t.op == OInsert {
				state, val = "insert", t.args[2]
			}
		}
	}
	if t.op == OMapEmpty {
		a.bad("effect", "the other members are lost")
		return
	}
	if t != base {
		a.open("effect", "the members become %s", brief(content))
		return
	}
	child := in.Lookup(base, key, a.iface)
	switch {
	case a.cur.op == "remove" && a.cur.parts == 1:
		if state == "insert" {
			a.bad("effect", "the removed member becomes %s", brief(val))
		} else if has, known := pc.decide(in.Has(base, key)); state == "" && !(known && !has) {
			a.bad("effect", "the member is not removed")
		}
	case state == "delete":
		a.bad("effect", "the member is removed")
	case state == "":
		if a.cur.parts > 1 && a.descended(pc, child) {
			// the child itself was changed
			if v, known := pc.decide(in.TypeIs(child, a.objT())); !known || !v {
				a.bad("effect", "the changed child is not stored: an array that grows or shrinks is lost")
			}
			return
		}
		if a.cur.op == "remove" {
			if a.absent(pc, child) {
				return
			}
		}
		a.bad("effect", "nothing is written")
	default:
		a.child(pc, val, child, a.ruledOut(pc, child))
	}
}

func (a *applier) absent(pc *Conj, child *Term) bool {
	v, known := pc.decide(a.in.Eq(child, a.in.Zero(a.iface)))
	return known && v || a.ruledOut(pc, child)
}

func (a *applier) objT() types.Type {
	for _, k := range a.kinds {
		if k.obj {
			return k.T
		}
	}
	return nil
}

// index recognises the index that the first segment names.
func (a *applier) index(t *Term) bool {
	for t.op == OConvert {
		t = t.args[0]
	}
	if t.op != OExtract || t.aux != "0" || t.args[0].op != OCall {
		return false
	}
	c := t.args[0]
	switch c.callName() {
	case "strconv.ParseInt", "strconv.ParseUint":
		if b, ok := c.args[1].constInt(); !ok || b != 10 && b != 0 {
			return false
		}
	case "strconv.Atoi":
	default:
		return false
	}
	return c.args[0] == a.in.Elem(a.P, a.in.Int(0), tString)
}

// element: the content of the array after the operation.
func (a *applier) element(st *State, pc *Conj, content *Term) {
	in := a.in
	D := a.D.v
	// the index in use
	var idx *Term
	find := func(t *Term) bool {
		if idx == nil && a.index(t) {
			idx = t
		}
		return false
	}
	content.contains(find)
	for _, l := range pc.lits {
		l.atom.contains(find)
	}
	if idx == nil {
		if content == D {
			a.bad("effect", "nothing is written")
			return
		}
		a.open("effect", "the array becomes %s", brief(content))
		return
	}
	within, known := pc.decide(in.Lt(idx, in.Len(D)))
	if a.cur.op == "remove" && a.cur.parts == 1 {
		switch ok, sure := removed(in, content, D, idx); {
		case ok:
		case content == D && known && !within:
		case sure || content == D || content.op == OStoreElem:
			a.bad("effect", "the element is not removed: the array becomes %s", brief(content))
		default:
			without := func(l []string, i int) []string {
				if i >= len(l) {
					return l
				}
				return append(append([]string{}, l[:i]...), l[i+1:]...)
			}
			if why := refute(D, idx, content, pc, without); why != "" {
				a.bad("effect", "the array does not just lose the element: %s", why)
				return
			}
			a.open("effect", "the array becomes %s", brief(content))
		}
		return
	}
	t := content
	var val *Term
	for ; t.op == OStoreElem; t = t.args[0] {
		if t.args[1] != idx {
			p, k := splitAddK(t.args[1])
			if p == idx && k != 0 || t.args[1].op == OConst {
				a.bad("effect", "the element %s is written", brief(t.args[1]))
			} else {
				a.open("effect", "the element %s is written", brief(t.args[1]))
			}
			return
		}
		if val == nil {
			val = t.args[2]
		}
	}
	grown := false
	switch {
	case t == D:
		if known && !within {
			// the store itself fails
			a.open("effect", "the array is written behind its end")
			return
		}
	default:
		n, why := extended(in, t, D)
		if why != "" {
			if why == "lost" {
				a.bad("effect", "the other elements are lost")
			} else {
				a.open("effect", "the array becomes %s", brief(content))
			}
			return
		}
		if !known || within {
			if n == in.Len(D) {
				break // a copy
			}
			if known {
				a.bad("effect", "the length of the array becomes %s", brief(n))
			} else {
				a.open("effect", "the length of the array becomes %s", brief(n))
			}
			return
		}
		grown = true
		if n != in.AddK(idx, 1) {
			p, _ := splitAddK(n)
			if p == idx {
				a.bad("effect", "the length of the array becomes %s", brief(n))
			} else {
				a.open("effect", "the length of the array becomes %s", brief(n))
			}
			return
		}
	}
	child := in.Elem(t, idx, a.iface)
	if val == nil {
		if a.cur.parts > 1 && a.descended(pc, child) {
			if v, known := pc.decide(in.TypeIs(child, a.objT())); !known || !v {
				a.bad("effect", "the changed child is not stored: an array that grows or shrinks is lost")
			}
			return
		}
		a.bad("effect", "nothing is written")
		return
	}
	a.child(pc, val, child, grown)
}

// removed: content is list without the element idx. sure: it is known not to be.
func removed(in *Interner, content, list, idx *Term) (ok, sure bool) {
	head := in.SliceOf(list, in.Int(0), idx, list.typ)
	tail := in.SliceOf(list, in.AddK(idx, 1), in.Len(list), list.typ)
	isPart := func(t *Term) bool { return t == list || t.op == OSliceOf && t.args[0] == list }
	switch content.op {
	case OAppend:
		x, y := content.args[0], content.args[1]
		if x.op == OAppend && x.args[0].op == OSliceLit && len(x.args[0].args) == 0 {
			x = x.args[1] // append(append([]T{}, head...), tail...)
		}
		if x.op == OAppend && x.args[0].op == OMake {
			if n, isC := x.args[0].args[0].constInt(); isC && n == 0 {
				x = x.args[1]
			}
		}
		return x == head && y == tail, isPart(x) && isPart(y)
	case OSliceOf:
		// the tail was moved over the element
		mv := content.args[0]
		if mv == list {
			return false, true
		}
		return content.args[1] == in.Int(0) && content.args[2] == in.AddK(in.Len(list), -1) && mv.op == OCall && mv.callName() == "copyat" &&
			mv.args[0] == list && mv.args[1] == idx && mv.args[2] == tail, false
	}
	return false, false
}

// extended: t is list, made longer by null elements, or a copy of it.
func extended(in *Interner, t, list *Term) (n *Term, why string) {
	switch {
	case t.op == OMake:
		return nil, "lost"
	case t.op == OCall && t.callName() == "copy" && t.args[0].op == OMake && t.args[1] == list:
		return t.args[0].args[0], ""
	case t.op == OAppend && t.args[0] == list && t.args[1].op == OMake:
		return in.Add(in.Len(list), t.args[1].args[0]), ""
	case t.op == OAppend && t.args[0].op == OSliceLit && len(t.args[0].args) == 0 && t.args[1] == list:
		return in.Len(list), ""
	}
	return nil, "?"
}

// test: a test operation, if it is supported, changes nothing and depends on
// the value.
func (a *applier) test(st *State, pc *Conj, res *Term) {
	v := a.opField("Value")
	for _, l := range pc.lits {
		if l.atom.contains(func(t *Term) bool { return t == v }) {
			a.open("refuses", "the operation is supported in some cases")
			return
		}
	}
	a.bad("refuses", "the operation is not refused")
}

// step recognises the application of one operation to a document.
type step struct {
	doc, parts, op *Term
	call           *Term
}

func (a *applier) step(t *Term) (s step, ok bool) {
	if t.op != OExtract || t.args[0].op != OCall || t.args[0].callName() != fullName(a.fn) {
		return
	}
	c := t.args[0]
	return step{c.args[a.doc], c.args[a.parts], c.args[a.op], c}, true
}

// ofPath: the parts are those of the operation's path.
func (a *applier) ofPath(s step) (good, known bool) {
	st := structType(a.opT)
	p := s.parts
	if p.op == OExtract && p.args[0].op == OCall {
		p = p.args[0]
	}
	if p.op != OCall || !strings.HasSuffix(p.callName(), "tson.SplitPath") {
		return false, p.op == OCall && strings.HasPrefix(p.callName(), "strings.") || p.op == OSliceOf
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Path" {
			return p.args[0] == a.in.Field(s.op, i, st.Field(i).Type()), p.args[0].op != OUnknown
		}
	}
	return false, false
}

// copied: t is a document or a copy of it.
func unclone(t *Term) *Term {
	for t.op == OExtract && t.args[0].op == OCall && strings.HasSuffix(t.args[0].callName(), "tson.Clone") {
		t = t.args[0].args[0]
	}
	return t
}

// applyEval analyses a caller of the descending function.
func (a *applier) applyEval() {
	a.e = newEval(a.c.p)
	a.in = a.e.in
	a.e.forgetExit = true
	a.e.opaque = func(f *ssa.Function) bool { return repoPkgFn(f, "/tson") || f == a.fn }
}

// entry: the operation is applied to the document along its own path.
func (a *applier) entry(name string) {
	fn := a.c.p.fn(pkgPat, name)
	a.applyEval()
	e := a.e
	a.c.analysed[fn.String()] = true
	pos := a.c.p.pos(fn.Pos())
	args := e.paramSyms(fn)
	outs := e.root(fn, args)
	for _, f := range e.entered() {
		a.c.analysed[f] = true
	}
	if len(e.problems) > 0 {
		a.c.undecided("entry", name, pos, "not followed: %s", sortedKeys(e.problems)[0])
		return
	}
	good := true
	report := func(known bool, f string, as ...any) {
		good = false
		if known {
			a.c.bad("entry", name, pos, f, as...)
		} else {
			a.c.undecided("entry", name, pos, f, as...)
		}
	}
	for _, o := range outs {
		for _, pc := range o.st.pc {
			failed, known := errorResult(pc, o.results[1], a.in)
			if s, ok := a.step(o.results[1]); ok && o.results[1].aux == "1" && !known {
				// both results are passed on
				if t, ok := a.step(o.results[0]); ok && t.call == s.call && o.results[0].aux == "0" {
					failed, known = false, true
				}
			}
			if !known {
				report(false, "whether the operation fails is not decided: %s", brief(o.results[1]))
				continue
			}
			if failed {
				continue
			}
			s, ok := a.step(o.results[0])
			if !ok || o.results[0].aux != "0" {
				report(unclone(o.results[0]) == args[0] || o.results[0].isNil(), "the result is %s, not that of the operation", brief(o.results[0]))
				continue
			}
			if v, known := pc.decide(a.in.Eq(a.in.mk(OExtract, o.results[1].typ, "1", nil, nil, s.call), a.in.Zero(o.results[1].typ))); known && !v {
				report(true, "the error of the operation is lost")
			}
			if unclone(s.doc) != args[0] {
				report(false, "the operation is applied to %s", brief(s.doc))
			}
			if s.op != args[1] {
				report(s.op.op == OStruct, "the operation is applied as %s", brief(s.op))
			}
			if g, known := a.ofPath(s); !g {
				report(known, "the path that is followed is %s", brief(s.parts))
			}
		}
	}
	if good {
		a.c.ok("entry", name)
	}
}

func init() {
	register(&Rule{id: "P03", run: ruleP03,
		explanation: "Abstract interpretation of the loop over the operations of a patch: its summary must start with the given document, hand each result to the next operation in ascending order, return the first error without a document and the last result otherwise.",
		assumptions: []string{"an operation is applied by the exported function of that name"}})
}

func ruleP03(c *Ctx) {
	a := newApplier(c)
	if a == nil {
		return
	}
	fn := c.p.fn(pkgPat, "ApplyPatch")
	if fn == nil || len(fn.Params) != 2 {
		c.undecided("anchor", "ApplyPatch", "-", "the function is not found")
		return
	}
	a.applyEval()
	e, in := a.e, a.in
	c.analysed[fn.String()] = true
	pos := c.p.pos(fn.Pos())
	args := e.paramSyms(fn)
	doc, patch := args[0], args[1]
	single := c.p.fn(pkgPat, "ApplyOperation")
	a.single = e.paramSyms(single)[1]
	for _, o := range e.root(single, e.paramSyms(single)) {
		for _, pc := range o.st.pc {
			if failed, known := errorResult(pc, o.results[1], in); failed && known && a.failing(pc) == nil {
				a.refusals = append(a.refusals, pc)
			}
		}
	}
	outs := e.root(fn, args)
	for _, f := range e.entered() {
		c.analysed[f] = true
	}
	if len(e.problems) > 0 {
		c.undecided("apply", "ApplyPatch", pos, "not followed: %s", sortedKeys(e.problems)[0])
		return
	}
	good := map[string]bool{"first": true, "each": true, "next": true, "failure": true, "result": true}
	report := func(known bool, rule, f string, as ...any) {
		good[rule] = false
		if known {
			c.bad(rule, "ApplyPatch", pos, f, as...)
		} else {
			c.undecided(rule, "ApplyPatch", pos, f, as...)
		}
	}
	x := &comp{e: e}
	var loop *Loop
	var acc, carriedErr *Term
	isErr := func(t *Term) bool {
		s, ok := a.step(t)
		return ok && t.aux == "1" && s.call != nil
	}
	// the literal that says that an operation failed
	failedBy := func(pc *Conj) *Term {
		for _, l := range pc.lits {
			if l.atom.op == OEq && !l.val {
				for _, t := range l.atom.args {
					if isErr(t) {
						return t
					}
				}
			}
		}
		return nil
	}
	for _, o := range outs {
		for _, pc := range o.st.pc {
			failed, known := errorResult(pc, o.results[1], in)
			if L, _, _ := carried(in, o.results[1]); !known && L != nil {
				carriedErr = o.results[1]
			} else if !known {
				report(false, "failure", "whether the patch fails is not decided: %s", brief(o.results[1]))
				continue
			}
			by := failedBy(pc)
			if failed {
				if !o.results[0].isNil() {
					report(o.results[0].op != OUnknown, "failure", "a patch that fails yields the document %s", brief(o.results[0]))
				}
				if by == nil {
					if !a.refused(x, pc, patch) {
						report(false, "failure", "the patch fails under %s", brief(pc))
					}
				} else if o.results[1] != by && isErr(o.results[1]) {
					report(true, "failure", "the error is that of another operation")
				}
				continue
			}
			if by != nil {
				report(true, "failure", "a failing operation does not fail the patch: %s", brief(pc))
				continue
			}
			t := o.results[0]
			if unclone(t) == doc {
				// without any operations
				none := false
				for _, l := range pc.lits {
					if v, known := pc.decide(in.Eq(in.Len(patch), in.Int(0))); known && v {
						none = true
					}
					_ = l
				}
				if !none {
					report(true, "result", "the document is returned without the operations under %s", brief(pc))
				}
				continue
			}
			L, init, _ := carried(in, t)
			if L == nil {
				if t.isNil() {
					report(true, "result", "no document is returned")
				} else {
					report(false, "result", "the result %s is not followed", brief(t))
				}
				continue
			}
			if loop != nil && (loop != L || acc != t) {
				report(false, "result", "there are several loops")
				continue
			}
			loop, acc = L, t
			if unclone(init) != doc {
				report(init.isNil() || init.op == OIface, "first", "the first operation is applied to %s", brief(init))
			}
		}
	}
	if loop != nil {
		a.replay(x, loop, acc, patch, report)
	}
	if carriedErr != nil && good["failure"] {
		report(false, "failure", "whether the patch fails is not decided: %s", brief(carriedErr))
	}
	if loop == nil && good["result"] {
		report(false, "result", "no loop over the operations is found")
	}
	for _, r := range sortedKeys(good) {
		if good[r] {
			c.ok(r, "ApplyPatch")
		}
	}
}

// replay: each iteration applies the next operation to the document so far.
func (a *applier) replay(x *comp, L *Loop, acc, patch *Term, report func(known bool, rule, f string, as ...any)) {
	in := a.in
	d, test, ind, ok := x.domOf(L)
	if ok && d.kind == "num" {
		p, k := splitAddK(d.hi)
		if lo, isC := d.lo.constInt(); p == in.Len(patch) && (k != -1 || isC && lo != 0) {
			report(true, "each", "only the operations from %s to %s are applied", d.lo, d.hi)
			return
		}
	}
	if !ok || d.kind != "index" {
		report(false, "each", "the iteration over the operations is not recognised")
		return
	}
	switch {
	case d.of == patch:
	case d.of.op == OSorted || d.of.op == OCall && d.of.callName() == "reversed":
		report(true, "each", "the operations are brought into another order")
	case d.of.op == OSliceOf && d.of.args[0] == patch:
		report(true, "each", "only the operations %s are applied", brief(d.of))
	default:
		report(false, "each", "the operations are those of %s", brief(d.of))
	}
	if d.order != "asc" {
		report(true, "each", "the operations are applied from the last to the first")
	}
	_, _, next := carried(in, acc)
	for _, e := range L.exits {
		if e.from == L.nat.header || !canReturn(e.to) {
			continue
		}
		for _, pc := range e.pc {
			if a.failing(pc) == nil && !a.refused(x, pc, patch) {
				report(true, "each", "the operations behind one for which %s are left out", brief(x.bare(pc, L, test)))
			}
		}
	}
	for _, c := range L.conts {
		n := next(c)
		for _, pc := range c.pc {
			if t := a.failing(pc); t != nil {
				report(true, "failure", "the operations behind one that fails are applied")
				continue
			}
			if n == acc {
				report(true, "each", "an operation is left out under %s", brief(x.bare(pc, L, test)))
				continue
			}
			s, ok := a.step(n)
			if !ok || n.aux != "0" {
				if n.isNil() || unclone(n) == acc {
					report(true, "next", "the document becomes %s", brief(n))
				} else {
					report(false, "next", "the document becomes %s", brief(n))
				}
				continue
			}
			if unclone(s.doc) != acc {
				report(s.doc.op != OUnknown, "next", "an operation is applied to %s, not to the previous result", brief(s.doc))
			}
			want := in.Elem(d.of, ind.v, a.opT)
			if s.op != want {
				p, known := s.op, false
				if p.op == OElem && p.args[0] == d.of {
					known = true
				}
				report(known || p.op == OStruct, "each", "the operation that is applied is %s", brief(s.op))
			}
			if g, known := a.ofPath(s); !g {
				report(known, "each", "the path that is followed is %s", brief(s.parts))
			}
			if v, known := pc.decide(in.Eq(in.mk(OExtract, types.Universe.Lookup("error").Type(), "1", nil, nil, s.call), in.Zero(types.Universe.Lookup("error").Type()))); !known || !v {
				report(true, "failure", "the error of an operation is not looked at")
			}
		}
	}
}

// failing: the conditions say that a step failed.
func (a *applier) failing(pc *Conj) *Term {
	for _, l := range pc.lits {
		if l.atom.op == OEq && !l.val {
			for _, t := range l.atom.args {
				if _, ok := a.step(t); ok && t.aux == "1" {
					return t
				}
			}
		}
	}
	return nil
}

// refused: pc says that an operation of the patch fails in the way in which
// a single operation fails before the document is looked at.
func (a *applier) refused(x *comp, pc *Conj, patch *Term) bool {
	ops := map[*Term]bool{}
	for _, l := range pc.lits {
		l.atom.contains(func(t *Term) bool {
			if t.op == OElem && t.args[0] == patch {
				ops[t] = true
			}
			return false
		})
	}
	for op := range ops {
		for _, r := range a.refusals {
			c := x.substConj(r, map[*Term]*Term{a.single: op})
			all := c != nil && len(c.lits) > 0
			for _, l := range r.lits {
				all = all && l.atom.contains(func(t *Term) bool { return t == a.single })
			}
			if c != nil {
				for _, l := range c.lits {
					all = all && slices.Contains(pc.lits, l)
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}
