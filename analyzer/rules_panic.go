package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// explorer shows that functions on documents do not panic. A function is
// analysed for each combination of kinds of its document arguments; a
// recursive call adds the combinations with which it can be reached.
type explorer struct {
	c         *Ctx
	e         *Eval
	in        *Interner
	iface     types.Type
	kinds     []docKind
	queue     []exploreCell
	seen      map[string]bool
	cur       exploreCell
	args      []*Term
	cells     int
	outcomes  func(cell exploreCell, args []*Term, outs []Outcome)
	desc      map[string]error // recursive calls that do not descend
	depth     map[string]string
	given     func(fn *ssa.Function, args []*Term) []Lit // what the callers of fn ensure
	noPanics  bool                                       // whether anything can panic is not asked
	noDescent bool                                       // whether recursive calls end is not asked
	anyDoc    map[*ssa.Function]bool                     // functions that take documents as values of any type
	onCall    func(fr *Frame, st *State, fn *ssa.Function, args []*Term, instr ssa.Instruction)
}

type exploreCell struct {
	fn    *ssa.Function
	kinds []int // for each parameter: the kind of document, or -1
}

func (x exploreCell) String() string { return fmt.Sprint(x.fn.String(), x.kinds) }

func newExplorer(c *Ctx) *explorer {
	x := &explorer{c: c, seen: map[string]bool{}, desc: map[string]error{}, depth: map[string]string{}}
	x.iface, x.kinds = docKinds()
	if x.iface == nil {
		c.undecided("anchor", "documents", "-", "the kinds of documents are not found")
		return nil
	}
	x.e = newEval(c.p)
	x.in = x.e.in
	x.e.checkPanics = true
	x.e.oldInvs = map[Lit]bool{}
	x.e.forgetExit = true
	x.e.onOpaque = x.reach
	return x
}

func (x *explorer) isDoc(t types.Type) bool {
	return types.Identical(t.Underlying(), x.iface.Underlying()) && isIface(t) && x.named(t)
}

// takes: a parameter of fn with the type t is a document.
func (x *explorer) takes(fn *ssa.Function, t types.Type) bool {
	if x.isDoc(t) {
		return true
	}
	i, ok := under(t).(*types.Interface)
	return ok && i.NumMethods() == 0 && x.anyDoc[fn]
}

// named: t is the interface of the documents and not any.
func (x *explorer) named(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Named)
	return ok
}

// entry adds every combination of kinds of the documents that fn takes.
func (x *explorer) entry(fn *ssa.Function) {
	sets := make([][]int, len(fn.Params))
	for i, p := range fn.Params {
		sets[i] = []int{-1}
		if x.takes(fn, p.Type()) {
			sets[i] = nil
			for k := range x.kinds {
				sets[i] = append(sets[i], k)
			}
		}
	}
	x.add(fn, sets)
}

func (x *explorer) add(fn *ssa.Function, sets [][]int) {
	var rec func(i int, ks []int)
	rec = func(i int, ks []int) {
		if i == len(sets) {
			cell := exploreCell{fn, slices.Clone(ks)}
			if k := cell.String(); !x.seen[k] {
				x.seen[k] = true
				x.queue = append(x.queue, cell)
			}
			return
		}
		for _, k := range sets[i] {
			rec(i+1, append(ks, k))
		}
	}
	rec(0, nil)
}

// reach records the cells with which a recursive call is reached.
func (x *explorer) reach(e *Eval, fr *Frame, st *State, fn *ssa.Function, clo *Term, args []*Term, instr ssa.Instruction) {
	pcs := st.pc
	if x.general(fr, fn) {
		pcs = nil
	}
	for _, pc := range pcs {
		sets := make([][]int, len(args))
		for i, a := range args {
			sets[i] = []int{-1}
			if i >= len(fn.Params) || !x.takes(fn, fn.Params[i].Type()) {
				continue
			}
			sets[i] = nil
			for k, kind := range x.kinds {
				if x.feasible(pc, a, kind) {
					sets[i] = append(sets[i], k)
				}
			}
		}
		// combinations that the conditions exclude
		var rec func(i int, pc *Conj, ks [][]int)
		rec = func(i int, pc *Conj, ks [][]int) {
			if i == len(sets) {
				x.add(fn, ks)
				return
			}
			for _, k := range sets[i] {
				n := pc
				if k >= 0 && args[i].op != OIface {
					if n = pc.withAll(x.e.docAs(x.kinds[k], x.iface, args[i]).lits); n == nil {
						continue
					}
				}
				rec(i+1, n, append(ks[:len(ks):len(ks)], []int{k}))
			}
		}
		rec(0, pc, nil)
	}
	x.descends(fr, st, fn, args, instr)
	if x.onCall != nil {
		x.onCall(fr, st, fn, args, instr)
	}
}

// general: the closure is active with arguments about which nothing is known,
// so that its analysis there covers every call.
func (x *explorer) general(fr *Frame, fn *ssa.Function) bool {
	if len(fn.FreeVars) == 0 {
		return false
	}
	for g := fr; g != nil; g = g.parent {
		if g.fn != fn {
			continue
		}
		for i, p := range fn.Params {
			if x.isDoc(p.Type()) || i >= len(g.args) || g.args[i].op != OCall && g.args[i].op != OSym && g.args[i].op != OUnknown {
				return false
			}
			for _, c := range g.entry {
				for _, l := range c.lits {
					if l.atom.contains(func(t *Term) bool { return t == g.args[i] }) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func (x *explorer) feasible(pc *Conj, a *Term, k docKind) bool {
	if k.T == nil {
		v, known := pc.decide(x.in.Eq(a, x.in.Zero(x.iface)))
		return !known || v
	}
	if a.op == OIface {
		return types.Identical(a.obj.(types.Type), k.T)
	}
	if a.isNil() {
		return false
	}
	return pc.withAll(x.e.docAs(k, x.iface, a).lits) != nil
}

// descends: a recursive call goes on with a part of a document or with fewer
// elements of a list.
func (x *explorer) descends(fr *Frame, st *State, fn *ssa.Function, args []*Term, instr ssa.Instruction) {
	// the arguments of the active call
	var at *Frame
	for g := fr; g != nil; g = g.parent {
		if g.fn == fn {
			at = g
			break
		}
	}
	key := fmt.Sprintf("%s|%s", fn.String(), x.c.p.where(instr))
	if at == nil {
		return
	}
	same := true
	for i := range fn.Params {
		if i >= len(args) || i >= len(at.args) {
			break
		}
		a, b := args[i], at.args[i]
		if part(a, b) || x.shorter(st, a, b) {
			if _, ok := x.desc[key]; !ok {
				x.desc[key] = nil
			}
			return
		}
		same = same && a == b
	}
	if same {
		x.desc[key] = fmt.Errorf("the function calls itself with the same arguments")
	} else if x.desc[key] == nil {
		x.desc[key] = fmt.Errorf("?a recursive call is not known to go on with a part of the document: %s", brief(args[0]))
	}
}

// part: a is an element, at some depth, of the container b.
func part(a, b *Term) bool {
	if b.op == OIface {
		b = b.args[0]
	}
	inside := false
	for t := a; ; {
		switch {
		case t == b:
			return inside
		case t.op == OElem || t.op == OLookup:
			inside = true
			t = t.args[0]
		case t.op == OUnbox || t.op == OMapInit || t.op == OIface:
			t = t.args[0]
		default:
			return false
		}
	}
}

func (x *explorer) shorter(st *State, a, b *Term) bool {
	if _, ok := under(a.typ).(*types.Slice); !ok || a.typ == nil {
		return false
	}
	return holds(st.pc, x.in.Lt(x.e.lenOf(st, a), x.e.lenOf(st, b)), true)
}

// run analyses every cell that is reached.
func (x *explorer) run() {
	for len(x.queue) > 0 {
		x.cur, x.queue = x.queue[0], x.queue[1:]
		x.cell()
		x.cells++
		if x.cells > 2000 {
			x.c.undecided("cells", "documents", "-", "too many combinations")
			break
		}
	}
	for _, f := range x.e.entered() {
		x.c.analysed[f] = true
	}
	for _, k := range sortedKeys(x.desc) {
		if x.noDescent {
			break
		}
		name, where, _ := strings.Cut(k, "|")
		name = name[strings.LastIndexByte(name, '/')+1:]
		switch err := x.desc[k]; {
		case err == nil:
			x.c.ok("descent", name+" from "+where[strings.LastIndexByte(where, '/')+1:])
		case strings.HasPrefix(err.Error(), "?"):
			x.c.undecided("descent", name, where, "%s", err.Error()[1:])
		default:
			x.c.bad("descent", name, where, "%s", err)
		}
	}
	if !x.noPanics {
		x.c.obligations(x.e)
	}
}

func (x *explorer) cell() {
	e := x.e
	fn := x.cur.fn
	x.c.analysed[fn.String()] = true
	args := e.paramSyms(fn)
	for i, k := range x.cur.kinds {
		if k >= 0 {
			args[i] = e.docCell(x.kinds[k], x.iface, args[i].aux).t
		}
	}
	x.args = args
	e.problems, e.approx = map[string]bool{}, 0
	e.loopsByKey = map[string]*Loop{}
	heap := map[*Term]*Term{}
	st := &State{env: map[ssa.Value]*Term{}, heap: heap, pc: DNF{x.in.newConj(nil)}}
	if x.given != nil {
		st.pc = DNF{st.pc[0].withAll(x.given(fn, args))}
	}
	outs := e.callFn(nil, st, fn, x.self(fn, heap), args, nil)
	for _, L := range e.loopsByKey {
		for _, v := range L.invs {
			e.oldInvs[v] = true
		}
	}
	if x.outcomes != nil {
		x.outcomes(x.cur, args, outs)
	}
	name := fn.Name()
	for i, k := range x.cur.kinds {
		if k >= 0 {
			name += fmt.Sprintf(" %s=%s", fn.Params[i].Name(), x.kinds[k].name)
		}
	}
	pos := x.c.p.pos(fn.Pos())
	switch {
	case len(e.problems) > 0:
		x.c.undecided("cells", name, pos, "not followed: %s", sortedKeys(e.problems)[0])
	default:
		x.c.ok("cells", name)
	}
}

// self binds the variables through which a closure calls itself.
func (x *explorer) self(fn *ssa.Function, heap map[*Term]*Term) (bs []*Term) {
	if len(fn.FreeVars) == 0 || fn.Parent() == nil {
		return nil
	}
	var mc *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == fn {
				if mc != nil {
					return nil
				}
				mc = m
			}
		}
	}
	if mc == nil {
		return nil
	}
	var refs []*Term
	for i, b := range mc.Bindings {
		ref := x.in.mk(OAlloc, fn.FreeVars[i].Type(), "free:"+fn.Name()+"."+fn.FreeVars[i].Name(), nil, nil)
		bs = append(bs, ref)
		a, ok := b.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return nil
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != a || r.Val != mc {
					return nil
				}
				refs = append(refs, ref)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if r != mc {
					return nil
				}
			default:
				return nil
			}
		}
	}
	if len(refs) != len(bs) {
		return nil
	}
	clo := x.in.mk(OClosure, mc.Type(), "", nil, fn, bs...)
	for _, r := range refs {
		heap[r] = clo
	}
	return bs
}

// obligations judges the checks that were met.
func (c *Ctx) obligations(e *Eval) {
	keys := sortedKeys(e.obls)
	num := map[string]int{}
	for _, k := range keys {
		o := e.obls[k]
		id := o.fn.Name() + ": " + o.kind
		num[id]++
		name := fmt.Sprintf("%s %d", id, num[id])
		where := c.p.where(o.instr)
		if o.fails == 0 {
			c.ok(o.kind, name)
			continue
		}
		definite := -1
		for i, f := range o.failed {
			if e.witness(f.pc, f.lit) {
				definite = i
				break
			}
		}
		if definite >= 0 {
			f := o.failed[definite]
			c.bad(o.kind, name, where, "can panic (%s): %s is not ensured under %s; reached through %s", o.kind, litText(f.lit), brief(f.pc), f.via)
		} else {
			c.undecided(o.kind, name, where, "not shown (%s): %s", o.kind, o.detail)
		}
	}
}

func litText(l Lit) string { return fmt.Sprint(l) }

// witness: some input satisfies pc and violates l. The conditions are
// independent of each other as far as they are understood.
func (e *Eval) witness(pc *Conj, l Lit) bool {
	x := &comp{e: e}
	if e.possible(x, pc, l) {
		return true
	}
	// in the first iterations of the loops
	m := map[*Term]*Term{}
	for range 4 {
		grown := false
		look := func(t *Term) bool {
			if t.op == OLoop && m[t] == nil {
				if L, init, _ := carried(e.in, t); L != nil && init != nil {
					m[t] = init
					grown = true
				}
			}
			return false
		}
		for _, y := range pc.lits {
			y.atom.contains(look)
		}
		l.atom.contains(look)
		for _, v := range m {
			v.contains(look)
		}
		if !grown {
			break
		}
	}
	if len(m) == 0 {
		return false
	}
	for range 3 { // initial values may mention the variables of outer loops
		if pc = x.substConj(pc, m); pc == nil {
			return false
		}
		l.atom = e.in.subst(l.atom, m)
	}
	return e.possible(x, pc, l)
}

func (e *Eval) possible(x *comp, pc *Conj, l Lit) bool {
	ok := func(t *Term) bool { return !t.contains(func(s *Term) bool { return !arbitrary(x, s) }) }
	for _, y := range pc.lits {
		if !failure(y) && !e.isInv(y) && !ok(y.atom) {
			return false
		}
	}
	if !ok(l.atom) || !jsonKinds(append(pc.lits[:len(pc.lits):len(pc.lits)], Lit{l.atom, !l.val})) {
		return false
	}
	// loop counters have passed no value before their first one
	for range 2 {
		counters := map[*Term]bool{}
		look := func(t *Term) bool {
			if t.op == OLoop {
				counters[t] = true
			}
			return false
		}
		for _, y := range pc.lits {
			y.atom.contains(look)
		}
		l.atom.contains(look)
		for t := range counters {
			for _, ind := range x.inductions(t.obj.(*Loop)) {
				if ind.v != t {
					continue
				}
				if ind.step > 0 {
					pc = pc.with(e.in.Lt(t, ind.init), false)
				} else {
					pc = pc.with(e.in.Lt(ind.init, t), false)
				}
				if pc == nil {
					return false
				}
			}
		}
	}
	if v, known := pc.decide(l.atom); known && v == l.val || !known && pc.with(l.atom, !l.val) == nil {
		return false
	}
	found, small := intModel(pc, l)
	if small {
		return found
	}
	sums := func(t *Term) bool { return t.op == OBin }
	for _, y := range pc.lits {
		if y.atom.contains(sums) {
			return false
		}
	}
	return !l.atom.contains(sums)
}

// failure: the condition says whether a call failed.
func failure(l Lit) bool {
	if l.atom.op != OEq {
		return false
	}
	for i, t := range l.atom.args {
		o := l.atom.args[1-i]
		if (o.isNil() || o.op == ODeref && o.args[0].op == OGlobal) && (t.op == OCall || t.op == OUnknown || t.op == OExtract && t.args[0].op == OCall) {
			if n, ok := types.Unalias(t.typ).(*types.Named); ok && t.typ != nil && n.Obj().Name() == "error" {
				return true
			}
		}
	}
	return false
}

// decoded names the decoder that has made the value t, or the one that t is
// a part of.
func decoded(t *Term) string {
	for {
		switch t.op {
		case OElem, OLookup, OUnbox, OMapInit:
			t = t.args[0]
		case OUnknown:
			if strings.HasPrefix(t.aux, "out1:(*encoding/json.Decoder).Decode@") || strings.HasPrefix(t.aux, "out1:encoding/json.Unmarshal@") {
				return t.aux
			}
			return ""
		default:
			return ""
		}
	}
}

// jsonKinds: what the conditions say about values that a decoder has made is
// possible.
func jsonKinds(lits []Lit) bool {
	type about struct {
		is, not map[string]bool
		value   bool
	}
	on := map[*Term]*about{}
	get := func(t *Term) *about {
		if on[t] == nil {
			on[t] = &about{map[string]bool{}, map[string]bool{}, false}
		}
		return on[t]
	}
	for _, l := range lits {
		switch a := l.atom; a.op {
		case OTypeIs:
			if t := a.args[0]; decoded(t) != "" {
				n := types.TypeString(a.obj.(types.Type), nil)
				number := "encoding/json.Number"
				if strings.Contains(decoded(t), "Unmarshal@") {
					number = "float64"
				}
				switch n {
				case "map[string]any", "map[string]interface{}":
					n = "object"
				case "[]any", "[]interface{}":
					n = "array"
				case number, "string", "bool":
				default:
					if l.val {
						return false
					}
					continue
				}
				if l.val {
					get(t).is[n] = true
				} else {
					get(t).not[n] = true
				}
			}
		case OEq:
			for i, t := range a.args {
				if a.args[1-i].isNil() && decoded(t) != "" && isIface(t.typ) {
					if l.val {
						get(t).is["nil"] = true
					} else {
						get(t).not["nil"] = true
					}
				}
			}
		}
	}
	for _, a := range on {
		if len(a.is) > 1 || len(a.not) >= 6 {
			return false
		}
		for k := range a.is {
			if a.not[k] {
				return false
			}
		}
	}
	return true
}

// arbitrary: the term stands for an arbitrary value of its type, or is a
// function of such values whose properties are known.
func arbitrary(x *comp, t *Term) bool {
	switch t.op {
	case OConst, OSym, OStruct, OField, OIface, OUnbox, OTypeIs, OTypeOf, OLt, OEq, ONot, OAddK, OLen, OElem, OMapInit, OLookup, OHas, OIterKey, OExtract, OErr, OSliceOf, OSliceLit, OAppend, OMake:
		return true
	case OBin:
		return isInteger(t.typ)
	case OUnknown:
		return decoded(t) != ""
	case OLoop:
		if !isInteger(t.typ) {
			return false
		}
		for _, ind := range x.inductions(t.obj.(*Loop)) {
			if ind.v == t {
				return ind.step == 1 || ind.step == -1
			}
		}
		return false
	case OCall:
		switch t.callName() {
		case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat":
			return true
		}
		return strings.Contains(t.callName(), "tson.SplitPath")
	}
	return false
}

func init() {
	register(&Rule{id: "P02", run: ruleP02,
		explanation: "Abstract interpretation of ApplyOperation and ApplyPatch: index and slice bounds, type assertions, writes to nil maps, comparisons of uncomparable values, nil dereferences, sizes of allocations and the descent of recursions are obligations that have to follow from the path condition, for every kind of document, path and value.",
		assumptions: []string{"no integer overflow", "memory suffices for the given document"}})
	register(&Rule{id: "P04", run: ruleP04,
		explanation: "Abstract interpretation of GeneratePatch and GeneratePatchWithTimestamp with the same panic obligations, for every pair of kinds of documents that can be reached by descent.",
		assumptions: []string{"no integer overflow", "documents of bounded depth"}})
}

func (c *Ctx) explore(pkg string, names ...string) *explorer {
	x := newExplorer(c)
	if x == nil {
		return nil
	}
	for _, n := range names {
		fn := c.p.fn(pkg, n)
		if fn == nil {
			c.undecided("anchor", n, "-", "the function is not found")
			return nil
		}
		x.entry(fn)
	}
	return x
}

func ruleP04(c *Ctx) {
	if x := c.explore(pkgPat, "GeneratePatch", "GeneratePatchWithTimestamp"); x != nil {
		x.run()
	}
}

// ruleP02: applying an operation does not panic. The function that descends
// into the document is analysed on its own, for every kind of document; it is
// only given documents whose objects are maps, as Clone makes them.
func ruleP02(c *Ctx) {
	a := newApplier(c)
	x := c.explore(pkgPat, "ApplyOperation", "ApplyPatch")
	if a == nil || x == nil {
		return
	}
	x.e.opaque = func(f *ssa.Function) bool { return repoPkgFn(f, "/tson") && !x.under("/tson") || f == a.fn }
	x.e.hookOpaque = true
	x.e.sizeLimit = 1 << 31
	x.cells = 0
	x.given = func(fn *ssa.Function, args []*Term) (lits []Lit) {
		if fn != a.fn {
			return nil
		}
		if d := args[a.doc]; d.op == OIface && isMap(d.args[0].typ) {
			lits = append(lits, Lit{x.in.Eq(d.args[0], x.in.Zero(d.args[0].typ)), false})
		}
		return
	}
	x.onCall = func(fr *Frame, st *State, fn *ssa.Function, args []*Term, instr ssa.Instruction) {
		if fn != a.fn {
			return
		}
		for g := fr; g != nil; g = g.parent {
			if g.fn == fn {
				return
			}
		}
		// the depth of the descent
		n := x.in.Len(args[a.parts])
		const deepest = 1 << 20
		where := c.p.where(instr)
		switch {
		case holds(st.pc, x.in.Lt(x.in.Int(deepest), n), false):
			x.depth[where] = ""
		case !mentionsLen(st.pc, args[a.parts]) && strings.Contains(fmt.Sprint(args[a.parts]), "SplitPath"):
			x.depth[where] = "the operation descends along paths of any length: a long one exhausts the stack"
		case slices.ContainsFunc(st.pc, func(pc *Conj) bool { return x.e.witness(pc, Lit{x.in.Lt(x.in.Int(deepest), n), false}) }):
			x.depth[where] = "the operation descends along a path of any length in some cases: a long one exhausts the stack"
		default:
			x.depth[where] = "?the length of the path is not known to be bounded"
		}
	}
	x.run()
	for _, k := range sortedKeys(x.depth) {
		switch why := x.depth[k]; {
		case why == "":
			c.ok("depth", fmt.Sprintf("call %d", len(c.oks["depth"])+1))
		case why[0] == '?':
			c.undecided("depth", a.fn.Name(), k, "%s", why[1:])
		default:
			c.bad("depth", a.fn.Name(), k, "%s", why)
		}
	}
	c.atLeast("depth", 1)
	c.noNilMaps()
}

func mentionsLen(pc DNF, list *Term) bool {
	for _, c := range pc {
		for _, l := range c.lits {
			if l.atom.contains(func(t *Term) bool { return t.op == OLen && t.args[0] == list }) {
				return true
			}
		}
	}
	return false
}

func isMap(t types.Type) bool {
	_, ok := under(t).(*types.Map)
	return ok
}

// under: the function that is being analysed belongs to the package.
func (x *explorer) under(pkg string) bool { return repoPkgFn(x.cur.fn, pkg) }

// noNilMaps: no function that makes documents for the application of an
// operation makes an object without a map.
func (c *Ctx) noNilMaps() {
	for _, f := range c.p.fns {
		if !c.analysed[f.String()] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MakeInterface)
				if !ok || !isMap(m.X.Type()) {
					continue
				}
				name := fmt.Sprintf("%s: object %d", f.Name(), len(c.oks["objects"])+1)
				if v := nilSource(m.X, map[ssa.Value]bool{}); v != nil {
					c.bad("objects", name, c.p.where(in), "an object without a map is made; adding a member to it panics")
				} else {
					c.ok("objects", name)
				}
			}
		}
	}
}

// nilSource finds a constant nil that v can be.
func nilSource(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := nilSource(e, seen); s != nil {
				return s
			}
		}
	case *ssa.ChangeType:
		return nilSource(v.X, seen)
	}
	return nil
}
