package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something that happens in program order.
type Event struct {
	kind  string // "call", "loop", "mapupdate", "store"
	name  string
	instr ssa.Instruction
	args  []*Term
	loop  *Loop
	key   string
}

type deferred struct {
	fn   *Term
	args []*Term
	call *ssa.CallCommon
	inst ssa.Instruction
}

// State is the abstract state at a program point of one frame.
type State struct {
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	pc     DNF
	events []*Event
	defers []*deferred
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)), heap: make(map[*Term]*Term, len(s.heap)), pc: s.pc}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

// Outcome is one way in which a function returns.
type Outcome struct {
	st      *State
	results []*Term
}

// PanicOut is one way in which a function panics explicitly.
type PanicOut struct {
	pc    DNF
	instr ssa.Instruction
	fr    *Frame
	arg   *Term
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	parent *Frame
	info   *fnInfo
	loops  []*Loop
	call   ssa.Instruction
	args   []*Term
	entry  DNF // the conditions under which the function is entered
}

func (f *Frame) stack(p *Program) string {
	var s []string
	for g := f; g != nil; g = g.parent {
		x := g.fn.String()
		if i := strings.LastIndexByte(x, '/'); i >= 0 {
			x = x[i+1:]
		}
		s = append(s, x)
	}
	return strings.Join(s, " <- ")
}

// Obligation is a condition that an instruction needs in order not to panic.
type Obligation struct {
	fn     *ssa.Function
	instr  ssa.Instruction
	kind   string
	checks int
	fails  int
	detail string
	failed []failedCheck // some of the checks that are not known to hold
}

type failedCheck struct {
	pc  *Conj
	lit Lit
	via string
}

// Eval is the abstract interpreter.
type Eval struct {
	p   *Program
	in  *Interner
	inf map[*ssa.Function]*fnInfo

	opaque     func(*ssa.Function) bool // calls that are not inlined
	identity   func(*ssa.Function) bool // calls that return their argument
	closures   map[string]*clos
	prevs      map[*Term]*Term        // OPrev -> the loop variable
	unroll     bool                   // follow recursive calls whose arguments have a known kind
	forgetExit bool                   // drop the index facts of loops that always run to their end
	ascending  func(*Term) bool       // slices assumed to be in strictly ascending order
	trace      func(name string) bool // calls that are recorded as events
	traceStore bool                   // record stores into memory that outlives the frame
	onOpaque   func(e *Eval, fr *Frame, st *State, fn *ssa.Function, clo *Term, args []*Term, instr ssa.Instruction)
	afterRec   func(e *Eval, fr *Frame, st *State, fn *ssa.Function, args []*Term, res *Term, instr ssa.Instruction)
	recResult  func(fn *ssa.Function, args []*Term, res *Term) *Term // rewrites the result of a recursive call

	afterOpaque func(e *Eval, st *State, f *ssa.Function, args, cargs []*Term, res *Term)
	extArgs     map[string][]*Term // arguments of the calls without a model, by result name
	hookOpaque  bool               // onOpaque is told of calls that opaque selects, too

	oldInvs map[Lit]bool // invariants of loops of earlier analyses

	checkPanics bool
	sizeLimit   int64 // sizes of new lists have to be at most this, or the lengths of existing ones
	obls        map[string]*Obligation
	panics      []*PanicOut
	problems    map[string]bool // constructs the analysis could not follow
	limitPC     int
	approx      int
	steps       int
	maxSteps    int
	loopsByKey  map[string]*Loop
	callInfos   map[string]*CallInfo
	globals     map[*Term]*Term
	concatInfo  *CallInfo
	inlined     map[*ssa.Function]bool
	invCands    []*invCand
	nocand      bool
}

func newEval(p *Program) *Eval {
	e := &Eval{p: p, in: NewInterner(), inf: map[*ssa.Function]*fnInfo{}, obls: map[string]*Obligation{},
		problems: map[string]bool{}, limitPC: maxDisjuncts * p.effort, maxSteps: 3_000_000 * p.effort, loopsByKey: map[string]*Loop{},
		callInfos: map[string]*CallInfo{}, globals: map[*Term]*Term{}, inlined: map[*ssa.Function]bool{}}
	e.concatInfo = &CallInfo{name: "concat"}
	for g, v := range p.constGlobals() {
		e.globals[e.in.mk(OGlobal, g.Type(), g.String(), nil, g)] = e.initial(v)
	}
	return e
}

// constGlobals are the package variables that only their initialisation
// writes, with a constant or a replacer of constants.
func (p *Program) constGlobals() map[*ssa.Global]ssa.Value {
	if p.globals != nil {
		return p.globals
	}
	p.globals = map[*ssa.Global]ssa.Value{}
	lost := map[*ssa.Global]bool{}
	visit := func(f *ssa.Function, init bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == *op && in.Val != *op && init && p.globals[g] == nil {
							p.globals[g] = in.Val
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					lost[g] = true
				}
			}
		}
	}
	for _, s := range p.spkgs {
		if f := s.Func("init"); f != nil {
			visit(f, true)
		}
	}
	for _, f := range p.fns {
		if f.Pkg == nil || f != f.Pkg.Func("init") {
			visit(f, false)
		}
	}
	for g, v := range p.globals {
		if !initConst(v) {
			lost[g] = true
		}
	}
	for g := range lost {
		delete(p.globals, g)
	}
	return p.globals
}

func initConst(v ssa.Value) bool {
	if c, ok := v.(*ssa.Const); ok {
		return c.Value != nil
	}
	_, ok := replacerArgs(v)
	return ok
}

// replacerArgs are the constant arguments of a call to strings.NewReplacer.
func replacerArgs(v ssa.Value) ([]*ssa.Const, bool) {
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strings.NewReplacer" {
		return nil, false
	}
	sl, ok := c.Call.Args[0].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := ptrElem(arr.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]*ssa.Const, at.Len())
	for _, r := range *arr.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice, *ssa.DebugRef:
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok || len(*r.Referrers()) != 1 {
				return nil, false
			}
			s, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok || s.Addr != r {
				return nil, false
			}
			k, ok := s.Val.(*ssa.Const)
			if !ok || out[i.Int64()] != nil {
				return nil, false
			}
			out[i.Int64()] = k
		default:
			return nil, false
		}
	}
	for _, k := range out {
		if k == nil {
			return nil, false
		}
	}
	return out, true
}

// initial is the value of a constant initialisation.
func (e *Eval) initial(v ssa.Value) *Term {
	if c, ok := v.(*ssa.Const); ok {
		return e.in.Const(c.Type(), c.Value)
	}
	args, _ := replacerArgs(v)
	var ts []*Term
	for _, a := range args {
		ts = append(ts, e.in.Const(tString, a.Value))
	}
	lst := e.in.mk(OSliceLit, types.NewSlice(tString), "", nil, nil, ts...)
	return e.in.mk(OCall, v.Type(), "", nil, e.callInfo("strings.NewReplacer", true), lst)
}

func (e *Eval) problem(fr *Frame, i ssa.Instruction, msg string) {
	e.problems[fmt.Sprintf("%s: %s (in %s)", e.p.where(i), msg, fr.fn.String())] = true
}

// callInfo returns the identity of a pure callee.
func (e *Eval) callInfo(name string, nonNil bool) *CallInfo {
	if c, ok := e.callInfos[name]; ok {
		return c
	}
	c := &CallInfo{name: name, nonNil: nonNil}
	e.callInfos[name] = c
	return c
}

func (e *Eval) pure(name string, typ types.Type, args ...*Term) *Term {
	return e.in.mk(OCall, typ, "", nil, e.callInfo(name, false), args...)
}

// ---- control-flow information ----

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
}

type fnInfo struct {
	fn     *ssa.Function
	rpo    []*ssa.BasicBlock
	num    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*natLoop // by header
	inner  map[*ssa.BasicBlock]*natLoop // innermost loop of a block
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	idx    map[ssa.Value]int
	instrN map[ssa.Instruction]int
	irred  bool
}

func (e *Eval) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.inf[fn]; ok {
		return i
	}
	i := buildInfo(fn)
	e.inf[fn] = i
	return i
}

func buildInfo(fn *ssa.Function) *fnInfo {
	i := &fnInfo{fn: fn, num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{},
		inner: map[*ssa.BasicBlock]*natLoop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		idx: map[ssa.Value]int{}, instrN: map[ssa.Instruction]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if s := b.Succs[k]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.num[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			i.instrN[in] = n
			n++
			if v, ok := in.(ssa.Value); ok {
				i.idx[v] = len(i.idx)
			}
		}
	}
	for _, p := range fn.Params {
		i.idx[p] = len(i.idx)
	}
	for _, p := range fn.FreeVars {
		i.idx[p] = len(i.idx)
	}
	// natural loops
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if i.num[s] <= i.num[b] {
				if !s.Dominates(b) {
					i.irred = true
					continue
				}
				l := i.loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, b := range i.rpo {
		var best *natLoop
		for _, l := range i.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		i.inner[b] = best
	}
	for _, l := range i.loops {
		for _, m := range i.loops {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	// liveness at block entry (phi operands are uses at the end of preds)
	for changed := true; changed; {
		changed = false
		for k := len(i.rpo) - 1; k >= 0; k-- {
			b := i.rpo[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					live[v] = true
				}
				pi := -1
				for q, p := range s.Preds {
					if p == b {
						pi = q
					}
				}
				for _, in := range s.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						delete(live, ph)
						if pi >= 0 {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			// phis of successors are defined on the edge: keep them live there
			for q := len(b.Instrs) - 1; q >= 0; q-- {
				in := b.Instrs[q]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			// a phi of b that is used (here or later) is live at entry, being
			// assigned on the edge
			for v := range live {
				if _, ok := i.idx[v]; !ok {
					delete(live, v)
				}
			}
			if len(live) != len(i.live[b]) {
				i.live[b] = live
				changed = true
			}
		}
	}
	return i
}

// ---- values and memory ----

func (e *Eval) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.in.Zero(v.Type())
		}
		return e.in.Const(v.Type(), v.Value)
	case *ssa.Function:
		return e.in.mk(OClosure, v.Type(), "", nil, v)
	case *ssa.Global:
		return e.in.mk(OGlobal, v.Type(), v.String(), nil, v)
	case *ssa.Builtin:
		return e.in.mk(OSym, v.Type(), "builtin."+v.Name(), nil, nil)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	e.problem(fr, valInstr(fr, v), "value without definition: "+v.Name())
	return e.in.Fresh(v.Type(), "undef")
}

func valInstr(fr *Frame, v ssa.Value) ssa.Instruction {
	if i, ok := v.(ssa.Instruction); ok {
		return i
	}
	return fr.fn.Blocks[0].Instrs[0]
}

func (e *Eval) content(st *State, s *Term) *Term {
	if c, ok := st.heap[s]; ok {
		return c
	}
	return s
}

// lenOf is the length of a slice; writing elements does not change it.
func (e *Eval) lenOf(st *State, s *Term) *Term {
	if c := e.content(st, s); c.op != OLoop {
		return e.in.Len(c)
	}
	return e.in.Len(s)
}

func (e *Eval) mapContent(st *State, m *Term) *Term {
	if c, ok := st.heap[m]; ok {
		return c
	}
	if m.isNil() {
		return e.in.mk(OMapEmpty, nil, "", nil, nil)
	}
	return e.in.mk(OMapInit, m.typ, "", nil, nil, m)
}

func ptrElem(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Eval) load(st *State, addr *Term, T types.Type) *Term {
	switch addr.op {
	case OFieldPtr:
		stT := addr.obj.(types.Type)
		var i int
		fmt.Sscan(addr.aux, &i)
		return e.in.Field(e.load(st, addr.args[0], stT), i, T)
	case OElemPtr:
		if addr.aux == "array" {
			return e.in.Elem(e.load(st, addr.args[0], addr.obj.(types.Type)), addr.args[1], T)
		}
		return e.in.Elem(e.content(st, addr.args[0]), addr.args[1], T)
	}
	if c, ok := st.heap[addr]; ok {
		return c
	}
	if addr.op == OGlobal {
		if c, ok := e.globals[addr]; ok {
			return c
		}
	}
	return e.in.mk(ODeref, T, "", nil, nil, addr)
}

func (e *Eval) store(st *State, addr, v *Term, T types.Type) {
	switch addr.op {
	case OFieldPtr:
		stT := addr.obj.(types.Type)
		var i int
		fmt.Sscan(addr.aux, &i)
		cur := e.load(st, addr.args[0], stT)
		e.store(st, addr.args[0], e.in.WithField(cur, stT, i, v), stT)
		return
	case OElemPtr:
		if addr.aux == "array" {
			aT := addr.obj.(types.Type)
			cur := e.load(st, addr.args[0], aT)
			e.store(st, addr.args[0], e.storeElem(cur, addr.args[1], v), aT)
			return
		}
		cur := e.content(st, addr.args[0])
		st.heap[addr.args[0]] = e.storeElem(cur, addr.args[1], v)
		return
	}
	st.heap[addr] = v
}

func (e *Eval) storeElem(c, i, v *Term) *Term {
	if c.op == OSliceLit {
		if n, ok := i.constInt(); ok && n >= 0 && int(n) < len(c.args) {
			args := append([]*Term(nil), c.args...)
			args[n] = v
			return e.in.mk(OSliceLit, c.typ, "", nil, nil, args...)
		}
	}
	if c.op == OStoreElem && c.args[1] == i {
		c = c.args[0]
	}
	return e.in.mk(OStoreElem, c.typ, "", nil, nil, c, i, v)
}

func (e *Eval) zeroArray(t *types.Array, typ types.Type) *Term {
	if t.Len() <= 64 {
		args := make([]*Term, t.Len())
		for i := range args {
			args[i] = e.zero(t.Elem())
		}
		return e.in.mk(OSliceLit, types.NewSlice(t.Elem()), "", nil, nil, args...)
	}
	return e.in.mk(OMake, types.NewSlice(t.Elem()), "", nil, nil, e.in.Int(t.Len()))
}

func (e *Eval) zero(t types.Type) *Term {
	if a, ok := under(t).(*types.Array); ok {
		return e.zeroArray(a, t)
	}
	return e.in.Zero(t)
}

// ---- path conditions ----

// split divides st into the states where cond is true and false.
func (e *Eval) split(st *State, cond *Term) (t, f *State) {
	var tp, fp DNF
	for _, c := range st.pc {
		if n := c.with(cond, true); n != nil {
			tp = append(tp, n)
		}
		if n := c.with(cond, false); n != nil {
			fp = append(fp, n)
		}
	}
	if len(tp) > 0 {
		t = st.clone()
		t.pc = tp
	}
	if len(fp) > 0 {
		f = st.clone()
		f.pc = fp
	}
	return
}

func (e *Eval) assume(st *State, cond *Term, val bool) bool {
	var np DNF
	for _, c := range st.pc {
		if n := c.with(cond, val); n != nil {
			np = append(np, n)
		}
	}
	st.pc = np
	return len(np) > 0
}

// holds reports that cond == val in every disjunct of pc.
func holds(pc DNF, cond *Term, val bool) bool {
	for _, c := range pc {
		v, ok := c.decide(cond)
		if !ok || v != val {
			return false
		}
	}
	return true
}

func (e *Eval) oblige(fr *Frame, st *State, instr ssa.Instruction, kind string, conds ...Lit) {
	if !e.checkPanics {
		return
	}
	key := fmt.Sprintf("%s|%d|%s", fr.fn.String(), fr.info.instrN[instr], kind)
	o := e.obls[key]
	if o == nil {
		o = &Obligation{fn: fr.fn, instr: instr, kind: kind}
		e.obls[key] = o
	}
	o.checks++
	for _, c := range st.pc {
		for _, l := range conds {
			v, ok := c.decide(l.atom)
			if !ok || v != l.val {
				o.fails++
				if len(o.failed) < 8 {
					o.failed = append(o.failed[:len(o.failed):len(o.failed)], failedCheck{c, l, fr.stack(e.p)})
				}
				if o.detail == "" {
					o.detail = fmt.Sprintf("needs %s; known: %s; via %s", l, c, fr.stack(e.p))
				}
				return
			}
		}
	}
}

// ---- merging ----

func (e *Eval) stateKey(st *State, info *fnInfo, live map[ssa.Value]bool) string {
	var parts []string
	for v := range live {
		if t, ok := st.env[v]; ok {
			parts = append(parts, fmt.Sprintf("%d=%d", info.idx[v], t.id))
		}
	}
	sort.Strings(parts)
	var sb strings.Builder
	sb.WriteString(strings.Join(parts, ","))
	sb.WriteString("|")
	e.heapKey(&sb, st)
	return sb.String()
}

func (e *Eval) heapKey(sb *strings.Builder, st *State) {
	hp := make([]string, 0, len(st.heap))
	for k, v := range st.heap {
		hp = append(hp, fmt.Sprintf("%d:%d", k.id, v.id))
	}
	sort.Strings(hp)
	sb.WriteString(strings.Join(hp, ","))
	sb.WriteString("|")
	for _, ev := range st.events {
		sb.WriteString(ev.key)
		sb.WriteString(";")
	}
	sb.WriteString("|")
	for _, d := range st.defers {
		fmt.Fprintf(sb, "%d;", d.fn.id)
	}
}

func (e *Eval) mergeStates(sts []*State, info *fnInfo, b *ssa.BasicBlock) []*State {
	if len(sts) <= 1 {
		return sts
	}
	live := map[ssa.Value]bool{}
	for v := range info.live[b] {
		live[v] = true
	}
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			live[ph] = true
		}
	}
	idx := map[string]int{}
	var out []*State
	for _, s := range sts {
		k := e.stateKey(s, info, live)
		if i, ok := idx[k]; ok {
			pc, ap := e.in.join(out[i].pc, s.pc, e.limitPC)
			if ap {
				e.approx++
			}
			n := out[i].clone()
			n.pc = pc
			out[i] = n
		} else {
			idx[k] = len(out)
			out = append(out, s)
		}
	}
	return out
}

// ---- regions ----

type edgeState struct {
	st       *State
	from, to *ssa.BasicBlock
}

type contState struct {
	st   *State
	phis map[*ssa.Phi]*Term
}

type regionOut struct {
	conts   []contState
	exits   []edgeState
	returns []Outcome
}

func (e *Eval) phiVals(fr *Frame, st *State, from, to *ssa.BasicBlock) map[*ssa.Phi]*Term {
	pi := -1
	for q, p := range to.Preds {
		if p == from {
			pi = q
		}
	}
	m := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[ph] = e.val(fr, st, ph.Edges[pi])
	}
	return m
}

// region interprets the blocks of the loop body (or of the whole function when
// loop is nil) from entry.
func (e *Eval) region(fr *Frame, loop *natLoop, entry *ssa.BasicBlock, init []*State) *regionOut {
	out := &regionOut{}
	incoming := map[*ssa.BasicBlock][]*State{entry: init}
	inRegion := func(b *ssa.BasicBlock) bool { return loop == nil || loop.blocks[b] }
	goTo := func(st *State, from, to *ssa.BasicBlock) {
		if !inRegion(to) {
			out.exits = append(out.exits, edgeState{st, from, to})
			return
		}
		ph := e.phiVals(fr, st, from, to)
		if loop != nil && to == loop.header {
			out.conts = append(out.conts, contState{st, ph})
			return
		}
		st = st.clone()
		for p, t := range ph {
			st.env[p] = t
		}
		incoming[to] = append(incoming[to], st)
	}
	for _, b := range fr.info.rpo {
		if !inRegion(b) {
			continue
		}
		sts := incoming[b]
		if len(sts) == 0 {
			continue
		}
		delete(incoming, b)
		sts = e.mergeStates(sts, fr.info, b)
		if l := fr.info.loops[b]; l != nil && l != loop {
			for _, s := range sts {
				lo := e.evalLoop(fr, l, s)
				out.returns = append(out.returns, lo.returns...)
				for _, x := range lo.exits {
					goTo(x.st, x.from, x.to)
				}
			}
			continue
		}
		for _, s := range sts {
			e.block(fr, s, b, goTo, out)
		}
	}
	return out
}

func (e *Eval) block(fr *Frame, st *State, b *ssa.BasicBlock, goTo func(*State, *ssa.BasicBlock, *ssa.BasicBlock), out *regionOut) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			e.problem(fr, in, "analysis budget exceeded")
			return
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range cur {
				c := e.val(fr, s, in.Cond)
				t, f := e.split(s, c)
				if t != nil {
					// an iteration over a map sees keys of that map
					if c.op == OSym && c.obj != nil {
						if l, ok := c.obj.(*Loop); ok && l.rangeMap != nil {
							e.assume(t, e.in.Has(l.rangeMap, l.key), true)
						}
					}
					if len(t.pc) > 0 {
						goTo(t, b, b.Succs[0])
					}
				}
				if f != nil {
					goTo(f, b, b.Succs[1])
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				goTo(s, b, b.Succs[0])
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				res := make([]*Term, len(in.Results))
				for i, r := range in.Results {
					res[i] = e.val(fr, s, r)
				}
				out.returns = append(out.returns, Outcome{s, res})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				e.panics = append(e.panics, &PanicOut{pc: s.pc, instr: in, fr: fr, arg: e.val(fr, s, in.X)})
				if e.checkPanics {
					e.oblige(fr, s, in, "panic", Lit{e.in.Bool(false), true})
				}
			}
			return
		default:
			var next []*State
			for _, s := range cur {
				next = append(next, e.instr(fr, s, in)...)
			}
			cur = next
			if len(cur) == 0 {
				return
			}
		}
	}
}

// callFn interprets fn inline.
func (e *Eval) callFn(fr *Frame, st *State, fn *ssa.Function, bindings, args []*Term, instr ssa.Instruction) []Outcome {
	e.inlined[fn] = true
	info := e.info(fn)
	ctx := ""
	if fr != nil {
		ctx = fr.ctx + fmt.Sprintf("/%d", fr.info.instrN[instr])
		if len(fr.loops) > 0 {
			ctx += "@" + fr.loops[len(fr.loops)-1].name()
		}
	}
	nf := &Frame{fn: fn, ctx: ctx + ">" + fn.Name(), parent: fr, info: info, call: instr, args: args, entry: st.pc}
	if info.irred {
		e.problem(nf, fn.Blocks[0].Instrs[0], "irreducible control flow")
		return nil
	}
	callerEnv, callerDefers := st.env, st.defers
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	s.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			s.env[fv] = bindings[i]
		}
	}
	before := map[*Term]bool{}
	for k := range st.heap {
		before[k] = true
	}
	out := e.region(nf, nil, fn.Blocks[0], []*State{s})
	idx := map[string]int{}
	var res []Outcome
	for _, o := range out.returns {
		n := o.st.clone()
		n.env = callerEnv
		n.defers = callerDefers
		e.collect(n, before, o.results, bindings, args)
		var sb strings.Builder
		for _, r := range o.results {
			fmt.Fprintf(&sb, "%d,", r.id)
		}
		e.heapKey(&sb, n)
		k := sb.String()
		if i, ok := idx[k]; ok {
			pc, ap := e.in.join(res[i].st.pc, n.pc, e.limitPC)
			if ap {
				e.approx++
			}
			res[i].st.pc = pc
		} else {
			idx[k] = len(res)
			res = append(res, Outcome{n, o.results})
		}
	}
	return res
}

// collect drops the contents of objects that the callee created and that
// nothing refers to any more.
func (e *Eval) collect(st *State, before map[*Term]bool, roots ...[]*Term) {
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			mark(a)
		}
		if c, ok := st.heap[t]; ok {
			mark(c)
		}
	}
	for _, rs := range roots {
		for _, r := range rs {
			mark(r)
		}
	}
	for k := range st.heap {
		if before[k] || !localOnly(k) {
			mark(k)
		}
	}
	for _, ev := range st.events {
		for _, a := range ev.args {
			mark(a)
		}
	}
	for k := range st.heap {
		if !reach[k] {
			delete(st.heap, k)
		}
	}
}

// localOnly: k denotes an object that only exists through its reference.
func localOnly(k *Term) bool {
	return k.op == OAlloc || k.op == OMake || k.op == OAppend || k.op == OSliceLit || k.op == OStoreElem || k.op == OSliceOf && localOnly(k.args[0]) || k.op == OCall || k.op == OUnknown
}

func (e *Eval) event(st *State, kind, name string, instr ssa.Instruction, fr *Frame, args ...*Term) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s:%s:%s/%d", kind, name, fr.ctx, fr.info.instrN[instr])
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	st.events = append(st.events[:len(st.events):len(st.events)], &Event{kind: kind, name: name, instr: instr, args: args, key: sb.String()})
}

func (e *Eval) allocName(fr *Frame, in ssa.Instruction) string {
	n := fmt.Sprintf("%s/%d", fr.ctx, fr.info.instrN[in])
	if len(fr.loops) > 0 {
		n += "@" + fr.loops[len(fr.loops)-1].name()
	}
	return n
}

func (e *Eval) set(st *State, v ssa.Value, t *Term) []*State {
	st.env[v] = t
	return []*State{st}
}

func intRange(t types.Type) (bits int, unsigned bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 0, false
}

func (e *Eval) convert(x *Term, from, to types.Type) *Term {
	bytesLike := func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		if !ok {
			return false
		}
		b, ok := under(s.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	switch {
	case isString(from) && isString(to):
		return x
	case isString(from) && bytesLike(to), bytesLike(from) && isString(to):
		if x.op == OConvert && x.aux == "bytes" {
			return x.args[0]
		}
		if s, ok := x.constString(); ok && isString(to) {
			return e.in.Const(to, constant.MakeString(s))
		}
		return e.in.mk(OConvert, to, "bytes", nil, nil, x)
	case isInteger(from) && isInteger(to):
		fb, fu := intRange(from)
		tb, tu := intRange(to)
		if fb == tb && fu == tu {
			return x
		}
		if x.op == OConst && x.cv != nil {
			return e.in.Const(to, x.cv)
		}
		if fu == tu && tb >= fb || fu && !tu && tb > fb {
			return e.in.mk(OConvert, to, "widen", nil, nil, x)
		}
		return e.in.mk(OConvert, to, "num", nil, nil, x)
	case isNumeric(from) && isNumeric(to):
		if types.Identical(under(from), under(to)) {
			return x
		}
		if x.op == OConst && x.cv != nil && !isInteger(to) {
			return e.in.Const(to, x.cv)
		}
		return e.in.mk(OConvert, to, "num", nil, nil, x)
	}
	return e.in.mk(OConvert, to, "other", nil, nil, x)
}

func (e *Eval) concat(parts ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OCall && t.obj == e.concatInfo {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if s, ok := t.constString(); ok {
			if s == "" {
				return
			}
			if n := len(flat); n > 0 {
				if q, ok := flat[n-1].constString(); ok {
					flat[n-1] = e.in.Const(tString, constant.MakeString(q+s))
					return
				}
			}
			t = e.in.Const(tString, constant.MakeString(s))
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(flat) == 0 {
		return e.in.Const(tString, constant.MakeString(""))
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return e.in.mk(OCall, tString, "", nil, e.concatInfo, flat...)
}

// measured: t is made of lengths of lists that exist.
func measured(t *Term) bool {
	switch t.op {
	case OConst, OLen:
		return true
	case OAddK:
		return measured(t.args[0])
	case OBin:
		return (t.aux == "+" || t.aux == "-") && measured(t.args[0]) && measured(t.args[1])
	}
	return false
}

// comparable: the comparison of two interfaces panics if both hold the same
// type and values of that type cannot be compared.
func (e *Eval) comparable(fr *Frame, st *State, in *ssa.BinOp, x, y *Term) {
	if !e.checkPanics {
		return
	}
	ix, ok1 := in.X.Type().Underlying().(*types.Interface)
	_, ok2 := in.Y.Type().Underlying().(*types.Interface)
	if !ok1 || !ok2 || x.isNil() || y.isNil() || ix.NumMethods() == 1 && ix.Method(0).Name() == "Error" {
		return
	}
	T, U := e.dynType(st, x), e.dynType(st, y)
	if T != nil && types.Comparable(T) || U != nil && types.Comparable(U) || T != nil && U != nil && !types.Identical(T, U) {
		return
	}
	if x.op == OTypeOf || y.op == OTypeOf {
		return
	}
	e.oblige(fr, st, in, "comparison", Lit{e.in.Bool(false), true})
}

// dynType is the dynamic type of t, if it is known.
func (e *Eval) dynType(st *State, t *Term) types.Type {
	if t.op == OIface {
		return t.obj.(types.Type)
	}
	var T types.Type
	for i, c := range st.pc {
		U := otherKind(c, t)
		if U == nil || i > 0 && !types.Identical(T, U) {
			return nil
		}
		T = U
	}
	return T
}

func (e *Eval) binop(fr *Frame, st *State, in *ssa.BinOp) *Term {
	x, y := e.val(fr, st, in.X), e.val(fr, st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		e.comparable(fr, st, in, x, y)
	}
	switch in.Op {
	case token.EQL:
		return e.eq(st, x, y, in.X.Type(), in.Y.Type())
	case token.NEQ:
		return e.in.Not(e.eq(st, x, y, in.X.Type(), in.Y.Type()))
	case token.LSS:
		return e.in.Lt(x, y)
	case token.GTR:
		return e.in.Lt(y, x)
	case token.LEQ:
		return e.in.Not(e.in.Lt(y, x))
	case token.GEQ:
		return e.in.Not(e.in.Lt(x, y))
	}
	if x.op == OConst && y.op == OConst && x.cv != nil && y.cv != nil {
		switch in.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(constant.ToInt(y.cv)); ok && n < 64 {
				return e.in.Const(in.Type(), constant.Shift(x.cv, in.Op, uint(n)))
			}
		case token.QUO, token.REM:
			if constant.Sign(y.cv) != 0 {
				op := in.Op
				if isInteger(in.Type()) && op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return e.in.Const(in.Type(), constant.BinaryOp(x.cv, op, y.cv))
			}
		default:
			if isString(in.Type()) {
				return e.concat(x, y)
			}
			return e.in.Const(in.Type(), constant.BinaryOp(x.cv, in.Op, y.cv))
		}
	}
	switch in.Op {
	case token.ADD:
		if isString(in.Type()) {
			return e.concat(x, y)
		}
		if isInteger(in.Type()) {
			return e.in.Add(x, y)
		}
	case token.SUB:
		if isInteger(in.Type()) {
			return e.in.Sub(x, y)
		}
	case token.QUO, token.REM:
		if isInteger(in.Type()) {
			e.oblige(fr, st, in, "division by zero", Lit{e.in.Eq(y, e.in.Const(y.typ, constant.MakeInt64(0))), false})
		}
	}
	if in.Op == token.ADD || in.Op == token.MUL || in.Op == token.AND || in.Op == token.OR {
		if x.id > y.id {
			x, y = y, x
		}
	}
	return e.in.mk(OBin, in.Type(), in.Op.String(), nil, nil, x, y)
}

func (e *Eval) eq(st *State, x, y *Term, xt, yt types.Type) *Term {
	if e.ascending != nil {
		// the version list has no gaps
		a, ak := splitAddK(x)
		b, bk := splitAddK(y)
		if a != nil && b != nil && a.op == OElem && b.op == OElem && a.args[0] == b.args[0] && e.ascending(a.args[0]) {
			i, ik := splitAddK(a.args[1])
			j, jk := splitAddK(b.args[1])
			if i == j {
				return e.in.Bool(ik+ak == jk+bk)
			}
		}
	}
	if isIface(xt) && !isIface(yt) {
		y = e.in.MakeIface(yt, y)
	} else if isIface(yt) && !isIface(xt) {
		x = e.in.MakeIface(xt, x)
	}
	if s := structType(xt); s != nil && s.NumFields() > 0 && !isIface(yt) && (x.op == OStruct || y.op == OStruct) {
		if s.NumFields() == 1 {
			return e.in.Eq(e.in.Field(x, 0, s.Field(0).Type()), e.in.Field(y, 0, s.Field(0).Type()))
		}
	}
	// comparing an interface with a boxed value is comparing type and payload
	if _, ok := under(xt).(*types.Slice); ok {
		if y.isNil() {
			x = e.content(st, x)
		} else if x.isNil() {
			y = e.content(st, y)
		}
	}
	return e.in.Eq(x, y)
}

func (e *Eval) instr(fr *Frame, st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		ptr := e.in.mk(OAlloc, in.Type(), e.allocName(fr, in), nil, nil)
		st = st.clone()
		st.heap[ptr] = e.zero(ptrElem(in.Type()))
		return e.set(st, in, ptr)
	case *ssa.BinOp:
		return e.set(st, in, e.binop(fr, st, in))
	case *ssa.UnOp:
		x := e.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			if e.checkPanics && x.isNil() {
				e.oblige(fr, st, in, "nil dereference", Lit{e.in.Bool(false), true})
			}
			return e.set(st, in, e.load(st, x, in.Type()))
		case token.NOT:
			return e.set(st, in, e.in.Not(x))
		case token.SUB:
			if x.op == OConst && x.cv != nil {
				return e.set(st, in, e.in.Const(in.Type(), constant.UnaryOp(token.SUB, x.cv, 0)))
			}
		case token.ARROW:
			return e.set(st, in, e.unknown(fr, in, in.Type(), "recv"))
		}
		return e.set(st, in, e.in.mk(OUn, in.Type(), in.Op.String(), nil, nil, x))
	case *ssa.ChangeInterface:
		return e.set(st, in, e.val(fr, st, in.X))
	case *ssa.ChangeType:
		return e.set(st, in, e.val(fr, st, in.X))
	case *ssa.Convert:
		x := e.val(fr, st, in.X)
		if _, ok := under(in.X.Type()).(*types.Slice); ok {
			x = e.content(st, x)
		}
		return e.set(st, in, e.convert(x, in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		return e.set(st, in, e.convert(e.val(fr, st, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		x := e.val(fr, st, in.X)
		return e.set(st, in, e.in.MakeIface(in.X.Type(), x))
	case *ssa.Extract:
		return e.set(st, in, e.in.Extract(e.val(fr, st, in.Tuple), in.Index, in.Type()))
	case *ssa.Field:
		return e.set(st, in, e.in.Field(e.val(fr, st, in.X), in.Field, in.Type()))
	case *ssa.FieldAddr:
		x := e.val(fr, st, in.X)
		stT := ptrElem(in.X.Type())
		return e.set(st, in, e.in.mk(OFieldPtr, in.Type(), fmt.Sprint(in.Field), nil, stT, x))
	case *ssa.IndexAddr:
		x, i := e.val(fr, st, in.X), e.val(fr, st, in.Index)
		if pt := ptrElem(in.X.Type()); pt != nil {
			if at, ok := under(pt).(*types.Array); ok {
				e.oblige(fr, st, in, "index", Lit{e.in.Lt(i, e.in.Int(0)), false}, Lit{e.in.Lt(i, e.in.Int(at.Len())), true})
			}
			return e.set(st, in, e.in.mk(OElemPtr, in.Type(), "array", nil, pt, x, i))
		}
		e.oblige(fr, st, in, "index", Lit{e.in.Lt(i, e.in.Int(0)), false}, Lit{e.in.Lt(i, e.lenOf(st, x)), true})
		return e.set(st, in, e.in.mk(OElemPtr, in.Type(), "slice", nil, elemType(in.X.Type()), x, i))
	case *ssa.Index:
		x, i := e.val(fr, st, in.X), e.val(fr, st, in.Index)
		e.oblige(fr, st, in, "index", Lit{e.in.Lt(i, e.in.Int(0)), false}, Lit{e.in.Lt(i, e.in.Len(x)), true})
		return e.set(st, in, e.in.Elem(x, i, in.Type()))
	case *ssa.Lookup:
		x, k := e.val(fr, st, in.X), e.val(fr, st, in.Index)
		if isString(in.X.Type()) {
			e.oblige(fr, st, in, "index", Lit{e.in.Lt(k, e.in.Int(0)), false}, Lit{e.in.Lt(k, e.in.Len(x)), true})
			return e.set(st, in, e.in.Elem(x, k, in.Type()))
		}
		m := e.mapContent(st, x)
		et := under(in.X.Type()).(*types.Map).Elem()
		v, has := e.in.Lookup(m, k, et), e.in.Has(m, k)
		if !in.CommaOk {
			if m.op != OMapInit {
				// an absent key yields the zero value
				t, f := e.split(st, has)
				var out []*State
				if t != nil {
					out = append(out, e.set(t, in, v)...)
				}
				if f != nil {
					out = append(out, e.set(f, in, e.zero(et))...)
				}
				return out
			}
			return e.set(st, in, v)
		}
		t, f := e.split(st, has)
		var out []*State
		if t != nil {
			out = append(out, e.set(t, in, e.in.Tuple(v, e.in.Bool(true)))...)
		}
		if f != nil {
			out = append(out, e.set(f, in, e.in.Tuple(e.zero(et), e.in.Bool(false)))...)
		}
		return out
	case *ssa.MakeMap:
		m := e.in.mk(OAlloc, in.Type(), e.allocName(fr, in), nil, nil)
		st = st.clone()
		st.heap[m] = e.in.mk(OMapEmpty, in.Type(), "", nil, nil)
		return e.set(st, in, m)
	case *ssa.MakeSlice:
		n := e.val(fr, st, in.Len)
		c := e.val(fr, st, in.Cap)
		e.oblige(fr, st, in, "make size", Lit{e.in.Lt(n, e.in.Int(0)), false}, Lit{e.in.Lt(c, n), false})
		if e.sizeLimit > 0 && !measured(n) {
			e.oblige(fr, st, in, "make limit", Lit{e.in.Lt(e.in.Int(e.sizeLimit), n), false})
		}
		if e.sizeLimit > 0 && c != n && !measured(c) {
			e.oblige(fr, st, in, "make limit", Lit{e.in.Lt(e.in.Int(e.sizeLimit), c), false})
		}
		if k, ok := n.constInt(); ok && k == 0 {
			return e.set(st, in, e.in.mk(OSliceLit, in.Type(), "", nil, nil))
		}
		return e.set(st, in, e.in.mk(OMake, in.Type(), e.allocName(fr, in), nil, nil, n))
	case *ssa.MakeChan:
		return e.set(st, in, e.in.mk(OAlloc, in.Type(), e.allocName(fr, in), nil, nil))
	case *ssa.MakeClosure:
		b := make([]*Term, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = e.val(fr, st, x)
		}
		return e.set(st, in, e.in.mk(OClosure, in.Type(), "", nil, in.Fn.(*ssa.Function), b...))
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, st, in.Map), e.val(fr, st, in.Key), e.val(fr, st, in.Value)
		if m.isNil() {
			e.oblige(fr, st, in, "nil map", Lit{e.in.Bool(false), true})
		} else if e.checkPanics && m.op != OAlloc {
			e.oblige(fr, st, in, "nil map", Lit{e.in.Eq(m, e.in.Zero(m.typ)), false})
		}
		st = st.clone()
		c := e.mapContent(st, m)
		st.heap[m] = e.insert(c, k, v)
		if e.traceStore {
			e.event(st, "mapupdate", "", in, fr, m, k, v)
		}
		return []*State{st}
	case *ssa.Next:
		if len(fr.loops) == 0 {
			e.problem(fr, in, "iterator outside a loop")
			return e.set(st, in, e.unknown(fr, in, in.Type(), "next"))
		}
		l := fr.loops[len(fr.loops)-1]
		it := e.val(fr, st, in.Iter)
		more := e.in.mk(OSym, tBool, l.name()+".more", nil, l)
		if in.IsString {
			k := e.in.mk(OLoop, tInt, "idx", nil, l)
			return e.set(st, in, e.in.Tuple(more, k, e.in.mk(OElem, types.Typ[types.Rune], "rune", nil, nil, it, k)))
		}
		mt := under(it.typ).(*types.Map)
		k := e.in.mk(OIterKey, mt.Key(), "", nil, l)
		c := e.mapContent(st, it)
		l.rangeMap, l.key, l.rangeRef = c, k, it
		return e.set(st, in, e.in.Tuple(more, k, e.in.Lookup(c, k, mt.Elem())))
	case *ssa.Range:
		return e.set(st, in, e.val(fr, st, in.X))
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.Store:
		a, v := e.val(fr, st, in.Addr), e.val(fr, st, in.Val)
		st = st.clone()
		e.store(st, a, v, in.Val.Type())
		if e.traceStore {
			e.event(st, "store", "", in, fr, a, v)
		}
		return []*State{st}
	case *ssa.TypeAssert:
		x := e.val(fr, st, in.X)
		is := e.in.TypeIs(x, in.AssertedType)
		v := e.in.Unbox(x, in.AssertedType)
		if !in.CommaOk {
			e.oblige(fr, st, in, "type assertion", Lit{is, true})
			st = st.clone()
			if !e.assume(st, is, true) {
				return nil
			}
			return e.set(st, in, v)
		}
		t, f := e.split(st, is)
		var out []*State
		if t != nil {
			out = append(out, e.set(t, in, e.in.Tuple(v, e.in.Bool(true)))...)
		}
		if f != nil {
			out = append(out, e.set(f, in, e.in.Tuple(e.zero(in.AssertedType), e.in.Bool(false)))...)
		}
		return out
	case *ssa.Defer:
		st = st.clone()
		d := &deferred{call: &in.Call, inst: in}
		d.fn, d.args = e.callee(fr, st, &in.Call)
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
		return []*State{st}
	case *ssa.RunDefers:
		cur := []*State{st}
		ds := st.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range cur {
				for _, r := range e.dispatch(fr, s, ds[i].fn, ds[i].args, ds[i].call, ds[i].inst) {
					next = append(next, r.st)
				}
			}
			cur = next
		}
		for i := range cur {
			cur[i] = cur[i].clone()
			cur[i].defers = nil
		}
		return cur
	case *ssa.Call:
		fn, args := e.callee(fr, st, &in.Call)
		var out []*State
		for _, r := range e.dispatch(fr, st, fn, args, &in.Call, in) {
			s := r.st
			if s == st {
				s = st.clone()
			} else {
				s = s.clone()
			}
			s.env[in] = r.val
			out = append(out, s)
		}
		return out
	case *ssa.Go, *ssa.Send:
		return []*State{st}
	case *ssa.Select:
		return e.set(st, in, e.unknown(fr, in, in.Type(), "select"))
	case ssa.Value:
		e.problem(fr, in.(ssa.Instruction), fmt.Sprintf("unsupported instruction %T", in))
		return e.set(st, in, e.unknown(fr, in.(ssa.Instruction), in.Type(), "unsupported"))
	}
	e.problem(fr, in, fmt.Sprintf("unsupported instruction %T", in))
	return []*State{st}
}

func (e *Eval) insert(c, k, v *Term) *Term {
	if c.op == OInsert && c.args[1] == k {
		c = c.args[0]
	}
	return e.in.mk(OInsert, c.typ, "", nil, nil, c, k, v)
}

func (e *Eval) unknown(fr *Frame, in ssa.Instruction, typ types.Type, name string) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		args := make([]*Term, tup.Len())
		for i := range args {
			args[i] = e.in.mk(OUnknown, tup.At(i).Type(), fmt.Sprintf("%s@%s#%d", name, e.allocName(fr, in), i), nil, nil)
		}
		return e.in.Tuple(args...)
	}
	return e.in.mk(OUnknown, typ, fmt.Sprintf("%s@%s", name, e.allocName(fr, in)), nil, nil)
}

func (e *Eval) slice(fr *Frame, st *State, in *ssa.Slice) []*State {
	x := e.val(fr, st, in.X)
	var c *Term
	if pt := ptrElem(in.X.Type()); pt != nil {
		c = e.load(st, x, pt) // array contents
	} else if isString(in.X.Type()) {
		c = x
	} else {
		c = e.content(st, x)
	}
	var lo, hi *Term
	if in.Low != nil {
		lo = e.val(fr, st, in.Low)
	}
	if in.High != nil {
		hi = e.val(fr, st, in.High)
	}
	l, h := lo, hi
	if l == nil {
		l = e.in.Int(0)
	}
	if h == nil {
		h = e.in.Len(c)
	}
	// the upper bound may reach the capacity; the length is used instead
	e.oblige(fr, st, in, "slice bounds", Lit{e.in.Lt(l, e.in.Int(0)), false}, Lit{e.in.Lt(h, l), false}, Lit{e.in.Lt(e.in.Len(c), h), false})
	return e.set(st, in, e.in.SliceOf(c, lo, hi, in.Type()))
}
