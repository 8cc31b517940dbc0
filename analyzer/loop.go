package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopPath is one way through a loop body.
type LoopPath struct {
	pc     DNF
	phis   map[*ssa.Phi]*Term // new values of the loop-carried variables
	heap   map[*Term]*Term
	st     *State
	events []*Event
	to     *ssa.BasicBlock // exit target (nil for continue)
	from   *ssa.BasicBlock
	rets   []*Term // returned values, for paths that leave the function
}

// Loop is the summary of a loop: its body interpreted once, for an arbitrary
// iteration, with the loop-carried values left symbolic.
type Loop struct {
	n        int
	fr       *Frame
	nat      *natLoop
	init     map[*ssa.Phi]*Term
	gen      map[*ssa.Phi]*Term
	initHeap map[*Term]*Term
	genHeap  map[*Term]*Term
	conts    []*LoopPath
	exits    []*LoopPath
	returns  []*LoopPath
	rangeMap *Term // content of the map being ranged over
	rangeRef *Term
	key      *Term
	idxPhis  map[*ssa.Phi]int64 // phi == idx + k
	outerPC  DNF
	outer    *Loop
	invs     []Lit
	entry    *State
}

// vars lists the symbols of the loop-carried values.
func (l *Loop) vars() (out []*Term) {
	add := func(g *Term) {
		if g.op == OStruct {
			for _, a := range g.args {
				if a.op == OLoop && a.obj == l {
					out = append(out, a)
				}
			}
			return
		}
		if b, _ := splitAddK(g); b != nil && b.op == OLoop && b.obj == l {
			out = append(out, b)
		}
	}
	for _, g := range l.gen {
		add(g)
	}
	for _, g := range l.genHeap {
		add(g)
	}
	return
}

func (l *Loop) name() string { return fmt.Sprintf("L%d", l.n) }

func (l *Loop) pos(p *Program) string {
	for b := range l.nat.blocks {
		_ = b
	}
	for _, in := range l.nat.header.Instrs {
		if in.Pos().IsValid() {
			return p.pos(in.Pos())
		}
	}
	best := token.NoPos
	for b := range l.nat.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (best == token.NoPos || in.Pos() < best) {
				best = in.Pos()
			}
		}
	}
	return p.pos(best)
}

type loopOut struct {
	exits   []edgeState
	returns []Outcome
}

// stepOne: all back-edge values of phi are phi+1.
func stepOne(ph *ssa.Phi, nat *natLoop) bool {
	found := false
	for i, p := range ph.Block().Preds {
		if !nat.blocks[p] {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		x, y := b.X, b.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		c, ok := y.(*ssa.Const)
		if !ok || x != ssa.Value(ph) || c.Value == nil || c.Value.ExactString() != "1" {
			return false
		}
		found = true
	}
	return found
}

// mentions: t is part of a value in the environment or in memory.
func (st *State) mentions(t *Term) bool {
	is := func(x *Term) bool { return x == t }
	for _, v := range st.env {
		if v.contains(is) {
			return true
		}
	}
	for _, v := range st.heap {
		if v.contains(is) {
			return true
		}
	}
	return false
}

func (e *Eval) evalLoop(fr *Frame, nat *natLoop, st0 *State) *loopOut {
	// one summary per loop, context and incoming state
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%s|%d|", fr.ctx, fr.fn.String(), nat.header.Index)
	if len(fr.loops) > 0 {
		sb.WriteString(fr.loops[len(fr.loops)-1].name())
	}
	live := map[ssa.Value]bool{}
	for v := range fr.info.live[nat.header] {
		live[v] = true
	}
	var phis []*ssa.Phi
	for _, in := range nat.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
			live[ph] = true
		}
	}
	sb.WriteString(e.stateKey(st0, fr.info, live))
	for _, c := range st0.pc {
		sb.WriteString(c.key + "||")
	}
	L := e.loopsByKey[sb.String()]
	if L == nil {
		L = &Loop{n: len(e.loopsByKey) + 1, fr: fr, nat: nat}
		e.loopsByKey[sb.String()] = L
	}
	L.fr, L.outerPC, L.entry = fr, st0.pc, st0
	if len(fr.loops) > 0 {
		L.outer = fr.loops[len(fr.loops)-1]
	}
	L.init, L.idxPhis = map[*ssa.Phi]*Term{}, map[*ssa.Phi]int64{}
	generic := map[*ssa.Phi]bool{}
	for _, ph := range phis {
		L.init[ph] = st0.env[ph]
		generic[ph] = true
		if n, ok := L.init[ph].constInt(); ok && isInteger(ph.Type()) && stepOne(ph, nat) {
			L.idxPhis[ph] = n
		}
	}
	type locField struct {
		loc   *Term
		field int // -1: whole content
	}
	genLocs := map[locField]bool{}
	type cand struct {
		mk   func(cur func(*Term) *Term) *Term // atom over the current value
		val  bool
		on   bool
		desc string
	}
	var cands []*cand
	candsMade := false
	invariantPhi := map[*ssa.Phi]bool{}

	var out *regionOut
	for round := 0; ; round++ {
		if round > 40 {
			e.problem(fr, nat.header.Instrs[0], "loop summary does not stabilise")
			break
		}
		st := st0.clone()
		st.events = nil
		L.gen = map[*ssa.Phi]*Term{}
		for _, ph := range phis {
			var t *Term
			if k, ok := L.idxPhis[ph]; ok {
				t = e.in.AddK(e.in.mk(OLoop, ph.Type(), "idx", nil, L), k)
			} else if invariantPhi[ph] {
				t = L.init[ph]
			} else {
				t = e.in.mk(OLoop, ph.Type(), fmt.Sprintf("v%d", fr.info.idx[ph]), nil, L)
			}
			L.gen[ph] = t
			st.env[ph] = t
		}
		L.genHeap, L.initHeap = map[*Term]*Term{}, map[*Term]*Term{}
		// deterministic order
		var lfs []locField
		for lf := range genLocs {
			lfs = append(lfs, lf)
		}
		sort.Slice(lfs, func(i, j int) bool {
			if lfs[i].loc.id != lfs[j].loc.id {
				return lfs[i].loc.id < lfs[j].loc.id
			}
			return lfs[i].field < lfs[j].field
		})
		for _, lf := range lfs {
			init := e.initContent(st0, lf.loc)
			L.initHeap[lf.loc] = init
			if lf.field < 0 {
				t := e.in.mk(OLoop, init.typ, fmt.Sprintf("m%d", lf.loc.id), nil, L)
				st.heap[lf.loc] = t
			} else {
				cur, ok := st.heap[lf.loc]
				if !ok {
					cur = init
				}
				s := structType(init.typ)
				f := e.in.mk(OLoop, s.Field(lf.field).Type(), fmt.Sprintf("m%d.%d", lf.loc.id, lf.field), nil, L)
				st.heap[lf.loc] = e.in.WithField(cur, init.typ, lf.field, f)
			}
		}
		for _, lf := range lfs {
			L.genHeap[lf.loc] = st.heap[lf.loc]
		}
		// assumed invariants
		curVal := func(t *Term) *Term { return t }
		L.invs = nil
		for _, c := range cands {
			if c.on {
				a := c.mk(curVal)
				L.invs = append(L.invs, Lit{a, c.val})
				e.assume(st, a, c.val)
			}
		}
		saved := e.snapshotObls()
		nPan := len(e.panics)
		if len(st.pc) == 0 {
			out = &regionOut{}
			break
		}
		nf := *fr
		nf.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], L)
		nf.info = fr.info
		e.approxSavedLoop(func() { out = e.region(&nf, nat, nat.header, []*State{st}) })
		changed := false
		// memory changed by the body
		for _, c := range out.conts {
			for loc, v := range c.st.heap {
				if st.heap[loc] == v {
					continue
				}
				if _, known := st0.heap[loc]; !known && (loc.op == OAlloc || localOnly(loc) && !st0.mentions(loc)) {
					continue // created in this iteration
				}
				if loc.contains(func(t *Term) bool { return (t.op == OLoop || t.op == OIterKey) && t.obj == L }) {
					continue // specific to this iteration
				}
				init := e.initContent(st0, loc)
				if s := structType(init.typ); s != nil && (v.op == OStruct || v.op == ODeref) && init.typ != nil && !isTextBuffer(types.NewPointer(init.typ)) {
					for i := 0; i < s.NumFields(); i++ {
						ft := s.Field(i).Type()
						base := st.heap[loc]
						if base == nil {
							base = init
						}
						if e.in.Field(v, i, ft) != e.in.Field(base, i, ft) && !genLocs[locField{loc, i}] {
							genLocs[locField{loc, i}] = true
							changed = true
						}
					}
					continue
				}
				if !genLocs[locField{loc, -1}] {
					genLocs[locField{loc, -1}] = true
					changed = true
				}
			}
		}
		// variables that do not change
		if !changed {
			for _, ph := range phis {
				if _, idx := L.idxPhis[ph]; idx || invariantPhi[ph] {
					continue
				}
				same := true
				for _, c := range out.conts {
					if c.phis[ph] != L.gen[ph] && c.phis[ph] != L.init[ph] {
						same = false
					}
				}
				if same {
					invariantPhi[ph] = true
					changed = true
				}
			}
		}
		if !changed && !e.nocand {
			if !candsMade {
				candsMade = true
				type carried struct {
					gen, init *Term
					next      func(c contState) *Term
				}
				var cs []carried
				for _, ph := range phis {
					ph := ph
					if _, idx := L.idxPhis[ph]; !idx && !invariantPhi[ph] {
						cs = append(cs, carried{L.gen[ph], L.init[ph], func(c contState) *Term { return c.phis[ph] }})
					}
				}
				for ph, k := range L.idxPhis {
					ph, k := ph, k
					cs = append(cs, carried{L.gen[ph], e.in.Const(ph.Type(), e.in.Int(k).cv), func(c contState) *Term { return c.phis[ph] }})
				}
				for _, lf := range lfs {
					lf := lf
					if lf.field >= 0 {
						T := structType(L.initHeap[lf.loc].typ).Field(lf.field).Type()
						cs = append(cs, carried{e.in.Field(L.genHeap[lf.loc], lf.field, T), e.in.Field(L.initHeap[lf.loc], lf.field, T),
							func(c contState) *Term { return e.in.Field(c.st.heap[lf.loc], lf.field, T) }})
					} else {
						cs = append(cs, carried{L.genHeap[lf.loc], L.initHeap[lf.loc], func(c contState) *Term { return c.st.heap[lf.loc] }})
					}
				}
				// lengths that the body compares with
				lens := map[*Term]bool{}
				note := func(pc DNF) {
					for _, c := range pc {
						for _, l := range c.lits {
							l.atom.contains(func(t *Term) bool {
								if t.op == OLen {
									lens[t] = true
								}
								return false
							})
						}
					}
				}
				for _, c := range out.conts {
					note(c.st.pc)
				}
				for _, c := range out.exits {
					note(c.st.pc)
				}
				ownTerm := func(t *Term) bool {
					return t.contains(func(x *Term) bool { return (x.op == OLoop || x.op == OIterKey) && x.obj == L })
				}
				add := func(c carried, other *Term, le bool, desc string) {
					// le: value <= other, else value >= other
					mk := func(v *Term) *Term {
						if le {
							return e.in.Lt(other, v)
						}
						return e.in.Lt(v, other)
					}
					if holds(st0.pc, mk(c.init), false) {
						c := c
						cands = append(cands, &cand{mk: func(f func(*Term) *Term) *Term { return mk(f(c.gen)) }, val: false, on: true, desc: desc})
					}
				}
				for _, c := range cs {
					if c.gen.typ != nil && isInteger(c.gen.typ) && c.init != nil {
						add(c, c.init, false, "not below start")
						add(c, c.init, true, "not above start")
						if c.init.op != OConst {
							add(c, e.in.Const(c.gen.typ, e.in.Int(0).cv), false, "not negative")
						}
						var ls []*Term
						for l := range lens {
							ls = append(ls, l)
						}
						sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
						for _, l := range ls {
							if !ownTerm(l) {
								add(c, l, true, "not above length")
							}
						}
					} else if c.gen.typ != nil {
						if _, ok := under(c.gen.typ).(*types.Slice); ok && c.init != nil {
							gl, il := e.in.Len(c.gen), e.in.Len(c.init)
							gen := c.gen
							if holds(st0.pc, e.in.Lt(il, il), false) {
								cands = append(cands, &cand{mk: func(f func(*Term) *Term) *Term { return e.in.Lt(e.in.Len(f(gen)), il) }, val: false, on: true, desc: "not shorter than at start"})
							}
							_ = gl
						}
					}
				}
				if len(cands) > 0 {
					changed = true
				}
			} else {
				// check the assumed invariants on every back edge
				for _, c := range cands {
					if !c.on {
						continue
					}
					for _, k := range out.conts {
						sub := map[*Term]*Term{}
						for _, ph := range phis {
							if L.gen[ph].op == OLoop {
								sub[L.gen[ph]] = k.phis[ph]
							} else if kk, ok := L.idxPhis[ph]; ok {
								sub[L.gen[ph]] = k.phis[ph]
								base, _ := splitAddK(L.gen[ph])
								sub[base] = e.in.AddK(k.phis[ph], -kk)
							}
						}
						for _, lf := range lfs {
							if lf.field >= 0 {
								T := structType(L.initHeap[lf.loc].typ).Field(lf.field).Type()
								sub[e.in.Field(L.genHeap[lf.loc], lf.field, T)] = e.in.Field(k.st.heap[lf.loc], lf.field, T)
							} else {
								sub[L.genHeap[lf.loc]] = k.st.heap[lf.loc]
							}
						}
						a := c.mk(func(t *Term) *Term {
							if r, ok := sub[t]; ok {
								return r
							}
							return t
						})
						if !holds(k.st.pc, a, c.val) {
							c.on = false
							changed = true
							break
						}
					}
				}
			}
		}
		if !changed {
			break
		}
		e.restoreObls(saved)
		e.panics = e.panics[:nPan]
	}
	// record
	L.conts, L.exits, L.returns = nil, nil, nil
	for _, c := range out.conts {
		L.conts = append(L.conts, &LoopPath{pc: c.st.pc, phis: c.phis, heap: c.st.heap, st: c.st, events: c.st.events})
	}
	full := make([]*State, len(out.exits))
	for i, x := range out.exits {
		full[i] = x.st
	}
	if e.forgetExit {
		early := len(out.returns) > 0
		for _, x := range out.exits {
			early = early || x.from != nat.header
		}
		own := func(t *Term) bool {
			b, _ := splitAddK(t)
			return b != nil && b.op == OLoop && b.obj == L && b.aux == "idx"
		}
		for i, x := range out.exits {
			if early {
				break
			}
			st := x.st.clone()
			var pc DNF
			for _, c := range st.pc {
				var lits []Lit
				for _, l := range c.lits {
					if (l.atom.op == OLt || l.atom.op == OEq) && (own(l.atom.args[0]) || own(l.atom.args[1])) || l.atom.op == OSym && l.atom.aux == L.name()+".more" {
						continue
					}
					lits = append(lits, l)
				}
				n := e.in.newConj(lits)
				pc, _ = e.in.join(pc, DNF{n}, e.limitPC)
			}
			st.pc = pc
			out.exits[i].st = st
		}
	}
	lo := &loopOut{}
	ev := &Event{kind: "loop", loop: L, key: "loop:" + L.name()}
	silent := len(L.genHeap) == 0 && len(out.returns) == 0
	for _, c := range out.conts {
		silent = silent && len(c.st.events) == 0
	}
	for _, x := range out.exits {
		silent = silent && len(x.st.events) == 0
	}
	wrap := func(s *State) *State {
		n := s.clone()
		if silent {
			n.events = st0.events[:len(st0.events):len(st0.events)]
			return n
		}
		n.events = append(st0.events[:len(st0.events):len(st0.events)], ev)
		n.events = append(n.events, s.events...)
		return n
	}
	for i, x := range out.exits {
		L.exits = append(L.exits, &LoopPath{pc: full[i].pc, heap: full[i].heap, st: full[i], events: full[i].events, to: x.to, from: x.from})
		lo.exits = append(lo.exits, edgeState{wrap(x.st), x.from, x.to})
	}
	for _, r := range out.returns {
		L.returns = append(L.returns, &LoopPath{pc: r.st.pc, heap: r.st.heap, st: r.st, events: r.st.events, rets: r.results})
		lo.returns = append(lo.returns, Outcome{wrap(r.st), r.results})
	}
	return lo
}

func (e *Eval) approxSavedLoop(f func()) { f() }

// initContent is the content of loc before the loop.
func (e *Eval) initContent(st *State, loc *Term) *Term {
	if c, ok := st.heap[loc]; ok {
		return c
	}
	if loc.typ != nil {
		switch under(loc.typ).(type) {
		case *types.Map:
			return e.mapContent(st, loc)
		case *types.Pointer:
			return e.load(st, loc, ptrElem(loc.typ))
		}
	}
	return e.content(st, loc)
}

func (e *Eval) snapshotObls() map[string]Obligation {
	m := map[string]Obligation{}
	for k, o := range e.obls {
		m[k] = *o
	}
	return m
}

func (e *Eval) restoreObls(m map[string]Obligation) {
	for k, o := range e.obls {
		if s, ok := m[k]; ok {
			*o = s
		} else {
			delete(e.obls, k)
		}
	}
}

// invCand is a candidate invariant of a struct type, see contracts.go.
type invCand struct {
	typ  types.Type
	mk   func(in *Interner, s *Term) *Term
	val  bool
	on   bool
	desc string
}
