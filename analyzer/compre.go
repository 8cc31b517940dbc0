package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The comprehension layer turns a collection-valued term (a slice or the
// content of a map that loops built) into generators: for all values of the
// domain variables that satisfy the guard, the collection contains the
// element (under the key). Domains over collections that were themselves
// built by loops are replaced by the generators of those.

// Dom is the domain of one variable.
type Dom struct {
	kind   string // "keys" of a map, "index" of a slice, "num" range
	of     *Term
	raw    *Term // of, before the enclosing iterations were bound
	lo, hi *Term // num: lo <= v <= hi
	v      *Term
	order  string // "asc", "desc", "any"
	loop   *Loop
	early  []*Conj // conditions under which the iteration stops early
}

func (d *Dom) String() string {
	if d.kind == "num" {
		return fmt.Sprintf("%s in %s..%s (%s)", d.v, d.lo, d.hi, d.order)
	}
	return fmt.Sprintf("%s in %s(%s) (%s)", d.v, d.kind, d.of, d.order)
}

// Gen is one generator.
type Gen struct {
	doms []*Dom
	pc   *Conj
	key  *Term // maps only
	elem *Term
	sort *SortInfo // the whole list was sorted afterwards
	list *Term     // the list in a map that the element belongs to
	via  []*Term
	app  bool // map of lists: elem is appended to the list at key
}

func (g *Gen) String() string {
	var s []string
	for _, d := range g.doms {
		s = append(s, d.String())
	}
	k := ""
	if g.key != nil {
		k = g.key.String() + " -> "
	}
	return fmt.Sprintf("{%s%s | %s | %s}", k, g.elem, strings.Join(s, "; "), g.pc)
}

type comp struct {
	e        *Eval
	seq      int
	fails    []string
	env      map[*Term]*Term
	memo     map[string]cached
	noFail   bool  // only outcomes without an error are of interest
	soFar    *Term // the text of a loop that is being taken apart
	foldMode bool  // collect what is applied to a document instead of list elements
	busy     map[*Term]int
	freeOf   map[*Term]map[*Term]bool
}

type cached struct {
	gs    []*Gen
	fails []string
}

// once computes the generators of t once per environment; every use gets its
// own domain variables.
func (x *comp) once(kind string, t *Term, f func() []*Gen) []*Gen {
	var parts []string
	for k, v := range x.env {
		parts = append(parts, fmt.Sprintf("%d:%d", k.id, v.id))
	}
	sort.Strings(parts)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %d %s", kind, t.id, strings.Join(parts, " "))
	key := sb.String()
	if x.memo == nil {
		x.memo = map[string]cached{}
	}
	c, ok := x.memo[key]
	if !ok {
		if x.busy == nil {
			x.busy = map[*Term]int{}
		}
		if x.busy[t] > 0 {
			x.fail("the collection %s depends on itself", t)
			return nil
		}
		x.busy[t]++
		defer func() { x.busy[t]-- }()
		saved := x.fails
		x.fails = nil
		c.gs = f()
		c.fails = x.fails
		x.fails = saved
		x.memo[key] = c
	}
	x.fails = append(x.fails, c.fails...)
	out := make([]*Gen, len(c.gs))
	for i, g := range c.gs {
		out[i] = x.freshen(g)
	}
	return out
}

// freshen renames the domain variables of g.
func (x *comp) freshen(g *Gen) *Gen {
	n := *g
	m := map[*Term]*Term{}
	for _, d := range g.doms {
		if d.v != nil && m[d.v] == nil {
			m[d.v] = x.fresh(strings.TrimRight(strings.TrimPrefix(d.v.aux, "$"), "0123456789"), d.v.typ)
		}
	}
	if len(m) == 0 {
		return &n
	}
	n.doms = substDoms(x, g.doms, m)
	for i := range n.doms {
		if n.doms[i].v != nil {
			n.doms[i].v = m[n.doms[i].v]
		}
	}
	if p := x.substConj(g.pc, m); p != nil {
		n.pc = p
	}
	n.elem = x.e.in.subst(g.elem, m)
	if g.key != nil {
		n.key = x.e.in.subst(g.key, m)
	}
	n.via = nil
	for _, v := range g.via {
		n.via = append(n.via, x.e.in.subst(v, m))
	}
	return &n
}

// clos is a value of a finished loop together with the values of the
// enclosing iterations' variables (the arguments of the OClos term).
type clos struct {
	t    *Term
	keys []*Term
}

// free lists the terms that t depends on, through the loops it comes from.
func (x *comp) free(t *Term) map[*Term]bool {
	if m, ok := x.freeOf[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	loops := map[*Loop]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || m[t] {
			return
		}
		m[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op != OLoop {
			return
		}
		l := t.obj.(*Loop)
		if loops[l] {
			return
		}
		loops[l] = true
		for _, i := range l.init {
			rec(i)
		}
		for _, i := range l.initHeap {
			rec(i)
		}
		rec(l.rangeMap)
		for _, cs := range [][]*LoopPath{l.conts, l.exits} {
			for _, c := range cs {
				for _, cj := range c.pc {
					for _, li := range cj.lits {
						rec(li.atom)
					}
				}
				for _, p := range c.phis {
					rec(p)
				}
				for loc := range l.genHeap {
					rec(c.heap[loc])
				}
			}
		}
	}
	rec(t)
	if x.freeOf == nil {
		x.freeOf = map[*Term]map[*Term]bool{}
	}
	x.freeOf[t] = m
	return m
}

// close_ attaches the environment to a loop value.
func (x *comp) close_(t *Term) *Term {
	fr := x.free(t)
	var keys []*Term
	for k := range x.env {
		if fr[k] {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return t
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	id := fmt.Sprint(t.id)
	args := make([]*Term, len(keys))
	for i, k := range keys {
		id += fmt.Sprintf(",%d", k.id)
		args[i] = x.env[k]
	}
	if x.e.closures == nil {
		x.e.closures = map[string]*clos{}
	}
	c := x.e.closures[id]
	if c == nil {
		c = &clos{t, keys}
		x.e.closures[id] = c
	}
	return x.e.in.mk(OClos, t.typ, t.String(), nil, c, args...)
}

// open runs f with the loop value and the environment of t.
func (x *comp) open(t *Term, f func(t *Term)) {
	saved := x.env
	defer func() { x.env = saved }()
	x.env = nil
	if t.op == OClos {
		c := t.obj.(*clos)
		x.env = map[*Term]*Term{}
		for i, k := range c.keys {
			x.env[k] = t.args[i]
		}
		t = c.t
	}
	f(t)
}

// sub replaces the terms of the enclosing iterations in t.
func (x *comp) sub(t *Term) *Term {
	if t == nil || len(x.env) == 0 {
		return t
	}
	m := x.env
	var ls []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := x.env[t]; ok {
			return
		}
		if t.op == OLoop {
			ls = append(ls, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	for _, l := range ls {
		if c := x.close_(l); c != l {
			if len(m) == len(x.env) {
				m = merged(x.env, nil)
			}
			m[l] = c
		}
	}
	return x.e.in.subst(t, m)
}

func (x *comp) subC(c *Conj) *Conj {
	if len(x.env) == 0 {
		return c
	}
	r := x.e.in.newConj(nil)
	for _, l := range c.lits {
		if r = r.with(x.sub(l.atom), l.val); r == nil {
			return nil
		}
	}
	return r
}

func (x *comp) subDoms(ds []*Dom) []*Dom {
	out := cloneDoms(ds, "")
	for _, c := range out {
		c.of, c.lo, c.hi = x.sub(c.of), x.sub(c.lo), x.sub(c.hi)
		var es []*Conj
		for _, e := range c.early {
			if r := x.subC(e); r != nil {
				es = append(es, r)
			}
		}
		c.early = es
	}
	return out
}

// prev stands for the value of the variable g of L before an iteration.
func (x *comp) prev(L *Loop, g *Term) *Term {
	t := x.e.in.mk(OPrev, g.typ, fmt.Sprintf("%s#%d", g.aux, g.id), nil, L)
	if x.e.prevs == nil {
		x.e.prevs = map[*Term]*Term{}
	}
	x.e.prevs[t] = g
	return t
}

func merged(a, b map[*Term]*Term) map[*Term]*Term {
	m := make(map[*Term]*Term, len(a)+len(b))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

// inner returns the generators of the list that g puts into a map.
func (x *comp) inner(g *Gen) []*Gen {
	return x.list(g.elem)
}

// flat returns the generators of the elements of the lists that g puts into a map.
func (x *comp) flat(g *Gen) (out []*Gen) {
	for _, h := range x.inner(g) {
		p := x.and(g.pc, h.pc)
		if p == nil {
			continue
		}
		n := *h
		n.key, n.pc = g.key, p
		n.doms = append(append([]*Dom{}, g.doms...), h.doms...)
		n.via = append(append([]*Term{}, g.via...), h.via...)
		if x.tidy(&n) {
			out = append(out, &n)
		}
	}
	return
}

func (x *comp) fail(f string, a ...any) { x.fails = append(x.fails, fmt.Sprintf(f, a...)) }

func (x *comp) fresh(name string, typ types.Type) *Term {
	x.seq++
	return x.e.in.mk(OSym, typ, fmt.Sprintf("$%s%d", name, x.seq), nil, nil)
}

// carried describes the loop-carried value t = OLoop(L, …).
func carried(in *Interner, t *Term) (L *Loop, init *Term, next func(*LoopPath) *Term) {
	if t.op == OField && t.args[0].op == OLoop {
		return nil, nil, nil
	}
	if t.op != OLoop {
		return nil, nil, nil
	}
	L = t.obj.(*Loop)
	for ph, g := range L.gen {
		if g == t {
			ph := ph
			return L, L.init[ph], func(c *LoopPath) *Term { return c.phis[ph] }
		}
	}
	for loc, g := range L.genHeap {
		loc := loc
		if g == t {
			return L, L.initHeap[loc], func(c *LoopPath) *Term { return c.heap[loc] }
		}
		if g.op == OStruct {
			for i, a := range g.args {
				if a == t {
					i := i
					return L, in.Field(L.initHeap[loc], i, t.typ), func(c *LoopPath) *Term { return in.Field(c.heap[loc], i, t.typ) }
				}
			}
		}
	}
	return nil, nil, nil
}

func (c *Conj) empty() bool { return len(c.lits) == 0 }

// and returns a && b without the literals that drop selects, or nil.
func (x *comp) and(a, b *Conj) *Conj {
	r := a
	for _, l := range b.lits {
		if r = r.with(l.atom, l.val); r == nil {
			return nil
		}
	}
	return r
}

func (x *comp) substConj(c *Conj, m map[*Term]*Term) *Conj {
	r := x.e.in.newConj(nil)
	for _, l := range c.lits {
		if r = r.with(x.e.in.subst(l.atom, m), l.val); r == nil {
			return nil
		}
	}
	return r
}

// bare removes the literals of c that only control the iteration of L.
func (x *comp) bare(c *Conj, L *Loop, test *Term) *Conj {
	var lits []Lit
	for _, l := range c.lits {
		if l.atom == test || l.atom.op == OSym && strings.HasSuffix(l.atom.aux, ".more") || x.finished(l.atom, L) {
			continue
		}
		if x.e.isInv(l) || x.noError(L, l) {
			continue
		}
		lits = append(lits, l)
	}
	return x.e.in.newConj(lits)
}

// noError: l says that a call had no error, and the function does not return
// when it had one.
func (x *comp) noError(L *Loop, l Lit) bool {
	if l.atom.op != OEq || !l.val {
		return false
	}
	isErr := false
	for i, a := range l.atom.args {
		if a.op == OExtract && l.atom.args[1-i].op == OConst {
			isErr = true
		}
	}
	if !isErr {
		return false
	}
	panics := false
	for _, e := range L.exits {
		for _, cj := range e.pc {
			if v, known := cj.decide(l.atom); known && !v {
				if e.from == L.nat.header || canReturn(e.to) {
					return false
				}
				panics = true
			}
		}
	}
	if !panics {
		return false
	}
	for _, c := range L.conts {
		for _, cj := range c.pc {
			if v, known := cj.decide(l.atom); known && !v {
				return false
			}
		}
	}
	return true
}

// isInv: the literal is a proved invariant of some loop.
func (e *Eval) isInv(l Lit) bool {
	if e.oldInvs[l] {
		return true
	}
	for _, L := range e.loopsByKey {
		for _, v := range L.invs {
			if v == l {
				return true
			}
		}
	}
	return false
}

// finished: the atom only says that another loop has run to its end.
func (x *comp) finished(a *Term, L *Loop) bool {
	if a.op != OLt && a.op != OEq {
		return false
	}
	for _, t := range a.args {
		b, _ := splitAddK(t)
		if b == nil || b.op != OLoop || b.aux != "idx" || b.obj == L {
			continue
		}
		l := b.obj.(*Loop)
		active := false
		for o := L; o != nil; o = o.outer {
			active = active || o == l
		}
		if active {
			// the test of an enclosing loop
			for _, u := range a.args {
				if w, k := splitAddK(u); a.op == OLt && w != nil && w.op == OLen && (k == 0 || k == -1) {
					return true
				}
			}
			continue
		}
		early := false
		for _, e := range l.exits {
			early = early || e.from != l.nat.header
		}
		if !early {
			return true
		}
	}
	return false
}

// induction describes the counting variable of L.
type induction struct {
	v    *Term // the symbolic value
	init *Term
	step int64
}

func (x *comp) inductions(L *Loop) (out []induction) {
	idxDone := false
	for ph, g := range L.gen {
		if _, ok := L.idxPhis[ph]; ok {
			if !idxDone {
				idxDone = true
				base, k := splitAddK(g)
				// base == g - k, starting at init - k
				out = append(out, induction{base, x.e.in.AddK(L.init[ph], -k), 1})
			}
			continue
		}
		if g.op != OLoop || g.typ == nil || !isInteger(g.typ) || len(L.conts) == 0 {
			continue
		}
		step := int64(0)
		same := true
		for _, c := range L.conts {
			b, k := splitAddK(c.phis[ph])
			if b != g || k == 0 || step != 0 && step != k {
				same = false
				break
			}
			step = k
		}
		if same {
			out = append(out, induction{g, L.init[ph], step})
		}
	}
	return
}

// domOf determines what L iterates over, and the literal that tests it.
func (x *comp) domOf(L *Loop) (d *Dom, test *Term, ind induction, ok bool) {
	in := x.e.in
	if L.rangeMap != nil {
		of := L.rangeMap
		for loc, g := range L.genHeap {
			if g != of {
				continue
			}
			// the body may only write the current entry
			for _, c := range L.conts {
				for n := c.heap[loc]; n != nil && n != g; n = n.args[0] {
					if n.op != OInsert && n.op != ODelete || n.args[1] != L.key {
						x.fail("the loop at %s changes the map that it iterates over", L.pos(x.e.p))
						return nil, nil, induction{}, false
					}
				}
			}
			of = L.initHeap[loc]
		}
		return &Dom{kind: "keys", of: x.sub(of), order: "any", loop: L, early: nil}, nil, induction{}, true
	}
	for _, ind := range x.inductions(L) {
		cands := map[*Term]bool{}
		for _, c := range L.conts {
			for _, cj := range c.pc {
				for _, l := range cj.lits {
					if l.atom.op == OLt || l.atom.op == OEq {
						cands[l.atom] = true
					}
				}
			}
		}
		var sortedC []*Term
		for a := range cands {
			sortedC = append(sortedC, a)
		}
		// deterministic
		for i := range sortedC {
			for j := i + 1; j < len(sortedC); j++ {
				if sortedC[j].id < sortedC[i].id {
					sortedC[i], sortedC[j] = sortedC[j], sortedC[i]
				}
			}
		}
		for _, a := range sortedC {
			if a.op != OLt {
				continue
			}
			p, pk := splitAddK(a.args[0])
			q, qk := splitAddK(a.args[1])
			if (p == ind.v) == (q == ind.v) {
				continue
			}
			other := a.args[1]
			if q == ind.v {
				other = a.args[0]
			}
			if other.contains(func(t *Term) bool { return (t.op == OLoop || t.op == OIterKey) && t.obj == L }) {
				continue
			}
			// all continuing paths agree on it, all exits at the header have it the other way
			val, first, agree := false, true, true
			for _, c := range L.conts {
				for _, cj := range c.pc {
					v, known := cj.decide(a)
					if !known || !first && v != val {
						agree = false
					}
					val, first = v, false
				}
			}
			if !agree || first {
				continue
			}
			exits := 0
			for _, e := range L.exits {
				if e.from != L.nat.header {
					continue
				}
				for _, cj := range e.pc {
					if v, known := cj.decide(a); !known || v == val {
						agree = false
					} else {
						exits++
					}
				}
			}
			if !agree || exits == 0 {
				continue
			}
			d := &Dom{kind: "num", loop: L}
			switch {
			case ind.step == 1 && p == ind.v && val: // v+pk < other
				d.order, d.lo, d.hi = "asc", ind.init, in.AddK(other, -pk-1)
			case ind.step == 1 && q == ind.v && !val: // !(other < v+qk)
				d.order, d.lo, d.hi = "asc", ind.init, in.AddK(other, -qk)
			case ind.step == -1 && q == ind.v && val: // other < v+qk
				d.order, d.hi, d.lo = "desc", ind.init, in.AddK(other, 1-qk)
			case ind.step == -1 && p == ind.v && !val: // !(v+pk < other)
				d.order, d.hi, d.lo = "desc", ind.init, in.AddK(other, -pk)
			default:
				continue
			}
			lo, isC := d.lo.constInt()
			if hb, hk := splitAddK(d.hi); isC && lo == 0 && hb != nil && hb.op == OLen && hk == -1 {
				d.kind, d.of = "index", x.indexed(L, hb, ind.v)
			}
			d.lo, d.hi = x.sub(d.lo), x.sub(d.hi)
			if d.of != nil {
				d.raw, d.of = d.of, x.resolve(x.sub(d.of))
			}
			return d, a, ind, true
		}
	}
	return nil, nil, induction{}, false
}

// indexed: the list of the given length whose elements L reads.
func (x *comp) indexed(L *Loop, length, v *Term) *Term {
	in := x.e.in
	var cands []*Term
	for _, t := range collect(L, func(t *Term) bool { return t.op == OElem && t.args[1] == v && in.Len(t.args[0]) == length }) {
		if t = t.args[0]; len(cands) == 0 || cands[0] != t {
			cands = append(cands, t)
		}
	}
	if len(cands) == 1 {
		return cands[0]
	}
	for _, c := range cands {
		if c != length.args[0] {
			x.fail("the loop at %s reads several lists", L.pos(x.e.p))
		}
	}
	return length.args[0]
}

func (x *comp) true_() *Conj { return x.e.in.newConj(nil) }

// bound is one way to bind the iteration of a loop.
type bound struct {
	doms []*Dom
	pc   *Conj
	sub  map[*Term]*Term
	sort *SortInfo
	via  []*Term
}

// bind replaces the iteration of L by generators.
func (x *comp) bind(L *Loop) (bs []bound, test *Term, ok bool) {
	in := x.e.in
	d, test, ind, ok := x.domOf(L)
	if !ok {
		x.fail("the iteration of the loop at %s is not recognised", L.pos(x.e.p))
		return nil, nil, false
	}
	// leaving the loop early
	for _, e := range L.exits {
		if e.from == L.nat.header || !canReturn(e.to) || x.noFail && failsOnly(e.from, e.to) {
			continue
		}
		for _, cj := range e.pc {
			d.early = append(d.early, x.bare(cj, L, test))
		}
	}
	switch d.kind {
	case "keys":
		key := in.mk(OIterKey, nil, "", nil, L)
		if L.key != nil {
			key = L.key
		}
		var gs []*Gen
		single := x.generated(d.of)
		if single {
			gs = x.maps(d.of)
			for _, g := range gs {
				// several elements may have the same key
				single = single && !g.app && (len(g.doms) == 0 || len(g.doms) == 1 && g.key == g.doms[0].v)
			}
		}
		if single {
			for i, g := range gs {
				// entries that were overwritten later
				pc := g.pc
				for _, h := range gs[i+1:] {
					if pc != nil && len(h.doms) == 0 {
						pc = pc.with(in.Eq(g.key, h.key), false)
					}
				}
				if pc == nil {
					continue
				}
				s := map[*Term]*Term{key: g.key}
				s[in.Lookup(L.rangeMap, key, elemType(L.rangeMap.typ))] = g.elem
				s[in.Has(L.rangeMap, key)] = in.Bool(true)
				bs = append(bs, bound{doms: g.doms, pc: pc, sub: s, via: append(g.via, d.of)})
			}
			for i := range bs {
				bs[i].doms = cloneDoms(bs[i].doms, "any")
			}
			return bs, test, true
		}
		v := x.fresh("k", key.typ)
		d.v = v
		sub := map[*Term]*Term{key: v}
		pc := x.true_().with(in.Has(d.of, v), true)
		return []bound{{doms: []*Dom{x.early(d, sub)}, pc: pc, sub: sub}}, test, true
	case "index":
		C := d.of
		if x.generated(C) && d.order == "asc" {
			et := elemType(C.typ)
			for _, g := range x.list(C) {
				s := map[*Term]*Term{in.Elem(d.raw, ind.v, elemType(d.raw.typ)): g.elem}
				if len(g.doms) == 1 && g.doms[0].kind == "index" && in.Elem(g.doms[0].of, g.doms[0].v, et) == g.elem && g.pc.empty() {
					s[ind.v] = g.doms[0].v
				}
				doms := g.doms
				if len(doms) > 0 && len(d.early) > 0 {
					doms = cloneDoms(doms, "")
					last := *doms[0]
					last.early = append(last.early, d.early...)
					doms[0] = x.early(&last, s)
				}
				bs = append(bs, bound{doms: doms, pc: g.pc, sub: s, sort: g.sort, via: append(g.via, C)})
			}
			return bs, test, true
		}
		v := x.fresh("i", tInt)
		d.v = v
		sub := map[*Term]*Term{ind.v: v}
		pc := x.true_().with(in.Lt(v, in.Int(0)), false).with(in.Lt(v, in.Len(C)), true)
		return []bound{{doms: []*Dom{x.early(d, sub)}, pc: pc, sub: sub}}, test, true
	}
	v := x.fresh("n", ind.v.typ)
	d.v = v
	sub := map[*Term]*Term{ind.v: v}
	pc := x.true_().with(in.Lt(v, d.lo), false)
	if pc != nil {
		pc = pc.with(in.Lt(d.hi, v), false)
	}
	if pc == nil {
		return nil, test, true
	}
	return []bound{{doms: []*Dom{x.early(d, sub)}, pc: pc, sub: sub}}, test, true
}

func cloneDoms(ds []*Dom, order string) []*Dom {
	out := make([]*Dom, len(ds))
	for i, d := range ds {
		c := *d
		if order != "" {
			c.order = order
		}
		out[i] = &c
	}
	return out
}

func (x *comp) early(d *Dom, sub map[*Term]*Term) *Dom {
	var out []*Conj
	saved := x.env
	x.env = merged(saved, sub)
	for _, c := range d.early {
		if r := x.subC(c); r != nil {
			out = append(out, r)
		}
	}
	x.env = saved
	d.early = out
	return d
}

// generated: t was built by loops that are finished.
func (x *comp) generated(t *Term) bool {
	switch t.op {
	case OSorted, OAppend, OStoreElem, OInsert, OSliceOf:
		return true
	case OLoop:
		L, _, _ := carried(x.e.in, t)
		return L != nil
	case OClos:
		return x.generated(t.obj.(*clos).t)
	case OSliceLit, OMapEmpty, OMake:
		return true
	case OConst:
		return true
	case OLookup:
		return x.generated(t.args[0])
	case OCall:
		return x.collected(t) != "" || t.callName() == "maps.Copy"
	}
	return false
}

// collected: t lists the keys or values of a map.
func (x *comp) collected(t *Term) string {
	if t.callName() == "slices.Collect" && len(t.args) == 1 {
		switch n := t.args[0].callName(); n {
		case "maps.Keys", "maps.Values":
			return n
		}
	}
	return ""
}

// list returns the generators of a slice value.
func (x *comp) list(t *Term) []*Gen {
	in := x.e.in
	t = x.sub(t)
	switch t.op {
	case OConst:
		return nil
	case OMake:
		if n, ok := t.args[0].constInt(); ok && n == 0 {
			return nil
		}
	case OSliceLit:
		var out []*Gen
		for _, a := range t.args {
			out = append(out, &Gen{pc: x.true_(), elem: a})
		}
		return out
	case OAppend:
		return append(x.list(t.args[0]), x.list(t.args[1])...)
	case OSorted:
		info := t.obj.(*SortInfo)
		gs := x.list(t.args[0])
		one := true
		for _, g := range gs {
			one = one && (len(g.doms) == 0 || len(g.doms) == 1 && g.doms[0].v == g.elem)
		}
		for _, g := range gs {
			if one && len(g.doms) == 0 && strings.HasPrefix(info.kind, "natural") {
				continue
			}
			if one && strings.HasPrefix(info.kind, "natural") && len(g.doms) == 1 && g.doms[0].v == g.elem {
				g.doms = cloneDoms(g.doms, "asc")
				continue
			}
			if g.sort != nil {
				x.fail("a list is sorted twice")
			}
			g.sort = info
		}
		return gs
	case OLookup:
		if x.generated(t.args[0]) {
			return x.lookupList(t)
		}
	case OCall:
		if k := x.collected(t); k != "" {
			var out []*Gen
			for _, g := range x.maps(t.args[0].args[0]) {
				if g.app || len(g.doms) > 1 || len(g.doms) == 1 && g.key != g.doms[0].v {
					x.fail("the entries of %s may have equal keys", t.args[0].args[0])
				}
				n := *g
				n.key, n.app = nil, false
				if k == "maps.Keys" {
					n.elem = g.key
				}
				n.doms = cloneDoms(g.doms, "any")
				out = append(out, &n)
			}
			return out
		}
	case OLoop, OClos:
		var out []*Gen
		ok := false
		x.open(t, func(t *Term) {
			if L, init, next := carried(in, t); L != nil {
				ok = true
				out = x.once("list", t, func() []*Gen {
					if gs, ok := x.mapped(t, L, init, next); ok {
						return gs
					}
					return x.after(t, L, init, next, false)
				})
			}
		})
		if ok {
			return out
		}
	case OSliceOf:
		if lo, ok := t.args[1].constInt(); ok && lo == 0 && t.args[2] == in.Len(t.args[0]) {
			return x.list(t.args[0])
		}
	}
	if t.contains(func(s *Term) bool { return s.op == OStoreElem }) {
		x.fail("element stores into %s are not followed", t)
	}
	v := x.fresh("i", tInt)
	pc := x.true_().with(in.Lt(v, in.Int(0)), false).with(in.Lt(v, in.Len(t)), true)
	return []*Gen{{doms: []*Dom{{kind: "index", of: t, v: v, order: "asc"}}, pc: pc, elem: in.Elem(t, v, elemType(t.typ))}}
}

func (x *comp) lookupList(t *Term) []*Gen {
	if r := x.resolve(t); r != t {
		return x.list(r)
	}
	m, key := t.args[0], t.args[1]
	var out []*Gen
	gs := x.maps(m)
	apps := 0
	for _, g := range gs {
		if g.app {
			apps++
		}
	}
	if apps > 0 && apps == len(gs) {
		// the elements that were appended to the list at key
		for _, g := range gs {
			n := *g
			n.app, n.key = false, nil
			n.via = append(append([]*Term{}, g.via...), t)
			if n.pc = g.pc.with(x.e.in.Eq(g.key, key), true); n.pc != nil {
				out = append(out, &n)
			}
		}
		return out
	}
	for i, g := range gs {
		one := !g.app && len(g.doms) == 0
		if !one && (g.app || len(g.doms) != 1 || g.key != g.doms[0].v || len(g.doms[0].early) > 0) {
			x.fail("the list %s cannot be resolved", t)
			return nil
		}
		s := map[*Term]*Term{g.key: key}
		base := g.pc
		if one {
			s = map[*Term]*Term{}
			base = base.with(x.e.in.Eq(g.key, key), true)
		}
		for _, h := range gs[i+1:] {
			// entries that were overwritten later
			if base != nil && len(h.doms) == 0 {
				base = base.with(x.e.in.Eq(g.key, h.key), false)
			}
		}
		if base == nil {
			continue
		}
		for _, h := range x.inner(g) {
			p := x.and(base, h.pc)
			if p != nil {
				p = x.substConj(p, s)
			}
			if p == nil {
				continue
			}
			n := *h
			n.pc, n.doms, n.elem = p, substDoms(x, h.doms, s), x.e.in.subst(h.elem, s)
			if x.tidy(&n) {
				out = append(out, &n)
			}
		}
	}
	return out
}

// maps returns the generators of a map content.
func (x *comp) maps(t *Term) []*Gen {
	in := x.e.in
	t = x.sub(t)
	switch t.op {
	case OMapEmpty, OConst:
		return nil
	case OInsert:
		return x.override(x.maps(t.args[0]), []*Gen{{pc: x.true_(), key: t.args[1], elem: t.args[2]}})
	case OCall:
		if t.callName() == "maps.Copy" && len(t.args) == 2 {
			return x.override(x.maps(t.args[0]), x.maps(t.args[1]))
		}
	case OLoop, OClos:
		var out []*Gen
		ok := false
		x.open(t, func(t *Term) {
			if L, init, next := carried(in, t); L != nil {
				ok = true
				out = x.once("map", t, func() []*Gen { return x.after(t, L, init, next, true) })
			}
		})
		if ok {
			return out
		}
	}
	var kt types.Type
	if m, ok := under(t.typ).(*types.Map); ok {
		kt = m.Key()
	}
	v := x.fresh("k", kt)
	et := elemType(t.typ)
	pc := x.true_().with(in.Has(t, v), true)
	return []*Gen{{doms: []*Dom{{kind: "keys", of: t, v: v, order: "any"}}, pc: pc, key: v, elem: in.Lookup(t, v, et)}}
}

// fold returns the document that t starts from and the patches (or, with app,
// operations) that are applied to it.
func (x *comp) fold(t *Term) (base *Term, out []*Gen) {
	t = x.sub(t)
	if t.op == OExtract && t.aux == "0" && t.args[0].op == OCall {
		c := t.args[0]
		one := strings.HasSuffix(c.callName(), "tsonpatch.ApplyOperation")
		if one || strings.HasSuffix(c.callName(), "tsonpatch.ApplyPatch") {
			base, out = x.fold(c.args[0])
			return base, append(out, &Gen{pc: x.true_(), elem: c.args[1], app: one})
		}
	}
	if t.op == OLoop || t.op == OClos {
		ok := false
		x.open(t, func(t *Term) {
			L, init, next := carried(x.e.in, t)
			if L == nil || init == nil {
				return
			}
			folds := false
			for _, c := range L.conts {
				n := next(c)
				folds = folds || n != t && n.op == OExtract || n.op == OLoop && n.obj != L
			}
			if !folds {
				return
			}
			ok = true
			base, out = x.fold(init)
			x.foldMode = true
			out = append(out, x.updates(t, L, next, false)...)
			x.foldMode = false
		})
		if ok {
			return
		}
	}
	return t, nil
}

// override: the entries of old that are not written by upd, and those of upd.
func (x *comp) override(old, upd []*Gen) []*Gen {
	var out []*Gen
	for _, o := range old {
		covered := false
		if len(o.doms) == 0 && len(upd) == 1 && len(upd[0].doms) == 0 && upd[0].key == o.key && upd[0].pc.empty() {
			covered = true
		}
		if len(o.doms) == 1 && o.key == o.doms[0].v {
			// all updates run over the same keys
			var pcs []*Conj
			for _, u := range upd {
				if u.app || len(u.doms) == 0 {
					continue
				}
				d := u.doms[0]
				if d.kind == o.doms[0].kind && d.of == o.doms[0].of && u.key == d.v && len(u.doms) == 1 && len(d.early) == 0 {
					if p := x.substConj(u.pc, map[*Term]*Term{d.v: o.key}); p != nil {
						pcs = append(pcs, p)
					}
				}
			}
			if len(pcs) > 0 && covers(o.pc, pcs) {
				covered = true
			}
		}
		if !covered {
			out = append(out, o)
		}
	}
	return append(out, upd...)
}

// mapped: every iteration of L replaces the element of t at its own index.
func (x *comp) mapped(t *Term, L *Loop, init *Term, next func(*LoopPath) *Term) (out []*Gen, ok bool) {
	in := x.e.in
	if init == nil || len(L.conts) == 0 {
		return nil, false
	}
	var idx *Term
	for _, c := range L.conts {
		n := next(c)
		if n == t {
			continue
		}
		if n == nil || n.op != OStoreElem || n.args[0] != t || idx != nil && idx != n.args[1] {
			return nil, false
		}
		idx = n.args[1]
	}
	if idx == nil {
		return nil, false
	}
	o := x.sub(init)
	for o.op == OSliceOf {
		o = o.args[0]
	}
	if o.op != OMake && x.generated(o) {
		return nil, false
	}
	bs, test, ok := x.bind(L)
	if !ok || len(bs) != 1 || len(bs[0].doms) != 1 {
		return nil, false
	}
	b := bs[0]
	dm := b.doms[0]
	saved := x.env
	defer func() { x.env = saved }()
	init = x.sub(init)
	if dm.kind == "num" && dm.order == "asc" && dm.lo == in.Int(0) && dm.hi == in.AddK(in.Len(init), -1) {
		d := *dm
		d.kind, d.of = "index", init
		dm = &d
	}
	if dm.kind != "index" || len(dm.early) > 0 || in.Len(dm.of) != in.Len(init) {
		return nil, false
	}
	x.env = merged(saved, b.sub)
	if x.sub(idx) != dm.v {
		return nil, false
	}
	et := elemType(init.typ)
	x.env[in.Elem(t, idx, et)] = in.Elem(init, dm.v, et)
	for _, c := range L.conts {
		v := in.Elem(init, dm.v, et)
		if n := next(c); n != t {
			v = x.sub(n.args[2])
		}
		for _, cj := range c.pc {
			pc := x.subC(x.bare(cj, L, test))
			if pc != nil {
				pc = x.and(b.pc, pc)
			}
			if pc == nil {
				continue
			}
			if v.contains(func(s *Term) bool { return s == t }) {
				return nil, false
			}
			d := *dm
			if d.order = "asc"; init.op != OMake {
				d.of = init
			}
			out = append(out, &Gen{doms: []*Dom{&d}, pc: pc, elem: v})
		}
	}
	return out, true
}

// after returns the generators of the loop-carried collection t after its loop.
func (x *comp) after(t *Term, L *Loop, init *Term, next func(*LoopPath) *Term, isMap bool) []*Gen {
	var old []*Gen
	if init != nil {
		if isMap {
			old = x.maps(init)
		} else {
			old = x.list(init)
		}
	}
	upd := x.updates(t, L, next, isMap)
	if isMap {
		if init != nil {
			// every key gets a new value
			var pcs []*Conj
			of := x.sub(init)
			v := x.fresh("k", nil)
			for _, u := range upd {
				if len(u.doms) == 1 && u.doms[0].kind == "keys" && u.doms[0].of == of && u.key == u.doms[0].v && !u.app && len(u.doms[0].early) == 0 {
					if p := x.substConj(u.pc, map[*Term]*Term{u.key: v}); p != nil {
						pcs = append(pcs, p)
					}
				}
			}
			if len(pcs) > 0 && covers(x.true_().with(x.e.in.Has(of, v), true), pcs) {
				return upd
			}
		}
		return x.override(old, upd)
	}
	return append(old, upd...)
}

// updates: what the iterations of L add to t.
func (x *comp) updates(t *Term, L *Loop, next func(*LoopPath) *Term, isMap bool) (out []*Gen) {
	in := x.e.in
	fold := x.foldMode
	x.foldMode = false
	defer func() { x.foldMode = fold }()
	bs, test, ok := x.bind(L)
	if !ok {
		return nil
	}
	for _, b := range bs {
		saved := x.env
		x.untouched(L, b)
		x.env = merged(saved, b.sub)
		for _, g := range L.vars() {
			if _, ok := b.sub[g]; !ok {
				x.env[g] = x.prev(L, g)
			}
		}
		var nexts []*Term
		conds := map[*Term][]*Conj{}
		for _, c := range L.conts {
			n := next(c)
			if n == nil || n == t {
				continue
			}
			if conds[n] == nil {
				nexts = append(nexts, n)
			}
			for _, cj := range c.pc {
				conds[n] = append(conds[n], x.bare(cj, L, test))
			}
		}
		for _, n := range nexts {
			for _, cj := range x.shorter(conds[n]) {
				n := n
				pc := x.subC(cj)
				if pc != nil {
					pc = x.and(b.pc, pc)
				}
				if pc == nil {
					continue
				}
				// the first element of an entry's list
				if n.op == OInsert && n.args[0] == t {
					if v, known := cj.decide(in.Has(t, n.args[1])); known && !v {
						if et := elemType(t.typ); et != nil {
							if _, ok := under(et).(*types.Slice); ok {
								n = in.mk(OInsert, n.typ, "", nil, nil, t, n.args[1],
									in.mk(OAppend, et, "", nil, nil, in.mk(OLookup, et, "", nil, nil, t, n.args[1]), n.args[2]))
							}
						}
					}
				}
				// the first list, when there was none
				if _, list := under(t.typ).(*types.Slice); list && !isMap && !fold && n.typ != nil && !n.contains(func(s *Term) bool { return s == t }) {
					none, known := cj.decide(in.Eq(t, in.Zero(t.typ)))
					some, known2 := cj.decide(in.Lt(in.Int(0), in.Len(t)))
					if known && none || known2 && !some {
						n = in.mk(OAppend, t.typ, "", nil, nil, t, n)
					}
				}
				x.foldMode = fold
				gs := x.incr(n, t, L, isMap)
				x.foldMode = false
				for _, g := range gs {
					ng := *g
					ng.doms = append(append([]*Dom{}, b.doms...), x.subDoms(g.doms)...)
					p := x.subC(g.pc)
					if p != nil {
						p = x.and(pc, p)
					}
					if p == nil {
						continue
					}
					ng.pc = p
					ng.elem = x.sub(g.elem)
					ng.key = x.sub(g.key)
					ng.via = append(append([]*Term{}, b.via...), g.via...)
					for i := range ng.via {
						ng.via[i] = x.sub(ng.via[i])
					}
					if b.sort != nil {
						ng.sort = b.sort
					}
					if x.tidy(&ng) {
						out = append(out, &ng)
					}
				}
			}
		}
		x.env = saved
		out = x.join(out)
	}
	return out
}

// shorter merges conditions that differ in the truth of one literal only, and
// drops those that imply another one.
func (x *comp) shorter(cs []*Conj) []*Conj {
	out := append([]*Conj{}, cs...)
again:
	for i, a := range out {
		for j, b := range out {
			if i == j {
				continue
			}
			// a implies b
			if len(b.lits) <= len(a.lits) {
				has := map[Lit]bool{}
				for _, l := range a.lits {
					has[l] = true
				}
				all, diff, at := true, 0, -1
				for k, l := range b.lits {
					if !has[l] {
						all = false
						if has[Lit{l.atom, !l.val}] && len(a.lits) == len(b.lits) {
							diff++
							at = k
						} else {
							diff = 9
						}
					}
				}
				if all {
					out = append(out[:i:i], out[i+1:]...)
					goto again
				}
				if diff == 1 {
					out[j] = x.e.in.newConj(append(append([]Lit{}, b.lits[:at]...), b.lits[at+1:]...))
					out = append(out[:i:i], out[i+1:]...)
					goto again
				}
			}
		}
	}
	return out
}

// join merges generators that differ in the truth of one literal only.
func (x *comp) join(gs []*Gen) []*Gen {
again:
	for i, a := range gs {
		for j := i + 1; j < len(gs); j++ {
			b := gs[j]
			if a.key != b.key || a.elem != b.elem || a.app != b.app || a.sort != b.sort || len(a.doms) != len(b.doms) || len(a.pc.lits) != len(b.pc.lits) {
				continue
			}
			same := true
			for k := range a.doms {
				same = same && a.doms[k].v == b.doms[k].v
			}
			if !same {
				continue
			}
			diff, at := 0, -1
			for k, l := range a.pc.lits {
				m := b.pc.lits[k]
				if l.atom != m.atom {
					diff = 2
					break
				}
				if l.val != m.val {
					diff++
					at = k
				}
			}
			if diff > 1 {
				continue
			}
			if diff == 1 {
				n := *a
				n.pc = x.e.in.newConj(append(append([]Lit{}, a.pc.lits[:at]...), a.pc.lits[at+1:]...))
				gs[i] = &n
			}
			gs = append(gs[:j:j], gs[j+1:]...)
			goto again
		}
	}
	return gs
}

func substDoms(x *comp, ds []*Dom, m map[*Term]*Term) []*Dom {
	out := make([]*Dom, len(ds))
	for i, d := range ds {
		c := *d
		if c.of != nil {
			c.of = x.e.in.subst(c.of, m)
		}
		if c.lo != nil {
			c.lo = x.e.in.subst(c.lo, m)
		}
		if c.hi != nil {
			c.hi = x.e.in.subst(c.hi, m)
		}
		c.early = nil
		for _, e := range d.early {
			if r := x.substConj(e, m); r != nil {
				c.early = append(c.early, r)
			}
		}
		out[i] = &c
	}
	return out
}

// incr: what n adds to g.
func (x *comp) incr(n, g *Term, L *Loop, isMap bool) []*Gen {
	in := x.e.in
	if n == g {
		return nil
	}
	if x.foldMode {
		if n.op == OExtract && n.aux == "0" && n.args[0].op == OCall {
			c := n.args[0]
			switch {
			case strings.HasSuffix(c.callName(), "tsonpatch.ApplyPatch"):
				return append(x.incr(c.args[0], g, L, isMap), &Gen{pc: x.true_(), elem: c.args[1]})
			case strings.HasSuffix(c.callName(), "tsonpatch.ApplyOperation"):
				return append(x.incr(c.args[0], g, L, isMap), &Gen{pc: x.true_(), elem: c.args[1], app: true})
			}
		}
		if n.op == OLoop {
			L2, init, next := carried(in, n)
			if L2 != nil && L2 != L {
				return append(x.incr(init, g, L, isMap), x.updates(n, L2, next, isMap)...)
			}
		}
		x.fail("the document %s is not made by applying patches to %s", n, g)
		return nil
	}
	switch n.op {
	case OAppend:
		if !isMap {
			return append(x.incr(n.args[0], g, L, false), x.list(n.args[1])...)
		}
	case OInsert:
		if isMap {
			rest := x.incr(n.args[0], g, L, true)
			key, val := n.args[1], n.args[2]
			// appending to the list at the key
			if val.op == OAppend && val.args[0].op == OLookup && val.args[0].args[1] == key && val.args[0].args[0] == n.args[0] {
				var out []*Gen
				for _, e := range x.list(val.args[1]) {
					e.key, e.app = key, true
					out = append(out, e)
				}
				return append(rest, out...)
			}
			return append(rest, &Gen{pc: x.true_(), key: key, elem: val})
		}
	case OLoop:
		L2, init, next := carried(in, n)
		if L2 != nil && L2 != L {
			return append(x.incr(init, g, L, isMap), x.updates(n, L2, next, isMap)...)
		}
	case OSorted:
		x.fail("a list is sorted while it is being built")
		return x.incr(n.args[0], g, L, isMap)
	}
	x.fail("the update %s of %s is not an addition", n, g)
	return nil
}

// tidy removes the literals that follow from the element's existence.
func (x *comp) tidy(g *Gen) bool {
	var lits []Lit
	for _, l := range g.pc.lits {
		a := l.atom
		// 0 < len(X) for a list that the element comes from
		if a.op == OLt && l.val && a.args[1].op == OLen {
			if k, ok := a.args[0].constInt(); ok && k == 0 {
				skip := false
				for _, v := range g.via {
					skip = skip || v == a.args[1].args[0]
				}
				if skip {
					continue
				}
			}
		}
		// an element of an entry's list
		if a.op == OHas && l.val {
			skip := false
			for _, v := range g.via {
				skip = skip || v.op == OLookup && v.args[0] == a.args[0] && v.args[1] == a.args[1]
			}
			if skip {
				continue
			}
		}
		lits = append(lits, Lit{x.resolve(x.under(a, g.pc)), l.val})
	}
	r := x.true_()
	for _, l := range lits {
		if n := r.with(l.atom, l.val); n != nil {
			r = n
		} else {
			return false
		}
	}
	// entries of generated maps that certainly do or do not exist
	lits = append([]Lit{}, r.lits...)
	for i, l := range lits {
		if l.atom.op != OHas || !x.generated(l.atom.args[0]) {
			continue
		}
		rest := x.e.in.newConj(append(append([]Lit{}, lits[:i]...), lits[i+1:]...))
		v, known := x.has(l.atom.args[0], l.atom.args[1], rest)
		if known && v != l.val {
			return false
		}
		if known {
			r = x.true_()
			for j, o := range lits {
				if j != i && r != nil {
					r = r.with(o.atom, o.val)
				}
			}
			if r == nil {
				return false
			}
			lits = append([]Lit{}, r.lits...)
			g.pc = r
			return x.tidy(g)
		}
	}
	g.pc = r
	g.elem = x.resolve(x.under(g.elem, r))
	if g.key != nil {
		g.key = x.resolve(g.key)
	}
	return true
}

// has decides whether the generated map m has an entry at key under pc.
func (x *comp) has(m, key *Term, pc *Conj) (val, known bool) {
	n := len(x.fails)
	gs := x.maps(m)
	failed := len(x.fails) > n
	x.fails = x.fails[:n]
	if failed {
		return false, false
	}
	none := true
	var pcs []*Conj
	for _, g := range gs {
		var p *Conj
		switch {
		case len(g.doms) == 1 && g.key == g.doms[0].v && len(g.doms[0].early) == 0:
			p = x.substConj(g.pc, map[*Term]*Term{g.key: key})
		case len(g.doms) == 0:
			p = g.pc.with(x.e.in.Eq(g.key, key), true)
		default:
			return false, false
		}
		if p == nil {
			continue
		}
		pcs = append(pcs, p)
		if q := x.and(pc, p); q != nil {
			none = false
		}
	}
	if none {
		return false, true
	}
	if covers(pc, pcs) {
		return true, true
	}
	return false, false
}

// under replaces lookups in maps with single written entries, given pc.
func (x *comp) under(t *Term, pc *Conj) *Term {
	in := x.e.in
	if !t.contains(func(s *Term) bool { return (s.op == OLookup || s.op == OHas) && s.args[0].op == OInsert }) {
		return t
	}
	m := map[*Term]*Term{}
	t.contains(func(s *Term) bool {
		if s.op != OLookup && s.op != OHas {
			return false
		}
		c := s.args[0]
		for c.op == OInsert {
			v, known := pc.decide(in.Eq(s.args[1], c.args[1]))
			if !known {
				return false
			}
			if v {
				if s.op == OHas {
					m[s] = in.Bool(true)
				} else {
					m[s] = c.args[2]
				}
				return false
			}
			c = c.args[0]
		}
		if c != s.args[0] {
			if s.op == OHas {
				m[s] = in.Has(c, s.args[1])
			} else {
				m[s] = in.Lookup(c, s.args[1], s.typ)
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return in.subst(t, m)
}

// resolve replaces lookups in maps that finished loops built.
func (x *comp) resolve(t *Term) *Term {
	in := x.e.in
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		if len(t.args) == 0 {
			return t
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = rec(a)
			same = same && args[i] == a
		}
		r := t
		if !same {
			r = in.rebuild(t, args)
		}
		if r.op == OLookup && x.generated(r.args[0]) {
			if v := x.entry(r.args[0], r.args[1]); v != nil {
				r = v
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// untouched: in an iteration over distinct keys that only writes entries of
// the current key, the current entry still has the value from before the loop.
func (x *comp) untouched(L *Loop, b bound) {
	in := x.e.in
	if len(b.doms) != 1 || b.doms[0].kind != "keys" && b.doms[0].kind != "num" {
		return
	}
	v := b.doms[0].v
	for loc, g := range L.genHeap {
		if g.op != OLoop {
			continue
		}
		if _, ok := under(g.typ).(*types.Map); !ok && g.typ != nil {
			continue
		}
		raw := map[*Term]bool{}
		own := true
		for _, c := range L.conts {
			for n := c.heap[loc]; n != nil && n != g; n = n.args[0] {
				if n.op != OInsert || in.subst(n.args[1], b.sub) != v {
					own = false
					break
				}
				raw[n.args[1]] = true
			}
		}
		if !own {
			continue
		}
		for k := range raw {
			for _, l := range collect(L, func(t *Term) bool { return (t.op == OLookup || t.op == OHas) && t.args[0] == g && t.args[1] == k }) {
				if l.op == OHas {
					b.sub[l] = in.Has(x.sub(L.initHeap[loc]), v)
				} else {
					b.sub[l] = in.Lookup(x.sub(L.initHeap[loc]), v, l.typ)
				}
			}
		}
	}
}

// collect lists the subterms of the loop's paths that satisfy f.
func collect(L *Loop, f func(*Term) bool) (out []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if f(t) {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.op == OLoop {
			if l, ok := t.obj.(*Loop); ok && l != L {
				for _, i := range l.init {
					rec(i)
				}
				for _, i := range l.initHeap {
					rec(i)
				}
				for _, c := range l.conts {
					for _, cj := range c.pc {
						for _, li := range cj.lits {
							rec(li.atom)
						}
					}
					for _, p := range c.phis {
						rec(p)
					}
					for loc := range l.genHeap {
						rec(c.heap[loc])
					}
				}
				rec(l.rangeMap)
			}
		}
	}
	for _, c := range L.conts {
		for _, cj := range c.pc {
			for _, l := range cj.lits {
				rec(l.atom)
			}
		}
		for _, p := range c.phis {
			rec(p)
		}
		for loc := range L.genHeap {
			rec(c.heap[loc])
		}
	}
	return
}

// entry: the value at key in a generated map whose entries are a function of their key.
func (x *comp) entry(m, key *Term) *Term {
	n := len(x.fails)
	gs := x.maps(m)
	x.fails = x.fails[:n]
	var val *Term
	for _, g := range gs {
		if g.app || g.key == nil || len(g.doms) != 1 || g.key != g.doms[0].v {
			return nil
		}
		v := x.e.in.subst(g.elem, map[*Term]*Term{g.key: key})
		if val != nil && val != v {
			return nil
		}
		val = v
	}
	return val
}

// covers: s implies the disjunction of ds.
func covers(s *Conj, ds []*Conj) bool {
	n := 0
	var rec func(s *Conj, ds []*Conj) bool
	rec = func(s *Conj, ds []*Conj) bool {
		if n++; n > 20000 {
			return false
		}
		var open []*Conj
		for _, d := range ds {
			t, dead := true, false
			for _, l := range d.lits {
				v, known := s.decide(l.atom)
				if known && v != l.val {
					dead = true
					break
				}
				if !known {
					t = false
				}
			}
			if dead {
				continue
			}
			if t {
				return true
			}
			open = append(open, d)
		}
		for _, d := range open {
			for _, l := range d.lits {
				if _, known := s.decide(l.atom); !known {
					a, b := s.with(l.atom, true), s.with(l.atom, false)
					return (a == nil || rec(a, open)) && (b == nil || rec(b, open))
				}
			}
		}
		return false
	}
	return rec(s, ds)
}

// implies: every literal holds under c.
func implies(c *Conj, lits []Lit) (Lit, bool) {
	for _, l := range lits {
		if v, known := c.decide(l.atom); !known || v != l.val {
			return l, false
		}
	}
	return Lit{}, true
}

var _ = ssa.Function{}

// canReturn: some path from b ends with a return.
func canReturn(b *ssa.BasicBlock) bool {
	if b == nil {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(b)
}
