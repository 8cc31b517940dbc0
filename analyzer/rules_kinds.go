package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "T02", run: ruleT02,
		explanation: "Abstract interpretation of the functions that walk documents (cloning, printing, sorting, converting to JSON, reading JSON), once for each kind of document: for every kind no outcome is an error that the function makes up itself, the value of a leaf reaches the result, and for containers there is a loop over all their elements in which each element, on each path, reaches what the loop builds and no path leaves early.",
		assumptions: []string{
			"documents consist of the kinds that implement the document interface; encoding/json, fmt and strconv handle all values of the types that they are given",
			"comparing, diffing, applying and the latest timestamp are covered by the rules of L06, P02, P04, P05, P06 and T08",
		}})
}

// kinds decides whether functions handle every kind of value.
type kinds struct {
	c         *Ctx
	x         *explorer
	cx        *comp
	name      string
	clean     bool
	pairs     bool // T03
	place     bool // T09
	passed    int  // cells that T03 has nothing to say about
	losses    []loss
	delegated []delegation
	docs      []docKind
	wrong     bool
	at        *Loop          // whose iteration is judged
	plain     map[*Term]bool // lists of all keys, and contents that a loop is about to change
	number    types.Type     // JSON values: the type of numbers
	coded     bool           // JSON values: leaves are objects with a value and a timestamp
}

func ruleT02(c *Ctx) {
	k := &kinds{c: c}
	n := traversals(c, k)
	n += readers(c, k)
	c.part(ruleP04, "")
	c.part(ruleT08, "a leaf is", "null has the timestamp", "looked at", "ends early", "only the elements", "can panic")
	c.part(ruleP05, "is refused", "neither expressed nor an error", "is missing for", "are left out", "are not looked at", "can panic")
	c.part(ruleP06, "always fails", "no leaf is written", "the value becomes a", "can panic")
	c.atLeast("cells", n)
}

// traversals analyses the functions that walk documents.
func traversals(c *Ctx, k *kinds) (n int) {
	walk := func(anyToo bool, names ...string) {
		x := c.explore("internal/tson", names...)
		if x == nil {
			return
		}
		if anyToo {
			x.anyDoc = map[*ssa.Function]bool{}
			for _, q := range x.queue {
				c.anyFns(q.fn, x.anyDoc)
			}
			x.queue, x.seen = nil, map[string]bool{}
			for f := range x.anyDoc {
				if f.Object() != nil && slices.Contains(names, f.Name()) {
					x.entry(f)
				}
			}
		}
		k.x, k.number, k.coded, k.docs = x, nil, false, x.kinds
		x.outcomes = k.outcomes
		x.noDescent, x.noPanics = k.pairs || k.place, k.pairs || k.place
		x.run()
		n += x.cells
	}
	walk(false, "Clone", "Marshal", "ToCompatibleTsonBytes", "ToCompatibleTsonBytesSorted")
	walk(true, "MarshalIndent")
	return n
}

// part runs another rule and keeps the violations whose text has one of the
// given parts: those that are about kinds of values.
func (c *Ctx) part(rule func(*Ctx), about ...string) {
	d := newCtx(c.p, c.rule, c.tier)
	rule(d)
	for _, f := range d.findings {
		for _, a := range about {
			if strings.Contains(f.Message, a) {
				c.bad(f.Rule, f.Construct, f.Where, "%s", f.Message)
				break
			}
		}
	}
	for _, f := range d.open {
		c.undecided(f.Rule, f.Construct, f.Where, "%s", f.Message)
	}
	for r, ks := range d.oks {
		c.oks[r] = append(c.oks[r], ks...)
	}
	for f := range d.analysed {
		c.analysed[f] = true
	}
}

// anyFns: fn and the functions of its package that it calls with documents
// as values of any type.
func (c *Ctx) anyFns(fn *ssa.Function, out map[*ssa.Function]bool) {
	if out[fn] {
		return
	}
	has := false
	for _, p := range fn.Params {
		i, ok := under(p.Type()).(*types.Interface)
		has = has || ok && i.NumMethods() == 0
	}
	if !has {
		return
	}
	out[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				// the helper for the payloads of leaves takes no documents
				if g := call.Common().StaticCallee(); g != nil && g.Package() == fn.Package() && takesParam(fn, call.Common().Args) {
					c.anyFns(g, out)
				}
			}
		}
	}
}

// takesParam: one of the values is a parameter of any type, or an element of
// a container.
func takesParam(fn *ssa.Function, args []ssa.Value) bool {
	for _, a := range args {
		i, ok := under(a.Type()).(*types.Interface)
		if !ok || i.NumMethods() > 0 {
			continue
		}
		switch v := a.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.ChangeInterface:
			return true
		case *ssa.MakeInterface:
			_ = v
			return true
		}
	}
	return false
}

func (k *kinds) rule() string {
	switch {
	case k.pairs:
		return "pair"
	case k.place:
		return "place"
	}
	return "kind"
}

func (k *kinds) bad(f string, a ...any) {
	if k.clean || !k.wrong {
		k.wrong = true
		k.c.bad(k.rule(), k.name, k.c.p.pos(k.x.cur.fn.Pos()), f, a...)
	}
	k.clean = false
}

func (k *kinds) undecided(f string, a ...any) {
	if k.clean {
		k.c.undecided(k.rule(), k.name, k.c.p.pos(k.x.cur.fn.Pos()), f, a...)
	}
	k.clean = false
}

// known: everything that pc depends on is understood.
func (k *kinds) known(pc *Conj) bool {
	for _, y := range pc.lits {
		if k.x.e.isInv(y) || failure(y) {
			continue
		}
		if k.odd(y.atom) {
			return false
		}
	}
	return true
}

func (k *kinds) odd(s *Term) bool {
	if k.plain[s] {
		return false
	}
	if s.op == OLen && s.args[0].op == OLoop && k.at != nil && s.args[0].obj == k.at {
		return false // the elements before
	}
	if !arbitrary(k.cx, s) && !(s.op == OLoop && (isInteger(s.typ) || isBool(s.typ))) && !strings.HasSuffix(s.aux, ".more") && s.op != OCall {
		return true
	}
	for _, a := range s.args {
		if k.odd(a) {
			return true
		}
	}
	return false
}

func (k *kinds) judge(pc *Conj, f string, a ...any) {
	if k.known(pc) {
		k.bad(f, a...)
	} else {
		k.undecided(f, a...)
	}
}

func (k *kinds) outcomes(cell exploreCell, args []*Term, outs []Outcome) {
	k.cx = &comp{e: k.x.e}
	k.plain = map[*Term]bool{}
	fn := cell.fn
	at := -1
	for i, n := range cell.kinds {
		if n >= 0 {
			if at >= 0 {
				return
			}
			at = i
		}
	}
	if at < 0 || fn.Signature.Results().Len() == 0 && k.number == nil {
		return
	}
	kind := k.x.kinds[cell.kinds[at]]
	if k.coded && kind.T != nil && !kind.obj && !kind.arr {
		k.passed++
		return // does not occur outside of leaves
	}
	k.name, k.clean, k.wrong = fn.Name()+" "+kind.name, true, false
	d := k.x.e.docCell(kind, k.x.iface, fn.Params[at].Name())
	good := 0
	if fn.Signature.Results().Len() == 0 && k.pairs {
		k.passed++
		return
	}
	if fn.Signature.Results().Len() == 0 {
		k.inPlace(d, outs)
		outs = nil
		good++
	}
	for _, o := range outs {
		for _, pc := range o.st.pc {
			if k.number != nil && !k.jsonValue(pc) {
				continue
			}
			if k.coded && d.k.obj && k.leafObject(d, o, pc) {
				good++
				continue
			}
			if k.failed(o.results, pc, "%s is rejected", kind.name) {
				continue
			}
			good++
			k.outcome(d, o, pc)
		}
	}
	if good == 0 {
		k.undecided("no result is found")
	}
	if k.clean {
		k.c.ok(k.rule(), k.name)
	}
}

// failed: the results come with an error. An error that does not come from
// another function is judged.
func (k *kinds) failed(rs []*Term, pc *Conj, f string, a ...any) bool {
	if len(rs) == 0 {
		return false
	}
	r := rs[len(rs)-1]
	n, ok := types.Unalias(r.typ).(*types.Named)
	if r.isNil() || !(ok && n.Obj().Name() == "error") && r.op != OErr {
		return false
	}
	if v, known := pc.decide(k.x.in.Eq(r, k.x.in.Zero(r.typ))); known && v || !known && r.op != OErr {
		return false
	}
	if r.op == OErr && !k.pairs && !k.place {
		for _, l := range pc.lits {
			if failure(l) && !l.val {
				return true
			}
		}
		k.judge(pc, f+" under %s", append(a, brief(pc))...)
	}
	return true
}

// each visits the terms that make up the roots, with what references point to.
func (k *kinds) each(heaps []map[*Term]*Term, f func(t *Term) bool, roots ...*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.op == OClosure {
			return
		}
		for _, h := range heaps {
			if v := h[t]; v != nil {
				rec(v)
				break
			}
		}
	}
	for _, r := range roots {
		rec(r)
	}
}

// uses: the value of d, or d itself, reaches the roots.
func (k *kinds) uses(d docCell, heaps []map[*Term]*Term, roots ...*Term) (yes bool) {
	k.each(heaps, func(t *Term) bool {
		if t == d.t || d.v != nil && t == d.v || d.val != nil && t == d.val {
			yes = true
			return false
		}
		if d.ts != nil && t == d.ts {
			return false // a timestamp alone is not the value
		}
		if t.op == OLoop && d.v != nil && t.obj != k.at {
			if L, ok := t.obj.(*Loop); ok {
				if len(collect(L, func(s *Term) bool {
					return s == d.v || L.rangeMap == s && s.contains(func(u *Term) bool { return u == d.v })
				})) > 0 {
					yes = true
				}
			}
		}
		return !yes
	}, roots...)
	return
}

func (k *kinds) outcome(d docCell, o Outcome, pc *Conj) {
	in := k.x.in
	heaps := []map[*Term]*Term{o.st.heap}
	roots := o.results
	switch {
	case k.place && d.k.T != nil && !d.k.obj && !d.k.arr:
		k.scalar(d, roots[0], pc, heaps, "a "+d.k.name)
	case k.pairs && d.k.leaf:
		k.pairOutcome(d, o, pc, roots, heaps)
	case k.pairs && !d.k.obj && !d.k.arr:
		k.pairJSON(d, pc, heaps, roots)
	case d.k.T == nil:
	case !d.k.obj && !d.k.arr:
		inCond := false
		for _, l := range pc.lits {
			inCond = inCond || l.atom.contains(func(t *Term) bool { return t == d.v || t == d.val })
		}
		if !k.uses(d, heaps, roots...) && !inCond {
			k.judge(pc, "the value of a leaf does not reach the result %s under %s", brief(roots[0]), brief(pc))
		}
	default:
		whole, loops := false, map[*Loop]bool{}
		opaque := false
		k.each(heaps, func(t *Term) bool {
			switch {
			case t == d.t || t == d.v:
				whole = true
			case t.op == OLen || t.op == OMapInit:
				return false
			case t.op == OLoop:
				if L, ok := t.obj.(*Loop); ok {
					loops[L] = true
				}
			case t.op == OClos || t.op == OUnknown:
				opaque = true
			}
			return true
		}, roots...)
		if whole {
			return
		}
		var size *Term
		if d.k.arr {
			size = in.Len(d.v)
		} else {
			size = in.Len(in.mk(OMapInit, d.v.typ, "", nil, nil, d.v))
		}
		if v, known := pc.decide(in.Lt(in.Int(0), size)); known && !v || pc.with(in.Lt(in.Int(0), size), true) == nil {
			return
		}
		if v, known := pc.decide(in.Eq(d.v, in.Zero(d.k.T))); known && v {
			return
		}
		open := ""
		for L := range loops {
			child, ind, test, why := k.children(d, L)
			if child == nil {
				if why != "" && open == "" {
					open = why
				}
				continue
			}
			k.loop(d, L, child, test, ind, pc, roots, heaps)
			return
		}
		if k.pairs || k.place {
			return // not looked at: T02
		}
		switch {
		case strings.HasPrefix(open, "!"):
			k.bad("%s", open[1:])
		case open != "" || opaque:
			k.undecided("the loop over the elements is not followed: %s", open)
		default:
			k.judge(pc, "the elements of the %s do not reach the result %s under %s", d.k.name, brief(roots[0]), brief(pc))
		}
	}
}

// children: the element of d that an iteration of L is about. A reason that
// starts with ! is a violation.
func (k *kinds) children(d docCell, L *Loop) (child *Term, ind induction, test *Term, why string) {
	in := k.x.in
	dom, test, ind, ok := k.cx.domOf(L)
	if !ok {
		return nil, ind, nil, "the domain of a loop is not known"
	}
	var base *Term
	if d.k.obj {
		base = in.mk(OMapInit, d.v.typ, "", nil, nil, d.v)
	}
	switch {
	case dom.kind == "keys":
		if d.k.obj && dom.of == base {
			return in.Lookup(base, L.key, k.x.iface), ind, test, ""
		}
		return nil, ind, nil, ""
	case dom.kind == "index" && dom.raw == d.v:
		return in.Elem(d.v, ind.v, k.x.iface), ind, test, ""
	case dom.kind == "index" && d.k.obj && dom.raw != nil:
		gs := k.cx.list(dom.raw)
		if len(gs) == 0 {
			return nil, ind, nil, ""
		}
		for _, g := range gs {
			if len(g.doms) != 1 || g.doms[0].kind != "keys" || g.doms[0].of != base || g.elem != g.doms[0].v {
				return nil, ind, nil, "a loop over a list"
			}
		}
		all := len(gs) == 1 && len(gs[0].pc.lits) == 0 && len(gs[0].doms[0].early) == 0
		if !all {
			for _, l := range gs[0].pc.lits {
				if l.atom.op == OHas {
					all = len(gs) == 1 && len(gs[0].pc.lits) == 1
				}
			}
		}
		if !all {
			if k.known(gs[0].pc) {
				return nil, ind, nil, fmt.Sprintf("!only the keys with %s are visited", brief(gs[0].pc))
			}
			return nil, ind, nil, "a loop over some keys"
		}
		for r := dom.raw; ; r = r.args[0] {
			if k.plain[r] = true; r.op != OSorted {
				break
			}
		}
		return in.Lookup(base, in.Elem(dom.raw, ind.v, tString), k.x.iface), ind, test, ""
	case dom.kind == "num" && d.k.arr:
		hi, hk := splitAddK(dom.hi)
		lo, isC := dom.lo.constInt()
		switch {
		case isC && hi == in.Len(d.v) && (lo > 0 || hk < -1):
			return nil, ind, nil, fmt.Sprintf("!only the elements from %s to %s are visited", brief(dom.lo), brief(dom.hi))
		case isC && lo == 0 && hi == in.Len(d.v) && hk == -1:
			return in.Elem(d.v, ind.v, k.x.iface), ind, test, ""
		}
		return nil, ind, nil, "a loop over numbers"
	}
	return nil, ind, nil, ""
}

// loop: every path through the iteration of L uses the element.
func (k *kinds) loop(d docCell, L *Loop, child, test *Term, ind induction, pc *Conj, roots []*Term, heaps []map[*Term]*Term) {
	// what L builds, as far as it reaches the result
	type acc struct {
		t    *Term
		next func(*LoopPath) *Term
	}
	var accs []acc
	k.each(heaps, func(t *Term) bool {
		if t.op == OLoop && t.obj == L {
			if _, _, next := carried(k.x.in, t); next != nil {
				accs = append(accs, acc{t, next})
			}
		}
		return true
	}, roots...)
	k.at = L
	defer func() { k.at = nil }()
	if len(accs) == 0 {
		k.undecided("what the loop at %s builds is not known", L.pos(k.c.p))
		return
	}
	for _, c := range L.conts {
		for _, pc := range c.pc {
			cd, known := k.childKind(pc, child)
			hs := []map[*Term]*Term{c.heap}
			if c.st != nil {
				hs = append(hs, c.st.heap)
			}
			if k.place {
				for _, a := range accs {
					if n := a.next(c); n != nil && n != a.t {
						_, init, _ := carried(k.x.in, a.t)
						k.puts(d, L, child, cd, known, a.t, n, init, ind.step, pc, hs)
					}
				}
				continue
			}
			if k.pairs {
				var ns []*Term
				for _, a := range accs {
					if n := a.next(c); n != nil && n != a.t {
						ns = append(ns, n)
					}
				}
				if len(ns) == 0 || k.number != nil {
					continue
				}
				p := k.gather(hs, ns...)
				if known {
					k.pair(cd, p, pc, at, "an element of the "+d.k.name)
					continue
				}
				for _, q := range k.x.kinds {
					if !q.leaf {
						continue
					}
					as := k.x.e.docAs(q, k.x.iface, child)
					as.t = child
					if on := pc.with(as.lits[0].atom, true); on != nil {
						k.pair(as, p, on, at, "an element of the "+d.k.name)
					}
				}
				continue
			}
			changed, used, inCond := false, false, false
			if known && cd.val != nil {
				for _, l := range pc.lits {
					inCond = inCond || l.atom.contains(func(t *Term) bool { return t == cd.val })
				}
			}
			var shown *Term
			for _, a := range accs {
				n := a.next(c)
				if n == a.t || n == nil {
					continue
				}
				changed, shown = true, n
				for _, h := range hs {
					if k.uses(cd, []map[*Term]*Term{h}, n) {
						used = true
					}
				}
			}
			show := brief(k.cx.bare(pc, L, test))
			switch {
			case !changed && d.k.arr && known && cd.k.T == nil && k.preset(accs[0].t):
				// the elements are null already
			case !changed:
				k.judge(pc, "an element of the %s is skipped under %s", d.k.name, show)
			case used || known && cd.k.T == nil || inCond:
			case known && k.emptyChild(cd, pc):
			default:
				k.judge(pc, "an element of the %s does not reach %s under %s", d.k.name, brief(shown), show)
			}
		}
	}
	if k.place {
		for _, a := range accs {
			k.builds(a.t, roots[0], pc, heaps, d.k.name)
		}
	}
	if k.pairs || k.place {
		return
	}
	for _, ex := range L.exits {
		if ex.from == L.nat.header {
			continue
		}
		for _, pc := range ex.pc {
			if !hasFailure(pc) {
				k.judge(pc, "the walk over the elements ends early under %s", brief(k.cx.bare(pc, L, test)))
			}
		}
	}
	for _, ret := range L.returns {
		for _, pc := range ret.pc {
			if !k.failed(ret.rets, pc, "an element of the %s is rejected", d.k.name) {
				k.judge(pc, "the walk over the elements ends early under %s", brief(k.cx.bare(pc, L, test)))
			}
		}
	}
}

// emptyChild: the element is a container without elements.
func (k *kinds) emptyChild(d docCell, pc *Conj) bool {
	in := k.x.in
	n := (*Term)(nil)
	switch {
	case d.k.arr:
		n = in.Len(d.v)
	case d.k.obj:
		n = in.Len(in.mk(OMapInit, d.v.typ, "", nil, nil, d.v))
	default:
		return false
	}
	return pc.with(in.Lt(in.Int(0), n), true) == nil
}

func hasFailure(pc *Conj) bool {
	for _, l := range pc.lits {
		if failure(l) && !l.val {
			return true
		}
	}
	return false
}

// preset: t is a list that was made with its final length.
func (k *kinds) preset(t *Term) bool {
	_, init, _ := carried(k.x.in, t)
	return init != nil && init.op == OMake && !isZeroInt(init.args[0])
}

func isZeroInt(t *Term) bool {
	n, ok := t.constInt()
	return ok && n == 0
}

// childKind: the kind of document that the conditions say child is.
func (k *kinds) childKind(pc *Conj, child *Term) (docCell, bool) {
	for _, q := range k.x.kinds {
		as := k.x.e.docAs(q, k.x.iface, child)
		if holds(DNF{pc}, as.lits[0].atom, true) {
			as.t = child
			return as, true
		}
	}
	return docCell{t: child}, false
}

// readers: the functions that make documents from JSON values, and those that
// change them in place, handle every kind of JSON value.
func readers(c *Ctx, k *kinds) (n int) {
	for _, name := range []string{"FromJson", "FromCompatibleTsonBytes", "ToJson"} {
		x := c.explore("internal/tson", name)
		if x == nil {
			return
		}
		k.docs = x.kinds
		x.iface = types.Universe.Lookup("any").Type()
		fn := x.queue[0].fn
		number := types.Type(types.Typ[types.Float64])
		for _, g := range c.below(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() == nil || fullName(call.Common().StaticCallee()) != "(*encoding/json.Decoder).UseNumber" {
						continue
					}
					p := call.Common().StaticCallee().Pkg
					if m, ok := p.Members["Number"].(*ssa.Type); ok {
						number = m.Type()
					}
				}
			}
		}
		coded := false
		for _, g := range c.below(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if l, ok := in.(*ssa.Lookup); ok {
						if v, ok := l.Index.(*ssa.Const); ok && v.Value != nil && v.Value.ExactString() == `"value"` {
							coded = true
						}
					}
				}
			}
		}
		x.kinds = jsonDocs(number)
		x.anyDoc = map[*ssa.Function]bool{}
		x.queue, x.seen = nil, map[string]bool{}
		var within func(f *ssa.Function)
		within = func(f *ssa.Function) {
			for _, p := range f.Params {
				if i, ok := under(p.Type()).(*types.Interface); ok && i.NumMethods() == 0 && !x.anyDoc[f] {
					x.anyDoc[f] = true
					x.entry(f)
				}
			}
			for _, a := range f.AnonFuncs {
				within(a)
			}
		}
		for _, g := range c.below(fn) {
			if x.recursive(g) {
				within(g)
			}
		}
		k.x, k.number, k.coded = x, number, coded
		x.outcomes = k.outcomes
		x.noDescent, x.noPanics = true, k.pairs || k.place
		x.given = func(fn *ssa.Function, args []*Term) (ls []Lit) {
			for _, a := range args {
				if a.op == OIface && a.args[0].op == OSym {
					if _, ok := under(a.args[0].typ).(*types.Map); ok {
						ls = append(ls, Lit{x.in.Eq(a.args[0], x.in.Zero(a.args[0].typ)), false})
					}
				}
			}
			return
		}
		x.e.trace = func(s string) bool { return s == fullName(x.cur.fn) }
		if len(x.queue) == 0 {
			c.undecided("kind", name, c.p.pos(fn.Pos()), "the function that walks the JSON value is not found")
		}
		x.run()
		n += x.cells
	}
	return n
}

// below: fn and the functions of its package that it uses.
func (c *Ctx) below(fn *ssa.Function) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || fnPkg(f) != fnPkg(fn) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					rec(call.Common().StaticCallee())
				}
			}
		}
	}
	rec(fn)
	return
}

// recursive: f takes a value of any type and calls itself, perhaps through
// the variable that holds it.
func (x *explorer) recursive(f *ssa.Function) bool {
	takes := false
	for _, p := range f.Params {
		i, ok := under(p.Type()).(*types.Interface)
		takes = takes || ok && i.NumMethods() == 0
	}
	if !takes {
		return false
	}
	if x.self(f, map[*Term]*Term{}) != nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

// jsonDocs lists the kinds of JSON values.
func jsonDocs(number types.Type) []docKind {
	anyT := types.Universe.Lookup("any").Type()
	return []docKind{{name: "null"},
		{name: "JSON string", T: types.Typ[types.String]},
		{name: "JSON bool", T: types.Typ[types.Bool]},
		{name: "JSON number", T: number},
		{name: "JSON object", T: types.NewMap(types.Typ[types.String], anyT), obj: true},
		{name: "JSON array", T: types.NewSlice(anyT), arr: true}}
}

// leafLits: what holds for the object of which m is the content, if it stands
// for a leaf; the value is known to be of one of the kinds.
func (k *kinds) leafLits(m *Term) (val *Term, ls []Lit, vals [][]Lit) {
	in := k.x.in
	str := func(s string) *Term { return in.Const(tString, constant.MakeString(s)) }
	val = in.Lookup(m, str("value"), k.x.iface)
	ts := in.Lookup(m, str("timestamp"), k.x.iface)
	ls = []Lit{
		{in.Eq(in.Len(m), in.Int(2)), true},
		{in.Has(m, str("value")), true},
		{in.Has(m, str("timestamp")), true},
		{in.TypeIs(ts, k.number), true},
	}
	for _, T := range []types.Type{types.Typ[types.String], types.Typ[types.Bool], k.number} {
		vals = append(vals, []Lit{{in.TypeIs(val, T), true}, {in.Eq(val, in.Zero(k.x.iface)), false}})
	}
	return
}

// possible: some object that stands for a leaf fulfils pc.
func (k *kinds) possibleLeaf(pc *Conj, ls []Lit, vals [][]Lit, i int) bool {
	n := pc.withAll(ls)
	if n == nil {
		return false
	}
	n = n.withAll(vals[i])
	return n != nil && jsonTypes(n)
}

// jsonValue: the conditions speak of values with the types of JSON values.
func (k *kinds) jsonValue(pc *Conj) bool {
	for _, l := range pc.lits {
		if l.atom.op != OTypeIs || !l.val {
			continue
		}
		ok := false
		for _, q := range k.x.kinds {
			ok = ok || q.T != nil && types.Identical(q.T, l.atom.obj.(types.Type))
		}
		if !ok {
			return false
		}
	}
	return jsonTypes(pc)
}

// jsonTypes: no value has two types.
func jsonTypes(pc *Conj) bool {
	is := map[*Term]types.Type{}
	for _, l := range pc.lits {
		if l.atom.op == OTypeIs && l.val {
			T := l.atom.obj.(types.Type)
			if o := is[l.atom.args[0]]; o != nil && !types.Identical(o, T) {
				return false
			}
			is[l.atom.args[0]] = T
		}
	}
	return true
}

var leafValues = []string{"string", "boolean", "number"}

// leafObject judges an outcome for an object that stands for a leaf; it is
// false if the outcome is for other objects only.
func (k *kinds) leafObject(d docCell, o Outcome, pc *Conj) bool {
	m := k.x.in.mk(OMapInit, d.v.typ, "", nil, nil, d.v)
	val, ls, vals := k.leafLits(m)
	some := -1
	for i := range vals {
		if k.possibleLeaf(pc, ls, vals, i) {
			some = i
		}
	}
	if some < 0 {
		// a leaf without a value, or another object
		n := pc.withAll(ls)
		return n != nil && jsonTypes(n) && len(n.lits) == len(pc.lits)
	}
	if hasFailure(pc) {
		return true
	}
	if k.failed(o.results, pc, "a leaf with a %s is rejected", leafValues[some]) {
		return true
	}
	if k.pairs {
		k.pairObject(m, val, pc, o)
		return true
	}
	if k.place {
		k.scalar(docCell{val: val, k: docKind{name: leafValues[some]}}, o.results[0], pc, []map[*Term]*Term{o.st.heap}, "a leaf")
		return true
	}
	used := false
	k.each([]map[*Term]*Term{o.st.heap}, func(t *Term) bool {
		used = used || t == val
		if L, ok := t.obj.(*Loop); ok && t.op == OLoop {
			if len(collect(L, func(s *Term) bool { return s == val })) > 0 {
				used = true
			}
		}
		return !used
	}, o.results[0])
	for _, l := range pc.lits {
		if l.atom.op != OTypeIs && l.atom.op != OEq && l.atom.contains(func(t *Term) bool { return t == val }) {
			used = true
		}
	}
	if !used {
		k.judge(pc, "the value of a leaf (a %s) does not reach the result under %s", leafValues[some], brief(pc))
	}
	return true
}

// inPlace: a function without a result replaces each leaf in a container by
// its value, and visits each container in it.
func (k *kinds) inPlace(d docCell, outs []Outcome) {
	if !d.k.obj && !d.k.arr {
		return
	}
	in := k.x.in
	found := false
	for _, key := range sortedKeys(k.x.e.loopsByKey) {
		L := k.x.e.loopsByKey[key]
		child, test, why := k.own(d, L)
		if child == nil {
			if strings.HasPrefix(why, "!") {
				k.bad("%s", why[1:])
				return
			}
			continue
		}
		found = true
		obj, arr := k.x.kinds[4].T, k.x.kinds[5].T
		m := in.mk(OMapInit, obj, "", nil, nil, in.Unbox(child, obj))
		val, ls, vals := k.leafLits(m)
		for _, c := range L.conts {
			visits := false
			for _, ev := range c.events {
				if ev.kind == "call" {
					for _, a := range ev.args {
						visits = visits || a.contains(func(t *Term) bool { return t == child })
					}
				}
			}
			replaced := false
			for loc, n := range c.heap {
				g := L.genHeap[loc]
				if n == g || n.op != OInsert && n.op != OStoreElem {
					continue
				}
				if n.contains(func(t *Term) bool { return t == val }) {
					replaced = true
				}
				if !k.place {
					continue
				}
				for _, pc := range c.pc {
					if k.jsonValue(pc) && n.args[0] == g {
						k.inPlaceOf(d, child, val, n, pc)
					}
				}
			}
			for _, pc := range c.pc {
				if k.place || !k.jsonValue(pc) {
					continue
				}
				show := brief(k.cx.bare(pc, L, test))
				isObj := pc.with(in.TypeIs(child, obj), true)
				isArr := pc.with(in.TypeIs(child, arr), true)
				if isObj != nil && !jsonTypes(isObj) {
					isObj = nil
				}
				if isArr != nil && !jsonTypes(isArr) {
					isArr = nil
				}
				switch {
				case isArr != nil && !visits:
					k.judge(pc, "an array in the %s is not visited under %s", d.k.name, show)
				case isObj == nil || replaced:
				default:
					for i := range vals {
						if k.possibleLeaf(isObj, ls, vals, i) && !hasFailure(pc) {
							k.judge(pc, "a leaf in the %s is not replaced by its value under %s", d.k.name, show)
							return
						}
					}
					n := isObj.withAll(ls)
					if !visits && !(n != nil && len(n.lits) == len(isObj.lits)) {
						k.judge(pc, "an object in the %s is not visited under %s", d.k.name, show)
					}
				}
			}
		}
		for _, ex := range append(L.exits[:len(L.exits):len(L.exits)], L.returns...) {
			if k.place || ex.from == L.nat.header && ex.rets == nil {
				continue
			}
			for _, pc := range ex.pc {
				k.judge(pc, "the walk over the elements ends early under %s", brief(k.cx.bare(pc, L, test)))
			}
		}
	}
	if found {
		return
	}
	for _, o := range outs {
		for _, pc := range o.st.pc {
			if len(k.x.e.loopsByKey) == 0 {
				k.judge(pc, "the elements of a %s are not visited", d.k.name)
			} else {
				k.undecided("the loop over the elements is not followed")
			}
			return
		}
	}
}

// own: the element that an iteration of L over d is about, where the loop may
// write to d.
func (k *kinds) own(d docCell, L *Loop) (child, test *Term, why string) {
	in := k.x.in
	if L.rangeMap != nil {
		m := L.rangeMap
		if d.k.obj && (m == in.mk(OMapInit, d.v.typ, "", nil, nil, d.v) || L.rangeRef == d.v) {
			k.plain[m] = true
			return in.Lookup(m, L.key, k.x.iface), nil, ""
		}
		return nil, nil, ""
	}
	dom, test, ind, ok := k.cx.domOf(L)
	if !ok || !d.k.arr || dom.kind != "index" && dom.kind != "num" {
		return nil, nil, ""
	}
	hi, hk := splitAddK(dom.hi)
	if dom.kind == "num" {
		lo, isC := dom.lo.constInt()
		if hi != in.Len(d.v) || !isC {
			return nil, nil, ""
		}
		if lo > 0 || hk < -1 {
			return nil, nil, fmt.Sprintf("!only the elements from %s to %s are visited", brief(dom.lo), brief(dom.hi))
		}
	} else if dom.raw != d.v && hi != in.Len(d.v) {
		return nil, nil, ""
	}
	// the element, in the list as it is
	for _, t := range collect(L, func(t *Term) bool { return t.op == OElem && t.args[1] == ind.v && isIface(t.typ) }) {
		b := t.args[0]
		if b == d.v {
			return t, test, ""
		}
		if _, init, _ := carried(in, b); init == d.v {
			k.plain[b] = true
			return t, test, ""
		}
	}
	return nil, nil, ""
}
