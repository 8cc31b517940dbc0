package main

import (
	"strings"
)

func init() {
	register(&Rule{id: "T08", run: ruleT08,
		explanation: "Abstract interpretation of the search for the latest timestamp, once for each kind of document: the fold over the elements must be a running maximum that looks at every element, the leaf cases must return the leaf's own timestamp.",
		assumptions: []string{"documents of bounded depth"}})
}

// latest decides what GetLatestTimestamp computes.
type latest struct {
	c     *Ctx
	x     *explorer
	name  string
	clean bool
	wrong bool
}

// ruleT08: a leaf has its own timestamp; a container has the greatest one of
// all its elements, which are looked at by the same function; what has no
// elements has none that is later than any recorded time.
func ruleT08(c *Ctx) {
	x := c.explore("internal/tson", "GetLatestTimestamp")
	if x == nil {
		return
	}
	l := &latest{c: c, x: x}
	x.outcomes = l.outcomes
	x.run()
	c.atLeast("kind", len(x.kinds))
}

func (l *latest) bad(f string, a ...any) {
	if l.clean || !l.wrong {
		l.wrong = true
		l.c.bad("kind", l.name, l.c.p.pos(l.x.cur.fn.Pos()), f, a...)
	}
	l.clean = false
}

func (l *latest) open(f string, a ...any) {
	if l.clean {
		l.c.undecided("kind", l.name, l.c.p.pos(l.x.cur.fn.Pos()), f, a...)
	}
	l.clean = false
}

// known: everything that pc depends on is understood.
func (l *latest) known(x *comp, pc *Conj, ts ...*Term) bool {
	odd := func(t *Term) bool {
		return t.contains(func(s *Term) bool {
			return !arbitrary(x, s) && !l.isStep(s) && !(s.op == OLoop && isInteger(s.typ)) && !strings.HasSuffix(s.aux, ".more")
		})
	}
	for _, y := range pc.lits {
		if !l.x.e.isInv(y) && odd(y.atom) {
			return false
		}
	}
	for _, t := range ts {
		if odd(t) {
			return false
		}
	}
	return true
}

func (l *latest) judge(x *comp, pc *Conj, f string, a ...any) {
	if l.known(x, pc) {
		l.bad(f, a...)
	} else {
		l.open(f, a...)
	}
}

// isStep: t is the latest timestamp of a part of the document.
func (l *latest) isStep(t *Term) bool {
	if t.op == OExtract {
		t = t.args[0]
	}
	return t.op == OCall && t.callName() == fullName(l.x.cur.fn) && len(t.args) > 0
}

func (l *latest) step(t *Term) *Term {
	if t.op == OExtract && t.aux == "0" && l.isStep(t) {
		return t.args[0].args[0]
	}
	return nil
}

func (l *latest) outcomes(cell exploreCell, args []*Term, outs []Outcome) {
	x := &comp{e: l.x.e}
	fn := cell.fn
	l.name, l.clean, l.wrong = fn.Name(), true, false
	if len(cell.kinds) != 1 || cell.kinds[0] < 0 || fn.Signature.Results().Len() != 1 || !isInteger(fn.Signature.Results().At(0).Type()) {
		l.open("what the function computes is not decided")
		return
	}
	k := l.x.kinds[cell.kinds[0]]
	l.name += " " + k.name
	d := l.x.e.docCell(k, l.x.iface, fn.Params[0].Name())
	for _, o := range outs {
		for _, pc := range o.st.pc {
			l.outcome(x, d, pc, o.results[0])
		}
	}
	if len(outs) == 0 {
		l.open("no outcome is found")
	}
	if l.clean {
		l.c.ok("kind", l.name)
	}
}

func (l *latest) outcome(x *comp, d docCell, pc *Conj, r *Term) {
	in := l.x.in
	n, isConst := r.constInt()
	switch {
	case d.k.leaf:
		if r != d.ts && pc.with(in.Lt(d.ts, in.Int(0)), false) != nil {
			l.judge(x, pc, "the timestamp of a leaf is %s", brief(r))
		}
	case d.k.T == nil:
		switch {
		case isConst && n > 0:
			l.bad("null has the timestamp %d", n)
		case !isConst:
			l.judge(x, pc, "null has the timestamp %s", brief(r))
		}
	case isConst:
		if n > 0 {
			l.judge(x, pc, "the timestamp is %d under %s", n, brief(pc))
			return
		}
		var size *Term
		if d.k.arr {
			size = in.Len(d.v)
		} else {
			size = in.Len(in.mk(OMapInit, d.v.typ, "", nil, nil, d.v))
		}
		if v, known := pc.decide(in.Lt(in.Int(0), size)); known && !v {
			return
		}
		if pc.with(in.Lt(in.Int(0), size), true) == nil {
			return
		}
		if v, known := pc.decide(in.Eq(d.v, in.Zero(d.k.T))); known && v {
			return
		}
		for _, y := range pc.lits {
			if y.atom.contains(func(t *Term) bool { return l.step(t) != nil || t.op == OLoop && isInteger(t.typ) }) {
				l.open("whether the elements are looked at is not decided under %s", brief(pc))
				return
			}
		}
		l.judge(x, pc, "no element of the %s is looked at under %s", d.k.name, brief(pc))
	default:
		L, init, next := carried(in, r)
		if L == nil {
			l.judge(x, pc, "the timestamp is %s under %s", brief(r), brief(pc))
			return
		}
		l.loop(x, d, L, r, init, next)
	}
}

func (l *latest) loop(x *comp, d docCell, L *Loop, acc, init *Term, next func(*LoopPath) *Term) {
	in := l.x.in
	if n, ok := init.constInt(); !ok {
		l.open("the first value %s is not followed", brief(init))
		return
	} else if n > 0 {
		l.bad("the search starts with the timestamp %d", n)
		return
	}
	dom, test, ind, ok := x.domOf(L)
	if !ok {
		l.open("the loop over the elements is not followed")
		return
	}
	var child *Term
	switch {
	case dom.kind == "keys" && d.k.obj:
		base := in.mk(OMapInit, d.v.typ, "", nil, nil, d.v)
		if L.rangeMap != base {
			l.open("the loop over the elements is not followed")
			return
		}
		child = in.Lookup(base, L.key, l.x.iface)
	case d.k.arr && dom.kind == "index" && dom.raw == d.v:
		child = in.Elem(d.v, ind.v, l.x.iface)
	case d.k.arr && dom.kind == "num":
		hi, hk := splitAddK(dom.hi)
		lo, isC := dom.lo.constInt()
		switch {
		case isC && hi == in.Len(d.v) && (lo > 0 || hk < -1):
			l.bad("only the elements from %s to %s are looked at", brief(dom.lo), brief(dom.hi))
			return
		case isC && lo == 0 && hi == in.Len(d.v) && hk == -1: // backwards
			child = in.Elem(d.v, ind.v, l.x.iface)
		default:
			l.open("the loop over the elements is not followed")
			return
		}
	default:
		l.open("the loop over the elements is not followed")
		return
	}
	// at most: a is not greater than b
	atMost := func(pc *Conj, a, b *Term) bool {
		if a == b {
			return true
		}
		v, known := pc.decide(in.Lt(b, a))
		return known && !v
	}
	for _, c := range L.conts {
		n := next(c)
		for _, pc := range c.pc {
			// the timestamp of the element
			var rs []*Term
			empty := false
			for _, k := range l.x.kinds {
				as := l.x.e.docAs(k, l.x.iface, child)
				if holds(DNF{pc}, as.lits[0].atom, true) {
					if k.leaf {
						rs = append(rs, as.ts)
					}
					empty = k.T == nil
				}
			}
			look := func(t *Term) bool {
				if l.step(t) == child {
					rs = append(rs, t)
				}
				return false
			}
			for _, y := range pc.lits {
				y.atom.contains(look)
			}
			n.contains(look)
			good := empty && n == acc
			for _, r := range rs {
				good = good || n == acc && atMost(pc, r, acc) || n == r && atMost(pc, acc, r)
			}
			if good {
				continue
			}
			show := brief(x.bare(pc, L, test))
			switch {
			case !l.known(x, pc, n):
				l.open("the step to %s under %s is not followed", brief(n), show)
			case len(rs) == 0 && n == acc:
				l.bad("an element is not looked at under %s", show)
			default:
				l.bad("the greatest timestamp becomes %s under %s", brief(n), show)
			}
		}
	}
	for _, ex := range L.exits {
		if ex.from == L.nat.header {
			continue
		}
		for _, pc := range ex.pc {
			l.judge(x, pc, "the search ends early under %s", brief(x.bare(pc, L, test)))
		}
	}
	for _, ret := range L.returns {
		for _, pc := range ret.pc {
			l.judge(x, pc, "the search ends early under %s", brief(x.bare(pc, L, test)))
		}
	}
}
