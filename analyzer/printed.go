package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A text that the program builds is a sequence of spans: constant text,
// places where something unknown is printed, and lists of such texts.
type span struct {
	text string
	hole *Term
	list *textList
}

// textList is what a loop, or strings.Join, prints one element after the other.
type textList struct {
	at    *Term // the term that stands for the list
	of    *Term // what the loop goes over
	v     *Term // the position or key
	kind  string
	sep   string
	alts  []textAlt
	fails bool   // the list is given up when a call for an element fails
	why   string // the list could not be followed
}

type textAlt struct {
	pc    *Conj
	spans []span
	pos   int // 1: first elements only, 2: all others only, 3: both
}

func spansString(ps []span) string {
	var sb strings.Builder
	for _, p := range ps {
		switch {
		case p.hole != nil:
			fmt.Fprintf(&sb, "‹%s›", brief(p.hole))
		case p.list != nil:
			sb.WriteString("‹list›")
		default:
			sb.WriteString(p.text)
		}
	}
	return sb.String()
}

// spans takes the text t apart.
func (x *comp) spans(t *Term) (out []span) {
	add := func(p span) {
		if n := len(out); p.hole == nil && p.list == nil && n > 0 && out[n-1].hole == nil && out[n-1].list == nil {
			out[n-1].text += p.text
			return
		}
		out = append(out, p)
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == x.soFar {
			add(span{list: &textList{at: t}})
			return
		}
		for t.op == OConvert && (isText(t.typ) && isText(t.args[0].typ)) {
			t = t.args[0]
		}
		if s, ok := t.constString(); ok {
			add(span{text: s})
			return
		}
		switch t.callName() {
		case "concat":
			for _, a := range t.args {
				rec(a)
			}
			return
		case "strings.Join":
			add(span{list: x.joined(t)})
			return
		}
		if L, init, next := carried(x.e.in, t); L != nil && isText(t.typ) {
			rec(init)
			add(span{list: x.printedBy(t, L, next)})
			return
		}
		add(span{hole: t})
	}
	rec(t)
	return
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := under(u.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func (x *comp) joined(t *Term) *textList {
	l := &textList{at: t}
	sep, ok := t.args[1].constString()
	if !ok {
		l.why = "the separator is not constant"
		return l
	}
	l.sep = sep
	n := len(x.fails)
	gs := x.list(t.args[0])
	if len(x.fails) > n {
		l.why = x.fails[n]
		return l
	}
	for _, g := range gs {
		if len(g.doms) != 1 || g.sort != nil {
			l.why = "the list is not made from one loop"
			return l
		}
		d := g.doms[0]
		for _, pc := range d.early {
			// an error of an element ends everything
			if l.fails = true; !hasFailure(pc) {
				l.why = fmt.Sprintf("the list may end early: %s", brief(pc))
				return l
			}
		}
		if l.of == nil {
			l.of, l.v, l.kind = d.of, d.v, d.kind
		}
		if d.of != l.of || d.kind != l.kind {
			l.why = "the list is made from more than one loop"
			return l
		}
		elem, pc := g.elem, g.pc
		if d.v != l.v {
			m := map[*Term]*Term{d.v: l.v}
			elem, pc = x.e.in.subst(elem, m), x.substConj(pc, m)
		}
		l.alts = append(l.alts, textAlt{pc: pc, spans: x.spans(elem)})
	}
	if len(gs) == 0 {
		l.why = "nothing is known about the elements"
		return l
	}
	return l
}

// printedBy: the list that L prints at the end of the text t.
func (x *comp) printedBy(t *Term, L *Loop, next func(*LoopPath) *Term) *textList {
	l := &textList{at: t}
	dom, _, ind, ok := x.domOf(L)
	if !ok {
		l.why = "what a loop goes over is not known"
		return l
	}
	l.of, l.kind, l.v = dom.of, dom.kind, ind.v
	if dom.raw != nil {
		l.of = dom.raw
	}
	if dom.kind == "keys" {
		l.v = L.key
	}
	for _, ex := range L.exits {
		if ex.from != L.nat.header && !x.failing(ex.pc) {
			l.why = "the loop may end early"
			return l
		}
	}
	flag := map[*Term]bool{} // boolean variables with their first value
	for ph, g := range L.gen {
		b, isC := L.init[ph].constBool()
		if !isC || !isBool(g.typ) {
			continue
		}
		one := true
		for _, c := range L.conts {
			n, isC := c.phis[ph].constBool()
			if c.phis[ph] == g { // known from the way taken
				isC, n = true, !b
				for _, pc := range c.pc {
					v, known := pc.decide(g)
					isC = isC && known && v != b
				}
			}
			one = one && isC && n != b
		}
		if one {
			flag[g] = b
		}
	}
	// texts that are one for the first element and another for all others
	var seps []map[*Term]*Term
	one, two := map[*Term]*Term{}, map[*Term]*Term{}
	for ph, g := range L.gen {
		if _, isC := L.init[ph].constString(); !isC || !isText(g.typ) {
			continue
		}
		var n *Term
		same := true
		for _, c := range L.conts {
			_, isC := c.phis[ph].constString()
			same = same && isC && (n == nil || n == c.phis[ph])
			n = c.phis[ph]
		}
		if same && n != nil {
			one[g], two[g] = L.init[ph], n
		}
	}
	if seps = []map[*Term]*Term{nil}; len(one) > 0 {
		seps = []map[*Term]*Term{one, two}
	}
	for _, c := range L.conts {
		for i, sub := range seps {
			n := next(c)
			if sub != nil {
				n = x.e.in.subst(n, sub)
			}
			old := x.soFar
			x.soFar = t
			ps := x.spans(n)
			x.soFar = old
			if len(ps) == 0 || ps[0].list == nil || ps[0].list.at != t {
				// the text so far is a list of its own: it comes first
				l.why = "a loop does not append to its text"
				return l
			}
			ps = ps[1:]
			for _, pc := range c.pc {
				if sub != nil {
					pc = x.substConj(pc, sub)
				}
				if pc == nil {
					continue
				}
				pos := 0
				if sub != nil {
					pos = i + 1
				}
				for g, b := range flag {
					if v, known := pc.decide(g); known {
						p := 2
						if v == b {
							p = 1
						}
						if pos != 0 && pos != p {
							pos = -1
							break
						}
						pos = p
					}
				}
				if pos < 0 {
					continue
				}
				if dom.kind != "keys" {
					if v, known := pc.decide(x.e.in.Eq(ind.v, ind.init)); known {
						if v != (pos == 1) && pos != 0 {
							continue
						}
						if pos = 2; v {
							pos = 1
						}
					} else if v, known := pc.decide(x.e.in.Lt(ind.init, ind.v)); known && v {
						if pos == 1 {
							continue
						}
						pos = 2
					}
				}
				if pos == 0 && dom.kind != "keys" {
					other := false
					for _, lit := range pc.lits {
						lit.atom.contains(func(s *Term) bool {
							other = other || s.op == OLoop && s.obj == L && s != ind.v
							return false
						})
					}
					if !other && pc.with(x.e.in.Eq(ind.v, ind.init), true) != nil && pc.with(x.e.in.Lt(ind.init, ind.v), true) != nil {
						pos = 3
					}
				}
				l.alts = append(l.alts, textAlt{pc: pc, spans: ps, pos: pos})
			}
		}
	}
	if len(l.alts) == 0 {
		l.why = "a loop prints nothing"
	}
	return l
}

// failing: every case has a literal that says that a call failed.
func (x *comp) failing(ps DNF) bool {
	for _, pc := range ps {
		if !hasFailure(pc) {
			return false
		}
	}
	return true
}

// complete: every element of the domain is printed.
func (x *comp) complete(l *textList, pc *Conj) string {
	in := x.e.in
	s := x.true_()
	for _, l2 := range pc.lits {
		if !l2.atom.contains(func(t *Term) bool { return t == l.v }) {
			if n := s.with(l2.atom, l2.val); n != nil {
				s = n
			}
		}
	}
	if l.kind == "index" {
		s = s.with(in.Lt(l.v, in.Int(0)), false).with(in.Lt(l.v, in.Len(l.of)), true)
	}
	if s == nil {
		return ""
	}
	var pcs []*Conj
	for _, a := range l.alts {
		pc := a.pc
		if l.fails {
			var ls []Lit
			for _, lit := range pc.lits {
				if !failure(lit) {
					ls = append(ls, lit)
				}
			}
			pc = in.newConj(ls)
		}
		pcs = append(pcs, pc)
	}
	if u := uncovered(s, pcs); u != nil {
		return fmt.Sprintf("no text is printed for an element with %s", brief(u))
	}
	return ""
}
