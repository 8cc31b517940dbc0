package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// L06: the removal of redundant operations.

func ruleL06(c *Ctx) {
	win := func(m *logFn) []Lit { return m.versionWindow() }
	if m := c.logFn("Logument.Track", snapOpaque); m != nil && m.need(3) {
		m.reduction(win, false)
	}
	if m := c.logFn("Logument.TemporalTrack", snapOpaque); m != nil && m.need(3) {
		m.reduction(func(m *logFn) []Lit { return m.timeWindow() }, false)
	}
	if m := c.logFn("Logument.Compact", snapOpaque); m != nil && m.need(2) {
		m.reduction(nil, true)
	}
	if m := c.logFn("Logument.History", snapOpaque); m != nil && m.need(2) {
		m.reduction(nil, false)
	}
}

// otherMemory: the key of a map lookup that depends on earlier operations.
func (m *logFn) otherMemory(o *opGen) (key *Term) {
	for _, l := range o.pc.lits {
		l.atom.contains(func(t *Term) bool {
			if (t.op == OHas || t.op == OLookup) && t.args[0].op == OPrev && t.args[1] != m.opField("Path") {
				key = t.args[1]
			}
			return false
		})
	}
	return
}

// scopeAtom finds the condition that relates the path of the operation to the
// path that was asked for.
func (m *logFn) scopeAtoms(o *opGen, d dedupe) (out []*Term) {
	if len(m.args) < 2 {
		return nil
	}
	target := m.args[1]
	for _, l := range o.pc.lits {
		if l.atom == d.has || l.atom == d.same {
			continue
		}
		if l.atom.contains(func(t *Term) bool { return t == target }) && l.atom.contains(func(t *Term) bool { return t == m.opField("Path") }) {
			out = append(out, l.atom)
		}
	}
	return
}

func (m *logFn) reduction(window func(m *logFn) []Lit, inPlace bool) {
	rule := "redundancy"
	for _, o := range m.outs {
		x := &comp{e: m.e}
		var content *Term
		switch {
		case inPlace:
			content = m.mapOf(o, m.refP)
			if content == m.P {
				continue
			}
		case len(o.results) == 1:
			content = m.mapOf(o, o.results[0])
		default:
			continue
		}
		ops := m.opsOf(x, content)
		if len(x.fails) > 0 {
			m.open(rule, m.name, "the result is built in a way that is not recognised: %s", x.fails[0])
			continue
		}
		m.reduced(rule, o, ops, window, inPlace)
	}
}

// initialValue: the entry that a history puts in front.
func (m *logFn) initialValue(g *Gen) bool {
	return g.elem.op == OStruct && g.elem.contains(func(t *Term) bool { return t.op == OCall && strings.HasSuffix(t.callName(), "tson.GetValue") })
}

func (m *logFn) reduced(rule string, o Outcome, all []*opGen, window func(m *logFn) []Lit, inPlace bool) {
	what := m.name
	ign := given(o)
	var ops []*opGen
	for _, og := range all {
		if m.initialValue(og.g) {
			continue
		}
		if og.wrong != "" {
			m.bad(rule, what+" elements", "%s", og.wrong)
			return
		}
		if og.why != "" {
			m.open(rule, what+" elements", "%s", og.why)
			return
		}
		ops = append(ops, og)
	}
	if len(ops) == 0 {
		m.open(rule, what, "no operations are kept")
		return
	}
	// how repeated values are recognised
	var d dedupe
	for _, og := range ops {
		e := m.dedupeOf(og)
		if d.lm == nil {
			d.lm = e.lm
		}
		if e.lm != nil && e.lm != d.lm {
			m.open(rule, what, "several memories of values: %s and %s", d.lm, e.lm)
			return
		}
		if e.has != nil {
			d.has = e.has
		}
		if e.same != nil {
			d.same, d.eq = e.same, e.eq
		}
	}
	// the scope
	var spec []Lit
	if window != nil {
		spec = window(m)
	} else {
		atoms := map[*Term]bool{}
		for _, og := range ops {
			for _, a := range m.scopeAtoms(og, d) {
				atoms[a] = true
			}
		}
		if len(atoms) != 1 {
			if len(atoms) == 0 {
				m.bad(rule, what+" scope", "the path that is asked for is not compared with the operations' paths")
			} else {
				m.open(rule, what+" scope", "%d conditions relate the paths", len(atoms))
			}
			return
		}
		for a := range atoms {
			spec = []Lit{{a, true}}
			if !m.scope(rule, a) {
				return
			}
		}
	}
	// comparisons of the remembered and the new value with nil
	var prevNil, valNil *Term
	if d.same != nil && len(d.same.args) == 2 && isIface(m.opField("Value").typ) {
		val := m.opField("Value")
		for _, a := range d.same.args {
			if a != val && isIface(a.typ) {
				prevNil, valNil = m.in.Eq(a, m.in.Zero(a.typ)), m.in.Eq(val, m.in.Zero(val.typ))
			}
		}
	}
	unknown := func(c *Conj) *Term {
		if prevNil != nil {
			p, pk := c.decide(prevNil)
			v, vk := c.decide(valNil)
			if s, sk := c.decide(d.same); sk && pk && vk && (s && p != v || !s && p && v) {
				return prevNil
			}
		}
		return unclear(c, append(append([]*Term{}, ign...), d.has, d.same, prevNil, valNil)...)
	}
	if d.lm == nil || d.same == nil {
		for _, og := range ops {
			if k := m.otherMemory(og); k != nil && understood(k) {
				m.bad(rule, what+" memory", "the value is compared with one that is remembered for %s instead of the operation's path", k)
				return
			}
			if u := unknown(og.pc); u != nil {
				m.open(rule, what, "repeated values are recognised in another way: %s", u)
				return
			}
		}
		m.bad(rule, what+" dropping", "operations that repeat the path's value are not dropped")
		return
	}
	if d.eq == "==" && isIface(m.opField("Value").typ) {
		m.bad(rule, what+" equality", "values are compared with ==, which does not compare containers and panics for uncomparable values")
		return
	}
	if d.has == nil {
		d.has = m.in.mk(OHas, tBool, "", nil, nil, d.lm, m.opField("Path"))
	}
	// only what differs is kept, and only of the range
	for _, og := range ops {
		pc := m.lits(og.pc, spec)
		if pc == nil {
			if !inPlace {
				if u := unknown(og.pc); u != nil {
					m.open(rule, what, "an operation outside of the range may be kept, depending on %s", u)
				} else {
					m.bad(rule, what, "an operation outside of the range is kept, when %s", og.pc)
				}
				return
			}
			continue
		}
		if r := m.lits(pc, []Lit{{d.has, true}, {d.same, true}}); r != nil {
			if prevNil != nil {
				p, pk := r.decide(prevNil)
				v, vk := r.decide(valNil)
				if pk && vk && p != v {
					continue
				}
			}
			if u := unknown(og.pc); u != nil {
				m.open(rule, what+" dropping", "whether a repeated value is dropped depends on %s", u)
			} else {
				m.bad(rule, what+" dropping", "an operation is kept although the last kept one of its path has an equal value, when %s", og.pc)
			}
			return
		}
		if og.kOrder == "" && og.key == nil || og.iOrder == "" {
			m.open(rule, what+" order", "the order of the operations is not recognised")
			return
		}
		if og.kOrder != "asc" && og.key == nil || og.iOrder != "asc" {
			m.bad(rule, what+" order", "the operations do not keep their order (versions: %s, operations: %s)", og.kOrder, og.iOrder)
			return
		}
		if inPlace && og.g.sort != nil {
			m.bad(rule, what+" order", "the operations of a version are sorted")
			return
		}
		if inPlace && og.key != m.K {
			if og.key != nil && understood(og.key) {
				m.bad(rule, what+" key", "an operation of version %s is put under %s", m.K, og.key)
			} else {
				m.open(rule, what+" key", "the key %s is not understood", og.key)
			}
			return
		}
		for _, e := range og.early {
			clean := true
			m.earlyExit(rule, what, e, spec, og, &clean, nil)
			if !clean {
				return
			}
		}
	}
	m.ok(rule, what+": a repeated value of the range is dropped")
	// everything else is kept
	var kept []*Conj
	for _, og := range ops {
		kept = append(kept, og.pc)
	}
	cases := [][]Lit{
		append(append([]Lit{}, spec...), Lit{d.has, false}),
		append(append([]Lit{}, spec...), Lit{d.has, true}, Lit{d.same, false}),
	}
	names := []string{"the first operation of a path", "an operation with a new value"}
	if inPlace {
		cases = append(cases, []Lit{{spec[0].atom, false}})
		names = append(names, "an operation outside of the path")
	}
	for i, cs := range cases {
		if !m.covered(o, cs, kept, func(u *Conj) {
			if t := unknown(u); t != nil {
				m.open(rule, what+" keeping", "whether %s is kept depends on %s", names[i], t)
			} else {
				m.bad(rule, what+" keeping", "%s is dropped, when %s", names[i], u)
			}
		}) {
			return
		}
		m.ok(rule, what+": "+names[i]+" is kept")
	}
	m.memory(rule, o, d, spec, inPlace || window == nil, unknown)
}

// covered: each recorded operation that satisfies cs satisfies one of the conditions.
func (m *logFn) covered(o Outcome, cs []Lit, conds []*Conj, miss func(*Conj)) bool {
	for _, opc := range o.st.pc {
		s := m.exists(opc)
		if s != nil {
			s = m.lits(s, cs)
		}
		if s == nil {
			continue
		}
		if u := uncovered(s, conds); u != nil {
			miss(u)
			return false
		}
	}
	return true
}

// memory checks how the remembered values come about.
func (m *logFn) memory(rule string, o Outcome, d dedupe, spec []Lit, pathScope bool, unknown func(*Conj) *Term) {
	what := m.name + " memory"
	g := m.e.prevs[d.lm]
	if g == nil {
		m.open(rule, what, "the remembered values are not recognised")
		return
	}
	// the loops that carry it
	n := 1
	for {
		L, init, _ := carried(m.in, g)
		if L == nil || init == nil {
			m.open(rule, what, "the remembered values come from %s", g)
			return
		}
		if init.op == OMapEmpty {
			break
		}
		if init.op != OLoop {
			if init.op == OInsert || init.op == OMapInit {
				m.bad(rule, what, "the remembered values do not start empty")
			} else {
				m.open(rule, what, "the remembered values start with %s", init)
			}
			return
		}
		g = init
		n++
	}
	x := &comp{e: m.e}
	gs := x.maps(g)
	if len(x.fails) > 0 {
		m.open(rule, what, "the updates are not recognised: %s", x.fails[0])
		return
	}
	path, val := m.opField("Path"), m.opField("Value")
	var upd []*Conj
	for _, u := range gs {
		el := u.elem
		whole := true
		if el.op == OField && el.args[0].op == OElem {
			el = el.args[0]
			whole = false
		}
		h := *u
		h.elem = el
		og := m.canon(&h)
		if og.why != "" || og.wrong != "" {
			if n == 1 && el.op == OElem && el.args[0].op == OLookup && el.args[0].args[0] == m.P {
				m.bad(rule, what, "the remembered values are forgotten from one version to the next")
				return
			}
			m.open(rule, what, "the remembered value %s is not understood: %s%s", u.elem, og.why, og.wrong)
			return
		}
		if og.key != path {
			if understood(og.key) {
				m.bad(rule, what, "the value is remembered for %s instead of the operation's path", og.key)
			} else {
				m.open(rule, what, "the value is remembered for %s", og.key)
			}
			return
		}
		if cv := m.in.subst(u.elem, og.s); !whole && cv != val {
			m.bad(rule, what, "%s is remembered instead of the operation's value", cv)
			return
		}
		if og.kOrder == "" || og.iOrder == "" {
			m.open(rule, what, "the order in which the operations are visited is not recognised")
			return
		}
		if og.kOrder != "asc" || og.iOrder != "asc" {
			m.bad(rule, what, "the operations are not visited in their recorded order (versions: %s, operations: %s)", og.kOrder, og.iOrder)
			return
		}
		if !pathScope {
			if l, ok := implies(og.pc, spec); !ok {
				if t := unknown(og.pc); t != nil {
					m.open(rule, what, "whether %s holds for a remembered value depends on %s", l, t)
				} else {
					m.bad(rule, what, "the value of an operation outside of the range is remembered: when %s", og.pc)
				}
				return
			}
		}
		upd = append(upd, og.pc)
	}
	for i, cs := range [][]Lit{
		append(append([]Lit{}, spec...), Lit{d.has, false}),
		append(append([]Lit{}, spec...), Lit{d.has, true}, Lit{d.same, false}),
	} {
		name := []string{"the first operation of a path", "an operation with a new value"}[i]
		if !m.covered(o, cs, upd, func(u *Conj) {
			if t := unknown(u); t != nil {
				m.open(rule, what, "whether the value of %s is remembered depends on %s", name, t)
			} else {
				m.bad(rule, what, "the value of %s is not remembered, when %s", name, u)
			}
		}) {
			return
		}
	}
	m.ok(rule, fmt.Sprintf("%s: the value of each kept operation is remembered for its path, through %d loops", m.name, n))
}

// scope verifies the condition that an operation's path lies at or below the target.
func (m *logFn) scope(rule string, a *Term) bool {
	what := m.name + " scope"
	if a.op == OExtract && a.args[0].op == OCall {
		a = a.args[0]
	}
	name := a.callName()
	path, target := m.opField("Path"), m.args[1]
	switch {
	case name == "strings.HasPrefix" && len(a.args) == 2 && a.args[0] == path && a.args[1] == target,
		name == "strings.Contains" && len(a.args) == 2 && a.args[0] == path && a.args[1] == target,
		a.op == OEq:
		m.bad(rule, what, "the paths are compared as texts, %s: a path is not below another one because it starts with the same letters", a)
		return false
	}
	f := m.scopeFunction(a)
	if f == nil || len(a.args) != 2 {
		m.open(rule, what, "the condition %s is not recognised", a)
		return false
	}
	pi := -1
	for i := range a.args {
		if m.isPathOf(a.args[i], path) && m.isPathOf(a.args[1-i], target) {
			pi = i
		}
	}
	if pi < 0 {
		m.open(rule, what, "the arguments of %s are not the operation's and the requested path", a)
		return false
	}
	verdict, why := m.prefixPredicate(f, pi)
	switch verdict {
	case "ok":
		m.ok(rule, m.name+": "+f.Name()+" compares the paths segment by segment")
		return true
	case "bad":
		m.bad(rule, what, "%s: %s", f.Name(), why)
	default:
		m.open(rule, what, "%s: %s", f.Name(), why)
	}
	return false
}

func (m *logFn) isPathOf(t, path *Term) bool {
	if t == path {
		return true
	}
	if t.op == OExtract {
		t = t.args[0]
	}
	return t.op == OCall && strings.HasSuffix(t.callName(), "tson.SplitPath") && t.args[0] == path
}

func (m *logFn) scopeFunction(a *Term) *ssa.Function {
	if a.op != OCall {
		return nil
	}
	for _, f := range m.c.p.fns {
		if f.RelString(nil) == a.callName() {
			return f
		}
	}
	return nil
}

// prefixPredicate decides whether f says that the segments of its parameter
// number pi start with the segments of the other one.
func (m *logFn) prefixPredicate(f *ssa.Function, pi int) (verdict, why string) {
	e := logEval(m.c.p)
	e.forgetExit = false
	base := e.opaque
	e.opaque = func(g *ssa.Function) bool {
		if g == f {
			return false
		}
		o := g
		if g.Origin() != nil {
			o = g.Origin()
		}
		pk := fnPkg(o)
		return base(g) || pk != nil && (pk.Pkg.Path() == "slices" || pk.Pkg.Path() == "strings")
	}
	args := e.paramSyms(f)
	outs := e.root(f, args)
	m.c.analysed[f.String()] = true
	for p := range e.problems {
		return "open", p
	}
	segs := func(t *Term) *Term { // the parameter whose segments t are
		if t.op == OExtract {
			t = t.args[0]
		}
		if t.op == OCall && strings.HasSuffix(t.callName(), "tson.SplitPath") {
			return t.args[0]
		}
		if _, ok := under(t.typ).(*types.Slice); ok && t.op == OSym {
			return t
		}
		return nil
	}
	path, target := args[pi], args[1-pi]
	isLen := func(t, p *Term) bool { return t.op == OLen && segs(t.args[0]) == p }
	// classify an atom: "short" = path has fewer segments than target,
	// "eq" = the first segments are equal
	class := func(t *Term) (string, bool) {
		if t.op == OLt && isLen(t.args[0], path) && isLen(t.args[1], target) {
			return "short", true
		}
		u := t
		if u.op == OExtract {
			u = u.args[0]
		}
		if u.op == OCall && strings.HasPrefix(u.callName(), "slices.Equal") && len(u.args) == 2 {
			for i, a := range u.args {
				b := u.args[1-i]
				if a.op == OSliceOf && segs(a.args[0]) == path && segs(b) == target {
					if lo, ok := a.args[1].constInt(); ok && lo == 0 && isLen(a.args[2], target) {
						return "eq", true
					}
				}
			}
		}
		return "", false
	}
	raw := func(t *Term) bool {
		u := t
		if u.op == OExtract {
			u = u.args[0]
		}
		return u.op == OCall && strings.HasPrefix(u.callName(), "strings.") && len(u.args) == 2 && u.args[0] == path && u.args[1] == target
	}
	// the loop form: for i := range target { if path[i] != target[i] { return false } }
	loopEq := map[*Loop]bool{}
	for _, L := range e.loopsByKey {
		x := &comp{e: e}
		d, _, ind, ok := x.domOf(L)
		if !ok || d.kind != "index" || segs(d.of) != target || d.order != "asc" {
			return "open", "a loop is not recognised"
		}
		for _, ex := range L.exits {
			if ex.from == L.nat.header {
				continue
			}
			for _, cj := range ex.pc {
				found := false
				cj = x.bare(cj, L, nil)
				for _, l := range cj.lits {
					if l.atom.op == OEq && !l.val {
						a, b := l.atom.args[0], l.atom.args[1]
						el := func(t, p *Term) bool { return t.op == OElem && segs(t.args[0]) == p && t.args[1] == ind.v }
						if el(a, path) && el(b, target) || el(b, path) && el(a, target) {
							found = true
						}
					}
				}
				if !found || len(cj.lits) > 4 {
					return "open", "a loop ends early in a way that is not recognised"
				}
			}
		}
		loopEq[L] = true
	}
	T, F := e.in.mk(OSym, tBool, "short", nil, nil), e.in.mk(OSym, tBool, "equal", nil, nil)
	type cell struct {
		c *Conj
		r *Term
	}
	var cells []cell
	for _, o := range outs {
		for _, pc := range o.st.pc {
			c := e.in.newConj(nil)
			for _, l := range pc.lits {
				if k, ok := class(l.atom); ok {
					t := T
					if k == "eq" {
						t = F
					}
					if c != nil {
						c = c.with(t, l.val)
					}
					continue
				}
				skip := false
				for L := range loopEq {
					if l.atom.contains(func(t *Term) bool {
						return t.op == OLoop && t.obj == L || t.op == OElem && t.args[1].op == OLoop && t.args[1].obj == L
					}) {
						// index bounds, or the differing element
						bound := l.atom.op == OLt && isLen(l.atom.args[1], target)
						if bound && l.val && c != nil {
							c = c.with(F, false)
						}
						if bound && !l.val && c != nil {
							c = c.with(F, true)
						}
						skip = true
					}
				}
				if skip {
					continue
				}
				if raw(l.atom) {
					return "bad", fmt.Sprintf("the paths are compared as texts, %s", l.atom)
				}
				if l.atom.op == OLt && isLen(l.atom.args[0], target) && isLen(l.atom.args[1], path) {
					return "bad", "the path itself is not at or below the target: the number of segments is compared strictly"
				}
				return "open", fmt.Sprintf("it depends on %s", l.atom)
			}
			if c == nil {
				continue
			}
			r := o.results[0]
			if r.op != OConst {
				if k, ok := class(r); ok && k == "eq" {
					r = F
				} else if r.op == ONot {
					if k, ok := class(r.args[0]); ok && k == "short" {
						return "bad", "only the number of segments is compared"
					}
					return "open", fmt.Sprintf("it returns %s", r)
				} else if raw(r) {
					return "bad", fmt.Sprintf("the paths are compared as texts, %s", r)
				} else {
					return "open", fmt.Sprintf("it returns %s", r)
				}
			}
			cells = append(cells, cell{c, r})
		}
	}
	for _, sh := range []bool{true, false} {
		for _, eq := range []bool{true, false} {
			want := !sh && eq
			if sh && eq {
				continue
			}
			n := 0
			for _, cl := range cells {
				s := cl.c.with(T, sh)
				if s != nil {
					s = s.with(F, eq)
				}
				if s == nil {
					continue
				}
				n++
				got := cl.r == F && eq
				if cl.r.op == OConst {
					got = isTrue(cl.r)
				}
				if got != want {
					return "bad", fmt.Sprintf("it is %v when the path has fewer segments: %v, and the segments of the target are equal: %v", got, sh, eq)
				}
			}
			if n == 0 && !sh {
				return "open", "a case is missing"
			}
		}
	}
	return "ok", ""
}

func isTrue(t *Term) bool {
	b, ok := t.constBool()
	return ok && b
}
