package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// logFn is one interpreted method of the log, with the vocabulary of the
// specification: the recorded patches, snapshots and versions.
type logFn struct {
	c    *Ctx
	e    *Eval
	in   *Interner
	fn   *ssa.Function
	name string
	outs []Outcome
	lgm  *Term
	args []*Term

	P, S, V  *Term // initial contents
	refP     *Term // the map references
	refS     *Term
	st       *types.Struct
	K, I     *Term
	opT      types.Type
	trouble  string // why no definite answer can be given
	problems []string
}

// scopeFn: a predicate over two paths.
func scopeFn(f *ssa.Function) bool {
	sig := f.Signature
	if f.Blocks == nil || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), tBool) || sig.Recv() != nil {
		return false
	}
	if sig.Params().Len() != 2 {
		return false
	}
	for i := 0; i < 2; i++ {
		t := sig.Params().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if !isString(t) {
			return false
		}
	}
	return true
}

// coverGaveUp: a case distinction was too large.
var coverGaveUp bool

var logCache = map[string]*logFn{}

// logFn interprets the method of the log.
func (c *Ctx) logFn(name string, opaque ...string) *logFn {
	key := fmt.Sprintf("%p|%s|%s", c.p, name, strings.Join(opaque, ","))
	if m, ok := logCache[key]; ok {
		n := *m
		n.c = c
		return &n
	}
	fn := c.p.fn(pkgLog, name)
	if fn == nil {
		c.undecided("anchor", name, "-", "the method is not found")
		return nil
	}
	c.analysed[fn.String()] = true
	e := logEval(c.p, opaque...)
	base := e.opaque
	e.opaque = func(f *ssa.Function) bool {
		if base(f) {
			return true
		}
		pk := fnPkg(f)
		return pk != nil && strings.HasSuffix(pk.Pkg.Path(), pkgLog) && scopeFn(f)
	}
	m := &logFn{c: c, e: e, in: e.in, fn: fn, name: name}
	m.args = e.paramSyms(fn)
	m.outs = e.root(fn, m.args)
	if len(m.args) > 0 {
		m.lgm = m.args[0]
	}
	T := ptrElem(m.lgm.typ)
	if T == nil {
		T = m.lgm.typ
	}
	m.st = structType(T)
	if m.st == nil {
		c.undecided("anchor", name, "-", "the receiver is not a struct")
		return nil
	}
	base0 := m.lgm
	if ptrElem(m.lgm.typ) != nil {
		base0 = m.in.mk(ODeref, T, "", nil, nil, m.lgm)
	}
	field := func(f string) *Term {
		for i := 0; i < m.st.NumFields(); i++ {
			if m.st.Field(i).Name() == f {
				return m.in.Field(base0, i, m.st.Field(i).Type())
			}
		}
		return nil
	}
	m.refP, m.refS, m.V = field("Patches"), field("Snapshots"), field("Version")
	if m.refP == nil || m.refS == nil || m.V == nil {
		c.undecided("anchor", name, "-", "the fields of the log are not found")
		return nil
	}
	m.P = m.in.mk(OMapInit, m.refP.typ, "", nil, nil, m.refP)
	m.S = m.in.mk(OMapInit, m.refS.typ, "", nil, nil, m.refS)
	if mt, ok := under(m.refP.typ).(*types.Map); ok {
		m.K = m.in.mk(OSym, mt.Key(), "$K", nil, nil)
		m.opT = elemType(mt.Elem())
	}
	m.I = m.in.mk(OSym, tInt, "$I", nil, nil)
	if m.opT == nil || structType(m.opT) == nil {
		c.undecided("anchor", name, "-", "the patches are not lists of operations")
		return nil
	}
	for _, f := range e.entered() {
		c.analysed[f] = true
	}
	for k := range e.problems {
		m.problems = append(m.problems, k)
	}
	sort.Strings(m.problems)
	if len(m.problems) > 0 {
		m.trouble = m.problems[0]
	} else if e.approx > 0 {
		m.trouble = "too many cases were merged"
	}
	logCache[key] = m
	return m
}

func (m *logFn) where() string { return m.c.p.pos(m.fn.Pos()) }

// bad reports a violation, unless the interpretation was imprecise.
func (m *logFn) bad(rule, construct, f string, a ...any) {
	if coverGaveUp {
		m.c.undecided(rule, construct, m.where(), "too many cases")
		return
	}
	if m.trouble != "" {
		m.c.undecided(rule, construct, m.where(), "%s (%s)", fmt.Sprintf(f, a...), m.trouble)
		return
	}
	m.c.bad(rule, construct, m.where(), f, a...)
}

func (m *logFn) open(rule, construct, f string, a ...any) {
	m.c.undecided(rule, construct, m.where(), f, a...)
}

func (m *logFn) ok(rule, construct string) { m.c.ok(rule, construct) }

// op is the operation number $I of version $K.
func (m *logFn) op() *Term {
	return m.in.Elem(m.in.Lookup(m.P, m.K, elemType(m.refP.typ)), m.I, m.opT)
}

func (m *logFn) opField(name string) *Term {
	st := structType(m.opT)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return m.in.Field(m.op(), i, st.Field(i).Type())
		}
	}
	return nil
}

// opGen is a generator of operations in canonical form: the element is the
// operation $I of version $K.
type opGen struct {
	g      *Gen
	pc     *Conj
	key    *Term
	kOrder string
	iOrder string
	early  []*Conj
	s      map[*Term]*Term
	why    string // not canonical
	wrong  string // definitely not an unchanged recorded operation
}

// known words of the specification
func understood(t *Term) bool {
	return !t.contains(func(s *Term) bool {
		switch s.op {
		case OPrev, OLoop, OClos, OUnknown, OIterKey, OStoreElem:
			return true
		case OSym:
			return strings.HasPrefix(s.aux, "$") && s.aux != "$K" && !strings.HasPrefix(s.aux, "$I")
		case OCall:
			n := s.callName()
			if strings.Contains(n, "CAU-CPSS/logument/") || n == "reflect.DeepEqual" {
				return false
			}
			switch n {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
				return false
			}
			return true
		}
		return false
	})
}

func understoodC(c *Conj) (bad *Term) {
	for _, l := range c.lits {
		if !understood(l.atom) {
			return l.atom
		}
	}
	return nil
}

// collapse: a struct built from all fields of one value is that value.
func (m *logFn) collapse(t *Term) *Term {
	if t.op != OStruct || len(t.args) == 0 {
		return t
	}
	var base *Term
	for i, a := range t.args {
		if a.op != OField || a.aux != fmt.Sprint(i) || base != nil && a.args[0] != base {
			return t
		}
		base = a.args[0]
	}
	return base
}

func (m *logFn) canon(g *Gen) *opGen {
	o := &opGen{g: g, pc: g.pc, key: g.key, s: map[*Term]*Term{}}
	el := m.collapse(g.elem)
	if el.op == OStruct {
		src := 0
		for _, a := range el.args {
			if a.op == OField && a.args[0].op == OElem {
				src++
			}
		}
		if src > 0 && understoodDollar(el) {
			o.wrong = fmt.Sprintf("the operation is kept in a changed form: %s", el)
		} else {
			o.why = fmt.Sprintf("the element %s is not a recorded operation", el)
		}
		return o
	}
	if el.op != OElem || el.args[0].op != OLookup || el.args[0].args[0] != m.P {
		o.why = fmt.Sprintf("the element %s is not a recorded operation", el)
		return o
	}
	k, i := el.args[0].args[1], el.args[1]
	var drop *Term
	switch {
	case k.op == OSym:
		o.s[k] = m.K
	case k.op == OElem && k.args[0] == m.V && k.args[1].op == OSym:
		o.s[k] = m.K
		drop = k.args[1]
	case k.op == OAddK:
		b, d := splitAddK(k)
		if b != nil && b.op == OSym {
			o.s[b] = m.in.AddK(m.K, -d)
			drop = b
			break
		}
		fallthrough
	default:
		o.why = fmt.Sprintf("the version %s of an operation is not an iteration variable", k)
		return o
	}
	// an entry's key that is a field of the operation
	for _, l := range g.pc.lits {
		if l.atom.op == OEq && l.val {
			for j, a := range l.atom.args {
				b := l.atom.args[1-j]
				if a.op == OSym && strings.HasPrefix(a.aux, "$") && a != k && a != i && b.op == OField && b.args[0] == el {
					o.s[a] = m.in.subst(b, map[*Term]*Term{k: m.K, i: m.I})
				}
			}
		}
	}
	if i.op != OSym {
		o.why = fmt.Sprintf("the operation index %s is not an iteration variable", i)
		return o
	}
	o.s[i] = m.I
	x := &comp{e: m.e}
	o.pc = m.in.newConj(nil)
	for _, l := range g.pc.lits {
		a := m.in.subst(l.atom, o.s)
		if drop != nil && k.op == OElem && a.contains(func(t *Term) bool { return t == drop }) && (a.op == OLt || a.op == OEq) && !a.contains(func(t *Term) bool { return t == m.K }) {
			continue
		}
		// the list that the operation belongs to is not empty
		if l.val && a.op == OLt && a.args[1].op == OLen {
			if n, ok := a.args[0].constInt(); ok && n == 0 && g.key != nil && g.list != nil {
				if a.args[1].args[0] == m.in.subst(g.list, o.s) {
					continue
				}
			}
		}
		if n := o.pc.with(a, l.val); n != nil {
			o.pc = n
		}
	}
	if g.key != nil {
		o.key = m.in.subst(g.key, o.s)
	}
	for _, d := range g.doms {
		if d.v == k || drop != nil && d.v == drop {
			o.kOrder = d.order
		}
		if d.v == i {
			o.iOrder = d.order
		}
		for _, e := range d.early {
			if r := x.substConj(e, o.s); r != nil {
				o.early = append(o.early, r)
			}
		}
	}
	return o
}

func understoodDollar(t *Term) bool {
	return !t.contains(func(s *Term) bool {
		switch s.op {
		case OPrev, OLoop, OClos, OUnknown, OIterKey, OStoreElem:
			return true
		}
		return false
	})
}

// opsOf returns the operations that the map of lists holds.
func (m *logFn) opsOf(x *comp, content *Term) []*opGen {
	var out []*opGen
	for _, g := range x.maps(content) {
		if g.app {
			out = append(out, m.canon(g))
			continue
		}
		for _, h := range x.flat(g) {
			h.list = g.elem
			out = append(out, m.canon(h))
		}
	}
	return out
}

// dedupe describes how repeated values are recognised: by the value last
// remembered for the path.
type dedupe struct {
	lm   *Term // OPrev of the map from paths to values
	has  *Term
	same *Term // the comparison with the remembered value
	eq   string
}

// dedupeOf finds the remembered-value literals of a generator.
func (m *logFn) dedupeOf(o *opGen) (d dedupe) {
	path, val := m.opField("Path"), m.opField("Value")
	for _, l := range o.pc.lits {
		a := l.atom
		if a.op == OHas && a.args[0].op == OPrev && a.args[1] == path {
			d.lm, d.has = a.args[0], a
		}
	}
	isPrev := func(t *Term) bool {
		if t.op == OField {
			t = t.args[0]
		}
		return t.op == OLookup && t.args[0].op == OPrev && t.args[1] == path
	}
	for _, l := range o.pc.lits {
		a := l.atom
		if len(a.args) == 2 && (a.op == OEq || a.callName() == "reflect.DeepEqual") {
			if isPrev(a.args[0]) && a.args[1] == val || isPrev(a.args[1]) && a.args[0] == val {
				d.same = a
				d.eq = "=="
				if a.op == OCall {
					d.eq = "reflect.DeepEqual"
				}
				for _, s := range a.args {
					if s.op == OField {
						s = s.args[0]
					}
					if s.op == OLookup && s.args[0].op == OPrev {
						if d.lm == nil {
							d.lm = s.args[0]
						}
					}
				}
			}
		}
	}
	return
}

// rest drops the dedupe literals.
func (m *logFn) rest(o *opGen, d dedupe) *Conj {
	var lits []Lit
	for _, l := range o.pc.lits {
		if l.atom != d.has && l.atom != d.same {
			lits = append(lits, l)
		}
	}
	return m.in.newConj(lits)
}

// exists: operation $I of version $K is recorded.
func (m *logFn) exists(pc *Conj) *Conj {
	list := m.in.Lookup(m.P, m.K, elemType(m.refP.typ))
	for _, l := range []Lit{{m.in.Has(m.P, m.K), true}, {m.in.Lt(m.I, m.in.Int(0)), false}, {m.in.Lt(m.I, m.in.Len(list)), true}} {
		if pc = pc.with(l.atom, l.val); pc == nil {
			return nil
		}
	}
	// recorded versions belong to the version list
	if pc = pc.with(m.in.Lt(m.lastVersion(), m.K), false); pc == nil {
		return nil
	}
	return pc
}

// lastVersion is the last element of the version list.
func (m *logFn) lastVersion() *Term {
	return m.in.Elem(m.V, m.in.AddK(m.in.Len(m.V), -1), m.K.typ)
}

// uncovered returns a case of s that none of ds covers.
func uncovered(s *Conj, ds []*Conj) *Conj {
	n := 0
	var rec func(s *Conj, ds []*Conj) *Conj
	rec = func(s *Conj, ds []*Conj) *Conj {
		if n++; n > 20000 {
			coverGaveUp = true
			return s
		}
		var open []*Conj
		for _, d := range ds {
			t, dead := true, false
			for _, l := range d.lits {
				v, known := s.decide(l.atom)
				if known && v != l.val {
					dead = true
					break
				}
				if !known {
					t = false
				}
			}
			if dead {
				continue
			}
			if t {
				return nil
			}
			open = append(open, d)
		}
		for _, d := range open {
			for _, l := range d.lits {
				if _, known := s.decide(l.atom); !known {
					for _, v := range []bool{l.val, !l.val} {
						if a := s.with(l.atom, v); a != nil {
							if r := rec(a, open); r != nil {
								return r
							}
						}
					}
					return nil
				}
			}
		}
		return s
	}
	return rec(s, ds)
}

// unclear returns a literal of s that the specification has no word for.
func unclear(s *Conj, ok ...*Term) *Term {
lits:
	for _, l := range s.lits {
		for _, k := range ok {
			if l.atom == k {
				continue lits
			}
		}
		if !understood(l.atom) {
			return l.atom
		}
	}
	return nil
}

func (m *logFn) lits(c *Conj, spec []Lit) *Conj {
	for _, l := range spec {
		if c == nil {
			return nil
		}
		c = c.with(l.atom, l.val)
	}
	return c
}

func showLits(spec []Lit) string {
	var s []string
	for _, l := range spec {
		s = append(s, l.String())
	}
	return strings.Join(s, " && ")
}

// windowOf checks that the operations are exactly those that satisfy the
// specification (redundant ones aside), under the key that it requires.
func (m *logFn) windowOf(rule string, o Outcome, ops []*opGen, spec []Lit, key *Term, fails []string) {
	what := m.name
	if len(fails) > 0 {
		m.open(rule, what, "the result is built in a way that is not recognised: %s", fails[0])
		return
	}
	clean := true
	var covers []*Conj
	lms := []*Term{}
	ign := given(o)
	for _, og := range ops {
		if og.wrong != "" {
			m.bad(rule, what+" elements", "%s", og.wrong)
			clean = false
			continue
		}
		if og.why != "" {
			m.open(rule, what+" elements", "%s", og.why)
			clean = false
			continue
		}
		d := m.dedupeOf(og)
		lms = append(lms, d.has, d.same)
		// only what belongs to the window
		if l, ok := implies(og.pc, spec); !ok {
			if u := unclear(og.pc, append(append([]*Term{}, ign...), d.has, d.same)...); u != nil {
				m.open(rule, what+" window", "whether %s holds depends on %s", l, u)
			} else {
				m.bad(rule, what+" window", "an operation is included although %s does not hold: it is included when %s", l, og.pc)
			}
			clean = false
			continue
		}
		if key != nil && og.key != key {
			if og.key != nil && understood(og.key) {
				if eq := m.in.Eq(og.key, key); !holdsC(og.pc, eq, true) {
					m.bad(rule, what+" key", "an operation of %s is put under %s", key, og.key)
					clean = false
				}
			} else {
				m.open(rule, what+" key", "the key %s is not understood", og.key)
				clean = false
			}
		}
		for _, e := range og.early {
			m.earlyExit(rule, what, e, spec, og, &clean, nil)
		}
		pc := og.pc
		if d.has != nil || d.same != nil {
			pc = og.pc
		}
		covers = append(covers, pc)
	}
	if !clean {
		return
	}
	m.ok(rule, fmt.Sprintf("%s: %d ways to include an operation, all within %s", what, len(ops), showLits(spec)))
	// all of the window: the first operation of a path is never redundant
	for _, opc := range o.st.pc {
		s := m.exists(opc)
		if s != nil {
			s = m.lits(s, spec)
		}
		for _, t := range lms {
			if s != nil && t != nil {
				if t.op == OHas {
					s = s.with(t, false)
				} else {
					s = s.with(t, false)
				}
			}
		}
		if s == nil {
			continue
		}
		if u := uncovered(s, covers); u != nil {
			if t := unclear(u, append(lms, ign...)...); t != nil {
				m.open(rule, what+" completeness", "whether all operations are included depends on %s", t)
			} else {
				m.bad(rule, what+" completeness", "an operation of the window is left out, when %s", u)
			}
			return
		}
	}
	m.ok(rule, fmt.Sprintf("%s: every operation with %s is included", what, showLits(spec)))
}

func holdsC(c *Conj, t *Term, val bool) bool {
	v, known := c.decide(t)
	return known && v == val
}

// earlyExit: leaving the iteration is only allowed when nothing of the window follows.
func (m *logFn) earlyExit(rule, what string, e *Conj, spec []Lit, og *opGen, clean *bool, clear func(*Conj) *Term) {
	if og.kOrder == "asc" && og.iOrder == "asc" {
		// left at version $K: later versions are not less
		mentionsI := false
		for _, l := range e.lits {
			mentionsI = mentionsI || l.atom.contains(func(t *Term) bool { return t == m.I })
		}
		if !mentionsI {
			k2 := m.in.mk(OSym, m.K.typ, "$L", nil, nil)
			x := &comp{e: m.e}
			s := x.substConj(e, map[*Term]*Term{m.K: k2})
			if s != nil {
				s = s.with(m.in.Lt(m.K, k2), false)
			}
			if s != nil {
				s = m.lits(s, spec)
			}
			if s == nil {
				return
			}
		}
	}
	*clean = false
	u := unclear(e)
	if clear != nil {
		u = clear(e)
	}
	if u != nil {
		m.open(rule, what+" early exit", "the iteration may end early, depending on %s", u)
		return
	}
	m.bad(rule, what+" early exit", "the iteration ends early, when %s, although later operations may belong to the window", e)
}

var _ = token.ADD

// entered lists the functions that were interpreted.
func (e *Eval) entered() (out []string) {
	for f := range e.inf {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return
}
