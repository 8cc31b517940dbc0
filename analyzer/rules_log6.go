package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Committing (L02), setting (L07), storing (L10) and the stored snapshots (L01).

func (m *logFn) initial(name string) *Term {
	T := ptrElem(m.lgm.typ)
	if T == nil {
		return nil
	}
	base := m.in.mk(ODeref, T, "", nil, nil, m.lgm)
	for i := 0; i < m.st.NumFields(); i++ {
		if m.st.Field(i).Name() == name {
			return m.in.Field(base, i, m.st.Field(i).Type())
		}
	}
	return nil
}

// final returns the fields of the receiver afterwards.
func (m *logFn) final(o Outcome) map[string]*Term {
	T := ptrElem(m.lgm.typ)
	if T == nil {
		return nil
	}
	v := m.e.load(o.st, m.lgm, T)
	out := map[string]*Term{}
	for i := 0; i < m.st.NumFields(); i++ {
		out[m.st.Field(i).Name()] = m.in.Field(v, i, m.st.Field(i).Type())
	}
	return out
}

// wholeList: the generators of one iteration list all elements of T in their
// order (T may be a list of lists). The reason is empty if it is not known.
func (m *logFn) wholeList(o Outcome, gs []*Gen, T *Term) (bool, string) {
	var levels []*Term // canonical iteration variables
	var conds []*Conj
	x := &comp{e: m.e}
	base := m.in.newConj(nil)
	plain := map[*Term]*Term{T: m.in.mk(OSym, T.typ, "the list", nil, nil)}
	if f := m.final(o); f != nil && f["PatchPool"] != nil && f["PatchPool"].op == OLoop {
		// only its length can be known about
		n := m.in.Len(f["PatchPool"])
		plain[n] = m.in.mk(OSym, n.typ, "its length", nil, nil)
	}
	unclear := func(c *Conj) *Term {
		for _, l := range c.lits {
			if a := m.in.subst(l.atom, plain); !understood(a) && !met(a) {
				return l.atom
			}
		}
		return nil
	}
	for n, g := range gs {
		if g.sort != nil {
			return false, "sorted"
		}
		// the element is T[i], T[i][j] ...
		var idx []*Term
		el := g.elem
		for el.op == OElem && el != T {
			idx = append([]*Term{el.args[1]}, idx...)
			el = el.args[0]
		}
		if el != T || len(idx) == 0 || len(idx) != len(g.doms) || n > 0 && len(idx) != len(levels) {
			return false, ""
		}
		list, s := T, map[*Term]*Term{}
		for i, t := range idx {
			k := int64(0)
			if t.op == OAddK {
				t, k = splitAddK(t)
			}
			var d *Dom
			for _, c := range g.doms {
				if c.v == t {
					d = c
				}
			}
			if d == nil || d.kind != "index" || s[d.v] != nil {
				return false, ""
			}
			if len(levels) <= i {
				levels = append(levels, m.in.mk(OSym, t.typ, fmt.Sprintf("$I%d", i+1), nil, nil))
			}
			v := levels[i]
			s[d.v] = m.in.AddK(v, -k)
			if n == 0 {
				base = m.lits(base, []Lit{{m.in.Lt(v, m.in.Int(0)), false}, {m.in.Lt(v, m.in.Len(list)), true}})
				if base == nil {
					return false, ""
				}
			} else if i == 0 && d.loop != gs[0].doms[0].loop {
				return false, ""
			}
			if d.order != "asc" {
				if d.order == "" {
					return false, ""
				}
				return false, "in another order"
			}
			for _, e := range d.early {
				// an element behind the one where it stops
				more := Lit{m.in.Lt(m.in.AddK(v, 1), m.in.Len(list)), true}
				if e = x.substConj(e, s); e == nil {
					continue
				}
				// what is known anyway need not be understood
				for _, pc := range o.st.pc {
					r := m.in.newConj(nil)
					for _, l := range e.lits {
						if r != nil && !m.implied(pc, l.atom, l.val) {
							r = r.with(l.atom, l.val)
						}
					}
					if r == nil || unclear(r) != nil || m.lits(pc, append(append([]Lit{}, r.lits...), more)) == nil {
						continue
					}
					return false, fmt.Sprintf("only up to the point where %s", r)
				}
				return false, ""
			}
			list = m.in.Elem(list, v, elemType(list.typ))
		}
		c := x.substConj(g.pc, s)
		if c == nil {
			continue
		}
		for _, b := range conds {
			// Is something added twice in one iteration?
			if both := m.lits(c, b.lits); both != nil {
				if unclear(both) != nil || len(levels) > 1 {
					return false, ""
				}
				return false, fmt.Sprintf("twice where %s", both)
			}
			if len(levels) > 1 {
				last := levels[len(levels)-1]
				r := x.substConj(b, map[*Term]*Term{last: m.in.mk(OSym, last.typ, last.aux+"'", nil, nil)})
				if r != nil && m.lits(c, r.lits) != nil {
					return false, ""
				}
			}
		}
		conds = append(conds, c)
	}
	for _, pc := range o.st.pc {
		c := m.lits(pc, base.lits)
		if c == nil {
			continue
		}
		if u := uncovered(c, conds); u != nil {
			if unclear(u) != nil {
				return false, ""
			}
			return false, fmt.Sprintf("without those where %s", u)
		}
	}
	return len(gs) > 0, ""
}

// met: a condition on what was collected before an iteration that some history
// of iterations meets and some does not.
func met(a *Term) bool {
	prev := func(t *Term) bool { return t.op == OPrev }
	switch {
	case a.op == OLt && isZero(a.args[0]):
		return a.args[1].op == OLen && a.args[1].args[0].op == OPrev
	case a.op == OEq:
		x, y := a.args[0], a.args[1]
		if !x.contains(prev) {
			x, y = y, x
		}
		if y.contains(prev) || !understood(y) {
			return false
		}
		for x.op == OField {
			x = x.args[0]
		}
		return x.op == OElem && x.args[0].op == OPrev
	}
	return false
}

// over splits off the leading generators that iterate over T.
func over(gs []*Gen, T *Term) (a, b []*Gen) {
	i := 0
	for i < len(gs) && len(gs[i].doms) > 0 && gs[i].doms[0].of == T {
		i++
	}
	return gs[:i], gs[i:]
}

// extended: the list is T (or nothing, when T is nil) followed by one element.
func (m *logFn) extended(o Outcome, list, T, elem *Term) (ok bool, why string) {
	x := &comp{e: m.e}
	if list.op == OSliceOf && len(list.args) > 1 && list.args[1] != nil && m.always(o, m.in.Lt(m.in.Int(0), list.args[1]), true) {
		if ok, _ := m.extended(o, list.args[0], T, elem); ok {
			return false, "the first entries are dropped"
		}
	}
	gs := x.list(list)
	if len(x.fails) > 0 {
		return false, ""
	}
	old, gs := over(gs, T)
	if len(old) > 0 && len(gs) == 1 {
		if ok, why := m.wholeList(o, old, T); !ok {
			if why != "" {
				return false, "the old list is kept " + why
			}
			return false, ""
		}
	} else if len(gs) == 1 {
		if !m.always(o, m.in.Eq(T, m.in.Zero(T.typ)), true) && !m.always(o, m.in.Lt(m.in.Int(0), m.in.Len(T)), false) && !m.always(o, m.in.Eq(m.in.Len(T), m.in.Int(0)), true) {
			if len(gs[0].doms) == 0 && understood(gs[0].elem) {
				return false, "the old list is dropped"
			}
			return false, ""
		}
	} else {
		return false, ""
	}
	g := gs[0]
	if len(g.doms) != 0 {
		return false, ""
	}
	if m.collapse(g.elem) != m.collapse(elem) {
		if understood(g.elem) {
			return false, fmt.Sprintf("%s is appended instead of %s", g.elem, elem)
		}
		return false, ""
	}
	return true, ""
}

// always: the atom has the value in all cases of the outcome.
func (m *logFn) always(o Outcome, a *Term, val bool) bool {
	for _, pc := range o.st.pc {
		if !m.implied(pc, a, val) {
			return false
		}
	}
	return true
}

func (m *logFn) empty(t *Term) bool {
	return t.op == OConst || t.op == OSliceLit && len(t.args) == 0 || t.op == OMake && isZero(t.args[0])
}

// same: the parts of the log that must not change did not.
func (m *logFn) same(rule string, o Outcome, f map[string]*Term, names ...string) bool {
	for _, n := range names {
		init := m.initial(n)
		if init == nil || f[n] == nil {
			m.open(rule, m.name, "the field %s is not found", n)
			return false
		}
		t := f[n]
		if n == "Version" && t.op == OSorted && t.args[0] == init {
			t = init
		}
		if t != init {
			if understood(t) {
				m.bad(rule, m.name, "%s becomes %s", n, t)
			} else {
				m.open(rule, m.name, "%s becomes %s", n, t)
			}
			return false
		}
	}
	return true
}

func (m *logFn) sameMap(rule, what string, o Outcome, ref, init *Term) bool {
	c := m.mapOf(o, ref)
	if c == init {
		return true
	}
	if c.op == OInsert && c.args[0] == init || c.op == ODelete || c.op == OMake {
		m.bad(rule, m.name, "the %s become %s", what, c)
	} else {
		m.open(rule, m.name, "the %s become %s", what, c)
	}
	return false
}

func ruleL02(c *Ctx) {
	m := c.logFn("Logument.Append")
	if m == nil || !m.need(1) {
		return
	}
	pool := m.initial("PatchPool")
	if pool == nil {
		m.open("anchor", m.name, "there is no pool")
		return
	}
	next := m.in.AddK(m.lastVersion(), 1)
	has := m.in.Has(m.P, next)
	noPool := m.in.Eq(pool, m.in.Zero(pool.typ))
	some := m.in.Lt(m.in.Int(0), m.in.Len(pool))
	commits := 0
	for _, o := range m.outs {
		f := m.final(o)
		if f == nil {
			m.open("anchor", m.name, "the receiver is not a pointer")
			return
		}
		content := m.mapOf(o, m.refP)
		vsame := f["Version"] == m.V || f["Version"].op == OSorted && f["Version"].args[0] == m.V
		var err *Term
		if len(o.results) == 1 {
			err = o.results[0]
		}
		if content == m.P && vsame {
			// nothing is committed
			if !m.same("unchanged", o, f, "CurrentState", "Snapshots", "Patches") || !m.sameMap("unchanged", "stored snapshots", o, m.refS, m.S) {
				return
			}
			if f["PatchPool"] != pool && !m.always(o, noPool, true) && !m.always(o, some, false) {
				switch {
				case m.empty(f["PatchPool"]):
					m.bad("unchanged", m.name, "the pending operations are dropped without being committed")
				case understood(f["PatchPool"]):
					m.bad("unchanged", m.name, "the pool becomes %s although nothing is committed", f["PatchPool"])
				default:
					m.open("unchanged", m.name, "the pool becomes %s", f["PatchPool"])
				}
				return
			}
			m.ok("unchanged", m.name+": the log is left as it was")
			// a pool that could be committed
			for _, pc := range o.st.pc {
				s := m.lits(pc, []Lit{{noPool, false}, {some, true}, {has, false}, {m.in.Lt(m.in.Len(m.V), m.in.Int(1)), false}})
				if s == nil {
					continue
				}
				last2 := m.in.Elem(m.V, m.in.AddK(m.in.Len(m.V), -2), m.K.typ)
				grown := m.in.Eq(m.lastVersion(), m.in.AddK(last2, 1))
				// versions follow each other
				if s2 := s.with(m.in.Lt(m.in.Int(1), m.in.Len(m.V)), true); s2 != nil {
					s2 = s2.with(grown, true)
					if s2 == nil {
						if s = s.with(m.in.Lt(m.in.Int(1), m.in.Len(m.V)), false); s == nil {
							continue
						}
					}
				}
				if u := unclear(s); u != nil {
					m.open("commits", m.name, "whether pending operations are committed depends on %s", u)
				} else {
					m.bad("commits", m.name, "pending operations are not committed although there is no entry for the next version, when %s", s)
				}
				return
			}
			if err != nil {
				m.ok("commits", m.name+": only an empty pool or an occupied version is refused")
			}
			continue
		}
		commits++
		if err != nil && err.op != OConst {
			if err.op == OUnknown || strings.HasPrefix(err.String(), "error") {
				m.bad("unchanged", m.name, "the log is changed although the commit fails")
				return
			}
			m.open("unchanged", m.name, "the result is %s", err)
			return
		}
		// the entry
		if content.op == OInsert && content.args[0] == m.P {
			k, v := content.args[1], content.args[2]
			if k != next {
				if understood(k) {
					m.bad("entry", m.name, "the operations are recorded under %s instead of the version behind the latest one", k)
				} else {
					m.open("entry", m.name, "the operations are recorded under %s", k)
				}
				return
			}
			if !m.always(o, has, false) {
				m.bad("entry", m.name, "an existing entry of the version may be replaced")
				return
			}
			x := &comp{e: m.e}
			v = m.e.content(o.st, v)
			gs := x.list(v)
			switch {
			case v == pool:
			case len(x.fails) > 0:
				m.open("entry", m.name, "the recorded list %s is not recognised", v)
				return
			default:
				if ok, why := m.wholeList(o, gs, pool); !ok {
					if why != "" {
						m.bad("entry", m.name, "the pending operations are recorded %s", why)
					} else {
						m.open("entry", m.name, "the recorded list %s is not recognised", v)
					}
					return
				}
			}
			m.ok("entry", m.name+": the pending operations, in order, under the next version")
		} else if content == m.P {
			m.bad("entry", m.name, "a version is added without operations")
			return
		} else if content.op == OInsert && content.args[0].op == OInsert && content.args[0].args[0] == m.P {
			m.bad("entry", m.name, "more than one entry is written: %s", content)
			return
		} else {
			m.open("entry", m.name, "the recorded operations become %s", content)
			return
		}
		// the version
		ver := f["Version"]
		if ver.op == OSorted {
			ver = ver.args[0]
		}
		if vsame {
			m.bad("version", m.name, "the new version is not added to the version list")
			return
		}
		if ok, why := m.extended(o, ver, m.V, next); !ok {
			if why != "" {
				m.bad("version", m.name, "the version list: %s", why)
			} else {
				m.open("version", m.name, "the version list becomes %s", ver)
			}
			return
		}
		m.ok("version", m.name+": the version behind the latest one is the latest")
		// the rest
		p := f["PatchPool"]
		switch {
		case m.empty(p):
			m.ok("pool", m.name+": the pool is empty")
		case p == pool:
			m.bad("pool", m.name, "the committed operations stay pending")
			return
		case p.op == OSliceOf && p.args[0] == pool && !m.copies():
			m.bad("pool", m.name, "the emptied pool %s keeps the memory of the committed list, so later operations overwrite it", p)
			return
		default:
			m.open("pool", m.name, "the pool becomes %s", p)
			return
		}
		if !m.same("rest", o, f, "CurrentState", "Snapshots", "Patches") || !m.sameMap("rest", "stored snapshots", o, m.refS, m.S) {
			return
		}
		m.ok("rest", m.name+": snapshots and current state are unchanged")
	}
	if commits == 0 {
		if m.trouble == "" {
			m.bad("commits", m.name, "the pending operations are never committed")
		} else {
			m.open("commits", m.name, "no commit is found: %s", m.trouble)
		}
	}
}

// copies: the method copies a list somewhere.
func (m *logFn) copies() bool {
	seen := map[*ssa.Function]bool{m.fn: true}
	todo := []*ssa.Function{m.fn}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s := in.String()
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && m.c.p.inRepo(g) && !seen[g] {
						seen[g] = true
						todo = append(todo, g)
					}
				}
				if strings.Contains(s, "slices.Clone") || strings.Contains(s, "copy(") || strings.Contains(s, "append(") && strings.Contains(s, "Operation") || strings.Contains(s, "slices.Concat") {
					return true
				}
			}
		}
	}
	return false
}

func ruleL07(c *Ctx) {
	if m := c.logFn("Logument.Set", snapOpaque); m != nil && m.need(2) {
		m.setting(false)
	}
	if m := c.logFn("Logument.TestSet", snapOpaque); m != nil && m.need(2) {
		m.setting(true)
	}
}

func callOf(t *Term, suffix string, n int) bool {
	return t.op == OCall && strings.HasSuffix(t.callName(), suffix) && len(t.args) == n
}

// setting decides Set and TestSet.
func (m *logFn) setting(cond bool) {
	var op *Term
	for _, a := range m.args[1:] {
		if types.Identical(a.typ, m.opT) {
			op = a
		}
	}
	if op == nil {
		m.open("anchor", m.name, "there is no operation parameter")
		return
	}
	of := func(name string) *Term {
		st := structType(m.opT)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return m.in.Field(op, i, st.Field(i).Type())
			}
		}
		return nil
	}
	kind, path, val := of("Op"), of("Path"), of("Value")
	var isAdd, isRepl *Term
	pk := m.c.p.spkgs["internal/tsonpatch"]
	for _, n := range []string{"OpAdd", "OpReplace"} {
		var cst *types.Const
		if pk != nil {
			cst, _ = pk.Pkg.Scope().Lookup(n).(*types.Const)
		}
		if cst == nil || kind == nil || path == nil || val == nil {
			m.open("anchor", m.name, "the operation kinds are not found")
			return
		}
		a := m.in.Eq(kind, m.in.Const(kind.typ, cst.Val()))
		if n == "OpAdd" {
			isAdd = a
		} else {
			isRepl = a
		}
	}
	cs, pool := m.initial("CurrentState"), m.initial("PatchPool")
	// the calls that the specification has words for
	words := map[*Term]*Term{}
	var G *Term
	for _, o := range m.outs {
		for _, pc := range o.st.pc {
			for _, l := range pc.lits {
				l.atom.contains(func(t *Term) bool {
					if t.op == OExtract && callOf(t.args[0], "tsonpatch.ApplyOperation", 2) && t.aux == "1" && t.args[0].args[0] == cs {
						words[t] = m.in.mk(OSym, t.typ, "applyError", nil, nil)
					}
					if callOf(t, "tson.GetValue", 2) {
						if G != nil && G != t {
							G = nil
							words[nil] = t
							return true
						}
						G = t
					}
					return false
				})
			}
		}
	}
	if words[nil] != nil {
		m.open("anchor", m.name, "several values are looked up")
		return
	}
	var leaf, gerr *Term
	if G != nil && cond {
		if !m.latestState(G.args[0], pool) {
			return
		}
		if G.args[1] != path {
			if understood(G.args[1]) {
				m.bad("condition", m.name, "the value of %s is compared instead of the operation's path", G.args[1])
			} else {
				m.open("condition", m.name, "the value of %s is compared", G.args[1])
			}
			return
		}
		for i := 0; i < 2; i++ {
			for _, o := range m.outs {
				for _, pc := range o.st.pc {
					for _, l := range pc.lits {
						l.atom.contains(func(t *Term) bool {
							if t.op == OExtract && t.args[0] == G {
								if t.aux == "0" {
									leaf = t
								} else {
									gerr = t
								}
							}
							return false
						})
					}
				}
			}
		}
		if leaf == nil || gerr == nil {
			m.open("condition", m.name, "the existing value is not looked at")
			return
		}
		words[leaf] = m.in.mk(OSym, leaf.typ, "leaf", nil, nil)
		words[gerr] = m.in.mk(OSym, gerr.typ, "lookupError", nil, nil)
		for _, o := range m.outs {
			for _, pc := range o.st.pc {
				for _, l := range pc.lits {
					l.atom.contains(func(t *Term) bool {
						if t.op == OExtract && t.aux == "1" && callOf(t.args[0], "tsonpatch.ApplyPatch", 2) {
							words[t] = m.in.mk(OSym, t.typ, "pendingError", nil, nil)
						}
						return false
					})
				}
			}
		}
	}
	x := &comp{e: m.e}
	word := func(c *Conj) *Conj { return x.substConj(c, words) }
	noErr := func(call *Term) *Term {
		e := m.in.Extract(call, 1, types.Universe.Lookup("error").Type())
		return m.in.Eq(e, m.in.Zero(e.typ))
	}
	// the cases of an equal value
	var equal []*Conj
	if leaf != nil {
		equal = m.equalCells(leaf, val)
		if equal == nil {
			m.open("anchor", m.name, "the leaf types are not found")
			return
		}
	}
	found := func() *Term { return m.in.Eq(gerr, m.in.Zero(gerr.typ)) }
	sets := 0
	for _, o := range m.outs {
		f := m.final(o)
		if f == nil {
			m.open("anchor", m.name, "the receiver is not a pointer")
			return
		}
		if !m.same("rest", o, f, "Version", "Snapshots", "Patches") || !m.sameMap("rest", "stored snapshots", o, m.refS, m.S) || !m.sameMap("rest", "recorded operations", o, m.refP, m.P) {
			return
		}
		ncs, npool := f["CurrentState"], f["PatchPool"]
		if ncs == cs && npool == pool {
			// ignored
			for _, pc := range o.st.pc {
				for _, k := range []*Term{isAdd, isRepl} {
					s := pc.with(k, true)
					if s == nil {
						continue
					}
					what := "an add operation"
					if k == isRepl {
						what = "a replace operation"
					}
					failed := false
					for t, w := range words {
						if w.aux == "applyError" {
							if v, known := s.decide(m.in.Eq(t, m.in.Zero(t.typ))); known && !v {
								failed = true
							}
						}
					}
					if failed {
						continue
					}
					if cond && k == isRepl && leaf != nil {
						t := s.with(found(), true)
						if t != nil {
							t = uncovered(t, equal)
						}
						if t == nil && s.with(found(), false) == nil {
							continue
						}
						if t == nil {
							t = s
						}
						if d := tolerance(word(t)); d != nil {
							m.bad("ignored", m.name, "%s is ignored although the value may differ: only their distance is compared, %s", what, d)
						} else if u := unclear(word(t)); u != nil {
							m.open("ignored", m.name, "whether %s is ignored depends on %s", what, u)
						} else {
							m.bad("ignored", m.name, "%s is ignored although the value differs or is missing, when %s", what, word(t))
						}
						return
					}
					if u := unclear(word(s)); u != nil {
						m.open("ignored", m.name, "whether %s is ignored depends on %s", what, u)
					} else {
						m.bad("ignored", m.name, "%s is ignored, when %s", what, word(s))
					}
					return
				}
			}
			m.ok("ignored", fmt.Sprintf("%s: %d cases without an effect", m.name, len(o.st.pc)))
			continue
		}
		// set
		if ncs == cs {
			m.bad("both", m.name, "the operation is recorded without being applied to the current state")
			return
		}
		if npool == pool {
			m.bad("both", m.name, "the operation is applied to the current state without being recorded")
			return
		}
		var call *Term
		if ncs.op == OExtract && ncs.aux == "0" {
			call = ncs.args[0]
		}
		if call == nil || !callOf(call, "tsonpatch.ApplyOperation", 2) && !callOf(call, "tsonpatch.ApplyPatch", 2) {
			m.open("both", m.name, "the current state becomes %s", ncs)
			return
		}
		if call.args[0] != cs {
			m.bad("both", m.name, "the operation is applied to %s instead of the current state", call.args[0])
			return
		}
		applied := call.args[1]
		if callOf(call, "tsonpatch.ApplyPatch", 2) {
			if applied.op != OSliceLit || len(applied.args) != 1 {
				m.open("both", m.name, "the current state becomes %s", ncs)
				return
			}
			applied = applied.args[0]
		}
		applied = m.collapse(applied)
		ok, why := m.extended(o, npool, pool, applied)
		if !ok {
			if why != "" {
				m.bad("both", m.name, "the pool: %s", why)
			} else {
				m.open("both", m.name, "the pool becomes %s", npool)
			}
			return
		}
		if !m.always(o, noErr(call), true) {
			m.bad("both", m.name, "the operation is recorded although applying it may have failed")
			return
		}
		// what is set
		asAdd := m.in.mk(OStruct, m.opT, "", nil, nil, m.in.Const(kind.typ, constOf(isAdd)), path, val, of("Timestamp"))
		isOp := applied == op
		if !isOp && !(cond && applied == asAdd) {
			if understood(applied) {
				m.bad("operation", m.name, "%s is set instead of the given operation", applied)
			} else {
				m.open("operation", m.name, "%s is set", applied)
			}
			return
		}
		for _, pc := range o.st.pc {
			s := m.lits(pc, []Lit{{isAdd, false}, {isRepl, false}})
			if s != nil {
				if u := unclear(word(s)); u != nil {
					m.open("ignored", m.name, "whether other operations are ignored depends on %s", u)
				} else {
					m.bad("ignored", m.name, "an operation that is neither add nor replace is set")
				}
				return
			}
			if !cond {
				continue
			}
			if s = m.lits(pc, []Lit{{isRepl, true}}); s == nil {
				continue
			}
			if leaf == nil {
				if u := unclear(word(s)); u != nil {
					m.open("condition", m.name, "whether a replace sets depends on %s", u)
				} else {
					m.bad("condition", m.name, "a replace operation sets without looking at the latest value")
				}
				return
			}
			if isOp {
				if t := s.with(found(), false); t != nil {
					if u := unclear(word(t)); u != nil {
						m.open("condition", m.name, "which operation is recorded depends on %s", u)
					} else {
						m.bad("condition", m.name, "a missing value is not set by adding")
					}
					return
				}
				for _, e := range equal {
					if t := x.and(s, e); t != nil {
						if u := unclear(word(t)); u != nil {
							m.open("condition", m.name, "whether an equal value is set depends on %s", u)
						} else {
							m.bad("condition", m.name, "a value is set although the latest state has an equal one, when %s", word(e))
						}
						return
					}
				}
			} else if t := s.with(found(), true); t != nil {
				if u := unclear(word(t)); u != nil {
					m.open("condition", m.name, "which operation is recorded depends on %s", u)
				} else {
					m.bad("condition", m.name, "an existing value is set by adding")
				}
				return
			}
		}
		sets++
		m.ok("both", m.name+": applied to the current state and appended to the pool")
		m.ok("operation", m.name+": "+clip(applied.String(), 80))
		if cond {
			m.ok("condition", m.name+": set exactly when the latest state differs")
		}
	}
	if sets == 0 {
		m.open("both", m.name, "no case sets a value")
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// latestState: the document is the snapshot of the last version with the
// pending operations.
func (m *logFn) latestState(d, pool *Term) bool {
	rule := "latest-state"
	snap := func(t *Term) bool {
		return t.op == OExtract && callOf(t.args[0], snapOpaque, 2)
	}
	base := d
	if d.op == OExtract && callOf(d.args[0], "tsonpatch.ApplyPatch", 2) {
		base = d.args[0].args[0]
		if d.args[0].args[1] != pool {
			m.open(rule, m.name, "%s is applied to the latest snapshot", d.args[0].args[1])
			return false
		}
	} else {
		switch {
		case m.isField(d, "CurrentState"):
			m.bad(rule, m.name, "the value is compared with the current state, which lacks operations that were stored")
		case snap(d):
			m.bad(rule, m.name, "the value is compared with a snapshot, without the pending operations")
		default:
			m.open(rule, m.name, "the value is looked up in %s", d)
		}
		return false
	}
	if !snap(base) || base.args[0].args[0] != m.lgm {
		if m.isField(base, "CurrentState") {
			m.bad(rule, m.name, "the pending operations are applied to the current state, which has some of them already")
		} else {
			m.open(rule, m.name, "the pending operations are applied to %s", base)
		}
		return false
	}
	if v := base.args[0].args[1]; v != m.lastVersion() {
		if understood(v) {
			m.bad(rule, m.name, "the value is compared with version %s instead of the latest one", v)
		} else {
			m.open(rule, m.name, "the value is compared with version %s", v)
		}
		return false
	}
	m.ok(rule, m.name+": the latest version with the pending operations")
	return true
}

func constOf(eq *Term) constant.Value {
	for _, a := range eq.args {
		if a.op == OConst {
			return a.cv
		}
	}
	return nil
}

// equalCells: the cases in which the leaf has the value.
func (m *logFn) equalCells(leaf, val *Term) (out []*Conj) {
	for _, k := range leafKinds() {
		st := structType(k)
		vi := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Value" {
				vi = i
			}
		}
		bt := st.Field(vi).Type()
		lv := m.in.Field(m.in.Unbox(leaf, k), vi, bt)
		cell := func(T types.Type) {
			v := m.in.Unbox(val, T)
			if !types.Identical(T, bt) {
				v = m.e.convert(v, T, bt)
			}
			c := m.lits(m.in.newConj(nil), []Lit{{m.in.TypeIs(leaf, k), true}, {m.in.TypeIs(val, T), true}, {m.in.Eq(lv, v), true}})
			if c != nil {
				out = append(out, c)
			}
		}
		cell(bt)
		if b, ok := bt.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			cell(tInt)
		}
	}
	return out
}

// leafKinds are the leaf types that the program uses.
func leafKinds() (out []types.Type) {
	closedKinds.Iterate(func(_ types.Type, v any) {
		for _, k := range v.([]types.Type) {
			st := structType(k)
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && st.Field(i).Name() == "Value" {
					out = append(out, k)
				}
			}
		}
	})
	return out
}

// storeOrder: all given operations are appended behind the pending ones.
func storeOrder(c *Ctx, _ *ssa.Function) {
	m := c.logFn("Logument.Store")
	if m == nil || !m.need(2) {
		return
	}
	rule := "appended-in-order"
	pool, in := m.initial("PatchPool"), m.args[1]
	if pool == nil || !isIface(in.typ) {
		m.open(rule, m.name, "the parameters are not the expected ones")
		return
	}
	noPool := m.in.Eq(pool, m.in.Zero(pool.typ))
	some := m.in.Lt(m.in.Int(0), m.in.Len(pool))
	forms := map[string]bool{}
	for _, o := range m.outs {
		f := m.final(o)
		if f == nil {
			m.open(rule, m.name, "the receiver is not a pointer")
			return
		}
		if !m.same("rest", o, f, "Version", "CurrentState", "Snapshots", "Patches") || !m.sameMap("rest", "stored snapshots", o, m.refS, m.S) || !m.sameMap("rest", "recorded operations", o, m.refP, m.P) {
			return
		}
		var form types.Type
		for _, pc := range o.st.pc {
			for _, l := range pc.lits {
				if l.val && l.atom.op == OTypeIs && l.atom.args[0] == in {
					T := l.atom.obj.(types.Type)
					if form != nil && !types.Identical(form, T) {
						m.open(rule, m.name, "several forms are handled together")
						return
					}
					form = T
				}
			}
		}
		x := &comp{e: m.e}
		gs := x.list(f["PatchPool"])
		if len(x.fails) > 0 {
			if why := unlisted(m.in, f["PatchPool"]); why != "" {
				m.bad(rule, m.name, "the operations given with %s", why)
				return
			}
			m.open(rule, m.name, "the pool %s is not recognised: %s", f["PatchPool"], x.fails[0])
			return
		}
		if form == nil {
			if m.always(o, m.in.Eq(in, m.in.Zero(in.typ)), true) && f["PatchPool"] == pool {
				continue // nothing was given
			}
			m.open(rule, m.name, "the form of the operations is not known")
			return
		}
		what := types.TypeString(form, func(p *types.Package) string { return p.Name() })
		v := m.in.Unbox(in, form)
		// the pending ones
		hadNone := m.always(o, noPool, true) || m.always(o, some, false)
		old, gs := over(gs, pool)
		if len(old) > 0 {
			if ok, why := m.wholeList(o, old, pool); ok {
				hadNone = true
			} else if why != "" {
				m.bad(rule, what, "the operations already pending are kept %s", why)
				return
			} else {
				m.open(rule, what, "the pool becomes %s", f["PatchPool"])
				return
			}
		}
		for _, g := range gs {
			if g.elem.contains(func(t *Term) bool { return t == pool }) {
				m.bad(rule, what, "the operations are not put behind those already pending")
				return
			}
		}
		if !hadNone {
			m.bad(rule, what, "the operations already pending are dropped")
			return
		}
		given, why := m.given(o, gs, v, form)
		if !given {
			if why != "" {
				m.bad(rule, what, "the given operations are stored %s", why)
			} else {
				m.open(rule, what, "the pool becomes %s", f["PatchPool"])
			}
			return
		}
		forms[what] = true
		m.ok(rule, what+": all of them, in order, behind the pending ones")
	}
	if len(forms) == 0 {
		m.open(rule, m.name, "no form is accepted")
	}
}

// unlisted: the list is made by a loop that drops what it has collected, or
// puts it behind what it adds.
func unlisted(in *Interner, list *Term) (why string) {
	list.contains(func(t *Term) bool {
		L, _, next := carried(in, t)
		if L == nil || t.typ == nil || list.typ == nil || !types.Identical(under(t.typ), under(list.typ)) {
			return false
		}
		has := func(n *Term) bool { return n.contains(func(s *Term) bool { return s == t }) }
		for _, c := range L.conts {
			n := next(c)
			odd := n.contains(func(s *Term) bool { return s.op == OUnknown })
			switch {
			case !has(n) && !odd:
				why = "the previous lists are dropped when another list is added"
			case n.op == OAppend && !has(n.args[0]) && has(n.args[1]):
				why = "a list are stored in front of those of the previous lists"
			}
		}
		return why != ""
	})
	return
}

// given: the generators list the operations of v in their order.
func (m *logFn) given(o Outcome, gs []*Gen, v *Term, form types.Type) (bool, string) {
	if len(gs) == 0 {
		return false, "not at all"
	}
	g := gs[0]
	if types.Identical(form, m.opT) {
		return len(gs) == 1 && len(g.doms) == 0 && m.collapse(g.elem) == v, ""
	}
	isText := isString(form)
	sl, ok := form.Underlying().(*types.Slice)
	if ok {
		if b, k := sl.Elem().Underlying().(*types.Basic); k && b.Kind() == types.Byte {
			isText = true
		}
	}
	if isText {
		if len(g.doms) != 1 || g.doms[0].kind != "index" {
			return false, ""
		}
		src := g.doms[0].of
		if src.op == OSliceOf {
			if why := m.cut(o, src); why != "" {
				return false, why
			}
		}
		if src.op == OExtract && src.args[0].op == OCall && len(src.args[0].args) > 0 && understood(src.args[0].args[0]) && !src.contains(func(t *Term) bool { return t == v }) {
			return false, fmt.Sprintf("as read from %s", clip(src.args[0].args[0].String(), 80))
		}
		if src.op != OUnknown && src.op != OSym && src.op != OExtract || !strings.Contains(src.String(), "Unmarshal") {
			return false, ""
		}
		return m.wholeList(o, gs, src)
	}
	if !ok {
		return false, ""
	}
	if len(g.doms) == 1 && g.doms[0].of.op == OSliceOf && g.doms[0].of.args[0] == v {
		return false, m.cut(o, g.doms[0].of)
	}
	return m.wholeList(o, gs, v)
}

// cut: the part s of a list of any length leaves some of its elements out.
func (m *logFn) cut(o Outcome, s *Term) string {
	n := m.in.Len(s.args[0])
	if lo, ok := s.args[1].constInt(); ok && lo > 0 {
		return fmt.Sprintf("without the first %d", lo)
	}
	hi, ok := s.args[2].constInt()
	if !ok {
		if t, k := splitAddK(s.args[2]); t == n && k < 0 {
			return fmt.Sprintf("without the last %d", -k)
		}
		return ""
	}
	for _, pc := range o.st.pc {
		if m.lits(pc, []Lit{{m.in.Lt(m.in.Int(hi), n), true}}) != nil {
			return fmt.Sprintf("only up to number %d", hi)
		}
	}
	return ""
}

// cacheKeys: queries store snapshots only under the version that they are of.
func cacheKeys(c *Ctx) {
	if m := c.logFn("Logument.Snapshot"); m != nil && m.need(2) {
		n := len(c.findings)
		m.snapshotCache()
		if len(c.findings) > n {
			return
		}
	}
	for _, n := range []string{"TemporalSnapshot", "Slice", "TemporalSlice", "Track", "TemporalTrack", "History"} {
		m := c.logFn("Logument."+n, snapOpaque)
		if m == nil || len(m.outs) == 0 {
			continue
		}
		good := true
		for _, o := range m.outs {
			content := m.mapOf(o, m.refS)
			for content.op == OInsert && good {
				k, v := content.args[1], content.args[2]
				if v.op == OExtract && callOf(v.args[0], snapOpaque, 2) && v.args[0].args[1] == k {
					content = content.args[0]
					continue
				}
				good = false
				if v.op == OExtract && callOf(v.args[0], snapOpaque, 2) {
					m.bad("cache-key", m.name, "the snapshot of version %s is stored under %s", v.args[0].args[1], k)
				} else {
					m.bad("cache-key", m.name, "%s is stored as the snapshot of version %s", clip(v.String(), 120), k)
				}
			}
			if good && content != m.S {
				good = false
				m.open("cache-key", m.name, "the stored snapshots %s are not recognised", clip(content.String(), 120))
			}
		}
		if good {
			m.ok("cache-key", m.name+": stores no snapshot by itself")
		}
	}
}

func init() {
	register(&Rule{id: "L02", run: ruleL02, explanation: "abstract interpretation of the commit: in every outcome either nothing changes (and then the pool is empty, or the next version has an entry already), or exactly the pool becomes the entry of the version behind the latest one, which is appended to the version list, and the pool is emptied", assumptions: []string{"version numbers do not overflow", "the version list of a log is ascending without gaps"}})
	register(&Rule{id: "L07", run: ruleL07, explanation: "abstract interpretation of setting: in every outcome the operation is applied to the current state and appended to the pool, or neither; the decision cells of the conditional variant (kind of operation, lookup error, leaf kind and value kind, equality) are compared with the specified ones", assumptions: []string{"documents have leaves of strings, numbers and booleans only", "applying and looking up are decided by P01-P06 and T06"}})
}

// tolerance: a condition that lets two numbers differ by less than a positive bound.
func tolerance(s *Conj) *Term {
	var distance func(t *Term) bool
	distance = func(t *Term) bool {
		if t.op == OBin && t.aux == "-" {
			return true
		}
		for _, a := range t.args {
			if a != nil && (t.op == OCall || t.op == OExtract) && distance(a) {
				return true
			}
		}
		return false
	}
	for _, l := range s.lits {
		if l.atom.op != OLt {
			continue
		}
		a, b := l.atom.args[0], l.atom.args[1]
		if !l.val {
			a, b = b, a
		}
		if b.op == OConst && b.cv != nil && b.cv.Kind() != constant.String && b.cv.Kind() != constant.Bool && constant.Sign(b.cv) > 0 && distance(a) {
			return l.atom
		}
	}
	return nil
}
