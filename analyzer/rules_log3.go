package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	logAssume := []string{
		"recorded versions are in the version list and later than its first version (established by L02, L08)",
		"the version list is in ascending order without gaps when a query starts (L02, L08)",
		"the document and patch packages' functions are pure functions of their arguments (P01, T05)",
		"counters do not overflow",
	}
	register(&Rule{id: "L04",
		explanation: "Abstract interpretation of the version queries. The result's map is reduced to generators {key -> operation | iteration domains, path condition}; each generator's condition must imply first <= version <= last under key = version, and the generators' conditions together must cover every recorded operation (snapshot, version) of that range; decided by linear order and equality reasoning over normalised terms.",
		assumptions: logAssume, run: ruleL04})
	register(&Rule{id: "L05",
		explanation: "Abstract interpretation of the time queries, as for L04, with the window over the operation's own timestamp and the key equal to the recorded version; for the temporal snapshot the list of applied operations is compared with the window behind the snapshot it starts from, stably ordered by timestamp.",
		assumptions: logAssume, run: ruleL05})
	register(&Rule{id: "L06",
		explanation: "Abstract interpretation of the four reductions: the conditions under which operations are kept must cover, and lie within, 'first of its path or value differs from the remembered one'; the remembered value is a map from paths carried through all versions in ascending order, starts empty, is set exactly when an operation is kept and is untouched by operations outside of the range.",
		assumptions: logAssume, run: ruleL06})
	register(&Rule{id: "L08",
		explanation: "Abstract interpretation of the slicing functions: the fields of the returned log are compared with the required ones (pool nil, current state the snapshot of the last version, a snapshot at the first version, a version list that is a contiguous ascending range); points-to analysis shows that maps and lists of the slice are its own where queries write to them.",
		assumptions: logAssume, run: ruleL08})
	register(&Rule{id: "L11",
		explanation: "Abstract interpretation of the history: the result's generators must group the kept operations of the requested scope by their path, each list sorted stably by timestamp, with the initial value at time 0 in front exactly when the first version has a value at the path; the scope predicate must compare whole decoded segments.",
		assumptions: logAssume, run: ruleL11})
	register(&Rule{id: "L03",
		explanation: "Abstract interpretation of the snapshot query: the returned document is reduced to a fold of patch applications over its start document; the folded versions must be exactly those behind the start version up to the requested one in ascending order, the start must be the greatest stored snapshot that is not newer, and every snapshot that is stored must be the result under the requested version in a place where none was.",
		assumptions: logAssume, run: ruleL03})
}

const snapOpaque = "Logument).Snapshot"

// fields returns the fields of the log that the outcome returns.
func (m *logFn) fields(o Outcome) map[string]*Term {
	if len(o.results) != 1 {
		return nil
	}
	v := o.results[0]
	if T := ptrElem(v.typ); T != nil && v.op == OAlloc {
		v = m.e.load(o.st, v, T)
	}
	if v.op != OStruct {
		return nil
	}
	st := structType(v.typ)
	out := map[string]*Term{}
	for i, a := range v.args {
		out[st.Field(i).Name()] = a
	}
	return out
}

// mapOf: the content of the map that the reference names.
func (m *logFn) mapOf(o Outcome, ref *Term) *Term { return m.e.mapContent(o.st, ref) }

func (m *logFn) versionWindow() []Lit {
	vi, vj := m.args[1], m.args[2]
	return []Lit{{m.in.Lt(m.K, vi), false}, {m.in.Lt(vj, m.K), false}}
}

func (m *logFn) timeWindow() []Lit {
	ts := m.opField("Timestamp")
	return []Lit{{m.in.Lt(ts, m.args[1]), false}, {m.in.Lt(m.args[2], ts), false}}
}

func (m *logFn) need(n int) bool {
	if len(m.args) < n {
		m.open("anchor", m.name, "the parameters are not the expected ones")
		return false
	}
	if len(m.outs) == 0 {
		m.open("anchor", m.name, "the function never returns normally")
		return false
	}
	return true
}

func ruleL04(c *Ctx) {
	if m := c.logFn("Logument.Track", snapOpaque); m != nil && m.need(3) {
		for _, o := range m.outs {
			x := &comp{e: m.e}
			ops := m.opsOf(x, m.mapOf(o, o.results[0]))
			m.windowOf("version-window", o, ops, m.versionWindow(), m.K, x.fails)
		}
	}
	if m := c.logFn("Logument.Slice", snapOpaque); m != nil && m.need(3) {
		for _, o := range m.outs {
			f := m.fields(o)
			if f == nil || f["Patches"] == nil || f["Snapshots"] == nil || f["Version"] == nil {
				m.open("anchor", m.name, "the returned log is not built here")
				continue
			}
			x := &comp{e: m.e}
			ops := m.opsOf(x, m.mapOf(o, f["Patches"]))
			m.noDedupe("version-window", ops)
			m.windowOf("version-window", o, ops, m.versionWindow(), m.K, x.fails)
			m.snapshotWindow(o, f)
			m.versionList(o, f)
		}
	}
}

// noDedupe: nothing may be left out for its value.
func (m *logFn) noDedupe(rule string, ops []*opGen) {
	for _, og := range ops {
		if og.why == "" && og.wrong == "" {
			if d := m.dedupeOf(og); d.has != nil || d.same != nil {
				m.bad(rule, m.name+" unchanged", "operations are left out depending on an earlier value")
			}
		}
	}
}

// given: the literals of the outcome itself.
func given(o Outcome) (out []*Term) {
	for _, c := range o.st.pc {
		for _, l := range c.lits {
			out = append(out, l.atom)
		}
	}
	return
}

// snapshotWindow: the slice has the stored snapshots of the range, and one for its start.
func (m *logFn) snapshotWindow(o Outcome, f map[string]*Term) {
	rule := "snapshot-window"
	x := &comp{e: m.e}
	content := m.mapOf(o, f["Snapshots"])
	gs := x.maps(content)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the snapshots are collected in a way that is not recognised: %s", x.fails[0])
		return
	}
	spec := m.versionWindow()
	ign := given(o)
	var covers []*Conj
	for _, g := range gs {
		el := g.elem
		k := g.key
		if el.op == OLookup && el.args[0] == m.S && el.args[1] == k && (k.op == OSym || k.op == OElem && k.args[0] == m.V && k.args[1].op == OSym) {
			s := map[*Term]*Term{k: m.K}
			pc := m.in.newConj(nil)
			for _, l := range g.pc.lits {
				a := m.in.subst(l.atom, s)
				if k.op == OElem && a.contains(func(t *Term) bool { return t == k.args[1] }) {
					continue
				}
				if n := pc.with(a, l.val); n != nil {
					pc = n
				}
			}
			if l, ok := implies(pc, spec); !ok {
				if u := unclear(pc, ign...); u != nil {
					m.open(rule, m.name, "whether %s holds for a snapshot depends on %s", l, u)
				} else {
					m.bad(rule, m.name, "a snapshot is included although %s does not hold: when %s", l, pc)
				}
				return
			}
			for _, d := range g.doms {
				for _, e := range d.early {
					r := (&comp{e: m.e}).substConj(e, s)
					if r == nil {
						continue
					}
					k2 := m.in.mk(OSym, m.K.typ, "$L", nil, nil)
					q := (&comp{e: m.e}).substConj(r, map[*Term]*Term{m.K: k2})
					if q != nil && d.order == "asc" {
						q = q.with(m.in.Lt(m.K, k2), false)
					}
					if q != nil {
						q = m.lits(q, spec)
					}
					if q != nil {
						if u := unclear(r, ign...); u != nil {
							m.open(rule, m.name, "the snapshots may end early, depending on %s", u)
						} else {
							m.bad(rule, m.name, "the snapshots end early, when %s", r)
						}
						return
					}
				}
			}
			covers = append(covers, pc)
			continue
		}
		if m.isSnapshotOf(el, k) {
			if k != m.args[1] {
				if understood(k) {
					m.bad(rule, m.name, "a snapshot is added at %s instead of the first version", k)
				} else {
					m.open(rule, m.name, "a snapshot is added at %s", k)
				}
				return
			}
			continue
		}
		if understoodDollar(el) && understoodDollar(k) && (el.op == OLookup && el.args[0] == m.S || el.op == OExtract) {
			m.bad(rule, m.name, "the snapshot stored under %s is %s", k, el)
		} else {
			m.open(rule, m.name, "the snapshot stored under %s is %s", k, el)
		}
		return
	}
	for _, opc := range o.st.pc {
		s := opc.with(m.in.Has(m.S, m.K), true)
		if s != nil {
			s = m.lits(s, spec)
		}
		if s == nil {
			continue
		}
		if u := uncovered(s, covers); u != nil {
			if t := unclear(u, ign...); t != nil {
				m.open(rule, m.name, "whether all snapshots are included depends on %s", t)
			} else {
				m.bad(rule, m.name, "a stored snapshot of the range is left out, when %s", u)
			}
			return
		}
	}
	m.ok(rule, m.name+": exactly the snapshots of the range")
}

// isSnapshotOf: t is the snapshot of version k.
func (m *logFn) isSnapshotOf(t, k *Term) bool {
	if t.op != OExtract || t.args[0].op != OCall || !strings.HasSuffix(t.args[0].callName(), snapOpaque) {
		return false
	}
	a := t.args[0].args
	return len(a) == 2 && a[1] == k
}

// versionList: the versions of the slice are those of the range.
func (m *logFn) versionList(o Outcome, f map[string]*Term) {
	rule := "version-list"
	x := &comp{e: m.e}
	gs := x.list(f["Version"])
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the versions are collected in a way that is not recognised: %s", x.fails[0])
		return
	}
	vi, vj := m.args[1], m.args[2]
	if m.versionFilter(o, gs, vi, vj) {
		return
	}
	if len(gs) == 1 && len(gs[0].doms) == 1 {
		g := gs[0]
		d := g.doms[0]
		if d.kind == "num" && g.elem == d.v {
			if d.lo == vi && d.hi == vj && d.order == "asc" {
				m.ok(rule, m.name+": versions vi..vj")
				return
			}
			if understood(d.lo) && understood(d.hi) {
				m.bad(rule, m.name, "the versions are %s..%s (%s)", d.lo, d.hi, d.order)
				return
			}
		}
		// the recorded versions without the initial one
		if g.elem == d.v && d.kind == "keys" && d.of == m.P {
			m.bad(rule, m.name, "the versions are taken from the patches: a version without a patch, such as the initial one, is missing")
			return
		}
	}
	// V[a:b]
	m.open(rule, m.name, "the version list %s is not recognised", f["Version"])
}

// versionFilter: the listed versions are those of the version list that lie in
// the window. It reports whether it has decided.
func (m *logFn) versionFilter(o Outcome, gs []*Gen, vi, vj *Term) bool {
	rule := "version-list"
	ign := given(o)
	var pcs []*Conj
	for _, g := range gs {
		if len(g.doms) != 1 || g.elem.op != OElem || g.elem.args[0] != m.V || g.elem.args[1] != g.doms[0].v || g.doms[0].loop != gs[0].doms[0].loop || g.sort != nil {
			return false
		}
		pc := m.in.newConj(nil)
		j := g.doms[0].v
		for _, l := range g.pc.lits {
			a := m.in.subst(l.atom, map[*Term]*Term{g.elem: m.K})
			if a.contains(func(t *Term) bool { return t == j }) && (a.op == OLt || a.op == OEq) && !a.contains(func(t *Term) bool { return t == m.K }) {
				// bounds of the index
				if l.val && a.op == OLt && a.args[0] == j && a.args[1] == m.in.Len(m.V) || !l.val && a.op == OLt && a.args[0] == j {
					continue
				}
			}
			if n := pc.with(a, l.val); n != nil {
				pc = n
			}
		}
		spec := m.versionWindow()
		if l, ok := implies(pc, spec); !ok && m.lits(pc, []Lit{{l.atom, !l.val}}) != nil {
			if u := unclear(pc, ign...); u != nil {
				m.open(rule, m.name, "whether %s holds for a version depends on %s", l, u)
			} else {
				m.bad(rule, m.name, "a version is listed although %s does not hold: when %s", l, pc)
			}
			return true
		}
		for _, b := range pcs {
			if both := m.lits(pc, b.lits); both != nil {
				if u := unclear(both, ign...); u != nil {
					m.open(rule, m.name, "whether a version is listed twice depends on %s", u)
				} else {
					m.bad(rule, m.name, "a version is listed twice, when %s", both)
				}
				return true
			}
		}
		pcs = append(pcs, pc)
	}
	if len(pcs) == 0 {
		return false
	}
	spec := m.versionWindow()
	for _, opc := range o.st.pc {
		s := m.lits(opc, spec)
		if s == nil {
			continue
		}
		if u := uncovered(s, pcs); u != nil {
			if t := unclear(u, ign...); t != nil {
				m.open(rule, m.name, "whether all versions are listed depends on %s", t)
			} else {
				m.bad(rule, m.name, "a version of the range is not listed, when %s", u)
			}
			return true
		}
	}
	for _, g := range gs {
		d := g.doms[0]
		if d.order != "asc" {
			m.open(rule, m.name, "the version list is in order %s", d.order)
			return true
		}
		for _, e := range d.early {
			// the list is ascending: nothing of the range may follow
			k2 := m.in.mk(OSym, m.K.typ, "$L", nil, nil)
			q := (&comp{e: m.e}).substConj(e, map[*Term]*Term{g.elem: k2})
			if q != nil {
				q = q.with(m.in.Lt(m.K, k2), false)
			}
			if q != nil {
				q = m.lits(q, spec)
			}
			if q != nil {
				m.open(rule, m.name, "the version list may end early: %s", e)
				return true
			}
		}
	}
	m.ok(rule, m.name+": exactly the versions of the range")
	return true
}

func ruleL05(c *Ctx) {
	if m := c.logFn("Logument.TemporalTrack", snapOpaque); m != nil && m.need(3) {
		for _, o := range m.outs {
			x := &comp{e: m.e}
			ops := m.opsOf(x, m.mapOf(o, o.results[0]))
			m.windowOf("time-window", o, ops, m.timeWindow(), m.K, x.fails)
		}
	}
	if m := c.logFn("Logument.TemporalSlice", snapOpaque); m != nil && m.need(3) {
		for _, o := range m.outs {
			f := m.fields(o)
			if f == nil || f["Patches"] == nil {
				m.open("anchor", m.name, "the returned log is not built here")
				continue
			}
			x := &comp{e: m.e}
			ops := m.opsOf(x, m.mapOf(o, f["Patches"]))
			m.noDedupe("time-window", ops)
			m.windowOf("time-window", o, ops, m.timeWindow(), m.K, x.fails)
		}
	}
	if m := c.logFn("Logument.TemporalSnapshot", snapOpaque); m != nil && m.need(2) {
		for _, o := range m.outs {
			m.temporalSnapshot(o)
		}
	}
}

// applied returns the operations that make t from a stored snapshot.
func (m *logFn) applied(x *comp, t *Term) (base *Term, ops []*opGen) {
	base, gs := x.fold(t)
	for _, g := range gs {
		if g.app {
			ops = append(ops, m.canon(g))
			continue
		}
		for _, h := range x.flat(g) {
			ops = append(ops, m.canon(h))
		}
	}
	return
}

func (m *logFn) temporalSnapshot(o Outcome) {
	rule := "time-replay"
	if len(o.results) != 1 {
		return
	}
	x := &comp{e: m.e}
	ts := m.opField("Timestamp")
	tsk := m.args[1]
	base, gs := x.fold(o.results[0])
	if base.op != OLookup || base.args[0] != m.S {
		if base.op == OField && m.isField(base, "CurrentState") {
			m.bad(rule, m.name, "the result starts from the current state instead of a stored snapshot")
		} else {
			m.open(rule, m.name, "the result does not start from a stored snapshot but from %s", base)
		}
		return
	}
	B := base.args[1]
	var ops []*opGen
	var pool []*Gen
	for _, g := range gs {
		var fl []*Gen
		if g.app {
			fl = []*Gen{g}
		} else {
			fl = x.flat(g)
		}
		for _, h := range fl {
			if h.elem.op == OElem && m.isField(h.elem.args[0], "PatchPool") {
				pool = append(pool, h)
				continue
			}
			ops = append(ops, m.canon(h))
		}
	}
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the applied operations are collected in a way that is not recognised: %s", x.fails[0])
		return
	}
	spec := []Lit{{m.in.Lt(B, m.K), true}, {m.in.Lt(tsk, ts), false}}
	n0 := len(m.c.findings) + len(m.c.open)
	m.windowCase(rule, o, ops, spec, given(o), []*Term{B})
	if len(m.c.findings)+len(m.c.open) > n0 {
		return
	}
	for _, og := range ops {
		s := og.g.sort
		if s == nil {
			if len(og.g.doms) > 0 {
				m.bad(rule, m.name+" order", "the operations are not ordered by time")
			}
			return
		}
		m.timeSorted(rule, og.g.sort)
	}
	// the pending operations, when they were committed on the way
	committed := false
	if c, ok := o.st.heap[m.refP]; ok && c != m.P {
		committed = true
	}
	if committed {
		for _, g := range pool {
			pts := m.in.Field(g.elem, m.fieldIndex("Timestamp"), ts.typ)
			if l, ok := implies(g.pc, []Lit{{m.in.Lt(tsk, pts), false}}); !ok {
				m.bad(rule, m.name+" pending", "a pending operation is applied although %s does not hold", l)
				return
			}
		}
		if len(pool) == 0 {
			m.bad(rule, m.name+" pending", "the committed operations are not applied")
			return
		}
		m.ok(rule, m.name+": pending operations up to the time")
	}
}

func (m *logFn) fieldIndex(name string) int {
	st := structType(m.opT)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (m *logFn) isField(t *Term, name string) bool {
	if t.op != OField || t.args[0].op != ODeref || t.args[0].args[0] != m.lgm {
		return false
	}
	var i int
	fmt.Sscan(t.aux, &i)
	return i < m.st.NumFields() && m.st.Field(i).Name() == name
}

// timeSorted: a stable order by ascending timestamp.
func (m *logFn) timeSorted(rule string, s *SortInfo) bool {
	if s.key == nil {
		m.open(rule, m.name+" order", "the order %s is not recognised", s.kind)
		return false
	}
	isTs := s.key.op == OField && s.key.args[0].op == OSym && s.key.aux == fmt.Sprint(m.fieldIndex("Timestamp"))
	switch {
	case !isTs && understoodDollar(s.key):
		m.bad(rule, m.name+" order", "the operations are ordered by %s", s.key)
	case !isTs:
		m.open(rule, m.name+" order", "the operations are ordered by %s", s.key)
	case s.desc:
		m.bad(rule, m.name+" order", "the operations are ordered by descending time")
	case !s.stable:
		m.bad(rule, m.name+" order", "operations with equal timestamps do not keep their recorded order: the sort is not stable")
	default:
		m.ok(rule, m.name+": stable order by ascending timestamp")
		return true
	}
	return false
}

// windowCase is windowOf for operations that are applied: no keys, and the
// versions are all recorded ones.
func (m *logFn) windowCase(rule string, o Outcome, ops []*opGen, spec []Lit, ign []*Term, vars []*Term) {
	var covers []*Conj
	x := &comp{e: m.e}
	known := append([]*Term{}, ign...)
	clear := func(c *Conj) *Term {
		// the given terms stand for themselves
		s := map[*Term]*Term{}
		for i, v := range vars {
			s[v] = m.in.mk(OSym, v.typ, fmt.Sprintf("given%d", i), nil, nil)
		}
		var lits []Lit
	next:
		for _, l := range c.lits {
			for _, k := range known {
				if k == l.atom {
					continue next
				}
			}
			lits = append(lits, l)
		}
		d := x.substConj(m.in.newConj(lits), s)
		if d == nil {
			return nil
		}
		return unclear(d)
	}
	for _, og := range ops {
		if og.wrong != "" {
			m.bad(rule, m.name+" elements", "%s", og.wrong)
			return
		}
		if og.why != "" {
			m.open(rule, m.name+" elements", "%s", og.why)
			return
		}
		if l, ok := implies(og.pc, spec); !ok {
			if u := clear(og.pc); u != nil {
				m.open(rule, m.name+" window", "whether %s holds depends on %s", l, u)
			} else {
				m.bad(rule, m.name+" window", "an operation is applied although %s does not hold: when %s", l, og.pc)
			}
			return
		}
		if og.kOrder != "asc" || og.iOrder != "asc" {
			if og.kOrder == "any" || og.kOrder == "desc" || og.iOrder == "desc" {
				m.bad(rule, m.name+" sequence", "the operations are taken in another order than the recorded one (versions: %s, operations: %s)", og.kOrder, og.iOrder)
			} else {
				m.open(rule, m.name+" sequence", "the order of the operations is not recognised")
			}
			return
		}
		for _, e := range og.early {
			clean := true
			m.earlyExit(rule, m.name, e, spec, og, &clean, clear)
			if !clean {
				return
			}
		}
		covers = append(covers, og.pc)
	}
	for _, opc := range o.st.pc {
		s := m.exists(opc)
		if s != nil {
			s = m.lits(s, spec)
		}
		if s == nil {
			continue
		}
		if u := uncovered(s, covers); u != nil {
			if t := clear(u); t != nil {
				m.open(rule, m.name+" completeness", "whether all operations are applied depends on %s", t)
			} else {
				m.bad(rule, m.name+" completeness", "an operation of the window is not applied, when %s", u)
			}
			return
		}
	}
	m.ok(rule, fmt.Sprintf("%s: applies exactly the operations with %s", m.name, showLits(spec)))
}

var _ = types.Typ
