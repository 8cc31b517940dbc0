package main

import (
	"fmt"
	"math"
	"strings"
)

// L13: a state at a time is built on a snapshot that is not later.

func init() {
	register(&Rule{id: "L13",
		explanation: "Abstract interpretation of the queries by time. The snapshot that a temporal snapshot or the first state of a time slice is built on must be the first version's or one whose latest timestamp is known, on every path that selects it, not to be after the requested time (before the window's start for a slice). The first state of a slice must be that snapshot with a fold of patch applications whose conditions imply, and cover, 'recorded behind the snapshot and before the start', in stable order of time.",
		assumptions: []string{
			"recorded versions are in the version list and later than its first version (established by L02, L08)",
			"the document and patch packages' functions are pure functions of their arguments (P01, T05)",
			"the latest timestamp of a document is the greatest one in it (T08)",
			"counters do not overflow",
		}, run: ruleL13})
}

func ruleL13(c *Ctx) {
	if m := c.logFn("Logument.TemporalSnapshot", snapOpaque); m != nil && m.need(2) {
		for _, o := range m.outs {
			if len(o.results) != 1 {
				continue
			}
			x := &comp{e: m.e}
			base, _ := x.fold(o.results[0])
			if len(x.fails) > 0 || base.op != OLookup || base.args[0] != m.S {
				if base.op == OField && m.isField(base, "CurrentState") {
					m.bad("base", m.name, "the state is built on the current state instead of a stored snapshot")
				} else {
					m.open("base", m.name, "the state is not built on a stored snapshot but on %s", base)
				}
				continue
			}
			m.notLater(o, base.args[1], false)
		}
	}
	if m := c.logFn("Logument.TemporalSlice", snapOpaque); m != nil && m.need(3) {
		for _, o := range m.outs {
			m.sliceStart(o)
		}
	}
}

// within: the time t of a document is not after the bound in all of pc.
func (m *logFn) within(pc *Conj, t, bound *Term, before bool) bool {
	if before {
		return m.implied(pc, m.in.Lt(t, bound), true) || m.implied(pc, m.in.Lt(m.in.AddK(bound, -1), t), false)
	}
	return m.implied(pc, m.in.Lt(bound, t), false) || m.implied(pc, m.in.Lt(t, bound), true)
}

// latestTimes returns the latest timestamps of the stored snapshot of v that pc mentions.
func (m *logFn) latestTimes(pc *Conj, v *Term) (out []*Term) {
	seen := map[*Term]bool{}
	for _, l := range pc.lits {
		l.atom.contains(func(t *Term) bool {
			if t.op == OExtract && t.args[0].op == OCall && strings.HasSuffix(t.args[0].callName(), "/tson.GetLatestTimestamp") && len(t.args[0].args) == 1 {
				a := t.args[0].args[0]
				if a.op == OLookup && a.args[0] == m.S && a.args[1] == v && !seen[t] {
					seen[t] = true
					out = append(out, t)
				}
			}
			return false
		})
	}
	return
}

// timely decides whether the snapshot of v is not later when pc holds.
func (m *logFn) timely(pc *Conj, v, bound *Term, before bool) (ok, sure bool) {
	ts := m.latestTimes(pc, v)
	for _, t := range ts {
		if m.within(pc, t, bound, before) {
			return true, true
		}
	}
	if len(ts) > 0 {
		// a comparison of rounded times: only less is less
		coarse := func(u *Term) (x *Term, by int64) {
			if u.op == OBin && u.aux == "/" {
				if k, ok := u.args[1].constInt(); ok && k > 1 {
					return u.args[0], k
				}
			}
			return nil, 0
		}
		for _, l := range pc.lits {
			if l.atom.op != OLt {
				continue
			}
			a, k := coarse(l.atom.args[0])
			b, j := coarse(l.atom.args[1])
			if a == nil || b == nil || k != j {
				continue
			}
			for _, t := range ts {
				switch {
				case l.val && a == t && (b == bound || before && b == m.in.AddK(bound, -1)):
					return true, true
				case !l.val && b == t && understood(a):
					return false, true
				}
			}
		}
		// a comparison with something else
		for _, l := range pc.lits {
			for _, t := range ts {
				if l.atom.op == OLt && (l.atom.args[0] == t || l.atom.args[1] == t) {
					u := l.atom.args[0]
					if u == t {
						u = l.atom.args[1]
					}
					if understood(u) {
						return false, true
					}
				}
			}
		}
		return false, false
	}
	for _, l := range pc.lits {
		if l.atom.contains(func(t *Term) bool { return t.op == OCall || t.op == OUnknown }) {
			return false, false
		}
	}
	return false, true
}

// notLater: the snapshot of version B has nothing after the requested time.
func (m *logFn) notLater(o Outcome, B *Term, before bool) bool {
	rule := "base"
	when := "after the requested time"
	if before {
		when = "from the start of the window on"
	}
	first := m.in.Elem(m.V, m.in.Int(0), B.typ)
	if B == first {
		m.ok(rule, m.name+": the first version")
		return true
	}
	good := len(o.st.pc) > 0
	for _, pc := range o.st.pc {
		ok, _ := m.timely(pc, B, m.args[1], before)
		good = good && ok
	}
	if good {
		m.ok(rule, m.name+": a snapshot with nothing "+when)
		return true
	}
	L, init, next := carried(m.in, B)
	if L == nil {
		for _, pc := range o.st.pc {
			if ok, sure := m.timely(pc, B, m.args[1], before); !ok && sure && len(m.latestTimes(pc, B)) > 0 {
				m.bad(rule, m.name, "the snapshot of %s, which the state is built on, may hold something %s", B, when)
				return false
			}
		}
		if B.op == OElem && B.args[0] == m.V && B.args[1] == m.in.AddK(m.in.Len(m.V), -1) {
			m.bad(rule, m.name, "the state is built on the snapshot of the last version, which may hold something %s", when)
			return false
		}
		m.open(rule, m.name, "the choice of the snapshot of %s is not recognised", B)
		return false
	}
	if init != first {
		m.open(rule, m.name, "the choice of the snapshot starts from %s", init)
		return false
	}
	n := 0
	for _, c := range L.conts {
		v := next(c)
		if v == nil || v == B {
			continue
		}
		for _, pc := range c.pc {
			ok, sure := m.timely(pc, v, m.args[1], before)
			switch {
			case ok:
				n++
			case sure:
				m.bad(rule, m.name, "a snapshot is chosen to build the state on that may hold something %s, when %s", when, pc)
				return false
			default:
				m.open(rule, m.name, "whether the chosen snapshot holds something %s is not decided, when %s", when, pc)
				return false
			}
		}
	}
	if n == 0 {
		m.open(rule, m.name, "no snapshot is chosen")
		return false
	}
	m.ok(rule, m.name+": a snapshot with nothing "+when)
	return true
}

// sliceStart: the first snapshot of a time slice is the state just before its window.
func (m *logFn) sliceStart(o Outcome) {
	rule := "slice-start"
	f := m.fields(o)
	if f == nil || f["Snapshots"] == nil {
		m.open(rule, m.name, "the returned log is not built here")
		return
	}
	// the version list is decided by L08
	q := *m
	qc := *m.c
	qc.seen, qc.oks = map[string]bool{}, map[string][]string{}
	q.c = &qc
	first, _, ok := q.versionRange(o, f)
	if !ok {
		m.open(rule, m.name, "the version list is not recognised")
		return
	}
	var v *Term
	content := m.mapOf(o, f["Snapshots"])
	m.takenOver(o, content, first)
	for b := content; b.op == OInsert; b = b.args[0] {
		if b.args[1] == first {
			v = b.args[2]
			break
		}
	}
	x := &comp{e: m.e}
	if v == nil {
		for _, g := range x.maps(content) {
			if len(g.doms) == 0 && g.key == first {
				if v != nil && v != g.elem {
					m.open(rule, m.name, "several snapshots of the first version")
					return
				}
				v = g.elem
			}
		}
	}
	if v == nil {
		m.open(rule, m.name, "the snapshot of the first version %s is not recognised", first)
		return
	}
	if m.isField(v, "CurrentState") {
		m.bad(rule, m.name, "the slice starts with the current state instead of the state before its window")
		return
	}
	x = &comp{e: m.e}
	base, ops := m.applied(x, v)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the operations before the window are not recognised: %s", x.fails[0])
		return
	}
	if base.op != OLookup || base.args[0] != m.S {
		if base.op == OField && m.isField(base, "CurrentState") {
			m.bad(rule, m.name, "the slice starts from the current state instead of the state before its window")
		} else if base.op == OExtract && base.args[0].op == OCall && strings.HasSuffix(base.args[0].callName(), snapOpaque) {
			m.bad(rule, m.name, "the slice starts with the snapshot of a version, %s, instead of the state before its window", base)
		} else {
			m.open(rule, m.name, "the slice does not start from a stored snapshot but from %s", base)
		}
		return
	}
	B := base.args[1]
	tsi := m.args[1]
	// nothing can be before the earliest time
	early := len(o.st.pc) > 0
	for _, pc := range o.st.pc {
		lo := m.in.Int(math.MinInt64)
		early = early && (m.implied(pc, m.in.Lt(lo, tsi), false) || m.implied(pc, m.in.Eq(tsi, lo), true))
	}
	if early && B == m.in.Elem(m.V, m.in.Int(0), B.typ) && len(ops) == 0 {
		m.ok(rule, m.name+": nothing is before the earliest time")
		return
	}
	if !m.notLater(o, B, true) {
		return
	}
	ts := m.opField("Timestamp")
	spec := []Lit{{m.in.Lt(B, m.K), true}, {m.in.Lt(ts, tsi), true}}
	if alt := m.in.Lt(m.in.AddK(tsi, -1), ts); alt != spec[1].atom {
		for _, og := range ops {
			for _, l := range og.pc.lits {
				if l.atom == alt {
					spec[1] = Lit{alt, false}
				}
			}
		}
	}
	n0 := len(m.c.findings) + len(m.c.open)
	m.windowCase(rule, o, ops, spec, given(o), []*Term{B})
	if len(m.c.findings)+len(m.c.open) > n0 {
		return
	}
	for _, og := range ops {
		s := og.g.sort
		if s == nil {
			if len(og.g.doms) > 0 {
				m.bad(rule, m.name+" order", "the operations are not ordered by time")
			}
			return
		}
		if !m.timeSorted(rule, s) {
			return
		}
	}
}

// takenOver: the other snapshots of a time slice are stored ones of the same
// version with nothing after the window.
func (m *logFn) takenOver(o Outcome, content, first *Term) {
	rule := "taken-over"
	x := &comp{e: m.e}
	gs := x.maps(content)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the snapshots are collected in a way that is not recognised: %s", x.fails[0])
		return
	}
	n := 0
	for _, g := range gs {
		if g.key == first {
			continue
		}
		if g.elem.op != OLookup || g.elem.args[0] != m.S {
			m.open(rule, m.name, "the snapshot %s of the slice is not recognised", g.elem)
			return
		}
		if g.elem.args[1] != g.key {
			if understoodDollar(g.key) && understoodDollar(g.elem.args[1]) {
				m.bad(rule, m.name, "the snapshot of %s is taken over as the one of %s", g.elem.args[1], g.key)
			} else {
				m.open(rule, m.name, "the snapshot of %s is taken over as the one of %s", g.elem.args[1], g.key)
			}
			return
		}
		pc := m.in.newConj(nil)
		ign := map[*Term]bool{}
		for _, t := range given(o) {
			ign[t] = true
		}
		for _, l := range g.pc.lits {
			if ign[l.atom] {
				continue
			}
			if pc = pc.with(l.atom, l.val); pc == nil {
				break
			}
		}
		if pc == nil {
			continue
		}
		ok, sure := m.timely(pc, g.key, m.args[2], false)
		switch {
		case ok:
			n++
		case sure:
			m.bad(rule, m.name, "a stored snapshot that may hold something after the end of the window is taken over, when %s", pc)
			return
		default:
			m.open(rule, m.name, "whether a snapshot with something after the end of the window is taken over is not decided, when %s", pc)
			return
		}
	}
	m.ok(rule, fmt.Sprintf("%s: %d kinds of stored snapshots, with nothing after the window", m.name, n))
}
