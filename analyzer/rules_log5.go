package main

import (
	"fmt"
	"sort"
	"strings"
)

// L08: slices are usable logs; L11: histories; L03: snapshots.

func ruleL08(c *Ctx) {
	for _, name := range []string{"Logument.Slice", "Logument.TemporalSlice"} {
		m := c.logFn(name, snapOpaque)
		if m == nil || !m.need(3) {
			continue
		}
		for _, o := range m.outs {
			m.sliceFields(o)
		}
		c.ownFields(name, "Version", "Snapshots", "Patches")
	}
	c.atLeast("own-containers", 6)
}

// ownFields: the containers of the returned log are not those of the receiver.
func (c *Ctx) ownFields(name string, fields ...string) {
	fn := c.p.fn(pkgLog, name)
	a := c.pta(fn)
	rs := a.results(0)
	if len(rs) == 0 {
		c.undecided("own-containers", name, c.p.pos(fn.Pos()), "the result is not tracked")
		return
	}
	for _, f := range fields {
		n, good := 0, true
		var shared []string
		for x := range rs {
			for t := range a.slots[pslot{x.o, x.path + "." + f}] {
				n++
				if t.o.ext && isContainer(t.o) {
					shared = append(shared, t.o.label)
				}
			}
		}
		sort.Strings(shared)
		for _, s := range shared {
			good = false
			c.bad("own-containers", name+" "+f, c.p.pos(fn.Pos()), "the %s of the new log can be the container %s of the log it was taken from", f, s)
		}
		if n == 0 {
			c.undecided("own-containers", name+" "+f, c.p.pos(fn.Pos()), "the container is not tracked")
		} else if good {
			c.ok("own-containers", fmt.Sprintf("%s: %s is made by the function (%d objects)", name, f, n))
		}
	}
}

func (m *logFn) sliceFields(o Outcome) {
	f := m.fields(o)
	if f == nil {
		m.open("slice-fields", m.name, "the returned log is not built here")
		return
	}
	// no pending operations
	pool := f["PatchPool"]
	switch {
	case pool == nil:
		m.open("pool", m.name, "there is no pool")
	case pool.op == OConst || pool.op == OSliceLit && len(pool.args) == 0 || pool.op == OMake && isZero(pool.args[0]):
		m.ok("pool", m.name+": no pending operations")
	case m.isField(pool, "PatchPool"):
		m.bad("pool", m.name, "the pending operations of the original log are taken over")
	default:
		m.open("pool", m.name, "the pool is %s", pool)
	}
	first, last, ok := m.versionRange(o, f)
	if !ok {
		return
	}
	m.firstSnapshot(o, f, first)
	m.lastState(o, f, last)
	m.rangeCoversPatches(o, f, first, last)
}

func isZero(t *Term) bool {
	n, ok := t.constInt()
	return ok && n == 0
}

// versionRange: the version list is an ascending range without gaps.
func (m *logFn) versionRange(o Outcome, f map[string]*Term) (first, last *Term, ok bool) {
	rule := "version-list"
	V := f["Version"]
	x := &comp{e: m.e}
	gs := x.list(V)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the versions are collected in a way that is not recognised: %s", x.fails[0])
		return
	}
	ign := given(o)
	var consts, nums, filters []*Gen
	for i, g := range gs {
		switch {
		case len(g.doms) == 0 && i == 0:
			consts = append(consts, g)
		case len(g.doms) == 1 && g.doms[0].kind == "num" && g.elem == g.doms[0].v:
			nums = append(nums, g)
		case len(g.doms) == 1 && g.elem.op == OElem && g.elem.args[0] == m.V && g.elem.args[1] == g.doms[0].v:
			filters = append(filters, g)
		case len(g.doms) == 1 && g.doms[0].kind == "keys" && g.elem == g.doms[0].v:
			m.bad(rule, m.name, "the version list holds only versions that have an entry in %s, which can leave gaps", g.doms[0].of)
			return
		case len(g.doms) >= 1 && g.doms[0].kind == "keys" && g.elem == g.doms[0].v:
			m.bad(rule, m.name, "the version list holds the versions of operations, which can leave gaps or repeat versions")
			return
		default:
			m.open(rule, m.name, "the versions %s are not recognised", g)
			return
		}
		if len(g.doms) == 1 && len(g.doms[0].early) > 0 && !(g.doms[0].kind == "index" && g.doms[0].order == "asc") {
			m.open(rule, m.name, "the version list may end early")
			return
		}
		if g.sort != nil {
			m.open(rule, m.name, "the version list is sorted by %s", g.sort.kind)
			return
		}
	}
	switch {
	case len(filters) == 1 && len(gs) == 1 && m.name == "Logument.Slice":
		// decided by the version window (L04)
		if filters[0].doms[0].order != "asc" {
			m.bad(rule, m.name, "the versions are in order %s", filters[0].doms[0].order)
			return
		}
		m.ok(rule, m.name+": a range of the ascending version list")
		return m.args[1], m.args[2], true
	case len(nums) > 0 && len(filters) == 0:
		lo, hi := nums[0].doms[0].lo, nums[0].doms[0].hi
		var conds []*Conj
		for _, g := range nums {
			d := g.doms[0]
			if d.order != "asc" {
				m.bad(rule, m.name, "the versions are listed in order %s", d.order)
				return
			}
			if d.lo != lo || d.hi != hi {
				m.open(rule, m.name, "several ranges")
				return
			}
			// nothing may be left out
			pc := m.in.newConj(nil)
			v := d.v
		lits:
			for _, l := range g.pc.lits {
				for _, k := range ign {
					if k == l.atom {
						continue lits
					}
				}
				if l.atom == m.in.Lt(v, d.lo) || l.atom == m.in.Lt(d.hi, v) {
					continue
				}
				if a := l.atom; a.op == OLt && (a.args[0] == v || a.args[1] == v) && (a.contains(func(t *Term) bool { return t == d.lo || t == d.hi })) {
					continue
				}
				if p := pc.with(l.atom, l.val); p != nil {
					pc = p
				}
			}
			conds = append(conds, pc)
		}
		complete := false
		for _, cd := range conds {
			complete = complete || cd.empty()
		}
		if !complete {
			for _, cd := range conds {
				if u := unclear(cd, ign...); u != nil {
					m.open(rule, m.name, "whether a version is listed depends on %s", u)
					return
				}
			}
			m.bad(rule, m.name, "a version is listed only when %s, which leaves gaps", conds[0])
			return
		}
		first = lo
		if len(consts) == 1 {
			first = consts[0].elem
			if m.in.AddK(first, 1) != lo {
				if b1, k1 := splitAddK(first); b1 != nil {
					if b2, k2 := splitAddK(lo); b2 == b1 && k2 != k1+1 {
						m.bad(rule, m.name, "the version list is %s, %s..%s: not without gaps or repetitions", first, lo, hi)
						return nil, nil, false
					}
				}
				m.open(rule, m.name, "the version list is %s, %s..%s", first, lo, hi)
				return nil, nil, false
			}
		}
		m.ok(rule, m.name+": an ascending range without gaps")
		return first, hi, true
	}
	m.open(rule, m.name, "the version list is not recognised")
	return nil, nil, false
}

// firstSnapshot: there is a snapshot for the first version.
func (m *logFn) firstSnapshot(o Outcome, f map[string]*Term, first *Term) {
	rule := "first-snapshot"
	ref := f["Snapshots"]
	if ref == nil {
		return
	}
	content := m.mapOf(o, ref)
	x := &comp{e: m.e}
	gs := x.maps(content)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the snapshots are collected in a way that is not recognised: %s", x.fails[0])
		return
	}
	base := content
	for base.op == OInsert {
		if base.args[1] == first {
			m.ok(rule, m.name+": stored under the first version")
			return
		}
		base = base.args[0]
	}
	unknown := ""
	for _, g := range gs {
		if len(g.doms) == 0 && g.key == first && (g.pc.empty() || len(g.pc.lits) == 0) {
			m.ok(rule, m.name+": stored under the first version")
			return
		}
		if !understoodDollar(g.elem) {
			unknown = g.String()
		}
	}
	all := true
	for _, pc := range o.st.pc {
		has := holdsC(pc, m.in.Has(content, first), true) || holdsC(pc, m.in.Has(base, first), true) || holdsC(pc, m.in.Has(m.S, first), true)
		for _, l := range pc.lits {
			a := l.atom
			if a.op == OEq && !l.val {
				for i := range a.args {
					if a.args[i].op == OLookup && a.args[i].args[0] == base && a.args[i].args[1] == first && a.args[1-i].op == OConst {
						has = true
					}
				}
			}
			if !has && a.op != OHas && a.op != OLt && a.contains(func(t *Term) bool { return t == base }) && a.contains(func(t *Term) bool { return t == first }) {
				unknown = a.String()
			}
		}
		all = all && has
	}
	switch {
	case all:
		m.ok(rule, m.name+": the first version has a stored snapshot already")
	case unknown != "":
		m.open(rule, m.name, "whether the first version has a snapshot depends on %s", unknown)
	default:
		m.bad(rule, m.name, "no snapshot is stored for the first version, when %s", o.st.pc)
	}
}

// lastState: the current state is the snapshot of the last version.
func (m *logFn) lastState(o Outcome, f map[string]*Term, last *Term) {
	rule := "current-state"
	s := f["CurrentState"]
	if s == nil {
		return
	}
	if s.op == OConst {
		m.bad(rule, m.name, "the current state is not set")
		return
	}
	if m.isField(s, "CurrentState") {
		m.bad(rule, m.name, "the current state of the original log is taken over instead of the snapshot of the last version")
		return
	}
	if s.op != OExtract || s.args[0].op != OCall || !strings.HasSuffix(s.args[0].callName(), snapOpaque) || len(s.args[0].args) != 2 {
		if s.op == OLookup && s.args[0] == m.S {
			m.bad(rule, m.name, "the current state is a stored snapshot, %s, instead of the snapshot of the last version", s)
			return
		}
		m.open(rule, m.name, "the current state is %s", s)
		return
	}
	recv, ver := s.args[0].args[0], s.args[0].args[1]
	V := f["Version"]
	isLast := ver == last || ver.op == OElem && ver.args[0] == V && ver.args[1] == m.in.AddK(m.in.Len(V), -1)
	if !isLast {
		if understood(ver) {
			m.bad(rule, m.name, "the current state is the snapshot of %s instead of the last version %s", ver, last)
		} else if b, j := splitAddK(last); b != nil && j != 0 && ver == b {
			m.bad(rule, m.name, "the current state is the snapshot of %s but the list of versions ends with %s", ver, last)
		} else if _, k := splitAddK(ver); k != 0 {
			m.bad(rule, m.name, "the current state is the snapshot of %s instead of the last version %s", ver, last)
		} else if ver == m.firstOf(f) {
			m.bad(rule, m.name, "the current state is the snapshot of the first version")
		} else {
			m.open(rule, m.name, "the current state is the snapshot of %s", ver)
		}
		return
	}
	own := recv != m.lgm
	if recv == m.lgm && m.name != "Logument.Slice" {
		m.bad(rule, m.name, "the current state is the snapshot of the original log, which has operations outside of the time window, instead of the new one")
		return
	}
	if own && recv.op == OStruct {
		for i, a := range recv.args {
			switch m.st.Field(i).Name() {
			case "Version", "Snapshots", "Patches":
				if a != f[m.st.Field(i).Name()] {
					m.open(rule, m.name, "the current state is taken before the log is complete")
					return
				}
			}
		}
	}
	m.ok(rule, m.name+": the snapshot of the last version")
}

func (m *logFn) firstOf(f map[string]*Term) *Term {
	gs := (&comp{e: m.e}).list(f["Version"])
	if len(gs) > 0 && len(gs[0].doms) == 0 {
		return gs[0].elem
	}
	return nil
}

// rangeCoversPatches: every version with operations belongs to the version list.
func (m *logFn) rangeCoversPatches(o Outcome, f map[string]*Term, first, last *Term) {
	rule := "patch-range"
	if m.name == "Logument.Slice" {
		return // the same window (L04)
	}
	// last and first are set together with the entries
	content := m.mapOf(o, f["Patches"])
	Lp, _, nextP := carried(m.in, content)
	Ll, _, nextL := carried(m.in, last)
	if Lp == nil || Ll != Lp {
		m.open(rule, m.name, "how the last version is found is not recognised: %s", last)
		return
	}
	Lf, initF, nextF := carried(m.in, first)
	if Lf != Lp {
		m.open(rule, m.name, "how the first version is found is not recognised: %s", first)
		return
	}
	// the innermost loop that changes them
	inner := func(n *Term) *Term { return n }
	for depth := 0; depth < 3; depth++ {
		done := true
		for _, c := range Lp.conts {
			np := nextP(c)
			if np == nil || np.op != OLoop || np.obj == Lp {
				continue
			}
			P2, _, nP2 := carried(m.in, np)
			L2, _, nL2 := carried(m.in, nextL(c))
			F2, _, nF2 := carried(m.in, nextF(c))
			if P2 == nil || L2 != P2 || F2 != P2 {
				m.open(rule, m.name, "the range of versions is not updated together with the entries")
				return
			}
			content, last, first = np, nextL(c), nextF(c)
			Lp, nextP, nextL, nextF = P2, nP2, nL2, nF2
			done = false
			break
		}
		if done {
			break
		}
	}
	_ = inner
	for _, c := range Lp.conts {
		n := nextP(c)
		if n == content || n == nil {
			continue
		}
		if n.op != OInsert || n.args[0] != content {
			m.open(rule, m.name, "the entries are added as %s", n)
			return
		}
		key := n.args[1]
		if nl := nextL(c); nl != key {
			if nl == last {
				m.bad(rule, m.name, "an operation of version %s is added although the last version stays the same", key)
			} else {
				m.bad(rule, m.name, "an operation of version %s is added but the last version becomes %s", key, nl)
			}
			return
		}
		for _, pc := range c.pc {
			empty := m.in.Lt(m.in.Int(0), m.in.Len(content))
			ev, known := pc.decide(m.in.Eq(m.in.Len(content), m.in.Int(0)))
			if !known {
				if v, k2 := pc.decide(empty); k2 {
					ev, known = !v, true
				}
			}
			nf := nextF(c)
			switch {
			case !known && nf == m.in.AddK(key, -1):
				m.bad(rule, m.name, "the first version follows every operation instead of the first one only")
				return
			case !known:
				m.open(rule, m.name, "when the first version is set is not recognised")
				return
			case ev && nf != m.in.AddK(key, -1):
				if nf == first || nf == key {
					m.bad(rule, m.name, "the version before the first operation's version %s should be the first one, but %s is", key, nf)
				} else {
					m.open(rule, m.name, "the first version becomes %s", nf)
				}
				return
			case !ev && nf != first:
				m.bad(rule, m.name, "the first version changes with a later operation")
				return
			}
		}
	}
	_ = initF
	m.ok(rule, m.name+": the version list starts before the first and ends with the last version of the operations")
}

func ruleL11(c *Ctx) {
	m := c.logFn("Logument.History", snapOpaque)
	if m == nil || !m.need(2) {
		return
	}
	for _, o := range m.outs {
		m.history(o)
	}
	// only repeated values are left out
	q := *m
	qc := *c
	qc.seen, qc.oks, qc.findings, qc.open = map[string]bool{}, map[string][]string{}, nil, nil
	q.c = &qc
	q.reduction(nil, false)
	missing := false
	for _, f := range qc.findings {
		if strings.Contains(f.Construct, " keeping") || strings.Contains(f.Construct, " early exit") {
			missing = true
			c.bad("history-complete", f.Construct, f.Where, "%s", f.Message)
		}
	}
	if len(qc.open) == 0 && !missing {
		m.ok("history-complete", m.name+": only repeated values are left out")
	}
}

func (m *logFn) history(o Outcome) {
	const rule = "history"
	x := &comp{e: m.e}
	content := m.mapOf(o, o.results[0])
	gs := x.maps(content)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the result is built in a way that is not recognised: %s", x.fails[0])
		return
	}
	path := m.opField("Path")
	ign := given(o)
	scoped := false
	initial := false
	for _, g := range gs {
		var fl []*Gen
		if g.app {
			fl = []*Gen{g}
		} else {
			fl = x.flat(g)
		}
		if len(x.fails) > 0 {
			m.open(rule, m.name, "the lists are built in a way that is not recognised: %s", x.fails[0])
			return
		}
		nInit := 0
		for i, h := range fl {
			if m.initialValue(h) {
				nInit++
				if i != 0 {
					m.bad(rule+"-initial", m.name, "the initial value does not come first in the list")
					return
				}
				if h.sort != nil {
					m.open(rule+"-initial", m.name, "the initial value is sorted among the operations")
					return
				}
				if !m.initialEntry(h, g) {
					return
				}
				continue
			}
			if h.elem.op == OElem && len(h.doms) > 0 {
				d := h.doms[len(h.doms)-1]
				if i, k := splitAddK(h.elem.args[1]); i == d.v && k > 0 && (d.lo == nil || isZero(d.lo)) && !h.elem.args[0].contains(func(t *Term) bool { return t.op == OUnknown }) {
					m.bad(rule, m.name+" elements", "the first %d operations of a path are left out", k)
					return
				}
			}
			og := m.canon(h)
			if og.wrong != "" {
				m.bad(rule, m.name+" elements", "%s", og.wrong)
				return
			}
			if og.why != "" {
				m.open(rule, m.name+" elements", "%s", og.why)
				return
			}
			if og.key != path {
				if og.key != nil && understood(og.key) {
					m.bad(rule, m.name+" key", "an operation is listed under %s instead of its path", og.key)
				} else {
					m.open(rule, m.name+" key", "the key %s is not recognised", og.key)
				}
				return
			}
			if h.sort == nil {
				m.bad(rule+"-order", m.name, "the operations of a path are not ordered by timestamp")
				return
			}
			if og.kOrder != "asc" || og.iOrder != "asc" {
				m.bad(rule+"-order", m.name, "operations of equal time do not keep their recorded order (versions: %s, operations: %s)", og.kOrder, og.iOrder)
				return
			}
			if !m.timeSorted(rule+"-order", h.sort) {
				return
			}
			d := m.dedupeOf(og)
			atoms := m.scopeAtoms(og, d)
			if len(atoms) == 0 {
				if u := unclear(og.pc, append(ign, d.has, d.same)...); u != nil {
					m.open(rule, m.name+" scope", "the paths are chosen by %s", u)
				} else {
					m.bad(rule, m.name+" scope", "operations of other paths are listed: when %s", og.pc)
				}
				return
			}
			if len(atoms) > 1 {
				m.open(rule, m.name+" scope", "%d conditions relate the paths", len(atoms))
				return
			}
			if !holdsC(og.pc, atoms[0], true) {
				m.bad(rule, m.name+" scope", "operations outside of the requested path are listed")
				return
			}
			if !scoped {
				if !m.scope(rule, atoms[0]) {
					return
				}
				scoped = true
			}
		}
		// the initial value is there exactly when the first version has one
		if nInit > 1 {
			m.bad(rule+"-initial", m.name, "the initial value is added %d times", nInit)
			return
		}
		get, val := m.firstValue(g)
		if nInit == 1 {
			initial = true
			if get == nil {
				if u := unclear(g.pc, ign...); u == nil {
					m.bad(rule+"-initial", m.name, "an initial value is listed without looking whether there is one")
				} else {
					m.open(rule+"-initial", m.name, "when the initial value is listed is not recognised")
				}
				return
			}
			if !holdsC(g.pc, get, true) {
				m.bad(rule+"-initial", m.name, "an initial value is listed although the lookup failed")
				return
			}
			if val != nil && holdsC(g.pc, val, true) {
				m.bad(rule+"-initial", m.name, "an initial value is listed although there is none")
				return
			}
		} else if len(fl) > 0 {
			if get != nil {
				p := g.pc.with(get, true)
				if p != nil && val != nil {
					p = p.with(val, false)
				}
				if p == nil {
					continue
				}
			}
			if u := unclear(g.pc, ign...); u != nil && get == nil && m.foreign(g) {
				m.open(rule+"-initial", m.name, "when the initial value is listed depends on %s", u)
				return
			}
			m.bad(rule+"-initial", m.name, "the initial value is missing although the first version has a value, when %s", g.pc)
			return
		}
	}
	if !initial {
		m.bad(rule+"-initial", m.name, "the initial value is never listed")
		return
	}
	m.ok(rule, m.name+": the operations at or below the path, under their own path")
	m.ok(rule+"-initial", m.name+": first, at time 0, exactly when the first version has a value")
}

// foreign: the condition mentions functions that are not known.
func (m *logFn) foreign(g *Gen) bool {
	for _, l := range g.pc.lits {
		if l.atom.contains(func(t *Term) bool { return t.op == OCall || t.op == OUnknown }) {
			return true
		}
	}
	return false
}

// firstValue finds the conditions 'the lookup in the first version failed not'
// and 'the value found is null'.
func (m *logFn) firstValue(g *Gen) (got, null *Term) {
	for _, l := range g.pc.lits {
		a := l.atom
		if a.op != OEq {
			continue
		}
		for _, s := range a.args {
			if s.op == OExtract && s.args[0].op == OCall && strings.HasSuffix(s.args[0].callName(), "tson.GetValue") {
				if s.aux == "1" {
					got = a
				} else {
					null = a
				}
			}
		}
	}
	return
}

func (m *logFn) initialEntry(h, g *Gen) bool {
	rule := "history-initial"
	st := structType(h.elem.typ)
	for i, a := range h.elem.args {
		switch st.Field(i).Name() {
		case "Path":
			if a != g.key {
				m.bad(rule, m.name, "the initial value has the path %s instead of %s", a, g.key)
				return false
			}
		case "Timestamp":
			if !isZero(a) {
				m.bad(rule, m.name, "the initial value has the time %s instead of 0", a)
				return false
			}
		case "Value":
			for a.op == OIface {
				a = a.args[0]
			}
			if a.op != OExtract || a.args[0].op != OCall || !strings.HasSuffix(a.args[0].callName(), "tson.GetValue") {
				m.open(rule, m.name, "the initial value is %s", a)
				return false
			}
			doc, p := a.args[0].args[0], a.args[0].args[1]
			first := m.in.Lookup(m.S, m.in.Elem(m.V, m.in.Int(0), m.K.typ), doc.typ)
			if doc != first {
				if understoodDollar(doc) && (doc.op == OLookup || doc.op == OField) {
					m.bad(rule, m.name, "the initial value is taken from %s instead of the first version's snapshot", doc)
				} else {
					m.open(rule, m.name, "the initial value is taken from %s", doc)
				}
				return false
			}
			if p != g.key {
				if understoodDollar(p) {
					m.bad(rule, m.name, "the initial value is looked up at %s instead of %s", p, g.key)
				} else {
					m.open(rule, m.name, "the initial value is looked up at %s", p)
				}
				return false
			}
		}
	}
	return true
}

func ruleL03(c *Ctx) {
	m := c.logFn("Logument.Snapshot")
	if m == nil || !m.need(2) {
		return
	}
	for _, o := range m.outs {
		m.snapshot(o)
	}
}

func (m *logFn) snapshot(o Outcome) {
	const rule = "replay"
	if len(o.results) != 1 {
		return
	}
	vk := m.args[1]
	x := &comp{e: m.e}
	res := o.results[0]
	base, gs := x.fold(res)
	if base.op != OLookup || base.args[0] != m.S {
		if base.op == OField && m.isField(base, "CurrentState") {
			m.bad(rule, m.name, "the result starts from the current state instead of a stored snapshot")
		} else {
			m.open(rule, m.name, "the result does not start from a stored snapshot but from %s", base)
		}
		return
	}
	B := base.args[1]
	var ops []*opGen
	for _, g := range gs {
		fl := []*Gen{g}
		if !g.app {
			fl = x.flat(g)
		}
		for _, h := range fl {
			ops = append(ops, m.canon(h))
			if h.sort != nil {
				m.bad(rule+"-order", m.name, "the operations are sorted before they are applied")
				return
			}
		}
	}
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the applied operations are not recognised: %s", x.fails[0])
		return
	}
	n0 := len(m.c.findings) + len(m.c.open)
	spec := []Lit{{m.in.Lt(B, m.K), true}, {m.in.Lt(vk, m.K), false}}
	if B == vk {
		if len(ops) > 0 {
			m.open(rule, m.name, "operations are applied to the requested version itself")
		}
	} else {
		m.windowCase(rule, o, ops, spec, given(o), []*Term{B})
	}
	if len(m.c.findings)+len(m.c.open) > n0 {
		return
	}
	m.latestBase(o, B)
	m.cached(o, res, B)
}

// latestBase: B is the latest stored version that is not newer than the requested one.
func (m *logFn) latestBase(o Outcome, B *Term) {
	rule := "start"
	vk := m.args[1]
	if B == vk {
		m.ok(rule, m.name+": the requested version itself")
		return
	}
	if first := m.in.Elem(m.V, m.in.Int(0), B.typ); B == first {
		m.bad(rule, m.name, "the replay starts from the first version although a later snapshot may be stored, when %s", o.st.pc)
		return
	}
	if B.op == OElem {
		T, j := B.args[0], B.args[1]
		if !m.sortedKeys(rule, o, T) {
			return
		}
		j1 := m.in.AddK(j, 1)
		next := m.in.Elem(T, j1, B.typ)
		for _, pc := range o.st.pc {
			if !m.implied(pc, m.in.Lt(vk, B), false) {
				m.bad(rule, m.name, "the start version %s may be newer than the requested one", B)
				return
			}
			// the next stored version, if there is one, is newer
			s := pc.with(m.in.Lt(j1, m.in.Len(T)), true)
			if s != nil {
				s = s.with(m.in.Eq(m.in.Len(T), j1), false)
			}
			if s != nil {
				s = s.with(m.in.Lt(vk, next), false)
			}
			if s != nil {
				if L := loopOf(j); L != nil {
					if ok, why := m.descending(L, T, vk); !ok {
						m.open(rule, m.name, "the search for the start version is not recognised: %s", why)
						return
					}
					continue
				}
				m.bad(rule, m.name, "a later stored snapshot that is not newer than the requested version may exist behind %s", B)
				return
			}
		}
		m.ok(rule, m.name+": the latest stored version that is not newer")
		return
	}
	if L, init, next := carried(m.in, B); L != nil {
		m.latestLoop(rule, o, B, L, init, next)
		return
	}
	if base, k := splitAddK(B); base == vk && k > 0 {
		m.bad(rule, m.name, "the replay starts from a version newer than the requested one (%s)", B)
		return
	}
	m.open(rule, m.name, "the start version %s is not recognised", B)
}

func loopOf(t *Term) *Loop {
	b, _ := splitAddK(t)
	if b != nil && b.op == OLoop {
		return b.obj.(*Loop)
	}
	return nil
}

func (m *logFn) implied(pc *Conj, a *Term, val bool) bool {
	if holdsC(pc, a, val) {
		return true
	}
	return pc.with(a, !val) == nil
}

// sortedKeys: T lists all stored versions in ascending order.
func (m *logFn) sortedKeys(rule string, o Outcome, T *Term) bool {
	x := &comp{e: m.e}
	gs := x.list(T)
	if len(x.fails) > 0 || len(gs) != 1 || len(gs[0].doms) != 1 || gs[0].doms[0].kind != "keys" {
		m.open(rule, m.name, "the list of versions %s is not recognised", T)
		return false
	}
	d := gs[0].doms[0]
	if d.of != m.S || gs[0].elem != d.v {
		if d.of == m.P {
			m.bad(rule, m.name, "the start version is searched among the patches")
		} else {
			m.open(rule, m.name, "the start version is searched in %s", T)
		}
		return false
	}
	if d.order != "asc" {
		m.bad(rule, m.name, "the start version is searched in a list that is not in ascending order (%s)", d.order)
		return false
	}
	ign := map[*Term]bool{}
	for _, t := range given(o) {
		ign[t] = true
	}
	for _, l := range gs[0].pc.lits {
		if l.atom.op != OHas && !ign[l.atom] {
			m.open(rule, m.name, "the list of versions is filtered by %s", l)
			return false
		}
	}
	return true
}

// descending: the loop looks at T from its end and stops at the first one that is not newer.
func (m *logFn) descending(L *Loop, T, vk *Term) (bool, string) {
	x := &comp{e: m.e}
	d, _, ind, ok := x.domOf(L)
	if !ok || d.order != "desc" {
		return false, "it does not go down from the end"
	}
	el := m.in.Elem(T, ind.v, elemType(T.typ))
	if d.hi != m.in.AddK(m.in.Len(T), -1) {
		return false, "it does not start at the end"
	}
	for _, c := range L.conts {
		for _, pc := range c.pc {
			if !m.implied(pc, m.in.Lt(vk, el), true) {
				return false, "it passes versions that are not newer"
			}
		}
	}
	return true, ""
}

// latestLoop: B is the best version found so far.
func (m *logFn) latestLoop(rule string, o Outcome, B *Term, L *Loop, init *Term, next func(*LoopPath) *Term) {
	vk := m.args[1]
	x := &comp{e: m.e}
	bs, test, ok := x.bind(L)
	if !ok || len(bs) != 1 || len(bs[0].doms) != 1 {
		m.open(rule, m.name, "the search for the start version is not recognised")
		return
	}
	b := bs[0]
	d := b.doms[0]
	asc := d.order == "asc"
	var v *Term // the candidate
	cand := map[*Term]bool{}
	switch d.kind {
	case "keys":
		if d.of != m.S {
			m.open(rule, m.name, "the start version is searched in %s", d.of)
			return
		}
		v = d.v
	case "num":
		v = d.v
	default:
		m.open(rule, m.name, "the start version is searched in %s", d.of)
		return
	}
	saved := x.env
	x.env = merged(saved, b.sub)
	defer func() { x.env = saved }()
	prev := x.sub(B)
	var sets []*Conj
	flags := map[*Term]bool{}
	for _, c := range L.conts {
		for _, cj := range c.pc {
			pc := x.subC(x.bare(cj, L, test))
			if pc == nil {
				continue
			}
			if b.pc != nil {
				if pc = x.and(pc, b.pc); pc == nil {
					continue
				}
			}
			n := next(c)
			if n == nil || n == B {
				continue
			}
			n = x.sub(n)
			if n != v {
				m.open(rule, m.name, "the start version becomes %s", n)
				return
			}
			cand[n] = true
			if !m.implied(pc, m.in.Lt(vk, v), false) {
				if u := unclear(pc); u != nil && !u.contains(func(t *Term) bool { return t == v }) {
					m.open(rule, m.name, "whether the start version is newer depends on %s", u)
				} else {
					m.bad(rule, m.name, "the start version may be newer than the requested one")
				}
				return
			}
			if f := m.firstFlag(L, c, cj, B); f != nil {
				flags[x.sub(f)] = true
			} else if !asc && !m.implied(pc, m.in.Lt(v, prev), false) {
				m.bad(rule, m.name, "the stored versions are visited in no particular order, and the start version is not the latest one of them")
				return
			}
			sets = append(sets, pc)
		}
	}
	// every better candidate is taken
	better := []Lit{{m.in.Lt(prev, v), true}}
	for f := range flags {
		better = append(better, Lit{f, false})
	}
	for _, bt := range better {
		s := m.in.newConj(nil)
		ls := append([]Lit{{m.in.Lt(vk, v), false}, bt}, b.pc.lits...)
		if len(L.outerPC) == 1 {
			ls = append(ls, L.outerPC[0].lits...)
		}
		for _, l := range ls {
			if s != nil {
				s = s.with(l.atom, l.val)
			}
		}
		if s == nil {
			continue
		}
		if u := uncovered(s, sets); u != nil {
			if len(sets) == 0 {
				m.open(rule, m.name, "the search for the start version is not recognised")
				return
			}
			for _, l := range u.lits {
				if l.atom.contains(func(t *Term) bool { return t.op == OCall || t.op == OUnknown }) {
					m.open(rule, m.name, "whether a later stored version is taken depends on %s", l.atom)
					return
				}
			}
			m.bad(rule, m.name, "a later stored version that is not newer than the requested one is passed over, when %s", u)
			return
		}
	}
	for _, e := range d.early {
		if !asc || !m.implied(e, m.in.Lt(vk, v), true) {
			m.open(rule, m.name, "the search for the start version may end early: %s", e)
			return
		}
	}
	m.ok(rule, m.name+": the latest stored version that is not newer")
}

// firstFlag: the branch is taken only while a flag is unset that is set with
// the first candidate, so no candidate precedes it.
func (m *logFn) firstFlag(L *Loop, c *LoopPath, cj *Conj, B *Term) *Term {
	_, _, best := carried(m.in, B)
	for _, l := range cj.lits {
		if l.val || l.atom.op != OLoop {
			continue
		}
		LL, init, next := carried(m.in, l.atom)
		if LL != L || init != m.in.Bool(false) {
			continue
		}
		ok := true
		for _, k := range L.conts {
			n := next(k)
			b := best(k)
			if b == nil || n == nil || b != B && n != m.in.Bool(true) || b == B && n != l.atom {
				ok = false
			}
		}
		if ok {
			return l.atom
		}
	}
	return nil
}

// cached: a snapshot that is stored by the way.
func (m *logFn) cached(o Outcome, res, B *Term) {
	rule := "cache"
	vk := m.args[1]
	content := m.mapOf(o, m.refS)
	if content == m.S {
		m.ok(rule, m.name+": nothing is stored")
		return
	}
	n := 0
	for content.op == OInsert {
		k, v := content.args[1], content.args[2]
		if k != vk {
			if understood(k) || k == B {
				m.bad(rule, m.name, "a snapshot is stored under %s instead of the requested version", k)
			} else {
				m.open(rule, m.name, "a snapshot is stored under %s", k)
			}
			return
		}
		if v != res {
			m.bad(rule, m.name, "the stored snapshot is %s instead of the result", v)
			return
		}
		for _, pc := range o.st.pc {
			if !m.implied(pc, m.in.Has(m.S, vk), false) && !m.implied(pc, m.in.Lt(B, vk), true) && !m.implied(pc, m.in.Eq(B, vk), false) {
				m.bad(rule, m.name, "a stored snapshot of the requested version may be replaced")
				return
			}
		}
		content = content.args[0]
		n++
	}
	if content != m.S {
		x := &comp{e: m.e}
		for _, g := range x.maps(content) {
			if len(g.doms) > 0 && g.key == g.doms[0].v && g.doms[0].kind == "num" {
				m.bad(rule, m.name, "snapshots of other versions, %s, are stored", g.doms[0])
				return
			}
		}
		m.open(rule, m.name, "the stored snapshots %s are not recognised", content)
		return
	}
	m.ok(rule, m.name+": only the result under the requested version, where none was")
}

// snapshotCache decides only what a snapshot query stores.
func (m *logFn) snapshotCache() {
	for _, o := range m.outs {
		if len(o.results) != 1 {
			return
		}
		x := &comp{e: m.e}
		base, _ := x.fold(o.results[0])
		if base.op != OLookup || base.args[0] != m.S {
			if m.mapOf(o, m.refS) != m.S {
				m.open("cache", m.name, "the result does not start from a stored snapshot")
			}
			continue
		}
		m.cached(o, o.results[0], base.args[1])
	}
}
