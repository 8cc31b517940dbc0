package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "T03", run: ruleT03,
		explanation: "Abstract interpretation of every place that makes, prints or converts a leaf: wherever a timestamp is printed, stored as a timestamp, or put into a leaf, it is the timestamp of the very leaf (or JSON object, or text) whose value goes with it, on every path of every loop over a container; in the parser the timestamp of a leaf is the one that was read in the same iteration, or the default if none was read. For diffing and applying, the values and timestamps of the operations and of the written leaves are compared with those of their sources for each kind of document.",
		assumptions: []string{
			"what a number, string or timestamp looks like in the text is the subject of T04, T07 and N01",
			"the functions that the parser uses to read a timestamp return an integer and an error, or an integer",
		}})
}

func ruleT03(c *Ctx) {
	k := &kinds{c: c, pairs: true}
	n := traversals(c, k)
	n += readers(c, k)
	n += parsed(c)
	k.settle()
	c.part(ruleP05, "has the value", "has the old", "has the timestamp", "differ in their timestamps")
	c.part(ruleP06, "the value is", "the timestamp is", "the value becomes a", "no leaf is written")
	c.atLeast("pair", n-k.passed)
}

// paired collects where timestamps and values of leaves end up in the terms.
type paired struct {
	stamps []*Term // what is printed or stored as a timestamp
	vals   []*Term // what is stored as the value of a leaf
	fields []*Term // values and timestamps of leaves
	whole  map[*Term]bool
	calls  []*Term
}

// A delegation is a call that a leaf is passed on to, by a function that does
// not print the timestamp itself; a loss is a path through a function on
// which the timestamp is not printed, if the parameter at may have the value.
type delegation struct {
	fn string
	at int
	v  constant.Value
}

type loss struct {
	fn    string
	at    int
	under func(constant.Value) bool
	say   func()
}

// settle finds losses on paths that leaves are passed on to.
func (k *kinds) settle() {
	for _, l := range k.losses {
		for _, d := range k.delegated {
			if d.fn == l.fn && d.at == l.at && l.under(d.v) {
				l.say()
				break
			}
		}
	}
}

func (k *kinds) gather(heaps []map[*Term]*Term, roots ...*Term) *paired {
	p := &paired{whole: map[*Term]bool{}}
	leaf := map[types.Type]docKind{}
	find := func(t types.Type) (docKind, bool) {
		for _, q := range k.docs {
			if q.leaf && t != nil && types.Identical(q.T, t) {
				leaf[t] = q
				return q, true
			}
		}
		return docKind{}, false
	}
	str := func(t *Term, s string) bool {
		v, ok := t.constString()
		return ok && v == s
	}
	k.each(heaps, func(t *Term) bool {
		switch t.op {
		case OCall:
			p.calls = append(p.calls, t)
			if t.callName() == "decimal" && len(t.args) == 1 {
				p.stamps = append(p.stamps, t.args[0])
			}
		case OInsert:
			if str(t.args[1], "timestamp") {
				p.stamps = append(p.stamps, unboxed(t.args[2]))
			}
			if str(t.args[1], "value") {
				p.vals = append(p.vals, unboxed(t.args[2]))
			}
		case OStruct:
			if q, ok := find(t.typ); ok {
				p.stamps = append(p.stamps, t.args[q.ti])
				p.vals = append(p.vals, t.args[q.vi])
			}
		case OField:
			if _, ok := find(t.args[0].typ); ok {
				p.fields = append(p.fields, t)
				return false
			}
		}
		if _, ok := find(t.typ); ok || t.op == OLookup || t.op == OElem || t.op == OUnbox {
			p.whole[t] = true
		}
		return true
	}, roots...)
	return p
}

func unboxed(t *Term) *Term {
	if t.op == OIface {
		return t.args[0]
	}
	return t
}

// pair judges what becomes of the leaf d.
func (k *kinds) pair(d docCell, p *paired, pc *Conj, lost func(msg func()), what string) {
	in := k.x.in
	show := brief(pc)
	for _, s := range p.stamps {
		switch n, isC := s.constInt(); {
		case d.k.leaf && s == d.ts:
		case !d.k.leaf && d.k.T != nil || d.k.T == nil && d.t != nil && !d.k.leaf:
			// a container or null has no timestamp of its own
			if k.isStamp(s) || isC || s.op == OLoop {
				k.judge(pc, "%s has the timestamp %s under %s", what, brief(s), show)
			}
		case isC:
			k.judge(pc, "the timestamp of %s becomes %d under %s", what, n, show)
		case k.isStamp(s):
			k.judge(pc, "%s gets the timestamp %s of another leaf under %s", what, brief(s), show)
		case s.op == OLoop:
			k.judge(pc, "%s gets the timestamp %s, which an earlier step has left, under %s", what, brief(s), show)
		case d.k.leaf && narrowed(s) == d.ts:
			k.judge(pc, "the timestamp of %s is cut to %s", what, brief(s))
		default:
			k.undecided("whether %s is the timestamp of %s is not known", brief(s), what)
		}
	}
	if !d.k.leaf {
		return
	}
	for _, v := range p.vals {
		switch {
		case v == d.val:
		case v.op == OConst && isBool(v.typ):
		case k.isValue(v):
			k.judge(pc, "%s gets the value %s of another leaf under %s", what, brief(v), show)
		case v.op == OLoop:
			k.judge(pc, "%s gets the value %s, which an earlier step has left, under %s", what, brief(v), show)
		case v.op == OConst:
			k.judge(pc, "the value of %s becomes %s under %s", what, brief(v), show)
		case v.contains(func(t *Term) bool { return t == d.val }):
		default:
			k.undecided("whether %s is the value of %s is not known", brief(v), what)
		}
	}
	own := false
	for _, f := range p.fields {
		if f != d.ts && f != d.val {
			k.judge(pc, "%s of another leaf goes with %s under %s", brief(f), what, show)
		}
		own = own || f == d.ts
	}
	if v, known := pc.decide(in.Lt(d.ts, in.Int(0))); own || lost == nil || known && v {
		return
	}
	if !p.whole[d.v] && !p.whole[d.t] {
		lost(func() { k.judge(pc, "the timestamp of %s is lost under %s", what, show) })
		return
	}
	for _, call := range p.calls {
		has := false
		for _, a := range call.args {
			has = has || a == d.v || a == d.t || unboxed(a) == d.v
		}
		for i, a := range call.args {
			if has && a.op == OConst && a.cv != nil {
				k.delegated = append(k.delegated, delegation{call.callName(), i, a.cv})
			}
		}
	}
}

// narrowed: what t converts through a type that does not hold every int64.
func narrowed(t *Term) *Term {
	lossy := false
	for t.op == OConvert {
		b, ok := under(t.typ).(*types.Basic)
		lossy = lossy || ok && b.Info()&types.IsNumeric != 0 && types.SizesFor("gc", "amd64").Sizeof(b) < 8
		t = t.args[0]
	}
	if lossy {
		return t
	}
	return nil
}

func at(msg func()) { msg() }

func (k *kinds) isField(t *Term, i func(docKind) int) bool {
	if t.op != OField {
		return false
	}
	for _, q := range k.docs {
		if q.leaf && types.Identical(q.T, t.args[0].typ) {
			return t == k.x.in.Field(t.args[0], i(q), t.typ)
		}
	}
	return false
}

func (k *kinds) isLeaf(t types.Type) bool {
	for _, q := range k.docs {
		if q.leaf && types.Identical(q.T, t) {
			return true
		}
	}
	return false
}

func (k *kinds) isStamp(t *Term) bool { return k.isField(t, func(q docKind) int { return q.ti }) }
func (k *kinds) isValue(t *Term) bool { return k.isField(t, func(q docKind) int { return q.vi }) }

// pairOutcome: what a function makes of a single leaf.
func (k *kinds) pairOutcome(d docCell, o Outcome, pc *Conj, roots []*Term, heaps []map[*Term]*Term) {
	// whether a timestamp is printed may depend on the place
	fn := k.x.cur.fn
	lost := at
	for _, l := range pc.lits {
		for i, p := range fn.Params {
			b, ok := under(p.Type()).(*types.Basic)
			if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				continue
			}
			var sym *Term
			l.atom.contains(func(t *Term) bool {
				if t.op == OSym && t.aux == p.Name() {
					sym = t
				}
				return false
			})
			if sym == nil {
				continue
			}
			lost = func(msg func()) {
				in, name := k.x.in, k.name
				k.losses = append(k.losses, loss{fullName(fn), i, func(v constant.Value) bool {
					if isBool(sym.typ) {
						return pc.with(sym, constant.BoolVal(v)) != nil
					}
					return pc.with(in.Eq(sym, in.Const(sym.typ, v)), true) != nil
				}, func() { k.name = name; msg() }})
			}
		}
	}
	k.pair(d, k.gather(heaps, roots...), pc, lost, "a leaf")
}

// pairJSON: what a function makes of a bare JSON value.
func (k *kinds) pairJSON(d docCell, pc *Conj, heaps []map[*Term]*Term, roots []*Term) {
	if k.number == nil {
		if d.k.T == nil {
			k.pair(d, k.gather(heaps, roots...), pc, nil, "null")
		}
		return
	}
	p := k.gather(heaps, roots...)
	for _, s := range p.stamps {
		switch n, isC := s.constInt(); {
		case isC && n >= 0:
			k.judge(pc, "a missing timestamp is read as %d", n)
		case !isC:
			k.undecided("whether %s is the default timestamp is not known", brief(s))
		}
	}
	for _, v := range p.vals {
		switch {
		case d.v != nil && v.contains(func(t *Term) bool { return t == d.v }):
		case v.op == OConst && isBool(v.typ):
		case v.op == OConst:
			k.judge(pc, "the value %s is not that of the JSON value", brief(v))
		default:
			k.undecided("whether %s is the JSON value is not known", brief(v))
		}
	}
}

// pairObject: the leaf that a function makes of the JSON object m.
func (k *kinds) pairObject(m, val *Term, pc *Conj, o Outcome) {
	ts := k.x.in.Lookup(m, k.x.in.Const(tString, constant.MakeString("timestamp")), k.x.iface)
	p := k.gather([]map[*Term]*Term{o.st.heap}, o.results[0])
	from := func(t, s *Term) bool { return t.contains(func(u *Term) bool { return u == s }) }
	for _, s := range p.stamps {
		_, isC := s.constInt()
		switch {
		case from(s, ts):
		case isC || from(s, val) || s.op == OConst:
			k.judge(pc, "the timestamp becomes %s under %s", brief(s), brief(pc))
		default:
			k.undecided("whether %s is the timestamp is not known", brief(s))
		}
	}
	for _, v := range p.vals {
		switch {
		case from(v, val) && !from(v, ts):
		case v.op == OConst && isBool(v.typ):
		case v.op == OConst || from(v, ts):
			k.judge(pc, "the value becomes %s under %s", brief(v), brief(pc))
		default:
			k.undecided("whether %s is the value is not known", brief(v))
		}
	}
}

// parsed: in the functions of the parser that read values, a leaf has the
// timestamp that was read for it.
func parsed(c *Ctx) (n int) {
	g := findGrammar(c)
	if g == nil {
		return 0
	}
	_, docs := docKinds()
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil || !c.p.inRepo(f) {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if h := call.Common().StaticCallee(); h != nil {
						visit(h)
					}
				}
			}
		}
	}
	visit(g.entry)
	state := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if q, ok := under(p.Type()).(*types.Pointer); ok && types.Identical(q.Elem(), g.typ) {
				return true
			}
		}
		return false
	}
	for _, f := range fns {
		if !state(f) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 {
			continue
		}
		r := rs.At(0).Type()
		if !isIface(r) && !isInteger(r) || isInteger(r) && rs.Len() < 2 {
			continue
		}
		if b, ok := under(r).(*types.Basic); ok && b.Kind() != types.Int64 {
			continue
		}
		e := newEval(c.p)
		e.forgetExit = true
		e.opaque = func(h *ssa.Function) bool { return h != f && state(h) }
		outs := e.root(f, e.paramSyms(f))
		q := &parsePairs{c: c, e: e, cx: &comp{e: e}, fn: f, docs: docs, clean: true}
		q.run(outs, isInteger(r))
		c.analysed[f.String()] = true
		n++
	}
	return
}

type parsePairs struct {
	c     *Ctx
	e     *Eval
	cx    *comp
	fn    *ssa.Function
	docs  []docKind
	clean bool
}

func (q *parsePairs) bad(f string, a ...any) {
	q.clean = false
	q.c.bad("parse", q.fn.Name(), q.c.p.pos(q.fn.Pos()), f, a...)
}

func (q *parsePairs) open(f string, a ...any) {
	q.clean = false
	q.c.undecided("parse", q.fn.Name(), q.c.p.pos(q.fn.Pos()), f, a...)
}

func (q *parsePairs) run(outs []Outcome, stamp bool) {
	if len(q.e.problems) > 0 {
		q.open("not followed: %s", sortedKeys(q.e.problems)[0])
	}
	for _, o := range outs {
		for _, pc := range o.st.pc {
			last := o.results[len(o.results)-1]
			if last.op == OErr {
				continue
			}
			if v, known := pc.decide(q.e.in.Eq(last, q.e.in.Zero(last.typ))); !last.isNil() && known && !v {
				continue
			}
			if stamp {
				q.stamp(o.results[0], pc)
			} else {
				q.leaves(pc, o.st.heap, nil, o.results[0])
			}
		}
	}
	for _, key := range sortedKeys(q.e.loopsByKey) {
		L := q.e.loopsByKey[key]
		for _, lp := range append(append(L.conts[:len(L.conts):len(L.conts)], L.exits...), L.returns...) {
			for _, pc := range lp.pc {
				var ts []*Term
				for _, t := range lp.phis {
					ts = append(ts, t)
				}
				for _, t := range lp.heap {
					ts = append(ts, t)
				}
				q.leaves(pc, lp.heap, L, ts...)
			}
		}
	}
	if q.clean {
		q.c.ok("pair", q.fn.Name())
	}
}

// stamp: a timestamp that is returned without an error is a number that was
// read, or negative.
func (q *parsePairs) stamp(t *Term, pc *Conj) {
	if n, ok := t.constInt(); ok {
		if n >= 0 {
			q.bad("a missing timestamp is read as %d under %s", n, brief(pc))
		}
		return
	}
	if isCall(t) == nil && !(t.op == OUnknown) && t.op != OLoop && t.op != OBin && t.op != OAddK {
		q.open("the timestamp %s is not followed", brief(t))
	}
}

// isCall: t is the result, or a part of the result, of a call.
func isCall(t *Term) *Term {
	for t.op == OExtract || t.op == OUnbox || t.op == OIface || t.op == OConvert {
		t = t.args[0]
	}
	if t.op == OCall {
		return t
	}
	return nil
}

// reads: the timestamps that were read without an error under pc.
func (q *parsePairs) reads(pc *Conj) (out []*Term) {
	seen := map[*Term]bool{}
	for _, l := range pc.lits {
		l.atom.contains(func(t *Term) bool {
			if t.op == OExtract && t.args[0].op == OCall && !seen[t.args[0]] {
				call := t.args[0]
				seen[call] = true
				for _, f := range q.c.p.byName(call.callName()) {
					rs := f.Signature.Results()
					if rs.Len() != 2 || !isInteger(rs.At(0).Type()) {
						continue
					}
					if b, ok := under(rs.At(0).Type()).(*types.Basic); !ok || b.Kind() != types.Int64 {
						continue
					}
					err := q.e.in.mk(OExtract, rs.At(1).Type(), "1", nil, nil, call)
					if v, known := pc.decide(q.e.in.Eq(err, q.e.in.Zero(err.typ))); known && v {
						out = append(out, q.e.in.mk(OExtract, rs.At(0).Type(), "0", nil, nil, call))
					}
				}
			}
			return false
		})
	}
	return
}

func (q *parsePairs) leaves(pc *Conj, heap map[*Term]*Term, L *Loop, roots ...*Term) {
	k := &kinds{docs: q.docs, x: &explorer{e: q.e, in: q.e.in}, cx: q.cx, plain: map[*Term]bool{}}
	p := k.gather([]map[*Term]*Term{heap}, roots...)
	reads := q.reads(pc)
	show := func() string {
		s := brief(pc)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return s
	}
	if L == nil && len(roots) == 1 {
		if t := unboxed(roots[0]); t.op == OUnbox && k.isLeaf(t.typ) && isCall(t) != nil && q.unread(pc, reads) != nil {
			q.bad("the timestamp that is read with %s is dropped under %s", brief(t), show())
		}
	}
	for i, s := range p.stamps {
		if i >= len(p.vals) {
			break
		}
		v := p.vals[i]
		n, isC := s.constInt()
		switch {
		case isC && n >= 0:
			q.bad("a missing timestamp is read as %d under %s", n, show())
		case isC && len(reads) > 0:
			if x := q.unread(pc, reads); x != nil {
				q.bad("the timestamp that is read before the value is dropped under %s", show())
			}
		case isC:
		case s.op == OSym && isInteger(s.typ): // handed in by the caller
		case s.op == OLoop:
			q.bad("a leaf gets the timestamp of an earlier one, %s, under %s", brief(s), show())
		case k.isStamp(s):
			if !k.isValue(v) || s.args[0] != v.args[0] {
				q.bad("the value %s gets the timestamp %s of another leaf", brief(v), brief(s))
			} else if x := q.unread(pc, reads); x != nil {
				q.bad("the timestamp that is read before the value is dropped under %s", show())
			}
		case isCall(s) != nil:
			ok := false
			for _, r := range reads {
				ok = ok || r == s
			}
			if !ok {
				q.open("whether %s is a timestamp is not known", brief(s))
			}
		default:
			q.open("whether %s is a timestamp is not known", brief(s))
		}
		switch {
		case v.op == OLoop:
			q.bad("a leaf gets the value of an earlier one, %s, under %s", brief(v), show())
		case v.op == OConst && isBool(v.typ):
			want := v.cv.ExactString()
			for _, l := range pc.lits {
				if call := isCall(l.atom); l.val && call != nil {
					for _, a := range call.args {
						if s, ok := a.constString(); ok && (s == "true" || s == "false") && s != want {
							q.bad("%s is read as %s", s, want)
						}
					}
				}
			}
		}
	}
}

// unread: a timestamp among those read that may be there.
func (q *parsePairs) unread(pc *Conj, reads []*Term) *Term {
	for _, r := range reads {
		if pc.with(q.e.in.Lt(r, q.e.in.Int(0)), false) != nil {
			if v, known := pc.decide(q.e.in.Lt(r, q.e.in.Int(0))); !known || !v {
				return r
			}
		}
	}
	return nil
}

// byName lists the functions of the program with the full name.
func (p *Program) byName(name string) (out []*ssa.Function) {
	for _, f := range p.fns {
		if fullName(f) == name {
			out = append(out, f)
		}
	}
	return
}
