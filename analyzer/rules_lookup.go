package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "T06", run: ruleT06,
		explanation: "Abstract interpretation of the lookup, once for each kind of document at the head of any list of segments: the outcome must be the member, the element within its bounds, or an error; every operation that can panic is an obligation; longer lists by induction over the recursion or the loop.",
		assumptions: []string{"documents of bounded depth"}})
}

// looker decides how GetValue follows a path.
type looker struct {
	c     *Ctx
	e     *Eval
	in    *Interner
	x     *comp
	iface types.Type
	kinds []docKind
	fn    *ssa.Function
	split *ssa.Function
	P     *Term
	name  string
	clean bool
	enter map[string]bool // recursive calls that have a segment to go on with
}

func ruleT06(c *Ctx) {
	sp := splitRules(c, "empty", "slash", "other")
	if sp.ok {
		enc := codec{replStep{pairs: []replPair{{"~", "~0"}, {"/", "~1"}}, limit: -1}}
		proved, counter, found := inverse(enc, sp.dec, '/')
		switch {
		case proved:
			c.ok("unescape", "SplitPath")
		case found:
			code := enc.apply(counter)
			c.bad("unescape", "SplitPath", "-", "the segment %q is read as %q, not as %q", code, sp.dec.apply(code), counter)
		default:
			c.undecided("unescape", "SplitPath", "-", "whether %s decodes the segments is not decided", sp.dec)
		}
	}
	l := &looker{c: c}
	l.iface, l.kinds = docKinds()
	l.fn, l.split = c.p.fn("internal/tson", "GetValue"), c.p.fn("internal/tson", "SplitPath")
	if l.fn == nil || l.split == nil || l.iface == nil || len(l.fn.Params) != 2 || l.fn.Signature.Results().Len() != 2 {
		c.undecided("anchor", "GetValue", "-", "the function is not found")
		return
	}
	l.e = newEval(c.p)
	l.in = l.e.in
	l.x = &comp{e: l.e}
	l.e.forgetExit = true
	l.e.checkPanics = true
	l.e.oldInvs = map[Lit]bool{}
	l.e.onOpaque = l.recurse
	l.enter = map[string]bool{}
	l.e.opaque = func(f *ssa.Function) bool { return f == l.split }
	for _, k := range l.kinds {
		l.kind(k)
	}
	for _, f := range l.e.entered() {
		c.analysed[f] = true
	}
	c.obligations(l.e)
	for _, k := range sortedKeys(l.enter) {
		if l.enter[k] {
			c.ok("entry", fmt.Sprintf("call %d", len(c.oks["entry"])+1))
		} else {
			c.undecided("entry", l.fn.Name(), k, "a lookup may go on without a segment")
		}
	}
}

func (l *looker) bad(rule, f string, a ...any) {
	l.clean = false
	l.c.bad(rule, l.name, l.c.p.pos(l.fn.Pos()), f, a...)
}

func (l *looker) open(rule, f string, a ...any) {
	l.clean = false
	l.c.undecided(rule, l.name, l.c.p.pos(l.fn.Pos()), f, a...)
}

// differ reports a difference that is definite if everything is understood.
func (l *looker) judge(pc *Conj, t *Term, rule, f string, a ...any) {
	known := true
	for _, x := range pc.lits {
		if failure(x) || l.e.isInv(x) {
			continue
		}
		known = known && !x.atom.contains(func(s *Term) bool {
			return !arbitrary(l.x, s) && !l.isStep(s) && !(s.op == OLoop && types.Identical(s.typ, l.iface))
		})
	}
	if t != nil {
		known = known && !t.contains(func(s *Term) bool { return s.op == OUnknown })
	}
	if known {
		l.bad(rule, f, a...)
	} else {
		l.open(rule, f, a...)
	}
}

func (l *looker) isStep(t *Term) bool {
	return t.op == OCall && strings.Contains(t.callName(), l.c.p.mod)
}

// segments is the list of segments in t.
func (l *looker) segments(t *Term) *Term {
	var p *Term
	t.contains(func(s *Term) bool {
		if s.op == OExtract && s.args[0].op == OCall && s.args[0].callName() == fullName(l.split) {
			p = s
		}
		return p != nil
	})
	return p
}

// recurse: a function that is only entered with a segment calls itself with
// one, so that its panics have been looked for with all arguments.
func (l *looker) recurse(e *Eval, fr *Frame, st *State, fn *ssa.Function, clo *Term, args []*Term, instr ssa.Instruction) {
	where := l.c.p.where(instr)
	at := fr
	for at != nil && at.fn != fn {
		at = at.parent
	}
	ok := at != nil
	for i, a := range args {
		if !ok || a.typ == nil || !isStrings(a.typ) {
			continue
		}
		some := l.in.Lt(l.in.Int(0), e.lenOf(st, at.args[i]))
		if holds(at.entry, some, true) {
			ok = holds(st.pc, l.in.Lt(l.in.Int(0), e.lenOf(st, a)), true)
		}
	}
	if was, seen := l.enter[where]; !seen || was {
		l.enter[where] = ok
	}
}

// place is one step: a document and the segment that is looked up in it.
type place struct {
	d     docCell
	key   *Term
	base  *Term // the members of an object
	child *Term
	idx   *Term
}

func (l *looker) place(d docCell, key *Term) place {
	p := place{d: d, key: key}
	if d.k.obj {
		p.base = l.in.mk(OMapInit, d.v.typ, "", nil, nil, d.v)
		p.child = l.in.Lookup(p.base, key, l.iface)
	}
	return p
}

// index recognises the index that the segment names.
func (p *place) index(t *Term) bool {
	for t.op == OConvert {
		t = t.args[0]
	}
	if t.op != OExtract || t.aux != "0" || t.args[0].op != OCall {
		return false
	}
	c := t.args[0]
	switch c.callName() {
	case "strconv.ParseInt", "strconv.ParseUint":
		if b, ok := c.args[1].constInt(); !ok || b != 10 {
			return false
		}
	case "strconv.Atoi":
	default:
		return false
	}
	return c.args[0] == p.key
}

// enters: t is what the segment leads to.
func (l *looker) enters(p *place, pc *Conj, t *Term) (good bool) {
	in := l.in
	switch {
	case p.d.k.obj:
		if t != p.child {
			switch {
			case t.isNil() || t == p.d.t:
				l.judge(pc, t, "step", "an object is entered at %s", brief(t))
			case t.op == OLookup && t.args[0] == p.base:
				l.bad("step", "an object is entered by the key %s", brief(t.args[1]))
			default:
				l.open("step", "an object is entered at %s", brief(t))
			}
			return false
		}
		if v, known := pc.decide(in.Has(p.base, p.key)); !known || !v {
			if v, known := pc.decide(in.Eq(p.child, in.Zero(l.iface))); known && !v {
				return true
			}
			l.judge(pc, nil, "step", "a missing key leads to a value")
			return false
		}
	case p.d.k.arr:
		if t.op == OElem && t.args[0] == p.d.v {
			if p.index(t.args[1]) {
				p.idx = t.args[1]
				return true
			}
			if b, _ := splitAddK(t.args[1]); b != nil && b != t.args[1] && p.index(b) {
				l.bad("step", "an array is entered at %s", brief(t.args[1]))
				return false
			}
			if t.args[1].op == OConst || t.args[1].op == OBin {
				l.judge(pc, t, "step", "an array is entered at %s", brief(t.args[1]))
				return false
			}
		}
		if t.isNil() || t == p.d.t {
			l.judge(pc, t, "step", "an array is entered at %s", brief(t))
		} else {
			l.open("step", "an array is entered at %s", brief(t))
		}
		return false
	default:
		l.judge(pc, nil, "step", "something is found below a leaf or null")
		return false
	}
	return true
}

// refusal: the conditions are a reason for which the step fails. last: the
// segment is the last one, if that is known.
func (l *looker) refusal(p *place, pc *Conj) bool {
	in := l.in
	more, _ := pc.decide(in.Lt(in.Int(1), in.Len(l.P)))
	below := func(child *Term) bool { // the child cannot be entered
		if !more || child == nil {
			return false
		}
		for _, k := range l.kinds {
			if k.leaf || k.T == nil {
				if d := l.e.docAs(k, l.iface, child); holds(DNF{pc}, d.lits[0].atom, true) {
					return true
				}
			}
		}
		return false
	}
	switch {
	case p.d.k.obj:
		if v, known := pc.decide(in.Has(p.base, p.key)); known && !v {
			return true
		}
		return below(p.child)
	case p.d.k.arr:
		// any index that the conditions mention
		ok := false
		for _, y := range pc.lits {
			y.atom.contains(func(t *Term) bool {
				if t.op == OExtract && t.aux == "1" && t.args[0].op == OCall && p.index(in.mk(OExtract, types.Typ[types.Int], "0", nil, nil, t.args[0])) {
					if v, known := pc.decide(in.Eq(t, in.Zero(t.typ))); known && !v {
						ok = true
					}
				}
				if p.index(t) {
					if v, known := pc.decide(in.Lt(t, in.Int(0))); known && v {
						ok = true
					}
					if v, known := pc.decide(in.Lt(t, in.Len(p.d.v))); known && !v {
						ok = true
					}
					if below(in.Elem(p.d.v, t, l.iface)) {
						ok = true
					}
				}
				return false
			})
		}
		if v, known := pc.decide(in.Lt(in.Int(0), in.Len(p.d.v))); known && !v {
			return true
		}
		if v, known := pc.decide(in.Eq(p.key, in.Const(tString, constant.MakeString("")))); known && v {
			return true
		}
		return ok
	}
	return true
}

func (l *looker) kind(k docKind) {
	e, in := l.e, l.in
	l.name, l.clean = "GetValue in "+k.name, true
	d := e.docCell(k, l.iface, "D")
	args := e.paramSyms(l.fn)
	path := args[1]
	args[0] = d.t
	e.problems, e.approx = map[string]bool{}, 0
	e.loopsByKey = map[string]*Loop{}
	outs := e.root(l.fn, args)
	for _, L := range e.loopsByKey {
		for _, v := range L.invs {
			e.oldInvs[v] = true
		}
	}
	if len(e.problems) > 0 {
		l.open("cells", "not followed: %s", sortedKeys(e.problems)[0])
		return
	}
	// the segments
	l.P = nil
	for _, o := range outs {
		for _, pc := range o.st.pc {
			for _, y := range pc.lits {
				if l.P == nil {
					l.P = l.segments(y.atom)
				}
			}
		}
		for _, r := range o.results {
			if l.P == nil {
				l.P = l.segments(r)
			}
		}
	}
	if l.P == nil {
		l.open("segments", "how the path is split is not followed")
		return
	}
	if l.P.args[0].args[0] != path {
		if p := l.P.args[0].args[0]; p.op == OCall && strings.HasPrefix(p.callName(), "strings.") || p.op == OSliceOf {
			l.bad("segments", "the segments are those of %s", brief(p))
		} else {
			l.open("segments", "the segments are those of %s", brief(p))
		}
		return
	}
	root := l.place(d, in.Elem(l.P, in.Int(0), tString))
	n := in.Len(l.P)
	succeeds, descends := false, false
	loops := map[*Loop]*Term{}
	for _, o := range outs {
		r, er := o.results[0], o.results[1]
		for _, pc := range o.st.pc {
			empty, knownE := pc.decide(in.Eq(n, in.Int(0)))
			if v, known := pc.decide(in.Eq(path, in.Const(tString, constant.MakeString("")))); known && v {
				empty, knownE = true, true // as SplitPath is known to split it
			}
			if call := l.recursion(r, er); call != nil {
				descends = true
				if v, known := pc.decide(in.Eq(n, in.Int(1))); !known || v {
					succeeds = true // the function has been seen to return the document if no segment is left
				}
				l.descent(&root, pc, call)
				continue
			}
			failed, known := errorResult(pc, er, in)
			if !known {
				l.open("outcome", "whether the lookup fails is not decided: %s", brief(er))
				continue
			}
			L, init, _ := carried(in, r)
			if L == nil && failed {
				L = l.active(pc)
			}
			switch {
			case L != nil && (failed || init == d.t):
				if !failed {
					loops[L] = r
					if _, test, _, ok := l.x.domOf(L); ok {
						if v, known := pc.decide(test); !known || v {
							l.judge(pc, nil, "outcome", "the path is not followed to its end under %s", brief(l.x.bare(pc, L, test)))
						}
					}
				} else if _, ok := loops[L]; !ok {
					loops[L] = nil
				}
				succeeds = true
			case failed && knownE && empty:
				l.judge(pc, nil, "outcome", "the empty path is refused")
			case failed:
				if !l.refusal(&root, pc) && !l.passedOn(pc) {
					l.judge(pc, nil, "outcome", "a lookup fails under %s", brief(pc))
				}
			case knownE && empty:
				if r != d.t {
					l.judge(pc, r, "outcome", "the empty path leads to %s", brief(r))
				}
			case r == d.t:
				l.judge(pc, nil, "outcome", "the path is not followed under %s", brief(pc))
			default:
				succeeds = true
				if l.enters(&root, pc, r) {
					if v, known := pc.decide(in.Eq(n, in.Int(1))); !known || !v {
						l.judge(pc, nil, "outcome", "the rest of the path is not followed under %s", brief(pc))
					}
				}
			}
		}
	}
	for L, acc := range loops {
		if acc == nil {
			for g := range loopValues(L) {
				if types.Identical(g.typ, l.iface) {
					acc = g
				}
			}
		}
		if acc == nil {
			l.open("loop", "the loop over the segments is not followed")
			continue
		}
		l.loop(L, acc)
		descends = true
	}
	if l.clean && (k.obj || k.arr) && (!succeeds || !descends) {
		l.bad("outcome", "nothing is ever found below it")
	}
	if l.clean {
		l.c.ok("cells", l.name)
	}
}

// active is the loop in whose iteration pc holds.
func (l *looker) active(pc *Conj) *Loop {
	var L *Loop
	for _, y := range pc.lits {
		y.atom.contains(func(t *Term) bool {
			if t.op == OLoop && types.Identical(t.typ, l.iface) {
				L = t.obj.(*Loop)
			}
			return false
		})
	}
	return L
}

func loopValues(L *Loop) map[*Term]bool {
	m := map[*Term]bool{}
	for _, g := range L.gen {
		if g.op == OLoop && g.typ != nil {
			m[g] = true
		}
	}
	return m
}

// recursion: both results are those of one recursive call.
func (l *looker) recursion(r, er *Term) *Term {
	if r.op == OExtract && er.op == OExtract && r.args[0] == er.args[0] && r.aux == "0" && er.aux == "1" && l.isStep(r.args[0]) {
		return r.args[0]
	}
	return nil
}

// passedOn: a recursive call has failed.
func (l *looker) passedOn(pc *Conj) bool {
	for _, y := range pc.lits {
		if y.atom.op == OEq && !y.val {
			for _, t := range y.atom.args {
				if t.op == OExtract && t.aux == "1" && l.isStep(t.args[0]) {
					return true
				}
			}
		}
	}
	return false
}

func (l *looker) descent(p *place, pc *Conj, call *Term) {
	var doc, rest *Term
	for _, a := range call.args {
		switch {
		case a.typ != nil && isStrings(a.typ):
			rest = a
		case a.op == OIface || a.typ != nil && types.Identical(a.typ, l.iface):
			doc = a
		}
	}
	if doc == nil || rest == nil {
		l.open("step", "the recursive call %s is not followed", brief(call))
		return
	}
	if !l.enters(p, pc, doc) {
		return
	}
	if rest != l.in.SliceOf(l.P, l.in.Int(1), nil, l.P.typ) {
		if rest == l.P || rest.op == OSliceOf && rest.args[0] == l.P {
			l.bad("step", "the lookup goes on with the segments %s", brief(rest))
		} else {
			l.open("step", "the lookup goes on with the segments %s", brief(rest))
		}
	}
}

// loop: each iteration enters the value of the previous one.
func (l *looker) loop(L *Loop, acc *Term) {
	in := l.in
	d, test, ind, ok := l.x.domOf(L)
	if !ok || d.kind != "index" || d.of != l.P && d.raw != l.P {
		if ok && d.kind == "num" {
			if p, _ := splitAddK(d.hi); p == in.Len(l.P) {
				l.bad("loop", "only the segments from %s to %s are followed", d.lo, d.hi)
				return
			}
		}
		l.open("loop", "the loop does not go over the segments")
		return
	}
	if d.order != "asc" {
		l.bad("loop", "the segments are followed backwards")
		return
	}
	key := in.Elem(l.P, ind.v, tString)
	_, _, next := carried(in, acc)
	places := func(pc *Conj) *place {
		for _, k := range l.kinds {
			as := l.e.docAs(k, l.iface, acc)
			if holds(DNF{pc}, as.lits[0].atom, true) {
				p := l.place(as, key)
				return &p
			}
		}
		return nil
	}
	entered := map[string]bool{}
	for _, c := range L.conts {
		for _, pc := range c.pc {
			p := places(pc)
			if p == nil {
				l.judge(pc, next(c), "loop", "a document of any kind is entered at %s", brief(next(c)))
				continue
			}
			entered[p.d.k.name] = true
			l.enters(p, pc, next(c))
		}
	}
	for _, k := range l.kinds {
		if (k.obj || k.arr) && !entered[k.name] {
			l.bad("loop", "an %s is never entered", k.name)
		}
	}
	for _, ex := range L.exits {
		if ex.from == L.nat.header {
			continue
		}
		for _, pc := range ex.pc {
			if p := places(pc); p != nil {
				if !l.refusal(p, pc) {
					l.judge(pc, nil, "loop", "a lookup fails under %s", brief(l.x.bare(pc, L, test)))
				}
				continue
			}
			// neither an object nor an array
			for _, k := range l.kinds {
				if k.obj || k.arr {
					if pc.withAll(l.e.docAs(k, l.iface, acc).lits) != nil {
						l.judge(pc, nil, "loop", "a lookup fails under %s", brief(l.x.bare(pc, L, test)))
						break
					}
				}
			}
		}
	}
}
