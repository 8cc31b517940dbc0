package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// L12: a new log starts from exactly the given document and patches.

// out is what the called function leaves in memory it was given.
const outName = "document read by "

func newLogEval(p *Program) *Eval {
	e := logEval(p)
	e.afterOpaque = func(e *Eval, st *State, f *ssa.Function, args, cargs []*Term, res *Term) {
		for i, q := range f.Params {
			if T := ptrElem(q.Type()); T != nil && i < len(args) && i > 0 && args[i].op == OAlloc {
				call := e.in.mk(OCall, nil, fullName(f), nil, e.callInfo(fullName(f), false), cargs[0], res)
				e.store(st, args[i], e.in.mk(OExtract, T, outName+f.Name(), nil, nil, call), T)
			}
		}
	}
	return e
}

// uncloned: a copy of a document is the same document (T02, T05 and T09).
func uncloned(t *Term) *Term {
	for t.op == OExtract && t.args[0].op == OCall && strings.HasSuffix(t.args[0].callName(), "/tson.Clone") && len(t.args[0].args) == 1 {
		t = t.args[0].args[0]
	}
	return t
}

func ruleL12(c *Ctx) {
	fn := c.p.fn(pkgLog, "NewLogument")
	if fn == nil {
		c.undecided("anchor", "NewLogument", "-", "the function is not found")
		return
	}
	c.analysed[fn.String()] = true
	e := newLogEval(c.p)
	m := &logFn{c: c, e: e, in: e.in, fn: fn, name: "NewLogument"}
	m.args = e.paramSyms(fn)
	m.outs = e.root(fn, m.args)
	for _, f := range e.entered() {
		c.analysed[f] = true
	}
	for k := range e.problems {
		m.trouble = k
	}
	if m.trouble == "" && e.approx > 0 {
		m.trouble = "too many cases were merged"
	}
	if !m.need(2) {
		return
	}
	doc, in := m.args[0], m.args[1]
	if !isIface(doc.typ) || !isIface(in.typ) {
		m.open("anchor", m.name, "the parameters are not the expected ones")
		return
	}
	if fn.Signature.Results().Len() < 1 {
		m.open("anchor", m.name, "it has no result")
		return
	}
	T := ptrElem(fn.Signature.Results().At(0).Type())
	if T == nil || structType(T) == nil {
		m.open("anchor", m.name, "the result is not a pointer to a log")
		return
	}
	m.st = structType(T)
	for i := 0; i < m.st.NumFields(); i++ {
		F := m.st.Field(i)
		if mt, ok := under(F.Type()).(*types.Map); ok && F.Name() == "Patches" {
			m.opT = elemType(mt.Elem())
		}
	}
	if m.opT == nil {
		m.open("anchor", m.name, "the patches are not lists of operations")
		return
	}
	forms := map[string]bool{}
	for _, o := range m.outs {
		ref := o.results[0]
		if ref.op != OAlloc {
			m.open("anchor", m.name, "the log %s is not recognised", clip(ref.String(), 80))
			return
		}
		m.lgm = ref
		v := e.load(o.st, ref, T)
		f := map[string]*Term{}
		for i := 0; i < m.st.NumFields(); i++ {
			f[m.st.Field(i).Name()] = m.in.Field(v, i, m.st.Field(i).Type())
		}
		for _, n := range []string{"Version", "CurrentState", "Snapshots", "Patches", "PatchPool"} {
			if f[n] == nil {
				m.open("anchor", m.name, "the log has no field %s", n)
				return
			}
		}
		what := m.newDocument(o, doc, f["CurrentState"])
		if what == "" {
			return
		}
		m.ok("document", what+": it is the current state as it is")
		if !m.newVersions(o, f, what) {
			return
		}
		m.ok("versions", what+": version 0 only, with the same document, no recorded operations")
		pf := m.newPool(o, in, f["PatchPool"])
		if pf == "" {
			return
		}
		m.ok("patches", pf+": all of them pending, in order")
		forms[what], forms["patches "+pf] = true, true
	}
	c.check(len(forms) >= 4, "self-check", "forms", m.where(), "only the forms %v are accepted", sortedKeys(forms))
}

// newDocument: S is the document that was given; the result names its form.
func (m *logFn) newDocument(o Outcome, doc, S *Term) string {
	rule := "document"
	t := uncloned(S)
	for t.op == OIface || t.op == OConvert && t.args[0].typ != nil && isIface(t.args[0].typ) {
		t = uncloned(t.args[0])
	}
	if t == doc {
		return m.formOf(o, doc)
	}
	if t.op == OUnbox && t.args[0] == doc {
		return m.formOf(o, doc)
	}
	if t.op == OExtract && strings.HasPrefix(t.aux, outName) {
		call := t.args[0]
		text, res := call.args[0], call.args[1]
		form := m.formOf(o, doc)
		if form == "" {
			return ""
		}
		if !strings.HasSuffix(call.callName(), "/tson.Unmarshal") {
			m.open(rule, m.name, "the document is read by %s", call.callName())
			return ""
		}
		src := text
		for src.op == OConvert {
			src = src.args[0]
		}
		if src.op != OUnbox || src.args[0] != doc {
			if !src.contains(func(s *Term) bool { return s == doc }) {
				m.bad(rule, m.name, "the document is read from %s, which is not the given text", clip(text.String(), 120))
			} else {
				m.open(rule, m.name, "the document is read from %s", clip(text.String(), 120))
			}
			return ""
		}
		if res.op == OTuple && len(res.args) > 0 {
			res = res.args[len(res.args)-1]
		}
		if !m.always(o, m.in.Eq(res, m.in.Zero(res.typ)), true) {
			for _, pc := range o.st.pc {
				if !m.implied(pc, m.in.Eq(res, m.in.Zero(res.typ)), true) {
					m.bad(rule, m.name, "a log is made of a text (%s) although reading it may have failed", form)
					return ""
				}
			}
		}
		return form
	}
	if t.op == OExtract && t.args[0].op == OCall && strings.Contains(t.args[0].callName(), "/tsonpatch.Apply") {
		m.bad(rule, m.name, "the current state of the new log is not the given document, but %s", clip(S.String(), 120))
		return ""
	}
	if !S.contains(func(s *Term) bool { return s == doc }) && understood(S) {
		m.bad(rule, m.name, "the current state of the new log is %s and not the given document", clip(S.String(), 120))
		return ""
	}
	m.open(rule, m.name, "the current state %s is not recognised", clip(S.String(), 120))
	return ""
}

// formOf names the type that the parameter has in the outcome.
func (m *logFn) formOf(o Outcome, in *Term) string {
	var form types.Type
	for _, pc := range o.st.pc {
		for _, l := range pc.lits {
			if l.val && l.atom.op == OTypeIs && l.atom.args[0] == in {
				T := l.atom.obj.(types.Type)
				if form != nil && !types.Identical(form, T) {
					m.open("document", m.name, "several forms are handled together")
					return ""
				}
				form = T
			}
		}
	}
	if form == nil {
		if m.always(o, m.in.Eq(in, m.in.Zero(in.typ)), true) {
			return "nil"
		}
		m.open("document", m.name, "the form of %s is not known", in)
		return ""
	}
	return types.TypeString(form, func(p *types.Package) string { return p.Name() })
}

// newVersions: the version list is [0], its snapshot is the current state and
// nothing is recorded.
func (m *logFn) newVersions(o Outcome, f map[string]*Term, what string) bool {
	rule := "versions"
	x := &comp{e: m.e}
	gs := x.list(f["Version"])
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the version list %s is not recognised", clip(f["Version"].String(), 120))
		return false
	}
	for _, g := range gs {
		if len(g.doms) > 0 || len(g.pc.lits) > 0 || !understood(g.elem) {
			m.open(rule, m.name, "the version list %s is not recognised", clip(f["Version"].String(), 120))
			return false
		}
	}
	if len(gs) != 1 || !isZero(gs[0].elem) {
		m.bad(rule, m.name, "the new log has the versions %s instead of version 0 (%s)", f["Version"], what)
		return false
	}
	for _, n := range []string{"Snapshots", "Patches"} {
		if f[n].isNil() {
			m.bad(rule, m.name, "%s is nil, so nothing can be recorded in the new log (%s)", n, what)
			return false
		}
	}
	S := m.mapOf(o, f["Snapshots"])
	var at *Term
	for c := S; c.op == OInsert; c = c.args[0] {
		if !isZero(c.args[1]) {
			if understood(c.args[1]) {
				m.bad(rule, m.name, "a snapshot is stored under version %s, which the new log does not have (%s)", c.args[1], what)
			} else {
				m.open(rule, m.name, "the snapshots are %s", clip(S.String(), 160))
			}
			return false
		}
		if at == nil {
			at = c.args[2]
		}
		if c.args[0].op != OInsert && c.args[0].op != OMapEmpty {
			m.open(rule, m.name, "the snapshots are %s", clip(S.String(), 160))
			return false
		}
	}
	if at == nil || uncloned(at) != uncloned(f["CurrentState"]) {
		switch {
		case at == nil && S.op == OMapEmpty:
			m.bad(rule, m.name, "no snapshot is stored for the first version (%s)", what)
		case at != nil && understood(at):
			m.bad(rule, m.name, "the first snapshot is %s and not the document (%s)", clip(at.String(), 120), what)
		default:
			m.open(rule, m.name, "the snapshots are %s", clip(S.String(), 160))
		}
		return false
	}
	P := m.mapOf(o, f["Patches"])
	if P.op != OMapEmpty {
		if P.op == OInsert && understood(P) {
			m.bad(rule, m.name, "the new log has recorded operations already: %s (%s)", clip(P.String(), 160), what)
		} else {
			m.open(rule, m.name, "the recorded operations are %s", clip(P.String(), 160))
		}
		return false
	}
	return true
}

// newPool: the pending operations are the given ones; the result names their form.
func (m *logFn) newPool(o Outcome, in, pool *Term) string {
	rule := "patches"
	form, ok := m.givenForm(rule, o, in)
	if !ok {
		return ""
	}
	x := &comp{e: m.e}
	gs := x.list(pool)
	if len(x.fails) > 0 {
		m.open(rule, m.name, "the pool %s is not recognised: %s", clip(pool.String(), 160), x.fails[0])
		return ""
	}
	if form == nil {
		if m.always(o, m.in.Eq(in, m.in.Zero(in.typ)), true) {
			if len(gs) > 0 {
				m.bad(rule, m.name, "operations are pending although none were given: %s", clip(pool.String(), 160))
				return ""
			}
			return "none"
		}
		if len(gs) == 0 && m.trouble == "" {
			m.bad(rule, m.name, "the given patches are not stored where %s", clip(o.st.pc.String(), 160))
			return ""
		}
		m.open(rule, m.name, "the form of the patches is not known")
		return ""
	}
	what := types.TypeString(form, func(p *types.Package) string { return p.Name() })
	if given, why := m.given(o, gs, m.in.Unbox(in, form), form); !given {
		if why != "" {
			m.bad(rule, what, "the given operations become pending %s", why)
		} else {
			m.open(rule, what, "the pool becomes %s", clip(pool.String(), 160))
		}
		return ""
	}
	return what
}

// givenForm: the type that the parameter has in the outcome, nil if none is known.
func (m *logFn) givenForm(rule string, o Outcome, in *Term) (form types.Type, ok bool) {
	for _, pc := range o.st.pc {
		for _, l := range pc.lits {
			if l.val && l.atom.op == OTypeIs && l.atom.args[0] == in {
				T := l.atom.obj.(types.Type)
				if form != nil && !types.Identical(form, T) {
					m.open(rule, m.name, "several forms are handled together")
					return nil, false
				}
				form = T
			}
		}
	}
	return form, true
}

func init() {
	register(&Rule{id: "L12", run: ruleL12,
		explanation: "abstract interpretation of making a log: in every outcome that returns, for every accepted form of the document and of the patches, the version list is [0], the snapshot of version 0 and the current state are the same given document (read without an error if it is a text), no operation is recorded, and the pool lists exactly the given operations in order",
		assumptions: []string{"reading a document or a patch from a text is decided by T01, T07, T09 and X01"}})
}
