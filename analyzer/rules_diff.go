package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "P05", run: ruleP05,
		explanation: "Abstract interpretation of the comparison, once for each pair of kinds in both modes: the emitted operations are compared with the specified ones (add, remove, replace or nothing, with path, value and timestamp of the new document); containers are decided per key and index, and descent by induction over the recursion.",
		assumptions: []string{"equality of leaves is that of the helper functions, which are followed into", "operations for different keys of one object may come in any order"}})
	register(&Rule{id: "P07", run: ruleP07,
		explanation: "Every path that any outcome of the comparison writes must be the given prefix, a slash and the escaped key or the decimal index; the escape and the unescape tables are proved to be inverse word by word for texts of every length, and SplitPath must split at slashes before it unescapes.",
		assumptions: []string{"strings.Replace, NewReplacer, Split and strconv.Itoa behave as documented"}})
}

// diffItem is a function that compares two places of two documents, with the
// constants that it is called with.
type diffItem struct {
	fn                *ssa.Function
	o, m, path, patch int
	consts            map[int]*Term
}

func (i *diffItem) name() string {
	s := i.fn.Name()
	for _, k := range sortedInts(i.consts) {
		s += fmt.Sprintf(",%s", i.consts[k])
	}
	return s
}

func sortedInts[V any](m map[int]V) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

// differ analyses the generation of patches in one mode.
type differ struct {
	c      *Ctx
	e      *Eval
	in     *Interner
	iface  types.Type
	kinds  []docKind
	mode   string
	ts     bool // timestamps count
	opT    types.Type
	items  map[string]*diffItem
	queue  []*diffItem
	O, M   *Term // payload symbols of the current cell
	cur    *diffItem
	clean  bool
	paths  map[string]pathPart
	silent bool

	wrongPaths []wrongPath
}

type wrongPath struct{ construct, why, at string }

// pathPart is the text that a path ends with.
type pathPart struct {
	text *Term // behind the slash
	key  *Term
	at   string
}

func (d *differ) bad(rule, construct, f string, a ...any) {
	d.clean = false
	if rule == "path" {
		d.wrongPaths = append(d.wrongPaths, wrongPath{construct, fmt.Sprintf(f, a...), d.c.p.pos(d.cur.fn.Pos())})
	}
	if !d.silent {
		d.c.bad(rule, d.mode+" "+construct, d.c.p.pos(d.cur.fn.Pos()), f, a...)
	}
}

func (d *differ) open(rule, construct, f string, a ...any) {
	d.clean = false
	if !d.silent {
		d.c.undecided(rule, d.mode+" "+construct, d.c.p.pos(d.cur.fn.Pos()), f, a...)
	}
}

func (d *differ) isPatch(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && d.opT != nil && types.Identical(s.Elem(), d.opT)
}

// docType: values of t are (some kinds of) documents.
func (d *differ) docType(t types.Type) bool {
	if types.Identical(t, d.iface) {
		return true
	}
	for _, k := range d.kinds {
		if k.T != nil && types.Identical(k.T, t) {
			return true
		}
	}
	return false
}

func ruleP05(c *Ctx) { diffRules(c, false) }

func diffRules(c *Ctx, silent bool) (ds []*differ) {
	for _, mode := range []struct {
		name string
		ts   bool
	}{{"GeneratePatch", false}, {"GeneratePatchWithTimestamp", true}} {
		fn := c.p.fn(pkgPat, mode.name)
		if fn == nil || len(fn.Params) != 2 {
			if !silent {
				c.undecided("anchor", mode.name, "-", "the function is not found")
			}
			continue
		}
		c.analysed[fn.String()] = true
		d := &differ{c: c, mode: mode.name, ts: mode.ts, items: map[string]*diffItem{}, paths: map[string]pathPart{}, silent: silent}
		d.iface, d.kinds = docKinds()
		d.opT = elemType(fn.Signature.Results().At(0).Type())
		if d.iface == nil || structType(d.opT) == nil {
			if !silent {
				c.undecided("anchor", mode.name, "-", "documents or operations are not recognised")
			}
			continue
		}
		e := newEval(c.p)
		e.limitPC = 400
		e.forgetExit = true
		e.opaque = func(f *ssa.Function) bool { return repoPkgFn(f, "/tson") }
		e.recResult = d.recursion
		d.e, d.in = e, e.in
		root := &diffItem{fn: fn, o: 0, m: 1, path: -1, patch: -1}
		d.items[root.name()] = root
		d.queue = []*diffItem{root}
		for len(d.queue) > 0 {
			it := d.queue[0]
			d.queue = d.queue[1:]
			d.item(it)
		}
		for _, f := range e.entered() {
			c.analysed[f] = true
		}
		ds = append(ds, d)
	}
	return
}

// recursion: a recursive comparison appends to the patch that it is given.
// (That it does is one of the obligations of its own cells.)
func (d *differ) recursion(fn *ssa.Function, args []*Term, res *Term) *Term {
	it := &diffItem{fn: fn, o: -1, m: -1, path: -1, patch: -1, consts: map[int]*Term{}}
	in := d.in
	mentions := func(t, s *Term) bool {
		return s != nil && t.contains(func(x *Term) bool { return x == s })
	}
	for i, p := range fn.Params {
		if i >= len(args) {
			return res
		}
		switch {
		case d.docType(p.Type()):
			switch o, m := mentions(args[i], d.O), mentions(args[i], d.M); {
			case o && !m && it.o < 0:
				it.o = i
			case m && !o && it.m < 0:
				it.m = i
			default:
				return res
			}
		case isString(p.Type()):
			if it.path >= 0 {
				return res
			}
			it.path = i
		case d.isPatch(p.Type()):
			if it.patch >= 0 {
				return res
			}
			it.patch = i
		default:
			if args[i].op != OConst {
				return res
			}
			it.consts[i] = args[i]
		}
	}
	if it.o < 0 || it.m < 0 || res.op != OTuple || len(res.args) != 2 || len(fn.FreeVars) > 0 {
		return res
	}
	if old, ok := d.items[it.name()]; ok {
		if old.o != it.o {
			// the documents are exchanged: judged where the call is used
			it = old
		}
	} else {
		d.items[it.name()] = it
		d.queue = append(d.queue, it)
	}
	if it.patch < 0 {
		return res
	}
	cargs := append([]*Term{}, args...)
	cargs[it.patch] = in.Zero(args[it.patch].typ)
	call := in.mk(OCall, nil, "", nil, d.e.callInfo(fullName(fn), false), cargs...)
	ext := func(i int) *Term { return in.mk(OExtract, res.args[i].typ, fmt.Sprint(i), nil, nil, call) }
	list := ext(0)
	if p := args[it.patch]; !p.isNil() && !(p.op == OSliceLit && len(p.args) == 0) {
		list = in.mk(OAppend, list.typ, "", nil, nil, p, list)
	}
	return in.Tuple(list, ext(1))
}

// want is what a pair of places asks for.
func (d *differ) want(o, m docKind, veq, teq bool) string {
	switch {
	case o.T == nil && m.T == nil:
		return "none"
	case o.obj && m.obj, o.arr && m.arr:
		return "inner"
	case o.leaf && m.leaf && types.Identical(o.T, m.T):
		if !veq || d.ts && !teq {
			return "replace"
		}
		return "none"
	case m.leaf && o.T == nil:
		return "add"
	case m.leaf:
		return "replace"
	}
	return "error"
}

// item decides every cell of a comparison.
func (d *differ) item(it *diffItem) {
	d.cur = it
	d.c.analysed[it.fn.String()] = true
	for _, ok := range d.kinds {
		for _, mk := range d.kinds {
			d.cell(it, ok, mk)
		}
	}
}

type diffCase struct {
	pc       *Conj
	veq, teq bool
}

func (d *differ) cell(it *diffItem, ok, mk docKind) {
	e, in := d.e, d.in
	o, m := e.docCell(ok, d.iface, "O"), e.docCell(mk, d.iface, "M")
	d.O, d.M = o.v, m.v
	args := make([]*Term, len(it.fn.Params))
	var path, patch *Term
	for i, p := range it.fn.Params {
		place := func(x docCell) *Term {
			if isIface(p.Type()) {
				return x.t
			}
			if x.k.T != nil && types.Identical(x.k.T, p.Type()) {
				return x.v
			}
			return nil
		}
		switch i {
		case it.o:
			args[i] = place(o)
		case it.m:
			args[i] = place(m)
		case it.path:
			path = in.mk(OSym, p.Type(), "path", nil, nil)
			args[i] = path
		case it.patch:
			patch = in.mk(OSym, p.Type(), "patch", nil, nil)
			args[i] = patch
		default:
			args[i] = it.consts[i]
		}
		if args[i] == nil {
			return // not a document of this function
		}
	}
	name := fmt.Sprintf("%s: %s to %s", it.name(), ok.name, mk.name)
	d.clean = true
	e.problems, e.approx = map[string]bool{}, 0
	e.loopsByKey = map[string]*Loop{}
	st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, pc: DNF{in.newConj(nil)}}
	outs := e.callFn(nil, st, it.fn, nil, args, nil)
	if len(e.problems) > 0 {
		d.open("cells", name, "not followed: %s", sortedKeys(e.problems)[0])
		return
	}
	if e.approx > 0 {
		d.open("cells", name, "too many cases")
		return
	}
	if len(outs) == 0 {
		d.open("cells", name, "no outcome")
	}
	for _, out := range outs {
		for _, pc := range out.st.pc {
			cases := []diffCase{{pc: pc}}
			if ok.leaf && mk.leaf && types.Identical(ok.T, mk.T) {
				cases = nil
				for _, veq := range []bool{true, false} {
					for _, teq := range []bool{true, false} {
						if n := pc.withAll([]Lit{{in.Eq(o.val, m.val), veq}, {in.Eq(o.ts, m.ts), teq}}); n != nil {
							cases = append(cases, diffCase{n, veq, teq})
						}
					}
				}
			}
			for _, cs := range cases {
				d.outcome(it, name, out, cs, o, m, path, patch)
			}
		}
	}
	if d.clean {
		d.c.ok("cells", d.mode+" "+name)
	}
}

// shortcut: pc says that the whole documents were found equal.
func (d *differ) shortcut(pc *Conj, o, m docCell) (equal, fits bool) {
	for _, l := range pc.lits {
		a := l.atom
		if !l.val || a.op != OExtract || a.args[0].op != OCall {
			continue
		}
		n := a.args[0].callName()
		if !strings.HasPrefix(lastName(n), "Equal") || len(a.args[0].args) != 2 {
			continue
		}
		x, y := a.args[0].args[0], a.args[0].args[1]
		if x == o.t && y == m.t || x == m.t && y == o.t {
			return true, strings.HasSuffix(n, "tson.Equal") || !d.ts && strings.HasSuffix(n, "tson.EqualWithoutTimestamp")
		}
	}
	return false, false
}

func lastName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// piece is something that a patch gets.
type piece struct {
	g    *Gen
	doms []*Dom
	pc   *Conj
	op   map[string]*Term // an operation
	rec  *Term            // or the differences of another pair of places
	it   *diffItem
}

func (d *differ) pieces(gs []*Gen, patch *Term) (base bool, ps []piece, why string) {
	in := d.in
	for i, g := range gs {
		n := len(g.doms)
		if n > 0 && g.doms[n-1].kind == "index" {
			of := g.doms[n-1].of
			whole := g.elem == in.Elem(of, g.doms[n-1].v, elemType(of.typ))
			if of == patch && whole && n == 1 {
				if i > 0 || len(g.doms[0].early) > 0 {
					return false, nil, "the differences found before come behind others"
				}
				base = true
				continue
			}
			if whole && of.op == OExtract && of.aux == "0" && of.args[0].op == OCall {
				call := of.args[0]
				var it *diffItem
				for _, x := range d.items {
					if d.e.callInfo(fullName(x.fn), false) == call.obj && len(call.args) == len(x.fn.Params) {
						same := true
						for k, t := range x.consts {
							same = same && call.args[k] == t
						}
						if same {
							it = x
						}
					}
				}
				if it == nil {
					return false, nil, fmt.Sprintf("the operations of %s are not followed", brief(call))
				}
				ps = append(ps, piece{g: g, doms: g.doms[:n-1], pc: d.without(g.pc, g.doms[n-1].v), rec: call, it: it})
				continue
			}
		}
		if g.elem.op != OStruct {
			return false, nil, fmt.Sprintf("the operation %s is not followed", brief(g.elem))
		}
		p := piece{g: g, doms: g.doms, pc: g.pc, op: map[string]*Term{}}
		st := structType(d.opT)
		for k := range g.elem.args {
			p.op[st.Field(k).Name()] = g.elem.args[k]
		}
		ps = append(ps, p)
	}
	return
}

// without drops the bounds of an index.
func (d *differ) without(c *Conj, v *Term) *Conj {
	var ls []Lit
	for _, l := range c.lits {
		if !l.atom.contains(func(t *Term) bool { return t == v }) {
			ls = append(ls, l)
		}
	}
	return d.in.newConj(ls)
}

func (d *differ) outcome(it *diffItem, name string, out Outcome, cs diffCase, o, m docCell, path, patch *Term) {
	in := d.in
	want := d.want(o.k, m.k, cs.veq, cs.teq)
	res, err := out.results[0], out.results[1]
	fails, known := errorResult(cs.pc, err, in)
	if !known {
		d.open("cells", name, "whether %s is an error is not known", brief(err))
		return
	}
	if fails {
		if err.op == OExtract && err.args[0].op == OCall {
			return // of a deeper place, or of a library
		}
		switch want {
		case "error", "inner": // judged with the elements
		default:
			d.bad("cells", name, "%s of a %s by a %s is refused", want, o.k.name, m.k.name)
		}
		return
	}
	if eq, fits := d.shortcut(cs.pc, o, m); eq {
		x := &comp{e: d.e, noFail: true}
		if gs := x.list(d.e.content(out.st, res)); len(gs) > 0 || len(x.fails) > 0 {
			d.open("cells", name, "equal documents have differences")
		}
		if !fits {
			d.bad("cells", name, "documents that differ in their timestamps are taken for equal")
		}
		return
	}
	x := &comp{e: d.e, noFail: true}
	gs := x.list(d.e.content(out.st, res))
	if len(x.fails) > 0 {
		d.open("cells", name, "the patch is not followed: %s", x.fails[0])
		return
	}
	base, ps, why := d.pieces(gs, patch)
	if why != "" {
		if strings.HasPrefix(why, "the differences") {
			d.bad("cells", name, "%s", why)
		} else {
			d.open("cells", name, "%s", why)
		}
		return
	}
	for i, p := range ps {
		var ls []Lit
		for _, l := range p.pc.lits {
			if v, ok := cs.pc.decide(l.atom); !ok || v != l.val {
				ls = append(ls, l)
			}
		}
		ps[i].pc = in.newConj(ls)
	}
	if patch != nil && !base {
		d.bad("cells", name, "the differences found before are lost")
		return
	}
	if want == "inner" && len(ps) == 1 && len(ps[0].doms) == 0 && ps[0].rec != nil {
		d.same(name, ps[0], o.t, m.t, o.v, m.v, path)
		return
	}
	switch {
	case want == "inner" && o.k.obj:
		for _, known := range d.facts(cs.pc, ps) {
			d.object(name, known, ps, o, m, path)
		}
		return
	case want == "inner":
		for _, known := range d.facts(cs.pc, ps) {
			d.array(name, known, ps, o, m, path)
		}
		return
	}
	d.single(name, want, cs.pc, ps, o, m, path, nil)
}

// same: the comparison continues with the same places.
func (d *differ) same(name string, p piece, ot, mt, ov, mv, path *Term) {
	a := p.rec.args
	switch {
	case (a[p.it.o] == ot || a[p.it.o] == ov) && (a[p.it.m] == mt || a[p.it.m] == mv):
	case (a[p.it.o] == mt || a[p.it.o] == mv) && (a[p.it.m] == ot || a[p.it.m] == ov):
		d.bad("cells", name, "the old and the new document are exchanged")
		return
	default:
		d.open("cells", name, "other places are compared: %s", brief(p.rec))
		return
	}
	if p.it.path < 0 {
		return
	}
	q := a[p.it.path]
	if s, ok := q.constString(); path == nil && ok && s == "" || path != nil && q == path {
		return
	}
	d.bad("cells", name, "the path of the same place becomes %s", brief(q))
}

// single: the places of o and m have exactly the wanted operation.
func (d *differ) single(name, want string, pc *Conj, ps []piece, o, m docCell, path, key *Term) {
	in := d.in
	var hit []piece
	for _, p := range ps {
		if p.rec != nil || len(p.doms) > 0 && key == nil {
			d.open("cells", name, "other places are compared: %s", brief(p.g))
			return
		}
		open, ok := p.pc.undecidedBy(pc)
		if !ok {
			continue
		}
		if len(open) > 0 {
			d.open("cells", name, "an operation depends on %s", brief(open[0]))
			return
		}
		hit = append(hit, p)
	}
	switch {
	case want == "none" && len(hit) == 0, want == "error" && len(hit) > 0 && m.k.T == nil && opName(hit[0]) == "remove":
		return
	case want == "none":
		d.bad("cells", name, "an equal %s has a %s operation", m.k.name, opName(hit[0]))
		return
	case want == "error" && len(hit) == 0:
		d.bad("cells", name, "a difference is neither expressed nor an error")
		return
	case want == "error":
		d.open("cells", name, "a container is expressed by operations")
		return
	case len(hit) == 0:
		d.bad("cells", name, "%s is missing for a %s that becomes a different %s", want, o.k.name, m.k.name)
		return
	case len(hit) > 1:
		d.bad("cells", name, "a difference has %d operations", len(hit))
		return
	}
	op := hit[0].op
	got := opName(hit[0])
	if got == "?" {
		d.open("cells", name, "the kind of the operation is not known: %s", brief(op["Op"]))
		return
	}
	if got != want && !(want == "add" && o.k.T == nil && got == "replace") {
		d.bad("cells", name, "the operation is %s, not %s", got, want)
	}
	d.path(name, op["Path"], path, key)
	if want == "remove" {
		return
	}
	if v := op["Value"]; v != in.MakeIface(m.val.typ, m.val) {
		if o.val != nil && v == in.MakeIface(o.val.typ, o.val) {
			d.bad("cells", name, "the operation has the old value")
		} else if v.op == OConst || v.op == OIface && v.args[0].op == OConst {
			d.bad("cells", name, "the operation has the value %s", brief(v))
		} else if m.val != nil && v.contains(func(t *Term) bool { return t == m.val }) {
			d.open("cells", name, "the value is made of the new one: %s", brief(v))
		} else {
			d.bad("cells", name, "the operation has the value %s, not the new one", brief(v))
		}
	}
	if t := op["Timestamp"]; t != m.ts {
		switch {
		case o.ts != nil && t == o.ts:
			d.bad("cells", name, "the operation has the old timestamp")
		case t.contains(func(s *Term) bool { return s == m.ts }):
			d.open("cells", name, "the timestamp is made of the new one: %s", brief(t))
		default:
			d.bad("cells", name, "the operation has the timestamp %s, not the new one", brief(t))
		}
	}
}

func opName(p piece) string {
	if p.rec != nil {
		return "comparison"
	}
	if s, ok := p.op["Op"].constString(); ok {
		return s
	}
	return "?"
}

// splitPath takes the last segment off a path.
func splitSegment(e *Eval, t *Term) (base, seg *Term, ok bool) {
	parts := []*Term{t}
	if t.op == OCall && t.obj == e.concatInfo {
		parts = t.args
	}
	// the segment is the last part
	n := len(parts)
	if n == 1 {
		if s, isC := t.constString(); isC && strings.HasPrefix(s, "/") && !strings.Contains(s[1:], "/") {
			return e.concat(), t, true
		}
		return nil, nil, false
	}
	s, isC := parts[n-2].constString()
	if !isC || !strings.HasSuffix(s, "/") {
		return nil, nil, false
	}
	rest := append([]*Term{}, parts[:n-2]...)
	if len(s) > 1 {
		return nil, nil, false
	}
	return e.concat(rest...), parts[n-1], true
}

// keyText is the key or index that a segment is the text of.
func keyText(seg *Term) *Term {
	if seg.op != OCall {
		return seg
	}
	switch seg.callName() {
	case "(*strings.Replacer).Replace":
		return keyText(seg.args[1])
	case "strings.ReplaceAll", "strings.Replace", "decimal", "net/url.PathEscape":
		return keyText(seg.args[0])
	}
	if lossy[seg.callName()] && len(seg.args) > 0 {
		return keyText(seg.args[0])
	}
	return seg
}

// lossy functions map different texts to the same one.
var lossy = map[string]bool{"strings.TrimSpace": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.Title": true,
	"strings.ToTitle": true, "path.Clean": true, "path.Base": true, "path.Join": true}

// path: p is the path of the place key below base.
func (d *differ) path(name string, p, base, key *Term) {
	if base == nil {
		base = d.e.concat()
	}
	if key == nil {
		if p != base {
			d.bad("path", name, "the path is %s, not that of the place", brief(p))
		}
		return
	}
	b, seg, ok := splitSegment(d.e, p)
	if !ok {
		if p == base {
			d.bad("path", name, "the path is that of the container")
			return
		}
		d.open("path", name, "the path %s is not followed", brief(p))
		return
	}
	k := keyText(seg)
	switch {
	case b != base:
		d.bad("path", name, "the path %s does not start with that of the container", brief(p))
	case k != key:
		if k.op == OSym || k.op == OAddK || k.op == OConst {
			d.bad("path", name, "the path %s is that of %s, not of %s", brief(p), brief(k), brief(key))
		} else {
			d.open("path", name, "the segment %s is not followed", brief(seg))
		}
	default:
		d.paths[seg.String()] = pathPart{text: seg, key: key, at: d.c.p.pos(d.cur.fn.Pos())}
	}
}

// object: every key of either object has what its two values ask for.
func (d *differ) object(name string, known *Conj, ps []piece, o, m docCell, path *Term) {
	e, in := d.e, d.in
	st := &State{heap: map[*Term]*Term{}}
	oc, mc := e.mapContent(st, o.v), e.mapContent(st, m.v)
	var keyT types.Type = tString
	if mt, ok := under(o.k.T).(*types.Map); ok {
		keyT = mt.Key()
	}
	k := in.mk(OSym, keyT, "$K", nil, nil)
	ov, mv := in.Lookup(oc, k, d.iface), in.Lookup(mc, k, d.iface)
	var sub []piece
	for _, p := range ps {
		if len(p.doms) != 1 || p.doms[0].kind != "keys" || p.doms[0].of != oc && p.doms[0].of != mc {
			d.open("cells", name, "what is generated does not range over the keys: %s", brief(p.g))
			return
		}
		for _, ec := range p.doms[0].early {
			if _, never := d.endsAt(p.doms[0], ec, known); !never {
				d.leaves(name, p.doms[0], ec, known)
				return
			}
		}
		mp := map[*Term]*Term{p.doms[0].v: k}
		q := p
		q.pc = (&comp{e: e}).substConj(p.pc, mp)
		if q.pc != nil {
			q.pc = q.pc.with(in.Has(p.doms[0].of, k), true)
		}
		if q.pc == nil {
			continue
		}
		if p.rec != nil {
			q.rec = in.subst(p.rec, mp)
		} else {
			q.op = map[string]*Term{}
			for f, t := range p.op {
				q.op[f] = in.subst(t, mp)
			}
		}
		sub = append(sub, q)
	}
	for _, where := range []string{"both", "old", "new"} {
		for _, ok := range d.kinds {
			if where == "new" && ok.T != nil {
				continue
			}
			for _, mk := range d.kinds {
				if where == "old" && mk.T != nil {
					continue
				}
				oo, mm := e.docAs(ok, d.iface, ov), e.docAs(mk, d.iface, mv)
				lits := []Lit{{in.Has(oc, k), where != "new"}, {in.Has(mc, k), where != "old"}}
				if where != "new" {
					lits = append(lits, oo.lits...)
				}
				if where != "old" {
					lits = append(lits, mm.lits...)
				}
				cell := known.withAll(lits)
				if cell == nil {
					continue
				}
				sname := fmt.Sprintf("%s/%s %s to %s", name, where, ok.name, mk.name)
				d.key(sname, where, cell, sub, oo, mm, path, k, mc)
			}
		}
	}
}

// succeeded leaves out that comparisons of deeper places did not fail: such a
// failure is one of the whole.
func (d *differ) succeeded(ls []Lit) (out []Lit) {
	for _, l := range ls {
		if l.val && l.atom.op == OEq {
			for i, a := range l.atom.args {
				if a.op == OExtract && isErr(a.typ) && a.args[0].op == OCall && l.atom.args[1-i].isNil() {
					for _, x := range d.items {
						if d.e.callInfo(fullName(x.fn), false) == a.args[0].obj {
							goto next
						}
					}
				}
			}
		}
		out = append(out, l)
	next:
	}
	return
}

// bounds splits the cases by the bounds that the index is compared with.
func (d *differ) bounds(cases []diffCase, sub []piece, k *Term) []diffCase {
	atoms := map[string]*Term{}
	for _, p := range sub {
		for _, l := range p.pc.lits {
			if a := l.atom; a.op == OLt && len(atoms) < 6 {
				x, _ := splitAddK(a.args[0])
				y, _ := splitAddK(a.args[1])
				if x == k || y == k {
					atoms[a.String()] = a
				}
			}
		}
	}
	for _, n := range sortedKeys(atoms) {
		var next []diffCase
		for _, c := range cases {
			for _, v := range []bool{true, false} {
				if pc := c.pc.with(atoms[n], v); pc != nil {
					next = append(next, diffCase{pc, c.veq, c.teq})
				}
			}
		}
		cases = next
	}
	return cases
}

func (d *differ) key(name, where string, cell *Conj, sub []piece, o, m docCell, path, k, mc *Term) {
	in := d.in
	cases := []diffCase{{pc: cell}}
	if where == "both" && o.k.leaf && m.k.leaf && types.Identical(o.k.T, m.k.T) {
		cases = nil
		for _, veq := range []bool{true, false} {
			for _, teq := range []bool{true, false} {
				if n := cell.withAll([]Lit{{in.Eq(o.val, m.val), veq}, {in.Eq(o.ts, m.ts), teq}}); n != nil {
					cases = append(cases, diffCase{n, veq, teq})
				}
			}
		}
	}
	cases = d.bounds(cases, sub, k)
	for _, cs := range cases {
		var hit []piece
		for _, p := range sub {
			open, ok := p.pc.undecidedBy(cs.pc)
			if !ok {
				continue
			}
			open = d.succeeded(open)
			if len(open) > 0 {
				d.open("cells", name, "an operation depends on %s", brief(open[0]))
				return
			}
			p.doms, p.pc = nil, in.newConj(nil)
			hit = append(hit, p)
		}
		if len(hit) == 1 && hit[0].rec != nil {
			p := hit[0]
			a := p.rec.args
			if where != "both" {
				d.open("cells", name, "a key of one document is compared")
				continue
			}
			fits := func(a *Term, x docCell) bool { return a == x.t || x.v != nil && a == x.v }
			switch {
			case fits(a[p.it.o], o) && fits(a[p.it.m], m):
			case fits(a[p.it.o], m) && fits(a[p.it.m], o):
				d.bad("cells", name, "the old and the new document are exchanged")
			default:
				if x, y := a[p.it.o], a[p.it.m]; d.otherIndex(x, k) || d.otherIndex(y, k) {
					d.bad("cells", name, "%s and %s are compared under the path of %s", brief(x), brief(y), brief(k))
					continue
				}
				d.open("cells", name, "other places are compared: %s", brief(p.rec))
				continue
			}
			if p.it.path >= 0 {
				d.path(name, a[p.it.path], path, k)
			}
			continue
		}
		want := ""
		switch where {
		case "both":
			want = d.want(o.k, m.k, cs.veq, cs.teq)
		case "old":
			want = "remove"
		case "new":
			want = "error"
			if m.k.leaf {
				want = "add"
			}
		}
		if want == "inner" {
			d.bad("cells", name, "the differences within a %s are left out", o.k.name)
			continue
		}
		if want == "error" && len(hit) == 0 {
			d.refused(name, cs.pc, k)
			continue
		}
		if len(hit) == 1 && want == "add" && where == "new" && opName(hit[0]) == "replace" {
			d.bad("cells", name, "the operation is replace, not add")
			continue
		}
		d.single(name, want, cs.pc, hit, o, m, path, k)
	}
}

// otherIndex: t is an element at a fixed distance from the index k.
func (d *differ) otherIndex(t, k *Term) bool {
	if t.op == OUnbox {
		t = t.args[0]
	}
	if t.op != OElem {
		return false
	}
	b, c := splitAddK(t.args[1])
	return b == k && c != 0
}

// refused: in one of the loops, an iteration over the place of the cell ends
// with an error.
func (d *differ) refused(name string, cell *Conj, k *Term) {
	in := d.in
	doubt := false
	for _, key := range sortedKeys(d.e.loopsByKey) {
		L := d.e.loopsByKey[key]
		x := &comp{e: d.e, noFail: true}
		bs, _, ok := x.bind(L)
		if !ok {
			doubt = true
		}
		for _, b := range bs {
			if len(b.doms) != 1 {
				doubt = doubt || len(b.doms) > 1
				continue
			}
			dm := b.doms[0]
			if dm.kind == "keys" {
				if has, known := cell.decide(in.Has(dm.of, k)); !known || !has {
					continue
				}
			}
			// state is what the cell says about a way through an iteration
			x.env = b.sub
			at := k
			for _, e := range L.exits {
				for _, cj := range e.pc {
					if q := x.subC(cj); q != nil {
						for _, l := range q.lits {
							l.atom.contains(func(t *Term) bool {
								if t.op == OElem && (t.args[0] == d.O || t.args[0] == d.M) {
									if n := d.invert(t.args[1], dm.v, k); n != nil {
										at = n
									}
								}
								return false
							})
						}
					}
				}
			}
			state := func(cj *Conj, ending bool) (may, open bool) {
				q := x.subC(cj)
				if q != nil {
					q = (&comp{e: d.e}).substConj(q, map[*Term]*Term{dm.v: at})
				}
				if q == nil {
					return false, false
				}
				var ls []Lit
				for _, l := range q.lits {
					if l.atom.contains(func(t *Term) bool { return t == k }) &&
						!l.atom.contains(func(t *Term) bool { return t.op == OLoop || t.op == OPrev }) {
						ls = append(ls, l)
					}
				}
				rest, ok := in.newConj(ls).undecidedBy(cell)
				for _, l := range rest {
					open = open || l.atom.op != OLt || !ending
				}
				return ok, open
			}
			fails, passes, unclear := false, false, false
			for _, p := range L.conts {
				for _, cj := range p.pc {
					may, open := state(cj, false)
					passes = passes || may && !open
					unclear = unclear || may && open
				}
			}
			for _, x := range L.exits {
				for _, cj := range x.pc {
					may, open := state(cj, true)
					if may && failsOnly(x.from, x.to) {
						fails = fails || !open
						unclear = unclear || open
					}
				}
			}
			if fails && !passes && !unclear {
				return
			}
			doubt = doubt || unclear || fails
		}
	}
	if !doubt {
		d.bad("cells", name, "a difference is neither expressed nor an error")
		return
	}
	d.open("cells", name, "whether the difference is an error is not known")
}

// indexOf is the value of the variable v of p for which it names the index I.
func (d *differ) indexOf(p piece, v, I *Term) *Term {
	var path *Term
	if p.rec == nil {
		path = p.op["Path"]
	} else if p.it != nil && p.it.path >= 0 {
		path = p.rec.args[p.it.path]
	}
	if path == nil {
		return I
	}
	_, seg, ok := splitSegment(d.e, path)
	if !ok {
		return I
	}
	if at := d.invert(keyText(seg), v, I); at != nil {
		return at
	}
	return I
}

// invert is the value of v for which t, which is v and a distance, is I.
func (d *differ) invert(t, v, I *Term) *Term {
	k, c := splitAddK(t)
	switch {
	case k == v:
		return d.in.AddK(I, -c)
	case k != nil && k.op == OBin && k.aux == "+":
		for i, x := range k.args {
			o := k.args[1-i]
			if x == v && !o.contains(func(t *Term) bool { return t == v }) {
				return d.in.Sub(d.in.AddK(I, -c), o)
			}
		}
	}
	return nil
}

// array: every index of either array has what its two elements ask for.
func (d *differ) array(name string, known *Conj, ps []piece, o, m docCell, path *Term) {
	e, in := d.e, d.in
	I := in.mk(OSym, tInt, "$I", nil, nil)
	oe, me := in.Elem(o.v, I, d.iface), in.Elem(m.v, I, d.iface)
	lo, lm := in.Len(o.v), in.Len(m.v)
	var sub []piece
	for _, p := range ps {
		if len(p.doms) != 1 || p.doms[0].kind != "index" && p.doms[0].kind != "num" {
			d.open("cells", name, "what is generated does not range over the indexes: %s", brief(p.g))
			return
		}
		dm := p.doms[0]
		at := d.indexOf(p, dm.v, I)
		mp := map[*Term]*Term{dm.v: at}
		q := p
		q.pc = (&comp{e: e}).substConj(p.pc, mp)
		for _, ec := range dm.early {
			// the iteration ends at a bound
			bound, never := d.endsAt(dm, ec, known)
			if never {
				continue
			}
			if bound == nil {
				d.leaves(name, dm, ec, known)
				return
			}
			if q.pc != nil {
				q.pc = q.pc.with(in.Lt(at, bound), dm.order != "desc")
			}
		}
		if q.pc != nil && dm.kind == "index" {
			q.pc = q.pc.withAll([]Lit{{in.Lt(at, in.Int(0)), false}, {in.Lt(at, in.Len(dm.of)), true}})
		} else if q.pc != nil {
			q.pc = q.pc.withAll([]Lit{{in.Lt(at, dm.lo), false}, {in.Lt(dm.hi, at), false}})
		}
		if q.pc == nil {
			continue
		}
		if p.rec != nil {
			q.rec = in.subst(p.rec, mp)
		} else {
			q.op = map[string]*Term{}
			for f, t := range p.op {
				q.op[f] = in.subst(t, mp)
			}
		}
		sub = append(sub, q)
	}
	// there is nothing outside of the arrays
	for _, out := range [][]Lit{{{in.Lt(I, in.Int(0)), true}}, {{in.Lt(I, lo), false}, {in.Lt(I, lm), false}}} {
		c := known.withAll(out)
		if c == nil {
			continue
		}
		for _, p := range sub {
			open, ok := p.pc.undecidedBy(c)
			for _, l := range d.succeeded(open) {
				ok = ok && l.atom.op == OLt
			}
			if ok {
				d.bad("cells", name, "there is a %s for an index that neither array has", opName(p))
				return
			}
		}
	}
	for _, where := range []string{"both", "old", "new"} {
		for rel, rl := range map[string][]Lit{
			"equal":  {{in.Eq(lo, lm), true}},
			"longer": {{in.Lt(lm, lo), true}}, "shorter": {{in.Lt(lo, lm), true}}} {
			base := known.withAll(rl)
			if base == nil {
				continue
			}
			base = base.withAll([]Lit{{in.Lt(I, in.Int(0)), false}, {in.Lt(I, lo), where != "new"}, {in.Lt(I, lm), where != "old"}})
			if base == nil {
				continue
			}
			for _, ok := range d.kinds {
				if where == "new" && ok.T != nil {
					continue
				}
				for _, mk := range d.kinds {
					if where == "old" && mk.T != nil {
						continue
					}
					oo, mm := e.docAs(ok, d.iface, oe), e.docAs(mk, d.iface, me)
					var lits []Lit
					if where != "new" {
						lits = append(lits, oo.lits...)
					}
					if where != "old" {
						lits = append(lits, mm.lits...)
					}
					cell := base.withAll(lits)
					if cell == nil {
						continue
					}
					sname := fmt.Sprintf("%s/%s arrays %s %s to %s", name, rel, where, ok.name, mk.name)
					d.key(sname, where, cell, sub, oo, mm, path, I, nil)
				}
			}
		}
	}
	// elements are taken away from the end, and added at the end
	for _, p := range ps {
		switch opName(p) {
		case "remove":
			d.order(name, p, "desc")
		case "add":
			d.order(name, p, "asc")
		}
	}
}

// facts are what an outcome says about the documents as a whole: one
// conjunction for each way in which the loops that come before have ended.
func (d *differ) facts(pc *Conj, ps []piece) []*Conj {
	out := []*Conj{pc}
	seen := map[*Loop]bool{}
	idx := func(t *Term) bool {
		if t.op == OLoop && t.aux == "idx" {
			seen[t.obj.(*Loop)] = true
		}
		return false
	}
	// what does not depend on the place is split upon
	whole := map[string]*Term{}
	for _, p := range ps {
		lits := append([]Lit{}, p.pc.lits...)
		for _, dm := range p.doms {
			for _, ec := range dm.early {
				lits = append(lits, ec.lits...)
			}
		}
		for _, l := range lits {
			l.atom.contains(idx)
			if !l.atom.contains(func(t *Term) bool {
				for _, dm := range p.doms {
					if t == dm.v {
						return true
					}
				}
				return t.op == OLoop || t.op == OPrev
			}) {
				if _, known := pc.decide(l.atom); !known && len(whole) < 5 {
					whole[l.atom.String()] = l.atom
				}
			}
		}
	}
	for _, k := range sortedKeys(whole) {
		var next []*Conj
		for _, c := range out {
			for _, v := range []bool{true, false} {
				if n := c.with(whole[k], v); n != nil {
					next = append(next, n)
				}
			}
		}
		out = next
	}
	for _, key := range sortedKeys(d.e.loopsByKey) {
		L := d.e.loopsByKey[key]
		if !seen[L] {
			continue
		}
		var next []*Conj
		for _, x := range L.exits {
			if failsOnly(x.from, x.to) {
				continue
			}
			for _, cj := range x.pc {
				var ls []Lit
				for _, l := range cj.lits {
					if l.atom.contains(func(t *Term) bool { return t.op == OLoop && t.aux == "idx" && t.obj == L }) &&
						!l.atom.contains(func(t *Term) bool { return t.op == OLoop && t.obj != L || t.op == OPrev }) {
						ls = append(ls, l)
					}
				}
				for _, c := range out {
					if n := c.withAll(ls); n != nil {
						next = append(next, n)
					}
				}
			}
		}
		out = next
	}
	return out
}

// leaves: the iteration ends early although the result is no error.
func (d *differ) leaves(name string, dm *Dom, ec, known *Conj) {
	for _, l := range ec.lits {
		a := l.atom
		if v, ok := known.decide(a); ok && v == l.val {
			continue
		}
		element := a.op == OTypeIs || a.op == OHas || a.op == OEq
		if !element || a.contains(func(t *Term) bool { return t.op == OLoop || t.op == OPrev }) {
			d.open("cells", name, "not every place may be looked at: %s", brief(ec))
			return
		}
	}
	d.bad("cells", name, "the places behind one for which %s are not looked at, without an error", brief(ec))
}

// endsAt: the iteration ends exactly when its index leaves a bound: the bound
// is the first index that is no longer (or, descending, is the last) looked at.
func (d *differ) endsAt(dm *Dom, ec, known *Conj) (bound *Term, never bool) {
	for _, l := range ec.lits {
		a := l.atom
		switch {
		case !a.contains(func(t *Term) bool { return t == dm.v }):
			if v, ok := known.decide(a); !ok {
				return nil, false
			} else if v != l.val {
				return nil, true
			}
		case bound == nil && a.op == OLt && a.args[0] == dm.v && !a.args[1].contains(func(t *Term) bool { return t == dm.v }) && l.val == (dm.order == "desc"):
			bound = a.args[1]
		default:
			return nil, false
		}
	}
	return bound, false
}

func (d *differ) order(name string, p piece, want string) {
	if p.doms[0].order != want {
		d.bad("order", name, "elements are %s in the wrong order: the indexes of later operations no longer fit", map[string]string{"asc": "added", "desc": "removed"}[want])
	}
}
