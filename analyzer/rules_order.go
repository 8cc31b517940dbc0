package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// L09: nothing that has an order takes it from the iteration over a map.

func init() {
	register(&Rule{id: "L09",
		explanation: "Order dataflow over the SSA form of the log, patch and document packages. Every loop over a map (and over a list that was collected in map order) is a source: a list, text or element choice that it produces depends on the iteration order until it is sorted by a total order. Such a value must not be returned by an exported function, stored in a log, indexed, or folded into a document. Sorting by a part of the elements must be stable and use a strict comparison.",
		assumptions: []string{"exempt as stated: the order of operations for different keys of one object in a generated patch, the order of members in printed text, and which of several errors is reported"},
		run:         ruleL09})
}

type orders struct {
	c      *Ctx
	un     map[ssa.Value]string // depends on the order of a map
	calls  map[*ssa.Function][]ssa.CallInstruction
	change bool
	final  bool // report
	fns    []*ssa.Function
	sorts  map[*ssa.Function][]*sortCall
	adds   map[*ssa.Function]bool // appends to a list that its caller sees
	loops  int
}

type sortCall struct {
	call   *ssa.Call
	arg    ssa.Value // the sorted list, conversions removed
	total  bool
	stable bool
	part   bool // compares a part of the elements
	strict bool
	clear  bool // the comparison is understood
}

type oloop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	key    ssa.Value
	elem   ssa.Value
	over   types.Type
	object bool // over the members of a document object
	why    string
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// naturalLoop: the blocks of the loop with this header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	if len(work) == 0 && !(len(h.Preds) > 0 && contains(h.Preds, h)) {
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

func contains(bs []*ssa.BasicBlock, b *ssa.BasicBlock) bool {
	for _, x := range bs {
		if x == b {
			return true
		}
	}
	return false
}

func (o *orders) mark(v ssa.Value, why string) {
	if v == nil || o.un[v] != "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	o.un[v] = why
	o.change = true
}

func (o *orders) bad(in ssa.Instruction, construct, format string, a ...any) {
	if o.final {
		o.c.bad("map-order", in.Parent().String()+": "+construct, o.c.p.where(in), format, a...)
	}
}

func (o *orders) open(in ssa.Instruction, construct, format string, a ...any) {
	if o.final {
		o.c.undecided("map-order", in.Parent().String()+": "+construct, o.c.p.where(in), format, a...)
	}
}

// before: a is executed before b whenever b is reached.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return a != b
		}
		if in == b {
			return false
		}
	}
	return false
}

// loops of a function whose order is that of a map.
func (o *orders) unordered(f *ssa.Function) (ls []*oloop) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Next:
				if in.IsString {
					continue
				}
				r, ok := in.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				l := &oloop{head: b, body: naturalLoop(b), over: r.X.Type(), why: "the iteration over the map at " + o.c.p.where(in)}
				for _, u := range *in.Referrers() {
					if e, ok := u.(*ssa.Extract); ok {
						switch e.Index {
						case 1:
							l.key = e
						case 2:
							l.elem = e
						}
					}
				}
				l.object = isDocMap(r.X.Type())
				if l.body != nil {
					ls = append(ls, l)
				}
			case *ssa.IndexAddr, *ssa.Index:
				var x, i ssa.Value
				if ia, ok := in.(*ssa.IndexAddr); ok {
					x, i = ia.X, ia.Index
				} else {
					x, i = in.(*ssa.Index).X, in.(*ssa.Index).Index
				}
				why := o.un[x]
				if why == "" || o.sortedAt(x, in.(ssa.Instruction)) {
					continue
				}
				if bo, ok := i.(*ssa.BinOp); ok && bo.Op == token.ADD {
					if _, ok := bo.Y.(*ssa.Const); ok {
						i = bo.X
					}
				}
				p, ok := i.(*ssa.Phi)
				if ok {
					if body := naturalLoop(p.Block()); body != nil && body[b] {
						l := &oloop{head: p.Block(), body: body, over: x.Type(), why: why}
						if ia, ok := in.(*ssa.IndexAddr); ok {
							for _, u := range *ia.Referrers() {
								if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
									l.key = ld
								}
							}
						} else {
							l.key = in.(ssa.Value)
						}
						ls = append(ls, l)
						continue
					}
				}
				if ia, ok := in.(*ssa.IndexAddr); ok && onlyStored(ia) {
					continue
				}
				if inComparator(f) {
					continue
				}
				o.bad(in.(ssa.Instruction), "choice", "one element is taken from a list whose order comes from %s", why)
			}
		}
	}
	return
}

func inComparator(f *ssa.Function) bool {
	s := f.Signature
	if f.Parent() == nil || s.Results().Len() != 1 || s.Params().Len() != 2 {
		return false
	}
	return true
}

func onlyStored(a *ssa.IndexAddr) bool {
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); !ok || s.Addr != a {
			return false
		}
	}
	return true
}

func isDocMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Object" {
		return true
	}
	if e, ok := m.Elem().Underlying().(*types.Interface); ok {
		b, ok := m.Key().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String && e != nil
	}
	return false
}

// sortedAt: the value has been brought into a total order before the use.
func (o *orders) sortedAt(v ssa.Value, use ssa.Instruction) bool {
	for _, s := range o.sorts[use.Parent()] {
		if !s.total {
			continue
		}
		if s.call == use {
			return true
		}
		if o.sameList(s.arg, v) && before(s.call, use) {
			return true
		}
	}
	return false
}

// sameList: two reads of one variable, or one value.
func (o *orders) sameList(a, b ssa.Value) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return x.X == y.X
	}
	if p, ok := b.(*ssa.Alloc); ok && ok1 {
		return x.X == p
	}
	return false
}

func (o *orders) findSorts(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || fnPkg(g) == nil {
				continue
			}
			n := g.Name()
			if g.Origin() != nil {
				n = g.Origin().Name()
			}
			s := &sortCall{call: c}
			cmp := -1
			switch fnPkg(g).Pkg.Path() + "." + n {
			case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
				s.total, s.clear, s.strict = true, true, true
			case "sort.Slice", "slices.SortFunc":
				cmp = 1
			case "sort.SliceStable", "slices.SortStableFunc":
				cmp = 1
				s.stable = true
			case "sort.Sort", "sort.Stable":
				s.stable = n == "Stable"
			default:
				continue
			}
			s.arg = strip(c.Call.Args[0])
			if cmp == 1 {
				o.comparison(s, c.Call.Args[1], s.arg.Type())
			}
			o.sorts[f] = append(o.sorts[f], s)
		}
	}
}

// comparison finds out what a comparison function compares.
func (o *orders) comparison(s *sortCall, cmp ssa.Value, list types.Type) {
	var f *ssa.Function
	switch c := cmp.(type) {
	case *ssa.MakeClosure:
		f = c.Fn.(*ssa.Function)
	case *ssa.Function:
		f = c
	}
	sl, ok := list.Underlying().(*types.Slice)
	if f == nil || !ok || f.Blocks == nil {
		return
	}
	_, basic := sl.Elem().Underlying().(*types.Basic)
	if len(f.Blocks) != 1 {
		return
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return
	}
	var x, y ssa.Value
	switch r := ret.Results[0].(type) {
	case *ssa.BinOp:
		switch r.Op {
		case token.LSS, token.GTR:
			s.strict = true
		case token.LEQ, token.GEQ:
		default:
			return
		}
		x, y = r.X, r.Y
	case *ssa.Call:
		g := r.Call.StaticCallee()
		if g == nil || fnPkg(g) == nil {
			return
		}
		if p := fnPkg(g).Pkg.Path(); p != "cmp" && p != "strings" || !strings.HasPrefix(g.Name(), "Compare") {
			return
		}
		s.strict = true
		x, y = r.Call.Args[0], r.Call.Args[1]
	default:
		return
	}
	px, okx := projection(x)
	py, oky := projection(y)
	if !okx || !oky || px != py {
		return
	}
	s.clear = true
	if basic && px == "" {
		s.total = s.strict
	} else {
		s.part = true
	}
}

// projection: the fields that lead from an element to the value.
func projection(v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return projection(v.X)
		}
	case *ssa.Field:
		p, ok := projection(v.X)
		return p + "." + fmt.Sprint(v.Field), ok
	case *ssa.FieldAddr:
		p, ok := projection(v.X)
		return p + "." + fmt.Sprint(v.Field), ok
	case *ssa.IndexAddr:
		_, ok := v.Index.(*ssa.Parameter)
		return "", ok
	case *ssa.Index:
		_, ok := v.Index.(*ssa.Parameter)
		return "", ok
	case *ssa.Parameter:
		return "", true
	case *ssa.Alloc: // a parameter that lives in memory
		for _, u := range *v.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == v {
				return projection(s.Val)
			}
		}
	}
	return "", false
}

// isKey: the value is the key of the iteration, possibly kept in a variable.
func (l *oloop) isKey(v ssa.Value) bool {
	v = strip(v)
	if l.key == nil {
		return false
	}
	if v == l.key {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok || !l.inside(a) {
		return false
	}
	n := 0
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if strip(s.Val) != l.key {
				return false
			}
			n++
		}
	}
	return n > 0
}

// defined inside of the loop?
func (l *oloop) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.body[in.Block()]
}

// keyGuard: the block is reached for at most one key.
func (l *oloop) keyGuard(b *ssa.BasicBlock) bool {
	if l.key == nil {
		return false
	}
	for h := range l.body {
		if len(h.Instrs) == 0 {
			continue
		}
		i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := i.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		if !(bo.X == l.key && !l.inside(bo.Y)) && !(bo.Y == l.key && !l.inside(bo.X)) {
			continue
		}
		s := h.Succs[0]
		if bo.Op == token.NEQ {
			s = h.Succs[1]
		}
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

func isList(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return false
}

// leads: how the value depends on the loop variable p: "append", "call", "math" or "" (not at all)
func (l *oloop) leads(v ssa.Value, p ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	best := ""
	up := func(s, kind string) {
		if s == "" {
			return
		}
		if kind != "same" {
			s = kind
		}
		if best == "" || best == "same" || s == "call" {
			best = s
		}
	}
	if v == p {
		return "same"
	}
	if !l.inside(v) {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			up(l.leads(e, p, seen), "same")
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				up(l.leads(v.Call.Args[0], p, seen), "append")
				return best
			case "min", "max":
				for _, a := range v.Call.Args {
					up(l.leads(a, p, seen), "math")
				}
				return best
			case "len", "cap":
				return ""
			}
		}
		for _, a := range v.Call.Args {
			up(l.leads(a, p, seen), "call")
		}
	case *ssa.Extract:
		up(l.leads(v.Tuple, p, seen), "same")
	case *ssa.BinOp:
		k := "math"
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			k = "append"
		}
		up(l.leads(v.X, p, seen), k)
		up(l.leads(v.Y, p, seen), k)
	case *ssa.Slice:
		up(l.leads(v.X, p, seen), "same")
	case *ssa.ChangeType:
		up(l.leads(v.X, p, seen), "same")
	case *ssa.Convert:
		up(l.leads(v.X, p, seen), "same")
	case *ssa.MakeInterface:
		up(l.leads(v.X, p, seen), "same")
	case *ssa.TypeAssert:
		up(l.leads(v.X, p, seen), "same")
	case *ssa.UnOp:
		up(l.leads(v.X, p, seen), "math")
	}
	return best
}

// choices: the values other than p that v can be, with the block they come from.
func (l *oloop) choices(v ssa.Value, from *ssa.BasicBlock, p ssa.Value, seen map[ssa.Value]bool, out *[]struct {
	v ssa.Value
	b *ssa.BasicBlock
}) {
	if v == p || seen[v] {
		return
	}
	if ph, ok := v.(*ssa.Phi); ok && l.body[ph.Block()] && ph.Block() != l.head {
		seen[v] = true
		for i, e := range ph.Edges {
			l.choices(e, ph.Block().Preds[i], p, seen, out)
		}
		return
	}
	*out = append(*out, struct {
		v ssa.Value
		b *ssa.BasicBlock
	}{v, from})
}

func (o *orders) loop(f *ssa.Function, l *oloop) {
	exempt := func(t types.Type) bool {
		if !l.object {
			return false
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return true // printed text
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			if n, ok := s.Elem().(*types.Named); ok && n.Obj().Name() == "Operation" && strings.HasSuffix(n.Obj().Pkg().Path(), "tsonpatch") {
				return strings.HasSuffix(fnPkg(f).Pkg.Path(), "tsonpatch") // a generated patch
			}
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return true
			}
		}
		return false
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p == l.key || isErr(p.Type()) || exempt(p.Type()) {
			continue
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			continue
		}
		for i, e := range p.Edges {
			from := l.head.Preds[i]
			if !l.body[from] || e == p {
				continue
			}
			switch l.leads(e, p, map[ssa.Value]bool{}) {
			case "append":
				o.mark(p, l.why)
				continue
			case "math":
				continue
			case "call":
				if isList(p.Type()) {
					o.mark(p, l.why)
				} else {
					o.bad(p, "result built up", "the result is built up step by step in the order of %s", l.why)
				}
				continue
			}
			var cs []struct {
				v ssa.Value
				b *ssa.BasicBlock
			}
			l.choices(e, from, p, map[ssa.Value]bool{}, &cs)
			for _, c := range cs {
				if !l.inside(c.v) || l.keyGuard(c.b) || o.extremum(l, c.v, p) {
					continue
				}
				if c.v == l.elem && o.un[l.elem] != "" {
					continue
				}
				o.bad(p, "last one wins", "a value is taken from whichever key comes last in %s", l.why)
			}
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				root := in.Addr
				var idx ssa.Value
				for done := false; !done; {
					switch a := root.(type) {
					case *ssa.FieldAddr:
						root = a.X
					case *ssa.IndexAddr:
						root = a.X
						idx = a.Index
					default:
						done = true
					}
				}
				if l.inside(root) {
					if ld, ok := root.(*ssa.UnOp); !ok || ld.Op != token.MUL || l.inside(ld.X) && !outerField(l, ld.X) {
						continue
					}
				}
				if isErr(in.Val.Type()) || exempt(in.Val.Type()) {
					continue
				}
				if isList(in.Val.Type()) && l.grows(in.Val, in.Addr) {
					o.cell(in.Addr, l.why, in)
					continue
				}
				if idx != nil {
					if p := l.counter(idx); p {
						o.mark(root, l.why)
						if ld, ok := root.(*ssa.UnOp); ok {
							o.cell(ld.X, l.why, in)
						}
					}
					continue
				}
				if _, ok := in.Val.Type().Underlying().(*types.Basic); ok || !l.inside(in.Val) || l.keyGuard(b) {
					continue
				}
				o.bad(in, "last one wins", "the variable keeps what comes last in %s", l.why)
			case *ssa.MapUpdate:
				if l.inside(in.Map) && !o.outerMap(l, in.Map) {
					continue
				}
				if l.isKey(in.Key) {
					continue
				}
				if isList(in.Value.Type()) && l.growsMap(in.Value, in.Map) {
					o.mark(in.Map, l.why)
					if ld, ok := in.Map.(*ssa.UnOp); ok {
						o.cell(ld.X, l.why, in)
					}
					continue
				}
				if !l.inside(in.Key) && l.inside(in.Value) && !l.keyGuard(b) {
					if _, ok := in.Value.Type().Underlying().(*types.Basic); ok {
						continue
					}
					o.bad(in, "last one wins", "the entry keeps what comes last in %s", l.why)
				}
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && o.adds[g] && !exempt(types.NewSlice(types.Typ[types.Int])) {
					if len(in.Call.Args) > 0 && !l.inside(in.Call.Args[0]) {
						o.bad(in, "call of "+g.Name(), "%s is called in the order of %s", g.Name(), l.why)
					}
				}
			}
		}
	}
	o.remembered(l)
	// leaving the loop with one of its values
	for _, b := range f.Blocks {
		if l.body[b] || len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		from := false
		for x := range l.body {
			if x != l.head && x.Dominates(b) {
				from = true
			}
		}
		if !from || l.keyGuard(b) {
			continue
		}
		for _, r := range ret.Results {
			if isErr(r.Type()) || exempt(r.Type()) {
				continue
			}
			if bt, ok := r.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
				continue
			}
			if l.fromIteration(r, map[ssa.Value]bool{}) {
				o.bad(ret, "first one wins", "the result is taken from whichever key comes first in %s", l.why)
			}
		}
	}
}

// remembered: a map outside of the loop in which one iteration leaves what
// another one reads.
func (o *orders) remembered(l *oloop) {
	written := map[ssa.Value]*ssa.MapUpdate{}
	for b := range l.body {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.MapUpdate)
			if !ok || l.inside(u.Map) && !o.outerMap(l, u.Map) || l.isKey(u.Key) {
				continue
			}
			if isList(u.Value.Type()) && l.growsMap(u.Value, u.Map) {
				continue
			}
			if b, ok := u.Value.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				continue
			}
			if s, ok := u.Value.Type().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				continue
			}
			if bo, ok := u.Value.(*ssa.BinOp); ok {
				if x, ok := bo.X.(*ssa.Lookup); ok && x.X == u.Map {
					continue
				}
			}
			written[u.Map] = u
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			k, ok := in.(*ssa.Lookup)
			if !ok || l.isKey(k.Index) {
				continue
			}
			for m, u := range written {
				if k.X == m || sameAddr(k.X, m) {
					o.bad(u, "remembered value", "what is remembered from other iterations depends on the order of %s", l.why)
				}
			}
		}
	}
}

// outerField: the address belongs to an object that exists before the loop.
func outerField(l *oloop, a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		default:
			return !l.inside(a)
		}
	}
}

func (o *orders) outerMap(l *oloop, m ssa.Value) bool {
	ld, ok := m.(*ssa.UnOp)
	return ok && ld.Op == token.MUL && outerField(l, ld.X)
}

// fromIteration: the value depends on the current key or element.
func (l *oloop) fromIteration(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v == l.key || v == l.elem {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok && in.Block() == l.head {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && l.fromIteration(*op, seen) {
			return true
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && l.fromIteration(s.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

// counter: an index that counts the iterations.
func (l *oloop) counter(v ssa.Value) bool {
	if bo, ok := v.(*ssa.BinOp); ok {
		return l.counter(bo.X)
	}
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == l.head
}

// grows: the value is what the address holds with something appended.
func (l *oloop) grows(v, addr ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return rec(v.Call.Args[0])
			}
			for _, a := range v.Call.Args {
				if rec(a) {
					return true
				}
			}
		case *ssa.Extract:
			return rec(v.Tuple)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.Slice:
			return rec(v.X)
		case *ssa.ChangeType:
			return rec(v.X)
		case *ssa.UnOp:
			return v.Op == token.MUL && sameAddr(v.X, addr)
		}
		return false
	}
	return rec(v)
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && x.Field == y.Field {
		return sameAddr(x.X, y.X)
	}
	i, ok1 := a.(*ssa.IndexAddr)
	j, ok2 := b.(*ssa.IndexAddr)
	if ok1 && ok2 {
		return i.Index == j.Index && sameAddr(i.X, j.X)
	}
	u, ok1 := a.(*ssa.UnOp)
	w, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && u.Op == w.Op {
		return sameAddr(u.X, w.X)
	}
	return false
}

func (l *oloop) growsMap(v, m ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return rec(v.Call.Args[0])
			}
			for _, a := range v.Call.Args {
				if rec(a) {
					return true
				}
			}
		case *ssa.Extract:
			return rec(v.Tuple)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.ChangeType:
			return rec(v.X)
		case *ssa.Lookup:
			return v.X == m || sameAddr(v.X, m)
		}
		return false
	}
	return rec(v)
}

// extremum: v replaces p only where it is greater (or less).
func (o *orders) extremum(l *oloop, v, p ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for _, r := range *p.Referrers() {
		if bo, ok := r.(*ssa.BinOp); ok {
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if bo.X == v || bo.Y == v {
					return true
				}
			}
		}
	}
	return false
}

// cell marks a variable or field.
func (o *orders) cell(a ssa.Value, why string, at ssa.Instruction) {
	switch a := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		o.mark(a, why)
	case *ssa.FieldAddr:
		if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
			o.mark(al, why)
			return
		}
		o.bad(at, "stored list", "a list whose order comes from %s is stored", why)
	case *ssa.Global:
		o.bad(at, "stored list", "a list whose order comes from %s is stored", why)
	case *ssa.Parameter:
		o.mark(a, why)
	}
}

func (o *orders) isExported(f *ssa.Function) bool {
	return f.Parent() == nil && f.Object() != nil && f.Object().Exported()
}

func (o *orders) use(v ssa.Value) {
	why := o.un[v]
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		if o.sortedAt(v, r) {
			continue
		}
		switch r := r.(type) {
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Convert, *ssa.TypeAssert, *ssa.ChangeInterface:
			if s, ok := r.(*ssa.Slice); ok && s.X != v {
				continue
			}
			o.mark(r.(ssa.Value), why)
		case *ssa.UnOp:
			if r.Op == token.MUL {
				if _, ok := v.(*ssa.Alloc); ok && o.sortedCell(v, r) {
					continue
				}
				o.mark(r, why)
			}
		case *ssa.Store:
			if r.Val == v {
				if ia, ok := r.Addr.(*ssa.IndexAddr); ok {
					// an element of a list or of variadic arguments
					if al, ok := ia.X.(*ssa.Alloc); ok {
						o.mark(al, why)
					}
					continue
				}
				o.cell(r.Addr, why, r)
			}
		case *ssa.MapUpdate:
			if r.Value == v {
				o.mark(r.Map, why)
			}
		case *ssa.Lookup:
			if r.X == v && !r.CommaOk {
				o.mark(r, why)
			}
		case *ssa.Range:
			for _, u := range *r.Referrers() {
				if n, ok := u.(*ssa.Next); ok {
					for _, w := range *n.Referrers() {
						if e, ok := w.(*ssa.Extract); ok && e.Index == 2 && isList(e.Type()) {
							o.mark(e, why)
						}
					}
				}
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !inComparator(f) {
					o.mark(f.FreeVars[i], why)
				}
			}
		case *ssa.Return:
			f := r.Parent()
			if o.isExported(f) {
				o.bad(r, "result", "%s returns a list whose order comes from %s", f.Name(), why)
			}
			for i, x := range r.Results {
				if x != v {
					continue
				}
				for _, ci := range o.calls[f] {
					cv := ci.Value()
					if cv == nil {
						continue
					}
					if len(r.Results) == 1 {
						o.mark(cv, why)
						continue
					}
					for _, u := range *cv.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == i {
							o.mark(e, why)
						}
					}
				}
			}
		case ssa.CallInstruction:
			o.arg(r, v, why)
		}
	}
}

func (o *orders) sortedCell(a ssa.Value, load *ssa.UnOp) bool {
	for _, s := range o.sorts[load.Parent()] {
		if !s.total {
			continue
		}
		x, ok := strip(s.arg).(*ssa.UnOp)
		if ok && x.X == a {
			if x == load || before(s.call, load) {
				return true
			}
		}
	}
	return false
}

func (o *orders) arg(r ssa.CallInstruction, v ssa.Value, why string) {
	com := r.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			o.mark(r.Value(), why)
		case "copy":
			if com.Args[1] == v {
				o.mark(com.Args[0], why)
			}
		}
		return
	}
	g := com.StaticCallee()
	if g == nil {
		return
	}
	for _, s := range o.sorts[r.Parent()] {
		if s.call == r {
			if !s.total && !s.clear {
				o.open(r, "sort", "the sorting of a list whose order comes from %s is not recognised", why)
			} else if !s.total && !isOperations(s.arg.Type()) {
				o.open(r, "sort", "a list whose order comes from %s is sorted by a part of its elements", why)
			}
			return
		}
	}
	if g.Blocks != nil && o.c.p.inRepo(g) {
		for i, a := range com.Args {
			if a == v && i < len(g.Params) {
				o.mark(g.Params[i], why)
			}
		}
		return
	}
	if fnPkg(g) == nil {
		return
	}
	n := g.Name()
	if g.Origin() != nil {
		n = g.Origin().Name()
	}
	switch fnPkg(g).Pkg.Path() + "." + n {
	case "slices.Sorted", "slices.SortedFunc", "slices.Max", "slices.Min", "slices.Contains", "maps.Insert":
		return
	case "strings.Join", "slices.Clone", "slices.Concat", "slices.Insert", "slices.Collect", "slices.AppendSeq", "slices.Reverse", "slices.Delete", "slices.Values", "slices.All", "maps.Clone":
		if x := r.Value(); x != nil {
			o.mark(x, why)
		}
	}
}

func isOperations(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := s.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Operation"
}

func ruleL09(c *Ctx) {
	o := &orders{c: c, un: map[ssa.Value]string{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, sorts: map[*ssa.Function][]*sortCall{}, adds: map[*ssa.Function]bool{}}
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						o.calls[g] = append(o.calls[g], ci)
					}
				}
			}
		}
		switch p := fnPkg(f).Pkg.Path(); {
		case strings.HasSuffix(p, "internal/logument"), strings.HasSuffix(p, "internal/tson"), strings.HasSuffix(p, "internal/tsonpatch"):
			if strings.HasSuffix(c.p.fset.Position(f.Pos()).Filename, "_test.go") {
				continue
			}
			o.fns = append(o.fns, f)
			c.analysed[f.String()] = true
			o.findSorts(f)
		}
	}
	o.addsTo()
	for round := 0; ; round++ {
		o.change = false
		n := 0
		for _, f := range o.fns {
			ls := o.unordered(f)
			// the iterators of the standard library
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						o.iterators(call)
					}
				}
			}
			n += len(ls)
			for _, l := range ls {
				o.loop(f, l)
			}
		}
		var vs []ssa.Value
		for v := range o.un {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			o.use(v)
		}
		if o.final {
			o.loops = n
			break
		}
		if !o.change {
			o.final = true
		}
	}
	c.notes["loops in map order"] = o.loops
	c.notes["values that depend on a map's order"] = len(o.un)
	sorts := 0
	for _, f := range o.fns {
		nm := f.String()
		n := 0
		for _, l := range o.unordered(f) {
			n++
			good := true
			for _, x := range c.findings {
				if strings.HasPrefix(x.Construct, nm+":") {
					good = false
				}
			}
			if good {
				c.ok("map-order", fmt.Sprintf("%s loop %d over %s", nm, n, types.TypeString(l.over, nil)))
			}
		}
		for i, s := range o.sorts[f] {
			sorts++
			name := fmt.Sprintf("%s sort %d", nm, i+1)
			switch {
			case !s.clear:
				c.undecided("sorting", name, c.p.where(s.call), "what is compared is not recognised")
			case !s.strict:
				c.bad("sorting", name, c.p.where(s.call), "the comparison is not strict: equal elements change their order")
			case s.part && !s.stable:
				c.bad("sorting", name, c.p.where(s.call), "elements that are equal in what is compared can change their order: the sort is not stable")
			default:
				c.ok("sorting", name)
			}
		}
	}
	if o.loops < 3 || sorts < 2 {
		c.undecided("coverage", "loops", "-", "only %d loops over maps and %d sorts were found", o.loops, sorts)
	}
}

// iterators: maps.Keys and the like have the order of the map.
func (o *orders) iterators(call *ssa.Call) {
	g := call.Call.StaticCallee()
	if g == nil || fnPkg(g) == nil {
		return
	}
	n := g.Name()
	if g.Origin() != nil {
		n = g.Origin().Name()
	}
	switch fnPkg(g).Pkg.Path() + "." + n {
	case "maps.Keys", "maps.Values", "maps.All", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
		o.mark(call, "the iteration over the map at "+o.c.p.where(call))
		for _, u := range *call.Referrers() {
			if d, ok := u.(*ssa.Call); ok && d.Call.Value == call {
				o.open(d, "iterator", "a loop over an iterator is not followed")
			}
		}
	case "reflect.MapKeys", "reflect.MapRange":
		o.open(call, "reflection", "an iteration by reflection is not followed")
	}
}

// addsTo finds the functions that append to a list that their caller sees.
func (o *orders) addsTo() {
	for changed := true; changed; {
		changed = false
		for _, f := range o.fns {
			if o.adds[f] || len(f.Params) == 0 {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						fa, ok := in.Addr.(*ssa.FieldAddr)
						if ok && fa.X == f.Params[0] && isList(in.Val.Type()) {
							l := &oloop{}
							if l.grows(in.Val, in.Addr) {
								o.adds[f] = true
							}
						}
					case *ssa.Call:
						if g := in.Call.StaticCallee(); g != nil && o.adds[g] && len(in.Call.Args) > 0 && in.Call.Args[0] == f.Params[0] && !o.query(f) {
							o.adds[f] = true
						}
					}
				}
			}
			if o.adds[f] {
				changed = true
			}
		}
	}
}

// query: the function returns something: its use is the result.
func (o *orders) query(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && !isErr(r.At(0).Type())
}
