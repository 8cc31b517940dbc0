package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V01: a series of datasets. The patch of a step is the difference between
// the directly preceding dataset and the new one, and both are stored under
// the number of the car and of the step. Decided by following values
// backwards through the calls that produce them.

func init() {
	register(&Rule{id: "V01", run: ruleV01,
		explanation: "Context-sensitive slicing of the generator: the operands of each difference and the place where datasets and patches are stored are traced to the iteration they belong to.",
		assumptions: []string{"files are written under the names built from the traced numbers"}})
}

// vframe is a call under consideration.
type vframe struct {
	fn   *ssa.Function
	args []ssa.Value
	up   *vframe
	n    int
}

type vkey struct {
	v  ssa.Value
	fr *vframe
}

// backward visits everything a value is made from.
type backward struct {
	p     *Program
	seen  map[vkey]bool
	stop  func(c *ssa.Call) bool
	visit func(v ssa.Value, fr *vframe)
	lost  bool
	subs  map[*ssa.Call]map[*vframe]*vframe
}

func newBackward(p *Program, visit func(v ssa.Value, fr *vframe)) *backward {
	return &backward{p: p, seen: map[vkey]bool{}, stop: func(*ssa.Call) bool { return false }, visit: visit, subs: map[*ssa.Call]map[*vframe]*vframe{}}
}

func (b *backward) enter(c *ssa.Call, g *ssa.Function, fr *vframe) *vframe {
	if b.subs[c] == nil {
		b.subs[c] = map[*vframe]*vframe{}
	}
	if s := b.subs[c][fr]; s != nil {
		return s
	}
	n := 0
	if fr != nil {
		n = fr.n + 1
	}
	s := &vframe{g, c.Call.Args, fr, n}
	b.subs[c][fr] = s
	return s
}

func (b *backward) call(c *ssa.Call, idx int, fr *vframe) {
	b.visit(c, fr)
	if b.stop(c) {
		return
	}
	g := c.Call.StaticCallee()
	if g != nil && g.Blocks != nil && b.p.repoFn(g) && (fr == nil || fr.n < 6) {
		sub := b.enter(c, g, fr)
		for _, bl := range g.Blocks {
			if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				b.walk(r.Results[idx], sub)
			}
		}
		return
	}
	for _, a := range c.Call.Args {
		b.walk(a, fr)
	}
	if c.Call.IsInvoke() || g == nil {
		b.walk(c.Call.Value, fr)
	}
}

func (b *backward) walk(v ssa.Value, fr *vframe) {
	k := vkey{v, fr}
	if v == nil || b.seen[k] {
		return
	}
	b.seen[k] = true
	switch v := v.(type) {
	case *ssa.Call:
		b.call(v, 0, fr)
		return
	case *ssa.Extract:
		b.visit(v, fr)
		if c, ok := v.Tuple.(*ssa.Call); ok {
			b.call(c, v.Index, fr)
			return
		}
		b.walk(v.Tuple, fr)
		return
	}
	b.visit(v, fr)
	switch v := v.(type) {
	case *ssa.Parameter:
		if fr == nil || fr.up == nil && fr.args == nil {
			return
		}
		for i, p := range fr.fn.Params {
			if p == v && i < len(fr.args) {
				b.walk(fr.args[i], fr.up)
			}
		}
	case *ssa.FreeVar:
		b.lost = true
	case *ssa.Phi:
		for _, e := range v.Edges {
			b.walk(e, fr)
		}
	case *ssa.Alloc:
		b.filled(v, fr)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.Const, *ssa.Builtin:
	case ssa.Instruction:
		for _, o := range v.Operands(nil) {
			if *o != nil {
				b.walk(*o, fr)
			}
		}
	}
}

// filled: what is stored in a variable, directly or by a call that is given
// its address.
func (b *backward) filled(a ssa.Value, fr *vframe) {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				b.walk(r.Val, fr)
			}
		case *ssa.FieldAddr:
			b.filled(r, fr)
		case *ssa.IndexAddr:
			b.filled(r, fr)
		case *ssa.MakeInterface:
			b.filled(r, fr)
		case *ssa.ChangeType:
			b.filled(r, fr)
		case *ssa.Call:
			if _, ok := r.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			for _, x := range r.Call.Args {
				if x != a {
					b.walk(x, fr)
				}
			}
		}
	}
}

func (p *Program) repoFn(g *ssa.Function) bool {
	pk := fnPkg(g)
	if pk == nil {
		return false
	}
	return pk.Pkg.Path() == p.mod || strings.HasPrefix(pk.Pkg.Path(), p.mod+"/")
}

func ruleV01(c *Ctx) {
	sp := c.p.spkgs[pkgVss]
	if sp == nil {
		c.undecided("coverage", pkgVss, "-", "the package is not found")
		return
	}
	var steps []*ssa.Function
	for _, f := range c.p.fns {
		if fnPkg(f) != sp || f.Parent() != nil {
			continue
		}
		if s := f.Signature; s.Recv() != nil && s.Results().Len() == 2 {
			n := namedOf(s.Recv().Type())
			if n != nil && n == namedOf(s.Results().At(0).Type()) && n == namedOf(s.Results().At(1).Type()) {
				steps = append(steps, f)
			}
		}
	}
	if len(steps) == 0 {
		c.undecided("coverage", "next dataset", "-", "no method derives the next dataset and a patch")
		return
	}
	for _, f := range steps {
		c.step(f)
	}
	used := 0
	for _, f := range c.p.fns {
		if fnPkg(f) != sp {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, s := range steps {
					if call.Call.StaticCallee() == s {
						used++
						c.series(f, call, s)
					}
				}
			}
		}
	}
	if used == 0 {
		c.undecided("coverage", "series", "-", "no series of datasets is generated")
	}
}

// step: the patch is the difference of the receiver's and the new dataset.
func (c *Ctx) step(f *ssa.Function) {
	c.analysed[f.String()] = true
	root := &vframe{fn: f}
	isDiff := func(call *ssa.Call) bool {
		g := call.Call.StaticCallee()
		return g != nil && fnPkg(g) == c.p.spkgs[pkgPat] && strings.HasPrefix(g.Name(), "GeneratePatch")
	}
	// dataset: maps made for the new dataset
	fresh := map[ssa.Value]bool{}
	b := newBackward(c.p, func(v ssa.Value, fr *vframe) {
		if m, ok := v.(*ssa.MakeMap); ok {
			fresh[m] = true
		}
		if p, ok := v.(*ssa.Parameter); ok && fr == root && p == f.Params[0] {
			fresh[p] = true
		}
	})
	for _, bl := range f.Blocks {
		if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok {
			b.walk(r.Results[0], root)
		}
	}
	if fresh[f.Params[0]] && len(fresh) == 1 {
		c.bad("step-dataset", f.Name(), c.p.pos(f.Pos()), "%s returns the preceding dataset as the new one", f.Name())
		return
	} else if fresh[f.Params[0]] {
		c.undecided("step-dataset", f.String(), c.p.pos(f.Pos()), "the new dataset is made from the old one in a way that is not followed")
		delete(fresh, f.Params[0])
	}
	if len(fresh) == 0 {
		c.undecided("step-dataset", f.String(), c.p.pos(f.Pos()), "the new dataset is not found")
		return
	}
	type diff struct {
		call *ssa.Call
		fr   *vframe
	}
	var diffs []diff
	b = newBackward(c.p, func(v ssa.Value, fr *vframe) {
		if call, ok := v.(*ssa.Call); ok && isDiff(call) {
			diffs = append(diffs, diff{call, fr})
		}
	})
	b.stop = isDiff
	for _, bl := range f.Blocks {
		if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok {
			b.walk(r.Results[1], root)
		}
	}
	if len(diffs) == 0 {
		c.undecided("step-patch", f.String(), c.p.pos(f.Pos()), "the patch is not traced to a generated patch")
		return
	}
	from := func(v ssa.Value, fr *vframe) (old, new, lost bool) {
		b := newBackward(c.p, func(v ssa.Value, fr *vframe) {
			if v == f.Params[0] && fr == root {
				old = true
			}
			if fresh[v] {
				new = true
			}
		})
		b.walk(v, fr)
		return old, new, b.lost
	}
	for _, d := range diffs {
		name := f.Name() + " -> " + d.call.Call.StaticCallee().Name()
		at := c.p.where(d.call)
		switch d.call.Call.StaticCallee().Name() {
		case "GeneratePatchWithTimestamp":
			c.ok("step-mode", name)
		case "GeneratePatch":
			c.bad("step-mode", name, at, "the patch of %s is generated without regard to timestamps", f.Name())
		default:
			c.undecided("step-mode", name, at, "whether timestamps are compared is not known")
		}
		for i, want := range []string{"preceding", "new"} {
			old, new, lost := from(d.call.Call.Args[i], d.fr)
			good := i == 0 && old && !new || i == 1 && new && !old
			switch {
			case good:
				c.ok("step-ends", name+" "+want)
			case old != new && !lost:
				c.bad("step-ends", name+" "+want, at, "the %s dataset of the difference is made from the %s one", want, map[bool]string{true: "preceding", false: "new"}[old])
			default:
				c.undecided("step-ends", name+" "+want, at, "which dataset the %s one of the difference is is not known", want)
			}
		}
		// the new dataset does not change afterwards
		if d.call.Parent() == f {
			for _, bl := range f.Blocks {
				for k, in := range bl.Instrs {
					u, ok := changedMap(in)
					if !ok || !follows(bl, k, d.call) {
						continue
					}
					maps, _ := mapsOf(u)
					for m := range maps {
						if fresh[m] {
							c.bad("step-final", name, c.p.where(in), "the new dataset changes after the difference was taken")
						}
					}
				}
			}
			c.ok("step-final", name)
		}
	}
	// what is written directly must not be the preceding dataset
	clean := true
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			u, ok := changedMap(in)
			if !ok {
				continue
			}
			maps, base := mapsOf(u)
			if len(maps) == 0 && base[f.Params[0]] {
				clean = false
				c.bad("step-untouched", f.Name(), c.p.where(in), "%s changes the preceding dataset", f.Name())
			}
		}
	}
	if clean {
		c.ok("step-untouched", f.Name())
	}
}

// follows: the instruction can be carried out after call.
func follows(b *ssa.BasicBlock, k int, call *ssa.Call) bool {
	if b == call.Block() {
		for i, in := range b.Instrs {
			if in == call {
				return k > i
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if rec(y) {
					return true
				}
			}
		}
		return false
	}
	return rec(call.Block())
}

// mapsOf: the maps made in the function that a map is or is part of, and the
// parameters it is part of otherwise.
func mapsOf(v ssa.Value) (maps map[ssa.Value]bool, params map[ssa.Value]bool) {
	maps, params = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeMap:
			maps[v] = true
		case *ssa.Parameter:
			params[v] = true
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.TypeAssert:
			rec(v.X)
		case *ssa.ChangeType:
			rec(v.X)
		case *ssa.MakeInterface:
			rec(v.X)
		case *ssa.Lookup:
			rec(v.X)
		case *ssa.Extract:
			rec(v.Tuple)
		case *ssa.Next:
			rec(v.Iter)
		case *ssa.Range:
			rec(v.X)
		case *ssa.UnOp:
			rec(v.X)
		case *ssa.IndexAddr:
			rec(v.X)
		case *ssa.FieldAddr:
			rec(v.X)
		case *ssa.Field:
			rec(v.X)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					rec(s.Val)
				}
			}
		case *ssa.Call:
			for _, a := range v.Call.Args {
				rec(a)
			}
		}
	}
	rec(v)
	return
}

// series: the loop that generates a series.
func (c *Ctx) series(f *ssa.Function, call *ssa.Call, step *ssa.Function) {
	c.analysed[f.String()] = true
	name := f.Name()
	at := c.p.where(call)
	// the receiver is what the previous step returned, or the first dataset
	recv := call.Call.Args[0]
	if u, ok := recv.(*ssa.UnOp); ok && u.Op == token.MUL {
		recv = u.X
	}
	prev := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == call && e.Index == 0
	}
	ph, ok := recv.(*ssa.Phi)
	first := func(v ssa.Value) (*ssa.Call, bool) {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Call:
				g := x.Call.StaticCallee()
				return x, g != nil && g != step && namedOf(x.Type()) == namedOf(step.Signature.Recv().Type())
			}
			return nil, false
		}
	}
	var start *ssa.Call
	if !ok {
		switch {
		case prev(recv):
			c.ok("chain", name)
		default:
			if k, ok := first(recv); ok && loopDepth(call.Block()) > loopDepth(k.Block()) {
				c.bad("chain", name, at, "every dataset of %s is derived from the first one", name)
			} else if ok && loopDepth(call.Block()) > 0 && loopDepth(call.Block()) == loopDepth(k.Block()) {
				c.bad("chain", name, at, "a dataset of %s is derived from a new one", name)
			} else {
				c.undecided("chain", name, at, "which dataset the next one is derived from is not known")
			}
			return
		}
	} else {
		for i, e := range ph.Edges {
			back := ph.Block().Dominates(ph.Block().Preds[i])
			switch {
			case prev(e) && back:
			case back:
				if e == ph {
					c.bad("chain", name, at, "a dataset of %s is not always derived from the directly preceding one", name)
				} else if phiMay(e, ph) {
					c.bad("chain", name, at, "a dataset of %s is not always derived from the directly preceding one", name)
				} else if k, ok := e.(*ssa.Extract); ok && k.Tuple == call {
					c.bad("chain", name, at, "the next dataset of %s is derived from the patch", name)
				} else if _, ok := first(e); ok {
					c.bad("chain", name, at, "a dataset of %s is derived from a new one", name)
				} else {
					c.undecided("chain", name, at, "which dataset the next one is derived from is not known")
				}
				return
			default:
				k, ok := first(e)
				if !ok {
					if q, isPhi := e.(*ssa.Phi); isPhi && q.Block().Dominates(ph.Block()) && loopDepth(q.Block()) > 0 {
						c.bad("chain", name, at, "the first dataset of a car in %s can be that of the car before", name)
					} else {
						c.undecided("chain", name, at, "the first dataset is not known")
					}
					return
				}
				start = k
			}
		}
		c.ok("chain", name)
	}
	// number of the car and of the step
	var id, no string
	for i, p := range step.Params {
		if i == 0 || !isInteger(p.Type()) {
			continue
		}
		if id == "" {
			id = number(call.Call.Args[i])
		} else if no == "" {
			no = number(call.Call.Args[i])
		}
	}
	if id == "" || no == "" || id == no {
		c.undecided("stored", name, at, "the numbers of the car and the step are not known")
		return
	}
	type saved struct {
		what string
		nos  []string
		car  bool
	}
	order := map[string]string{}
	want := map[string]bool{"dataset": false, "patch": false, "first dataset": start == nil}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := s.Call.StaticCallee()
			if g == nil || !c.saves(g) {
				continue
			}
			var file ssa.Value
			for i, p := range g.Params {
				if isString(p.Type()) && i < len(s.Call.Args) {
					file = s.Call.Args[i]
				}
			}
			if file == nil || namedOf(s.Call.Args[0].Type()) != namedOf(step.Signature.Recv().Type()) {
				continue
			}
			what, wantNo := "", no
			x := s.Call.Args[0]
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				x = u.X
			}
			switch {
			case prev(x):
				what = "dataset"
			case start != nil && x == start:
				what, wantNo = "first dataset", ""
			case x == ph:
				c.bad("stored", name+" dataset", c.p.where(s), "%s stores the preceding dataset again", name)
				continue
			default:
				if e, ok := x.(*ssa.Extract); ok && e.Tuple == call {
					what = "patch"
				}
			}
			if what == "" {
				c.undecided("stored", name, c.p.where(s), "what is stored is not known")
				continue
			}
			nums, seq, known := c.numbersIn(file)
			wrong := ""
			for _, n := range nums {
				switch {
				case n == id:
				case n == wantNo && wantNo != "":
				case strings.HasPrefix(n, "#"):
				default:
					wrong = n
				}
			}
			var own []string
			for _, n := range seq {
				if !strings.HasPrefix(n, "#") {
					own = append(own, n)
				}
			}
			has := func(n string) bool {
				for _, m := range nums {
					if m == n {
						return true
					}
				}
				return false
			}
			switch {
			case !known:
				c.undecided("stored", name+" "+what, c.p.where(s), "the name of the file is not known")
			case wrong != "":
				c.bad("stored", name+" "+what, c.p.where(s), "the %s of car %s is stored under the number %s", what, id, wrong)
			case !has(id):
				c.bad("stored", name+" "+what, c.p.where(s), "the %s is not stored under the number of its car", what)
			case wantNo != "" && !has(wantNo):
				c.bad("stored", name+" "+what, c.p.where(s), "the %s is not stored under the number of its step", what)
			default:
				if what != "first dataset" {
					order[what] = fmt.Sprint(own)
				}
				c.ok("stored", name+" "+what+" "+fmt.Sprint(nums))
				from := call.Block()
				if what == "first dataset" {
					from = start.Block()
				}
				if s.Block() == from || postdominates(s.Block(), from) {
					want[what] = true
				} else {
					c.bad("stored", name+" "+what, c.p.where(s), "the %s is not stored in every case", what)
					want[what] = true
				}
			}
		}
	}
	if a, b := order["dataset"], order["patch"]; a != b && a != "" && b != "" && sameWords(a, b) {
		c.bad("stored", name+" order", at, "the numbers of the car and the step are exchanged in the name of the patch: %s, but %s for the dataset", b, a)
	}
	for _, w := range sortedKeys(want) {
		if !want[w] && len(c.open) == 0 {
			c.bad("stored", name+" "+w, at, "the %s is not stored", w)
		}
	}
	// the first dataset belongs to the same car
	if start != nil {
		g := start.Call.StaticCallee()
		same, any := false, false
		for i, p := range g.Params {
			if isInteger(p.Type()) && i < len(start.Call.Args) {
				any = true
				same = same || number(start.Call.Args[i]) == id
			}
		}
		if any {
			c.check(same, "first-car", name, c.p.where(start), "the first dataset is generated for another car than the following ones")
		}
	}
}

// phiMay: e is or can be the value of ph.
func phiMay(e ssa.Value, ph *ssa.Phi) bool {
	q, ok := e.(*ssa.Phi)
	if !ok {
		return e == ph
	}
	seen := map[*ssa.Phi]bool{}
	var rec func(q *ssa.Phi) bool
	rec = func(q *ssa.Phi) bool {
		if seen[q] {
			return false
		}
		seen[q] = true
		for _, x := range q.Edges {
			if x == ph {
				return true
			}
			if y, ok := x.(*ssa.Phi); ok && rec(y) {
				return true
			}
		}
		return false
	}
	return rec(q)
}

// loopDepth counts the loops a block is part of.
func loopDepth(b *ssa.BasicBlock) (n int) {
	for _, h := range b.Parent().Blocks {
		for _, p := range h.Preds {
			if h.Dominates(p) && h.Dominates(b) && reaches(b, p, h) {
				n++
				break
			}
		}
	}
	return
}

// reaches: a way from b to p that does not go through h, except at its start.
func reaches(b, p, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == p {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range x.Succs {
			if y != h && rec(y) {
				return true
			}
		}
		return false
	}
	return rec(b)
}

// saves: the method writes a file.
func (c *Ctx) saves(g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function, d int) bool
	rec = func(g *ssa.Function, d int) bool {
		if seen[g] || d > 3 {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(*ssa.Call); ok {
					h := k.Call.StaticCallee()
					if h == nil {
						continue
					}
					if p := fnPkg(h); p != nil && p.Pkg.Path() == "os" && (h.Name() == "WriteFile" || h.Name() == "Create" || h.Name() == "OpenFile") {
						return true
					}
					if c.p.repoFn(h) && rec(h, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return g.Signature.Recv() != nil && rec(g, 0)
}

// number: a canonical form of an integer: a variable plus a constant.
func number(v ssa.Value) string {
	k := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Int {
				return ""
			}
			n, _ := constant.Int64Val(x.Value)
			return fmt.Sprintf("#%d", n+k)
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.BinOp:
			n, ok := x.Y.(*ssa.Const)
			o := x.X
			if !ok && x.Op == token.ADD {
				n, ok = x.X.(*ssa.Const)
				o = x.Y
			}
			if ok && (x.Op == token.ADD || x.Op == token.SUB) && n.Value != nil && n.Value.Kind() == constant.Int {
				m, _ := constant.Int64Val(n.Value)
				if x.Op == token.SUB {
					m = -m
				}
				k += m
				v = o
				continue
			}
		}
		break
	}
	s := v.Name()
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		s = ph.Comment + ":" + s
	}
	if k != 0 {
		s += fmt.Sprintf("%+d", k)
	}
	return s
}

// numbersIn: the numbers that a name is made from.
func (c *Ctx) numbersIn(v ssa.Value) (ns, seq []string, known bool) {
	set := map[string]bool{}
	known = true
	seen := map[vkey]bool{}
	var rec func(v ssa.Value, fr *vframe)
	rec = func(v ssa.Value, fr *vframe) {
		if !isInteger(v.Type()) {
			if seen[vkey{v, fr}] {
				return
			}
			seen[vkey{v, fr}] = true
		}
		if isInteger(v.Type()) {
			if p, ok := v.(*ssa.Parameter); ok && fr != nil {
				for i, q := range fr.fn.Params {
					if p == q {
						rec(fr.args[i], fr.up)
					}
				}
				return
			}
			n := number(v)
			if fr != nil && !strings.HasPrefix(n, "#") {
				known = false
				return
			}
			set[n] = true
			seq = append(seq, n)
			return
		}
		switch v := v.(type) {
		case *ssa.Parameter:
			if fr != nil {
				for i, q := range fr.fn.Params {
					if v == q && i < len(fr.args) {
						rec(fr.args[i], fr.up)
					}
				}
			}
		case *ssa.Const, *ssa.Global:
		case *ssa.MakeInterface:
			rec(v.X, fr)
		case *ssa.ChangeType:
			rec(v.X, fr)
		case *ssa.Convert:
			rec(v.X, fr)
		case *ssa.BinOp:
			rec(v.X, fr)
			rec(v.Y, fr)
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e, fr)
			}
		case *ssa.UnOp:
			rec(v.X, fr)
		case *ssa.Slice:
			rec(v.X, fr)
		case *ssa.Extract:
			rec(v.Tuple, fr)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v {
						rec(r.Val, fr)
					}
				case *ssa.IndexAddr:
					for _, s := range *r.Referrers() {
						if s, ok := s.(*ssa.Store); ok && s.Addr == r {
							rec(s.Val, fr)
						}
					}
				case *ssa.Slice, *ssa.UnOp:
				default:
					known = false
				}
			}
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil {
				known = false
				return
			}
			if g.Blocks != nil && c.p.repoFn(g) {
				n := 0
				for f := fr; f != nil; f = f.up {
					n++
				}
				if n > 3 {
					known = false
					return
				}
				sub := &vframe{fn: g, args: v.Call.Args, up: fr}
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						rec(r.Results[0], sub)
					}
				}
				return
			}
			switch fullName(g) {
			case "fmt.Sprintf", "fmt.Sprint", "path/filepath.Join", "path.Join", "strconv.Itoa", "strconv.FormatInt", "strings.Join":
				for _, a := range v.Call.Args {
					rec(a, fr)
				}
			default:
				known = false
			}
		default:
			known = false
		}
	}
	rec(v, nil)
	for n := range set {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns, seq, known
}

var _ = types.Identical

// sameWords: a and b have the same words in different order.
func sameWords(a, b string) bool {
	x, y := strings.Fields(strings.Trim(a, "[]")), strings.Fields(strings.Trim(b, "[]"))
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, " ") == strings.Join(y, " ")
}

// changedMap: the map that an instruction changes.
func changedMap(in ssa.Instruction) (ssa.Value, bool) {
	switch in := in.(type) {
	case *ssa.MapUpdate:
		return in.Map, true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && len(in.Call.Args) > 0 && (b.Name() == "delete" || b.Name() == "clear") {
			_, isMap := in.Call.Args[0].Type().Underlying().(*types.Map)
			return in.Call.Args[0], isMap
		}
	}
	return nil, false
}
