package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X02: values generated by a pattern with a range stay within it. The new
// value is computed symbolically on every path of the generator; the
// conditions of the path must bound it by the pattern's minimum and maximum.

func init() {
	register(&Rule{id: "X02", run: ruleX02,
		explanation: "Abstract interpretation of the number generator, once for each pattern: on every path the returned value must be bounded by the pattern's minimum and maximum, from the path's own conditions and assignments; def-use checks of the places that set the range.",
		assumptions: []string{"minimum <= maximum", "no rounding beyond the bounds by floating-point addition of equal signs"}})
}

var rangedPatterns = []string{"linear", "random_walk", "stepped"}

// sensorType: the struct with the pattern, its parameters and the value.
func sensorType(t types.Type) (*types.Struct, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "ChangePattern", "ChangeParams", "Value", "Type":
			n++
		}
	}
	return st, n == 4
}

func comparesWith(f *ssa.Function, s string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s {
					return true
				}
			}
		}
	}
	return false
}

func ruleX02(c *Ctx) {
	sp := c.p.spkgs["exp"]
	callees := map[*ssa.Function]map[*ssa.Function]bool{}
	var gens []*ssa.Function
	for _, f := range c.p.fns {
		if sp == nil || fnPkg(f) != sp {
			continue
		}
		callees[f] = map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && fnPkg(g) == sp {
						callees[f][g] = true
					}
				}
			}
		}
	}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			if !seen[f] {
				seen[f] = true
				for g := range callees[f] {
					rec(g)
				}
			}
		}
		rec(f)
		return seen
	}
	isGen := func(f *ssa.Function) bool {
		if f.Signature.Results().Len() != 1 || !isIface(f.Signature.Results().At(0).Type()) {
			return false
		}
		for _, p := range f.Params {
			if _, ok := sensorType(p.Type()); ok {
				for g := range reach(f) {
					if comparesWith(g, "random_walk") {
						return true
					}
				}
			}
		}
		return false
	}
	for f := range callees {
		if !isGen(f) {
			continue
		}
		top := true
		for g := range callees {
			if g != f && callees[g][f] && isGen(g) {
				top = false
			}
		}
		if top {
			gens = append(gens, f)
		}
	}
	if len(gens) == 0 {
		c.undecided("coverage", "generators", "-", "no function generates a new value for a pattern")
	}
	for _, f := range gens {
		c.generator(f)
	}
	c.patternParams(callees)
}

func (c *Ctx) generator(f *ssa.Function) {
	c.analysed[f.String()] = true
	e := newEval(c.p)
	in := e.in
	args := e.paramSyms(f)
	var sensor *Term
	var st *types.Struct
	for i, p := range f.Params {
		if s, ok := sensorType(p.Type()); ok {
			sensor, st = args[i], s
		}
	}
	state := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, pc: DNF{in.newConj(nil)}}
	base := in.mk(ODeref, ptrElem(sensor.typ), "", nil, nil, sensor)
	field := func(name string) *Term {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return in.Field(base, i, st.Field(i).Type())
			}
		}
		return nil
	}
	str := func(s string) *Term { return in.Const(tString, constant.MakeString(s)) }
	f64 := types.Typ[types.Float64]
	params := e.mapContent(state, field("ChangeParams"))
	param := func(s string) *Term { return in.Lookup(params, str(s), f64) }
	lo, hi, value := param("min"), param("max"), field("Value")
	current := in.Unbox(value, f64)

	given := in.newConj(nil)
	for _, g := range []*Term{in.Eq(field("Type"), str("number")), in.TypeIs(value, f64)} {
		if given = given.with(g, true); given == nil {
			c.undecided("in-range", f.String(), c.p.pos(f.Pos()), "a number sensor is not possible")
			return
		}
	}
	if given = given.with(in.Lt(hi, lo), false); given == nil {
		return
	}
	outs := e.root(f, args)
	for p := range e.problems {
		c.undecided("in-range", f.String(), p, "not modelled: %s", p)
	}
	pattern := field("ChangePattern")
	for _, p := range append([]string{"constant"}, rangedPatterns...) {
		hyp := given.with(in.Eq(pattern, str(p)), true)
		n, bad, unclear := 0, "", ""
		for _, o := range outs {
			for _, d := range o.st.pc {
				pc := hyp
				for _, l := range d.lits {
					if pc != nil {
						pc = pc.with(l.atom, l.val)
					}
				}
				if pc == nil || contradictory(pc) {
					continue
				}
				n++
				r := o.results[0]
				if r == value {
					r = in.MakeIface(f64, current)
				}
				if r.op != OIface || !types.Identical(r.obj.(types.Type).Underlying(), f64) {
					if r.op == OIface {
						bad = fmt.Sprintf("the new value is not a number but %s", r)
					} else {
						unclear = fmt.Sprintf("the new value %s is not known", r)
					}
					continue
				}
				v := r.args[0]
				if p == "constant" {
					if v != current {
						if arithmetic(v) {
							bad = fmt.Sprintf("a constant pattern changes the value to %s", v)
						} else {
							unclear = fmt.Sprintf("the new value %s is not known", v)
						}
					}
					continue
				}
				if v == current && p == "stepped" && notDue(pc, param("step_interval")) {
					continue
				}
				low, k1 := pc.decide(in.Lt(v, lo))
				high, k2 := pc.decide(in.Lt(hi, v))
				if k1 && !low && k2 && !high {
					continue
				}
				what := "above the maximum"
				if !k1 || low {
					what = "below the minimum"
				}
				if arithmetic(v) && plainConds(pc) {
					bad = fmt.Sprintf("the new value %s can be %s", v, what)
				} else {
					unclear = fmt.Sprintf("whether the new value %s can be %s is not known", v, what)
				}
			}
		}
		name := f.String() + " " + p
		switch {
		case bad != "":
			c.bad("in-range", name, c.p.pos(f.Pos()), "pattern %s: %s", p, bad)
		case unclear != "":
			c.undecided("in-range", name, c.p.pos(f.Pos()), "pattern %s: %s", p, unclear)
		case n == 0:
			c.undecided("in-range", name, c.p.pos(f.Pos()), "pattern %s: no path generates a value", p)
		default:
			c.ok("in-range", name)
		}
	}
}

func contradictory(pc *Conj) bool {
	for _, l := range pc.lits {
		if v, known := pc.decide(l.atom); known && v != l.val {
			return true
		}
	}
	return false
}

// arithmetic: built from numbers, parameters, the sensor and random numbers.
func arithmetic(t *Term) bool {
	return !t.contains(func(s *Term) bool {
		switch s.op {
		case OCall:
			switch n := s.callName(); n {
			case "math.Sin", "math.Cos", "math.Abs", "math.Round", "math.Floor", "math.Ceil", "math.Trunc":
				return false
			default:
				return !strings.HasPrefix(n, "math/rand.") && !strings.HasPrefix(n, "math/rand/v2.")
			}
		case OUnknown:
			return !strings.HasPrefix(s.aux, "math/rand.") && !strings.HasPrefix(s.aux, "math/rand/v2.")
		case OLoop, OClos, OPrev, OIterKey:
			return true
		}
		return false
	})
}

func plainConds(pc *Conj) bool {
	for _, l := range pc.lits {
		if !arithmetic(l.atom) {
			return false
		}
	}
	return true
}

// notDue: the counted time is less than the interval.
func notDue(pc *Conj, interval *Term) bool {
	for _, l := range pc.lits {
		if l.atom.op == OLt && l.val && l.atom.args[1] == interval && !l.atom.args[0].contains(func(s *Term) bool { return s == interval }) {
			return true
		}
	}
	return false
}

// patternParams: where the range of a pattern is set, the minimum comes from
// the minimum of the sensor's configuration and the maximum from its maximum.
func (c *Ctx) patternParams(callees map[*ssa.Function]map[*ssa.Function]bool) {
	set := map[*ssa.Function]map[*ssa.BasicBlock]map[string]bool{}
	for f := range callees {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				m, ok := u.Map.Type().Underlying().(*types.Map)
				if !ok || !types.Identical(m.Elem(), types.Typ[types.Float64]) {
					continue
				}
				k, ok := u.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				key := constant.StringVal(k.Value)
				if key != "min" && key != "max" {
					continue
				}
				if k, ok := u.Value.(*ssa.Const); ok && k.Value != nil {
					c.fixedEnd(f, u, key, k)
				}
				name := srcField(u.Value)
				if name == "" {
					continue
				}
				want := map[string]string{"min": "Min", "max": "Max"}[key]
				c.analysed[f.String()] = true
				if c.check(name == want, "range-source", f.String()+" "+key, c.p.where(u), "the pattern's %q is set from %s", key, name) {
					if set[f] == nil {
						set[f] = map[*ssa.BasicBlock]map[string]bool{}
					}
					if set[f][b] == nil {
						set[f][b] = map[string]bool{}
					}
					set[f][b][key] = true
				}
			}
		}
	}
	sets := func(g *ssa.Function, key string, depth int) bool { return false }
	sets = func(g *ssa.Function, key string, depth int) bool {
		if depth > 3 {
			return false
		}
		for _, ks := range set[g] {
			if ks[key] {
				return true
			}
		}
		for h := range callees[g] {
			if h != g && sets(h, key, depth+1) {
				return true
			}
		}
		return false
	}
	// each pattern with a range sets both ends
	for f := range callees {
		own := len(set[f]) > 0
		for g := range callees[f] {
			own = own || len(set[g]) > 0
		}
		if !own {
			continue
		}
		for _, p := range rangedPatterns[:2] {
			for _, s := range caseBlocks(f, p) {
				for _, key := range []string{"min", "max"} {
					good := false
					for _, b := range f.Blocks {
						in := s == b || len(s.Preds) == 1 && s.Dominates(b) || b.Dominates(s) || postdominates(b, s)
						if !in {
							continue
						}
						if set[f][b][key] {
							good = true
						}
						for _, i := range b.Instrs {
							if ci, ok := i.(ssa.CallInstruction); ok {
								if g := ci.Common().StaticCallee(); g != nil && g != f && sets(g, key, 0) {
									good = true
								}
							}
						}
					}
					c.check(good, "range-set", fmt.Sprintf("%s %s %s", f.String(), p, key), c.p.where(s.Instrs[0]), "the pattern %q is given no %q in %s", p, key, f.Name())
				}
			}
		}
	}
}

// fixedEnd: a fixed end of the range of a particular sensor's pattern lies
// within the configured range of the sensor.
func (c *Ctx) fixedEnd(f *ssa.Function, u *ssa.MapUpdate, key string, k *ssa.Const) {
	ld, ok := u.Map.(*ssa.UnOp)
	if !ok {
		return
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	x := fa.X
	if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
		x = e.Tuple
	}
	l, ok := x.(*ssa.Lookup)
	if !ok {
		return
	}
	n, ok := l.Index.(*ssa.Const)
	if !ok || n.Value == nil || n.Value.Kind() != constant.String {
		return
	}
	path := constant.StringVal(n.Value)
	lo, hi, ok := configuredRange(c.p.spkgs["exp"], path)
	if !ok {
		return
	}
	v, _ := constant.Float64Val(constant.ToFloat(k.Value))
	c.check(lo <= v && v <= hi, "range-source", f.String()+" "+path+" "+key, c.p.where(u), "the pattern's %q of %s is %v, outside of the sensor's range %v..%v", key, path, v, lo, hi)
}

// configuredRange: the minimum and maximum configured for a sensor.
func configuredRange(sp *ssa.Package, path string) (lo, hi float64, found bool) {
	init := sp.Func("init")
	if init == nil {
		return
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			k, ok := u.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String || constant.StringVal(k.Value) != path {
				continue
			}
			a, ok := u.Value.(*ssa.Alloc)
			if !ok {
				continue
			}
			found = true
			for _, r := range *a.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, r := range *fa.Referrers() {
					s, ok := r.(*ssa.Store)
					if !ok || s.Addr != fa {
						continue
					}
					v, ok := s.Val.(*ssa.Const)
					switch fieldName(fa) {
					case "Min", "Max":
						if !ok || v.Value == nil {
							return 0, 0, false
						}
						x, _ := constant.Float64Val(constant.ToFloat(v.Value))
						if fieldName(fa) == "Min" {
							lo = x
						} else {
							hi = x
						}
					}
				}
			}
		}
	}
	return
}

// caseBlocks: where a name is known to be s, in functions that set patterns.
func caseBlocks(f *ssa.Function, s string) (bs []*ssa.BasicBlock) {
	for _, b := range f.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := i.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for _, v := range []ssa.Value{bo.X, bo.Y} {
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s {
				n := 0
				if bo.Op == token.NEQ {
					n = 1
				}
				bs = append(bs, b.Succs[n])
			}
		}
	}
	return
}

// postdominates: every way from s to a return goes through b.
func postdominates(b, s *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	ok := true
	var rec func(x *ssa.BasicBlock)
	rec = func(x *ssa.BasicBlock) {
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			ok = false
			return
		}
		for _, y := range x.Succs {
			rec(y)
		}
	}
	if b == s {
		return true
	}
	rec(s)
	return ok
}

// fieldOf: the name of the field a value is read from.
func srcField(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return fieldName(fa)
		}
	case *ssa.Field:
		if st, ok := v.X.Type().Underlying().(*types.Struct); ok {
			return st.Field(v.Field).Name()
		}
	}
	return ""
}
