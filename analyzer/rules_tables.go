package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "V02",
		explanation: "Agreement of option tables over SSA: for every function that reads a setting from a map[string]any parameter with a constant name and an unchecked type assertion (also through helper functions that get the name as an argument), every map that a caller can pass, traced back to the place where it is made, must hold that name with exactly that type on every path to the use; a setting that is read from a command line flag must have the flag's name.",
		assumptions: []string{"settings maps are made by literals or assignments in one function and are not changed through other references"},
		run:         ruleV02})
	register(&Rule{id: "X01",
		explanation: "Completeness of sensor group tables over SSA: every function that walks or looks up several of the sensor group maps of a vehicle covers all of them (alone or together with what its callers cover), and every category constant that a configured sensor uses is classified into exactly one group of its own.",
		run:         ruleX01})
}

type need struct {
	key string
	typ types.Type
	at  ssa.Instruction
}

// needs of a function about its parameter number i.
func needsOf(f *ssa.Function, i int, depth int, calls map[*ssa.Function][]ssa.CallInstruction) (ns []need) {
	if i >= len(f.Params) || f.Blocks == nil || depth > 4 {
		return nil
	}
	p := f.Params[i]
	var uses []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store: // captured or addressed variable
				if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, u := range *a.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
							collect(ld)
						}
						if mc, ok := u.(*ssa.MakeClosure); ok {
							g := mc.Fn.(*ssa.Function)
							for k, b := range mc.Bindings {
								if b == a {
									for _, w := range *g.FreeVars[k].Referrers() {
										if ld, ok := w.(*ssa.UnOp); ok {
											collect(ld)
										}
									}
								}
							}
						}
					}
				}
			case *ssa.ChangeType:
				collect(r)
			default:
				uses = append(uses, r)
			}
		}
	}
	collect(p)
	for _, u := range uses {
		switch u := u.(type) {
		case *ssa.Lookup:
			if u.CommaOk || u.Referrers() == nil || !seen[u.X] {
				continue
			}
			for _, r := range *u.Referrers() {
				ta, ok := r.(*ssa.TypeAssert)
				if !ok || ta.CommaOk {
					continue
				}
				for _, k := range constArgs(u.Index, calls, 0) {
					ns = append(ns, need{k, ta.AssertedType, ta})
				}
			}
		case *ssa.Call:
			if g := u.Call.StaticCallee(); g != nil {
				for k, a := range u.Call.Args {
					if !seen[a] || k >= len(g.Params) {
						continue
					}
					for _, n := range needsOf(g, k, depth+1, map[*ssa.Function][]ssa.CallInstruction{g: {u}}) {
						ns = append(ns, n)
					}
				}
			}
		}
	}
	return
}

// constArgs: the constant texts that a value can be, through parameters.
func constArgs(v ssa.Value, calls map[*ssa.Function][]ssa.CallInstruction, depth int) (ks []string) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			ks = append(ks, constant.StringVal(v.Value))
		}
	case *ssa.ChangeType:
		return constArgs(v.X, calls, depth)
	case *ssa.Parameter:
		f := v.Parent()
		if depth > 3 {
			return nil
		}
		for i, p := range f.Params {
			if p == v {
				for _, c := range calls[f] {
					if i < len(c.Common().Args) {
						ks = append(ks, constArgs(c.Common().Args[i], calls, depth+1)...)
					}
				}
			}
		}
	}
	return
}

type provider struct {
	mk   *ssa.MakeMap
	at   ssa.Instruction   // where the finished map leaves the function that makes it
	ends []ssa.Instruction // where values that may be the map leave it
}

// providers traces a map back to where it is made.
func providers(v ssa.Value, at ssa.Instruction, calls map[*ssa.Function][]ssa.CallInstruction, seen map[ssa.Value]bool) (ps []provider, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeMap:
		return []provider{{v, at, nil}}, true
	case *ssa.ChangeType:
		return providers(v.X, at, calls, seen)
	case *ssa.Const: // nil map: nothing is provided; only where it is overwritten
		return nil, true
	case *ssa.Phi:
		ok = true
		for i, e := range v.Edges {
			pb := v.Block().Preds[i]
			p, k := providers(e, pb.Instrs[len(pb.Instrs)-1], calls, seen)
			for i := range p {
				p[i].ends = append(p[i].ends, at)
			}
			ps = append(ps, p...)
			ok = ok && k
		}
		return
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			return nil, false
		}
		return results(g, 0, calls, seen)
	case *ssa.Extract:
		c, k := v.Tuple.(*ssa.Call)
		if !k {
			return nil, false
		}
		g := c.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			return nil, false
		}
		return results(g, v.Index, calls, seen)
	case *ssa.UnOp:
		if a, k := v.X.(*ssa.Alloc); k && v.Op == token.MUL {
			ok = true
			for _, r := range *a.Referrers() {
				if s, k := r.(*ssa.Store); k && s.Addr == a {
					p, k := providers(s.Val, at, calls, seen)
					ps = append(ps, p...)
					ok = ok && k
				}
			}
			return
		}
	case *ssa.Parameter:
		f := v.Parent()
		ok = len(calls[f]) > 0
		for i, p := range f.Params {
			if p == v {
				for _, c := range calls[f] {
					q, k := providers(c.Common().Args[i], c, calls, seen)
					ps = append(ps, q...)
					ok = ok && k
				}
			}
		}
		return
	}
	return nil, false
}

func results(g *ssa.Function, i int, calls map[*ssa.Function][]ssa.CallInstruction, seen map[ssa.Value]bool) (ps []provider, ok bool) {
	ok = true
	for _, b := range g.Blocks {
		if r, k := b.Instrs[len(b.Instrs)-1].(*ssa.Return); k && i < len(r.Results) {
			p, k := providers(r.Results[i], r, calls, seen)
			ps = append(ps, p...)
			ok = ok && k
		}
	}
	return
}

// flagName: the value read from a command line flag.
func flagName(v ssa.Value) string {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return ""
	}
	u, ok := mi.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	arg := 0
	var c *ssa.Call
	switch x := u.X.(type) {
	case *ssa.Call:
		c = x
	case *ssa.Alloc:
		// flag.IntVar(&x, name, ...)
		for _, r := range *x.Referrers() {
			if k, ok := r.(*ssa.Call); ok && strings.HasSuffix(k.Call.Value.Name(), "Var") {
				c, arg = k, 1
			}
		}
	}
	if c == nil {
		return ""
	}
	g := c.Call.StaticCallee()
	if g == nil || fnPkg(g) == nil || fnPkg(g).Pkg.Path() != "flag" || len(c.Call.Args) <= arg {
		return ""
	}
	if g.Signature.Recv() != nil {
		arg++
	}
	if arg >= len(c.Call.Args) {
		return ""
	}
	k, ok := c.Call.Args[arg].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(k.Value)
}

func callTable(p *Program) map[*ssa.Function][]ssa.CallInstruction {
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.fns {
		if strings.HasSuffix(p.fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						calls[g] = append(calls[g], ci)
					}
				}
			}
		}
	}
	return calls
}

func ruleV02(c *Ctx) {
	calls := callTable(c.p)
	readers := 0
	for _, f := range c.p.fns {
		for i, p := range f.Params {
			m, ok := p.Type().Underlying().(*types.Map)
			if !ok || !isIface(m.Elem()) || !isString(m.Key()) {
				continue
			}
			ns := needsOf(f, i, 0, calls)
			if len(ns) == 0 {
				continue
			}
			// only maps of settings: made with constant names somewhere
			var ps []provider
			all := true
			for _, ci := range calls[f] {
				if i >= len(ci.Common().Args) {
					continue
				}
				q, k := providers(ci.Common().Args[i], ci, calls, map[ssa.Value]bool{})
				ps = append(ps, q...)
				all = all && k
			}
			settings := false
			for _, q := range ps {
				settings = settings || constKeys(q.mk) > 1
			}
			if !settings {
				continue
			}
			opts := ps
			readers++
			c.analysed[f.String()] = true
			if !all {
				c.undecided("provided", f.String(), c.p.pos(f.Pos()), "where the settings of %s are made is not known for all calls", f.Name())
			}
			done := map[string]bool{}
			for _, q := range opts {
				for _, n := range ns {
					name := fmt.Sprintf("%s: %q for %s", q.mk.Parent().String(), n.key, f.Name())
					if done[name+c.p.where(q.mk)] {
						continue
					}
					done[name+c.p.where(q.mk)] = true
					c.provides(q, n, name)
				}
			}
		}
	}
	c.notes["functions that read settings"] = readers
	// names of flags
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := u.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				if n := flagName(u.Value); n != "" {
					key := constant.StringVal(k.Value)
					c.check(n == key, "flag-name", f.String()+": "+key, c.p.where(u), "the setting %q takes the value of the flag %q", key, n)
				}
			}
		}
	}
}

// filling is one way in which a setting gets into a map.
type filling struct {
	at  ssa.Instruction
	val ssa.Value
	src ssa.Value // all settings of this map
}

// aliases: the values of the same or a called function that may be the map.
func aliases(m ssa.Value) (as []ssa.Value) {
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil || len(seen) > 100 {
			return
		}
		seen[v] = true
		as = append(as, v)
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				add(r)
			case *ssa.ChangeType:
				add(r)
			case *ssa.Store:
				if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, u := range *a.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok {
							add(ld)
						}
					}
				}
			case *ssa.Call:
				if g := r.Call.StaticCallee(); g != nil && g.Blocks != nil {
					for i, x := range r.Call.Args {
						if x == v && i < len(g.Params) {
							add(g.Params[i])
						}
					}
				}
			}
		}
	}
	add(m)
	return
}

// fillings: with constant names (by name), and with other names.
func fillings(m ssa.Value) (named map[string][]filling, copies []filling, other []ssa.Instruction) {
	named = map[string][]filling{}
	as := aliases(m)
	lift := func(in ssa.Instruction) ssa.Instruction {
		if mi, ok := m.(ssa.Instruction); ok {
			return lift(in, as, mi.Parent())
		}
		return in
	}
	for _, v := range as {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				if r.Map != v {
					continue
				}
				if k, ok := r.Key.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					n := constant.StringVal(k.Value)
					named[n] = append(named[n], filling{at: lift(r), val: r.Value})
					continue
				}
				if src, rg := rangeCopy(r); src != nil {
					copies = append(copies, filling{at: lift(rg), src: src})
					continue
				}
				other = append(other, r)
			case *ssa.Call:
				if g := r.Call.StaticCallee(); g != nil {
					if o := g.Origin(); o != nil {
						g = o
					}
					if g.String() == "maps.Copy" && r.Call.Args[0] == v {
						copies = append(copies, filling{at: lift(r), src: r.Call.Args[1]})
					}
				}
			}
		}
	}
	return
}

// lift: an instruction that a called function always carries out counts
// where the function is called with the map.
func lift(in ssa.Instruction, as []ssa.Value, in0 *ssa.Function) ssa.Instruction {
	for n := 0; n < 4 && in.Parent() != in0; n++ {
		g := in.Parent()
		for _, b := range g.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != in.Block() && !in.Block().Dominates(b) {
				return in
			}
		}
		var at ssa.Instruction
		for _, v := range as {
			for _, r := range *v.Referrers() {
				if c, ok := r.(*ssa.Call); ok && c.Call.StaticCallee() == g && (at == nil || c.Parent() == in0) {
					at = c
				}
			}
		}
		if at == nil || at.Parent() == g {
			return in
		}
		in = at
	}
	return in
}

// rangeCopy: the update of a loop that copies all members of a map.
func rangeCopy(u *ssa.MapUpdate) (src ssa.Value, at ssa.Instruction) {
	k, ok := u.Key.(*ssa.Extract)
	if !ok || k.Index != 1 {
		return nil, nil
	}
	x, ok := u.Value.(*ssa.Extract)
	if !ok || x.Index != 2 || x.Tuple != k.Tuple {
		return nil, nil
	}
	n, ok := k.Tuple.(*ssa.Next)
	if !ok {
		return nil, nil
	}
	r, ok := n.Iter.(*ssa.Range)
	if !ok || len(u.Block().Preds) != 1 || u.Block().Preds[0] != n.Block() {
		return nil, nil
	}
	if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
		return nil, nil
	}
	return r.X, r
}

func constKeys(m ssa.Value) (n int) {
	named, copies, _ := fillings(m)
	n = len(named)
	for _, c := range copies {
		if _, ok := c.src.(*ssa.MakeMap); ok {
			n += constKeys(c.src)
		}
	}
	return
}

func (c *Ctx) provides(q provider, n need, name string) {
	always, sometimes, dynamic, done := c.provided(q.mk, append([]ssa.Instruction{q.at}, q.ends...), n, name, 0)
	if done {
		return
	}
	where := c.p.where(q.mk)
	switch {
	case always:
		c.ok("provided", name)
	case dynamic:
		c.undecided("provided", name, where, "whether %q is provided depends on names that are not constant", n.key)
	case sometimes:
		c.bad("provided", name, where, "the setting %q that is read at %s is provided on some paths only", n.key, c.p.where(n.at))
	default:
		c.bad("provided", name, where, "the setting %q that is read at %s is not provided", n.key, c.p.where(n.at))
	}
}

func (c *Ctx) provided(m ssa.Value, ends []ssa.Instruction, n need, name string, depth int) (always, sometimes, dynamic, done bool) {
	// before: always carried out before the map is used
	before := func(in ssa.Instruction) bool {
		for _, at := range ends {
			if at == nil || in.Parent() == at.Parent() && (in.Block() == at.Block() || in.Block().Dominates(at.Block())) {
				return true
			}
		}
		return false
	}
	elsewhere := func(in ssa.Instruction) bool {
		for _, at := range ends {
			if at != nil && in.Parent() == at.Parent() {
				return false
			}
		}
		return true
	}
	named, copies, other := fillings(m)
	dynamic = len(other) > 0
	for _, f := range named[n.key] {
		mi, ok := f.val.(*ssa.MakeInterface)
		if !ok {
			dynamic = true
			continue
		}
		if it, ok := n.typ.Underlying().(*types.Interface); ok {
			if !types.Implements(mi.X.Type(), it) {
				c.bad("provided", name, c.p.where(f.at), "the setting %q is provided as %s but read as %s at %s", n.key, mi.X.Type(), n.typ, c.p.where(n.at))
				return false, false, false, true
			}
		} else if !types.Identical(mi.X.Type(), n.typ) {
			c.bad("provided", name, c.p.where(f.at), "the setting %q is provided as %s but read as %s at %s", n.key, mi.X.Type(), n.typ, c.p.where(n.at))
			return false, false, false, true
		}
		switch {
		case before(f.at):
			always = true
		case elsewhere(f.at):
			dynamic = true // in a function that is given the map
		default:
			sometimes = true
		}
	}
	for _, f := range copies {
		src, ok := f.src.(*ssa.MakeMap)
		if !ok || depth > 2 {
			dynamic = true
			continue
		}
		a, s, d, e := c.provided(src, []ssa.Instruction{f.at}, n, name, depth+1)
		if e {
			return false, false, false, true
		}
		if a && before(f.at) {
			always = true
		}
		sometimes = sometimes || s || a
		dynamic = dynamic || d || a && elsewhere(f.at)
	}
	for _, v := range aliases(m) {
		for _, r := range *v.Referrers() {
			r, ok := r.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				if k, ok := r.Call.Args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == n.key {
					c.bad("provided", name, c.p.where(r), "the setting %q is removed but read at %s", n.key, c.p.where(n.at))
					return false, false, false, true
				}
			}
		}
	}
	return
}

// X01

func ruleX01(c *Ctx) {
	var st *types.Named
	sp := c.p.spkgs["exp"]
	if sp != nil {
		if t := sp.Type("VehicleData"); t != nil {
			st, _ = t.Type().(*types.Named)
		}
	}
	if st == nil {
		c.undecided("coverage", "VehicleData", "-", "the type of the vehicle is not found")
		return
	}
	str, ok := st.Underlying().(*types.Struct)
	if !ok {
		c.undecided("coverage", "VehicleData", "-", "the vehicle is not a struct")
		return
	}
	groups := map[int]string{}
	for i := 0; i < str.NumFields(); i++ {
		if _, ok := str.Field(i).Type().Underlying().(*types.Map); ok {
			groups[i] = str.Field(i).Name()
		}
	}
	c.notes["groups"] = sortedVals(groups)
	if len(groups) < 2 {
		c.undecided("coverage", "groups", "-", "the sensor groups are not maps of the vehicle")
		return
	}
	direct := map[*ssa.Function]map[int]bool{}
	made := map[*ssa.Function]map[int]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.p.fns {
		if fnPkg(f) != sp {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && fnPkg(g) == sp {
						callees[f] = append(callees[f], g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					callees[f] = append(callees[f], mc.Fn.(*ssa.Function))
				}
				var idx int
				var vals []ssa.Value
				switch fa := in.(type) {
				case *ssa.FieldAddr:
					p, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok || !types.Identical(p.Elem(), st) {
						continue
					}
					idx = fa.Field
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							vals = append(vals, u)
						}
						if s, ok := r.(*ssa.Store); ok && s.Addr == fa && groups[idx] != "" {
							if made[f] == nil {
								made[f] = map[int]bool{}
							}
							made[f][idx] = true
						}
					}
				case *ssa.Field:
					if !types.Identical(fa.X.Type(), st) {
						continue
					}
					idx = fa.Field
					vals = append(vals, fa)
				default:
					continue
				}
				if groups[idx] == "" {
					continue
				}
				for _, v := range vals {
					if walks(v) {
						if direct[f] == nil {
							direct[f] = map[int]bool{}
						}
						direct[f][idx] = true
					}
				}
			}
		}
	}
	total := func(f *ssa.Function) map[int]bool {
		all := map[int]bool{}
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for i := range direct[f] {
				all[i] = true
			}
			for _, g := range callees[f] {
				rec(g)
			}
		}
		rec(f)
		return all
	}
	for _, f := range c.p.fns {
		if len(made[f]) >= 2 {
			c.analysed[f.String()] = true
			c.check(len(made[f]) == len(groups), "groups-made", f.String(), c.p.pos(f.Pos()), "%s makes only some of the sensor groups: %s missing", f.Name(), missing(groups, made[f]))
		}
		if len(direct[f]) < 2 {
			continue
		}
		c.analysed[f.String()] = true
		if len(direct[f]) == len(groups) {
			c.ok("groups-covered", f.String())
			continue
		}
		// a part of the work of its callers?
		covered := len(total(f)) == len(groups)
		for g := range callees {
			if covered {
				break
			}
			t := total(g)
			if g != f && calls(callees, g, f) && len(t) == len(groups) && !fullAlone(direct, callees, g, f, len(groups)) {
				covered = true
			}
		}
		c.check(covered, "groups-covered", f.String(), c.p.pos(f.Pos()), "%s goes through several sensor groups but leaves out %s", f.Name(), missing(groups, total(f)))
	}
	c.chains(sp, st, groups)
	c.categories(sp, st, groups)
	if len(c.oks["groups-covered"]) == 0 && len(c.findings) == 0 {
		c.undecided("coverage", "groups-covered", "-", "no function goes through the sensor groups")
	}
}

// fullAlone: without f, what g reaches covers all groups already.
func fullAlone(direct map[*ssa.Function]map[int]bool, callees map[*ssa.Function][]*ssa.Function, g, f *ssa.Function, n int) bool {
	seen := map[*ssa.Function]bool{f: true}
	var rec func(h *ssa.Function) bool
	rec = func(h *ssa.Function) bool {
		if seen[h] {
			return false
		}
		seen[h] = true
		if len(direct[h]) == n {
			return true
		}
		for _, k := range callees[h] {
			if rec(k) {
				return true
			}
		}
		return false
	}
	return rec(g)
}

func calls(callees map[*ssa.Function][]*ssa.Function, g, f *ssa.Function) bool {
	for _, h := range callees[g] {
		if h == f {
			return true
		}
	}
	return false
}

func missing(groups map[int]string, have map[int]bool) string {
	var s []string
	for i, n := range groups {
		if !have[i] {
			s = append(s, n)
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func sortedVals(m map[int]string) (s []string) {
	for _, v := range m {
		s = append(s, v)
	}
	sort.Strings(s)
	return
}

// walks: the map is gone through, put into a list of groups, or looked up with
// a name that is not constant.
func walks(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Range:
			return true
		case *ssa.Store:
			if _, ok := r.Addr.(*ssa.IndexAddr); ok && r.Val == v {
				return true
			}
			if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
				for _, u := range *a.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok && walks(ld) {
						return true
					}
				}
			}
		case *ssa.Lookup:
			if _, ok := r.Index.(*ssa.Const); !ok && r.X == v {
				return true
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return true
			}
			if g := r.Call.StaticCallee(); g != nil && g.Blocks != nil {
				for i, a := range r.Call.Args {
					if a == v && i < len(g.Params) && walks(g.Params[i]) {
						return true
					}
				}
			}
		case *ssa.Phi:
			if walksPhi(r, map[*ssa.Phi]bool{}) {
				return true
			}
		}
	}
	return false
}

func walksPhi(p *ssa.Phi, seen map[*ssa.Phi]bool) bool {
	if seen[p] {
		return false
	}
	seen[p] = true
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.Range:
			return true
		case *ssa.Lookup:
			if _, ok := r.Index.(*ssa.Const); !ok {
				return true
			}
		case *ssa.Phi:
			if walksPhi(r, seen) {
				return true
			}
		}
	}
	return false
}

// categories: every category of a configured sensor leads to its own group.
func (c *Ctx) categories(sp *ssa.Package, st *types.Named, groups map[int]string) {
	used := map[string]string{} // category -> where
	for _, f := range c.p.fns {
		if fnPkg(f) != sp {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "Category" {
					continue
				}
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
					used[constant.StringVal(k.Value)] = c.p.where(s)
				}
			}
		}
	}
	if init := sp.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Category" {
						if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
							used[constant.StringVal(k.Value)] = c.p.where(s)
						}
					}
				}
			}
		}
	}
	// where sensors are put into groups: the map update is reached for which category?
	type dest struct {
		group int
		at    string
	}
	to := map[string][]dest{}
	found := false
	for _, f := range c.p.fns {
		if fnPkg(f) != sp {
			continue
		}
		cats := map[*ssa.BasicBlock][]string{}
		for _, b := range f.Blocks {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := i.Cond.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			x, k := bo.X, bo.Y
			if _, ok := x.(*ssa.Const); ok {
				x, k = k, x
			}
			kc, ok := k.(*ssa.Const)
			if !ok || kc.Value == nil || kc.Value.Kind() != constant.String || !isCategory(x) {
				continue
			}
			s := b.Succs[0]
			if bo.Op == token.NEQ {
				s = b.Succs[1]
			}
			cats[s] = append(cats[s], constant.StringVal(kc.Value))
		}
		if len(cats) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok || !filledIn(ld) {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), st) || groups[fa.Field] == "" {
					continue
				}
				u := ld
				for s, ks := range cats {
					if s == b || s.Dominates(b) && len(s.Preds) == 1 {
						for _, k := range ks {
							found = true
							to[k] = append(to[k], dest{fa.Field, c.p.where(u)})
						}
					}
				}
			}
		}
	}
	c.notes["categories"] = sortedKeys(used)
	if !found || len(used) == 0 {
		c.undecided("classified", "categories", "-", "how sensors are put into groups is not recognised")
		return
	}
	owner := map[int]string{}
	for _, k := range sortedKeys(used) {
		ds := to[k]
		if len(ds) == 0 {
			c.bad("classified", k, used[k], "sensors of the category %q are in no group", k)
			continue
		}
		g := map[int]bool{}
		for _, d := range ds {
			g[d.group] = true
		}
		if len(g) > 1 {
			c.bad("classified", k, ds[0].at, "sensors of the category %q are put into several groups", k)
			continue
		}
		if o := owner[ds[0].group]; o != "" {
			c.bad("classified", k, ds[0].at, "the categories %q and %q share the group %s", o, k, groups[ds[0].group])
			continue
		}
		owner[ds[0].group] = k
		c.ok("classified", fmt.Sprintf("%s -> %s", k, groups[ds[0].group]))
	}
	if len(c.findings) > 0 {
		return
	}
	// a particular sensor is looked for in the group of its category
	cat, whole := configured(sp)
	for _, f := range c.p.fns {
		if fnPkg(f) != sp {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				l, ok := in.(*ssa.Lookup)
				if !ok {
					continue
				}
				k, ok := l.Index.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				ld, ok := l.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), st) || groups[fa.Field] == "" {
					continue
				}
				name := constant.StringVal(k.Value)
				kc, have := cat[name]
				switch {
				case have:
					c.check(owner[fa.Field] == kc, "sensor-found", f.Name()+" "+name, c.p.where(l), "%s looks for the sensor %s in the group %s, which holds the category %q, but its category is %q", f.Name(), name, groups[fa.Field], owner[fa.Field], kc)
				case whole:
					c.bad("sensor-found", f.Name()+" "+name, c.p.where(l), "%s looks for the sensor %s, which is not configured", f.Name(), name)
				}
			}
		}
	}
}

// chains: when the groups are searched one after the other, being found in
// one of them counts like being found in the others.
func (c *Ctx) chains(sp *ssa.Package, st *types.Named, groups map[int]string) {
	for _, f := range c.p.fns {
		if fnPkg(f) != sp {
			continue
		}
		arms := map[*ssa.BasicBlock]string{}
		for _, b := range f.Blocks {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			x, ok := i.Cond.(*ssa.Extract)
			if !ok || x.Index != 1 {
				continue
			}
			l, ok := x.Tuple.(*ssa.Lookup)
			if !ok {
				continue
			}
			if _, ok := l.Index.(*ssa.Const); ok {
				continue
			}
			if ld, ok := l.X.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && len(b.Succs[0].Preds) == 1 {
					p, ok := fa.X.Type().Underlying().(*types.Pointer)
					if ok && types.Identical(p.Elem(), st) && groups[fa.Field] != "" {
						arms[b.Succs[0]] = groups[fa.Field]
					}
				}
			}
		}
		if len(arms) < 2 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok || !types.Identical(ph.Type().Underlying(), types.Typ[types.Bool]) {
					continue
				}
				val := map[bool][]string{}
				none := map[bool]bool{}
				for j, e := range ph.Edges {
					k, ok := e.(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					v := constant.BoolVal(k.Value)
					arm := ""
					for s, g := range arms {
						if s.Dominates(b.Preds[j]) {
							arm = g
						}
					}
					if arm == "" {
						none[v] = true
					} else {
						val[v] = append(val[v], arm)
					}
				}
				if len(none) != 1 || len(val[true])+len(val[false]) < 2 {
					continue
				}
				miss := none[true]
				if len(val[!miss]) == 0 {
					continue
				}
				sort.Strings(val[miss])
				c.check(len(val[miss]) == 0, "found-counts", f.String(), c.p.pos(f.Pos()), "%s: being found in %v counts as not being found", f.Name(), val[miss])
			}
		}
	}
}

// configured: the category of each sensor of the configuration, and whether
// every sensor of it is known.
func configured(sp *ssa.Package) (cat map[string]string, whole bool) {
	cat = map[string]string{}
	whole = true
	init := sp.Func("init")
	if init == nil {
		return cat, false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			a, ok := u.Value.(*ssa.Alloc)
			if !ok {
				continue
			}
			isSensor := false
			if st, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					isSensor = isSensor || st.Field(i).Name() == "Category"
				}
			}
			if !isSensor {
				continue
			}
			k, ok := u.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				whole = false
				continue
			}
			for _, r := range *a.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "Category" {
					continue
				}
				for _, r := range *fa.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
						if v, ok := s.Val.(*ssa.Const); ok && v.Value != nil {
							cat[constant.StringVal(k.Value)] = constant.StringVal(v.Value)
						}
					}
				}
			}
			if _, ok := cat[constant.StringVal(k.Value)]; !ok {
				whole = false
			}
		}
	}
	return cat, whole && len(cat) > 0
}

// filledIn: the loaded map is written, or handed on as the group to write.
func filledIn(ld *ssa.UnOp) bool {
	for _, r := range *ld.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == ld {
				return true
			}
		case *ssa.Return, *ssa.Phi:
			return true
		}
	}
	return false
}

func fieldName(fa *ssa.FieldAddr) string {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return s.Field(fa.Field).Name()
}

func isCategory(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa) == "Category"
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return strings.Contains(strings.ToLower(p.Name()), "categ")
	}
	return false
}
