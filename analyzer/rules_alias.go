package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgLog  = "internal/logument"
	pkgTson = "internal/tson"
	pkgPat  = "internal/tsonpatch"
	pkgVss  = "internal/vssgen"
	pkgExp  = "exp"
)

func init() {
	register(&Rule{id: "L01",
		explanation: "Inclusion-based points-to and effect analysis (field-sensitive, cloned per call string, recursion merged, sort/slices/maps/json modelled) from every query method of the log. Every write that can reach memory owned by the log (stores, map inserts and deletes, in-place sorts, appends and copies into shared backing arrays) is enumerated and must be one of the allowed ones.",
		assumptions: []string{"no unsafe or reflection writes", "standard library functions outside the modelled ones do not write through arguments (listed packages)", "map iteration callbacks are those found in the source"},
		run:         ruleL01})
	register(&Rule{id: "P01",
		explanation: "Points-to and effect analysis from the patch API: no write reaches the given document, patch or operation, and no map or slice reachable from the returned document belongs to the given one.",
		assumptions: []string{"no unsafe or reflection writes", "standard library functions outside the modelled ones do not write through arguments"},
		run:         ruleP01})
	register(&Rule{id: "T05",
		explanation: "Points-to and effect analysis from every exported function of the document package: no write reaches memory of an input that is not the function's own output pointer; cloned documents and documents made from JSON share no map or slice with their source.",
		assumptions: []string{"no unsafe or reflection writes", "encoding/json does not modify the values it encodes"},
		run:         ruleT05})
	register(&Rule{id: "L10",
		explanation: "Points-to analysis of storing: the list the log keeps must not be memory reachable from the argument, and nothing reachable from the argument is written. Abstract interpretation of every accepted form: the new pool is the old pool followed by all given operations in order.",
		assumptions: []string{"operation values (strings, numbers, booleans) are immutable; a container given as a value stays shared"},
		run:         ruleL10})
}

func (c *Ctx) root(pkg, name string) *ssa.Function {
	fn := c.p.fn(pkg, name)
	if fn == nil {
		c.bad("anchor", pkg+"."+name, "-", "the API function is not found")
		return nil
	}
	c.analysed[fn.String()] = true
	return fn
}

func (c *Ctx) pta(fn *ssa.Function) *PTA {
	a := newPTA(c.p, fn)
	for _, cx := range a.list {
		c.analysed[cx.fn.String()] = true
	}
	for n := range a.notes {
		if !strings.HasPrefix(n, "unmodelled") {
			c.bad("points-to", fn.Name(), n, "instruction is not modelled")
		}
	}
	return a
}

// exported lists the exported functions and methods of a package that have a body.
func (c *Ctx) exported(pkg string) (fs []*ssa.Function) {
	for _, f := range c.p.fns {
		if f.Parent() != nil || f.Synthetic != "" || f.Pkg == nil || strings.TrimPrefix(f.Pkg.Pkg.Path(), c.p.mod+"/") != pkg {
			continue
		}
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() || f.TypeParams() != nil {
			continue
		}
		if r := o.Type().(*types.Signature).Recv(); r != nil {
			n := namedOf(r.Type())
			if n == nil || !n.Obj().Exported() {
				continue
			}
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// effects checks all effects of fn on caller-owned memory; allowed tells which are fine.
func (c *Ctx) effectsOf(rule string, fn *ssa.Function, a *PTA, allowed func(e *Effect) bool) {
	n := 0
	for _, e := range a.sortedEffects() {
		if !allowed(e) {
			n++
			c.bad(rule, fn.Name()+" writes "+e.loc.String()+" ("+e.kind+")", c.p.where(e.instr),
				"%s: %s can change %s, which belongs to the caller; path: %s", rule, fn.Name(), e.loc, e.ctx.stack(c.p))
		}
	}
	if n == 0 {
		c.ok(rule, fn.Name())
	}
}

var logQueries = []string{"Snapshot", "TemporalSnapshot", "Slice", "TemporalSlice", "Track", "TemporalTrack", "History", "Print"}

func ruleL01(c *Ctx) {
	app := c.root(pkgLog, "Logument.Append")
	if app == nil {
		return
	}
	recv := app.Params[0].Name()
	commit := map[string]bool{}
	aa := c.pta(app)
	for _, e := range aa.sortedEffects() {
		commit[e.kind+" "+strings.TrimPrefix(e.loc.String(), recv)] = true
	}
	// the effect analysis must see the writes of committing
	c.check(commit["store *.Version"] && commit["store *.PatchPool"] && commit["insert *.Patches"], "self-check", "committing writes versions, patches and pool", c.p.pos(app.Pos()), "the effect analysis does not see the writes of Append: %v", sortedKeys(commit))
	for _, q := range logQueries {
		fn := c.root(pkgLog, "Logument."+q)
		if fn == nil {
			continue
		}
		rv := fn.Params[0].Name()
		a := c.pta(fn)
		c.effectsOf("no-write-to-history", fn, a, func(e *Effect) bool {
			l := strings.TrimPrefix(e.loc.String(), rv)
			switch {
			case l == "*.Version[*]" && (e.kind == "sort" || e.kind == "append"):
				// appending writes only behind the end of the version list
				return e.kind == "sort" || q == "TemporalSnapshot"
			case l == "*.Snapshots" && e.kind == "insert":
				return true // own version only: decided with the snapshot rule below
			case q == "TemporalSnapshot" && commit[e.kind+" "+l]:
				return e.kind != "sort"
			}
			return false
		})
	}
	cacheKeys(c)
	c.atLeast("no-write-to-history", len(logQueries))
}

func ruleP01(c *Ctx) {
	set := c.root(pkgLog, "Logument.Set")
	if set != nil {
		seen := false
		for _, e := range c.pta(set).sortedEffects() {
			if e.kind == "store" && strings.HasSuffix(e.loc.String(), ".CurrentState") {
				seen = true
			}
		}
		c.check(seen, "self-check", "setting writes the current state", c.p.pos(set.Pos()), "the effect analysis does not see the write of Set")
	}
	for _, fn := range c.exported(pkgPat) {
		a := c.pta(fn)
		c.effectsOf("no-write-to-input", fn, a, func(e *Effect) bool { return globalReadOnly(e) })
	}
	for _, n := range []string{"ApplyPatch", "ApplyOperation"} {
		fn := c.root(pkgPat, n)
		if fn == nil {
			continue
		}
		c.noSharing("result-independent", fn, 0)
	}
	c.atLeast("no-write-to-input", 6)
	c.atLeast("result-independent", 2)
}

func globalReadOnly(e *Effect) bool { return false }

// noSharing: no container reachable from result i belongs to the caller.
func (c *Ctx) noSharing(rule string, fn *ssa.Function, i int) {
	a := c.pta(fn)
	rs := a.results(i)
	good := true
	if len(rs) == 0 {
		c.bad(rule, fn.Name(), c.p.pos(fn.Pos()), "the result of %s is not tracked", fn.Name())
		return
	}
	var names []string
	for o := range a.reach(rs) {
		if o.ext && isContainer(o) {
			names = append(names, o.label+" ("+types.TypeString(o.typ, func(p *types.Package) string { return p.Name() })+")")
		}
	}
	sort.Strings(names)
	for _, n := range names {
		good = false
		c.bad(rule, fn.Name()+" result shares "+n, c.p.pos(fn.Pos()), "the result of %s can contain the container %s of its argument", fn.Name(), n)
	}
	if good {
		c.ok(rule, fn.Name())
	}
}

func ruleT05(c *Ctx) {
	out := 0
	for _, fn := range c.exported(pkgTson) {
		a := c.pta(fn)
		ptr := map[string]bool{}
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				ptr[p.Name()+"*"] = true
			}
		}
		c.effectsOf("no-write-to-input", fn, a, func(e *Effect) bool {
			l := e.loc.String()
			for p := range ptr {
				if strings.HasPrefix(l, p) {
					out++
					return true
				}
			}
			return false
		})
	}
	c.check(out > 0, "self-check", "output pointers are written", "-", "the effect analysis does not see any write to an output pointer")
	if fn := c.root(pkgTson, "Clone"); fn != nil {
		c.noSharing("result-independent", fn, 0)
	}
	for _, n := range []string{"FromJson"} {
		fn := c.root(pkgTson, n)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		a := c.pta(fn)
		// what the output pointer refers to afterwards, minus what it referred to before
		src := fn.Params[0].Name()
		good := true
		for l := range a.slots[pslot{a.reg(a.root, fn.Params[1]), ""}] {
			for x := range a.slots[pslot{l.o, l.path}] {
				for o := range a.reach(pset{x: true}) {
					if o.ext && !o.box && (o.label == src || strings.HasPrefix(o.label, src+"[") || strings.HasPrefix(o.label, src+"*")) {
						if o.wild {
							continue
						}
						good = false
						c.bad("result-independent", n+" output shares "+o.label, c.p.pos(fn.Pos()), "the document that %s builds can contain the container %s of the JSON value", n, o.label)
					}
				}
			}
		}
		if good {
			c.ok("result-independent", n)
		}
	}
	c.atLeast("no-write-to-input", 15)
	c.atLeast("result-independent", 2)
}

func ruleL10(c *Ctx) {
	fn := c.root(pkgLog, "Logument.Store")
	if fn == nil {
		return
	}
	a := c.pta(fn)
	recv, in := fn.Params[0].Name(), fn.Params[1].Name()
	c.effectsOf("no-write-to-argument", fn, a, func(e *Effect) bool {
		l := e.loc.String()
		return strings.HasPrefix(l, recv+"*.PatchPool")
	})
	// the pool's memory afterwards
	n := 0
	good := true
	for l := range a.slots[pslot{a.reg(a.root, fn.Params[0]), ""}] {
		for x := range a.slots[pslot{l.o, l.path + ".PatchPool"}] {
			n++
			if x.o.ext && (strings.HasPrefix(x.o.label, in)) {
				good = false
				c.bad("own-list", "pool can be "+x.o.label, c.p.pos(fn.Pos()), "after Store the pool can be the caller's own list %s", x)
			}
		}
	}
	c.check(n >= 2, "self-check", "pool is tracked", c.p.pos(fn.Pos()), "the pool's memory after Store is not tracked")
	if good {
		c.ok("own-list", "Store")
	}
	storeOrder(c, fn)
}
