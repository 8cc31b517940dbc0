package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (e *Eval) paramSyms(fn *ssa.Function) []*Term {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, e.in.mk(OSym, p.Type(), p.Name(), nil, nil))
	}
	return args
}

func (e *Eval) root(fn *ssa.Function, args []*Term) []Outcome {
	st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, pc: DNF{e.in.newConj(nil)}}
	return e.callFn(nil, st, fn, nil, args, nil)
}

func dumpFn(p *Program, pkg, name string) {
	fn := p.fn(pkg, name)
	e := newEval(p)
	outs := e.root(fn, e.paramSyms(fn))
	fmt.Println("steps", e.steps, "approx", e.approx, "loops", len(e.loopsByKey))
	for _, o := range outs {
		fmt.Println("== outcome:", o.st.pc)
		for _, r := range o.results {
			fmt.Println("   ret", r)
		}
		for k, v := range o.st.heap {
			fmt.Println("   heap", k, "=", v)
		}
	}
	var ls []*Loop
	for _, l := range e.loopsByKey {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].n < ls[j].n })
	for _, l := range ls {
		fmt.Println("LOOP", l.name(), l.pos(p), "range", l.rangeMap)
		for ph, t := range l.init {
			fmt.Println("   phi", l.gen[ph], "init", t)
		}
		for loc, t := range l.initHeap {
			fmt.Println("   mem", loc, l.genHeap[loc], "init", t)
		}
		for _, i := range l.invs {
			fmt.Println("   inv", i)
		}
		for _, c := range l.conts {
			fmt.Println("   cont", c.pc)
			for ph, t := range c.phis {
				fmt.Println("       ", l.gen[ph], ":=", t)
			}
			for loc := range l.genHeap {
				fmt.Println("       mem", loc, ":=", c.heap[loc])
			}
		}
		for _, c := range l.exits {
			fmt.Println("   exit", c.pc, "to", c.to)
		}
		for _, c := range l.returns {
			fmt.Println("   return", c.pc, c.rets)
		}
	}
	for k := range e.problems {
		fmt.Println("PROBLEM", k)
	}
	for _, x := range e.panics {
		fmt.Println("PANIC", p.where(x.instr), x.pc)
	}
}
