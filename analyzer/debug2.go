package main

import (
	"fmt"
	"strings"
)

func debugDump(p *Program, spec string, args []string) {
	i := strings.Index(spec, ":")
	pkg, name := spec[:i], spec[i+1:]
	if len(args) > 0 && args[0] == "pta" {
		fn := p.fn(pkg, name)
		a := newPTA(p, fn)
		fmt.Println("contexts", len(a.list), "rounds", a.rounds, "objs", len(a.objs))
		for _, e := range a.sortedEffects() {
			fmt.Println(e.kind, e.loc, p.where(e.instr), e.ctx.stack(p))
		}
		for n := range a.notes {
			fmt.Println("NOTE", n)
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			for o := range a.reach(a.results(i)) {
				fmt.Println("result", i, "reaches", o.label, o.typ, "ext", o.ext, "container", isContainer(o))
			}
		}
		return
	}
	if len(args) > 0 && args[0] == "comp" {
		debugComp(p, pkg, name, args[1:]...)
		return
	}
	dumpFn(p, pkg, name)
}
