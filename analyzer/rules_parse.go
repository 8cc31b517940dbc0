package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "T07", run: ruleT07,
		explanation: "The parser is explored over all inputs as a machine over sets of bytes and finite abstract states, in product with an automaton of the document syntax; every return without error must be accepted by the automaton. Nested values are cut at the value parser and decided by induction.",
		assumptions: []string{"number forms and escapes are judged liberally (what is left to strconv is not decided again)", "repeated leading timestamps are not counted as malformed"}})
}

// grammar is the parser of documents as it is found in the source.
type grammar struct {
	c      *Ctx
	entry  *ssa.Function // reads a whole text
	head   *ssa.Function // reads one value
	parser *types.Struct
	typ    types.Type
	fInput int
	fPos   int
	fields []*pv // what the state holds when a value is read
}

// findGrammar finds the parser: a struct with the text and a position in it,
// and the first function that is part of a recursion.
func findGrammar(c *Ctx) *grammar {
	g := &grammar{c: c, entry: c.p.fn("internal/tson", "Unmarshal")}
	if g.entry == nil || len(g.entry.Params) != 2 {
		c.undecided("anchor", "Unmarshal", "-", "the function is not found")
		return nil
	}
	callees := func(f *ssa.Function) (out []*ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if h := in.Common().StaticCallee(); h != nil && c.p.inRepo(h) {
						out = append(out, h)
					}
				case *ssa.MakeClosure:
					out = append(out, in.Fn.(*ssa.Function))
				}
			}
		}
		return
	}
	reach := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		order = append(order, f)
		for _, h := range callees(f) {
			visit(h)
		}
	}
	visit(g.entry)
	recursive := func(f *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var rec func(h *ssa.Function) bool
		rec = func(h *ssa.Function) bool {
			for _, k := range callees(h) {
				if k == f {
					return true
				}
				if !seen[k] {
					seen[k] = true
					if rec(k) {
						return true
					}
				}
			}
			return false
		}
		return rec(f)
	}
	for _, f := range order {
		if recursive(f) {
			g.head = f
			break
		}
	}
	// the state: a field that indexes another one
	field := func(v ssa.Value) (types.Type, int, bool) {
		if u, ok := v.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.FieldAddr); ok {
				return a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field, true
			}
		}
		return nil, 0, false
	}
	for _, f := range order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var x, i ssa.Value
				switch in := in.(type) {
				case *ssa.IndexAddr:
					x, i = in.X, in.Index
				case *ssa.Index:
					x, i = in.X, in.Index
				case *ssa.Lookup:
					x, i = in.X, in.Index
				default:
					continue
				}
				t, a, ok := field(x)
				u, p, ok2 := field(i)
				if ok && ok2 && types.Identical(t, u) {
					if st, is := under(t).(*types.Struct); is && g.parser == nil {
						g.parser, g.typ, g.fInput, g.fPos = st, t, a, p
					}
				}
			}
		}
	}
	if g.head == nil || g.parser == nil {
		c.undecided("anchor", "Unmarshal", "-", "the parser is not recognised")
		return nil
	}
	return g
}

func (g *grammar) machine(src *source, spec *re) *machine {
	m := &machine{p: g.c.p, src: src, rec: newRecogniser(), problems: map[string]bool{}, unproven: map[string]string{},
		fns: map[*ssa.Function]bool{}, called: map[string]bool{}, maxNodes: 60000,
		parser: g.parser, fInput: g.fInput, fPos: g.fPos, cutName: "value"}
	if spec != nil {
		m.spec = newDFA(spec)
	}
	m.cut = func(st *pstate, fn *ssa.Function) bool { return fn == g.head }
	m.onCut = g.observe(m)
	return m
}

// observe notes the fields of the state that are the same whenever a value is
// read, and makes sure that they stay the same.
func (g *grammar) observe(m *machine) func(st *pstate, in ssa.Instruction, args []*pv) {
	return func(st *pstate, in ssa.Instruction, args []*pv) {
		for _, a := range args {
			if a.k != kPtr || a.fld >= 0 || a.obj <= 0 || !m.isParser(st.heap[a.obj].t) {
				continue
			}
			fs := st.heap[a.obj].fs
			if g.fields == nil {
				g.fields = append([]*pv(nil), fs...)
			}
			for i, f := range fs {
				o := g.fields[i]
				if (o.k == kEnd || o.k == kStr) && (f.k != o.k || f.n != o.n || f.s != o.s) {
					m.problems[fmt.Sprintf("the field %s of the parser state changes", g.parser.Field(i).Name())] = true
				}
			}
		}
	}
}

func (m *machine) newState() *pstate {
	s := &pstate{heap: map[int]pobj{}, syms: map[int]byteSet{}, end: noEnd, marks: map[string]int{}, src: m.src.start()}
	if m.spec != nil {
		s.spec = m.spec.start
	}
	return s
}

// runHead follows the function that reads a value, from anywhere in a text.
func (g *grammar) runHead(m *machine) {
	s := m.newState()
	p := m.alloc(s, g.typ)
	s.mid = true
	o := s.heap[p.obj]
	for i := range o.fs {
		switch {
		case i == g.fInput:
			o.fs[i] = wholeText
		case i == g.fPos:
			o.fs[i] = pPos(0)
		case g.fields != nil && (g.fields[i].k == kEnd || g.fields[i].k == kStr):
			o.fs[i] = g.fields[i]
		case isIntType(g.parser.Field(i).Type()):
			o.fs[i] = &pv{k: kLin}
			if m.zero {
				o.fs[i] = pInt(0)
			}
		default:
			o.fs[i] = pTop
		}
	}
	var args []*pv
	for _, x := range g.head.Params {
		t := x.Type()
		switch {
		case isPointerTo(t, g.typ):
			args = append(args, p)
		case isIntType(t):
			args = append(args, &pv{k: kLin})
		default:
			args = append(args, pTop)
		}
	}
	m.push(s, g.head, nil, args)
	s.top().hold = p
	m.run(s)
}

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isPointerTo(t, u types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && types.Identical(p.Elem(), u)
}

// runEntry follows the function that reads a whole text.
func (g *grammar) runEntry(m *machine) (doc int) {
	s := m.newState()
	p := m.alloc(s, g.entry.Params[1].Type().Underlying().(*types.Pointer).Elem())
	s.heap[p.obj].fs[0] = &pv{k: kTop, s: "old"}
	m.push(s, g.entry, nil, []*pv{wholeText, p})
	s.top().hold = p
	m.run(s)
	return p.obj
}

// report records what the machine could not follow.
func (g *grammar) report(m *machine, rule, name string) (clean bool) {
	for f := range m.fns {
		g.c.analysed[f.String()] = true
	}
	clean = true
	for _, k := range sortedKeys(m.problems) {
		g.c.undecided(rule, name, "-", "%s", k)
		clean = false
	}
	return
}

func printable(w string) string { return fmt.Sprintf("%q", w) }

// the syntax of documents.
func docSyntax() (value, text *re) {
	ws := rStar(rChars(" \t\n\r"))
	v := rName("value")
	ts := rSeq(rText("<"), ws, rStar(rSet(byteRange('0', '9'))), ws, rText(">"))
	plain := rSet(bytesIn("\"\\").not())
	str := rSeq(rText(`"`), rStar(rAlt(plain, rSeq(rText(`\`), rSet(anyByte)))), rText(`"`))
	num := rPlus(rChars("0123456789+-.eE"))
	prim := rAlt(str, num, rText("true"), rText("false"), rText("null"))
	item := rSeq(ws, rStar(rSeq(ts, ws)), v, ws)
	member := rSeq(ws, str, ws, rOpt(rSeq(ts, ws)), rText(":"), item)
	list := func(open string, x *re, end string) *re {
		return rSeq(rText(open), rAlt(ws, rSeq(x, rStar(rSeq(rText(","), x)))), rText(end))
	}
	value = rSeq(ws, rStar(rSeq(ts, ws)), rAlt(prim, list("{", member, "}"), list("[", item, "]")), ws, rOpt(ts), ws)
	return value, rSeq(ws, v, ws)
}

type parseFault struct {
	where, name, text string
	guess             bool
}

// faults are reported once for every place, the certain and shortest first.
func (g *grammar) faults(rule string, fs []parseFault) {
	sort.SliceStable(fs, func(i, j int) bool {
		if fs[i].guess != fs[j].guess {
			return !fs[i].guess
		}
		return len(fs[i].text) < len(fs[j].text)
	})
	seen := map[string]bool{}
	for _, f := range fs {
		k := f.where + f.name
		if seen[k] {
			continue
		}
		seen[k] = true
		if f.guess {
			g.c.undecided(rule, f.name, f.where, "%s", f.text)
		} else {
			g.c.bad(rule, f.name, f.where, "%s", f.text)
		}
	}
}

func errOf(res []*pv, fn *ssa.Function) *pv {
	rs := fn.Signature.Results()
	for i := range rs.Len() {
		if isErrorType(rs.At(i).Type()) && i < len(res) {
			return res[i]
		}
	}
	return nil
}

func ruleT07(c *Ctx) {
	g := findGrammar(c)
	if g == nil {
		return
	}
	value, text := docSyntax()
	for _, part := range []string{"text", "value"} {
		fn, spec := g.head, value
		if part == "text" {
			fn, spec = g.entry, text
		}
		m := g.machine(newSource(nil), spec)
		var fs []parseFault
		accepted := map[string]int{}
		rejected := 0
		m.onReturn = func(st *pstate, res []*pv) {
			where := c.p.where(st.last)
			e := errOf(res, fn)
			if e == nil {
				m.problems["the function returns no error"] = true
				return
			}
			fault := func(st *pstate, f string, a ...any) {
				fs = append(fs, parseFault{where, fn.Name(), fmt.Sprintf(f, a...), st.guess})
			}
			switch e.k {
			case kErr, kIface, kRef, kPtr:
				rejected++
				if part == "text" {
					if st.hold == nil || st.hold.k != kTop || st.hold.s != "old" {
						fault(st, "the document is written although an error is returned for %s", printable(st.word()))
					}
				}
			case kNil:
				if part == "text" {
					for _, t := range m.look(st, 0) {
						if t.end == noEnd || len(t.buf) > 0 {
							fault(t, "%s is accepted: the text goes on behind the document", printable(t.word()))
						} else if !m.spec.accepts(t.spec) {
							fault(t, "%s is accepted", printable(t.word()))
						} else {
							accepted[where]++
						}
					}
					return
				}
				if !m.spec.accepts(st.spec) {
					fault(st, "%s is accepted as a value", printable(st.word()))
				} else {
					accepted[where]++
				}
			default:
				m.problems[where+": whether an error is returned is not known"] = true
			}
		}
		if part == "value" {
			g.runHead(m)
		} else {
			g.runEntry(m)
		}
		if len(fs) > 0 {
			g.faults(part, fs)
		}
		if g.report(m, part, fn.Name()) && len(fs) == 0 {
			if len(accepted) == 0 || rejected == 0 {
				c.undecided(part, fn.Name(), "-", "%d accepting and %d rejecting ends are found", len(accepted), rejected)
				continue
			}
			for _, w := range sortedKeys(accepted) {
				c.ok(part, fmt.Sprintf("%s %s: %d accepting ends", fn.Name(), w, accepted[w]))
			}
			c.notes[part+"_states"] = len(m.nodes)
			c.notes[part+"_rejecting_ends"] = rejected
		}
	}
}

func init() {
	register(&Rule{id: "T01", run: ruleT01,
		explanation: "The parser is explored over all inputs as a machine over sets of bytes and finite abstract states: every read must be within the input, every cycle of states must consume a byte, every recursion must be counted against a checked depth limit. The readers of the JSON-compatible form are explored for every kind of decoded value with panic obligations.",
		assumptions: []string{"encoding/json and strconv neither panic nor hang"}})
}

func ruleT01(c *Ctx) {
	if x := c.explore("internal/tson", "FromCompatibleTsonBytes", "FromJsonBytes"); x != nil {
		x.run()
	}
	g := findGrammar(c)
	if g == nil {
		return
	}
	for _, part := range []string{"text", "value"} {
		g.totality(part)
	}
}

// totality: the parser ends without a panic.
func (g *grammar) totality(part string) {
	c := g.c
	fn := g.head
	if part == "text" {
		fn = g.entry
	}
	m := g.machine(newSource(nil), nil)
	m.reads = map[string]int{}
	var panics, depth, empty []parseFault
	ends, calls := 0, map[string]bool{}
	m.onPanic = func(st *pstate, in ssa.Instruction, why string) {
		panics = append(panics, parseFault{c.p.where(in), in.Parent().Name(), fmt.Sprintf("%s for %s", why, printable(st.word())), st.guess})
	}
	counter := func(st *pstate, args []*pv) (n int64, bound, ok bool) {
		n = -1 << 30
		for _, a := range args {
			if a.k == kLin && a.n > n {
				n, ok = a.n, true
			}
			if a.k == kPtr && a.fld < 0 && a.obj > 0 && m.isParser(st.heap[a.obj].t) {
				for _, f := range st.heap[a.obj].fs {
					if f.k == kLin && f.n > n {
						n, ok = f.n, true
					}
				}
			}
		}
		return n, st.bound, ok
	}
	observe := m.onCut
	m.onCut = func(st *pstate, in ssa.Instruction, args []*pv) {
		observe(st, in, args)
		if part == "text" {
			return
		}
		where := c.p.where(in)
		n, bound, ok := counter(st, args)
		name := in.Parent().Name()
		word := printable(st.word())
		switch {
		case ok && n >= 1 && bound:
			calls[where] = true
		case !ok || st.guess:
			depth = append(depth, parseFault{where, name, fmt.Sprintf("how deep the recursion gets behind %s is not known to be limited", word), true})
		case n < 1:
			depth = append(depth, parseFault{where, name, fmt.Sprintf("a value inside of another one is read behind %s without counting the depth: the recursion is not limited", word), false})
		default:
			depth = append(depth, parseFault{where, name, fmt.Sprintf("a value inside of another one is read behind %s without checking the depth: the recursion is not limited", word), false})
		}
	}
	m.onReturn = func(st *pstate, res []*pv) {
		where := c.p.where(st.last)
		e := errOf(res, fn)
		if e == nil {
			m.problems["the function returns no error"] = true
			return
		}
		ends++
		if e.k != kNil {
			return
		}
		if part == "value" && !st.any {
			empty = append(empty, parseFault{where, fn.Name(), "a value is read without reading anything", st.guess})
		}
		if part == "value" && st.hold != nil && st.hold.k == kStruct {
			for i, f := range st.hold.xs {
				if f.k == kLin && f.n < 0 {
					depth = append(depth, parseFault{where, fn.Name(), fmt.Sprintf("the depth %s is lower behind the value %s than before it: the recursion is not limited", g.parser.Field(i).Name(), printable(st.word())), st.guess})
				}
				if f.k == kTop && isIntType(g.parser.Field(i).Type()) {
					m.problems[where+": the depth is not followed"] = true
				}
			}
		}
	}
	if part == "value" {
		g.runHead(m)
	} else {
		g.runEntry(m)
	}
	hangs := m.hangs()
	g.faults("panic", panics)
	g.faults("recursion", depth)
	g.faults("progress", empty)
	g.faults("progress", hangs)
	for _, w := range sortedKeys(m.unproven) {
		c.undecided("panic", fn.Name(), w, "%s", m.unproven[w])
	}
	if !g.report(m, "parser", fn.Name()) {
		return
	}
	if ends == 0 {
		c.undecided("parser", fn.Name(), "-", "no end is found")
		return
	}
	c.ok("parser", fmt.Sprintf("%s: %d states, %d ends", fn.Name(), len(m.nodes), ends))
	if len(panics) == 0 {
		for _, w := range sortedKeys(m.reads) {
			c.ok("panic", w)
		}
	}
	if len(hangs) == 0 && len(empty) == 0 {
		c.ok("progress", fn.Name())
	}
	if len(depth) == 0 {
		for _, w := range sortedKeys(calls) {
			c.ok("recursion", w)
		}
	}
	if part == "value" {
		c.atLeast("recursion", 2)
		c.atLeast("panic", 5)
	}
}

// hangs finds the cycles of states in which nothing is read.
func (m *machine) hangs() (fs []parseFault) {
	for _, certain := range []bool{true, false} {
		state := make([]byte, len(m.nodes))
		for root := range m.nodes {
			if state[root] != 0 {
				continue
			}
			type at struct{ n, i int }
			work := []at{{root, 0}}
			state[root] = 1
			for len(work) > 0 {
				w := &work[len(work)-1]
				ss := m.nodes[w.n].succs
				if w.i >= len(ss) {
					state[w.n] = 2
					work = work[:len(work)-1]
					continue
				}
				e := ss[w.i]
				w.i++
				if e.moved || certain && e.guess {
					continue
				}
				switch state[e.to] {
				case 0:
					state[e.to] = 1
					work = append(work, at{e.to, 0})
				case 1:
					n := m.nodes[e.to]
					fr := n.st.frames[len(n.st.frames)-1]
					in := fr.block.Instrs[min(fr.idx, len(fr.block.Instrs)-1)]
					fs = append(fs, parseFault{m.p.where(in), fr.fn.Name(), fmt.Sprintf("loops without reading anything behind %s", printable(n.st.word())), !certain || n.guess})
				}
			}
		}
		if len(fs) > 0 {
			return
		}
	}
	return
}
