package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// push enters a function.
func (m *machine) push(s *pstate, fn *ssa.Function, free, args []*pv) {
	f := &pframe{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*pv{}, free: free}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	m.fns[fn] = true
	s.frames = append(s.frames, f)
}

// run explores all states that are reached from s.
func (m *machine) run(s *pstate) {
	m.ids = map[string]int{}
	m.live = map[ssa.Instruction]map[ssa.Value]bool{}
	m.node(s)
	for i := 0; i < len(m.nodes); i++ {
		if len(m.nodes) > m.maxNodes {
			m.problems["too many states"] = true
			return
		}
		for _, t := range m.step(m.nodes[i].st.clone()) {
			mv, g := t.moved, t.stepGuess
			t.moved, t.stepGuess = false, false
			m.nodes[i].succs = append(m.nodes[i].succs, psucc{m.node(t), mv, g})
		}
		m.nodes[i].guess = m.nodes[i].st.guess
		m.nodes[i].st = &pstate{hist: m.nodes[i].st.hist, frames: m.nodes[i].st.frames[len(m.nodes[i].st.frames)-1:]}
	}
}

func (m *machine) node(s *pstate) int {
	m.prune(s)
	k := m.key(s)
	if i, ok := m.ids[k]; ok {
		return i
	}
	m.ids[k] = len(m.nodes)
	m.nodes = append(m.nodes, &pnode{st: s})
	return len(m.nodes) - 1
}

// step runs s to the next block.
func (m *machine) step(s *pstate) (out []*pstate) {
	work := []*pstate{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if m.steps++; m.steps > 20_000_000*m.p.effort {
				m.problems["too many steps"] = true
				return
			}
			f := s.top()
			in := f.block.Instrs[f.idx]
			nexts, jumped := m.exec(s, in)
			if jumped {
				out = append(out, nexts...)
				break
			}
			if len(nexts) == 0 {
				break
			}
			s = nexts[0]
			work = append(work, nexts[1:]...)
			if len(s.frames) == 0 {
				break
			}
		}
	}
	return
}

// jump enters a block of the current function.
func (m *machine) jump(s *pstate, to *ssa.BasicBlock) *pstate {
	f := s.top()
	from := f.block
	vals := map[*ssa.Phi]*pv{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == from {
				vals[ph] = m.val(s, ph.Edges[i])
			}
		}
	}
	n := 0
	for ph, v := range vals {
		f.env[ph] = v
		n++
	}
	f.block, f.idx = to, n
	// only what is used in the block or behind it
	if len(to.Instrs) > 0 {
		l := map[ssa.Value]bool{}
		first := to.Instrs[min(n, len(to.Instrs)-1)]
		for v := range m.liveAfter(first) {
			l[v] = true
		}
		for _, o := range first.Operands(nil) {
			l[*o] = true
		}
		for v := range f.env {
			if !l[v] {
				delete(f.env, v)
			}
		}
	}
	return s
}

func set(s *pstate, in ssa.Instruction, v *pv) []*pstate {
	f := s.top()
	if x, ok := in.(ssa.Value); ok {
		f.env[x] = v
	}
	f.idx++
	return []*pstate{s}
}

// fork continues with both outcomes.
func (m *machine) truth(s *pstate, c *pv) (yes, no []*pstate) {
	switch c.k {
	case kInt:
		if c.n != 0 {
			return []*pstate{s}, nil
		}
		return nil, []*pstate{s}
	case kByte:
		var a, b byteSet
		cur := s.syms[c.sym]
		for i := range 256 {
			if cur.has(byte(i)) {
				if c.tab[i] != 0 {
					a.add(byte(i))
				} else {
					b.add(byte(i))
				}
			}
		}
		switch {
		case b.empty():
			return []*pstate{s}, nil
		case a.empty():
			return nil, []*pstate{s}
		}
		t := s.clone()
		s.refine(c.sym, a)
		t.refine(c.sym, b)
		return []*pstate{s}, []*pstate{t}
	case kLin: // a comparison of the counter
		t := s.clone()
		switch c.s {
		case "<":
			s.bound = true
		case ">":
			t.bound = true
		}
		return []*pstate{s}, []*pstate{t}
	}
	t := s.clone()
	for _, x := range []*pstate{s, t} {
		x.stepGuess = true
		x.guess = x.guess || c.s != "any"
	}
	return []*pstate{s}, []*pstate{t}
}

var pAny = &pv{k: kTop, s: "any"} // every value is possible

func (m *machine) panics(s *pstate, in ssa.Instruction, f string, a ...any) {
	if m.onPanic != nil {
		m.onPanic(s, in, fmt.Sprintf(f, a...))
	}
}

func (m *machine) exec(s *pstate, in ssa.Instruction) (next []*pstate, jumped bool) {
	f := s.top()
	v := func(x ssa.Value) *pv { return m.val(s, x) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.idx++
		return []*pstate{s}, false
	case *ssa.Phi:
		f.idx++
		return []*pstate{s}, false
	case *ssa.Jump:
		return []*pstate{m.jump(s, f.block.Succs[0])}, true
	case *ssa.If:
		b := f.block
		yes, no := m.truth(s, v(in.Cond))
		for _, t := range yes {
			next = append(next, m.jump(t, b.Succs[0]))
		}
		for _, t := range no {
			next = append(next, m.jump(t, b.Succs[1]))
		}
		return next, true
	case *ssa.Return:
		var res []*pv
		for _, r := range in.Results {
			res = append(res, v(r))
		}
		return m.ret(s, res), false
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if d.k == kClosure && d.fn.Blocks != nil {
				m.push(s, d.fn, d.xs[:len(d.fn.FreeVars)], d.xs[len(d.fn.FreeVars):])
				s.top().defer_ = true
			}
			return []*pstate{s}, false
		}
		f.idx++
		return []*pstate{s}, false
	case *ssa.Defer:
		c := v(in.Call.Value)
		d := &pv{k: kTop}
		if c.k == kClosure {
			d = &pv{k: kClosure, fn: c.fn, xs: append([]*pv(nil), c.xs...)}
			for _, a := range in.Call.Args {
				d.xs = append(d.xs, v(a))
			}
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			m.problem(in, "the deferred call is not followed")
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		f.idx++
		return []*pstate{s}, false
	case *ssa.Panic:
		m.panics(s, in, "panics")
		return nil, false
	case *ssa.Call:
		return m.call(s, in), false
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		p := m.alloc(s, t)
		return set(s, in, p), false
	case *ssa.BinOp:
		var out []*pstate
		for _, r := range m.binop(s, in.Op, v(in.X), v(in.Y), in.X.Type()) {
			out = append(out, set(r.s, in, r.v)...)
		}
		return out, false
	case *ssa.UnOp:
		x := v(in.X)
		switch in.Op {
		case token.MUL:
			return m.deref(s, in, x), false
		case token.NOT:
			switch x.k {
			case kInt:
				return set(s, in, pInt(1-x.n)), false
			case kByte:
				return set(s, in, mapByte(x, func(n int64) int64 {
					if n == 0 {
						return 1
					}
					return 0
				})), false
			case kLin:
				return set(s, in, &pv{k: kLin, s: map[string]string{"<": ">", ">": "<"}[x.s]}), false
			}
			return set(s, in, x), false
		case token.SUB:
			switch x.k {
			case kInt:
				return set(s, in, pInt(-x.n)), false
			case kByte:
				return set(s, in, mapByte(x, func(n int64) int64 { return -n })), false
			}
		}
		return set(s, in, pTop), false
	case *ssa.ChangeType:
		return set(s, in, v(in.X)), false
	case *ssa.ChangeInterface:
		return set(s, in, v(in.X)), false
	case *ssa.Convert:
		return set(s, in, m.convert(v(in.X), in.X.Type(), in.Type())), false
	case *ssa.MakeInterface:
		x := v(in.X)
		return set(s, in, &pv{k: kIface, T: in.X.Type(), xs: []*pv{x}}), false
	case *ssa.Extract:
		t := v(in.Tuple)
		if t.k == kTuple && in.Index < len(t.xs) {
			return set(s, in, t.xs[in.Index]), false
		}
		return set(s, in, pTop), false
	case *ssa.Field:
		x := v(in.X)
		if x.k == kStruct && in.Field < len(x.xs) {
			return set(s, in, x.xs[in.Field]), false
		}
		return set(s, in, pTop), false
	case *ssa.FieldAddr:
		x := v(in.X)
		switch {
		case x.k == kPtr && x.fld < 0 && x.obj > 0:
			return set(s, in, &pv{k: kPtr, obj: x.obj, fld: in.Field}), false
		case x.k == kNil:
			m.panics(s, in, "dereferences nil")
			return nil, false
		}
		return set(s, in, pRef), false
	case *ssa.Store:
		return m.store(s, in), false
	case *ssa.IndexAddr:
		return m.indexAddr(s, in, v(in.X), v(in.Index), true), false
	case *ssa.Index:
		return m.indexAddr(s, in, v(in.X), v(in.Index), false), false
	case *ssa.Lookup:
		if isString(in.X.Type()) {
			return m.indexAddr(s, in, v(in.X), v(in.Index), false), false
		}
		r := pTop
		if in.CommaOk {
			r = &pv{k: kTuple, xs: []*pv{pTop, pTop}}
		}
		return set(s, in, r), false
	case *ssa.Slice:
		return m.slice(s, in), false
	case *ssa.MakeClosure:
		c := &pv{k: kClosure, fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.xs = append(c.xs, v(b))
		}
		return set(s, in, c), false
	case *ssa.MakeMap, *ssa.MakeSlice:
		return set(s, in, pRef), false
	case *ssa.MapUpdate:
		if v(in.Map).k == kNil {
			m.panics(s, in, "writes to a nil map")
			return nil, false
		}
		if m.onUpdate != nil {
			m.onUpdate(s, in, v(in.Value))
		}
		f.idx++
		return []*pstate{s}, false
	case *ssa.TypeAssert:
		return m.typeAssert(s, in, v(in.X)), false
	case *ssa.Range:
		x := v(in.X)
		if x.k == kStr {
			return set(s, in, &pv{k: kStr, s: x.s}), false
		}
		return set(s, in, pTop), false
	case *ssa.Next:
		x := v(in.Iter)
		if x.k == kStr && in.IsString {
			if int(x.n) >= len(x.s) {
				return set(s, in, &pv{k: kTuple, xs: []*pv{pInt(0), pTop, pTop}}), false
			}
			if c := x.s[x.n]; c < 0x80 {
				f.env[in.Iter] = &pv{k: kStr, s: x.s, n: x.n + 1}
				return set(s, in, &pv{k: kTuple, xs: []*pv{pInt(1), pInt(x.n), pInt(int64(c))}}), false
			}
		}
		return set(s, in, &pv{k: kTuple, xs: []*pv{pTop, pTop, pTop}}), false
	}
	m.problem(in, "not followed: %T", in)
	return nil, false
}

func (m *machine) ret(s *pstate, res []*pv) []*pstate {
	fr := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.last = fr.block.Instrs[fr.idx]
		if fr.hold != nil {
			s.hold = m.load(s, fr.hold, nil)
		}
		if m.onReturn != nil {
			m.onReturn(s, res)
		}
		return nil
	}
	f := s.top()
	if fr.defer_ {
		return []*pstate{s}
	}
	in := f.block.Instrs[f.idx]
	return set(s, in, tuple(res))
}

func tuple(res []*pv) *pv {
	if len(res) == 1 {
		return res[0]
	}
	return &pv{k: kTuple, xs: res}
}

func mapByte(x *pv, f func(int64) int64) *pv {
	t := new([256]int64)
	for i := range 256 {
		t[i] = f(x.tab[i])
	}
	return &pv{k: kByte, sym: x.sym, tab: t}
}

func (m *machine) convert(x *pv, from, to types.Type) *pv {
	b, ok := under(to).(*types.Basic)
	if !ok {
		return x
	}
	switch {
	case b.Info()&types.IsString != 0:
		switch x.k {
		case kText, kStr:
			return x
		}
		return pTop
	case b.Info()&types.IsInteger != 0:
		switch x.k {
		case kByte:
			switch b.Kind() {
			case types.Uint8:
				return mapByte(x, func(n int64) int64 { return n & 255 })
			case types.Int8:
				return mapByte(x, func(n int64) int64 { return int64(int8(n)) })
			}
		case kInt:
			switch b.Kind() {
			case types.Uint8:
				return pInt(x.n & 255)
			}
		}
		return x
	}
	return x
}

func (m *machine) deref(s *pstate, in *ssa.UnOp, p *pv) []*pstate {
	switch {
	case p.k == kNil:
		m.panics(s, in, "dereferences nil")
		return nil
	case p.k == kPtr && p.obj == -1: // a symbol of the text
		return set(s, in, m.symbol(s, int(p.n)))
	case p.k == kPtr && p.obj == -3:
		return set(s, in, p.xs[0])
	case p.k == kPtr && p.obj == -2:
		return set(s, in, pInt(int64(p.s[p.n])))
	}
	return set(s, in, m.load(s, p, in.Type()))
}

var identity = func() *[256]int64 {
	t := new([256]int64)
	for i := range 256 {
		t[i] = int64(i)
	}
	return t
}()

func (m *machine) symbol(s *pstate, n int) *pv {
	return &pv{k: kByte, sym: s.buf[n].sym, tab: identity}
}

func (m *machine) store(s *pstate, in *ssa.Store) []*pstate {
	p, x := m.val(s, in.Addr), m.val(s, in.Val)
	f := s.top()
	f.idx++
	if p.k == kPtr && p.obj == -3 {
		m.problem(in, "an element of a list is changed")
		return nil
	}
	if p.k != kPtr || p.obj <= 0 {
		if p.k == kNil {
			m.panics(s, in, "dereferences nil")
			return nil
		}
		return []*pstate{s}
	}
	o := s.heap[p.obj]
	if p.fld < 0 {
		if x.k == kStruct && len(x.xs) == len(o.fs) {
			fs := append([]*pv(nil), x.xs...)
			if m.isParser(o.t) && fs[m.fPos].k == kInt && fs[m.fPos].n == 0 && s.first() {
				fs[m.fPos] = pPos(0)
			}
			s.heap[p.obj] = pobj{o.t, fs}
			return []*pstate{s}
		}
		fs := make([]*pv, len(o.fs))
		for i := range fs {
			fs[i] = pTop
		}
		if m.isParser(o.t) {
			m.problem(in, "the state of the parser is replaced")
			return nil
		}
		s.heap[p.obj] = pobj{o.t, fs}
		return []*pstate{s}
	}
	if m.isCursor(s, p) {
		if x.k == kInt && x.n == 0 && s.first() {
			x = pPos(0)
		}
		if x.k == kEnd && s.end != noEnd { // to the end
			x = pPos(int64(s.end) + x.n)
		}
		if x.k != kPos || x.n < 0 {
			m.problem(in, "the position becomes one that is not followed")
			return nil
		}
		o.fs[p.fld] = x
		return m.consume(s, int(x.n), in)
	}
	if p.fld < len(o.fs) {
		o.fs[p.fld] = x
	}
	return []*pstate{s}
}

type pres struct {
	s *pstate
	v *pv
}

func res1(s *pstate, v *pv) []pres { return []pres{{s, v}} }

func compareInt(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func isCompare(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func arith(op token.Token, a, b int64) (int64, bool) {
	switch op {
	case token.ADD:
		return a + b, true
	case token.SUB:
		return a - b, true
	case token.MUL:
		return a * b, true
	case token.QUO:
		if b != 0 {
			return a / b, true
		}
	case token.REM:
		if b != 0 {
			return a % b, true
		}
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.SHL:
		if b >= 0 && b < 63 {
			return a << b, true
		}
	case token.SHR:
		if b >= 0 && b < 63 {
			return a >> b, true
		}
	}
	return 0, false
}

func (m *machine) binop(s *pstate, op token.Token, x, y *pv, t types.Type) []pres {
	// the operand with more structure first
	if rank(x.k) < rank(y.k) && isCompare(op) {
		return m.binop(s, flip(op), y, x, t)
	}
	if x.k == kInt && y.k != kInt && op == token.ADD {
		x, y = y, x
	}
	if isCompare(op) {
		return m.compare(s, op, x, y)
	}
	switch {
	case x.k == kInt && y.k == kInt:
		if n, ok := arith(op, x.n, y.n); ok && n < 4096 && n > -4096 {
			return res1(s, pInt(n))
		}
		return res1(s, pTop)
	case x.k == kByte && y.k == kInt:
		ok := true
		r := mapByte(x, func(n int64) int64 {
			v, k := arith(op, n, y.n)
			ok = ok && k
			if b, is := under(t).(*types.Basic); is && b.Kind() == types.Uint8 {
				v &= 255
			}
			return v
		})
		if ok {
			return res1(s, r)
		}
	case x.k == kInt && y.k == kByte:
		ok := true
		r := mapByte(y, func(n int64) int64 {
			v, k := arith(op, x.n, n)
			ok = ok && k
			return v
		})
		if ok {
			return res1(s, r)
		}
	case x.k == kByte && y.k == kByte && x.sym == y.sym:
		ok := true
		t := new([256]int64)
		for i := range 256 {
			v, k := arith(op, x.tab[i], y.tab[i])
			ok = ok && k
			t[i] = v
		}
		if ok {
			return res1(s, &pv{k: kByte, sym: x.sym, tab: t})
		}
	case (x.k == kPos && x.n >= 0 || x.k == kEnd || x.k == kLin) && y.k == kInt && (op == token.ADD || op == token.SUB):
		n := *x
		if op == token.ADD {
			n.n += y.n
		} else {
			n.n -= y.n
		}
		if n.n > 64 || n.n < -64 || n.k == kLin && (n.n > 8 || n.n < -8) {
			return res1(s, pTop)
		}
		if n.k == kPos && n.n < 0 {
			if m.rec != nil {
				n.q = unknownPos
			}
			n.n = -1
		}
		return res1(s, &n)
	case x.k == kRem && y.k == kInt && (op == token.ADD || op == token.SUB):
		n := *x
		if op == token.ADD {
			n.n -= y.n
		} else {
			n.n += y.n
		}
		return res1(s, &n)
	case x.k == kEnd && y.k == kPos && op == token.SUB && y.n >= 0:
		return res1(s, &pv{k: kRem, n: y.n - x.n})
	case x.k == kPos && y.k == kPos && op == token.SUB && x.n >= 0 && y.n >= 0:
		return res1(s, pInt(x.n-y.n))
	case x.k == kStr && y.k == kStr && op == token.ADD:
		return res1(s, &pv{k: kStr, s: x.s + y.s})
	}
	return res1(s, pTop)
}

func rank(k pkind) int {
	switch k {
	case kTop:
		return 9
	case kText:
		return 8
	case kByte:
		return 7
	case kPos:
		return 6
	case kRem:
		return 6
	case kLin:
		return 6
	case kTok:
		return 5
	case kEnd:
		return 4
	case kNil:
		return 0
	case kInt:
		return 1
	}
	return 3
}

func (m *machine) compare(s *pstate, op token.Token, x, y *pv) []pres {
	eq := op == token.EQL
	switch {
	case x.k == kTop || y.k == kTop:
		if x.s == "any" {
			return res1(s, pAny)
		}
		return res1(s, pTop)
	case x.k == kInt && y.k == kInt:
		return res1(s, pBool(compareInt(op, x.n, y.n)))
	case x.k == kByte && y.k == kInt:
		return res1(s, mapByte(x, func(n int64) int64 {
			if compareInt(op, n, y.n) {
				return 1
			}
			return 0
		}))
	case x.k == kByte && y.k == kByte && x.sym == y.sym:
		t := new([256]int64)
		for i := range 256 {
			if compareInt(op, x.tab[i], y.tab[i]) {
				t[i] = 1
			}
		}
		return res1(s, &pv{k: kByte, sym: x.sym, tab: t})
	case x.k == kByte && y.k == kByte:
		// one of them may be a single byte
		for _, z := range [][2]*pv{{x, y}, {y, x}} {
			if set := s.syms[z[1].sym]; set.size() == 1 {
				o := op
				if z[0] == y {
					o = flip(op)
				}
				return m.compare(s, o, z[0], pInt(z[1].tab[set.sample()]))
			}
		}
		return res1(s, pAny)
	case x.k == kPos && y.k == kPos:
		if x.n >= 0 && y.n >= 0 || (x.n < 0) != (y.n < 0) {
			return res1(s, pBool(compareInt(op, x.n, y.n)))
		}
		return res1(s, pTop)
	case x.k == kPos && y.k == kEnd && x.n >= 0:
		return m.atEnd(s, op, x.n-y.n)
	case x.k == kEnd && y.k == kEnd:
		return res1(s, pBool(compareInt(op, x.n, y.n)))
	case x.k == kEnd && y.k == kInt: // an empty text
		if s.first() {
			return m.atEnd(s, flip(op), y.n-x.n)
		}
		return res1(s, pTop)
	case x.k == kRem && y.k == kInt:
		return m.atEnd(s, flip(op), x.n+y.n)
	case x.k == kPos && y.k == kInt && x.n < 0 && y.n == 0:
		return res1(s, pTop)
	case x.k == kLin && y.k == kInt:
		switch op {
		case token.LSS, token.LEQ:
			return res1(s, &pv{k: kLin, s: "<"})
		case token.GTR, token.GEQ:
			return res1(s, &pv{k: kLin, s: ">"})
		}
		return res1(s, &pv{k: kLin, s: "="})
	case x.k == kTok && y.k == kInt && y.n == 0 && strings.HasPrefix(x.s, "ts"):
		switch op {
		case token.GEQ:
			return res1(s, pInt(1))
		case token.LSS:
			return res1(s, pInt(0))
		}
		return res1(s, pAny)
	case x.k == kStr && y.k == kStr && (eq || op == token.NEQ):
		return res1(s, pBool((x.s == y.s) == eq))
	case x.k == kText && y.k == kStr && (eq || op == token.NEQ):
		if len(x.xs) == 2 && x.xs[0].k == kPos && x.xs[1].k == kPos && x.xs[0].n >= 0 {
			if x.xs[1].n-x.xs[0].n != int64(len(y.s)) {
				return res1(s, pBool(!eq))
			}
			var out []pres
			for _, r := range m.isText(s, int(x.xs[0].n), y.s) {
				out = append(out, pres{r.s, pBool((r.v.n != 0) == eq)})
			}
			return out
		}
		return res1(s, pAny)
	case y.k == kNil && (eq || op == token.NEQ):
		switch x.k {
		case kNil:
			return res1(s, pBool(eq))
		case kErr, kRef, kIface, kPtr, kClosure, kStr, kText, kTok:
			if x.k == kRef && x.s == "value" { // null is a value, too
				return res1(s, pAny)
			}
			return res1(s, pBool(!eq))
		}
	case x.k == kIface && y.k == kIface && (eq || op == token.NEQ):
		if !types.Identical(x.T, y.T) {
			return res1(s, pBool(!eq))
		}
		return m.compare(s, op, x.xs[0], y.xs[0])
	}
	return res1(s, pTop)
}

// atEnd compares a position with the end of the text.
func (m *machine) atEnd(s *pstate, op token.Token, n int64) (out []pres) {
	if n < 0 && s.end == noEnd {
		return res1(s, pBool(compareInt(op, -1, 0)))
	}
	at := int(n)
	if op == token.EQL || op == token.NEQ || op == token.LSS || op == token.GEQ {
		// n against the end
	}
	for _, t := range m.look(s, max(at, 0)) {
		if t.end != noEnd {
			out = append(out, pres{t, pBool(compareInt(op, n, int64(t.end)))})
		} else { // the end is behind n
			out = append(out, pres{t, pBool(compareInt(op, 0, 1))})
		}
	}
	return
}

// isText: the text at offset n is w.
func (m *machine) isText(s *pstate, n int, w string) (out []pres) {
	type at struct {
		s *pstate
		i int
	}
	work := []at{{s, 0}}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if a.i == len(w) {
			out = append(out, pres{a.s, pInt(1)})
			continue
		}
		for _, t := range m.look(a.s, n+a.i) {
			if !t.there(n + a.i) {
				out = append(out, pres{t, pInt(0)})
				continue
			}
			sym := t.buf[n+a.i].sym
			set := t.syms[sym]
			one := byteSet{}
			one.add(w[a.i])
			yes, no := set.and(one), set.and(one.not())
			if !yes.empty() && !no.empty() {
				u := t.clone()
				u.refine(sym, no)
				out = append(out, pres{u, pInt(0)})
				t.refine(sym, yes)
			} else if yes.empty() {
				out = append(out, pres{t, pInt(0)})
				continue
			}
			work = append(work, at{t, a.i + 1})
		}
	}
	return
}

// indexAddr is the access to an element; addr: its address is taken.
func (m *machine) indexAddr(s *pstate, in ssa.Instruction, x, i *pv, addr bool) (out []*pstate) {
	if m.reads != nil {
		m.reads[m.p.where(in)]++
	}
	switch {
	case x.k == kText:
		n := int64(0)
		limit := int64(-1)
		switch {
		case isWhole(x):
			if i.k == kInt && s.first() { // from the start
				i = pPos(i.n)
			}
			if i.k == kEnd && s.end != noEnd {
				i = pPos(int64(s.end) + i.n)
			}
			if i.k != kPos || i.n < 0 {
				m.problem(in, "the position that is read is not followed")
				return nil
			}
			n = i.n
		default:
			lo, hi := x.xs[0], x.xs[1]
			if lo.k != kPos || lo.n < 0 || i.k != kInt {
				m.problem(in, "the position that is read is not followed")
				return nil
			}
			n = lo.n + i.n
			if i.n < 0 {
				m.panics(s, in, "reads before the start of a part of the input")
				return nil
			}
			if hi.k == kPos {
				limit = hi.n
			} else if hi.k != kEnd || hi.n != 0 {
				m.problem(in, "the position that is read is not followed")
				return nil
			}
		}
		if limit >= 0 && n >= limit {
			m.panics(s, in, "reads behind the end of a part of the input")
			return nil
		}
		for _, t := range m.look(s, int(n)) {
			if !t.there(int(n)) {
				m.panics(t, in, "reads behind the end of the input")
				continue
			}
			if addr {
				out = append(out, set(t, in, &pv{k: kPtr, obj: -1, n: n, q: t.buf[n].sym})...)
			} else {
				out = append(out, set(t, in, m.symbol(t, int(n)))...)
			}
		}
		return out
	case x.k == kRef && x.xs != nil && i.k == kInt: // a list of known elements
		if i.n < 0 || int(i.n) >= len(x.xs) {
			m.panics(s, in, "index out of range")
			return nil
		}
		if addr {
			return set(s, in, &pv{k: kPtr, obj: -3, n: i.n, xs: x.xs[i.n : i.n+1]})
		}
		return set(s, in, x.xs[i.n])
	case x.k == kStr && i.k == kInt:
		if i.n < 0 || int(i.n) >= len(x.s) {
			m.panics(s, in, "index out of range")
			return nil
		}
		if addr {
			return set(s, in, &pv{k: kPtr, obj: -2, s: x.s, n: i.n})
		}
		return set(s, in, pInt(int64(x.s[i.n])))
	case x.k == kPtr && x.fld < 0 && x.obj > 0 && i.k == kInt && int(i.n) < len(s.heap[x.obj].fs) && i.n >= 0:
		return set(s, in, &pv{k: kPtr, obj: x.obj, fld: int(i.n)})
	}
	m.unproven[m.p.where(in)] = "an index is not followed"
	if addr {
		return set(s, in, pRef)
	}
	return set(s, in, pTop)
}

func (m *machine) slice(s *pstate, in *ssa.Slice) (out []*pstate) {
	if x := m.val(s, in.X); (isWhole(x) || x.k == kText) && m.onSlice != nil {
		m.onSlice(s)
	}
	x := m.val(s, in.X)
	var lo, hi *pv
	if in.Low != nil {
		lo = m.val(s, in.Low)
	}
	if in.High != nil {
		hi = m.val(s, in.High)
	}
	if m.reads != nil {
		m.reads[m.p.where(in)]++
	}
	switch {
	case x.k == kPtr && x.obj > 0 && x.fld < 0: // of an array
		if lo == nil && hi == nil {
			return set(s, in, &pv{k: kRef, xs: append([]*pv(nil), s.heap[x.obj].fs...)})
		}
		return set(s, in, pRef)
	case isWhole(x):
		if lo == nil || lo.k == kInt && lo.n == 0 {
			lo = &pv{k: kPos, n: -1}
			if m.rec != nil {
				lo.q = unknownPos
			}
			if s.first() {
				lo = pPos(0)
			}
		}
		if hi == nil {
			hi = &pv{k: kEnd}
		}
		if hi.k == kInt && s.first() {
			hi = pPos(hi.n)
		}
		if lo.k == kInt && s.first() {
			lo = pPos(lo.n)
		}
		if lo.k != kPos || hi.k != kPos && hi.k != kEnd || hi.k == kPos && hi.n < 0 || hi.k == kEnd && hi.n != 0 {
			m.problem(in, "the part of the input that is taken is not followed")
			return nil
		}
		if hi.k == kPos && lo.n > hi.n {
			m.panics(s, in, "takes a part of the input that ends before it starts")
			return nil
		}
		at := lo
		if hi.k == kPos {
			at = hi
		}
		if at.n < 0 {
			return set(s, in, &pv{k: kText, xs: []*pv{lo, hi}})
		}
		// the end of the part must not be behind that of the text
		for _, r := range m.atEnd(s, token.LEQ, at.n) {
			if r.v.n == 0 {
				m.panics(r.s, in, "takes a part of the input that reaches behind its end")
				continue
			}
			out = append(out, set(r.s, in, &pv{k: kText, xs: []*pv{lo, hi}})...)
		}
		return out
	case x.k == kText && len(x.xs) == 2 && (lo == nil || lo.k == kInt && lo.n >= 0) && (hi == nil || hi.k == kInt) && x.xs[0].k == kPos && x.xs[0].n >= 0:
		a, b := *x.xs[0], x.xs[1]
		base := a.n
		if lo != nil {
			a.n += lo.n
		}
		if hi != nil {
			h := pPos(base + hi.n)
			if b.k == kPos && h.n > b.n {
				m.problem(in, "the part of the input that is taken is not followed")
				return nil
			}
			if b.k == kEnd {
				for _, r := range m.atEnd(s, token.LEQ, h.n) {
					if r.v.n == 0 {
						m.panics(r.s, in, "takes a part of the input that reaches behind its end")
						continue
					}
					out = append(out, set(r.s, in, &pv{k: kText, xs: []*pv{&a, h}})...)
				}
				return out
			}
			b = h
		}
		if b.k == kEnd {
			for _, r := range m.atEnd(s, token.LEQ, a.n) {
				if r.v.n == 0 {
					m.panics(r.s, in, "takes a part of the input that reaches behind its end")
					continue
				}
				out = append(out, set(r.s, in, &pv{k: kText, xs: []*pv{&a, b}})...)
			}
			return out
		}
		if a.n > b.n {
			m.panics(s, in, "takes a part of the input that ends before it starts")
			return nil
		}
		return set(s, in, &pv{k: kText, xs: []*pv{&a, b}})
	case x.k == kText:
		m.problem(in, "the part of the input that is taken is not followed")
		return nil
	case x.k == kStr && (lo == nil || lo.k == kInt) && (hi == nil || hi.k == kInt):
		a, b := int64(0), int64(len(x.s))
		if lo != nil {
			a = lo.n
		}
		if hi != nil {
			b = hi.n
		}
		if a < 0 || a > b || b > int64(len(x.s)) {
			m.panics(s, in, "slice bounds out of range")
			return nil
		}
		return set(s, in, &pv{k: kStr, s: x.s[a:b]})
	case lo == nil && hi == nil, hi == nil && lo.k == kInt && lo.n == 0:
		return set(s, in, x)
	}
	if hi != nil && hi.k == kInt && hi.n == 0 && (lo == nil || lo.k == kInt && lo.n == 0) {
		return set(s, in, pRef)
	}
	m.unproven[m.p.where(in)] = "the bounds of a part are not followed"
	return set(s, in, pTop)
}

func (m *machine) typeAssert(s *pstate, in *ssa.TypeAssert, x *pv) (out []*pstate) {
	yes := func(s *pstate, v *pv) []*pstate {
		if in.CommaOk {
			v = &pv{k: kTuple, xs: []*pv{v, pInt(1)}}
		}
		return set(s, in, v)
	}
	no := func(s *pstate) []*pstate {
		if !in.CommaOk {
			m.panics(s, in, "a type assertion fails")
			return nil
		}
		return set(s, in, &pv{k: kTuple, xs: []*pv{m.zeroOf(in.AssertedType), pInt(0)}})
	}
	iface, isI := under(in.AssertedType).(*types.Interface)
	switch x.k {
	case kIface:
		if isI {
			if types.Implements(x.T, iface) {
				return yes(s, x)
			}
			return no(s)
		}
		if types.Identical(x.T, in.AssertedType) {
			return yes(s, x.xs[0])
		}
		return no(s)
	case kNil:
		return no(s)
	case kErr:
		if isI && types.Implements(types.Universe.Lookup("error").Type(), iface) {
			return yes(s, x)
		}
	}
	// anything
	t := s.clone()
	if x.s != "value" && x.s != "any" {
		for _, y := range []*pstate{s, t} {
			y.guess, y.stepGuess = true, true
		}
	}
	v := pTop
	if isI {
		v = x
		if x.k == kTop {
			v = pRef
		}
	} else if st, ok := under(in.AssertedType).(*types.Struct); ok {
		v = &pv{k: kStruct, T: in.AssertedType}
		for range st.NumFields() {
			v.xs = append(v.xs, &pv{k: kTop, s: "any"})
		}
	} else if x.s == "value" {
		v = &pv{k: kRef, s: "value"}
	}
	return append(yes(s, v), no(t)...)
}

func (m *machine) call(s *pstate, in *ssa.Call) (out []*pstate) {
	c := in.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(s, in, b.Name())
	}
	var args []*pv
	for _, a := range c.Args {
		args = append(args, m.val(s, a))
	}
	if c.IsInvoke() {
		r := m.val(s, c.Value)
		if r.k == kNil {
			m.panics(s, in, "calls a method of nil")
			return nil
		}
		for _, a := range args {
			if a.k == kPtr && m.isParser(s.heap[a.obj].t) {
				m.problem(in, "the called method is not known")
				return nil
			}
		}
		return set(s, in, m.results(c.Signature()))
	}
	fv := m.val(s, c.Value)
	if fv.k != kClosure {
		m.problem(in, "the called function is not known")
		return nil
	}
	fn := fv.fn
	if m.p.inRepo(fn) && fn.Blocks != nil {
		states := []*pstate{s}
		if m.src.n != nil { // whether a named part comes next
			states = m.look(s, 0)
		}
		for _, s := range states {
			if m.cut != nil && m.cut(s, fn) {
				out = append(out, m.doCut(s, in, fn, args)...)
				continue
			}
			active := 0
			for _, f := range s.frames {
				if f.fn == fn {
					active++
				}
			}
			if active > 3 || active > 0 && m.src.n == nil || len(s.frames) > 40 {
				m.problem(in, "the recursion is not followed")
				continue
			}
			m.push(s, fn, fv.xs, args)
			out = append(out, s)
		}
		return out
	}
	return m.library(s, in, fn, args)
}

// doCut reads a part of the text at once.
func (m *machine) doCut(s *pstate, in *ssa.Call, fn *ssa.Function, args []*pv) (out []*pstate) {
	if m.onCut != nil {
		m.onCut(s, in, args)
	}
	name := "⟨" + m.cutName + "⟩"
	named := m.src.n != nil
	var value *pv
	if named {
		name = "⟨" + s.buf[0].name + "⟩"
		value = m.parts[s.buf[0].name]
	}
	if value == nil {
		value = &pv{k: kRef, s: "value"}
	}
	res := func(err *pv) *pv {
		var vs []*pv
		rs := fn.Signature.Results()
		for i := range rs.Len() {
			switch {
			case isErrorType(rs.At(i).Type()):
				vs = append(vs, err)
			case err.k == kNil:
				vs = append(vs, value)
			default:
				vs = append(vs, m.zeroOf(rs.At(i).Type()))
			}
		}
		return tuple(vs)
	}
	skip := func(s *pstate) {
		if named {
			b := s.buf[0]
			s.buf = s.buf[1:]
			if s.end != noEnd {
				s.end--
			}
			for _, g := range b.tags {
				if m.onTag != nil {
					m.onTag(s, g)
				}
			}
		} else {
			s.buf, s.end = nil, noEnd
		}
		s.moved, s.any = true, true
		s.hist = &histNode{prev: s.hist, name: name}
		fail := unknownPos
		s.rewrite(func(v *pv) *pv {
			switch v.k {
			case kPos:
				return &pv{k: kPos, n: -1, q: fail}
			case kRem:
				return pTop
			}
			return v
		})
		for _, o := range s.heap {
			if m.isParser(o.t) {
				o.fs[m.fPos] = pPos(0)
			}
		}
	}
	if named {
		skip(s)
		return set(s, in, res(pNil))
	}
	empty := s.end != noEnd && len(s.buf) == 0
	t := s
	if !empty {
		t = s.clone()
	}
	// it fails somewhere
	moved, some := t.moved, t.any
	skip(t)
	t.moved, t.any, t.mid = moved, some, true
	t.spec = 0
	t.hist = &histNode{prev: t.hist, name: "✗"}
	out = append(out, set(t, in, res(pErr))...)
	if !empty {
		skip(s)
		if m.spec != nil {
			s.spec = m.spec.named(s.spec, m.cutName)
		}
		out = append(out, set(s, in, res(pNil))...)
	}
	return out
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// results are unknown values of the types that a function returns.
func (m *machine) results(sig *types.Signature) *pv {
	var vs []*pv
	for i := range sig.Results().Len() {
		_ = i
		vs = append(vs, pTop)
	}
	return tuple(vs)
}

func (m *machine) builtin(s *pstate, in *ssa.Call, name string) []*pstate {
	arg := func(i int) *pv { return m.val(s, in.Call.Args[i]) }
	switch name {
	case "len":
		switch x := arg(0); {
		case isWhole(x):
			return set(s, in, &pv{k: kEnd})
		case x.k == kText && len(x.xs) == 2:
			lo, hi := x.xs[0], x.xs[1]
			switch {
			case lo.n >= 0 && hi.k == kPos:
				return set(s, in, pInt(hi.n-lo.n))
			case lo.n >= 0 && hi.k == kEnd:
				return set(s, in, &pv{k: kRem, n: lo.n})
			}
		case x.k == kStr:
			return set(s, in, pInt(int64(len(x.s))))
		case x.k == kNil:
			return set(s, in, pInt(0))
		case x.k == kRef && x.xs != nil:
			return set(s, in, pInt(int64(len(x.xs))))
		}
		return set(s, in, pTop)
	case "append":
		if len(in.Call.Args) == 2 && m.onUpdate != nil {
			b, isB := under(in.Type().Underlying().(*types.Slice).Elem()).(*types.Basic)
			if isB && b.Kind() == types.Uint8 && m.onByte != nil {
				if len(arg(1).xs) == 0 || arg(1).k == kText {
					m.onSlice(s)
				} else {
					for _, x := range arg(1).xs {
						m.onByte(s, in, x, false)
					}
				}
			}
			for _, x := range arg(1).xs {
				m.onUpdate(s, in, x)
			}
		}
		return set(s, in, pRef)
	case "min", "max":
		if len(in.Call.Args) == 2 {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			var out []*pstate
			x, y := arg(0), arg(1)
			for _, r := range m.binop(s, op, x, y, in.Type()) {
				a, b := m.truth(r.s, r.v)
				for _, t := range a {
					out = append(out, set(t, in, x)...)
				}
				for _, t := range b {
					out = append(out, set(t, in, y)...)
				}
			}
			return out
		}
	case "ssa:wrapnilchk":
		return set(s, in, arg(0))
	}
	return set(s, in, pTop)
}

// library describes what functions of other packages return.
func (m *machine) library(s *pstate, in *ssa.Call, fn *ssa.Function, args []*pv) (out []*pstate) {
	name := fullName(fn)
	m.called[name] = true
	switch name {
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte",
		"(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "unicode/utf8.AppendRune":
		if m.onByte != nil {
			m.onByte(s, in, args[1], strings.HasSuffix(name, "Rune"))
		}
	}
	both := func(okv *pv, may, mayNot bool) {
		if may && mayNot {
			out = append(out, set(s.clone(), in, &pv{k: kTuple, xs: []*pv{okv, pNil}})...)
			out = append(out, set(s, in, &pv{k: kTuple, xs: []*pv{pTop, pErr}})...)
		} else if may {
			out = set(s, in, &pv{k: kTuple, xs: []*pv{okv, pNil}})
		} else {
			out = set(s, in, &pv{k: kTuple, xs: []*pv{pTop, pErr}})
		}
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return set(s, in, pErr)
	case "strconv.ParseFloat", "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		kind, tok := 1, "ts"
		switch {
		case name == "strconv.ParseFloat":
			kind, tok = 0, "num"
		case len(args) > 1 && args[1].k == kInt && args[1].n == 16:
			kind, tok = 2, "hex"
		}
		x := args[0]
		if x.k == kText && len(x.xs) == 2 && x.xs[1].k == kPos && x.xs[1].n == 0 && x.xs[0].k == kPos && m.rec != nil {
			good := false
			if x.xs[0].n < 0 {
				good = m.rec.is(kind, x.xs[0].q)
			}
			if x.xs[0].n < 0 && x.xs[0].q == unknownPos {
				m.guessed(s)
				both(pTop, true, true)
				return
			}
			if good && m.libOK {
				both(pTok(tok), true, false)
			} else {
				both(pTok(tok), good, true)
			}
			return
		}
		m.guessed(s)
		both(pTop, true, true)
		return
	case "bytes.HasPrefix", "strings.HasPrefix":
		x, w := args[0], args[1]
		if x.k == kText && len(x.xs) == 2 && x.xs[0].k == kPos && x.xs[0].n >= 0 && x.xs[1].k == kEnd && x.xs[1].n == 0 && w.k == kStr {
			for _, r := range m.isText(s, int(x.xs[0].n), w.s) {
				out = append(out, set(r.s, in, r.v)...)
			}
			return
		}
	case "bytes.Equal":
		x, w := args[0], args[1]
		if x.k == kText && w.k == kStr {
			for _, r := range m.compare(s, token.EQL, x, w) {
				out = append(out, set(r.s, in, r.v)...)
			}
			return
		}
	case "unicode.IsDigit", "unicode.IsSpace", "unicode.IsLetter":
		if args[0].k == kByte {
			t := mapByte(args[0], func(n int64) int64 {
				c := rune(n)
				ok := false
				switch name {
				case "unicode.IsDigit":
					ok = c >= '0' && c <= '9'
				case "unicode.IsSpace":
					ok = c == ' ' || c >= 9 && c <= 13 || c == 0x85 || c == 0xA0
				default:
					ok = c|0x20 >= 'a' && c|0x20 <= 'z' || c == 0xAA || c == 0xB5 || c == 0xBA || c >= 0xC0 && c <= 0xFF && c != 0xD7 && c != 0xF7
				}
				if ok {
					return 1
				}
				return 0
			})
			return set(s, in, t)
		}
	case "strings.IndexByte", "strings.ContainsRune", "bytes.IndexByte", "strings.IndexRune":
		if args[0].k == kStr && args[1].k == kByte {
			return set(s, in, mapByte(args[1], func(n int64) int64 {
				i := int64(strings.IndexByte(args[0].s, byte(n)))
				if n > 0x7f {
					i = -1
				}
				if name == "strings.ContainsRune" {
					if i >= 0 {
						return 1
					}
					return 0
				}
				return i
			}))
		}
	case "unicode/utf16.IsSurrogate":
		return set(s, in, pAny)
	}
	for _, a := range args {
		if a.k == kPtr && a.obj > 0 && m.isParser(s.heap[a.obj].t) {
			m.problem(in, "the state of the parser is given away")
			return nil
		}
	}
	return set(s, in, m.results(fn.Signature))
}

func (m *machine) guessed(s *pstate) { s.guess, s.stepGuess = true, true }
