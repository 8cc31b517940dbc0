package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A machine follows a parser over all texts of a source. The text is not
// given: a symbol of it is a set of bytes, which is split when the parser
// tests it. What the parser builds is not followed, only where it is in the
// text, so that the states are finitely many. A function that is reached again
// while it is active is not entered: it reads a part of the text, named after
// it, and is analysed on its own.

type pkind byte

const (
	kTop     pkind = iota // anything
	kInt                  // n
	kPos                  // the position n behind the cursor; before it if n < 0, with recogniser q
	kEnd                  // the length of the text + n
	kRem                  // the length of the text - the position n
	kByte                 // a function of a symbol
	kText                 // the text from xs[0] to xs[1]
	kStr                  // the constant s
	kNil                  //
	kErr                  // an error
	kRef                  // not nil, otherwise anything
	kIface                // of type T, with xs[0]
	kPtr                  // to field fld of obj
	kClosure              // fn with the bindings xs
	kTuple
	kStruct
	kLin // what the counter was + n
	kTok // a value read from the text, of kind s
)

type pv struct {
	k   pkind
	n   int64
	q   int
	s   string
	sym int
	tab *[256]int64
	T   types.Type
	xs  []*pv
	fn  *ssa.Function
	obj int
	fld int
}

var (
	pTop = &pv{k: kTop}
	pNil = &pv{k: kNil}
	pErr = &pv{k: kErr}
	pRef = &pv{k: kRef}
)

func pInt(n int64) *pv { return &pv{k: kInt, n: n} }
func pBool(b bool) *pv {
	if b {
		return pInt(1)
	}
	return pInt(0)
}
func pTok(s string) *pv { return &pv{k: kTok, s: s} }

type pframe struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*pv
	free   []*pv
	defers []*pv // closures with their arguments in xs
	defer_ bool  // runs as a deferred call
	hold   *pv   // what it points to is observed at the end
}

// pobj is an object in the memory.
type pobj struct {
	t  types.Type
	fs []*pv
}

type bufSym struct {
	sym  int
	name string
	tags []string
}

const noEnd = 1 << 30

type histNode struct {
	prev *histNode
	sym  int
	set  byteSet
	name string // a named part, the end, or a note
	use  bool   // consumed
}

type pstate struct {
	frames    []*pframe
	heap      map[int]pobj
	nobj      int
	syms      map[int]byteSet
	nsym      int
	buf       []bufSym
	end       int // where the text ends, if that is known
	src       int
	spec      int
	marks     map[string]int // what the tags have counted
	guess     bool
	stepGuess bool // a guess since the last node
	moved     bool // consumed something since the last node
	any       bool // consumed something at all
	mid       bool // does not start at the start of the text
	bound     bool // the counter is known to be limited
	hist      *histNode
	cuts      int
	last      ssa.Instruction
	hold      *pv // what a pointer held at the end
}

type machine struct {
	p        *Program
	src      *source
	spec     *dfa
	rec      *recogniser
	cut      func(st *pstate, fn *ssa.Function) bool // the call is not entered
	cutName  string
	parts    map[string]*pv // what the named parts of the source are read as
	onCut    func(st *pstate, in ssa.Instruction, args []*pv)
	onTag    func(st *pstate, tag string)
	onUpdate func(st *pstate, in ssa.Instruction, v *pv)            // a value is put into a container
	onByte   func(st *pstate, in ssa.Instruction, v *pv, utf8 bool) // a character is added to a string
	onSlice  func(st *pstate)                                       // a part of the text is taken
	onReturn func(st *pstate, res []*pv)
	onPanic  func(st *pstate, in ssa.Instruction, why string)
	problems map[string]bool
	parser   *types.Struct // the parser state
	fInput   int
	fPos     int
	fDepth   int
	maxNodes int

	nodes    []*pnode
	ids      map[string]int
	steps    int
	libOK    bool // library functions accept what they are documented to accept
	zero     bool // the counter starts at zero
	fns      map[*ssa.Function]bool
	live     map[ssa.Instruction]map[ssa.Value]bool
	called   map[string]bool
	unproven map[string]string
	reads    map[string]int // where the text is read
}

type pnode struct {
	st    *pstate
	guess bool
	succs []psucc
}

type psucc struct {
	to    int
	moved bool
	guess bool
}

func (m *machine) problem(in ssa.Instruction, f string, a ...any) {
	m.problems[fmt.Sprintf("%s: %s", m.p.where(in), fmt.Sprintf(f, a...))] = true
}

// unknownPos is the recogniser state of a position about which nothing is known.
const unknownPos = -1

// recogniser classifies the text since a saved position: whether it is a
// number, a sequence of digits, or one of hexadecimal digits.
type recogniser struct {
	ds     []*dfa
	states [][3]int
	ids    map[[3]int]int
}

func newRecogniser() *recogniser {
	digits := rSet(byteRange('0', '9'))
	sign := rOpt(rChars("+-"))
	num := rSeq(sign, rAlt(rSeq(rPlus(digits), rOpt(rSeq(rText("."), rStar(digits)))), rSeq(rText("."), rPlus(digits))),
		rOpt(rSeq(rChars("eE"), sign, rPlus(digits))))
	hex := rPlus(rChars("0123456789abcdefABCDEF"))
	r := &recogniser{ids: map[[3]int]int{}}
	for _, x := range []*re{num, rSeq(sign, rPlus(digits)), hex} {
		r.ds = append(r.ds, newDFA(x))
	}
	r.id([3]int{r.ds[0].start, r.ds[1].start, r.ds[2].start})
	return r
}

func (r *recogniser) id(t [3]int) int {
	if i, ok := r.ids[t]; ok {
		return i
	}
	r.ids[t] = len(r.states)
	r.states = append(r.states, t)
	return len(r.states) - 1
}

func (r *recogniser) next(q int, c byte) int {
	if q < 0 {
		return q
	}
	t := r.states[q]
	for i, d := range r.ds {
		for _, e := range d.step(t[i]) {
			if e.set.has(c) {
				t[i] = e.to
				break
			}
		}
	}
	return r.id(t)
}

func (r *recogniser) step(q int) (out []dfaEdge) {
	if q < 0 {
		return []dfaEdge{{set: anyByte}}
	}
	parts := []byteSet{anyByte}
	for i, d := range r.ds {
		var next []byteSet
		for _, p := range parts {
			for _, e := range d.step(r.states[q][i]) {
				if x := p.and(e.set); !x.empty() {
					next = append(next, x)
				}
			}
		}
		parts = next
	}
	for _, p := range parts {
		out = append(out, dfaEdge{set: p})
	}
	return
}

func (r *recogniser) is(kind, q int) bool { return r.ds[kind].accepts(r.states[q][kind]) }

// ---- states

func (s *pstate) clone() *pstate {
	n := *s
	n.frames = make([]*pframe, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*pv, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	n.heap = make(map[int]pobj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = pobj{v.t, append([]*pv(nil), v.fs...)}
	}
	n.syms = make(map[int]byteSet, len(s.syms))
	for k, v := range s.syms {
		n.syms[k] = v
	}
	n.buf = append([]bufSym(nil), s.buf...)
	n.marks = make(map[string]int, len(s.marks))
	for k, v := range s.marks {
		n.marks[k] = v
	}
	return &n
}

func (s *pstate) top() *pframe { return s.frames[len(s.frames)-1] }

// refine narrows a symbol.
func (s *pstate) refine(sym int, set byteSet) {
	if s.syms[sym] != set {
		s.syms[sym] = set
		s.hist = &histNode{prev: s.hist, sym: sym, set: set}
	}
}

// word is the text that has been read, as far as it is known.
func (s *pstate) word() string {
	sets := map[int]byteSet{}
	var order []*histNode
	for h := s.hist; h != nil; h = h.prev {
		if _, ok := sets[h.sym]; !ok && h.name == "" && !h.use {
			sets[h.sym] = h.set
		}
		if h.use || h.name != "" {
			order = append(order, h)
		}
	}
	var sb strings.Builder
	for i := len(order) - 1; i >= 0; i-- {
		h := order[i]
		if h.name != "" {
			sb.WriteString(h.name)
		} else {
			sb.WriteByte(sets[h.sym].sample())
		}
	}
	for _, b := range s.buf {
		if b.name != "" {
			sb.WriteString(b.name)
		} else {
			sb.WriteByte(s.syms[b.sym].sample())
		}
	}
	return sb.String()
}

// look makes sure that it is known whether there is a symbol behind the next n.
func (m *machine) look(s *pstate, n int) []*pstate {
	out := []*pstate{}
	work := []*pstate{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.end != noEnd || len(s.buf) > n {
			out = append(out, s)
			continue
		}
		es := m.src.next(s.src)
		for i, e := range es {
			t := s
			if i < len(es)-1 {
				t = s.clone()
			}
			if e.eof {
				t.end = len(t.buf)
				for _, g := range e.tags {
					if m.onTag != nil {
						m.onTag(t, g)
					}
				}
			} else {
				t.nsym++
				t.syms[t.nsym] = e.set
				t.hist = &histNode{prev: t.hist, sym: t.nsym, set: e.set}
				t.buf = append(t.buf, bufSym{t.nsym, e.name, e.tags})
				t.src = e.to
			}
			work = append(work, t)
		}
	}
	return out
}

// there: a symbol is known to be at offset n, or known not to be.
func (s *pstate) there(n int) bool {
	if s.end != noEnd {
		return n < s.end
	}
	return n < len(s.buf)
}

// consume moves the cursor over n symbols.
func (m *machine) consume(s *pstate, n int, in ssa.Instruction) []*pstate {
	states := []*pstate{s}
	for range n {
		var next []*pstate
		for _, s := range states {
			for _, s := range m.look(s, 0) {
				next = append(next, m.consume1(s, in)...)
			}
		}
		states = next
	}
	return states
}

func (m *machine) consume1(s *pstate, in ssa.Instruction) (out []*pstate) {
	if s.end != noEnd && len(s.buf) == 0 { // behind the end
		if s.end > -2 {
			s.end--
			s.moved = true
		}
		s.spec = 0
		s.hist = &histNode{prev: s.hist, name: "␄"}
		m.shift(s, 1, nil)
		return []*pstate{s}
	}
	delete(s.marks, "after")
	b := s.buf[0]
	if b.name != "" {
		m.problem(in, "a part of the text is read in a way that is not followed")
		return nil
	}
	// split by what the specification and the recogniser distinguish
	parts := []byteSet{s.syms[b.sym]}
	split := func(by []dfaEdge) {
		var next []byteSet
		for _, p := range parts {
			for _, e := range by {
				if x := p.and(e.set); !x.empty() {
					next = append(next, x)
				}
			}
		}
		parts = next
	}
	if m.spec != nil {
		split(m.spec.step(s.spec))
	}
	qs, here := map[int]bool{}, 0
	s.each(func(v *pv) {
		if v.k == kPos && v.n < 0 {
			qs[v.q] = true
		}
		if v.k == kPos && v.n == 0 {
			here++
		}
	})
	if here > 1 { // the cursor is one of them
		qs[0] = true
	}
	if m.rec != nil {
		for _, q := range sortedInts(qs) {
			split(m.rec.step(q))
		}
	}
	for i, p := range parts {
		t := s
		if i < len(parts)-1 {
			t = s.clone()
		}
		t.refine(b.sym, p)
		if m.spec != nil {
			for _, e := range m.spec.step(t.spec) {
				if e.set.has(p.sample()) {
					t.spec = e.to
					break
				}
			}
		}
		t.buf = t.buf[1:]
		if t.end != noEnd {
			t.end--
		}
		t.moved, t.any = true, true
		t.hist = &histNode{prev: t.hist, sym: b.sym, use: true}
		m.shift(t, 1, &p)
		for _, g := range b.tags {
			if m.onTag != nil {
				m.onTag(t, g)
			}
		}
		out = append(out, t)
	}
	return out
}

// each calls f for every value.
func (s *pstate) each(f func(v *pv)) {
	var rec func(v *pv)
	rec = func(v *pv) {
		if v == nil {
			return
		}
		f(v)
		for _, x := range v.xs {
			rec(x)
		}
	}
	for _, fr := range s.frames {
		for _, v := range fr.env {
			rec(v)
		}
		for _, v := range fr.free {
			rec(v)
		}
		for _, v := range fr.defers {
			rec(v)
		}
	}
	for _, o := range s.heap {
		for _, v := range o.fs {
			rec(v)
		}
	}
}

// rewrite replaces every value.
func (s *pstate) rewrite(f func(v *pv) *pv) {
	var rec func(v *pv) *pv
	rec = func(v *pv) *pv {
		if v == nil {
			return nil
		}
		var xs []*pv
		for i, x := range v.xs {
			y := rec(x)
			if y != x && xs == nil {
				xs = append([]*pv(nil), v.xs...)
			}
			if xs != nil {
				xs[i] = y
			}
		}
		if xs != nil {
			n := *v
			n.xs = xs
			v = &n
		}
		return f(v)
	}
	list := func(vs []*pv) []*pv {
		var out []*pv
		for i, v := range vs {
			if n := rec(v); n != v {
				if out == nil {
					out = append([]*pv(nil), vs...)
				}
				out[i] = n
			}
		}
		if out == nil {
			return vs
		}
		return out
	}
	for _, fr := range s.frames {
		for k, v := range fr.env {
			if n := rec(v); n != v {
				fr.env[k] = n
			}
		}
		fr.free = list(fr.free)
		fr.defers = list(fr.defers)
	}
	for k, o := range s.heap {
		s.heap[k] = pobj{o.t, list(o.fs)}
	}
}

// shift moves the origin of the positions.
func (m *machine) shift(s *pstate, n int64, sym *byteSet) {
	s.rewrite(func(v *pv) *pv {
		switch v.k {
		case kPos:
			w := *v
			w.n -= n
			if w.n < 0 {
				switch {
				case v.n > 0 || m.rec == nil:
				case sym == nil:
					w.q = unknownPos
				default:
					w.q = m.rec.next(v.q, sym.sample())
				}
				if w.n < -1 {
					w.n = -1
				}
			}
			return &w
		case kRem:
			w := *v
			w.n -= n
			return &w
		}
		return v
	})
}

// ---- keys

func (m *machine) key(s *pstate) string {
	var sb strings.Builder
	objs, syms := map[int]int{}, map[int]int{}
	var order []int
	sym := func(i int) int {
		if n, ok := syms[i]; ok {
			return n
		}
		syms[i] = len(syms)
		fmt.Fprintf(&sb, "{%x}", s.syms[i])
		return syms[i]
	}
	var val func(v *pv)
	val = func(v *pv) {
		if v == nil {
			sb.WriteByte('_')
			return
		}
		fmt.Fprintf(&sb, "%c%d", 'A'+byte(v.k), v.n)
		switch v.k {
		case kPos:
			fmt.Fprintf(&sb, "q%d", v.q)
		case kByte:
			fmt.Fprintf(&sb, "s%d", sym(v.sym))
			set := s.syms[v.sym]
			for c := range 256 {
				if set.has(byte(c)) {
					fmt.Fprintf(&sb, ",%d", v.tab[c])
				}
			}
		case kPtr:
			n, ok := objs[v.obj]
			if !ok {
				n = len(objs)
				objs[v.obj] = n
				order = append(order, v.obj)
			}
			fmt.Fprintf(&sb, "o%d.%d", n, v.fld)
		case kClosure:
			sb.WriteString(v.fn.String())
		case kIface:
			sb.WriteString(v.T.String())
		}
		if v.s != "" {
			fmt.Fprintf(&sb, "%q", v.s)
		}
		if len(v.xs) > 0 {
			sb.WriteByte('(')
			for _, x := range v.xs {
				val(x)
			}
			sb.WriteByte(')')
		}
	}
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "|%p.%d.%d:", f.fn, f.block.Index, f.idx)
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			sb.WriteString(v.Name())
			val(f.env[v])
		}
		for _, v := range f.free {
			val(v)
		}
		for _, v := range f.defers {
			sb.WriteByte('!')
			val(v)
		}
	}
	if len(s.frames) > 0 && s.frames[0].hold != nil {
		val(s.frames[0].hold)
	}
	for i := 0; i < len(order); i++ {
		fmt.Fprintf(&sb, "|o%d:", i)
		for _, v := range s.heap[order[i]].fs {
			val(v)
		}
	}
	for k := range s.heap { // drop what nothing points to
		if _, ok := objs[k]; !ok {
			delete(s.heap, k)
		}
	}
	sb.WriteByte('|')
	for _, b := range s.buf {
		fmt.Fprintf(&sb, "b%d%s%v", sym(b.sym), b.name, b.tags)
	}
	for k := range s.syms {
		if _, ok := syms[k]; !ok {
			delete(s.syms, k)
		}
	}
	for _, k := range sortedKeys(s.marks) {
		fmt.Fprintf(&sb, "|%s=%d", k, s.marks[k])
	}
	fmt.Fprintf(&sb, "|%d,%d,%d,%v,%v,%v", s.end, s.src, s.spec, s.guess, s.bound, s.any)
	return sb.String()
}

// liveAfter lists the values that are used behind the instruction.
func (m *machine) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if l, ok := m.live[in]; ok {
		return l
	}
	fn := in.Parent()
	liveIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	uses := func(i ssa.Instruction, set map[ssa.Value]bool) {
		for _, o := range i.Operands(nil) {
			switch (*o).(type) {
			case ssa.Instruction, *ssa.Parameter, *ssa.FreeVar:
				set[*o] = true
			}
		}
	}
	flow := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		set := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range liveIn[s] {
				set[v] = true
			}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == b {
						switch ph.Edges[k].(type) {
						case ssa.Instruction, *ssa.Parameter, *ssa.FreeVar:
							set[ph.Edges[k]] = true
						}
					}
				}
			}
		}
		return set
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := flow(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					delete(set, v)
				}
				if _, ok := x.(*ssa.Phi); !ok {
					uses(x, set)
				}
			}
			if len(set) != len(liveIn[b]) {
				liveIn[b], changed = set, true
			}
		}
	}
	for _, b := range fn.Blocks {
		set := flow(b)
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			x := b.Instrs[j]
			after := map[ssa.Value]bool{}
			for v := range set {
				after[v] = true
			}
			m.live[x] = after
			if v, ok := x.(ssa.Value); ok {
				delete(set, v)
			}
			if _, ok := x.(*ssa.Phi); !ok {
				uses(x, set)
			}
		}
	}
	return m.live[in]
}

// prune forgets the values that are not used any more.
func (m *machine) prune(s *pstate) {
	for _, f := range s.frames {
		if f.idx == 0 {
			continue
		}
		l := m.liveAfter(f.block.Instrs[f.idx-1])
		for v := range f.env {
			if !l[v] {
				if in, ok := v.(ssa.Instruction); ok && in.Block() == f.block && in == f.block.Instrs[f.idx-1] {
					continue
				}
				delete(f.env, v)
			}
		}
	}
}

// ---- values

func (m *machine) val(s *pstate, v ssa.Value) *pv {
	f := s.top()
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := under(v.Type()).(*types.Struct); ok {
				return m.zeroOf(v.Type())
			}
			return m.zeroOf(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return pBool(constant.BoolVal(v.Value))
		case constant.String:
			return &pv{k: kStr, s: constant.StringVal(v.Value)}
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok {
				return pInt(n)
			}
		}
		return pTop
	case *ssa.Function:
		return &pv{k: kClosure, fn: v}
	case *ssa.FreeVar:
		for i, x := range f.fn.FreeVars {
			if x == v && i < len(f.free) {
				return f.free[i]
			}
		}
		return pTop
	case *ssa.Builtin:
		return pTop
	case *ssa.Global:
		return pRef
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return pTop
}

func (m *machine) zeroOf(t types.Type) *pv {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &pv{k: kStr}
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return pInt(0)
		}
		return pTop
	case *types.Struct:
		v := &pv{k: kStruct, T: t}
		for i := range u.NumFields() {
			v.xs = append(v.xs, m.zeroOf(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return pTop
	}
	return pNil
}

func (m *machine) alloc(s *pstate, t types.Type) *pv {
	s.nobj++
	id := s.nobj
	o := pobj{t: t}
	fld := 0
	switch u := under(t).(type) {
	case *types.Struct:
		for i := range u.NumFields() {
			o.fs = append(o.fs, m.zeroOf(u.Field(i).Type()))
		}
		fld = -1
		if m.isParser(t) {
			if s.any || s.mid {
				m.problems["a parser state is made while parsing"] = true
			}
			o.fs[m.fPos] = pPos(0)
		}
	case *types.Array:
		if u.Len() > 64 {
			return pRef
		}
		for range u.Len() {
			o.fs = append(o.fs, m.zeroOf(u.Elem()))
		}
		fld = -1
	default:
		o.fs = []*pv{m.zeroOf(t)}
	}
	s.heap[id] = o
	return &pv{k: kPtr, obj: id, fld: fld}
}

func pPos(n int64) *pv { return &pv{k: kPos, n: n} }

func (m *machine) isParser(t types.Type) bool {
	return m.parser != nil && types.Identical(under(t), m.parser)
}

func (m *machine) load(s *pstate, p *pv, t types.Type) *pv {
	if p.k != kPtr || p.obj <= 0 {
		return pTop
	}
	o := s.heap[p.obj]
	if p.fld < 0 {
		if _, ok := under(o.t).(*types.Struct); !ok {
			return pTop
		}
		return &pv{k: kStruct, T: o.t, xs: append([]*pv(nil), o.fs...)}
	}
	if p.fld < len(o.fs) {
		return o.fs[p.fld]
	}
	return pTop
}

// isCursor: p points to the position in the parser state.
func (m *machine) isCursor(s *pstate, p *pv) bool {
	return p.k == kPtr && p.obj > 0 && p.fld == m.fPos && m.isParser(s.heap[p.obj].t)
}

func isWhole(v *pv) bool { return v != nil && v.k == kText && v.s == "whole" }

var wholeText = &pv{k: kText, s: "whole"}

// first: the cursor is at the start of the text.
func (s *pstate) first() bool { return !s.any && !s.mid }
