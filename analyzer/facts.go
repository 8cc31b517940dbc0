package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

// Lit is an atom with its truth value.
type Lit struct {
	atom *Term
	val  bool
}

func (l Lit) String() string {
	if l.val {
		return l.atom.String()
	}
	return "!" + l.atom.String()
}

// Conj is an immutable conjunction of literals with its deductive closure.
type Conj struct {
	lits []Lit // sorted by atom id
	key  string
	in   *Interner
	f    *facts
}

func (in *Interner) newConj(lits []Lit) *Conj {
	sort.Slice(lits, func(i, j int) bool { return lits[i].atom.id < lits[j].atom.id })
	var sb strings.Builder
	for _, l := range lits {
		if l.val {
			fmt.Fprintf(&sb, "+%d", l.atom.id)
		} else {
			fmt.Fprintf(&sb, "-%d", l.atom.id)
		}
	}
	return &Conj{lits: lits, key: sb.String(), in: in}
}

func (c *Conj) String() string {
	s := make([]string, len(c.lits))
	for i, l := range c.lits {
		s[i] = l.String()
	}
	return strings.Join(s, " && ")
}

func (c *Conj) get(atom *Term) (val, ok bool) {
	i := sort.Search(len(c.lits), func(i int) bool { return c.lits[i].atom.id >= atom.id })
	if i < len(c.lits) && c.lits[i].atom == atom {
		return c.lits[i].val, true
	}
	return false, false
}

// with returns c && (t == val), or nil if that is contradictory.
func (c *Conj) with(t *Term, val bool) *Conj {
	for t.op == ONot {
		t, val = t.args[0], !val
	}
	if b, ok := t.constBool(); ok {
		if b == val {
			return c
		}
		return nil
	}
	if v, known := c.decide(t); known {
		if v == val {
			// keep the literal only if it is not implied syntactically
			return c
		}
		return nil
	}
	lits := make([]Lit, len(c.lits), len(c.lits)+1)
	copy(lits, c.lits)
	lits = append(lits, Lit{t, val})
	n := c.in.newConj(lits)
	if n.facts().bad {
		return nil
	}
	return n
}

type edge struct {
	to *Term
	w  float64
}

// facts is the deductive closure of a conjunction: a difference-bound graph,
// dynamic types of interface values, and equalities.
type facts struct {
	in    *Interner
	edges map[*Term][]edge // edges[a] has (b,w): b <= a + w
	typ   map[*Term]types.Type
	neg   map[*Term][]types.Type
	same  map[*Term]*Term // union-find of equal dynamic types
	eqc   map[*Term]*Term // term equal to a constant
	eqs   [][2]*Term
	neqs  [][2]*Term
	bad   bool
	done  map[*Term]bool
	dist  map[*Term]map[*Term]float64
	zero  *Term
}

// closedKinds lists, for an interface type closed by an unexported method,
// the dynamic types that occur (set up by the loader).
var closedKinds typeutil.Map

func (in *Interner) kindsOf(t *Term) []types.Type {
	if t.typ == nil {
		return nil
	}
	if ks := closedKinds.At(t.typ); ks != nil {
		return ks.([]types.Type)
	}
	return nil
}

func (f *facts) find(t *Term) *Term {
	for f.same[t] != nil && f.same[t] != t {
		t = f.same[t]
	}
	return t
}

func (c *Conj) facts() *facts {
	if c.f != nil {
		return c.f
	}
	f := &facts{in: c.in, edges: map[*Term][]edge{}, typ: map[*Term]types.Type{}, neg: map[*Term][]types.Type{},
		same: map[*Term]*Term{}, eqc: map[*Term]*Term{}, done: map[*Term]bool{}, dist: map[*Term]map[*Term]float64{}}
	f.zero = c.in.Int(0)
	c.f = f
	for _, l := range c.lits { // equal dynamic types first
		if l.val && l.atom.op == OEq && l.atom.args[0].op == OTypeOf && l.atom.args[1].op == OTypeOf {
			a, b := f.find(l.atom.args[0].args[0]), f.find(l.atom.args[1].args[0])
			if a != b {
				f.same[a] = b
			}
		}
	}
	setType := func(t *Term, T types.Type) {
		r := f.find(t)
		if old, ok := f.typ[r]; ok && !types.Identical(old, T) {
			f.bad = true
		}
		f.typ[r] = T
	}
	nilType := types.Typ[types.UntypedNil]
	for _, l := range c.lits {
		a := l.atom
		switch a.op {
		case OTypeIs:
			T := a.obj.(types.Type)
			if l.val {
				if !isIface(T) {
					setType(a.args[0], T)
				}
			} else {
				r := f.find(a.args[0])
				f.neg[r] = append(f.neg[r], T)
			}
		case OEq:
			x, y := a.args[0], a.args[1]
			if y.isNil() && !x.isNil() {
				if l.val {
					setType(x, nilType)
				} else {
					r := f.find(x)
					f.neg[r] = append(f.neg[r], nilType)
				}
				continue
			}
			if l.val {
				if y.op == OConst && y.cv != nil {
					if o, ok := f.eqc[x]; ok && o != y {
						f.bad = true
					}
					f.eqc[x] = y
				}
				f.eqs = append(f.eqs, [2]*Term{x, y})
				f.le(x, y, 0)
				f.le(y, x, 0)
			} else {
				f.neqs = append(f.neqs, [2]*Term{x, y})
			}
		case OLt:
			x, y := a.args[0], a.args[1]
			if l.val {
				f.le(x, y, strict(x))
			} else {
				f.le(y, x, 0)
			}
		}
	}
	// bounds that depend on the other literals
	for round := 0; round < 2; round++ {
		var again []*Term
		for t := range f.done {
			if t.op == OBin {
				again = append(again, t)
			}
		}
		for _, t := range again {
			delete(f.done, t)
		}
		for _, t := range again {
			f.implicit(t)
		}
	}
	// boxes have known types
	for r := range f.same {
		if r.op == OIface {
			setType(r, r.obj.(types.Type))
		}
	}
	for r, T := range f.typ {
		for _, n := range f.neg[r] {
			if types.Identical(n, T) {
				f.bad = true
			}
		}
	}
	// closed interfaces: one kind left
	for r, ns := range f.neg {
		if _, ok := f.typ[r]; ok {
			continue
		}
		kinds := c.in.kindsOf(r)
		if kinds == nil {
			continue
		}
		var left []types.Type
		for _, k := range append([]types.Type{nilType}, kinds...) {
			ex := false
			for _, n := range ns {
				if types.Identical(n, k) {
					ex = true
				}
			}
			if !ex {
				left = append(left, k)
			}
		}
		if len(left) == 0 {
			f.bad = true
		} else if len(left) == 1 {
			f.typ[r] = left[0]
		}
	}
	if f.bad {
		return f
	}
	// disequalities sharpen bounds
	for i := 0; i < 4; i++ {
		changed := false
		for _, n := range f.neqs {
			x, y := n[0], n[1]
			if !isIntTerm(x) || !isIntTerm(y) {
				continue
			}
			if d := f.bound(x, y); d == 0 {
				f.le(x, y, -1)
				changed = true
			}
			if d := f.bound(y, x); d == 0 {
				f.le(y, x, -1)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// negative cycle?
	for t := range f.edges {
		if f.bound(t, t) < 0 {
			f.bad = true
			return f
		}
	}
	return f
}

func strict(x *Term) float64 {
	if isIntTerm(x) {
		return -1
	}
	return -1e-7
}

// le records x <= y + w.
func (f *facts) le(x, y *Term, w float64) {
	xb, xk := f.node(x)
	yb, yk := f.node(y)
	if xb == nil || yb == nil {
		return
	}
	f.edges[yb] = append(f.edges[yb], edge{xb, w + yk - xk})
	f.dist = map[*Term]map[*Term]float64{}
}

// node splits t into a graph node and a constant offset, and adds the facts
// that hold for the node by construction.
func (f *facts) node(t *Term) (*Term, float64) {
	if t.op == OConst {
		if t.cv == nil {
			return nil, 0
		}
		if v, ok := constFloat(t); ok {
			return f.zero, v
		}
		return t, 0
	}
	b, k := splitAddK(t)
	f.implicit(b)
	return b, float64(k)
}

func (f *facts) implicit(b *Term) {
	if f.done[b] {
		return
	}
	f.done[b] = true
	add := func(x, y *Term, w float64) { f.le(x, y, w) }
	switch b.op {
	case OLen:
		add(f.zero, b, 0)
		if c := b.args[0]; c.op == OUnbox || c.op == OField {
		}
	case OBin:
		switch b.aux {
		case "-":
			// x - y: known when y is bounded by a constant
			if d := f.bound(b.args[1], f.zero); !math.IsInf(d, 1) { // y <= d
				add(b.args[0], b, d) // x - d <= b
			}
			if d := f.bound(f.zero, b.args[1]); !math.IsInf(d, 1) { // 0 <= y + d
				add(b, b.args[0], d) // b <= x + d
			}
			// x >= y  =>  b >= 0
			if d := f.bound(b.args[1], b.args[0]); !math.IsInf(d, 1) { // y <= x + d
				add(f.zero, b, d) // 0 <= b + d
			}
		case "+":
			for i := 0; i < 2; i++ {
				x, y := b.args[i], b.args[1-i]
				if d := f.bound(f.zero, y); !math.IsInf(d, 1) { // y >= -d
					add(x, b, d) // x <= b + d
				}
				if d := f.bound(y, f.zero); !math.IsInf(d, 1) { // y <= d
					add(b, x, d)
				}
			}
		case "&":
			add(f.zero, b, 0)
		case "%":
			if n, ok := b.args[1].constInt(); ok && n > 0 {
				add(b, f.zero, float64(n-1))
				if isUnsigned(b.typ) {
					add(f.zero, b, 0)
				} else if d := f.bound(f.zero, b.args[0]); d <= 0 {
					add(f.zero, b, 0)
				}
			}
		}
	case OConvert:
		if isInteger(b.typ) && isInteger(b.args[0].typ) && b.aux == "widen" {
			add(b, b.args[0], 0)
			add(b.args[0], b, 0)
		}
	case OLoop:
		if b.aux == "idx" {
			add(f.zero, b, 0)
		}
	}
	if b.typ != nil && isUnsigned(b.typ) && b.op != OBin && b.op != OAddK {
		add(f.zero, b, 0)
		if bt, ok := under(b.typ).(*types.Basic); ok && bt.Kind() == types.Uint8 {
			add(b, f.zero, 255)
		}
	}
}

func floatVal(v constant.Value) float64 {
	x, _ := constant.Float64Val(constant.ToFloat(v))
	return x
}

func constFloat(t *Term) (float64, bool) {
	if t.cv == nil {
		return 0, false
	}
	switch t.cv.Kind() {
	case constant.Int, constant.Float:
		return floatVal(t.cv), true
	}
	return 0, false
}

// bound returns the least known w with x <= y + w (+Inf if none).
func (f *facts) bound(x, y *Term) float64 {
	xb, xk := f.node(x)
	yb, yk := f.node(y)
	if xb == nil || yb == nil {
		return math.Inf(1)
	}
	d, ok := f.dist[yb]
	if !ok {
		d = map[*Term]float64{}
		// Bellman-Ford from yb
		cur := map[*Term]float64{yb: 0}
		for round := 0; round < 64 && len(cur) > 0; round++ {
			next := map[*Term]float64{}
			for a, da := range cur {
				for _, e := range f.edges[a] {
					v := da + e.w
					if o, ok := d[e.to]; !ok || v < o {
						d[e.to] = v
						if n, ok := next[e.to]; !ok || v < n {
							next[e.to] = v
						}
					}
				}
			}
			cur = next
		}
		f.dist[yb] = d
	}
	w, ok := d[xb]
	if xb == yb && (!ok || w > 0) {
		w, ok = 0, true
	}
	if !ok {
		return math.Inf(1)
	}
	return w + xk - yk
}

// decide evaluates the atom t under c.
func (c *Conj) decide(t *Term) (val, known bool) {
	if t.op == ONot {
		v, ok := c.decide(t.args[0])
		return !v, ok
	}
	if b, ok := t.constBool(); ok {
		return b, true
	}
	if v, ok := c.get(t); ok {
		return v, true
	}
	f := c.facts()
	nilType := types.Typ[types.UntypedNil]
	switch t.op {
	case OTypeIs:
		T := t.obj.(types.Type)
		r := f.find(t.args[0])
		if k, ok := f.typ[r]; ok {
			if k == nilType {
				return false, true
			}
			if it, ok := under(T).(*types.Interface); ok {
				return types.Implements(k, it), true
			}
			return types.Identical(k, T), true
		}
		for _, n := range f.neg[r] {
			if types.Identical(n, T) {
				return false, true
			}
		}
		if kinds := c.in.kindsOf(t.args[0]); kinds != nil && !isIface(T) {
			found := false
			for _, k := range kinds {
				found = found || types.Identical(k, T)
			}
			if !found {
				return false, true
			}
		}
	case OHas:
		// a key with a non-zero value is present
	case OEq:
		x, y := t.args[0], t.args[1]
		if y.isNil() {
			r := f.find(x)
			if k, ok := f.typ[r]; ok {
				return k == nilType, true
			}
			for _, n := range f.neg[r] {
				if n == nilType {
					return false, true
				}
			}
			for _, l := range c.lits {
				if l.val && l.atom.op == OTypeIs && f.find(l.atom.args[0]) == r {
					return false, true
				}
			}
			return false, false
		}
		if x.op == OTypeOf && y.op == OTypeOf {
			a, b := f.find(x.args[0]), f.find(y.args[0])
			if a == b {
				return true, true
			}
			ta, ok1 := f.dyn(a)
			tb, ok2 := f.dyn(b)
			if ok1 && ok2 {
				return types.Identical(ta, tb), true
			}
			if ok1 || ok2 {
				k, r := ta, b
				if ok2 {
					k, r = tb, a
				}
				for _, n := range f.neg[r] {
					if types.Identical(n, k) {
						return false, true
					}
				}
			}
			return false, false
		}
		if x.op == OIface && y.op == OIface {
			return false, false
		}
		cx, cy := x, y
		if k, ok := f.eqc[x]; ok {
			cx = k
		}
		if k, ok := f.eqc[y]; ok {
			cy = k
		}
		if (cx != x || cy != y) && cx.op == OConst && cy.op == OConst {
			if cx == cy {
				return true, true
			}
			if cx.cv != nil && cy.cv != nil {
				return false, true
			}
		}
		for _, n := range f.neqs {
			if n[0] == x && n[1] == y || n[0] == y && n[1] == x {
				return false, true
			}
		}
		if comparableOrder(x) && comparableOrder(y) {
			a, b := f.bound(x, y), f.bound(y, x)
			if a < 0 || b < 0 {
				return false, true
			}
			if a == 0 && b == 0 {
				return true, true
			}
		}
		// strings of different lengths differ
		if s, ok := y.constString(); ok && s != "" {
			l := c.in.Len(x)
			n := c.in.Int(int64(len(s)))
			if f.bound(l, n) < 0 || f.bound(n, l) < 0 {
				return false, true
			}
		}
		if eqv := f.equiv(x, y); eqv {
			return true, true
		}
	case OLt:
		x, y := t.args[0], t.args[1]
		if f.bound(x, y) < 0 {
			return true, true
		}
		if f.bound(y, x) <= 0 {
			return false, true
		}
	}
	return false, false
}

// equiv follows the recorded equalities.
func (f *facts) equiv(x, y *Term) bool {
	seen := map[*Term]bool{x: true}
	work := []*Term{x}
	for len(work) > 0 {
		a := work[0]
		work = work[1:]
		if a == y {
			return true
		}
		for _, e := range f.eqs {
			for i := 0; i < 2; i++ {
				if e[i] == a && !seen[e[1-i]] {
					seen[e[1-i]] = true
					work = append(work, e[1-i])
				}
			}
		}
	}
	return false
}

func comparableOrder(t *Term) bool {
	b, ok := under(t.typ).(*types.Basic)
	return t.typ != nil && ok && b.Info()&types.IsOrdered != 0
}

func (f *facts) dyn(t *Term) (types.Type, bool) {
	if t.isNil() {
		return types.Typ[types.UntypedNil], true
	}
	if t.op == OIface {
		return t.obj.(types.Type), true
	}
	k, ok := f.typ[f.find(t)]
	return k, ok
}

// DNF is a disjunction of conjunctions.
type DNF []*Conj

func (d DNF) String() string {
	s := make([]string, len(d))
	for i, c := range d {
		s[i] = "(" + c.String() + ")"
	}
	return strings.Join(s, " || ")
}

const maxDisjuncts = 48

// join merges two disjunctions; complementary conjunctions collapse.
func (in *Interner) join(a, b DNF, limit int) (DNF, bool) {
	seen := map[string]bool{}
	var out DNF
	for _, c := range append(append(DNF{}, a...), b...) {
		if !seen[c.key] {
			seen[c.key] = true
			out = append(out, c)
		}
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(out); i++ {
			for j := 0; j < len(out); j++ {
				if i == j {
					continue
				}
				if m := in.combine(out[i], out[j]); m != nil {
					var rest DNF
					for k, c := range out {
						if k != i && k != j {
							rest = append(rest, c)
						}
					}
					out = append(rest, m)
					changed = true
					break outer
				}
			}
		}
	}
	approx := false
	for len(out) > limit {
		// weaken: keep only the common literals of the two closest
		approx = true
		bi, bj, best := 0, 1, -1
		for i := range out {
			for j := i + 1; j < len(out); j++ {
				if n := len(common(out[i], out[j])); n > best {
					bi, bj, best = i, j, n
				}
			}
			if len(out) > 64 {
				break
			}
		}
		m := in.newConj(common(out[bi], out[bj]))
		var rest DNF
		for k, c := range out {
			if k != bi && k != bj {
				rest = append(rest, c)
			}
		}
		out = append(rest, m)
	}
	return out, approx
}

func common(a, b *Conj) []Lit {
	var out []Lit
	for _, l := range a.lits {
		if v, ok := b.get(l.atom); ok && v == l.val {
			out = append(out, l)
		}
	}
	return out
}

// combine returns a conjunction equivalent to a || b if there is an obvious one.
func (in *Interner) combine(a, b *Conj) *Conj {
	if len(a.lits) > len(b.lits) {
		return nil
	}
	var diff *Lit
	for i := range a.lits {
		l := a.lits[i]
		v, ok := b.get(l.atom)
		if !ok {
			return nil
		}
		if v != l.val {
			if diff != nil {
				return nil
			}
			diff = &a.lits[i]
		}
	}
	if diff == nil { // a is implied by b
		return a
	}
	// a = x && R, b = !x && R && S: with S empty they are R
	if len(a.lits) != len(b.lits) {
		return nil
	}
	var lits []Lit
	for _, l := range a.lits {
		if l.atom != diff.atom {
			lits = append(lits, l)
		}
	}
	return in.newConj(lits)
}
