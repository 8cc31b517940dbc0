package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "T09", run: ruleT09,
		explanation: "Abstract interpretation of the functions that clone documents and convert them to and from JSON, once for each kind of value: what an iteration over the members of an object stores is stored under that member's own key, what an iteration over the elements of an array stores is stored at that element's own index of a list of the same length (or appended to an empty list in ascending order), the list or object that the loop builds is the result, and the value of a leaf is passed on without arithmetic, conversion or string function.",
		assumptions: []string{
			"encoding/json encodes and decodes maps, slices, structs and numbers faithfully",
			"the text forms are the subject of T04, T07 and N01",
		}})
}

func ruleT09(c *Ctx) {
	k := &kinds{c: c, place: true}
	n := traversals(c, k)
	n += readers(c, k)
	readPlaces(c)
	c.atLeast("place", n-k.passed)
}

// A pass is what is known about how a value is passed on.
type pass int

const (
	same    pass = iota // it is the value
	altered             // it is made of the value
	strange             // not known
)

// faithful: t is src, up to the type that it is wrapped in.
func (k *kinds) faithful(t, src *Term, pc *Conj) pass {
	has := func(t *Term) bool { return t.contains(func(u *Term) bool { return u == src }) }
	switch {
	case t == src:
		return same
	case t.op == OConst && isBool(src.typ) && isBool(t.typ):
		if v, known := pc.decide(src); known {
			if n, ok := t.constBool(); ok && n == v {
				return same
			}
		}
		return altered
	}
	switch t.op {
	case OIface, OUnbox:
		return k.faithful(t.args[0], src, pc)
	case OConvert:
		a, ok1 := under(t.typ).(*types.Basic)
		b, ok2 := under(t.args[0].typ).(*types.Basic)
		if ok1 && ok2 && a.Kind() == b.Kind() {
			return k.faithful(t.args[0], src, pc)
		}
		if ok1 && ok2 && has(t) {
			return altered
		}
	case OExtract:
		return k.faithful(t.args[0], src, pc)
	case OCall:
		if !has(t) {
			return strange
		}
		n := t.callName()
		if n == "concat" {
			for _, a := range t.args {
				if s, ok := a.constString(); ok && s != "" || has(a) && k.faithful(a, src, pc) == altered && a.op == OCall {
					return altered
				}
			}
			return strange
		}
		switch {
		case n == "(encoding/json.Number).Float64" || n == "(encoding/json.Number).String" || n == "strings.Clone",
			n == "strconv.ParseFloat" && len(t.args) == 2:
			if n == "strconv.ParseFloat" {
				if b, ok := t.args[1].constInt(); ok && b != 64 {
					return altered
				}
			}
			return k.faithful(t.args[0], src, pc)
		case strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "math."), strings.HasPrefix(n, "strconv."),
			strings.HasPrefix(n, "(encoding/json.Number)."), strings.HasPrefix(n, "unicode"):
			return altered
		}
	case OBin, OUn, OAddK, ONot, OSliceOf:
		if has(t) {
			return altered
		}
	}
	return strange
}

// encodedText: t is the text of a value; whole is false if the text does not
// determine the value.
func encodedText(t *Term) (of *Term, whole bool) {
	for t.op == OConvert && isText(t.typ) && isText(t.args[0].typ) {
		t = t.args[0]
	}
	if arg, _ := encoded(t); arg != nil {
		return arg, true
	}
	if t.op == OExtract {
		t = t.args[0]
	}
	switch t.callName() {
	case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic", "fmt:%q", "fmt:%v", "fmt:%g", "strconv.FormatBool", "fmt:%t", "fmt:%+q":
		return t.args[0], true
	case "strconv.FormatFloat":
		prec, ok1 := t.args[2].constInt()
		bits, ok2 := t.args[3].constInt()
		if ok1 && ok2 {
			return t.args[0], prec == -1 && bits == 64
		}
	case "strconv.AppendQuote", "strconv.AppendFloat":
		return nil, false
	}
	if strings.HasPrefix(t.callName(), "fmt:%") && len(t.args) == 1 {
		return t.args[0], false
	}
	return nil, false
}

// own: a call of a function of the repository that is given the value.
func (k *kinds) handedOn(t *Term, src ...*Term) bool {
	for t.op == OIface || t.op == OExtract || t.op == OConvert {
		t = t.args[0]
	}
	if t.op != OCall {
		return false
	}
	i, ok := t.obj.(*CallInfo)
	if pk := fnPkg(k.x.cur.fn); !ok || pk == nil || !strings.HasPrefix(i.name, pk.Pkg.Path()+".") {
		return false
	}
	for _, a := range t.args {
		for a.op == OIface || a.op == OUnbox {
			a = a.args[0]
		}
		for _, s := range src {
			if s != nil && (a == s || s.op == OIface && a == s.args[0]) {
				return true
			}
		}
	}
	return false
}

// keeps judges what t makes of the value src of a leaf or JSON value.
func (k *kinds) keeps(t, src *Term, pc *Conj, what string) {
	switch k.faithful(t, src, pc) {
	case altered:
		k.judge(pc, "the value of %s becomes %s under %s", what, brief(t), brief(pc))
	case strange:
		if t.contains(func(u *Term) bool { return u == src }) {
			k.undecided("whether %s is the value of %s is not known", brief(t), what)
		}
	}
}

// scalar judges the result t for the leaf or JSON value d.
func (k *kinds) scalar(d docCell, t *Term, pc *Conj, heaps []map[*Term]*Term, what string) {
	src := d.val
	if src == nil {
		src = d.v
	}
	if src == nil {
		return
	}
	k.each(heaps, func(t *Term) bool {
		if t == src || t == d.t || t == d.v || k.handedOn(t, d.t, d.v) {
			return false
		}
		switch {
		case t.op == OStruct && k.docOf(t.typ) != nil:
			k.keeps(t.args[k.docOf(t.typ).vi], src, pc, what)
			return false
		case t.op == OInsert:
			if s, ok := t.args[1].constString(); ok && s == "value" {
				k.keeps(t.args[2], src, pc, what)
			}
			return true
		case t.op == OCall && t.callName() == "encoding/json.Marshal", t.op == OExtract, t.op == OIface, t.op == OAlloc:
			return true
		}
		if of, whole := encodedText(t); of != nil && of.contains(func(u *Term) bool { return u == src }) {
			if !whole {
				k.judge(pc, "the text %s does not determine the value of %s", brief(t), what)
			} else {
				k.keeps(of, src, pc, what)
			}
			return false
		}
		if t.op == OCall && t.callName() == "concat" {
			return true
		}
		if t.op != OConst && isBasicValue(t) {
			k.keeps(t, src, pc, what)
			return false
		}
		return true
	}, t)
}

func isBasicValue(t *Term) bool {
	if t.typ == nil {
		return false
	}
	_, ok := under(t.typ).(*types.Basic)
	return ok
}

func (k *kinds) docOf(t types.Type) *docKind {
	for i, q := range k.docs {
		if q.leaf && t != nil && types.Identical(q.T, t) {
			return &k.docs[i]
		}
	}
	return nil
}

// puts judges what an iteration that is about child adds to what a loop
// builds.
func (k *kinds) puts(d docCell, L *Loop, child *Term, cd docCell, known bool, acc, next *Term, init *Term, step int64, pc *Conj, heaps []map[*Term]*Term) {
	own := child.args[1]
	what := "an element of the " + d.k.name
	show := func() string { return brief(pc) }
	value := func(v *Term) {
		if known && (cd.k.leaf || k.number != nil && cd.k.T != nil && !cd.k.obj && !cd.k.arr) {
			k.scalar(cd, v, pc, heaps, what)
			return
		}
		for v.op == OIface || v.op == OUnbox {
			v = v.args[0]
		}
		var before *Term // what a copy of the container has in its place
		if init == child.args[0] && acc != init {
			before = k.x.in.mk(child.op, child.typ, "", nil, nil, acc, own)
		}
		if v == child || v == before || k.handedOn(v, child, cd.t, cd.v, before) || known && cd.k.T == nil {
			return
		}
		if v.isNil() {
			k.judge(pc, "%s becomes null under %s", what, show())
			return
		}
		other := (*Term)(nil)
		v.contains(func(u *Term) bool {
			if (u.op == OElem || u.op == OLookup) && u.args[0] == child.args[0] && u.args[1] != own {
				other = u
			}
			return false
		})
		if other != nil && linear(other.args[1], own) {
			k.judge(pc, "%s is what %s becomes under %s", brief(other), what, show())
			return
		}
		if k.place && known && (cd.k.obj || cd.k.arr) && k.emptyChild(cd, pc) {
			return
		}
		k.undecided("what %s becomes is not known: %s", what, brief(v))
	}
	stored := 0
	for n := next; n != acc; {
		switch {
		case n.op == OInsert && isText(n.args[1].typ):
			stored++
			if n.args[1] != own {
				if k.faithful(n.args[1], own, pc) == altered || n.args[1].op == OConst {
					k.judge(pc, "%s is stored under %s instead of its own key under %s", what, brief(n.args[1]), show())
				} else if k.faithful(n.args[1], own, pc) == strange {
					k.undecided("whether %s is the key of %s is not known", brief(n.args[1]), what)
				}
			}
			value(n.args[2])
			n = n.args[0]
		case n.op == OStoreElem:
			stored++
			if n.args[1] != own {
				switch counts, skip := k.counter(n.args[1], L); {
				case counts && skip == nil:
				case counts:
					k.judge(skip, "%s is stored at %s, which stays as it is under %s, instead of its own index", what, brief(n.args[1]), brief(skip))
				case linear(n.args[1], own):
					k.judge(pc, "%s is stored at %s instead of its own index under %s", what, brief(n.args[1]), show())
				default:
					k.undecided("whether %s is the index of %s is not known", brief(n.args[1]), what)
				}
			}
			value(n.args[2])
			n = n.args[0]
		case n.op == OAppend && n.args[0] == acc && n.args[1].op == OSliceLit && len(n.args[1].args) == 1:
			stored++
			switch {
			case d.k.obj:
				// a list of texts
			case step != 1:
				k.judge(pc, "%s is appended in another order", what)
			case init.op == OMake && isZeroInt(init.args[0]), init.op == OSliceLit && len(init.args) == 0, init.isNil():
			case init.op == OMake:
				k.judge(pc, "%s is appended behind the elements of %s", what, brief(init))
			}
			if isText(n.args[1].args[0].typ) {
				k.printed(d, own, child, cd, known, n.args[1].args[0], pc, what)
			} else {
				value(n.args[1].args[0])
			}
			n = acc
		case n.op == OAppend && n.args[1] == acc && d.k.arr:
			k.judge(pc, "%s is put in front of those before", what)
			return
		case n.callName() == "concat":
			if len(n.args) > 0 && n.args[0] == acc {
				if d.k.arr && step != 1 {
					k.judge(pc, "%s is printed in another order", what)
				}
				k.printed(d, own, child, cd, known, n, pc, what)
			} else if len(n.args) > 0 && n.args[len(n.args)-1] == acc && d.k.arr {
				k.judge(pc, "%s is printed in front of those before", what)
			}
			return
		default:
			if t := acc.typ; t != nil {
				switch under(t).(type) {
				case *types.Map, *types.Slice:
					k.undecided("what is stored for %s is not known: %s", what, brief(n))
				}
			}
			return
		}
		if stored > 4 {
			break
		}
	}
	if stored > 1 {
		k.undecided("%s is stored more than once", what)
	}
}

// counter: t counts the iterations of L from 0, except those of skip.
func (k *kinds) counter(t *Term, L *Loop) (counts bool, skip *Conj) {
	of, init, next := carried(k.x.in, t)
	if of != L || init == nil || !isZeroInt(init) {
		return false, nil
	}
	for _, c := range L.conts {
		switch next(c) {
		case t:
			if skip == nil && len(c.pc) > 0 {
				skip = c.pc[0]
			}
		case k.x.in.AddK(t, 1):
			counts = true
		default:
			return false, nil
		}
	}
	return
}

// linear: t differs from the index in a known way.
func linear(t, own *Term) bool {
	return !t.contains(func(u *Term) bool { return u.op == OCall || u.op == OUnknown || u.op == OLoop && u != own })
}

// printed judges the text that an iteration adds.
func (k *kinds) printed(d docCell, own, child *Term, cd docCell, known bool, t *Term, pc *Conj, what string) {
	k.each(nil, func(t *Term) bool {
		if t == own || t == child || k.handedOn(t, child, cd.t, cd.v) {
			return false
		}
		if t.op == OLoop || t.op == OConst {
			return false
		}
		if t.callName() == "concat" || t.op == OExtract || t.op == OConvert {
			return true
		}
		of, whole := encodedText(t)
		if of == nil {
			return true
		}
		has := func(s *Term) bool {
			return s != nil && of.contains(func(u *Term) bool { return u == s })
		}
		switch {
		case has(cd.val) && known:
			if !whole {
				k.judge(pc, "the text %s does not determine the value of %s", brief(t), what)
			} else {
				k.keeps(of, cd.val, pc, what)
			}
		case has(child):
		case d.k.obj && has(own):
			if !whole || k.faithful(of, own, pc) == altered {
				k.judge(pc, "the key of %s is printed as %s", what, brief(t))
			} else if k.faithful(of, own, pc) == strange {
				k.undecided("whether %s is the key of %s is not known", brief(t), what)
			}
		}
		return false
	}, t)
}

// builds judges what becomes of what the loop L has built.
func (k *kinds) builds(acc *Term, t *Term, pc *Conj, heaps []map[*Term]*Term, what string) {
	for {
		switch {
		case t == acc:
			return
		case t.op == OIface || t.op == OConvert && !isBasicValue(t):
			t = t.args[0]
			continue
		case t.op == OExtract && t.args[0].callName() == "encoding/json.Marshal":
			t = t.args[0].args[0]
			continue
		}
		next := (*Term)(nil)
		for _, h := range heaps {
			if next == nil {
				next = h[t]
			}
		}
		if next == nil {
			break
		}
		t = next
	}
	if !t.contains(func(u *Term) bool { return u == acc }) {
		return
	}
	switch t.op {
	case OSliceOf, OAppend, OInsert, ODelete, OStoreElem, OSorted:
		k.judge(pc, "what is built of the %s is changed at the end: %s", what, brief(t))
	}
}

// inPlaceOf judges what a function that changes a container in place stores
// for the element child, which is a leaf with the value val, if anything.
func (k *kinds) inPlaceOf(d docCell, child, val, n *Term, pc *Conj) {
	what := "an element of the " + d.k.name
	own := child.args[1]
	if n.args[1] != own {
		if p := k.faithful(n.args[1], own, pc); p == altered || isInteger(own.typ) && linear(n.args[1], own) {
			k.judge(pc, "%s is replaced at %s instead of its own place under %s", what, brief(n.args[1]), brief(pc))
		} else {
			k.undecided("whether %s is the place of %s is not known", brief(n.args[1]), what)
		}
	}
	if n.args[2].contains(func(u *Term) bool { return u == val }) {
		k.keeps(n.args[2], val, pc, what)
	} else {
		k.undecided("what %s becomes is not known: %s", what, brief(n.args[2]))
	}
}

// readPlaces: the parser stores what it reads under the key that it has read,
// behind the elements before it, and as the value that it has read.
func readPlaces(c *Ctx) {
	g := findGrammar(c)
	if g == nil {
		return
	}
	_, docs := docKinds()
	kindOf := func(t types.Type) *docKind {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		for i, q := range docs {
			if q.T != nil && types.Identical(q.T, t) {
				return &docs[i]
			}
		}
		return nil
	}
	n := 0
	for _, fn := range c.below(g.entry) {
		c.analysed[fullName(fn)] = true
		name := fn.Name()
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				where := c.p.where(in)
				text := func(v ssa.Value, what string) {
					n++
					how, call := alteredText(c, fn, v, 0, map[ssa.Value]bool{})
					switch how {
					case altered:
						c.bad("place", name, where, "%s is not the text that was read: it goes through %s", what, call)
					case strange:
						c.undecided("place", name, where, "whether %s is the text that was read is not known: %s", what, call)
					default:
						c.ok("place", name+" "+what)
					}
				}
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if q := kindOf(in.Map.Type()); q != nil && q.obj {
						text(in.Key, "the key of a member")
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					q := kindOf(fa.X.Type())
					if q == nil || !q.leaf || fa.Field != q.vi {
						continue
					}
					if isString(q.bt) {
						text(in.Val, "the value of a string")
					}
				case *ssa.Convert:
					if narrowsFloat(in) {
						c.bad("place", name, where, "a number that was read is converted to %s", in.Type())
					}
				case *ssa.Call:
					com := in.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						q := kindOf(in.Type())
						if q == nil || !q.arr {
							continue
						}
						n++
						if isNewList(com.Args[0]) && !isNewList(com.Args[1]) {
							c.bad("place", name, where, "an element is put in front of those before")
						} else {
							c.ok("place", name+" the index of an element")
						}
						continue
					}
					f := com.StaticCallee()
					if f == nil {
						continue
					}
					full := fullName(f)
					if o := f.Origin(); o != nil {
						full = fullName(o)
					}
					switch {
					case full == "strconv.ParseFloat":
						n++
						if bits, ok := com.Args[1].(*ssa.Const); ok && bits.Value != nil && bits.Value.ExactString() == "32" {
							c.bad("place", name, where, "a number is read with 32 bits")
						} else {
							c.ok("place", name+" numbers")
						}
					case strings.HasPrefix(full, "math.") && isFloat64(in.Type()):
						switch full {
						case "math.Inf", "math.NaN", "math.Float64frombits", "math.Abs", "math.Copysign":
						default:
							c.bad("place", name, where, "a number that was read goes through %s", full)
						}
					case full == "slices.Reverse" || full == "slices.Insert" || strings.HasPrefix(full, "slices.Sort"), strings.HasPrefix(full, "sort."):
						for _, a := range com.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if q := kindOf(a.Type()); q != nil && q.arr {
								if full == "slices.Insert" {
									c.undecided("place", name, where, "an element is inserted")
								} else {
									c.bad("place", name, where, "the elements are moved by %s", full)
								}
							}
						}
					}
				}
			}
		}
	}
	if n == 0 {
		c.undecided("place", "parser", c.p.pos(g.entry.Pos()), "no place where the parser stores anything is found")
	}
}

func isFloat64(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Float64
}

func narrowsFloat(in *ssa.Convert) bool {
	b, ok := under(in.Type()).(*types.Basic)
	return ok && isFloat64(in.X.Type()) && b.Info()&types.IsNumeric != 0 && b.Kind() != types.Float64
}

// isNewList: v is a list that is written out, as for variadic arguments.
func isNewList(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	p, ok := under(a.Type()).(*types.Pointer)
	if !ok {
		return false
	}
	arr, ok := under(p.Elem()).(*types.Array)
	return ok && arr.Len() > 0
}

// alteredText: whether v, in fn, is the text that a function of the parser has
// read.
func alteredText(c *Ctx, fn *ssa.Function, v ssa.Value, depth int, seen map[ssa.Value]bool) (pass, string) {
	if seen[v] || depth > 12 {
		return same, ""
	}
	seen[v] = true
	all := func(vs []ssa.Value) (pass, string) {
		r, how := same, ""
		for _, e := range vs {
			p, h := alteredText(c, fn, e, depth+1, seen)
			if p == altered {
				return p, h
			}
			if p == strange {
				r, how = p, h
			}
		}
		return r, how
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return same, ""
	case *ssa.Phi:
		return all(v.Edges)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			return alteredCall(c, fn, call, v.Index, depth, seen)
		}
		return alteredText(c, fn, v.Tuple, depth+1, seen)
	case *ssa.Call:
		return alteredCall(c, fn, v, 0, depth, seen)
	case *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.ChangeInterface:
		var ops []*ssa.Value
		ops = v.(ssa.Instruction).Operands(ops)
		if cv, ok := v.(*ssa.Convert); ok && !isString(cv.X.Type()) {
			if call, ok := cv.X.(*ssa.Call); ok {
				return alteredCall(c, fn, call, 0, depth, seen)
			}
			return same, "" // of the bytes that were read
		}
		return alteredText(c, fn, *ops[0], depth+1, seen)
	case *ssa.Slice:
		if isString(v.X.Type()) && readElsewhere(c, v.X, 0) {
			return altered, "a part of it"
		}
		return same, ""
	case *ssa.BinOp:
		if readElsewhere(c, v.X, 0) || readElsewhere(c, v.Y, 0) {
			return altered, "an addition"
		}
		return same, ""
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			var vs []ssa.Value
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					vs = append(vs, s.Val)
				}
			}
			return all(vs)
		}
		return same, ""
	}
	return same, ""
}

// readElsewhere: v is a text that another function of the parser has read.
func readElsewhere(c *Ctx, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if readElsewhere(c, e, depth+1) {
				return true
			}
		}
	case *ssa.Extract:
		return readElsewhere(c, v.Tuple, depth+1)
	case *ssa.Slice:
		return isString(v.X.Type()) && readElsewhere(c, v.X, depth+1)
	case *ssa.BinOp:
		return readElsewhere(c, v.X, depth+1) || readElsewhere(c, v.Y, depth+1)
	case *ssa.Call:
		f := v.Common().StaticCallee()
		return f != nil && c.p.inRepo(f) && f.Signature.Results().Len() > 0 && isString(f.Signature.Results().At(0).Type())
	}
	return false
}

func alteredCall(c *Ctx, fn *ssa.Function, call *ssa.Call, idx, depth int, seen map[ssa.Value]bool) (pass, string) {
	f := call.Common().StaticCallee()
	if f == nil {
		return same, ""
	}
	if c.p.inRepo(f) {
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if p, how := alteredText(c, f, r.Results[idx], depth+1, seen); p != same {
					return p, how
				}
			}
		}
		// what it passes on
		for _, a := range call.Common().Args {
			if isString(a.Type()) {
				if p, how := alteredText(c, fn, a, depth+1, seen); p != same {
					return p, how
				}
			}
		}
		return same, ""
	}
	name := fullName(f)
	switch name {
	case "strings.Clone", "bytes.Clone", "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "strconv.Unquote", "unique.Make":
		return same, ""
	}
	for _, p := range []string{"strings.Trim", "strings.To", "strings.Replace", "strings.Title", "strings.Map", "strings.Join", "bytes.Trim", "bytes.To", "bytes.Replace", "strconv.Quote", "path.", "net/url.", "html."} {
		if strings.HasPrefix(name, p) {
			return altered, name
		}
	}
	return strange, name
}
