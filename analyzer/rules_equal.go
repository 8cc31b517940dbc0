package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T10: comparing documents is exact.

// recordExt remembers what a call without a model was given.
func (e *Eval) recordExt(fr *Frame, st *State, name string, args []*Term, instr ssa.Instruction) {
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = e.deepContent(st, a)
	}
	mark := func(t *Term) *Term { return e.in.mk(OFieldPtr, nil, "0", nil, tBool, t) }
	switch name {
	case "(*encoding/json.Decoder).UseNumber":
		st.heap[mark(args[0])] = e.in.Bool(true)
	case "(*encoding/json.Decoder).Decode":
		if st.heap[mark(args[0])] == e.in.Bool(true) {
			as = append(as, mark(args[0]))
		}
	}
	e.extArgs[name+"@"+e.allocName(fr, instr)] = as
}

type chain struct {
	steps []string // from the document to the value that is compared
	param *Term
	exact bool // numbers are not rounded
}

func (ch *chain) String() string {
	return strings.Join(append([]string{ch.param.aux}, ch.steps...), " > ")
}

// chainOf follows how t was made from a parameter.
func chainOf(e *Eval, t *Term) *chain {
	step := func(a *Term, name string) *chain {
		c := chainOf(e, a)
		if c != nil {
			c.steps = append(c.steps, name[strings.LastIndex(name, "/")+1:])
		}
		return c
	}
	switch t.op {
	case OSym:
		return &chain{param: t, exact: true}
	case OIface, OConvert, OUnbox:
		return chainOf(e, t.args[0])
	case OExtract:
		if t.aux == "0" && t.args[0].op == OCall {
			return chainOf(e, t.args[0])
		}
	case OCall:
		if len(t.args) != 1 {
			return nil
		}
		return step(t.args[0], t.callName())
	case OUnknown:
		name := t.aux
		if strings.HasPrefix(name, "out") {
			name = name[strings.Index(name, ":")+1:]
		}
		as := e.extArgs[name]
		if len(as) == 0 {
			return nil
		}
		n := name[:strings.Index(name, "@")]
		switch n {
		case "encoding/json.Unmarshal":
			c := step(as[0], n)
			if c != nil && !strings.HasSuffix(c.steps[0], "ToJsonBytes") {
				c.exact = false
			}
			return c
		case "(*encoding/json.Decoder).Decode":
			c := chainOf(e, as[0])
			if c != nil {
				c.steps = append(c.steps, "Decode")
				if len(as) < 3 && !strings.HasSuffix(c.steps[0], "ToJsonBytes") {
					c.exact = false
				}
			}
			return c
		case "encoding/json.NewDecoder", "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
			return chainOf(e, as[0])
		}
	}
	return nil
}

func ruleT10(c *Ctx) {
	c.equality("Equal", true)
	c.equality("EqualWithoutTimestamp", false)
	c.encodedLeaf()
	c.atLeast("compared", 2)
}

// withTimestamps: does the conversion keep the timestamps?
func withTimestamps(step string) (keeps, known bool) {
	n := step[strings.LastIndex(step, ".")+1:]
	switch n {
	case "ToCompatibleTsonBytes", "ToCompatibleTsonBytesSorted", "ToCompatibleTsonString", "Marshal", "Clone":
		return true, strings.Contains(step, "tson.") || strings.HasPrefix(step, "json.")
	case "ToJsonBytes":
		return false, true
	}
	return false, false
}

func (c *Ctx) equality(name string, stamps bool) {
	fn := c.p.fn(pkgTson, name)
	if fn == nil {
		c.undecided("anchor", name, "-", "the function is not found")
		return
	}
	at := c.p.pos(fn.Pos())
	c.analysed[fn.String()] = true
	e := newEval(c.p)
	e.extArgs = map[string][]*Term{}
	e.unroll = true
	e.opaque = func(f *ssa.Function) bool {
		pk := fnPkg(f)
		if pk == nil || !strings.HasSuffix(pk.Pkg.Path(), "/tson") || f == fn {
			return false
		}
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() == 0 {
			return false
		}
		return types.Identical(under(f.Signature.Params().At(0).Type()), under(fn.Params[0].Type()))
	}
	args := e.paramSyms(fn)
	outs := e.root(fn, args)
	for _, f := range e.entered() {
		c.analysed[f] = true
	}
	if len(args) != 2 || len(outs) == 0 || len(outs[0].results) != 2 || e.approx > 0 || len(e.problems) > 0 {
		c.undecided("anchor", name, at, "the function is not understood: %v", sortedKeys(e.problems))
		return
	}
	in := e.in
	m := &logFn{c: c, e: e, in: in, fn: fn, name: name}
	for _, o := range outs {
		res, er := o.results[0], o.results[1]
		if b, ok := res.constBool(); ok {
			nilErr := er.isNil() || m.always(o, in.Eq(er, in.Zero(er.typ)), true)
			switch {
			case !b && !nilErr:
				c.ok("outcome", name+": a failure is not an answer")
			case b && nilErr && selected(e, o, stamps, true):
				c.ok("compared", name+": yes if they are the same")
			case !b && nilErr && selected(e, o, stamps, false):
				c.ok("compared", name+": no if they are not the same")
			case nilErr && (!comparesIn(o) || b && onlySizes(o)):
				c.bad("outcome", name, at, "the answer is %v where %s", b, clip(o.st.pc.String(), 200))
			default:
				c.undecided("outcome", name, at, "the answer is %v where %s", b, clip(o.st.pc.String(), 200))
			}
			continue
		}
		x, y, ok := comparedPair(res)
		if !ok {
			c.undecided("compared", name, at, "the answer is %s", clip(res.String(), 200))
			continue
		}
		what, why := pairOf(e, x, y, stamps)
		switch {
		case what != "":
			c.ok("compared", name+": "+what)
		case strings.HasPrefix(why, "?"):
			c.undecided("compared", name, at, "%s", why[1:])
		default:
			c.bad("compared", name, at, "%s", why)
		}
	}
}

// pairOf: the documents are the same exactly if x and y are; or why they are not
// (not known, with a question mark).
func pairOf(e *Eval, x, y *Term, stamps bool) (what, why string) {
	a, b := chainOf(e, x), chainOf(e, y)
	if a == nil || b == nil {
		return "", fmt.Sprintf("?it is not followed how %s and %s are made", clip(x.String(), 100), clip(y.String(), 100))
	}
	switch {
	case a.param == b.param:
		return "", fmt.Sprintf("the document %s is compared with itself", a.param)
	case strings.Join(a.steps, ">") != strings.Join(b.steps, ">"):
		return "", fmt.Sprintf("the documents are not converted in the same way: %s and %s", a, b)
	case !a.exact || !b.exact:
		return "", fmt.Sprintf("timestamps are rounded to floating point before they are compared: %s", a)
	}
	keeps := true
	if len(a.steps) > 0 {
		known := false
		if keeps, known = withTimestamps(a.steps[0]); !known {
			return "", fmt.Sprintf("?the documents are compared as %s", a)
		}
	}
	if keeps != stamps {
		return "", fmt.Sprintf("the documents are compared as %s, which %s", a, map[bool]string{true: "keeps the timestamps", false: "has no timestamps"}[keeps])
	}
	return fmt.Sprintf("%s and %s", a, b), ""
}

// comparedPair: the answer is that two values are the same.
func comparedPair(t *Term) (a, b *Term, ok bool) {
	if t.op == OExtract && t.args[0].op == OCall {
		t = t.args[0]
	}
	if t.op == OCall && len(t.args) == 2 {
		switch t.callName() {
		case "reflect.DeepEqual", "bytes.Equal":
			return t.args[0], t.args[1], true
		}
	}
	if t.op == OEq {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

// selected: the outcome is for documents that a comparison found the same (or not).
func selected(e *Eval, o Outcome, stamps, same bool) bool {
	for _, pc := range o.st.pc {
		found := false
		for _, l := range pc.lits {
			if x, y, ok := comparedPair(l.atom); ok && l.val == same && !x.isNil() && !y.isNil() {
				what, _ := pairOf(e, x, y, stamps)
				found = found || what != ""
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// comparesIn: some comparison selects the outcome.
func comparesIn(o Outcome) bool {
	for _, pc := range o.st.pc {
		for _, l := range pc.lits {
			if x, y, ok := comparedPair(l.atom); ok && !x.isNil() && !y.isNil() {
				return true
			}
		}
	}
	return false
}

// onlySizes: the outcome is selected by lengths only.
func onlySizes(o Outcome) bool {
	for _, pc := range o.st.pc {
		for _, l := range pc.lits {
			a := l.atom
			if a.op != OEq && a.op != OLt {
				return false
			}
			for _, s := range a.args {
				t := s
				if r, _ := splitAddK(s); r != nil {
					t = r
				}
				if t.op != OLen && t.op != OConst && !(a.op == OEq && (a.args[0].isNil() || a.args[1].isNil())) {
					return false
				}
			}
		}
	}
	return true
}

// encodedLeaf: different leaves have different encodings.
func (c *Ctx) encodedLeaf() {
	n := 0
	for _, k := range leafKinds() {
		st := structType(k)
		name := types.TypeString(k, func(p *types.Package) string { return p.Name() })
		good := true
		seen := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			F := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			as, opts, _ := strings.Cut(tag, ",")
			if as == "" {
				as = F.Name()
			}
			switch {
			case tag == "-" || !F.Exported():
				c.bad("encoding", name+"."+F.Name(), c.p.pos(F.Pos()), "%s is not part of the encoded leaf, so leaves that differ in it compare equal", F.Name())
				good = false
			case strings.Contains(opts, "omit"):
				c.bad("encoding", name+"."+F.Name(), c.p.pos(F.Pos()), "%s is left out of the encoded leaf for some values", F.Name())
				good = false
			case seen[as]:
				c.bad("encoding", name+"."+F.Name(), c.p.pos(F.Pos()), "two fields are encoded as %q", as)
				good = false
			}
			seen[as] = true
		}
		for _, mn := range []string{"MarshalJSON", "MarshalText"} {
			if obj, _, _ := types.LookupFieldOrMethod(k, true, nil, mn); obj != nil {
				c.undecided("encoding", name, c.p.pos(obj.Pos()), "it encodes itself")
				good = false
			}
		}
		if good {
			n++
			c.ok("encoding", name+": value and timestamp are encoded")
		}
	}
	c.check(n >= 1 || len(c.findings) > 0, "self-check", "leaf kinds", "-", "no kind of leaf was found")
}

func init() {
	register(&Rule{id: "T10", run: ruleT10,
		explanation: "abstract interpretation of the two comparisons: each answer is the identity of two values that are made from the two documents by the same chain of conversions, with (or without) timestamps and without rounding; an answer without an error is never fixed",
		assumptions: []string{"documents have finite numbers and valid text", "conversions keep every key, position and value (T09) and encoding/json decodes what it encodes", "reflect.DeepEqual compares decoded JSON values exactly"}})
}
