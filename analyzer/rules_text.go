package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "T04", run: ruleT04,
		explanation: "The texts that the writers can print are extracted from their source by abstract interpretation: one regular expression for every kind of document, in which a container inside of another one is a named part. The parser is then interpreted over all texts of these expressions at once. Every end has to be without an error, behind the whole text, with a value of the kind that was printed, and with one element for every element that was printed.",
		assumptions: []string{
			"numbers are finite; fmt and strconv print numbers, booleans and quoted strings as documented",
			"prefix and indent of MarshalIndent consist of white space",
			"the depth of the document does not exceed the limit of the parser",
		}})
}

// writer collects what functions print for every kind of document.
type writer struct {
	c       *Ctx
	k       *kinds
	x       *explorer
	cx      *comp
	cells   map[string][]writing // by function
	fns     map[string]*ssa.Function
	open    map[string]bool
	found   int // how often there was a problem
	depth   int
	args    []*Term   // the parameters of the function that prints
	parts   []cellKey // the named parts
	keys    map[*Term]bool
	decodes bool // the parser builds strings character by character
	bulk    bool // and in other ways
}

type writing struct {
	kind  int
	pc    *Conj
	spans []span
	args  []*Term
}

func writers(c *Ctx, anyToo bool, name string) *writer {
	w := &writer{c: c, cells: map[string][]writing{}, fns: map[string]*ssa.Function{}, open: map[string]bool{}, keys: map[*Term]bool{}}
	x := c.explore("internal/tson", name)
	if x == nil {
		return nil
	}
	if anyToo {
		x.anyDoc = map[*ssa.Function]bool{}
		for _, q := range x.queue {
			c.anyFns(q.fn, x.anyDoc)
		}
		x.queue, x.seen = nil, map[string]bool{}
		for f := range x.anyDoc {
			if f.Object() != nil && f.Name() == name {
				x.entry(f)
			}
		}
	}
	w.x, w.cx = x, &comp{e: x.e}
	w.k = &kinds{c: c, x: x, cx: w.cx, docs: x.kinds, plain: map[*Term]bool{}}
	x.noDescent, x.noPanics = true, true
	x.outcomes = w.outcomes
	x.run()
	return w
}

func (w *writer) problem(f string, a ...any) {
	w.open[fmt.Sprintf(f, a...)] = true
	w.found++
}

func (w *writer) outcomes(cell exploreCell, args []*Term, outs []Outcome) {
	fn := cell.fn
	at := -1
	for i, n := range cell.kinds {
		if n >= 0 {
			at = i
		}
	}
	rs := fn.Signature.Results()
	if at < 0 || rs.Len() == 0 || !isText(rs.At(0).Type()) {
		return
	}
	name := fullName(fn)
	w.fns[name] = fn
	for _, o := range outs {
		for _, pc := range o.st.pc {
			last := o.results[len(o.results)-1]
			if len(o.results) > 1 && !last.isNil() {
				if last.op == OErr {
					continue
				}
				if v, known := pc.decide(w.x.in.Eq(last, w.x.in.Zero(last.typ))); known && !v {
					continue
				}
			}
			w.cells[name] = append(w.cells[name], writing{cell.kinds[at], pc, w.cx.spans(o.results[0]), args})
		}
	}
}

// stamps of a printed value.
const (
	stNone = iota
	stAbsent
	stPresent
)

// printedAs is what was printed for one value: the reader has to make the same.
type printedAs struct {
	kind  int
	stamp int
	val   int // bool: 0 or 1, otherwise -1
}

func (p printedAs) tag() string { return fmt.Sprintf("item %d %d %d", p.kind, p.stamp, p.val) }

func parseTag(s string) (p printedAs) {
	fmt.Sscanf(s, "item %d %d %d", &p.kind, &p.stamp, &p.val)
	return
}

// variant is one form of a text.
type variant struct {
	text *re
	as   printedAs
	some bool // prints a value of as.kind
}

// cellKey is a function that prints values of a kind, with what is known about
// its other arguments.
type cellKey struct {
	fn     string
	kind   int
	consts string
}

func (w *writer) white(t *Term, args []*Term, depth int) bool {
	if s, ok := t.constString(); ok {
		return strings.Trim(s, " \t\r\n") == ""
	}
	for _, a := range args {
		if a == t && isText(t.typ) {
			return true
		}
	}
	switch t.callName() {
	case "concat":
		for _, a := range t.args {
			if !w.white(a, args, depth) {
				return false
			}
		}
		return true
	case "strings.Repeat":
		return w.white(t.args[0], args, depth)
	}
	if t.op == OConvert && isText(t.args[0].typ) {
		return w.white(t.args[0], args, depth)
	}
	return false
}

var (
	reDigits = rPlus(rSet(byteRange('0', '9')))
	reWhole  = rAlt(rText("0"), rSeq(rSet(byteRange('1', '9')), rStar(rSet(byteRange('0', '9')))))
	reFloat  = rSeq(rOpt(rText("-")), reWhole, rOpt(rSeq(rText("."), reDigits)), rOpt(rSeq(rText("e"), rChars("+-"), rSet(byteRange('0', '9')), reDigits)))
	reFixed  = rSeq(rOpt(rText("-")), reWhole, rOpt(rSeq(rText("."), reDigits)))
	reHex    = rChars("0123456789abcdef")
	reWhite  = rStar(rChars(" \t\r\n"))
)

// what is printed for a character of a string.
const (
	chrPlain = 256 + iota // itself
	chrHex                // a byte
	chrRune               // a character, perhaps together with the next one
)

func chr(n int, x *re) *re { return rSeq(rTag(fmt.Sprintf("chr %d", n)), x) }

func quoted(plain byteSet, escapes string, more ...*re) *re {
	alts := append([]*re{chr(chrPlain, rSet(plain))}, more...)
	for i := 0; i < len(escapes); i++ {
		n := int(escapes[i])
		switch escapes[i] {
		case 'a':
			n = '\a'
		case 'b':
			n = '\b'
		case 'f':
			n = '\f'
		case 'n':
			n = '\n'
		case 'r':
			n = '\r'
		case 't':
			n = '\t'
		case 'v':
			n = '\v'
		}
		alts = append(alts, rSeq(rText(`\`), chr(n, rText(escapes[i:i+1]))))
	}
	return rSeq(rTag("string"), rText(`"`), rStar(rAlt(alts...)), rTag("end"), rText(`"`))
}

func goString() *re {
	return quoted(bytesIn("\"\\\x7f").or(byteRange(0, 0x1f)).not(), `abfnrtv\"`,
		rSeq(rText(`\`), chr(chrHex, rText("x")), reHex, reHex),
		rSeq(rText(`\`), chr(chrRune, rText("u")), reHex, reHex, reHex, reHex),
		rSeq(rText(`\`), chr(chrRune, rText("U")), reHex, reHex, reHex, reHex, reHex, reHex, reHex, reHex))
}

func jsonString() *re {
	return quoted(bytesIn("\"\\").or(byteRange(0, 0x1f)).not(), `bfnrt\"`,
		rSeq(rText(`\`), chr(chrRune, rText("u")), reHex, reHex, reHex, reHex))
}

// hole is the text that is printed in place of a term.
func (w *writer) hole(t *Term, pc *Conj, args []*Term) (vs []variant, ok bool) {
	one := func(x *re) ([]variant, bool) { return []variant{{text: x, as: printedAs{val: -1}}}, true }
	truth := func() ([]variant, bool) {
		return []variant{
			{text: rText("false"), as: printedAs{val: 0}},
			{text: rText("true"), as: printedAs{val: 1}}}, true
	}
	for t.op == OConvert && isText(t.typ) && isText(t.args[0].typ) {
		t = t.args[0]
	}
	if w.white(t, args, 0) {
		return one(reWhite)
	}
	basic := func(t *Term) types.BasicInfo {
		if b, ok := under(t.typ).(*types.Basic); ok {
			return b.Info()
		}
		return 0
	}
	if arg, _ := encoded(t); arg != nil && t.args[0].callName() == "encoding/json.Marshal" {
		for arg.op == OIface {
			arg = arg.args[0]
		}
		switch i := basic(arg); {
		case i&types.IsString != 0:
			return one(jsonString())
		case i&types.IsFloat != 0:
			return one(reFloat)
		case i&types.IsBoolean != 0:
			return truth()
		case i&types.IsInteger != 0:
			return one(rSeq(rOpt(rText("-")), reWhole))
		}
		return nil, false
	}
	switch name := t.callName(); name {
	case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic":
		return one(goString())
	case "decimal":
		v, known := pc.decide(w.x.in.Lt(t.args[0], w.x.in.Int(0)))
		x := reWhole
		if !known || v {
			x = rSeq(rOpt(rText("-")), reWhole)
		}
		return []variant{{text: x, as: printedAs{stamp: stPresent, val: -1}}}, true
	case "strconv.FormatBool":
		return truth()
	case "strconv.FormatFloat":
		if f, isC := t.args[1].constInt(); isC {
			if f == 'f' {
				return one(reFixed)
			}
			if f == 'g' || f == 'e' {
				return one(reFloat)
			}
			if f == 'G' || f == 'E' {
				return one(rSeq(reFixed, rOpt(rSeq(rText("E"), rChars("+-"), reDigits))))
			}
		}
	case "fmt:%v", "fmt:%g", "fmt:%e", "fmt:%f", "fmt:%t":
		a := t.args[0]
		for a.op == OIface {
			a = a.args[0]
		}
		switch i := basic(a); {
		case i&types.IsFloat != 0 && name != "fmt:%t":
			if name == "fmt:%f" {
				return one(reFixed)
			}
			return one(reFloat)
		case i&types.IsBoolean != 0 && (name == "fmt:%t" || name == "fmt:%v"):
			return truth()
		}
	}
	// another call for a value
	if t.op == OExtract && t.aux == "0" || t.op == OCall {
		call := t
		if t.op == OExtract {
			call = t.args[0]
		}
		return w.calls(call, pc)
	}
	if isString(t.typ) && (t.op == OField || t.op == OLoop && t.aux == "key" || w.keys[t]) {
		return one(rStar(rSet(anyByte))) // anything
	}
	return nil, false
}

// calls: the text of a value is printed by another function.
func (w *writer) calls(call *Term, pc *Conj) (vs []variant, ok bool) {
	var fn *ssa.Function
	if call.op == OCall {
		fn = w.fns[call.callName()]
	}
	if fn == nil {
		return nil, false
	}
	child, consts := (*Term)(nil), ""
	for i, p := range fn.Params {
		if i >= len(call.args) {
			return nil, false
		}
		a := call.args[i]
		if _, isI := under(p.Type()).(*types.Interface); isI && child == nil {
			for a.op == OIface {
				a = a.args[0]
			}
			child = a
			continue
		}
		if n, isC := a.constInt(); isC {
			consts += fmt.Sprintf("%d=%d;", i, n)
		} else if isText(p.Type()) && !w.white(a, w.args, 0) {
			w.problem("what %s is given as white space is not known: %s", fn.Name(), brief(a))
		}
	}
	if child == nil {
		return nil, false
	}
	for i, k := range w.x.kinds {
		as := w.x.e.docAs(k, w.x.iface, child)
		if pc.withAll(as.lits) == nil {
			continue
		}
		key := cellKey{fullName(fn), i, consts}
		if k.obj || k.arr {
			x := rName(w.named(key))
			x.set = w.firsts(key)
			vs = append(vs, variant{text: x, as: printedAs{kind: i, val: -1}, some: true})
			continue
		}
		vs = append(vs, w.text(key)...)
	}
	return vs, true
}

func (w *writer) named(key cellKey) string {
	n := w.x.kinds[key.kind].name
	for i, k := range w.parts {
		if k == key {
			return fmt.Sprintf("%s%d", n, i)
		}
	}
	w.parts = append(w.parts, key)
	return fmt.Sprintf("%s%d", n, len(w.parts)-1)
}

// firsts are the bytes that a text may start with.
func (w *writer) firsts(key cellKey) (s byteSet) {
	for _, x := range w.matching(key) {
		if len(x.spans) > 0 && x.spans[0].text != "" {
			s.add(x.spans[0].text[0])
		} else {
			w.problem("what %s starts the text of an %s with is not known", key.fn, w.x.kinds[key.kind].name)
		}
	}
	return
}

// matching lists what the function prints for the kind.
func (w *writer) matching(key cellKey) (out []writing) {
	for _, x := range w.cells[key.fn] {
		if x.kind != key.kind {
			continue
		}
		pc := x.pc
		for _, c := range strings.Split(key.consts, ";") {
			var i int
			var n int64
			if k, _ := fmt.Sscanf(c, "%d=%d", &i, &n); k == 2 && pc != nil {
				pc = pc.with(w.x.in.Eq(x.args[i], w.x.in.Const(x.args[i].typ, constant.MakeInt64(n))), true)
			}
		}
		if pc != nil {
			x.pc = pc
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		w.problem("what %s prints for %s is not found", key.fn, w.x.kinds[key.kind].name)
	}
	return
}

// text lists the forms of the text for a kind of value.
func (w *writer) text(key cellKey) (out []variant) {
	if w.depth > 20 {
		w.problem("the functions that print are nested too deeply")
		return nil
	}
	w.depth++
	defer func() { w.depth-- }()
	k := w.x.kinds[key.kind]
	for _, x := range w.matching(key) {
		old := w.args
		w.args = x.args
		for _, v := range w.expand(x.spans, x.pc) {
			v.as.kind, v.some = key.kind, true
			if k.leaf && v.as.stamp == stNone {
				v.as.stamp = stAbsent
			}
			out = append(out, v)
		}
		w.args = old
	}
	return
}

// expand lists the forms of a sequence of spans.
func (w *writer) expand(ss []span, pc *Conj) []variant {
	out := []variant{{text: rSeq(), as: printedAs{val: -1}}}
	for _, s := range ss {
		var vs []variant
		switch {
		case s.list != nil:
			vs = []variant{{text: w.list(s.list), as: printedAs{val: -1}}}
		case s.hole != nil:
			var ok bool
			if vs, ok = w.hole(s.hole, pc, w.args); !ok {
				w.problem("how %s is printed is not known", brief(s.hole))
				return nil
			}
		default:
			vs = []variant{{text: rText(s.text), as: printedAs{val: -1}}}
		}
		var next []variant
		for _, a := range out {
			for _, b := range vs {
				n := variant{text: rSeq(a.text, b.text), as: a.as, some: a.some || b.some}
				if b.some {
					n.as.kind = b.as.kind
				}
				n.as.stamp = max(a.as.stamp, b.as.stamp)
				n.as.val = max(a.as.val, b.as.val)
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

// list is the text of the elements of a container.
func (w *writer) list(l *textList) *re {
	if l.why != "" {
		w.problem("%s", l.why)
		return rSeq()
	}
	var first, rest [][]*re
	if l.kind == "keys" {
		w.keys[l.v] = true
	}
	for _, a := range l.alts {
		if a.pos == 0 && l.sep == "" && l.at.callName() != "strings.Join" {
			w.problem("whether a text is printed for the first element is not known")
			return rSeq()
		}
		for _, v := range w.expand(a.spans, a.pc) {
			x := v.text
			if !v.some { // a value that is printed in place
				kinds := w.inPlace(l, a.pc)
				if len(kinds) != 1 {
					w.problem("which kind of value is printed is not known")
					continue
				}
				v.as.kind = kinds[0]
			}
			if k := w.x.kinds[v.as.kind]; k.leaf && v.as.stamp == stNone {
				v.as.stamp = stAbsent
			}
			as := x.atoms()
			for n := len(as) - 1; n >= 0; n-- { // before the end: nothing can be read from it earlier
				if !as[n].nullable() {
					as = slices.Insert(slices.Clone(as), n, rTag(v.as.tag()))
					break
				}
			}
			if a.pos != 2 {
				first = append(first, as)
			}
			if a.pos != 1 {
				rest = append(rest, as)
			}
		}
	}
	if l.at.callName() == "strings.Join" {
		return rOpt(rSeq(rFactor(first), rStar(rSeq(rText(l.sep), rFactor(first)))))
	}
	return rOpt(rSeq(rFactor(first), rStar(rFactor(rest))))
}

// inPlace: which kinds the element of the list may have.
func (w *writer) inPlace(l *textList, pc *Conj) (out []int) {
	in := w.x.in
	var child *Term
	for _, lit := range pc.lits {
		lit.atom.contains(func(t *Term) bool {
			if t.typ != nil && types.Identical(t.typ, w.x.iface) && t.contains(func(s *Term) bool { return s == l.v }) && child == nil {
				child = t
			}
			return false
		})
	}
	_ = in
	if child == nil {
		return nil
	}
	for i, k := range w.x.kinds {
		as := w.x.e.docAs(k, w.x.iface, child)
		if pc.withAll(as.lits) != nil {
			out = append(out, i)
		}
	}
	return
}

func ruleT04(c *Ctx) {
	for _, name := range []string{"Marshal", "MarshalIndent"} {
		w := writers(c, name == "MarshalIndent", name)
		if w == nil {
			continue
		}
		w.readBack(name)
	}
	c.atLeast("read", 12)
}

// readBack follows the parser over everything that the function prints.
func (w *writer) readBack(name string) {
	c := w.c
	g := findGrammar(c)
	if g == nil {
		return
	}
	entry := c.p.fn("internal/tson", name)
	// what the state of the parser holds when a value is read
	probe := g.machine(newSource(nil), nil)
	probe.onReturn = func(*pstate, []*pv) {}
	probe.onPanic = func(*pstate, ssa.Instruction, string) {}
	g.runEntry(probe)
	for i := range w.x.kinds {
		w.check(g, cellKey{fullName(entry), i, ""}, true, name)
	}
	for i := 0; i < len(w.parts); i++ {
		w.check(g, w.parts[i], false, name)
	}
	for _, p := range sortedKeys(w.open) {
		c.undecided("read", name, "-", "%s", p)
	}
}

func (w *writer) check(g *grammar, key cellKey, whole bool, name string) {
	c := w.c
	kind := w.x.kinds[key.kind]
	open := w.found
	vs := w.text(key)
	if w.found > open || len(vs) == 0 {
		return
	}
	what := kind.name
	if !whole {
		what += " inside"
	}
	byAs := map[printedAs][]*re{}
	for _, v := range vs {
		byAs[v.as] = append(byAs[v.as], v.text)
	}
	var order []printedAs
	for as := range byAs {
		order = append(order, as)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].tag() < order[j].tag() })
	states, ends := 0, 0
	var fs, lost []parseFault
	clean := true
	for _, as := range order {
		text := rAlt(byAs[as]...)
		if !whole {
			text = rSeq(text, rOpt(rSeq(rTag("done"), reWhite, rTag("behind"), rChars(",]}"))))
		}
		m := g.machine(newSource(text), nil)
		m.libOK, m.zero = true, true
		m.cut = func(st *pstate, fn *ssa.Function) bool {
			return fn == g.head && len(st.buf) > 0 && st.buf[0].name != ""
		}
		m.parts = map[string]*pv{}
		for i, k := range w.parts {
			n := w.x.kinds[k.kind]
			m.parts[fmt.Sprintf("%s%d", n.name, i)] = &pv{k: kIface, T: n.T, xs: []*pv{{k: kRef}}}
		}
		fault := func(st *pstate, in ssa.Instruction, f string, a ...any) {
			fs = append(fs, parseFault{c.p.where(in), in.Parent().Name(), fmt.Sprintf(f, a...), st.guess})
		}
		m.onPanic = func(st *pstate, in ssa.Instruction, why string) {
			fault(st, in, "%s prints %s for a document, and reading it %s", name, printable(st.word()), why)
		}
		lose := func(st *pstate) {
			in := st.top().block.Instrs[min(st.top().idx, len(st.top().block.Instrs)-1)]
			lost = append(lost, parseFault{c.p.where(in), in.Parent().Name(), fmt.Sprintf("%s prints %s, and a character of it is lost", name, printable(st.word())), st.guess})
		}
		m.onSlice = func(st *pstate) {
			if st.marks["after"] != 0 || st.marks["string"] != 0 && st.marks["chr"] <= 1+chrPlain {
				w.bulk = true
			}
		}
		m.onByte = func(st *pstate, in ssa.Instruction, v *pv, utf8 bool) {
			if st.marks["string"] == 0 {
				return
			}
			w.decodes = true
			n := st.marks["chr"] - 1
			if n >= 0 {
				st.marks["chr"] = 0
			}
			wrong := func(f string, a ...any) {
				fs = append(fs, parseFault{c.p.where(in), in.Parent().Name(), fmt.Sprintf("%s prints %s, where %s", name, printable(st.word()), fmt.Sprintf(f, a...)), st.guess})
			}
			switch {
			case n < 0:
				wrong("a character is read that was not printed")
			case n >= chrHex:
				if v.k == kInt {
					wrong("an escape is read as %q", rune(v.n))
				}
			case v.k == kInt && n < 256:
				if v.n != int64(n) {
					wrong("%q is read as %q", rune(n), rune(v.n))
				}
			case v.k == kByte:
				var last *histNode
				for last = st.hist; last != nil && !last.use; last = last.prev {
				}
				for b := range 256 {
					if !st.syms[v.sym].has(byte(b)) {
						continue
					}
					want := int64(n)
					if n == chrPlain {
						want = int64(b)
						if last == nil || last.sym != v.sym {
							w.bulk = true
							return
						}
					}
					if v.tab[b] != want {
						wrong("%q is read as %q", byte(want), byte(v.tab[b]))
						return
					}
					if utf8 && want >= 0x80 {
						wrong("the byte %#x is read as two", want)
						return
					}
				}
			default:
				w.bulk = true
			}
		}
		m.onTag = func(st *pstate, tag string) {
			switch tag {
			case "done", "behind":
				st.marks[tag] = 1
				return
			case "string":
				st.marks["string"] = 1
				return
			case "end":
				if n := st.marks["chr"]; n != 0 && n <= 1+chrHex {
					lose(st)
				}
				st.marks["after"] = 1
				delete(st.marks, "string")
				delete(st.marks, "chr")
				return
			}
			var n int
			if k, _ := fmt.Sscanf(tag, "chr %d", &n); k == 1 {
				if n := st.marks["chr"]; n != 0 && n <= 1+chrHex {
					lose(st)
				}
				st.marks["chr"] = 1 + n
				return
			}
			if n := st.marks["item"]; n != 0 {
				st.marks["lost"] = n
			}
			p := parseTag(tag)
			st.marks["item"] = 1 + p.kind*100 + p.stamp*10 + p.val + 1
		}
		m.onUpdate = func(st *pstate, in ssa.Instruction, v *pv) {
			var t types.Type
			switch in := in.(type) {
			case *ssa.MapUpdate:
				t = in.Value.Type()
			case *ssa.Call:
				t = in.Type().Underlying().(*types.Slice).Elem()
			}
			if !types.Identical(t, w.x.iface) {
				return
			}
			n := st.marks["item"]
			if n == 0 {
				fault(st, in, "behind %s, a value is added to the document that %s did not print", printable(st.word()), name)
				return
			}
			n--
			st.marks["item"] = 0
			w.same(st, v, printedAs{n / 100, n / 10 % 10, n%10 - 1}, func(f string, a ...any) {
				fault(st, in, "%s prints %s, where %s", name, printable(st.word()), fmt.Sprintf(f, a...))
			}, m, in)
		}
		fn := g.head
		if whole {
			fn = g.entry
		}
		m.onReturn = func(st *pstate, res []*pv) {
			ends++
			e := errOf(res, fn)
			switch {
			case e == nil:
				m.problems["the function returns no error"] = true
				return
			case e.k == kTop:
				m.problems[c.p.where(st.last)+": whether an error is returned is not known"] = true
				return
			case e.k != kNil:
				fault(st, st.last, "%s prints a text for a document that starts with %s, and the parser rejects it", name, printable(st.word()))
				return
			}
			if n := st.marks["lost"]; n != 0 || st.marks["item"] != 0 {
				fault(st, st.last, "%s prints %s, of which an element is lost", name, printable(st.word()))
				return
			}
			v := st.hold
			if whole {
				for _, t := range m.look(st, 0) {
					if t.end == noEnd || len(t.buf) > 0 {
						fault(t, st.last, "%s prints %s for a document, of which only a part is read", name, printable(t.word()))
					}
				}
			} else {
				for i := range res {
					if !isErrorType(fn.Signature.Results().At(i).Type()) {
						v = res[i]
					}
				}
				if st.marks["behind"] != 0 {
					fault(st, st.last, "%s prints %s for an %s, and more than that is read", name, printable(st.word()), kind.name)
					return
				}
				if st.marks["done"] == 0 {
					for _, t := range m.look(st, 0) {
						if t.end != noEnd && len(t.buf) == 0 || len(t.buf) > 0 && slices.Contains(t.buf[0].tags, "done") {
							continue
						}
						fault(t, st.last, "%s prints %s for an %s, of which only a part is read", name, printable(t.word()), kind.name)
					}
				}
			}
			w.same(st, v, as, func(f string, a ...any) {
				fault(st, st.last, "%s prints %s, where %s", name, printable(st.word()), fmt.Sprintf(f, a...))
			}, m, st.last)
		}
		if whole {
			g.runEntry(m)
		} else {
			g.runHead(m)
		}
		states += len(m.nodes)
		for f := range m.fns {
			c.analysed[f.String()] = true
		}
		for _, p := range sortedKeys(m.problems) {
			w.problem("%s: %s", what, p)
			clean = false
		}
	}
	if w.decodes && !w.bulk {
		fs = append(fs, lost...)
	}
	g.faults("read", fs)
	if clean && len(fs) == 0 {
		if ends == 0 {
			w.problem("no end is found for %s", what)
			return
		}
		c.ok("read", fmt.Sprintf("%s %s: %d forms, %d states, %d ends", name, what, len(vs), states, ends))
	}
}

// same: the value that is read is what was printed.
func (w *writer) same(st *pstate, v *pv, as printedAs, bad func(f string, a ...any), m *machine, in ssa.Instruction) {
	k := w.x.kinds[as.kind]
	unknown := func() {
		m.problems[c0(m, in)+": what is read for "+k.name+" is not known"] = true
	}
	if v == nil {
		unknown()
		return
	}
	if k.T == nil {
		switch v.k {
		case kNil:
		case kIface:
			bad("null is read as another value")
		default:
			unknown()
		}
		return
	}
	switch v.k {
	case kNil:
		bad("%s is read as null", k.name)
		return
	case kIface:
	default:
		unknown()
		return
	}
	if !types.Identical(v.T, k.T) {
		bad("%s is read as %s", k.name, types.TypeString(v.T, func(p *types.Package) string { return p.Name() }))
		return
	}
	if !k.leaf {
		return
	}
	s := v.xs[0]
	if s.k != kStruct || len(s.xs) <= max(k.vi, k.ti) {
		unknown()
		return
	}
	ts, val := s.xs[k.ti], s.xs[k.vi]
	switch as.stamp {
	case stPresent:
		switch {
		case ts.k == kTok && ts.s == "ts":
		case ts.k == kInt:
			bad("the timestamp is read as %d", ts.n)
		case ts.k == kTok:
			bad("the timestamp is not what was printed as it")
		default:
			unknown()
		}
	default:
		switch {
		case ts.k == kInt && ts.n < 0:
		case ts.k == kInt:
			bad("no timestamp is read as %d", ts.n)
		case ts.k == kTok:
			bad("a timestamp is read that was not printed")
		default:
			unknown()
		}
	}
	switch {
	case as.val >= 0:
		if val.k == kInt && val.n != int64(as.val) {
			bad("a boolean is read as its opposite")
		} else if val.k != kInt {
			unknown()
		}
	case isNumeric(k.bt):
		if val.k == kInt || val.k == kTok && val.s != "num" {
			bad("the number is not what was printed as it")
		} else if val.k != kTok {
			unknown()
		}
	}
}

func c0(m *machine, in ssa.Instruction) string { return m.p.where(in) }
