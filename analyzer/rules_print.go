package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"io"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "P08", run: ruleP08,
		explanation: "Abstract interpretation of every function that prints operations or patches. The text of each outcome is a template of constant parts and places where something is printed; the template is parsed as JSON, each place has to be a whole JSON value made by a JSON encoder from the field that the reader fills from the member of that name (the struct tags of the operation), the timestamp has to be printed as a decimal integer, and the member value may be left out only if the operation is known not to be add, replace or test.",
		assumptions: []string{
			"encoding/json.Marshal gives valid JSON when it returns no error, and never fails on strings",
			"a list is printed by strings.Join or by a loop that appends to one text",
		}})
}

type printer struct {
	c     *Ctx
	e     *Eval
	cx    *comp
	fn    *ssa.Function
	op    *types.Named
	tags  map[string]int // member -> field
	order []string
	clean bool
	n     int
}

func (p *printer) bad(f string, a ...any) {
	p.clean = false
	p.c.bad("print", p.fn.Name(), p.c.p.pos(p.fn.Pos()), f, a...)
}

func (p *printer) open(f string, a ...any) {
	p.clean = false
	p.c.undecided("print", p.fn.Name(), p.c.p.pos(p.fn.Pos()), f, a...)
}

func ruleP08(c *Ctx) {
	sp := c.p.spkgs["internal/tsonpatch"]
	if sp == nil || sp.Type("Operation") == nil {
		c.undecided("print", "Operation", "-", "the type of operations is not found")
		return
	}
	op := sp.Type("Operation").Type().(*types.Named)
	st := structType(op)
	tags, order := map[string]int{}, []string{}
	for i := 0; st != nil && i < st.NumFields(); i++ {
		name := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
		if name == "" {
			name = st.Field(i).Name()
		}
		if name == "-" || !st.Field(i).Exported() {
			continue
		}
		tags[name] = i
		order = append(order, name)
	}
	for _, n := range []string{"op", "path", "value", "timestamp"} {
		if _, ok := tags[n]; !ok {
			c.bad("print", "Operation", c.p.pos(sp.Type("Operation").Pos()), "no field is read from the member %q of an operation", n)
			return
		}
	}
	c.ok("print", "Operation")
	mine := func(t types.Type) (single, list bool) {
		if q, ok := under(t).(*types.Pointer); ok {
			t = q.Elem()
		}
		if types.Identical(t, op) {
			return true, false
		}
		if s, ok := under(t).(*types.Slice); ok && types.Identical(s.Elem(), op) {
			return false, true
		}
		return
	}
	for _, f := range c.p.fns {
		if f.Blocks == nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" || !c.p.inRepo(f) || len(f.Params) != 1 {
			continue
		}
		single, list := mine(f.Params[0].Type())
		rs := f.Signature.Results()
		if !single && !list || rs.Len() == 0 || !isText(rs.At(0).Type()) {
			continue
		}
		p := &printer{c: c, fn: f, op: op, tags: tags, order: order, clean: true}
		p.result(list)
	}
	// scan: does a function write files, and does it (or a function of its own
	// package that it calls) handle operations?
	var scan func(f *ssa.Function, seen map[*ssa.Function]bool) (writes, prints bool)
	scan = func(f *ssa.Function, seen map[*ssa.Function]bool) (writes, prints bool) {
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				writes = writes || fullName(g) == "os.WriteFile"
				for _, a := range call.Common().Args {
					s, l := mine(a.Type())
					prints = prints || s || l
				}
				for i := 0; i < g.Signature.Results().Len(); i++ {
					s, l := mine(g.Signature.Results().At(i).Type())
					prints = prints || s || l
				}
				if !prints && !seen[g] && fnPkg(g) == fnPkg(f) && g.Object() != nil && !g.Object().Exported() {
					_, prints = scan(g, seen)
				}
			}
		}
		return
	}
	for _, f := range c.p.fns {
		if f.Blocks == nil || !c.p.inRepo(f) {
			continue
		}
		if writes, prints := scan(f, map[*ssa.Function]bool{}); writes && prints {
			p := &printer{c: c, fn: f, op: op, tags: tags, order: order, clean: true}
			p.file()
		}
	}
	c.atLeast("print", 5)
}

func (p *printer) eval() []Outcome {
	p.e = newEval(p.c.p)
	p.e.forgetExit = true
	p.e.trace = func(name string) bool { return name == "os.WriteFile" }
	tson := p.c.p.spkgs["internal/tson"]
	p.e.opaque = func(f *ssa.Function) bool { return tson != nil && fnPkg(f) == tson }
	outs := p.e.root(p.fn, p.e.paramSyms(p.fn))
	p.cx = &comp{e: p.e}
	p.c.analysed[p.fn.String()] = true
	for f := range p.e.inlined {
		p.c.analysed[f.String()] = true
	}
	if len(p.e.problems) > 0 {
		p.open("not followed: %s", sortedKeys(p.e.problems)[0])
	}
	return outs
}

func (p *printer) done() {
	if p.n == 0 {
		p.open("nothing is printed")
	}
	if p.clean {
		p.c.ok("print", p.fn.Name())
	}
}

// result checks the text that a function returns.
func (p *printer) result(list bool) {
	for _, o := range p.eval() {
		last := o.results[len(o.results)-1]
		for _, pc := range o.st.pc {
			if len(o.results) > 1 && !last.isNil() {
				if v, known := pc.decide(p.e.in.Eq(last, p.e.in.Zero(last.typ))); last.op == OErr || known && !v {
					if !hasFailure(pc) {
						p.bad("an operation is rejected under %s", brief(pc))
					}
					continue
				}
			}
			p.n++
			if list {
				p.patch(o.results[0], pc)
			} else {
				p.operation(p.cx.spans(o.results[0]), pc)
			}
		}
	}
	p.done()
}

// file checks the patches that a function writes to files.
func (p *printer) file() {
	seen := map[*Event]bool{}
	for _, o := range p.eval() {
		for _, ev := range o.st.events {
			if ev.kind != "call" || ev.name != "os.WriteFile" || seen[ev] || len(ev.args) < 2 {
				continue
			}
			seen[ev] = true
			for _, pc := range o.st.pc {
				t := ev.args[1]
				if !t.contains(func(s *Term) bool { return s.callName() == "strings.Join" || s.op == OLoop }) {
					continue // not a patch
				}
				p.n++
				p.patch(t, pc)
			}
		}
	}
	p.done()
}

// encoded: what t is the JSON text of.
func encoded(t *Term) (arg, err *Term) {
	for t.op == OConvert && isText(t.typ) && isText(t.args[0].typ) {
		t = t.args[0]
	}
	if t.op == OExtract && t.aux == "0" {
		switch t.args[0].callName() {
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			return t.args[0].args[0], t.args[0]
		}
	}
	return nil, nil
}

func plainValue(t *Term) *Term {
	for {
		switch {
		case t.op == OIface:
			t = t.args[0]
		case t.op == OConvert && isString(t.typ) && isString(t.args[0].typ):
			t = t.args[0]
		case t.op == OConvert && isInteger(t.typ) && isInteger(t.args[0].typ) && narrowed(t) == nil:
			t = t.args[0]
		default:
			return t
		}
	}
}

// field: t is a field of an operation.
func (p *printer) field(t *Term) (base *Term, i int) {
	if t.op != OField || t.args[0].typ == nil || !types.Identical(t.args[0].typ, p.op) {
		return nil, -1
	}
	st := structType(p.op)
	for i := 0; i < st.NumFields(); i++ {
		if t == p.e.in.Field(t.args[0], i, t.typ) {
			return t.args[0], i
		}
	}
	return nil, -1
}

func (p *printer) anyField(t *Term) bool {
	return t.contains(func(s *Term) bool { _, i := p.field(s); return i >= 0 })
}

type printHole struct {
	list *textList
	t    *Term // the value that is encoded or printed as a decimal
	num  bool
}

// template makes JSON text of the spans, with a stand-in for each hole.
func (p *printer) template(ss []span, pc *Conj) (text string, holes []printHole, ok bool) {
	var sb strings.Builder
	for _, s := range ss {
		switch {
		case s.hole != nil:
			t := s.hole
			if arg, call := encoded(t); arg != nil {
				err := p.e.in.mk(OExtract, types.Universe.Lookup("error").Type(), "1", nil, nil, call)
				v, known := pc.decide(p.e.in.Eq(err, p.e.in.Zero(err.typ)))
				if a := plainValue(arg); (!known || !v) && !isString(a.typ) {
					p.bad("%s is printed although encoding it may have failed", brief(arg))
					return "", nil, false
				}
				fmt.Fprintf(&sb, "\"@HOLE%d@\"", len(holes))
				holes = append(holes, printHole{t: plainValue(arg)})
				continue
			}
			if t.callName() == "decimal" {
				fmt.Fprintf(&sb, "7%06d", len(holes))
				holes = append(holes, printHole{t: plainValue(t.args[0]), num: true})
				continue
			}
			switch {
			case t.callName() == "strconv.Quote" && p.anyField(t):
				p.bad("%s is printed with the escapes of Go instead of those of JSON", brief(t.args[0]))
			case p.anyField(t) && (t.op == OField || t.op == OCall):
				p.bad("%s is printed without a JSON encoder", brief(t))
			case t.contains(func(u *Term) bool { return u.op == OConvert && narrowed(u) != nil && p.anyField(u) }):
				p.bad("%s is not the exact timestamp", brief(t))
			default:
				p.open("how %s is printed is not known", brief(t))
			}
			return "", nil, false
		case s.list != nil:
			fmt.Fprintf(&sb, "\"@HOLE%d@\"", len(holes))
			holes = append(holes, printHole{list: s.list})
		default:
			sb.WriteString(s.text)
		}
	}
	return sb.String(), holes, true
}

func holeOf(tok any, holes []printHole) (printHole, bool) {
	var n int
	switch v := tok.(type) {
	case string:
		if k, _ := fmt.Sscanf(v, "@HOLE%d@", &n); k == 1 && v == fmt.Sprintf("@HOLE%d@", n) && n < len(holes) && !holes[n].num {
			return holes[n], true
		}
	case json.Number:
		if k, _ := fmt.Sscanf(string(v), "7%06d", &n); k == 1 && string(v) == fmt.Sprintf("7%06d", n) && n < len(holes) && holes[n].num {
			return holes[n], true
		}
	}
	return printHole{}, false
}

// operation checks the text of one operation and returns the operation.
func (p *printer) operation(ss []span, pc *Conj) *Term {
	blank := func(s span) bool { return s.hole == nil && s.list == nil && strings.TrimSpace(s.text) == "" }
	for len(ss) > 0 && blank(ss[0]) {
		ss = ss[1:]
	}
	for len(ss) > 0 && blank(ss[len(ss)-1]) {
		ss = ss[:len(ss)-1]
	}
	if len(ss) == 1 && ss[0].hole != nil {
		if arg, _ := encoded(ss[0].hole); arg != nil {
			return p.struct_(plainValue(arg), pc)
		}
	}
	text, holes, ok := p.template(ss, pc)
	if !ok {
		return nil
	}
	shown := spansString(ss)
	if !json.Valid([]byte(text)) {
		p.bad("what is printed for an operation is not JSON: %s under %s", shown, brief(pc))
		return nil
	}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if tok, err := d.Token(); err != nil || tok != json.Delim('{') {
		p.bad("what is printed for an operation is not a JSON object: %s", shown)
		return nil
	}
	var base *Term
	members := map[string]bool{}
	for d.More() {
		key, err := d.Token()
		if err != nil {
			break
		}
		name := key.(string)
		val, err := d.Token()
		if _, isDelim := val.(json.Delim); err != nil || isDelim {
			p.bad("the member %q of an operation is not a value of the operation: %s", name, shown)
			return nil
		}
		if members[name] {
			p.bad("the member %q of an operation is printed twice: %s", name, shown)
		}
		members[name] = true
		i, known := p.tags[name]
		if !known {
			p.bad("the reader knows no member %q: %s", name, shown)
			return nil
		}
		h, isHole := holeOf(val, holes)
		if !isHole || h.list != nil {
			if name == "value" && val == nil {
				members["value"] = true
				p.nullValue(i, pc, ss)
				continue
			}
			p.bad("the member %q of an operation is not the field of the operation: %s", name, shown)
			return nil
		}
		b, j := p.field(h.t)
		switch {
		case j < 0 && narrowed(h.t) != nil:
			p.bad("the member %q is not the exact field: %s", name, brief(h.t))
			return nil
		case j < 0 && p.anyField(h.t):
			p.open("whether %s is the field of the member %q is not known", brief(h.t), name)
			return nil
		case j != i:
			p.bad("the member %q of an operation is printed from %s", name, brief(h.t))
			return nil
		case base != nil && b != base:
			p.bad("the members of an operation are printed from several operations: %s", shown)
			return nil
		}
		base = b
	}
	if _, err := d.Token(); err != nil {
		p.open("the text of an operation is not followed: %s", shown)
	}
	if _, err := d.Token(); err != io.EOF {
		p.bad("more than an operation is printed: %s", shown)
	}
	for _, n := range []string{"op", "path", "timestamp"} {
		if !members[n] {
			p.bad("the member %q is missing: %s", n, shown)
		}
	}
	if !members["value"] && base != nil {
		p.noValue(base, pc, "")
	}
	return base
}

// nullValue: the value is printed as null.
func (p *printer) nullValue(i int, pc *Conj, ss []span) {
	var t *Term
	for _, l := range pc.lits {
		if l.atom.op != OEq {
			continue
		}
		l.atom.contains(func(s *Term) bool {
			if s.callName() == "encoding/json.Marshal" || s.callName() == "encoding/json.MarshalIndent" {
				has := s.args[0].contains(func(u *Term) bool { _, j := p.field(u); return j == i })
				if has && failure(l) && !l.val {
					t = s
				}
			}
			if _, j := p.field(s); j == i && l.val && l.atom == p.e.in.Eq(s, p.e.in.Zero(s.typ)) {
				t = s
			}
			return false
		})
	}
	if t != nil {
		return
	}
	for _, s := range ss {
		if s.hole == nil {
			continue
		}
		s.hole.contains(func(u *Term) bool {
			if b, j := p.field(u); j >= 0 && t == nil {
				t = b
			}
			return false
		})
	}
	if t != nil {
		p.noValue(t, pc, " (null is printed)")
	}
}

// noValue: the value is left out.
func (p *printer) noValue(base *Term, pc *Conj, why string) {
	in := p.e.in
	st := structType(p.op)
	opf := in.Field(base, p.tags["op"], st.Field(p.tags["op"]).Type())
	for _, kind := range []string{"add", "replace", "test"} {
		if pc.with(in.Eq(opf, in.Const(opf.typ, constant.MakeString(kind))), true) != nil {
			p.bad("the value of an operation %q is left out under %s%s", kind, brief(pc), why)
			return
		}
	}
}

// struct_: the operation is handed to the encoder as a whole.
func (p *printer) struct_(t *Term, pc *Conj) *Term {
	st := structType(t.typ)
	if st == nil {
		p.open("how %s is printed is not known", brief(t))
		return nil
	}
	var base *Term
	members := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			continue
		}
		parts := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		name := parts[0]
		if name == "" {
			name = st.Field(i).Name()
		}
		f := p.e.in.Field(t, i, st.Field(i).Type())
		if arg, _ := encoded(f); arg != nil {
			f = arg
		}
		b, j := p.field(plainValue(f))
		want, known := p.tags[name]
		if !known || j != want {
			p.bad("the member %q of an operation is printed from %s", name, brief(f))
			return nil
		}
		if base = b; name == "value" && len(parts) > 1 {
			if pc.with(p.e.in.Eq(f, p.e.in.Zero(f.typ)), true) != nil {
				p.noValue(b, pc, ", as omitempty says")
			}
		}
		members[name] = true
	}
	for _, n := range []string{"op", "path", "value", "timestamp"} {
		if !members[n] {
			p.bad("the member %q is missing", n)
		}
	}
	return base
}

// patch checks the text of a list of operations.
func (p *printer) patch(t *Term, pc *Conj) {
	ss := p.cx.spans(t)
	text, holes, ok := p.template(ss, pc)
	if !ok {
		return
	}
	var arr []any
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if !json.Valid([]byte(text)) || d.Decode(&arr) != nil {
		p.bad("what is printed for a patch is not a JSON array: %s", spansString(ss))
		return
	}
	if len(holes) == 0 && len(arr) == 0 {
		return // an empty patch
	}
	if len(arr) != 1 || len(holes) != 1 || holes[0].list == nil {
		p.bad("what is printed for a patch is not the list of its operations: %s", spansString(ss))
		return
	}
	l := holes[0].list
	switch {
	case l.why != "":
		p.open("the list of operations is not followed: %s", l.why)
		return
	case l.kind != "index" || elemType(l.of.typ) == nil || !types.Identical(elemType(l.of.typ), p.op):
		p.open("%s is not the list of operations", brief(l.of))
		return
	}
	if why := p.cx.complete(l, pc); why != "" {
		p.bad("%s", why)
	}
	if l.sep != "" || l.at.callName() == "strings.Join" {
		if strings.TrimSpace(l.sep) != "," {
			p.bad("the operations are separated by %q", l.sep)
		}
	}
	for _, a := range l.alts {
		ss := a.spans
		if l.at.op == OLoop {
			lead := ""
			if len(ss) > 0 && ss[0].hole == nil && ss[0].list == nil {
				lead = strings.TrimLeft(ss[0].text, " \t\r\n")
			}
			comma := strings.HasPrefix(lead, ",")
			switch {
			case a.pos == 0:
				p.open("whether a comma is needed is not known under %s", brief(a.pc))
				return
			case a.pos != 2 && comma:
				p.bad("a comma is printed before the first operation")
				return
			case a.pos != 1 && !comma:
				p.bad("no comma is printed between two operations under %s", brief(a.pc))
				return
			case comma:
				ss = append([]span{{text: lead[1:]}}, ss[1:]...)
			}
		}
		base := p.operation(ss, a.pc)
		if base == nil {
			continue
		}
		if base != p.e.in.Elem(l.of, l.v, p.op) {
			p.bad("the text at one position is that of the operation %s", brief(base))
		}
	}
}
