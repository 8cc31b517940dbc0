package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

// Replacement codecs: chains of string replacements with constant tables.

type replPair struct{ old, new string }

// replStep replaces, at each position of a text from the left, the first of
// its pairs that matches, without overlaps. limit < 0: everywhere.
type replStep struct {
	pairs []replPair
	limit int
}

func (s replStep) String() string {
	var ps []string
	for _, p := range s.pairs {
		ps = append(ps, fmt.Sprintf("%q→%q", p.old, p.new))
	}
	return strings.Join(ps, ", ")
}

func (s replStep) apply(t string) string {
	var sb strings.Builder
	n := 0
scan:
	for i := 0; i < len(t); {
		if s.limit < 0 || n < s.limit {
			for _, p := range s.pairs {
				if strings.HasPrefix(t[i:], p.old) {
					sb.WriteString(p.new)
					i += len(p.old)
					n++
					continue scan
				}
			}
		}
		sb.WriteByte(t[i])
		i++
	}
	return sb.String()
}

type codec []replStep

func (c codec) apply(t string) string {
	for _, s := range c {
		t = s.apply(t)
	}
	return t
}

func (c codec) String() string {
	if len(c) == 0 {
		return "nothing is replaced"
	}
	var ss []string
	for _, s := range c {
		ss = append(ss, s.String())
	}
	return strings.Join(ss, ", then ")
}

func (c codec) letters(m map[byte]bool) {
	for _, s := range c {
		for _, p := range s.pairs {
			for i := 0; i < len(p.old); i++ {
				m[p.old[i]] = true
			}
			for i := 0; i < len(p.new); i++ {
				m[p.new[i]] = true
			}
		}
	}
}

// codecOf reads the replacements that t applies to base, the term for which
// isBase holds.
func codecOf(t *Term, isBase func(*Term) bool) (c codec, base *Term, ok bool) {
	if isBase(t) {
		return nil, t, true
	}
	if t.op != OCall {
		return nil, nil, false
	}
	var st replStep
	st.limit = -1
	var inner *Term
	switch t.callName() {
	case "(*strings.Replacer).Replace":
		r := t.args[0]
		if r.op != OCall || r.callName() != "strings.NewReplacer" || len(r.args) != 1 || r.args[0].op != OSliceLit || len(r.args[0].args)%2 != 0 {
			return nil, nil, false
		}
		for i := 0; i < len(r.args[0].args); i += 2 {
			o, ok1 := r.args[0].args[i].constString()
			n, ok2 := r.args[0].args[i+1].constString()
			if !ok1 || !ok2 || o == "" {
				return nil, nil, false
			}
			st.pairs = append(st.pairs, replPair{o, n})
		}
		inner = t.args[1]
	case "strings.ReplaceAll", "strings.Replace":
		o, ok1 := t.args[1].constString()
		n, ok2 := t.args[2].constString()
		if !ok1 || !ok2 || o == "" {
			return nil, nil, false
		}
		if len(t.args) == 4 {
			l, ok := t.args[3].constInt()
			if !ok {
				return nil, nil, false
			}
			st.limit = int(max(l, -1))
		}
		st.pairs = []replPair{{o, n}}
		inner = t.args[0]
	default:
		return nil, nil, false
	}
	c, base, ok = codecOf(inner, isBase)
	return append(c, st), base, ok
}

// inverse proves that dec undoes enc for every text and that an encoded text
// never contains sep, or finds a text for which it does not.
//
// An encoder that replaces single characters only works character by
// character: the code of a text is the sequence of the words of its
// characters. A step of the decoder works word by word if, started at the
// begin of any word, it reaches the end of this word with the same output
// whatever follows. The text that follows matters only as far as the longest
// pattern reaches.
func inverse(enc, dec codec, sep byte) (proved bool, counter string, found bool) {
	m := map[byte]bool{}
	enc.letters(m)
	dec.letters(m)
	m[sep] = true
	for _, other := range []byte("x.\x01") { // one that no table mentions
		if !m[other] {
			m[other] = true
			break
		}
	}
	var sigma []byte
	for b := range m {
		sigma = append(sigma, b)
	}
	sort.Slice(sigma, func(i, j int) bool { return sigma[i] < sigma[j] })
	words, ok := enc.words(sigma)
	if ok {
		proved = true
		for _, w := range words {
			proved = proved && w != "" && !strings.Contains(w, string(sep))
		}
		for _, st := range dec {
			if !proved {
				break
			}
			words, ok = st.wordwise(words)
			proved = proved && ok
		}
		for i, w := range words {
			proved = proved && w == string(sigma[i])
		}
		if proved {
			return true, "", false
		}
	}
	n := 4
	for size := pow(len(sigma), n); size > 200_000 && n > 2; size /= len(sigma) {
		n--
	}
	for l := 0; l <= n; l++ {
		idx := make([]int, l)
		for {
			b := make([]byte, l)
			for i, k := range idx {
				b[i] = sigma[k]
			}
			s := string(b)
			c := enc.apply(s)
			if strings.Contains(c, string(sep)) || dec.apply(c) != s {
				return false, s, true
			}
			i := l - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(sigma) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
	return false, "", false
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// words are the codes of the single characters, if the codec works character
// by character.
func (c codec) words(sigma []byte) (out []string, ok bool) {
	for _, s := range c {
		if s.limit >= 0 {
			return nil, false
		}
		for _, p := range s.pairs {
			if len(p.old) != 1 {
				return nil, false
			}
		}
	}
	for _, b := range sigma {
		out = append(out, c.apply(string(b)))
	}
	return out, true
}

// wordwise: the outputs for the single words, if the step works word by word.
func (s replStep) wordwise(words []string) (out []string, ok bool) {
	if s.limit >= 0 {
		return nil, false
	}
	reach := 0
	for _, p := range s.pairs {
		reach = max(reach, len(p.old))
	}
	// all that can follow, as far as it matters
	follow := map[string]bool{"": true}
	todo := []string{""}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if len(f) >= reach {
			continue
		}
		for _, w := range words {
			if w == "" {
				return nil, false
			}
			if g := f + w; !follow[g] {
				follow[g] = true
				todo = append(todo, g)
			}
			if len(follow) > 200_000 {
				return nil, false
			}
		}
	}
	for _, w := range words {
		res, first := "", true
		for f := range follow {
			t := w + f
			var sb strings.Builder
			i := 0
		scan:
			for i < len(w) {
				for _, p := range s.pairs {
					if strings.HasPrefix(t[i:], p.old) {
						sb.WriteString(p.new)
						i += len(p.old)
						continue scan
					}
				}
				sb.WriteByte(t[i])
				i++
			}
			if i != len(w) || !first && sb.String() != res {
				return nil, false
			}
			res, first = sb.String(), false
		}
		out = append(out, res)
	}
	return out, true
}

// splitter is what is known about the splitting of paths.
type splitter struct {
	dec codec
	ok  bool
}

// pathCase tells whether the conditions allow a path of the kind: "empty",
// "slash" or "other".
func pathCase(e *Eval, pc *Conj, path *Term, kind string) bool {
	for _, l := range pc.lits {
		if v, known := pathLit(e, l.atom, path, kind); known && v != l.val {
			return false
		}
	}
	return true
}

func pathLit(e *Eval, t, path *Term, kind string) (val, known bool) {
	isFirst := func(t *Term) bool {
		return t.op == OElem && t.args[0] == path && t.args[1] == e.in.Int(0)
	}
	switch t.op {
	case OEq:
		for i := 0; i < 2; i++ {
			a, b := t.args[i], t.args[1-i]
			if isFirst(a) {
				if c, ok := b.constInt(); ok {
					if kind == "empty" {
						return false, false
					}
					if kind == "slash" {
						return c == '/', true
					}
					if c == '/' {
						return false, true
					}
				}
			}
			if a == path {
				if s, ok := b.constString(); ok {
					if s == "" {
						return kind == "empty", true
					}
					if (kind == "slash") != strings.HasPrefix(s, "/") {
						return false, true
					}
				}
			}
			if a == e.in.Len(path) {
				if n, ok := b.constInt(); ok {
					if n == 0 {
						return kind == "empty", true
					}
					if kind == "empty" {
						return false, true
					}
				}
			}
			if a.op == OSliceOf && a.args[0] == path && a.args[1] == e.in.Int(0) && a.args[2] == e.in.Int(1) {
				if s, ok := b.constString(); ok && s == "/" && kind != "empty" {
					return kind == "slash", true
				}
			}
		}
	case OLt:
		a, b := t.args[0], t.args[1]
		if n, ok := b.constInt(); ok && a == e.in.Len(path) && n <= 1 {
			return n == 1 && kind == "empty", true
		}
		if n, ok := a.constInt(); ok && b == e.in.Len(path) && n <= 0 {
			return n < 0 || kind != "empty", true
		}
	case OCall:
		if t.callName() == "strings.HasPrefix" && t.args[0] == path {
			if s, ok := t.args[1].constString(); ok {
				switch {
				case s == "":
					return true, true
				case s == "/":
					return kind == "slash", true
				case kind == "empty", (kind == "slash") != strings.HasPrefix(s, "/"):
					return false, true
				}
			}
		}
	case ONot:
		v, known := pathLit(e, t.args[0], path, kind)
		return !v, known
	}
	return false, false
}

// splitRules checks how paths are split. Only the named kinds are reported.
func splitRules(c *Ctx, kinds ...string) (sp splitter) {
	fn := c.p.fn("internal/tson", "SplitPath")
	if fn == nil || len(fn.Params) != 1 || !isString(fn.Params[0].Type()) {
		c.undecided("anchor", "SplitPath", "-", "the function is not found")
		return
	}
	c.analysed[fn.String()] = true
	pos := c.p.pos(fn.Pos())
	e := newEval(c.p)
	args := e.paramSyms(fn)
	path := args[0]
	outs := e.root(fn, args)
	for _, f := range e.entered() {
		c.analysed[f] = true
	}
	for p := range e.problems {
		c.undecided("split", "SplitPath", pos, "%s", p)
		return
	}
	var decs []codec
	for _, kind := range kinds {
		n, clean := 0, true
		bad := func(f string, a ...any) {
			c.bad("split", "SplitPath "+kind, pos, f, a...)
			clean = false
		}
		open := func(f string, a ...any) {
			c.undecided("split", "SplitPath "+kind, pos, f, a...)
			clean = false
		}
		for _, out := range outs {
			if !slices.ContainsFunc(out.st.pc, func(pc *Conj) bool { return pathCase(e, pc, path, kind) }) {
				continue
			}
			n++

			x := &comp{e: e}
			r := out.results[0]
			v := r
			if h, ok := out.st.heap[r]; ok {
				v = h
			}
			if kind == "empty" {
				switch {
				case v.isNil(), v.op == OSliceLit && len(v.args) == 0:
				case v.op == OSliceLit:
					bad("the empty path has segments")
				default:
					gs := x.list(v)
					if len(x.fails) > 0 || len(gs) > 0 {
						open("the empty path has the segments %s", brief(v))
					}
				}
				continue
			}
			if v.isNil() || v.op == OSliceLit && len(v.args) == 0 {
				bad("a path with segments has none after splitting")
				continue
			}
			if v.op == OSliceLit {
				bad("the segments of a path are %s", brief(v))
				continue
			}
			gs := x.list(v)
			if len(x.fails) > 0 {
				open("the segments %s are not followed: %s", brief(v), x.fails[0])
				continue
			}
			var src *Term
			for _, g := range gs {
				if len(gs) != 1 || len(g.doms) != 1 || g.doms[0].kind != "index" {
					open("the segments %s are not followed", brief(g))
					src = nil
					break
				}
				src = g.doms[0].of
				if g.sort != nil || g.doms[0].order != "asc" {
					bad("the segments are not in the order of the path")
				}
				for _, l := range g.pc.lits {
					if l.atom.contains(func(t *Term) bool { return t.op == OElem && t.args[0] == src }) {
						bad("a segment is left out unless %s", brief(l))
					}
				}
				if len(g.doms[0].early) > 0 {
					bad("segments behind one for which %s are left out", brief(g.doms[0].early[0]))
				}
				item := e.in.Elem(src, g.doms[0].v, tString)
				dec, _, ok := codecOf(g.elem, func(t *Term) bool { return t == item })
				if !ok {
					open("the segment %s is not followed", brief(g.elem))
					src = nil
					break
				}
				decs = append(decs, dec)
			}
			if len(gs) == 0 {
				src, decs = v, append(decs, nil)
			}
			if src == nil {
				continue
			}
			if why, known := splitSource(e, src, path, kind); why != "" {
				if known {
					bad("%s", why)
				} else {
					open("%s", why)
				}
			}
		}
		if n == 0 {
			open("no outcome applies")
		}
		if clean {
			c.ok("split", "SplitPath "+kind)
		}
	}
	if len(decs) > 0 {
		sp.dec, sp.ok = decs[0], true
		for _, d := range decs[1:] {
			if d.String() != sp.dec.String() {
				c.bad("split", "SplitPath", pos, "segments are decoded in different ways: %s; %s", sp.dec, d)
			}
		}
	}
	return
}

// cutsFirst recognises the text behind the first character of a path.
func cutsFirst(e *Eval, t, path *Term, kind string) (rest *Term, ok bool) {
	if t.op == OSliceOf && t.args[1] == e.in.Int(1) && t.args[2] == e.in.Len(t.args[0]) {
		return t.args[0], true
	}
	if t.op == OCall && (t.callName() == "strings.TrimPrefix") {
		if s, isC := t.args[1].constString(); isC && s == "/" {
			return t.args[0], true
		}
	}
	return nil, false
}

// splitSource checks the list of the encoded segments of a path.
func splitSource(e *Eval, src, path *Term, kind string) (why string, known bool) {
	cut := false
	if src.op == OSliceOf && src.args[1] == e.in.Int(1) && src.args[2] == e.in.Len(src.args[0]) {
		src, cut = src.args[0], true
	}
	if src.op != OCall {
		return fmt.Sprintf("the list of segments %s is not followed", brief(src)), false
	}
	var text *Term
	dots := false
	switch src.callName() {
	case "strings.Split":
		sep, isC := src.args[1].constString()
		if !isC {
			return fmt.Sprintf("the separator %s is not followed", brief(src.args[1])), false
		}
		if sep != "/" {
			return fmt.Sprintf("a path is split at %q", sep), true
		}
		text = src.args[0]
	case "strings.SplitN":
		n, ok := src.args[2].constInt()
		if !ok || n >= 0 {
			return "a path is split into a limited number of segments", ok
		}
		return fmt.Sprintf("the list of segments %s is not followed", brief(src)), false
	case "strings.Fields", "strings.FieldsFunc":
		return "empty segments are left out", true
	default:
		return fmt.Sprintf("the list of segments %s is not followed", brief(src)), false
	}
	// the text
	for {
		if rest, ok := cutsFirst(e, text, path, kind); ok {
			if rest.op == OCall && rest.obj == e.concatInfo {
				if s, isC := rest.args[0].constString(); isC && len(s) == 1 {
					text = e.concat(rest.args[1:]...)
					continue
				}
			}
			if text.op == OCall && kind == "other" && rest == path {
				text = rest // nothing to trim
				continue
			}
			if cut {
				return "two characters of the path are cut off", true
			}
			if kind == "other" {
				if rest == path || isDots(rest) && rest.args[0] == path {
					return "the first character of the path is lost", true
				}
			}
			text, cut = rest, true
			continue
		}
		if isDots(text) {
			text, dots = text.args[0], true
			continue
		}
		break
	}
	if text != path {
		if text.op == OCall {
			if n := text.callName(); lossy[n] && n != "strings.TrimPrefix" {
				return n + " changes the segments of a path", true
			}
			switch text.callName() {
			case "(*strings.Replacer).Replace", "strings.ReplaceAll", "strings.Replace":
				if _, _, ok := codecOf(text, func(t *Term) bool { return t == path }); ok {
					return fmt.Sprintf("the path is changed before it is split (%s)", brief(text)), true
				}
			}
		}
		return fmt.Sprintf("the text that is split, %s, is not followed", brief(text)), false
	}
	switch {
	case kind == "slash" && dots:
		return "dots separate the segments of a path that begins with a slash", true
	case kind == "slash" && !cut:
		return "the empty text before the first slash becomes a segment", true
	case kind == "other" && !dots:
		return "dots do not separate the segments of a path without a slash at its begin", true
	}
	return "", true
}

func isDots(t *Term) bool {
	if t.op != OCall || t.callName() != "strings.ReplaceAll" {
		return false
	}
	a, ok1 := t.args[1].constString()
	b, ok2 := t.args[2].constString()
	return ok1 && ok2 && a == "." && b == "/"
}

func ruleP07(c *Ctx) {
	sp := splitRules(c, "slash")
	for _, d := range diffRules(c, true) {
		for _, f := range d.wrongPaths {
			c.bad("steps", d.mode+" "+f.construct, f.at, "%s", f.why)
		}
		var names []string
		for s := range d.paths {
			names = append(names, s)
		}
		sort.Strings(names)
		for _, s := range names {
			p := d.paths[s]

			construct := d.mode + " " + s
			enc, _, ok := codecOf(p.text, func(t *Term) bool {
				return t == p.key || t.op == OCall && t.callName() == "decimal" && t.args[0] == p.key
			})
			if !ok && p.text.contains(func(t *Term) bool { return t.op == OCall && lossy[t.callName()] }) && isString(p.key.typ) {
				c.bad("escape", construct, p.at, "different keys have the same segment %s", p.text)
				continue
			}
			if !ok {
				c.undecided("escape", construct, p.at, "how the segment is escaped is not followed")
				continue
			}
			if !isString(p.key.typ) {
				// only digits
				same := true
				for b := byte('0'); b <= '9'; b++ {
					same = same && enc.apply(string(b)) == string(b)
				}
				if ws, ok := enc.words([]byte("0123456789")); !ok || !same {
					c.bad("escape", construct, p.at, "an index is changed by the escapes (%s)", enc)
					continue
				} else {
					c.ok("escape", construct)
					_ = ws
				}
				if sp.ok {
					if w, ok := sp.dec.words([]byte("0123456789")); ok && strings.Join(w, "") != "0123456789" {
						c.bad("inverse", construct, p.at, "an index is changed by decoding (%s)", sp.dec)
					} else if ok || !sp.dec.touches("0123456789") {
						c.ok("inverse", construct)
					} else {
						c.undecided("inverse", construct, p.at, "whether decoding (%s) keeps an index is not decided", sp.dec)
					}
				}
				continue
			}
			c.ok("escape", construct)
			if !sp.ok {
				continue
			}
			proved, counter, found := inverse(enc, sp.dec, '/')
			switch {
			case proved:
				c.ok("inverse", construct)
			case found:
				code := enc.apply(counter)
				if strings.Contains(code, "/") {
					c.bad("inverse", construct, p.at, "the key %q is written as %q, which is more than one segment", counter, code)
				} else {
					c.bad("inverse", construct, p.at, "the key %q is written as %q and read back as %q", counter, code, sp.dec.apply(code))
				}
			default:
				c.undecided("inverse", construct, p.at, "whether decoding (%s) undoes the escapes (%s) is not decided", sp.dec, enc)
			}
		}
	}
	if got := len(c.oks["escape"]); got < 2 && len(c.findings) == 0 {
		c.undecided("escape", "segments", "-", "only %d segments of generated paths are found", got)
	}
}

// touches: can a text of these characters only match a pattern?
func (c codec) touches(chars string) bool {
	for _, s := range c {
		for _, p := range s.pairs {
			if strings.Trim(p.old, chars) == "" {
				return true
			}
		}
	}
	return false
}
