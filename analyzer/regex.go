package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// byteSet is a set of bytes.
type byteSet [4]uint64

func (s *byteSet) add(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s byteSet) has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s byteSet) empty() bool     { return s == byteSet{} }
func (s byteSet) size() (n int) {
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return
}
func (s byteSet) and(t byteSet) byteSet {
	return byteSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s byteSet) or(t byteSet) byteSet {
	return byteSet{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]}
}
func (s byteSet) not() byteSet { return byteSet{^s[0], ^s[1], ^s[2], ^s[3]} }

var anyByte = byteSet{}.not()

// sample is a readable member of s.
func (s byteSet) sample() byte {
	for _, c := range []byte("a01 \"{}[]<>:,-.eE+\\'\n\t") {
		if s.has(c) {
			return c
		}
	}
	for c := byte('!'); c < 0x7f; c++ {
		if s.has(c) {
			return c
		}
	}
	for c := 0; c < 256; c++ {
		if s.has(byte(c)) {
			return byte(c)
		}
	}
	return 0
}

func bytesIn(chars string) (s byteSet) {
	for i := 0; i < len(chars); i++ {
		s.add(chars[i])
	}
	return
}

func byteRange(lo, hi byte) (s byteSet) {
	for c := int(lo); c <= int(hi); c++ {
		s.add(byte(c))
	}
	return
}

// re is a regular expression over bytes and named parts.
type re struct {
	kind byte // 's' set, 'n' named part, '.' sequence, '|' choice, '*' repetition, 't' tag
	set  byteSet
	name string
	sub  []*re
}

func rSet(s byteSet) *re      { return &re{kind: 's', set: s} }
func rName(n string) *re      { return &re{kind: 'n', name: n} }
func rTag(n string) *re       { return &re{kind: 't', name: n} }
func rSeq(xs ...*re) *re      { return &re{kind: '.', sub: xs} }
func rAlt(xs ...*re) *re      { return &re{kind: '|', sub: xs} }
func rStar(x *re) *re         { return &re{kind: '*', sub: []*re{x}} }
func rPlus(x *re) *re         { return rSeq(x, rStar(x)) }
func rOpt(x *re) *re          { return rAlt(rSeq(), x) }
func rChars(chars string) *re { return rSet(bytesIn(chars)) }
func rText(s string) *re {
	x := rSeq()
	for i := 0; i < len(s); i++ {
		x.sub = append(x.sub, rChars(s[i:i+1]))
	}
	return x
}

// nfa is an automaton whose edges are byte sets, named parts or tags; an edge
// without any of them is free.
type nfa struct {
	edges  [][]nfaEdge
	start  int
	accept int
}

type nfaEdge struct {
	set  byteSet
	name string
	tag  string
	to   int
}

func (e nfaEdge) free() bool { return e.set.empty() && e.name == "" && e.tag == "" }

func (n *nfa) node() int {
	n.edges = append(n.edges, nil)
	return len(n.edges) - 1
}

func (n *nfa) edge(from int, e nfaEdge) { n.edges[from] = append(n.edges[from], e) }

func (n *nfa) build(x *re, from, to int) {
	switch x.kind {
	case 's':
		n.edge(from, nfaEdge{set: x.set, to: to})
	case 'n':
		n.edge(from, nfaEdge{set: x.set, name: x.name, to: to})
	case 't':
		n.edge(from, nfaEdge{tag: x.name, to: to})
	case '.':
		at := from
		for _, s := range x.sub {
			next := n.node()
			n.build(s, at, next)
			at = next
		}
		n.edge(at, nfaEdge{to: to})
	case '|':
		for _, s := range x.sub {
			n.build(s, from, to)
		}
	case '*':
		mid := n.node()
		n.edge(from, nfaEdge{to: mid})
		n.build(x.sub[0], mid, mid)
		n.edge(mid, nfaEdge{to: to})
	}
}

func newNFA(x *re) *nfa {
	n := &nfa{}
	n.start, n.accept = n.node(), n.node()
	n.build(x, n.start, n.accept)
	return n
}

// dfa is the deterministic form of an automaton, made on demand. State 0 is
// the one without any continuation.
type dfa struct {
	n     *nfa
	sets  [][]int
	ids   map[string]int
	start int
	cache map[int][]dfaEdge
}

type dfaEdge struct {
	set byteSet
	to  int
}

func newDFA(x *re) *dfa {
	d := &dfa{n: newNFA(x), ids: map[string]int{}, cache: map[int][]dfaEdge{}}
	d.id(nil)
	d.start = d.id(d.closure([]int{d.n.start}))
	return d
}

func (d *dfa) closure(s []int) []int {
	seen := map[int]bool{}
	var visit func(q int)
	visit = func(q int) {
		if seen[q] {
			return
		}
		seen[q] = true
		for _, e := range d.n.edges[q] {
			if e.set.empty() && e.name == "" {
				visit(e.to)
			}
		}
	}
	for _, q := range s {
		visit(q)
	}
	return sortedInts(seen)
}

func (d *dfa) id(s []int) int {
	k := fmt.Sprint(s)
	if i, ok := d.ids[k]; ok {
		return i
	}
	d.ids[k] = len(d.sets)
	d.sets = append(d.sets, s)
	return len(d.sets) - 1
}

func (d *dfa) accepts(q int) bool {
	for _, s := range d.sets[q] {
		if s == d.n.accept {
			return true
		}
	}
	return false
}

// step partitions the bytes by the states that they lead to.
func (d *dfa) step(q int) []dfaEdge {
	if es, ok := d.cache[q]; ok {
		return es
	}
	by := map[int]byteSet{}
	parts := []byteSet{anyByte}
	for _, s := range d.sets[q] {
		for _, e := range d.n.edges[s] {
			if e.set.empty() {
				continue
			}
			var next []byteSet
			for _, p := range parts {
				if in := p.and(e.set); !in.empty() {
					next = append(next, in)
				}
				if out := p.and(e.set.not()); !out.empty() {
					next = append(next, out)
				}
			}
			parts = next
		}
	}
	for _, p := range parts {
		c := p.sample()
		var to []int
		for _, s := range d.sets[q] {
			for _, e := range d.n.edges[s] {
				if !e.set.empty() && e.set.has(c) {
					to = append(to, e.to)
				}
			}
		}
		i := d.id(d.closure(to))
		by[i] = by[i].or(p)
	}
	var es []dfaEdge
	for _, i := range sortedInts(by) {
		es = append(es, dfaEdge{by[i], i})
	}
	d.cache[q] = es
	return es
}

// named is the state behind a named part.
func (d *dfa) named(q int, name string) int {
	var to []int
	for _, s := range d.sets[q] {
		for _, e := range d.n.edges[s] {
			if e.name == name {
				to = append(to, e.to)
			}
		}
	}
	return d.id(d.closure(to))
}

// source yields the texts that a machine reads.
type srcEdge struct {
	set  byteSet
	name string
	to   int
	eof  bool
	tags []string
}

type source struct {
	n     *nfa // nil: every text
	cache map[int][]srcEdge
}

func newSource(x *re) *source {
	if x == nil {
		return &source{}
	}
	return &source{n: newNFA(x), cache: map[int][]srcEdge{}}
}

func (s *source) start() int {
	if s.n == nil {
		return 0
	}
	return s.n.start
}

func (s *source) next(q int) (out []srcEdge) {
	if s.n == nil {
		return []srcEdge{{set: anyByte}, {eof: true}}
	}
	if es, ok := s.cache[q]; ok {
		return es
	}
	type at struct {
		q    int
		tags string
	}
	seen := map[at]bool{}
	var visit func(q int, tags []string)
	visit = func(q int, tags []string) {
		k := at{q, strings.Join(tags, " ")}
		if seen[k] {
			return
		}
		seen[k] = true
		if q == s.n.accept {
			out = append(out, srcEdge{eof: true, tags: tags})
		}
		for _, e := range s.n.edges[q] {
			switch {
			case e.tag != "":
				visit(e.to, append(tags[:len(tags):len(tags)], e.tag))
			case e.free():
				visit(e.to, tags)
			default:
				out = append(out, srcEdge{set: e.set, name: e.name, to: e.to, tags: tags})
			}
		}
	}
	visit(q, nil)
	sort.SliceStable(out, func(i, j int) bool { return !out[i].eof && out[j].eof })
	s.cache[q] = out
	return
}

// atoms is the sequence that x is made of.
func (x *re) atoms() (out []*re) {
	if x.kind != '.' {
		return []*re{x}
	}
	for _, s := range x.sub {
		out = append(out, s.atoms()...)
	}
	return
}

func (x *re) key() string {
	var sb strings.Builder
	var rec func(x *re)
	rec = func(x *re) {
		fmt.Fprintf(&sb, "%c%x%s(", x.kind, x.set, x.name)
		for _, s := range x.sub {
			rec(s)
		}
		sb.WriteByte(')')
	}
	rec(x)
	return sb.String()
}

// rFactor is the choice between the sequences, with common starts only once.
func rFactor(seqs [][]*re) *re {
	var order []string
	by := map[string][][]*re{}
	first := map[string]*re{}
	empty := false
	for _, s := range seqs {
		if len(s) == 0 {
			empty = true
			continue
		}
		k := s[0].key()
		if _, ok := by[k]; !ok {
			order = append(order, k)
			first[k] = s[0]
		}
		by[k] = append(by[k], s[1:])
	}
	var alts []*re
	if empty {
		alts = append(alts, rSeq())
	}
	for _, k := range order {
		if len(by[k]) == 1 {
			alts = append(alts, rSeq(append([]*re{first[k]}, by[k][0]...)...))
		} else {
			alts = append(alts, rSeq(first[k], rFactor(by[k])))
		}
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return rAlt(alts...)
}

func (x *re) nullable() bool {
	switch x.kind {
	case 's', 'n':
		return false
	case '.':
		for _, s := range x.sub {
			if !s.nullable() {
				return false
			}
		}
	case '|':
		for _, s := range x.sub {
			if s.nullable() {
				return true
			}
		}
		return false
	}
	return true
}
