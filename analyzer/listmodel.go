package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// listModel evaluates terms over lists for a list of a fixed length with
// distinct elements and a fixed index. It is used to show that two lists
// differ, never that they are the same.
type listModel struct {
	list, idx *Term
	n, i      int
}

func (m *listModel) num(t *Term) (int, bool) {
	if t == m.idx {
		return m.i, true
	}
	if k, ok := t.constInt(); ok {
		return int(k), true
	}
	switch t.op {
	case OAddK:
		b, k := splitAddK(t)
		if v, ok := m.num(b); ok {
			return v + int(k), true
		}
	case OLen:
		if l, ok := m.eval(t.args[0]); ok {
			return len(l), true
		}
	case OConvert:
		if b, ok := t.typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) {
			return m.num(t.args[0])
		}
	case OBin:
		x, ok1 := m.num(t.args[0])
		y, ok2 := m.num(t.args[1])
		if !ok1 || !ok2 {
			return 0, false
		}
		switch {
		case t.aux == "+":
			return x + y, true
		case t.aux == "-":
			return x - y, true
		case t.aux == "*":
			return x * y, true
		case t.aux == "/" && y != 0:
			return x / y, true
		}
	}
	return 0, false
}

// eval is the list t, one name for each element.
func (m *listModel) eval(t *Term) ([]string, bool) {
	if t == m.list {
		l := make([]string, m.n)
		for i := range l {
			l[i] = fmt.Sprint("#", i)
		}
		return l, true
	}
	switch t.op {
	case OSliceLit:
		var out []string
		for _, e := range t.args {
			s, ok := m.elem(e)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	case OMake:
		n, ok := m.num(t.args[0])
		if !ok || n < 0 || n > 100 {
			return nil, false
		}
		l := make([]string, n)
		for i := range l {
			l[i] = "nil"
		}
		return l, true
	case OConst:
		if t.isNil() {
			return nil, true
		}
	case OSliceOf:
		l, ok := m.eval(t.args[0])
		lo, ok1 := m.num(t.args[1])
		hi, ok2 := m.num(t.args[2])
		if ok && ok1 && ok2 && lo >= 0 && lo <= hi && hi <= len(l) {
			return l[lo:hi:hi], true
		}
	case OAppend:
		x, ok1 := m.eval(t.args[0])
		y, ok2 := m.eval(t.args[1])
		if ok1 && ok2 {
			return append(append([]string{}, x...), y...), true
		}
	case OStoreElem:
		l, ok := m.eval(t.args[0])
		i, ok1 := m.num(t.args[1])
		v, ok2 := m.elem(t.args[2])
		if ok && ok1 && ok2 && i >= 0 && i < len(l) {
			l = append([]string{}, l...)
			l[i] = v
			return l, true
		}
	case OCall:
		switch t.callName() {
		case "copy":
			x, ok1 := m.eval(t.args[0])
			y, ok2 := m.eval(t.args[1])
			if ok1 && ok2 {
				x = append([]string{}, x...)
				copy(x, y)
				return x, true
			}
		case "copyat":
			x, ok1 := m.eval(t.args[0])
			i, ok := m.num(t.args[1])
			y, ok2 := m.eval(t.args[2])
			if ok && ok1 && ok2 && i >= 0 && i <= len(x) {
				x = append([]string{}, x...)
				copy(x[i:], y)
				return x, true
			}
		}
	}
	return nil, false
}

func (m *listModel) elem(t *Term) (string, bool) {
	if t.isNil() {
		return "nil", true
	}
	if t.op == OElem {
		l, ok := m.eval(t.args[0])
		i, ok1 := m.num(t.args[1])
		if ok && ok1 && i >= 0 && i < len(l) {
			return l[i], true
		}
		return "", false
	}
	if t.contains(func(x *Term) bool { return x == m.list }) {
		return "", false
	}
	return "t" + fmt.Sprint(t.id), true
}

// holds decides a condition; conditions that do not concern the list or the
// index hold.
func (m *listModel) holds(pc *Conj) (holds, known bool) {
	for _, l := range pc.lits {
		v, ok := m.cond(l.atom)
		if !ok {
			if l.atom.contains(func(x *Term) bool { return x == m.list || x == m.idx }) {
				return false, false
			}
			continue
		}
		if v != l.val {
			return false, true
		}
	}
	return true, true
}

func (m *listModel) cond(t *Term) (v, ok bool) {
	switch t.op {
	case OConst:
		if t.obj != nil {
			if c, ok := t.obj.(constant.Value); ok && c.Kind() == constant.Bool {
				return constant.BoolVal(c), true
			}
		}
	case OLt, OEq:
		x, ok1 := m.num(t.args[0])
		y, ok2 := m.num(t.args[1])
		if ok1 && ok2 {
			if t.op == OLt {
				return x < y, true
			}
			return x == y, true
		}
	}
	return false, false
}

// refute looks for a length and an index for which got is not the wanted
// list, under the conditions pc.
func refute(list, idx *Term, got *Term, pc *Conj, want func(l []string, i int) []string) string {
	for n := 0; n <= 5; n++ {
		for i := 0; i <= 6; i++ {
			m := &listModel{list, idx, n, i}
			if h, known := m.holds(pc); !h || !known {
				continue
			}
			l, ok := m.eval(got)
			if !ok {
				continue
			}
			all, _ := m.eval(list)
			w := want(all, i)
			if w != nil && strings.Join(l, " ") != strings.Join(w, " ") {
				return fmt.Sprintf("for %d elements and the index %d it becomes [%s]", n, i, strings.Join(l, " "))
			}
		}
	}
	return ""
}
