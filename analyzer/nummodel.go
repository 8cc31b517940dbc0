package main

// intModel looks for small integers for which all integer conditions of pc
// hold and l does not. small is false if there are too many variables.
func intModel(pc *Conj, l Lit) (found, small bool) {
	var vars []*Term
	seen := map[*Term]bool{}
	good := true
	var collect func(t *Term)
	collect = func(t *Term) {
		switch {
		case t.op == OConst:
			if _, ok := t.constInt(); !ok {
				good = false
			}
		case t.op == OAddK:
			collect(t.args[0])
		case t.op == OBin && (t.aux == "+" || t.aux == "-" || t.aux == "*" || t.aux == "/" || t.aux == "%"):
			collect(t.args[0])
			collect(t.args[1])
		case !seen[t]:
			seen[t] = true
			vars = append(vars, t)
		}
	}
	isInt := func(a *Term) bool {
		if a.op != OLt && a.op != OEq {
			return false
		}
		for _, t := range a.args {
			if t.typ == nil || !isInteger(t.typ) {
				return false
			}
		}
		return true
	}
	var conds []Lit
	for _, x := range pc.lits {
		if isInt(x.atom) {
			conds = append(conds, x)
			collect(x.atom.args[0])
			collect(x.atom.args[1])
		}
	}
	if isInt(l.atom) {
		conds = append(conds, Lit{l.atom, !l.val})
		collect(l.atom.args[0])
		collect(l.atom.args[1])
	}
	if !good || len(vars) > 7 {
		return false, false
	}
	val := map[*Term]int64{}
	var eval func(t *Term) (int64, bool)
	eval = func(t *Term) (int64, bool) {
		if n, ok := t.constInt(); ok {
			return n, true
		}
		if t.op == OAddK {
			b, k := splitAddK(t)
			v, ok := eval(b)
			return v + k, ok
		}
		if t.op == OBin && len(t.args) == 2 && !seen[t] {
			x, ok1 := eval(t.args[0])
			y, ok2 := eval(t.args[1])
			if !ok1 || !ok2 {
				return 0, false
			}
			switch t.aux {
			case "+":
				return x + y, true
			case "-":
				return x - y, true
			case "*":
				return x * y, true
			case "/":
				if y != 0 {
					return x / y, true
				}
			case "%":
				if y != 0 {
					return x % y, true
				}
			}
			return 0, false
		}
		v, ok := val[t]
		return v, ok
	}
	values := []int64{-2, -1, 0, 1, 2, 3, 4}
	if len(vars) <= 3 {
		for _, c := range conds {
			for _, t := range c.atom.args {
				if _, k := splitAddK(t); k > 4 || k < -2 {
					values = append(values, k, k+1, k-1)
				}
			}
		}
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		// a condition all of whose variables have values
		for _, c := range conds {
			x, ok1 := eval(c.atom.args[0])
			y, ok2 := eval(c.atom.args[1])
			if !ok1 || !ok2 {
				if i == len(vars) {
					return false
				}
				continue
			}
			v := x == y
			if c.atom.op == OLt {
				v = x < y
			}
			if v != c.val {
				return false
			}
		}
		if i == len(vars) {
			return true
		}
		lo := int64(-2)
		if vars[i].op == OLen {
			lo = 0
		}
		for _, n := range values {
			if n < lo {
				continue
			}
			val[vars[i]] = n
			if rec(i + 1) {
				return true
			}
		}
		delete(val, vars[i])
		return false
	}
	return rec(0), true
}
