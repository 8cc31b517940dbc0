package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "E01",
		explanation: "Error discipline over the SSA form of all packages: for every call that returns an error from a function of the repository, encoding/json or strconv, (1) the error is tested, returned or passed on, (2) the other results are used only where the error is known to be nil or together with the error, and (3) the branch in which the error is non-nil ends in returning an error, a panic or a report; conversions and lookups used as a test may fall through.",
		assumptions: []string{"an error passed to another function counts as reported"},
		run:         ruleE01})
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

// errUses follows an error value through phis, local variables and interface conversions.
type errFlow struct {
	vals     map[ssa.Value]bool
	tests    []*ssa.BinOp // comparisons with nil
	typeSw   bool         // inspected otherwise (errors.Is, type assertion, passed to a call)
	forward  bool         // returned or stored outside
	returned []*ssa.Return
	passed   []ssa.Instruction
}

func followErr(v ssa.Value) *errFlow {
	f := &errFlow{vals: map[ssa.Value]bool{}}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if f.vals[v] {
			return
		}
		f.vals[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.BinOp:
				if r.Op == token.EQL || r.Op == token.NEQ {
					f.tests = append(f.tests, r)
				}
			case *ssa.Phi:
				walk(r)
			case *ssa.Return:
				f.forward = true
				f.returned = append(f.returned, r)
			case *ssa.ChangeInterface:
				walk(r)
			case *ssa.MakeInterface:
				walk(r)
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				if al, ok := r.Addr.(*ssa.Alloc); ok {
					// a local variable: its loads
					for _, ar := range *al.Referrers() {
						switch ar := ar.(type) {
						case *ssa.UnOp:
							if reachableAfter(r, ar) {
								walk(ar)
							}
						case *ssa.MakeClosure:
							f.forward = true
						}
					}
				} else if ia, ok := r.Addr.(*ssa.IndexAddr); ok {
					// variadic argument
					if al, ok := ia.X.(*ssa.Alloc); ok {
						for _, ar := range *al.Referrers() {
							if s, ok := ar.(*ssa.Slice); ok {
								walk(s)
							}
						}
					}
				} else {
					f.forward = true
				}
			case ssa.CallInstruction:
				f.typeSw = true
				f.passed = append(f.passed, r)
			case *ssa.TypeAssert, *ssa.Panic, *ssa.Send, *ssa.MapUpdate:
				f.typeSw = true
				f.passed = append(f.passed, r)
			}
		}
	}
	walk(v)
	return f
}

// reachableAfter: can control flow from a to b
func reachableAfter(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		todo = append(todo, x.Succs...)
	}
	return false
}

func ruleE01(c *Ctx) {
	scope := map[string]bool{"": true, pkgTson: true, pkgPat: true, pkgLog: true}
	for _, fn := range c.p.fns {
		if pk := fnPkg(fn); pk == nil || !scope[strings.TrimPrefix(strings.TrimPrefix(pk.Pkg.Path(), c.p.mod), "/")] {
			continue
		}
		if fn.Synthetic != "" && !strings.Contains(fn.Name(), "init") {
			continue
		}
		if strings.HasSuffix(c.p.fset.Position(fn.Pos()).Filename, "_test.go") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c.errCall(fn, call)
			}
		}
	}
	c.atLeast("error-consumed", 30)
	c.atLeast("result-guarded", 20)
	c.atLeast("failure-reported", 20)
}

func calleeName(call ssa.CallInstruction) (pkg, name string) {
	cc := call.Common()
	if cc.IsInvoke() {
		if cc.Method.Pkg() != nil {
			return cc.Method.Pkg().Path(), cc.Method.Name()
		}
		return "", cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if pk := fnPkg(f); pk != nil {
			return pk.Pkg.Path(), f.Name()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path(), f.Name()
		}
		return "", f.Name()
	}
	return "func", cc.Value.Name()
}

func (c *Ctx) errCall(fn *ssa.Function, call ssa.CallInstruction) {
	sig := call.Common().Signature()
	rs := sig.Results()
	if rs.Len() == 0 || !isErr(rs.At(rs.Len()-1).Type()) {
		return
	}
	pkg, name := calleeName(call)
	repo := strings.HasPrefix(pkg, c.p.mod) || pkg == "func"
	if !repo && pkg != "encoding/json" && pkg != "strconv" {
		return
	}
	if strings.HasSuffix(name, "Print") {
		return
	}
	c.analysed[fn.String()] = true
	construct := fmt.Sprintf("%s: call of %s.%s", fn.RelString(nil), shortPkg(pkg), name)
	where := c.p.where(call)
	var ev ssa.Value
	var others []ssa.Value
	if v := call.Value(); v != nil {
		if rs.Len() == 1 {
			ev = v
		} else if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Extract:
					if r.Index == rs.Len()-1 {
						ev = r
					} else {
						others = append(others, r)
					}
				case *ssa.Return:
					c.ok("error-consumed", construct)
					return // the tuple is forwarded
				}
			}
		}
	}
	soft := c.softCallee(call)
	if ev == nil || len(followErr(ev).tests) == 0 && !followErr(ev).typeSw && !followErr(ev).forward {
		// an encoder may be left unchecked if it cannot fail or if its output
		// only goes to a decoder that rejects an empty text and is checked
		if c.cannotFail(call) || len(others) > 0 && c.onlyToDecoder(others) {
			c.ok("error-consumed", construct+" (checked by the decoder of its output, or infallible)")
			return
		}
		if ev == nil {
			c.bad("error-consumed", construct, where, "the error is dropped")
		} else {
			c.bad("error-consumed", construct, where, "the error is never looked at")
		}
		return
	}
	fl := followErr(ev)
	c.ok("error-consumed", construct)

	// (2) results that came with an error
	for _, o := range others {
		if o.Referrers() == nil {
			continue
		}
		for _, u := range *o.Referrers() {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if c.guardedUse(o, u, fl) {
				c.ok("result-guarded", construct)
			} else {
				c.bad("result-guarded", construct, c.p.where(u), "a result of this call is used although its error may be set")
			}
		}
	}
	// (3) the failing branch reacts
	if soft {
		return
	}
	for _, t := range fl.tests {
		if !isNilConst(t.X) && !isNilConst(t.Y) {
			continue // compared with a particular error
		}
		for _, r := range *t.Referrers() {
			iff, ok := r.(*ssa.If)
			if !ok {
				continue
			}
			bad := iff.Block().Succs[0]
			if t.Op == token.EQL {
				bad = iff.Block().Succs[1]
			}
			if w := c.swallows(bad, iff.Block(), fl); w == "" {
				c.ok("failure-reported", construct)
			} else {
				c.bad("failure-reported", construct, c.p.where(t), "the branch in which the error is set goes on as if nothing had failed: it reaches %s without returning the error, panicking or reporting it", w)
			}
		}
	}
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// softCallee: conversions and lookups whose failure is an ordinary answer.
func (c *Ctx) softCallee(call ssa.CallInstruction) bool {
	pkg, name := calleeName(call)
	if pkg == "strconv" {
		return true
	}
	if pkg == "encoding/json" && (name == "Int64" || name == "Float64") {
		return true
	}
	f := call.Common().StaticCallee()
	if f == nil || !c.p.inRepo(f) {
		return false
	}
	if pkg == modPath+"/"+pkgTson && name == "GetValue" {
		return true
	}
	if f.Signature.Recv() != nil || len(f.FreeVars) > 0 {
		return false
	}
	basic := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			if _, ok := t.At(i).Type().Underlying().(*types.Basic); !ok && !isErr(t.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return basic(f.Signature.Params()) && basic(f.Signature.Results()) && f.Signature.Results().Len() > 1
}

// cannotFail: encoding a string always succeeds.
func (c *Ctx) cannotFail(call ssa.CallInstruction) bool {
	pkg, name := calleeName(call)
	if pkg != "encoding/json" || name != "Marshal" {
		return false
	}
	mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
	return ok && isString(mi.X.Type())
}

func (c *Ctx) onlyToDecoder(vals []ssa.Value) bool {
	for _, v := range vals {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			call, ok := r.(ssa.CallInstruction)
			if !ok {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				return false
			}
			sig := call.Common().Signature()
			n := sig.Results().Len()
			if n == 0 || !isErr(sig.Results().At(n-1).Type()) {
				return false
			}
			if _, ok := v.Type().Underlying().(*types.Slice); !ok {
				return false
			}
		}
	}
	return true
}

// guardedUse: u uses o only where the error is nil, or hands both on.
func (c *Ctx) guardedUse(o ssa.Value, u ssa.Instruction, fl *errFlow) bool {
	if r, ok := u.(*ssa.Return); ok {
		for _, x := range r.Results {
			if fl.vals[x] {
				return true
			}
		}
	}
	for _, t := range fl.tests {
		if !isNilConst(t.X) && !isNilConst(t.Y) {
			continue
		}
		for _, r := range *t.Referrers() {
			iff, ok := r.(*ssa.If)
			if !ok {
				continue
			}
			good := iff.Block().Succs[1]
			if t.Op == token.EQL {
				good = iff.Block().Succs[0]
			}
			if len(good.Preds) == 1 && good.Dominates(u.Block()) {
				return true
			}
			if ph, ok := u.(*ssa.Phi); ok {
				all := true
				for i, e := range ph.Edges {
					if e != o {
						continue
					}
					p := ph.Block().Preds[i]
					if !(len(good.Preds) == 1 && good.Dominates(p)) && !(p == iff.Block() && ph.Block() == good) {
						all = false
					}
				}
				if all {
					return true
				}
			}
			// kept before the test, dropped by the failing branch
			if u.Block() == iff.Block() {
				switch u.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.MakeInterface, *ssa.ChangeInterface:
					return true
				}
			}
		}
	}
	// tested by something else than a comparison with nil, or forwarded whole
	if len(fl.tests) == 0 && (fl.typeSw || fl.forward) {
		switch u := u.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi:
			return true
		case *ssa.Return:
			_ = u
			return true
		}
	}
	// joined together with the error: the joined value is judged in its place
	if ph, ok := u.(*ssa.Phi); ok {
		joined := false
		for _, in := range ph.Block().Instrs {
			if e, ok := in.(*ssa.Phi); ok && fl.vals[e] && e != ph {
				joined = true
				for i, x := range ph.Edges {
					if x == o && !fl.vals[e.Edges[i]] {
						joined = false
					}
				}
				if joined {
					break
				}
			}
		}
		if joined && ph.Referrers() != nil {
			for _, r := range *ph.Referrers() {
				if _, ok := r.(*ssa.DebugRef); !ok && !c.guardedUse(ph, r, fl) {
					return false
				}
			}
			return true
		}
	}
	// wrapping for return: the wrapped value is returned together with the error
	switch w := u.(type) {
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert:
		v := w.(ssa.Value)
		if v.Referrers() != nil && len(*v.Referrers()) > 0 {
			for _, r := range *v.Referrers() {
				if !c.guardedUse(v, r, fl) {
					return false
				}
			}
			return true
		}
	}
	return false
}

var reporters = map[string]bool{"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "http.Error": true, "os.Exit": true}

// swallows explores the paths from the failing branch; it returns a
// description of an exit that ignores the failure, or "".
func (c *Ctx) swallows(from, test *ssa.BasicBlock, fl *errFlow) string {
	seen := map[*ssa.BasicBlock]bool{}
	res := ""
	var dfs func(b, pred *ssa.BasicBlock)
	dfs = func(b, pred *ssa.BasicBlock) {
		if seen[b] || res != "" {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic:
				return
			case ssa.CallInstruction:
				pkg, name := calleeName(in)
				if reporters[shortPkg(pkg)+"."+name] || pkg == "log" {
					return
				}
				for _, a := range in.Common().Args {
					if fl.vals[a] && pkg != "fmt" && pkg != "errors" {
						return
					}
				}
			case *ssa.Return:
				n := len(in.Results)
				if n > 0 && isErr(in.Results[n-1].Type()) {
					e := in.Results[n-1]
					if ph, ok := e.(*ssa.Phi); ok && ph.Block() == b && pred != nil {
						for i, p := range b.Preds {
							if p == pred {
								e = ph.Edges[i]
							}
						}
					}
					if !isNilConst(e) {
						return
					}
					res = "the successful return at " + c.p.where(in)
					return
				}
				res = "the return at " + c.p.where(in)
				return
			}
		}
		for _, s := range b.Succs {
			if s == test {
				res = "the next attempt at " + c.p.where(test.Instrs[len(test.Instrs)-1])
				return
			}
			dfs(s, b)
		}
	}
	dfs(from, test)
	return res
}

func shortPkg(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}
