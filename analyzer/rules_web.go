package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W01: no text of a web request becomes (part of) a file name.

func init() {
	register(&Rule{id: "W01",
		explanation: "Taint analysis over the SSA form of all packages: everything read from an *http.Request is tainted; taint follows operands, calls in both directions (arguments to parameters, results to callers), stores, containers, closures and struct fields, and ends at values of number and boolean types and where a text is known to have been accepted by a strconv number parser. No tainted text may be the name argument of a function that opens, serves, lists, creates or removes files.",
		assumptions: []string{"functions outside the repository do not keep what they are given for later calls", "a text that strconv accepts as a number contains no path separator"},
		run:         ruleW01})
}

type taint struct {
	c     *Ctx
	from  map[any]string // tainted value, cell or field -> origin
	work  []ssa.Value
	addr  map[string][]*ssa.Function // functions whose address is taken, by signature
	calls map[*ssa.Function][]ssa.CallInstruction
	loads map[string][]*ssa.UnOp
	fas   map[string][]ssa.Value
	sinks map[string]bool
	n     int
}

// canCarry: can a value of the type contain text?
func canCarry(t types.Type) bool { return carries(t, map[types.Type]bool{}) }

func carries(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Byte || u.Kind() == types.Int32 || u.Kind() == types.UnsafePointer
	case *types.Slice:
		return carries(u.Elem(), seen)
	case *types.Array:
		return carries(u.Elem(), seen)
	case *types.Map:
		return carries(u.Key(), seen) || carries(u.Elem(), seen)
	case *types.Pointer:
		return carries(u.Elem(), seen)
	case *types.Chan:
		return carries(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carries(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carries(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true // interfaces, functions
}

func isRequest(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "Request"
}

func (t *taint) mark(v ssa.Value, why string) {
	if v == nil || t.from[v] != "" || !canCarry(v.Type()) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	t.from[v] = why
	t.work = append(t.work, v)
}

func fieldKey(x types.Type, f int) string {
	if p, ok := x.Underlying().(*types.Pointer); ok {
		x = p.Elem()
	}
	return fmt.Sprintf("%s.%d", types.TypeString(x, nil), f)
}

// cell marks what an address refers to.
func (t *taint) cell(a ssa.Value, why string) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(a.X.Type(), a.Field)
		if t.from[k] == "" {
			t.from[k] = why
			for _, v := range t.fas[k] {
				t.mark(v, why)
				if fa, ok := v.(*ssa.FieldAddr); ok {
					t.loadsOf(fa, why)
				}
			}
		}
		return
	case *ssa.IndexAddr:
		t.mark(a.X, why)
		t.cellRoot(a.X, why)
		return
	}
	t.cellRoot(a, why)
}

// cellRoot marks the variable or value that contains the address.
func (t *taint) cellRoot(a ssa.Value, why string) {
	switch a := a.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
		t.mark(a, why)
	case *ssa.UnOp:
		t.mark(a, why)
		if a.Op == token.MUL {
			t.cell(a.X, why)
		}
	case *ssa.Slice:
		t.mark(a, why)
		t.cellRoot(a.X, why)
	case *ssa.Phi:
		if t.from[a] == "" {
			t.mark(a, why)
			for _, e := range a.Edges {
				t.cellRoot(e, why)
			}
		}
	default:
		t.mark(a, why)
	}
}

func (t *taint) loadsOf(a ssa.Value, why string) {
	if a.Referrers() == nil {
		return
	}
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			t.mark(u, why)
		}
	}
}

// numeric: the text is known to be a number where the block is reached.
func numeric(v ssa.Value, b *ssa.BasicBlock) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		f := c.Call.StaticCallee()
		if f == nil || fnPkg(f) == nil || fnPkg(f).Pkg.Path() != "strconv" {
			continue
		}
		switch f.Name() {
		case "Atoi", "ParseInt", "ParseUint":
		default:
			continue
		}
		for _, e := range *c.Referrers() {
			x, ok := e.(*ssa.Extract)
			if !ok || !isErr(x.Type()) {
				continue
			}
			for _, u := range *x.Referrers() {
				bo, ok := u.(*ssa.BinOp)
				if !ok || !isNilConst(bo.X) && !isNilConst(bo.Y) {
					continue
				}
				for _, w := range *bo.Referrers() {
					i, ok := w.(*ssa.If)
					if !ok {
						continue
					}
					s := i.Block().Succs[0]
					if bo.Op == token.NEQ {
						s = i.Block().Succs[1]
					}
					if len(s.Preds) == 1 && s.Dominates(b) {
						return true
					}
				}
			}
		}
	}
	return false
}

// fileNames: the arguments of a call that name files.
func fileNames(f *ssa.Function) (idx []int) {
	if f == nil || fnPkg(f) == nil {
		return nil
	}
	all := func() {
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				idx = append(idx, i)
			}
			if s, ok := p.Type().(*types.Slice); ok && i == len(f.Params)-1 && f.Signature.Variadic() {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					idx = append(idx, i)
				}
			}
		}
		if len(f.Params) == 0 {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if b, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					k := i
					if f.Signature.Recv() != nil {
						k++
					}
					idx = append(idx, k)
				}
			}
		}
	}
	n := f.Name()
	switch fnPkg(f).Pkg.Path() {
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Setenv", "Unsetenv", "Expand", "ExpandEnv", "NewSyscallError", "Error", "WriteString", "Getpid":
		default:
			all()
		}
	case "io/ioutil":
		all()
	case "net/http":
		switch n {
		case "ServeFile", "ServeFileFS":
			all()
		}
	case "path/filepath":
		switch n {
		case "Walk", "WalkDir", "Glob", "EvalSymlinks":
			all()
		}
	case "html/template", "text/template":
		switch n {
		case "ParseFiles", "ParseGlob", "ParseFS":
			all()
		}
	case "io/fs":
		switch n {
		case "ReadFile", "ReadDir", "Stat", "Glob", "WalkDir", "Sub":
			all()
		}
	}
	return
}

func ruleW01(c *Ctx) {
	t := &taint{c: c, from: map[any]string{}, addr: map[string][]*ssa.Function{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, fas: map[string][]ssa.Value{}, sinks: map[string]bool{}}
	handlers := 0
	files := 0
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					k := fieldKey(in.X.Type(), in.Field)
					t.fas[k] = append(t.fas[k], in)
				case *ssa.Field:
					k := fieldKey(in.X.Type(), in.Field)
					t.fas[k] = append(t.fas[k], in)
				}
				var direct ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					direct = ci.Common().Value
					if g := ci.Common().StaticCallee(); g != nil {
						t.calls[g] = append(t.calls[g], ci)
						if len(fileNames(g)) > 0 {
							files++
						}
						if fnPkg(g) != nil && fnPkg(g).Pkg.Path() == "net/http" && strings.HasPrefix(g.Name(), "FileServer") {
							c.bad("file-name", f.String()+" "+g.Name(), c.p.where(in), "%s serves the files that the path of a request names", g.Name())
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != direct && g.Blocks != nil {
						k := types.TypeString(g.Signature, nil)
						t.addr[k] = append(t.addr[k], g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					k := types.TypeString(g.Signature, nil)
					t.addr[k] = append(t.addr[k], g)
				}
			}
		}
	}
	for _, f := range c.p.fns {
		has := false
		for _, p := range f.Params {
			if isRequest(p.Type()) {
				has = true
				t.mark(p, "the request in "+f.Name())
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && isRequest(v.Type()) {
					t.mark(v, "the request in "+f.Name())
				}
			}
		}
		if has {
			handlers++
			c.analysed[f.String()] = true
		}
	}
	for len(t.work) > 0 {
		v := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		t.spread(v)
	}
	c.notes["tainted values"] = len(t.from)
	c.notes["request handlers"] = handlers
	c.notes["calls that name files"] = files
	if handlers == 0 || files == 0 {
		c.undecided("coverage", "handlers", "-", "no function takes a request, or none opens a file")
		return
	}
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				for _, i := range fileNames(g) {
					if i >= len(ci.Common().Args) {
						continue
					}
					name := f.String() + ": " + g.Name()
					a := ci.Common().Args[i]
					why := t.from[a]
					if why != "" && numeric(a, b) {
						why = ""
					}
					c.check(why == "", "file-name", name, c.p.where(in), "the name given to %s contains text from %s", g.Name(), why)
				}
			}
		}
	}
}

// spread marks what a tainted value reaches.
func (t *taint) spread(v ssa.Value) {
	why := t.from[v]
	if g, ok := v.(*ssa.Global); ok {
		for _, f := range t.c.p.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						t.mark(u, why)
					}
				}
			}
		}
		return
	}
	if v.Referrers() == nil {
		return
	}
	if p, ok := v.(*ssa.Parameter); ok {
		// an object that the function fills for its callers
		if _, ptr := p.Type().Underlying().(*types.Pointer); ptr && !isRequest(p.Type()) {
			f := p.Parent()
			for i, q := range f.Params {
				if q == p {
					for _, ci := range t.calls[f] {
						if i < len(ci.Common().Args) {
							t.cellRoot(ci.Common().Args[i], why)
						}
					}
				}
			}
		}
	}
	for _, r := range *v.Referrers() {
		if numeric(v, r.Block()) {
			continue
		}
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v {
				t.cell(r.Addr, why)
			}
		case *ssa.MapUpdate:
			if r.Value == v || r.Key == v {
				t.cellRoot(r.Map, why)
			}
		case *ssa.Send:
			if r.X == v {
				t.cellRoot(r.Chan, why)
			}
		case *ssa.Return:
			f := r.Parent()
			for i, x := range r.Results {
				if x != v {
					continue
				}
				for _, ci := range t.calls[f] {
					cv := ci.Value()
					if cv == nil {
						continue
					}
					if len(r.Results) == 1 {
						t.mark(cv, why)
						continue
					}
					for _, u := range *cv.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == i {
							t.mark(e, why)
						}
					}
				}
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v {
					t.mark(f.FreeVars[i], why)
				}
			}
		case ssa.CallInstruction:
			t.call(r, v, why)
		case *ssa.Index, *ssa.IndexAddr:
			if i, ok := r.(*ssa.Index); ok && i.X != v {
				continue
			}
			if i, ok := r.(*ssa.IndexAddr); ok && i.X != v {
				continue
			}
			t.mark(r.(ssa.Value), why)
		case *ssa.Lookup:
			// the key only chooses
			if r.X == v {
				t.mark(r, why)
			}
		case *ssa.BinOp:
			if r.Op == token.ADD {
				t.mark(r, why)
			}
		case ssa.Value:
			t.mark(r, why)
		}
	}
}

func (t *taint) call(r ssa.CallInstruction, v ssa.Value, why string) {
	com := r.Common()
	var callees []*ssa.Function
	if g := com.StaticCallee(); g != nil {
		if g.Blocks != nil && t.c.p.inRepo(g) {
			callees = append(callees, g)
		}
	} else if com.IsInvoke() {
		for _, g := range t.c.p.fns {
			if g.Signature.Recv() != nil && g.Name() == com.Method.Name() && types.Implements(g.Signature.Recv().Type(), com.Value.Type().Underlying().(*types.Interface)) {
				callees = append(callees, g)
			}
		}
	} else if _, ok := com.Value.(*ssa.Builtin); !ok {
		callees = t.addr[types.TypeString(com.Signature(), nil)]
	}
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	for _, g := range callees {
		for i, a := range args {
			if a == v && i < len(g.Params) {
				t.mark(g.Params[i], why)
			}
		}
	}
	if g := com.StaticCallee(); g != nil && len(callees) > 0 {
		return
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			t.mark(r.Value(), why)
		case "copy":
			if args[1] == v {
				t.cellRoot(args[0], why)
			}
		case "min", "max":
			t.mark(r.Value(), why)
		}
		return
	}
	// a function of another package: its results and what its other arguments
	// refer to can contain the text
	if x := r.Value(); x != nil {
		if tp, ok := x.Type().(*types.Tuple); ok {
			_ = tp
			for _, u := range *x.Referrers() {
				if e, ok := u.(*ssa.Extract); ok {
					t.mark(e, why)
				}
			}
		} else {
			t.mark(x, why)
		}
	}
	for _, a := range args {
		if a == v {
			continue
		}
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
			if !isRequest(a.Type()) {
				t.cell(a, why)
			}
		case *types.Interface:
			if mi, ok := a.(*ssa.MakeInterface); ok {
				if _, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
					t.cell(mi.X, why)
				}
			}
		case *types.Slice:
			// variadic arguments hold the pointers
			if s, ok := a.(*ssa.Slice); ok {
				if al, ok := s.X.(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						ia, ok := u.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						for _, w := range *ia.Referrers() {
							if st, ok := w.(*ssa.Store); ok {
								if mi, ok := st.Val.(*ssa.MakeInterface); ok {
									if _, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
										t.cell(mi.X, why)
									}
								}
							}
						}
					}
				}
			}
		}
	}
}
