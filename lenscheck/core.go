package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- callee resolution ----------

// Callees resolves the functions a call may enter among those that have a body in the repository,
// plus the static callee when it is external. Interface calls resolve to every implementation in the repository.
func (w *World) Callees(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if com.IsInvoke() {
		return w.implsOf(com.Value.Type(), com.Method)
	}
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{unwrapSynthetic(f)}
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	return w.funcsOf(com.Value, map[ssa.Value]bool{})
}

// unwrapSynthetic maps bound-method and thunk wrappers to the method they wrap.
func unwrapSynthetic(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			if real := f.Prog.FuncValue(fo); real != nil && len(real.Blocks) > 0 {
				return real
			}
		}
	}
	return f
}

func (w *World) implsOf(t types.Type, m *types.Func) []*ssa.Function {
	iface, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	// only interfaces declared in the repository: external ones (io.Reader, error ...) stay opaque
	if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	var out []*ssa.Function
	for sp := range w.Own {
		for _, mem := range sp.Members {
			ty, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			for _, cand := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
				if types.IsInterface(cand) || !types.Implements(cand, iface) {
					continue
				}
				sel := w.Prog.MethodSets.MethodSet(cand).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if fn := w.Prog.FuncValue(sel.Obj().(*types.Func)); fn != nil {
					out = append(out, fn)
				}
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// funcsOf finds the functions a function-typed value may hold.
func (w *World) funcsOf(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{unwrapSynthetic(v)}
	case *ssa.MakeClosure:
		return []*ssa.Function{unwrapSynthetic(v.Fn.(*ssa.Function))}
	case *ssa.ChangeType:
		return w.funcsOf(v.X, seen)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			out = append(out, w.funcsOf(e, seen)...)
		}
		return out
	case *ssa.UnOp:
		if v.Op == token.MUL {
			var out []*ssa.Function
			for _, s := range w.storesTo(v.X) {
				out = append(out, w.funcsOf(s.Val, seen)...)
			}
			return out
		}
	case *ssa.FreeVar:
		if b := w.bindingOf(v); b != nil {
			return w.funcsOf(b, seen)
		}
	case *ssa.Parameter:
		var out []*ssa.Function
		fn := v.Parent()
		idx := paramIndex(v)
		if idx < 0 || w.callersOf == nil {
			return nil
		}
		for _, c := range w.callersOf[fn] {
			if a := argFor(c, fn, idx); a != nil {
				out = append(out, w.funcsOf(a, seen)...)
			}
		}
		return out
	}
	return nil
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// argFor returns the argument bound to parameter idx (receiver included) of fn at call c.
func argFor(c ssa.CallInstruction, fn *ssa.Function, idx int) ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		if idx == 0 {
			return com.Value
		}
		if idx-1 < len(com.Args) {
			return com.Args[idx-1]
		}
		return nil
	}
	if idx < len(com.Args) && len(com.Args) == len(fn.Params) {
		return com.Args[idx]
	}
	// bound method closure: the receiver is captured
	if mc, ok := com.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 && len(com.Args)+1 == len(fn.Params) {
		if idx == 0 {
			return mc.Bindings[0]
		}
		return com.Args[idx-1]
	}
	return nil
}

// bindingOf returns the value captured by a closure's free variable.
func (w *World) bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	mc := w.closureOf(fn)
	if mc == nil {
		return nil
	}
	for i, x := range fn.FreeVars {
		if x == fv && i < len(mc.Bindings) {
			return mc.Bindings[i]
		}
	}
	return nil
}

func (w *World) closureOf(fn *ssa.Function) *ssa.MakeClosure {
	if w.closures != nil {
		if mc := w.closures[fn]; mc != nil {
			return mc
		}
	}
	if p := fn.Parent(); p != nil {
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return mc
				}
			}
		}
	}
	return nil
}

// cellRoot maps a captured cell (FreeVar) to the Alloc that defines it.
func (w *World) cellRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		if fv, ok := v.(*ssa.FreeVar); ok {
			if b := w.bindingOf(fv); b != nil {
				v = b
				continue
			}
		}
		break
	}
	return v
}

// storesTo lists the stores into a local cell (an Alloc, also through closures capturing it).
func (w *World) storesTo(addr ssa.Value) []*ssa.Store {
	root := w.cellRoot(addr)
	if _, ok := root.(*ssa.Alloc); !ok {
		if _, ok := root.(*ssa.Global); !ok {
			return nil
		}
	}
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if g, ok := v.(*ssa.Global); ok {
			for _, f := range w.Fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							out = append(out, s)
						}
					}
				}
			}
			return
		}
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out = append(out, r)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						walk(fn.FreeVars[i])
					}
				}
			}
		}
	}
	walk(root)
	return out
}

// ---------- names ----------

// calleeName gives a stable qualified name: "os.WriteFile", "(*sync.Mutex).Lock", "(io.Writer).Write".
func calleeName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return "(" + typeName(com.Value.Type()) + ")." + com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return fnQual(f)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func fnQual(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			if sig, ok := fo.Type().(*types.Signature); ok && sig.Recv() != nil {
				return "(" + typeName(sig.Recv().Type()) + ")." + fo.Name()
			}
			if fo.Pkg() != nil {
				return shortPkg(fo.Pkg().Path()) + "." + fo.Name()
			}
			return fo.Name()
		}
	}
	return FnName(f)
}

func shortPkg(p string) string {
	return strings.TrimPrefix(p, modPath+"/")
}

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
	return s
}

// ---------- constants ----------

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func constInt(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(x.Value); ok {
				return i, true
			}
			if u, ok := constant.Uint64Val(x.Value); ok {
				return int64(u), true
			}
		}
	case *ssa.Convert:
		return constInt(x.X)
	case *ssa.ChangeType:
		return constInt(x.X)
	}
	return 0, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func eachInstr(f *ssa.Function, fn func(in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

// withClosures lists f and every function literal nested in it.
func withClosures(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

// outermost returns the declared function enclosing f.
func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// Func finds a package-level function or method of package lens: "CopyDir" or "(*ASTModifier).Restore".
func (w *World) Func(name string) *ssa.Function {
	for _, f := range w.Fns {
		if f.Parent() == nil && f.Pkg == w.Lens && strings.TrimPrefix(localName(f), "lens.") == name {
			return f
		}
	}
	return nil
}

// localName is "CopyDir" or "(*ASTModifier).Restore" (methods without package qualifier).
func localName(f *ssa.Function) string {
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			sig := fo.Type().(*types.Signature)
			if sig.Recv() != nil {
				return "(" + types.TypeString(sig.Recv().Type(), func(p *types.Package) string { return "" }) + ")." + fo.Name()
			}
			return fo.Name()
		}
	}
	return f.Name()
}

// Type finds a named type of package lens.
func (w *World) Type(name string) *types.Named {
	if o := w.Lens.Pkg.Scope().Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			if n, ok := tn.Type().(*types.Named); ok {
				return n
			}
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	n, _ := deref(t).(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	if n == nil {
		if n2, ok := t.(*types.Named); ok {
			n = n2
		} else {
			return false
		}
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == pkg || shortPkg(n.Obj().Pkg().Path()) == pkg)
}

// fieldName returns "Type.Field" of a FieldAddr/Field instruction.
func fieldName(v ssa.Value) (owner string, field string, ok bool) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st := deref(v.X.Type()).Underlying().(*types.Struct)
		n := namedOf(v.X.Type())
		if n != nil {
			owner = n.Obj().Name()
		}
		return owner, st.Field(v.Field).Name(), true
	case *ssa.Field:
		st := v.X.Type().Underlying().(*types.Struct)
		if n := namedOf(v.X.Type()); n != nil {
			owner = n.Obj().Name()
		}
		return owner, st.Field(v.Field).Name(), true
	}
	return "", "", false
}

// retVals gives the values a return instruction returns, looking through the result cells that functions with
// deferred calls use (store; rundefers; load; return).
func retVals(r *ssa.Return) []ssa.Value {
	out := make([]ssa.Value, len(r.Results))
	for i, v := range r.Results {
		out[i] = v
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		if _, ok := ld.X.(*ssa.Alloc); !ok {
			continue
		}
		if s := lastStoreBefore(ld); s != nil {
			out[i] = s.Val
		}
	}
	return out
}

// lastStoreBefore finds the store to the loaded cell that precedes the load in its block, or in the chain of
// single predecessors above it.
func lastStoreBefore(ld *ssa.UnOp) *ssa.Store {
	b := ld.Block()
	from := len(b.Instrs)
	for i, in := range b.Instrs {
		if in == ssa.Instruction(ld) {
			from = i
		}
	}
	for n := 0; n < 20; n++ {
		for i := from - 1; i >= 0; i-- {
			if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == ld.X {
				return s
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		from = len(b.Instrs)
	}
	return nil
}
