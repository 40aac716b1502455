package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walk visits the code an operation executes: its body, the closures it hands out and the functions of the
// repository it calls, with the parameters bound to the arguments of the call that led there.
type walk struct {
	w    *World
	env  map[*ssa.Parameter]ssa.Value
	each func(in ssa.Instruction)
	on   map[*ssa.Function]bool
	ints *[]ssa.Value // collects the formatted numbers in order
}

func newWalk(w *World, each func(in ssa.Instruction)) *walk {
	return &walk{w: w, env: map[*ssa.Parameter]ssa.Value{}, each: each, on: map[*ssa.Function]bool{}}
}

func (k *walk) visit(f *ssa.Function, depth int) {
	if f == nil || f.Blocks == nil || k.on[f] || depth > 8 {
		return
	}
	k.on[f] = true
	defer delete(k.on, f)
	eachInstr(f, func(in ssa.Instruction) {
		k.each(in)
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if !ci.Common().IsInvoke() {
			for _, g := range k.w.Callees(ci) {
				if !k.w.own(g) {
					continue
				}
				saved := map[*ssa.Parameter]ssa.Value{}
				for i, p := range g.Params {
					saved[p] = k.env[p]
					if a := argFor(ci, g, i); a != nil && a != ssa.Value(p) {
						k.env[p] = a
					} else {
						delete(k.env, p)
					}
				}
				k.visit(g, depth+1)
				for p, v := range saved {
					if v == nil {
						delete(k.env, p)
					} else {
						k.env[p] = v
					}
				}
			}
		}
		for _, g := range k.w.Callees(ci) {
			if k.w.own(g) {
				return // calls the closures it is given itself
			}
		}
		for _, a := range ci.Common().Args { // closures handed to a library run inside the call
			if mc, ok := a.(*ssa.MakeClosure); ok {
				k.visit(mc.Fn.(*ssa.Function), depth+1)
			}
		}
	})
}

// own: the function belongs to the repository.
func (w *World) own(f *ssa.Function) bool {
	o := outermost(f)
	return o.Pkg != nil && w.Own[o.Pkg] && o.Blocks != nil
}

// value resolves parameters, captured variables, conversions and single-assignment cells.
func (k *walk) value(v ssa.Value, d int) ssa.Value {
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if a := k.env[x]; a != nil {
				v = a
				continue
			}
			return v
		case *ssa.FreeVar:
			if b := k.w.bindingOf(x); b != nil {
				v = b
				continue
			}
			return v
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			root := k.w.cellRoot(x.X)
			if al, ok := root.(*ssa.Alloc); ok && deref(al.Type()) != nil {
				if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); isStruct {
					return v
				}
				if st := k.w.storesTo(al); len(st) == 1 {
					v = st[0].Val
					continue
				}
				if s := lastStoreBefore(x); s != nil {
					v = s.Val
					continue
				}
			}
			return v
		}
		return v
	}
	return v
}

// atoms renders a string (or byte slice) expression as the sequence of its parts: "c:text" for constants,
// "f:Type.Field" for fields, "p:i" for parameter i of the operation, "int" for formatted numbers.
func (k *walk) atoms(v ssa.Value, d int) []string {
	if d > 12 {
		return []string{"?"}
	}
	v = k.value(v, d)
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok {
			if s == "" {
				return nil
			}
			return []string{"c:" + s}
		}
		if x.IsNil() {
			return nil
		}
		return []string{"c:" + x.Value.String()}
	case *ssa.Convert:
		return k.atoms(x.X, d+1)
	case *ssa.BinOp:
		if x.Op == token.ADD && isText(x.Type()) {
			return joinAtoms(k.atoms(x.X, d+1), k.atoms(x.Y, d+1))
		}
	case *ssa.Parameter:
		return []string{"p:" + x.Name() + "@" + fmtInt(paramIndex(x)) + "@" + localName(x.Parent())}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if o, f, ok := fieldName(x.X); ok {
				return []string{"f:" + o + "." + f}
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return []string{"g:" + g.Name()}
			}
		}
	case *ssa.Field:
		if o, f, ok := fieldName(x); ok {
			return []string{"f:" + o + "." + f}
		}
	case *ssa.Call:
		switch calleeName(x) {
		case "fmt.Sprintf":
			if r, ok := k.format(x, d); ok {
				return r
			}
		case "fmt.Appendf":
			if len(x.Call.Args) == 3 {
				if fs, ok := constString(k.value(x.Call.Args[1], d)); ok {
					if args, ok := k.varargs(x.Call.Args[2]); ok {
						if r, ok := k.formatted(fs, args, d); ok {
							return joinAtoms(k.atoms(x.Call.Args[0], d+1), r)
						}
					}
				}
			}
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
			k.gotInt(k.value(x.Call.Args[0], d))
			return []string{"int"}
		case "strings.Join":
			if args, ok := k.varargs(x.Call.Args[0]); ok {
				var out []string
				for i, a := range args {
					if i > 0 {
						out = joinAtoms(out, k.atoms(x.Call.Args[1], d+1))
					}
					out = joinAtoms(out, k.atoms(a, d+1))
				}
				return out
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && isText(x.Call.Args[1].Type()) {
			return joinAtoms(k.atoms(x.Call.Args[0], d+1), k.atoms(x.Call.Args[1], d+1))
		}
		if r := k.inline(x); r != nil {
			return k.inCall(x, func() []string { return k.atoms(r, d+1) })
		}
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		k.gotInt(v)
		return []string{"int"}
	}
	return []string{"?"}
}

func fmtInt(i int) string {
	if i < 0 {
		return "-"
	}
	return string(rune('0' + i))
}

// inline gives the single value an own single-result function returns.
func (k *walk) inline(c *ssa.Call) ssa.Value {
	cs := k.w.Callees(c)
	if len(cs) != 1 || !k.w.own(cs[0]) || c.Call.IsInvoke() {
		return nil
	}
	var r ssa.Value
	for _, b := range cs[0].Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || r != nil {
				return nil
			}
			r = retVals(ret)[0]
		}
	}
	return r
}

func (k *walk) inCall(c *ssa.Call, fn func() []string) []string {
	g := k.w.Callees(c)[0]
	saved := map[*ssa.Parameter]ssa.Value{}
	for i, p := range g.Params {
		saved[p] = k.env[p]
		if a := argFor(c, g, i); a != nil {
			k.env[p] = a
		}
	}
	out := fn()
	for p, v := range saved {
		if v == nil {
			delete(k.env, p)
		} else {
			k.env[p] = v
		}
	}
	return out
}

func (k *walk) varargs(v ssa.Value) ([]ssa.Value, bool) {
	if isNilConst(v) {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := constInt(ia.Index)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
				out[n] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

func (k *walk) format(c *ssa.Call, d int) ([]string, bool) {
	if len(c.Call.Args) != 2 {
		return nil, false
	}
	fs, ok := constString(k.value(c.Call.Args[0], d))
	if !ok {
		return nil, false
	}
	args, ok := k.varargs(c.Call.Args[1])
	if !ok {
		return nil, false
	}
	return k.formatted(fs, args, d)
}

func (k *walk) formatted(fs string, args []ssa.Value, d int) ([]string, bool) {
	var out []string
	lit := ""
	n := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += fs[i : i+1]
			continue
		}
		i++
		if i >= len(fs) {
			return nil, false
		}
		if fs[i] == '%' {
			lit += "%"
			continue
		}
		if !strings.ContainsRune("svd", rune(fs[i])) || n >= len(args) {
			return nil, false
		}
		if lit != "" {
			out = joinAtoms(out, []string{"c:" + lit})
			lit = ""
		}
		out = joinAtoms(out, k.atoms(args[n], d+1))
		n++
	}
	if lit != "" {
		out = joinAtoms(out, []string{"c:" + lit})
	}
	return out, n == len(args)
}

func joinAtoms(a, b []string) []string {
	out := append([]string{}, a...)
	for _, x := range b {
		if strings.HasPrefix(x, "c:") && len(out) > 0 && strings.HasPrefix(out[len(out)-1], "c:") {
			out[len(out)-1] += x[2:]
			continue
		}
		out = append(out, x)
	}
	return out
}

func isText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isBytes(t)
	}
	return false
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func (k *walk) gotInt(v ssa.Value) {
	if k.ints != nil {
		*k.ints = append(*k.ints, v)
	}
}
