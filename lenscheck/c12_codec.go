package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkCodec }

// codec is the custom encoding of a stored type: what its fields are written into and read back from.
type codec struct {
	w     *World
	c     *Check
	enc   []*ssa.Function
	dec   []*ssa.Function
	known map[string]bool // structs taking part
	pairs [][2]*types.Named
	slots map[string]map[string]bool // S.F -> encoded fields
	refs  map[string]string          // ES.Pi -> dictionary field of E (from decoding)
	dicts map[string]string          // cell -> dictionary field of E (from encoding)
	T, E  *types.Named
}

// reach lists the functions of the repository that f may run.
func (w *World) reach(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !w.own(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(ci) {
					visit(g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				visit(mc.Fn.(*ssa.Function))
			}
		})
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return out
}

func structOf(t types.Type) *types.Named {
	for i := 0; i < 8; i++ {
		if n, ok := t.(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return n
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			return nil
		}
	}
	return nil
}

func isStructVal(t types.Type) *types.Named {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); ok {
		return n
	}
	return nil
}

const msgpackPkg = "github.com/vmihailenco/msgpack/v5"

func checkCodec(c *Check) {
	w := c.W
	c.Rule("slots", "every field of a stored type has its own encoded field, written from it and read back into it", 8)
	c.Rule("every-path", "on every path each field is written (read back), unless it was tested to be empty", 8)
	c.Rule("elements", "every element of a collection is converted and kept under its own key or index", 3)
	c.Rule("dict-ref", "a reference is decoded from the dictionary it was taken in", 2)
	c.Rule("dict-grow", "a reference is the place at which exactly its own element is appended", 2)
	c.Rule("dict-key", "the key under which a dictionary element is found again is computed from the very value it holds", 2)
	c.Rule("verbatim", "values which need no conversion are written and read back as they are", 8)
	c.Rule("tags", "encoded fields are exported and have distinct names", 3)
	var any bool
	for _, f := range w.Fns {
		if f.Name() != "UnmarshalMsgpack" || f.Signature.Recv() == nil || f.Pkg != w.Lens {
			continue
		}
		t := namedOf(f.Signature.Recv().Type())
		m := w.methodOf(t, "MarshalMsgpack")
		if m == nil {
			c.Bad("slots", t.Obj().Name(), w.Pos(f.Pos()), "decoded specially but not encoded specially")
			continue
		}
		any = true
		k := &codec{w: w, c: c, enc: w.reach(m), dec: w.reach(f), known: map[string]bool{}, slots: map[string]map[string]bool{},
			refs: map[string]string{}, dicts: map[string]string{}, T: t}
		k.run(f)
	}
	if !any {
		c.Bad("slots", "codec", "-", "no type with its own encoding found")
	}
}

func (k *codec) run(dec *ssa.Function) {
	w, c := k.w, k.c
	find := func(fns []*ssa.Function, names ...string) *types.Named {
		var out *types.Named
		for _, f := range fns {
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				n := calleeName(call)
				for _, want := range names {
					if n == want {
						for _, a := range append([]ssa.Value{}, call.Call.Args...) {
							for _, v := range w.ifaceArgs(a) {
								if s := structOf(v.Type()); s != nil && s.Obj().Pkg() == w.Lens.Pkg && isStructVal(deref(v.Type())) != nil {
									out = s
								}
							}
						}
					}
				}
			})
		}
		return out
	}
	e1 := find(k.enc, "(*"+msgpackPkg+".Encoder).Encode", msgpackPkg+".Marshal")
	e2 := find(k.dec, "(*"+msgpackPkg+".Decoder).Decode", msgpackPkg+".Unmarshal")
	name := k.T.Obj().Name()
	if e1 == nil || e2 == nil || e1.Obj() != e2.Obj() {
		c.Bad("slots", name, w.Pos(dec.Pos()), "it is not decoded from the type it is encoded as")
		return
	}
	k.E = e1
	k.known[name] = true
	k.known[e1.Obj().Name()] = true
	// the structs taking part: those reachable from the two
	var add func(t types.Type, d int)
	add = func(t types.Type, d int) {
		s := structOf(t)
		if s == nil || s.Obj().Pkg() != w.Lens.Pkg || d > 8 {
			return
		}
		if d > 0 && k.known[s.Obj().Name()] {
			return
		}
		k.known[s.Obj().Name()] = true
		st := s.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			add(st.Field(i).Type(), d+1)
		}
	}
	add(k.T, 0)
	add(k.E, 0)
	k.findDicts()
	k.pairs = [][2]*types.Named{{k.T, k.E}}
	done := map[string]bool{}
	plain := map[string]bool{}
	for i := 0; i < len(k.pairs); i++ {
		p := k.pairs[i]
		key := p[0].Obj().Name() + "/" + p[1].Obj().Name()
		if done[key] {
			continue
		}
		done[key] = true
		k.pair(p[0], p[1], dec, plain)
	}
	for i := range k.pairs {
		plain[k.pairs[i][1].Obj().Name()] = true
	}
	for _, n := range keys(plain) {
		k.tags(w.Type(n))
	}
	k.elements(k.enc, 0)
	k.elements(k.dec, 1)
	k.dictionaries()
}

// ifaceArgs: the values put into the interfaces a variadic or plain argument holds.
func (w *World) ifaceArgs(a ssa.Value) []ssa.Value {
	switch x := a.(type) {
	case *ssa.MakeInterface:
		return []ssa.Value{x.X}
	case *ssa.Slice:
		var out []ssa.Value
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok {
							out = append(out, w.ifaceArgs(st.Val)...)
						}
					}
				}
			}
		}
		return out
	}
	return nil
}

// src: the fields of participating structs a value is computed from; calls pass on what they are given.
func (k *codec) src(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	k.srcD(v, out, map[ssa.Value]bool{}, 0)
	return out
}

func (k *codec) srcD(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] || d > 40 {
		return
	}
	seen[v] = true
	w := k.w
	rec := func(x ssa.Value) { k.srcD(x, out, seen, d+1) }
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				rec(fa)
				return
			}
			root := w.cellRoot(x.X)
			if al, ok := root.(*ssa.Alloc); ok {
				for _, s := range w.storesTo(al) {
					rec(s.Val)
				}
				if isStructVal(deref(al.Type())) != nil {
					for _, r := range *al.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok {
							for _, s := range *fa.Referrers() {
								if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
									rec(st.Val)
								}
							}
						}
					}
				}
				return
			}
			rec(x.X)
			return
		}
		rec(x.X)
	case *ssa.FieldAddr:
		if o, f, ok := fieldName(x); ok && k.known[o] {
			out[o+"."+f] = true
			return
		}
		rec(x.X)
	case *ssa.Field:
		if o, f, ok := fieldName(x); ok && k.known[o] {
			out[o+"."+f] = true
			return
		}
		rec(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			rec(e)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			k.srcReturns(call, x.Index, rec)
		}
		rec(x.Tuple)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			rec(x.Call.Args[0])
			return
		}
		if x.Call.Signature().Results().Len() == 1 {
			k.srcReturns(x, 0, rec)
		}
		for _, a := range x.Call.Args {
			if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
				continue
			}
			rec(a)
		}
	case *ssa.Lookup:
		rec(x.X)
		rec(x.Index)
	case *ssa.IndexAddr:
		rec(x.X)
		rec(x.Index)
	case *ssa.Index:
		rec(x.X)
		rec(x.Index)
	case *ssa.Slice:
		rec(x.X)
	case *ssa.Convert:
		rec(x.X)
	case *ssa.ChangeType:
		rec(x.X)
	case *ssa.MakeInterface:
		rec(x.X)
	case *ssa.ChangeInterface:
		rec(x.X)
	case *ssa.TypeAssert:
		rec(x.X)
	case *ssa.Next:
		rec(x.Iter)
	case *ssa.Range:
		rec(x.X)
	case *ssa.BinOp:
		rec(x.X)
		rec(x.Y)
	case *ssa.Alloc:
		for _, s := range w.storesTo(x) {
			rec(s.Val)
		}
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						rec(st.Val)
					}
				}
			}
		}
	case *ssa.MakeMap, *ssa.MakeSlice:
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				rec(r.Key)
				rec(r.Value)
			case *ssa.IndexAddr:
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						rec(st.Val)
					}
				}
			}
		}
	case *ssa.FreeVar:
		rec(w.bindingOf(x))
	case *ssa.Parameter:
		if n := isStructVal(deref(x.Type())); n != nil && k.known[n.Obj().Name()] {
			return
		}
		f := x.Parent()
		for _, ci := range w.callersOf[f] {
			if a := argFor(ci, f, paramIndex(x)); a != nil {
				rec(a)
			}
		}
	}
}

// srcReturns follows a call that is given a whole object into the function.
func (k *codec) srcReturns(c *ssa.Call, idx int, rec func(ssa.Value)) {
	whole := false
	for _, a := range c.Call.Args {
		if n := isStructVal(deref(a.Type())); n != nil && k.known[n.Obj().Name()] {
			whole = true
		}
	}
	if !whole {
		return
	}
	for _, g := range k.w.Callees(c) {
		if !k.w.own(g) {
			continue
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				rec(retVals(r)[idx])
			}
		}
	}
}

// of keeps the fields of one struct.
func of(m map[string]bool, s *types.Named) []string {
	var out []string
	for _, n := range keys(m) {
		if strings.HasPrefix(n, s.Obj().Name()+".") {
			out = append(out, strings.TrimPrefix(n, s.Obj().Name()+"."))
		}
	}
	return out
}

type fieldStore struct {
	fa    *ssa.FieldAddr
	st    *ssa.Store
	field string
}

// storesOf lists the stores into fields of a struct in the given functions.
func storesOf(fns []*ssa.Function, s *types.Named) []fieldStore {
	var out []fieldStore
	for _, f := range fns {
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if n := namedOf(fa.X.Type()); n == nil || n.Obj() != s.Obj() {
				return
			}
			_, fn, _ := fieldName(fa)
			out = append(out, fieldStore{fa, st, fn})
		})
	}
	return out
}

func (k *codec) pair(S, ES *types.Named, dec *ssa.Function, plain map[string]bool) {
	w, c := k.w, k.c
	sn, en := S.Obj().Name(), ES.Obj().Name()
	encStores := storesOf(k.enc, ES)
	owner := map[string]string{}
	slots := map[string]map[string]bool{} // F -> G
	for _, fs := range encStores {
		if k.wholeRef(ES, fs.field) {
			continue
		}
		from := of(k.src(fs.st.Val), S)
		if len(from) == 0 {
			continue
		}
		if len(from) > 1 {
			c.Bad("slots", en+"."+fs.field, w.Pos(fs.st.Pos()), "written from more than one field: %v", from)
			continue
		}
		if o, ok := owner[fs.field]; ok && o != from[0] {
			c.Bad("slots", en+"."+fs.field, w.Pos(fs.st.Pos()), "holds %s as well as %s", o, from[0])
		}
		owner[fs.field] = from[0]
		if slots[from[0]] == nil {
			slots[from[0]] = map[string]bool{}
		}
		slots[from[0]][fs.field] = true
		k.same(en+"."+fs.field, fs.st, S, from[0])
	}
	decStores := storesOf(k.dec, S)
	st := S.Underlying().(*types.Struct)
	es := ES.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		F := st.Field(i).Name()
		id := sn + "." + F
		if len(slots[F]) == 0 {
			c.Bad("slots", id, w.Pos(st.Field(i).Pos()), "it is not written into any field of %s", en)
			continue
		}
		k.slots[id] = slots[F]
		// read back
		good := 0
		for _, fs := range decStores {
			if fs.field != F {
				continue
			}
			from := of(k.src(fs.st.Val), ES)
			if len(from) == 0 {
				for _, g := range decStores {
					if g.field == F && g.fa.X == fs.fa.X && len(of(k.src(g.st.Val), ES)) > 0 && g.st.Block().Dominates(fs.st.Block()) && (g.st.Block() != fs.st.Block() || instrIndex(g.st) < instrIndex(fs.st)) {
						c.Bad("slots", id, w.Pos(fs.st.Pos()), "what was read back is overwritten")
					}
				}
				continue
			}
			ok := true
			for _, g := range from {
				ok = ok && slots[F][g]
			}
			if !ok {
				c.Bad("slots", id, w.Pos(fs.st.Pos()), "it is read back from %v but was written to %v", from, keys(slots[F]))
				continue
			}
			for _, g := range from {
				k.same(id, fs.st, ES, g)
			}
			good++
		}
		c.Decide(good > 0, "slots", id, w.Pos(st.Field(i).Pos()), "it is never read back from %v", keys(slots[F]))
		for _, g := range keys(slots[F]) {
			for j := 0; j < es.NumFields(); j++ {
				if es.Field(j).Name() != g {
					continue
				}
				a, b := structOf(st.Field(i).Type()), structOf(es.Field(j).Type())
				if a == nil || b == nil {
					continue
				}
				if a.Obj() == b.Obj() {
					plain[a.Obj().Name()] = true
				} else {
					k.pairs = append(k.pairs, [2]*types.Named{a, b})
				}
			}
		}
	}
	// coverage of the objects built
	for _, f := range k.enc {
		k.cover(f, ES, encStores, func(F string, g string) bool { return slots[F][g] }, S, keysOf(slots), func(x map[string]bool, F string) bool {
			from := of(x, S)
			return len(from) == 1 && from[0] == F
		}, slots, false, nil)
	}
	for _, f := range k.dec {
		k.cover(f, S, decStores, func(F, g string) bool { return F == g }, ES, keysOf(slots), nil, slots, true, dec)
	}
}

func keysOf(m map[string]map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// same: when the two fields have one type the value is passed on unchanged.
func (k *codec) same(id string, st *ssa.Store, other *types.Named, field string) {
	os := other.Underlying().(*types.Struct)
	for i := 0; i < os.NumFields(); i++ {
		f := os.Field(i)
		if f.Name() != field {
			continue
		}
		if !types.Identical(f.Type(), st.Val.Type()) {
			_, b1 := f.Type().Underlying().(*types.Basic)
			_, b2 := st.Val.Type().Underlying().(*types.Basic)
			if b1 && b2 {
				k.c.Bad("verbatim", id, k.w.Pos(st.Pos()), "the value changes its type from %s to %s", f.Type(), st.Val.Type())
			}
			return
		}
		if isIntPtr(f.Type()) {
			return
		}
		k.c.Decide(k.verbatim(st.Val, map[ssa.Value]bool{}, 0), "verbatim", id, k.w.Pos(st.Pos()), "the value is changed on the way")
	}
}

// verbatim: v is the value of a field, possibly copied.
func (k *codec) verbatim(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return true
	}
	if d > 20 {
		return false
	}
	seen[v] = true
	rec := func(x ssa.Value) bool { return k.verbatim(x, seen, d+1) }
	returns := func(c *ssa.Call, idx int) bool {
		gs := k.w.Callees(c)
		if len(gs) == 0 {
			return false
		}
		for _, g := range gs {
			if !k.w.own(g) || len(g.Blocks) == 0 {
				return false
			}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !failsOnly(b) && !rec(retVals(r)[idx]) {
					return false
				}
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil || x.IsNil()
	case *ssa.Field:
		o, _, _ := fieldName(x)
		return k.known[o]
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			o, _, _ := fieldName(a)
			return k.known[o]
		case *ssa.IndexAddr:
			return len(of(k.src(a.X), k.E)) > 0
		}
		ss := k.w.storesTo(x.X)
		for _, s := range ss {
			if !rec(s.Val) {
				return false
			}
		}
		return len(ss) > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !rec(e) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && returns(c, x.Index)
	case *ssa.Call:
		switch n := calleeName(x); {
		case strings.HasPrefix(n, "maps.Clone"), strings.HasPrefix(n, "slices.Clone"), n == "strings.Clone", n == "bytes.Clone":
			return rec(x.Call.Args[0])
		}
		if isAppend(x) && len(x.Call.Args) == 2 {
			if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.IsNil() {
				return rec(x.Call.Args[1])
			}
			return false
		}
		return returns(x, 0)
	case *ssa.Parameter:
		cs := k.w.callersOf[x.Parent()]
		for _, ci := range cs {
			a := argFor(ci, x.Parent(), paramIndex(x))
			if a == nil || !rec(a) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// wholeRef: the field refers to a whole object of its own type in a dictionary.
func (k *codec) wholeRef(ES *types.Named, g string) bool {
	d := k.refs[ES.Obj().Name()+"."+g]
	if d == "" {
		return false
	}
	st := k.E.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == d {
			s := structOf(st.Field(i).Type().Underlying().(*types.Slice).Elem())
			return s != nil && s.Obj() == ES.Obj() && isStructVal(st.Field(i).Type().Underlying().(*types.Slice).Elem()) != nil
		}
	}
	return false
}

// emptyEdges: which fields of owner are known to be empty when the branch ending b goes to successor si.
func (k *codec) emptyEdge(b *ssa.BasicBlock, si int, owner *types.Named) map[string]bool {
	out := map[string]bool{}
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return out
	}
	cond, truth := ifi.Cond, si == 0
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, truth = u.X, !truth
	}
	mark := func(v ssa.Value) {
		from := of(k.src(v), owner)
		if len(from) == 1 {
			out[from[0]] = true
		}
	}
	direct := func(v ssa.Value) bool { // the field itself or its length
		if c, ok := v.(*ssa.Call); ok {
			b, ok := c.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len"
		}
		switch v.(type) {
		case *ssa.UnOp, *ssa.Field, *ssa.Parameter, *ssa.Extract:
			return true
		}
		return false
	}
	if cmp, ok := cond.(*ssa.BinOp); ok {
		op, x, y := cmp.Op, cmp.X, cmp.Y
		if _, isC := x.(*ssa.Const); isC {
			x, y, op = y, x, flip(op)
		}
		kc, isC := y.(*ssa.Const)
		if !isC || !direct(x) {
			return out
		}
		if !truth {
			op = negate(op)
		}
		if kc.Value == nil { // nil
			if op == token.EQL {
				mark(x)
			}
			return out
		}
		if s, ok := constString(kc); ok {
			if s == "" && op == token.EQL {
				mark(x)
			}
			return out
		}
		if n, ok := constInt(kc); ok {
			if n == 0 && (op == token.EQL || op == token.LEQ) || n == 1 && op == token.LSS {
				mark(x)
			}
		}
		return out
	}
	if !truth && isBool(cond.Type()) && direct(cond) {
		if _, isCall := cond.(*ssa.Call); !isCall {
			mark(cond)
		}
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// cover: every object of type O built in f has each wanted field stored on every path to its use.
func (k *codec) cover(f *ssa.Function, O *types.Named, stores []fieldStore, covers func(F, g string) bool, other *types.Named, want []string,
	_ func(map[string]bool, string) bool, slots map[string]map[string]bool, decoding bool, dec *ssa.Function) {
	w, c := k.w, k.c
	type object struct {
		base  ssa.Value
		start ssa.Instruction
	}
	var objs []object
	eachInstr(f, func(in ssa.Instruction) {
		if al, ok := in.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), O) {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					return // a copy of another object
				}
			}
			used := false
			for _, r := range *al.Referrers() {
				if _, ok := r.(*ssa.FieldAddr); ok {
					used = true
				}
			}
			if used {
				objs = append(objs, object{al, al})
			}
		}
	})
	if decoding && f == dec && O.Obj() == k.T.Obj() {
		objs = append(objs, object{f.Params[0], nil})
	}
	for _, ob := range objs {
		whole := false
		for _, fs := range stores {
			if fs.fa.X == ob.base && k.wholeRef(O, fs.field) {
				whole = true
			}
		}
		if whole {
			continue
		}
		if !decoding && O.Obj() == k.E.Obj() && false {
			continue
		}
		for _, F := range want {
			bad := k.uncovered(f, ob.base, ob.start, F, covers, other, slots, decoding)
			id := FnName(f) + " " + O.Obj().Name() + " " + F
			if bad == nil {
				c.Ok("every-path", id)
			} else {
				c.Bad("every-path", id, w.Pos(bad.Pos()), "an object is used although %s may not have been stored in it", F)
			}
		}
	}
}

func (k *codec) uncovered(f *ssa.Function, base ssa.Value, start ssa.Instruction, F string, covers func(F, g string) bool, other *types.Named, slots map[string]map[string]bool, decoding bool) ssa.Instruction {
	type pos struct {
		b     *ssa.BasicBlock
		i     int
		empty string // encoded fields known to be empty
	}
	need := []string{F}
	if decoding {
		need = keys(slots[F])
	}
	// a composite literal is built aside and then copied into its variable
	bases := map[ssa.Value]bool{base: true}
	copied := func(v ssa.Value) bool {
		refs := *v.Referrers()
		if len(refs) != 1 {
			return false
		}
		st, ok := refs[0].(*ssa.Store)
		if !ok || st.Val != v {
			return false
		}
		al, ok := st.Addr.(*ssa.Alloc)
		if !ok || !types.Identical(al.Type(), base.Type()) || len(k.w.storesTo(al)) != 1 {
			return false
		}
		bases[al] = true
		return true
	}
	seen := map[pos]bool{}
	var st []pos
	if start == nil {
		st = append(st, pos{f.Blocks[0], 0, ""})
	} else {
		st = append(st, pos{start.Block(), instrIndex(start) + 1, ""})
	}
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[p] {
			continue
		}
		seen[p] = true
		stop := false
		for i := p.i; i < len(p.b.Instrs) && !stop; i++ {
			in := p.b.Instrs[i]
			if in == start {
				stop = true
				break
			}
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && bases[fa.X] {
					_, g, _ := fieldName(fa)
					if covers(F, g) && len(of(k.src(x.Val), other)) > 0 && !k.contradicted(x) {
						stop = true
					}
				} else if bases[x.Val] {
					return in
				}
			case *ssa.UnOp:
				if bases[x.X] && x.Op == token.MUL && !copied(x) {
					return in
				}
			case *ssa.Return:
				if start == nil {
					if e := errResult(f.Signature); e >= 0 && !mayBeNil(retVals(x)[e], p.b) {
						stop = true
						break
					}
					return in
				}
				for _, r := range retVals(x) {
					if bases[r] {
						return in
					}
				}
			case *ssa.Call:
				for ai, a := range x.Call.Args {
					if !bases[a] {
						continue
					}
					for _, g := range k.w.Callees(x) {
						if ai < len(g.Params) {
							for _, s := range storesOf([]*ssa.Function{g}, namedOf(base.Type())) {
								if s.fa.X == ssa.Value(g.Params[ai]) && covers(F, s.field) {
									stop = true
								}
							}
						}
					}
				}
			case *ssa.MapUpdate:
				if bases[x.Value] {
					return in
				}
			}
		}
		if stop {
			continue
		}
		for si, s := range p.b.Succs {
			if decoding && failsOnly(s) {
				continue
			}
			e := map[string]bool{}
			for _, n := range strings.Fields(p.empty) {
				e[n] = true
			}
			for n := range k.emptyEdge(p.b, si, other) {
				e[n] = true
			}
			all := true
			for _, n := range need {
				all = all && e[n]
			}
			if all {
				continue
			}
			st = append(st, pos{s, 0, strings.Join(keys(e), " ")})
		}
	}
	return nil
}

func mayBeNil(v ssa.Value, at *ssa.BasicBlock) bool {
	if isNilConst(v) {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		n := calleeName(c)
		return n != "fmt.Errorf" && n != "errors.New"
	}
	return !nonNilAt(v, at)
}

// nonNilAt: a test on every path to the block says v is not nil.
func nonNilAt(v ssa.Value, at *ssa.BasicBlock) bool {
	for _, b := range at.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(cmp.X == v && isNilConst(cmp.Y) || cmp.Y == v && isNilConst(cmp.X)) {
			continue
		}
		if cmp.Op == token.NEQ && edgeDominates(b, 0, at) || cmp.Op == token.EQL && edgeDominates(b, 1, at) {
			return true
		}
	}
	return false
}

func nilAt(v ssa.Value, at *ssa.BasicBlock) bool {
	for _, b := range at.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(cmp.X == v && isNilConst(cmp.Y) || cmp.Y == v && isNilConst(cmp.X)) {
			continue
		}
		if cmp.Op == token.EQL && edgeDominates(b, 0, at) || cmp.Op == token.NEQ && edgeDominates(b, 1, at) {
			return true
		}
	}
	return false
}

// contradicted: a reference is stored where it is known to be nil, or the inline form where the reference is known
// to have been taken instead.
func (k *codec) contradicted(s *ssa.Store) bool {
	if nilAt(s.Val, s.Block()) {
		return true
	}
	if e, ok := s.Val.(*ssa.Extract); ok {
		for _, r := range *e.Tuple.Referrers() {
			if o, ok := r.(*ssa.Extract); ok && o != e && isIntPtr(o.Type()) && !isIntPtr(e.Type()) && nonNilAt(o, s.Block()) {
				return true
			}
		}
	}
	return false
}

func isIntPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isInt(p.Elem())
}

func (k *codec) tags(n *types.Named) {
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	names := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		id := n.Obj().Name() + "." + f.Name()
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("msgpack"), ",")[0]
		if tag == "" {
			tag = f.Name()
		}
		prev, dup := names[tag]
		names[tag] = f.Name()
		switch {
		case !f.Exported():
			k.c.Bad("tags", id, k.w.Pos(f.Pos()), "an unexported field is not stored")
		case tag == "-":
			k.c.Bad("tags", id, k.w.Pos(f.Pos()), "the field is excluded from encoding")
		case dup:
			k.c.Bad("tags", id, k.w.Pos(f.Pos()), "it has the same encoded name as %s", prev)
		default:
			k.c.Ok("tags", id)
		}
	}
}

// elements: conversion loops keep every element.
func (k *codec) elements(fns []*ssa.Function, side int) {
	w, c := k.w, k.c
	from, to := map[string]bool{}, map[string]bool{}
	for _, p := range k.pairs {
		from[p[side].Obj().Name()] = true
		to[p[1-side].Obj().Name()] = true
	}
	isColl := func(t types.Type, set map[string]bool) bool {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
		default:
			return false
		}
		s := structOf(t)
		return s != nil && set[s.Obj().Name()]
	}
	for _, f := range fns {
		for _, el := range w.elemLoops(f, func(v ssa.Value) bool { return isColl(v.Type(), from) }) {
			el := el
			var ups []ssa.Instruction
			wrong := ""
			for b := range el.l.body {
				if w.innermost(f, b) != el.l {
					continue
				}
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						if !isColl(x.Map.Type(), to) {
							continue
						}
						ups = append(ups, in)
						ok := false
						for _, e := range el.elems {
							if x.Key == e {
								ok = true
							}
						}
						if !ok {
							wrong = w.Pos(in.Pos())
						}
					case *ssa.Store:
						ia, ok := x.Addr.(*ssa.IndexAddr)
						if ok && isColl(ia.X.Type(), to) {
							ph, _ := inductionOf(ia.Index, el.l)
							if ph == nil {
								continue
							}
							ups = append(ups, in)
							same := false
							for _, e := range el.elems {
								if ea, ok := e.(*ssa.IndexAddr); ok && w.canon(ea.Index) == w.canon(ia.Index) {
									same = true
								}
							}
							if !same {
								wrong = w.Pos(in.Pos())
							}
						}
					case *ssa.Call:
						if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isColl(x.Type(), to) && k.carried(x, el.l) {
							ups = append(ups, in)
						}
					}
				}
			}
			if len(ups) == 0 {
				continue
			}
			id := FnName(f) + " " + types.TypeString(el.cont.Type(), func(*types.Package) string { return "" })
			if wrong != "" {
				c.Bad("elements", id, wrong, "an element is stored under another key or index than its own")
				continue
			}
			msg := w.visitsAllOr(el, func(in ssa.Instruction) bool {
				for _, u := range ups {
					if u == in {
						return true
					}
				}
				return false
			}, true)
			c.Decide(msg == "", "elements", id, w.Pos(ups[0].Pos()), "the loop over the elements %s", msg)
		}
	}
}

// carried: the result of append is the loop-carried collection.
func (k *codec) carried(x *ssa.Call, l *loop) bool {
	for _, r := range *x.Referrers() {
		if ph, ok := r.(*ssa.Phi); ok && ph.Block() == l.header {
			return true
		}
	}
	return false
}

// ---------- dictionaries ----------

func (k *codec) cell(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		o, f, _ := fieldName(x)
		return o + "." + f
	}
	root := k.w.cellRoot(addr)
	if al, ok := root.(*ssa.Alloc); ok {
		return fmt.Sprintf("%p", al)
	}
	return ""
}

func (k *codec) loadCell(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return k.cell(u.X)
	}
	return ""
}

func (k *codec) findDicts() {
	w := k.w
	en := k.E.Obj().Name()
	for _, fs := range storesOf(k.enc, k.E) {
		if _, ok := fs.st.Val.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if c := k.loadCell(fs.st.Val); c != "" {
			k.dicts[c] = fs.field
		}
	}
	for _, f := range k.dec {
		eachInstr(f, func(in ssa.Instruction) {
			var x, idx ssa.Value
			switch i := in.(type) {
			case *ssa.IndexAddr:
				x, idx = i.X, i.Index
			case *ssa.Index:
				x, idx = i.X, i.Index
			default:
				return
			}
			ds := of(k.src(x), k.E)
			if len(ds) != 1 {
				return
			}
			for n := range k.src(idx) {
				if strings.HasPrefix(n, en+".") || !k.pointerField(n) {
					continue
				}
				if o, ok := k.refs[n]; ok && o != ds[0] {
					k.c.Bad("dict-ref", n, w.Pos(in.Pos()), "it is looked up in %s as well as in %s", o, ds[0])
				}
				k.refs[n] = ds[0]
			}
		})
	}
}

func (k *codec) pointerField(n string) bool {
	i := strings.IndexByte(n, '.')
	s := k.w.Type(n[:i])
	if s == nil {
		return false
	}
	st := s.Underlying().(*types.Struct)
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == n[i+1:] {
			return isIntPtr(st.Field(j).Type()) || isInt(st.Field(j).Type())
		}
	}
	return false
}

// dictOf: the dictionaries whose length an index value was taken from.
func (k *codec) dictOf(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				if c := k.loadCell(x.Call.Args[0]); c != "" {
					if d, ok := k.dicts[c]; ok {
						out[d] = true
						return
					}
				}
			}
			return
		}
		for _, g := range k.w.Callees(x) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					k.dictOf(retVals(r)[0], out, seen)
				}
			}
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			k.dictOf(lk, out, seen)
			return
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range k.w.Callees(call) {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(r.Results) {
						k.dictOf(retVals(r)[x.Index], out, seen)
					}
				}
			}
		}
	case *ssa.Lookup:
		mc := k.loadCell(x.X)
		for _, f := range k.enc {
			eachInstr(f, func(in ssa.Instruction) {
				if mu, ok := in.(*ssa.MapUpdate); ok && (mu.Map == x.X || mc != "" && k.loadCell(mu.Map) == mc) {
					k.dictOf(mu.Value, out, seen)
				}
			})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			k.dictOf(e, out, seen)
		}
	case *ssa.Alloc:
		for _, s := range k.w.storesTo(x) {
			k.dictOf(s.Val, out, seen)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, s := range k.w.storesTo(x.X) {
				k.dictOf(s.Val, out, seen)
			}
		}
	case *ssa.Convert:
		k.dictOf(x.X, out, seen)
	case *ssa.Parameter:
		for _, ci := range k.w.callersOf[x.Parent()] {
			if a := argFor(ci, x.Parent(), paramIndex(x)); a != nil {
				k.dictOf(a, out, seen)
			}
		}
	}
}

// grows: fn may append to the dictionary cell.
func (k *codec) grows(cell string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for {
		n := len(out)
		for _, f := range k.enc {
			if out[f] {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && k.cell(s.Addr) == cell {
					out[f] = true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range k.w.Callees(ci) {
						if out[g] {
							out[f] = true
						}
					}
				}
			})
		}
		if len(out) == n {
			return out
		}
	}
}

func (k *codec) dictionaries() {
	w, c := k.w, k.c
	// references
	done := map[string]bool{}
	for _, p := range k.pairs {
		es := p[1]
		if done[es.Obj().Name()] {
			continue
		}
		done[es.Obj().Name()] = true
		for _, fs := range storesOf(k.enc, es) {
			id := es.Obj().Name() + "." + fs.field
			if !isIntPtr(fs.st.Val.Type()) {
				continue
			}
			ds := map[string]bool{}
			k.dictOf(fs.st.Val, ds, map[ssa.Value]bool{})
			if len(ds) == 0 && isNilConst(fs.st.Val) {
				continue
			}
			want := k.refs[id]
			c.Decide(len(ds) == 1 && ds[want], "dict-ref", id, w.Pos(fs.st.Pos()), "the reference is taken in %v but looked up in %q", keys(ds), want)
		}
	}
	// tests on references when decoding
	for _, f := range k.dec {
		eachInstr(f, func(in ssa.Instruction) {
			cmp, ok := in.(*ssa.BinOp)
			if !ok || !isInt(cmp.X.Type()) {
				return
			}
			op, x, y := cmp.Op, cmp.X, cmp.Y
			isRef := func(v ssa.Value) bool {
				if _, ok := v.(*ssa.UnOp); !ok {
					return false
				}
				for n := range k.src(v) {
					if _, ok := k.refs[n]; ok {
						return true
					}
				}
				return false
			}
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				return
			}
			if !isRef(x) {
				if !isRef(y) {
					return
				}
				x, y, op = y, x, flip(op)
			}
			good := false
			if n, ok := constInt(y); ok {
				good = n == 0 && (op == token.GEQ || op == token.LSS) || n == -1 && (op == token.GTR || op == token.LEQ)
			} else if isLenCall(y) {
				good = op == token.LSS || op == token.GEQ
				ds := of(k.src(y), k.E)
				for n := range k.src(x) {
					if d, ok := k.refs[n]; ok && (len(ds) != 1 || ds[0] != d) {
						good = false
					}
				}
			}
			c.Decide(good, "dict-ref", FnName(f)+" range test", w.Pos(in.Pos()), "valid references are rejected or invalid ones accepted")
		})
	}
	// growing
	var cells []string
	for cell := range k.dicts {
		cells = append(cells, cell)
	}
	sort.Slice(cells, func(i, j int) bool { return k.dicts[cells[i]] < k.dicts[cells[j]] })
	for _, cell := range cells {
		d := k.dicts[cell]
		gr := k.grows(cell)
		for _, f := range k.enc {
			eachInstr(f, func(in ssa.Instruction) {
				ln, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || k.loadCell(ln.Call.Args[0]) != cell {
					return
				}
				k.growth(f, ln, cell, d, gr)
			})
		}
	}
	// finding again
	for _, f := range k.enc {
		eachInstr(f, func(in ssa.Instruction) {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				return
			}
			ds := map[string]bool{}
			k.dictOf(lk, ds, map[ssa.Value]bool{})
			if len(ds) == 0 {
				return
			}
			id := FnName(f) + " " + strings.Join(keys(ds), ",")
			if !lk.CommaOk {
				c.Bad("dict-key", id+" lookup", w.Pos(in.Pos()), "a missing entry is taken for entry 0")
				return
			}
			// the same key as the one it is entered with
			mc := k.loadCell(lk.X)
			for _, g := range k.enc {
				eachInstr(g, func(in2 ssa.Instruction) {
					mu, ok := in2.(*ssa.MapUpdate)
					if !ok || g != f || !(mu.Map == lk.X || mc != "" && k.loadCell(mu.Map) == mc) {
						return
					}
					c.Decide(k.sameKey(lk.Index, mu.Key), "dict-key", id+" lookup", w.Pos(lk.Pos()), "the entry is looked up under another key than it is entered with")
				})
			}
			var val, okv ssa.Value
			for _, r := range *lk.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if e.Index == 0 {
						val = e
					} else {
						okv = e
					}
				}
			}
			if val == nil {
				return
			}
			if okv == nil {
				c.Bad("dict-key", id+" found", w.Pos(in.Pos()), "whether the entry exists is not tested")
				return
			}
			good := true
			var uses func(v ssa.Value)
			uses = func(v ssa.Value) {
				for _, r := range *v.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Val == v {
						if al, ok := s.Addr.(*ssa.Alloc); ok && v != ssa.Value(al) {
							if len(w.storesTo(al)) == 1 {
								uses(al)
							} else if !replacedIfMissing(w, okv, s, al) {
								good = false
							}
							continue
						}
					}
					if s, ok := r.(*ssa.Store); ok && s.Addr == v {
						continue
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					if !trueAt(okv, r.Block()) {
						if ph, ok := r.(*ssa.Phi); ok {
							for i, e := range ph.Edges {
								if e == v && !trueAt(okv, ph.Block().Preds[i]) && !okEdge(okv, ph.Block().Preds[i], ph.Block()) {
									good = false
								}
							}
							continue
						}
						good = false
					}
				}
			}
			uses(val)
			c.Decide(good, "dict-key", id+" found", w.Pos(in.Pos()), "the found entry is used without testing that there is one")
		})
	}
}

// okEdge: the edge is the one taken when v holds.
func okEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	cond, si := ifi.Cond, 0
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, si = u.X, 1
	}
	return cond == v && from.Succs[si] == to
}

// replacedIfMissing: the cell which got the looked-up value is given another one, before it is used, on every path
// on which there was no entry.
func replacedIfMissing(w *World, okv ssa.Value, st *ssa.Store, al *ssa.Alloc) bool {
	f := st.Parent()
	var ifb *ssa.BasicBlock
	miss := 1
	for _, b := range f.Blocks {
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond, si := ifi.Cond, 1
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, si = u.X, 0
			}
			if cond == okv {
				ifb, miss = b, si
			}
		}
	}
	if ifb == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{ifb.Succs[miss]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		stop := false
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(al) && s != st {
				stop = true
				break
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(al) {
					return false
				}
			}
		}
		if !stop {
			work = append(work, b.Succs...)
		}
	}
	return true
}

func trueAt(v ssa.Value, at *ssa.BasicBlock) bool {
	for _, b := range at.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, si := ifi.Cond, 0
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, si = u.X, 1
		}
		if cond == v && edgeDominates(b, si, at) {
			return true
		}
	}
	return false
}

func (k *codec) sameKey(a, b ssa.Value) bool {
	if a == b || k.w.canon(a) == k.w.canon(b) {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || calleeName(x) != calleeName(y) || len(x.Call.Args) != len(y.Call.Args) {
		return false
	}
	for i := range x.Call.Args {
		u, v := x.Call.Args[i], y.Call.Args[i]
		if mi, ok := u.(*ssa.MakeInterface); ok {
			u = mi.X
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if k.w.canon(u) != k.w.canon(v) {
			return false
		}
	}
	return true
}

// growth: from reading the length to appending, nothing else is appended; one element; a reserved one is filled.
func (k *codec) growth(f *ssa.Function, ln *ssa.Call, cell, d string, gr map[*ssa.Function]bool) {
	w, c := k.w, k.c
	id := FnName(f) + " " + d
	var app *ssa.Store
	bad := k.forward(ln, func(in ssa.Instruction) (stop bool, bad string) {
		switch x := in.(type) {
		case *ssa.Store:
			if k.cell(x.Addr) == cell {
				app = x
				return true, ""
			}
		case *ssa.Return:
			return true, "the place is given out without appending the element"
		case ssa.CallInstruction:
			for _, g := range w.Callees(x) {
				if gr[g] {
					return true, "other elements may be appended between taking the place and appending the element"
				}
			}
		}
		return false, ""
	})
	if bad == "" && app == nil {
		bad = "no element is appended at the place taken"
	}
	var elem ssa.Value
	if bad == "" {
		call, ok := app.Val.(*ssa.Call)
		if !ok || calleeName(call) != "append" && !isAppend(call) || k.loadCell(call.Call.Args[0]) != cell {
			bad = "the dictionary is not extended by appending"
		} else if es, ok := appended1(call); !ok {
			bad = "not exactly one element is appended"
		} else {
			elem = es
		}
	}
	content := elem
	if bad == "" && isZero(elem) {
		content = nil
		bad = k.forward(app, func(in ssa.Instruction) (bool, string) {
			switch x := in.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if ok && k.loadCell(ia.X) == cell {
					if w.canon(ia.Index) != w.canon(ln) {
						return true, "another place than the one taken is filled"
					}
					content = x.Val
					return true, ""
				}
			case *ssa.Return:
				return true, "the place taken is not filled"
			}
			return false, ""
		})
	}
	if bad == "" {
		if n := structOf(content.Type()); n != nil && !k.encoded(n) && !k.verbatim(content, map[ssa.Value]bool{}, 0) {
			bad = "the element is changed before it is stored"
		}
	}
	c.Decide(bad == "", "dict-grow", id, w.Pos(ln.Pos()), "%s", bad)
	if bad != "" {
		return
	}
	// the key it is entered under
	n := 0
	for _, g := range k.enc {
		eachInstr(g, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || g != f || w.canon(mu.Value) != w.canon(ln) {
				return
			}
			n++
			kp, cp := map[string]bool{}, map[string]bool{}
			k.paths(mu.Key, kp, map[ssa.Value]bool{})
			k.paths(content, cp, map[ssa.Value]bool{})
			good := len(kp) == 1 && len(cp) > 0
			for p := range cp {
				in := false
				for q := range kp {
					in = in || p == q || strings.HasPrefix(p, q+".") || strings.HasPrefix(p, q+"[")
				}
				good = good && in
			}
			c.Decide(good, "dict-key", id, w.Pos(mu.Pos()), "the element is entered under a key that is not computed from its content")
		})
	}
	if n == 0 {
		c.Ok("dict-key", id)
	}
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func isZero(v ssa.Value) bool {
	if k, ok := v.(*ssa.Const); ok {
		return k.Value == nil || k.IsNil()
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if _, ok := r.(*ssa.UnOp); !ok {
					return false
				}
			}
			return true
		}
	}
	return false
}

func appended1(c *ssa.Call) (ssa.Value, bool) {
	if len(c.Call.Args) != 2 {
		return nil, false
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() != 1 {
		return nil, false
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok {
					return st.Val, true
				}
			}
		}
	}
	return nil, false
}

// forward visits the instructions after `from` on all paths until stop; the first complaint is returned.
func (k *codec) forward(from ssa.Instruction, each func(in ssa.Instruction) (bool, string)) string {
	seen := map[*ssa.BasicBlock]bool{}
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	st := []pos{{from.Block(), instrIndex(from) + 1}}
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		stop := false
		for i := p.i; i < len(p.b.Instrs); i++ {
			s, bad := each(p.b.Instrs[i])
			if bad != "" {
				return bad
			}
			if s {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				st = append(st, pos{s, 0})
			}
		}
	}
	return ""
}

// paths: the access paths (from parameters and local objects) a value is computed from.
func (k *codec) paths(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	for p := range k.pathsOf(v, seen, 0) {
		out[p] = true
	}
}

func (k *codec) pathsOf(v ssa.Value, seen map[ssa.Value]bool, d int) map[string]bool {
	out := map[string]bool{}
	if v == nil || d > 25 {
		return out
	}
	if seen[v] {
		return out
	}
	join := func(x ssa.Value, suffix string) {
		for p := range k.pathsOf(x, seen, d+1) {
			out[p+suffix] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		out[fmt.Sprintf("p%d", paramIndex(x))] = true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			join(x.X, "")
			return out
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			_, f, _ := fieldName(a)
			join(a.X, "."+f)
		case *ssa.IndexAddr:
			join(a.X, "[]")
		case *ssa.Alloc:
			if isStructVal(deref(a.Type())) != nil {
				join(a, "")
				return out
			}
			for _, s := range k.w.storesTo(a) {
				join(s.Val, "")
			}
		}
	case *ssa.Alloc:
		seen[v] = true
		defer delete(seen, v)
		n := 0
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					n++
					join(r.Val, "")
				}
			case *ssa.FieldAddr:
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						n++
						join(st.Val, "")
					}
				}
			}
		}
		if n == 0 {
			out[fmt.Sprintf("a%p", x)] = true
		}
	case *ssa.Field:
		_, f, _ := fieldName(x)
		join(x.X, "."+f)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if _, ok := a.(*ssa.Const); ok {
				continue
			}
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				continue
			}
			join(a, "")
		}
	case *ssa.Extract:
		join(x.Tuple, "")
	case *ssa.Next:
		join(x.Iter, "[]")
	case *ssa.Range:
		join(x.X, "")
	case *ssa.Lookup:
		join(x.X, "[]")
	case *ssa.Index:
		join(x.X, "[]")
	case *ssa.Slice:
		join(x.X, "")
	case *ssa.Convert:
		join(x.X, "")
	case *ssa.ChangeType:
		join(x.X, "")
	case *ssa.MakeInterface:
		join(x.X, "")
	case *ssa.Phi:
		seen[v] = true
		for _, e := range x.Edges {
			join(e, "")
		}
		delete(seen, v)
	case *ssa.MakeMap, *ssa.MakeSlice:
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				join(r.Key, "")
				join(r.Value, "")
			case *ssa.IndexAddr:
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						join(st.Val, "")
					}
				}
			}
		}
		delete(seen, v)
	}
	return out
}

func (k *codec) encoded(n *types.Named) bool {
	for _, p := range k.pairs {
		if p[1].Obj() == n.Obj() {
			return true
		}
	}
	return false
}
