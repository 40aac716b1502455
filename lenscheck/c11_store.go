package main

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkStore }

const badgerPkg = "github.com/dgraph-io/badger/v4"

// stores lists the types of the package that implement Storage.
func (w *World) stores() []*types.Named {
	st := w.Type("Storage")
	if st == nil {
		return nil
	}
	itf := st.Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range w.Lens.Pkg.Scope().Names() {
		tn, ok := w.Lens.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), itf) || types.Implements(nt, itf) {
			out = append(out, nt)
		}
	}
	return out
}

func (w *World) methodOf(n *types.Named, name string) *ssa.Function {
	for _, t := range []types.Type{types.NewPointer(n), n} {
		if sel := w.Prog.MethodSets.MethodSet(t).Lookup(w.Lens.Pkg, name); sel != nil {
			if f := w.Prog.MethodValue(sel); f != nil {
				return unwrapSynthetic(f)
			}
		}
	}
	return nil
}

// byteRoots lists where the bytes of v may live: "fresh", "p:<param>", "stored" (a map or field of the store),
// "cb" (memory the database lends to a callback).
type byteRoots struct {
	k    *walk
	lent map[*ssa.Parameter]bool
	seen map[ssa.Value]bool
	out  map[string]bool
}

func (r *byteRoots) add(v ssa.Value, d int) {
	if v == nil || d > 30 || r.seen[v] {
		return
	}
	r.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		r.out["nil"] = true
	case *ssa.Parameter:
		if r.lent[x] {
			r.out["cb"] = true
		} else if a := r.k.env[x]; a != nil {
			r.add(a, d+1)
		} else {
			r.out["p:"+fmtInt(paramIndex(x))] = true
		}
	case *ssa.FreeVar:
		r.add(r.k.w.bindingOf(x), d+1)
	case *ssa.Slice:
		r.add(x.X, d+1)
	case *ssa.ChangeType:
		r.add(x.X, d+1)
	case *ssa.MakeInterface:
		r.add(x.X, d+1)
	case *ssa.TypeAssert:
		r.add(x.X, d+1)
	case *ssa.Convert:
		if isBytes(x.X.Type()) && isBytes(x.Type()) {
			r.add(x.X, d+1)
		} else {
			r.out["fresh"] = true
		}
	case *ssa.MakeSlice, *ssa.Alloc, *ssa.MakeMap:
		r.out["fresh"] = true
		if al, ok := x.(*ssa.Alloc); ok { // an array of slices: its elements
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == ia && !isPlain(st.Val.Type()) {
							r.add(st.Val, d+1)
						}
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			r.add(e, d+1)
		}
	case *ssa.Lookup:
		r.out["stored"] = true
	case *ssa.Index:
		r.add(x.X, d+1)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			r.out["stored"] = true
		case *ssa.Call:
			r.call(t, x.Index, d)
		case *ssa.TypeAssert:
			r.add(t.X, d+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			r.out["stored"] = true
		case *ssa.IndexAddr:
			r.add(a.X, d+1)
		default:
			root := r.k.w.cellRoot(a)
			if al, ok := root.(*ssa.Alloc); ok {
				for _, s := range r.k.w.storesTo(al) {
					r.add(s.Val, d+1)
				}
			} else if _, ok := root.(*ssa.Global); ok {
				r.out["stored"] = true
			} else {
				r.add(root, d+1)
			}
		}
	case *ssa.Call:
		r.call(x, 0, d)
	}
}

func isPlain(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func (r *byteRoots) call(c *ssa.Call, idx int, d int) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			r.add(c.Call.Args[0], d+1)
			r.out["fresh"] = true
			if len(c.Call.Args) > 1 && !isText(c.Call.Args[1].Type()) { // a slice of slices: the elements are shared
				r.add(c.Call.Args[1], d+1)
			}
		}
		return
	}
	n := calleeName(c)
	switch n {
	case "bytes.Clone", "slices.Clone", "strings.Clone", "slices.Concat", "bytes.Join", "bytes.Repeat", "io.ReadAll", "os.ReadFile":
		r.out["fresh"] = true
		return
	case "(*" + badgerPkg + ".Item).ValueCopy":
		r.out["fresh"] = true
		r.add(c.Call.Args[1], d+1)
		return
	case "(*" + badgerPkg + ".Item).Key":
		r.out["cb"] = true
		return
	}
	if c.Call.IsInvoke() {
		r.out["fresh"] = true // another store: its results are its caller's by the same rule
		return
	}
	for _, g := range r.k.w.Callees(c) {
		if !r.k.w.own(g) {
			continue
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			v := retVals(ret)[idx]
			r.k.inCall2(c, g, func() { r.add(v, d+1) })
		}
		return
	}
	r.out["fresh"] = true
	for _, a := range c.Call.Args { // library: the result may share memory with byte slice arguments
		if isBytes(a.Type()) {
			r.add(a, d+1)
		}
	}
}

func (k *walk) inCall2(c ssa.CallInstruction, g *ssa.Function, fn func()) {
	saved := map[*ssa.Parameter]ssa.Value{}
	for i, p := range g.Params {
		saved[p] = k.env[p]
		if a := argFor(c, g, i); a != nil {
			k.env[p] = a
		}
	}
	fn()
	for p, v := range saved {
		if v == nil {
			delete(k.env, p)
		} else {
			k.env[p] = v
		}
	}
}

func sliceOfBytes(t types.Type) bool {
	if isBytes(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && sliceOfBytes(s.Elem())
}

func checkStore(c *Check) {
	w := c.W
	c.Rule("data-copied-in", "what a store keeps in its own memory is a copy of the caller's bytes", 1)
	c.Rule("data-copied-out", "what LoadState returns shares no memory with the store or with the database", 2)
	c.Rule("lent-memory", "memory the database lends to a callback does not survive the callback", 2)
	c.Rule("presence", "whether a key was found is not deduced from the value being empty", 2)
	c.Rule("one-transaction", "an operation touches the database in a single transaction", 4)
	c.Rule("view-key", "every access of a prefixed view to the shared store uses the view's prefix followed by the key", 3)
	c.Rule("view-scope", "a prefixed view never lists or clears the shared store as a whole and hides the prefix from its callers", 2)
	c.Rule("view-passes", "a prefixed view passes values through unchanged", 2)
	c.Rule("part-keys", "the parts of a split value are written, read and removed under the same keys, kept apart from main keys", 3)
	c.Rule("part-counts", "part loops run over exactly the number of parts the marker was written with, from part 0", 3)
	c.Rule("parts-removed", "replacing or deleting a split value removes its parts first", 2)
	for _, n := range w.stores() {
		w.checkStoreMemory(c, n)
		w.checkView(c, n)
		w.checkSplit(c, n)
		w.checkTxn(c, n)
	}
}

func (w *World) checkStoreMemory(c *Check, n *types.Named) {
	name := n.Obj().Name()
	for _, m := range []string{"SaveState", "LoadState", "DeleteState", "ListKeysPrefix", "ListKeys", "Clear"} {
		f := w.methodOf(n, m)
		if f == nil {
			continue
		}
		lent := map[*ssa.Parameter]bool{}
		// callbacks the database calls with its own memory
		pre := newWalk(w, nil)
		pre.each = func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci) == "(*"+badgerPkg+".Item).Value" {
				for _, g := range w.funcsOf(ci.Common().Args[1], map[ssa.Value]bool{}) {
					for _, p := range g.Params {
						if isBytes(p.Type()) {
							lent[p] = true
						}
					}
				}
			}
		}
		pre.visit(f, 0)
		k := newWalk(w, nil)
		roots := func(v ssa.Value) map[string]bool {
			r := &byteRoots{k: k, lent: lent, seen: map[ssa.Value]bool{}, out: map[string]bool{}}
			r.add(v, 0)
			return r.out
		}
		kept := 0
		k.each = func(in ssa.Instruction) {
			var val, addr ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				val, addr = x.Value, x.Map
			case *ssa.Store:
				val, addr = x.Val, x.Addr
			default:
				return
			}
			if !sliceOfBytes(val.Type()) {
				return
			}
			rs := roots(val)
			heap := false
			if _, isMap := in.(*ssa.MapUpdate); isMap {
				heap = true
			} else if fa, ok := addr.(*ssa.FieldAddr); ok {
				heap = !isPkgOwner(fa)
			} else if _, ok := addr.(*ssa.Global); ok {
				heap = true
			}
			if heap {
				kept++
				c.Decide(!rs["p:2"] && !rs["p:1"], "data-copied-in", name+"."+m, w.Pos(in.Pos()), "the caller's bytes are kept without being copied")
			}
			if rs["cb"] {
				inner := false // a cell of the callback itself
				if al, ok := addr.(*ssa.Alloc); ok && lentIn(lent, al.Parent()) {
					inner = true
				}
				if ia, ok := addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && lentIn(lent, al.Parent()) {
						inner = true
					}
				}
				if !inner {
					c.Bad("lent-memory", name+"."+m, w.Pos(in.Pos()), "memory owned by the database is kept beyond the callback")
				}
			}
		}
		k.visit(f, 0)
		for range lent {
			c.Ok("lent-memory", name+"."+m)
		}
		if m == "LoadState" {
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 3 {
					continue
				}
				rs := roots(retVals(ret)[0])
				c.Decide(!rs["stored"] && !rs["cb"], "data-copied-out", name+"."+m, w.Pos(ret.Pos()), "the returned bytes are the store's own memory")
			}
			w.checkPresence(c, n, f, k, lent)
		}
	}
}

func lentIn(lent map[*ssa.Parameter]bool, f *ssa.Function) bool {
	for p := range lent {
		if p.Parent() == f {
			return true
		}
	}
	return false
}

// isPkgOwner: the field belongs to a value built by the function itself (a local struct).
func isPkgOwner(fa *ssa.FieldAddr) bool {
	_, ok := fa.X.(*ssa.Alloc)
	return ok
}

// checkPresence: no test of the data against nil or emptiness, unless the data is never nil when stored.
func (w *World) checkPresence(c *Check, n *types.Named, f *ssa.Function, k *walk, lent map[*ssa.Parameter]bool) {
	key := n.Obj().Name() + ".LoadState"
	bad := false
	k.each = func(in ssa.Instruction) {
		cmp, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		switch cmp.Op {
		case token.EQL, token.NEQ, token.GTR, token.LSS, token.LEQ, token.GEQ:
		default:
			return
		}
		x, y := cmp.X, cmp.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if isBytes(x.Type()) && isNilConst(y) {
			// nil-ness is a sound signal only when every stored value is made non-nil
			sound := true
			root := ssa.Value(nil)
			if ld, ok := x.(*ssa.UnOp); ok {
				root = w.cellRoot(ld.X)
			}
			al, ok := root.(*ssa.Alloc)
			if !ok {
				sound = false
			} else {
				for _, s := range w.storesTo(al) {
					if _, ok := s.Val.(*ssa.MakeSlice); !ok && !isNilConst(s.Val) {
						sound = false
					}
				}
			}
			if !sound {
				bad = true
				c.Bad("presence", key, w.Pos(in.Pos()), "an empty value is taken for a missing one (test against nil)")
			}
			return
		}
		for _, p := range [][2]ssa.Value{{x, y}, {y, x}} {
			if a := lenArg(p[0]); a != nil && isBytes(a.Type()) {
				if z, ok := constInt(p[1]); ok && z == 0 {
					if decidesResult(f, cmp) {
						bad = true
						c.Bad("presence", key, w.Pos(in.Pos()), "an empty value is taken for a missing one (test of its length)")
					}
				}
			}
		}
	}
	k.visit(f, 0)
	if !bad {
		c.Ok("presence", key)
	}
}

// decidesResult: the comparison is in the operation itself, not in a loop over parts.
func decidesResult(f *ssa.Function, cmp *ssa.BinOp) bool {
	for _, l := range loopsOf(cmp.Parent()) {
		if l.body[cmp.Block()] {
			return false
		}
	}
	return true
}

// ---------- prefixed views ----------

func (w *World) checkView(c *Check, n *types.Named) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	storage := w.Type("Storage")
	under := ""
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), storage) {
			under = st.Field(i).Name()
		}
	}
	if under == "" {
		return
	}
	name := n.Obj().Name()
	itf := storage.Underlying().(*types.Interface)
	prefix := ""
	for i := 0; i < itf.NumMethods(); i++ {
		m := itf.Method(i).Name()
		f := w.methodOf(n, m)
		if f == nil {
			continue
		}
		key := name + "." + m
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) == nil || namedOf(f.Signature.Recv().Type()).Obj() != n.Obj() {
			c.Bad("view-key", key, w.Pos(n.Obj().Pos()), "the shared store's own method is promoted: it is used without the prefix")
			continue
		}
		k := newWalk(w, nil)
		var calls int
		k.each = func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() || !types.Identical(ci.Common().Value.Type(), storage) {
				return
			}
			calls++
			um := ci.Common().Method.Name()
			switch um {
			case "Close":
				return
			case "ListKeys", "Clear":
				c.Bad("view-scope", key, w.Pos(in.Pos()), "%s of the shared store reaches keys of other views", um)
				return
			}
			if (um == "DeleteState" || um == "LoadState") && w.listed(ci.Common().Args[0], storage, 0) {
				return // a key the shared store listed under the view's prefix
			}
			at := k.atoms(ci.Common().Args[0], 0)
			good := len(at) > 0 && strings.HasPrefix(at[0], "f:"+name+".")
			if good && prefix == "" {
				prefix = at[0][2:]
			}
			good = good && at[0][2:] == prefix
			if good && um != "ListKeysPrefix" {
				// deleting through the view while clearing uses the listed keys
				good = len(at) == 2
			}
			if good && len(at) == 2 && strings.HasPrefix(at[1], "p:") {
				good = strings.Contains(at[1], "@1@")
			}
			if good && len(at) > 2 {
				good = false
			}
			c.Decide(good, "view-key", key+" -> "+um, w.Pos(in.Pos()), "the key given to the shared store is not the view's prefix followed by the key: %v", at)
			switch um {
			case "SaveState":
				v := k.value(ci.Common().Args[1], 0)
				p, ok := v.(*ssa.Parameter)
				c.Decide(ok && p.Parent() == f && paramIndex(p) == 2, "view-passes", key, w.Pos(in.Pos()), "the stored bytes are not the given ones")
			case "LoadState":
				if m != "LoadState" {
					return
				}
				call, ok := in.(*ssa.Call)
				good := ok
				for _, b := range f.Blocks {
					ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !isRet || !good {
						continue
					}
					for i, v := range retVals(ret) {
						if !w.passesOn(v, call, i) {
							good = false
						}
					}
				}
				c.Decide(good, "view-passes", key, w.Pos(in.Pos()), "the loaded value, presence and error are not passed on as they are")
			}
		}
		k.visit(f, 0)
		switch m {
		case "ListKeys", "ListKeysPrefix":
			c.Decide(w.stripped(f, prefixOf(prefix, name)), "view-scope", key, w.Pos(f.Pos()), "keys are returned without removing the view's prefix")
		case "Clear", "DeleteState", "SaveState":
			c.Decide(calls > 0, "view-scope", key, w.Pos(f.Pos()), "the view does not reach the shared store")
		}
	}
	// the prefix ends in a separator so that no view's prefix starts another's
	for _, s := range w.fieldStores(name, strings.TrimPrefix(prefix, name+".")) {
		k := newWalk(w, nil)
		at := k.atoms(s.Val, 0)
		good := len(at) == 2 && strings.HasPrefix(at[0], "p:") && strings.HasPrefix(at[1], "c:")
		c.Decide(good, "view-scope", name+" prefix", w.Pos(s.Pos()), "the prefix is not the view's name and a separator: %v", at)
	}
}

// listed: v is an element, as it is, of the keys which ListKeysPrefix of the shared store gave.
func (w *World) listed(v ssa.Value, storage types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return w.listed(ia.X, storage, d+1)
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					n++
					if !w.listed(s.Val, storage, d+1) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && x.Index == 0 && c.Call.IsInvoke() && c.Call.Method.Name() == "ListKeysPrefix" && types.Identical(c.Call.Value.Type(), storage)
	}
	return false
}

func prefixOf(p, name string) string { return strings.TrimPrefix(p, name+".") }

// passesOn: v is result i of call, or (for the error path) the zero value beside an error of the call.
func (w *World) passesOn(v ssa.Value, call *ssa.Call, i int) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == ssa.Value(call) && x.Index == i
	case *ssa.Const:
		return i < 2
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.passesOn(e, call, i) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return i == 2 && calleeName(x) == "fmt.Errorf"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			st := w.storesTo(x.X)
			for _, s := range st {
				if !w.passesOn(s.Val, call, i) {
					return false
				}
			}
			return len(st) > 0
		}
	}
	return false
}

func (w *World) fieldStores(owner, field string) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if o, fl, ok := fieldName(s.Addr); ok && o == owner && fl == field && field != "" {
					out = append(out, s)
				}
			}
		})
	}
	return out
}

// stripped: every string put into the returned key list has had the prefix removed.
func (w *World) stripped(f *ssa.Function, field string) bool {
	ok := true
	found := 0
	k := newWalk(w, nil)
	removed := func(v ssa.Value) bool {
		v = k.value(v, 0)
		switch x := v.(type) {
		case *ssa.Slice:
			return x.Low != nil && x.High == nil && hasField(k, lenArg(x.Low), field)
		case *ssa.Extract:
			if call, isCall := x.Tuple.(*ssa.Call); isCall && calleeName(call) == "strings.CutPrefix" {
				return hasField(k, call.Call.Args[1], field)
			}
		case *ssa.Call:
			if calleeName(x) == "strings.TrimPrefix" {
				return hasField(k, x.Call.Args[1], field)
			}
			if r := k.inline(x); r != nil {
				good := false
				k.inCall2(x, w.Callees(x)[0], func() {
					r = k.value(r, 0)
					if cc, isCall := r.(*ssa.Call); isCall && calleeName(cc) == "strings.TrimPrefix" {
						good = hasField(k, cc.Call.Args[1], field)
					} else if sl, isSl := r.(*ssa.Slice); isSl {
						good = sl.Low != nil && hasField(k, lenArg(sl.Low), field)
					}
				})
				return good
			}
		}
		return false
	}
	k.each = func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if ia, isIA := x.Addr.(*ssa.IndexAddr); isIA && isText(x.Val.Type()) && !isBytes(x.Val.Type()) {
				if al, isAl := ia.X.(*ssa.Alloc); isAl && !w.appended(al) {
					return
				}
				found++
				if !removed(x.Val) {
					ok = false
				}
			}
		case *ssa.Return:
			if x.Parent() != f {
				// a mapping function handed to a library
				if len(x.Results) == 1 && f != x.Parent() && x.Parent().Parent() != nil && isText(x.Results[0].Type()) {
					found++
					if !removed(retVals(x)[0]) {
						ok = false
					}
				}
			}
		}
	}
	k.visit(f, 0)
	return ok && found > 0
}

func hasField(k *walk, v ssa.Value, field string) bool {
	if v == nil {
		return false
	}
	v = k.value(v, 0)
	if ld, ok := v.(*ssa.UnOp); ok {
		if _, f, ok := fieldName(ld.X); ok && f == field {
			return true
		}
	}
	return false
}

// ---------- split values ----------

type txnOp struct {
	method string // the Storage method
	op     string // Set, Get, Delete
	atoms  []string
	in     ssa.CallInstruction
	val    ssa.Value
	marker []ssa.Value // arguments formatted into a marker
	mfmt   []string
	bound  []int // submatch indices the loop bound comes from
	trip   *trip
	bval   ssa.Value
}

func (w *World) checkSplit(c *Check, n *types.Named) {
	name := n.Obj().Name()
	var ops []*txnOp
	for _, m := range []string{"SaveState", "LoadState", "DeleteState"} {
		f := w.methodOf(n, m)
		if f == nil {
			continue
		}
		k := newWalk(w, nil)
		k.each = func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cn := calleeName(ci)
			pre := "(*" + badgerPkg + ".Txn)."
			if !strings.HasPrefix(cn, pre) {
				return
			}
			op := strings.TrimPrefix(cn, pre)
			keyArg := ci.Common().Args[1]
			var val ssa.Value
			switch op {
			case "Set":
				val = ci.Common().Args[2]
			case "Get", "Delete":
			case "SetEntry":
				op = "Set"
				e, ok := k.value(keyArg, 0).(*ssa.Call)
				for ok && calleeName(e) != badgerPkg+".NewEntry" && len(e.Call.Args) > 0 {
					e, ok = k.value(e.Call.Args[0], 0).(*ssa.Call)
				}
				if !ok {
					return
				}
				keyArg, val = e.Call.Args[0], e.Call.Args[1]
			default:
				return
			}
			at := k.atoms(keyArg, 0)
			for i, a := range at {
				if strings.HasPrefix(a, "p:") && strings.HasSuffix(a, "@1@"+localName(f)) {
					at[i] = "KEY"
				}
			}
			o := &txnOp{method: m, op: op, atoms: at, in: ci, val: val}
			if l := w.innermost(ci.Parent(), ci.Block()); l != nil {
				o.trip = tripCount(l)
				if o.trip != nil {
					o.bval = k.value(o.trip.bound, 0)
					set := map[int]bool{}
					w.submatches(k, o.trip.bound, set, map[ssa.Value]bool{}, 0)
					for i := range set {
						o.bound = append(o.bound, i)
					}
					sort.Ints(o.bound)
				}
			}
			if val != nil {
				var ints []ssa.Value
				k.ints = &ints
				mf := k.atoms(val, 0)
				k.ints = nil
				fixed := len(ints) > 0
				for _, a := range mf {
					fixed = fixed && (a == "int" || strings.HasPrefix(a, "c:"))
				}
				if fixed {
					o.mfmt, o.marker = mf, ints
				}
			}
			ops = append(ops, o)
		}
		k.visit(f, 0)
	}
	if len(ops) == 0 {
		return
	}
	// the format of part keys
	var part []string
	for _, o := range ops {
		if o.method == "SaveState" && o.op == "Set" && len(o.atoms) > 1 {
			part = o.atoms
		}
	}
	if part == nil {
		return // values are not split
	}
	hasKey, hasInt := false, false
	for _, a := range part {
		hasKey = hasKey || a == "KEY"
		hasInt = hasInt || a == "int"
	}
	lead := ""
	if strings.HasPrefix(part[0], "c:") {
		lead = part[0][2:]
	}
	c.Decide(hasKey && hasInt && lead != "", "part-keys", name+" part key", w.Pos(ops[0].in.Pos()), "a part's key does not contain a fixed prefix, the key and the part number: %v", part)
	need := map[string]bool{"SaveState Set": true, "SaveState Delete": true, "LoadState Get": true, "DeleteState Delete": true}
	for _, o := range ops {
		id := name + "." + o.method + " " + o.op
		if len(o.atoms) == 1 && o.atoms[0] == "KEY" {
			c.Ok("part-keys", id+" main")
			continue
		}
		same := strings.Join(o.atoms, "\x00") == strings.Join(part, "\x00")
		c.Decide(same, "part-keys", id+" part", w.Pos(o.in.Pos()), "key %v is neither the main key nor a part key %v", o.atoms, part)
		if same {
			delete(need, o.method+" "+o.op)
		}
	}
	for _, m := range keys(need) {
		c.Bad("part-keys", name+"."+m, w.Pos(w.methodOf(n, strings.Fields(m)[0]).Pos()), "no part keys are handled here")
	}
	// the marker
	var mk *txnOp
	for _, o := range ops {
		if o.op == "Set" && o.marker != nil && len(o.atoms) == 1 {
			mk = o
		}
	}
	if mk == nil || mk.mfmt == nil {
		c.Bad("part-counts", name+" marker", w.Pos(ops[0].in.Pos()), "no marker with the number of parts is stored under the main key")
		return
	}
	re := w.markerRe(n)
	sample := ""
	numOf := map[string]int{}
	num := 0
	for _, a := range mk.mfmt {
		if a == "int" {
			s := []string{"71", "82", "93", "64", "55"}[num%5]
			numOf[s] = num
			sample += s
			num++
		} else if strings.HasPrefix(a, "c:") {
			sample += a[2:]
		} else {
			sample += "?"
		}
	}
	group := map[int]int{} // argument -> submatch
	if re != nil {
		m := re.FindStringSubmatch(sample)
		for g := 1; g < len(m); g++ {
			if a, ok := numOf[m[g]]; ok {
				group[a] = g
			}
		}
		c.Decide(m != nil && len(group) == num, "part-counts", name+" marker recognised", w.Pos(mk.in.Pos()), "the stored marker (like %q) is not what is recognised when reading", sample)
	} else {
		c.Bad("part-counts", name+" marker recognised", w.Pos(mk.in.Pos()), "no constant pattern recognises the marker")
	}
	// which argument is the part count: the bound of the loop writing the parts
	countArg := -1
	for _, o := range ops {
		if o.method == "SaveState" && o.op == "Set" && len(o.atoms) > 1 {
			if o.trip == nil || !o.trip.exact || o.trip.step != 1 {
				c.Bad("part-counts", name+".SaveState writes", w.Pos(o.in.Pos()), "the parts are not written by a loop counting from 0")
				continue
			}
			for i, a := range mk.marker {
				if sameExpr(w, a, o.bval) {
					countArg = i
				}
			}
			c.Decide(countArg >= 0, "part-counts", name+".SaveState writes", w.Pos(o.in.Pos()), "the number of parts written is not recorded in the marker")
			// what is cut into parts is measured in the marker
			if sl, ok := stripConv(o.val).(*ssa.Slice); ok {
				whole := false
				for _, a := range mk.marker {
					if x := lenArg(a); x != nil && sameExpr(w, x, sl.X) {
						whole = true
					}
				}
				c.Decide(whole, "part-counts", name+".SaveState size", w.Pos(o.in.Pos()), "the length of the divided bytes is not recorded in the marker")
			}
		}
	}
	if countArg < 0 {
		return
	}
	for _, o := range ops {
		if len(o.atoms) == 1 || o.method == "SaveState" && o.op == "Set" {
			continue
		}
		id := name + "." + o.method + " " + o.op
		good := o.trip != nil && o.trip.exact && o.trip.step == 1 && len(o.bound) == 1 && o.bound[0] == group[countArg]
		c.Decide(good, "part-counts", id, w.Pos(o.in.Pos()), "the loop does not run over the recorded number of parts from part 0")
	}
	// the key listing hides parts
	if f := w.methodOf(n, "ListKeysPrefix"); f != nil {
		hidden := false
		k := newWalk(w, nil)
		k.each = func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || (calleeName(call) != "strings.HasPrefix" && calleeName(call) != "bytes.HasPrefix") {
				return
			}
			at := k.atoms(call.Call.Args[1], 0)
			if len(at) == 1 && at[0] == "c:"+lead {
				hidden = hidden || w.excludes(call)
			}
		}
		k.visit(f, 0)
		c.Decide(hidden, "part-keys", name+".ListKeysPrefix", w.Pos(f.Pos()), "the keys of parts are listed")
	}
	for _, m := range []string{"SaveState", "DeleteState"} {
		f := w.methodOf(n, m)
		sp := &partsSpec{w: w, main: map[ssa.Instruction]*txnOp{}, loops: map[ssa.Instruction]bool{}, method: m}
		for _, o := range ops {
			if o.method == m {
				sp.main[o.in] = o
				if o.op == "Delete" && len(o.atoms) > 1 && o.trip != nil {
					if cmp, ok := o.trip.exit.Instrs[len(o.trip.exit.Instrs)-1].(*ssa.If).Cond.(ssa.Instruction); ok {
						sp.loops[cmp] = true
					}
					// "for i := range n" tests 0 < n before the first round
					eachInstr(o.trip.exit.Parent(), func(in ssa.Instruction) {
						b, ok := in.(*ssa.BinOp)
						if !ok || !b.Block().Dominates(o.trip.exit) {
							return
						}
						x, y := b.X, b.Y
						if _, ok := constInt(y); ok {
							x, y = y, x
						}
						if z, ok := constInt(x); ok && z == 0 && y == o.trip.bound {
							sp.loops[b] = true
						}
					})
				}
			}
		}
		fl := newFlow(w, sp)
		fl.Run(f, "")
		c.Decide(sp.bad == "", "parts-removed", name+"."+m, sp.where, "%s", sp.bad)
	}
}

// partsSpec: states "" (nothing known), "g" (the old value was looked at), "m" (a marker was recognised, its
// parts are still there), "d" (parts removed or there were none).
type partsSpec struct {
	w      *World
	main   map[ssa.Instruction]*txnOp
	method string
	loops  map[ssa.Instruction]bool // tests of the loops that remove parts
	bad    string
	where  string
}

func (s *partsSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if s.loops[in] && (st == "m" || st == "d") {
		return []Out{{st: "d"}}, true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	if o := s.main[in]; o != nil {
		main := len(o.atoms) == 1
		one := func(ns, res string) []Out { return []Out{{st: ns, res: res}} }
		switch {
		case o.op == "Get" && main:
			return []Out{{st: "", res: "01"}, {st: "g", res: "10"}, {st: "n", res: "01"}}, true
		case o.op == "Delete" && !main:
			return one("d", "2"), true
		case o.op == "Set" || o.op == "Delete" && main:
			if st == "g" || st == "m" {
				s.bad, s.where = "the value is replaced or deleted while parts of the old one may remain", s.w.Pos(in.Pos())
			}
			if st == "" {
				s.bad, s.where = "the old value is not looked at before it is replaced or deleted", s.w.Pos(in.Pos())
			}
			return one(st, "2"), true
		}
		return nil, false
	}
	if strings.HasPrefix(calleeName(ci), "(*regexp.Regexp).Find") && (st == "g" || st == "m") {
		return []Out{{st: "d", res: "0"}, {st: "m", res: "1"}}, true
	}
	if calleeName(ci) == "errors.Is" && (st == "n" || st == "") {
		return []Out{{st: st, res: map[string]string{"n": "1", "": "0"}[st]}}, true
	}
	return nil, false
}

// excludes: the test keeps the element out: the appended keys are only reached when it fails.
func (w *World) excludes(call *ssa.Call) bool {
	f := call.Parent()
	appends := []*ssa.BasicBlock{}
	eachInstr(f, func(in ssa.Instruction) {
		if a, ok := in.(*ssa.Call); ok {
			if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				appends = append(appends, a.Block())
			}
		}
	})
	for _, b := range f.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := ifi.Cond, 1
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, 0
		}
		if cond != ssa.Value(call) {
			continue
		}
		for _, a := range appends {
			if edgeDominates(b, neg, a) {
				return true
			}
		}
		return false
	}
	// returned by a filter helper
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			return true
		}
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func sameExpr(w *World, a, b ssa.Value) bool {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	k := newWalk(w, nil)
	a, b = stripConv(k.value(a, 0)), stripConv(k.value(b, 0))
	if a == b {
		return true
	}
	la, lb := loadCell(w, a), loadCell(w, b)
	return la != nil && la == lb
}

func loadCell(w *World, v ssa.Value) ssa.Value {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return w.cellRoot(ld.X)
	}
	if al, ok := v.(*ssa.Alloc); ok {
		return al
	}
	return nil
}

// submatches collects the indices of the regexp submatches a number was parsed from.
func (w *World) submatches(k *walk, v ssa.Value, out map[int]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] || d > 25 {
		return
	}
	seen[v] = true
	v = k.value(v, 0)
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Convert:
		w.submatches(k, x.X, out, seen, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.submatches(k, e, out, seen, d+1)
		}
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			out[-1] = true
			return
		}
		switch calleeName(call) {
		case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
			w.submatches(k, call.Call.Args[0], out, seen, d+1)
			return
		}
		done := false
		for _, g := range w.Callees(call) {
			if !w.own(g) {
				continue
			}
			done = true
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(ret.Results) {
					r := retVals(ret)[x.Index]
					k.inCall2(call, g, func() { w.submatches(k, r, out, seen, d+1) })
				}
			}
		}
		if !done {
			out[-1] = true
		}
	case *ssa.Call:
		done := false
		for _, g := range w.Callees(x) {
			if !w.own(g) {
				continue
			}
			done = true
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					r := retVals(ret)[0]
					k.inCall2(x, g, func() { w.submatches(k, r, out, seen, d+1) })
				}
			}
		}
		if !done {
			out[-1] = true
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if n, ok := constInt(ia.Index); ok {
				src := k.value(ia.X, 0)
				if call, ok := src.(*ssa.Call); ok && strings.Contains(calleeName(call), "regexp.Regexp).Find") {
					out[int(n)] = true
					return
				}
				if sl, ok := src.(*ssa.Slice); ok {
					_ = sl
				}
				out[int(n)] = true
				return
			}
		}
		if al, ok := w.cellRoot(x.X).(*ssa.Alloc); ok {
			for _, s := range w.storesTo(al) {
				w.submatches(k, s.Val, out, seen, d+1)
			}
			return
		}
		out[-1] = true
	default:
		out[-1] = true
	}
}

// markerRe compiles the constant pattern used to recognise markers.
func (w *World) markerRe(n *types.Named) *regexp.Regexp {
	var pat string
	for _, m := range []string{"LoadState", "DeleteState", "SaveState"} {
		f := w.methodOf(n, m)
		if f == nil {
			continue
		}
		k := newWalk(w, nil)
		k.each = func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(call), "(*regexp.Regexp).Find") {
				return
			}
			ld, ok := call.Call.Args[0].(*ssa.UnOp)
			if !ok {
				return
			}
			g, ok := ld.X.(*ssa.Global)
			if !ok {
				return
			}
			for _, init := range g.Pkg.Members {
				fn, ok := init.(*ssa.Function)
				if !ok || fn.Name() != "init" {
					continue
				}
				eachInstr(fn, func(in ssa.Instruction) {
					s, ok := in.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(g) {
						return
					}
					if mc, ok := s.Val.(*ssa.Call); ok && calleeName(mc) == "regexp.MustCompile" {
						if p, ok := constString(mc.Call.Args[0]); ok {
							pat = p
						}
					}
				})
			}
		}
		k.visit(f, 0)
		if pat != "" {
			break
		}
	}
	if pat == "" {
		return nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil
	}
	return re
}

// ---------- transactions ----------

type txnSpec struct {
	w     *World
	bad   string
	where string
	n     int
}

func (s *txnSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() {
		return nil, false
	}
	cn := calleeName(ci)
	switch cn {
	case "(*" + badgerPkg + ".DB).View", "(*" + badgerPkg + ".DB).Update", "(*" + badgerPkg + ".DB).NewTransaction",
		"(*" + badgerPkg + ".DB).DropPrefix", "(*" + badgerPkg + ".DB).DropAll", "(*" + badgerPkg + ".DB).NewWriteBatch":
		s.n++
		if st == "1" {
			s.bad, s.where = "a second transaction is used: another operation can come between the two", s.w.Pos(in.Pos())
		}
		return []Out{{st: "1", res: strings.Repeat("2", ci.Common().Signature().Results().Len())}}, true
	}
	return nil, false
}

func (w *World) checkTxn(c *Check, n *types.Named) {
	st, ok := n.Underlying().(*types.Struct)
	db := false
	for i := 0; ok && i < st.NumFields(); i++ {
		db = db || isNamed(st.Field(i).Type(), badgerPkg, "DB")
	}
	if !db {
		return
	}
	for _, m := range []string{"SaveState", "LoadState", "DeleteState", "ListKeysPrefix", "ListKeys", "Clear"} {
		f := w.methodOf(n, m)
		if f == nil {
			continue
		}
		sp := &txnSpec{w: w}
		newFlow(w, sp).Run(f, "")
		if sp.n > 0 {
			c.Decide(sp.bad == "", "one-transaction", n.Obj().Name()+"."+m, sp.where, "%s", sp.bad)
		}
	}
}
