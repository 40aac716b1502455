package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- accumulated ----------

func (p *impactCheck) overwrites(f *ssa.Function) {
	p.replaced(f)
	tests := p.withTests(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			mt := mu.Map.Type().Underlying().(*types.Map)
			if !isString(mt.Key()) {
				continue
			}
			l := p.w.innermost(f, b)
			if l == nil {
				continue
			}
			name := fnQual(f) + " " + p.keyOf(mu.Map.Type())
			pos := p.w.Pos(mu.Pos())
			if sl, ok := mt.Elem().Underlying().(*types.Slice); ok {
				if !p.dom(sl.Elem()) || strings.Contains(types.TypeString(sl.Elem(), nil), "go/packages") {
					continue
				}
				ok := p.extends(mu) || p.guardedAbsent(mu) || p.ownKey(mu, l)
				p.c.Decide(ok, "accumulated", name, pos, "the list of this name is replaced, what was found under the name before is lost")
				continue
			}
			n := namedOf(deref(mt.Elem()))
			if n == nil || n.Obj().Pkg() == nil || !tests {
				continue
			}
			if o := n.Obj(); strings.HasSuffix(o.Pkg().Path(), "go/ssa") && o.Name() == "Function" || o.Name() == "Node" {
				p.c.Bad("accumulated", name, pos, "the graph holds several functions of one name (variants built for tests), only the last one is kept")
			}
		}
	}
}

// replaced: a list that outlives a loop over elements is made anew in every round instead of being extended.
func (p *impactCheck) replaced(f *ssa.Function) {
	for _, el := range p.w.elemLoops(f, func(v ssa.Value) bool { return true }) {
		for _, in := range el.l.header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			sl, ok := ph.Type().Underlying().(*types.Slice)
			if !ok || !p.dom(sl.Elem()) {
				continue
			}
			for i, pred := range el.l.header.Preds {
				if v := ph.Edges[i]; el.l.body[pred] && v != ph && !isNilConst(v) {
					p.c.Decide(p.madeOf(v, ph, map[ssa.Value]bool{}), "accumulated", fnQual(f)+" "+p.keyOf(ph.Type())+" over rounds", p.w.Pos(ph.Pos()), "each round of the loop replaces what the rounds before put into this list")
				}
			}
		}
	}
}

// madeOf: on every way the value is made from ph.
func (p *impactCheck) madeOf(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ph || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.madeOf(e, ph, seen) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice, *ssa.Const, *ssa.Alloc:
		return true // made at its first use
	case *ssa.Slice:
		return p.madeOf(x.X, ph, seen)
	case *ssa.Extract:
		return p.madeOf(x.Tuple, ph, seen)
	case *ssa.ChangeType:
		return p.madeOf(x.X, ph, seen)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if k, ok := a.(*ssa.Const); ok && !k.IsNil() {
				continue
			}
			if p.madeOf(a, ph, maps.Clone(seen)) {
				return true
			}
		}
	}
	return false
}

// withTests: the function works on a graph which was loaded with tests.
func (p *impactCheck) withTests(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := call.Call.StaticCallee()
		if g == nil || !p.scope[g] || !strings.Contains(call.Type().String(), "callgraph.Graph") {
			return
		}
		for _, a := range call.Call.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) {
				found = true
			}
		}
	})
	return found
}

// extends: the value is made from what is in the map under the key.
func (p *impactCheck) extends(mu *ssa.MapUpdate) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] || len(seen) > 60 {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Lookup:
			return p.w.canon(x.X) == p.w.canon(mu.Map) && p.w.canon(x.Index) == p.w.canon(mu.Key)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if walk(a) {
					return true
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.UnOp:
			for _, st := range p.w.storesTo(x.X) {
				if walk(st.Val) {
					return true
				}
			}
		}
		return false
	}
	return walk(mu.Value)
}

// guardedAbsent: the update happens only where the key was not in the map.
func (p *impactCheck) guardedAbsent(mu *ssa.MapUpdate) bool {
	for _, d := range mu.Parent().Blocks {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !d.Dominates(mu.Block()) {
			continue
		}
		var lu *ssa.Lookup
		absent := -1 // the branch taken when absent
		switch x := iff.Cond.(type) {
		case *ssa.Extract:
			lu, absent = lookupOf(x), 1
		case *ssa.BinOp:
			if isNilConst(x.Y) {
				lu = lookupOf(x.X)
				absent = b2i(x.Op == token.NEQ)
			}
		}
		if lu == nil || absent < 0 || p.w.canon(lu.X) != p.w.canon(mu.Map) {
			continue
		}
		if s := d.Succs[absent]; s.Dominates(mu.Block()) && len(s.Preds) == 1 {
			return true
		}
	}
	return false
}

// ownKey: the key is the one a map is being walked by, or an element's position.
func (p *impactCheck) ownKey(mu *ssa.MapUpdate, l *loop) bool {
	e, ok := mu.Key.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	nx, ok := e.Tuple.(*ssa.Next)
	return ok && l.body[nx.Block()] && !nx.IsString
}

// ---------- whole-list ----------

func (p *impactCheck) cuts(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Slice:
				if _, ok := x.X.Type().Underlying().(*types.Slice); !ok || !p.dom(x.Type()) {
					continue
				}
				lo, lok := int64(0), x.Low == nil
				if !lok {
					lo, lok = constInt(x.Low)
				}
				hi, hok := int64(-1), x.High == nil
				if !hok {
					hi, hok = constInt(x.High)
				}
				if lok && hok && lo == 0 && hi == -1 || hok && hi == 0 {
					continue
				}
				if isLenCall(x.High) && lok && lo == 0 && sameLoad(lenArg(x.High), x.X) {
					continue
				}
				if p.pops(f, x) {
					p.c.Ok("whole-list", fnQual(f)+" takes one element")
					continue
				}
				p.c.Bad("whole-list", fnQual(f)+" "+p.keyOf(x.Type()), p.w.Pos(x.Pos()), "a part of the list is cut off")
			case *ssa.Call:
				n := calleeName(x)
				var pred, list ssa.Value
				drop := false
				switch {
				case strings.Contains(n, "bulk.SliceFilter") && len(x.Call.Args) >= 2:
					pred, list = x.Call.Args[0], x.Call.Args[1]
				case strings.HasPrefix(n, "slices.DeleteFunc"):
					pred, list, drop = x.Call.Args[1], x.Call.Args[0], true
				}
				if pred == nil || !p.dom(x.Type()) && !p.dom(list.Type()) {
					continue
				}
				for _, g := range p.w.funcsOf(pred, map[ssa.Value]bool{}) {
					ok := p.filterOk(g, drop)
					p.c.Decide(ok, "whole-list", fnQual(f)+" filters "+p.keyOf(list.Type()), p.w.Pos(x.Pos()), "an element is filtered out for a reason other than nil, empty, absent or equal")
				}
			}
		}
	}
}

func (p *impactCheck) filterOk(g *ssa.Function, truth bool) bool {
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := retVals(r)[0]
		other := func(in ssa.Instruction) bool {
			r2, ok := in.(*ssa.Return)
			if !ok {
				return false
			}
			k, ok := retVals(r2)[0].(*ssa.Const)
			return !ok || (constBool(k) == 1) != truth
		}
		if k, ok := v.(*ssa.Const); ok {
			if (constBool(k) == 1) == truth && p.reachesPlain(g, b, other, "", false, 0) {
				return false
			}
			continue
		}
		if !p.excused(v, truth, "", false, 0) && p.reachesPlain(g, b, other, "", false, 0) {
			return false
		}
	}
	return true
}

// pops: the list without the element which was just taken from it, in a loop that runs while there is one.
func (p *impactCheck) pops(f *ssa.Function, x *ssa.Slice) bool {
	l := p.w.innermost(f, x.Block())
	if l == nil {
		return false
	}
	want := ""
	if x.High == nil {
		if k, ok := constInt(x.Low); !ok || k != 1 {
			return false
		}
		want = "0"
	} else {
		if x.Low != nil {
			if k, ok := constInt(x.Low); !ok || k != 0 {
				return false
			}
		}
		bo, ok := x.High.(*ssa.BinOp)
		if !ok || bo.Op != token.SUB || !isLenCall(bo.X) {
			return false
		}
		if k, ok := constInt(bo.Y); !ok || k != 1 {
			return false
		}
		want = p.w.canon(x.High)
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && (ia.X == x.X || sameLoad(ia.X, x.X)) && p.w.canon(ia.Index) == want && (b.Dominates(x.Block()) || x.Block().Dominates(b)) {
				return true
			}
		}
	}
	return false
}

// ---------- levels ----------

// listTest: the loop runs while this list is not empty.
func listTest(l *loop) *ssa.Phi {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if isLenCall(v) {
			if ph, ok := lenArg(v).(*ssa.Phi); ok && ph.Block() == l.header {
				return ph
			}
		}
	}
	return nil
}

func (p *impactCheck) worklists(f *ssa.Function) {
	for _, l := range p.w.loops(f) {
		ph := listTest(l)
		if ph == nil || !p.dom(ph.Type()) {
			continue
		}
		carried := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if carried[v] {
				return
			}
			carried[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				if x == ph {
					return
				}
				for _, e := range x.Edges {
					walk(e)
				}
			case *ssa.Slice:
				walk(x.X)
			case *ssa.Call:
				for _, a := range x.Call.Args {
					walk(a)
				}
			}
		}
		for i, e := range ph.Edges {
			if l.body[l.header.Preds[i]] {
				walk(e)
			}
		}
		for b := range l.body {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !types.Identical(call.Type(), ph.Type()) {
					continue
				}
				if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
					continue
				}
				p.c.Decide(carried[call], "levels", fnQual(f)+" "+p.keyOf(ph.Type()), p.w.Pos(call.Pos()), "what the round found is not in the list of the next round")
			}
		}
		for b := range l.body {
			for _, s := range b.Succs {
				if !l.body[s] && b != l.header && !failsOnly(s) {
					p.c.Bad("levels", fnQual(f)+" "+p.keyOf(ph.Type()), p.w.Pos(blockPos(b)), "the worklist is left before it is empty")
				}
			}
		}
	}
}

// ---------- traversal ----------

func isNodeField(v ssa.Value, field string) bool {
	o, f := loadField(v)
	return f == field && strings.HasSuffix(o, "Node")
}

// walkers: the functions which follow the incoming edges of a node.
func (p *impactCheck) walkers() map[*ssa.Function][]elemLoop {
	out := map[*ssa.Function][]elemLoop{}
	for _, f := range p.order {
		els := p.w.elemLoops(f, func(v ssa.Value) bool { return isNodeField(v, "In") })
		if len(els) > 0 {
			out[f] = els
		}
	}
	return out
}

func (p *impactCheck) traversals() {
	for f, els := range p.walkers() {
		for _, el := range els {
			p.traversal(f, el)
		}
	}
}

func (p *impactCheck) traversal(f *ssa.Function, el elemLoop) {
	name := fnQual(f)
	pos := p.w.Pos(blockPos(el.l.header))
	dep := p.forward(el.elems)
	// what is marked and asked
	type mark struct {
		in  ssa.Instruction
		key ssa.Value
		m   ssa.Value
	}
	var marks, asked []mark
	for b := range el.l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isSet(x.Map.Type()) {
					marks = append(marks, mark{x, x.Key, x.Map})
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					asked = append(asked, mark{x, x.Index, x.X})
				}
			}
		}
	}
	pushes := func(in ssa.Instruction) bool {
		for _, k := range p.keeps(in, dep, false, 0) {
			if !strings.HasPrefix(k, "map") {
				return true
			}
		}
		return false
	}
	for _, a := range asked {
		if !dep[a.key] {
			continue
		}
		p.c.Decide(p.nodeKey(a.key), "traversal", name+" asks by node", p.w.Pos(a.in.Pos()), "callers are told apart by something other than their node, so one can hide another")
	}
	for _, m := range marks {
		if !dep[m.key] {
			continue
		}
		p.c.Decide(p.nodeKey(m.key), "traversal", name+" marks by node", p.w.Pos(m.in.Pos()), "callers are told apart by something other than their node, so one can hide another")
		// marked and then not visited: from the mark on (or up to it) the round has to push
		b := m.in.Block()
		before := false
		for _, in := range b.Instrs {
			if pushes(in) {
				before = true
			}
		}
		if !before {
			for d := b.Idom(); d != nil && el.l.body[d]; d = d.Idom() {
				for _, in := range d.Instrs {
					if pushes(in) {
						before = true
					}
				}
			}
		}
		lost := false
		if !before {
			seen := map[*ssa.BasicBlock]bool{}
			st := append([]*ssa.BasicBlock{}, b.Succs...)
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if x == el.l.header {
					lost = true
					break
				}
				if seen[x] || !el.l.body[x] {
					continue
				}
				seen[x] = true
				if slices.ContainsFunc(x.Instrs, pushes) {
					continue
				}
				st = append(st, x.Succs...)
			}
		}
		p.c.Decide(!lost, "traversal", name+" marks what it visits", p.w.Pos(m.in.Pos()), "a caller can be marked as seen without being visited")
	}
	// the round which contains the loop
	var outer *loop
	for _, l := range p.w.loops(f) {
		if l != el.l && l.body[el.l.header] && (outer == nil || len(l.body) < len(outer.body)) {
			outer = l
		}
	}
	isVisit := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		v := p.w.cellRoot(ci.Common().Value)
		if u, ok := v.(*ssa.UnOp); ok {
			if sts := p.w.storesTo(u.X); len(sts) == 1 {
				v = sts[0].Val
			}
		}
		_, ok = v.(*ssa.Parameter)
		return ok && !ci.Common().IsInvoke()
	}
	isWalk := func(in ssa.Instruction) bool { return in == el.l.header.Instrs[0] }
	var start *ssa.BasicBlock
	if outer != nil {
		start = nextBlock(outer)
	} else {
		start = f.Blocks[0]
	}
	p.c.Decide(!p.skips(f, start, outer, isVisit, "none", false), "traversal", name+" gives every node to the callback", pos, "a node can be taken off the worklist without being given to the callback")
	p.c.Decide(!p.skips(f, start, outer, isWalk, "target", false), "traversal", name+" follows the callers of every node", pos, "the callers of a node which is not a root can be left out")
	// a failing callback ends it, and nothing else
	if outer != nil && listTest(outer) != nil {
		ph := listTest(outer)
		ok := false
		for b := range outer.body {
			for _, in := range b.Instrs {
				if sl, isS := in.(*ssa.Slice); isS && sl.X == ssa.Value(ph) && p.pops(f, sl) {
					ok = true
				}
			}
		}
		p.c.Decide(ok, "traversal", name+" takes one node per round", pos, "the worklist does not lose exactly the node which is being visited")
	}
}

func (p *impactCheck) nodeKey(v ssa.Value) bool {
	t := namedOf(deref(v.Type()))
	if t != nil {
		switch t.Obj().Name() {
		case "Node", "Function":
			return true
		}
	}
	if _, f := loadField(v); f == "ID" {
		return true
	}
	return false
}

// ---------- recorded ----------

func (p *impactCheck) callbacks() {
	ws := p.walkers()
	done := map[*ssa.Function]bool{}
	for _, f := range p.order {
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range p.w.Callees(ci) {
				if ws[g] == nil {
					continue
				}
				for _, a := range ci.Common().Args {
					if _, ok := a.Type().Underlying().(*types.Signature); !ok {
						continue
					}
					for _, cb := range p.w.funcsOf(a, map[ssa.Value]bool{}) {
						if p.w.own(cb) && !done[cb] {
							done[cb] = true
							p.callback(cb)
						}
					}
				}
				// the task starts the traversal whatever happens
				if f.Parent() != nil {
					lost := p.skips(f, f.Blocks[0], nil, func(i2 ssa.Instruction) bool { return i2 == in }, "start", false)
					p.c.Decide(!lost, "traversal", fnQual(outermost(f))+" starts one for every function", p.w.Pos(in.Pos()), "the search for one of the functions can be left out")
				}
			}
		})
	}
}

func (p *impactCheck) callback(cb *ssa.Function) {
	name := fnQual(outermost(cb))
	pos := p.w.Pos(cb.Pos())
	var seeds []ssa.Value
	for _, fv := range cb.FreeVars {
		n := namedOf(deref(deref(fv.Type())))
		if n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && p.dom(n) {
			seeds = append(seeds, fv)
		}
	}
	if len(seeds) == 0 {
		return
	}
	target := p.does(func(in ssa.Instruction, dep map[ssa.Value]bool) bool {
		st, ok := in.(*ssa.Store)
		if !ok || !dep[st.Val] {
			return false
		}
		_, ok = st.Addr.(*ssa.IndexAddr)
		return ok && p.dom(st.Val.Type())
	}, "target")
	recorded := p.does(func(in ssa.Instruction, dep map[ssa.Value]bool) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && !isSet(mu.Map.Type()) && p.dom(elemOf(mu.Map.Type()))
	}, "recorded")
	dep := p.forward(seeds)
	lost := p.skips(cb, cb.Blocks[0], nil, func(in ssa.Instruction) bool { return target(in, dep, 0) }, "target", true)
	p.c.Decide(!lost, "recorded", name+" adds the target", pos, "a function is reached without the changed function (or caller) it reaches being added to its list")
	lost = p.skips(cb, cb.Blocks[0], nil, func(in ssa.Instruction) bool { return recorded(in, dep, 0) }, "recorded", true)
	p.c.Decide(!lost, "recorded", name+" enters the function", pos, "a function is reached without being entered into the results")
}

// does lifts an event to calls of own functions in which every path has it.
func (p *impactCheck) does(is func(in ssa.Instruction, dep map[ssa.Value]bool) bool, key string) func(in ssa.Instruction, dep map[ssa.Value]bool, d int) bool {
	var ev func(in ssa.Instruction, dep map[ssa.Value]bool, d int) bool
	ev = func(in ssa.Instruction, dep map[ssa.Value]bool, d int) bool {
		if is(in, dep) {
			return true
		}
		ci, ok := in.(*ssa.Call)
		if !ok || d > 3 {
			return false
		}
		for _, g := range p.w.Callees(ci) {
			if !p.w.own(g) || len(g.Blocks) == 0 {
				return false
			}
			var ps []ssa.Value
			for i, q := range g.Params {
				if a := argFor(ci, g, i); a != nil && dep[a] {
					ps = append(ps, q)
				}
			}
			for _, fv := range g.FreeVars {
				if b := p.w.bindingOf(fv); b != nil && dep[b] || dep[fv] {
					ps = append(ps, fv)
				}
			}
			if len(ps) == 0 {
				return false
			}
			d2 := p.forward(ps)
			any := false
			eachInstr(g, func(i2 ssa.Instruction) {
				if ev(i2, d2, d+1) {
					any = true
				}
			})
			if any && !p.skips(g, g.Blocks[0], nil, func(i2 ssa.Instruction) bool { return ev(i2, d2, d+1) }, key, true) {
				return true
			}
		}
		return false
	}
	return ev
}

// ---------- roots ----------

func (p *impactCheck) rootKinds() {
	preds := map[*ssa.Function]bool{}
	isPred := func(v ssa.Value) *ssa.Function {
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		g := call.Call.StaticCallee()
		if g == nil || !p.w.own(g) || len(g.Params) != 1 || g.Signature.Results().Len() != 1 {
			return nil
		}
		if n := namedOf(deref(g.Params[0].Type())); n == nil || n.Obj().Name() != "Function" {
			return nil
		}
		return g
	}
	for _, f := range p.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isSet(mu.Map.Type()) {
					continue
				}
				n := namedOf(deref(mu.Map.Type().Underlying().(*types.Map).Key()))
				if n == nil || n.Obj().Name() != "Node" {
					continue
				}
				if p.ofWalk(f) {
					continue // the set of seen nodes
				}
				// unreachable without a predicate saying yes
				seen := map[*ssa.BasicBlock]bool{}
				st := []*ssa.BasicBlock{f.Blocks[0]}
				free := false
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if seen[x] {
						continue
					}
					seen[x] = true
					if x == b {
						free = true
					}
					last := x.Instrs[len(x.Instrs)-1]
					for i, s := range x.Succs {
						if iff, ok := last.(*ssa.If); ok {
							cond, truth := iff.Cond, i == 0
							if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
								cond, truth = u.X, !truth
							}
							if g := isPred(cond); g != nil && truth {
								preds[g] = true
								continue
							}
							if ph, ok := cond.(*ssa.Phi); ok && truth && p.allPreds(ph, isPred, preds) {
								continue
							}
						}
						st = append(st, s)
					}
				}
				p.c.Decide(!free, "roots", fnQual(f)+" marks a root", p.w.Pos(mu.Pos()), "a function which was not established to be main, init or a test can end the search for callers")
			}
		}
	}
	var gs []*ssa.Function
	for g := range preds {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	for _, g := range gs {
		p.predicate(g)
	}
}

// ofWalk: the function is the traversal or a helper of it.
func (p *impactCheck) ofWalk(f *ssa.Function) bool {
	for g := range p.walkers() {
		if f == g || p.w.ownReach(g, 3)[f] {
			return true
		}
	}
	return false
}

func (p *impactCheck) allPreds(ph *ssa.Phi, isPred func(v ssa.Value) *ssa.Function, preds map[*ssa.Function]bool) bool {
	for i, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok {
			if constBool(k) == 0 {
				continue
			}
			pr := ph.Block().Preds[i]
			iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok || pr.Succs[0] != ph.Block() {
				return false
			}
			g := isPred(iff.Cond)
			if g == nil {
				return false
			}
			preds[g] = true
			continue
		}
		g := isPred(e)
		if g == nil {
			return false
		}
		preds[g] = true
	}
	return true
}

// predicate: the ways to yes establish one of the kinds, the ways to no deny one of its parts.
func (p *impactCheck) predicate(g *ssa.Function) {
	kinds := map[string][]string{
		"main": {"name=main", "pkg=main", "recv=nil"},
		"init": {"name=init", "recv=nil"},
		"test": {"prefix=Test", "recv=nil", "is *testing", "name=T"},
	}
	yes := map[string]bool{}
	badYes, badNo := "", ""
	var no [][]string
	p.ways(g, func(truth bool, lits []string, pos token.Pos) {
		if !truth {
			no = append(no, append([]string{p.w.Pos(pos)}, lits...))
			return
		}
		kind := ""
		for _, k := range []string{"main", "init", "test"} {
			all := true
			for _, q := range kinds[k] {
				if q == "is *testing" {
					q = "path=testing"
				}
				if !slices.Contains(lits, q) {
					all = false
				}
			}
			if all {
				kind = k
			}
		}
		if kind == "" {
			badYes = p.w.Pos(pos) + " after " + strings.Join(lits, ", ")
		}
		yes[kind] = true
	})
	p.c.Decide(badYes == "", "roots", fnQual(g)+" says yes", p.w.Pos(g.Pos()), "answers yes for functions that are not main.main, init or a test: %s", badYes)
	if !yes["test"] {
		return
	}
	for _, lits := range no {
		denied := false
		for _, l := range lits[1:] {
			switch l {
			case "!prefix=Test", "!suffix=_test.go", "!params=1", "!recv=nil", "nil", "!assert", "!name=T", "!path=testing", "lower":
				denied = true
			}
		}
		if !denied {
			badNo = lits[0] + " after " + strings.Join(lits[1:], ", ")
		}
	}
	p.c.Decide(badNo == "", "roots", fnQual(g)+" says no", p.w.Pos(g.Pos()), "answers no for functions that go test runs: %s", badNo)
}

// ways enumerates the paths of a predicate with the facts that hold on them.
func (p *impactCheck) ways(g *ssa.Function, visit func(truth bool, lits []string, pos token.Pos)) {
	n := 0
	var walk func(b, from *ssa.BasicBlock, lits []string, on map[*ssa.BasicBlock]bool)
	walk = func(b, from *ssa.BasicBlock, lits []string, on map[*ssa.BasicBlock]bool) {
		n++
		if on[b] || n > 5000 {
			return
		}
		on[b] = true
		defer delete(on, b)
		resolve := func(v ssa.Value) ssa.Value {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b && from != nil {
				for i, q := range b.Preds {
					if q == from {
						return ph.Edges[i]
					}
				}
			}
			return v
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			v := resolve(retVals(x)[0])
			if k, ok := v.(*ssa.Const); ok {
				visit(constBool(k) == 1, lits, x.Pos())
				return
			}
			visit(true, append(slices.Clone(lits), p.literals(v, true)...), x.Pos())
			visit(false, append(slices.Clone(lits), p.literals(v, false)...), x.Pos())
		case *ssa.If:
			c := resolve(x.Cond)
			for i, s := range b.Succs {
				if k, ok := c.(*ssa.Const); ok && (constBool(k) == 1) != (i == 0) {
					continue
				}
				walk(s, b, append(slices.Clone(lits), p.literals(c, i == 0)...), on)
			}
		default:
			for _, s := range b.Succs {
				walk(s, b, lits, on)
			}
		}
	}
	walk(g.Blocks[0], nil, nil, map[*ssa.BasicBlock]bool{})
}

// literals: what is known about the function when the condition has this outcome.
func (p *impactCheck) literals(v ssa.Value, truth bool) []string {
	neg := func(s string, yes bool) string {
		if yes {
			return s
		}
		return "!" + s
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.literals(x.X, !truth)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		eq := (x.Op == token.EQL) == truth
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		what := ""
		if call, ok := a.(*ssa.Call); ok {
			what = methodName(call)
		} else {
			_, what = loadField(a)
		}
		if isNilConst(b) {
			if what == "Recv" {
				return []string{neg("recv=nil", eq)}
			}
			if eq {
				return []string{"nil"}
			}
			return nil
		}
		if s, ok := constString(b); ok {
			switch what {
			case "Name":
				if call, ok := a.(*ssa.Call); ok {
					if r := recvOf(call); r != nil && isNamed(deref(r.Type()), "go/types", "Package") {
						return []string{neg("pkg="+s, eq)}
					}
				}
				return []string{neg("name="+s, eq)}
			case "Path":
				return []string{neg("path="+s, eq)}
			}
			return nil
		}
		if k, ok := constInt(b); ok && k == 1 && (what == "Len" || what == "NumFields") {
			return []string{neg("params=1", eq)}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return []string{neg("assert", truth)}
		case *ssa.Call:
			if calleeName(t) == "strings.CutPrefix" && len(t.Call.Args) == 2 {
				if s, ok := constString(t.Call.Args[1]); ok {
					return []string{neg("prefix="+s, truth)}
				}
			}
		}
	case *ssa.Call:
		switch calleeName(x) {
		case "strings.HasPrefix", "strings.HasSuffix":
			if s, ok := constString(x.Call.Args[1]); ok {
				return []string{neg(map[bool]string{true: "prefix=", false: "suffix="}[calleeName(x) == "strings.HasPrefix"]+s, truth)}
			}
		case "unicode.IsLower":
			if truth {
				return []string{"lower"}
			}
		}
		// what a helper's answer says: what holds on all of its ways to it
		g := x.Call.StaticCallee()
		if g == nil || !p.w.own(g) || len(g.Blocks) == 0 || p.busy[g] || g.Signature.Results().Len() != 1 {
			return nil
		}
		p.busy[g] = true
		defer delete(p.busy, g)
		var common []string
		first := true
		p.ways(g, func(t bool, lits []string, _ token.Pos) {
			if t != truth {
				return
			}
			if first {
				common, first = slices.Clone(lits), false
				return
			}
			common = slices.DeleteFunc(common, func(l string) bool { return !slices.Contains(lits, l) })
			if !truth && len(lits) > 0 && len(common) == 0 {
				common = []string{lits[len(lits)-1]}
			}
		})
		return common
	}
	return nil
}

// ---------- graph ----------

func (p *impactCheck) graph() {
	for _, f := range p.order {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch n := calleeName(call); {
			case strings.HasSuffix(n, "cha.CallGraph"):
				built := false
				eachInstr(f, func(i2 ssa.Instruction) {
					if c2, ok := i2.(*ssa.Call); ok && strings.HasSuffix(calleeName(c2), "ssa.Program).Build") && alwaysBefore(c2, nil, call, nil) {
						built = true
					}
				})
				p.c.Decide(built, "graph", fnQual(f)+" builds before the graph", p.w.Pos(call.Pos()), "the program is not built when its call graph is made: functions have no calls yet")
			case strings.HasSuffix(n, "packages.Load"):
				p.load(f, call)
			}
		})
	}
}

func (p *impactCheck) load(f *ssa.Function, call *ssa.Call) {
	cfg, ok := call.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return
	}
	graph := false
	for _, g := range withClosures(f) {
		eachInstr(g, func(in ssa.Instruction) {
			if c2, ok := in.(*ssa.Call); ok && strings.HasSuffix(calleeName(c2), "cha.CallGraph") {
				graph = true
			}
		})
	}
	var mode int64 = -1
	var tests ssa.Value
	for _, r := range *cfg.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		_, fld, _ := fieldName(fa)
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				switch fld {
				case "Mode":
					if k, ok := constInt(st.Val); ok {
						mode = k
					}
				case "Tests":
					tests = st.Val
				}
			}
		}
	}
	need := []string{"NeedSyntax", "NeedTypes", "NeedName", "NeedFiles"}
	if graph {
		need = append(need, "NeedTypesInfo", "NeedImports", "NeedDeps")
	}
	if mode >= 0 {
		miss := ""
		var scope *types.Scope
		if g := call.Call.StaticCallee(); g != nil && g.Pkg != nil {
			scope = g.Pkg.Pkg.Scope()
		}
		for _, n := range need {
			if scope == nil {
				break
			}
			if k, ok := scope.Lookup(n).(*types.Const); ok {
				if bit, ok := constant.Int64Val(k.Val()); ok && mode&bit != bit {
					miss += " " + n
				}
			}
		}
		p.c.Decide(miss == "", "graph", fnQual(f)+" loads what it needs", p.w.Pos(call.Pos()), "the packages are loaded without%s", miss)
	}
	if !graph {
		return
	}
	// where tests are looked for the graph has them
	entry := p.w.Func("TestStaticAnalysis")
	if entry == nil {
		return
	}
	with := p.truth(tests, entry, 0)
	p.c.Decide(with != 0 && with != 2, "graph", fnQual(entry)+" loads tests", p.w.Pos(entry.Pos()), "the graph that tests are looked for in is loaded without them")
}

// truth follows a parameter to what is passed for it on the way from the entry: 1 true, 0 false, 2 a comparison's result, -1 not known.
func (p *impactCheck) truth(v ssa.Value, entry *ssa.Function, d int) int {
	if v == nil {
		return 0
	}
	if k, ok := v.(*ssa.Const); ok {
		return constBool(k)
	}
	if _, ok := v.(*ssa.BinOp); ok {
		return 2 // depends on something
	}
	q, ok := v.(*ssa.Parameter)
	if !ok || d > 4 {
		return -1
	}
	out := -1
	for f := range p.scope {
		if !p.w.ownReach(entry, 6)[f] && f != entry {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() != q.Parent() {
				return
			}
			r := p.truth(argFor(ci, q.Parent(), paramIndex(q)), entry, d+1)
			if r >= 0 && out != 1 {
				out = r
			}
		})
	}
	return out
}

// ---------- definition ----------

func (p *impactCheck) definition() {
	for _, f := range p.order {
		stores := false
		eachInstr(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					o, fld, _ := fieldName(fa)
					if fld == "Definition" {
						stores = true
					}
					if strings.HasSuffix(o, "FuncDecl") && fld != "Doc" {
						p.c.Bad("definition", fnQual(outermost(f))+" changes the declaration", p.w.Pos(st.Pos()), "%s of the declaration is changed before it is compared", fld)
					}
				}
			}
		})
		if !stores {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			n := calleeName(call)
			if !strings.HasSuffix(n, "printer.Config).Fprint") && !strings.HasSuffix(n, "printer.Fprint") && !strings.HasSuffix(n, "format.Node") {
				return
			}
			a := call.Call.Args[len(call.Call.Args)-1]
			mi, ok := a.(*ssa.MakeInterface)
			whole := ok && isNamed(deref(mi.X.Type()), "go/ast", "FuncDecl")
			p.c.Decide(whole, "definition", fnQual(outermost(f)), p.w.Pos(call.Pos()), "only a part of the declaration is printed, changes of the rest are not seen")
		})
	}
}
