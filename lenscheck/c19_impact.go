package main

import (
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkImpact }

// The impact analysis is a chain of loops which hand the changed functions on: module changes -> changed functions ->
// callers -> tests. The check looks at every loop of the chain that keeps something made from its element, and asks whether
// a round can end without keeping it for a reason which is not one of the known ones.

type impactCheck struct {
	c      *Check
	w      *World
	scope  map[*ssa.Function]bool
	order  []*ssa.Function
	doms   map[types.Type]bool
	memo   map[*ssa.Function]map[string]bool
	busy   map[*ssa.Function]bool
	wkMemo map[*ssa.Function]bool
}

func checkImpact(c *Check) {
	w := c.W
	p := &impactCheck{c: c, w: w, scope: map[*ssa.Function]bool{}, doms: map[types.Type]bool{},
		memo: map[*ssa.Function]map[string]bool{}, busy: map[*ssa.Function]bool{}, wkMemo: map[*ssa.Function]bool{}}
	c.Rule("kept", "Every loop of the impact analysis (over required modules, module changes, packages, files, declarations, functions of the call graph, callers, tests, and each level of transitive analyses) visits every element, is left early only by failing, and every round keeps what is made from the element (appends it, enters it into the map, starts the task, calls it, walks its parts). A round may pass over an element only because something is nil or empty, was (not) found in a map or set, is equal to the other version, is not a declaration of a function, or, in the callbacks of the traversal, because an own predicate on the function and its file says so.", 12)
	c.Rule("recorded", "Every path through a callback of the call graph traversal which neither fails nor is filtered out by the predicates enters the function into the results and adds the changed function (for tests: the caller) to its list, unless the list has one with the same identity already.", 4)
	c.Rule("traversal", "The traversal of the call graph gives every node to the callback, follows every incoming edge of every node that is not a root, marks a caller as seen exactly when it will be visited, by its node and not by a name, takes exactly one node off the worklist per round and ends when the worklist is empty or the callback fails.", 4)
	c.Rule("roots", "The traversal stops only at functions for which the code has established that they are main.main, a package's init function, or a test function: Test..., not a method, one *testing.T parameter. Every function of that kind (for tests: in the project) is one.", 2)
	c.Rule("accumulated", "A map from a name to the functions found under it is extended, not overwritten, when the name comes up again; the call graph with test variants is indexed by name to all functions of the name.", 1)
	c.Rule("levels", "A worklist of the analysis carries what a round found into the next one.", 1)
	c.Rule("whole-list", "No part of a list of functions, modules or packages is cut off on the way, and filters of such lists pass over an element only for the reasons of rule kept.", 1)
	c.Rule("graph", "The call graph is built from packages loaded with syntax, types and dependencies (with their tests where tests are looked for), with every import of every package in it, and the program is built before the graph is.", 3)
	c.Rule("definition", "What is compared to tell whether a function changed is the whole declaration, without its documentation.", 1)

	var roots []*ssa.Function
	for _, n := range []string{"CallerStaticAnalysis", "TestStaticAnalysis", "AnalyzeModuleChanges", "DiffModulesFromGoModFiles",
		"DiffModulesFromGoWorkFiles", "LoadProjectCallGraph", "ExtractModuleFunctionsFromPackages", "FilterModulesByGoVersion",
		"ProjectPackagePatterns"} {
		if f := w.Func(n); f != nil {
			roots = append(roots, f)
		}
	}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if f == nil || p.scope[f] || !w.own(f) || len(f.Blocks) == 0 {
			return
		}
		p.scope[f] = true
		for _, a := range f.AnonFuncs {
			reach(a)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(ci) {
					reach(g)
				}
			}
		})
	}
	for _, f := range roots {
		reach(f)
	}
	for _, f := range w.Fns { // the engine and its helpers
		if o := outermost(f); w.own(f) && o.Signature.Recv() != nil && isEngine(o.Signature.Recv().Type()) {
			p.scope[f] = true
		}
		if f.Name() == "PerformCallerStaticAnalysis" && w.own(f) {
			reach(f)
		}
	}
	for f := range p.scope {
		p.order = append(p.order, f)
	}
	sort.Slice(p.order, func(i, j int) bool { return p.order[i].Pos() < p.order[j].Pos() })
	c.extra["functions"] = len(p.order)

	for _, f := range p.order {
		p.loopsKeep(f)
		p.inspected(f)
		p.overwrites(f)
		p.cuts(f)
		p.worklists(f)
	}
	p.callbacks()
	p.traversals()
	p.rootKinds()
	p.graph()
	p.definition()
	c.Assume("call graphs are those of class hierarchy analysis (x/tools cha); what packages.Load returns is what go list reports")
}

// ---------- types ----------

// dom: the type carries one of the things handed on.
func (p *impactCheck) dom(t types.Type) bool {
	if r, ok := p.doms[t]; ok {
		return r
	}
	p.doms[t] = false
	r := p.dom1(t)
	p.doms[t] = r
	return r
}

func (p *impactCheck) dom1(t types.Type) bool {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return false
		}
		path := o.Pkg().Path()
		switch {
		case strings.HasPrefix(path, modPath):
			switch o.Name() {
			case "ModuleFunction", "ModuleChange", "CallerFunction", "TestFunction":
				return true
			}
			return p.dom1u(x.Underlying())
		case strings.HasSuffix(path, "go/ssa"):
			return o.Name() == "Function" || o.Name() == "Package"
		case strings.HasSuffix(path, "go/callgraph"):
			return o.Name() == "Node" || o.Name() == "Edge"
		case strings.HasSuffix(path, "go/packages"):
			return o.Name() == "Package"
		}
		return false
	}
	return p.dom1u(t)
}

func (p *impactCheck) dom1u(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return p.dom(x.Elem())
	case *types.Slice:
		return p.dom(x.Elem())
	case *types.Array:
		return p.dom(x.Elem())
	case *types.Map:
		return p.dom(x.Elem()) || p.dom(x.Key())
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Exported() {
			return false
		}
		for i := range x.NumFields() {
			if p.dom(x.Field(i).Type()) {
				return true
			}
		}
	case *types.Signature:
		for i := range x.Results().Len() {
			if p.dom(x.Results().At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isSet(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	switch e := m.Elem().Underlying().(type) {
	case *types.Basic:
		return e.Kind() == types.Bool
	case *types.Struct:
		return e.NumFields() == 0
	}
	return false
}

// requires: the type is one of the requirements of a module file.
func requires(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "mod/modfile")
}

// ---------- what is made from an element ----------

// forward: the values made from the seeds in their function and in the closures made there.
func (p *impactCheck) forward(seeds []ssa.Value) map[ssa.Value]bool {
	dep := map[ssa.Value]bool{}
	var st []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !dep[v] {
			dep[v] = true
			st = append(st, v)
		}
	}
	for _, v := range seeds {
		add(v)
	}
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				// the thing the value was put into
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if al, ok := a.(*ssa.Alloc); ok {
					add(al)
				}
			case *ssa.MakeClosure:
				add(x)
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						add(fn.FreeVars[i])
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && x.Call.Args[0] == v {
					continue // what else is in the list is not made from it
				}
				add(x)
			case *ssa.Phi:
				add(x)
			case *ssa.BinOp:
				if _, isStr := x.Type().Underlying().(*types.Basic); isStr && x.Op == token.ADD {
					add(x)
				}
			case *ssa.Lookup:
				add(x)
			case ssa.Value:
				add(x)
			}
		}
	}
	return dep
}

// keeps names what an instruction keeps of the given values; "" when nothing.
func (p *impactCheck) keeps(in ssa.Instruction, dep map[ssa.Value]bool, req bool, depth int) []string {
	var out []string
	isDom := func(t types.Type) bool {
		if p.dom(t) {
			return true
		}
		if !req {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if (dep[x.Key] || dep[x.Value]) && isDom(x.Map.Type()) {
			out = append(out, p.keyOf(x.Map.Type()))
		}
	case *ssa.Go:
		if depCall(x, dep) {
			out = append(out, "the started task")
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && len(x.Call.Args) == 2 && dep[x.Call.Args[1]] && isDom(x.Type()) && accumulates(x) {
				out = append(out, p.keyOf(x.Type()))
			}
			return out
		}
		if dep[x.Call.Value] {
			if _, ok := x.Call.Value.(*ssa.MakeClosure); !ok && p.dom(x.Call.Value.Type()) {
				out = append(out, "its call")
			}
		}
		callees := p.w.Callees(x)
		own := false
		for _, g := range callees {
			if p.w.own(g) {
				own = true
			}
		}
		for _, a := range x.Call.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok && dep[mc] && !own && !yieldsBool(mc) {
				out = append(out, "the started task")
			}
		}
		if own && req && depCall(x, dep) && onlyError(x.Call.Signature()) {
			out = append(out, "map[string]struct{}")
		}
		if own && depth < 3 {
			for _, g := range callees {
				if !p.w.own(g) || len(g.Blocks) == 0 {
					continue
				}
				if !depCall(x, dep) {
					continue
				}
				if p.entersItself(g) && len(x.Call.Args) > 0 && p.dom(x.Call.Args[0].Type()) {
					out = append(out, "the visit")
					continue
				}
				// a helper which keeps its parameters in something it was given
				var ps []ssa.Value
				for i, q := range g.Params {
					if a := argFor(x, g, i); a != nil && dep[a] {
						ps = append(ps, q)
					}
				}
				if len(ps) == 0 || p.busy[g] {
					continue
				}
				p.busy[g] = true
				d := p.forward(ps)
				keys := map[string]bool{}
				eachInstr(g, func(i2 ssa.Instruction) {
					for _, k := range p.keeps(i2, d, req, depth+1) {
						if mu, ok := i2.(*ssa.MapUpdate); ok && p.local(mu.Map) {
							continue
						}
						if ap, ok := i2.(*ssa.Call); ok && k == p.keyOf(ap.Type()) && !p.putOutside(ap) {
							continue
						}
						keys[k] = true
					}
				})
				delete(p.busy, g)
				for k := range keys {
					if !p.skips(g, g.Blocks[0], nil, func(i2 ssa.Instruction) bool { return slices.Contains(p.keeps(i2, d, req, depth+1), k) }, k, false) {
						out = append(out, k)
					}
				}
			}
		}
	}
	return out
}

func onlyError(sig *types.Signature) bool {
	return sig.Results().Len() == 0 || sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type())
}

// accumulates: the list that is appended to has been there before the round.
func accumulates(app *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if x.Block().Dominates(x.Block().Preds[i]) || walk(e) {
					return true
				}
			}
			return false
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return x == v && walk(x.Call.Args[0])
			}
			return false
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.Const:
			return false
		}
		return true
	}
	return walk(app.Call.Args[0])
}

func yieldsBool(mc *ssa.MakeClosure) bool {
	r := mc.Fn.(*ssa.Function).Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := r.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func depCall(ci ssa.CallInstruction, dep map[ssa.Value]bool) bool {
	for _, a := range ci.Common().Args {
		if dep[a] {
			return true
		}
	}
	return dep[ci.Common().Value]
}

// local: the map was made in this function.
func (p *impactCheck) local(m ssa.Value) bool {
	switch x := m.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return al.Parent() == x.Parent()
		}
	}
	return false
}

// putOutside: the list is stored outside of the function.
func (p *impactCheck) putOutside(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				return true
			}
		case *ssa.MapUpdate:
			return true
		}
	}
	return false
}

func (p *impactCheck) keyOf(t types.Type) string {
	return types.TypeString(types.Unalias(t).Underlying(), func(pk *types.Package) string { return pk.Name() })
}

func (p *impactCheck) entersItself(g *ssa.Function) bool {
	if r, ok := p.wkMemo[g]; ok {
		return r
	}
	r := false
	eachInstr(g, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok && slices.Contains(p.w.Callees(ci), g) {
			r = true
		}
	})
	p.wkMemo[g] = r
	return r
}

// ---------- rule kept ----------

func (p *impactCheck) loopsKeep(f *ssa.Function) {
	for _, lk := range p.keepLoops(f) {
		name := fnQual(f) + " over " + p.keyOf(lk.el.cont.Type())
		pos := p.w.Pos(blockPos(lk.el.l.header))
		if why := p.w.visitsAllOr(lk.el, nil, true); why != "" {
			p.c.Bad("kept", name, pos, "the loop %s: elements after it are lost", why)
			continue
		}
		for _, k := range sortedKeysOf(lk.keys) {
			start := nextBlock(lk.el.l)
			bad := start == nil || p.skips(f, start, lk.el.l, func(in ssa.Instruction) bool { return lk.does(in, k) }, k, false)
			p.c.Decide(!bad, "kept", name+" to "+k, pos, "a round can end without keeping its element in %s for a reason other than nil, empty, absent or equal", k)
		}
	}
}

// inspected: the same for the callback of a walk over the syntax tree.
func (p *impactCheck) inspected(f *ssa.Function) {
	eachInstr(f, func(in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok || calleeName(call) != "go/ast.Inspect" {
			return
		}
		for _, cb := range p.w.funcsOf(call.Call.Args[1], map[ssa.Value]bool{}) {
			if !p.w.own(cb) || len(cb.Params) != 1 {
				continue
			}
			dep := p.forward([]ssa.Value{cb.Params[0]})
			keys := map[string]bool{}
			eachInstr(cb, func(in ssa.Instruction) {
				for _, k := range p.keeps(in, dep, false, 0) {
					keys[k] = true
				}
			})
			for _, k := range sortedKeysOf(keys) {
				lost := p.skips(cb, cb.Blocks[0], nil, func(in ssa.Instruction) bool { return slices.Contains(p.keeps(in, dep, false, 0), k) }, k, false)
				p.c.Decide(!lost, "kept", fnQual(f)+" walks the tree to "+k, p.w.Pos(cb.Pos()), "a declaration can be passed over for a reason other than nil, empty, absent or equal")
			}
		}
	})
}

type keepLoop struct {
	el   elemLoop
	dep  map[ssa.Value]bool
	keys map[string]bool
	at   map[ssa.Instruction][]string
}

func (lk *keepLoop) does(in ssa.Instruction, key string) bool { return slices.Contains(lk.at[in], key) }

func (p *impactCheck) keepLoops(f *ssa.Function) []*keepLoop {
	els := p.w.elemLoops(f, func(v ssa.Value) bool {
		switch v.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		return false
	})
	var out []*keepLoop
	for _, el := range els {
		lk := &keepLoop{el: el, keys: map[string]bool{}, at: map[ssa.Instruction][]string{}}
		et := elemOf(el.cont.Type())
		req := requires(et) || isDeps(el.cont.Type()) || p.modDirs(f, el.cont)
		lk.dep = p.forward(el.elems)
		consulted := map[string]bool{}
		for b := range el.l.body {
			for _, in := range b.Instrs {
				if lu, ok := in.(*ssa.Lookup); ok && isSet(lu.X.Type()) {
					consulted[p.w.canon(lu.X)] = true
				}
			}
		}
		for b := range el.l.body {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isSet(mu.Map.Type()) && consulted[p.w.canon(mu.Map)] {
					continue
				}
				for _, k := range p.keeps(in, lk.dep, req, 0) {
					lk.keys[k] = true
					lk.at[in] = append(lk.at[in], k)
				}
			}
		}
		if len(lk.keys) > 0 {
			out = append(out, lk)
		}
	}
	// entering a loop over a part of the element is keeping what that loop keeps
	for _, o := range out {
		for _, i := range out {
			if i == o || !o.el.l.body[i.el.l.header] || len(i.el.l.header.Instrs) == 0 {
				continue
			}
			if !o.dep[i.el.cont] && !p.made(i.el.cont, o.dep) {
				continue
			}
			for k := range i.keys {
				h := i.el.l.header.Instrs[0]
				o.at[h] = append(o.at[h], k)
			}
		}
	}
	return out
}

func (p *impactCheck) made(v ssa.Value, dep map[ssa.Value]bool) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		return dep[u.X]
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if dep[e] {
				return true
			}
		}
	}
	return false
}

func elemOf(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Map:
		return x.Elem()
	}
	return t
}

func isEngine(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Name() == "AnalysisEngine"
}

// modDirs: the names were made from module or workspace files.
func (p *impactCheck) modDirs(f *ssa.Function, cont ssa.Value) bool {
	switch x := cont.Type().Underlying().(type) {
	case *types.Slice:
		if !isString(x.Elem()) {
			return false
		}
	case *types.Map:
		if !isString(x.Key()) || !isSet(cont.Type()) {
			return false
		}
	default:
		return false
	}
	found := p.readsModFile(f)
	eachInstr(f, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && p.w.own(g) {
				for h := range p.w.ownReach(g, 2) {
					if p.readsModFile(h) {
						found = true
					}
				}
			}
		}
	})
	return found
}

func (p *impactCheck) readsModFile(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok && strings.Contains(calleeName(call), "modfile.Parse") {
			found = true
		}
	})
	return found
}

// isDeps: module names with versions.
func isDeps(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	if isString(m.Elem()) {
		return true
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// skips: from start the round (or, without a loop, the function) can end without the event although no accepted reason applies.
func (p *impactCheck) skips(f *ssa.Function, start *ssa.BasicBlock, l *loop, is func(in ssa.Instruction) bool, key string, callback bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{start}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if l != nil && b == l.header {
			return true
		}
		if seen[b] || l != nil && !l.body[b] || failsOnly(b) {
			continue
		}
		seen[b] = true
		hit := false
		for _, in := range b.Instrs {
			if is(in) {
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok && l == nil {
			return true
		}
		for i, s := range b.Succs {
			if iff, ok := last.(*ssa.If); ok && p.excused(iff.Cond, i == 0, key, callback, 0) && !canReach(s, l, is) {
				continue // given up for an accepted reason
			}
			st = append(st, s)
		}
	}
	return false
}

// canReach: the event is still possible in this round.
func canReach(b *ssa.BasicBlock, l *loop, is func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || l != nil && (x == l.header || !l.body[x]) {
			continue
		}
		seen[x] = true
		if slices.ContainsFunc(x.Instrs, is) {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

// ---------- accepted reasons ----------

// excused: the condition having this outcome is an accepted reason to pass over the element.
func (p *impactCheck) excused(v ssa.Value, truth bool, key string, callback bool, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.excused(x.X, !truth, key, callback, d+1)
		}
		if x.Op == token.MUL {
			if sts := p.w.storesTo(x.X); len(sts) == 1 {
				return p.excused(sts[0].Val, truth, key, callback, d+1)
			}
		}
	case *ssa.Const:
		return b2i(truth) != constBool(x)
	case *ssa.Phi:
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			ok := p.excused(e, truth, key, callback, d+1)
			if !ok {
				if iff, isIf := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); isIf {
					ok = p.excused(iff.Cond, pred.Succs[0] == x.Block(), key, callback, d+1)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return p.excusedCompare(x, truth, key, callback)
	case *ssa.Lookup:
		return p.presence(x, key)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return p.presence(t, key)
		case *ssa.TypeAssert:
			return !truth && isNamed(deref(t.AssertedType), "go/ast", "FuncDecl")
		case *ssa.Call:
			return p.excusedCall(t, x.Index, truth, key, callback, d)
		}
	case *ssa.Call:
		return p.excusedCall(x, 0, truth, key, callback, d)
	}
	return false
}

func constBool(c *ssa.Const) int {
	if c.Value != nil && c.Value.String() == "true" {
		return 1
	}
	return 0
}

// presence: whether something is in a map is a reason, except that a function which is recorded already still gets the
// further changes that reach it.
func (p *impactCheck) presence(lu *ssa.Lookup, key string) bool {
	if key != "target" {
		return true
	}
	return isSet(lu.X.Type())
}

func (p *impactCheck) excusedCompare(x *ssa.BinOp, truth bool, key string, callback bool) bool {
	a, b := x.X, x.Y
	eq := x.Op == token.EQL
	switch x.Op {
	case token.EQL, token.NEQ:
		eq = eq == truth
	case token.GTR, token.LSS, token.GEQ, token.LEQ:
		return p.emptyTest(x, truth, key)
	default:
		return false
	}
	if _, ok := a.(*ssa.Const); ok {
		a, b = b, a
	}
	if isNilConst(b) {
		if lu := lookupOf(a); lu != nil {
			return p.presence(lu, key)
		}
		if n := namedOf(deref(a.Type())); n != nil && n.Obj().Name() == "Package" && !callback {
			return false // wrappers and instances of generic functions have no package
		}
		return eq || isErrorType(a.Type())
	}
	if s, ok := constString(b); ok {
		return s == "" && eq
	}
	if _, ok := constInt(b); ok {
		return p.emptyTest(x, truth, key)
	}
	if !eq {
		return false
	}
	_, fa := loadField(a)
	_, fb := loadField(b)
	for _, n := range []string{fa, fb} {
		switch n {
		case "", "Definition", "FunctionIdent", "Version", "Func":
		default:
			return false
		}
	}
	if isString(a.Type()) {
		return true
	}
	_, ok := a.Type().Underlying().(*types.Pointer)
	return ok
}

func loadField(v ssa.Value) (owner, field string) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		o, n, _ := fieldName(u.X)
		return o, n
	}
	if fl, ok := v.(*ssa.Field); ok {
		o, n, _ := fieldName(fl)
		return o, n
	}
	return "", ""
}

func lookupOf(v ssa.Value) *ssa.Lookup {
	switch x := v.(type) {
	case *ssa.Lookup:
		return x
	case *ssa.Extract:
		if lu, ok := x.Tuple.(*ssa.Lookup); ok {
			return lu
		}
	}
	return nil
}

// emptyTest: the comparison says that a length is zero.
func (p *impactCheck) emptyTest(x *ssa.BinOp, truth bool, key string) bool {
	a, b, op := x.X, x.Y, x.Op
	if _, ok := constInt(a); ok {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := constInt(b)
	if !ok || !isLenCall(a) {
		return false
	}
	// what is empty is what would have been kept, not something next to it
	switch t := a.(*ssa.Call).Call.Args[0].Type(); {
	case p.dom(t):
		if !strings.HasSuffix(key, p.keyOf(t)) {
			return false
		}
	default:
		if el := elemOf(t); el != nil && isNamed(deref(el), "go/ast", "Ident") {
			return false
		}
	}
	if !truth {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.EQL, token.LEQ:
		return k == 0
	case token.LSS:
		return k == 1
	}
	return false
}

func (p *impactCheck) excusedCall(call *ssa.Call, idx int, truth bool, key string, callback bool, d int) bool {
	if methodName(call) == "IsDir" {
		return !truth
	}
	g := call.Call.StaticCallee()
	if g == nil {
		return false
	}
	n := calleeName(call)
	switch n {
	case "slices.Contains", "slices.ContainsFunc":
		return truth && p.sameIdent(call)
	}
	if !p.w.own(g) || len(g.Blocks) == 0 {
		return false
	}
	switch g.Name() {
	case "FileExists":
		return !truth
	case "IsGoVersionBelowMinimum":
		return truth
	case "isMainFunction", "isInitFunction", "isGoTestFunction":
		return !truth && strings.HasSuffix(key, "]bool")
	case "fileWithinDir", "compilesForBuildContext":
		return !truth && (callback || strings.HasSuffix(key, "]bool"))
	case "MakeSSAFunctionIdent":
		return !truth && (callback || strings.HasSuffix(key, "[]string"))
	case "IsGeneratedFile":
		return truth && callback
	}
	// a helper: all its ways to this answer are for accepted reasons
	if d > 3 {
		return false
	}
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		vs := retVals(r)
		if idx >= len(vs) {
			return false
		}
		if k, ok := vs[idx].(*ssa.Const); ok && (constBool(k) == 1) != truth {
			continue
		}
		if _, ok := vs[idx].(*ssa.Const); !ok && p.excused(vs[idx], truth, key, callback, d+1) {
			continue
		}
		// is the return reached without an accepted reason?
		other := func(in ssa.Instruction) bool {
			r2, ok := in.(*ssa.Return)
			if !ok {
				return false
			}
			v2 := retVals(r2)[idx]
			k, ok := v2.(*ssa.Const)
			return !ok || (constBool(k) == 1) != truth
		}
		if p.reachesPlain(g, b, other, key, callback, d) {
			return false
		}
	}
	return true
}

func (p *impactCheck) reachesPlain(g *ssa.Function, to *ssa.BasicBlock, other func(in ssa.Instruction) bool, key string, callback bool, d int) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{g.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == to {
			return true
		}
		last := b.Instrs[len(b.Instrs)-1]
		for i, s := range b.Succs {
			if iff, ok := last.(*ssa.If); ok && p.excused(iff.Cond, i == 0, key, callback, d+1) && !canReach(s, nil, other) {
				continue
			}
			st = append(st, s)
		}
	}
	return false
}

// sameIdent: the list is asked for the element itself or for one with the same identity.
func (p *impactCheck) sameIdent(call *ssa.Call) bool {
	if len(call.Call.Args) != 2 {
		return false
	}
	fns := p.w.funcsOf(call.Call.Args[1], map[ssa.Value]bool{})
	if calleeName(call) == "slices.Contains" {
		return true
	}
	if len(fns) != 1 || len(fns[0].Params) != 1 {
		return false
	}
	ok := true
	any := false
	for _, b := range fns[0].Blocks {
		r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR {
			continue
		}
		bo, isB := retVals(r)[0].(*ssa.BinOp)
		if !isB || bo.Op != token.EQL {
			ok = false
			continue
		}
		_, fa := loadField(bo.X)
		_, fb := loadField(bo.Y)
		_, isP := bo.X.Type().Underlying().(*types.Pointer)
		if !(isP || fa == "FunctionIdent" && fb == "FunctionIdent") {
			ok = false
		}
		any = true
	}
	return ok && any
}
