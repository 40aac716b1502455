package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkRestore }

// paramFx summarises what a repository function does to paths given as parameters.
type paramFx struct {
	read, create, remove, renSrc, renDst map[int]bool
}

func (w *World) paramEffects(f *ssa.Function, depth int) *paramFx {
	if w.pfx == nil {
		w.pfx = map[*ssa.Function]*paramFx{}
	}
	if p, ok := w.pfx[f]; ok {
		return p
	}
	p := &paramFx{map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}}
	w.pfx[f] = p
	if depth > 5 || len(f.Blocks) == 0 {
		return p
	}
	for i, q := range f.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		al := w.aliases(f, []ssa.Value{q})
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for j, a := range ci.Common().Args {
				if !al[a] {
					continue
				}
				switch n := calleeName(ci); n {
				case "os.Open", "os.ReadFile":
					p.read[i] = j == 0 || p.read[i]
				case "os.Rename":
					if j == 0 {
						p.renSrc[i] = true
					} else {
						p.renDst[i] = true
					}
				case "os.Remove", "os.RemoveAll":
					p.remove[i] = true
				default:
					if e, ok := fsEffects[n]; ok {
						for _, k := range e.create {
							if k == j {
								p.create[i] = true
							}
						}
					}
				}
				for _, h := range w.Callees(ci) {
					if !w.Own[h.Pkg] {
						continue
					}
					s := w.paramEffects(h, depth+1)
					for k := range h.Params {
						if argFor(ci, h, k) == a {
							p.read[i] = p.read[i] || s.read[k]
							p.create[i] = p.create[i] || s.create[k]
							p.remove[i] = p.remove[i] || s.remove[k]
							p.renSrc[i] = p.renSrc[i] || s.renSrc[k]
							p.renDst[i] = p.renDst[i] || s.renDst[k]
						}
					}
				}
			}
		})
	}
	return p
}

// undoWorld: the type that keeps a list of undo actions, who adds to it and who runs it.
type undoWorld struct {
	w      *World
	T      *types.Named
	list   *types.Var
	regs   map[*ssa.Function]int
	runs   map[*ssa.Function]bool
	undo   map[*ssa.Function]bool
	guards map[*types.Var]bool
}

func (w *World) undoLists() []*undoWorld {
	var out []*undoWorld
	sc := w.Lens.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			sig, ok := sl.Elem().Underlying().(*types.Signature)
			if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) {
				continue
			}
			u := &undoWorld{w: w, T: nt, list: st.Field(i), regs: map[*ssa.Function]int{}, runs: map[*ssa.Function]bool{}, undo: map[*ssa.Function]bool{}, guards: map[*types.Var]bool{}}
			for _, f := range w.Fns {
				eachInstr(f, func(in ssa.Instruction) {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == u.list {
							p := w.prov(s.Val, func(p *Prov) { p.local = true })
							for v := range p.seen {
								if q, ok := v.(*ssa.Parameter); ok && q.Parent() == f && types.Identical(q.Type().Underlying(), sig) {
									u.regs[f] = paramIndex(q)
								}
							}
						}
					}
					if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil {
						if _, ok := c.Call.Value.(*ssa.Builtin); !ok && u.elemOfList(c.Call.Value) {
							u.runs[f] = true
						}
					}
				})
			}
			if len(u.runs) > 0 {
				for _, f := range w.Fns {
					eachInstr(f, func(in ssa.Instruction) {
						for _, g := range u.registered(in) {
							u.undo[g] = true
						}
					})
				}
				out = append(out, u)
			}
		}
	}
	return out
}

func (u *undoWorld) isListLoad(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldVar(fa) == u.list
			}
			if x.Op == token.MUL {
				for _, s := range u.w.storesTo(x.X) {
					if is(s.Val) {
						return true
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if is(e) {
					return true
				}
			}
		case *ssa.Slice:
			return is(x.X)
		case *ssa.Call:
			if n := calleeName(x); strings.HasPrefix(n, "slices.Clone") {
				return is(x.Call.Args[0])
			}
		case *ssa.Parameter: // a helper that is given the list
			for _, c := range u.w.callersOf[x.Parent()] {
				if a := argFor(c, x.Parent(), paramIndex(x)); a != nil && is(a) {
					return true
				}
			}
		}
		return false
	}
	return is(v)
}

func (u *undoWorld) elemOfList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return u.isListLoad(ia.X)
			}
			for _, s := range u.w.storesTo(x.X) {
				if u.elemOfList(s.Val) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if u.elemOfList(e) {
				return true
			}
		}
	}
	return false
}

// registered: the undo closures this instruction adds to the list.
func (u *undoWorld) registered(in ssa.Instruction) []*ssa.Function {
	switch x := in.(type) {
	case *ssa.Call:
		for _, g := range u.w.Callees(x) {
			if i, ok := u.regs[g]; ok {
				if a := argFor(x, g, i); a != nil {
					return u.w.funcsOf(a, map[ssa.Value]bool{})
				}
			}
		}
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == u.list {
			if _, isReg := u.regs[x.Parent()]; isReg {
				return nil
			}
			var out []*ssa.Function
			p := u.w.prov(x.Val, func(p *Prov) { p.local = true })
			for v := range p.seen {
				if mc, ok := v.(*ssa.MakeClosure); ok {
					out = append(out, mc.Fn.(*ssa.Function))
				}
			}
			return out
		}
	}
	return nil
}

func isOfType(t types.Type, n *types.Named) bool {
	m := namedOf(t)
	return m != nil && m.Obj() == n.Obj()
}

// rootOf names the variable a value was read from.
func (w *World) rootOf(v ssa.Value) ssa.Value {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return w.cellRoot(ld.X)
	}
	return w.cellRoot(v)
}

// ---- running one undo action ----

type undoRun struct {
	w    *World
	srcs map[ssa.Value]bool // where it restores from
	ren  bool
}

func (r *undoRun) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	ci, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	args := ci.Call.Args
	switch calleeName(ci) {
	case "os.Rename":
		if fr.Has(args[1]) {
			r.ren = true
			if _, isParam := args[0].(*ssa.Parameter); !isParam {
				r.srcs[r.w.rootOf(args[0])] = true
			}
			return []Out{{st: "restored", res: "0"}, {st: "failed", res: "1"}}, true
		}
	case "os.WriteFile":
		if fr.Has(args[0]) {
			r.ren = true
			return []Out{{st: "restored", res: "0"}, {st: "failed", res: "1"}}, true
		}
	case "os.Remove", "os.RemoveAll":
		if fr.Has(args[0]) {
			return []Out{{st: "removed", res: "0"}, {st: "failed", res: "1"}}, true
		}
	}
	for _, g := range r.w.Callees(ci) {
		if !r.w.Own[g.Pkg] || len(g.Blocks) == 0 {
			continue
		}
		s := r.w.paramEffects(g, 0)
		dst := false
		for k := range g.Params {
			if a := argFor(ci, g, k); a != nil && fr.Has(a) && (s.renDst[k] || s.create[k]) {
				dst = true
			}
		}
		if dst {
			for k := range g.Params {
				if a := argFor(ci, g, k); a != nil && (s.renSrc[k] || s.read[k]) && !fr.Has(a) {
					r.srcs[r.w.rootOf(a)] = true
				}
			}
		}
	}
	return nil, false
}

func (u *undoWorld) verifyUndo(g *ssa.Function, seeds []ssa.Value) (kind string, srcs map[ssa.Value]bool, msg string) {
	r := &undoRun{w: u.w, srcs: map[ssa.Value]bool{}}
	fl := newFlow(u.w, r)
	fl.narrow = true
	outs := fl.Run(g, "todo", seeds...)
	kind = "remove"
	if r.ren {
		kind = "restore"
	}
	if fl.over {
		return kind, nil, "path bound exceeded"
	}
	if len(outs) == 0 {
		return kind, nil, "the undo action never returns"
	}
	for _, o := range outs {
		if o.st == "todo" {
			return kind, r.srcs, "the undo action may end at " + u.w.Pos(o.pos) + " without touching the file"
		}
		if kind == "restore" && o.st == "removed" {
			return kind, r.srcs, "the undo action may remove the file without putting the backup back, at " + u.w.Pos(o.pos)
		}
	}
	return kind, r.srcs, ""
}

// ---- a write must be preceded by its undo ----

type undoSpec struct {
	u     *undoWorld
	bad   string
	where string
	seen  bool
	made  ssa.Value // value given to the write at the site
	fresh bool      // the path has a constant file name of its own
	dsts  map[ssa.Value]bool
}

func (s *undoSpec) flag(in ssa.Instruction, format string, a ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, a...)
		s.where = s.u.w.Pos(in.Pos())
	}
}

func (s *undoSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	w := s.u.w
	for _, g := range s.u.registered(in) {
		mc := w.closureOf(g)
		if mc == nil || mc.Parent() != fr.fn {
			continue
		}
		var seeds []ssa.Value
		for i, b := range mc.Bindings {
			if i < len(g.FreeVars) && fr.Has(b) {
				seeds = append(seeds, g.FreeVars[i])
			}
		}
		if len(seeds) == 0 {
			continue
		}
		kind, srcs, msg := s.u.verifyUndo(g, seeds)
		if msg != "" {
			s.flag(in, "%s", msg)
		}
		if kind == "restore" {
			if st != "copied" && st != "reg" {
				s.flag(in, "the restore is registered without a backup that was made before")
			}
			for src := range srcs {
				if len(s.dsts) > 0 && !s.dsts[src] {
					s.flag(in, "the restore does not read the backup that was made")
				}
			}
		} else if !s.fresh {
			s.flag(in, "the undo action removes a file that was there before")
		}
		res := ""
		if c, ok := in.(*ssa.Call); ok {
			res = strings.Repeat("2", c.Call.Signature().Results().Len())
		}
		return []Out{{st: "reg", res: res}}, true
	}
	switch x := in.(type) {
	case *ssa.Lookup:
		if fa := loadedField(x.X); fa != nil && fr.Has(x.Index) && isOfType(fa.X.Type(), s.u.T) && s.isGuard(fieldVar(fa)) {
			s.u.guards[fieldVar(fa)] = true
			yes, no := "1", "0"
			if x.CommaOk {
				yes, no = "21", "20"
			}
			return []Out{{st: "reg", res: yes}, {st: st, res: no}}, true
		}
	case *ssa.MapUpdate:
		if fa := loadedField(x.Map); fa != nil && fr.Has(x.Key) && isOfType(fa.X.Type(), s.u.T) && s.isGuard(fieldVar(fa)) && st != "reg" {
			s.flag(in, "the file is marked as backed up before its restore is registered")
		}
	case *ssa.Call:
		if r := recvOf(x); r != nil && isNamed(r.Type(), "sync", "Map") && len(x.Call.Args) > 1 && fr.Has(x.Call.Args[1]) {
			if fa, ok := r.(*ssa.FieldAddr); ok && isOfType(fa.X.Type(), s.u.T) {
				if m, ok := fieldVar(fa), true; ok {
					switch methodName(x) {
					case "Load":
						if !s.isGuard(m) {
							break
						}
						s.u.guards[m] = true
						return []Out{{st: "reg", res: "21"}, {st: st, res: "20"}}, true
					case "LoadOrStore", "Swap":
						if !s.isGuard(m) {
							break
						}
						s.u.guards[m] = true
						if st != "reg" {
							s.flag(in, "the file is marked as backed up before its restore is registered")
						}
						return []Out{{st: "reg", res: "21"}, {st: st, res: "20"}}, true
					case "Store":
						if s.isGuard(m) && st != "reg" {
							s.flag(in, "the file is marked as backed up before its restore is registered")
						}
						return []Out{{st: st, res: ""}}, true
					}
				}
			}
		}
		// a copy of the file
		for _, g := range w.Callees(x) {
			if !w.Own[g.Pkg] || len(g.Blocks) == 0 || g.Signature.Recv() != nil {
				continue
			}
			fx := w.paramEffects(g, 0)
			from, to := false, ssa.Value(nil)
			for k := range g.Params {
				a := argFor(x, g, k)
				if a == nil {
					continue
				}
				if fx.read[k] && fr.Has(a) {
					from = true
				}
				if fx.create[k] && !fr.Has(a) {
					to = a
				}
			}
			if from && to != nil {
				s.dsts[w.rootOf(to)] = true
				if e := errResult(g.Signature); e >= 0 {
					ok := []byte(strings.Repeat("2", g.Signature.Results().Len()))
					ko := []byte(strings.Repeat("2", g.Signature.Results().Len()))
					ok[e], ko[e] = '0', '1'
					return []Out{{st: "copied", res: string(ok)}, {st: st, res: string(ko)}}, true
				}
				return []Out{{st: "copied", res: strings.Repeat("2", g.Signature.Results().Len())}}, true
			}
		}
		if e, ok := fsEffects[calleeName(x)]; ok {
			for _, i := range append(append([]int(nil), e.create...), e.remove...) {
				if fr.Has(x.Call.Args[i]) {
					s.seen = true
					if st != "reg" {
						s.flag(in, "%s changes the file while nothing is registered that would undo it", calleeName(x))
					}
				}
			}
			return []Out{{st: st, res: strings.Repeat("2", x.Call.Signature().Results().Len())}}, true
		}
	}
	return nil, false
}

// isGuard: a set of the files that already have a backup: nothing but paths marked and looked up next to registrations.
func (s *undoSpec) isGuard(m *types.Var) bool {
	// a guard is only ever written in functions that register an undo action
	n := 0
	for _, f := range s.u.w.Fns {
		writes, reg := false, false
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Call:
				if r := recvOf(x); r != nil {
					if fa, ok := r.(*ssa.FieldAddr); ok && fieldVar(fa) == m && (methodName(x) == "Store" || methodName(x) == "LoadOrStore" || methodName(x) == "Swap") {
						writes = true
					}
				}
			case *ssa.MapUpdate:
				if fa := loadedField(x.Map); fa != nil && fieldVar(fa) == m {
					writes = true
				}
			}
			if len(s.u.registered(in)) > 0 {
				reg = true
			}
		})
		if writes {
			n++
			if !reg {
				return false
			}
		}
	}
	return n > 0
}

func (u *undoWorld) samePath(f *ssa.Function, v ssa.Value) []ssa.Value {
	w := u.w
	out := []ssa.Value{v}
	if r := w.rootOf(v); r != v && r != nil { // the variable it is kept in
		if al, ok := r.(*ssa.Alloc); ok && al.Parent() == f && types.Identical(deref(al.Type()), v.Type()) {
			out = append(out, al)
		}
	}
	pe := w.pathExpr(v, 0)
	if strings.HasPrefix(pe, "v:") || strings.Contains(pe, "?") {
		return out
	}
	eachInstr(f, func(in ssa.Instruction) {
		if x, ok := in.(ssa.Value); ok && x != v && types.Identical(x.Type(), v.Type()) && w.pathExpr(x, 0) == pe {
			out = append(out, x)
		}
	})
	for _, q := range f.Params {
		if types.Identical(q.Type(), v.Type()) && w.pathExpr(q, 0) == pe {
			out = append(out, q)
		}
	}
	return out
}

func (u *undoWorld) hasConstName(v ssa.Value) bool {
	p := u.w.prov(v, func(p *Prov) { p.local = true })
	for k := range p.leaf {
		if strings.HasPrefix(k, "const:") && strings.HasSuffix(k, ".go") {
			return true
		}
	}
	return false
}

func (u *undoWorld) checkWrite(f *ssa.Function, path ssa.Value, depth int) (msg, where string) {
	w := u.w
	s := &undoSpec{u: u, dsts: map[ssa.Value]bool{}, fresh: u.hasConstName(path)}
	fl := newFlow(w, s)
	fl.narrow = true
	fl.Run(f, "none", u.samePath(f, path)...)
	if fl.over {
		return "path bound exceeded", ""
	}
	if s.bad == "" {
		return "", ""
	}
	if q, ok := w.throughCell(path).(*ssa.Parameter); ok && depth < 3 && q.Parent() == f && (f.Object() == nil || !f.Object().Exported()) {
		n := 0
		for _, c := range w.callersOf[f] {
			if a := argFor(c, f, paramIndex(q)); a != nil {
				n++
				if m, at := u.checkWrite(c.Parent(), a, depth+1); m != "" {
					return m, at
				}
			}
		}
		if n > 0 {
			return "", ""
		}
	}
	return s.bad, s.where
}

// backupPath: the value is a backup that some undo action of this function puts back.
func (u *undoWorld) backupPath(f *ssa.Function, v ssa.Value) bool {
	root := u.w.rootOf(v)
	found := false
	for g := range u.undo {
		if g.Parent() != f {
			continue
		}
		mc := u.w.closureOf(g)
		if mc == nil {
			continue
		}
		eachInstr(g, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for j, a := range ci.Common().Args {
				if u.w.rootOf(a) != root {
					continue
				}
				if calleeName(ci) == "os.Rename" && j == 0 {
					found = true
				}
				for _, h := range u.w.Callees(ci) {
					if u.w.Own[h.Pkg] {
						fx := u.w.paramEffects(h, 0)
						for k := range h.Params {
							if argFor(ci, h, k) == a && (fx.renSrc[k] || fx.read[k]) {
								found = true
							}
						}
					}
				}
			}
		})
	}
	return found
}

func checkRestore(c *Check) {
	w := c.W
	c.Rule("edit-undoable", "every write to a source file is preceded, on every path, by registering the action that undoes it: putting back a backup that was made before, or removing a file that was not there", 3)
	c.Rule("link-seen", "whether a file is a link is asked of the file itself, not of what it leads to", 1)
	c.Rule("restore-complete", "restoring runs every registered action even when some fail, keeps their errors, and forgets the actions afterwards", 1)
	c.Rule("restore-deferred", "whoever edits sources registers the restore before the first edit, so that it runs on every way out", 2)
	us := w.undoLists()
	if len(us) == 0 {
		c.Bad("edit-undoable", "undo list", "-", "no type keeps a list of undo actions that is run to restore the sources")
		return
	}
	for _, u := range us {
		// writes
		for _, f := range w.Fns {
			if within2(u.undo, f) {
				continue
			}
			top := outermost(f)
			if top.Signature.Recv() == nil || !isOfType(top.Signature.Recv().Type(), u.T) {
				continue
			}
			n := map[string]int{}
			eachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				var paths []ssa.Value
				if e, ok := fsEffects[calleeName(ci)]; ok {
					for _, i := range append(append([]int(nil), e.create...), e.remove...) {
						paths = append(paths, ci.Common().Args[i])
					}
				}
				for _, g := range w.Callees(ci) {
					if w.Own[g.Pkg] && len(g.Blocks) > 0 && (g.Signature.Recv() == nil || !isOfType(g.Signature.Recv().Type(), u.T)) {
						fx := w.paramEffects(g, 0)
						for k := range g.Params {
							if a := argFor(ci, g, k); a != nil && (fx.create[k] || fx.remove[k] || fx.renDst[k] || fx.renSrc[k]) {
								paths = append(paths, a)
							}
						}
					}
				}
				for _, p := range paths {
					if u.backupPath(f, p) {
						continue
					}
					name := calleeName(ci)
					key := fmt.Sprintf("%s: %s", localName(f), strings.TrimPrefix(name, "lens."))
					n[key]++
					if n[key] > 1 {
						key = fmt.Sprintf("%s (%d)", key, n[key])
					}
					msg, at := u.checkWrite(f, p, 0)
					if at == "" {
						at = w.Pos(in.Pos())
					}
					c.Decide(msg == "", "edit-undoable", key, at, "%s", msg)
				}
			})
		}
		u.checkRunner(c)
		u.checkOwners(c)
	}
	checkLinks(c)
}

// checkLinks: the mode of a file looked up through links never says it is one.
func checkLinks(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		num := 0
		eachInstr(f, func(in ssa.Instruction) {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.AND {
				return
			}
			x, k := bo.X, bo.Y
			if _, isK := x.(*ssa.Const); isK {
				x, k = k, x
			}
			kc, ok := k.(*ssa.Const)
			if !ok || kc.Value == nil || kc.Value.ExactString() != "134217728" { // os.ModeSymlink
				return
			}
			m, ok := x.(*ssa.Call)
			if !ok || methodName(m) != "Mode" {
				return
			}
			bad := false
			seen := map[ssa.Value]bool{}
			var rec func(v ssa.Value)
			rec = func(v ssa.Value) {
				if v == nil || seen[v] {
					return
				}
				seen[v] = true
				switch y := v.(type) {
				case *ssa.Extract:
					rec(y.Tuple)
				case *ssa.Phi:
					for _, e := range y.Edges {
						rec(e)
					}
				case *ssa.Call:
					n := calleeName(y)
					bad = bad || n == "os.Stat" || n == "(*os.File).Stat"
				case *ssa.UnOp:
					if al, ok := w.cellRoot(y.X).(*ssa.Alloc); ok {
						for _, s := range w.storesTo(al) {
							rec(s.Val)
						}
					}
				}
			}
			if m.Call.IsInvoke() {
				rec(m.Call.Value)
			} else if len(m.Call.Args) > 0 {
				rec(m.Call.Args[0])
			}
			num++
			c.Decide(!bad, "link-seen", fmt.Sprintf("%s (%d)", localName(f), num), w.Pos(in.Pos()), "the mode is that of the file the link leads to, the test never succeeds")
		})
	}
}

func within2(set map[*ssa.Function]bool, f *ssa.Function) bool {
	for f != nil {
		if set[f] {
			return true
		}
		f = f.Parent()
	}
	return false
}

type ranSpec struct {
	u     *undoWorld
	calls map[ssa.Instruction]bool
	clear func(in ssa.Instruction) bool
}

func (r *ranSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if r.calls[in] {
		return []Out{{st: "ran", res: "2"}}, true
	}
	if r.clear(in) {
		res := ""
		if c, ok := in.(*ssa.Call); ok {
			res = strings.Repeat("2", c.Call.Signature().Results().Len())
		}
		return []Out{{st: "clear", res: res}}, true
	}
	return nil, false
}

func (u *undoWorld) checkRunner(c *Check) {
	w := u.w
	for _, f := range w.Fns {
		if !u.runs[f] {
			continue
		}
		key := localName(f)
		calls := map[ssa.Instruction]bool{}
		eachInstr(f, func(in ssa.Instruction) {
			if x, ok := in.(*ssa.Call); ok && !x.Call.IsInvoke() && x.Call.StaticCallee() == nil && u.elemOfList(x.Call.Value) {
				calls[in] = true
			}
		})
		els := w.elemLoops(f, u.isListLoad)
		msg := "the undo actions are not run in a loop over the whole list"
		for _, el := range els {
			m := w.visitsAll(el, func(in ssa.Instruction) bool { return calls[in] })
			if m == "" {
				msg = ""
				// sliced
				if sl, ok := el.cont.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
					msg = "only a part of the undo actions is run"
				}
				// the way to the loop: it may only be avoided when the list is empty
				if b := u.avoids(f, el.l); b != nil {
					msg = "the undo actions may not be run at all: returns at " + w.Pos(b.Instrs[len(b.Instrs)-1].Pos())
				}
				break
			}
			msg = "the loop running the undo actions " + m
		}
		pos := w.Pos(f.Pos())
		c.Decide(msg == "", "restore-complete", key+": all actions", pos, "%s", msg)
		// errors kept
		kept := true
		for in := range calls {
			if !errorKept(w, in.(*ssa.Call)) {
				kept = false
				pos = w.Pos(in.Pos())
			}
		}
		c.Decide(kept, "restore-complete", key+": errors reported", pos, "the error of an undo action is dropped")
		// list and guards cleared
		root := f
		for len(w.callersOf[root]) == 1 && !(root.Object() != nil && root.Object().Exported()) {
			root = w.callersOf[root][0].Parent()
		}
		check := func(what string, clear func(in ssa.Instruction) bool) {
			fl := newFlow(w, &ranSpec{u, calls, clear})
			fl.rel = func(g *ssa.Function) bool {
				r := g == f
				eachInstr(g, func(in ssa.Instruction) { r = r || clear(in) })
				return r
			}
			bad := ""
			for _, o := range fl.Run(root, "none") {
				if o.st == "ran" {
					bad = w.Pos(o.pos)
				}
			}
			c.Decide(bad == "", "restore-complete", key+": "+what, bad, "the actions have been run but are kept when leaving at %s: they would run again, or later edits would not be backed up", bad)
		}
		check("list emptied", func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa) != u.list {
				return false
			}
			switch v := s.Val.(type) {
			case *ssa.Const:
				return v.IsNil()
			case *ssa.Slice:
				k, ok := constInt(v.High)
				return v.High != nil && ok && k == 0
			case *ssa.MakeSlice:
				return true
			}
			if len(u.regs) > 0 {
				if _, ok := u.regs[in.Parent()]; ok {
					return false
				}
			}
			return false
		})
		for m := range u.guards {
			m := m
			check("set of backed up files emptied", func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Call:
					r := recvOf(x)
					if r != nil && (methodName(x) == "Clear") {
						fa, ok := r.(*ssa.FieldAddr)
						return ok && fieldVar(fa) == m
					}
					if calleeName(x) == "builtin.clear" {
						fa := loadedField(x.Call.Args[0])
						return fa != nil && fieldVar(fa) == m
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					return ok && fieldVar(fa) == m
				}
				return false
			})
		}
	}
}

// avoids finds a return that is reached without passing the loop, although the list was not found to be empty.
func (u *undoWorld) avoids(f *ssa.Function, l *loop) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) *ssa.BasicBlock
	walk = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if seen[b] || b == l.header {
			return nil
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok {
			return b
		}
		succ := b.Succs
		if ifi, ok := last.(*ssa.If); ok {
			if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && isLenCall(cmp.X) && u.isListLoad(lenArg(cmp.X)) {
				if k, ok := constInt(cmp.Y); ok && k == 0 {
					switch cmp.Op {
					case token.EQL, token.LEQ:
						succ = succ[1:]
					case token.NEQ, token.GTR:
						succ = succ[:1]
					}
				}
			}
		}
		for _, s := range succ {
			if r := walk(s); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(f.Blocks[0])
}

// errorKept: the error result of the call goes somewhere (appended, joined, returned, logged), not only compared.
func errorKept(w *World, call *ssa.Call) bool {
	e := errResult(call.Call.Signature())
	if e < 0 {
		return true
	}
	v := resultAt(call, e)
	if v == nil {
		return false
	}
	al := w.aliases(call.Parent(), []ssa.Value{v})
	for a := range al {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.Return:
				return true
			case *ssa.Store:
				if x.Val == a {
					switch x.Addr.(type) {
					case *ssa.IndexAddr, *ssa.FieldAddr:
						return true
					}
				}
			case ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}

// ---- owners ----

type ownerSpec struct {
	u     *undoWorld
	alloc *ssa.Alloc
	bad   string
}

func (o *ownerSpec) restores(fr *Frame, ci ssa.CallInstruction) bool {
	for _, g := range o.u.w.Callees(ci) {
		if o.u.runs[g] || o.u.runsVia(g, 0) {
			r := recvOf(ci)
			if r != nil && fr.Has(r) {
				return true
			}
			for _, a := range ci.Common().Args {
				if fr.Has(a) {
					return true
				}
			}
		}
	}
	return false
}

// runsVia: a method of the type that runs the actions through a helper.
func (u *undoWorld) runsVia(g *ssa.Function, d int) bool {
	if d > 2 || g.Signature.Recv() == nil || !isOfType(g.Signature.Recv().Type(), u.T) {
		return false
	}
	r := false
	eachInstr(g, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			for _, h := range u.w.Callees(ci) {
				if u.runs[h] || u.w.Own[h.Pkg] && u.runsVia(h, d+1) {
					r = true
				}
			}
		}
	})
	return r
}

func (o *ownerSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == ssa.Instruction(o.alloc) {
		return []Out{{st: "fresh", res: "1"}}, true
	}
	if st == "idle" {
		return nil, false
	}
	switch x := in.(type) {
	case *ssa.Return:
		for _, v := range retVals(x) {
			if fr.Has(v) {
				return []Out{{st: "moved"}}, true
			}
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return nil, false
		}
		res := strings.Repeat("2", x.Common().Signature().Results().Len())
		if o.restores(fr, x) {
			return []Out{{st: "clean", res: res}}, true
		}
		used := false
		for _, a := range x.Common().Args {
			if fr.Has(a) {
				used = true
			}
		}
		if used && st != "armed" && o.bad == "" && !o.restoringClosure(fr, x) {
			o.bad = "used at " + o.u.w.Pos(in.Pos()) + " while no restore is registered"
		}
	}
	return nil, false
}

func (o *ownerSpec) restoringClosure(fr *Frame, x ssa.CallInstruction) bool {
	return false
}

func (o *ownerSpec) OnDefer(fr *Frame, d *ssa.Defer, st string) string {
	if st == "idle" {
		return st
	}
	if o.restores(fr, d) {
		return "armed"
	}
	for _, g := range o.u.w.Callees(d) {
		if len(g.Blocks) == 0 || !o.u.w.Own[g.Pkg] {
			continue
		}
		seeds := fr.fl.seedsFor(fr, d, g)
		if len(seeds) == 0 {
			continue
		}
		all := true
		outs := fr.fl.explore(g, "armed", seeds)
		for _, x := range outs {
			if x.st != "clean" {
				all = false
			}
		}
		if all && len(outs) > 0 {
			return "armed"
		}
	}
	return st
}

func (u *undoWorld) checkOwners(c *Check) {
	w := u.w
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || !isOfType(al.Type(), u.T) {
				return
			}
			if _, ptr := deref(al.Type()).(*types.Pointer); ptr {
				return
			}
			o := &ownerSpec{u: u, alloc: al}
			fl := newFlow(w, o)
			fl.narrow = true
			outs := fl.Run(f, "idle", al)
			msg := o.bad
			if fl.over {
				msg = "path bound exceeded"
			}
			for _, x := range outs {
				if x.st == "armed" && x.kind != "exit" && msg == "" {
					msg = "left at " + w.Pos(x.pos) + " without restoring"
				}
			}
			c.Decide(msg == "", "restore-deferred", localName(f), w.Pos(al.Pos()), "%s", msg)
		})
	}
}
