package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = checkModFiles }

// modExec: the instruction prepares a go command that rewrites module files.
func (w *World) modExec(in ssa.Instruction) (string, ssa.CallInstruction) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	var consts []string
	execish := calleeName(ci) == "os/exec.Command" || calleeName(ci) == "os/exec.CommandContext"
	if !execish {
		for _, g := range w.Callees(ci) {
			if w.Own[g.Pkg] && w.wrapsExec(g, 0) {
				execish = true
			}
		}
	}
	if !execish {
		return "", nil
	}
	for _, a := range ci.Common().Args {
		if s, ok := constString(a); ok {
			consts = append(consts, s)
			continue
		}
		if strings.HasPrefix(a.Type().String(), "[]string") {
			p := w.prov(a, func(p *Prov) { p.local = true })
			for k := range p.leaf {
				if strings.HasPrefix(k, "const:") {
					consts = append(consts, k[6:])
				}
			}
		}
	}
	has := func(s string) bool {
		for _, c := range consts {
			if c == s {
				return true
			}
		}
		return false
	}
	switch {
	case has("go") && has("get"):
		return "go get", ci
	case has("go") && has("mod") && (has("tidy") || has("edit") || has("vendor") || has("init")):
		return "go mod", ci
	case has("go") && has("work") && (has("sync") || has("use") || has("edit")):
		return "go work", ci
	}
	return "", nil
}

// wrapsExec: builds a command from a name and arguments it is given.
func (w *World) wrapsExec(g *ssa.Function, d int) bool { return len(w.execParams(g, d)) > 0 }

// execParams: the parameters that become the argument list of a command.
func (w *World) execParams(g *ssa.Function, d int) map[int]bool {
	out := map[int]bool{}
	if d > 3 {
		return out
	}
	any := false
	for _, q := range g.Params {
		any = any || q.Type().String() == "[]string"
	}
	if !any {
		return out
	}
	mark := func(v ssa.Value) {
		for x := range w.prov(v, func(p *Prov) { p.local = true }).seen {
			if q, ok := x.(*ssa.Parameter); ok && q.Parent() == g && q.Type().String() == "[]string" {
				out[paramIndex(q)] = true
			}
		}
	}
	eachInstr(g, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		switch calleeName(ci) {
		case "os/exec.Command":
			mark(ci.Common().Args[1])
		case "os/exec.CommandContext":
			mark(ci.Common().Args[2])
		default:
			for _, h := range w.Callees(ci) {
				if h != g && w.Own[h.Pkg] {
					for k := range w.execParams(h, d+1) {
						if a := argFor(ci, h, k); a != nil {
							mark(a)
						}
					}
				}
			}
		}
	})
	return out
}

// putsBack: the call moves or writes its destination path, or removes it; the path argument is returned.
func (w *World) putsBack(in ssa.Instruction) []ssa.Value {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	a := ci.Common().Args
	switch calleeName(ci) {
	case "os.Rename":
		return []ssa.Value{a[1]}
	case "os.Remove", "os.WriteFile":
		return []ssa.Value{a[0]}
	}
	var out []ssa.Value
	for _, g := range w.Callees(ci) {
		if w.Own[g.Pkg] && len(g.Blocks) > 0 {
			fx := w.paramEffects(g, 0)
			for k := range g.Params {
				if fx.renDst[k] || fx.remove[k] && !fx.renSrc[k] || fx.create[k] {
					if v := argFor(ci, g, k); v != nil {
						out = append(out, v)
					}
				}
			}
		}
	}
	return out
}

type restorer struct {
	fn   *ssa.Function
	el   elemLoop
	msg  string
	conv bool
}

// restorers: functions with a loop that moves files back, element by element.
func (w *World) restorers(scope map[*ssa.Function]bool) []*restorer {
	var out []*restorer
	for _, f := range w.Fns {
		if !scope[f] {
			continue
		}
		for _, el := range w.elemLoops(f, func(v ssa.Value) bool { return true }) {
			if el.cont == nil {
				continue
			}
			al := w.elemAliases(f, el)
			ren := false
			for b := range el.l.body {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && (calleeName(ci) == "os.Rename" || w.renames(ci)) {
						for _, v := range w.putsBack(in) {
							if al[v] {
								ren = true
							}
						}
					}
					// list of undo closures
					if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil && al[c.Call.Value] {
						ren = true
					}
				}
			}
			if !ren {
				continue
			}
			r := &restorer{fn: f, el: el}
			r.msg = w.visitsAll(el, func(in ssa.Instruction) bool {
				for _, v := range w.putsBack(in) {
					if al[v] {
						return true
					}
				}
				c, ok := in.(*ssa.Call)
				return ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil && al[c.Call.Value]
			})
			out = append(out, r)
		}
	}
	return out
}

func (w *World) renames(ci ssa.CallInstruction) bool {
	for _, g := range w.Callees(ci) {
		if w.Own[g.Pkg] && len(g.Blocks) > 0 {
			fx := w.paramEffects(g, 0)
			if len(fx.renDst) > 0 {
				return true
			}
		}
	}
	return false
}

// elemAliases: values that are the element or a part of it.
func (w *World) elemAliases(f *ssa.Function, el elemLoop) map[ssa.Value]bool {
	al := map[ssa.Value]bool{}
	for _, e := range el.elems {
		al[e] = true
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !al[v] {
				al[v] = true
				changed = true
			}
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if al[x.X] {
					mark(x)
				}
			case *ssa.Field:
				if al[x.X] {
					mark(x)
				}
			case *ssa.UnOp:
				if al[x.X] {
					mark(x)
				}
			case *ssa.Store:
				if al[x.Val] {
					mark(x.Addr)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if al[e] {
						mark(x)
					}
				}
			case *ssa.Extract:
				if al[x.Tuple] {
					mark(x)
				}
			case *ssa.IndexAddr:
				if al[x.X] {
					mark(x)
				}
			}
		})
	}
	return al
}

type modSpec struct {
	w     *World
	rest  map[*ssa.Function]bool
	dirty string
}

func (m *modSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return nil, false
	}
	if n, _ := m.w.modExec(in); n != "" {
		return []Out{{st: "dirty", res: unknownRes(ci.Common().Signature())}}, true
	}
	for _, g := range m.w.Callees(ci) {
		if m.rest[g] {
			return []Out{{st: "clean", res: unknownRes(ci.Common().Signature())}}, true
		}
	}
	return nil, false
}

// ---- every backup that was made is recorded ----

type bkpSpec struct {
	w    *World
	call *ssa.Call
	via  *ssa.Call
	lift int // 1 + the result in which the backup's path is handed to the caller
}

func (b *bkpSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if r, ok := in.(*ssa.Return); ok && st == "pending" && r.Parent() == b.call.Parent() {
		for i, v := range retVals(r) {
			if fr.Has(v) {
				b.lift = i + 1
				return []Out{{st: "lifted"}}, true
			}
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	if c == b.call {
		e := errResult(c.Call.Signature())
		if e < 0 {
			return []Out{{st: "pending", res: unknownRes(c.Call.Signature())}}, true
		}
		ok := []byte(unknownRes(c.Call.Signature()))
		ko := append([]byte(nil), ok...)
		ok[e], ko[e] = '0', '1'
		bad := "partial"
		if b.via != nil {
			bad = "none" // the helper cleans up after itself: checked there
		}
		return []Out{{st: "pending", res: string(ok)}, {st: bad, res: string(ko)}}, true
	}
	if st != "pending" && st != "partial" {
		return nil, false
	}
	n := calleeName(c)
	if n == "os.Remove" || n == "os.RemoveAll" {
		if fr.Has(c.Call.Args[0]) {
			return []Out{{st: "none", res: "2"}}, true
		}
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(c.Call.Args) > 1 {
		p := b.w.prov(c.Call.Args[1], func(p *Prov) { p.local = true })
		for v := range p.seen {
			if fr.Has(v) {
				return []Out{{st: "none", res: "2"}}, true
			}
			if mc, ok := v.(*ssa.MakeClosure); ok {
				for _, q := range mc.Bindings {
					if fr.Has(q) {
						return []Out{{st: "none", res: "2"}}, true
					}
				}
			}
		}
	}
	for _, g := range b.w.Callees(c) {
		if b.w.Own[g.Pkg] && len(g.Blocks) > 0 {
			fx := b.w.paramEffects(g, 0)
			for k := range g.Params {
				if a := argFor(c, g, k); a != nil && fr.Has(a) && (fx.remove[k] && !fx.renDst[k] || fx.renSrc[k]) {
					return []Out{{st: "none", res: unknownRes(c.Call.Signature())}}, true
				}
			}
		}
	}
	return nil, false
}

func checkModFiles(c *Check) {
	w := c.W
	c.Rule("update-restored", "after a go command that rewrites module files has been started, every way out of the operation runs the restore of all backups", 1)
	c.Rule("restore-visits-all", "restoring goes through the whole list of backups, whatever happens to single files", 1)
	c.Rule("backup-recorded", "a backup that was made is put on the list to restore (or removed) before the function can be left", 1)
	c.Rule("backup-complete", "go.mod and go.sum of every module directory the commands run in are backed up, or noted as absent, before the first command runs", 3)

	// the operation: the outermost function that contains both the commands and the backups
	execs := map[*ssa.Function][]ssa.Instruction{}
	for _, f := range w.Fns {
		if w.wrapsExec(f, 0) {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			if n, _ := w.modExec(in); n != "" {
				execs[f] = append(execs[f], in)
			}
		})
	}
	roots := map[*ssa.Function]bool{}
	for f := range execs {
		r := outermost(f)
		for i := 0; i < 4; i++ {
			if w.reachesRestore(r, 0) || len(w.callersOf[r]) != 1 {
				break
			}
			r = outermost(w.callersOf[r][0].Parent())
		}
		roots[r] = true
	}
	for _, root := range w.Fns {
		if !roots[root] {
			continue
		}
		scope := w.ownReach(root, 3)
		rs := w.restorers(scope)
		rest := map[*ssa.Function]bool{}
		for _, r := range rs {
			rest[r.fn] = true
			c.Decide(r.msg == "", "restore-visits-all", localName(r.fn), w.Pos(r.fn.Pos()), "the loop restoring the module files %s", r.msg)
		}
		sp := &modSpec{w: w, rest: rest}
		fl := newFlow(w, sp)
		fl.rel = func(g *ssa.Function) bool {
			if rest[g] || execs[g] != nil {
				return true
			}
			return false
		}
		bad := ""
		for _, o := range fl.Run(root, "clean") {
			if o.st == "dirty" && o.kind != "exit" {
				bad = w.Pos(o.pos)
			}
		}
		if fl.over {
			bad = "path bound exceeded"
		}
		c.Decide(bad == "", "update-restored", localName(root), bad, "left at %s after the module files were changed, without restoring them", bad)

		// backups
		type site struct {
			call *ssa.Call
			src  ssa.Value
			dst  ssa.Value
			via  *ssa.Call // inside a helper that hands the path to this caller
		}
		var sites []site
		for _, f := range w.Fns {
			if !scope[f] || rest[f] {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				for _, g := range w.Callees(call) {
					if !w.Own[g.Pkg] || len(g.Blocks) == 0 || g.Signature.Recv() != nil {
						continue
					}
					fx := w.paramEffects(g, 0)
					var src, dst ssa.Value
					for k := range g.Params {
						if fx.read[k] && !fx.create[k] {
							src = argFor(call, g, k)
						}
						if fx.create[k] && !fx.read[k] {
							dst = argFor(call, g, k)
						}
					}
					if src == nil || dst == nil {
						continue
					}
					if w.callsLeaf(src, "ProjectGoModFiles") {
						sites = append(sites, site{call, src, dst, nil})
					}
				}
			})
		}
		n := map[string]int{}
		var sum, mod bool
		isSite := map[*ssa.Call]bool{}
		marker := map[string]bool{}
		for i := 0; i < len(sites); i++ {
			s := sites[i]
			f := s.call.Parent()
			isSite[s.call] = true
			if _, isP := w.throughCell(s.dst).(*ssa.Parameter); isP {
				// a copying helper: its callers are sites of their own
				continue
			}
			key := localName(f) + ": backup"
			n[key]++
			if n[key] > 1 {
				key = fmt.Sprintf("%s (%d)", key, n[key])
			}
			dp, spv := w.prov(s.dst, nil), w.prov(s.src, nil)
			for k := range dp.leaf {
				if spv.leaf[k] == nil && k != "const:nil" {
					marker[k] = true
				}
			}
			bs := &bkpSpec{w: w, call: s.call, via: s.via}
			fl := newFlow(w, bs)
			fl.narrow = true
			msg := ""
			for _, o := range fl.Run(f, "none", w.sameValue(f, s.dst)...) {
				if o.st == "pending" {
					msg = "left at " + w.Pos(o.pos) + " with a backup that will never be put back"
				}
				if o.st == "partial" {
					msg = "left at " + w.Pos(o.pos) + " after a failed copy, whose partial file stays behind"
				}
			}
			if msg == "" && bs.lift > 0 {
				for _, ci := range w.callersOf[f] {
					cc, ok := ci.(*ssa.Call)
					if !ok {
						continue
					}
					if d := resultAt(cc, bs.lift-1); d != nil && !isSite[cc] {
						sites = append(sites, site{cc, s.src, d, s.call})
					} else if d == nil {
						msg = "the path of the backup is dropped at " + w.Pos(cc.Pos())
					}
				}
			}
			c.Decide(msg == "", "backup-recorded", key, w.Pos(s.call.Pos()), "%s", msg)
			p := w.prov(s.src, func(p *Prov) {
				p.stopCall = func(n string) bool {
					return strings.HasSuffix(n, "ProjectGoModFiles") || strings.HasPrefix(n, "path/filepath.")
				}
			})
			for k := range p.leaf {
				if strings.HasPrefix(k, "call:") && strings.HasSuffix(k, "ProjectGoModFiles") {
					mod = true
				}
			}
			q := w.prov(s.src, nil)
			sum = sum || q.has("const:go.sum")
			// every module is visited
			if bs.lift == 0 {
				w.checkBackupLoops(c, f, s.call)
			}
		}
		// what is put back where
		for _, r := range rs {
			for _, f := range withClosures(r.fn) {
				eachInstr(f, func(in ssa.Instruction) {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						return
					}
					var from, to []ssa.Value
					if calleeName(ci) == "os.Rename" {
						from, to = ci.Common().Args[:1], ci.Common().Args[1:2]
					}
					for _, g := range w.Callees(ci) {
						if w.Own[g.Pkg] && len(g.Blocks) > 0 {
							fx := w.paramEffects(g, 0)
							for k := range g.Params {
								a := argFor(ci, g, k)
								if a != nil && fx.renSrc[k] {
									from = append(from, a)
								}
								if a != nil && fx.renDst[k] {
									to = append(to, a)
								}
							}
						}
					}
					if len(from) == 0 && len(to) == 0 || len(marker) == 0 {
						return
					}
					marked := func(v ssa.Value) bool {
						for k := range w.prov(v, nil).leaf {
							if marker[k] {
								return true
							}
						}
						return false
					}
					msg := ""
					for _, v := range from {
						if !marked(v) {
							msg = "moves a file that is not a backup"
						}
					}
					for _, v := range to {
						if marked(v) {
							msg = "moves a file over the backup"
						}
					}
					c.Decide(msg == "", "restore-visits-all", localName(f)+": move", w.Pos(in.Pos()), "%s", msg)
				})
			}
		}
		c.Decide(mod, "backup-complete", localName(root)+": go.mod", w.Pos(root.Pos()), "no backup of the go.mod files the commands change is made")
		c.Decide(sum, "backup-complete", localName(root)+": go.sum", w.Pos(root.Pos()), "no backup of the go.sum files the commands change is made")
		// the commands run only where backups were made
		for f, ins := range execs {
			if !scope[f] {
				continue
			}
			for i, in := range ins {
				ci := in.(ssa.CallInstruction)
				name, _ := w.modExec(in)
				ok := false
				for _, a := range ci.Common().Args {
					if a.Type().String() == "string" && w.callsLeaf(a, "ProjectGoModFiles") && w.dirOnce(a) {
						ok = true
					}
				}
				c.Decide(ok, "backup-complete", fmt.Sprintf("%s: %s #%d directory", localName(f), name, i), w.Pos(in.Pos()), "runs in a directory that is not one of those backed up")
			}
		}
		// no command before the backups: order
		w.checkExecAfterBackup(c, root, execs, sites != nil, func(in ssa.Instruction) bool {
			for _, s := range sites {
				if in == ssa.Instruction(s.call) {
					return true
				}
			}
			return false
		})
	}
}

// checkBackupLoops: all loops around the backup visit every element; an iteration may only fail, or note the absence.
func (w *World) checkBackupLoops(c *Check, f *ssa.Function, call *ssa.Call) {
	inner := map[*ssa.BasicBlock]bool{call.Block(): true}
	for l := w.innermost(f, call.Block()); l != nil; {
		var found *elemLoop
		for _, el := range w.elemLoops(f, func(v ssa.Value) bool { return true }) {
			el := el
			if el.l == l {
				found = &el
			}
		}
		msg := "is not a loop over the module files"
		if found != nil {
			in := inner
			msg = w.visitsAllOr(*found, func(x ssa.Instruction) bool {
				if in[x.Block()] {
					return true
				}
				if cc, ok := x.(*ssa.Call); ok {
					if bi, ok := cc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						return true
					}
				}
				return false
			}, true)
		}
		c.Decide(msg == "", "backup-complete", localName(f)+": loop over "+contName(found), w.Pos(call.Pos()), "the loop making the backups %s", msg)
		// next enclosing loop
		var outer *loop
		for _, o := range w.loops(f) {
			if o != l && o.body[l.header] && len(o.body) > len(l.body) && (outer == nil || len(o.body) < len(outer.body)) {
				outer = o
			}
		}
		inner = l.body
		l = outer
	}
}

func contName(el *elemLoop) string {
	if el == nil {
		return "?"
	}
	return el.cont.Type().String()
}

// checkExecAfterBackup: no path from the entry of the root reaches a command before the backups.
func (w *World) checkExecAfterBackup(c *Check, root *ssa.Function, execs map[*ssa.Function][]ssa.Instruction, any bool, isBkp func(in ssa.Instruction) bool) {
	sp := &orderSpec{w: w, isBkp: isBkp}
	fl := newFlow(w, sp)
	fl.rel = func(g *ssa.Function) bool {
		if execs[g] != nil {
			return true
		}
		r := false
		eachInstr(g, func(in ssa.Instruction) { r = r || isBkp(in) })
		return r
	}
	fl.Run(root, "before")
	c.Decide(sp.bad == "", "backup-complete", localName(root)+": order", sp.bad, "a backup is made at %s after a command already changed the files", sp.bad)
}

type orderSpec struct {
	w     *World
	isBkp func(in ssa.Instruction) bool
	bad   string
}

func (o *orderSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if n, ci := o.w.modExec(in); n != "" {
		return []Out{{st: "after", res: unknownRes(ci.Common().Signature())}}, true
	}
	if o.isBkp(in) && st == "after" {
		o.bad = o.w.Pos(in.Pos())
	}
	return nil, false
}

// dirOnce: the path is the directory of the listed file, not something further up or down.
func (w *World) dirOnce(v ssa.Value) bool {
	p := w.prov(v, func(p *Prov) {
		p.stopCall = func(n string) bool { return strings.HasSuffix(n, ".ProjectGoModFiles") }
	})
	dirs := 0
	for x := range p.seen {
		if c, ok := x.(*ssa.Call); ok {
			switch calleeName(c) {
			case "path/filepath.Dir":
				dirs++
			case "path/filepath.Join", "path/filepath.Base":
				return false
			}
		}
	}
	return dirs == 1
}

// callsLeaf: the value derives from the result of a function with this name.
func (w *World) callsLeaf(v ssa.Value, name string) bool {
	p := w.prov(v, func(p *Prov) { p.stopCall = func(n string) bool { return strings.HasSuffix(n, "."+name) } })
	for k := range p.leaf {
		if strings.HasPrefix(k, "call:") && strings.HasSuffix(k, "."+name) {
			return true
		}
	}
	return false
}

func (w *World) sameValue(f *ssa.Function, v ssa.Value) []ssa.Value {
	out := []ssa.Value{v}
	if r := w.rootOf(v); r != nil && r != v {
		if al, ok := r.(*ssa.Alloc); ok && al.Parent() == f {
			out = append(out, al)
		}
	}
	// a field of a local struct: what is stored there, other loads of it, and the struct as a whole
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return out
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return out
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return out
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			out = append(out, x)
		case *ssa.FieldAddr:
			if x.Field != fa.Field {
				continue
			}
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.UnOp:
					out = append(out, y)
				case *ssa.Store:
					if y.Addr == ssa.Value(x) {
						out = append(out, y.Val)
					}
				}
			}
		}
	}
	return out
}

// ownReach: the function, its closures and the repository functions it calls, up to a depth.
func (w *World) ownReach(f *ssa.Function, depth int) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function, d int)
	walk = func(g *ssa.Function, d int) {
		if out[g] || d < 0 {
			return
		}
		for _, h := range withClosures(g) {
			out[h] = true
		}
		for _, h := range withClosures(g) {
			eachInstr(h, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, k := range w.Callees(ci) {
						if w.Own[k.Pkg] && len(k.Blocks) > 0 {
							walk(k, d-1)
						}
					}
				}
			})
		}
	}
	walk(f, depth)
	return out
}

func (w *World) reachesRestore(f *ssa.Function, d int) bool {
	return len(w.restorers(w.ownReach(f, 2))) > 0
}
