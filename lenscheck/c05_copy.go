package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkCopy }

var copyFields = map[string]bool{"AbsProjDir": true, "Gopath": true, "Gomodcache": true}

// cfgField: v is (the address or a load of) a field of Config.
func cfgField(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		return cfgField(x.X)
	case *ssa.FieldAddr, *ssa.Field:
		o, f, ok := fieldName(x)
		if ok && (o == "lens.Config" || strings.HasSuffix(o, ".Config") || o == "Config") {
			var t types.Type
			if fa, ok := x.(*ssa.FieldAddr); ok {
				t = fa.X.Type()
			} else {
				t = x.(*ssa.Field).X.Type()
			}
			if n := namedOf(t); n != nil && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return f, true
			}
		}
	}
	return "", false
}

// pathLeaves: the Config fields a value derives from.
func (w *World) pathLeaves(v ssa.Value) (fields map[string]bool, consts map[string]bool, p *Prov) {
	fields, consts = map[string]bool{}, map[string]bool{}
	p = w.prov(v, func(p *Prov) {
		p.stopField = func(o, f string) bool { return o == "Config" || strings.HasSuffix(o, ".Config") }
	})
	for k := range p.leaf {
		if strings.HasPrefix(k, "field:") {
			n := k[len("field:"):]
			if i := strings.LastIndex(n, "."); i >= 0 && strings.HasSuffix(n[:i], "Config") {
				fields[n[i+1:]] = true
			}
		}
		if strings.HasPrefix(k, "const:") && len(k) > 6 && k != "const:nil" {
			consts[k[6:]] = true
		}
	}
	return
}

type copySpec struct {
	w     *World
	stale map[ssa.Value]bool
	vals  map[string][]ssa.Value
	msgs  map[string]string
}

func addTok(st, t string) string {
	ts := strings.Split(st, "|")
	for _, x := range ts {
		if x == t {
			return st
		}
	}
	ts = append(ts, t)
	sort.Strings(ts)
	return strings.Join(ts, "|")
}

func hasTok(st, t string) bool {
	for _, x := range strings.Split(st, "|") {
		if x == t {
			return true
		}
	}
	return false
}

func (s *copySpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if f, ok := cfgField(x); ok && hasTok(st, "r:"+f) {
			s.stale[x] = true
		}
	case *ssa.Store:
		if f, ok := cfgField(x.Addr); ok && copyFields[f] {
			own, consts, p := s.w.pathLeaves(x.Val)
			if !p.has("call:os.MkdirTemp") || !s.w.alwaysTemp(x.Val, map[ssa.Value]bool{}) {
				s.msgs[f] = "is set to a path outside the temporary directory at " + s.w.Pos(x.Pos())
				return nil, false
			}
			s.vals[f] = append(s.vals[f], x.Val)
			var cs []string
			for k := range consts {
				cs = append(cs, k)
			}
			sort.Strings(cs)
			st = addTok(st, "r:"+f)
			st = addTok(st, "v:"+f+":"+strings.Join(cs, ","))
			if own[f] {
				st = addTok(st, "o:"+f)
			}
			return []Out{{st: st}}, true
		}
	case *ssa.Call:
		n := calleeName(x)
		if strings.HasSuffix(n, "lens.CopyDir") && len(x.Call.Args) >= 3 {
			fs, _, p := s.w.pathLeaves(x.Call.Args[1])
			for v := range p.seen {
				if s.stale[v] {
					s.msgs["copy"] = "copies from the copy instead of the original at " + s.w.Pos(x.Pos())
				}
			}
			_, cs, _ := s.w.pathLeaves(x.Call.Args[2])
			good := st
			for f := range fs {
				for c := range cs {
					good = addTok(good, "c:"+f+":"+c)
				}
			}
			return []Out{{st: good, res: "0"}, {st: st, res: "1"}}, true
		}
		if n == "path/filepath.Rel" {
			for _, a := range x.Call.Args {
				_, _, p := s.w.pathLeaves(a)
				for v := range p.seen {
					if s.stale[v] {
						s.msgs["rel"] = "relates the already redirected path at " + s.w.Pos(x.Pos())
					}
				}
			}
		}
	}
	return nil, false
}

// alwaysTemp: whichever way the value came about, it is made from the temporary directory.
func (w *World) alwaysTemp(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if k, isC := constString(e); isC && k == "" {
				continue
			}
			if !w.alwaysTemp(e, seen) {
				return false
			}
		}
		return true
	}
	_, _, p := w.pathLeaves(v)
	if !p.has("call:os.MkdirTemp") {
		return false
	}
	if t := w.throughCell(v); t != v {
		return w.alwaysTemp(t, seen)
	}
	return true
}

// heldSpec: the clean-up handed out by the set-up is run on every exit.
type heldSpec struct {
	call *ssa.Call
	fn   ssa.Value
}

func (h *heldSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == ssa.Instruction(h.call) {
		n := h.call.Call.Signature().Results().Len()
		ok := []byte(strings.Repeat("2", n))
		ko := append([]byte(nil), ok...)
		if e := errResult(h.call.Call.Signature()); e >= 0 {
			ok[e], ko[e] = '0', '1'
		}
		return []Out{{st: "held", res: string(ok)}, {st: "idle", res: string(ko)}}, true
	}
	if st == "held" {
		if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && fr.Has(ci.Common().Value) {
			return []Out{{st: "done", res: unknownRes(ci.Common().Signature())}}, true
		}
		if r, ok := in.(*ssa.Return); ok {
			for _, v := range retVals(r) {
				if fr.Has(v) {
					return []Out{{st: "moved"}}, true
				}
			}
		}
	}
	return nil, false
}

func checkCopy(c *Check) {
	w := c.W
	c.Rule("redirect-complete", "the set-up of the temporary environment succeeds only after project, GOPATH and module cache were copied below the temporary directory and the configuration was pointed at those copies", 3)
	c.Rule("redirect-first", "with the copy requested, the set-up runs before anything else uses the configured paths, and its clean-up runs on every exit", 2)
	c.Rule("original-unused", "after preparation the analysis never goes back to the original locations", 2)
	c.Rule("child-env", "every command and package load runs with GOPATH and GOMODCACHE of the configuration, in a directory of the analysed project", 6)

	var setups []*ssa.Function
	for _, f := range w.Fns {
		mk, st := false, false
		eachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if n, ok := cfgField(s.Addr); ok && copyFields[n] {
					_, _, p := w.pathLeaves(s.Val)
					st = st || p.has("call:os.MkdirTemp")
				}
			}
		})
		_ = mk
		if st {
			setups = append(setups, f)
		}
	}
	roots := map[*ssa.Function]bool{}
	for _, f := range setups {
		r := f
		// the function that makes the temporary directory
		for i := 0; i < 3 && !makesTemp(r); i++ {
			cs := w.callersOf[r]
			if len(cs) != 1 {
				break
			}
			r = cs[0].Parent()
		}
		roots[r] = true
	}
	for _, f := range w.Fns {
		if !roots[f] {
			continue
		}
		sp := &copySpec{w: w, stale: map[ssa.Value]bool{}, vals: map[string][]ssa.Value{}, msgs: map[string]string{}}
		fl := newFlow(w, sp)
		fl.rel = func(g *ssa.Function) bool {
			r := false
			eachInstr(g, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if n, ok := cfgField(s.Addr); ok && copyFields[n] {
						r = true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci), "lens.CopyDir") {
					r = true
				}
			})
			return r && !strings.HasSuffix(fnQual(g), "CopyDir")
		}
		e := errResult(f.Signature)
		for _, o := range fl.Run(f, "") {
			if o.kind != "" || e >= 0 && o.res[e] == '1' {
				continue
			}
			for fld := range copyFields {
				if !hasTok(o.st, "r:"+fld) {
					sp.msgs[fld] = "still points at the original when the set-up succeeds at " + w.Pos(o.pos)
					continue
				}
				ok := false
				for _, t := range strings.Split(o.st, "|") {
					if strings.HasPrefix(t, "c:") {
						a := strings.SplitN(t, ":", 3)
						src, k := a[1], a[2]
						if src != fld && !(hasTok(o.st, "o:"+fld) && fld == "Gomodcache" && src == "Gopath") {
							continue
						}
						for _, v := range strings.Split(o.st, "|") {
							if strings.HasPrefix(v, "v:"+fld+":") {
								for _, kk := range strings.Split(v[len("v:"+fld+":"):], ",") {
									ok = ok || kk == k
								}
							}
						}
					}
				}
				if !ok {
					sp.msgs[fld] = "points at a place nothing was copied to when the set-up succeeds at " + w.Pos(o.pos)
				}
			}
		}
		if fl.over {
			sp.msgs["copy"] = "path bound exceeded"
		}
		for _, fld := range []string{"AbsProjDir", "Gomodcache", "Gopath", "copy", "rel"} {
			c.Decide(sp.msgs[fld] == "", "redirect-complete", localName(f)+": "+fld, w.Pos(f.Pos()), "%s %s", fld, sp.msgs[fld])
		}
		// callers
		for _, ci := range w.callersOf[f] {
			w.checkRedirectFirst(c, f, ci)
		}
	}

	// the original locations
	prep := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if n, ok := cfgField(s.Addr); ok && n == "AbsProjDir" {
					if fs, _, _ := w.pathLeaves(s.Val); fs["ProjectDir"] {
						prep[f] = true
					}
				}
			}
		})
	}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok {
				return
			}
			switch in.(type) {
			case *ssa.UnOp, *ssa.Field:
			default:
				if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci) == "os.Getenv" {
					if s, ok := constString(ci.Common().Args[0]); ok && (s == "GOPATH" || s == "GOMODCACHE") {
						c.Decide(f.Pkg != w.Lens, "original-unused", localName(f)+": "+s, w.Pos(in.Pos()), "the environment's %s is used instead of the configured one", s)
					}
				}
				return
			}
			if n, ok := cfgField(v); ok && n == "ProjectDir" {
				good := prep[f] || w.onlyFrom(f, prep, 0)
				c.Decide(good, "original-unused", localName(f)+": ProjectDir", w.Pos(in.Pos()), "the original project directory is used after preparation")
			}
			if o, n, ok := fieldName(v); ok && n == "GOPATH" && strings.HasSuffix(o, "build.Context") {
				c.Decide(f.Pkg != w.Lens, "original-unused", localName(f)+": build GOPATH", w.Pos(in.Pos()), "the toolchain's GOPATH is used instead of the configured one")
			}
		})
	}
	w.checkChildEnv(c)
}

func isPkgType(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkg)
}

func makesTemp(f *ssa.Function) bool {
	r := false
	eachInstr(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci) == "os.MkdirTemp" {
			r = true
		}
	})
	return r
}

// onlyFrom: every caller is one of the given functions.
func (w *World) onlyFrom(f *ssa.Function, set map[*ssa.Function]bool, d int) bool {
	cs := w.callersOf[f]
	if len(cs) == 0 || d > 4 {
		return false
	}
	for _, ci := range cs {
		if g := outermost(ci.Parent()); !set[g] && !w.onlyFrom(g, set, d+1) {
			return false
		}
	}
	return true
}

// readsPaths: the function (or what it calls) looks at the configured locations.
func (w *World) readsPaths(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	r := false
	for _, h := range withClosures(g) {
		eachInstr(h, func(in ssa.Instruction) {
			if w.usesPaths(in, seen) {
				r = true
			}
		})
	}
	return r
}

func (w *World) usesPaths(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	if v, ok := in.(*ssa.UnOp); ok {
		if n, ok := cfgField(v); ok && copyFields[n] {
			return true
		}
		if n := namedOf(v.Type()); n != nil && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct {
				return true // the whole configuration is handed on
			}
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		for _, h := range w.Callees(ci) {
			if w.Own[h.Pkg] && len(h.Blocks) > 0 && w.readsPaths(h, seen) {
				return true
			}
		}
	}
	return false
}

func (w *World) checkRedirectFirst(c *Check, setup *ssa.Function, ci ssa.CallInstruction) {
	f := ci.Parent()
	call, ok := ci.(*ssa.Call)
	key := localName(f)
	if !ok {
		c.Decide(false, "redirect-first", key+": set-up", w.Pos(ci.Pos()), "the set-up is not called synchronously")
		return
	}
	// the decision
	var dec, taken *ssa.BasicBlock
	for _, b := range f.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond := ifi.Cond
		want := 0
		if u, ok := cond.(*ssa.UnOp); ok {
			if n, isF := cfgField(u); !isF || n != "TmpCopy" {
				if n2, isF2 := cfgField(u.X); isF2 && n2 == "TmpCopy" {
					want = 1 // negated
				} else {
					continue
				}
			}
		} else {
			continue
		}
		if s := b.Succs[want]; s == call.Block() || s.Dominates(call.Block()) {
			dec, taken = b, s
		}
	}
	if dec == nil {
		c.Decide(false, "redirect-first", key+": set-up", w.Pos(call.Pos()), "the set-up is not decided by the copy setting")
		return
	}
	bad := ""
	// once requested, nothing gets around it
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{taken}
	for len(st) > 0 && bad == "" {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || b == call.Block() {
			continue
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if w.usesPaths(in, map[*ssa.Function]bool{setup: true}) {
				bad = w.Pos(in.Pos())
			}
		}
		st = append(st, b.Succs...)
	}
	c.Decide(bad == "", "redirect-first", key+": always", bad, "the configured paths are used at %s although the requested copy was not made", bad)
	bad = ""
	eachInstr(f, func(in ssa.Instruction) {
		if in == ssa.Instruction(call) || bad != "" {
			return
		}
		if cc, ok := in.(ssa.CallInstruction); ok {
			// preparing the configuration itself
			for _, g := range w.Callees(cc) {
				if storesCfg(g, "prepared") || storesCfg(g, "AbsProjDir") {
					return
				}
			}
		}
		if !w.usesPaths(in, map[*ssa.Function]bool{setup: true}) {
			return
		}
		b := in.Block()
		if b != dec && dec.Dominates(b) && b != call.Block() {
			return
		}
		if b == call.Block() {
			for _, x := range b.Instrs {
				if x == ssa.Instruction(call) {
					return
				}
				if x == in {
					break
				}
			}
		}
		bad = w.Pos(in.Pos())
	})
	c.Decide(bad == "", "redirect-first", key+": order", bad, "the configured paths are used at %s, before the copy exists", bad)
	// clean-up
	var fnv ssa.Value
	for i := 0; i < setup.Signature.Results().Len(); i++ {
		if _, ok := setup.Signature.Results().At(i).Type().Underlying().(*types.Signature); ok {
			fnv = resultAt(call, i)
		}
	}
	if fnv == nil {
		c.Decide(false, "redirect-first", key+": clean-up", w.Pos(call.Pos()), "the clean-up of the temporary environment is dropped")
		return
	}
	fl := newFlow(w, &heldSpec{call: call, fn: fnv})
	fl.narrow = true
	msg := ""
	for _, o := range fl.Run(f, "idle", fnv) {
		if o.st == "held" && o.kind != "exit" {
			msg = "left at " + w.Pos(o.pos) + " without removing the temporary environment"
		}
	}
	c.Decide(msg == "", "redirect-first", key+": clean-up", w.Pos(call.Pos()), "%s", msg)
}

func storesCfg(g *ssa.Function, field string) bool {
	r := false
	eachInstr(g, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if n, ok := cfgField(s.Addr); ok && n == field {
				_, isConst := s.Val.(*ssa.Const)
				r = r || isConst || field != "prepared" && len(g.Blocks) > 0 && s.Val != nil && isAbs(s.Val)
			}
		}
	})
	return r
}

func isAbs(v ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(*ssa.Call); ok {
			return calleeName(c) == "path/filepath.Abs"
		}
	}
	return false
}

// ---- child processes and package loads ----

func (w *World) checkChildEnv(c *Check) {
	type obl struct {
		v   ssa.Value
		key string
		pos string
	}
	var todo []obl
	for _, f := range w.Fns {
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Call:
				nm := calleeName(x)
				if nm != "os/exec.Command" && nm != "os/exec.CommandContext" {
					return
				}
				n++
				key := fmt.Sprintf("%s: command #%d", localName(f), n)
				env, dir := w.cmdField(x, "Env"), w.cmdField(x, "Dir")
				if env == nil {
					c.Decide(false, "child-env", key, w.Pos(x.Pos()), "the command runs with the environment of the tool instead of the configured GOPATH and GOMODCACHE")
					return
				}
				todo = append(todo, obl{env, key + " env", w.Pos(x.Pos())})
				clean := false
				for _, a := range x.Call.Args {
					p := w.prov(a, func(p *Prov) { p.local = true })
					clean = clean || p.has("const:clean")
				}
				if !clean {
					c.Decide(dir != nil, "child-env", key+" dir", w.Pos(x.Pos()), "the command runs in the directory of the tool")
				}
			case *ssa.FieldAddr:
				if _, fn, ok := fieldName(x); ok && fn == "Env" && isPkgType(x.X.Type(), "go/packages", "Config") {
					for _, r := range *x.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
							todo = append(todo, obl{s.Val, localName(f) + ": package load env", w.Pos(s.Pos())})
						}
					}
				}
			case *ssa.Alloc:
				if isPkgType(x.Type(), "go/packages", "Config") {
					has := map[string]bool{}
					for _, r := range *x.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok {
							_, fn, _ := fieldName(fa)
							has[fn] = true
						}
					}
					c.Decide(has["Env"] && has["Dir"], "child-env", localName(f)+": package load", w.Pos(x.Pos()), "packages are loaded without the configured environment and directory")
				}
			}
		})
	}
	seen := map[ssa.Value]bool{}
	for len(todo) > 0 {
		o := todo[0]
		todo = todo[1:]
		if seen[o.v] {
			continue
		}
		seen[o.v] = true
		p := w.prov(o.v, func(p *Prov) { p.local = true })
		if p.has("const:GOMODCACHE=") {
			c.Ok("child-env", o.key)
			continue
		}
		lifted := false
		for v := range p.seen {
			if q, ok := v.(*ssa.Parameter); ok && q.Type().String() == "[]string" {
				for _, ci := range w.callersOf[q.Parent()] {
					if a := argFor(ci, q.Parent(), paramIndex(q)); a != nil {
						lifted = true
						todo = append(todo, obl{a, localName(ci.Parent()) + ": environment for " + q.Parent().Name(), w.Pos(ci.Pos())})
					}
				}
				if len(w.callersOf[q.Parent()]) == 0 { // offered to users of the package
					lifted = true
				}
			}
			if fv, ok := v.(*ssa.FreeVar); ok {
				_ = fv
			}
		}
		c.Decide(lifted, "child-env", o.key, o.pos, "the environment lacks the configured GOMODCACHE")
	}
	w.checkEnvSources(c)
	// what the entries hold
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				return
			}
			k, ok := constString(b.X)
			if !ok || k != "GOPATH=" && k != "GOMODCACHE=" {
				return
			}
			want := map[string]string{"GOPATH=": "Gopath", "GOMODCACHE=": "Gomodcache"}[k]
			fs, _, _ := w.pathLeaves(b.Y)
			msg := ""
			if !fs[want] {
				msg = "is not set from the configured " + want
			}
			for n := range fs {
				if n != want {
					msg = "is set from the configured " + n
				}
			}
			c.Decide(msg == "", "child-env", localName(f)+": "+k, w.Pos(in.Pos()), "%s %s", strings.TrimSuffix(k, "="), msg)
		})
	}
	// directories packages are loaded from
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			o, fn, ok := fieldName(s.Addr)
			fa, isFA := s.Addr.(*ssa.FieldAddr)
			if !ok || fn != "Dir" || !isFA || !isPkgType(fa.X.Type(), "go/packages", "Config") && !isPkgType(fa.X.Type(), "os/exec", "Cmd") {
				return
			}
			fs, _, _ := w.pathLeaves(s.Val)
			c.Decide(!fs["ProjectDir"] && !fs["Gopath"], "child-env", localName(f)+": "+o+" directory", w.Pos(in.Pos()), "runs in a directory outside the analysed project and module cache")
		})
	}
}

// cmdField: the value stored in a field of the command in the function that made it, on every path.
func (w *World) cmdField(cmd *ssa.Call, field string) ssa.Value {
	for _, r := range *cmd.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		if _, n, _ := fieldName(fa); n != field {
			continue
		}
		for _, q := range *fa.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
				// set before every use of the command
				good := true
				for _, u := range *cmd.Referrers() {
					switch u.(type) {
					case *ssa.Return, *ssa.Call:
						if !(s.Block() == u.Block() || s.Block().Dominates(u.Block())) {
							good = false
						}
					}
				}
				if good {
					return s.Val
				}
			}
		}
	}
	return nil
}

// checkEnvSources: the configured variables come after the surrounding environment (the last one counts), and each call
// which makes an environment for a command hands over the configured directory.
func (w *World) checkEnvSources(c *Check) {
	surrounding := func(v ssa.Value) bool {
		v = w.throughCell(v)
		if sl, ok := v.(*ssa.Slice); ok {
			v = sl.X
		}
		cl, ok := v.(*ssa.Call)
		return ok && (calleeName(cl) == "os.Environ" || calleeName(cl) == "syscall.Environ")
	}
	makes := func(v ssa.Value) bool {
		return w.prov(v, func(p *Prov) { p.local = true }).has("const:GOMODCACHE=")
	}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			var parts []ssa.Value
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				parts = cl.Call.Args
			}
			for i, a := range parts {
				if !surrounding(a) {
					continue
				}
				before := false
				for _, q := range parts[:i] {
					before = before || makes(q)
				}
				c.Decide(!before, "child-env", localName(f)+": order of the environment", w.Pos(cl.Pos()), "the surrounding environment comes after the configured GOPATH and GOMODCACHE and overrides them")
			}
			for _, g := range w.Callees(cl) {
				if !w.Own[g.Pkg] || len(g.Blocks) == 0 {
					continue
				}
				for k, q := range g.Params {
					name := envParam(w, g, q)
					if name == "" {
						continue
					}
					a := argFor(cl, g, k)
					s, isC := constString(a)
					if a == nil || !isC {
						continue
					}
					loads := name == "GOPATH=" && onlyLoads(w, cl, map[ssa.Value]bool{})
					c.Decide(loads, "child-env", localName(f)+": "+name+" given to "+g.Name(), w.Pos(cl.Pos()), "%s is %q instead of the configured one", strings.TrimSuffix(name, "="), s)
				}
			}
		})
	}
}

// envParam: the parameter is what the function puts behind GOPATH= or GOMODCACHE=.
func envParam(w *World, g *ssa.Function, q *ssa.Parameter) string {
	name := ""
	eachInstr(g, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		if k, ok := constString(b.X); ok && (k == "GOPATH=" || k == "GOMODCACHE=") && w.throughCell(b.Y) == ssa.Value(q) {
			name = k
		}
	})
	return name
}

// onlyLoads: the environment is only used to load packages (the module cache decides what is read there).
func onlyLoads(w *World, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if _, fn, ok := fieldName(x.Addr); ok && fn == "Env" {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isPkgType(fa.X.Type(), "go/packages", "Config") {
					continue
				}
			}
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, q := range *al.Referrers() {
				if ld, ok := q.(*ssa.UnOp); ok && !onlyLoads(w, ld, seen) {
					return false
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || !onlyLoads(w, x, seen) {
				return false
			}
		case *ssa.Phi:
			if !onlyLoads(w, x, seen) {
				return false
			}
		case *ssa.Slice:
			if !onlyLoads(w, x, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
