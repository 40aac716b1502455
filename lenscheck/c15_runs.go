package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkRuns }

type runsCheck struct {
	c    *Check
	w    *World
	t    *termer
	root *tctx
	all  []rframe
}

// an instruction of a frame, with the call in the root it runs under
type rframe struct {
	in ssa.Instruction
	c  *tctx
}

func sliceElem(ty types.Type) string {
	s, ok := ty.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	n := namedOf(deref(s.Elem()))
	if n == nil {
		return ""
	}
	return n.Obj().Name()
}

func isStorage(ty types.Type) bool {
	n := namedOf(ty)
	return n != nil && n.Obj().Name() == "Storage"
}

func (r *runsCheck) termer(f *ssa.Function) *termer {
	w := r.w
	t := newTermer(w)
	name := map[ssa.Value]string{}
	ext := 0
	for _, p := range f.Params {
		switch e := sliceElem(p.Type()); {
		case e == "ModuleChange":
			name[p] = "CHANGED"
		case e == "CallerFunction":
			name[p] = "CALLERS"
		case e == "TestFunction":
			name[p] = "TESTS"
		case isStorage(p.Type()):
			name[p] = "S"
		default:
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "ReachableModuleChange" {
				name[p] = "REACHABLE"
			}
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				ext++
				name[p] = fmt.Sprintf("EXT%d", ext)
			}
		}
	}
	t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
		s, ok := name[v]
		return s, ok
	}
	t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
		com := ci.Common()
		if com.IsInvoke() {
			switch com.Method.Name() {
			case "LoadState":
				return "load(" + t.eval(com.Value, cx).String() + ", " + t.eval(com.Args[0], cx).String() + ")", true
			}
			return "", false
		}
		g := com.StaticCallee()
		if g == nil {
			if _, ok := com.Value.(*ssa.Builtin); !ok { // the configured extensions
				s := t.eval(com.Value, cx).String()
				if strings.HasPrefix(s, "EXT") {
					return s + "()", true
				}
				if s == "0" {
					return "never()", true
				}
			}
			return "", false
		}
		if !w.own(g) {
			return "", false
		}
		if g.Signature.Recv() != nil {
			rt := namedOf(deref(g.Signature.Recv().Type()))
			if rt != nil {
				switch rt.Obj().Name() {
				case "ASTModifier":
					var as []string
					for _, a := range com.Args[1:] {
						as = append(as, t.eval(a, cx).String())
					}
					return g.Name() + "(" + strings.Join(as, ", ") + ")", true
				case "astServer":
					return g.Name(), true
				case "TestResult":
					if strings.Contains(strings.ToLower(g.Name()), "marshalmsgpack") && !strings.Contains(strings.ToLower(g.Name()), "unmarshal") {
						return "encode(" + t.eval(com.Args[0], cx).String() + ")", true
					}
				}
			}
		}
		sig := g.Signature
		if sig.Results().Len() == 1 && isStorage(sig.Results().At(0).Type()) && len(com.Args) == 2 && isStorage(com.Args[0].Type()) {
			return "prefix(" + t.eval(com.Args[0], cx).String() + ", " + t.eval(com.Args[1], cx).String() + ")", true
		}
		switch g.Name() {
		case "ExecGoTest", "testResultStableFields", "GoEnv", "goCacheClean", "ProjectGoModFiles", "NewProjectLoggedExec", "FilterModulesByGoVersion":
			var as []string
			for _, a := range com.Args {
				as = append(as, t.arg(a, cx))
			}
			return g.Name() + "(" + strings.Join(as, ", ") + ")", true
		}
		return "", false
	}
	return t
}

// walk visits every instruction run under the frame, closures handed to library functions included.
func (r *runsCheck) walk(c *tctx, d int, seen map[*tctx]bool, visit func(in ssa.Instruction, c *tctx)) {
	if d > 14 || seen[c] {
		return
	}
	seen[c] = true
	eachInstr(c.f, func(in ssa.Instruction) {
		visit(in, c)
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, leaf := r.t.leafCall(ci, c); leaf {
			return
		}
		own := false
		for _, g := range r.w.Callees(ci) {
			if r.w.own(g) && len(g.Blocks) > 0 && r.t.onStack(c, g) == 0 {
				own = true
				r.walk(r.t.enter(ci, g, c), d+1, seen, visit)
			}
		}
		if own {
			return
		}
		for _, a := range ci.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			for _, g := range r.w.funcsOf(a, map[ssa.Value]bool{}) {
				if r.w.own(g) && len(g.Blocks) > 0 && r.t.onStack(c, g) == 0 {
					n := r.t.closure(g, c)
					if n.up == nil {
						n.up, n.site = c, ci
					}
					r.walk(n, d+1, seen, visit)
				}
			}
		}
	})
}

// topSite: the call in the root function under which the frame runs, nil for the root itself.
func (r *runsCheck) topSite(in ssa.Instruction, c *tctx) ssa.Instruction {
	for c != nil && c != r.root {
		if c.site == nil {
			if c.def == nil {
				return nil
			}
			c = c.def
			continue
		}
		in, c = c.site, c.up
	}
	if c == nil {
		return nil
	}
	return in
}

type runCall struct {
	ci ssa.CallInstruction
	c  *tctx
}

func checkRuns(c *Check) {
	w := c.W
	c.Rule("storages", "the results before and after the update are kept under different keys of the given storage, and returned in that order", 2)
	c.Rule("saved", "a run saves each test's result under the test's identifier in the storage of its side of the update", 4)
	c.Rule("expected", "expected values come from the results before the update, of the same test, in the run after it only", 2)
	c.Rule("every-test", "every test is run, and a run without error has saved its result", 3)
	c.Rule("update", "between the runs every changed module is set to its new version in every module of the project", 3)
	c.Rule("points", "monitor points lead to the function they were placed in", 8)
	c.Rule("recorded", "what a point reports is recorded for the function of the point", 4)
	c.Rule("counts", "the counts returned belong to the runs they are named after", 2)
	n := 0
	for _, f := range w.Fns {
		if f.Name() != "RunModuleUpdateAnalysis" || f.Signature.Recv() != nil || len(f.Blocks) == 0 {
			continue
		}
		n++
		r := &runsCheck{c: c, w: w, root: &tctx{f: f}}
		r.t = r.termer(f)
		r.run(f)
	}
	c.Decide(n > 0, "storages", "analysis", "-", "no run of the tests before and after the update found")
}

func (r *runsCheck) run(f *ssa.Function) {
	c, w, t := r.c, r.w, r.t
	calls := map[string][]runCall{}
	r.walk(r.root, 0, map[*tctx]bool{}, func(in ssa.Instruction, cx *tctx) {
		r.all = append(r.all, rframe{in, cx})
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		com := ci.Common()
		n := ""
		if com.IsInvoke() {
			n = com.Method.Name()
			if n == "SaveState" && implementsStorage(cx.f) {
				return // one storage on top of another
			}
		} else if g := com.StaticCallee(); g != nil {
			n = g.Name()
		}
		calls[n] = append(calls[n], runCall{ci, cx})
		if com.StaticCallee() != nil && !com.IsInvoke() {
			for _, a := range com.Args {
				s := t.arg(a, cx)
				if strings.Contains(s, `"get"`) && strings.Contains(s, "CHANGED[]") && (strings.Contains(calleeName(ci), "exec.Command") || w.own(com.StaticCallee())) {
					calls["get"] = append(calls["get"], runCall{ci, cx})
				}
			}
		}
	})
	// the returned storages
	pre, post := "", ""
	var done *ssa.Return
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var st []string
		for _, v := range retVals(rt) {
			if isStorage(v.Type()) {
				st = append(st, t.eval(v, r.root).String())
			}
		}
		if len(st) == 2 && strings.HasPrefix(st[1], "prefix(") && strings.HasPrefix(st[0], "prefix(") {
			pre, post, done = st[0], st[1], rt
		}
	}
	if done == nil {
		c.Bad("storages", "returned", w.Pos(f.Pos()), "no return of two storages which are parts of the given one")
		return
	}
	a, oka := strings.CutPrefix(pre, `prefix(S, "`)
	b, okb := strings.CutPrefix(post, `prefix(S, "`)
	c.Decide(oka && okb, "storages", "parts of the given storage", w.Pos(done.Pos()), "they are %s and %s", pre, post)
	a, b = strings.TrimSuffix(a, `")`), strings.TrimSuffix(b, `")`)
	c.Decide(a != "" && b != "" && !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a), "storages", "separate", w.Pos(done.Pos()), "keys under %q and %q overlap", a, b)
	// the update
	if len(calls["get"]) == 0 {
		c.Bad("update", "go get", w.Pos(f.Pos()), "no command which sets a changed module's version found")
		return
	}
	get := r.topSite(calls["get"][0].ci, calls["get"][0].c)
	side := func(in ssa.Instruction, cx *tctx) string {
		top := r.topSite(in, cx)
		if top == nil || get == nil {
			return "?"
		}
		switch x, y := mayPrecede(top, get), mayPrecede(get, top); {
		case x && !y:
			return "pre"
		case y && !x:
			return "post"
		}
		return "?"
	}
	want := map[string]string{"pre": pre, "post": post}
	runs := map[string]map[ssa.Instruction]bool{"pre": {}, "post": {}}
	const ident = "TESTS[].Function.FunctionIdent"
	for _, s := range calls["SaveState"] {
		com := s.ci.Common()
		if !com.IsInvoke() {
			continue
		}
		sd := side(s.ci, s.c)
		pos := w.Pos(s.ci.Pos())
		name := sd + " save in " + FnName(s.c.f)
		st := t.eval(com.Value, s.c).String()
		if sd == "?" {
			c.Bad("saved", name, pos, "a result is saved neither before nor after the update")
			continue
		}
		runs[sd][r.topSite(s.ci, s.c)] = true
		c.Decide(st == want[sd], "saved", name, pos, "results of the run %s the update are saved in %s, returned is %s", map[string]string{"pre": "before", "post": "after"}[sd], st, want[sd])
		k := t.eval(com.Args[0], s.c).String()
		c.Decide(k == ident, "saved", name+" key", pos, "a result is saved under %s", k)
		// the result is the test's
		id := r.encoded(com.Args[1], s.c)
		if id != "" {
			c.Decide(id == ident, "saved", name+" value", pos, "the result saved is that of %s", id)
		}
	}
	c.Decide(len(runs["pre"]) > 0 && len(runs["post"]) > 0, "saved", "both runs", w.Pos(f.Pos()), "results are saved by %d runs before and %d after the update", len(runs["pre"]), len(runs["post"]))
	for _, s := range calls["LoadState"] {
		com := s.ci.Common()
		if !com.IsInvoke() || implementsStorage(s.c.f) {
			continue
		}
		sd := side(s.ci, s.c)
		st := t.eval(com.Value, s.c).String()
		ok := sd == "pre" && st == "0" || sd == "post" && st == pre
		c.Decide(ok, "expected", sd+" load in "+FnName(s.c.f), w.Pos(s.ci.Pos()), "the run %s the update reads results from %s", map[string]string{"pre": "before", "post": "after"}[sd], st)
		k := t.eval(com.Args[0], s.c).String()
		c.Decide(k == ident, "expected", sd+" key in "+FnName(s.c.f), w.Pos(s.ci.Pos()), "results are read under %s", k)
	}
	r.everyTest(calls)
	r.update(calls["get"], runs["post"])
	r.points(side)
	r.counts(done, runs)
}

func implementsStorage(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n := f.Name()
	return n == "SaveState" || n == "LoadState" || n == "DeleteState" || n == "ListKeys"
}

// encoded: the test a stored result says it belongs to.
func (r *runsCheck) encoded(v ssa.Value, c *tctx) string {
	out := ""
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, c *tctx, d int)
	rec = func(v ssa.Value, c *tctx, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Extract:
			rec(x.Tuple, c, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, c, d+1)
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || !r.w.own(g) {
				return
			}
			if s, ok := r.t.leafCall(x, c); ok && strings.HasPrefix(s, "encode(") {
				ts := r.t.eval(x.Call.Args[0], c, ".TestFunction", ".FunctionIdent")
				for k := range ts {
					if strings.HasPrefix(k, "testResultStableFields(") || k == "0" { // made from the two
						delete(ts, k)
					}
				}
				out = ts.String()
				return
			}
			n := r.t.enter(x, g, c)
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range retVals(rt) {
						rec(rv, n, d+1)
					}
				}
			}
		}
	}
	rec(v, c, 0)
	return out
}

// under: the call runs below the instruction of the frame.
func under(x runCall, in ssa.Instruction, c *tctx) bool {
	if x.ci == in && x.c == c {
		return true
	}
	for f := x.c; f != nil; {
		if f.site != nil && f.site == in && f.up == c {
			return true
		}
		if f.up != nil {
			f = f.up
		} else {
			f = f.def
		}
	}
	return false
}

func (r *runsCheck) contexts() []*tctx {
	var out []*tctx
	seen := map[*tctx]bool{}
	for _, x := range r.all {
		if !seen[x.c] {
			seen[x.c] = true
			out = append(out, x.c)
		}
	}
	return out
}

func (r *runsCheck) everyTest(calls map[string][]runCall) {
	c, w, t := r.c, r.w, r.t
	done := map[string]bool{}
	found := 0
	for _, cx := range r.contexts() {
		for _, el := range w.elemLoops(cx.f, func(v ssa.Value) bool { return t.eval(v, cx, "[]").String() == "TESTS[]" }) {
			saves := func(in ssa.Instruction) bool {
				for _, s := range calls["SaveState"] {
					if under(s, in, cx) {
						return true
					}
				}
				return false
			}
			any := false
			for b := range el.l.body {
				for _, in := range b.Instrs {
					any = any || saves(in)
				}
			}
			if !any {
				continue
			}
			found++
			name := "loop in " + FnName(cx.f)
			if done[name] {
				continue
			}
			done[name] = true
			bad := w.visitsAllOr(el, saves, true)
			c.Decide(bad == "", "every-test", name, w.Pos(el.cont.Pos()), "the loop over the tests %s", bad)
			// the result is saved where no error is returned
			for _, s := range calls["SaveState"] {
				in := ssa.Instruction(s.ci)
				for f := s.c; f != nil && f != cx; {
					key := "save in " + FnName(f.f)
					if !done[key] && errResult(f.f.Signature) >= 0 {
						done[key] = true
						at := r.unsaved(f.f, in)
						c.Decide(at == nil, "every-test", key, w.Pos(in.Pos()), "%s", "a test can end without error although its result was not saved, at "+posOr(w, at))
					}
					if f.site == nil {
						break
					}
					in, f = f.site, f.up
				}
			}
		}
	}
	c.Decide(found >= 2, "every-test", "loops", "-", "the tests are gone through %d times, expected once before and once after the update", found)
}

func posOr(w *World, in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	return w.Pos(in.Pos())
}

// unsaved: a return without error which can be reached without passing the instruction.
func (r *runsCheck) unsaved(f *ssa.Function, must ssa.Instruction) ssa.Instruction {
	e := errResult(f.Signature)
	var bad ssa.Instruction
	steps := 0
	var rec func(b, pred *ssa.BasicBlock, nonNil map[ssa.Value]bool, on map[*ssa.BasicBlock]int)
	resolve := func(v ssa.Value, b, pred *ssa.BasicBlock) ssa.Value {
		for i := 0; i < 4; i++ {
			ph, ok := v.(*ssa.Phi)
			if !ok || ph.Block() != b || pred == nil {
				return v
			}
			for j, p := range b.Preds {
				if p == pred {
					v = ph.Edges[j]
				}
			}
			break
		}
		return v
	}
	rec = func(b, pred *ssa.BasicBlock, nonNil map[ssa.Value]bool, on map[*ssa.BasicBlock]int) {
		steps++
		if bad != nil || steps > 50000 || on[b] > 1 {
			return
		}
		for _, in := range b.Instrs {
			if in == must {
				return
			}
		}
		on[b]++
		defer func() { on[b]-- }()
		last := b.Instrs[len(b.Instrs)-1]
		switch x := last.(type) {
		case *ssa.Return:
			vs := retVals(x)
			if e < len(vs) {
				v := resolve(vs[e], b, pred)
				switch {
				case isNilConst(v):
					bad = x
				case nonNil[v]:
				default:
					if _, ok := v.(*ssa.Phi); ok {
						bad = x
					}
				}
			}
			return
		case *ssa.If:
			bo, ok := x.Cond.(*ssa.BinOp)
			if ok && (isNilConst(bo.Y) || isNilConst(bo.X)) {
				v := bo.X
				if isNilConst(v) {
					v = bo.Y
				}
				v = resolve(v, b, pred)
				nn := 0 // the branch taken when it is not nil
				if bo.Op.String() == "==" {
					nn = 1
				}
				for i, s := range b.Succs {
					if i == nn {
						if isNilConst(v) {
							continue
						}
						m := map[ssa.Value]bool{v: true}
						for k := range nonNil {
							m[k] = true
						}
						rec(s, b, m, on)
					} else if !nonNil[v] {
						rec(s, b, nonNil, on)
					}
				}
				return
			}
		}
		for _, s := range b.Succs {
			rec(s, b, nonNil, on)
		}
	}
	rec(f.Blocks[0], nil, map[ssa.Value]bool{}, map[*ssa.BasicBlock]int{})
	return bad
}

func (r *runsCheck) update(gets []runCall, post map[ssa.Instruction]bool) {
	c, w, t := r.c, r.w, r.t
	g := gets[0]
	pos := w.Pos(g.ci.Pos())
	var as []string
	for _, a := range g.ci.Common().Args {
		as = append(as, t.arg(a, g.c))
	}
	args := strings.Join(as, ", ")
	n, v := strings.Index(args, "CHANGED[].Name"), strings.Index(args, "CHANGED[].NewVersion")
	c.Decide(n >= 0 && n < v && strings.Contains(args, "@"), "update", "version", pos, "the command is %s", args)
	// where it is run
	if g0 := g.ci.Common().StaticCallee(); g0 != nil && w.own(g0) {
		plain := false
		for i, a := range g.ci.Common().Args {
			plain = plain || isString(a.Type()) && !strings.HasPrefix(as[i], `"`)
		}
		if plain {
			c.Decide(strings.Contains(args, "ProjectGoModFiles("), "update", "directory", pos, "the command is not run in the directory of a module of the project: %s", args)
		}
	}
	// the loops around it
	over := map[string]bool{}
	in, cx := ssa.Instruction(g.ci), g.c
	var outer *loop
	for {
		for l := w.innermost(cx.f, in.Block()); l != nil; l = w.outer(cx.f, l) {
			outer = nil
			if cx == r.root {
				outer = l
			}
			for _, el := range w.elemLoops(cx.f, func(ssa.Value) bool { return true }) {
				if el.l != l {
					continue
				}
				e := t.eval(el.cont, cx, "[]").String()
				k := ""
				switch {
				case e == "CHANGED[]":
					k = "changed modules"
				case strings.HasPrefix(e, "ProjectGoModFiles("):
					k = "modules of the project"
				default:
					continue
				}
				over[k] = true
				here := cx
				bad := w.visitsAllOr(el, func(in ssa.Instruction) bool {
					if under(g, in, here) {
						return true
					}
					for _, il := range w.loops(here.f) { // the loop inside, which may have no rounds
						if il != l && l.body[il.header] && il.header.Instrs[0] == in && il.body[r.ancestor(g, here).Block()] {
							return true
						}
					}
					return false
				}, true)
				c.Decide(bad == "", "update", k, w.Pos(el.cont.Pos()), "the loop over the %s %s", k, bad)
			}
		}
		if cx.site == nil || cx.up == nil {
			break
		}
		in, cx = cx.site, cx.up
	}
	for _, k := range []string{"changed modules", "modules of the project"} {
		c.Decide(over[k], "update", "all "+k, pos, "the command is not run for each of the %s", k)
	}
	// the run after the update comes after all of it
	top := r.topSite(g.ci, g.c)
	blk := top.Block()
	if outer != nil {
		blk = outer.header
	}
	for p := range post {
		c.Decide(blk.Dominates(p.Block()), "update", "before the second run", w.Pos(p.Pos()), "the tests can be run again without the update")
	}
}

// ancestor: the instruction of the frame under which the call runs.
func (r *runsCheck) ancestor(x runCall, c *tctx) ssa.Instruction {
	in := ssa.Instruction(x.ci)
	for f := x.c; f != nil && f != c && f.site != nil; f = f.up {
		in = f.site
	}
	return in
}

func (r *runsCheck) monitorType(fa *ssa.FieldAddr) *types.Named {
	n := namedOf(deref(fa.X.Type()))
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "HandleFuncPointState" {
			return n
		}
	}
	return nil
}

// where the points of a table were placed
type pointTable struct {
	kind string // the injecting method, or EXT
	of   string // the functions
}

var injectTerm = regexp.MustCompile(`^(InjectFuncPoint\w+)\((.*)\)#0(\[\])?$`)

// points: the tables of a monitor lead from the points placed in a function to that function.
func (r *runsCheck) points(side func(in ssa.Instruction, cx *tctx) string) {
	c, w, t := r.c, r.w, r.t
	tables := map[string]map[string]pointTable{"pre": {}, "post": {}}
	var mon *types.Named
	for _, x := range r.all {
		st, ok := x.in.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || r.monitorType(fa) == nil {
			continue
		}
		m, ok := st.Val.Type().Underlying().(*types.Map)
		if !ok || m.Key().String() != "uint32" {
			continue
		}
		mon = r.monitorType(fa)
		sd := side(st, x.c)
		_, fn, _ := fieldName(fa)
		pos := w.Pos(st.Pos())
		ks, vs := t.eval(st.Val, x.c, "{k}"), t.eval(st.Val, x.c, "[]")
		delete(ks, "0")
		delete(vs, "0")
		for k := range ks {
			if strings.HasPrefix(k, "never()") {
				delete(ks, k)
			}
		}
		for k := range vs {
			if strings.HasPrefix(k, "never()") {
				delete(vs, k)
			}
		}
		name := sd + " " + fn
		var tab pointTable
		bad := ""
		for k := range ks {
			if e, ok := strings.CutSuffix(k, "#0{k}"); ok && strings.HasPrefix(e, "EXT") {
				if tab.kind != "" && tab.kind != "EXT" {
					bad = "points of extensions and of functions are mixed"
				}
				tab = pointTable{"EXT", e}
				if sd == "pre" && e != "EXT1()" || sd == "post" && e != "EXT2()" {
					bad = "the points are those of the other side's extension"
				}
				if len(vs) > 0 && !vs[e+"#0[]"] {
					bad = "the points of " + e + " lead to " + vs.String()
				}
				continue
			}
			q := injectTerm.FindStringSubmatch(k)
			if q == nil {
				bad = "the point is " + short(k)
				continue
			}
			if q[2] == "0" { // no functions given
				tab.kind = q[1]
				continue
			}
			if tab.of != "" && (tab.kind != q[1] || tab.of != q[2]) {
				bad = "points of " + tab.kind + " of " + tab.of + " and " + q[1] + " of " + q[2] + " are mixed"
			}
			tab = pointTable{q[1], q[2]}
			if vs.String() != q[2]+".FunctionIdent" {
				bad = "the points of " + q[2] + " lead to " + short(vs.String())
			}
		}
		if old, ok := tables[sd][fn]; ok && old != tab {
			bad = "one monitor has other points than the next"
		}
		tables[sd][fn] = tab
		c.Decide(bad == "", "points", name, pos, "%s", bad)
	}
	for _, x := range r.all {
		if mu, ok := x.in.(*ssa.MapUpdate); ok {
			r.sameElem(mu)
		}
	}
	if mon == nil {
		c.Bad("points", "monitor", "-", "no monitor with tables of points found")
		return
	}
	r.handlers(mon, tables)
}

// sameElem: a point is entered for the very element it was placed in.
func (r *runsCheck) sameElem(mu *ssa.MapUpdate) {
	elem := func(v ssa.Value) *ssa.IndexAddr {
		for i := 0; i < 6; i++ {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil
				}
				v = x.X
			case *ssa.IndexAddr:
				return x
			default:
				return nil
			}
		}
		return nil
	}
	k := mu.Key
	if ex, ok := k.(*ssa.Extract); ok {
		k = ex.Tuple
	}
	call, ok := k.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().Name(), "InjectFuncPoint") || len(call.Call.Args) < 2 {
		return
	}
	a, b := elem(call.Call.Args[1]), elem(mu.Value)
	if a == nil || b == nil {
		return
	}
	r.c.Decide(r.w.canon(a.X) == r.w.canon(b.X) && (a.Index == b.Index || r.w.canon(a.Index) == r.w.canon(b.Index)), "points", "element in "+FnName(mu.Parent()), r.w.Pos(mu.Pos()), "the point is placed in one function and entered for another of the list")
}

// handlers: what the monitor records, and for which function.
func (r *runsCheck) handlers(mon *types.Named, tables map[string]map[string]pointTable) {
	c, w := r.c, r.w
	feeds := map[string]map[string]bool{} // recorded in -> tables its keys come from
	for i := 0; i < mon.NumMethods(); i++ {
		f := w.Prog.FuncValue(mon.Method(i))
		if f == nil || len(f.Blocks) == 0 || !strings.HasPrefix(f.Name(), "HandleFuncPoint") {
			continue
		}
		h := &runsCheck{c: c, w: w, root: &tctx{f: f}}
		t := newTermer(w)
		h.t = t
		t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
			if v == f.Params[0] {
				return "MON", true
			}
			if len(f.Params) > 1 && v == f.Params[1] {
				return "MSG", true
			}
			return "", false
		}
		t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
			if g := ci.Common().StaticCallee(); g != nil && w.own(g) && g.Signature.Results().Len() == 1 && isString(g.Signature.Results().At(0).Type()) && len(g.Blocks) > 0 && g.Parent() == nil {
				var as []string
				for _, a := range ci.Common().Args {
					as = append(as, t.arg(a, cx))
				}
				return localName(g) + "(" + strings.Join(as, ", ") + ")", true
			}
			return "", false
		}
		cmp := &compareCheck{c: c, w: w, t: t, root: h.root}
		var recs []runCall2
		h.walk(h.root, 0, map[*tctx]bool{}, func(in ssa.Instruction, cx *tctx) {
			h.all = append(h.all, rframe{in, cx})
			switch x := in.(type) {
			case *ssa.Lookup:
				m, ok := x.X.Type().Underlying().(*types.Map)
				if !ok || m.Key().String() != "uint32" {
					return
				}
				k := t.eval(x.Index, cx).String()
				c.Decide(k == "MSG.PointID", "recorded", "table lookup in "+FnName(cx.f), w.Pos(x.Pos()), "a function is looked up by %s, not by the point of the message", k)
			case *ssa.MapUpdate:
				m := t.eval(x.Map, cx).String()
				g, ok := strings.CutPrefix(m, "MON.")
				if !ok || strings.ContainsAny(g, ".[ ") {
					// a helper which is handed the map: the alternatives
					if !strings.HasPrefix(m, "MON.") {
						return
					}
				}
				for _, g := range strings.Split(m, " | ") {
					g = strings.TrimPrefix(g, "MON.")
					if feeds[g] == nil {
						feeds[g] = map[string]bool{}
					}
					for _, k := range h.keysAt(x.Key, cx, x, cmp) {
						feeds[g][k] = true
					}
				}
				recs = append(recs, runCall2{x, cx})
				h.content(x, cx, f.Name())
			case *ssa.Call:
				if calleeName(x) == "(*sync.Map).Store" && len(x.Call.Args) == 3 && strings.HasPrefix(t.eval(x.Call.Args[0], cx).String(), "MON.") {
					k := t.eval(x.Call.Args[1], cx).String()
					c.Decide(k == "MSG.PointID", "recorded", "reached in "+FnName(cx.f), w.Pos(x.Pos()), "the point recorded as reached is %s", k)
					recs = append(recs, runCall2{x, cx})
				}
			}
		})
		// nothing accepted is dropped
		at := h.drops(recs, h.root, 0)
		c.Decide(at == nil, "recorded", "every message in "+FnName(f), w.Pos(f.Pos()), "a message of a known point may not be recorded, see "+posOr(w, at))
		h.wholeMessage(f)
	}
	// what the recorded maps become
	want := map[string]pointTable{
		"CallerResults":   {"InjectFuncPointReturnStates", "CALLERS"},
		"ProjectPanics":   {"InjectFuncPointPanic", "CALLERS"},
		"ModulePanics":    {"InjectFuncPointPanic", "REACHABLE"},
		"ExtensionFrames": {"EXT", "EXT"},
	}
	check := func(name, table, pos string, exp pointTable) {
		tab, ok := tables["pre"][table]
		if !ok {
			c.Bad("recorded", name, pos, "it is filled from %s", table)
			return
		}
		c.Decide(tab.kind == exp.kind && strings.Contains(tab.of, exp.of), "recorded", name, pos, "it is filled by points of %s in %s", tab.kind, tab.of)
	}
	for i := 0; i < mon.NumMethods(); i++ {
		f := w.Prog.FuncValue(mon.Method(i))
		if f == nil || len(f.Blocks) == 0 || strings.HasPrefix(f.Name(), "HandleFuncPoint") {
			continue
		}
		res := f.Signature.Results()
		t := newTermer(w)
		t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) { return "MON", v == f.Params[0] }
		root := &tctx{f: f}
		for k := 0; k < res.Len(); k++ {
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				v := retVals(rt)[k]
				pos := w.Pos(rt.Pos())
				if n := namedOf(res.At(k).Type()); n != nil && n.Obj().Name() == "TestResult" {
					for x, exp := range want {
						ts := t.eval(v, root, "."+x)
						for s := range ts {
							g, ok := strings.CutPrefix(s, "MON.")
							if !ok {
								delete(ts, s)
								continue
							}
							for tb := range feeds[g] {
								check(x, tb, pos, exp)
							}
							c.Decide(len(feeds[g]) > 0, "recorded", x+" filled", pos, "nothing is recorded in %s", g)
						}
						c.Decide(len(ts) == 1, "recorded", x+" taken over", pos, "it is %s", short(t.eval(v, root, "."+x).String()))
					}
					continue
				}
				if s, ok := res.At(k).Type().Underlying().(*types.Slice); ok && types.TypeString(s.Elem(), nil) == "*string" {
					for s := range t.eval(v, root, "[]") {
						if tb, ok := strings.CutPrefix(s, "MON."); ok {
							check("reached", strings.TrimSuffix(tb, "[]"), pos, pointTable{"InjectFuncPointEntry", "REACHABLE"})
						}
					}
				}
			}
		}
	}
}

type runCall2 struct {
	in ssa.Instruction
	c  *tctx
}

// keysAt: the tables a key can come from at the instruction, given what is known there.
func (h *runsCheck) keysAt(v ssa.Value, c *tctx, at ssa.Instruction, cmp *compareCheck) []string {
	known := cmp.conds(at, c)
	atc := c
	var out []string
	var rec func(v ssa.Value, c *tctx, d int)
	contra := func(in ssa.Instruction, c *tctx) bool {
		for k := range cmp.condsTo(in, c, c, 0) {
			if known[notTerm(k)] {
				return true
			}
		}
		return false
	}
	rec = func(v ssa.Value, c *tctx, d int) {
		if d > 10 {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				if !contra(p.Instrs[len(p.Instrs)-1], c) {
					rec(e, c, d+1)
				}
			}
			return
		case *ssa.Parameter:
			if a, ok := c.args[x]; ok && len(a.pre) == 0 {
				rec(a.v, a.c, d+1)
				return
			}
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			if !ok {
				break
			}
			g := call.Call.StaticCallee()
			if g == nil || !h.w.own(g) || len(g.Blocks) == 0 || h.t.onStack(c, g) > 0 {
				break
			}
			n := h.t.enter(call, g, c)
			for _, b := range g.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				vs := retVals(rt)
				out := false
				for _, ref := range *call.Referrers() { // what is known of the other results
					e, ok := ref.(*ssa.Extract)
					if !ok || e.Index == x.Index || !isBool(e.Type()) {
						continue
					}
					if cst, ok := vs[e.Index].(*ssa.Const); ok && cst.Value != nil {
						if val, known := h.boolAt(e, at, atc); known && val != (cst.Value.String() == "true") {
							out = true
						}
					}
				}
				if !out {
					rec(vs[x.Index], n, d+1)
				}
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := h.w.cellRoot(x.X).(*ssa.Alloc); ok {
					sts := h.w.storesTo(al)
					if len(sts) > 0 {
						for _, st := range sts {
							sc := h.t.ctxOf(c, st.Parent())
							if !contra(st, sc) {
								rec(st.Val, sc, d+1)
							}
						}
						return
					}
				}
			}
		}
		for s := range h.t.eval(v, c) {
			s = strings.TrimSuffix(strings.TrimPrefix(s, "MON."), "[]")
			out = append(out, s)
		}
	}
	rec(v, c, 0)
	return out
}

// content: what is appended comes from the message.
func (h *runsCheck) content(mu *ssa.MapUpdate, cx *tctx, handler string) {
	c, w, t := h.c, h.w, h.t
	pos := w.Pos(mu.Pos())
	sl, ok := mu.Value.Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	old := t.eval(mu.Map, cx, "[]", "[]")
	kept := true
	var with []string
	if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "CallFrame" {
		with = []string{".TimeMillis"}
	}
	now := t.eval(mu.Value, cx, append([]string{"[]"}, with...)...)
	for o := range old {
		kept = kept && now[o+join(with)]
	}
	for s := range now {
		if strings.HasPrefix(s, "MON.") {
			has := false
			for o := range old {
				has = has || s == o+join(with)
			}
			kept = kept && has
		}
	}
	c.Decide(kept, "recorded", "added in "+handler, pos, "what was recorded before is not kept: it becomes %s, was %s", short(now.String()), short(old.String()))
	got := func(path ...string) terms {
		out := t.eval(mu.Value, cx, append([]string{"[]"}, path...)...)
		for s := range out {
			for o := range old {
				if strings.HasPrefix(s, o) {
					delete(out, s)
				}
			}
			if strings.HasPrefix(s, "MON.") || s == "0" {
				delete(out, s)
			}
		}
		return out
	}
	if isString(sl.Elem()) {
		s := got().String()
		c.Decide(s == "MSG.Message", "recorded", "text in "+handler, pos, "the text recorded is %s", short(s))
		return
	}
	if n := namedOf(sl.Elem()); n == nil || n.Obj().Name() != "CallFrame" {
		return
	}
	for _, p := range []struct {
		path []string
		want string
	}{{[]string{".Stack", "[]", ".Function"}, "MSG.Stack[].Function"}, {[]string{".Stack", "[]", ".Line"}, "MSG.Stack[].Line"}, {[]string{".Stack", "[]", ".File"}, "MSG.Stack[].File"}, {[]string{".TimeMillis"}, "MSG.TimeNS"}} {
		ts := got(p.path...)
		ok := len(ts) > 0
		for s := range ts {
			ok = ok && strings.Contains(s, p.want) && strings.Count(s, "MSG.") == strings.Count(s, p.want)
		}
		c.Decide(ok, "recorded", join(p.path)+" in "+handler, pos, "it is %s", short(ts.String()))
	}
}

// wholeMessage: every stack entry and field of a message is taken over.
func (h *runsCheck) wholeMessage(f *ssa.Function) {
	c, w, t := h.c, h.w, h.t
	done := map[string]bool{}
	for _, cx := range h.contexts() {
		for _, what := range []string{"MSG.Stack[]", "MSG.Fields[]"} {
			for _, el := range w.elemLoops(cx.f, func(v ssa.Value) bool { return t.eval(v, cx, "[]").String() == what }) {
				used := false
				for b := range el.l.body {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Store:
							used = true
						case *ssa.MapUpdate:
							used = true
						case *ssa.Call:
							if g := x.Call.StaticCallee(); g != nil && w.own(g) && !strings.Contains(strings.ToLower(g.Name()), "log") {
								used = used || g.Signature.Results().Len() == 0
							}
						}
					}
				}
				name := what + " in " + FnName(cx.f)
				if !used || done[name] {
					continue
				}
				done[name] = true
				bad := w.visitsAllOr(el, nil, true)
				c.Decide(bad == "", "recorded", name, w.Pos(el.cont.Pos()), "the loop over it %s", bad)
			}
		}
	}
}

// drops: a way through the handler on which nothing is recorded although the point is known.
func (h *runsCheck) drops(recs []runCall2, cx *tctx, d int) ssa.Instruction {
	if d > 6 || len(recs) == 0 {
		return nil
	}
	is := func(in ssa.Instruction) bool {
		for _, x := range recs {
			if x.in == in && x.c == cx {
				return true
			}
			for f := x.c; f != nil && f != cx; f = f.up {
				if f.up == cx && f.site == in {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{cx.f.Blocks[0]}
	var inner []*tctx
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit := false
		for _, in := range b.Instrs {
			if is(in) {
				hit = true
				for _, x := range recs {
					for f := x.c; f != nil && f != cx; f = f.up {
						if f.up == cx && f.site == in {
							inner = append(inner, f)
						}
					}
				}
			}
		}
		if hit {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		if rt, ok := last.(*ssa.Return); ok {
			return rt
		}
		iff, _ := last.(*ssa.If)
		for i, s := range b.Succs {
			if iff != nil {
				e := h.t.eval(iff.Cond, cx).String()
				if strings.HasPrefix(e, "has(MON.") && i == 1 || strings.HasPrefix(e, "!has(MON.") && i == 0 || h.unknown(iff.Cond, i == 0, cx) {
					// unknown there; another table may know it
					if !h.leadsTo(s, is) {
						continue
					}
				}
			}
			st = append(st, s)
		}
	}
	for _, f := range inner {
		if at := h.drops(recs, f, d+1); at != nil {
			return at
		}
	}
	return nil
}

// boolOf: the value a condition is made of, through cells stored to once, and whether it is negated.
func (h *runsCheck) boolOf(v ssa.Value) (ssa.Value, bool) {
	neg := false
	for i := 0; i < 8; i++ {
		x, ok := v.(*ssa.UnOp)
		if !ok {
			break
		}
		if x.Op == token.NOT {
			neg = !neg
			v = x.X
			continue
		}
		if x.Op != token.MUL {
			break
		}
		al, ok := h.w.cellRoot(x.X).(*ssa.Alloc)
		if !ok {
			break
		}
		sts := h.w.storesTo(al)
		if len(sts) != 1 {
			break
		}
		v = sts[0].Val
	}
	return v, neg
}

// boolAt: what a boolean is known to be where the instruction runs.
func (h *runsCheck) boolAt(e ssa.Value, at ssa.Instruction, c *tctx) (bool, bool) {
	for at != nil && c != nil {
		for _, b := range c.f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			v, neg := h.boolOf(iff.Cond)
			if v != e {
				continue
			}
			for i := 0; i < 2; i++ {
				if edgeDominates(b, i, at.Block()) {
					return (i == 0) != neg, true
				}
			}
		}
		at = c.site
		if c.up != nil {
			c = c.up
		} else {
			c = c.def
		}
	}
	return false, false
}

// unknown: the branch is taken where a helper found the point in no table.
func (h *runsCheck) unknown(cond ssa.Value, taken bool, cx *tctx) bool {
	v, neg := h.boolOf(cond)
	if neg {
		taken = !taken
	}
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	g := call.Call.StaticCallee()
	if g == nil || !h.w.own(g) || len(g.Blocks) == 0 {
		return false
	}
	n := h.t.enter(call, g, cx)
	any := false
	for _, b := range g.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		cst, ok := retVals(rt)[ex.Index].(*ssa.Const)
		if !ok || cst.Value == nil {
			return false
		}
		if (cst.Value.String() == "true") != taken {
			continue
		}
		missing := false
		for _, p := range g.Blocks {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			e := h.t.eval(iff.Cond, n).String()
			not := strings.HasPrefix(e, "!")
			if !strings.HasPrefix(strings.TrimPrefix(e, "!"), "has(MON.") {
				continue
			}
			for i := 0; i < 2; i++ {
				if edgeDominates(p, i, b) {
					if (i == 0) != not {
						return false
					}
					missing = true
				}
			}
		}
		if !missing {
			return false
		}
		any = true
	}
	return any
}

func (h *runsCheck) leadsTo(b *ssa.BasicBlock, is func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if is(in) {
				return true
			}
		}
		st = append(st, x.Succs...)
	}
	return false
}

// counts: which runs the returned numbers come from.
func (r *runsCheck) counts(done *ssa.Return, runs map[string]map[ssa.Instruction]bool) {
	c, w := r.c, r.w
	var nums []ssa.Value
	for _, v := range retVals(done) {
		if isInt(v.Type()) {
			nums = append(nums, v)
		}
	}
	if len(nums) != 3 {
		return
	}
	from := func(v ssa.Value) (pre, post bool, idx []int) {
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		rec = func(v ssa.Value) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Extract:
				if ci, ok := x.Tuple.(*ssa.Call); ok {
					pre, post = pre || runs["pre"][ci], post || runs["post"][ci]
					idx = append(idx, x.Index)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					rec(e)
				}
			case *ssa.BinOp:
				rec(x.X)
				rec(x.Y)
			case *ssa.UnOp:
				if t := w.throughCell(x); t != v {
					rec(t)
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					for _, a := range x.Call.Args {
						rec(a)
					}
				}
			}
		}
		rec(v)
		return
	}
	pos := w.Pos(done.Pos())
	pre, post, i0 := from(nums[0])
	if len(i0) == 0 {
		c.Ok("counts", "field checks")
		c.Ok("counts", "module changes reached")
		return
	}
	c.Decide(pre && post, "counts", "field checks", pos, "the number of field checks leaves out a run")
	pre, post, i1 := from(nums[1])
	c.Decide(pre && !post, "counts", "module changes reached", pos, "the module changes reached are not those of the run before the update")
	same := false
	for _, a := range i0 {
		for _, b := range i1 {
			same = same || a == b
		}
	}
	c.Decide(!same, "counts", "different figures", pos, "field checks and module changes reached are one figure")
	s := r.t.eval(nums[2], r.root).String()
	c.Decide(strings.Contains(s, "(REACHABLE)#"), "counts", "skipped", pos, "the number of functions skipped is %s", s)
}
