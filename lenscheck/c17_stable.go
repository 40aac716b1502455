package main

import (
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkStable }

// C17: what is kept of two runs on one version is what both agree on.
type stableCheck struct {
	*compareCheck
	agree *ssa.Function // combines the fields of two calls
}

func isResult(ty types.Type) bool {
	n := namedOf(deref(ty))
	return n != nil && n.Obj().Name() == "TestResult"
}

// combines: a function making one T of two.
func combines(f *ssa.Function, is func(ty types.Type) bool) []*ssa.Parameter {
	var ps []*ssa.Parameter
	for _, p := range f.Params {
		if is(p.Type()) {
			ps = append(ps, p)
		}
	}
	if len(ps) != 2 || len(f.Blocks) == 0 || f.Synthetic != "" {
		return nil
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if is(f.Signature.Results().At(i).Type()) {
			return ps
		}
	}
	return nil
}

func checkStable(c *Check) {
	w := c.W
	c.Rule("in-both", "a function, call, panic or field is kept only where the other run has it too, under the same name", 5)
	c.Rule("agreed-value", "a field is kept only where both runs have an equal value, nested fields by the same rule", 2)
	c.Rule("matched-calls", "the calls of two runs are matched by the same key, each call of the second run at most once", 2)
	c.Rule("same-kind", "results are combined with results of the same kind: callers, extensions, project and module panics", 6)
	c.Rule("all-kept", "nothing is dropped for another reason than that the other run lacks it or differs", 3)
	c.Rule("failure", "a test failed when one of its runs did", 1)
	c.Rule("two-runs", "the results combined are those of two runs, each recorded by its own monitor while it was installed", 2)
	c.Rule("single-run", "a single run is kept only where stable fields are known from before the update and no extension point is compared", 1)
	c.Rule("known-fields", "recorded fields are left out only where the stable results of the same test, function and call lack them", 2)
	n := 0
	var roots []*ssa.Function
	for _, f := range w.Fns {
		if !w.own(f) {
			continue
		}
		if ps := combines(f, isResult); ps != nil {
			n++
			r := newStable(c, f, ps)
			r.results(f)
			roots = append(roots, f)
		}
		if ps := combines(f, func(ty types.Type) bool { return isFieldValues(ty) }); ps != nil {
			n++
			r := newStable(c, f, ps)
			r.agree = f
			r.fields(f)
		}
	}
	c.Decide(n >= 2, "in-both", "combination", "-", "no combination of two runs found")
	checkTwoRuns(c, roots)
}

func newStable(c *Check, f *ssa.Function, ps []*ssa.Parameter) *stableCheck {
	r := &stableCheck{compareCheck: &compareCheck{c: c, w: c.W, root: &tctx{f: f}, same: accSites{}, diff: accSites{}}}
	t := newTermer(c.W)
	t.strict = true
	t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
		switch v {
		case ps[0]:
			return "ONE", true
		case ps[1]:
			return "TWO", true
		}
		return "", false
	}
	t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
		com := ci.Common()
		g := com.StaticCallee()
		if g == nil || !c.W.own(g) {
			return "", false
		}
		if combines(g, isFieldValues) != nil {
			s := ""
			for _, a := range com.Args {
				if isFieldValues(a.Type()) {
					s += ", " + r.ev(a, cx)
				}
			}
			return "agree(" + strings.TrimPrefix(s, ", ") + ")", true
		}
		res := g.Signature.Results()
		if res.Len() == 1 && isString(res.At(0).Type()) {
			for _, a := range com.Args {
				if isStack(a.Type()) {
					return localName(g) + "(" + r.ev(a, cx) + ")", true
				}
			}
		}
		return "", false
	}
	r.t = t
	return r
}

// other names the corresponding part of the other run.
func other(s string) string {
	return strings.NewReplacer("ONE", "TWO", "TWO", "ONE").Replace(s)
}

var mapKinds = []string{"CallerResults", "ExtensionFrames", "ProjectPanics", "ModulePanics"}

// base: the one term is this part of one of the runs: ONE.X or TWO.X with the suffix.
func base(s, suffix string) (string, bool) {
	b, ok := strings.CutSuffix(s, suffix)
	return b, ok && b != "" && !strings.ContainsAny(b, "|([{ ")
}

// inOther: the conditions say that the other run has it.
func inOther(conds map[string]bool, b string) bool {
	o := other(b)
	for k := range conds {
		switch {
		case k == "!has("+o+")" || k == "(0 == "+o+"[])":
			return false
		}
	}
	for k := range conds {
		if k == "has("+o+")" || strings.HasPrefix(k, "!(0 == ") && strings.Contains(k, o+"[]") || strings.HasPrefix(k, "(0 < len{") && strings.Contains(k, o+"[]") {
			return true
		}
		if strings.HasPrefix(k, "!(len{"+o+"[]") && strings.Contains(k, "} <= ") || strings.HasPrefix(k, "(") && strings.Contains(k, "< len{"+o+"[]") { // a position inside its list
			return true
		}
		if strings.HasPrefix(k, "(0 < ") && strings.Contains(k, o) {
			return true
		}
	}
	return false
}

func (r *stableCheck) results(f *ssa.Function) {
	c, w, t := r.c, r.w, r.t
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		pos := w.Pos(rt.Pos())
		for i, v := range retVals(rt) {
			if !isResult(f.Signature.Results().At(i).Type()) {
				continue
			}
			for _, k := range mapKinds {
				g := r.ev(v, r.root, "."+k, "{k}")
				c.Decide(g == "ONE."+k+"{k}" || g == "TWO."+k+"{k}", "same-kind", k, pos, "%s of the combination are kept under %s", k, g)
				if strings.HasSuffix(k, "Panics") {
					g = r.ev(v, r.root, "."+k, "[]", "[]")
					c.Decide(g == "ONE."+k+"[][]" || g == "TWO."+k+"[][]", "same-kind", k+" texts", pos, "%s of the combination are %s", k, short(g))
					continue
				}
				g = r.ev(v, r.root, "."+k, "[]", "[]", ".FieldValues")
				fv := "." + k + "[][].FieldValues"
				g = strings.ReplaceAll(g, "[0]", "[]")
				c.Decide(g == "agree(ONE"+fv+", TWO"+fv+")" || g == "agree(TWO"+fv+", ONE"+fv+")", "same-kind", k+" fields", pos, "the fields kept in %s are %s", k, short(g))
				for _, p := range []string{".Stack", ".TimeMillis"} {
					g = r.ev(v, r.root, "."+k, "[]", "[]", p)
					fv := "." + k + "[][]" + p
					c.Decide(g == "ONE"+fv || g == "TWO"+fv, "same-kind", k+" "+p[1:], pos, "%s of a call kept in %s is %s", p[1:], k, short(g))
				}
			}
			g := r.ev(v, r.root, ".TestFailure")
			ok := g == "bool{ONE.TestFailure; TWO.TestFailure}=0111" || g == "bool{TWO.TestFailure; ONE.TestFailure}=0111" || g == "(ONE.TestFailure | TWO.TestFailure)"
			c.Decide(ok, "failure", "TestFailure", pos, "whether the test failed is %s", g)
			g = r.ev(v, r.root, ".TestFunction")
			c.Decide(g == "ONE.TestFunction" || g == "TWO.TestFunction", "same-kind", "TestFunction", pos, "the test is %s", g)
		}
	}
	// what is looked up and kept
	type ev struct {
		in ssa.Instruction
		cx *tctx
	}
	kept := map[string][]ev{} // by the container whose elements are kept
	seen := map[string]bool{}
	once := func(rule, name string, pos string, ok bool, f string, a ...any) {
		if k := rule + name; ok && seen[k] {
			return
		} else {
			seen[k] = true
		}
		c.Decide(ok, rule, name, pos, f, a...)
	}
	frames := map[*tctx]bool{}
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		frames[cx] = true
		pos := w.Pos(in.Pos())
		switch x := in.(type) {
		case *ssa.Lookup:
			if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
				return
			}
			from, by := r.ev(x.X, cx), r.ev(x.Index, cx)
			for _, k := range mapKinds {
				if from != "ONE."+k && from != "TWO."+k {
					continue
				}
				want := other(from) + "{k}"
				once("in-both", "name for "+k, pos, by == want || by == from+"{k}", "%s are looked up under %s", from, by)
				return
			}
			// groups
			group := r.ev(x.X, cx, "{k}")
			if !strings.Contains(group, "ONE") && !strings.Contains(group, "TWO") || !strings.Contains(by, "ONE") && !strings.Contains(by, "TWO") {
				return
			}
			if group == by {
				return
			}
			kind := ""
			for _, k := range mapKinds {
				if strings.Contains(group, "."+k) {
					kind = k
				}
			}
			same := other(group) == by
			for _, g := range strings.Split(group, " | ") {
				same = same || other(g) == by
			}
			once("matched-calls", "key for "+kind, pos, same, "of %s the counterparts are kept by %s but looked up by %s", kind, short(group), short(by))
			if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice || x.CommaOk && strings.HasSuffix(kind, "s") && !strings.HasSuffix(kind, "Panics") {
				r.matchedOnce(x, cx)
			}
		case *ssa.MapUpdate:
			k := r.ev(x.Key, cx)
			if b, ok := base(k, "{k}"); ok && types.Identical(x.Map.Type().Underlying(), r.mapOf(b)) && r.ev(x.Map, cx) != b {
				conds := r.conds(in, cx)
				once("in-both", "kept "+b[strings.Index(b, ".")+1:], pos, inOther(conds, b), "what is kept may not be in the other run (known: %s)", short(strings.Join(sortedKeys(conds), "; ")))
				kept[b] = append(kept[b], ev{in, cx})
			}
		case *ssa.Call:
			if calleeName(x) != "builtin.append" || len(x.Call.Args) < 2 {
				return
			}
			b := ""
			elem := types.Type(nil)
			if sl, ok := x.Type().Underlying().(*types.Slice); ok {
				elem = sl.Elem()
			}
			switch {
			case elem != nil && isString(elem):
				var ok bool
				if b, ok = base(r.ev(x.Call.Args[1], cx, "[]"), "[][]"); !ok {
					return
				}
			case sliceElem(x.Type()) == "CallFrame":
				s := r.ev(x.Call.Args[1], cx, "[]", ".Stack")
				var ok bool
				if b, ok = base(s, "[][].Stack"); !ok {
					return
				}
			default:
				return
			}
			conds := r.conds(in, cx)
			ok := inOther(conds, b+"[]") || r.countedIn(in, cx, other(b))
			name := b[strings.Index(b, ".")+1:] + " entry"
			once("in-both", "kept "+name, pos, ok, "what is kept may not be in the other run (known: %s)", short(strings.Join(sortedKeys(conds), "; ")))
			kept[b+"[]"] = append(kept[b+"[]"], ev{in, cx})
			if isString(elem) {
				r.panicUsed(x, cx, b, name)
			}
		}
	})
	// nothing else is dropped
	for _, b := range sortedKeysOf(kept) {
		done := false
		for cx := range frames {
			for _, el := range w.elemLoops(cx.f, func(v ssa.Value) bool { return r.ev(v, cx) == b }) {
				is := func(in ssa.Instruction) bool {
					for _, e := range kept[b] {
						if e.in == in && e.cx == cx {
							return true
						}
						if e.cx == cx && el.l.body[e.in.Block()] { // a loop that keeps them one by one
							for _, q := range w.loops(cx.f) {
								if q != el.l && q.header == in.Block() && el.l.body[q.header] && q.body[e.in.Block()] {
									return true
								}
							}
						}
						if ci, ok := in.(ssa.CallInstruction); ok && under(runCall{siteOf(e.in), e.cx}, ci, cx) {
							return true
						}
					}
					return false
				}
				has := false
				for blk := range el.l.body {
					for _, in := range blk.Instrs {
						has = has || is(in)
					}
				}
				if !has {
					continue
				}
				done = true
				name := b[strings.Index(b, ".")+1:]
				pos := w.Pos(kept[b][0].in.Pos())
				bad := w.visitsAllOr(el, nil, true)
				once("all-kept", "visits "+name, pos, bad == "", "the loop over %s %s", b, bad)
				miss := r.drops(el.l, cx, func(blk *ssa.BasicBlock, i int) bool { return r.lacks(blk, i, el.l, is, cx, b) }, is)
				once("all-kept", "keeps "+name, pos, !miss, "a round of the loop over %s can end without keeping it although the other run was not asked", b)
			}
		}
		once("all-kept", "loop over "+b, w.Pos(kept[b][0].in.Pos()), done, "no loop over all of %s found", b)
	}
}

// countedIn: a count kept for the entries of the other run is not used up where the instruction runs.
func (r *stableCheck) countedIn(in ssa.Instruction, cx *tctx, o string) bool {
	for d := in.Block().Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		lk, ok := bo.X.(*ssa.Lookup)
		k, isK := constInt(bo.Y)
		if !ok || !isK || !strings.Contains(r.ev(lk.X, cx, "{k}"), o) {
			continue
		}
		for i := range d.Succs {
			if !edgeDominates(d, i, in.Block()) {
				continue
			}
			yes := i == 0
			switch {
			case bo.Op == token.GTR && k == 0 && yes, bo.Op == token.GEQ && k == 1 && yes, bo.Op == token.NEQ && k == 0 && yes,
				bo.Op == token.EQL && k == 0 && !yes, bo.Op == token.LEQ && k == 0 && !yes, bo.Op == token.LSS && k == 1 && !yes:
				return true
			}
		}
	}
	return false
}

// mapOf: the type of the results named.
func (r *stableCheck) mapOf(b string) types.Type {
	_, f, ok := strings.Cut(b, ".")
	if !ok || strings.Contains(f, ".") {
		return types.Typ[types.Invalid]
	}
	for _, p := range r.root.f.Params {
		if st, ok := deref(p.Type()).Underlying().(*types.Struct); ok {
			for i := range st.NumFields() {
				if st.Field(i).Name() == f {
					return st.Field(i).Type().Underlying()
				}
			}
		}
	}
	return types.Typ[types.Invalid]
}

func siteOf(in ssa.Instruction) ssa.CallInstruction {
	ci, _ := in.(ssa.CallInstruction)
	return ci
}

func sortedKeysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

// drops: a round of the loop can end without the event; branches that contradict one another are not taken together.
func (r *stableCheck) drops(l *loop, cx *tctx, excused func(b *ssa.BasicBlock, i int) bool, is func(in ssa.Instruction) bool) bool {
	fact := func(b *ssa.BasicBlock, i int) (string, bool) {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return "", false
		}
		ts := r.t.eval(iff.Cond, cx)
		if len(ts) != 1 {
			return "", false
		}
		s := ts.list()[0]
		truth := i == 0
		if q, ok := strings.CutPrefix(s, "!"); ok {
			s, truth = q, !truth
		}
		if q, ok := strings.CutPrefix(s, "(0 < len{"); ok {
			s, truth = "(0 == len{"+q, !truth
		}
		if strings.Contains(s, "~") {
			return "", false
		}
		return s, truth
	}
	n := 0
	var walk func(b *ssa.BasicBlock, known map[string]bool, on map[*ssa.BasicBlock]bool) bool
	walk = func(b *ssa.BasicBlock, known map[string]bool, on map[*ssa.BasicBlock]bool) bool {
		if b == l.header {
			return true
		}
		n++
		if !l.body[b] || on[b] || failsOnly(b) || n > 20000 {
			return n > 20000
		}
		for _, in := range b.Instrs {
			if is(in) {
				return false
			}
		}
		on[b] = true
		defer delete(on, b)
		for i, s := range b.Succs {
			if excused(b, i) {
				continue
			}
			k, truth := fact(b, i)
			if k == "" {
				if walk(s, known, on) {
					return true
				}
				continue
			}
			was, have := known[k]
			if have && was != truth {
				continue
			}
			known[k] = truth
			if walk(s, known, on) {
				return true
			}
			if !have {
				delete(known, k)
			}
		}
		return false
	}
	return walk(nextBlock(l), map[string]bool{}, map[*ssa.BasicBlock]bool{})
}

// lacks: the branch asks for the part of the other run, and leads past the keeping.
func (r *stableCheck) lacks(b *ssa.BasicBlock, i int, l *loop, is func(in ssa.Instruction) bool, cx *tctx, part string) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	o := "ONE"
	if strings.HasPrefix(part, "ONE") {
		o = "TWO"
	}
	presence := false
	for s := range r.t.eval(iff.Cond, cx) {
		if strings.Contains(s, o) && (strings.Contains(s, "has(") || strings.Contains(s, "len{") && !strings.HasPrefix(strings.TrimPrefix(s, "!"), "(0 ")) {
			presence = true
		}
	}
	if presence {
		seen := map[*ssa.BasicBlock]bool{l.header: true}
		st := []*ssa.BasicBlock{b.Succs[i]}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] || !l.body[x] {
				continue
			}
			seen[x] = true
			for _, in := range x.Instrs {
				if is(in) {
					return false
				}
			}
			st = append(st, x.Succs...)
		}
		return true
	}
	for s := range r.t.eval(iff.Cond, cx) {
		if strings.Contains(s, o) {
			return true
		}
	}
	// a call which was asked about the other run
	var ask func(v ssa.Value, d int) bool
	ask = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			return ask(x.X, d)
		case *ssa.BinOp:
			return ask(x.X, d) || ask(x.Y, d)
		case *ssa.Extract:
			return ask(x.Tuple, d)
		case *ssa.Lookup:
			return strings.Contains(r.ev(x.X, cx, "{k}"), o)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if strings.Contains(r.ev(a, cx), o) || d < 5 && ask(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	return ask(iff.Cond, 0)
}

// matchedOnce is usedOnce for the calls of the second run.
func (r *stableCheck) matchedOnce(lk *ssa.Lookup, cx *tctx) {
	r.usedOnceAs(lk, cx, "matched-calls")
}

// panicUsed: a panic of the other run answers for one panic only.
func (r *stableCheck) panicUsed(app *ssa.Call, cx *tctx, b, name string) {
	w := r.w
	o := other(b)
	l := w.innermost(cx.f, app.Block())
	if l == nil {
		return
	}
	for blk := range l.body {
		for _, in := range blk.Instrs {
			lk, ok := in.(*ssa.Lookup)
			if !ok || lk.CommaOk || !isInt(lk.Type()) || !strings.Contains(r.ev(lk.X, cx, "{k}"), o) {
				continue
			}
			used := !r.misses(app.Block(), l, nil, func(in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || w.canon(mu.Map) != w.canon(lk.X) || w.canon(mu.Key) != w.canon(lk.Index) {
					return false
				}
				bo, ok := mu.Value.(*ssa.BinOp)
				return ok && (bo.Op == token.SUB || bo.Op == token.ADD)
			})
			r.c.Decide(used, "in-both", name+" once", w.Pos(app.Pos()), "a panic of the other run answers for any number of panics with its text")
			return
		}
	}
}

// eachMade: the objects a pointer can lead to, with the place they are made at, in helpers too.
func (r *stableCheck) eachMade(v ssa.Value, at ssa.Instruction, cx *tctx, d int, visit func(v ssa.Value, at ssa.Instruction, cx *tctx)) {
	rc := &runsCheck{w: r.w, t: r.t}
	rc.eachValue(v, at, nil, map[ssa.Value]bool{}, func(v ssa.Value, at ssa.Instruction, _ map[*ssa.BasicBlock]int) {
		if isNilConst(v) {
			return
		}
		call, idx := resultOf(v)
		if call != nil && d < 4 {
			g := call.Call.StaticCallee()
			if g != nil && r.w.own(g) && len(g.Blocks) > 0 && r.t.onStack(cx, g) == 0 {
				n := r.t.enter(call, g, cx)
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(retVals(rt)) {
						r.eachMade(retVals(rt)[idx], rt, n, d+1, visit)
					}
				}
				return
			}
		}
		if al, ok := v.(*ssa.Alloc); ok && al.Parent() == at.Parent() && al.Block() != at.Block() && !al.Block().Dominates(at.Block()) {
			at = al
		}
		visit(v, at, cx)
	})
}

// fields: the combination of the fields of two calls.
func (r *stableCheck) fields(f *ssa.Function) {
	c, w, t := r.c, r.w, r.t
	n := 0
	type ev struct {
		in ssa.Instruction
		cx *tctx
	}
	var kept []ev
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		pos := w.Pos(in.Pos())
		switch x := in.(type) {
		case *ssa.Lookup:
			from, by := r.ev(x.X, cx), r.ev(x.Index, cx)
			if from == "ONE" || from == "TWO" {
				c.Decide(by == other(from)+"{k}" || by == from+"{k}", "in-both", "name of a field in "+FnName(f), pos, "the field of %s is looked up under %s", from, by)
			}
		case *ssa.MapUpdate:
			if !isFieldValues(x.Map.Type()) {
				return
			}
			n++
			name := FnName(f)
			kept = append(kept, ev{in, cx})
			key := r.ev(x.Key, cx)
			c.Decide(key == "ONE{k}" || key == "TWO{k}", "in-both", "field kept in "+name, pos, "a field is kept under %s", key)
			b := strings.TrimSuffix(key, "{k}")
			conds := r.conds(in, cx)
			known := short(strings.Join(sortedKeys(conds), "; "))
			c.Decide(inOther(conds, b), "in-both", "field kept in "+name+" there", pos, "the field may be missing in the other run (known: %s)", known)
			r.eachMade(x.Value, in, cx, 0, func(v ssa.Value, at ssa.Instruction, cx *tctx) {
				conds := r.conds(at, cx)
				known := short(strings.Join(sortedKeys(conds), "; "))
				val, nested := t.eval(v, cx, ".Value"), r.ev(v, cx, ".Children")
				delete(val, "0")
				delete(val, `""`)
				eq := conds["(ONE[].Value == TWO[].Value)"] || conds["(*ONE[].Value == *TWO[].Value)"]
				if len(val) > 0 {
					g := val.String()
					c.Decide(eq && (g == "ONE[].Value" || g == "TWO[].Value" || g == "ONE[].Value | TWO[].Value"), "agreed-value", "value in "+name, pos, "the value %s is kept where the values were not found equal (known: %s)", g, known)
				}
				if nested != "" && nested != "0" {
					ok := nested == "agree(ONE[].Children, TWO[].Children)" || nested == "agree(TWO[].Children, ONE[].Children)"
					if !ok && (nested == "ONE[].Children" || nested == "TWO[].Children") { // there are none
						for k := range conds {
							ok = ok || strings.HasPrefix(k, "(0 == len{"+nested) || strings.HasPrefix(k, "!(0 < len{"+nested)
						}
					}
					c.Decide(ok, "agreed-value", "nested fields in "+name, pos, "the nested fields kept are %s", short(nested))
				}
				if len(val) == 0 && (nested == "" || nested == "0") {
					c.Bad("agreed-value", "value in "+name, pos, "the field is kept without its value")
				}
			})
		}
	})
	c.Decide(n > 0, "agreed-value", "fields in "+FnName(f), w.Pos(f.Pos()), "no field is kept")
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		if in.Block().Index != 0 || in != in.Block().Instrs[0] {
			return
		}
		for _, el := range w.elemLoops(cx.f, func(v ssa.Value) bool { g := r.ev(v, cx); return g == "ONE" || g == "TWO" }) {
			is := func(in ssa.Instruction) bool {
				for _, e := range kept {
					if e.in == in && e.cx == cx {
						return true
					}
				}
				return false
			}
			b := r.ev(el.cont, cx)
			bad := w.visitsAllOr(el, nil, true)
			pos := w.Pos(el.cont.Pos())
			c.Decide(bad == "", "all-kept", "visits fields in "+FnName(f), pos, "the loop over the fields %s", bad)
			miss := r.drops(el.l, cx, func(blk *ssa.BasicBlock, i int) bool { return r.lacks(blk, i, el.l, is, cx, b) }, is)
			c.Decide(!miss, "all-kept", "keeps fields in "+FnName(f), pos, "a field can be dropped although the other run was not asked")
		}
	})
}

// ---------- the runs ----------

type monitorTypes struct {
	mon    *types.Named // what records a run
	stable *types.Named // what is known to be stable, nil when there is none
}

func isFrames(ty types.Type) bool {
	m, ok := ty.Underlying().(*types.Map)
	return ok && sliceElem(m.Elem()) == "CallFrame"
}

func findMonitor(w *World) *monitorTypes {
	for _, f := range w.Fns {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !isResult(f.Signature.Results().At(0).Type()) {
			continue
		}
		n := namedOf(deref(f.Signature.Recv().Type()))
		if n == nil || isResult(n) {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		m := &monitorTypes{mon: n}
		frames := 0
		for i := range st.NumFields() {
			ft := st.Field(i).Type()
			if isFrames(ft) {
				frames++
			}
			if fn := namedOf(deref(ft)); fn != nil {
				if fs, ok := fn.Underlying().(*types.Struct); ok {
					for j := range fs.NumFields() {
						if isFrames(fs.Field(j).Type()) {
							m.stable = fn
						}
					}
				}
			}
		}
		if frames > 0 {
			return m
		}
	}
	return nil
}

func is(ty types.Type, n *types.Named) bool {
	m := namedOf(deref(ty))
	return m != nil && n != nil && m.Obj() == n.Obj()
}

// sitesOf names a call by the calls that lead to it.
func sitesOf(w *World, ci ssa.Instruction, cx *tctx) string {
	s := w.Pos(ci.Pos())
	for c := cx; c != nil && c.site != nil && c.up != nil; c = c.up {
		s += "<" + w.Pos(c.site.Pos())
	}
	return s
}

func checkTwoRuns(c *Check, combine []*ssa.Function) {
	w := c.W
	m := findMonitor(w)
	if m == nil {
		c.Bad("two-runs", "monitor", "-", "nothing that records a run found")
		return
	}
	for _, f := range w.Fns {
		if f.Name() == "RunModuleUpdateAnalysis" && f.Signature.Recv() == nil && len(f.Blocks) > 0 {
			runPairs(c, f, m, combine)
		}
	}
	knownFields(c, m)
}

func runPairs(c *Check, f *ssa.Function, m *monitorTypes, combine []*ssa.Function) {
	w := c.W
	r := &runsCheck{c: c, w: w, root: &tctx{f: f}}
	r.t = r.termer(f)
	cc := &compareCheck{c: c, w: w, t: r.t, root: r.root}
	leafVal, leafCall := r.t.leafVal, r.t.leafCall
	r.t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
		if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr && is(v.Type(), m.stable) && !isConst(v) {
			if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
				return "STABLE", true
			}
		}
		return leafVal(v, cx)
	}
	combines := func(ci ssa.CallInstruction) bool {
		g := ci.Common().StaticCallee()
		return g != nil && slices.Contains(combine, g)
	}
	r.t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
		if combines(ci) {
			return "COMBINED", true
		}
		com := ci.Common()
		if g := com.StaticCallee(); g != nil && w.own(g) && g.Signature.Results().Len() == 1 {
			res := g.Signature.Results().At(0).Type()
			if is(res, m.mon) && len(g.Blocks) > 0 {
				return "monitor@" + sitesOf(w, ci, cx), true
			}
			if isResult(res) {
				for _, a := range com.Args {
					if is(a.Type(), m.mon) {
						return "result(" + cc.ev(a, cx) + ")", true
					}
				}
			}
		}
		return leafCall(ci, cx)
	}
	var all []rframe
	r.walk(r.root, 0, map[*tctx]bool{}, func(in ssa.Instruction, cx *tctx) { all = append(all, rframe{in, cx}) })
	r.all = all
	named := func(ci ssa.CallInstruction, names ...string) bool {
		com := ci.Common()
		n := ""
		if com.IsInvoke() {
			n = com.Method.Name()
		} else if g := com.StaticCallee(); g != nil {
			n = g.Name()
		}
		return slices.Contains(names, n)
	}
	type at struct {
		ci  ssa.CallInstruction
		c   *tctx
		mon string
	}
	var results, sets, execs, both []at
	for _, x := range all {
		ci, ok := x.in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		com := ci.Common()
		switch {
		case combines(ci):
			both = append(both, at{ci, x.c, ""})
		case named(ci, "SetPointHandler"):
			for _, a := range com.Args {
				if s := cc.ev(a, x.c); strings.HasPrefix(s, "monitor@") {
					sets = append(sets, at{ci, x.c, s})
				}
			}
		case named(ci, "ExecGoTest"):
			execs = append(execs, at{ci, x.c, ""})
		default:
			if g := com.StaticCallee(); g != nil && w.own(g) && g.Signature.Results().Len() == 1 && isResult(g.Signature.Results().At(0).Type()) {
				for _, a := range com.Args {
					if is(a.Type(), m.mon) {
						results = append(results, at{ci, x.c, cc.ev(a, x.c)})
					}
				}
			}
		}
	}
	seen := map[string]bool{}
	decide := func(ok bool, rule, name, pos, f string, a ...any) {
		if ok && seen[rule+name] {
			return
		}
		seen[rule+name] = true
		c.Decide(ok, rule, name, pos, f, a...)
	}
	for _, b := range both {
		var args []string
		for _, a := range b.ci.Common().Args {
			if isResult(a.Type()) {
				args = append(args, cc.ev(a, b.c))
			}
		}
		ok := len(args) == 2 && args[0] != args[1]
		for _, a := range args {
			ok = ok && strings.HasPrefix(a, "result(monitor@") && !strings.Contains(a, " | ")
		}
		decide(ok, "two-runs", "combined in "+FnName(b.c.f), w.Pos(b.ci.Pos()), "what is combined is not the results of two monitors: %s", short(strings.Join(args, ", ")))
	}
	before := func(a, b at) bool { return alwaysBefore(a.ci, a.c, b.ci, b.c) }
	for _, x := range results {
		if !strings.HasPrefix(x.mon, "monitor@") || strings.Contains(x.mon, " | ") {
			continue
		}
		ok := false
		for _, s := range sets {
			if s.mon != x.mon || !before(s, x) {
				continue
			}
			for _, e := range execs {
				if !before(s, e) || !before(e, x) {
					continue
				}
				// nothing else is installed in between
				other := false
				for _, o := range sets {
					other = other || o.mon != x.mon && before(s, o) && before(o, e)
				}
				ok = ok || !other
			}
		}
		decide(ok, "two-runs", "result in "+FnName(x.c.f), w.Pos(x.ci.Pos()), "the result is not that of a test run during which its monitor was installed")
	}
	// a single run
	for _, x := range all {
		rt, ok := x.in.(*ssa.Return)
		if !ok {
			continue
		}
		pos := -1
		for i := range rt.Parent().Signature.Results().Len() {
			if isResult(rt.Parent().Signature.Results().At(i).Type()) {
				pos = i
			}
		}
		if pos < 0 || pos >= len(retVals(rt)) {
			continue
		}
		decides := false
		for _, b := range both {
			for cx := b.c; cx != nil; cx = cx.up {
				decides = decides || cx == x.c
			}
		}
		if !decides {
			continue
		}
		top := r.topSite(x.in, x.c)
		known, exts := false, map[string]bool{}
		for _, y := range all {
			ci, ok := y.in.(ssa.CallInstruction)
			if !ok || r.topSite(y.in, y.c) != top {
				continue
			}
			com := ci.Common()
			if com.IsInvoke() && com.Method.Name() == "LoadState" && !implementsStorage(y.c.f) {
				known = known || cc.ev(com.Value, y.c) != ""
			}
			if com.StaticCallee() == nil && !com.IsInvoke() {
				for _, s := range r.t.eval(com.Value, y.c).list() {
					if strings.HasPrefix(s, "EXT") {
						exts[s] = true
					}
				}
			}
		}
		if !known {
			continue // nothing is known in this run: the single run cannot be taken
		}
		r.eachValue(retVals(rt)[pos], rt, nil, map[ssa.Value]bool{}, func(v ssa.Value, in ssa.Instruction, edge map[*ssa.BasicBlock]int) {
			s := cc.ev(v, x.c)
			if !strings.Contains(s, "result(") {
				return
			}
			conds := cc.conds(in, x.c)
			for b, i := range edge {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				if ts := r.t.eval(iff.Cond, x.c); len(ts) == 1 {
					s := ts.list()[0]
					if i == 1 {
						s = notTerm(s)
					}
					spread(s, conds)
				}
			}
			ok := conds["!(0 == STABLE)"]
			miss := ""
			for e := range exts {
				if !conds["(0 == "+e+")"] {
					miss = e
				}
			}
			decide(ok && miss == "", "single-run", "single run in "+FnName(x.c.f), w.Pos(rt.Pos()), "one run is enough here although %s (known: %s)", map[bool]string{true: "extension points were placed", false: "the stable fields are not known"}[ok], short(strings.Join(sortedKeys(conds), "; ")))
		})
	}
	// what is known to be stable
	for _, x := range all {
		al, ok := x.in.(*ssa.Alloc)
		if !ok || !is(al.Type(), m.stable) {
			continue
		}
		if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); !isStruct {
			continue
		}
		st := m.stable.Underlying().(*types.Struct)
		kinds := recordedKinds(w, m)
		for i := range st.NumFields() {
			fn := st.Field(i).Name()
			want := kinds[fn]
			if want == "" {
				continue // not used
			}
			g := r.t.placed(al, x.c, []string{"." + fn}, nil)
			delete(g, "0")
			s := g.String()
			decide(strings.HasSuffix(s, "."+want), "known-fields", "stable "+fn, w.Pos(al.Pos()), "the stable fields of what is recorded as %s are taken from %s", want, short(s))
		}
	}
}

// eachValue: the values a returned value can be, with the place and branch they are chosen at.
func (r *runsCheck) eachValue(v ssa.Value, at ssa.Instruction, edge map[*ssa.BasicBlock]int, seen map[ssa.Value]bool, visit func(v ssa.Value, at ssa.Instruction, edge map[*ssa.BasicBlock]int)) {
	ph, ok := v.(*ssa.Phi)
	if ok && !seen[v] {
		seen[v] = true
		for i, e := range ph.Edges {
			p := ph.Block().Preds[i]
			ed := map[*ssa.BasicBlock]int{}
			for k, s := range p.Succs {
				if s == ph.Block() {
					ed[p] = k
				}
			}
			r.eachValue(e, p.Instrs[len(p.Instrs)-1], ed, seen, visit)
		}
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok && !seen[v] {
			seen[v] = true
			st := r.w.storesTo(al)
			if len(st) > 1 {
				for _, s := range st {
					r.eachValue(s.Val, s, nil, seen, visit)
				}
				return
			}
		}
	}
	visit(v, at, edge)
}

// alwaysBefore: whenever b runs, a has run before it.
func alwaysBefore(a ssa.Instruction, ca *tctx, b ssa.Instruction, cb *tctx) bool {
	type step struct {
		in ssa.Instruction
		c  *tctx
	}
	chain := func(in ssa.Instruction, c *tctx) []step {
		out := []step{{in, c}}
		for c != nil && c.site != nil && c.up != nil {
			in, c = c.site, c.up
			out = append(out, step{in, c})
		}
		return out
	}
	for _, x := range chain(a, ca) {
		for _, y := range chain(b, cb) {
			if x.c != y.c || x.in == y.in {
				continue
			}
			if x.in.Block() == y.in.Block() {
				return slices.Index(x.in.Block().Instrs, x.in) < slices.Index(y.in.Block().Instrs, y.in)
			}
			return x.in.Block().Dominates(y.in.Block())
		}
	}
	return false
}

// recordedKinds: for the fields of the stable results which decide on what is recorded, the part of the test result the
// recorded calls become.
func recordedKinds(w *World, m *monitorTypes) map[string]string {
	out := map[string]string{}
	t := monTermer(w, m)
	become := map[string]string{} // monitor field -> part of the result
	for _, f := range w.Fns {
		if f.Signature.Recv() == nil || !is(f.Signature.Recv().Type(), m.mon) || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		if f.Signature.Results().Len() == 1 && isResult(f.Signature.Results().At(0).Type()) {
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, k := range mapKinds {
					for s := range t.eval(retVals(rt)[0], &tctx{f: f}, "."+k) {
						if n, ok := strings.CutPrefix(s, "MON."); ok {
							become[n] = k
						}
					}
				}
			}
		}
	}
	for _, f := range w.Fns {
		if f.Signature.Recv() == nil || !is(f.Signature.Recv().Type(), m.mon) || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		mons, stab := map[*tctx]map[string]bool{}, map[*tctx]map[string]bool{}
		note := func(s map[*tctx]map[string]bool, c *tctx, k string) {
			if s[c] == nil {
				s[c] = map[string]bool{}
			}
			s[c][k] = true
		}
		t.eachFrame(&tctx{f: f}, func(in ssa.Instruction, cx *tctx) {
			lk, ok := in.(*ssa.Lookup)
			if !ok || !isFrames(lk.X.Type()) {
				return
			}
			for s := range t.eval(lk.X, cx) {
				if n, ok := strings.CutPrefix(s, "MON."); ok {
					if become[n] != "" {
						note(mons, cx, n)
					} else if i := strings.LastIndex(n, "."); i > 0 {
						note(stab, cx, n[i+1:])
					}
				}
			}
		})
		for cx, ss := range stab {
			for s := range ss {
				for n := range mons[cx] {
					if out[s] != "" && out[s] != become[n] {
						out[s] += " and " + become[n]
					} else {
						out[s] = become[n]
					}
				}
			}
		}
	}
	return out
}

func monTermer(w *World, m *monitorTypes) *termer {
	t := newTermer(w)
	t.strict = true
	t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
		if p, ok := v.(*ssa.Parameter); ok && is(p.Type(), m.mon) {
			return "MON", true
		}
		return "", false
	}
	return t
}

var monStack = regexp.MustCompile(`MON\.[\w.]+\[\]\[\]\.Stack`)

// knownFields: where recorded fields are left out.
func knownFields(c *Check, m *monitorTypes) {
	w := c.W
	t := monTermer(w, m)
	t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
		com := ci.Common()
		if g := com.StaticCallee(); g != nil && w.own(g) && g.Signature.Results().Len() == 1 && isString(g.Signature.Results().At(0).Type()) {
			for _, a := range com.Args {
				if isStack(a.Type()) {
					return localName(g) + "(" + t.eval(a, cx).String() + ")", true
				}
			}
		}
		return "", false
	}
	cc := &compareCheck{c: c, w: w, t: t}
	kinds := recordedKinds(w, m)
	isStable := func(s string) bool { // a part of the stable results which decides
		n, ok := strings.CutPrefix(s, "MON.")
		i := strings.LastIndex(n, ".")
		return ok && i > 0 && kinds[n[i+1:]] != ""
	}
	seen := map[string]int{}
	name := func(s string) string {
		seen[s]++
		if n := seen[s]; n > 1 {
			s += " (" + strconv.Itoa(n) + ")"
		}
		return s
	}
	for _, f := range w.Fns {
		if f.Signature.Recv() == nil || !is(f.Signature.Recv().Type(), m.mon) || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		done := map[ssa.Instruction]bool{}
		t.eachFrame(&tctx{f: f}, func(in ssa.Instruction, cx *tctx) {
			if done[in] {
				return
			}
			pos := w.Pos(in.Pos())
			switch x := in.(type) {
			case *ssa.BinOp: // calls are told apart by the same key on both sides
				if x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
					return
				}
				a, b := t.eval(x.X, cx).String(), t.eval(x.Y, cx).String()
				loc := monStack.FindStringIndex(a)
				if loc == nil {
					a, b = b, a
					loc = monStack.FindStringIndex(a)
				}
				if loc == nil || strings.Contains(a, " | ") {
					return
				}
				i, j := loc[0], loc[1]
				done[in] = true
				same := strings.HasPrefix(b, a[:i]) && !strings.HasPrefix(b[i:], "bulk.") && strings.HasSuffix(b, a[j:])
				c.Decide(same, "known-fields", name("key in "+FnName(cx.f)), pos, "recorded calls are compared by different keys: %s and %s", short(a), short(b))
			case *ssa.Lookup:
				s := cc.ev(x.X, cx)
				if !isFieldValues(x.X.Type()) || !strings.HasSuffix(s, "[][].FieldValues") || !isStable(strings.TrimSuffix(s, "[][].FieldValues")) {
					return
				}
				done[in] = true
				// which of the calls with the key it is depends on how many were recorded
				dep := reachesValue(w, x.X, func(v ssa.Value) bool {
					lk, ok := v.(*ssa.Lookup)
					if !ok || !isFrames(lk.X.Type()) {
						return false
					}
					for _, c2 := range []*tctx{cx, {f: lk.Parent()}} {
						for s := range t.eval(lk.X, c2) {
							if strings.HasPrefix(s, "MON.") && !isStable(s) {
								return true
							}
						}
					}
					return false
				})
				c.Decide(dep, "known-fields", name("call in "+FnName(cx.f)), pos, "which of the calls with the same stack it is does not depend on how many were recorded before")
			case *ssa.Call:
				if n := calleeName(x); n != "builtin.delete" && n != "builtin.clear" || !isFieldValues(x.Call.Args[0].Type()) {
					return
				}
				done[in] = true
				conds := cc.conds(in, cx)
				lacks, has := false, false
				for k := range conds {
					if q, ok := strings.CutPrefix(k, "!has("); ok {
						q = strings.TrimSuffix(q, ")")
						lacks = lacks || isStable(strings.TrimSuffix(q, "[][].FieldValues"))
					}
					if q, ok := strings.CutPrefix(k, "has("); ok {
						q = strings.TrimSuffix(q, ")")
						has = has || isStable(q)
						if isStable(strings.TrimSuffix(q, "[][].FieldValues")) && strings.HasSuffix(q, "[][].FieldValues") {
							c.Bad("known-fields", name("left out in "+FnName(cx.f)), pos, "a field is left out where it is known to be stable")
							return
						}
					}
				}
				if has && !lacks { // no call with the key: after a search through them
					for _, b := range cx.f.Blocks {
						for _, l := range w.loops(cx.f) {
							if l.header == b && b.Dominates(in.Block()) && !l.body[in.Block()] {
								for _, el := range w.elemLoops(cx.f, func(v ssa.Value) bool {
									return isStable(strings.TrimSuffix(cc.ev(v, cx), "[]"))
								}) {
									lacks = lacks || el.l == l
								}
							}
						}
					}
				}
				if !lacks {
					// the search may be done by a function whose result is asked for
					for b := in.Block(); b != nil && !lacks; b = b.Idom() {
						if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
							lacks = reachesValue(w, iff.Cond, func(v ssa.Value) bool {
								lk, ok := v.(*ssa.Lookup)
								if !ok {
									return false
								}
								for _, c2 := range []*tctx{cx, {f: lk.Parent()}} {
									if s := cc.ev(lk.X, c2); isStable(s) || isStable(strings.TrimSuffix(s, "[][].FieldValues")) {
										return true
									}
								}
								return false
							})
						}
					}
				}
				c.Decide(lacks, "known-fields", name("left out in "+FnName(cx.f)), pos, "a recorded field is left out where the stable results were not found to lack it (known: %s)", short(strings.Join(sortedKeys(conds), "; ")))
			}
		})
	}
}

// reachesValue: the value depends, through data or through the branches that choose it, on one with the property.
func reachesValue(w *World, v ssa.Value, is func(v ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	fromBlock := func(b *ssa.BasicBlock, l *loop) bool {
		for ; b != nil; b = b.Idom() {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (l == nil || l.body[b]) && from(iff.Cond) {
				return true
			}
		}
		return false
	}
	from = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if is(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				if from(e) {
					return true
				}
				if fromBlock(p, w.innermost(p.Parent(), p)) {
					return true
				}
			}
			return false
		case *ssa.UnOp:
			if al, ok := w.cellRoot(x.X).(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, s := range w.storesTo(al) {
					if from(s.Val) || fromBlock(s.Block(), w.innermost(s.Parent(), s.Block())) {
						return true
					}
				}
			}
		case *ssa.Call:
			for _, g := range w.Callees(x) {
				if !w.own(g) {
					continue
				}
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, q := range rt.Results {
							if from(q) {
								return true
							}
						}
						if fromBlock(b, nil) {
							return true
						}
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil && from(*o) {
					return true
				}
			}
		}
		return false
	}
	return from(v)
}
