package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkCompare }

type compareCheck struct {
	c     *Check
	w     *World
	t     *termer
	root  *tctx
	same  accSites // increments which end up in the count of equal values
	diff  accSites
	loops []*kindLoop
	evMem map[*ssa.Function]map[string]bool
}

const (
	cPre       = "decode(load(PRE)#0)"
	cPost      = "decode(load(POST)#0)"
	cPreFrame  = cPre + ".CallerResults[][]"
	cPostFrame = cPost + ".CallerResults[][]"
	cPreFlat   = "flat(" + cPreFrame + ".FieldValues)"
	cPostFlat  = "flat(" + cPostFrame + ".FieldValues)"
)

// a loop over one of the things to be compared, in the frame it runs in
type kindLoop struct {
	kind string
	el   elemLoop
	c    *tctx
}

// an addition to a counter
type accSite struct {
	in   *ssa.BinOp
	kind string // one, len, sum
	val  ssa.Value
	vc   *tctx // the frame of val
	c    *tctx
}

type accSites map[ssa.Instruction][]*accSite

// at: the addition made by the instruction in the frame.
func (m accSites) at(in ssa.Instruction, c *tctx) *accSite {
	ss := m[in]
	for _, s := range ss {
		if s.c == c {
			return s
		}
	}
	for _, s := range ss {
		if s.c == nil || s.c.site == nil {
			return s
		}
	}
	if len(ss) > 0 {
		return ss[0]
	}
	return nil
}

func isFieldValues(ty types.Type) bool {
	n := namedOf(deref(ty))
	return n != nil && n.Obj().Name() == "FieldValues"
}

func isStack(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(s.Elem())
	return n != nil && n.Obj().Name() == "StackFrame"
}

func (r *compareCheck) termer(pre, post *ssa.Parameter) *termer {
	w := r.w
	t := newTermer(w)
	t.strict = true
	t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
		switch v {
		case pre:
			return "PRE", true
		case post:
			return "POST", true
		}
		return "", false
	}
	clean := func(in terms) string {
		delete(in, "0")
		return in.String()
	}
	t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
		com := ci.Common()
		if com.IsInvoke() {
			switch com.Method.Name() {
			case "LoadState", "ListKeys":
				return map[string]string{"LoadState": "load", "ListKeys": "list"}[com.Method.Name()] + "(" + t.eval(com.Value, cx).String() + ")", true
			}
			return "", false
		}
		g := com.StaticCallee()
		if g == nil || !w.own(g) {
			return "", false
		}
		res := g.Signature.Results()
		if len(com.Args) >= 1 && isFieldValues(com.Args[0].Type()) && res.Len() == 1 {
			if _, ok := res.At(0).Type().Underlying().(*types.Map); ok {
				return "flat(" + clean(t.eval(com.Args[0], cx)) + ")", true
			}
		}
		if res.Len() == 1 && isString(res.At(0).Type()) {
			for _, a := range com.Args {
				if isStack(a.Type()) {
					return localName(g) + "(" + clean(t.eval(a, cx)) + ")", true
				}
			}
		}
		return "", false
	}
	return t
}

// ev evaluates; an absent result is not of interest.
func (r *compareCheck) ev(v ssa.Value, c *tctx, path ...string) string {
	out := r.t.eval(v, c, path...)
	delete(out, "0")
	return out.String()
}

func checkCompare(c *Check) {
	w := c.W
	c.Rule("sources", "a test is compared with its own result: before with before, after with after, one key", 4)
	c.Rule("visits", "every test, caller, call frame and captured field is visited", 4)
	c.Rule("counted-once", "a captured field is counted exactly once, and so are all fields of a call with no counterpart", 2)
	c.Rule("same", "a field counts as unchanged only where it is there after the update and its value is equal", 1)
	c.Rule("recorded", "a changed field is recorded under its caller and name, with a description of the difference", 3)
	c.Rule("frames", "call frames are matched by the same key before and after, each at most once", 2)
	c.Rule("panics", "panics of the project and of modules that were added or removed are counted", 6)
	c.Rule("totals", "the totals are the sums of what is reported per test", 4)
	c.Rule("described", "different values never get an empty description", 1)
	n := 0
	for _, f := range w.Fns {
		if f.Name() != "CompareTestResults" || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		var st []*ssa.Parameter
		for _, p := range f.Params {
			if nm := namedOf(p.Type()); nm != nil && nm.Obj().Name() == "Storage" {
				st = append(st, p)
			}
		}
		if len(st) != 2 {
			continue
		}
		n++
		r := &compareCheck{c: c, w: w, root: &tctx{f: f}, same: accSites{}, diff: accSites{}}
		r.t = r.termer(st[0], st[1])
		r.run(f)
	}
	c.Decide(n > 0, "sources", "comparison", "-", "no comparison of the results found")
}

func (r *compareCheck) run(f *ssa.Function) {
	w, c, t := r.w, r.c, r.t
	// the counters
	var reports []*ssa.Return
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			rv := retVals(rt)
			if len(rv) == 4 && !(isNilConst(rv[2])) {
				reports = append(reports, rt)
				r.acc(rv[0], r.root, nil, r.same, map[string]bool{})
				r.acc(rv[1], r.root, nil, r.diff, map[string]bool{})
			}
		}
	}
	c.Decide(len(r.same) > 0 && len(r.diff) > 0, "totals", "counters", w.Pos(f.Pos()), "the results are not counted: %d additions to equal, %d to different", len(r.same), len(r.diff))
	r.sources(f)
	// the loops
	seen := map[*tctx]bool{}
	frame := func(cx *tctx) {
		if seen[cx] {
			return
		}
		seen[cx] = true
		for kind, is := range map[string]func(v ssa.Value) bool{
			"test": func(v ssa.Value) bool {
				s := t.eval(v, cx, "[]").String()
				return s == "list(POST)#0[]" || s == "list(PRE)#0[]" || s == "list(POST)#0[] | list(PRE)#0[]"
			},
			"caller": func(v ssa.Value) bool {
				if _, isMap := v.Type().Underlying().(*types.Map); isMap {
					return r.ev(v, cx) == cPre+".CallerResults"
				}
				s := r.ev(v, cx, "[]")
				return strings.HasPrefix(s, cPre+".CallerResults{k}")
			},
			"frame": func(v ssa.Value) bool { return r.ev(v, cx, "[]") == cPreFrame },
			"field": func(v ssa.Value) bool {
				if _, isMap := v.Type().Underlying().(*types.Map); isMap {
					return r.ev(v, cx) == cPreFlat
				}
				s := r.ev(v, cx, "[]")
				return strings.HasPrefix(s, cPreFlat+"{k}")
			},
		} {
			for _, el := range w.elemLoops(cx.f, is) {
				r.loops = append(r.loops, &kindLoop{kind, el, cx})
			}
		}
	}
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) { frame(cx) })
	order := []string{"test", "caller", "frame", "field"}
	for _, k := range order {
		if r.kind(k) == nil {
			c.Bad("visits", k, w.Pos(f.Pos()), "no loop over every %s found", k)
			return
		}
	}
	for i, k := range order {
		for _, l := range r.loops {
			if l.kind != k {
				continue
			}
			pos := w.Pos(l.el.l.header.Instrs[0].Pos())
			if p := l.el.cont.Pos(); p.IsValid() {
				pos = w.Pos(p)
			}
			name := k + " loop in " + FnName(l.c.f)
			if !r.counts(l) {
				continue // a loop for something else (printing, say)
			}
			bad := w.visitsAllOr(l.el, nil, true)
			c.Decide(bad == "", "visits", name, pos, "the loop over every %s %s", k, bad)
			// a round passes the next level, or counts all of it
			var ok func(in ssa.Instruction) int
			switch k {
			case "field":
				ok = func(in ssa.Instruction) int { return r.fieldEvent(in, l) }
			case "frame":
				ok = func(in ssa.Instruction) int { return r.frameEvent(in, l) }
			default:
				next := order[i+1]
				ok = func(in ssa.Instruction) int { return r.reaches(in, l.c, next) }
			}
			lo, hi, at := r.perRound(l, ok)
			rule := "counted-once"
			if k == "test" || k == "caller" {
				rule = "visits"
			}
			what := map[string]string{"field": "counted as equal or different", "frame": "compared, or all its fields counted as different", "caller": "looked at frame by frame", "test": "looked at caller by caller"}[k]
			c.Decide(lo == 1 && hi == 1, rule, name+" rounds", pos, "a %s can be %s %d to %d times, not once%s", k, what, lo, hi, at)
		}
	}
	r.sameOnlyIfEqual()
	r.recorded(reports)
	r.frames()
	r.panics()
	r.totals(reports)
	r.described()
}

func (r *compareCheck) kind(k string) *kindLoop {
	for _, l := range r.loops {
		if l.kind == k {
			return l
		}
	}
	return nil
}

// counts: a count is changed somewhere inside the loop.
func (r *compareCheck) counts(l *kindLoop) bool {
	for b := range l.el.l.body {
		for _, in := range b.Instrs {
			if r.same[in] != nil || r.diff[in] != nil {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok && r.below(ci, l.c, func(in ssa.Instruction) bool { return r.same[in] != nil || r.diff[in] != nil }) {
				return true
			}
		}
	}
	return false
}

// below: the call runs an instruction with the property.
func (r *compareCheck) below(ci ssa.CallInstruction, c *tctx, is func(in ssa.Instruction) bool) bool {
	hit := false
	for _, g := range r.w.Callees(ci) {
		if !r.w.own(g) || len(g.Blocks) == 0 || r.t.onStack(c, g) > 0 {
			continue
		}
		r.t.eachFrame(r.t.enter(ci, g, c), func(in ssa.Instruction, cx *tctx) {
			if is(in) {
				hit = true
			}
		})
	}
	return hit
}

// reaches: the instruction starts a loop of the kind (1), here or in a function it calls.
func (r *compareCheck) reaches(in ssa.Instruction, c *tctx, kind string) int {
	for _, l := range r.loops {
		if l.kind != kind || !r.counts(l) {
			continue
		}
		if l.c == c && in == l.el.l.header.Instrs[0] {
			return 1
		}
		for x := l.c; x != nil && x.up != nil; x = x.up {
			if x.up == c && x.site == in {
				return 1
			}
		}
	}
	return 0
}

// fieldEvent: the number of fields counted by the instruction; -1 when it cannot be told.
func (r *compareCheck) fieldEvent(in ssa.Instruction, l *kindLoop) int {
	for _, m := range []accSites{r.same, r.diff} {
		s := m.at(in, l.c)
		if s == nil {
			continue
		}
		switch s.kind {
		case "one":
			k, _ := constInt(s.val)
			return int(k)
		case "sum":
			return 0 // counted at the call
		}
		return 2
	}
	if ci, ok := in.(*ssa.Call); ok {
		return r.callEvent(ci, l.c)
	}
	return 0
}

// callEvent: how many fields a helper counts for one field, on every path.
func (r *compareCheck) callEvent(ci *ssa.Call, c *tctx) int {
	for _, g := range r.w.Callees(ci) {
		if !r.w.own(g) || len(g.Blocks) == 0 || r.t.onStack(c, g) > 0 {
			continue
		}
		n := r.t.enter(ci, g, c)
		lo, hi := countPaths(g.Blocks[0], nil, func(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 }, func(in ssa.Instruction) int {
			return r.fieldEvent(in, &kindLoop{c: n})
		})
		if lo == hi && lo > 0 {
			return lo
		}
		if hi > 0 {
			return 100 // sometimes
		}
		// the additions returned
		if r.summed(ci) {
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					sum := int64(0)
					for _, v := range retVals(rt) {
						if isInt(v.Type()) {
							k, ok := constInt(v)
							if !ok {
								return 100
							}
							sum += k
						}
					}
					if sum != 1 {
						return 100
					}
				}
			}
			return 1
		}
	}
	return 0
}

// summed: results of the call are added to the counters.
func (r *compareCheck) summed(ci *ssa.Call) bool {
	for _, m := range []accSites{r.same, r.diff} {
		for _, s := range r.sites(m) {
			if s.kind != "sum" {
				continue
			}
			for _, v := range []ssa.Value{s.in.X, s.in.Y} {
				if e, ok := v.(*ssa.Extract); ok && e.Tuple == ssa.Value(ci) {
					return true
				}
			}
		}
	}
	return false
}

// frameEvent: the frame is compared field by field, or the number of its fields is added.
func (r *compareCheck) frameEvent(in ssa.Instruction, l *kindLoop) int {
	if n := r.reaches(in, l.c, "field"); n != 0 {
		return n
	}
	if s := r.diff.at(in, l.c); s != nil && s.kind == "len" && s.in.Parent() == l.c.f {
		if r.ev(s.val, s.vc) == cPreFlat {
			return 1
		}
		return 100
	}
	if ci, ok := in.(*ssa.Call); ok && r.below(ci, l.c, func(in ssa.Instruction) bool {
		return slices.ContainsFunc(r.diff[in], func(s *accSite) bool { return s.kind == "len" })
	}) {
		for _, g := range r.w.Callees(ci) {
			if r.w.own(g) && len(g.Blocks) > 0 && r.t.onStack(l.c, g) == 0 {
				n := &kindLoop{c: r.t.enter(ci, g, l.c)}
				if lo, hi := countPaths(g.Blocks[0], nil, func(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 }, func(in ssa.Instruction) int {
					return r.frameEvent(in, n)
				}); lo == hi {
					return lo
				}
				return 100
			}
		}
	}
	return 0
}

// countPaths: the least and greatest number of events on a path from start to an end; inside limits the blocks.
func countPaths(start *ssa.BasicBlock, inside map[*ssa.BasicBlock]bool, end func(b *ssa.BasicBlock) bool, ev func(in ssa.Instruction) int) (int, int) {
	w := map[*ssa.BasicBlock]int{}
	weight := func(b *ssa.BasicBlock) int {
		if n, ok := w[b]; ok {
			return n
		}
		n := 0
		for _, in := range b.Instrs {
			n += ev(in)
		}
		w[b] = n
		return n
	}
	// longest and shortest over the graph, inner loops cut at their back edges (dominating successors); events inside make hi large
	lo := map[*ssa.BasicBlock]int{}
	hi := map[*ssa.BasicBlock]int{}
	const inf = 1 << 20
	state := map[*ssa.BasicBlock]int{}
	var rec func(b *ssa.BasicBlock) (int, int)
	rec = func(b *ssa.BasicBlock) (int, int) {
		if state[b] == 2 {
			return lo[b], hi[b]
		}
		state[b] = 1
		l, h := inf, -1
		if end(b) {
			l, h = 0, 0
		}
		for _, s := range b.Succs {
			if inside != nil && !inside[s] && !end(s) {
				continue // leaves by failing; judged elsewhere
			}
			if state[s] == 1 { // around an inner loop
				continue
			}
			if inside != nil && !inside[s] {
				continue
			}
			if failsOnly(s) {
				continue
			}
			a, c := rec(s)
			if c >= 0 {
				l, h = min(l, a), max(h, c)
			}
		}
		if h >= 0 {
			l, h = l+weight(b), h+weight(b)
		}
		state[b] = 2
		lo[b], hi[b] = l, h
		return l, h
	}
	l, h := rec(start)
	if h < 0 {
		return 0, 0
	}
	return l, h
}

// perRound: how often the event happens in one round of the loop.
func (r *compareCheck) perRound(kl *kindLoop, ev func(in ssa.Instruction) int) (int, int, string) {
	l := kl.el.l
	f := kl.c.f
	lo, hi := 1<<20, -1
	skip := func(b *ssa.BasicBlock, i int) bool { return r.excused(b, i, kl) }
	// inner loops are taken as a whole: their header carries the event
	w := map[*ssa.BasicBlock]int{}
	var rec func(b *ssa.BasicBlock, on map[*ssa.BasicBlock]bool, n int, depth int)
	steps := 0
	rec = func(b *ssa.BasicBlock, on map[*ssa.BasicBlock]bool, n int, depth int) {
		steps++
		if steps > 200000 || n > 50 {
			return
		}
		if b == l.header {
			lo, hi = min(lo, n), max(hi, n)
			return
		}
		if !l.body[b] || on[b] {
			return
		}
		if _, ok := w[b]; !ok {
			s := 0
			for _, in := range b.Instrs {
				s += ev(in)
			}
			w[b] = s
		}
		n += w[b]
		in := r.w.innermost(f, b)
		if in != nil && in != l && in.header == b && w[b] > 0 { // a counted inner loop: continue behind it
			for x := range in.body {
				for _, s := range x.Succs {
					if !in.body[s] && x == in.header {
						rec(s, on, n, depth+1)
					}
				}
			}
			return
		}
		on[b] = true
		for i, s := range b.Succs {
			if skip(b, i) || failsOnly(s) {
				continue
			}
			rec(s, on, n, depth+1)
		}
		delete(on, b)
	}
	for i, s := range l.header.Succs {
		if l.body[s] && !skip(l.header, i) {
			rec(s, map[*ssa.BasicBlock]bool{}, 0, 0)
		}
	}
	if hi < 0 {
		return 0, 0, ""
	}
	return lo, hi, ""
}

// excused: the edge is taken only when there is nothing to compare: no result before the update, or nothing captured.
func (r *compareCheck) excused(b *ssa.BasicBlock, i int, kl *kindLoop) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	truth := i == 0
	for s := range r.t.eval(iff.Cond, kl.c) {
		neg := false
		if strings.HasPrefix(s, "!") {
			s, neg = s[1:], true
		}
		val := truth != neg
		switch {
		case !val && (s == "load(PRE)#1" || s == "load(POST)#1" || s == "0" || s == "true"):
			continue
		case val && regexp.MustCompile(`^\(0 == len\{`).MatchString(s) && kl.kind == "caller" && strings.Contains(s, cPreFrame):
			continue
		}
		if kl.kind == "test" && (s == "0" || s == "true" || s == "load(PRE)#1") {
			if s == "0" && val || s == "true" && !val { // cannot happen with this alternative
				continue
			}
			return val == false && s != "true"
		}
		return false
	}
	return true
}

// acc collects the additions that make up a counter.
func (r *compareCheck) acc(v ssa.Value, c *tctx, path []string, out accSites, seen map[string]bool) {
	if v == nil {
		return
	}
	key := fmt.Sprintf("%p %p %s", v, c, join(path))
	if seen[key] || len(seen) > 3000 {
		return
	}
	seen[key] = true
	t, w := r.t, r.w
	fromAddr := func(addr ssa.Value) {
		var p []string
		if fa, ok := addr.(*ssa.FieldAddr); ok && len(path) == 0 {
			if _, ok := fa.X.(*ssa.IndexAddr); ok { // of an element: whatever that field is set to
				tn, fn, _ := fieldName(fa)
				t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
					if st, ok := in.(*ssa.Store); ok {
						if f2, ok := st.Addr.(*ssa.FieldAddr); ok {
							if n2, g2, _ := fieldName(f2); n2 == tn && g2 == fn {
								r.acc(st.Val, cx, nil, out, seen)
							}
						}
					}
				})
				return
			}
		}
		for {
			if fa, ok := addr.(*ssa.FieldAddr); ok {
				_, f, _ := fieldName(fa)
				p = append([]string{"." + f}, p...)
				addr = fa.X
				continue
			}
			if fv, ok := addr.(*ssa.FreeVar); ok {
				if b := w.bindingOf(fv); b != nil {
					addr, c = b, t.ctxOf(c, b.Parent())
					continue
				}
			}
			if pm, ok := addr.(*ssa.Parameter); ok && c != nil {
				if a, ok := c.args[pm]; ok && len(a.pre) == 0 {
					addr, c = a.v, a.c
					continue
				}
			}
			break
		}
		t.placed(addr, c, append(p, path...), func(st *ssa.Store, c *tctx, rest []string) { r.acc(st.Val, c, rest, out, seen) })
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			r.acc(e, c, path, out, seen)
		}
	case *ssa.Convert:
		r.acc(x.X, c, path, out, seen)
	case *ssa.ChangeType:
		r.acc(x.X, c, path, out, seen)
	case *ssa.Parameter:
		if c != nil {
			if a, ok := c.args[x]; ok && len(a.pre) == 0 {
				r.acc(a.v, a.c, path, out, seen)
			}
		}
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return
		}
		s := &accSite{in: x, kind: "sum", c: c}
		for _, o := range []ssa.Value{x.X, x.Y} {
			oc := c
			for {
				p, ok := o.(*ssa.Parameter)
				if !ok || oc == nil {
					break
				}
				a, ok := oc.args[p]
				if !ok || len(a.pre) > 0 {
					break
				}
				o, oc = a.v, a.c
			}
			switch {
			case isConst(o):
				s.kind, s.val = "one", o
			case isLenCall(o):
				s.kind, s.val, s.vc = "len", lenArg(o), oc
			default:
				r.acc(o, oc, nil, out, seen)
			}
		}
		out[x] = append(out[x], s)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			fromAddr(x.X)
		}
	case *ssa.Alloc:
		fromAddr(x)
	case *ssa.FieldAddr:
		fromAddr(x)
	case *ssa.Field:
		_, f, _ := fieldName(x)
		r.acc(x.X, c, append([]string{"." + f}, path...), out, seen)
	case *ssa.Extract:
		if ci, ok := x.Tuple.(*ssa.Call); ok {
			r.accCall(ci, x.Index, c, path, out, seen)
		}
	case *ssa.Call:
		r.accCall(x, 0, c, path, out, seen)
	}
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func (r *compareCheck) accCall(ci *ssa.Call, idx int, c *tctx, path []string, out accSites, seen map[string]bool) {
	for _, g := range r.w.Callees(ci) {
		if !r.w.own(g) || len(g.Blocks) == 0 || r.t.onStack(c, g) > 0 {
			continue
		}
		n := r.t.enter(ci, g, c)
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if rv := retVals(rt); idx < len(rv) {
					r.acc(rv[idx], n, path, out, seen)
				}
			}
		}
	}
}

// sources: results are loaded and decoded from the storage they belong to, under one key.
func (r *compareCheck) sources(f *ssa.Function) {
	c, w, t := r.c, r.w, r.t
	keys := map[string]map[string]bool{}
	t.frames(r.root, func(ci ssa.CallInstruction, cx *tctx) {
		com := ci.Common()
		if com.IsInvoke() && com.Method.Name() == "LoadState" {
			st := t.eval(com.Value, cx).String()
			if keys[st] == nil {
				keys[st] = map[string]bool{}
			}
			keys[st][t.eval(com.Args[0], cx).String()] = true
		}
	})
	for _, st := range []string{"PRE", "POST"} {
		var ks []string
		for k := range keys[st] {
			ks = append(ks, k)
		}
		slices.Sort(ks)
		ok := len(ks) > 0
		for _, k := range ks {
			ok = ok && (k == "list(POST)#0[]" || k == "list(PRE)#0[]" || k == "list(POST)#0[] | list(PRE)#0[]")
		}
		c.Decide(ok, "sources", "keys "+st, w.Pos(f.Pos()), "results are loaded under %s", strings.Join(ks, ", "))
	}
	c.Decide(fmt.Sprint(keys["PRE"]) == fmt.Sprint(keys["POST"]), "sources", "one key", w.Pos(f.Pos()), "before the update under %v, after it under %v", keys["PRE"], keys["POST"])
}

// conds: the conditions known to hold where the instruction runs, as terms; false ones with "!".
func (r *compareCheck) conds(in ssa.Instruction, c *tctx) map[string]bool {
	return r.condsTo(in, c, nil, 0)
}

// con: a result of a call is known to equal (or not) a constant.
type con struct {
	idx   int
	k     constant.Value
	truth bool
}

func resultOf(v ssa.Value) (*ssa.Call, int) {
	idx := 0
	if e, ok := v.(*ssa.Extract); ok {
		v, idx = e.Tuple, e.Index
	}
	call, _ := v.(*ssa.Call)
	return call, idx
}

// implied: what holds where the results of the helper are as known.
func (r *compareCheck) implied(call *ssa.Call, cons []con, c *tctx, d int) map[string]bool {
	out := map[string]bool{}
	if d > 3 {
		return out
	}
	for _, q := range cons {
		if q.k.Kind() == constant.String && constant.StringVal(q.k) == "" && q.truth && r.describes(call, c) {
			a, b := cPreFlat+"[]", cPostFlat+"[]"
			if a > b {
				a, b = b, a
			}
			out["("+a+" == "+b+")"] = true
		}
	}
	g := call.Call.StaticCallee()
	if g == nil || !r.w.own(g) || len(g.Blocks) == 0 || r.t.onStack(c, g) > 0 {
		return out
	}
	n := r.t.enter(call, g, c)
	var all map[string]bool
returns:
	for _, b := range g.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		here := map[string]bool{}
		for _, q := range cons {
			rvs := retVals(rt)
			if q.idx >= len(rvs) {
				continue
			}
			rv := rvs[q.idx]
			if rc, ok := rv.(*ssa.Const); ok && rc.Value != nil {
				if rc.Value.Kind() == q.k.Kind() && constant.Compare(rc.Value, token.EQL, q.k) != q.truth {
					continue returns
				}
				continue
			}
			if inner, i := resultOf(rv); inner != nil {
				for f := range r.implied(inner, []con{{i, q.k, q.truth}}, n, d+1) {
					here[f] = true
				}
			}
			if q.k.Kind() == constant.Bool {
				if ts := r.t.eval(rv, n); len(ts) == 1 {
					s := ts.list()[0]
					if constant.BoolVal(q.k) != q.truth {
						s = notTerm(s)
					}
					spread(s, here)
				}
			}
		}
		for f := range r.condsTo(rt, n, n, d+1) {
			here[f] = true
		}
		if all == nil {
			all = here
			continue
		}
		for f := range all {
			if !here[f] {
				delete(all, f)
			}
		}
	}
	for f := range all {
		out[f] = true
	}
	return out
}

// spread: a condition, and the parts of a conjunction.
func spread(s string, out map[string]bool) {
	out[s] = true
	neg := strings.HasPrefix(s, "!")
	tab, ok := strings.CutPrefix(strings.TrimPrefix(s, "!"), "bool{")
	if !ok {
		return
	}
	j := strings.LastIndex(tab, "}=")
	if j < 0 {
		return
	}
	atoms, bits := strings.Split(tab[:j], "; "), tab[j+2:]
	holds := byte('1')
	if neg {
		holds = '0'
	}
	for k, a := range atoms {
		all, none := true, true
		for m := range bits {
			if bits[m] != holds {
				continue
			}
			if m>>k&1 == 0 {
				all = false
			} else {
				none = false
			}
		}
		switch {
		case all:
			out[a] = true
		case none:
			out[notTerm(a)] = true
		}
	}
}

// condsTo is conds within the frames up to stop.
func (r *compareCheck) condsTo(in ssa.Instruction, c, stop *tctx, depth int) map[string]bool {
	out := map[string]bool{}
	for {
		known := map[*ssa.Call][]con{}
		b := in.Block()
		for d := b; d != nil; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i := range d.Succs {
				if edgeDominates(d, i, b) {
					truth := i == 0
					v := iff.Cond
					for {
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
							v, truth = u.X, !truth
							continue
						}
						break
					}
					if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
						x, y := bo.X, bo.Y
						if isConst(x) {
							x, y = y, x
						}
						if k, ok := y.(*ssa.Const); ok && k.Value != nil {
							if call, idx := resultOf(x); call != nil {
								known[call] = append(known[call], con{idx, k.Value, truth == (bo.Op == token.EQL)})
							}
						}
					} else if call, idx := resultOf(v); call != nil {
						known[call] = append(known[call], con{idx, constant.MakeBool(true), truth})
					}
					ts := r.t.eval(iff.Cond, c)
					if len(ts) != 1 {
						continue
					}
					s := ts.list()[0]
					if i == 1 {
						s = notTerm(s)
					}
					spread(s, out)
				}
			}
		}
		for call, cons := range known {
			for f := range r.implied(call, cons, c, depth) {
				out[f] = true
			}
		}
		if c == nil || c == stop || c.up == nil || c.site == nil {
			return out
		}
		in, c = c.site, c.up
	}
}

// sameOnlyIfEqual: additions of one to the equal count happen where pre and post value of one name are there and equal.
func (r *compareCheck) sameOnlyIfEqual() {
	c, w := r.c, r.w
	a, b := cPreFlat+"[]", cPostFlat+"[]"
	if a > b {
		a, b = b, a
	}
	for _, s := range r.sites(r.same) {
		if s.kind == "sum" {
			continue
		}
		pos := w.Pos(s.in.Pos())
		name := "count in " + FnName(s.in.Parent())
		if s.kind == "len" {
			c.Bad("same", name, pos, "a number of fields is counted as equal at once")
			continue
		}
		conds := r.conds(s.in, s.c)
		eq := conds["("+a+" == "+b+")"]
		for k := range conds {
			if strings.HasPrefix(k, "(strings.Compare("+a+", "+b) || strings.HasPrefix(k, "(0 == strings.Compare("+cPreFlat+"[], "+cPostFlat+"[])") {
				eq = true
			}
		}
		c.Decide(eq, "same", name, pos, "a field counts as equal where the values were not found equal (known there: %s)", strings.Join(sortedKeys(conds), "; "))
		c.Decide(conds["has("+cPostFlat+")"], "same", name+" there", pos, "a field counts as equal although it may be missing after the update")
	}
	// the names compared are the same
	r.t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		lk, ok := in.(*ssa.Lookup)
		if !ok || r.ev(lk.X, cx) != cPostFlat {
			return
		}
		k := r.ev(lk.Index, cx)
		c.Decide(k == cPreFlat+"{k}", "same", "name in "+FnName(cx.f), w.Pos(lk.Pos()), "the value after the update is looked up under %s", k)
	})
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

// describes: the call is given the value before and the value after.
func (r *compareCheck) describes(call *ssa.Call, c *tctx) bool {
	g := call.Call.StaticCallee()
	if g == nil || !r.w.own(g) || len(g.Blocks) == 0 {
		return false
	}
	var strs []string
	for _, a := range call.Call.Args {
		if isString(a.Type()) {
			strs = append(strs, r.ev(a, c))
		}
	}
	return slices.Equal(strs, []string{cPreFlat + "[]", cPostFlat + "[]"}) && g.Signature.Results().Len() == 1 && isString(g.Signature.Results().At(0).Type())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (r *compareCheck) sites(m accSites) []*accSite {
	var out []*accSite
	for _, s := range m {
		out = append(out, s...)
	}
	slices.SortFunc(out, func(a, b *accSite) int { return int(a.in.Pos() - b.in.Pos()) })
	return out
}

// recorded: what the reports say about changed fields.
func (r *compareCheck) recorded(reports []*ssa.Return) {
	c, w, t := r.c, r.w, r.t
	for _, rt := range reports {
		v := retVals(rt)[2]
		pos := w.Pos(rt.Pos())
		got := func(path ...string) string { return r.ev(v, r.root, path...) }
		is := func(name, want string, path ...string) {
			g := got(path...)
			c.Decide(g == want, "recorded", name, pos, "it is %s, expected %s", g, want)
		}
		for _, k := range []string{"OriginalResult", "PostUpdateResult"} {
			g := t.eval(v, r.root, "[]", "."+k)
			for s := range g { // parts dropped to save memory
				if s == "0" || strings.HasSuffix(s, ":0") {
					delete(g, s)
				}
			}
			want := cPre
			if k == "PostUpdateResult" {
				want = cPost
			}
			c.Decide(g.String() == want, "sources", k, pos, "it is %s, expected %s", g, want)
		}
		is("caller of a change", cPre+".CallerResults{k}", "[]", ".CallerFieldChanges", "{k}")
		is("name of a change", cPreFlat+"{k}", "[]", ".CallerFieldChanges", "[]", "{k}")
		is("caller of a time change", cPre+".CallerResults{k}", "[]", ".CallerTimeChanges", "{k}")
		bad := ""
		for s := range t.eval(v, r.root, "[]", ".CallerFieldChanges", "[]", "[]") {
			a, b := strings.Index(s, "PRE"), strings.Index(s, "POST")
			if b >= 0 && (a < 0 || b < a) {
				bad = s
			}
		}
		c.Decide(bad == "", "recorded", "direction of a change", pos, "the description names the value after the update first: %s", short(bad))
	}
	// every unequal field is recorded
	upd := map[ssa.Instruction]bool{}
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		if mu, ok := in.(*ssa.MapUpdate); ok && isString(mu.Value.Type()) && r.ev(mu.Key, cx) == cPreFlat+"{k}" {
			upd[in] = true
		}
	})
	a, b := cPreFlat+"[]", cPostFlat+"[]"
	if a > b {
		a, b = b, a
	}
	eq := "(" + a + " == " + b + ")"
	for _, l := range r.loops {
		if l.kind != "field" || !r.counts(l) {
			continue
		}
		for blk := range l.el.l.body {
			iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			s := t.eval(iff.Cond, l.c).String()
			edge := -1
			switch s {
			case eq:
				edge = 1
			case "!" + eq:
				edge = 0
			}
			if edge < 0 {
				continue
			}
			gone := func(b *ssa.BasicBlock, i int) bool { // the field is missing after the update
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					return false
				}
				s := t.eval(iff.Cond, l.c).String()
				return s == "has("+cPostFlat+")" && i == 1 || s == "!has("+cPostFlat+")" && i == 0
			}
			miss := r.misses(blk.Succs[edge], l.el.l, gone, func(in ssa.Instruction) bool {
				if upd[in] {
					return true
				}
				ci, ok := in.(*ssa.Call)
				return ok && r.below(ci, l.c, func(in ssa.Instruction) bool { return upd[in] })
			})
			c.Decide(!miss, "recorded", "changed field in "+FnName(l.c.f), w.Pos(iff.Cond.Pos()), "a field found to differ may not be recorded")
		}
	}
}

// misses: the round can end without the event.
func (r *compareCheck) misses(b *ssa.BasicBlock, l *loop, not func(b *ssa.BasicBlock, i int) bool, is func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == l.header {
			return true
		}
		if !l.body[x] || failsOnly(x) {
			continue
		}
		hit := false
		for _, in := range x.Instrs {
			if is(in) {
				hit = true
			}
		}
		for i, s := range x.Succs {
			if !hit && (not == nil || !not(x, i)) {
				st = append(st, s)
			}
		}
	}
	return false
}

// frames: the keys that frames are grouped by and looked up by agree; a frame is used once.
func (r *compareCheck) frames() {
	c, w, t := r.c, r.w, r.t
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		lk, ok := in.(*ssa.Lookup)
		if !ok {
			return
		}
		if m, ok := lk.X.Type().Underlying().(*types.Map); !ok || r.ev(lk.X, cx, "[]", "[]") != cPostFrame || m == nil {
			return
		}
		if r.ev(lk.X, cx) == cPost+".CallerResults" { // the frames of a caller
			k := r.ev(lk.Index, cx)
			c.Decide(k == cPre+".CallerResults{k}", "frames", "caller in "+FnName(cx.f), w.Pos(lk.Pos()), "the frames after the update are looked up under %s", k)
			return
		}
		// grouped frames
		group, by := r.ev(lk.X, cx, "{k}"), r.ev(lk.Index, cx)
		if group == by { // while grouping
			return
		}
		c.Decide(strings.ReplaceAll(group, "POST", "PRE") == by, "frames", "key in "+FnName(cx.f), w.Pos(lk.Pos()), "frames after the update are grouped by %s but looked up by %s", group, by)
		r.usedOnce(lk, cx)
	})
}

// usedOnce: of the frames with one key, each is taken at most once.
func (r *compareCheck) usedOnce(lk *ssa.Lookup, cx *tctx) { r.usedOnceAs(lk, cx, "frames") }

func (r *compareCheck) usedOnceAs(lk *ssa.Lookup, cx *tctx, rule string) {
	c, w := r.c, r.w
	f := cx.f
	l := w.innermost(f, lk.Block())
	var frames ssa.Value = lk
	if lk.CommaOk {
		for _, q := range *lk.Referrers() {
			if e, ok := q.(*ssa.Extract); ok && e.Index == 0 {
				frames = e
			}
		}
	}
	if frames.Referrers() == nil || l == nil {
		return
	}
	for _, q := range *frames.Referrers() {
		ia, ok := q.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		pos := w.Pos(ia.Pos())
		if k, ok := constInt(ia.Index); ok {
			// taken from the front: the rest is put back
			back := false
			for b := range l.body {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && w.canon(mu.Map) == w.canon(lk.X) && w.canon(mu.Key) == w.canon(lk.Index) {
						back = true
					}
				}
			}
			c.Decide(back && k == 0, rule, "once in "+FnName(f), pos, "the same frame after the update is taken for every frame with the key")
			continue
		}
		idx, ok := ia.Index.(*ssa.Lookup)
		if !ok {
			switch x := ia.Index.(type) {
			case *ssa.BinOp:
				c.Decide(x.Op != token.REM && x.Op != token.AND, rule, "once in "+FnName(f), pos, "positions are mapped onto one another: a frame after the update can be taken for two frames before it")
			case *ssa.Call:
				_, isB := x.Call.Value.(*ssa.Builtin)
				c.Decide(!isB, rule, "once in "+FnName(f), pos, "positions are mapped onto one another: a frame after the update can be taken for two frames before it")
			}
			continue
		}
		c.Decide(w.canon(idx.Index) == w.canon(lk.Index), rule, "position in "+FnName(f), pos, "the position is not kept per key")
		// the position moves on in every round
		miss := r.misses(nextBlock(l), l, nil, func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || w.canon(mu.Map) != w.canon(idx.X) || w.canon(mu.Key) != w.canon(idx.Index) {
				return false
			}
			bo, ok := mu.Value.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD {
				return false
			}
			k, ok := constInt(bo.Y)
			return ok && k == 1
		})
		c.Decide(!miss, rule, "once in "+FnName(f), pos, "a frame after the update can be taken for two frames before it")
	}
}

func nextBlock(l *loop) *ssa.BasicBlock {
	for _, s := range l.header.Succs {
		if l.body[s] {
			return s
		}
	}
	return l.header
}

// panics: additions to the different count inside loops over the recorded panics.
func (r *compareCheck) panics() {
	c, w, t := r.c, r.w, r.t
	type got struct{ removed, added, only bool }
	kinds := map[string]*got{"ProjectPanics": {}, "ModulePanics": {}}
	bad := map[string]string{}
	t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
		s := r.diff.at(in, cx)
		if s == nil || s.kind == "sum" {
			return
		}
		// the containers of the loops around it
		var conts []string
		at, fr := in, cx
		for {
			for l := w.innermost(fr.f, at.Block()); l != nil; l = w.outer(fr.f, l) {
				for _, el := range w.elemLoops(fr.f, func(ssa.Value) bool { return true }) {
					if el.l != l {
						continue
					}
					sel := "[]"
					if _, isMap := el.cont.Type().Underlying().(*types.Map); isMap {
						sel = "{k}"
					}
					x := r.ev(el.cont, fr, sel)
					conts = append(conts, x)
					if strings.Contains(x, "Panics") {
						if b := w.visitsAllOr(el, nil, true); b != "" {
							bad[x] = b
						}
					}
				}
			}
			if fr.up == nil || fr.site == nil {
				break
			}
			at, fr = fr.site, fr.up
		}
		for k, g := range kinds {
			pre, post, union := false, false, false
			for _, x := range conts {
				a, b := strings.Contains(x, cPre+"."+k), strings.Contains(x, cPost+"."+k)
				pre, post, union = pre || a, post || b, union || a && b
			}
			switch {
			case union:
				g.removed, g.added, g.only = true, true, true
			case pre && post:
				g.added = true
			case pre:
				g.removed = true
			case post:
				g.only = true
				if !r.conds(in, cx)["!has("+cPre+"."+k+")"] {
					g.added = true
				}
			}
		}
	})
	for _, k := range []string{"ProjectPanics", "ModulePanics"} {
		g := kinds[k]
		c.Decide(g.removed || g.added, "panics", k+" before", "-", "panics seen before the update are not compared")
		c.Decide(g.added, "panics", k+" after", "-", "further panics where there were some before are not counted")
		c.Decide(g.only, "panics", k+" only after", "-", "panics where there were none before are not counted")
	}
	for x, b := range bad {
		c.Bad("panics", "loop over "+x, "-", "it %s", b)
	}
}

// totals: the per-test counts add up to the totals, each test starting from zero.
func (r *compareCheck) totals(reports []*ssa.Return) {
	c, w, t := r.c, r.w, r.t
	test := r.kind("test")
	for _, p := range []struct {
		field string
		total accSites
	}{{"SameFieldCount", r.same}, {"DiffFieldCount", r.diff}} {
		var vals []tval
		var at ssa.Instruction
		t.eachFrame(r.root, func(in ssa.Instruction, cx *tctx) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if n, f, _ := fieldName(fa); f == p.field && strings.HasSuffix(n, "TestReport") {
				vals = append(vals, tval{v: st.Val, c: cx})
				at = st
			}
		})
		if len(vals) == 0 {
			c.Bad("totals", p.field, "-", "it is not reported")
			continue
		}
		per := accSites{}
		seen := map[string]bool{}
		for _, v := range vals {
			r.acc(v.v, v.c, nil, per, seen)
		}
		var a, b []string
		for _, s := range r.sites(per) {
			if s.kind != "sum" {
				a = append(a, w.Pos(s.in.Pos()))
			}
		}
		for _, s := range r.sites(p.total) {
			if s.kind != "sum" {
				b = append(b, w.Pos(s.in.Pos()))
			}
		}
		c.Decide(slices.Equal(a, b), "totals", p.field, w.Pos(at.Pos()), "per test it counts %v, in total %v", a, b)
		// a test starts from zero
		carried := false
		for key := range seen {
			var vp, cp, pa string
			_, _ = fmt.Sscanf(key, "%s %s %s", &vp, &cp, &pa)
			for _, in := range test.el.l.header.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && fmt.Sprintf("%p", ph) == vp {
					carried = true
				}
			}
		}
		for _, v := range vals {
			if r.outside(v, test) {
				carried = true
			}
		}
		c.Decide(!carried, "totals", p.field+" start", w.Pos(at.Pos()), "the count of one test is carried over to the next")
		// and is added to the total once
		if w.innermost(test.c.f, at.Block()) != nil && at.Parent() == test.c.f {
			n := 0
			for _, s := range r.sites(p.total) {
				if s.kind == "sum" && per[s.in] == nil && s.in.Parent() == test.c.f && test.el.l.body[s.in.Block()] && w.innermost(test.c.f, s.in.Block()) == test.el.l {
					n++
					bl := s.in.Block()
					c.Decide(bl.Dominates(at.Block()) || at.Block().Dominates(bl), "totals", p.field+" sum", w.Pos(s.in.Pos()), "a reported test may not be part of the total")
				}
			}
			c.Decide(n <= 1, "totals", p.field+" sums", w.Pos(at.Pos()), "the count of a test is added %d times", n)
		}
	}
}

// outside: the counter lives in a variable made before the loop over the tests and is not set in it.
func (r *compareCheck) outside(v tval, test *kindLoop) bool {
	u, ok := v.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := r.w.cellRoot(u.X).(*ssa.Alloc)
	if !ok || al.Parent() != test.c.f || test.el.l.body[al.Block()] {
		return false
	}
	for _, st := range r.w.storesTo(al) {
		if k, ok := constInt(st.Val); ok && k == 0 && test.el.l.body[st.Block()] && r.w.innermost(st.Parent(), st.Block()) == test.el.l {
			return false
		}
	}
	return true
}

// described: a description is empty only for equal values.
func (r *compareCheck) described() {
	c, w, t := r.c, r.w, r.t
	done := map[*ssa.Function]bool{}
	t.frames(r.root, func(ci ssa.CallInstruction, cx *tctx) {
		call, ok := ci.(*ssa.Call)
		if !ok || !r.describes(call, cx) {
			return
		}
		g := call.Call.StaticCallee()
		if done[g] {
			return
		}
		done[g] = true
		n := t.enter(ci, g, cx)
		a, b := cPreFlat+"[]", cPostFlat+"[]"
		if a > b {
			a, b = b, a
		}
		i := 0
		for _, blk := range g.Blocks {
			rt, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			i++
			v := retVals(rt)[0]
			name := fmt.Sprintf("%s return %d", FnName(g), i)
			if k, ok := constString(v); ok && k == "" {
				c.Decide(r.conds(rt, n)["("+a+" == "+b+")"], "described", name, w.Pos(rt.Pos()), "an empty description for values not found equal")
				continue
			}
			c.Decide(r.nonEmpty(v, rt, n, 0), "described", name, w.Pos(rt.Pos()), "the description may be empty")
		}
	})
}

func (r *compareCheck) nonEmpty(v ssa.Value, at ssa.Instruction, c *tctx, d int) bool {
	if d > 6 {
		return false
	}
	for k := range r.conds(at, c) {
		ts := r.t.eval(v, c)
		if len(ts) == 1 {
			s := ts.list()[0]
			if k == `!("" == `+s+`)` || k == "!("+s+` == "")` {
				return true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		s, ok := constString(x)
		return ok && s != ""
	case *ssa.BinOp:
		return x.Op == token.ADD && (r.nonEmpty(x.X, at, c, d+1) || r.nonEmpty(x.Y, at, c, d+1))
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !r.nonEmpty(e, x.Block().Preds[i].Instrs[len(x.Block().Preds[i].Instrs)-1], c, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if calleeName(x) == "fmt.Sprintf" {
			f, ok := constString(x.Call.Args[0])
			return ok && regexp.MustCompile(`%[-+# 0-9.]*[a-zA-Z]`).ReplaceAllString(f, "") != ""
		}
		for _, g := range r.w.Callees(x) {
			if !r.w.own(g) || len(g.Blocks) == 0 {
				return false
			}
			n := r.t.enter(x, g, c)
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !r.nonEmpty(retVals(rt)[0], rt, n, d+1) {
					return false
				}
			}
		}
		return len(r.w.Callees(x)) > 0
	}
	return false
}
