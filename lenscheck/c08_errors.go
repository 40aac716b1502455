package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkErrors }

// errTaint: the values of one function that carry (or are built from) the error e. cells are the variables it was put in.
func (w *World) errTaint(fn *ssa.Function, seeds ...ssa.Value) (vals, cells map[ssa.Value]bool) {
	vals, cells = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	var st []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !vals[v] {
			vals[v] = true
			st = append(st, v)
		}
	}
	for _, s := range seeds {
		add(s)
	}
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.BinOp:
				if r.Op == token.ADD {
					add(r)
				}
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				switch a := r.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					cells[a] = true
				case *ssa.IndexAddr: // variadic argument lists
					add(a.X)
				case *ssa.FieldAddr:
					if al, ok := a.X.(*ssa.Alloc); ok {
						add(al)
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() != "append" {
					continue
				}
				add(r)
			case ssa.Value:
				switch r.(type) {
				case *ssa.MakeClosure, *ssa.Lookup:
				default:
					add(r)
				}
			}
		}
	}
	return vals, cells
}

type errSpec struct {
	w       *World
	call    *ssa.Call
	idx     int
	vals    map[ssa.Value]bool
	cells   map[ssa.Value]bool
	again   bool
	logloop bool
	logged  bool
	strict  bool // what is asked about the error excuses nothing
	over    ssa.Instruction
}

func (s *errSpec) carries(v ssa.Value, st string) bool {
	if s.vals[v] {
		return true
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && st == "failed" && s.cells[ld.X] {
		return true
	}
	// built from a load of the variable
	if st == "failed" {
		return s.derived(v, 0)
	}
	return false
}

func (s *errSpec) derived(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	if s.vals[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s.cells[x.X] {
				return true
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				return s.derived(al, d+1)
			}
		}
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) == 0 {
			return false
		}
		if x.Call.IsInvoke() && s.derived(x.Call.Value, d+1) {
			return true
		}
		for _, a := range x.Call.Args {
			if s.derived(a, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		return s.derived(x.Tuple, d+1)
	case *ssa.MakeInterface:
		return s.derived(x.X, d+1)
	case *ssa.ChangeInterface:
		return s.derived(x.X, d+1)
	case *ssa.TypeAssert:
		return s.derived(x.X, d+1)
	case *ssa.BinOp:
		return x.Op == token.ADD && (s.derived(x.X, d+1) || s.derived(x.Y, d+1))
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s.derived(e, d+1) {
				return true
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && s.derived(st.Val, d+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (s *errSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == ssa.Instruction(s.call) {
		if strings.HasPrefix(st, "failed") {
			s.again = true
		}
		if st == "logged" {
			s.logloop = true
		}
		n := s.call.Call.Signature().Results().Len()
		ok := []byte(strings.Repeat("2", n))
		ko := []byte(strings.Repeat("2", n))
		ok[s.idx], ko[s.idx] = '0', '1'
		return []Out{{st: "ok", res: string(ok)}, {st: "failed", res: string(ko)}}, true
	}
	was := st
	if st == "logged" { // may still be handed on
		st = "failed"
	}
	if !strings.HasPrefix(st, "failed") {
		return nil, false
	}
	switch x := in.(type) {
	case *ssa.Return:
		for _, v := range retVals(x) {
			if s.carries(v, st) {
				return []Out{{st: "reported"}}, true
			}
		}
		for _, v := range x.Results {
			if s.carries(v, st) {
				return []Out{{st: "reported"}}, true
			}
		}
	case *ssa.Panic:
		return []Out{{st: "reported"}}, true
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr, *ssa.Global:
			if s.carries(x.Val, st) {
				if fa, ok := a.(*ssa.FieldAddr); ok {
					if _, local := fa.X.(*ssa.Alloc); local {
						return nil, false
					}
				}
				return []Out{{st: "reported"}}, true
			}
		case *ssa.FreeVar:
			if s.carries(x.Val, st) { // handed to the enclosing function
				return []Out{{st: "reported"}}, true
			}
		case *ssa.Alloc:
			if was == "failed" && s.cells[a] && !s.carries(x.Val, st) && x.Block() != s.call.Block() {
				return []Out{{st: "failed*"}}, true
			}
		}
	case *ssa.MapUpdate:
		if s.carries(x.Value, st) || s.carries(x.Key, st) {
			return []Out{{st: "reported"}}, true
		}
	case *ssa.Send:
		if s.carries(x.X, st) {
			return []Out{{st: "reported"}}, true
		}
	case *ssa.Call:
		with := x.Call.IsInvoke() && s.carries(x.Call.Value, st)
		for _, a := range x.Call.Args {
			with = with || s.carries(a, st)
		}
		if !with {
			return nil, false
		}
		n := calleeName(x)
		sig := x.Call.Signature()
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return []Out{{st: "reported", res: "2"}}, true
			}
			return nil, false
		}
		switch {
		case strings.HasPrefix(n, "log."), strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"), n == "net/http.Error",
			strings.HasPrefix(n, "(*log."), strings.HasPrefix(n, "(*sync/atomic."), strings.HasPrefix(n, "(*sync.Map)"):
			s.logged = true
			return []Out{{st: "logged", res: unknownRes(sig)}}, true
		}
		if was == "logged" && !carriesOn(s.w, x) {
			return nil, false
		}
		// a question about the error
		if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) {
			if outs := s.helper(x, st); len(outs) > 0 {
				return outs, true
			}
			if s.strict {
				return []Out{{st: st, res: "1"}, {st: st, res: "0"}}, true
			}
			return []Out{{st: "expected", res: "1"}, {st: st, res: "0"}}, true
		}
		for _, g := range s.w.Callees(x) {
			if s.w.Own[g.Pkg] && errResult(sig) < 0 {
				return []Out{{st: "reported", res: unknownRes(sig)}}, true
			}
		}
	}
	return nil, false
}

// carriesOn: the call hands the error to a function of the repository which returns nothing (it records it).
func carriesOn(w *World, x *ssa.Call) bool {
	if x.Call.Signature().Results().Len() == 1 && types.Identical(x.Call.Signature().Results().At(0).Type().Underlying(), types.Typ[types.Bool]) {
		return false
	}
	for _, g := range w.Callees(x) {
		if w.Own[g.Pkg] {
			return true
		}
	}
	return false
}

// helper: what a helper of the repository which is given the error, tests it and logs it does with a failure.
func (s *errSpec) helper(call *ssa.Call, st string) []Out {
	g := call.Call.StaticCallee()
	if g == nil || !s.w.own(g) || len(g.Blocks) == 0 {
		return nil
	}
	var ep *ssa.Parameter
	for i, p := range g.Params {
		if a := argFor(call, g, i); a != nil && isErrorType(p.Type()) && s.carries(a, st) {
			ep = p
		}
	}
	if ep == nil {
		return nil
	}
	vals, cells := s.w.errTaint(g, ep)
	in := &errSpec{w: s.w, vals: vals, cells: cells}
	type at struct {
		b      *ssa.BasicBlock
		logged bool
	}
	seen := map[at]bool{}
	res := map[Out]bool{}
	tested := false
	var walk func(x at)
	walk = func(x at) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, i := range x.b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				n := calleeName(c)
				for _, a := range c.Call.Args {
					if (strings.HasPrefix(n, "log.") || n == "net/http.Error") && in.derived(a, 0) {
						x.logged = true
					}
				}
			}
		}
		switch last := x.b.Instrs[len(x.b.Instrs)-1].(type) {
		case *ssa.Return:
			o := Out{st: st, res: "2"}
			if x.logged {
				o.st = "logged"
			}
			if k, ok := retVals(last)[0].(*ssa.Const); ok {
				o.res = fmt.Sprint(constBool(k))
			} else if cmp, ok := retVals(last)[0].(*ssa.BinOp); ok && cmp.X == ssa.Value(ep) && isNilConst(cmp.Y) {
				o.res = fmt.Sprint(b2i(cmp.Op == token.NEQ))
			}
			res[o] = true
		case *ssa.If:
			cmp, ok := last.Cond.(*ssa.BinOp)
			if ok && cmp.X == ssa.Value(ep) && isNilConst(cmp.Y) && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
				tested = true
				walk(at{x.b.Succs[b2i(cmp.Op == token.EQL)], x.logged})
				return
			}
			walk(at{x.b.Succs[0], x.logged})
			walk(at{x.b.Succs[1], x.logged})
		default:
			for _, n := range x.b.Succs {
				walk(at{n, x.logged})
			}
		}
	}
	walk(at{g.Blocks[0], false})
	if !tested {
		return nil
	}
	var outs []Out
	logged := false
	for o := range res {
		outs = append(outs, o)
		logged = logged || o.st == "logged"
	}
	if !logged {
		return nil
	}
	s.logged = true
	sort.Slice(outs, func(i, j int) bool { return outs[i].st+outs[i].res < outs[j].st+outs[j].res })
	return outs
}

// inconsequential: a failure of this call changes nothing the analysis relies on: output to the console and to memory,
// releases, questions about paths, best-effort attempts with a fallback.
func (w *World) inconsequential(call ssa.CallInstruction, d int) bool {
	n := calleeName(call)
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash", "strconv."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	switch n {
	case "(io.Writer).Write", "io.WriteString", // sinks of the injected client, which must not disturb the test it runs in
		"os.Remove", "os.RemoveAll",
		"os.Stat", "os.Lstat", "path/filepath.Rel", "path/filepath.Glob",
		"(*go/build.Context).MatchFile", "(*go/types.Config).Check",
		"github.com/pmezard/go-difflib/difflib.GetUnifiedDiffString",
		"github.com/go-analyze/charts.TableOptionRenderDirect":
		return true
	}
	if n == "path/filepath.Abs" { // fails only where nothing else works; a helper made of it answers a question
		return d > 0
	}
	switch methodName(call) {
	case "Close", "Shutdown", "Stop":
		return true
	}
	if d > 3 {
		return false
	}
	gs := w.Callees(call)
	own := 0
	for _, g := range gs {
		if !w.Own[g.Pkg] || len(g.Blocks) == 0 || errResult(g.Signature) < 0 {
			return false
		}
		own++
		bad := false
		eachInstr(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && errResult(ci.Common().Signature()) >= 0 {
				m := calleeName(ci)
				if m == "errors.New" || m == "fmt.Errorf" {
					bad = true
				} else if strings.HasPrefix(m, "errors.") {
					return
				} else if !w.inconsequential(ci, d+1) {
					bad = true
				}
			}
			if ld, ok := in.(*ssa.UnOp); ok {
				if _, isG := ld.X.(*ssa.Global); isG && isErrorType(ld.Type()) {
					bad = true
				}
			}
		})
		ei := errResult(g.Signature)
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && ei < len(r.Results) && w.ownFailure(r.Results[ei], map[ssa.Value]bool{}) {
				bad = true
			}
		}
		if bad {
			return false
		}
	}
	return own > 0
}

// ownFailure: the error is (or may be) one that was kept somewhere or made here, not just the error of a call.
func (w *World) ownFailure(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Call, *ssa.Extract, *ssa.Parameter:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.ownFailure(e, seen) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		switch x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			for _, s := range w.storesTo(x.X) {
				if w.ownFailure(s.Val, seen) {
					return true
				}
			}
			return false
		}
	}
	return true
}

// mentions: the error is written to a log somewhere on its way, possibly in a disabled branch.
func (s *errSpec) mentions(f *ssa.Function) bool {
	r := false
	for _, b := range f.Blocks {
		off := false
		for _, p := range b.Preds {
			if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if _, isC := ifi.Cond.(*ssa.Const); isC {
					off = true
				}
			}
		}
		if !off {
			continue
		}
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok && strings.HasPrefix(calleeName(ci), "log.") {
				for _, a := range ci.Call.Args {
					r = r || s.vals[a]
				}
			}
		}
	}
	return r
}

// boolUsed: whether the call failed is kept as a value.
func boolUsed(vals map[ssa.Value]bool) bool {
	for v := range vals {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			cmp, ok := r.(*ssa.BinOp)
			if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL {
				continue
			}
			for _, q := range *cmp.Referrers() {
				switch q := q.(type) {
				case *ssa.Call, *ssa.Store, *ssa.Return, *ssa.MakeInterface:
					return true
				case *ssa.Phi:
					// the value of a condition, kept
					for _, z := range *q.Referrers() {
						switch z.(type) {
						case *ssa.Call, *ssa.Store, *ssa.Return:
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// signals: without an error result the function tells its caller by returning nothing.
func signals(f *ssa.Function, res string) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 || len(res) != rs.Len() {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		switch t := rs.At(i).Type().Underlying().(type) {
		case *types.Pointer:
			if res[i] == '0' {
				return true
			}
		case *types.Basic:
			if t.Kind() == types.Bool && res[i] == '0' {
				return true
			}
		}
	}
	return false
}

func checkErrors(c *Check) {
	w := c.W
	c.Rule("error-returned", "in a function that can return an error, the failure of a consequential call makes every path return an error (unless it was recognised as an expected condition, or recorded as data)", 200)
	c.Rule("error-reported", "in a function that cannot return an error, the failure of a consequential call is logged, recorded or signalled by the result on every path", 8)
	c.Rule("error-used", "the error of a consequential call is never discarded", 200)
	c.Assume("inconsequential callees: console and in-memory output, Close and Shutdown, file removal, path and existence questions, digit parsing, and library calls with a coded fallback (type check of a lone package, unified diff text, table size)")
	for _, f := range w.Fns {
		num := map[string]int{}
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			e := errResult(call.Common().Signature())
			if e < 0 {
				return
			}
			n := calleeName(call)
			if n == "fmt.Errorf" || strings.HasPrefix(n, "errors.") || n == "(context.Context).Err" {
				return
			}
			mild := w.inconsequential(call, 0)
			if mild {
				// nobody needs it, but once it is looked at, what is seen there may not just be written to the log
				cc, isCall := in.(*ssa.Call)
				if !isCall || !onTheWay(w, call) {
					return
				}
				if ev := resultAt(cc, e); ev == nil || ev.Referrers() == nil || len(*ev.Referrers()) == 0 {
					return
				}
			}
			if n == "" {
				n = methodName(call)
			}
			key := localName(f) + ": " + shortPkg(n)
			num[key]++
			if num[key] > 1 {
				key = fmt.Sprintf("%s (%d)", key, num[key])
			}
			cc, isCall := in.(*ssa.Call)
			if !isCall {
				if n == "(*golang.org/x/sync/errgroup.Group).Wait" && w.waitedElsewhere(call) {
					return
				}
				c.Decide(false, "error-used", key, w.Pos(in.Pos()), "the error of this deferred or asynchronous call is lost")
				return
			}
			ev := resultAt(cc, e)
			if ev == nil || ev.Referrers() == nil || len(*ev.Referrers()) == 0 {
				if n == "(*golang.org/x/sync/errgroup.Group).Wait" && f.Parent() != nil && w.waitedElsewhere(call) {
					return
				}
				c.Decide(false, "error-used", key, w.Pos(in.Pos()), "the error is discarded")
				return
			}
			c.Ok("error-used", key)
			vals, cells := w.errTaint(f, ev)
			s := &errSpec{w: w, call: cc, idx: e, vals: vals, cells: cells}
			re := errResult(f.Signature)
			rule := "error-returned"
			if re < 0 {
				rule = "error-reported"
			}
			if boolUsed(vals) {
				c.Ok(rule, key)
				return
			}
			fl := newFlow(w, s)
			fl.skip = func(*ssa.Function) bool { return true }
			fl.rel = func(*ssa.Function) bool { return false }
			msg := ""
			for _, o := range fl.Run(f, "idle") {
				if o.kind != "" {
					continue
				}
				switch {
				case strings.HasPrefix(o.st, "failed"):
					if mild && !strings.HasPrefix(n, "strconv.") {
						continue
					}
					if re >= 0 && re < len(o.res) && o.res[re] == '1' {
						continue
					}
					if re < 0 && signals(f, o.res) {
						continue
					}
					msg = "after it failed the function returns normally at " + w.Pos(o.pos)
				case o.st == "logged" && re >= 0 && re < len(o.res) && o.res[re] != '1':
					msg = "its failure is only logged, the function returns success at " + w.Pos(o.pos)
				}
			}
			if s.again && msg == "" && (!mild || strings.HasPrefix(n, "strconv.")) {
				msg = "its failure is forgotten when the loop goes on"
			}
			if s.logloop && msg == "" && re >= 0 {
				msg = "its failure is only logged when the loop goes on"
			}
			if msg != "" && s.mentions(f) {
				msg = ""
			}
			if fl.over {
				msg = "path bound exceeded"
			}
			c.Decide(msg == "", rule, key, w.Pos(in.Pos()), "%s", msg)
		})
	}
}

// onTheWay: the call is part of what is analysed, not of tearing down or printing.
func onTheWay(w *World, call ssa.CallInstruction) bool {
	n := calleeName(call)
	for _, p := range []string{"strconv.", "os.Stat", "path/filepath."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	for _, g := range w.Callees(call) {
		if !w.Own[g.Pkg] {
			return false
		}
	}
	return len(w.Callees(call)) > 0
}

// waitedElsewhere: the group has another Wait, whose error is looked at.
func (w *World) waitedElsewhere(call ssa.CallInstruction) bool {
	r := recvOf(call)
	if r == nil {
		return false
	}
	root := w.cellRoot(w.rootOf(r))
	found := false
	for _, f := range withClosures(outermost(call.Parent())) {
		eachInstr(f, func(in ssa.Instruction) {
			c2, ok := in.(*ssa.Call)
			if !ok || in == ssa.Instruction(call) || calleeName(c2) != calleeName(call) {
				return
			}
			if r2 := recvOf(c2); r2 != nil && w.cellRoot(w.rootOf(r2)) == root && len(*c2.Referrers()) > 0 {
				found = true
			}
		})
	}
	return found
}
