package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkMessageBounds }

// decoderFns: repository functions reachable from the registered HTTP handlers that take part in decoding.
func (w *World) decoderFns() (fns []*ssa.Function, handlers []endpointSide) {
	seen := map[*ssa.Function]bool{}
	x := &wireX{w: w, side: decSide}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || f.Pkg != w.Lens {
			return
		}
		seen[f] = true
		if x.performsIO(f, map[*ssa.Function]bool{}) {
			fns = append(fns, f)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(c) {
					walk(g)
				}
			}
		})
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	hs := w.handlers()
	var ps []string
	for p := range hs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		for _, h := range hs[p] {
			walk(h.fn)
			handlers = append(handlers, h)
		}
	}
	for _, n := range []string{"(*lensReader).readField", "(*lensReader).readValue"} {
		walk(w.Func(n))
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	return
}

func checkMessageBounds(c *Check) {
	w := c.W
	c.Rule("allocation-bound", "memory is sized from a received number only when a test against a constant (at most 2^24) or a configured maximum rejects larger numbers on every path to it", 6)
	c.Rule("index-range", "an element is addressed by a received number, or stored at a position counted up to one, only below the length of the list, on every path to it", 6)
	c.Rule("recursion-bound", "every recursive cycle of the decoder passes a nesting test that rejects, and counts the nesting", 1)
	c.Rule("reject-on-error", "a handler answers a request it could not decode with a status of 400 or above, and delivers only messages that decoded without error", 4)
	c.Rule("decode-error", "in a decoder function the failure of a read or of a part makes every path return an error", 20)
	c.Assume("message bodies are consumed through the decoder's primitives; memory proportional to the data actually received is not bounded here (http.Server and the client bound it)")
	fns, handlers := w.decoderFns()
	if len(fns) < 4 {
		c.Bad("allocation-bound", "anchors", "-", "only %d decoder functions found", len(fns))
		return
	}
	memo := map[*ssa.Function]string{}
	t := newTaint(w, fns, func(call *ssa.Call) bool {
		n := calleeName(call)
		if n == "encoding/binary.ReadUvarint" || n == "encoding/binary.ReadVarint" {
			return true
		}
		for _, g := range w.Callees(call) {
			switch wirePrim(w, decSide, g, memo) {
			case "VARINT", "SVARINT", "FIX64":
				return true
			}
		}
		return false
	})
	seq := map[string]int{}
	key := func(f *ssa.Function, what string) string {
		k := localName(f) + " " + what
		seq[k]++
		return fmt.Sprintf("%s #%d", k, seq[k])
	}
	for _, f := range fns {
		eachInstr(f, func(in ssa.Instruction) {
			alloc := func(v ssa.Value, what string) {
				if v == nil || !t.val[v] {
					return
				}
				c.Decide(t.bounded(v, in.Block(), 0), "allocation-bound", key(f, what), w.Pos(in.Pos()), "the size comes from the message and no test bounds it on every path")
			}
			switch in := in.(type) {
			case *ssa.MakeSlice:
				alloc(in.Len, "make")
				if in.Cap != in.Len {
					alloc(in.Cap, "make cap")
				}
			case *ssa.MakeMap:
				alloc(in.Reserve, "make map")
			case *ssa.MakeChan:
				alloc(in.Size, "make chan")
			case *ssa.Call:
				switch n := calleeName(in); n {
				case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "slices.Grow", "strings.Repeat", "bytes.Repeat":
					alloc(in.Call.Args[len(in.Call.Args)-1], n)
				}
			case *ssa.IndexAddr:
				checkIndex(c, t, f, in, in.X, in.Index, key)
			case *ssa.Index:
				checkIndex(c, t, f, in, in.X, in.Index, key)
			case *ssa.Slice:
				for _, b := range []ssa.Value{in.Low, in.High, in.Max} {
					if b != nil && t.val[b] {
						n := "len(" + w.canon(in.X) + ")"
						c.Decide(w.below(b, n, in.Block(), false) || w.below(b, lenCanon(w, in.X), in.Block(), false), "index-range", key(f, "slice bound"), w.Pos(in.Pos()), "the bound comes from the message and is not tested against the length")
					}
				}
			}
		})
	}
	checkRecursion(c, fns)
	checkDecodeErrors(c, fns)
	for _, h := range handlers {
		checkHandler(c, h)
	}
}

func lenCanon(w *World, x ssa.Value) string {
	if ms, ok := x.(*ssa.MakeSlice); ok {
		return w.canon(ms.Len)
	}
	if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if st := w.storesTo(ld.X); len(st) == 1 {
			return lenCanon(w, st[0].Val)
		}
	}
	if a, ok := deref(x.Type()).Underlying().(*types.Array); ok {
		return fmt.Sprint(a.Len())
	}
	return "len(" + w.canon(x) + ")"
}

func checkIndex(c *Check, t *taint, f *ssa.Function, in ssa.Instruction, x, idx ssa.Value, key func(*ssa.Function, string) string) {
	w := t.w
	if _, ok := constInt(idx); ok {
		return
	}
	sized := false // the list was sized by a received number
	if ms := makeOf(w, x, 0); ms != nil && t.val[ms.Len] {
		sized = true
	}
	if !t.val[idx] && !sized {
		return
	}
	ln := lenCanon(w, x)
	ok := w.below(idx, ln, in.Block(), true) || w.below(idx, "len("+w.canon(x)+")", in.Block(), true)
	if a, isA := deref(x.Type()).Underlying().(*types.Array); isA && !ok {
		// an array indexed by a masked value
		if b, isB := idx.(*ssa.BinOp); isB && (b.Op == token.AND || b.Op == token.REM) {
			if k, isK := constInt(b.Y); isK && (b.Op == token.AND && k < a.Len() || b.Op == token.REM && k <= a.Len()) {
				ok = true
			}
		}
	}
	c.Decide(ok, "index-range", key(f, "index"), w.Pos(in.Pos()), "no test keeps the position below the length of the list on every path")
}

func makeOf(w *World, x ssa.Value, d int) *ssa.MakeSlice {
	if d > 6 {
		return nil
	}
	switch x := x.(type) {
	case *ssa.MakeSlice:
		return x
	case *ssa.UnOp:
		if st := w.storesTo(x.X); len(st) == 1 {
			return makeOf(w, st[0].Val, d+1)
		}
	case *ssa.ChangeType:
		return makeOf(w, x.X, d+1)
	}
	return nil
}

// checkRecursion: a strongly connected component of the decoder's call graph needs a nesting guard on each of its cycles.
func checkRecursion(c *Check, fns []*ssa.Function) {
	w := c.W
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	succ := func(f *ssa.Function, skipGuarded bool) []*ssa.Function {
		var out []*ssa.Function
		eachInstr(f, func(i ssa.Instruction) {
			if call, ok := i.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(call) {
					if in[g] && !(skipGuarded && nestingGuard(w, f, call)) {
						out = append(out, g)
					}
				}
			}
		})
		return out
	}
	cyc := func(skip bool) []*ssa.Function {
		var out []*ssa.Function
		for _, f := range fns {
			seen := map[*ssa.Function]bool{}
			st := succ(f, skip)
			for len(st) > 0 {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				if g == f {
					out = append(out, f)
					break
				}
				if seen[g] {
					continue
				}
				seen[g] = true
				st = append(st, succ(g, skip)...)
			}
		}
		return out
	}
	all, left := cyc(false), cyc(true)
	unguarded := map[*ssa.Function]bool{}
	for _, f := range left {
		unguarded[f] = true
	}
	for _, f := range all {
		c.Decide(!unguarded[f], "recursion-bound", localName(f), w.Pos(f.Pos()), "a message can make this function recurse without bound: no nesting test dominates the recursive call")
	}
	if len(all) == 0 {
		c.Ok("recursion-bound", "decoder is not recursive")
	}
	// the counter is one for the whole message and is only counted up and down
	inCycle := map[*ssa.Function]bool{}
	counters := map[string]bool{}
	for _, f := range all {
		inCycle[f] = true
		eachInstr(f, func(i ssa.Instruction) {
			if countStep(i, "") != 0 {
				_, fld, _ := fieldName(i.(*ssa.Store).Addr)
				counters[fld] = true
			}
			if call, ok := i.(*ssa.Call); ok && call.Call.StaticCallee() != nil && w.own(call.Call.StaticCallee()) {
				if fld := w.countsAndTests(call.Call.StaticCallee()); fld != "" && errResult(call.Call.Signature()) >= 0 {
					counters[fld] = true
				}
			}
		})
	}
	// a count handed down as a parameter
	counted := map[*ssa.Parameter]bool{}
	own := func(v ssa.Value) *ssa.Parameter {
		for {
			switch x := v.(type) {
			case *ssa.Parameter:
				return x
			case *ssa.BinOp:
				v = x.X
				if _, ok := constInt(x.X); ok {
					v = x.Y
				}
			case *ssa.Convert:
				v = x.X
			default:
				return nil
			}
		}
	}
	for _, f := range all {
		for _, b := range f.Blocks {
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && cmp.Op != token.EQL && cmp.Op != token.NEQ {
					for _, v := range []ssa.Value{cmp.X, cmp.Y} {
						if q := own(v); q != nil && isInt(q.Type()) && failsSide(b) {
							counted[q] = true
						}
					}
				}
			}
		}
	}
	calls := func(f *ssa.Function, do func(g *ssa.Function, i int, arg ssa.Value)) {
		eachInstr(f, func(i ssa.Instruction) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(ci) {
					if inCycle[g] {
						for k := range g.Params {
							if a := argFor(ci, g, k); a != nil {
								do(g, k, a)
							}
						}
					}
				}
			}
		})
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			calls(f, func(g *ssa.Function, k int, a ssa.Value) {
				if q := own(a); q != nil && counted[g.Params[k]] && !counted[q] {
					counted[q], changed = true, true
				}
			})
		}
	}
	for _, f := range all {
		kept := true
		calls(f, func(g *ssa.Function, k int, a ssa.Value) {
			if !counted[g.Params[k]] {
				return
			}
			if _, isK := a.(*ssa.Const); isK {
				kept = false
			}
		})
		eachInstr(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store:
				if _, fld, ok := fieldName(x.Addr); ok && counters[fld] && countStep(i, fld) == 0 {
					if ld, isLd := x.Val.(*ssa.UnOp); !isLd || ld.Op != token.MUL { // a saved count put back is fine
						kept = false
					}
				}
			case ssa.CallInstruction:
				for _, g := range w.Callees(x) {
					if !inCycle[g] || g.Signature.Recv() == nil || f.Signature.Recv() == nil || !types.Identical(g.Signature.Recv().Type(), f.Signature.Recv().Type()) {
						continue
					}
					switch argFor(x, g, 0).(type) {
					case *ssa.Alloc, *ssa.Call:
						kept = false
					}
				}
			}
		})
		c.Decide(kept, "recursion-bound", localName(f)+" keeps the count", w.Pos(f.Pos()), "the nesting count is set back (or a reader with a count of its own is used) inside of the recursion")
	}
}

// failsSide: one side of the test does nothing but fail.
func failsSide(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if failsOnly(s) {
			return true
		}
	}
	return false
}

// nestingGuard: the call is dominated by the accepting edge of a test of a nesting counter (a field or parameter)
// against a bound, and the counter is increased on the way.
func nestingGuard(w *World, f *ssa.Function, call ssa.CallInstruction) bool {
	b := call.Block()
	for _, tb := range f.Blocks {
		ifi, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for si := range tb.Succs {
			op, l, r := cmp.Op, cmp.X, cmp.Y
			if _, isC := constInt(l); isC {
				l, r, op = r, l, flip(op)
			}
			k, isC := constInt(r)
			if isC && k > 1<<20 {
				continue
			}
			if si == 1 {
				op = negate(op)
			}
			if op != token.LSS && op != token.LEQ || !edgeDominates(tb, si, b) {
				continue
			}
			// l is a counter: strip +1
			if bo, ok := l.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if _, isK := constInt(bo.Y); isK {
					l = bo.X
				}
			}
			switch l := l.(type) {
			case *ssa.Parameter:
				for _, g := range w.Callees(call) {
					for i := range g.Params {
						if a, ok := argFor(call, g, i).(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ssa.Value(l) {
							return true
						}
					}
				}
			case *ssa.UnOp:
				if _, fld, ok := fieldName(l.X); ok && w.netCount(f, fld, call) > 0 {
					return true
				}
			}
		}
	}
	// a helper which tests and counts, its refusal passed on
	for _, tb := range f.Blocks {
		if !tb.Dominates(b) {
			continue
		}
		for _, in := range tb.Instrs {
			e, ok := in.(*ssa.Call)
			if !ok || e.Call.StaticCallee() == nil || !w.own(e.Call.StaticCallee()) || errResult(e.Call.Signature()) < 0 {
				continue
			}
			fld := w.countsAndTests(e.Call.StaticCallee())
			ev := resultAt(e, errResult(e.Call.Signature()))
			if fld == "" || ev == nil || w.netCount(f, fld, call) < 0 {
				continue
			}
			for _, ib := range f.Blocks {
				ifi, ok := ib.Instrs[len(ib.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				cmp, ok := ifi.Cond.(*ssa.BinOp)
				if !ok || cmp.X != ev && cmp.Y != ev || !isNilConst(cmp.X) && !isNilConst(cmp.Y) {
					continue
				}
				si := 0
				if cmp.Op == token.NEQ {
					si = 1
				}
				if edgeDominates(ib, si, b) {
					return true
				}
			}
		}
	}
	return false
}

// netCount: how often the counter is increased, less decreased, on every way to the call.
func (w *World) netCount(f *ssa.Function, fld string, call ssa.CallInstruction) int {
	net := 0
	for _, sb := range f.Blocks {
		if !sb.Dominates(call.Block()) {
			continue
		}
		for _, in := range sb.Instrs {
			if in == ssa.Instruction(call) {
				break
			}
			net += countStep(in, fld)
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && w.own(c.Call.StaticCallee()) && len(c.Call.StaticCallee().Blocks) == 1 {
				for _, in := range c.Call.StaticCallee().Blocks[0].Instrs {
					net += countStep(in, fld)
				}
			}
		}
	}
	return net
}

func countStep(in ssa.Instruction, fld string) int {
	st, ok := in.(*ssa.Store)
	if !ok {
		return 0
	}
	_, f2, ok := fieldName(st.Addr)
	if !ok || fld != "" && f2 != fld {
		return 0
	}
	if bo, ok := st.Val.(*ssa.BinOp); ok {
		if _, f3 := loadField(bo.X); f3 != f2 {
			return 0
		}
		switch bo.Op {
		case token.ADD:
			return 1
		case token.SUB:
			return -1
		}
	}
	return 0
}

// countsAndTests: the counter the function increases whenever it returns no error, after testing it against a constant.
func (w *World) countsAndTests(g *ssa.Function) string {
	re := errResult(g.Signature)
	for _, tb := range g.Blocks {
		ifi, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for si := range tb.Succs {
			op, l, r := cmp.Op, cmp.X, cmp.Y
			if _, isC := constInt(l); isC {
				l, r, op = r, l, flip(op)
			}
			if k, isC := constInt(r); !isC || k > 1<<20 {
				continue
			}
			if si == 1 {
				op = negate(op)
			}
			if op != token.LSS && op != token.LEQ {
				continue
			}
			if bo, ok := l.(*ssa.BinOp); ok && bo.Op == token.ADD {
				l = bo.X
			}
			ld, ok := l.(*ssa.UnOp)
			if !ok {
				continue
			}
			_, fld, ok := fieldName(ld.X)
			if !ok {
				continue
			}
			good := true
			for _, b := range g.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || !isNilConst(retVals(rt)[re]) {
					continue
				}
				up := false
				for _, sb := range g.Blocks {
					for _, in := range sb.Instrs {
						if sb.Dominates(b) && countStep(in, fld) > 0 {
							up = true
						}
					}
				}
				good = good && up && edgeDominates(tb, si, b)
			}
			if good {
				return fld
			}
		}
	}
	return ""
}

// checkDecodeErrors: no decoder function returns success after a part of it failed.
func checkDecodeErrors(c *Check, fns []*ssa.Function) {
	w := c.W
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	for _, f := range fns {
		re := errResult(f.Signature)
		if re < 0 {
			continue
		}
		num := map[string]int{}
		eachInstr(f, func(i ssa.Instruction) {
			call, ok := i.(*ssa.Call)
			if !ok {
				return
			}
			e := errResult(call.Call.Signature())
			if e < 0 {
				return
			}
			n := calleeName(call)
			reads := strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "(io.") || strings.HasPrefix(n, "encoding/binary.Read")
			for _, g := range w.Callees(call) {
				reads = reads || in[g]
			}
			if !reads {
				return
			}
			num[n]++
			key := fmt.Sprintf("%s: %s (%d)", localName(f), shortPkg(n), num[n])
			ev := resultAt(call, e)
			if ev == nil || ev.Referrers() == nil || len(*ev.Referrers()) == 0 {
				c.Bad("decode-error", key, w.Pos(i.Pos()), "the error is discarded")
				return
			}
			vals, cells := w.errTaint(f, ev)
			s := &errSpec{w: w, call: call, idx: e, vals: vals, cells: cells, strict: true}
			fl := newFlow(w, s)
			fl.skip = func(*ssa.Function) bool { return true }
			fl.rel = func(*ssa.Function) bool { return false }
			msg := ""
			for _, o := range fl.Run(f, "idle") {
				if o.kind == "" && (strings.HasPrefix(o.st, "failed") || o.st == "logged") && re < len(o.res) && o.res[re] == '0' {
					msg = "after it failed success is returned at " + w.Pos(o.pos)
				}
			}
			if s.again && msg == "" {
				msg = "its failure is forgotten when the loop goes on"
			}
			c.Decide(msg == "", "decode-error", key, w.Pos(i.Pos()), "%s", msg)
		})
	}
}

type handlerSpec struct {
	w         *World
	bad       map[string]token.Pos
	delivered bool
	memo      map[*ssa.Function]int
}

// responds: the function (or what it calls) answers the request or delivers a message.
func (h *handlerSpec) responds(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	r := false
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && !r {
			n := calleeName(c)
			if n == "net/http.Error" || n == "(net/http.ResponseWriter).WriteHeader" || isDelivery(c) {
				r = true
				return
			}
			for _, g := range h.w.Callees(c) {
				if h.w.Own[g.Pkg] && h.responds(g, seen) {
					r = true
				}
			}
		}
	})
	return r
}

func isDelivery(c ssa.CallInstruction) bool {
	n := calleeName(c)
	return c.Common().IsInvoke() && strings.HasPrefix(n, "(lens.") && len(c.Common().Args) > 0
}

func (h *handlerSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	switch n := calleeName(c); n {
	case "net/http.Error", "(net/http.ResponseWriter).WriteHeader":
		args := c.Common().Args
		code, known := constInt(args[len(args)-1])
		if known && code >= 400 || !known && n == "net/http.Error" {
			return []Out{{st: "rejected"}}, true
		}
		if st == "bad" {
			h.bad["answers an undecodable message as a success"] = in.Pos()
		}
		return []Out{{st: st}}, true
	}
	if isDelivery(c) {
		h.delivered = true
		if st != "ok" {
			h.bad["delivers a message that did not decode"] = in.Pos()
		}
		return []Out{{st: "delivered"}}, true
	}
	if _, isCall := in.(*ssa.Call); !isCall {
		return nil, false
	}
	x := &wireX{w: h.w, side: decSide}
	for _, g := range h.w.Callees(c) {
		if h.w.Own[g.Pkg] && x.performsIO(g, map[*ssa.Function]bool{}) && !h.responds(g, map[*ssa.Function]bool{}) {
			rs := g.Signature.Results()
			if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
				continue
			}
			pad := strings.Repeat("2", rs.Len()-1)
			return []Out{{st: "ok", res: pad + "0"}, {st: "bad", res: pad + "1"}}, true
		}
	}
	return nil, false
}

func checkHandler(c *Check, h endpointSide) {
	w := c.W
	sp := &handlerSpec{w: w, bad: map[string]token.Pos{}}
	fl := newFlow(w, sp)
	outs := fl.Run(h.fn, "start")
	key := localName(h.fn)
	if fl.over {
		c.Bad("reject-on-error", key, w.Pos(h.fn.Pos()), "path bound exceeded")
		return
	}
	if len(outs) == 0 {
		c.Bad("reject-on-error", key, w.Pos(h.fn.Pos()), "no path through the handler")
		return
	}
	for _, o := range outs {
		switch o.st {
		case "bad":
			sp.bad["returns without an error status after a message that did not decode"] = o.pos
		case "start":
			sp.bad["returns without decoding and without an error status"] = o.pos
		case "ok":
			if sp.delivered {
				sp.bad["drops a decoded message"] = o.pos
			}
		}
	}
	var ks []string
	for k := range sp.bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		c.Bad("reject-on-error", key, w.Pos(sp.bad[ks[0]]), "%s", strings.Join(ks, "; "))
		return
	}
	c.Ok("reject-on-error", key)
}
