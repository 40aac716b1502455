package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ioFuncs lists the repository functions of one side reachable from the roots, primitives excluded.
func ioFuncs(w *World, side wireSide, roots []*ssa.Function, memo map[*ssa.Function]string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	x := &wireX{w: w, side: side}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != w.Lens || len(f.Blocks) == 0 || !x.performsIO(f, map[*ssa.Function]bool{}) {
			return
		}
		seen[f] = true
		if p := wirePrim(w, side, f, memo); p != "" && p != "STR" {
			return
		}
		out = append(out, f)
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				for _, g := range w.Callees(c) {
					walk(g)
				}
			}
		})
	}
	for _, r := range roots {
		walk(r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func checkCountedLoops(c *Check, encF *ssa.Function, memoE, memoD map[*ssa.Function]string) {
	w := c.W
	var er, dr []*ssa.Function
	for _, s := range w.senders() {
		for _, e := range s {
			er = append(er, e.fn)
		}
	}
	er = append(er, encF)
	for _, s := range w.handlers() {
		for _, e := range s {
			dr = append(dr, e.fn)
		}
	}
	packed := map[wireSide]int{}
	bitOrder := map[wireSide]map[string]bool{encSide: {}, decSide: {}}
	for side, roots := range map[wireSide][]*ssa.Function{encSide: er, decSide: dr} {
		memo := memoE
		if side == decSide {
			memo = memoD
		}
		for _, f := range ioFuncs(w, side, roots, memo) {
			x := &wireX{w: w, side: side, primC: memo}
			eachInstr(f, func(in ssa.Instruction) {
				if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.SHL || b.Op == token.SHR) {
					if _, isConst := constInt(b.Y); !isConst && bits(b.Type()) <= 8 {
						sh := shiftShape(b.Y, 0)
						if _, k := constInt(b.X); k && b.Op == token.SHR { // a mask moved down
							sh = "from the top " + sh
						}
						bitOrder[side][sh] = true
					}
				}
			})
			isIO := func(in ssa.Instruction) (*ssa.Call, bool) {
				call, ok := in.(*ssa.Call)
				if !ok {
					return nil, false
				}
				if isRawIO(side, call) {
					return call, true
				}
				for _, g := range w.Callees(call) {
					if g.Pkg == w.Lens && x.performsIO(g, map[*ssa.Function]bool{}) {
						return call, true
					}
				}
				return nil, false
			}
			// counts seen in f: encoder VARINT arguments, decoder VARINT results
			type cnt struct {
				canon string
				in    ssa.Instruction
			}
			var counts []cnt
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				for _, g := range w.Callees(call) {
					isCount := wirePrim(w, side, g, memo) == "VARINT"
					if side == decSide && !isCount && g.Pkg == w.Lens && g.Signature.Results().Len() == 2 &&
						bits(g.Signature.Results().At(0).Type()) >= 32 && x.performsIO(g, map[*ssa.Function]bool{}) {
						isCount = true // a helper returning a checked count
					}
					if isCount {
						if side == encSide {
							counts = append(counts, cnt{w.canon(call.Call.Args[len(call.Call.Args)-1]), call})
						} else if v := tagValue(call); v != nil {
							counts = append(counts, cnt{w.canon(v), call})
						}
					}
				}
			})
			matches := func(canon string, at ssa.Instruction) bool {
				for _, k := range counts {
					if k.canon == canon && precedes(k.in, at) {
						return true
					}
				}
				return false
			}
			anyBefore := func(at ssa.Instruction) bool {
				for _, k := range counts {
					if precedes(k.in, at) {
						return true
					}
				}
				return false
			}
			li := 0
			for _, l := range loopsOf(f) {
				evBlocks := map[*ssa.BasicBlock]bool{}
				for b := range l.body {
					for _, in := range b.Instrs {
						if _, ok := isIO(in); ok {
							evBlocks[b] = true
						}
					}
				}
				if len(evBlocks) == 0 {
					continue
				}
				li++
				key := fmt.Sprintf("%s loop#%d", localName(f), li)
				t := tripCount(l)
				if t == nil {
					continue // not a counting loop: the grammar comparison alone applies
				}
				hpos := w.Pos(l.header.Instrs[0].Pos())
				if p := blockPos(l.header); p.IsValid() {
					hpos = w.Pos(p)
				}
				if !anyBefore(l.header.Instrs[0]) {
					continue // the count is handled by the caller
				}
				bc := w.canon(t.bound)
				if t.step == 8 {
					packed[side]++
				} else if inner, ok := ceil8(w, t.bound); ok {
					packed[side]++
					bc = inner
				}
				if !t.exact {
					c.Bad("counted-loops", key, hpos, "the loop %s, so it does not run once per counted item", t.why)
					continue
				}
				if t.step != 1 && t.step != 8 {
					c.Bad("counted-loops", key, hpos, "the loop advances by %d", t.step)
					continue
				}
				if !matches(bc, l.header.Instrs[0]) {
					c.Bad("counted-loops", key, hpos, "the loop bound is not any count %s before it", map[wireSide]string{encSide: "written", decSide: "read"}[side])
					continue
				}
				// every iteration moves at least one primitive
				if !everyIteration(l, evBlocks) {
					c.Bad("counted-loops", key, hpos, "an iteration can complete without moving an item although it was counted")
					continue
				}
				// no early exit on success
				bad := ""
				iv := &winv{x: x, f: f}
				for b := range l.body {
					for si, s := range b.Succs {
						if l.body[s] || b == t.exit {
							continue
						}
						if side == encSide {
							bad = "the loop can be left before all counted items are written"
							continue
						}
						ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
						if ok {
							if v, known := iv.cond(ifi.Cond, b, -1, -1); known && v != (si == 0) {
								continue
							}
						}
						if !rejectsOnly(x, s, map[*ssa.BasicBlock]bool{}) {
							bad = "the loop can be left before all counted items are read, without rejecting the message"
						}
					}
				}
				c.Decide(bad == "", "counted-loops", key, hpos, "%s", bad)
			}
			// raw bytes are as long as announced
			ri := 0
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || !isRawIO(side, call) {
					return
				}
				ri++
				key := fmt.Sprintf("%s raw#%d", localName(f), ri)
				var lc string
				switch calleeName(call) {
				case "(io.Writer).Write":
					lc = w.canon2Len(call.Call.Args[0])
				case "io.WriteString", "io.ReadFull", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
					lc = w.canon2Len(call.Call.Args[1])
				case "io.CopyN":
					lc = w.canon(call.Call.Args[2])
				default:
					return
				}
				if !anyBefore(call) {
					return
				}
				c.Decide(matches(lc, call), "counted-loops", key, w.Pos(call.Pos()), "the number of raw bytes moved is not the length announced before them")
			})
		}
	}
	if eo, do := keys(bitOrder[encSide]), keys(bitOrder[decSide]); len(eo) > 0 && len(do) > 0 {
		c.Decide(strings.Join(eo, ",") == strings.Join(do, ","), "counted-loops", "bit order of packed booleans", "-", "the client places bits by %v, the server takes them by %v", eo, do)
	}
	c.Decide((packed[encSide] > 0) == (packed[decSide] > 0), "counted-loops", "bit-packing on both sides", "-", "booleans are packed eight to a byte on one side only (encoder loops %d, decoder loops %d)", packed[encSide], packed[decSide])
}

func (w *World) canon2Len(v ssa.Value) string {
	if ms, ok := v.(*ssa.MakeSlice); ok {
		return w.canon(ms.Len)
	}
	if sl, ok := v.(*ssa.Slice); ok && sl.High != nil && sl.Low == nil {
		return w.canon(sl.High)
	}
	return "len(" + w.canon(v) + ")"
}

// ceil8 matches (x+7)/8 and (x+7)>>3.
func ceil8(w *World, v ssa.Value) (string, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return "", false
	}
	k, _ := constInt(b.Y)
	if !(b.Op == token.QUO && k == 8 || b.Op == token.SHR && k == 3) {
		return "", false
	}
	a, ok := b.X.(*ssa.BinOp)
	if !ok || a.Op != token.ADD {
		return "", false
	}
	if k, ok := constInt(a.Y); ok && k == 7 {
		return w.canon(a.X), true
	}
	if k, ok := constInt(a.X); ok && k == 7 {
		return w.canon(a.Y), true
	}
	return "", false
}

// precedes: a is executed before b on every path to b.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// everyIteration: no cycle through the header avoids all event blocks.
func everyIteration(l *loop, ev map[*ssa.BasicBlock]bool) bool {
	if ev[l.header] {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{}
	for _, s := range l.header.Succs {
		if l.body[s] && !ev[s] {
			st = append(st, s)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if b == l.header {
			return false
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, s := range b.Succs {
			if l.body[s] && !ev[s] {
				st = append(st, s)
			}
		}
	}
	return true
}

// rejectsOnly: every return reachable from b returns a non-nil error (an I/O error variable counts: it was tested).
func rejectsOnly(x *wireX, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Return:
			for _, r := range retVals(in) {
				if isErrorType(r.Type()) {
					return !isNilConst(r)
				}
			}
			return false
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if strings.HasPrefix(calleeName(in), "net/http.Error") {
				return true
			}
		}
	}
	for _, s := range b.Succs {
		if !rejectsOnly(x, s, seen) {
			return false
		}
	}
	return true
}

// shiftShape renders a shift distance with loop counters and other variables anonymous.
func shiftShape(v ssa.Value, d int) string {
	if k, ok := constInt(v); ok {
		return fmt.Sprint(k)
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return shiftShape(v.X, d)
	case *ssa.ChangeType:
		return shiftShape(v.X, d)
	case *ssa.BinOp:
		if d < 4 {
			if v.Op == token.REM || v.Op == token.AND { // i%8 and i&7 run through the same positions as a counter below 8
				if k, ok := constInt(v.Y); ok && (v.Op == token.REM && k == 8 || v.Op == token.AND && k == 7) {
					return "i"
				}
			}
			return "(" + shiftShape(v.X, d+1) + v.Op.String() + shiftShape(v.Y, d+1) + ")"
		}
	}
	return "i"
}
