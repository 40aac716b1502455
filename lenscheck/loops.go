package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

// loopsOf finds the natural loops of f (merged per header).
func loopsOf(f *ssa.Function) []*loop {
	by := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				by[h] = l
				out = append(out, l)
			}
			l.latch = append(l.latch, b)
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return out
}

// trip describes a counted loop: it runs (bound - first) / step times when the count is counted from 0 or 1.
type trip struct {
	bound ssa.Value
	step  int64
	exact bool // runs exactly ceil(bound/step) times
	why   string
	exit  *ssa.BasicBlock // block of the counting test
}

// tripCount recognises induction loops; nil when the loop is not a counting loop.
func tripCount(l *loop) *trip {
	for b := range l.body {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		in0, in1 := l.body[b.Succs[0]], l.body[b.Succs[1]]
		if in0 == in1 {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		x, y := cmp.X, cmp.Y
		// normalise so that the induction expression is on the left and "true" stays in the loop
		phi, off := inductionOf(x, l)
		if phi == nil {
			phi, off = inductionOf(y, l)
			if phi == nil {
				continue
			}
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !in0 {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		if def, ok := y.(ssa.Instruction); ok && l.body[def.Block()] {
			if !isLenCall(y) { // len(x) of a loop-invariant x is recomputed in the header
				continue
			}
		}
		var init int64
		hasInit := false
		var step int64
		for i, e := range phi.Edges {
			if l.body[phi.Block().Preds[i]] {
				if p, o := inductionOf(e, l); p == phi && o != 0 {
					step = o
				}
			} else if k, ok := constInt(e); ok {
				init, hasInit = k, true
			} else if step == 0 {
				// counting down from a runtime value
				if op == token.GTR || op == token.NEQ {
					if z, ok := constInt(y); ok && z == 0 {
						for j, e2 := range phi.Edges {
							if l.body[phi.Block().Preds[j]] {
								if p, o := inductionOf(e2, l); p == phi && o == -1 {
									return &trip{bound: e, step: 1, exact: off == 0, exit: b}
								}
							}
						}
					}
				}
			}
		}
		if !hasInit || step <= 0 {
			continue
		}
		atHeader := b == l.header
		first := init + off
		want := int64(0)
		if !atHeader {
			first = init + off - step // body has run once before the first test
		}
		switch op {
		case token.LSS, token.NEQ:
			want = 0
		case token.LEQ:
			want = 1
		default:
			continue
		}
		t := &trip{bound: y, step: step, exact: first == want, exit: b}
		if !t.exact {
			t.why = fmt.Sprintf("starts at %d instead of %d", first, want)
		}
		return t
	}
	return nil
}

func isLenCall(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
	}
	if cv, ok := v.(*ssa.Convert); ok {
		return isLenCall(cv.X)
	}
	return false
}

// inductionOf matches phi, phi+k, phi-k of a loop-header phi.
func inductionOf(v ssa.Value, l *loop) (*ssa.Phi, int64) {
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == l.header {
			// must be an induction variable: some in-loop edge is phi+k
			return v, 0
		}
	case *ssa.BinOp:
		if p, ok := v.X.(*ssa.Phi); ok && p.Block() == l.header {
			if k, ok := constInt(v.Y); ok {
				if v.Op == token.ADD {
					return p, k
				} else if v.Op == token.SUB {
					return p, -k
				}
			}
		}
		if p, ok := v.Y.(*ssa.Phi); ok && p.Block() == l.header && v.Op == token.ADD {
			if k, ok := constInt(v.X); ok {
				return p, k
			}
		}
	case *ssa.Convert:
		return inductionOf(v.X, l)
	}
	return nil, 0
}

// canon renders a value structurally so that equal expressions compare equal inside one function.
func (w *World) canon(v ssa.Value) string { return w.canonD(v, 0) }

func (w *World) canonD(v ssa.Value, d int) string {
	if d > 10 {
		return fmt.Sprintf("@%p", v)
	}
	switch v := v.(type) {
	case *ssa.Const:
		if k, ok := constInt(v); ok {
			return fmt.Sprintf("%d", k)
		}
		return v.String()
	case *ssa.Convert:
		return w.canonD(v.X, d+1)
	case *ssa.ChangeType:
		return w.canonD(v.X, d+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			// len(make([]T, n)) is n
			if ms, ok := v.Call.Args[0].(*ssa.MakeSlice); ok {
				return w.canonD(ms.Len, d+1)
			}
			return b.Name() + "(" + w.canonD(v.Call.Args[0], d+1) + ")"
		}
		if v.Call.StaticCallee() != nil && v.Call.StaticCallee().Signature.Results().Len() == 1 && pureName(calleeName(v)) {
			s := calleeName(v) + "("
			for _, a := range v.Call.Args {
				s += w.canonD(a, d+1) + ","
			}
			return s + ")"
		}
	case *ssa.BinOp:
		x, y := w.canonD(v.X, d+1), w.canonD(v.Y, d+1)
		if (v.Op == token.ADD || v.Op == token.MUL) && y < x {
			x, y = y, x
		}
		return "(" + x + v.Op.String() + y + ")"
	case *ssa.UnOp:
		if v.Op == token.MUL {
			root := w.cellRoot(v.X)
			if st := w.storesTo(root); len(st) == 1 {
				return w.canonD(st[0].Val, d+1)
			}
			if o, f, ok := fieldName(v.X); ok {
				base := v.X.(*ssa.FieldAddr).X
				return "*" + o + "." + f + "[" + w.canonD(base, d+1) + "]"
			}
			return fmt.Sprintf("*@%p", root)
		}
		return v.Op.String() + w.canonD(v.X, d+1)
	case *ssa.Field:
		_, f, _ := fieldName(v)
		return w.canonD(v.X, d+1) + "." + f
	case *ssa.FreeVar:
		if b := w.bindingOf(v); b != nil {
			return w.canonD(b, d+1)
		}
	}
	return fmt.Sprintf("@%p", v)
}

func pureName(n string) bool {
	switch n {
	case "(reflect.Value).Len", "(reflect.Value).NumField", "path/filepath.Dir", "path/filepath.Join":
		return true
	}
	return false
}

// containerLoop finds the loops of f that walk over a container (slice elements read by index, or a map range).
type elemLoop struct {
	l     *loop
	elems []ssa.Value // the values denoting the current element (loads, or element addresses)
	cont  ssa.Value
}

func (w *World) elemLoops(f *ssa.Function, is func(v ssa.Value) bool) []elemLoop {
	var out []elemLoop
	for _, l := range w.loops(f) {
		el := elemLoop{l: l}
		for _, b := range f.Blocks {
			if !l.body[b] || w.innermost(f, b) != l {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if p, _ := inductionOf(x.Index, l); p == nil || onlyStored(x) {
						continue
					}
					if is(x.X) {
						if el.cont == nil || !w.boundsLoop(l, el.cont) {
							el.cont = x.X
						}
						el.elems = append(el.elems, x)
						for _, r := range *x.Referrers() {
							if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
								el.elems = append(el.elems, ld)
							}
						}
					}
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok && is(rg.X) {
						el.cont = rg.X
						for _, r := range *x.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
								el.elems = append(el.elems, e)
							}
						}
					}
				}
			}
		}
		if el.cont != nil {
			out = append(out, el)
		}
	}
	return out
}

// onlyStored: the element is written, never read.
func onlyStored(x *ssa.IndexAddr) bool {
	refs := *x.Referrers()
	for _, r := range refs {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(x) {
			return false
		}
	}
	return len(refs) > 0
}

// boundsLoop: the loop counts up to the length of this container.
func (w *World) boundsLoop(l *loop, cont ssa.Value) bool {
	t := tripCount(l)
	if t == nil {
		return countsDown(w, l, cont)
	}
	if isLenCall(t.bound) {
		a := lenArg(t.bound)
		return w.canon(a) == w.canon(cont) || sameLoad(a, cont)
	}
	if k, ok := constInt(t.bound); ok {
		return k == arrayLen(cont)
	}
	return false
}

// arrayLen: the length of an array (or of a slice over a whole array); -1 when not one.
func arrayLen(v ssa.Value) int64 {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		return arrayLen(s.X)
	}
	t := v.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (w *World) innermost(f *ssa.Function, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range w.loops(f) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	// loopsOf makes new objects: match by header
	if best == nil {
		return nil
	}
	return best
}

func (w *World) loops(f *ssa.Function) []*loop {
	if w.loopMemo == nil {
		w.loopMemo = map[*ssa.Function][]*loop{}
	}
	if l, ok := w.loopMemo[f]; ok {
		return l
	}
	l := loopsOf(f)
	w.loopMemo[f] = l
	return l
}

// visitsAll: the loop is left only when its container is exhausted, it starts at the first element, and every
// iteration passes a block for which does() holds. "" when shown.
func (w *World) visitsAll(el elemLoop, does func(in ssa.Instruction) bool) string {
	return w.visitsAllOr(el, does, false)
}

// failsOnly: from this block on the function can only end with an error.
func failsOnly(b *ssa.BasicBlock) bool {
	e := errResult(b.Parent().Signature)
	if e < 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			vs := retVals(r)
			if e >= len(vs) || isNilConst(vs[e]) {
				return false
			}
			if ph, ok := vs[e].(*ssa.Phi); ok && len(seen) > 1 {
				for i, q := range ph.Block().Preds {
					if seen[q] && isNilConst(ph.Edges[i]) {
						return false
					}
				}
			}
		}
		st = append(st, x.Succs...)
	}
	return true
}

// visitsAllOr is visitsAll; with errOK the loop may also be left by failing.
func (w *World) visitsAllOr(el elemLoop, does func(in ssa.Instruction) bool, errOK bool) string {
	l := el.l
	var test *ssa.BasicBlock
	for b := range l.body {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return "is left early at " + w.Pos(b.Instrs[len(b.Instrs)-1].Pos())
		}
		for _, s := range b.Succs {
			if l.body[s] {
				continue
			}
			if b == l.header {
				test = b
				continue
			}
			if errOK && failsOnly(s) {
				continue
			}
			pos := s.Instrs[0].Pos()
			for _, in := range s.Instrs {
				if in.Pos().IsValid() {
					pos = in.Pos()
					break
				}
			}
			return "is left before all elements were visited, at " + w.Pos(pos)
		}
	}
	if test == nil {
		return "never ends"
	}
	if _, isMap := el.cont.Type().Underlying().(*types.Map); !isMap {
		t := tripCount(l)
		if t != nil {
			if !t.exact || t.step != 1 {
				return "does not visit every element"
			}
			if !w.boundsLoop(l, el.cont) {
				return "does not run over the whole list"
			}
		} else if !countsDown(w, l, el.cont) {
			return "cannot be shown to visit every element"
		}
	}
	if sl, ok := el.cont.(*ssa.Slice); ok {
		if k, isK := int64(0), sl.Low == nil; !isK {
			k, isK = constInt(sl.Low)
			if !isK || k != 0 {
				return "leaves out the first elements of the list"
			}
		}
		if sl.High != nil && !(isLenCall(sl.High) && sameLoad(lenArg(sl.High), sl.X)) {
			return "leaves out the last elements of the list"
		}
	}
	if does == nil {
		return ""
	}
	// can an iteration come back to the header without doing it?
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for _, s := range l.header.Succs {
		if l.body[s] {
			st = append(st, s)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == l.header {
			return "may skip an element"
		}
		hit := false
		for _, in := range b.Instrs {
			if does(in) {
				hit = true
			}
		}
		if hit {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] {
				st = append(st, s)
			}
		}
	}
	return ""
}

func lenArg(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Call:
		return x.Call.Args[0]
	case *ssa.Convert:
		return lenArg(x.X)
	}
	return nil
}

// sameLoad: two loads of the same field of the same object (or cell).
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return a == b
	}
	if x.X == y.X {
		return true
	}
	f1, ok1 := x.X.(*ssa.FieldAddr)
	f2, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f1.Field == f2.Field && f1.X == f2.X
}

// countsDown: the loop counts from len(cont)-1 down to 0.
func countsDown(w *World, l *loop, cont ssa.Value) bool {
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		down, start := false, false
		for _, e := range ph.Edges {
			b, ok := e.(*ssa.BinOp)
			if !ok {
				continue
			}
			one := false
			if k, ok := constInt(b.Y); ok {
				one = b.Op == token.SUB && k == 1 || b.Op == token.ADD && k == -1
			}
			if one && b.X == ssa.Value(ph) {
				down = true
			} else if one && isLenCall(b.X) && (sameLoad(lenArg(b.X), cont) || w.canon(lenArg(b.X)) == w.canon(cont)) {
				start = true
			}
		}
		if !down || !start {
			continue
		}
		if ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
			if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && cmp.X == ssa.Value(ph) {
				k, ok := constInt(cmp.Y)
				if ok && (cmp.Op == token.GEQ && k == 0 || cmp.Op == token.GTR && k == -1) {
					return true
				}
			}
		}
	}
	return false
}
