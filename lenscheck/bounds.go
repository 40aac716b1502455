package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// taint computes the values controlled by received data: results of the wire integer primitives, and what is
// computed from them, through parameters and results of repository functions.
type taint struct {
	w   *World
	val map[ssa.Value]bool
	ret map[*ssa.Function]map[int]bool
	fns []*ssa.Function
	src func(c *ssa.Call) bool

	goal  ssa.Value       // the value a test is looked for
	goalB *ssa.BasicBlock // and where it is needed
}

func newTaint(w *World, fns []*ssa.Function, source func(c *ssa.Call) bool) *taint {
	t := &taint{w: w, val: map[ssa.Value]bool{}, ret: map[*ssa.Function]map[int]bool{}, fns: fns, src: source}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v != nil && !t.val[v] {
				t.val[v] = true
				changed = true
			}
		}
		for _, f := range fns {
			eachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Extract:
					if c, ok := in.Tuple.(*ssa.Call); ok {
						if in.Index == 0 && source(c) {
							mark(in)
						}
						for _, g := range w.Callees(c) {
							if t.ret[g][in.Index] {
								mark(in)
							}
						}
					}
				case *ssa.Call:
					if isInt(in.Type()) {
						for _, g := range w.Callees(in) {
							if t.ret[g][0] {
								mark(in)
							}
						}
						if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
							for _, a := range in.Call.Args {
								if t.val[a] {
									mark(in)
								}
							}
						}
					}
					for _, g := range w.Callees(in) {
						for i, p := range g.Params {
							if a := argFor(in, g, i); a != nil && t.val[a] {
								mark(p)
							}
						}
					}
				case *ssa.Convert:
					if t.val[in.X] && isInt(in.Type()) {
						mark(in)
					}
				case *ssa.ChangeType:
					if t.val[in.X] {
						mark(in)
					}
				case *ssa.BinOp:
					if isInt(in.Type()) && (t.val[in.X] || t.val[in.Y]) {
						mark(in)
					}
				case *ssa.Phi:
					for _, e := range in.Edges {
						if t.val[e] && isInt(in.Type()) {
							mark(in)
						}
					}
				case *ssa.Store:
					if t.val[in.Val] {
						if r := w.cellRoot(in.Addr); r != nil {
							if _, ok := r.(*ssa.Alloc); ok {
								mark(r)
							}
						}
					}
				case *ssa.UnOp:
					if in.Op == token.MUL && t.val[w.cellRoot(in.X)] {
						mark(in)
					}
					if o, fld := loadField(in); fld == "ContentLength" && strings.HasSuffix(o, "Request") {
						mark(in)
					}
				case *ssa.Return:
					for i, v := range retVals(in) {
						if t.val[v] && isInt(v.Type()) {
							if t.ret[f] == nil {
								t.ret[f] = map[int]bool{}
							}
							if !t.ret[f][i] {
								t.ret[f][i] = true
								changed = true
							}
						}
					}
				}
			})
		}
	}
	return t
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

const saneBound = 1 << 24

// bounded: on every path to block b, v is at most a constant no greater than saneBound or a value the receiver
// controls itself (configuration).
func (t *taint) bounded(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if d > 12 {
		return false
	}
	if k, ok := constInt(v); ok {
		return k >= 0 && k <= saneBound
	}
	if !t.val[v] {
		return true // not controlled by received data
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if t.bounded(x.X, b, d+1) {
			return true
		}
		if n := bits(x.Type()); n > 0 && n <= 16 {
			return true
		}
	case *ssa.ChangeType:
		if t.bounded(x.X, b, d+1) {
			return true
		}
	case *ssa.Call:
		if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "min" {
			for _, a := range x.Call.Args {
				if t.bounded(a, b, d+1) {
					return true
				}
			}
		}
		if t.resultBounded(x, 0, d) {
			return true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && t.resultBounded(c, x.Index, d) {
			return true
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL:
			kx, cx := constInt(x.X)
			ky, cy := constInt(x.Y)
			if cy && ky <= 64 && t.bounded(x.X, b, d+1) || cx && kx <= 64 && t.bounded(x.Y, b, d+1) {
				return true
			}
			if x.Op == token.ADD && t.bounded(x.X, b, d+1) && t.bounded(x.Y, b, d+1) {
				return true
			}
		case token.QUO, token.SHR:
			if t.bounded(x.X, b, d+1) {
				return true
			}
		case token.REM, token.AND:
			if t.bounded(x.Y, b, d+1) {
				return true
			}
		}
	case *ssa.Phi:
		all := true
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			if !t.boundedEdge(e, x.Block().Preds[i], x.Block(), d+1) {
				all = false
			}
		}
		if all {
			return true
		}
	case *ssa.Parameter:
		f := x.Parent()
		cs := t.w.callersOf[f]
		all := len(cs) > 0
		for _, c := range cs {
			if a := argFor(c, f, paramIndex(x)); a == nil || !t.bounded(a, c.Block(), d+1) {
				all = false
			}
		}
		if all {
			return true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if st := t.w.storesTo(x.X); len(st) > 0 {
				all := true
				for _, s := range st {
					if !t.bounded(s.Val, s.Block(), d+1) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	// a test on the way
	f := b.Parent()
	cv := t.w.canon(v)
	for _, tb := range f.Blocks {
		ifi, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for si := range tb.Succs {
			t.goal, t.goalB = v, b
			if t.implies(ifi.Cond, si == 0, cv, tb, d) && edgeDominates(tb, si, b) {
				return true
			}
		}
	}
	return false
}

// exact: a test of l says something about the goal itself: conversions on the way to l keep the value.
func (t *taint) exact(l ssa.Value, goal ssa.Value, gb *ssa.BasicBlock) bool {
	for {
		if ct, ok := l.(*ssa.ChangeType); ok {
			l = ct.X
			continue
		}
		x, ok := l.(*ssa.Convert)
		if !ok {
			return true
		}
		from, to := bits(x.X.Type()), bits(x.Type())
		same := false // the goal is converted in the same way
		for v := goal; v != nil && !same; {
			switch g := v.(type) {
			case *ssa.Convert:
				same, v = types.Identical(g.Type(), x.Type()), g.X
			case *ssa.ChangeType:
				v = g.X
			case *ssa.Call:
				if bt, ok := g.Call.Value.(*ssa.Builtin); ok && bt.Name() == "min" {
					same = true
				}
				v = nil
			default:
				v = nil
			}
		}
		switch {
		case to < from:
			if !same {
				return false
			}
		case to == from && unsigned(x.X.Type()) && !unsigned(x.Type()):
			if !t.notNegative(x, gb) {
				return false
			}
		}
		l = x.X
	}
}

// notNegative: a test on every way to b rejects negative values of x.
func (t *taint) notNegative(x ssa.Value, b *ssa.BasicBlock) bool {
	if b == nil {
		return false
	}
	cv := t.w.canon(x)
	for _, tb := range b.Parent().Blocks {
		ifi, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for si := range tb.Succs {
			op, l, r := cmp.Op, cmp.X, cmp.Y
			if _, isK := constInt(l); isK {
				l, r, op = r, l, flip(op)
			}
			k, isK := constInt(r)
			if !isK || unsigned(l.Type()) || t.w.canon(l) != cv {
				continue
			}
			if si == 1 {
				op = negate(op)
			}
			if (op == token.GEQ && k >= 0 || op == token.GTR && k >= -1 || op == token.EQL && k >= 0) && edgeDominates(tb, si, b) {
				return true
			}
		}
	}
	return false
}

func unsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (t *taint) boundedEdge(v ssa.Value, pred, to *ssa.BasicBlock, d int) bool {
	if t.bounded(v, pred, d) {
		return true
	}
	if ifi, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok {
		for si, s := range pred.Succs {
			t.goal, t.goalB = v, pred
			if s == to && pred.Succs[1-si] != to && t.implies(ifi.Cond, si == 0, t.w.canon(v), pred, d) {
				return true
			}
		}
	}
	return false
}

// resultBounded: every successful return of the callee returns a bounded value at idx.
func (t *taint) resultBounded(c *ssa.Call, idx, d int) bool {
	cs := t.w.Callees(c)
	if len(cs) == 0 || t.src(c) {
		return false
	}
	for _, g := range cs {
		if !t.w.Own[g.Pkg] || len(g.Blocks) == 0 {
			return false
		}
		ok := true
		eachInstr(g, func(in ssa.Instruction) {
			r, isR := in.(*ssa.Return)
			if !isR {
				return
			}
			vals := retVals(r)
			if idx >= len(vals) {
				ok = false
				return
			}
			if !t.bounded(vals[idx], r.Block(), d+1) {
				ok = false
			}
		})
		if !ok {
			return false
		}
	}
	return true
}

// implies: cond having the given truth value implies that the value with canonical form cv is bounded.
func (t *taint) implies(cond ssa.Value, truth bool, cv string, at *ssa.BasicBlock, d int) bool {
	if d > 12 {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return t.implies(x.X, !truth, cv, at, d+1)
		}
	case *ssa.BinOp:
		op := x.Op
		l, r := x.X, x.Y
		if isNilConst(l) {
			l, r = r, l
		}
		if isNilConst(r) && (op == token.EQL || op == token.NEQ) {
			// err == nil of a checking helper
			if (op == token.EQL) == truth {
				return t.checkerImplies(l, cv, at, d)
			}
			return false
		}
		if t.w.canon(r) == cv {
			l, r = r, l
			op = flip(op)
		}
		if t.w.canon(l) != cv {
			return false
		}
		if !truth {
			op = negate(op)
		}
		switch op {
		case token.LSS, token.LEQ, token.EQL:
			goal, gb := t.goal, t.goalB
			return t.bounded(r, at, d+1) && t.exact(l, goal, gb)
		}
	case *ssa.Call:
		// a predicate helper
		for _, g := range t.w.Callees(x) {
			if !t.w.Own[g.Pkg] {
				return false
			}
			for i, p := range g.Params {
				a := argFor(x, g, i)
				if a == nil || t.w.canon(a) != cv {
					continue
				}
				ok, n := true, 0
				eachInstr(g, func(in ssa.Instruction) {
					rt, isR := in.(*ssa.Return)
					if !isR || len(rt.Results) != 1 {
						return
					}
					v := retVals(rt)[0]
					if c, isC := v.(*ssa.Const); isC && c.Value != nil {
						if c.Value.String() != map[bool]string{true: "true", false: "false"}[truth] {
							return
						}
						n++
						if !t.localBound(p, rt.Block(), d) {
							ok = false
						}
						return
					}
					n++
					if !t.implies(v, truth, t.w.canon(p), rt.Block(), d+1) && !t.localBound(p, rt.Block(), d) {
						ok = false
					}
				})
				if ok && n > 0 {
					return true
				}
			}
		}
	}
	return false
}

// localBound: the parameter is bounded at block b by tests inside its own function.
func (t *taint) localBound(p *ssa.Parameter, b *ssa.BasicBlock, d int) bool {
	cv := t.w.canon(p)
	for _, tb := range b.Parent().Blocks {
		ifi, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for si := range tb.Succs {
			t.goal, t.goalB = p, b
			if t.implies(ifi.Cond, si == 0, cv, tb, d+1) && edgeDominates(tb, si, b) {
				return true
			}
		}
	}
	return false
}

// checkerImplies: the error value e being nil means its producer accepted the value cv.
func (t *taint) checkerImplies(e ssa.Value, cv string, at *ssa.BasicBlock, d int) bool {
	var c *ssa.Call
	idx := 0
	switch e := e.(type) {
	case *ssa.Phi:
		// an error put together on several ways: on each on which it is nil the value was accepted
		for i, x := range e.Edges {
			pred := e.Block().Preds[i]
			if call, ok := x.(*ssa.Call); ok && (calleeName(call) == "fmt.Errorf" || calleeName(call) == "errors.New") {
				continue
			}
			ifi, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
			if !ok || pred.Succs[0] == pred.Succs[1] {
				return false
			}
			truth := pred.Succs[0] == e.Block()
			if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && (cmp.X == x && isNilConst(cmp.Y) || cmp.Y == x && isNilConst(cmp.X)) {
				if (cmp.Op == token.NEQ) == truth {
					continue // not nil on this way
				}
			}
			t.goalB = pred
			if !t.implies(ifi.Cond, truth, cv, pred, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		c = e
	case *ssa.Extract:
		c, _ = e.Tuple.(*ssa.Call)
		idx = e.Index
	}
	if c == nil {
		return false
	}
	for _, g := range t.w.Callees(c) {
		if !t.w.Own[g.Pkg] {
			return false
		}
		for i, p := range g.Params {
			a := argFor(c, g, i)
			if a == nil || t.w.canon(a) != cv {
				continue
			}
			ok, n := true, 0
			eachInstr(g, func(in ssa.Instruction) {
				rt, isR := in.(*ssa.Return)
				if !isR || idx >= len(rt.Results) {
					return
				}
				v := retVals(rt)[idx]
				if !isNilConst(v) {
					if call, isCall := v.(*ssa.Call); isCall && (calleeName(call) == "fmt.Errorf" || calleeName(call) == "errors.New") {
						return
					}
				}
				n++
				if !t.localBound(p, rt.Block(), d) {
					ok = false
				}
			})
			if ok && n > 0 {
				return true
			}
		}
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// edgeDominates: every path from the entry to block t takes edge (b, b.Succs[si]).
func edgeDominates(b *ssa.BasicBlock, si int, t *ssa.BasicBlock) bool {
	f := b.Parent()
	if b.Succs[0] == b.Succs[len(b.Succs)-1] && len(b.Succs) > 1 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == t {
			return false
		}
		for i, s := range x.Succs {
			if x == b && i == si {
				continue
			}
			st = append(st, s)
		}
	}
	return true
}

// below: on every path to block b, idx < n holds by a test (canonical forms).
func (w *World) below(idx ssa.Value, n string, b *ssa.BasicBlock, strict bool) bool {
	ci := w.canon(idx)
	for _, tb := range b.Parent().Blocks {
		ifi, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for si := range tb.Succs {
			op, l, r := cmp.Op, cmp.X, cmp.Y
			if w.canon(r) == ci {
				l, r, op = r, l, flip(op)
			}
			if w.canon(l) != ci || w.canon(r) != n {
				continue
			}
			if si == 1 {
				op = negate(op)
			}
			if (op == token.LSS || !strict && (op == token.LEQ || op == token.EQL)) && edgeDominates(tb, si, b) {
				return true
			}
		}
	}
	return false
}
