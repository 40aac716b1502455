package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive, interprocedural typestate engine.
//
// A Spec describes a finite automaton whose state is a string; the engine pushes that state along every path of a
// function, entering the repository functions it calls (deferred calls run at the exits, closures handed to external
// functions may run any number of times). Branches on the nil-ness of errors, functions and pointers and on booleans
// are correlated with the call outcome that produced them.

const (
	triFalse   = 0 // nil / false
	triTrue    = 1 // non-nil / true
	triUnknown = 2
)

type Out struct {
	st   string
	res  string // one digit per result: 0 nil/false, 1 non-nil/true, 2 unknown
	kind string // "" return, "panic", "exit"
	pos  token.Pos
}

func (o Out) key() string { return o.st + "\x00" + o.res + "\x00" + o.kind }

type Frame struct {
	fn      *ssa.Function
	tracked map[ssa.Value]bool // values denoting the tracked object
	fl      *Flow
	mask    string
}

// Has reports whether v denotes the tracked object in this frame.
func (fr *Frame) Has(v ssa.Value) bool { return fr.tracked[v] }

type Spec interface {
	// Event returns the successor states of an instruction; handled=false lets the engine apply its default
	// (enter the callee, or no effect).
	Event(fr *Frame, in ssa.Instruction, st string) (outs []Out, handled bool)
}

// deferAware specs are told when a deferred call is registered.
type deferAware interface {
	OnDefer(fr *Frame, d *ssa.Defer, st string) string
}

type Flow struct {
	liveObject bool // a followed value is never nil

	w       *World
	spec    Spec
	memo    map[string][]Out
	prog    map[string]bool
	done    map[string]bool // explored in this round
	changed bool
	steps   int
	limit   int
	over    bool
	depth   int
	skip    func(f *ssa.Function) bool // do not enter
	reach   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	relMemo map[*ssa.Function]bool
	rel     func(f *ssa.Function) bool // relevance: functions that can affect the state (nil = all)
	keep    func(v ssa.Value) bool     // facts kept from block to block (nil = all)
	narrow  bool                       // enter only functions the tracked object is handed to (directly or in a closure)
	roots   map[ssa.Value]bool         // cells denoting the tracked object, in any frame
}

func newFlow(w *World, spec Spec) *Flow {
	return &Flow{w: w, spec: spec, memo: map[string][]Out{}, prog: map[string]bool{}, done: map[string]bool{}, limit: 400000,
		reach: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, roots: map[ssa.Value]bool{}}
}

// Run explores fn from state st; seeds are the parameters or free variables denoting the tracked object.
func (fl *Flow) Run(fn *ssa.Function, st string, seeds ...ssa.Value) []Out {
	for i := 0; i < 12; i++ {
		fl.changed = false
		fl.prog, fl.done = map[string]bool{}, map[string]bool{}
		out := fl.explore(fn, st, seeds)
		if !fl.changed {
			return out
		}
	}
	fl.over = true
	return fl.explore(fn, st, seeds)
}

func seedMask(fn *ssa.Function, seeds []ssa.Value) string {
	var p []string
	for i, q := range fn.Params {
		for _, s := range seeds {
			if s == ssa.Value(q) {
				p = append(p, fmt.Sprintf("p%d", i))
			}
		}
	}
	for i, q := range fn.FreeVars {
		for _, s := range seeds {
			if s == ssa.Value(q) {
				p = append(p, fmt.Sprintf("f%d", i))
			}
		}
	}
	for _, s := range seeds {
		if in, ok := s.(ssa.Instruction); ok && in.Parent() == fn {
			p = append(p, s.Name())
		}
	}
	return strings.Join(p, ",")
}

type pstate struct {
	st     string
	facts  map[ssa.Value]int
	defers []*ssa.Defer
}

func (p pstate) clone() pstate {
	q := pstate{st: p.st, facts: make(map[ssa.Value]int, len(p.facts)), defers: append([]*ssa.Defer(nil), p.defers...)}
	for k, v := range p.facts {
		q.facts[k] = v
	}
	return q
}

func (p pstate) key() string {
	var fs []string
	for k, v := range p.facts {
		if v == triUnknown {
			continue
		}
		fs = append(fs, fmt.Sprintf("%s=%d", k.Name(), v))
	}
	sort.Strings(fs)
	var ds []string
	for _, d := range p.defers {
		ds = append(ds, fmt.Sprint(d.Pos()))
	}
	return p.st + "|" + strings.Join(fs, ",") + "|" + strings.Join(ds, ",")
}

func addOut(outs []Out, o Out) []Out {
	for _, x := range outs {
		if x.key() == o.key() {
			return outs
		}
	}
	return append(outs, o)
}

func (fl *Flow) exploreKey(fn *ssa.Function, st string, seeds []ssa.Value, init map[ssa.Value]int) string {
	var fs []string
	for i, p := range fn.Params {
		if t, ok := init[p]; ok {
			fs = append(fs, fmt.Sprintf("p%d=%d", i, t))
		}
	}
	for i, p := range fn.FreeVars {
		if t, ok := init[p]; ok {
			fs = append(fs, fmt.Sprintf("f%d=%d", i, t))
		}
	}
	return FnName(fn) + fmt.Sprint(fn.Pos()) + "\x01" + seedMask(fn, seeds) + "\x01" + st + "\x01" + strings.Join(fs, ",")
}

// initFacts: what the caller knows about the arguments and captured cells of the function it enters.
func (fl *Flow) initFacts(fr *Frame, c ssa.CallInstruction, g *ssa.Function, ps pstate) map[ssa.Value]int {
	init := map[ssa.Value]int{}
	for i, p := range g.Params {
		switch p.Type().Underlying().(type) {
		case *types.Interface, *types.Signature:
		case *types.Basic:
			if p.Type().Underlying().(*types.Basic).Kind() != types.Bool {
				continue
			}
		default:
			continue
		}
		if a := argFor(c, g, i); a != nil {
			if t := fl.eval(fr, a, ps.facts, 0); t != triUnknown {
				init[p] = t
			}
		}
	}
	if len(g.FreeVars) > 0 {
		if mc := fl.w.closureOf(g); mc != nil && mc.Parent() == fr.fn {
			for i, b := range mc.Bindings {
				if i < len(g.FreeVars) {
					if t, ok := ps.facts[b]; ok && t != triUnknown {
						init[g.FreeVars[i]] = t
					}
				}
			}
		}
	}
	return init
}

func (fl *Flow) explore(fn *ssa.Function, st string, seeds []ssa.Value) []Out {
	return fl.exploreWith(fn, st, seeds, nil)
}

func (fl *Flow) exploreWith(fn *ssa.Function, st string, seeds []ssa.Value, init map[ssa.Value]int) []Out {
	mask := seedMask(fn, seeds)
	key := fl.exploreKey(fn, st, seeds, init)
	if fl.prog[key] || fl.done[key] || fl.depth > 60 {
		return fl.memo[key]
	}
	fl.prog[key] = true
	fl.depth++
	defer func() { fl.depth-- }()
	fr := &Frame{fn: fn, fl: fl, mask: mask, tracked: fl.w.aliases(fn, seeds)}
	for t := range fr.tracked {
		switch t.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			fl.roots[fl.w.cellRoot(t)] = true
		}
	}
	var outs []Out
	type item struct {
		b   *ssa.BasicBlock
		pre int
		ps  pstate
	}
	seen := map[string]bool{}
	perBlock := map[*ssa.BasicBlock]int{}
	var q []item
	push := func(b *ssa.BasicBlock, pre int, ps pstate) {
		ps = ps.clone()
		fl.prune(fn, b, ps.facts)
		if fl.keep != nil {
			for v := range ps.facts {
				if !fl.keep(v) {
					delete(ps.facts, v)
				}
			}
		}
		k := fmt.Sprintf("%d|", b.Index) + ps.key()
		if perBlock[b] > 400 { // too many correlated facts: drop them (coarser, still every path)
			ps.facts = map[ssa.Value]int{}
			k = fmt.Sprintf("%d|", b.Index) + ps.key()
		}
		// phis make the predecessor matter
		if hasPhi(b) {
			k += fmt.Sprintf("|p%d", pre)
		}
		if seen[k] {
			return
		}
		seen[k] = true
		perBlock[b]++
		q = append(q, item{b, pre, ps})
	}
	start := map[ssa.Value]int{}
	for k, v := range init {
		start[k] = v
	}
	push(fn.Blocks[0], 0, pstate{st: st, facts: start})
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		fl.steps++
		if fl.steps > fl.limit {
			fl.over = true
			break
		}
		states := []pstate{it.ps}
		// phis
		for i := range states {
			upd := map[ssa.Value]int{}
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if it.pre < len(ph.Edges) {
					upd[ph] = fl.eval(fr, ph.Edges[it.pre], states[i].facts, 0)
					if first, ok := countUp(ph); ok { // a counter: 1 = first iteration, 0 = a later one
						upd[ph] = b2t(it.pre == first)
					}
				}
			}
			for k, v := range upd {
				states[i].facts[k] = v
			}
		}
		dead := false
		for _, in := range it.b.Instrs {
			var next []pstate
			for _, ps := range states {
				ns, o := fl.step(fr, in, ps)
				next = append(next, ns...)
				for _, x := range o {
					outs = addOut(outs, x)
				}
			}
			states = dedupStates(next)
			if len(states) == 0 {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		switch last := last.(type) {
		case *ssa.If:
			for _, ps := range states {
				v := fl.eval(fr, last.Cond, ps.facts, 0)
				if v != triFalse {
					p := ps.clone()
					if v == triUnknown {
						fl.learn(fr, last.Cond, triTrue, p.facts)
					}
					push(it.b.Succs[0], predIdx(it.b.Succs[0], it.b, 0), p)
				}
				if v != triTrue {
					p := ps.clone()
					if v == triUnknown {
						fl.learn(fr, last.Cond, triFalse, p.facts)
					}
					push(it.b.Succs[1], predIdx(it.b.Succs[1], it.b, 1), p)
				}
			}
		case *ssa.Jump:
			for _, ps := range states {
				push(it.b.Succs[0], predIdx(it.b.Succs[0], it.b, 0), ps)
			}
		}
	}
	old := fl.memo[key]
	for _, o := range outs {
		n := addOut(old, o)
		if len(n) != len(old) {
			fl.changed = true
		}
		old = n
	}
	fl.memo[key] = old
	delete(fl.prog, key)
	fl.done[key] = true
	return old
}

func hasPhi(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func dedupStates(s []pstate) []pstate {
	if len(s) < 2 {
		return s
	}
	seen := map[string]bool{}
	var out []pstate
	for _, x := range s {
		k := x.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, x)
		}
	}
	return out
}

// prune drops facts about values that are not used from block b on.
func (fl *Flow) prune(fn *ssa.Function, b *ssa.BasicBlock, facts map[ssa.Value]int) {
	for v, t := range facts {
		if t == triUnknown {
			delete(facts, v)
			continue
		}
		switch v.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
			continue
		}
		refs := v.Referrers()
		live := false
		if refs != nil {
			for _, r := range *refs {
				if r.Block() != nil && (r.Block() == b || fl.reaches(fn, b, r.Block())) {
					live = true
					break
				}
			}
		}
		if !live {
			delete(facts, v)
		}
	}
}

func (fl *Flow) reaches(fn *ssa.Function, a, b *ssa.BasicBlock) bool {
	m := fl.reach[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		fl.reach[fn] = m
	}
	r := m[a]
	if r == nil {
		r = map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock(nil), a.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if r[x] {
				continue
			}
			r[x] = true
			st = append(st, x.Succs...)
		}
		m[a] = r
	}
	return r[b]
}

// eval gives the three-valued nil-ness / truth of v.
func (fl *Flow) eval(fr *Frame, v ssa.Value, facts map[ssa.Value]int, d int) int {
	if d > 12 {
		return triUnknown
	}
	if t, ok := facts[v]; ok && t != triUnknown {
		if _, isCell := v.(*ssa.Alloc); !isCell {
			if _, isFV := v.(*ssa.FreeVar); !isFV {
				return t
			}
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return triTrue
			}
			return triFalse
		}
		if v.IsNil() {
			return triFalse
		}
	case *ssa.MakeInterface:
		return triTrue
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.IndexAddr:
		return triTrue
	case *ssa.ChangeInterface:
		return fl.eval(fr, v.X, facts, d+1)
	case *ssa.ChangeType:
		return fl.eval(fr, v.X, facts, d+1)
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT:
			switch fl.eval(fr, v.X, facts, d+1) {
			case triTrue:
				return triFalse
			case triFalse:
				return triTrue
			}
		case token.MUL:
			if g, ok := v.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
				return triTrue // package-level sentinel error
			}
			if t, ok := facts[v.X]; ok {
				return t
			}
		}
	case *ssa.BinOp:
		if t, ok := fl.firstOrdered(v, facts); ok {
			return t
		}
		if v.Op == token.EQL || v.Op == token.NEQ {
			x, y := v.X, v.Y
			if isNilConst(x) {
				x, y = y, x
			}
			if isNilConst(y) {
				switch fl.eval(fr, x, facts, d+1) {
				case triFalse:
					return b2t(v.Op == token.EQL)
				case triTrue:
					return b2t(v.Op == token.NEQ)
				}
				if fl.liveObject && fr.Has(x) {
					return b2t(v.Op == token.NEQ) // what is followed exists
				}
				return triUnknown
			}
			if t, ok := firstIteration(fl.w.throughCell(x), y, facts); ok {
				return b2t(t == (v.Op == token.EQL))
			}
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				a, b := fl.eval(fr, x, facts, d+1), fl.eval(fr, y, facts, d+1)
				if a != triUnknown && b != triUnknown {
					return b2t((a == b) == (v.Op == token.EQL))
				}
			}
		}
	case *ssa.Call:
		switch calleeName(v) {
		case "fmt.Errorf", "errors.New":
			return triTrue
		}
	}
	return triUnknown
}

// throughCell: a load of a variable that is assigned exactly once denotes the assigned value.
func (w *World) throughCell(v ssa.Value) ssa.Value {
	for i := 0; i < 6; i++ {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return v
		}
		switch ld.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
		default:
			return v
		}
		st := w.storesTo(ld.X)
		if len(st) != 1 {
			return v
		}
		v = st[0].Val
	}
	return v
}

// countUp: ph counts up from a constant; returns the index of the edge that enters the loop.
func countUp(ph *ssa.Phi) (int, bool) {
	entry := -1
	for i, e := range ph.Edges {
		if _, ok := constInt(e); ok {
			if entry >= 0 {
				return 0, false
			}
			entry = i
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return 0, false
		}
		if k, ok := constInt(b.Y); !ok || k <= 0 {
			return 0, false
		}
	}
	return entry, entry >= 0 && len(ph.Edges) > 1
}

// firstIteration decides i == c for a loop counter i that has the value c exactly in the first iteration.
func firstIteration(x, y ssa.Value, facts map[ssa.Value]int) (bool, bool) {
	c, ok := constInt(y)
	if !ok {
		return false, false
	}
	k := int64(0)
	if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok = constInt(b.Y); !ok {
			return false, false
		}
		x = b.X
	}
	ph, ok := x.(*ssa.Phi)
	if !ok {
		return false, false
	}
	e, ok := countUp(ph)
	if !ok {
		return false, false
	}
	c0, _ := constInt(ph.Edges[e])
	if c0+k != c {
		return false, false
	}
	t, ok := facts[ph]
	if !ok || t == triUnknown {
		return false, false
	}
	return t == triTrue, true
}

// firstOrdered: i > c, i >= c+1 and their opposites tell the first iteration from the later ones like i == c does.
func (fl *Flow) firstOrdered(v *ssa.BinOp, facts map[ssa.Value]int) (int, bool) {
	x, y, op := v.X, v.Y, v.Op
	if _, ok := constInt(x); ok {
		x, y, op = y, x, flip(op)
	}
	k, ok := constInt(y)
	if !ok {
		return 0, false
	}
	switch op {
	case token.GTR, token.LEQ:
	case token.GEQ, token.LSS:
		k--
	default:
		return 0, false
	}
	first, ok := firstIteration(fl.w.throughCell(x), ssa.NewConst(constant.MakeInt64(k), y.Type()), facts)
	if !ok {
		return 0, false
	}
	return b2t(first == (op == token.LEQ || op == token.LSS)), true
}

func b2t(b bool) int {
	if b {
		return triTrue
	}
	return triFalse
}

// learn records what taking a branch says about values.
func (fl *Flow) learn(fr *Frame, cond ssa.Value, t int, facts map[ssa.Value]int) {
	switch v := cond.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			fl.learn(fr, v.X, 1-t, facts)
			return
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			x, y := v.X, v.Y
			if isNilConst(x) {
				x, y = y, x
			}
			if isNilConst(y) {
				nilness := triTrue
				if (v.Op == token.EQL) == (t == triTrue) {
					nilness = triFalse
				}
				facts[x] = nilness
				if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
					switch ld.X.(type) {
					case *ssa.Alloc, *ssa.FreeVar:
						facts[ld.X] = nilness
					}
				}
				if ph, ok := x.(*ssa.Phi); ok {
					_ = ph
				}
				return
			}
		}
	case *ssa.Call:
		if t == triTrue {
			switch calleeName(v) {
			case "errors.Is", "os.IsNotExist", "os.IsExist", "errors.As":
				facts[v.Call.Args[0]] = triTrue
			}
		}
	}
	if refs := cond.Referrers(); refs != nil && len(*refs) > 1 {
		facts[cond] = t
	}
}

func (fl *Flow) bind(in ssa.Value, res string, facts map[ssa.Value]int) {
	delete(facts, in)
	refs := in.Referrers()
	sig := 0
	if tup, ok := in.Type().(*types.Tuple); ok {
		sig = tup.Len()
		for _, r := range *refs {
			if e, ok := r.(*ssa.Extract); ok {
				delete(facts, e)
				if e.Index < len(res) && res[e.Index] != '2' {
					facts[e] = int(res[e.Index] - '0')
				}
			}
		}
		return
	}
	_ = sig
	if len(res) == 1 && res[0] != '2' {
		facts[in] = int(res[0] - '0')
	}
}

// step pushes one path state over one instruction.
func (fl *Flow) step(fr *Frame, in ssa.Instruction, ps pstate) ([]pstate, []Out) {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump:
		return []pstate{ps}, nil
	case *ssa.Store:
		if outs, ok := fl.spec.Event(fr, in, ps.st); ok {
			return fl.apply(in, outs, ps)
		}
		switch in.Addr.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			ps = ps.clone()
			ps.facts[in.Addr] = fl.eval(fr, in.Val, ps.facts, 0)
		}
		return []pstate{ps}, nil
	case *ssa.Defer:
		ps = ps.clone()
		for _, d := range ps.defers {
			if d == in { // a defer in a loop: once is enough for the state
				return []pstate{ps}, nil
			}
		}
		ps.defers = append(ps.defers, in)
		if da, ok := fl.spec.(deferAware); ok {
			ps.st = da.OnDefer(fr, in, ps.st)
		}
		return []pstate{ps}, nil
	case *ssa.RunDefers:
		return fl.runDefers(fr, ps)
	case *ssa.Return:
		if outs, ok := fl.spec.Event(fr, in, ps.st); ok {
			var o []Out
			for _, x := range outs {
				o = append(o, Out{st: x.st, res: fl.resOf(fr, in, ps), pos: in.Pos()})
			}
			return nil, o
		}
		return nil, []Out{{st: ps.st, res: fl.resOf(fr, in, ps), pos: in.Pos()}}
	case *ssa.Panic:
		var o []Out
		for _, p := range first(fl.runDefers(fr, ps)) {
			o = append(o, Out{st: p.st, kind: "panic", pos: in.Pos()})
		}
		return nil, o
	case *ssa.Go:
		if outs, ok := fl.spec.Event(fr, in, ps.st); ok {
			return fl.apply(in, outs, ps)
		}
		return []pstate{ps}, nil
	case *ssa.Call:
		if isExit(in) {
			return nil, []Out{{st: ps.st, kind: "exit", pos: in.Pos()}}
		}
		if outs, ok := fl.spec.Event(fr, in, ps.st); ok {
			return fl.apply(in, outs, ps)
		}
		return fl.apply(in, fl.call(fr, in, ps), ps)
	}
	if outs, ok := fl.spec.Event(fr, in, ps.st); ok {
		return fl.apply(in, outs, ps)
	}
	if al, ok := in.(*ssa.Alloc); ok { // a new cell holds its zero value
		switch e := deref(al.Type()).Underlying().(type) {
		case *types.Interface, *types.Signature, *types.Pointer:
			ps = ps.clone()
			ps.facts[al] = triFalse
		case *types.Basic:
			if e.Kind() == types.Bool {
				ps = ps.clone()
				ps.facts[al] = triFalse
			}
		}
		return []pstate{ps}, nil
	}
	if v, ok := in.(ssa.Value); ok {
		if _, has := ps.facts[v]; has {
			switch v.(type) {
			case *ssa.Extract, *ssa.Alloc:
			default:
				ps = ps.clone()
				delete(ps.facts, v)
			}
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if t, ok := ps.facts[ld.X]; ok && t != triUnknown {
				switch ld.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					ps = ps.clone()
					ps.facts[ld] = t
				}
			}
		}
	}
	return []pstate{ps}, nil
}

func first(a []pstate, _ []Out) []pstate { return a }

func isExit(c *ssa.Call) bool {
	switch calleeName(c) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit":
		return true
	}
	return false
}

func (fl *Flow) resOf(fr *Frame, r *ssa.Return, ps pstate) string {
	s := ""
	vals := retVals(r)
	for i, v := range r.Results {
		t := fl.eval(fr, v, ps.facts, 0)
		if t == triUnknown && vals[i] != v {
			// the cell may have been changed by a deferred closure: only trust it when the cell is not captured
			if ld, ok := v.(*ssa.UnOp); ok {
				if al, ok := ld.X.(*ssa.Alloc); ok && !captured(al) {
					t = fl.eval(fr, vals[i], ps.facts, 0)
				}
			}
		}
		s += string(rune('0' + t))
	}
	return s
}

func captured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func (fl *Flow) apply(in ssa.Instruction, outs []Out, ps pstate) ([]pstate, []Out) {
	var next []pstate
	var fin []Out
	for _, o := range outs {
		if o.kind == "exit" {
			fin = append(fin, Out{st: o.st, kind: "exit", pos: in.Pos()})
			continue
		}
		p := ps.clone()
		p.st = o.st
		if o.kind == "panic" {
			fin = append(fin, Out{st: o.st, kind: "panic", pos: in.Pos()})
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			fl.bind(v, o.res, p.facts)
		}
		if c, ok := in.(*ssa.Call); ok {
			fl.forgetCells(c, p.facts)
		}
		next = append(next, p)
	}
	return next, fin
}

// forgetCells drops facts about cells a call may have changed (captured by a closure it can run, or passed by address).
func (fl *Flow) forgetCells(c *ssa.Call, facts map[ssa.Value]int) {
	var drop func(v ssa.Value, d int)
	drop = func(v ssa.Value, d int) {
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			delete(facts, v)
		case *ssa.MakeClosure:
			for i, b := range v.Bindings {
				fn := v.Fn.(*ssa.Function)
				if i < len(fn.FreeVars) && writesCell(fn, fn.FreeVars[i], 0) {
					drop(b, d+1)
				}
			}
		case *ssa.ChangeType:
			drop(v.X, d+1)
		}
	}
	for _, a := range c.Call.Args {
		if _, ok := a.(*ssa.FreeVar); ok && !c.Call.IsInvoke() {
			delete(facts, a)
			continue
		}
		drop(a, 0)
	}
	drop(c.Call.Value, 0)
	if ld, ok := c.Call.Value.(*ssa.UnOp); ok {
		for _, s := range fl.w.storesTo(ld.X) {
			drop(s.Val, 0)
		}
	}
}

func writesCell(fn *ssa.Function, fv *ssa.FreeVar, d int) bool {
	if d > 5 || fv.Referrers() == nil {
		return d > 5
	}
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			f2 := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == fv && i < len(f2.FreeVars) && writesCell(f2, f2.FreeVars[i], d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (fl *Flow) runDefers(fr *Frame, ps pstate) ([]pstate, []Out) {
	states := []pstate{ps.clone()}
	states[0].defers = nil
	for i := len(ps.defers) - 1; i >= 0; i-- {
		d := ps.defers[i]
		var next []pstate
		for _, s := range states {
			var outs []Out
			if o, ok := fl.spec.Event(fr, d, s.st); ok {
				outs = o
			} else {
				outs = fl.call(fr, d, s)
			}
			for _, o := range outs {
				p := s.clone()
				p.st = o.st
				// cells changed by deferred closures
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					for i, b := range mc.Bindings {
						if i < len(fn.FreeVars) && writesCell(fn, fn.FreeVars[i], 0) {
							delete(p.facts, b)
						}
					}
				}
				next = append(next, p)
			}
		}
		states = dedupStates(next)
	}
	return states, nil
}

// call is the default treatment of a call: enter repository functions, run callbacks of external ones any number of times.
func (fl *Flow) call(fr *Frame, c ssa.CallInstruction, ps pstate) []Out {
	com := c.Common()
	res := unknownRes(com.Signature())
	var outs []Out
	callees := fl.w.Callees(c)
	entered := false
	for _, g := range callees {
		if len(g.Blocks) == 0 || !fl.w.Own[g.Pkg] && (g.Origin() == nil || !fl.w.Own[g.Origin().Pkg]) {
			continue
		}
		if fl.skip != nil && fl.skip(g) {
			continue
		}
		if fl.rel != nil && !fl.relevant(g) {
			continue
		}
		seeds := fl.seedsFor(fr, c, g)
		if fl.narrow && len(seeds) == 0 && !fl.handsClosure(fr, c) {
			continue
		}
		entered = true
		init := fl.initFacts(fr, c, g, ps)
		rs := fl.exploreWith(g, ps.st, seeds, init)
		for _, o := range rs {
			o.pos = c.Pos()
			outs = addOut(outs, o)
		}
		if len(rs) == 0 {
			// recursion still being solved, or the callee never returns
			if fl.prog[fl.exploreKey(g, ps.st, seeds, init)] {
				fl.changed = true
			}
		}
	}
	if entered && !com.IsInvoke() {
		return outs
	}
	if entered {
		return outs
	}
	res = fl.fixedRes(fr, callees, res)
	// external: callbacks
	cbs := fl.callbacks(c)
	cur := []string{ps.st}
	if onceCallback(calleeName(c)) && len(cbs) == 1 && len(res) == 1 && (fl.rel == nil || fl.relevant(cbs[0].fn)) {
		outs = addOut(outs, Out{st: ps.st, res: "1"}) // failed before the callback
		for _, o := range fl.explore(cbs[0].fn, ps.st, fl.seedsForClosure(fr, cbs[0])) {
			if o.kind != "" {
				outs = addOut(outs, o)
				continue
			}
			r := "2"
			if len(o.res) == 1 && o.res == "1" {
				r = "1"
			}
			outs = addOut(outs, Out{st: o.st, res: r})
		}
		return outs
	}
	if len(cbs) > 0 {
		seen := map[string]bool{ps.st: true}
		for i := 0; i < len(cur) && i < 40; i++ {
			for _, cb := range cbs {
				if fl.rel != nil && !fl.relevant(cb.fn) {
					continue
				}
				for _, o := range fl.explore(cb.fn, cur[i], fl.seedsForClosure(fr, cb)) {
					if o.kind == "" && !seen[o.st] {
						seen[o.st] = true
						cur = append(cur, o.st)
					}
				}
			}
		}
	}
	for _, s := range cur {
		outs = addOut(outs, Out{st: s, res: res})
	}
	if strings.HasPrefix(calleeName(c), "errors.Join") {
		for i := range outs {
			outs[i].res = "2"
		}
	}
	return outs
}

// fixedRes: results which are the same, nil or not, on every way out of the (not explored) callees.
func (fl *Flow) fixedRes(fr *Frame, callees []*ssa.Function, res string) string {
	if len(callees) == 0 || len(res) == 0 {
		return res
	}
	out := []byte(res)
	for i := range out {
		t, known := triUnknown, true
		for _, g := range callees {
			if len(g.Blocks) == 0 || !fl.w.Own[g.Pkg] {
				known = false
				break
			}
			for _, b := range g.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				vs := retVals(r)
				if i >= len(vs) {
					known = false
					break
				}
				e := fl.eval(fr, vs[i], nil, 0)
				if e == triUnknown || t != triUnknown && t != e {
					known = false
					break
				}
				t = e
			}
		}
		switch {
		case !known || t == triUnknown:
		case t == triTrue:
			out[i] = '1'
		case t == triFalse:
			out[i] = '0'
		}
	}
	return string(out)
}

// onceCallback: library functions that call their callback exactly once and return its error, or fail before.
func onceCallback(n string) bool {
	switch n {
	case "(*" + badgerPkg + ".DB).View", "(*" + badgerPkg + ".DB).Update", "(*" + badgerPkg + ".Item).Value":
		return true
	}
	return false
}

func unknownRes(sig *types.Signature) string {
	return strings.Repeat("2", sig.Results().Len())
}

type callback struct {
	fn *ssa.Function
	mc *ssa.MakeClosure
}

// callbacks lists the repository functions passed as arguments to an external call.
func (fl *Flow) callbacks(c ssa.CallInstruction) []callback {
	var out []callback
	for _, a := range c.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		for _, f := range fl.w.funcsOf(a, map[ssa.Value]bool{}) {
			if len(f.Blocks) > 0 && fl.w.Own[f.Pkg] {
				out = append(out, callback{f, fl.w.closureOf(f)})
			}
		}
	}
	return out
}

func (fl *Flow) seedsForClosure(fr *Frame, cb callback) []ssa.Value {
	var seeds []ssa.Value
	if cb.mc == nil {
		return nil
	}
	for i, b := range cb.mc.Bindings {
		if i < len(cb.fn.FreeVars) && fr.tracked[b] {
			seeds = append(seeds, cb.fn.FreeVars[i])
		}
	}
	return seeds
}

// seedsFor maps tracked arguments and captured values to the callee's parameters and free variables.
func (fl *Flow) seedsFor(fr *Frame, c ssa.CallInstruction, g *ssa.Function) []ssa.Value {
	var seeds []ssa.Value
	for i, p := range g.Params {
		if a := argFor(c, g, i); a != nil && fr.tracked[a] {
			seeds = append(seeds, p)
		}
	}
	if len(g.FreeVars) > 0 {
		if mc := fl.w.closureOf(g); mc != nil {
			same := mc.Parent() == fr.fn
			for i, b := range mc.Bindings {
				if i >= len(g.FreeVars) {
					break
				}
				if same && fr.tracked[b] {
					seeds = append(seeds, g.FreeVars[i])
				} else if !same {
					// called from elsewhere: compare the captured cell's definition
					if fl.roots[fl.w.cellRoot(b)] {
						seeds = append(seeds, g.FreeVars[i])
					}
				}
			}
		}
	}
	return seeds
}

// handsClosure: the call enters, or passes on, a function that captures the tracked object (itself or through a
// function it captures).
func (fl *Flow) handsClosure(fr *Frame, c ssa.CallInstruction) bool {
	for _, cb := range fl.callbacks(c) {
		if fl.captures(cb.fn, 0) {
			return true
		}
	}
	for _, g := range fl.w.Callees(c) {
		if fl.captures(g, 0) {
			return true
		}
	}
	return false
}

func (fl *Flow) captures(f *ssa.Function, d int) bool {
	if d > 4 || len(f.FreeVars) == 0 {
		return false
	}
	mc := fl.w.closureOf(f)
	if mc == nil {
		return false
	}
	for _, b := range mc.Bindings {
		if fl.roots[fl.w.cellRoot(b)] {
			return true
		}
		t := b.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if _, ok := t.Underlying().(*types.Signature); !ok {
			continue
		}
		for _, s := range fl.w.storesTo(b) {
			for _, g := range fl.w.funcsOf(s.Val, map[ssa.Value]bool{}) {
				if fl.captures(g, d+1) {
					return true
				}
			}
		}
		for _, g := range fl.w.funcsOf(b, map[ssa.Value]bool{}) {
			if fl.captures(g, d+1) {
				return true
			}
		}
	}
	return false
}

// relevant: g or something it calls can change the state.
func (fl *Flow) relevant(g *ssa.Function) bool {
	if fl.relMemo == nil {
		fl.relMemo = map[*ssa.Function]bool{}
	}
	if r, ok := fl.relMemo[g]; ok {
		return r
	}
	// transitive closure
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if fl.rel(f) {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range fl.w.Callees(c) {
						if fl.w.Own[h.Pkg] && walk(h) {
							return true
						}
					}
					for _, cb := range fl.callbacks(c) {
						if walk(cb.fn) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r := walk(g)
	fl.relMemo[g] = r
	return r
}

// aliases closes a set of values under copies, phis, interface conversions and local cells, within one function.
func (w *World) aliases(fn *ssa.Function, seeds []ssa.Value) map[ssa.Value]bool {
	al := map[ssa.Value]bool{}
	var st []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !al[v] {
			al[v] = true
			st = append(st, v)
		}
	}
	for _, s := range seeds {
		add(s)
	}
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Phi:
				add(r)
			case *ssa.ChangeType:
				add(r)
			case *ssa.ChangeInterface:
				add(r)
			case *ssa.MakeInterface:
				add(r)
			case *ssa.TypeAssert:
				if !r.CommaOk {
					add(r)
				}
			case *ssa.Store:
				if r.Val == v {
					switch r.Addr.(type) {
					case *ssa.Alloc, *ssa.FreeVar:
						add(r.Addr)
					}
				}
			case *ssa.UnOp:
				if r.Op == token.MUL && r.X == v {
					add(r)
				}
			}
		}
	}
	return al
}
