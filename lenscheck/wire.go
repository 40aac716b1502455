package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- wire automata ----------
//
// An encoder or decoder function is turned into a nondeterministic automaton over the primitive I/O operations it
// performs (its helpers are inlined, the recursive field codec stays a nonterminal). Agreement between the two sides
// is language inclusion both ways, decided by subset construction.

type sym struct {
	op    string // BYTE VARINT SVARINT FIX64 F32 F64 RAW FIELD
	any   bool   // BYTE: any value
	val   int64  // BYTE: value
	width int    // bits of the value before (encoder) / after (decoder) conversion, 0 = unknown
	label string // stack-frame field the value belongs to, when identifiable
	pos   token.Pos
	site  string // position with the chain of inlined calls
}

func (s sym) String() string {
	if s.op == "BYTE" && !s.any {
		return fmt.Sprintf("BYTE(0x%02x)", s.val)
	}
	return s.op
}

type wedge struct {
	to int
	s  *sym // nil = epsilon
}

type nfa struct {
	edges  [][]wedge
	accept map[int]bool
	start  int
}

func (n *nfa) node() int { n.edges = append(n.edges, nil); return len(n.edges) - 1 }
func (n *nfa) add(a, b int, s *sym) {
	n.edges[a] = append(n.edges[a], wedge{b, s})
}

type wireSide int

const (
	encSide wireSide = iota
	decSide
)

type wireX struct {
	w      *World
	side   wireSide
	n      *nfa
	root   *ssa.Function
	field  *ssa.Function // recursive field codec of this side
	tags   []int64       // decoder: tag constants to branch on
	kindV  ssa.Value     // encoder: pinned kind value
	kind   int64
	primC  map[*ssa.Function]string
	posted bool // encoder root is a sender: accept at the POST call only
	limit  int
	err    error
	errM   map[*ssa.Function]int
}

// wirePrim classifies a codec primitive by its signature and body ("" = not a primitive: inline it).
func wirePrim(w *World, side wireSide, f *ssa.Function, memo map[*ssa.Function]string) string {
	if r, ok := memo[f]; ok {
		return r
	}
	memo[f] = ""
	if f.Pkg != w.Lens || len(f.Blocks) == 0 {
		return ""
	}
	sig := f.Signature
	if sig.Recv() == nil {
		return ""
	}
	var bt *types.Basic
	if side == encSide {
		if sig.Params().Len() != 1 || sig.Results().Len() > 1 {
			return ""
		}
		bt, _ = sig.Params().At(0).Type().Underlying().(*types.Basic)
	} else {
		if sig.Params().Len() != 0 || sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) {
			return ""
		}
		bt, _ = sig.Results().At(0).Type().Underlying().(*types.Basic)
	}
	if bt == nil {
		return ""
	}
	raw, nested := false, ""
	eachInstr(f, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if isRawIO(side, c) {
			raw = true
		}
		for _, g := range w.Callees(c) {
			if g != f && g.Pkg == w.Lens {
				if p := wirePrim(w, side, g, memo); p != "" {
					nested = p
				} else if (&wireX{w: w, side: side}).performsIO(g, map[*ssa.Function]bool{}) {
					raw = true
				}
			}
		}
	})
	r := ""
	switch bt.Kind() {
	case types.String:
		if raw && nested == "VARINT" {
			r = "STR"
		}
	case types.Uint8:
		if raw || nested == "" {
			r = "BYTE"
		}
	case types.Uint64:
		if nested == "" || nested == "BYTE" {
			if raw || nested == "BYTE" {
				r = "VARINT"
			}
		}
	case types.Int64:
		if nested == "VARINT" {
			if isZigzag(f, side) {
				r = "SVARINT"
			}
		} else if raw {
			r = "FIX64"
		}
	case types.Float32:
		if raw || nested != "" {
			r = "F32"
		}
	case types.Float64:
		if raw || nested != "" {
			r = "F64"
		}
	}
	memo[f] = r
	return r
}

func isRawIO(side wireSide, c ssa.CallInstruction) bool {
	n := calleeName(c)
	if side == encSide {
		switch n {
		case "(io.Writer).Write", "io.WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "encoding/binary.Write":
			return true
		}
		return false
	}
	switch n {
	case "io.ReadFull", "(io.Reader).Read", "io.ReadAtLeast", "encoding/binary.Read", "encoding/binary.ReadUvarint", "(io.ByteReader).ReadByte", "io.CopyN", "io.ReadAll":
		return true
	}
	return false
}

// isZigzag: the function combines its value with shifts and xor the way zigzag coding does.
func isZigzag(f *ssa.Function, side wireSide) bool {
	var shl1, shr63, shr1, and1, xor bool
	eachInstr(f, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		k, isC := constInt(b.Y)
		switch b.Op {
		case token.SHL:
			shl1 = shl1 || isC && k == 1
		case token.MUL:
			shl1 = shl1 || isC && k == 2
		case token.SHR:
			shr63 = shr63 || isC && k == 63
			shr1 = shr1 || isC && k == 1
		case token.QUO:
			shr1 = shr1 || isC && k == 2
		case token.AND:
			and1 = and1 || isC && k == 1
		case token.XOR:
			xor = true
		}
	})
	if side == encSide {
		return shl1 && shr63 && xor
	}
	return shr1 && and1 && xor
}

type wexit struct{ node int }

type wkey struct {
	b   *ssa.BasicBlock
	pre int
	pin int
}

type winv struct {
	x     *wireX
	f     *ssa.Function
	stack []*ssa.Function
	nodes map[wkey]int
	exits []int
	pinV  ssa.Value // pinned tag value
	pins  []int64
	up    *winv // the invocation this one is inlined into, and the call
	call  *ssa.Call
}

// actual resolves a parameter of an inlined helper to the argument it was called with.
func (iv *winv) actual(v ssa.Value) ssa.Value {
	for iv != nil {
		inner := v
		for {
			if cv, ok := inner.(*ssa.Convert); ok {
				inner = cv.X
				continue
			}
			if cv, ok := inner.(*ssa.ChangeType); ok {
				inner = cv.X
				continue
			}
			break
		}
		p, ok := inner.(*ssa.Parameter)
		if !ok || iv.call == nil || p.Parent() != iv.f {
			return v
		}
		a := argFor(iv.call, iv.f, paramIndex(p))
		if a == nil {
			return v
		}
		v, iv = a, iv.up
	}
	return v
}

func (iv *winv) chain() string {
	s := ""
	for ; iv != nil; iv = iv.up {
		if iv.call != nil {
			s += fmt.Sprintf("<%d", iv.call.Pos())
		}
	}
	return s
}

func (x *wireX) invoke(f *ssa.Function, stack []*ssa.Function, at int, up *winv, call *ssa.Call) []int {
	if x.err != nil {
		return nil
	}
	if len(stack) > 24 || len(x.n.edges) > x.limit {
		x.err = fmt.Errorf("inlining bound exceeded at %s", FnName(f))
		return nil
	}
	iv := &winv{x: x, f: f, stack: append(append([]*ssa.Function(nil), stack...), f), nodes: map[wkey]int{}, up: up, call: call}
	start := iv.visit(f.Blocks[0], 0, -1)
	x.n.add(at, start, nil)
	return iv.exits
}

// visit returns the automaton node at the entry of block b reached over predecessor index pre.
func (iv *winv) visit(b *ssa.BasicBlock, pre, pin int) int {
	k := wkey{b, pre, pin}
	if n, ok := iv.nodes[k]; ok {
		return n
	}
	x := iv.x
	n := x.n.node()
	iv.nodes[k] = n
	iv.body(b, 0, pre, pin, n)
	return n
}

func (iv *winv) body(b *ssa.BasicBlock, from, pre, pin, cur int) {
	x := iv.x
	for i := from; i < len(b.Instrs); i++ {
		if x.err != nil {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Defer, *ssa.Go, *ssa.RunDefers:
			continue
		case *ssa.Call:
			name := calleeName(in)
			if x.side == encSide && name == "(*net/http.Client).Post" {
				if x.posted {
					x.n.accept[cur] = true
				}
				return
			}
			if x.side == decSide && name == "net/http.Error" {
				return // the message is rejected on this path
			}
			if isRawIO(x.side, in) {
				nx := x.n.node()
				x.n.add(cur, nx, &sym{op: "RAW", pos: in.Pos()})
				x.n.add(cur, nx, nil) // a zero-length run of raw bytes is invisible
				cur = nx
				continue
			}
			var callee *ssa.Function
			if cs := x.w.Callees(in); len(cs) == 1 && !in.Call.IsInvoke() {
				callee = cs[0]
			}
			if callee == nil || callee.Pkg != x.w.Lens || len(callee.Blocks) == 0 {
				continue
			}
			if callee == x.field && len(iv.stack) > 0 && !(callee == x.root && len(iv.stack) == 0) {
				nx := x.n.node()
				x.n.add(cur, nx, &sym{op: "FIELD", pos: in.Pos()})
				cur = nx
				continue
			}
			if p := wirePrim(x.w, x.side, callee, x.primC); p != "" {
				s := &sym{op: p, any: true, pos: in.Pos(), site: fmt.Sprint(in.Pos()) + iv.chain()}
				x.describe(s, in, iv)
				if p == "BYTE" && x.side == decSide && x.isTagRead(in) {
					// branch on every tag the encoder can emit
					for ti, t := range x.tags {
						nx := x.n.node()
						ts := *s
						ts.any, ts.val = false, t
						x.n.add(cur, nx, &ts)
						iv.pinV = tagValue(in)
						iv.pins = x.tags
						iv.body(b, i+1, pre, ti, nx)
					}
					return
				}
				nx := x.n.node()
				x.n.add(cur, nx, s)
				cur = nx
				continue
			}
			if !x.performsIO(callee, map[*ssa.Function]bool{}) {
				continue
			}
			for _, s := range iv.stack {
				if s == callee {
					x.err = fmt.Errorf("recursive codec function %s besides the field codec", FnName(callee))
					return
				}
			}
			exits := x.invoke(callee, iv.stack, cur, iv, in)
			nx := x.n.node()
			for _, e := range exits {
				x.n.add(e, nx, nil)
			}
			cur = nx
		case *ssa.Return:
			if x.side == decSide {
				for _, r := range retVals(in) {
					if isErrorType(r.Type()) && x.errStatus(r, b, pre, map[ssa.Value]bool{}) == 1 {
						return // rejecting path
					}
				}
			}
			iv.exits = append(iv.exits, cur)
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			t, f := true, true
			if v, known := iv.cond(in.Cond, b, pre, pin); known {
				t, f = v, !v
			}
			if t {
				x.n.add(cur, iv.visit(b.Succs[0], predIdx(b.Succs[0], b, 0), pin), nil)
			}
			if f {
				x.n.add(cur, iv.visit(b.Succs[1], predIdx(b.Succs[1], b, 1), pin), nil)
			}
			return
		case *ssa.Jump:
			x.n.add(cur, iv.visit(b.Succs[0], predIdx(b.Succs[0], b, 0), pin), nil)
			return
		}
	}
}

func predIdx(s, b *ssa.BasicBlock, succNo int) int {
	// when b appears twice among s.Preds, pick by order
	cnt := 0
	want := 0
	for k := 0; k < succNo; k++ {
		if b.Succs[k] == s {
			want++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if cnt == want {
				return i
			}
			cnt++
		}
	}
	return 0
}

func (x *wireX) performsIO(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(f.Blocks) == 0 {
		return false
	}
	seen[f] = true
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && !found {
			if isRawIO(x.side, c) || x.side == encSide && x.posted && calleeName(c) == "(*net/http.Client).Post" {
				found = true
				return
			}
			for _, g := range x.w.Callees(c) {
				if g.Pkg == x.w.Lens && x.performsIO(g, seen) {
					found = true
				}
			}
		}
	})
	return found
}

func resolvePhi(v ssa.Value, b *ssa.BasicBlock, pre int) ssa.Value {
	if p, ok := v.(*ssa.Phi); ok && p.Block() == b && pre < len(p.Edges) {
		return p.Edges[pre]
	}
	return v
}

// errStatus: 0 = nil on an I/O-successful path, 1 = non-nil, 2 = unknown.
func (x *wireX) errStatus(v ssa.Value, b *ssa.BasicBlock, pre int, seen map[ssa.Value]bool) int {
	v = resolvePhi(v, b, pre)
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return 0
		}
		return 1
	case *ssa.MakeInterface:
		return 1
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return x.callErr(c)
		}
	case *ssa.Call:
		return x.callErr(v)
	case *ssa.Phi:
		st := -1
		for _, e := range v.Edges {
			s := x.errStatus(e, nil, 0, seen)
			if st >= 0 && s != st {
				return 2
			}
			st = s
		}
		return st
	case *ssa.UnOp:
		if v.Op == token.MUL {
			st := -1
			if g, ok := v.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
				return 1 // package-level sentinel error
			}
			for _, s := range x.w.storesTo(v.X) {
				k := x.errStatus(s.Val, nil, 0, seen)
				if st >= 0 && k != st {
					return 2
				}
				st = k
			}
			if st >= 0 {
				return st
			}
		}
	}
	return 2
}

func (x *wireX) callErr(c *ssa.Call) int {
	n := calleeName(c)
	switch n {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return 1
	}
	if isRawIO(x.side, c) {
		return 0
	}
	for _, g := range x.w.Callees(c) {
		if g.Pkg != x.w.Lens {
			return 2
		}
		// a helper that never returns nil error (an error constructor)
		if x.errM == nil {
			x.errM = map[*ssa.Function]int{}
		}
		if r, ok := x.errM[g]; ok {
			return r
		}
		x.errM[g] = 0
		always := len(g.Blocks) > 0
		eachInstr(g, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Return); ok {
				for _, v := range retVals(r) {
					if isErrorType(v.Type()) && x.errStatus(v, nil, 0, map[ssa.Value]bool{}) != 1 {
						always = false
					}
				}
			}
		})
		if always {
			x.errM[g] = 1
			return 1
		}
		return 0
	}
	return 2
}

// cond evaluates a branch condition under "I/O succeeds" and the pinned tag / kind.
func (iv *winv) cond(v ssa.Value, b *ssa.BasicBlock, pre, pin int) (val, known bool) {
	v = resolvePhi(v, b, pre)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), true
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			r, k := iv.cond(v.X, b, pre, pin)
			return !r, k
		}
	case *ssa.BinOp:
		if v.Op != token.EQL && v.Op != token.NEQ && !(pin >= 0) && iv.x.kindV == nil {
			return false, false
		}
		xv, yv := resolvePhi(v.X, b, pre), resolvePhi(v.Y, b, pre)
		if (v.Op == token.EQL || v.Op == token.NEQ) && iv.x.side == decSide {
			e, o := xv, yv
			if isNilConst(e) {
				e, o = o, e
			}
			if isNilConst(o) && isErrorType(e.Type()) {
				switch iv.x.errStatus(e, b, pre, map[ssa.Value]bool{}) {
				case 0:
					return v.Op == token.EQL, true
				case 1:
					return v.Op == token.NEQ, true
				}
				return false, false
			}
		}
		val, has := func(z ssa.Value) (int64, bool) {
			if pin >= 0 && iv.pinV != nil && sameVal(z, iv.pinV) {
				return iv.pins[pin], true
			}
			if iv.x.kindV != nil && sameVal(z, iv.x.kindV) {
				return iv.x.kind, true
			}
			return 0, false
		}, true
		_ = has
		l, lok := val(xv)
		if !lok {
			l, lok = constInt(xv)
			if _, p := val(yv); !p {
				return false, false
			}
		}
		r, rok := val(yv)
		if !rok {
			r, rok = constInt(yv)
		}
		if !lok || !rok {
			return false, false
		}
		switch v.Op {
		case token.EQL:
			return l == r, true
		case token.NEQ:
			return l != r, true
		case token.LSS:
			return l < r, true
		case token.LEQ:
			return l <= r, true
		case token.GTR:
			return l > r, true
		case token.GEQ:
			return l >= r, true
		}
	}
	return false, false
}

func sameVal(a, b ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.Convert:
			a = x.X
			continue
		case *ssa.ChangeType:
			a = x.X
			continue
		}
		break
	}
	return a == b
}

func tagValue(c *ssa.Call) ssa.Value {
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
			return e
		}
	}
	return nil
}

// isTagRead: the byte read is dispatched on (compared with at least 8 distinct constants).
func (x *wireX) isTagRead(c *ssa.Call) bool {
	v := tagValue(c)
	if v == nil {
		return false
	}
	seen := map[int64]bool{}
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && b.Op == token.EQL {
			if k, ok := constInt(b.Y); ok {
				seen[k] = true
			} else if k, ok := constInt(b.X); ok {
				seen[k] = true
			}
		}
	}
	return len(seen) >= 8
}

// describe fills in the value information of a primitive call.
func (x *wireX) describe(s *sym, c *ssa.Call, iv *winv) {
	if x.side == encSide {
		arg := iv.actual(c.Call.Args[len(c.Call.Args)-1])
		if s.op == "BYTE" {
			if k, ok := constInt(arg); ok {
				s.any, s.val = false, k
			}
		}
		s.width = bits(arg.Type())
		src := arg
		for {
			cv, ok := src.(*ssa.Convert)
			if !ok {
				break
			}
			src = cv.X
			if b := bits(src.Type()); b > 0 && b < s.width {
				s.width = b
			}
		}
		if call, ok := src.(*ssa.Call); ok && strings.HasPrefix(calleeName(call), "(reflect.Value).") {
			s.width = 0 // bounded by the kind, see kind-preservation
		}
		s.label = frameLabelBack(x.w, arg, map[ssa.Value]bool{}, 0)
		return
	}
	v := tagValue(c)
	if v == nil {
		return
	}
	s.width = bits(v.Type())
	for _, r := range *v.Referrers() {
		if cv, ok := r.(*ssa.Convert); ok {
			// a conversion used only in comparisons does not narrow the value
			if w := bits(cv.Type()); w > 0 && w < s.width && !onlyCompared(cv) {
				s.width = w
			}
		}
	}
	s.label = frameLabelFwd(v, map[ssa.Value]bool{})
}

func onlyCompared(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && b.Type().Underlying().(*types.Basic).Kind() == types.Bool {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

func bits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64:
		return 64
	}
	return 0
}

const frameType = "lensMonitorStackFrame"

// frameLabelBack: the stack-frame field a written value is taken from (or looked up by).
func frameLabelBack(w *World, v ssa.Value, seen map[ssa.Value]bool, d int) string {
	if v == nil || seen[v] || d > 8 {
		return ""
	}
	seen[v] = true
	if o, f, ok := fieldName(v); ok && o == frameType {
		return f
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return frameLabelBack(w, v.X, seen, d+1)
	case *ssa.UnOp:
		return frameLabelBack(w, v.X, seen, d+1)
	case *ssa.Lookup:
		return frameLabelBack(w, v.Index, seen, d+1)
	case *ssa.Extract:
		return frameLabelBack(w, v.Tuple, seen, d+1)
	case *ssa.Field:
		return frameLabelBack(w, v.X, seen, d+1)
	}
	return ""
}

// frameLabelFwd: the stack-frame field a read value ends up in.
func frameLabelFwd(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v {
				if o, f, ok := fieldName(r.Addr); ok && o == frameType {
					return f
				}
			}
		case *ssa.Convert:
			if l := frameLabelFwd(r, seen); l != "" {
				return l
			}
		case *ssa.IndexAddr:
			if r.Index == v {
				if l := frameLabelFwd(r, seen); l != "" {
					return l
				}
			}
		case *ssa.Index:
			if l := frameLabelFwd(r, seen); l != "" {
				return l
			}
		case *ssa.UnOp:
			if l := frameLabelFwd(r, seen); l != "" {
				return l
			}
		}
	}
	return ""
}

// ---------- automata comparison ----------

func (n *nfa) closure(set map[int]bool) map[int]bool {
	st := make([]int, 0, len(set))
	for s := range set {
		st = append(st, s)
	}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.edges[s] {
			if e.s == nil && !set[e.to] {
				set[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return set
}

func setKey(s map[int]bool) string {
	ks := make([]int, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return fmt.Sprint(ks)
}

func symMatch(a, b *sym) bool {
	if a.op != b.op {
		return false
	}
	if a.op == "BYTE" && !a.any && !b.any {
		return a.val == b.val
	}
	return true
}

// useful restricts to nodes from which acceptance is reachable.
func (n *nfa) useful() map[int]bool {
	rev := make([][]int, len(n.edges))
	for a, es := range n.edges {
		for _, e := range es {
			rev[e.to] = append(rev[e.to], a)
		}
	}
	u := map[int]bool{}
	var st []int
	for a := range n.accept {
		u[a] = true
		st = append(st, a)
	}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range rev[s] {
			if !u[p] {
				u[p] = true
				st = append(st, p)
			}
		}
	}
	return u
}

type incl struct {
	word  []string
	pos   token.Pos
	pairs map[[2]*sym]bool // aligned transitions
}

// included decides L(a) ⊆ L(b); on failure it returns a shortest counterexample word.
func included(a, b *nfa, pairs map[[2]*sym]bool) (bool, []string, token.Pos) {
	ua := a.useful()
	type st struct {
		an   map[int]bool
		bn   map[int]bool
		word []string
		pos  token.Pos
	}
	start := st{a.closure(map[int]bool{a.start: true}), b.closure(map[int]bool{b.start: true}), nil, token.NoPos}
	q := []st{start}
	seen := map[string]bool{}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		k := setKey(s.an) + "|" + setKey(s.bn)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return false, append(s.word, "<state bound exceeded>"), s.pos
		}
		acc, bacc := false, false
		for n := range s.an {
			acc = acc || a.accept[n]
		}
		for n := range s.bn {
			bacc = bacc || b.accept[n]
		}
		if acc && !bacc {
			return false, append(append([]string(nil), s.word...), "<end>"), s.pos
		}
		// distinct symbols of a
		type grp struct {
			s  *sym
			to map[int]bool
		}
		groups := map[string]*grp{}
		var order []string
		for n := range s.an {
			for _, e := range a.edges[n] {
				if e.s == nil || !ua[e.to] {
					continue
				}
				g := groups[e.s.String()]
				if g == nil {
					g = &grp{e.s, map[int]bool{}}
					groups[e.s.String()] = g
					order = append(order, e.s.String())
				}
				g.to[e.to] = true
			}
		}
		sort.Strings(order)
		for _, o := range order {
			g := groups[o]
			bn := map[int]bool{}
			for n := range s.bn {
				for _, e := range b.edges[n] {
					if e.s != nil && symMatch(g.s, e.s) {
						bn[e.to] = true
						if pairs != nil {
							for an := range s.an {
								for _, ae := range a.edges[an] {
									if ae.s != nil && ae.s.String() == o && ua[ae.to] {
										pairs[[2]*sym{ae.s, e.s}] = true
									}
								}
							}
						}
					}
				}
			}
			word := append(append([]string(nil), s.word...), o)
			if len(bn) == 0 {
				return false, word, g.s.pos
			}
			q = append(q, st{a.closure(copySet(g.to)), b.closure(bn), word, g.s.pos})
		}
	}
	return true, nil, token.NoPos
}

func copySet(s map[int]bool) map[int]bool {
	o := map[int]bool{}
	for k := range s {
		o[k] = true
	}
	return o
}

func (x *wireX) build(f *ssa.Function) (*nfa, error) {
	x.n = &nfa{accept: map[int]bool{}}
	x.n.start = x.n.node()
	x.root = f
	if x.limit == 0 {
		x.limit = 60000
	}
	if x.primC == nil {
		x.primC = map[*ssa.Function]string{}
	}
	exits := x.invoke(f, nil, x.n.start, nil, nil)
	if !x.posted {
		for _, e := range exits {
			x.n.accept[e] = true
		}
	}
	if x.err != nil {
		return nil, x.err
	}
	if len(x.n.accept) == 0 {
		return nil, fmt.Errorf("no accepting path in %s", FnName(f))
	}
	return x.n, nil
}

// symbols lists the distinct symbols on useful edges.
func (n *nfa) symbols() []*sym {
	u := n.useful()
	var out []*sym
	for a, es := range n.edges {
		if !u[a] {
			continue
		}
		for _, e := range es {
			if e.s != nil && u[e.to] {
				out = append(out, e.s)
			}
		}
	}
	return out
}

func joinWord(w []string) string {
	if len(w) > 40 {
		w = append(append([]string(nil), w[:40]...), "...")
	}
	return strings.Join(w, " ")
}
