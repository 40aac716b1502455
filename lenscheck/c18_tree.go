package main

import (
	"go/token"
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tree is a syntax node as the code under analysis puts it together.
type tree struct {
	kind string // the go/ast type, "list", "text" (a constant), or "" (not known)
	text string
	sub  map[string]*tree
	list []*tree
	v    ssa.Value
}

type tenv struct {
	args map[ssa.Value]ssa.Value // parameters and captured variables of an inlined function
	up   *tenv
}

type treeEval struct {
	p     *pointsCheck
	depth int
}

func (e *treeEval) resolve(v ssa.Value, env *tenv) (ssa.Value, *tenv) {
	for env != nil {
		a, ok := env.args[v]
		if !ok {
			return v, env
		}
		v, env = a, env.up
	}
	return v, env
}

func (e *treeEval) eval(v ssa.Value, env *tenv) *tree {
	if e.depth > 40 {
		return &tree{v: v}
	}
	e.depth++
	defer func() { e.depth-- }()
	v, env = e.resolve(v, env)
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return e.eval(x.X, env)
	case *ssa.ChangeInterface:
		return e.eval(x.X, env)
	case *ssa.ChangeType:
		return e.eval(x.X, env)
	case *ssa.Convert:
		return e.eval(x.X, env)
	case *ssa.Const:
		if s, ok := constString(x); ok {
			return &tree{kind: "text", text: s, v: v}
		}
		if x.Value == nil {
			if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice {
				return &tree{kind: "list", v: v}
			}
			return &tree{kind: "nil", v: v}
		}
		return &tree{kind: "text", text: x.Value.String(), v: v}
	case *ssa.MakeSlice:
		return &tree{kind: "list", v: v}
	case *ssa.Alloc:
		if k := e.p.astKind(x.Type()); k != "" {
			t := &tree{kind: k, sub: map[string]*tree{}, v: v}
			for _, r := range *x.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				_, n, _ := fieldName(fa)
				for _, q := range *fa.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
						if t.sub[n] != nil {
							t.sub[n] = &tree{v: s.Val}
							continue
						}
						t.sub[n] = e.eval(s.Val, env)
					}
				}
			}
			return t
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil {
			return e.array(al, env)
		}
		if x.Low == nil && x.High != nil {
			if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "0" {
				return &tree{kind: "list", v: v}
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			if s := lastStoreTo(x, a, -1); s != nil {
				return e.eval(s.Val, env)
			}
			if ss := e.p.w.storesTo(a); len(ss) == 1 {
				return e.eval(ss[0].Val, env)
			}
		case *ssa.FreeVar:
			if ss := e.p.w.storesTo(a); len(ss) == 1 {
				return e.eval(ss[0].Val, nil)
			}
			if r, re := e.resolve(a, env); r != a {
				return e.eval(r, re)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			t := &tree{kind: "list", v: v}
			for _, a := range x.Call.Args {
				s := e.eval(a, env)
				if s.kind == "list" {
					t.list = append(t.list, s.list...)
				} else {
					t.list = append(t.list, &tree{kind: "rest", v: s.v})
				}
			}
			return t
		}
		if calleeName(x) == "go/ast.NewIdent" || calleeName(x) == "ast.NewIdent" {
			return &tree{kind: "Ident", sub: map[string]*tree{"Name": e.eval(x.Call.Args[0], env)}, v: v}
		}
		if strings.HasPrefix(calleeName(x), "slices.Concat") || strings.HasPrefix(calleeName(x), "slices.Insert") {
			return e.slicesCall(x, env)
		}
		return e.inline(x, 0, env)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return e.inline(call, x.Index, env)
		}
	}
	return &tree{v: v}
}

func (e *treeEval) slicesCall(x *ssa.Call, env *tenv) *tree {
	t := &tree{kind: "list", v: x}
	args := x.Call.Args
	add := func(s *tree) {
		if s.kind == "list" {
			t.list = append(t.list, s.list...)
		} else {
			t.list = append(t.list, &tree{kind: "rest", v: s.v})
		}
	}
	if strings.HasPrefix(calleeName(x), "slices.Concat") && len(args) == 1 {
		if l := e.eval(args[0], env); l.kind == "list" {
			for _, s := range l.list {
				add(s)
			}
			return t
		}
	}
	if strings.HasPrefix(calleeName(x), "slices.Insert") && len(args) == 3 {
		at, base, ins := e.eval(args[1], env), e.eval(args[0], env), e.eval(args[2], env)
		if at.text == "0" {
			add(ins)
			add(base)
			return t
		}
	}
	return &tree{v: x}
}

func (e *treeEval) array(al *ssa.Alloc, env *tenv) *tree {
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return &tree{v: al}
	}
	t := &tree{kind: "list", list: make([]*tree, at.Len()), v: al}
	for i := range t.list {
		t.list[i] = &tree{kind: "nil"}
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok || k.Value == nil {
			continue
		}
		i := int(k.Int64())
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ia && i < len(t.list) {
				t.list[i] = e.eval(s.Val, env)
			}
		}
	}
	return t
}

// inline: the result of a function of the project which builds it in one way.
func (e *treeEval) inline(call *ssa.Call, idx int, env *tenv) *tree {
	unknown := &tree{v: call}
	fns := e.p.w.Callees(call)
	if len(fns) != 1 || !e.p.w.own(fns[0]) || len(fns[0].Blocks) == 0 || env.deep() > 5 {
		return unknown
	}
	fn := fns[0]
	ne := &tenv{args: map[ssa.Value]ssa.Value{}, up: env}
	for i, q := range fn.Params {
		if a := argFor(call, fn, i); a != nil {
			ne.args[q] = a
		}
	}
	if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
		for i, fv := range fn.FreeVars {
			ne.args[fv] = mc.Bindings[i]
		}
	}
	var out *tree
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || failsOnly(b) {
			continue
		}
		if out != nil {
			return unknown
		}
		if vs := retVals(r); idx < len(vs) {
			out = e.eval(vs[idx], ne)
		}
	}
	if out == nil || out.kind == "" {
		return unknown
	}
	o := *out
	o.v = call // what it is made of is known by the call
	return &o
}

func (n *tenv) deep() int {
	d := 0
	for ; n != nil; n = n.up {
		d++
	}
	return d
}

func (t *tree) at(path ...string) *tree {
	for _, k := range path {
		if t == nil {
			return nil
		}
		if k == "0" {
			if len(t.list) == 0 {
				return nil
			}
			t = t.list[0]
			continue
		}
		t = t.sub[k]
	}
	return t
}

// name: of an identifier.
func (t *tree) name() string {
	if t == nil || t.kind != "Ident" {
		return ""
	}
	if n := t.sub["Name"]; n != nil && n.kind == "text" {
		return n.text
	}
	return ""
}

// called: the function a call (or the statement of a call) names, and its arguments.
func (t *tree) called() (string, []*tree) {
	if t == nil {
		return "", nil
	}
	if t.kind == "ExprStmt" || t.kind == "ParenExpr" {
		return t.sub["X"].called()
	}
	if t.kind != "CallExpr" {
		return "", nil
	}
	var args []*tree
	if a := t.sub["Args"]; a != nil {
		args = a.list
	}
	return t.sub["Fun"].name(), args
}

// depends: the value is computed from the other one.
func (e *treeEval) depends(t *tree, on ssa.Value) bool {
	if t == nil {
		return false
	}
	for _, s := range t.sub {
		if e.depends(s, on) {
			return true
		}
	}
	for _, s := range t.list {
		if e.depends(s, on) {
			return true
		}
	}
	return t.v != nil && valueFrom(t.v, on, map[ssa.Value]bool{})
}

func valueFrom(v, on ssa.Value, seen map[ssa.Value]bool) bool {
	if v == on {
		return true
	}
	if v == nil || seen[v] || len(seen) > 300 {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == al && valueFrom(r.Val, on, seen) {
					return true
				}
			case *ssa.IndexAddr:
				for _, q := range *r.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == r && valueFrom(s.Val, on, seen) {
						return true
					}
				}
			case *ssa.FieldAddr:
				for _, q := range *r.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == r && valueFrom(s.Val, on, seen) {
						return true
					}
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && valueFrom(*op, on, seen) {
			return true
		}
	}
	return false
}

// inserted: what the functions which insert a point put before the statements of a body.
func (p *pointsCheck) inserted() {
	w := p.w
	for _, f := range w.Fns {
		if !w.own(f) || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || p.astKind(fa.X.Type()) != "BlockStmt" {
					continue
				}
				if _, n, _ := fieldName(fa); n != "List" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				// a function given the body and an id
				var id ssa.Value
				for _, q := range f.Params {
					if bt, ok := q.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint32 {
						id = q
					}
				}
				if q, isParam := fa.X.(*ssa.Parameter); !isParam || id == nil || p.astKind(q.Type()) != "BlockStmt" {
					continue
				}
				p.insertion(f, s, fa.X, id)
			}
		}
	}
}

func (p *pointsCheck) insertion(f *ssa.Function, s *ssa.Store, body, id ssa.Value) {
	e := &treeEval{p: p}
	t := e.eval(s.Val, nil)
	name := outermost(f).Name()
	pos := p.w.Pos(s.Pos())
	isBody := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				return x.X == body
			case *ssa.Slice:
				if x.Low != nil || x.High != nil {
					return false
				}
				v = x.X
			default:
				return false
			}
		}
	}
	if t.kind != "list" || len(t.list) < 2 {
		p.Bad("inserted-first", name, pos, "the statements of the function are not kept after the inserted one")
		return
	}
	last := t.list[len(t.list)-1]
	rests := 0
	for _, x := range t.list {
		if x.kind == "rest" {
			rests++
		}
	}
	if rests != 1 || last.kind != "rest" || !isBody(last.v) {
		p.Bad("inserted-first", name, pos, "the statements of the function do not all follow the inserted one")
		return
	}
	// the report with the id
	var reports, handlers int
	var bad string
	var visit func(t *tree)
	visit = func(t *tree) {
		if t == nil {
			return
		}
		if fn, args := t.called(); fn != "" && t.kind == "CallExpr" {
			if cf := p.clientFunc(fn); cf != nil {
				reports++
				sig := cf.Type().(*types.Signature)
				n := sig.Params().Len()
				if len(args) != n && !(sig.Variadic() && len(args) >= n-1) {
					bad = "the report is given another number of arguments than " + fn + " takes"
				} else if len(args) == 0 || !e.depends(args[0], id) {
					bad = "the report is not given the id of the point"
				}
			} else if types.Universe.Lookup(fn) == nil {
				bad = "the inserted call names " + fn + ", which the client does not have"
			}
		}
		if t.kind == "FuncLit" {
			handlers++
		}
		for _, k := range t.sub {
			visit(k)
		}
		for _, k := range t.list {
			visit(k)
		}
	}
	for _, x := range t.list[:len(t.list)-1] {
		visit(x)
	}
	if bad == "" && reports == 0 {
		bad = "nothing of what is inserted reports the point"
	}
	if bad == "" && handlers == 0 {
		for _, x := range t.list[:len(t.list)-1] {
			if x.kind != "ExprStmt" && x.kind != "DeferStmt" {
				bad = "the inserted statement is not a call"
			}
		}
	}
	p.Decide(bad == "", "inserted-first", name, pos, "%s", bad)
	for _, x := range t.list[:len(t.list)-1] {
		if x.kind == "GoStmt" {
			p.Bad("inserted-first", name, pos, "the report runs in another goroutine")
		}
		if x.kind == "DeferStmt" {
			if fl := x.at("Call", "Fun"); fl != nil && fl.kind == "FuncLit" {
				why := p.handler(e, fl)
				p.Decide(why == "", "panics-on", name, pos, "%s", why)
			}
		}
	}
	if handlers > 0 {
		for _, x := range t.list[:len(t.list)-1] {
			if x.kind != "DeferStmt" {
				p.Bad("panics-on", name, pos, "the handler of panics is not deferred")
			}
		}
	}
}

// handler: what is wrong with the deferred function.
func (p *pointsCheck) handler(e *treeEval, fl *tree) string {
	body := fl.at("Body", "List")
	if body == nil || body.kind != "list" {
		return "the handler cannot be made out"
	}
	rec := ""
	assign := func(t *tree) {
		if t == nil || t.kind != "AssignStmt" {
			return
		}
		if fn, _ := t.at("Rhs", "0").called(); fn == "recover" {
			rec = t.at("Lhs", "0").name()
		}
	}
	nilTest := func(t *tree, op token.Token) bool {
		if t == nil || t.kind != "BinaryExpr" {
			return false
		}
		o := t.at("Op")
		if o == nil || o.text != tokenText(op) {
			return false
		}
		x, y := t.at("X").name(), t.at("Y").name()
		return rec != "" && (x == rec && y == "nil" || x == "nil" && y == rec)
	}
	tail := func(list []*tree) string {
		reported := false
		for i, st := range list {
			fn, args := st.called()
			if p.clientFunc(fn) != nil {
				if len(args) < 2 || args[1].name() != rec {
					return "the recovered value is not what is reported"
				}
				reported = true
			}
			if fn == "panic" {
				if len(args) != 1 || args[0].name() != rec {
					return "it panics on with another value than the recovered one"
				}
				if !reported {
					return "it panics on before the panic is reported"
				}
				if i != len(list)-1 {
					return "something follows the panic"
				}
				return ""
			}
		}
		return "it does not panic again, so the panic is swallowed"
	}
	for i, st := range body.list {
		assign(st)
		if st.kind != "IfStmt" {
			continue
		}
		assign(st.at("Init"))
		if nilTest(st.at("Cond"), token.NEQ) {
			if b := st.at("Body", "List"); b != nil {
				return tail(b.list)
			}
		}
		if nilTest(st.at("Cond"), token.EQL) {
			return tail(body.list[i+1:])
		}
	}
	return "it does not recover and test the value"
}

func tokenText(t token.Token) string {
	return strconv.Itoa(int(t))
}

// freshPoints: each id drawn is handed out and is used in what is inserted.
func (p *pointsCheck) freshPoints() {
	w := p.w
	for _, f := range w.Fns {
		if !w.own(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, fn := range w.Callees(call) {
					if !p.draws(fn) {
						continue
					}
					var id, err ssa.Value
					for _, r := range *call.Referrers() {
						if e, ok := r.(*ssa.Extract); ok {
							if e.Index == 0 {
								id = e
							} else {
								err = e
							}
						}
					}
					name := outermost(f).Name() + ":" + exprText(w, call)
					if id == nil {
						p.Bad("fresh-point", name, w.Pos(call.Pos()), "the new id is not used")
						continue
					}
					used, out := p.idUses(id)
					start := call.Block()
					why := ""
					if at := p.escapesAfter(call, start, used, err); at != "" {
						why = "the new point is not part of what is inserted, on a way to " + at
					} else if at := p.escapesAfter(call, start, out, err); at != "" {
						why = "the new point is not handed out, on a way to " + at
					}
					p.Decide(why == "", "fresh-point", name, w.Pos(call.Pos()), "%s", why)
				}
			}
		}
	}
}

// draws: a method without parameters which gives a new id or an error, and counts by an atomic.
func (p *pointsCheck) draws(fn *ssa.Function) bool {
	sig := fn.Signature
	if !p.w.own(fn) || sig.Recv() == nil || sig.Params().Len() != 0 || sig.Results().Len() != 2 || errResult(sig) != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

func (p *pointsCheck) idUses(id ssa.Value) (used, out []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				walk(r)
			case *ssa.Convert:
				walk(r)
			case *ssa.MakeInterface:
				walk(r)
			case *ssa.MapUpdate:
				out = append(out, r)
			case *ssa.Return:
				out = append(out, r)
			case *ssa.Store:
				switch a := r.Addr.(type) {
				case *ssa.IndexAddr: // an element of a list: of an append or a literal
					out = append(out, r)
					if al, ok := a.X.(*ssa.Alloc); ok {
						for _, q := range *al.Referrers() {
							if sl, ok := q.(*ssa.Slice); ok {
								walk(sl)
							}
						}
					}
				default:
					for _, g := range p.loadsOf(r.Addr) {
						walk(g)
					}
				}
			case *ssa.UnOp:
				walk(r)
			case *ssa.Slice:
				walk(r)
			case *ssa.IndexAddr:
				walk(r)
			case *ssa.MakeClosure:
				used = append(used, r)
			case ssa.CallInstruction:
				if b, ok := r.Common().Value.(*ssa.Builtin); ok {
					_ = b
					continue
				}
				used = append(used, r.(ssa.Instruction))
			}
		}
	}
	walk(id)
	return
}

// loadsOf: the loads of the cell in the same function, and of elements of the list which was made with the value.
func (p *pointsCheck) loadsOf(addr ssa.Value) []ssa.Value {
	var out []ssa.Value
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
			out = append(out, ld)
		}
	}
	return out
}

// escapesAfter: like escapes, from the instruction on.
func (p *pointsCheck) escapesAfter(in ssa.Instruction, from *ssa.BasicBlock, sites []ssa.Instruction, err ssa.Value) string {
	i := slices.Index(from.Instrs, in)
	for _, s := range sites {
		if s.Block() == from && slices.Index(from.Instrs, s) > i {
			return ""
		}
	}
	return p.escapes(from, sites, nil)
}

// sameResults: the list of values of a new return has one value for each value of the old one.
func (p *pointsCheck) sameResults() {
	w := p.w
	for _, f := range w.Fns {
		if !w.own(f) || len(f.Blocks) == 0 {
			continue
		}
		var ret *ssa.Parameter
		var id ssa.Value
		for _, q := range f.Params {
			if p.astKind(q.Type()) == "ReturnStmt" {
				ret = q
			}
			if bt, ok := q.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint32 {
				id = q
			}
		}
		if ret == nil || id == nil {
			continue
		}
		olds := p.fieldLoads(f, "ReturnStmt", "Results")
		isOld := func(v ssa.Value) bool {
			ld, ok := v.(*ssa.UnOp)
			return ok && slices.Contains(olds, ld) && ld.X.(*ssa.FieldAddr).X == ret
		}
		for _, el := range w.elemLoops(f, isOld) {
			if r := w.visitsAllOr(el, func(in ssa.Instruction) bool { return true }, true); r != "" {
				p.Bad("same-results", f.Name(), w.Pos(el.l.header.Instrs[0].Pos()), "the walk over the values of the return %s", r)
				continue
			}
			// the lists built by the loop which become the values of a return
			for _, in := range el.l.header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok || !p.becomesResults(ph) {
					continue
				}
				counts := map[int]bool{}
				known := true
				for i, e := range ph.Edges {
					if !el.l.body[ph.Block().Preds[i]] {
						continue
					}
					if !appended(e, ph, 0, counts, map[ssa.Value]bool{}) {
						known = false
					}
				}
				if !known {
					continue
				}
				p.Decide(len(counts) == 1 && counts[1], "same-results", f.Name(), w.Pos(ph.Pos()),
					"a way through the walk over the values of the return gives the new one not exactly one value")
			}
		}
		// each returned block: reports, then returns
		e := &treeEval{p: p}
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || failsOnly(b) {
				continue
			}
			vs := retVals(r)
			t := e.eval(vs[0], nil)
			l := t.at("List")
			if t.kind == "list" {
				l = t
			}
			if l == nil || l.kind != "list" || len(l.list) == 0 {
				continue
			}
			last := l.list[len(l.list)-1]
			lastIsRet := last.kind == "ReturnStmt" || last.v != nil && p.astKind(last.v.Type()) == "ReturnStmt"
			if !lastIsRet && last.kind == "" {
				for _, a := range p.aliasesBack(last.v) {
					lastIsRet = lastIsRet || p.astKind(a.Type()) == "ReturnStmt"
				}
			}
			p.Decide(lastIsRet, "same-results", f.Name()+": block at "+exprTextPos(w, r.Pos()), w.Pos(r.Pos()), "what takes the place of a return does not end with one")
			reported := false
			for _, x := range l.list[:len(l.list)-1] {
				reported = reported || e.depends(x, id)
			}
			p.Decide(reported, "same-results", f.Name()+": report at "+exprTextPos(w, r.Pos()), w.Pos(r.Pos()), "the point is not reported before the new return")
		}
	}
}

func exprTextPos(w *World, pos token.Pos) string {
	s := w.Pos(pos)
	return s[strings.LastIndex(s, ":")+1:]
}

// aliasesBack: what a value may be.
func (p *pointsCheck) aliasesBack(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		}
	}
	walk(v)
	return out
}

// becomesResults: the list (or what it grows to) is stored as the values of a return statement.
func (p *pointsCheck) becomesResults(ph *ssa.Phi) bool {
	for _, a := range p.aliases(ph) {
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == a {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && p.astKind(fa.X.Type()) == "ReturnStmt" {
					return true
				}
			}
		}
	}
	return false
}

// appended: how many elements v has more than the base; false if that is not known.
func appended(v, base ssa.Value, n int, out map[int]bool, seen map[ssa.Value]bool) bool {
	if v == base {
		out[n] = true
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if seen[x] {
			return false
		}
		seen[x] = true
		defer delete(seen, x)
		for _, e := range x.Edges {
			if !appended(e, base, n, out, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			sl, ok := x.Call.Args[1].(*ssa.Slice)
			if !ok {
				return false
			}
			at, ok := deref(sl.X.Type()).Underlying().(*types.Array)
			if !ok {
				return false
			}
			return appended(x.Call.Args[0], base, n+int(at.Len()), out, seen)
		}
	}
	return false
}

// sameArguments: a variable which replaces a part of a call holds that part.
func (p *pointsCheck) sameArguments() {
	w := p.w
	e := &treeEval{p: p}
	for _, f := range w.Fns {
		if !w.own(f) || len(f.Blocks) == 0 {
			continue
		}
		// the assignments f makes
		type def struct {
			name ssa.Value
			from ssa.Value
		}
		var defs []def
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var made ssa.Value
				switch x := in.(type) {
				case *ssa.Alloc:
					made = x
				case *ssa.Call:
					if fs := w.Callees(x); len(fs) == 1 && w.own(fs[0]) && (p.isStmt(x.Type()) || p.astKind(x.Type()) != "") {
						made = x
					}
				}
				if made == nil {
					continue
				}
				t := e.eval(made, nil)
				l, r := t.at("Lhs"), t.at("Rhs")
				if t.kind == "ValueSpec" {
					l, r = t.at("Names"), t.at("Values")
				}
				if t.kind != "ValueSpec" && t.kind != "AssignStmt" || l == nil || r == nil || len(l.list) != len(r.list) {
					continue
				}
				for i := range l.list {
					if l.list[i] != nil && r.list[i] != nil {
						defs = append(defs, def{l.list[i].v, r.list[i].v})
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				var place string
				switch a := s.Addr.(type) {
				case *ssa.IndexAddr:
					ld, ok := a.X.(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok || p.astKind(fa.X.Type()) != "CallExpr" {
						continue
					}
					place = p.addr(a)
				case *ssa.FieldAddr: // another receiver
					if k := p.astKind(a.X.Type()); k != "SelectorExpr" {
						continue
					}
					if _, n, _ := fieldName(a); n != "X" {
						continue
					}
					al, ok := a.X.(*ssa.Alloc)
					if !ok || !p.becomesFun(al) {
						continue
					}
					place = "" // that of the selector it takes the place of
				default:
					continue
				}
				t := e.eval(s.Val, nil)
				if t.kind != "Ident" {
					continue
				}
				name := f.Name() + ":" + exprTextPos(w, s.Pos())
				ok = false
				for _, d := range defs {
					if d.name != t.v || d.from == nil {
						continue
					}
					from := p.place(d.from)
					if place == "" {
						ok = ok || strings.HasSuffix(from, ".Fun.X")
					} else {
						ok = ok || from == place
					}
				}
				p.Decide(ok, "same-arguments", name, w.Pos(s.Pos()), "the variable which takes the place of a part of the call was not given that part")
			}
		}
	}
}

func (p *pointsCheck) becomesFun(al *ssa.Alloc) bool {
	for _, a := range p.aliases(al) {
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == a {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && p.astKind(fa.X.Type()) == "CallExpr" {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}
