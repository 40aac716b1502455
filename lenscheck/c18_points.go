package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkPoints }

// C18: what is inserted into a function sees every path through it and does not change what the function does.
type pointsCheck struct {
	*Check
	w      *World
	ast    *types.Package
	holds  map[string][]int // statement kind -> the fields which hold nested statements
	memo   map[string]string
	reason string // the first thing found missing
}

// astKind: the go/ast node type (a struct) behind a type.
func (p *pointsCheck) astKind(t types.Type) string {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() != p.ast {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return n.Obj().Name()
}

func (p *pointsCheck) isStmt(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() == p.ast && n.Obj().Name() == "Stmt"
}

func (p *pointsCheck) isStmtList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && p.isStmt(s.Elem())
}

func (p *pointsCheck) stmtLike(t types.Type) bool {
	return p.isStmt(t) || p.isStmtList(t) || p.holds[p.astKind(t)] != nil
}

// holders reads from go/ast itself which kinds of statements hold further statements, and where.
func (p *pointsCheck) holders() {
	p.holds = map[string][]int{}
	stmt, ok := p.ast.Scope().Lookup("Stmt").Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, name := range p.ast.Scope().Names() {
		tn, ok := p.ast.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(tn.Type()), stmt) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch f.Name() {
			case "Init", "Post", "Assign", "Comm": // simple statements, which hold none
				continue
			}
			if p.isStmt(f.Type()) || p.isStmtList(f.Type()) || p.astKind(f.Type()) == "BlockStmt" {
				p.holds[name] = append(p.holds[name], i)
			}
		}
	}
}

// generalKinds: the kinds which can stand in an ordinary list of statements and hold further statements.
func (p *pointsCheck) generalKinds() []string {
	var out []string
	for k := range p.holds {
		if k != "CaseClause" && k != "CommClause" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// elemKinds: what the list of a block held by the field of a statement consists of.
func (p *pointsCheck) elemKinds(kind, field string) []string {
	switch {
	case kind == "SelectStmt":
		return []string{"CommClause"}
	case kind == "SwitchStmt" || kind == "TypeSwitchStmt":
		return []string{"CaseClause"}
	case kind == "IfStmt" && field == "Else":
		return []string{"BlockStmt", "IfStmt"}
	}
	return p.generalKinds()
}

// aliases: the values which are v, in its own function.
func (p *pointsCheck) aliases(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				same := true
				for _, e := range r.Edges {
					same = same && (e == v || seen[e] || isNilConst(e) || e == r)
				}
				if same || p.isStmt(r.Type()) || p.isStmtList(r.Type()) {
					walk(r)
				}
			case *ssa.MakeInterface:
				walk(r)
			case *ssa.ChangeInterface:
				walk(r)
			case *ssa.ChangeType:
				walk(r)
			case *ssa.Store:
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, q := range *al.Referrers() {
						if ld, ok := q.(*ssa.UnOp); ok && ld.Op == token.MUL {
							if s := lastStoreBefore(ld); s == r || s == nil {
								walk(ld)
							}
						}
					}
				}
			}
		}
	}
	walk(v)
	return out
}

// asserted: the values which are v as a statement of the kind.
func (p *pointsCheck) asserted(v ssa.Value, kind string) []ssa.Value {
	var out []ssa.Value
	for _, a := range p.aliases(v) {
		if p.astKind(a.Type()) == kind {
			out = append(out, a)
		}
		if a.Referrers() == nil || !types.IsInterface(a.Type()) {
			continue
		}
		for _, r := range *a.Referrers() {
			ta, ok := r.(*ssa.TypeAssert)
			if !ok {
				continue
			}
			var t ssa.Value = ta
			if ta.CommaOk {
				t = nil
				for _, q := range *ta.Referrers() {
					if e, ok := q.(*ssa.Extract); ok && e.Index == 0 {
						t = e
					}
				}
			}
			if t == nil {
				continue
			}
			if types.IsInterface(ta.AssertedType) {
				out = append(out, p.asserted(t, kind)...)
			} else if p.astKind(ta.AssertedType) == kind {
				out = append(out, p.aliases(t)...)
			}
		}
	}
	return out
}

type fact struct {
	v    ssa.Value
	kind string
}

// wholeSites: the calls (of functions which handle it) the value is given to.
func (p *pointsCheck) wholeSites(v ssa.Value, kind string, elems []string) []ssa.Instruction {
	var out []ssa.Instruction
	vals := p.aliases(v)
	if kind != "" {
		vals = append(vals, p.asserted(v, kind)...)
	}
	for _, a := range vals {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			if mi, ok := r.(*ssa.MakeInterface); ok && !slices.Contains(vals, ssa.Value(mi)) {
				out = append(out, p.wholeSites(mi, kind, elems)...)
				continue
			}
			call, ok := r.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, fn := range p.w.Callees(call) {
				if !p.w.own(fn) || len(fn.Blocks) == 0 {
					continue
				}
				for i, q := range fn.Params {
					if argFor(call, fn, i) != a || !p.stmtLike(q.Type()) {
						continue
					}
					var why string
					if p.isStmtList(q.Type()) {
						why = p.list(q, elems)
					} else {
						why = p.param(q, kind, elems)
					}
					if why == "" {
						out = append(out, r)
					} else if p.reason == "" {
						p.reason = fn.Name() + ": " + strings.TrimSpace(kind+" "+why)
					}
				}
			}
		}
	}
	return out
}

// param: what is missing for the parameter, a statement of the kind, to be handled whole ("" if nothing).
func (p *pointsCheck) param(q *ssa.Parameter, kind string, elems []string) string {
	key := fmt.Sprintf("%s|%s|%s|%v", q.Parent(), q.Name(), kind, elems)
	if why, ok := p.memo[key]; ok {
		return why
	}
	p.memo[key] = "" // in recursion
	why := p.handled(q, kind, elems, q.Parent().Blocks[0], nil, nil, 0)
	p.memo[key] = why
	return why
}

func (p *pointsCheck) list(q *ssa.Parameter, elems []string) string {
	key := fmt.Sprintf("%s|%s|list|%v", q.Parent(), q.Name(), elems)
	if why, ok := p.memo[key]; ok {
		return why
	}
	p.memo[key] = ""
	sites, why := p.listSites(q, elems)
	if why == "" {
		if at := p.escapes(q.Parent().Blocks[0], sites, []fact{{v: q}}); at != "" {
			why = at
		}
	}
	p.memo[key] = why
	return why
}

// handled: the value (a statement of the kind) has all its nested statements handled on every path from the block on.
func (p *pointsCheck) handled(v ssa.Value, kind string, elems []string, from *ssa.BasicBlock, whole []ssa.Instruction, facts []fact, depth int) string {
	if depth > 3 {
		return "the " + kind + " nested in it is not handled whole"
	}
	whole = append(slices.Clone(whole), p.wholeSites(v, kind, elems)...)
	facts = append(slices.Clone(facts), fact{v, kind})
	st := p.ast.Scope().Lookup(kind).Type().Underlying().(*types.Struct)
	for _, fi := range p.holds[kind] {
		name := st.Field(fi).Name()
		ek := p.elemKinds(kind, name)
		if kind == "BlockStmt" {
			ek = elems
		}
		sites := slices.Clone(whole)
		var childs []ssa.Value
		for _, t := range p.asserted(v, kind) {
			if t.Referrers() == nil {
				continue
			}
			for _, r := range *t.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok || fa.Field != fi {
					continue
				}
				for _, q := range *fa.Referrers() {
					if ld, ok := q.(*ssa.UnOp); ok && ld.Op == token.MUL {
						childs = append(childs, ld)
					}
				}
			}
		}
		fx := slices.Clone(facts)
		for _, ch := range childs {
			fx = append(fx, fact{v: ch})
		}
		ft := st.Field(fi).Type()
		var why string
		switch {
		case p.isStmtList(ft):
			for _, ch := range childs {
				s, reason := p.listSites(ch, ek)
				sites = append(sites, s...)
				if reason != "" {
					why = reason
				}
			}
			if at := p.escapes(from, sites, fx); at == "" {
				why = ""
			} else if why == "" || len(childs) > 0 && len(sites) > 0 {
				why = "its " + name + " is not looked into on a way to " + at
			}
			if len(sites) == 0 && why == "" {
				why = "its " + name + " is not looked into"
			}
		case p.isStmt(ft):
			kinds := ek
			for _, k := range kinds {
				s := slices.Clone(sites)
				f2 := slices.Clone(fx)
				for _, ch := range childs {
					s = append(s, p.wholeSites(ch, k, p.generalKinds())...)
					f2 = append(f2, fact{ch, k})
				}
				if len(s) > 0 && p.escapes(from, s, f2) == "" {
					continue
				}
				if len(childs) == 0 {
					why = "its " + name + " is not looked into"
					break
				}
				for _, ch := range childs {
					f3 := slices.Clone(fx)
					for _, o := range childs {
						f3 = append(f3, fact{o, k})
					}
					if r := p.handled(ch, k, p.generalKinds(), from, s, f3, depth+1); r != "" {
						why = "its " + name + " (a " + k + "): " + r
					} else {
						why = ""
						break
					}
				}
				if why != "" {
					break
				}
			}
		default: // a block
			for _, ch := range childs {
				sites = append(sites, p.wholeSites(ch, "BlockStmt", ek)...)
			}
			if len(sites) > 0 && p.escapes(from, sites, fx) == "" {
				break
			}
			if len(childs) == 0 {
				why = "its " + name + " is not looked into"
				break
			}
			for _, ch := range childs {
				if why = p.handled(ch, "BlockStmt", ek, from, sites, fx, depth+1); why == "" {
					break
				}
			}
			if why != "" {
				why = "its " + name + ": " + why
			}
		}
		if why != "" {
			return why
		}
	}
	return ""
}

// listSites: the places where all statements of the list are handled.
func (p *pointsCheck) listSites(v ssa.Value, elems []string) (sites []ssa.Instruction, why string) {
	w := p.w
	vals := p.aliases(v)
	sites = p.wholeSites(v, "", elems)
	f := v.Parent()
	for _, a := range vals {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() { // in a new block
			if s, ok := r.(*ssa.Store); ok && s.Val == a {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && p.astKind(fa.X.Type()) == "BlockStmt" {
					if al, ok := fa.X.(*ssa.Alloc); ok {
						sites = append(sites, p.wholeSites(al, "BlockStmt", elems)...)
					}
				}
			}
		}
	}
	for _, el := range w.elemLoops(f, func(x ssa.Value) bool { return slices.Contains(vals, x) }) {
		if r := w.visitsAllOr(el, func(in ssa.Instruction) bool { return true }, true); r != "" {
			why = "the walk over the list " + r
			continue
		}
		ok := true
		for _, k := range elems {
			reason := "not looked at"
			for _, e := range el.elems {
				if !p.isStmt(e.Type()) {
					continue
				}
				in, isIn := e.(ssa.Instruction)
				if !isIn {
					continue
				}
				if reason = p.handled(e, k, p.generalKinds(), in.Block(), nil, nil, 0); reason == "" {
					break
				}
			}
			if reason != "" {
				ok = false
				why = "a " + k + ": " + reason
				break
			}
		}
		if ok {
			sites = append(sites, el.l.header.Instrs[0])
		}
	}
	if len(sites) > 0 {
		why = ""
	} else if why == "" {
		why = "the list is not walked"
	}
	return
}

// escapes: a way from the block to a normal end (of the function or of the turn of the loop) which passes none of the
// sites, where the facts hold: what the values are, and that no error occurred. "" if there is none.
func (p *pointsCheck) escapes(from *ssa.BasicBlock, sites []ssa.Instruction, facts []fact) string {
	if len(sites) == 0 {
		return "its end"
	}
	l := p.w.innermost(from.Parent(), from)
	at := map[*ssa.BasicBlock]bool{}
	for _, s := range sites {
		at[s.Block()] = true
	}
	known := map[ssa.Value]string{}
	for _, fc := range facts {
		for _, a := range p.aliases(fc.v) {
			if known[a] == "" {
				known[a] = fc.kind
			}
		}
	}
	isKnown := func(v ssa.Value) bool { _, ok := known[v]; return ok }
	same := func(v ssa.Value) bool { // another load of a known field
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		k := p.w.canon(ld)
		for q := range known {
			if ql, ok := q.(*ssa.UnOp); ok && ql.Op == token.MUL && p.w.canon(ql) == k {
				return true
			}
		}
		return false
	}
	// side of the test that cannot be taken; -1 if both can
	closed := func(b *ssa.BasicBlock) int {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return -1
		}
		cond, neg := iff.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		side := func(truth bool) int { // the condition has this truth: the other side is closed
			if truth != neg {
				return 1
			}
			return 0
		}
		switch x := cond.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return -1
			}
			o := x.X
			if isNilConst(x.X) {
				o = x.Y
			} else if !isNilConst(x.Y) {
				return -1
			}
			if types.Identical(o.Type(), types.Universe.Lookup("error").Type()) {
				return side(x.Op == token.EQL) // no error
			}
			if isKnown(o) || same(o) {
				return side(x.Op == token.NEQ) // there is such a statement
			}
		case *ssa.Call:
			if p.skipsDone(x) {
				return side(false)
			}
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || x.Index != 1 {
				return -1
			}
			k := known[ta.X]
			if k == "" || types.IsInterface(ta.AssertedType) {
				return -1
			}
			return side(p.astKind(ta.AssertedType) == k)
		}
		return -1
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) string
	walk = func(b *ssa.BasicBlock) string {
		if seen[b] || at[b] {
			return ""
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if failsReturn(r) {
				return ""
			}
			return "the return at " + p.w.Pos(r.Pos())
		}
		no := closed(b)
		for i, s := range b.Succs {
			if i == no {
				continue
			}
			if l != nil && (s == l.header || !l.body[s]) && from != l.header {
				if !l.body[s] && failsOnly(s) {
					continue
				}
				return "the next statement"
			}
			if at := walk(s); at != "" {
				return at
			}
		}
		return ""
	}
	return walk(from)
}

// failsReturn: the return gives an error it makes (one it was given is nil, as no error is assumed to occur).
func failsReturn(r *ssa.Return) bool {
	e := errResult(r.Parent().Signature)
	vs := retVals(r)
	if e < 0 || e >= len(vs) {
		return false
	}
	switch x := vs[e].(type) {
	case *ssa.Call:
		n := calleeName(x)
		return n == "fmt.Errorf" || n == "errors.New" || n == "errors.Join"
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	}
	return false
}

// skipsDone: the condition is the answer of a function which looks for the mark of an earlier rewrite: a generated call.
func (p *pointsCheck) skipsDone(cond ssa.Value) bool {
	call, ok := cond.(*ssa.Call)
	if !ok {
		return false
	}
	for _, fn := range p.w.Callees(call) {
		if p.w.own(fn) && p.namesClient(fn) {
			return true
		}
	}
	return false
}

// namesClient: the function compares with the name of a function of the injected client.
func (p *pointsCheck) namesClient(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := constString(*op); ok && p.clientFunc(k) != nil {
					return true
				}
			}
		}
	}
	return false
}

// clientFunc: the function of the injected client (a file of the package itself) with the name.
func (p *pointsCheck) clientFunc(name string) *types.Func {
	if name == "" || !strings.HasPrefix(strings.ToLower(name), "send") {
		return nil
	}
	for _, f := range p.w.Fns {
		if f.Parent() == nil && f.Name() == name && f.Signature.Recv() == nil && p.w.own(f) {
			fn, _ := f.Object().(*types.Func)
			return fn
		}
	}
	return nil
}

// reachesItself: the function is part of a recursion.
func (p *pointsCheck) reachesItself(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var next []*ssa.Function
				if call, ok := in.(ssa.CallInstruction); ok {
					next = p.w.Callees(call)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					next = append(next, mc.Fn.(*ssa.Function))
				}
				for _, n := range next {
					if n == f {
						return true
					}
					if p.w.own(n) && !seen[n] {
						seen[n] = true
						if walk(n) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// fieldLoads: the values of the field of an AST node in the function.
func (p *pointsCheck) fieldLoads(f *ssa.Function, kind, field string) []*ssa.UnOp {
	var out []*ssa.UnOp
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ld, ok := in.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			if !ok || p.astKind(fa.X.Type()) != kind {
				continue
			}
			if _, n, _ := fieldName(fa); n == field {
				out = append(out, ld)
			}
		}
	}
	return out
}

func checkPoints(c *Check) {
	w := c.W
	c.Rule("every-path", "a rewrite of the statements of a function looks into every kind of statement which holds others, on every way", 1)
	c.Rule("put-back", "what a rewrite makes of a statement or list takes the place of the original", 1)
	c.Rule("scope", "variables of blocks which have ended are not taken for visible ones", 1)
	c.Rule("fresh-point", "every new point is both handed out and used in the code which is inserted", 1)
	c.Rule("inserted-first", "a point of a function is inserted before all its statements, and reported with its id by a function of the client", 1)
	c.Rule("panics-on", "the handler of panics recovers, reports and panics again with the very value it recovered", 1)
	c.Rule("same-results", "the return which takes the place of another one has one value for each of its values, after the report", 1)
	c.Rule("same-arguments", "what takes the place of a part of a call is a variable which was given just this part", 1)
	p := &pointsCheck{Check: c, w: w, memo: map[string]string{}}
	for _, pk := range w.Prog.AllPackages() {
		if pk.Pkg.Path() == "go/ast" {
			p.ast = pk.Pkg
		}
	}
	if p.ast == nil {
		c.Bad("every-path", "go/ast", "", "the package go/ast is not used")
		return
	}
	p.holders()
	rewriters := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		if !w.own(f) || len(f.Blocks) == 0 {
			continue
		}
		for _, body := range p.fieldLoads(f, "FuncDecl", "Body") {
			p.reason = ""
			if why, rw := p.root(body, rewriters); rw {
				if why != "" && p.reason != "" {
					why += " (" + p.reason + ")"
				}
				c.Decide(why == "", "every-path", f.Name(), w.Pos(body.Pos()),
					"some statements of the function are never rewritten: %s", why)
			}
		}
	}
	p.putBack(rewriters)
	p.scopes()
	p.freshPoints()
	p.inserted()
	p.sameResults()
	p.sameArguments()
}

// root: whether the body of a function is given to a recursive rewrite, and what that misses.
func (p *pointsCheck) root(body *ssa.UnOp, rewriters map[*ssa.Function]bool) (why string, rewrites bool) {
	vals := p.aliases(body)
	for _, a := range slices.Clone(vals) {
		for _, ld := range p.fieldLoads(body.Parent(), "BlockStmt", "List") {
			if ld.X.(*ssa.FieldAddr).X == a {
				vals = append(vals, p.aliases(ld)...)
			}
		}
	}
	for _, a := range vals {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			call, ok := r.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, fn := range p.w.Callees(call) {
				if !p.w.own(fn) || len(fn.Blocks) == 0 {
					continue
				}
				for i, q := range fn.Params {
					if argFor(call, fn, i) == a && p.stmtLike(q.Type()) && p.reachesItself(fn) && p.rewrites(fn, rewriters) {
						rewrites = true
					}
				}
			}
		}
	}
	if !rewrites {
		return "", false
	}
	return p.handled(body, "BlockStmt", p.generalKinds(), body.Block(), nil, nil, 0), true
}

// rewrites: the function, or one it calls, replaces statements.
func (p *pointsCheck) rewrites(fn *ssa.Function, all map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	found := false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !p.w.own(f) {
			return
		}
		seen[f] = true
		stmts := false
		for _, q := range f.Params {
			stmts = stmts || p.stmtLike(q.Type())
		}
		if stmts {
			all[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if _, fresh := a.X.(*ssa.Alloc); !fresh && p.holds[p.astKind(a.X.Type())] != nil {
							found = true
						}
					case *ssa.IndexAddr:
						if p.isStmtList(a.X.Type()) {
							found = true
						}
					}
				case ssa.CallInstruction:
					for _, n := range p.w.Callees(x) {
						walk(n)
					}
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(fn)
	return found
}

// place: where a value was loaded from, as a text which is the same for the same place.
func (p *pointsCheck) place(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return p.place(x.X)
	case *ssa.ChangeInterface:
		return p.place(x.X)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return p.place(ta.X)
		}
	case *ssa.TypeAssert:
		return p.place(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return p.addr(a)
			case *ssa.Alloc:
				if s := lastStoreTo(x, a, -1); s != nil {
					return p.place(s.Val)
				}
			}
		}
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

func (p *pointsCheck) addr(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		_, n, _ := fieldName(x)
		return p.place(x.X) + "." + n
	case *ssa.IndexAddr:
		return p.place(x.X) + "[" + p.place(x.Index) + "]"
	}
	return p.place(a)
}

// putBack: the statement a rewriter returns is stored where the given one was; the list of a block made for a rewriter
// which replaces lists is stored where the list was.
func (p *pointsCheck) putBack(rewriters map[*ssa.Function]bool) {
	w := p.w
	for _, f := range w.Fns {
		if !w.own(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, fn := range w.Callees(call) {
					if !rewriters[fn] {
						continue
					}
					for i, q := range fn.Params {
						arg := argFor(call, fn, i)
						if arg == nil || !p.stmtLike(q.Type()) {
							continue
						}
						p.putBackResult(call, fn, q, arg)
						p.putBackList(call, fn, q, arg)
					}
				}
			}
		}
	}
}

func (p *pointsCheck) putBackResult(call *ssa.Call, fn *ssa.Function, q *ssa.Parameter, arg ssa.Value) {
	res := fn.Signature.Results()
	if mi, ok := arg.(*ssa.MakeInterface); ok && p.holds[p.astKind(mi.X.Type())] != nil {
		return // its parts are rewritten in place
	}
	if !p.isStmt(q.Type()) && !p.isStmtList(q.Type()) {
		return
	}
	idx := -1
	for i := 0; i < res.Len(); i++ {
		if types.Identical(res.At(i).Type(), q.Type()) {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	var val ssa.Value = call
	if res.Len() > 1 {
		val = nil
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
				val = e
			}
		}
	}
	name := call.Parent().Name() + ": " + fn.Name() + "(" + exprText(p.w, call) + ")"
	if val == nil {
		p.Bad("put-back", name, p.w.Pos(call.Pos()), "the statement which %s returns is dropped", fn.Name())
		return
	}
	from := p.place(arg)
	ok := false
	for _, a := range p.aliases(val) {
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val != a {
					continue
				}
				switch ad := r.Addr.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if p.addr(ad.(ssa.Value)) == from {
						ok = true
					}
					if ia, isIdx := ad.(*ssa.IndexAddr); isIdx {
						if _, isArr := ia.X.(*ssa.Alloc); isArr { // an append
							ok = true
						}
					}
				}
			case *ssa.Return:
				ok = true
			}
		}
	}
	p.Decide(ok, "put-back", name, p.w.Pos(call.Pos()), "what %s makes of a statement does not take its place", fn.Name())
}

func exprText(w *World, call *ssa.Call) string {
	pos := w.Pos(call.Pos())
	if i := strings.LastIndex(pos, ":"); i >= 0 {
		return pos[i+1:]
	}
	return pos
}

func (p *pointsCheck) putBackList(call *ssa.Call, fn *ssa.Function, q *ssa.Parameter, arg ssa.Value) {
	if p.astKind(q.Type()) != "BlockStmt" {
		return
	}
	al, ok := arg.(*ssa.Alloc)
	if !ok {
		return
	}
	// does the rewriter give the block another list?
	replaces := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == q {
					replaces = true
				}
			}
		}
	}
	if !replaces {
		return
	}
	var from string
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			if _, n, _ := fieldName(fa); n != "List" {
				continue
			}
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
					from = p.place(st.Val)
				}
			}
		}
	}
	back := false
	for _, b := range call.Parent().Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || p.addr(fa) != from {
				continue
			}
			if ld, ok := s.Val.(*ssa.UnOp); ok {
				if lf, ok := ld.X.(*ssa.FieldAddr); ok && lf.X == al && (call.Block() == b || call.Block().Dominates(b)) {
					back = true
				}
			}
		}
	}
	p.Decide(back, "put-back", call.Parent().Name()+": "+fn.Name()+"("+exprText(p.w, call)+")", p.w.Pos(call.Pos()),
		"the list %s makes of the statements does not take their place", fn.Name())
}

// scopes: a walk which collects declared variables up to a place does not look into blocks which end before it.
func (p *pointsCheck) scopes() {
	need := []string{"BlockStmt", "IfStmt", "ForStmt", "RangeStmt", "SwitchStmt", "TypeSwitchStmt", "CaseClause", "CommClause"}
	for _, f := range p.w.Fns {
		if !p.w.own(f) || len(f.Blocks) == 0 {
			continue
		}
		asserts := map[string]*ssa.TypeAssert{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && len(f.Params) > 0 {
					if k := p.astKind(ta.AssertedType); k != "" {
						asserts[k] = ta
					}
				}
			}
		}
		// collects declarations of all kinds up to a place in a function
		if asserts["ValueSpec"] == nil || asserts["AssignStmt"] == nil || asserts["RangeStmt"] == nil || !p.usesPos(f) {
			continue
		}
		for _, k := range need {
			p.Decide(p.prunes(f, k), "scope", outermost(f).Name()+": "+k, p.w.Pos(f.Pos()),
				"variables declared in a %s which ended before the place are collected as visible there", k)
		}
	}
}

func (p *pointsCheck) usesPos(f *ssa.Function) bool {
	return p.prunes(f, "BlockStmt")
}

// prunes: where the node is of the kind, the function tests where it ends and returns false (do not look inside).
func (p *pointsCheck) prunes(f *ssa.Function, kind string) bool {
	var v ssa.Value
	for _, q := range f.Params {
		if types.IsInterface(q.Type()) {
			v = q
		}
	}
	if v == nil {
		return false
	}
	// walk with the fact that v is of the kind, until a test of v.End()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok {
			cond, side := iff.Cond, 0
			if u, isNot := cond.(*ssa.UnOp); isNot && u.Op == token.NOT {
				cond, side = u.X, 1
			}
			if call, isCall := cond.(*ssa.Call); isCall { // a helper which decides it
				for _, g := range p.w.Callees(call) {
					for i, q := range g.Params {
						if p.w.own(g) && argFor(call, g, i) == v && p.asksEnd(g, q, kind) {
							return returnsFalse(b.Succs[side])
						}
					}
				}
			}
		}
		if !ok {
			for _, s := range b.Succs {
				if walk(s) {
					return true
				}
			}
			return false
		}
		if e, ok := iff.Cond.(*ssa.Extract); ok {
			if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == v {
				if p.astKind(ta.AssertedType) == kind {
					return walk(b.Succs[0])
				}
				if !types.IsInterface(ta.AssertedType) {
					return walk(b.Succs[1])
				}
			}
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok {
			if isNilConst(cmp.Y) && cmp.X == v {
				return walk(b.Succs[b2i(cmp.Op == token.EQL)])
			}
			for i, o := range []ssa.Value{cmp.X, cmp.Y} {
				call, ok := o.(*ssa.Call)
				if !ok || methodName(call) != "End" || !slices.Contains(p.asserted(v, kind), recvOf(call)) && recvOf(call) != v {
					continue
				}
				// End() < place: true side; place > End(): true side; End() >= place: false side
				less := cmp.Op == token.LSS || cmp.Op == token.LEQ
				if i == 1 {
					less = cmp.Op == token.GTR || cmp.Op == token.GEQ
				}
				return returnsFalse(b.Succs[b2i(!less)])
			}
		}
		return walk(b.Succs[0]) || walk(b.Succs[1])
	}
	return walk(f.Blocks[0])
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func returnsFalse(b *ssa.BasicBlock) bool {
	for i := 0; i < 5; i++ {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			k, ok := x.Results[0].(*ssa.Const)
			if !ok {
				if ph, isPhi := x.Results[0].(*ssa.Phi); isPhi {
					_ = ph
				}
				return false
			}
			return k.Value != nil && k.Value.String() == "false"
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

// asksEnd: where the parameter is of the kind, the helper asks where it ends.
func (p *pointsCheck) asksEnd(g *ssa.Function, v *ssa.Parameter, kind string) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && methodName(call) == "End" {
				if r := recvOf(call); r == v || slices.Contains(p.asserted(v, kind), r) {
					return true
				}
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if e, ok := iff.Cond.(*ssa.Extract); ok {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == v {
					if p.astKind(ta.AssertedType) == kind {
						return walk(b.Succs[0])
					}
					return walk(b.Succs[1])
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(g.Blocks[0])
}
