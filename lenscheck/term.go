package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms: what a value is computed from, as a set of canonical expressions over leaves (results of provider calls,
// parameters of the outermost function, constants). Helpers are inlined with their actual arguments; fields, elements and
// keys are followed through literals, cells and containers, so the shape of the code does not matter.

type tctx struct {
	f    *ssa.Function
	args map[*ssa.Parameter]tval
	up   *tctx // the calling frame
	site ssa.CallInstruction
	def  *tctx // the frame a closure was made in
}

type tval struct {
	v   ssa.Value
	c   *tctx
	pre []string // the part of v which is meant
}

type termer struct {
	w        *World
	leafCall func(ci ssa.CallInstruction, c *tctx) (string, bool)
	leafVal  func(v ssa.Value, c *tctx) (string, bool)
	busy     map[string]bool
	touched  map[ssa.Instruction]bool // operations which filled the containers that were looked into
	made     map[tkey]*tctx
	strict   bool // trimmed text is not the text
	depth    int
	steps    int
}

type tkey struct {
	ci ssa.CallInstruction
	g  *ssa.Function
	c  *tctx
}

type terms map[string]bool

func (t terms) list() []string {
	var out []string
	for k := range t {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (t terms) String() string { return strings.Join(t.list(), " | ") }

func one(s string) terms { return terms{s: true} }

func newTermer(w *World) *termer {
	return &termer{w: w, busy: map[string]bool{}, touched: map[ssa.Instruction]bool{}, made: map[tkey]*tctx{}}
}

func join(path []string) string { return strings.Join(path, "") }

func (t *termer) ctxOf(c *tctx, f *ssa.Function) *tctx {
	for x := c; x != nil; x = x.up {
		for y := x; y != nil; y = y.def {
			if y.f == f {
				return y
			}
		}
	}
	return &tctx{f: f}
}

// enter makes the frame of g called at ci from frame c.
func (t *termer) enter(ci ssa.CallInstruction, g *ssa.Function, c *tctx) *tctx {
	key := tkey{ci, g, c}
	if n := t.made[key]; n != nil {
		return n
	}
	n := &tctx{f: g, args: map[*ssa.Parameter]tval{}, up: c, site: ci}
	t.made[key] = n
	for i, p := range g.Params {
		if a := argFor(ci, g, i); a != nil {
			n.args[p] = tval{v: a, c: c}
		}
	}
	if g.Parent() != nil {
		n.def = t.ctxOf(c, g.Parent())
	}
	return n
}

// closure makes the frame of a closure made in frame c; how it is called is not known.
func (t *termer) closure(fn *ssa.Function, c *tctx) *tctx {
	key := tkey{nil, fn, c}
	if n := t.made[key]; n != nil {
		return n
	}
	n := &tctx{f: fn, def: c}
	t.made[key] = n
	return n
}

func (t *termer) onStack(c *tctx, g *ssa.Function) int {
	n := 0
	for x := c; x != nil; x = x.up {
		if x.f == g {
			n++
		}
	}
	return n
}

func (t *termer) eval(v ssa.Value, c *tctx, path ...string) terms {
	if v == nil {
		return terms{}
	}
	t.steps++
	if t.steps > 400000 {
		return one("?")
	}
	key := fmt.Sprintf("%p %p %s", v, c, join(path))
	if t.busy[key] || len(path) > 12 || t.depth > 200 {
		return one("~")
	}
	t.busy[key] = true
	t.depth++
	out := t.eval1(v, c, path)
	t.depth--
	delete(t.busy, key)
	if len(out) > 1 && out["~"] {
		delete(out, "~")
	}
	return out
}

func add(out terms, in terms) {
	for k := range in {
		out[k] = true
	}
}

func (t *termer) eval1(v ssa.Value, c *tctx, path []string) terms {
	w := t.w
	if t.leafVal != nil {
		if s, ok := t.leafVal(v, c); ok {
			return one(s + join(path))
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok {
			return one(fmt.Sprintf("%q", s))
		}
		if x.Value == nil {
			if len(path) > 0 && (strings.HasPrefix(path[0], "[") || path[0] == "{k}") {
				return terms{} // nothing in it
			}
			return one("0")
		}
		if x.Value.ExactString() == "false" {
			return one("0")
		}
		return one(x.Value.ExactString())
	case *ssa.Parameter:
		if c != nil {
			if a, ok := c.args[x]; ok {
				return t.eval(a.v, a.c, append(append([]string{}, a.pre...), path...)...)
			}
			if c.def != nil && c.args == nil { // a closure: whatever it is called with next to where it is made
				out := terms{}
				for _, ci := range w.callersOf[x.Parent()] {
					a := argFor(ci, x.Parent(), paramIndex(x))
					if a == nil || outermost(ci.Parent()) != outermost(c.def.f) {
						continue
					}
					cc := t.ctxOf(c, ci.Parent())
					if ci.Parent() != c.def.f && ci.Parent().Parent() == c.def.f {
						cc = t.closure(ci.Parent(), c.def)
					}
					add(out, t.eval(a, cc, path...))
				}
				if len(out) > 0 {
					return out
				}
			}
		}
		return one(fmt.Sprintf("%s$%d", localName(x.Parent()), paramIndex(x)) + join(path))
	case *ssa.FreeVar:
		if b := w.bindingOf(x); b != nil {
			return t.eval(b, t.ctxOf(c, b.Parent()), path...)
		}
	case *ssa.Convert:
		return t.eval(x.X, c, path...)
	case *ssa.ChangeType:
		return t.eval(x.X, c, path...)
	case *ssa.ChangeInterface:
		return t.eval(x.X, c, path...)
	case *ssa.MakeInterface:
		return t.eval(x.X, c, path...)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return t.eval(x.X, c, path...)
		}
	case *ssa.Slice:
		if k, ok := constInt(x.High); ok && k == 0 && x.High != nil {
			return terms{}
		}
		whole := t.eval(x.X, c, path...)
		if _, lit := x.X.Type().Underlying().(*types.Pointer); !lit && !wholeSlice(x) {
			return mapTerms(whole, func(s string) string { return "part(" + s + ")" })
		}
		return whole
	case *ssa.SliceToArrayPointer:
		return t.eval(x.X, c, path...)
	case *ssa.MultiConvert:
		return t.eval(x.X, c, path...)
	case *ssa.Phi:
		if isBool(x.Type()) && len(path) == 0 {
			if s, ok := t.boolFn(x, c); ok {
				return one(s)
			}
		}
		out := terms{}
		for _, e := range x.Edges {
			add(out, t.eval(e, c, path...))
		}
		return out
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return t.load(x.X, c, path, x)
		case token.NOT:
			out := terms{}
			for a := range t.eval(x.X, c) {
				out[notTerm(a)] = true
			}
			return out
		case token.SUB:
			out := terms{}
			for a := range t.eval(x.X, c) {
				out["-"+a] = true
			}
			return out
		case token.ARROW:
			return one("recv")
		}
	case *ssa.BinOp:
		out := terms{}
		as, bs := t.eval(x.X, c).list(), t.eval(x.Y, c).list()
		if k, ok := constInt(x.Y); ok && x.Op == token.QUO && k == 1e6 && types.TypeString(x.X.Type(), nil) == "time.Duration" {
			return millis(t.eval(x.X, c, path...))
		}
		if len(as)*len(bs) > 64 {
			return one("?")
		}
		for _, a := range as {
			for _, b := range bs {
				l, r, op := a, b, x.Op.String()
				switch x.Op {
				case token.ADD, token.MUL, token.EQL, token.NEQ, token.AND, token.OR, token.XOR:
					if isInt(x.X.Type()) || x.Op != token.ADD {
						if l > r {
							l, r = r, l
						}
					}
				case token.GTR:
					l, r, op = r, l, "<"
				case token.GEQ:
					l, r, op = r, l, "<="
				}
				if x.Op == token.NEQ {
					out["!("+l+" == "+r+")"] = true
				} else {
					out["("+l+" "+op+" "+r+")"] = true
				}
			}
		}
		return out
	case *ssa.Field:
		_, f, _ := fieldName(x)
		return t.eval(x.X, c, append([]string{"." + f}, path...)...)
	case *ssa.Index:
		return t.eval(x.X, c, append([]string{"[]"}, path...)...)
	case *ssa.Lookup:
		if !x.CommaOk {
			return t.eval(x.X, c, append([]string{"[]"}, path...)...)
		}
	case *ssa.Extract:
		switch tu := x.Tuple.(type) {
		case *ssa.Call:
			return t.call(tu, x.Index, c, path)
		case *ssa.Next:
			if rg, ok := tu.Iter.(*ssa.Range); ok {
				switch x.Index {
				case 1:
					if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
						return t.eval(rg.X, c, append([]string{"{k}"}, path...)...)
					}
					return one("index")
				case 2:
					return t.eval(rg.X, c, append([]string{"[]"}, path...)...)
				}
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return t.eval(tu.X, c, append([]string{"[]"}, path...)...)
			}
			return mapTerms(t.eval(tu.X, c), func(s string) string { return "has(" + s + ")" })
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return t.eval(tu.X, c, path...)
			}
		}
		return one(fmt.Sprintf("extract%d", x.Index))
	case *ssa.Call:
		return t.call(x, 0, c, path)
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		// a pointer: transparent
		return t.load(x, c, path, nil)
	case *ssa.MakeMap, *ssa.MakeSlice:
		return t.container(v, c, path)
	case *ssa.MakeClosure, *ssa.Function:
		return one("func")
	}
	return one("?" + join(path))
}

func wholeSlice(x *ssa.Slice) bool {
	if k, ok := constInt(x.Low); x.Low != nil && !(ok && k == 0) {
		return false
	}
	if x.High == nil {
		return true
	}
	ln, ok := x.High.(*ssa.Call)
	return ok && isLenCall(ln) && ln.Call.Args[0] == x.X
}

func mapTerms(in terms, f func(string) string) terms {
	out := terms{}
	for k := range in {
		out[f(k)] = true
	}
	return out
}

func notTerm(s string) string {
	if strings.HasPrefix(s, "!") {
		return s[1:]
	}
	return "!" + s
}

// load: what a memory place holds.
func (t *termer) load(addr ssa.Value, c *tctx, path []string, at *ssa.UnOp) terms {
	switch a := addr.(type) {
	case *ssa.Alloc:
		if at != nil {
			if s := lastStoreBefore(at); s != nil {
				return t.eval(s.Val, c, path...)
			}
			if st, ok := deref(a.Type()).Underlying().(*types.Struct); ok && len(path) > 0 && strings.HasPrefix(path[0], ".") {
				for i := range st.NumFields() {
					if st.Field(i).Name() == path[0][1:] {
						if s := lastStoreTo(at, a, i); s != nil {
							return t.eval(s.Val, c, path[1:]...)
						}
					}
				}
			}
		}
		out := t.place(a, c, path)
		if len(out) == 0 {
			return one("0")
		}
		return out
	case *ssa.FieldAddr:
		if at != nil {
			if s := lastFieldStore(at, a); s != nil {
				return t.eval(s.Val, c, path...)
			}
		}
		_, f, _ := fieldName(a)
		return t.eval(a.X, c, append([]string{"." + f}, path...)...)
	case *ssa.IndexAddr:
		sel := "[]"
		if k, ok := constInt(a.Index); ok {
			sel = fmt.Sprintf("[%d]", k)
		}
		return t.eval(a.X, c, append([]string{sel}, path...)...)
	case *ssa.Global:
		return one("global:" + a.Name() + join(path))
	case *ssa.FreeVar:
		if b := t.w.bindingOf(a); b != nil {
			return t.load(b, t.ctxOf(c, b.Parent()), path, nil)
		}
		return one("?")
	}
	return t.eval(addr, c, path...)
}

// lastFieldStore: the store into the same field of the same variable that a load sees for certain.
func lastFieldStore(ld *ssa.UnOp, fa *ssa.FieldAddr) *ssa.Store {
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	return lastStoreTo(ld, al, fa.Field)
}

func lastStoreTo(ld *ssa.UnOp, al *ssa.Alloc, field int) *ssa.Store {
	for _, r := range *al.Referrers() { // not when others may write
		switch r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	// touches: 1 for a store to the field, 2 for one to all of it
	touches := func(in ssa.Instruction) int {
		s, ok := in.(*ssa.Store)
		if !ok {
			return 0
		}
		if s.Addr == al {
			return 2
		}
		if fb, ok := s.Addr.(*ssa.FieldAddr); ok && fb.X == al && fb.Field == field {
			return 1
		}
		return 0
	}
	b, from := ld.Block(), instrIndex(ld)
	for n := 0; n < 40; n++ {
		for i := from - 1; i >= 0; i-- {
			switch touches(b.Instrs[i]) {
			case 1:
				return b.Instrs[i].(*ssa.Store)
			case 2:
				return nil
			}
		}
		d := b.Idom()
		if d == nil {
			return nil
		}
		// nothing between the dominating block and this one
		seen := map[*ssa.BasicBlock]bool{d: true}
		st := slices.Clone(b.Preds)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, in := range x.Instrs {
				if touches(in) != 0 {
					return nil
				}
			}
			st = append(st, x.Preds...)
		}
		b = d
		from = len(b.Instrs)
	}
	return nil
}

// kept: the values read back from a variable or a field of a local object.
func (t *termer) kept(a ssa.Value, c *tctx, visit func(v ssa.Value, c *tctx)) {
	switch a := a.(type) {
	case *ssa.Alloc:
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				visit(r, c)
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == a && i < len(fn.FreeVars) {
						for _, rr := range *fn.FreeVars[i].Referrers() {
							if u, ok := rr.(*ssa.UnOp); ok {
								visit(u, t.closure(fn, c))
							}
						}
					}
				}
			}
		}
	case *ssa.FieldAddr:
		tn, fn, _ := fieldName(a)
		objs := map[ssa.Value]bool{}
		var obj func(p ssa.Value, c *tctx)
		obj = func(p ssa.Value, c *tctx) {
			if objs[p] || len(objs) > 20 {
				return
			}
			objs[p] = true
			t.same(p, c, func(v ssa.Value, c *tctx) {
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr:
						if n2, f2, _ := fieldName(r); r.X == v && n2 == tn && f2 == fn {
							for _, q := range *r.Referrers() {
								if u, ok := q.(*ssa.UnOp); ok {
									visit(u, c)
								}
							}
						}
					case *ssa.UnOp: // copied
						if r.Op != token.MUL {
							continue
						}
						for _, q := range *r.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Val == ssa.Value(r) {
								obj(st.Addr, c)
							}
						}
					}
				}
			})
		}
		obj(a.X, c)
	}
}

// same: the values that are the pointer v, from where it is made to where it is handed.
func (t *termer) same(v ssa.Value, c *tctx, visit func(v ssa.Value, c *tctx)) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if c != nil {
				if a, ok := c.args[x]; ok && len(a.pre) == 0 {
					v, c = a.v, a.c
					continue
				}
			}
		case *ssa.FreeVar:
			if b := t.w.bindingOf(x); b != nil {
				v, c = b, t.ctxOf(c, b.Parent())
				continue
			}
		case *ssa.UnOp:
			if al, ok := t.w.cellRoot(x.X).(*ssa.Alloc); ok && x.Op == token.MUL {
				if st := t.w.storesTo(al); len(st) == 1 {
					v, c = st[0].Val, t.ctxOf(c, st[0].Parent())
					continue
				}
			}
		}
		break
	}
	seen := map[tval2]bool{}
	var down func(v ssa.Value, c *tctx)
	down = func(v ssa.Value, c *tctx) {
		if seen[tval2{v, c}] || len(seen) > 500 || v.Referrers() == nil {
			return
		}
		seen[tval2{v, c}] = true
		visit(v, c)
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				down(r, c)
			case *ssa.Store:
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					t.kept(al, c, down)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						down(fn.FreeVars[i], t.closure(fn, c))
					}
				}
			case ssa.CallInstruction:
				for _, g := range t.w.Callees(r) {
					if !t.w.own(g) || len(g.Blocks) == 0 || t.onStack(c, g) > 1 {
						continue
					}
					for i, p := range g.Params {
						if a := argFor(r, g, i); a == v {
							down(p, t.enter(r, g, c))
						}
					}
				}
			}
		}
	}
	down(v, c)
}

type tval2 struct {
	v ssa.Value
	c *tctx
}

// place: the values stored into (part of) the object at address v, wherever the address is known.
func (t *termer) place(v ssa.Value, c *tctx, path []string) terms { return t.placed(v, c, path, nil) }

// placed is place; with each, the stores are handed out instead of being evaluated.
func (t *termer) placed(v ssa.Value, c *tctx, path []string, each func(st *ssa.Store, c *tctx, rest []string)) terms {
	out := terms{}
	seen := map[tval2]bool{}
	var visit func(v ssa.Value, c *tctx, path []string)
	visit = func(v ssa.Value, c *tctx, path []string) {
		if seen[tval2{v, c}] || len(seen) > 2000 || v.Referrers() == nil {
			return
		}
		seen[tval2{v, c}] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v && r.Val == v {
					t.kept(r.Addr, c, func(x ssa.Value, cx *tctx) { visit(x, cx, path) })
				} else if r.Addr == v && each != nil {
					each(r, c, path)
				} else if r.Addr == v {
					if len(path) == 0 && isBool(r.Val.Type()) {
						if s, ok := t.guarded(r, c); ok {
							out[s] = true
							continue
						}
					}
					add(out, t.eval(r.Val, c, path...))
				}
			case *ssa.FieldAddr:
				if len(path) > 0 && r.X == v {
					if _, f, _ := fieldName(r); path[0] == "."+f {
						visit(r, c, path[1:])
					}
				} else if len(path) == 0 && r.X == v && partStored(r) {
					// asked for the object as a whole: its parts
					_, f, _ := fieldName(r)
					sub := terms{}
					save := out
					out = sub
					visit(r, c, nil)
					out = save
					for k := range sub {
						out[f+":"+k] = true
					}
				}
			case *ssa.IndexAddr:
				if len(path) > 0 && r.X == v {
					if path[0] == "[]" {
						visit(r, c, path[1:])
					} else if k, ok := constInt(r.Index); ok && path[0] == fmt.Sprintf("[%d]", k) {
						visit(r, c, path[1:])
					} else if !ok && strings.HasPrefix(path[0], "[") {
						visit(r, c, path[1:])
					}
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						visit(fn.FreeVars[i], t.closure(fn, c), path)
					}
				}
			case ssa.CallInstruction:
				n := calleeName(r)
				args := r.Common().Args
				switch {
				case strings.HasSuffix(n, ").UnmarshalMsgpack") && len(args) == 2 && args[0] == v:
					add(out, mapTerms(t.eval(args[1], c), func(s string) string { return "decode(" + s + ")" + join(path) }))
				case strings.HasSuffix(n, ".Unmarshal") && len(args) == 2 && sameAddr(args[1], v):
					add(out, mapTerms(t.eval(args[0], c), func(s string) string { return "decode(" + s + ")" + join(path) }))
				case len(path) == 0 && len(args) == 2 && args[0] == v && (strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write")):
					add(out, t.eval(args[1], c))
				case n == "encoding/json.NewEncoder" && len(path) == 0:
					if enc, ok := r.(*ssa.Call); ok {
						for _, q := range *enc.Referrers() {
							if e, ok := q.(*ssa.Call); ok && calleeName(e) == "(*encoding/json.Encoder).Encode" {
								add(out, mapTerms(t.eval(e.Call.Args[1], c), func(s string) string { return "json.Marshal(" + s + ")#0" }))
							}
						}
					}
				default:
					for _, g := range t.w.Callees(r) {
						if !t.w.own(g) || len(g.Blocks) == 0 || t.onStack(c, g) > 1 {
							continue
						}
						for i, p := range g.Params {
							if a := argFor(r, g, i); a == v {
								visit(p, t.enter(r, g, c), path)
							}
						}
					}
				}
			case *ssa.MakeInterface:
				visit(r, c, path)
			}
		}
	}
	visit(v, c, path)
	return out
}

// guarded: a boolean stored on some paths only, as a truth table over the conditions and the value.
func (t *termer) guarded(st *ssa.Store, c *tctx) (string, bool) {
	var root ssa.Value = st.Addr
	for {
		if fa, ok := root.(*ssa.FieldAddr); ok {
			root = fa.X
			continue
		}
		break
	}
	al, ok := root.(*ssa.Alloc)
	if !ok {
		return "", false
	}
	stores := 0
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok { // the only store into the field
		for _, r := range *fa.X.Referrers() {
			if fb, ok := r.(*ssa.FieldAddr); ok && fb.Field == fa.Field {
				for _, q := range *fb.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == fb {
						stores++
					}
				}
			}
		}
	} else {
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				stores++
			}
		}
	}
	if stores != 1 {
		return "", false
	}
	var conj []string // "!" prefixed when negated
	for b := st.Block(); b != nil && b != al.Block(); b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return "", false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i := range d.Succs {
			if edgeDominates(d, i, st.Block()) {
				ts := t.eval(iff.Cond, c)
				if len(ts) != 1 {
					return "", false
				}
				s := ts.list()[0]
				if i == 1 {
					s = notTerm(s)
				}
				conj = append(conj, s)
			}
		}
	}
	if len(conj) == 0 {
		return "", false
	}
	vs := t.eval(st.Val, c)
	if len(vs) != 1 {
		return "", false
	}
	v := vs.list()[0]
	if v == "0" {
		return "0", true
	}
	if v != "true" {
		conj = append(conj, v)
	}
	pol := map[string]int{}
	var order []string
	for _, s := range conj {
		if strings.HasPrefix(s, "bool{") {
			return "", false
		}
		want := 1
		if strings.HasPrefix(s, "!") {
			s, want = s[1:], 0
		}
		if old, ok := pol[s]; ok && old != want {
			return "0", true
		} else if !ok {
			order = append(order, s)
		}
		pol[s] = want
	}
	sort.Strings(order)
	if len(order) > 5 {
		return "", false
	}
	tab := ""
	for m := 0; m < 1<<len(order); m++ {
		v := 1
		for j, s := range order {
			if m>>j&1 != pol[s] {
				v = 0
			}
		}
		tab += fmt.Sprint(v)
	}
	return "bool{" + strings.Join(order, "; ") + "}=" + tab, true
}

// touchStores notes the stores into an element.
func (t *termer) touchStores(v ssa.Value) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				t.touched[r] = true
			}
		case *ssa.FieldAddr:
			t.touchStores(r)
		}
	}
}

func sameAddr(a, v ssa.Value) bool {
	if mi, ok := a.(*ssa.MakeInterface); ok && a != v {
		a = mi.X
	}
	return a == v
}

func partStored(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fa {
				return true
			}
		case *ssa.FieldAddr:
			if partStored(r) {
				return true
			}
		}
	}
	return false
}

// container: elements or keys put into a map or slice made here, through any of its names.
func (t *termer) container(v ssa.Value, c *tctx, path []string) terms {
	out := terms{}
	seen := map[tval2]bool{}
	if len(path) == 0 {
		switch v.(type) {
		case *ssa.MakeMap:
			return mapTerms(t.container(v, c, []string{"[]"}), func(s string) string { return "map{" + s + "}" })
		}
		return mapTerms(t.container(v, c, []string{"[]"}), func(s string) string { return "list{" + s + "}" })
	}
	var visit func(v ssa.Value, c *tctx)
	cell := func(a ssa.Value, c *tctx) {
		if !seen[tval2{a, c}] {
			seen[tval2{a, c}] = true
			t.kept(a, c, visit)
		}
	}
	visit = func(v ssa.Value, c *tctx) {
		if seen[tval2{v, c}] || len(seen) > 2000 || v.Referrers() == nil {
			return
		}
		seen[tval2{v, c}] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				if r.Map == v {
					t.touched[r] = true
					switch {
					case path[0] == "{k}":
						add(out, t.eval(r.Key, c, path[1:]...))
					case strings.HasPrefix(path[0], "["):
						add(out, t.eval(r.Value, c, path[1:]...))
					}
				}
			case *ssa.IndexAddr:
				if r.X == v && strings.HasPrefix(path[0], "[") {
					t.touchStores(r)
					add(out, t.place(r, c, path[1:]))
				}
			case *ssa.Lookup: // a map in the map
				if r.X == v && len(path) > 1 && path[0] == "[]" {
					var sub ssa.Value = r
					if r.CommaOk {
						sub = nil
						for _, q := range *r.Referrers() {
							if e, ok := q.(*ssa.Extract); ok && e.Index == 0 {
								sub = e
							}
						}
					}
					if sub != nil {
						if _, ok := sub.Type().Underlying().(*types.Map); ok {
							add(out, t.container(sub, c, path[1:]))
						}
					}
				}
			case *ssa.Phi:
				visit(r, c)
			case *ssa.Slice:
				visit(r, c)
			case *ssa.Store:
				if r.Val == v {
					cell(r.Addr, c)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(fn.FreeVars) {
						visit(fn.FreeVars[i], t.closure(fn, c))
					}
				}
			case *ssa.Call:
				n := calleeName(r)
				if strings.HasPrefix(n, "maps.Insert") || strings.HasPrefix(n, "maps.Copy") {
					if len(r.Call.Args) == 2 && r.Call.Args[0] == v {
						add(out, t.eval(r.Call.Args[1], c, path...))
					}
					continue
				}
				if isAppend(r) {
					continue // the result is another value
				}
				for _, g := range t.w.Callees(r) {
					if !t.w.own(g) || len(g.Blocks) == 0 || t.onStack(c, g) > 1 {
						continue
					}
					for i, p := range g.Params {
						if a := argFor(r, g, i); a == v {
							visit(p, t.enter(r, g, c))
						}
					}
				}
			}
		}
	}
	visit(v, c)
	return out
}

var termThrough = map[string]int{ // result shares or renders the given argument
	"slices.Clone": 0, "maps.All": 0, "slices.Values": 0, "maps.Clone": 0, "slices.Collect": 0, "strings.Clone": 0, "slices.Clip": 0, "slices.Compact": 0,
	"strings.TrimSpace": 0, "github.com/go-analyze/bulk.SliceCopy": 0,
}

// arg renders an argument of a call; an argument list is rendered in order.
func (t *termer) arg(a ssa.Value, c *tctx) string {
	if sl, ok := a.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok && arr.Len() < 30 {
				var es []string
				for i := int64(0); i < arr.Len(); i++ {
					es = append(es, t.eval(al, c, fmt.Sprintf("[%d]", i)).String())
				}
				return strings.Join(es, ", ")
			}
		}
	}
	return t.eval(a, c).String()
}

func millis(in terms) terms {
	return mapTerms(in, func(s string) string {
		if s == "0" {
			return s
		}
		return "ms(" + s + ")"
	})
}

func (t *termer) call(ci *ssa.Call, idx int, c *tctx, path []string) terms {
	w := t.w
	if t.leafCall != nil {
		if s, ok := t.leafCall(ci, c); ok {
			if ci.Call.Signature().Results().Len() > 1 {
				s += fmt.Sprintf("#%d", idx)
			}
			return one(s + join(path))
		}
	}
	n := calleeName(ci)
	args := ci.Call.Args
	if b, ok := ci.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			els := t.eval(args[0], c, "[]")
			delete(els, "0")
			if len(els) == 0 {
				return one("0")
			}
			return one("len{" + els.String() + "}")
		case "append":
			t.touched[ci] = true
			out := terms{}
			if len(path) > 0 {
				add(out, t.eval(args[0], c, path...))
				delete(out, "0")
				add(out, t.eval(args[1], c, path...))
				return out
			}
			add(out, t.eval(args[0], c, "[]"))
			delete(out, "0")
			add(out, t.eval(args[1], c, "[]"))
			return one("list{" + out.String() + "}")
		case "max", "min":
			var as []string
			for _, a := range args {
				as = append(as, t.eval(a, c).String())
			}
			sort.Strings(as)
			return one(b.Name() + "(" + strings.Join(as, ", ") + ")")
		}
	}
	gen := n
	if i := strings.Index(gen, "["); i > 0 && strings.HasSuffix(gen, "]") {
		gen = gen[:i]
	}
	if i, ok := termThrough[gen]; ok && !(t.strict && strings.HasPrefix(gen, "strings.Trim")) {
		return t.eval(args[i], c, path...)
	}
	switch gen {
	case "(time.Duration).Milliseconds":
		return millis(t.eval(args[0], c))
	case "maps.Keys", "github.com/go-analyze/bulk.MapKeysSlice":
		if len(path) > 0 {
			return t.eval(args[0], c, append([]string{"{k}"}, path[1:]...)...)
		}
		return t.eval(args[0], c, "{k}")
	case "maps.Values":
		if len(path) > 0 {
			return t.eval(args[0], c, append([]string{"[]"}, path[1:]...)...)
		}
	case "slices.Sorted", "slices.SortedFunc":
		return t.eval(args[0], c, path...)
	case "github.com/go-analyze/bulk.SliceToGroupsBy":
		if len(path) > 1 && strings.HasPrefix(path[0], "[") {
			return t.eval(args[1], c, append([]string{"[]"}, path[1:]...)...)
		}
		if len(path) == 1 && path[0] == "{k}" {
			out := terms{}
			for _, g := range t.w.funcsOf(args[0], map[ssa.Value]bool{}) {
				if len(g.Params) == 1 {
					n := &tctx{f: g, args: map[*ssa.Parameter]tval{g.Params[0]: {v: args[1], c: c, pre: []string{"[]", "[]"}}}, up: c, site: ci}
					if g.Parent() != nil {
						n.def = t.ctxOf(c, g.Parent())
					}
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							add(out, t.eval(retVals(r)[0], n))
						}
					}
				}
			}
			return out
		}
	case "github.com/go-analyze/bulk.SliceToCounts", "github.com/go-analyze/bulk.SliceToSet":
		if len(path) == 1 && path[0] == "{k}" {
			return t.eval(args[0], c, "[]", "[]")
		}
	case "slices.Concat":
		return t.eval(args[0], c, append([]string{"[]"}, path...)...)
	}
	fns := w.Callees(ci)
	var own []*ssa.Function
	for _, g := range fns {
		if w.own(g) && len(g.Blocks) > 0 {
			own = append(own, g)
		}
	}
	if len(own) > 0 && len(own) == len(fns) && len(own) <= 3 {
		out := terms{}
		for _, g := range own {
			if t.onStack(c, g) > 1 {
				out["~"] = true
				continue
			}
			nc := t.enter(ci, g, c)
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if rv := retVals(r); idx < len(rv) {
						add(out, t.eval(rv[idx], nc, path...))
					}
				}
			}
		}
		return out
	}
	var as []string
	for _, a := range args {
		as = append(as, t.arg(a, c))
	}
	s := gen
	if ci.Call.IsInvoke() {
		s = typeName(ci.Call.Value.Type()) + "." + ci.Call.Method.Name()
		as = append([]string{t.eval(ci.Call.Value, c).String()}, as...)
	}
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	s += "(" + strings.Join(as, ", ") + ")"
	if ci.Call.Signature().Results().Len() > 1 {
		s += fmt.Sprintf("#%d", idx)
	}
	return one(s + join(path))
}

// boolFn: a boolean computed with && and || as a truth table over its atoms.
func (t *termer) boolFn(ph *ssa.Phi, c *tctx) (string, bool) {
	b := ph.Block()
	root := b.Idom()
	if root == nil {
		return "", false
	}
	// collect the conditions between root and b
	atoms := []string{}
	idx := map[string]int{}
	condOf := map[*ssa.BasicBlock][2]int{} // atom, negated
	region := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	atom := func(v ssa.Value) (int, int, bool) {
		ts := t.eval(v, c)
		if len(ts) != 1 {
			return 0, 0, false
		}
		s := ts.list()[0]
		neg := 0
		if strings.HasPrefix(s, "!") {
			s, neg = s[1:], 1
		}
		if _, ok := idx[s]; !ok {
			idx[s] = len(atoms)
			atoms = append(atoms, s)
		}
		return idx[s], neg, true
	}
	walk = func(x *ssa.BasicBlock) bool {
		if x == b || region[x] {
			return true
		}
		if len(region) > 12 {
			return false
		}
		region[x] = true
		switch last := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.If:
			i, n, ok := atom(last.Cond)
			if !ok {
				return false
			}
			condOf[x] = [2]int{i, n}
		case *ssa.Jump:
		default:
			return false
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	if !walk(root) {
		return "", false
	}
	type edge struct {
		atom, neg int
		val       int // -1: atom
	}
	edges := make([]edge, len(ph.Edges))
	for i, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok {
			v := 0
			if k.Value != nil && k.Value.ExactString() == "true" {
				v = 1
			}
			edges[i] = edge{val: v}
			continue
		}
		a, n, ok := atom(e)
		if !ok {
			return "", false
		}
		edges[i] = edge{atom: a, neg: n, val: -1}
	}
	if len(atoms) > 5 {
		return "", false
	}
	order := append([]string{}, atoms...)
	sort.Strings(order)
	tab := ""
	for m := 0; m < 1<<len(order); m++ {
		val := func(i int) int {
			for j, s := range order {
				if s == atoms[i] {
					return m >> j & 1
				}
			}
			return 0
		}
		x, from := root, root
		for x != b {
			from = x
			if cn, ok := condOf[x]; ok {
				if val(cn[0])^cn[1] == 1 {
					x = x.Succs[0]
				} else {
					x = x.Succs[1]
				}
			} else {
				x = x.Succs[0]
			}
		}
		for i, p := range b.Preds {
			if p == from {
				e := edges[i]
				v := e.val
				if v < 0 {
					v = val(e.atom) ^ e.neg
				}
				tab += fmt.Sprint(v)
				break
			}
		}
	}
	return "bool{" + strings.Join(order, "; ") + "}=" + tab, true
}

// frames visits every call below fn in frame c, with the frames of inlined functions.
func (t *termer) frames(c *tctx, visit func(ci ssa.CallInstruction, c *tctx)) {
	var rec func(c *tctx, d int)
	rec = func(c *tctx, d int) {
		if d > 12 {
			return
		}
		eachInstr(c.f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			visit(ci, c)
			if t.leafCall != nil {
				if _, leaf := t.leafCall(ci, c); leaf {
					return
				}
			}
			for _, g := range t.w.Callees(ci) {
				if t.w.own(g) && len(g.Blocks) > 0 && t.onStack(c, g) == 0 {
					rec(t.enter(ci, g, c), d+1)
				}
			}
		})
	}
	rec(c, 0)
}

// eachFrame visits every instruction of the frame's function and of the functions it runs.
func (t *termer) eachFrame(c *tctx, visit func(in ssa.Instruction, c *tctx)) {
	eachInstr(c.f, func(in ssa.Instruction) { visit(in, c) })
	t.frames(c, func(ci ssa.CallInstruction, cx *tctx) {
		if t.leafCall != nil {
			if _, leaf := t.leafCall(ci, cx); leaf {
				return
			}
		}
		for _, g := range t.w.Callees(ci) {
			if t.w.own(g) && len(g.Blocks) > 0 && t.onStack(cx, g) == 0 {
				n := t.enter(ci, g, cx)
				eachInstr(g, func(in ssa.Instruction) { visit(in, n) })
			}
		}
	})
}
