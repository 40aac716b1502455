package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A conditional constant propagation over the paths of the checks of the settings: every value is a known constant or unknown,
// a condition which is unknown goes both ways.

type absVal struct {
	k    byte // 0 unknown, 'c' constant, 'n' nil, 'e' not nil, 'p' address, 's' slice, 'm' map, 'f' function, 'a' struct or array, 't' tuple
	c    constant.Value
	base string
	n    int64
	fn   *ssa.Function
	sub  []absVal
	agg  map[string]absVal
}

type absState struct {
	val map[ssa.Value]absVal
	mem map[string]absVal
}

func (s *absState) clone() *absState {
	t := &absState{val: make(map[ssa.Value]absVal, len(s.val)+8), mem: make(map[string]absVal, len(s.mem)+4)}
	for k, v := range s.val {
		t.val[k] = v
	}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	return t
}

type absOut struct {
	res []absVal
	mem map[string]absVal
}

type absEval struct {
	w     *World
	steps int
	over  bool
	fresh int
	env   map[string]absVal // settings
	fails string            // whatever is asked about this string fails
	asked bool
}

func absStr(s string) absVal { return absVal{k: 'c', c: constant.MakeString(s)} }
func absInt(n int64) absVal  { return absVal{k: 'c', c: constant.MakeInt64(n)} }
func absBool(b bool) absVal  { return absVal{k: 'c', c: constant.MakeBool(b)} }
func (v absVal) bool() (b, known bool) {
	if v.k == 'c' && v.c.Kind() == constant.Bool {
		return constant.BoolVal(v.c), true
	}
	return false, false
}

func (e *absEval) load(mem map[string]absVal, addr string, t types.Type) absVal {
	if v, ok := mem[addr]; ok {
		return v
	}
	for i := len(addr) - 1; i > 0; i-- { // part of something unknown
		if addr[i] == '.' {
			if v, ok := mem[addr[:i]]; ok && v.k != 'a' {
				return absVal{}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		agg := map[string]absVal{}
		for k, v := range mem {
			if strings.HasPrefix(k, addr+".") {
				agg[k[len(addr):]] = v
			}
		}
		return absVal{k: 'a', agg: agg, base: addr}
	case *types.Basic:
		// a variable of the checks which was not set yet
		if strings.HasPrefix(addr, "new") {
			switch {
			case u.Info()&types.IsString != 0:
				return absStr("")
			case u.Info()&types.IsBoolean != 0:
				return absBool(false)
			case u.Info()&types.IsInteger != 0:
				return absInt(0)
			}
		}
	case *types.Interface, *types.Pointer:
		if strings.HasPrefix(addr, "new") {
			return absVal{k: 'n'}
		}
	}
	return absVal{}
}

func (e *absEval) store(mem map[string]absVal, addr string, v absVal) {
	for k := range mem {
		if strings.HasPrefix(k, addr+".") {
			delete(mem, k)
		}
	}
	if v.k == 'a' {
		delete(mem, addr)
		for p, x := range v.agg {
			mem[addr+p] = x
		}
		return
	}
	mem[addr] = v
}

func (e *absEval) get(s *absState, v ssa.Value, d int) absVal {
	if x, ok := s.val[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return absVal{k: 'a', agg: map[string]absVal{}}
			}
			return absVal{k: 'n'}
		}
		return absVal{k: 'c', c: x.Value}
	case *ssa.Function:
		return absVal{k: 'f', fn: x}
	case *ssa.Global:
		return absVal{k: 'p', base: "global " + x.String()}
	case ssa.Instruction:
		if d < 20 { // seen out of order: when only a part of a function is looked at
			if r, ok := e.pure(s, v, d+1); ok {
				return r
			}
		}
	}
	return absVal{}
}

// pure: the value of an instruction without effects.
func (e *absEval) pure(s *absState, v ssa.Value, d int) (absVal, bool) {
	get := func(v ssa.Value) absVal { return e.get(s, v, d) }
	switch x := v.(type) {
	case *ssa.BinOp:
		return e.binop(x, get(x.X), get(x.Y)), true
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := get(x.X)
			if a.k == 'p' {
				if g, ok := x.X.(*ssa.Global); ok {
					if _, known := s.mem[a.base+".!"]; known {
						return e.global(g), true
					}
					return absVal{}, true
				}
				if r := e.load(s.mem, a.base, x.Type()); r.k != 0 {
					return r, true
				}
			}
			if fld, ok := cfgField(x.X); ok {
				if _, own := s.mem["cfg."+fld]; !own {
					if r, ok := e.env[fld]; ok {
						return r, true
					}
				}
			}
			return absVal{}, true
		case token.NOT:
			if b, ok := get(x.X).bool(); ok {
				return absBool(!b), true
			}
		}
		return absVal{}, true
	case *ssa.FieldAddr:
		a := get(x.X)
		if st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && a.k == 'p' {
			return absVal{k: 'p', base: a.base + "." + st.Field(x.Field).Name()}, true
		}
		return absVal{}, true
	case *ssa.Field:
		a := get(x.X)
		if a.k == 'a' {
			st := x.X.Type().Underlying().(*types.Struct)
			return e.load(prefixed(a.agg), "x."+st.Field(x.Field).Name(), x.Type()), true
		}
		if fld, ok := cfgField(x); ok {
			if r, ok := e.env[fld]; ok {
				return r, true
			}
		}
		return absVal{}, true
	case *ssa.IndexAddr:
		a, i := get(x.X), get(x.Index)
		if (a.k == 'p' || a.k == 's') && i.k == 'c' {
			return absVal{k: 'p', base: a.base + "." + i.c.ExactString()}, true
		}
		return absVal{}, true
	case *ssa.Index:
		a, i := get(x.X), get(x.Index)
		if a.k == 'a' && i.k == 'c' {
			return e.load(prefixed(a.agg), "x."+i.c.ExactString(), x.Type()), true
		}
		return absVal{}, true
	case *ssa.Slice:
		a := get(x.X)
		if x.Low == nil && x.High == nil {
			if a.k == 's' {
				return a, true
			}
			if p, ok := x.X.Type().Underlying().(*types.Pointer); ok && a.k == 'p' {
				if ar, ok := p.Elem().Underlying().(*types.Array); ok {
					return absVal{k: 's', base: a.base, n: ar.Len()}, true
				}
			}
		}
		return absVal{}, true
	case *ssa.MakeInterface:
		r := get(x.X)
		if r.k == 'n' || r.k == 0 {
			r = absVal{k: 'e'}
		}
		return r, true
	case *ssa.ChangeInterface:
		return get(x.X), true
	case *ssa.ChangeType:
		return get(x.X), true
	case *ssa.Convert:
		r := get(x.X)
		if r.k == 'c' && types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
			return r, true
		}
		if r.k == 'c' && r.c.Kind() == constant.Int {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 && (b.Kind() == types.Int || b.Kind() == types.Int64) {
				return r, true
			}
		}
		return absVal{}, true
	case *ssa.Extract:
		a := get(x.Tuple)
		if a.k == 't' && x.Index < len(a.sub) {
			return a.sub[x.Index], true
		}
		return absVal{}, true
	case *ssa.Lookup:
		m, k := get(x.X), get(x.Index)
		if m.k != 'm' || k.k != 'c' {
			return absVal{}, true
		}
		if _, dirty := s.mem[m.base+".?"]; dirty {
			return absVal{}, true
		}
		r, have := s.mem[m.base+"."+k.c.ExactString()]
		if !have {
			r = absVal{}
			mt, _ := x.X.Type().Underlying().(*types.Map)
			if mt != nil {
				r = e.load(nil, "new", mt.Elem())
			}
		}
		if x.CommaOk {
			return absVal{k: 't', sub: []absVal{r, absBool(have)}}, true
		}
		return r, true
	case *ssa.MakeClosure:
		r := absVal{k: 'f', fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.sub = append(r.sub, get(b))
		}
		return r, true
	}
	return absVal{}, false
}

func prefixed(m map[string]absVal) map[string]absVal {
	r := map[string]absVal{}
	for k, v := range m {
		r["x"+k] = v
	}
	return r
}

// global: what a package variable which is only set at start holds: its map is read from the initialiser.
func (e *absEval) global(g *ssa.Global) absVal {
	return absVal{k: 'm', base: "global " + g.String()}
}

// globals: the contents of the maps and slices which package initialisers build.
func (e *absEval) globals(mem map[string]absVal) {
	for _, p := range e.w.Prog.AllPackages() {
		if !e.w.Own[p] {
			continue
		}
		init := p.Func("init")
		if init == nil {
			continue
		}
		eachInstr(init, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok {
				return
			}
			mm, ok := st.Val.(*ssa.MakeMap)
			if !ok {
				return
			}
			for _, r := range *mm.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok {
					k, ok := mu.Key.(*ssa.Const)
					if !ok || k.Value == nil {
						mem["global "+g.String()+".?"] = absVal{}
						continue
					}
					v := absVal{}
					if c, ok := mu.Value.(*ssa.Const); ok && c.Value != nil {
						v = absVal{k: 'c', c: c.Value}
					}
					mem["global "+g.String()+"."+k.Value.ExactString()] = v
				}
			}
			mem["global "+g.String()+".!"] = absVal{k: 'm'}
		})
	}
}

func (e *absEval) binop(x *ssa.BinOp, a, b absVal) absVal {
	switch x.Op {
	case token.EQL, token.NEQ:
		if a.k == 'c' && b.k == 'c' && a.c.Kind() == b.c.Kind() {
			return absBool(constant.Compare(a.c, x.Op, b.c))
		}
		isN := func(v absVal) bool { return v.k == 'n' }
		not := func(v absVal) bool { return v.k == 'e' || v.k == 'p' || v.k == 'm' || v.k == 's' || v.k == 'f' }
		switch {
		case isN(a) && isN(b):
			return absBool(x.Op == token.EQL)
		case isN(a) && not(b), isN(b) && not(a):
			return absBool(x.Op == token.NEQ)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.k == 'c' && b.k == 'c' && a.c.Kind() == b.c.Kind() {
			return absBool(constant.Compare(a.c, x.Op, b.c))
		}
	case token.ADD, token.SUB, token.MUL:
		if a.k == 'c' && b.k == 'c' && a.c.Kind() == b.c.Kind() && (a.c.Kind() == constant.Int || x.Op == token.ADD && a.c.Kind() == constant.String) {
			return absVal{k: 'c', c: constant.BinaryOp(a.c, x.Op, b.c)}
		}
	}
	return absVal{}
}

// run: what the function can return.
func (e *absEval) run(f *ssa.Function, args, free []absVal, mem map[string]absVal, d int) []absOut {
	s := &absState{val: map[ssa.Value]absVal{}, mem: map[string]absVal{}}
	for k, v := range mem {
		s.mem[k] = v
	}
	for i, p := range f.Params {
		if i < len(args) {
			s.val[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			s.val[p] = free[i]
		}
	}
	var outs []absOut
	have := map[string]bool{}
	e.walk(f.Blocks[0], nil, s, map[*ssa.BasicBlock]int{}, d, nil, func(res []absVal, mem map[string]absVal) {
		key := fmt.Sprint(len(res))
		for _, r := range res {
			key += fmt.Sprintf("|%c%v%s", r.k+'0', r.c, r.base)
		}
		if d > 0 || !have[key] {
			mk := key
			if d > 0 {
				var ks []string
				for k, v := range mem {
					if o, was := s.mem[k]; !was || o.k != v.k || o.c != v.c {
						ks = append(ks, fmt.Sprintf("%s=%c%v", k, v.k+'0', v.c))
					}
				}
				sort.Strings(ks)
				mk += strings.Join(ks, ",")
			}
			if !have[mk] {
				have[mk] = true
				outs = append(outs, absOut{res, mem})
			}
		}
	})
	return outs
}

func (e *absEval) walk(b, prev *ssa.BasicBlock, s *absState, visits map[*ssa.BasicBlock]int, d int, stop func(b, prev *ssa.BasicBlock, s *absState) bool, out func(res []absVal, mem map[string]absVal)) {
	e.steps++
	if e.steps > 60000 {
		e.over = true
		return
	}
	if stop != nil && stop(b, prev, s) {
		return
	}
	if visits[b] > 30 {
		return
	}
	visits[b]++
	defer func() { visits[b]-- }()
	// the values which meet here are taken at once
	if prev != nil {
		nv := map[ssa.Value]absVal{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					nv[ph] = e.get(s, ph.Edges[i], 0)
				}
			}
		}
		for k, v := range nv {
			s.val[k] = v
		}
	}
	e.instrs(b, 0, s, visits, d, stop, out)
}

func (e *absEval) instrs(b *ssa.BasicBlock, from int, s *absState, visits map[*ssa.BasicBlock]int, d int, stop func(b, prev *ssa.BasicBlock, s *absState) bool, out func(res []absVal, mem map[string]absVal)) {
	for i := from; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi:
		case *ssa.Alloc:
			e.fresh++
			s.val[x] = absVal{k: 'p', base: fmt.Sprintf("new%d", e.fresh)}
		case *ssa.MakeMap:
			e.fresh++
			s.val[x] = absVal{k: 'm', base: fmt.Sprintf("new%d", e.fresh)}
		case *ssa.MapUpdate:
			m, k := e.get(s, x.Map, 0), e.get(s, x.Key, 0)
			if m.k == 'm' {
				if k.k == 'c' {
					s.mem[m.base+"."+k.c.ExactString()] = e.get(s, x.Value, 0)
				} else {
					s.mem[m.base+".?"] = absVal{}
				}
			}
		case *ssa.Store:
			if a := e.get(s, x.Addr, 0); a.k == 'p' {
				e.store(s.mem, a.base, e.get(s, x.Val, 0))
			}
		case *ssa.Call:
			outs := e.call(x, s, d)
			for _, o := range outs[1:] {
				t := s.clone()
				t.mem = o.mem
				t.val[x] = tupled(o.res)
				vis := visits
				e.instrs(b, i+1, t, vis, d, stop, out)
			}
			s.mem = outs[0].mem
			s.val[x] = tupled(outs[0].res)
		case *ssa.Return:
			var res []absVal
			for _, r := range x.Results {
				res = append(res, e.get(s, r, 0))
			}
			out(res, s.mem)
			return
		case *ssa.Panic:
			return
		case *ssa.Jump:
			e.walk(b.Succs[0], b, s, visits, d, stop, out)
			return
		case *ssa.If:
			if c, ok := e.get(s, x.Cond, 0).bool(); ok {
				e.walk(b.Succs[1-b2i(c)], b, s, visits, d, stop, out)
				return
			}
			for side := 0; side < 2; side++ {
				nb := b.Succs[side]
				if visits[nb] > 2 { // an unknown condition keeps the loop going, the other side leaves it
					continue
				}
				t := s.clone()
				t.val[x.Cond] = absBool(side == 0)
				if cmp, ok := x.Cond.(*ssa.BinOp); ok && isNilConst(cmp.Y) && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
					if (cmp.Op == token.EQL) == (side == 0) {
						t.val[cmp.X] = absVal{k: 'n'}
					} else {
						t.val[cmp.X] = absVal{k: 'e'}
					}
				}
				e.walk(nb, b, t, visits, d, stop, out)
			}
			return
		default:
			if v, ok := x.(ssa.Value); ok {
				delete(s.val, v)
				if r, ok := e.pure(s, v, 0); ok {
					s.val[v] = r
				} else {
					s.val[v] = absVal{}
				}
			}
		}
	}
}

func tupled(res []absVal) absVal {
	if len(res) == 1 {
		return res[0]
	}
	return absVal{k: 't', sub: res}
}

func (e *absEval) call(x *ssa.Call, s *absState, d int) []absOut {
	var args []absVal
	for _, a := range x.Call.Args {
		args = append(args, e.get(s, a, 0))
	}
	n := x.Call.Signature().Results().Len()
	unknown := []absOut{{make([]absVal, max(n, 1)), s.mem}}
	one := func(v absVal) []absOut { return []absOut{{[]absVal{v}, s.mem}} }
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" && len(args) == 1 {
			switch {
			case args[0].k == 's':
				return one(absInt(args[0].n))
			case args[0].k == 'c' && args[0].c.Kind() == constant.String:
				return one(absInt(int64(len(constant.StringVal(args[0].c)))))
			case args[0].k == 'n':
				return one(absInt(0))
			}
		}
		return unknown
	}
	cn := calleeName(x)
	if re := errResult(x.Call.Signature()); e.fails != "" && re >= 0 && !strings.HasPrefix(cn, "fmt.") {
		for _, a := range args {
			if a.k == 'c' && a.c.Kind() == constant.String && constant.StringVal(a.c) == e.fails {
				e.asked = true
				res := make([]absVal, max(n, 1))
				res[re] = absVal{k: 'e'}
				return []absOut{{res, s.mem}}
			}
		}
	}
	switch {
	case cn == "fmt.Errorf" || cn == "errors.New":
		return one(absVal{k: 'e'})
	case (cn == "strings.TrimSpace" || cn == "strings.ToLower") && args[0].k == 'c':
		t := constant.StringVal(args[0].c)
		if cn == "strings.ToLower" {
			return one(absStr(strings.ToLower(t)))
		}
		return one(absStr(strings.TrimSpace(t)))
	case (strings.HasPrefix(cn, "slices.Contains[") || cn == "slices.Contains") && len(args) == 2:
		if args[0].k == 's' && args[1].k == 'c' {
			for i := int64(0); i < args[0].n; i++ {
				el, ok := s.mem[fmt.Sprintf("%s.%d", args[0].base, i)]
				if !ok || el.k != 'c' {
					return unknown
				}
				if el.c.ExactString() == args[1].c.ExactString() {
					return one(absBool(true))
				}
			}
			return one(absBool(false))
		}
		return unknown
	}
	var g *ssa.Function
	var free []absVal
	if g = x.Call.StaticCallee(); g == nil && !x.Call.IsInvoke() {
		if fv := e.get(s, x.Call.Value, 0); fv.k == 'f' {
			g, free = fv.fn, fv.sub
		}
	} else if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
		free = e.get(s, mc, 0).sub
	}
	if g == nil || len(g.Blocks) == 0 || !e.w.own(g) || d >= 4 {
		for _, a := range args { // may be written to
			if (a.k == 'p' || a.k == 's') && strings.HasPrefix(a.base, "new") && !strings.HasPrefix(cn, "fmt.") && !strings.HasPrefix(cn, "log.") && !strings.HasPrefix(cn, "strings.") {
				e.store(s.mem, a.base, absVal{})
			}
		}
		return unknown
	}
	outs := e.run(g, args, free, s.mem, d+1)
	if len(outs) == 0 || e.over {
		return unknown
	}
	return outs
}

// accepts: with these settings the checks can succeed. What is not given is unknown, but for the ways to name an update and the
// reports, which are tried in every combination that makes sense.
func (o *optCheck) accepts(env map[string]absVal) (can, sure bool) {
	sure = true
	for _, up := range []string{"ModuleVersionFlag", "ModulesVersionFlag", "UpdatedGoModFile", "UpdatedGoWorkFile", "ModuleVersionFlag UpdatedGoModFile"} {
		for _, rep := range []string{"", "ReportJsonFile", "ReportChartsFile", "ReportJsonFile ReportChartsFile"} {
			full := map[string]absVal{"ProjectDir": absStr("\x00dir")}
			for _, n := range []string{"ModuleVersionFlag", "ModulesVersionFlag", "UpdatedGoModFile", "UpdatedGoWorkFile"} {
				full[n] = absStr("")
			}
			full["ReportJsonFile"], full["ReportChartsFile"] = absStr(""), absStr("")
			for _, n := range strings.Fields(up + " " + rep) {
				full[n] = absStr("\x00given")
			}
			for k, v := range env {
				full[k] = v
			}
			c, s := o.accepts1(full)
			can, sure = can || c, sure && s
			if can {
				return can, sure
			}
		}
	}
	return can, sure
}

func (o *optCheck) accepts1(env map[string]absVal) (can, sure bool) {
	e := &absEval{w: o.w, env: env, fails: o.fails}
	mem := map[string]absVal{}
	e.globals(mem)
	for k, v := range env {
		mem["cfg."+k] = v
	}
	re := errResult(o.prep.Signature)
	if re < 0 {
		return true, true
	}
	e.each(o.prep, mem, func(res []absVal, mem map[string]absVal) {
		if v := res[re]; v.k == 'n' || v.k == 0 {
			can = true
		}
	})
	return can || e.over, !e.over
}

func (o *optCheck) refused(rule, key, msg string, env map[string]absVal) {
	can, sure := o.accepts(env)
	if !sure {
		o.c.Ok(rule, key+" (bound)")
		o.c.Assume("too many paths for: " + key)
		return
	}
	o.c.Decide(!can, rule, key, o.w.Pos(o.prep.Pos()), "%s", msg)
}

// combos: bad values which the checks may not let through on any path, and good ones which they may not refuse on every path.
func (o *optCheck) combos() {
	const outside = "\x00other"
	some, none := absStr(outside), absStr("")
	o.refused("required-checked", "project", "a missing project directory is not refused on every path", map[string]absVal{"ProjectDir": none})
	o.refused("required-checked", "update", "it is not refused on every path when nothing says what is updated",
		map[string]absVal{"ModuleVersionFlag": none, "ModulesVersionFlag": none, "UpdatedGoModFile": none, "UpdatedGoWorkFile": none})
	o.refused("required-checked", "exclusive", "a go.mod and a go.work file given together are not refused on every path", map[string]absVal{"UpdatedGoModFile": some, "UpdatedGoWorkFile": some})
	for _, n := range []string{"AstMonitorPort", "CacheMB", "MaxFieldLen", "MaxFieldRecurse", "TimeMultiplier"} {
		r := optionRange[n]
		for _, v := range []int64{r[0] - 1, -1, r[1] + 1, 1 << 40} {
			o.refused("range-checked", fmt.Sprintf("%s=%d", n, v), fmt.Sprintf("%s may be %d", n, v), map[string]absVal{n: absInt(v)})
		}
	}
	for _, n := range []string{"MutationMode", "MutationScope", "MutationTests"} {
		o.refused("value-checked", n+" unknown", "a value of "+n+" which means nothing is not refused on every path", map[string]absVal{n: some})
		o.refused("value-checked", n+" empty", "an empty "+n+" is not refused on every path", map[string]absVal{n: none})
	}
	done := ""
	if st := o.configStruct(); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); !f.Exported() && isBoolType(f.Type()) {
				done = f.Name()
				o.refused("prepared-first", "again", "settings which were accepted before are not refused on every path, every requested module would be added again", map[string]absVal{done: absBool(true)})
			}
		}
	}
	if done != "" {
		o.doneOnlyWhenAccepted(done)
	}
	o.fails = "\x00broken"
	for n, what := range map[string]string{"ReportJsonFile": "the path of the JSON report", "ReportChartsFile": "the path of the charts", "UpdatedGoModFile": "the updated go.mod file",
		"UpdatedGoWorkFile": "the updated go.work file", "ModuleVersionFlag": "the module to update"} {
		o.refused("paths-checked", n, what+" is not looked at on every path, or what was found wrong with it is ignored", map[string]absVal{n: absStr(o.fails)})
	}
	o.fails = ""
	// the defaults are accepted
	def := o.defaults()
	env := map[string]absVal{"ProjectDir": some, "ModuleVersionFlag": some, "ModulesVersionFlag": none, "UpdatedGoModFile": none, "UpdatedGoWorkFile": none}
	for k, v := range def {
		env[k] = v
	}
	if done != "" {
		env[done] = absBool(false)
	}
	can, _ := o.accepts(env)
	o.c.Decide(can, "value-checked", "defaults", o.w.Pos(o.prep.Pos()), "the settings nobody gave are refused")
	asked := map[string]map[string]bool{}
	for _, f := range o.w.Fns {
		if o.scope[f] {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			b, isB := in.(*ssa.BinOp)
			if !isB || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				fld, isF := cfgField(o.w.throughCell(pr[0]))
				k, isK := constString(pr[1])
				if !isF || !isK || !strings.HasPrefix(fld, "Mutation") || asked[fld][k] {
					continue
				}
				if asked[fld] == nil {
					asked[fld] = map[string]bool{}
				}
				asked[fld][k] = true
				e2 := map[string]absVal{}
				for n, v := range env {
					e2[n] = v
				}
				e2[fld] = absStr(k)
				can, _ := o.accepts(e2)
				o.c.Decide(can, "value-checked", fld+" is "+k, o.w.Pos(b.Pos()), "the analysis asks whether %s is %q, a value which is always refused", fld, k)
			}
		})
	}
}

func (o *optCheck) configStruct() *types.Struct {
	if len(o.prep.Params) == 0 {
		return nil
	}
	t := o.prep.Params[0].Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	st, _ := t.(*types.Struct)
	return st
}

// doneOnlyWhenAccepted: a failed check leaves no mark that it succeeded.
func (o *optCheck) doneOnlyWhenAccepted(done string) {
	env := map[string]absVal{done: absBool(false)}
	e := &absEval{w: o.w, env: env}
	mem := map[string]absVal{"cfg." + done: absBool(false)}
	for _, n := range []string{"ModulesVersionFlag", "UpdatedGoModFile", "UpdatedGoWorkFile"} {
		mem["cfg."+n] = absStr("")
	}
	mem["cfg.ModuleVersionFlag"], mem["cfg.ProjectDir"] = absStr("\x00given"), absStr("\x00dir")
	e.globals(mem)
	re := errResult(o.prep.Signature)
	if re < 0 {
		return
	}
	early, kept := false, true
	e.each(o.prep, mem, func(res []absVal, mem map[string]absVal) {
		b, known := mem["cfg."+done].bool()
		switch res[re].k {
		case 'n':
			kept = kept && known && b
		case 'e':
			early = early || known && b
		}
	})
	if e.over {
		return
	}
	o.c.Decide(!early, "prepared-first", "refused settings", o.w.Pos(o.prep.Pos()), "settings which were refused are marked as accepted")
	o.c.Decide(kept, "prepared-first", "accepted settings", o.w.Pos(o.prep.Pos()), "settings which were accepted are not marked, they could be checked again")
}

func (e *absEval) each(f *ssa.Function, mem map[string]absVal, out func(res []absVal, mem map[string]absVal)) {
	s := &absState{val: map[ssa.Value]absVal{}, mem: mem}
	if len(f.Params) > 0 {
		s.val[f.Params[0]] = absVal{k: 'p', base: "cfg"}
	}
	e.walk(f.Blocks[0], nil, s, map[*ssa.BasicBlock]int{}, 0, nil, out)
}

// defaults: what the options are when they are not given.
func (o *optCheck) defaults() map[string]absVal {
	out := map[string]absVal{}
	for _, f := range o.w.Fns {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "lens/cmd") {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			n, _ := flagName(cl)
			fld, ok := optionField[n]
			if !ok {
				return
			}
			// the default follows the name
			for i, a := range cl.Call.Args {
				if s, isK := constString(a); isK && s == n && i+1 < len(cl.Call.Args) {
					if k, isC := cl.Call.Args[i+1].(*ssa.Const); isC && k.Value != nil {
						out[fld] = absVal{k: 'c', c: k.Value}
					}
					return
				}
			}
		})
	}
	delete(out, "ProjectDir")
	delete(out, "ModuleVersionFlag")
	return out
}

// when: whether the place can be reached under each value of the setting.
func (o *optCheck) when(key string, in ssa.Instruction, field string, want map[string]bool) {
	var vs []string
	for v := range want {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	decided := false // what decides it can be evaluated
	for _, v := range vs {
		decided = decided || !o.reachable(in.Block(), map[string]absVal{field: absStr(v)}, 0)
	}
	for _, v := range vs {
		can := o.reachable(in.Block(), map[string]absVal{field: absStr(v)}, 0)
		msg := "is left out when " + field + " is " + v
		if can {
			msg = "happens although " + field + " is " + v
		}
		if !decided || want[v] && can || !want[v] && !can {
			o.c.Ok("setting-used", key+": "+v)
			continue
		}
		o.c.Bad("setting-used", key+": "+v, o.w.Pos(in.Pos()), "%s %s", key, msg)
	}
}

// reachable: no condition around the block is known to keep it from happening.
func (o *optCheck) reachable(b *ssa.BasicBlock, env map[string]absVal, d int) bool {
	if d > 6 {
		return true
	}
	for dm := b.Idom(); dm != nil; dm = dm.Idom() {
		iff, ok := dm.Instrs[len(dm.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v, known := o.cond(iff.Cond, env, d)
		if !known {
			continue
		}
		if !blockReachesAvoiding(dm.Succs[1-b2i(v)], b, dm) {
			return false
		}
	}
	f := b.Parent()
	if f.Parent() != nil { // where the closure is made
		for _, blk := range f.Parent().Blocks {
			for _, in := range blk.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					return o.reachable(blk, env, d+1)
				}
			}
		}
		return true
	}
	cs := o.w.callersOf[f]
	if len(cs) == 0 {
		return true
	}
	for _, ci := range cs {
		if o.reachable(ci.Block(), env, d+1) {
			return true
		}
	}
	return false
}

func blockReachesAvoiding(from, to, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// cond: what a condition is with these settings.
func (o *optCheck) cond(v ssa.Value, env map[string]absVal, d int) (val, known bool) {
	if d > 8 {
		return false, false
	}
	switch x := o.w.throughCell(v).(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			val, known = o.cond(x.X, env, d+1)
			return !val, known
		}
	case *ssa.Parameter:
		n := 0
		for _, ci := range o.w.callersOf[x.Parent()] {
			a := argFor(ci, x.Parent(), paramIndex(x))
			if a == nil {
				return false, false
			}
			b, k := o.cond(a, env, d+1)
			if !k || n > 0 && b != val {
				return false, false
			}
			val, n = b, n+1
		}
		return val, n > 0
	case *ssa.FreeVar:
		if b := o.w.bindingOf(x); b != nil {
			return o.cond(b, env, d+1)
		}
	case *ssa.Phi:
		e := &absEval{w: o.w, env: env}
		top := x.Block().Idom()
		if top == nil {
			return false, false
		}
		n, same := 0, true
		e.walk(top, nil, &absState{val: map[ssa.Value]absVal{}, mem: map[string]absVal{}}, map[*ssa.BasicBlock]int{}, 4, func(b, prev *ssa.BasicBlock, s *absState) bool {
			if b != x.Block() || prev == nil {
				return false
			}
			for i, p := range b.Preds {
				if p != prev {
					continue
				}
				r, k := e.get(s, x.Edges[i], 0).bool()
				if !k || n > 0 && r != val {
					same = false
				}
				val, n = r, n+1
			}
			return true
		}, func([]absVal, map[string]absVal) {})
		return val, n > 0 && same && !e.over
	default:
		e := &absEval{w: o.w, env: env}
		return e.get(&absState{val: map[ssa.Value]absVal{}, mem: map[string]absVal{}}, x, 0).bool()
	}
	e := &absEval{w: o.w, env: env}
	return e.get(&absState{val: map[ssa.Value]absVal{}, mem: map[string]absVal{}}, v, 0).bool()
}
