package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkLocks }

func isMutex(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

// isBoolFact: whether a lock is held never depends on more than the outcome of a conditional attempt to take it.
func isBoolFact(v ssa.Value) bool {
	t := v.Type()
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		t = deref(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic" || p == "golang.org/x/sync/errgroup"
}

// lockKeys resolves a mutex value to the names of the locks it may be.
func (lk *lockAnalysis) lockKeys(v ssa.Value, d int) []string {
	w := lk.w
	if d > 12 || v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.FieldAddr, *ssa.Global:
		return []string{w.objKey(v)}
	case *ssa.Alloc:
		if _, ptr := deref(v.Type()).(*types.Pointer); !ptr {
			return []string{w.objKey(v)}
		}
		var out []string
		for _, s := range w.storesTo(v) {
			out = append(out, lk.lockKeys(s.Val, d+1)...)
		}
		return out
	case *ssa.FreeVar:
		if b := w.bindingOf(v); b != nil {
			return lk.lockKeys(b, d+1)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch v.X.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				return lk.lockKeys(v.X, d+1)
			}
			return []string{w.objKey(v)}
		}
	case *ssa.Call:
		return []string{lk.stripeKey(v)}
	case *ssa.Phi:
		var out []string
		for _, e := range v.Edges {
			out = append(out, lk.lockKeys(e, d+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []string
		for _, c := range w.callersOf[v.Parent()] {
			if a := argFor(c, v.Parent(), paramIndex(v)); a != nil {
				out = append(out, lk.lockKeys(a, d+1)...)
			}
		}
		if len(out) == 0 {
			return []string{w.objKey(v)}
		}
		return out
	case *ssa.ChangeInterface:
		return lk.lockKeys(v.X, d+1)
	case *ssa.MakeInterface:
		return lk.lockKeys(v.X, d+1)
	}
	return []string{w.objKey(v)}
}

// stripeKey: a mutex handed out by a function is named after the object it belongs to.
func (lk *lockAnalysis) stripeKey(c *ssa.Call) string {
	if r := recvOf(c); r != nil {
		return "stripe:" + lk.w.objKey(r)
	}
	return "stripe:" + calleeName(c)
}

type access struct {
	typ, field string
	fn         *ssa.Function
	pos        token.Pos
	write      bool
	held       string
}

type lockAnalysis struct {
	w         *World
	accesses  map[string]access // deduplicated by key
	order     map[string]map[string]token.Pos
	leaks     map[string]string
	lockers   map[*ssa.Function]bool // own functions returning a mutex they have locked
	sites     map[ssa.Instruction]string
	hook      func(fr *Frame, in ssa.Instruction, held map[string]bool)
	noUnlock  map[string]token.Pos // unlocks of locks that are not held
	relocks   map[string]token.Pos
	goDone    map[string]bool
	rel       map[*ssa.Function]bool
	fileUses  []string
	checkFile bool
}

func heldSet(st string) map[string]bool {
	m := map[string]bool{}
	if st != "" && st != "-" {
		for _, k := range strings.Split(st, "\x02") {
			m[k] = true
		}
	}
	return m
}

func heldStr(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "-"
	}
	return strings.Join(ks, "\x02")
}

func (lk *lockAnalysis) acquire(in ssa.Instruction, keys []string, held map[string]bool) {
	for _, k := range keys {
		for h := range held {
			base := strings.TrimSuffix(h, ":r")
			if base == strings.TrimSuffix(k, ":r") {
				lk.relocks[k+"@"+localName(in.Parent())] = in.Pos()
			}
			if lk.order[h] == nil {
				lk.order[h] = map[string]token.Pos{}
			}
			if _, ok := lk.order[h][k]; !ok {
				lk.order[h][k] = in.Pos()
			}
		}
	}
	for _, k := range keys {
		held[k] = true
	}
}

func (lk *lockAnalysis) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	held := heldSet(st)
	if lk.hook != nil {
		lk.hook(fr, in, held)
	}
	if started := lk.w.goroutineOf(in); len(started) > 0 {
		// locks may be handed to the goroutine: those it releases on all its paths
		for _, f := range started {
			give := map[string]bool{}
			for k := range held {
				if lk.releases(f, k) {
					give[k] = true
				}
			}
			for _, o := range fr.fl.explore(f, heldStr(give), nil) {
				if o.st != "-" && o.kind != "exit" {
					for k := range heldSet(o.st) {
						lk.leaks[localName(f)+": "+lockName(k)] = lk.w.Pos(o.pos)
					}
				}
			}
			for k := range give {
				delete(held, k)
			}
			return []Out{{st: heldStr(held)}}, true
		}
	}
	switch in.(type) {
	case *ssa.Go:
		return nil, false
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		res := strings.Repeat("2", ci.Common().Signature().Results().Len())
		r := recvOf(ci)
		if r != nil && isMutex(r.Type()) || r != nil && isNamed(r.Type(), "sync", "Locker") {
			keys := lk.lockKeys(r, 0)
			switch methodName(ci) {
			case "Lock":
				lk.sites[in] = keys[0]
				lk.acquire(in, keys, held)
				return []Out{{st: heldStr(held), res: res}}, true
			case "RLock":
				lk.sites[in] = keys[0]
				for i := range keys {
					keys[i] += ":r"
				}
				lk.acquire(in, keys, held)
				return []Out{{st: heldStr(held), res: res}}, true
			case "TryLock":
				lk.sites[in] = keys[0]
				no := heldStr(held)
				for _, k := range keys {
					held[k] = true
				}
				return []Out{{st: heldStr(held), res: "1"}, {st: no, res: "0"}}, true
			case "Unlock", "RUnlock":
				any := false
				for _, k := range keys {
					if methodName(ci) == "RUnlock" {
						k += ":r"
					}
					any = any || held[k]
					delete(held, k)
				}
				if !any {
					lk.noUnlock[localName(fr.fn)+": "+lockName(keys[0])] = in.Pos()
				}
				return []Out{{st: heldStr(held), res: res}}, true
			}
			return []Out{{st: st, res: res}}, true
		}
		if c, ok := in.(*ssa.Call); ok {
			for _, g := range lk.w.Callees(c) {
				if lk.lockers[g] {
					lk.sites[in] = lk.stripeKey(c)
					lk.acquire(in, []string{lk.stripeKey(c)}, held)
					return []Out{{st: heldStr(held), res: "1"}}, true
				}
			}
		}
		if r != nil && isGroupPtr(r.Type()) && (methodName(ci) == "Go" || methodName(ci) == "TryGo") {
			// the task runs on its own: it starts without locks
			for _, cb := range fr.fl.callbacks(ci) {
				for _, o := range fr.fl.explore(cb.fn, "-", fr.fl.seedsForClosure(fr, cb)) {
					if o.st != "-" && o.kind != "exit" {
						for k := range heldSet(o.st) {
							lk.leaks[localName(cb.fn)+": "+lockName(k)] = lk.w.Pos(o.pos)
						}
					}
				}
			}
			return []Out{{st: st, res: res}}, true
		}
	}
	return nil, false
}

func lockName(k string) string {
	r := strings.HasSuffix(k, ":r")
	k = strings.TrimSuffix(k, ":r")
	s := strings.HasPrefix(k, "stripe:")
	k = strings.TrimPrefix(strings.TrimPrefix(k, "stripe:"), "*")
	if strings.HasPrefix(k, "cell ") {
		p := strings.Fields(k)
		k = strings.TrimRight(p[len(p)-1], "0123456789")
	}
	k = strings.TrimPrefix(k, "global ")
	if s {
		k += " (per key)"
	}
	if r {
		k += " (read)"
	}
	return k
}

// releases: f unlocks lock k somewhere (its exit states are checked by exploring it).
func (lk *lockAnalysis) releases(f *ssa.Function, k string) bool {
	seen := map[*ssa.Function]bool{}
	found := false
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || len(g.Blocks) == 0 || !lk.w.Own[g.Pkg] {
			return
		}
		seen[g] = true
		eachInstr(g, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if r := recvOf(ci); r != nil && isMutex(r.Type()) && strings.HasSuffix(methodName(ci), "Unlock") {
				for _, q := range lk.lockKeys(r, 0) {
					if q == strings.TrimSuffix(k, ":r") {
						found = true
					}
				}
			}
			for _, h := range lk.w.Callees(ci) {
				walk(h)
			}
		})
	}
	walk(f)
	return found
}

// lockRelevant: the function locks something, touches a field of a type that has a lock, or starts tasks.
func (lk *lockAnalysis) lockRelevant(f *ssa.Function) bool {
	if r, ok := lk.rel[f]; ok {
		return r
	}
	r := false
	eachInstr(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case ssa.CallInstruction:
			if v := recvOf(x); v != nil && (isMutex(v.Type()) || isGroupPtr(v.Type())) {
				r = true
			}
			if len(lk.w.goroutineOf(in)) > 0 {
				r = true
			}
		case *ssa.FieldAddr:
			if hasMutexField(x.X.Type()) {
				r = true
			}
		}
	})
	for _, p := range f.Params {
		r = r || len(lk.fieldAddrs(p)) > 0
	}
	lk.rel[f] = r
	return r
}

func hasMutexField(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			if _, ptr := st.Field(i).Type().(*types.Pointer); !ptr {
				return true
			}
		}
	}
	return false
}

// goroutineOf: our functions the instruction runs on a goroutine of their own (go f(), wg.Go(f)).
func (w *World) goroutineOf(in ssa.Instruction) []*ssa.Function {
	var fs, out []*ssa.Function
	switch x := in.(type) {
	case *ssa.Go:
		fs = w.Callees(x)
	case *ssa.Call:
		if r := recvOf(x); r == nil || !isNamed(r.Type(), "sync", "WaitGroup") || methodName(x) != "Go" {
			return nil
		}
		for _, a := range x.Call.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				fs = append(fs, w.funcsOf(a, map[ssa.Value]bool{})...)
			}
		}
	}
	for _, f := range fs {
		if len(f.Blocks) > 0 && w.Own[f.Pkg] {
			out = append(out, f)
		}
	}
	return out
}

// concurrentRoots: closures run as tasks or goroutines, and the request handlers of the monitor server.
func (w *World) concurrentRoots() map[*ssa.Function]ssa.Instruction {
	out := map[*ssa.Function]ssa.Instruction{}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, t := range w.goroutineOf(in) {
				out[t] = in
			}
			cb := false
			if r := recvOf(ci); r != nil && isGroupPtr(r.Type()) && (methodName(ci) == "Go" || methodName(ci) == "TryGo") {
				cb = true
			}
			switch calleeName(ci) {
			case "(*net/http.ServeMux).HandleFunc", "net/http.HandleFunc", "net/http.HandlerFunc":
				cb = true
			}
			if !cb {
				return
			}
			for _, a := range ci.Common().Args {
				if _, ok := a.Type().Underlying().(*types.Signature); ok {
					for _, t := range w.funcsOf(a, map[ssa.Value]bool{}) {
						if len(t.Blocks) > 0 && w.Own[t.Pkg] {
							out[t] = in
						}
					}
				}
			}
		})
	}
	return out
}

func checkLocks(c *Check) {
	w := c.W
	c.Rule("lock-released", "every lock taken is released on every way out, or handed to a goroutine that releases it on all its paths; it is never taken twice nor released when not held", 12)
	c.Rule("field-guarded", "every field of a type with a lock that is changed after construction is accessed only under one and the same lock", 6)
	c.Rule("guarded-escape", "a map or slice kept under a lock leaves its owner only detached: the owner gets a new one in the same function", 0)
	c.Rule("lock-order", "locks are always taken in an order without cycles", 1)
	c.Rule("task-shared-variable", "a variable shared by concurrently running tasks is only changed under a lock that all its users hold", 5)
	c.Rule("task-starter-access", "while tasks run, the function that started them does not touch what they change, nor change what they use", 4)
	c.Rule("concurrent-field-write", "code running concurrently (tasks, request handlers) writes fields of shared objects only under a lock", 8)
	c.Rule("file-tree-locked", "a file's syntax tree is obtained, changed and committed only while the lock of that file is held", 3)
	c.Rule("atomic-update", "an atomic variable is never set to a value computed from what was loaded from it before; it is changed by one atomic operation or compared again", 1)
	c.Rule("pooled-reset", "a pooled object is reset before it is used again", 1)

	lk := &lockAnalysis{w: w, accesses: map[string]access{}, order: map[string]map[string]token.Pos{}, leaks: map[string]string{},
		lockers: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]string{}, noUnlock: map[string]token.Pos{}, relocks: map[string]token.Pos{},
		goDone: map[string]bool{}, rel: map[*ssa.Function]bool{}}
	// functions that return a mutex they have locked
	for _, f := range w.Fns {
		if f.Signature.Results().Len() == 1 && isMutex(f.Signature.Results().At(0).Type()) {
			if lk.returnsLocked(f) {
				lk.lockers[f] = true
				lk.sites[f.Blocks[0].Instrs[0]] = "returned by " + localName(f)
			}
		}
	}
	conc := w.concurrentRoots()
	isRoot := func(f *ssa.Function) bool {
		if lk.lockers[f] {
			return false
		}
		if f.Parent() != nil {
			return false
		}
		return len(w.callersOf[f]) == 0 || f.Object() != nil && f.Object().Exported()
	}
	lk.hook = lk.record
	var over bool
	for _, f := range w.Fns {
		if f.Parent() == nil && !isRoot(f) || f.Parent() != nil {
			continue
		}
		fl := newFlow(w, lk)
		fl.rel = lk.lockRelevant
		fl.keep = isBoolFact
		if !fl.relevant(f) {
			continue
		}
		outs := fl.Run(f, "-")
		over = over || fl.over
		for _, o := range outs {
			if o.st != "-" && o.kind != "exit" {
				for k := range heldSet(o.st) {
					lk.leaks[localName(f)+": "+lockName(k)] = w.Pos(o.pos)
				}
			}
		}
	}
	if over {
		c.Bad("lock-released", "path bound", "-", "path bound exceeded")
	}
	// lock-released: one obligation per lock site; a leak is reported per function and lock
	var names []string
	ord := map[string]int{}
	for in, k := range lk.sites {
		n := localName(in.Parent()) + ": " + lockName(k)
		ord[n]++
		names = append(names, fmt.Sprintf("%s@%d", n, in.Pos()))
	}
	sort.Strings(names)
	for _, n := range names {
		c.Ok("lock-released", n[:strings.LastIndex(n, "@")])
	}
	report := func(m map[string]string, format string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Bad("lock-released", k, m[k], format, m[k])
		}
	}
	report(lk.leaks, "still locked when leaving at %s")
	posStr := func(m map[string]token.Pos) map[string]string {
		o := map[string]string{}
		for k, p := range m {
			o[k] = w.Pos(p)
		}
		return o
	}
	report(posStr(lk.relocks), "taken at %s while already held")
	report(posStr(lk.noUnlock), "released at %s without being held on some path")
	// order
	lk.checkOrder(c)
	lk.checkGuards(c)
	lk.checkShared(c, conc)
	lk.checkStarter(c)
	lk.checkFileTree(c)
	lk.checkAtomics(c)
	checkPooled(c)
}

func (lk *lockAnalysis) returnsLocked(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := retVals(r)[0]
		al := lk.w.aliases(f, []ssa.Value{v})
		okp := false
		eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(*ssa.Call); ok && methodName(ci) == "Lock" {
				if q := recvOf(ci); q != nil && isMutex(q.Type()) && (al[q] || q == v || sameCellLoad(q, v)) && ci.Block().Dominates(b) {
					okp = true
				}
			}
		})
		if !okp {
			return false
		}
	}
	return true
}

func sameCellLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// record notes accesses to fields of types that have a lock.
func (lk *lockAnalysis) record(fr *Frame, in ssa.Instruction, held map[string]bool) {
	note := func(fa *ssa.FieldAddr, write bool, at ssa.Instruction) {
		if !hasMutexField(fa.X.Type()) {
			return
		}
		st := deref(fa.X.Type()).Underlying().(*types.Struct)
		if isSyncType(st.Field(fa.Field).Type()) {
			return
		}
		if lk.fresh(fa.X, 0) {
			return
		}
		o, f, _ := fieldName(fa)
		a := access{o, f, fr.fn, at.Pos(), write, heldStr(held)}
		if !a.pos.IsValid() {
			a.pos = fa.Pos()
		}
		lk.accesses[fmt.Sprintf("%s.%s %s %d %v %s", o, f, FnName(fr.fn), a.pos, write, a.held)] = a
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, fa := range lk.fieldAddrs(x.X) {
				note(fa, false, in)
			}
		}
	case *ssa.Store:
		for _, fa := range lk.fieldAddrs(x.Addr) {
			note(fa, true, in)
		}
	case *ssa.MapUpdate:
		for _, fa := range lk.loadedFields(x.Map) {
			note(fa, true, in)
		}
	case *ssa.Lookup:
		for _, fa := range lk.loadedFields(x.X) {
			note(fa, false, in)
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			for _, fa := range lk.loadedFields(rg.X) {
				note(fa, false, in)
			}
		}
	case *ssa.Call:
		n := calleeName(x)
		callee := x.Call.StaticCallee()
		for i, a := range x.Call.Args {
			if fa, ok := a.(*ssa.FieldAddr); ok { // a struct field whose method is called
				if callee != nil && lk.w.Own[callee.Pkg] && len(callee.Blocks) > 0 && (callee.Signature.Recv() == nil || i > 0) &&
					!token.IsExported(callee.Name()) && derefsOnly(callee.Params[i]) {
					continue // what the function does through the pointer is looked at there
				}
				note(fa, true, in)
			}
			for _, fa := range lk.loadedFields(a) {
				w := i == 0 && (n == "builtin.delete" || n == "builtin.clear" || n == "maps.Insert" || n == "maps.Copy")
				note(fa, w, in)
			}
		}
	}
}

// derefsOnly: a pointer parameter that is only read or written through.
func derefsOnly(p *ssa.Parameter) bool {
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Addr != p {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// fieldAddrs: the struct fields an address is of, looking through the pointer parameters of helpers.
func (lk *lockAnalysis) fieldAddrs(v ssa.Value) []*ssa.FieldAddr {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return []*ssa.FieldAddr{v}
	case *ssa.Parameter:
		f := v.Parent()
		if token.IsExported(f.Name()) || !derefsOnly(v) {
			return nil
		}
		var out []*ssa.FieldAddr
		for _, ci := range lk.w.callersOf[f] {
			if fa, ok := argFor(ci, f, paramIndex(v)).(*ssa.FieldAddr); ok {
				out = append(out, fa)
			}
		}
		return out
	}
	return nil
}

func (lk *lockAnalysis) loadedFields(v ssa.Value) []*ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return lk.fieldAddrs(u.X)
	}
	return nil
}

func loadedField(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa
		}
	}
	return nil
}

// fresh: the object was allocated by this function (it is being constructed).
func (lk *lockAnalysis) fresh(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		if _, ptr := deref(v.Type()).(*types.Pointer); ptr {
			return false
		}
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				st := lk.w.storesTo(al)
				for _, s := range st {
					if !lk.fresh(s.Val, d+1) {
						return false
					}
				}
				return len(st) > 0
			}
		}
	}
	return false
}

func (lk *lockAnalysis) checkOrder(c *Check) {
	w := lk.w
	var ks []string
	for k := range lk.order {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	reach := func(from, to string) []string {
		seen := map[string]bool{}
		var path []string
		var dfs func(x string) bool
		dfs = func(x string) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			var ns []string
			for n := range lk.order[x] {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				if n == to || dfs(n) {
					path = append([]string{n}, path...)
					return true
				}
			}
			return false
		}
		if dfs(from) {
			return path
		}
		return nil
	}
	for _, a := range ks {
		var bs []string
		for b := range lk.order[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			key := lockName(a) + " before " + lockName(b)
			if a == b {
				c.Bad("lock-order", key, w.Pos(lk.order[a][b]), "a second lock of the same kind is taken while one is held: two callers can block each other for ever")
				continue
			}
			p := reach(b, a)
			c.Decide(p == nil, "lock-order", key, w.Pos(lk.order[a][b]), "the opposite order is also taken (%s): two callers can block each other for ever", strings.Join(p, ", "))
		}
	}
}

func (lk *lockAnalysis) checkGuards(c *Check) {
	w := lk.w
	by := map[string][]access{}
	for _, a := range lk.accesses {
		k := a.typ + "." + a.field
		by[k] = append(by[k], a)
	}
	var ks []string
	for k := range by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		as := by[k]
		sort.Slice(as, func(i, j int) bool { return as[i].pos < as[j].pos })
		written := false
		for _, a := range as {
			written = written || a.write
		}
		if !written {
			continue
		}
		count := map[string]int{}
		common := map[string]bool{}
		for i, a := range as {
			h := map[string]bool{}
			for l := range heldSet(a.held) {
				if strings.HasSuffix(l, ":r") {
					if a.write {
						continue
					}
					l = strings.TrimSuffix(l, ":r")
				}
				h[l] = true
			}
			for l := range h {
				count[l]++
			}
			if i == 0 {
				common = h
			} else {
				for l := range common {
					if !h[l] {
						delete(common, l)
					}
				}
			}
		}
		// a lock that belongs to another object instance guards nothing: it must be a field of the same type, a global,
		// or a local lock
		if len(common) > 0 {
			c.Ok("field-guarded", k)
			lk.checkEscape(c, k)
			continue
		}
		best, n := "", 0
		for l, x := range count {
			if x > n || x == n && l < best {
				best, n = l, x
			}
		}
		for _, a := range as {
			if !heldSet(a.held)[best] {
				if best == "" {
					c.Bad("field-guarded", k, w.Pos(a.pos), "changed after construction, but no access holds a lock")
				} else {
					c.Bad("field-guarded", k, w.Pos(a.pos), "accessed in %s without %s, which other accesses hold", localName(outermost(a.fn)), lockName(best))
				}
				break
			}
		}
	}
}

// checkEscape: the map or slice held by a guarded field is not handed out while the owner keeps using it.
func (lk *lockAnalysis) checkEscape(c *Check, field string) {
	w := lk.w
	for _, f := range w.Fns {
		var loads []ssa.Value
		replaced := false
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					if o, n, _ := fieldName(fa); o+"."+n == field && !lk.fresh(fa.X, 0) {
						switch x.Type().Underlying().(type) {
						case *types.Map, *types.Slice:
							loads = append(loads, x)
						}
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if o, n, _ := fieldName(fa); o+"."+n == field {
						replaced = true
					}
				}
			}
		})
		if len(loads) == 0 {
			continue
		}
		al := w.aliases(f, loads)
		pos := token.NoPos
		var vs []ssa.Value
		for v := range al {
			vs = append(vs, v)
		}
		for _, v := range vs {
			if v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.Return:
					pos = x.Pos()
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v {
						pos = x.Pos()
					}
				}
			}
		}
		if pos == token.NoPos {
			continue
		}
		c.Decide(replaced, "guarded-escape", localName(f)+": "+field, w.Pos(pos), "handed out at %s while its owner keeps changing it under a lock the receiver does not have", w.Pos(pos))
	}
}

// ---------- variables shared by tasks ----------

type cellAccess struct {
	write bool
	held  string
	pos   token.Pos
	root  *ssa.Function
}

func (lk *lockAnalysis) checkShared(c *Check, conc map[*ssa.Function]ssa.Instruction) {
	w := lk.w
	var roots []*ssa.Function
	for f := range conc {
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	cells := map[ssa.Value][]cellAccess{}
	type fieldWrite struct {
		pos  token.Pos
		ok   bool
		name string
	}
	fieldBad := map[string]string{}
	fieldOK := map[string]bool{}
	for _, r := range roots {
		sub := *lk
		sub.hook = func(fr *Frame, in ssa.Instruction, held map[string]bool) {
			note := func(addr ssa.Value, write bool) {
				root := w.cellRoot(addr)
				al, ok := root.(*ssa.Alloc)
				if !ok || within(al.Parent(), r) || al.Parent() == nil || !within(r, al.Parent()) {
					return
				}
				if isSyncType(deref(al.Type())) {
					return
				}
				cells[al] = append(cells[al], cellAccess{write, heldStr(held), in.Pos(), r})
			}
			switch x := in.(type) {
			case *ssa.Store:
				note(x.Addr, true)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					note(x.X, false)
				}
			case *ssa.MapUpdate:
				if ld, ok := x.Map.(*ssa.UnOp); ok {
					note(ld.X, true)
				}
			case *ssa.Call:
				n := calleeName(x)
				if len(x.Call.Args) > 0 {
					if ld, ok := x.Call.Args[0].(*ssa.UnOp); ok && (n == "builtin.delete" || n == "builtin.clear" || n == "maps.Insert" || n == "maps.Copy") {
						note(ld.X, true)
					}
					// methods that change a captured buffer
					if x.Call.StaticCallee() != nil && x.Call.StaticCallee().Signature.Recv() != nil {
						switch typeName(deref(x.Call.Args[0].Type())) {
						case "bytes.Buffer", "strings.Builder":
							a := x.Call.Args[0]
							if _, ok := a.(*ssa.FreeVar); ok {
								note(a, true)
							}
						}
					}
				}
			}
			// fields of shared objects
			var fa *ssa.FieldAddr
			switch x := in.(type) {
			case *ssa.Store:
				fa, _ = x.Addr.(*ssa.FieldAddr)
				if fa == nil {
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						fa = loadedField(ia.X)
					}
				}
			case *ssa.MapUpdate:
				fa = loadedField(x.Map)
			}
			if fa != nil && sharedBase(fr, fa) {
				o, f, _ := fieldName(fa)
				key := localName(outermost(fr.fn)) + ": " + o + "." + f
				if len(held) == 0 {
					fieldBad[key] = w.Pos(in.Pos())
				} else {
					fieldOK[key] = true
				}
			}
		}
		fl := newFlow(w, &sub)
		var seeds []ssa.Value
		if r.Signature.Recv() != nil && len(r.Params) > 0 {
			seeds = append(seeds, r.Params[0])
		}
		for i, fv := range r.FreeVars {
			if mc := w.closureOf(r); mc != nil && i < len(mc.Bindings) {
				if al, ok := w.cellRoot(mc.Bindings[i]).(*ssa.Alloc); ok && perIteration(al, conc[r]) {
					continue
				}
			}
			seeds = append(seeds, fv)
		}
		// a goroutine may be handed locks: start with those it releases
		give := map[string]bool{}
		if g := conc[r]; len(w.goroutineOf(g)) > 0 {
			for in, k := range lk.sites {
				if in.Parent() == g.Parent() && lk.releases(r, k) {
					give[k] = true
				}
			}
		}
		fl.keep = isBoolFact
		fl.Run(r, heldStr(give), seeds...)
		if fl.over {
			c.Bad("task-shared-variable", localName(r), w.Pos(r.Pos()), "path bound exceeded")
		}
	}
	var fk []string
	for k := range fieldOK {
		if fieldBad[k] == "" {
			fk = append(fk, k)
		}
	}
	sort.Strings(fk)
	for _, k := range fk {
		c.Ok("concurrent-field-write", k)
	}
	fk = nil
	for k := range fieldBad {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		c.Bad("concurrent-field-write", k, fieldBad[k], "written without any lock by code that runs concurrently")
	}
	for _, r := range roots {
		c.Ok("concurrent-field-write", "root "+localName(r))
	}
	// cells
	var als []ssa.Value
	for al := range cells {
		als = append(als, al)
	}
	sort.Slice(als, func(i, j int) bool { return als[i].Pos() < als[j].Pos() })
	for _, al := range als {
		acc := cells[al]
		written := false
		rs := map[*ssa.Function]bool{}
		multi := false
		for _, a := range acc {
			written = written || a.write
			rs[a.root] = true
			if !perIteration(al.(*ssa.Alloc), conc[a.root]) && inLoop(conc[a.root]) {
				multi = true
			}
		}
		if len(rs) > 1 {
			multi = true
		}
		if !written || !multi {
			continue
		}
		key := localName(outermost(al.Parent())) + ": " + al.(*ssa.Alloc).Comment
		common := heldSet(acc[0].held)
		bad := acc[0]
		for _, a := range acc {
			h := heldSet(a.held)
			for l := range common {
				if !h[l] {
					delete(common, l)
				}
			}
			if len(h) == 0 {
				bad = a
			}
		}
		c.Decide(len(common) > 0, "task-shared-variable", key, w.Pos(bad.pos), "changed by tasks that run at the same time without a common lock")
	}
}

// sharedBase: the object a field belongs to is one the concurrent root was given.
func sharedBase(fr *Frame, fa *ssa.FieldAddr) bool {
	v := fa.X
	for i := 0; i < 10; i++ {
		if fr.Has(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.Global:
			return true
		default:
			return false
		}
	}
	return false
}

// within: f is g or a closure nested in g.
func within(f, g *ssa.Function) bool {
	for f != nil {
		if f == g {
			return true
		}
		f = f.Parent()
	}
	return false
}

func inLoop(in ssa.Instruction) bool {
	for _, l := range loopsOf(in.Parent()) {
		if l.body[in.Block()] {
			return true
		}
	}
	return false
}

// perIteration: the cell is made anew in the loop iteration that starts the task (or the task starts outside loops).
func perIteration(al *ssa.Alloc, start ssa.Instruction) bool {
	if start == nil || al.Parent() != start.Parent() {
		// the task is started from a callback that may run many times: a cell of that callback is its own
		return start != nil && within(al.Parent(), start.Parent()) && al.Parent() == start.Parent()
	}
	for _, l := range loopsOf(al.Parent()) {
		if l.body[start.Block()] && !l.body[al.Block()] {
			return false
		}
	}
	return true
}

// ---------- what the starter does while tasks run ----------

type starterSpec struct {
	w    *World
	lk   *lockAnalysis
	fn   *ssa.Function
	cell map[*ssa.Function]map[ssa.Value]bool // task -> root cell -> writes it
	id   map[ssa.Value]string
	back map[string]ssa.Value
	bad  map[string]string
}

func (s *starterSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	busy := heldSet(st)
	touch := func(addr ssa.Value, write bool) {
		root := s.w.cellRoot(addr)
		id, ok := s.id[root]
		if !ok {
			return
		}
		if busy["w"+id] || write && busy["r"+id] {
			// an access under a lock is judged by the other rules
			for k := range busy {
				if strings.HasPrefix(k, "L") {
					return
				}
			}
			s.bad[id] = s.w.Pos(in.Pos())
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		if id, ok := s.id[x]; ok && (busy["w"+id] || busy["r"+id]) {
			delete(busy, "w"+id)
			delete(busy, "r"+id)
			return []Out{{st: heldStr(busy), res: "2"}}, true
		}
		return nil, false
	case *ssa.Store:
		touch(x.Addr, true)
	case *ssa.UnOp:
		if x.Op == token.ARROW { // the result of a goroutine was received: it has finished
			for k := range busy {
				if strings.HasPrefix(k, "G") {
					return []Out{{st: "-", res: "2"}}, true
				}
			}
			return nil, false
		}
		if x.Op == token.MUL {
			touch(x.X, false)
		}
	case *ssa.MapUpdate:
		if ld, ok := x.Map.(*ssa.UnOp); ok {
			touch(ld.X, true)
		}
	case *ssa.Go:
		for _, f := range s.w.goroutineOf(x) {
			for root, wr := range s.cell[f] {
				if wr {
					busy["w"+s.id[root]] = true
				} else {
					busy["r"+s.id[root]] = true
				}
				busy["G"] = true
			}
		}
		return []Out{{st: heldStr(busy)}}, true
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		r := recvOf(ci)
		res := strings.Repeat("2", ci.Common().Signature().Results().Len())
		if r != nil && isGroupPtr(r.Type()) {
			switch methodName(ci) {
			case "Go", "TryGo":
				for _, cb := range fr.fl.callbacks(ci) {
					for root, wr := range s.cell[cb.fn] {
						if wr {
							busy["w"+s.id[root]] = true
						} else {
							busy["r"+s.id[root]] = true
						}
					}
				}
				return []Out{{st: heldStr(busy), res: res}}, true
			case "Wait":
				return []Out{{st: "-", res: "2"}}, true
			}
		}
		if _, ok := in.(*ssa.Call); ok {
			if started := s.w.goroutineOf(in); len(started) > 0 {
				for _, f := range started {
					for root, wr := range s.cell[f] {
						if wr {
							busy["w"+s.id[root]] = true
						} else {
							busy["r"+s.id[root]] = true
						}
					}
				}
				return []Out{{st: heldStr(busy), res: res}}, true
			}
		}
		if r != nil && isNamed(r.Type(), "sync", "WaitGroup") && methodName(ci) == "Wait" {
			return []Out{{st: "-"}}, true
		}
		if r != nil && isMutex(r.Type()) {
			k := "L" + s.lk.lockKeys(r, 0)[0]
			switch methodName(ci) {
			case "Lock", "RLock":
				busy[k] = true
			case "Unlock", "RUnlock":
				delete(busy, k)
			}
			return []Out{{st: heldStr(busy), res: res}}, true
		}
	}
	return nil, false
}

func (lk *lockAnalysis) checkStarter(c *Check) {
	w := lk.w
	conc := w.concurrentRoots()
	byParent := map[*ssa.Function][]*ssa.Function{}
	for t, in := range conc {
		if t.Parent() != nil {
			p := in.Parent()
			byParent[p] = append(byParent[p], t)
		}
	}
	var ps []*ssa.Function
	for p := range byParent {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pos() < ps[j].Pos() })
	for _, p := range ps {
		s := &starterSpec{w: w, lk: lk, fn: p, cell: map[*ssa.Function]map[ssa.Value]bool{}, id: map[ssa.Value]string{}, back: map[string]ssa.Value{}, bad: map[string]string{}}
		for _, t := range byParent[p] {
			m := map[ssa.Value]bool{}
			var collect func(f *ssa.Function, seen map[*ssa.Function]bool)
			collect = func(f *ssa.Function, seen map[*ssa.Function]bool) {
				if seen[f] || len(f.Blocks) == 0 {
					return
				}
				seen[f] = true
				add := func(addr ssa.Value, wr bool) {
					root := w.cellRoot(addr)
					al, ok := root.(*ssa.Alloc)
					if !ok || within(al.Parent(), t) || isSyncType(deref(al.Type())) || !within(t, al.Parent()) {
						return
					}
					m[al] = m[al] || wr
				}
				eachInstr(f, func(in ssa.Instruction) {
					switch x := in.(type) {
					case *ssa.Store:
						add(x.Addr, true)
					case *ssa.UnOp:
						if x.Op == token.MUL {
							add(x.X, false)
						}
					case *ssa.MapUpdate:
						if ld, ok := x.Map.(*ssa.UnOp); ok {
							add(ld.X, true)
						}
					case ssa.CallInstruction:
						n := calleeName(x)
						if len(x.Common().Args) > 0 {
							if ld, ok := x.Common().Args[0].(*ssa.UnOp); ok && (n == "builtin.delete" || n == "builtin.clear" || n == "maps.Insert" || n == "maps.Copy") {
								add(ld.X, true)
							}
						}
						for _, h := range w.Callees(x) {
							if h.Parent() != nil && within(h, outermost(t)) {
								collect(h, seen)
							}
						}
						for _, a := range x.Common().Args {
							if _, ok := a.Type().Underlying().(*types.Signature); ok {
								for _, h := range w.funcsOf(a, map[ssa.Value]bool{}) {
									if h.Parent() != nil && within(h, outermost(t)) {
										collect(h, seen)
									}
								}
							}
						}
					}
				})
			}
			collect(t, map[*ssa.Function]bool{})
			s.cell[t] = m
		}
		n := 0
		var roots []ssa.Value
		for _, m := range s.cell {
			for r := range m {
				if s.id[r] == "" {
					s.id[r] = "?"
					roots = append(roots, r)
				}
			}
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
		for _, r := range roots {
			n++
			s.id[r] = fmt.Sprint(n)
			s.back[fmt.Sprint(n)] = r
		}
		fl := newFlow(w, s)
		fl.rel = func(f *ssa.Function) bool { return within(f, outermost(p)) }
		fl.Run(p, "-")
		if fl.over {
			c.Bad("task-starter-access", localName(p), w.Pos(p.Pos()), "path bound exceeded")
			continue
		}
		if len(s.bad) == 0 {
			c.Ok("task-starter-access", localName(p))
			continue
		}
		for id, pos := range s.bad {
			c.Bad("task-starter-access", localName(p)+": "+s.back[id].(*ssa.Alloc).Comment, pos, "accessed at %s while a task that uses it may be running", pos)
		}
	}
}

// ---------- the syntax tree of a file ----------

// pathExpr names a path expression: a parameter, or a field chain.
func (w *World) pathExpr(v ssa.Value, d int) string {
	if d > 8 {
		return "?"
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return "p:" + v.Name()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch x := v.X.(type) {
			case *ssa.FieldAddr:
				o, f, _ := fieldName(x)
				return w.pathExpr(x.X, d+1) + "." + o + "." + f
			case *ssa.Alloc, *ssa.FreeVar:
				if t := w.throughCell(v); t != ssa.Value(v) {
					return w.pathExpr(t, d+1)
				}
				return "c:" + w.objKey(x)
			}
		}
	case *ssa.FieldAddr:
		o, f, _ := fieldName(v)
		return w.pathExpr(v.X, d+1) + "." + o + "." + f
	case *ssa.Const:
		return v.String()
	case *ssa.FreeVar, *ssa.Alloc:
		return "c:" + w.objKey(v)
	case *ssa.Call:
		return "v:" + v.Name()
	}
	return "v:" + v.Name()
}

func (lk *lockAnalysis) checkFileTree(c *Check) {
	w := lk.w
	// functions working on a shared tree: they take or drop entries of the modifier's tree cache (a sync.Map of parsed
	// files) without taking the file lock themselves
	need := map[*ssa.Function]bool{}
	trees := map[*types.Var]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if r := recvOf(ci); r != nil && isNamed(r.Type(), "sync", "Map") {
				fa, ok := r.(*ssa.FieldAddr)
				if a := ci.Common().Args; ok && len(a) == 3 && holdsTree(a[2]) {
					trees[fieldVar(fa)] = true
				}
			}
		})
	}
	for _, f := range w.Fns {
		if f.Parent() != nil || f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), "lens", "ASTModifier") {
			continue
		}
		uses := false
		locks := false
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if r := recvOf(ci); r != nil && isNamed(r.Type(), "sync", "Map") {
				fa, isF := r.(*ssa.FieldAddr)
				switch methodName(ci) {
				case "Load", "Delete", "LoadOrStore", "LoadAndDelete", "Store":
					uses = uses || isF && trees[fieldVar(fa)]
				}
			}
			for _, g := range w.Callees(ci) {
				if lk.lockers[g] {
					locks = true
				}
			}
		})
		if uses && !locks {
			need[f] = true
		}
	}
	// unexported helpers which neither lock nor have the file chosen themselves pass the obligation on
	suffix := map[*ssa.Function][2]string{} // the parameter the path comes from, and the fields after it
	for f := range need {
		for _, q := range f.Params {
			if isString(q.Type()) {
				suffix[f] = [2]string{q.Name(), ""}
				break
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range w.Fns {
			if need[f] || f.Parent() != nil || f.Object() == nil || f.Object().Exported() || len(w.callersOf[f]) == 0 {
				continue
			}
			locks := false
			var at *[2]string
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				for _, g := range w.Callees(call) {
					if lk.lockers[g] {
						locks = true
					}
					if !need[g] {
						continue
					}
					pe := lk.treePath(call, g, suffix)
					for _, q := range f.Params {
						if rest, ok := strings.CutPrefix(pe, "p:"+q.Name()); ok && (rest == "" || rest[0] == '.') {
							at = &[2]string{q.Name(), rest}
						}
					}
				}
			})
			if at != nil && !locks {
				need[f], suffix[f], again = true, *at, true
			}
		}
	}
	// callers hold the lock of the same path
	for round := 0; round < 3; round++ {
		for _, f := range w.Fns {
			n := 0
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				for _, g := range w.Callees(call) {
					if !need[g] || round > 0 {
						continue
					}
					n++
					key := fmt.Sprintf("%s: %s", localName(f), g.Name())
					if n > 1 {
						key += fmt.Sprintf(" (%d)", n)
					}
					if need[f] { // passes the obligation on
						c.Ok("file-tree-locked", key+" (caller locks)")
						continue
					}
					msg := lk.treeHeld(f, call, lk.treePath(call, g, suffix))
					c.Decide(msg == "", "file-tree-locked", key, w.Pos(call.Pos()), "%s", msg)
				}
			})
		}
	}
}

type treeSpec struct {
	lk    *lockAnalysis
	call  *ssa.Call
	paths string
	al    map[ssa.Value]bool
	bad   string
	seen  bool
}

func (t *treeSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	w := t.lk.w
	// st: "free" or "held:<path>"
	if in == ssa.Instruction(t.call) {
		t.seen = true
		want := "held:" + t.paths
		if st != want {
			t.bad = "called without holding the lock of that file"
		}
	}
	if c, ok := in.(*ssa.Call); ok {
		for _, g := range w.Callees(c) {
			if t.lk.lockers[g] {
				args := c.Call.Args
				return []Out{{st: "held:" + w.pathExpr(args[len(args)-1], 0), res: "1"}}, true
			}
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		if _, isGo := in.(*ssa.Go); !isGo {
			if r := recvOf(ci); r != nil && isMutex(r.Type()) && methodName(ci) == "Unlock" {
				for _, k := range t.lk.lockKeys(r, 0) {
					if strings.HasPrefix(k, "stripe:") {
						return []Out{{st: "free"}}, true
					}
				}
			}
		}
	}
	if st == "free" && fr.fn == t.call.Parent() && in != ssa.Instruction(t.call) {
		// the tree must not be touched any more
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if t.al[x.X] {
				t.bad = "the syntax tree is used at " + w.Pos(in.Pos()) + " after the lock was released"
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if t.al[a] {
					t.bad = "the syntax tree is used at " + w.Pos(in.Pos()) + " after the lock was released"
				}
			}
		}
	}
	if in == ssa.Instruction(t.call) {
		return []Out{{st: st, res: strings.Repeat("2", t.call.Call.Signature().Results().Len())}}, true
	}
	return nil, false
}

// treePath names the file a call works on, "" if unknown.
func (lk *lockAnalysis) treePath(call *ssa.Call, g *ssa.Function, suffix map[*ssa.Function][2]string) string {
	sf, ok := suffix[g]
	if !ok {
		return ""
	}
	for i, q := range g.Params {
		if q.Name() == sf[0] {
			if a := argFor(call, g, i); a != nil {
				return lk.w.pathExpr(a, 0) + sf[1]
			}
		}
	}
	return ""
}

func (lk *lockAnalysis) treeHeld(f *ssa.Function, call *ssa.Call, path string) string {
	w := lk.w
	if path == "" {
		return ""
	}
	var seeds []ssa.Value
	for i := 0; i < call.Call.Signature().Results().Len(); i++ {
		if v := resultAt(call, i); v != nil {
			if _, ok := v.Type().Underlying().(*types.Pointer); ok && !isErrorType(v.Type()) {
				seeds = append(seeds, v)
			}
		}
	}
	t := &treeSpec{lk: lk, call: call, paths: path, al: w.aliases(f, seeds)}
	fl := newFlow(w, t)
	fl.rel = func(h *ssa.Function) bool {
		r := false
		eachInstr(h, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if v := recvOf(ci); v != nil && isMutex(v.Type()) {
					r = true
				}
			}
		})
		return r
	}
	start := f
	fl.Run(start, "free")
	if fl.over {
		return "path bound exceeded"
	}
	if !t.seen {
		return ""
	}
	return t.bad
}

// ---------- atomics ----------

func (lk *lockAnalysis) checkAtomics(c *Check) {
	w := lk.w
	isAtomic := func(in ssa.Instruction, names ...string) *ssa.Call {
		call, ok := in.(*ssa.Call)
		if !ok || len(call.Call.Args) == 0 {
			return nil
		}
		n := calleeName(call)
		if !strings.Contains(n, "sync/atomic.") {
			return nil
		}
		for _, k := range names {
			if i := strings.LastIndex(n, "."); strings.HasPrefix(n[i+1:], k) {
				return call
			}
		}
		return nil
	}
	for _, f := range w.Fns {
		num := 0
		eachInstr(f, func(in ssa.Instruction) {
			if isAtomic(in, "Add", "CompareAndSwap", "Swap", "Or", "And") != nil {
				num++
				c.Ok("atomic-update", fmt.Sprintf("%s (%d)", localName(f), num))
				return
			}
			st := isAtomic(in, "Store")
			if st == nil || len(st.Call.Args) < 2 {
				return
			}
			cell := w.objKey(st.Call.Args[0])
			seen := map[ssa.Value]bool{}
			var from func(v ssa.Value) bool
			from = func(v ssa.Value) bool {
				if v == nil || seen[v] {
					return false
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Call:
					if ld := isAtomic(x, "Load"); ld != nil {
						return w.objKey(ld.Call.Args[0]) == cell
					}
					for _, a := range x.Call.Args {
						if from(a) {
							return true
						}
					}
				case *ssa.BinOp:
					return from(x.X) || from(x.Y)
				case *ssa.Convert:
					return from(x.X)
				case *ssa.Phi:
					for _, e := range x.Edges {
						if from(e) {
							return true
						}
					}
				case *ssa.UnOp:
					if x.Op != token.MUL {
						return from(x.X)
					}
					if al, ok := w.cellRoot(x.X).(*ssa.Alloc); ok {
						for _, s := range w.storesTo(al) {
							if from(s.Val) {
								return true
							}
						}
					}
				}
				return false
			}
			lost := from(st.Call.Args[1])
			if lost { // under a lock nobody comes between
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(*ssa.Call); ok && b.Dominates(st.Block()) {
							if r := recvOf(ci); r != nil && isMutex(r.Type()) && methodName(ci) == "Lock" {
								lost = false
							}
						}
					}
				}
			}
			num++
			c.Decide(!lost, "atomic-update", fmt.Sprintf("%s (%d)", localName(f), num), w.Pos(in.Pos()), "what another task stored since the load is overwritten")
		})
	}
}

// ---------- pools ----------

func checkPooled(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || calleeName(call) != "(*sync.Pool).Get" {
				return
			}
			n++
			key := fmt.Sprintf("%s: pooled object", localName(f))
			if n > 1 {
				key = fmt.Sprintf("%s (%d)", key, n)
			}
			p := &pooledSpec{w: w, get: call}
			fl := newFlow(w, p)
			fl.narrow = true
			var seeds []ssa.Value
			seeds = append(seeds, call)
			for _, r := range *call.Referrers() {
				if ta, ok := r.(*ssa.TypeAssert); ok {
					if ta.CommaOk {
						for _, q := range *ta.Referrers() {
							if e, ok := q.(*ssa.Extract); ok && e.Index == 0 {
								seeds = append(seeds, e)
							}
						}
					} else {
						seeds = append(seeds, ta)
					}
				}
			}
			fl.Run(f, "idle", seeds...)
			bad := p.bad
			if bad != "" && resetBeforePut(w) {
				bad = ""
			}
			c.Decide(bad == "", "pooled-reset", key, w.Pos(call.Pos()), "%s", bad)
		})
	}
}

// resetBeforePut: every Put is preceded, in its block, by a Reset of the same object.
func resetBeforePut(w *World) bool {
	all, any := true, false
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(*ssa.Call)
			if !ok || calleeName(ci) != "(*sync.Pool).Put" {
				return
			}
			any = true
			ok = false
			for _, x := range in.Block().Instrs {
				if x == in {
					break
				}
				if q, k := x.(*ssa.Call); k && methodName(q) == "Reset" {
					ok = true
				}
			}
			all = all && ok
		})
	}
	return all && any
}

type pooledSpec struct {
	w   *World
	get *ssa.Call
	bad string
}

func (p *pooledSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == ssa.Instruction(p.get) {
		return []Out{{st: "dirty", res: "1"}}, true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok || st == "idle" {
		return nil, false
	}
	if _, ok := in.(*ssa.Go); ok {
		return nil, false
	}
	res := strings.Repeat("2", ci.Common().Signature().Results().Len())
	if calleeName(ci) == "(*sync.Pool).Put" {
		return []Out{{st: "idle"}}, true
	}
	if r := recvOf(ci); r != nil && fr.Has(r) {
		switch methodName(ci) {
		case "Reset", "Truncate":
			return []Out{{st: "clean", res: res}}, true
		default:
			if st == "dirty" {
				p.bad = "used at " + p.w.Pos(in.Pos()) + " with what the previous user left in it"
			}
			return []Out{{st: st, res: res}}, true
		}
	}
	if st == "dirty" {
		for _, a := range ci.Common().Args {
			if fr.Has(a) && len(p.w.Callees(ci)) == 0 {
				p.bad = "used at " + p.w.Pos(in.Pos()) + " with what the previous user left in it"
			}
		}
	}
	return nil, false
}

// holdsTree: the value (boxed in an interface) is a syntax tree or a struct keeping one.
func holdsTree(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	t := deref(v.Type())
	if isNamed(t, "go/ast", "File") {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isNamed(deref(st.Field(i).Type()), "go/ast", "File") {
				return true
			}
		}
	}
	return false
}
