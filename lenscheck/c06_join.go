package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkJoins }

const errgroupPkg = "golang.org/x/sync/errgroup"

func isGroupPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && isNamed(n, errgroupPkg, "Group")
}

func checkJoins(c *Check) {
	w := c.W
	c.Rule("group-waited", "every function that starts tasks on an errgroup waits for them on every way out", 4)
	c.Rule("goroutine-joined", "every goroutine is joined by its starter, or cannot block for ever and changes nothing outside its own memory, or serves until it is shut down", 3)
	c.Rule("waitgroup-balanced", "every WaitGroup.Add is matched by a Done on every way out of the function, or handed to a goroutine that calls Done on all its paths; Add is never left to the goroutine itself", 1)
	c.Rule("pool-returned", "a value taken from a pool channel is put back on every way out", 1)
	c.Rule("server-stopped", "every monitor server that was started is stopped on every way out", 1)
	checkGroups(c)
	checkWaitGroups(c)
	checkWaits(c)
	checkGoroutines(c)
	checkPools(c)
	checkServers(c)
	_ = w
}

// ---------- errgroup ----------

type groupSpec struct{ w *World }

func (g *groupSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	switch in := in.(type) {
	case *ssa.Return:
		for _, v := range retVals(in) {
			if fr.Has(v) && isGroupPtr(v.Type()) {
				return []Out{{st: "moved"}}, true
			}
		}
	case *ssa.Store:
		if fr.Has(in.Val) && isGroupPtr(in.Val.Type()) {
			if _, ok := in.Addr.(*ssa.FieldAddr); ok {
				return []Out{{st: "moved"}}, true
			}
		}
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		r := recvOf(ci)
		if r == nil || !fr.Has(r) || !isGroupPtr(r.Type()) {
			return nil, false
		}
		switch methodName(ci) {
		case "Go", "TryGo":
			return []Out{{st: "running", res: "2"}}, true
		case "Wait":
			return []Out{{st: "idle", res: "2"}}, true
		default:
			return []Out{{st: st, res: strings.Repeat("2", ci.Common().Signature().Results().Len())}}, true
		}
	}
	return nil, false
}

func checkGroups(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		n := 0
		var seeds []ssa.Value
		eachInstr(f, func(in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.Alloc:
				if isGroupPtr(v.Type()) {
					seeds = append(seeds, v)
				}
			case *ssa.Call:
				if isGroupPtr(v.Type()) {
					seeds = append(seeds, v)
				}
			case *ssa.Extract:
				if isGroupPtr(v.Type()) {
					seeds = append(seeds, v)
				}
			}
		})
		for _, s := range seeds {
			n++
			fl := newFlow(w, &groupSpec{w})
			fl.narrow = true
			outs := fl.Run(f, "idle", s)
			key := localName(f) + ": errgroup"
			if n > 1 {
				key = fmt.Sprintf("%s (%d)", key, n)
			}
			bad, where := "", w.Pos(s.Pos())
			if fl.over {
				bad = "path bound exceeded"
			}
			for _, o := range outs {
				if o.st == "running" && o.kind != "exit" {
					bad, where = "tasks may still be running when the function leaves at "+w.Pos(o.pos), w.Pos(o.pos)
					break
				}
			}
			c.Decide(bad == "", "group-waited", key, where, "%s", bad)
		}
	}
}

// ---------- WaitGroup ----------

// objKey names the object an address denotes: a field of a type, or a local cell.
func (w *World) objKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		o, f, _ := fieldName(v)
		return o + "." + f
	case *ssa.Global:
		return "global " + v.Name()
	case *ssa.Alloc:
		return "cell " + FnName(v.Parent()) + " " + v.Comment + fmt.Sprint(v.Pos())
	case *ssa.FreeVar:
		if r := w.cellRoot(v); r != v {
			return w.objKey(r)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*" + w.objKey(v.X)
		}
	case *ssa.Parameter:
		return "param " + FnName(v.Parent()) + " " + v.Name()
	}
	return "?" + FnName(v.Parent()) + v.Name()
}

type wgSpec struct {
	w   *World
	key string
	d   int
}

func (g *wgSpec) is(ci ssa.CallInstruction) string {
	r := recvOf(ci)
	if r == nil || !isNamed(r.Type(), "sync", "WaitGroup") || g.w.objKey(r) != g.key {
		return ""
	}
	return methodName(ci)
}

func (g *wgSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	n := int(st[0] - '0')
	switch in := in.(type) {
	case *ssa.Go:
		if g.d > 3 {
			return nil, false
		}
		g.d++
		defer func() { g.d-- }()
		for _, f := range g.w.Callees(in) {
			if len(f.Blocks) == 0 {
				continue
			}
			worst := -1
			for _, o := range fr.fl.explore(f, st, fr.fl.seedsFor(fr, in, f)) {
				if k := int(o.st[0] - '0'); k > worst && o.kind != "exit" {
					worst = k
				}
			}
			if worst >= 0 {
				return []Out{{st: string(rune('0' + worst))}}, true
			}
		}
	case *ssa.Call, *ssa.Defer:
		switch g.is(in.(ssa.CallInstruction)) {
		case "Add":
			k, ok := constInt(in.(ssa.CallInstruction).Common().Args[1])
			if !ok {
				k = 1
			}
			return []Out{{st: string(rune('0' + min(9, n+int(k))))}}, true
		case "Done":
			return []Out{{st: string(rune('0' + max(0, n-1)))}}, true
		case "Wait", "Go":
			return []Out{{st: st}}, true
		}
	}
	return nil, false
}

func checkWaitGroups(c *Check) {
	w := c.W
	seen := map[string]bool{}
	for _, f := range w.Fns {
		keys := map[string]ssa.CallInstruction{}
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if r := recvOf(ci); r != nil && isNamed(r.Type(), "sync", "WaitGroup") && methodName(ci) == "Add" {
				keys[w.objKey(r)] = ci
			}
		})
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			top := f
			// a closure that runs inside its parent is part of the parent's sequence
			name := localName(f) + ": " + strings.TrimPrefix(shortKey(k), "cell ")
			if seen[name] {
				continue
			}
			seen[name] = true
			if goTarget(w, f) {
				c.Bad("waitgroup-balanced", name, w.Pos(keys[k].Pos()), "Add is called by the goroutine that should be waited for: Wait may return before it has started")
				continue
			}
			fl := newFlow(w, &wgSpec{w: w, key: k})
			fl.rel = func(g *ssa.Function) bool { return mentionsWG(w, g, k) }
			bad, where := "", w.Pos(keys[k].Pos())
			for _, o := range fl.Run(top, "0") {
				if o.st != "0" && o.kind != "exit" {
					bad, where = "leaves at "+w.Pos(o.pos)+" with an Add that no Done will match: Wait blocks for ever", w.Pos(o.pos)
				}
			}
			if fl.over {
				bad = "path bound exceeded"
			}
			c.Decide(bad == "", "waitgroup-balanced", name, where, "%s", bad)
		}
	}
}

// checkWaits: a function which waits for a group that outlives it waits on every way out.
func checkWaits(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		done := map[string]bool{}
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || methodName(ci) != "Wait" {
				return
			}
			r := recvOf(ci)
			if r == nil || !isNamed(r.Type(), "sync", "WaitGroup") {
				return
			}
			if _, ok := r.(*ssa.FieldAddr); !ok {
				return
			}
			k := w.objKey(r)
			if done[k] {
				return
			}
			done[k] = true
			all := w.onAllWays(f, func(in ssa.Instruction) bool {
				c2, ok := in.(ssa.CallInstruction)
				return ok && methodName(c2) == "Wait" && recvOf(c2) != nil && w.objKey(recvOf(c2)) == k
			})
			c.Decide(all, "waitgroup-balanced", localName(f)+": waits for "+shortKey(k), w.Pos(in.Pos()), "some way through this function does not wait for what is still running")
		})
	}
}

func shortKey(k string) string {
	if strings.HasPrefix(k, "cell ") {
		return "local wait group"
	}
	return k
}

func mentionsWG(w *World, g *ssa.Function, key string) bool {
	found := false
	eachInstr(g, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if r := recvOf(ci); r != nil && isNamed(r.Type(), "sync", "WaitGroup") && w.objKey(r) == key {
				found = true
			}
		}
	})
	return found
}

// goTarget: f is only ever run as a goroutine.
func goTarget(w *World, f *ssa.Function) bool {
	found := false
	for _, g := range w.Fns {
		eachInstr(g, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Go); ok {
				for _, t := range w.Callees(s) {
					if t == f {
						found = true
					}
				}
			}
		})
	}
	return found
}

// ---------- go statements ----------

// effect tells whether a call changes something outside the process or shared: used for goroutines nobody joins.
func lateEffect(ci ssa.CallInstruction) bool {
	n := calleeName(ci)
	switch {
	case n == "" || strings.HasPrefix(n, "builtin."):
		return false
	case strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Print") || strings.HasSuffix(n, ").Unlock") || strings.HasSuffix(n, ").RUnlock"):
		return false
	}
	return true
}

type doneSpec struct {
	w    *World
	late string
	keys map[string]bool
}

func (g *doneSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	switch in := in.(type) {
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		if r := recvOf(ci); r != nil && isNamed(r.Type(), "sync", "WaitGroup") {
			if methodName(ci) == "Done" {
				g.keys[g.w.objKey(r)] = true
				return []Out{{st: "signalled"}}, true
			}
			return []Out{{st: st}}, true
		}
		if st == "signalled" && lateEffect(ci) && g.late == "" {
			g.late = g.w.Pos(in.Pos())
		}
	case *ssa.Send:
		g.keys["chan "+g.w.objKey(chanOrigin(g.w, in.Chan))] = true
		return []Out{{st: "signalled"}}, true
	}
	if b, ok := in.(*ssa.Call); ok {
		if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
			g.keys["chan "+g.w.objKey(chanOrigin(g.w, b.Call.Args[0]))] = true
			return []Out{{st: "signalled"}}, true
		}
	}
	return nil, false
}

// chanOrigin: the cell holding a channel, or the value itself.
func chanOrigin(w *World, v ssa.Value) ssa.Value {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return w.cellRoot(ld.X)
	}
	return v
}

type recvSpec struct {
	w   *World
	g   ssa.Instruction
	key string // channel or wait group
}

func (r *recvSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == r.g {
		return []Out{{st: "started"}}, true
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.ARROW && "chan "+r.w.objKey(chanOrigin(r.w, in.X)) == r.key {
			return []Out{{st: "idle", res: "2"}}, true
		}
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		if v := recvOf(ci); v != nil && isNamed(v.Type(), "sync", "WaitGroup") && r.w.objKey(v) == r.key && methodName(ci) == "Wait" {
			return []Out{{st: "idle"}}, true
		}
	}
	return nil, false
}

func checkGoroutines(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		n := 0
		dead := constDead(f)
		eachInstr(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if cl, isCall := in.(*ssa.Call); isCall && len(w.goroutineOf(in)) > 0 {
				bad := "" // wg.Go(f): signals when f returns
				if k := w.objKey(recvOf(cl)); strings.HasPrefix(k, "cell ") {
					for _, o := range newFlow(w, &recvSpec{w, in, k}).Run(f, "idle") {
						if o.st == "started" && o.kind != "exit" {
							bad = "still running when the function leaves at " + w.Pos(o.pos)
						}
					}
				} else {
					bad = "nothing waits for " + k
					for _, h := range w.Fns {
						if waits(w, h, k) {
							bad = ""
						}
					}
				}
				c.Decide(bad == "", "goroutine-joined", localName(f)+": wait group Go", w.Pos(in.Pos()), "%s", bad)
			}
			if !ok {
				return
			}
			n++
			key := localName(f) + ": go"
			if n > 1 {
				key = fmt.Sprintf("%s (%d)", key, n)
			}
			if dead[in.Block()] {
				c.Ok("goroutine-joined", key+" (unreachable: guarded by a constant)")
				return
			}
			bad := w.goJoined(f, g)
			c.Decide(bad == "", "goroutine-joined", key, w.Pos(g.Pos()), "%s", bad)
		})
	}
}

// constDead: blocks reachable only through a branch a constant rules out.
func constDead(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if live[b] {
			continue
		}
		live[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, ok := iff.Cond.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) {
					st = append(st, b.Succs[0])
				} else {
					st = append(st, b.Succs[1])
				}
				continue
			}
		}
		st = append(st, b.Succs...)
	}
	dead := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if !live[b] {
			dead[b] = true
		}
	}
	return dead
}

func (w *World) goJoined(f *ssa.Function, g *ssa.Go) string {
	// serving goroutine: it runs an http server that its owner can shut down
	for _, t := range w.Callees(g) {
		serves, stops := false, false
		eachInstr(t, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				switch calleeName(ci) {
				case "(*net/http.Server).ListenAndServe", "(*net/http.Server).Serve":
					serves = true
				}
			}
		})
		if serves {
			for _, h := range w.Fns {
				eachInstr(h, func(in ssa.Instruction) {
					if ci, ok := in.(ssa.CallInstruction); ok {
						switch calleeName(ci) {
						case "(*net/http.Server).Shutdown", "(*net/http.Server).Close":
							stops = true
						}
					}
				})
			}
			if stops {
				return ""
			}
			return "starts a server that nothing shuts down"
		}
	}
	ds := &doneSpec{w: w, keys: map[string]bool{}}
	all := true
	any := false
	for _, t := range w.Callees(g) {
		if len(t.Blocks) == 0 {
			continue
		}
		any = true
		fl := newFlow(w, ds)
		for _, o := range fl.Run(t, "working") {
			if o.st != "signalled" && o.kind != "exit" {
				all = false
			}
		}
	}
	if !any {
		return "starts code that cannot be analysed"
	}
	if !all || len(ds.keys) == 0 {
		return "nothing tells the starter that the goroutine has finished"
	}
	if ds.late != "" {
		return "the goroutine goes on working at " + ds.late + " after it has signalled completion"
	}
	var ks []string
	for k := range ds.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	msg := ""
	for _, k := range ks {
		// a wait group in a field is waited for by whoever uses the result
		if !strings.HasPrefix(k, "chan ") && !strings.HasPrefix(k, "cell ") {
			for _, h := range w.Fns {
				if waits(w, h, k) {
					return ""
				}
			}
			msg = "nothing waits for " + k
			continue
		}
		top := f
		fl := newFlow(w, &recvSpec{w, g, k})
		msg = ""
		for _, o := range fl.Run(top, "idle") {
			if o.st == "started" && o.kind != "exit" {
				msg = "still running when the function leaves at " + w.Pos(o.pos)
			}
		}
		if msg == "" {
			return ""
		}
		// never joined on some path: fine when it can neither block nor change anything
		if strings.HasPrefix(k, "chan ") && w.bufferedOnce(f, g, k) {
			if e := w.goEffects(g); e == "" {
				return ""
			} else {
				msg += " and it " + e
			}
		}
	}
	return msg
}

func waits(w *World, h *ssa.Function, key string) bool {
	found := false
	eachInstr(h, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if v := recvOf(ci); v != nil && isNamed(v.Type(), "sync", "WaitGroup") && w.objKey(v) == key && methodName(ci) == "Wait" {
				found = true
			}
		}
	})
	return found
}

// bufferedOnce: the channel has room for the one value the goroutine sends, and the goroutine is started once per channel.
func (w *World) bufferedOnce(f *ssa.Function, g *ssa.Go, key string) bool {
	ok := false
	eachInstr(f, func(in ssa.Instruction) {
		mk, isMk := in.(*ssa.MakeChan)
		if !isMk {
			return
		}
		if n, c := constInt(mk.Size); !c || n < 1 {
			return
		}
		match := "chan "+w.objKey(mk) == key
		if mk.Referrers() != nil {
			for _, r := range *mk.Referrers() {
				if s, isS := r.(*ssa.Store); isS && "chan "+w.objKey(w.cellRoot(s.Addr)) == key {
					match = true
				}
			}
		}
		if !match {
			return
		}
		for _, l := range loopsOf(f) { // started in a loop the channel is not made in
			if l.body[g.Block()] && !l.body[mk.Block()] {
				return
			}
		}
		ok = true
	})
	if !ok {
		return false
	}
	// one send, not in a loop
	for _, t := range w.Callees(g) {
		sends := 0
		ls := loopsOf(t)
		eachInstr(t, func(in ssa.Instruction) {
			if s, isS := in.(*ssa.Send); isS {
				sends++
				for _, l := range ls {
					if l.body[s.Block()] {
						sends += 10
					}
				}
			}
		})
		if sends > 1 {
			return false
		}
	}
	return true
}

// fsWrites are the calls that change files.
var fsWrites = map[string]bool{"os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.WriteFile": true, "os.Create": true,
	"os.CreateTemp": true, "os.MkdirTemp": true, "os.Mkdir": true, "os.MkdirAll": true, "os.Chmod": true, "os.Symlink": true, "os.Link": true, "os.Truncate": true}

// goEffects: what the goroutine (and what it calls in the repository) changes outside its own memory.
func (w *World) goEffects(g *ssa.Go) string {
	seen := map[*ssa.Function]bool{}
	msg := ""
	var walk func(f *ssa.Function, top bool)
	walk = func(f *ssa.Function, top bool) {
		if seen[f] || len(f.Blocks) == 0 || !w.Own[f.Pkg] {
			return
		}
		seen[f] = true
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case ssa.CallInstruction:
				n := calleeName(in)
				if fsWrites[n] {
					msg = "changes files (" + n + " at " + w.Pos(in.Pos()) + ")"
				}
				for _, t := range w.Callees(in) {
					walk(t, false)
				}
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.FreeVar); ok {
					msg = "writes a captured variable at " + w.Pos(in.Pos())
				}
				if _, ok := in.Addr.(*ssa.Global); ok {
					msg = "writes a global at " + w.Pos(in.Pos())
				}
			}
		})
	}
	for _, t := range w.Callees(g) {
		walk(t, true)
	}
	return msg
}

// ---------- pools ----------

func checkPools(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				return
			}
			ch, ok := u.X.Type().Underlying().(*types.Chan)
			if !ok {
				return
			}
			if _, ok := ch.Elem().Underlying().(*types.Pointer); !ok {
				return
			}
			n++
			key := fmt.Sprintf("%s: %s", localName(f), typeName(ch.Elem()))
			if n > 1 {
				key = fmt.Sprintf("%s (%d)", key, n)
			}
			var seed ssa.Value = u
			if u.CommaOk {
				seed = nil
				for _, r := range *u.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						seed = e
					}
				}
			}
			w.poolTaken(c, key, f, u, seed, 0)
		})
	}
}

// poolTaken: what the instruction of f took is put back on every way out, by f or, if f hands it out, by each of its callers.
func (w *World) poolTaken(c *Check, key string, f *ssa.Function, at ssa.Instruction, seed ssa.Value, d int) {
	l := &poolSpec{w: w, acquire: at}
	fl := newFlow(w, l)
	fl.narrow = true
	bad, where := "", w.Pos(at.Pos())
	moved := false
	for _, o := range fl.Run(f, "idle", seed) {
		if o.st == "held" && o.kind != "exit" {
			bad, where = "not put back when leaving at "+w.Pos(o.pos)+": later takers block for ever", w.Pos(o.pos)
		}
		moved = moved || o.st == "moved"
	}
	if l.twice {
		bad = "taken again before it was put back"
	}
	if fl.over {
		bad = "path bound exceeded"
	}
	if moved && bad == "" && (d > 2 || len(w.callersOf[f]) == 0) {
		bad = "handed out to nobody who puts it back"
	}
	c.Decide(bad == "", "pool-returned", key, where, "%s", bad)
	if !moved || bad != "" {
		return
	}
	idx := -1
	eachInstr(f, func(in ssa.Instruction) {
		if r, ok := in.(*ssa.Return); ok {
			for i, v := range retVals(r) {
				if w.canon(v) == w.canon(seed) {
					idx = i
				}
			}
		}
	})
	for n, ci := range w.callersOf[f] {
		call, ok := ci.(*ssa.Call)
		if !ok || idx < 0 {
			continue
		}
		var s ssa.Value = call
		if f.Signature.Results().Len() > 1 {
			s = resultAt(call, idx)
		}
		k := fmt.Sprintf("%s: %s", localName(call.Parent()), localName(f))
		if n > 0 {
			k = fmt.Sprintf("%s (%d)", k, n+1)
		}
		w.poolTaken(c, k, call.Parent(), call, s, d+1)
	}
}

type poolSpec struct {
	w       *World
	acquire ssa.Instruction
	key     string
	twice   bool
	d       int
}

func (p *poolSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == p.acquire {
		if st == "held" {
			p.twice = true
		}
		n := 1
		if ci, ok := in.(ssa.CallInstruction); ok {
			n = ci.Common().Signature().Results().Len()
		}
		return []Out{{st: "held", res: strings.Repeat("1", n)}}, true
	}
	if st != "held" {
		return nil, false
	}
	if ci, ok := in.(ssa.CallInstruction); ok && p.giveBack(ci) {
		return []Out{{st: "idle"}}, true
	}
	switch in := in.(type) {
	case *ssa.Return:
		if in.Parent() == p.acquire.Parent() {
			for _, v := range retVals(in) {
				if fr.Has(v) {
					return []Out{{st: "moved"}}, true
				}
			}
		}
	case *ssa.Send:
		if fr.Has(in.X) {
			return []Out{{st: "idle"}}, true
		}
	case *ssa.Call, *ssa.Go:
		// handed to a task that puts it back on all its paths
		ci := in.(ssa.CallInstruction)
		async := false
		var fns []*ssa.Function
		if g, ok := in.(*ssa.Go); ok {
			async = true
			fns = p.w.Callees(g)
		} else if r := recvOf(ci); r != nil && isGroupPtr(r.Type()) && (methodName(ci) == "Go" || methodName(ci) == "TryGo") {
			async = true
			for _, cb := range fr.fl.callbacks(ci) {
				fns = append(fns, cb.fn)
			}
		}
		if !async || p.d > 3 {
			return nil, false
		}
		p.d++
		defer func() { p.d-- }()
		for _, f := range fns {
			mc := p.w.closureOf(f)
			if mc == nil || len(f.Blocks) == 0 {
				continue
			}
			seeds := fr.fl.seedsForClosure(fr, callback{f, mc})
			if g, ok := in.(*ssa.Go); ok {
				seeds = fr.fl.seedsFor(fr, g, f)
			}
			if len(seeds) == 0 {
				continue
			}
			for _, o := range fr.fl.explore(f, "held", seeds) {
				if o.st == "held" && o.kind != "exit" {
					return nil, false
				}
			}
			return []Out{{st: "idle", res: strings.Repeat("2", ci.Common().Signature().Results().Len())}}, true
		}
	}
	return nil, false
}

// giveBack: the call is of the function which was handed out together with the value, and which sends that value.
func (p *poolSpec) giveBack(ci ssa.CallInstruction) bool {
	e, ok := p.w.throughCell(ci.Common().Value).(*ssa.Extract)
	if !ok || e.Tuple != p.acquire.(ssa.Value) {
		return false
	}
	g := e.Tuple.(*ssa.Call).Call.StaticCallee()
	if g == nil || !p.w.own(g) {
		return false
	}
	ok = true
	eachInstr(g, func(in ssa.Instruction) {
		r, isR := in.(*ssa.Return)
		if !isR {
			return
		}
		mc, isM := retVals(r)[e.Index].(*ssa.MakeClosure)
		if !isM {
			ok = false
			return
		}
		ok = ok && p.w.onAllWays(mc.Fn.(*ssa.Function), func(in ssa.Instruction) bool {
			_, isS := in.(*ssa.Send)
			return isS
		})
	})
	return ok
}

// ---------- servers ----------

func checkServers(c *Check) {
	w := c.W
	srv := w.Type("astServer")
	if srv == nil {
		return
	}
	start := map[*ssa.Function]bool{}
	for _, f := range w.Fns { // the functions that start one: they return it and run the serving goroutine
		if f.Parent() != nil || f.Signature.Results().Len() == 0 || namedOf(f.Signature.Results().At(0).Type()) != srv {
			continue
		}
		for g := range w.ownReach(f, 4) {
			for _, h := range withClosures(g) {
				eachInstr(h, func(in ssa.Instruction) {
					if ci, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(ci), "(*net/http.Server).") && strings.Contains(methodName(ci), "Serve") {
						start[f] = true
					}
				})
			}
		}
	}
	checkStops(c, srv)
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			hit := false
			for _, g := range w.Callees(call) {
				hit = hit || start[g]
			}
			if !hit || start[f] {
				return
			}
			key := localName(f) + ": " + calleeName(call)
			obj := resultAt(call, 0)
			if obj == nil {
				c.Bad("server-stopped", key, w.Pos(call.Pos()), "the server is dropped")
				return
			}
			var into []ssa.Value // slices it is appended to
			l := &lifeSpec{w: w, acquire: call, errIdx: errResult(call.Call.Signature()), resIdx: 0, nres: call.Call.Signature().Results().Len()}
			l.release = func(fr *Frame, ci ssa.CallInstruction) bool {
				switch methodName(ci) {
				case "Stop", "StopOnProcessOrTimeout":
					return recvOf(ci) != nil && fr.Has(recvOf(ci))
				}
				return false
			}
			l.noSend = true
			msg, _, moved, where := w.runLife(l, obj)
			if where == "" {
				where = w.Pos(call.Pos())
			}
			if msg == "" && moved {
				// every collection that takes it over must be stopped as a whole by a deferred function
				into = w.appendTargets(f, obj)
				okAny := false
				for _, s := range into {
					if m := w.stoppedByDefer(f, call, s); m == "" {
						okAny = true
					} else {
						msg = m
					}
				}
				if okAny {
					msg = ""
				} else if len(into) == 0 {
					msg = "handed to something that is not stopped by a deferred function"
				}
			}
			c.Decide(msg == "", "server-stopped", key, where, "%s", msg)
		})
	}
}

// checkStops: a method which stops its server does so on every way out.
func checkStops(c *Check, srv *types.Named) {
	w := c.W
	for _, f := range w.Fns {
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != srv || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		stops := func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if n := calleeName(ci); n == "(*net/http.Server).Shutdown" || n == "(*net/http.Server).Close" {
				return true
			}
			g := ci.Common().StaticCallee()
			return g != nil && w.own(g) && g.Signature.Recv() != nil && namedOf(g.Signature.Recv().Type()) == srv && strings.HasPrefix(g.Name(), "Stop")
		}
		any := false
		eachInstr(f, func(in ssa.Instruction) { any = any || stops(in) })
		if any {
			c.Decide(w.onAllWays(f, stops), "server-stopped", localName(f)+" stops", w.Pos(f.Pos()), "some way through this function leaves the server running")
		}
	}
}

// onAllWays: every way from the entry of f to a return passes such an instruction (deferring it counts).
func (w *World) onAllWays(f *ssa.Function, is func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit := false
		for _, in := range b.Instrs {
			if is(in) {
				hit = true
			}
			if d, ok := in.(*ssa.Defer); ok {
				for _, g := range w.Callees(d) {
					eachInstr(g, func(in ssa.Instruction) { hit = hit || w.own(g) && is(in) })
				}
			}
		}
		if hit {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		st = append(st, b.Succs...)
	}
	return true
}

// appendTargets: the local slice variables obj is appended to.
func (w *World) appendTargets(f *ssa.Function, obj ssa.Value) []ssa.Value {
	var out []ssa.Value
	al := w.aliases(f, []ssa.Value{obj})
	eachInstr(f, func(in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(call.Call.Args) != 2 {
			return
		}
		if !elemsContain(call.Call.Args[1], al) {
			return
		}
		for _, r := range *call.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(call) {
				out = append(out, w.cellRoot(s.Addr))
			}
		}
	})
	return out
}

func elemsContain(v ssa.Value, al map[ssa.Value]bool) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok || arr.Referrers() == nil {
		return false
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && al[s.Val] {
				return true
			}
		}
	}
	return false
}

// stoppedByDefer: a defer that dominates the acquisition runs a function that stops every element of the slice cell.
func (w *World) stoppedByDefer(f *ssa.Function, call ssa.Instruction, cell ssa.Value) string {
	msg := "no deferred function registered before the start stops the collected servers"
	eachInstr(f, func(in ssa.Instruction) {
		d, ok := in.(*ssa.Defer)
		if !ok || !d.Block().Dominates(call.Block()) {
			return
		}
		for _, g := range w.Callees(d) {
			if m := w.stopsAll(g, cell, d); m == "" {
				msg = ""
				return
			} else if m != "-" {
				msg = m
			}
		}
	})
	return msg
}

// stopsAll: g ranges over the whole slice held by cell and stops each element.
func (w *World) stopsAll(g *ssa.Function, cell ssa.Value, d *ssa.Defer) string {
	if len(g.Blocks) == 0 {
		return "-"
	}
	// the slice as seen in g: loads of the captured cell, or a parameter bound to it (evaluated when deferred: too early)
	slices := map[ssa.Value]bool{}
	eachInstr(g, func(in ssa.Instruction) {
		if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && w.cellRoot(ld.X) == cell {
			slices[ld] = true
		}
	})
	if len(slices) == 0 {
		// through a helper called by g with the slice as argument
		res := "-"
		eachInstr(g, func(in ssa.Instruction) {
			_ = in
		})
		return res
	}
	// helper: for each call in g passing the slice, check the callee's parameter
	for _, l := range loopsOf(g) {
		if m := w.loopStops(g, l, slices); m != "-" {
			return m
		}
	}
	res := "-"
	eachInstr(g, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		for _, h := range w.Callees(ci) {
			if len(h.Blocks) == 0 || !w.Own[h.Pkg] {
				continue
			}
			for i, p := range h.Params {
				if a := argFor(ci, h, i); a != nil && slices[a] {
					for _, l := range loopsOf(h) {
						if m := w.loopStops(h, l, map[ssa.Value]bool{p: true}); m != "-" {
							res = m
						}
					}
				}
			}
		}
	})
	return res
}

func (w *World) loopStops(g *ssa.Function, l *loop, slices map[ssa.Value]bool) string {
	// element of the slice loaded in this loop
	var elem *ssa.UnOp
	for b := range l.body {
		for _, in := range b.Instrs {
			if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if ia, ok := ld.X.(*ssa.IndexAddr); ok && slices[ia.X] {
					if elem == nil || ld.Pos() < elem.Pos() {
						elem = ld
					}
				}
			}
		}
	}
	if elem == nil {
		return "-"
	}
	// leaves only when exhausted: every edge out of the loop starts at the header
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] && b != l.header {
				return "the stopping loop is left early at " + w.Pos(b.Instrs[len(b.Instrs)-1].Pos())
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return "the stopping loop is left early"
		}
	}
	// each iteration stops its element
	stops := func(b *ssa.BasicBlock) bool {
		al := w.aliases(g, []ssa.Value{elem})
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if m := methodName(ci); (m == "Stop" || m == "StopOnProcessOrTimeout") && recvOf(ci) != nil && al[recvOf(ci)] {
				return true
			}
			for _, h := range w.Callees(ci) { // a helper or a closure that stops it
				for i := range h.Params {
					if a := argFor(ci, h, i); a != nil && al[a] && callsStop(h, h.Params[i]) {
						return true
					}
				}
				if mc := w.closureOf(h); mc != nil && mc.Parent() == g {
					for i, bd := range mc.Bindings {
						if al[bd] && i < len(h.FreeVars) && callsStop(h, h.FreeVars[i]) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	// can the latch be reached from the header without passing a stopping block?
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for _, s := range l.header.Succs {
		if l.body[s] {
			st = append(st, s)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == l.header {
			return "an iteration of the stopping loop may skip its server"
		}
		if stops(b) {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] {
				st = append(st, s)
			}
		}
	}
	return ""
}

func callsStop(h *ssa.Function, p ssa.Value) bool {
	found := false
	eachInstr(h, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if m := methodName(ci); m == "Stop" || m == "StopOnProcessOrTimeout" {
				r := recvOf(ci)
				if r == p {
					found = true
				}
				if ld, ok := r.(*ssa.UnOp); ok && ld.X == p {
					found = true
				}
			}
		}
	})
	return found
}
