package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkResources }

// what can be acquired, and the method that releases it
var acquirers = map[string]struct {
	res     int
	release []string // method names on the object; "()" = calling it
	what    string
}{
	"os.Open":                 {0, []string{"Close"}, "file"},
	"os.Create":               {0, []string{"Close"}, "file"},
	"os.OpenFile":             {0, []string{"Close"}, "file"},
	"os.CreateTemp":           {0, []string{"Close"}, "file"},
	"time.NewTicker":          {0, []string{"Stop"}, "ticker"},
	"time.NewTimer":           {0, []string{"Stop"}, "timer"},
	"context.WithTimeout":     {1, []string{"()"}, "context"},
	"context.WithCancel":      {1, []string{"()"}, "context"},
	"context.WithDeadline":    {1, []string{"()"}, "context"},
	"net.Listen":              {0, []string{"Close"}, "listener"},
	"net.Dial":                {0, []string{"Close"}, "connection"},
	"net/http.Get":            {0, []string{"Body.Close"}, "response"},
	"net/http.Post":           {0, []string{"Body.Close"}, "response"},
	"(*net/http.Client).Do":   {0, []string{"Body.Close"}, "response"},
	"(*net/http.Client).Post": {0, []string{"Body.Close"}, "response"},
	"(*net/http.Client).Get":  {0, []string{"Body.Close"}, "response"},
	"github.com/klauspost/compress/zstd.NewWriter":        {0, []string{"Close"}, "encoder"},
	"github.com/klauspost/compress/zstd.NewReader":        {0, []string{"Close"}, "decoder"},
	"github.com/dgraph-io/badger/v4.Open":                 {0, []string{"Close"}, "database"},
	"(*github.com/dgraph-io/badger/v4.Txn).NewIterator":   {0, []string{"Close"}, "iterator"},
	"(*github.com/dgraph-io/badger/v4.DB).NewTransaction": {0, []string{"Discard"}, "transaction"},
	"(lens.StorageProvider).NewStorage":                   {0, []string{"Close"}, "storage"},
}

func checkResources(c *Check) {
	w := c.W
	c.Rule("released-on-every-exit", "every file, ticker, context, response, codec, database, iterator and storage acquired is released, or handed to an owner, on every way out of the function that acquired it", 6)
	c.Rule("temp-path-removed", "every temporary file or directory created is removed on every way out, unless its path is handed to the caller together with success", 2)
	c.Rule("probe-removed", "a file which a function creates and removes again before it succeeds is removed on every other way out as well", 0)
	c.Rule("partial-copy-removed", "when a copy to a backup path the tool chose fails, what was written of it is removed", 0)
	c.Rule("owner-releases", "the Close of a type which holds closable objects or a removed path releases each of them, whatever the outcome of releasing the others", 1)
	type site struct {
		call *ssa.Call
		res  int
		rel  []string
		what string
	}
	// wrappers of the repository that hand the acquired object to their caller become acquirers themselves
	wrap := map[*ssa.Function]site{}
	seenCall := map[*ssa.Call]bool{}
	ords := map[string]int{}
	for round := 0; round < 4; round++ {
		grew := false
		for _, f := range w.Fns {
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || seenCall[call] {
					return
				}
				n := calleeName(call)
				var s site
				if a, ok := acquirers[n]; ok {
					s = site{call, a.res, a.release, a.what}
				} else {
					for _, g := range w.Callees(call) {
						if ws, ok := wrap[g]; ok {
							s = site{call, ws.res, ws.rel, ws.what}
						}
					}
				}
				if s.call == nil {
					return
				}
				seenCall[call] = true
				key := localName(f) + ": " + s.what + " from " + n
				ords[key]++
				if ords[key] > 1 {
					key += " (" + string(rune('0'+ords[key])) + ")"
				}
				obj := resultAt(call, s.res)
				if obj == nil {
					c.Bad("released-on-every-exit", key, w.Pos(call.Pos()), "the acquired %s is dropped", s.what)
					return
				}
				l := &lifeSpec{w: w, acquire: call, errIdx: errResult(call.Call.Signature()), resIdx: s.res, nres: call.Call.Signature().Results().Len()}
				rels := s.rel
				l.release = func(fr *Frame, ci ssa.CallInstruction) bool { return isRelease(fr, ci, rels) }
				msg, _, moved, where := w.runLife(l, obj)
				if where == "" {
					where = w.Pos(call.Pos())
				}
				c.Decide(msg == "", "released-on-every-exit", key, where, "the %s acquired at %s: %s", s.what, w.Pos(call.Pos()), msg)
				if moved {
					// does it leave through a result?
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							al := w.aliases(f, []ssa.Value{obj})
							for i, v := range retVals(r) {
								if al[v] && len(wrap) < 50 {
									if _, dup := wrap[f]; !dup && f.Signature.Recv() == nil {
										wrap[f] = site{nil, i, s.rel, s.what}
										grew = true
									}
								}
							}
						}
					}
				}
			})
		}
		if !grew {
			break
		}
	}
	checkTempPaths(c)
	checkProbeFiles(c)
	checkPartialBackups(c)
	checkOwners(c)
}

func isRelease(fr *Frame, ci ssa.CallInstruction, rels []string) bool {
	for _, r := range rels {
		switch r {
		case "()":
			if fr.Has(ci.Common().Value) {
				return true
			}
		case "Body.Close":
			if methodName(ci) == "Close" {
				if v := recvOf(ci); v != nil && fr.Has(loadedFrom(v)) {
					return true
				}
			}
		default:
			if methodName(ci) == r {
				if v := recvOf(ci); v != nil && fr.Has(v) {
					return true
				}
			}
		}
	}
	return false
}

// loadedFrom: for x.Field (a load of a field address) the struct pointer x.
func loadedFrom(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	}
	if f, ok := v.(*ssa.Field); ok {
		return f.X
	}
	return v
}

// checkTempPaths: os.CreateTemp / os.MkdirTemp leave something on disk until it is removed.
func checkTempPaths(c *Check) {
	w := c.W
	type site struct {
		call *ssa.Call
		res  int
	}
	wrap := map[*ssa.Function]int{}
	seen := map[*ssa.Call]bool{}
	for round := 0; round < 4; round++ {
		grew := false
		for _, f := range w.Fns {
			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || seen[call] {
					return
				}
				n := calleeName(call)
				res := -1
				switch n {
				case "os.CreateTemp", "os.MkdirTemp":
					res = 0
				default:
					for _, g := range w.Callees(call) {
						if i, ok := wrap[g]; ok {
							res = i
						}
					}
				}
				if res < 0 {
					return
				}
				seen[call] = true
				obj := resultAt(call, res)
				key := localName(f) + ": " + n
				if obj == nil {
					c.Bad("temp-path-removed", key, w.Pos(call.Pos()), "the path of what was created is dropped")
					return
				}
				sig := call.Call.Signature()
				l := &lifeSpec{w: w, acquire: call, errIdx: errResult(sig), resIdx: res, nres: sig.Results().Len()}
				// a file's path is Name(): values derived by Name() denote the same object
				names := func(fr *Frame, v ssa.Value) bool { return pathOf(fr, v, 0) }
				_, isFunc := obj.Type().Underlying().(*types.Signature)
				l.release = func(fr *Frame, ci ssa.CallInstruction) bool {
					if isFunc && fr.Has(ci.Common().Value) {
						return true
					}
					switch calleeName(ci) {
					case "os.Remove":
						return n != "os.MkdirTemp" && names(fr, ci.Common().Args[0]) // does not remove a directory with content
					case "os.RemoveAll":
						return names(fr, ci.Common().Args[0])
					}
					return false
				}
				leak := ""
				where := w.Pos(call.Pos())
				// the path may be handed to the caller, but only together with success
				ei := errResult(f.Signature)
				l.relOps = func(fr *Frame, in ssa.Instruction) bool { return false }
				sp := &tempSpec{lifeSpec: l, names: names, errIdx: ei, top: f}
				fl := newFlow(w, sp)
				fl.narrow = true
				outs := fl.Run(f, "idle", obj)
				if fl.over {
					leak = "path bound exceeded"
				}
				moved := -1
				for _, o := range outs {
					switch {
					case o.st == "held" && o.kind != "exit":
						leak, where = "left behind by the exit at "+w.Pos(o.pos), w.Pos(o.pos)
					case len(o.st) > 5 && o.st[:5] == "moved":
						moved = int(o.st[5] - '0')
						if ei >= 0 && ei < len(o.res) && o.res[ei] == '1' {
							leak, where = "left behind by the error exit at "+w.Pos(o.pos), w.Pos(o.pos)
						}
					}
				}
				c.Decide(leak == "", "temp-path-removed", key, where, "temporary path created at %s: %s", w.Pos(call.Pos()), leak)
				if moved >= 0 {
					if _, dup := wrap[f]; !dup {
						wrap[f] = moved
						grew = true
					}
				}
			})
		}
		if !grew {
			break
		}
	}
	var ws []string
	for f := range wrap {
		ws = append(ws, localName(f))
	}
	sort.Strings(ws)
	c.extra["temp_path_wrappers"] = ws
}

type tempSpec struct {
	*lifeSpec
	names  func(fr *Frame, v ssa.Value) bool
	errIdx int
	top    *ssa.Function
}

func (t *tempSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if st == "held" {
		switch in := in.(type) {
		case *ssa.Return:
			for i, v := range retVals(in) {
				if t.names(fr, v) || t.closureReleases(fr, v) {
					return []Out{{st: "moved" + string(rune('0'+i))}}, true
				}
			}
			return nil, false
		case *ssa.Store:
			return nil, false
		}
	}
	return t.lifeSpec.Event(fr, in, st)
}

// pathOf: v is the tracked path, the Name() of the tracked file, or a cell holding one of them.
func pathOf(fr *Frame, v ssa.Value, d int) bool {
	if d > 8 || v == nil {
		return false
	}
	if fr.Has(v) {
		if _, ok := v.Type().Underlying().(*types.Basic); ok {
			return true
		}
	}
	switch v := v.(type) {
	case *ssa.Call:
		return methodName(v) == "Name" && recvOf(v) != nil && fr.Has(recvOf(v))
	case *ssa.Phi:
		for _, e := range v.Edges {
			if pathOf(fr, e, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			for _, s := range fr.fl.w.storesTo(v.X) {
				if s.Parent() == fr.fn && pathOf(fr, s.Val, d+1) {
					return true
				}
				// captured by a closure: compare with the function that defines the cell
				if call, ok := s.Val.(*ssa.Call); ok && s.Parent() != fr.fn && methodName(call) == "Name" {
					return true
				}
			}
		}
	}
	return false
}

// fileSpec follows one path: created (or half written) by the call, gone after a removal or a rename of it.
type fileSpec struct {
	w       *World
	call    *ssa.Call
	path    ssa.Value
	on      byte // the path exists when the error of the call is nil ('0') or when it is not ('1')
	errIdx  int
	handing bool // recording the path somewhere counts as handing it on
}

func (s *fileSpec) same(fr *Frame, v ssa.Value) bool {
	return fr.Has(v) || pathOf(fr, v, 0) || fr.fn == s.call.Parent() && s.w.canon(v) == s.w.canon(s.path)
}

func (s *fileSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == ssa.Instruction(s.call) {
		n := s.call.Call.Signature().Results().Len()
		mk := func(b byte) string {
			r := []byte(strings.Repeat("2", n))
			r[s.errIdx] = b
			return string(r)
		}
		other := byte('0')
		if s.on == '0' {
			other = '1'
		}
		return []Out{{st: "there", res: mk(s.on)}, {st: "idle", res: mk(other)}}, true
	}
	if st != "there" {
		return nil, false
	}
	switch x := in.(type) {
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		switch calleeName(ci) {
		case "os.Remove", "os.RemoveAll", "os.Rename":
			if s.same(fr, ci.Common().Args[0]) {
				return []Out{{st: "gone", res: "2"}}, true
			}
		}
	case *ssa.Store:
		if s.handing && s.same(fr, x.Val) {
			if _, ok := x.Addr.(*ssa.FieldAddr); ok {
				return []Out{{st: "gone"}}, true
			}
		}
	}
	return nil, false
}

func checkProbeFiles(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch calleeName(call) {
			case "os.Create", "os.WriteFile", "os.OpenFile":
			default:
				return
			}
			ei := errResult(call.Call.Signature())
			if ei < 0 {
				return
			}
			sp := &fileSpec{w: w, call: call, path: call.Call.Args[0], on: '0', errIdx: ei}
			fl := newFlow(w, sp)
			fl.narrow = true
			fe := errResult(f.Signature)
			some, kept, bad := false, false, token.NoPos
			for _, o := range fl.Run(f, "idle", call.Call.Args[0]) {
				switch {
				case o.kind == "exit":
				case o.st == "gone":
					some = true
				case o.st == "there" && fe >= 0 && fe < len(o.res) && o.res[fe] == '1':
					bad = o.pos
				case o.st == "there":
					kept = true
				}
			}
			if !some || kept {
				return // it is meant to stay
			}
			c.Decide(bad == token.NoPos, "probe-removed", localName(f)+": "+calleeName(call), w.Pos(bad), "the file created at %s only to be removed is left behind by the exit at %s", w.Pos(call.Pos()), w.Pos(bad))
		})
	}
}

func checkPartialBackups(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || len(call.Call.Args) < 2 {
				return
			}
			own := false
			for _, g := range w.Callees(call) {
				own = own || w.Own[g.Pkg] && writesCopy(w, g)
			}
			dst, isCall := w.canonCall(call.Call.Args[len(call.Call.Args)-1])
			ei := errResult(call.Call.Signature())
			if !own || !isCall || ei < 0 {
				return
			}
			chosen := false
			for _, g := range w.Callees(dst) {
				chosen = chosen || w.Own[g.Pkg] && g.Signature.Results().Len() == 1
			}
			if !chosen {
				return
			}
			sp := &fileSpec{w: w, call: call, path: dst, on: '1', errIdx: ei, handing: true}
			fl := newFlow(w, sp)
			fl.narrow = true
			bad := token.NoPos
			for _, o := range fl.Run(f, "idle", dst) {
				if o.st == "there" && o.kind != "exit" {
					bad = o.pos
				}
			}
			c.Decide(bad == token.NoPos, "partial-copy-removed", localName(f)+": "+calleeName(call), w.Pos(bad), "the part which was written by the failed copy at %s is left behind by the exit at %s", w.Pos(call.Pos()), w.Pos(bad))
		})
	}
}

// writesCopy: the function creates the file its last parameter names.
func writesCopy(w *World, g *ssa.Function) bool {
	if len(g.Params) < 2 {
		return false
	}
	al := w.aliases(g, []ssa.Value{g.Params[len(g.Params)-1]})
	r := false
	eachInstr(g, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			switch calleeName(ci) {
			case "os.Create", "os.OpenFile", "os.WriteFile":
				r = r || al[ci.Common().Args[0]]
			}
		}
	})
	return r
}

// canonCall: the call whose result v is, looking through variables which are assigned once.
func (w *World) canonCall(v ssa.Value) (*ssa.Call, bool) {
	c, ok := w.throughCell(v).(*ssa.Call)
	return c, ok
}

// checkOwners: a Close method releases all that its receiver holds.
func checkOwners(c *Check) {
	w := c.W
	for _, f := range w.Fns {
		if f.Name() != "Close" || f.Signature.Recv() == nil || len(f.Params) != 1 || len(f.Blocks) == 0 {
			continue
		}
		n := namedOf(deref(f.Params[0].Type()))
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			key := localName(f) + ": " + fd.Name()
			var rel []ssa.Instruction
			for in := range releasesOf(w, f, i, map[*ssa.Function]bool{}) {
				rel = append(rel, in)
			}
			if len(rel) == 0 {
				if hasClose(fd.Type()) {
					c.Bad("owner-releases", key, w.Pos(f.Pos()), "%s holds %s but its Close does not close it", n.Obj().Name(), fd.Name())
				}
				continue
			}
			at := skippedByFailure(w, f, rel)
			c.Decide(at == token.NoPos, "owner-releases", key, w.Pos(at), "%s is not released when another step fails (decided at %s)", fd.Name(), w.Pos(at))
		}
	}
}

func hasClose(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	fn, ok := o.(*types.Func)
	return ok && fn.Type().(*types.Signature).Params().Len() == 0
}

// releasesOf: the instructions of f which release field i of its receiver (its Close, or the removal of the path it holds),
// directly or in a function it passes the receiver to.
func releasesOf(w *World, f *ssa.Function, i int, busy map[*ssa.Function]bool) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	if busy[f] || len(f.Blocks) == 0 {
		return out
	}
	busy[f] = true
	self := w.aliases(f, []ssa.Value{f.Params[0]})
	isField := func(v ssa.Value) bool {
		v = w.throughCell(v)
		if ta, ok := v.(*ssa.TypeAssert); ok {
			v = ta.X
		}
		if e, ok := v.(*ssa.Extract); ok {
			if ta, ok := e.Tuple.(*ssa.TypeAssert); ok {
				v = ta.X
			}
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && fa.Field == i && self[fa.X]
		case *ssa.Field:
			return x.Field == i && self[x.X]
		case *ssa.FieldAddr:
			return x.Field == i && self[x.X]
		}
		return false
	}
	eachInstr(f, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		switch calleeName(ci) {
		case "os.Remove", "os.RemoveAll":
			if isField(ci.Common().Args[0]) {
				out[in] = true
			}
			return
		}
		if r := recvOf(ci); r != nil && methodName(ci) == "Close" && isField(r) {
			out[in] = true
			return
		}
		for _, g := range w.Callees(ci) {
			if w.Own[g.Pkg] && len(g.Params) > 0 && len(ci.Common().Args) > 0 && self[ci.Common().Args[0]] && len(releasesOf(w, g, i, busy)) > 0 {
				out[in] = true
			}
			for ai, a := range ci.Common().Args {
				if w.Own[g.Pkg] && isField(a) && ai < len(g.Params) && releasesParam(w, g, ai) {
					out[in] = true
				}
			}
		}
		// deferred or passed closures
		for _, a := range append([]ssa.Value{ci.Common().Value}, ci.Common().Args...) {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				for bi, b := range mc.Bindings {
					if self[b] || self[w.throughCell(b)] {
						al := w.aliases(g, []ssa.Value{g.FreeVars[bi]})
						eachInstr(g, func(gi ssa.Instruction) {
							if gc, ok := gi.(ssa.CallInstruction); ok {
								var v ssa.Value
								switch {
								case calleeName(gc) == "os.Remove" || calleeName(gc) == "os.RemoveAll":
									v = gc.Common().Args[0]
								case methodName(gc) == "Close":
									v = recvOf(gc)
								}
								if ld, ok := v.(*ssa.UnOp); ok {
									if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.Field == i && (al[fa.X] || al[w.throughCell(fa.X)]) {
										out[in] = true
									}
								}
							}
						})
					}
				}
			}
		}
	})
	return out
}

func releasesParam(w *World, g *ssa.Function, ai int) bool {
	al := w.aliases(g, []ssa.Value{g.Params[ai]})
	r := false
	eachInstr(g, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			switch {
			case calleeName(ci) == "os.Remove" || calleeName(ci) == "os.RemoveAll":
				r = r || al[ci.Common().Args[0]]
			case methodName(ci) == "Close" && recvOf(ci) != nil:
				r = r || al[recvOf(ci)]
			}
		}
	})
	return r
}

// skippedByFailure: a test of an error which decides that none of the releases happens.
func skippedByFailure(w *World, f *ssa.Function, rel []ssa.Instruction) token.Pos {
	has := map[*ssa.BasicBlock]bool{}
	for _, in := range rel {
		has[in.Block()] = true
	}
	// blocks from which a return can be reached without a release
	free := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if free[b] || has[b] {
				continue
			}
			ok := false
			if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
				ok = true
			}
			for _, s := range b.Succs {
				ok = ok || free[s]
			}
			if ok {
				free[b] = true
				changed = true
			}
		}
	}
	// walk from the entry through blocks without a release
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || has[b] || !free[b] {
			continue
		}
		seen[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				x := bo.X
				if isNilConst(x) {
					x = bo.Y
				}
				if isErrorType(x.Type()) && free[b.Succs[0]] != free[b.Succs[1]] {
					return iff.Cond.Pos()
				}
			}
		}
		st = append(st, b.Succs...)
	}
	return token.NoPos
}
