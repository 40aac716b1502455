package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lifecycle analysis: an object acquired at one instruction must be released, or handed on to an owner that can
// release it, on every way out of the function that acquired it.

type lifeSpec struct {
	w       *World
	acquire ssa.Instruction
	errIdx  int // index of the error result of the acquiring call, -1 when it cannot fail
	resIdx  int
	nres    int
	release func(fr *Frame, c ssa.CallInstruction) bool
	relSend bool // sending the object on a channel releases it
	relOps  func(fr *Frame, in ssa.Instruction) bool
	again   ssa.Instruction
	depthGo int
	noSend  bool // sending the object somewhere does not count as handing it on
}

func (l *lifeSpec) Event(fr *Frame, in ssa.Instruction, st string) ([]Out, bool) {
	if in == l.acquire {
		if st == "held" {
			l.again = in
		}
		if l.errIdx < 0 {
			return []Out{{st: "held", res: strings.Repeat("2", l.nres)}}, true
		}
		ok := []byte(strings.Repeat("2", l.nres))
		bad := []byte(strings.Repeat("2", l.nres))
		ok[l.errIdx], bad[l.errIdx] = '0', '1'
		if l.resIdx >= 0 && l.resIdx != l.errIdx {
			ok[l.resIdx] = '1'
		}
		return []Out{{st: "held", res: string(ok)}, {st: st, res: string(bad)}}, true
	}
	if st != "held" {
		return nil, false
	}
	if l.relOps != nil && l.relOps(fr, in) {
		return []Out{{st: "done", res: "2222"}}, true
	}
	switch in := in.(type) {
	case *ssa.Return:
		for _, v := range retVals(in) {
			if fr.Has(v) || l.closureReleases(fr, v) {
				return []Out{{st: "moved"}}, true
			}
		}
	case *ssa.Store:
		if fr.Has(in.Val) || l.closureReleases(fr, in.Val) {
			switch a := in.Addr.(type) {
			case *ssa.FieldAddr, *ssa.Global:
				return []Out{{st: "moved"}}, true
			case *ssa.IndexAddr:
				if l.w.appended(a.X) {
					return []Out{{st: "moved"}}, true
				}
			}
		}
	case *ssa.MapUpdate:
		if fr.Has(in.Value) || fr.Has(in.Key) {
			return []Out{{st: "moved"}}, true
		}
	case *ssa.Send:
		if fr.Has(in.X) && !l.noSend {
			return []Out{{st: "done"}}, true
		}
	case *ssa.Go:
		if l.asyncReleases(fr, in) {
			return []Out{{st: "done"}}, true
		}
	case ssa.CallInstruction:
		if l.release != nil && l.release(fr, in) {
			return []Out{{st: "done", res: strings.Repeat("2", in.Common().Signature().Results().Len())}}, true
		}
		// handed to an external function that keeps a releasing closure (defer-like registries such as t.Cleanup)
	}
	return nil, false
}

// asyncReleases: the goroutine started here releases the object on all its paths.
func (l *lifeSpec) asyncReleases(fr *Frame, g *ssa.Go) bool {
	if l.depthGo > 3 {
		return false
	}
	l.depthGo++
	defer func() { l.depthGo-- }()
	for _, f := range l.w.Callees(g) {
		if len(f.Blocks) == 0 {
			continue
		}
		outs := fr.fl.explore(f, "held", fr.fl.seedsFor(fr, g, f))
		if len(outs) == 0 {
			return false
		}
		for _, o := range outs {
			if o.st == "held" {
				return false
			}
		}
		return true
	}
	return false
}

// closureReleases: v is a function value that captures the object and releases it when called.
func (l *lifeSpec) closureReleases(fr *Frame, v ssa.Value) bool {
	if v == nil {
		return false
	}
	if _, ok := v.Type().Underlying().(*types.Signature); !ok {
		return false
	}
	if l.depthGo > 3 {
		return false
	}
	l.depthGo++
	defer func() { l.depthGo-- }()
	for _, f := range l.w.funcsOf(v, map[ssa.Value]bool{}) {
		mc := l.w.closureOf(f)
		if mc == nil || mc.Parent() != fr.fn || len(f.Blocks) == 0 {
			continue
		}
		seeds := fr.fl.seedsForClosure(fr, callback{f, mc})
		if len(seeds) == 0 {
			continue
		}
		rel := true
		outs := fr.fl.explore(f, "held", seeds)
		for _, o := range outs {
			if o.st == "held" {
				rel = false
			}
		}
		if rel && len(outs) > 0 {
			return true
		}
	}
	return false
}

// appended: the backing array of a variadic call ends up in builtin append (the element is kept), rather than in a
// call that only looks at it.
func (w *World) appended(arr ssa.Value) bool {
	al, ok := arr.(*ssa.Alloc)
	if !ok {
		return true // an element of a slice held elsewhere
	}
	refs := al.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		sl, ok := r.(*ssa.Slice)
		if !ok || sl.Referrers() == nil {
			continue
		}
		for _, u := range *sl.Referrers() {
			if c, ok := u.(ssa.CallInstruction); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return true
				}
				continue
			}
			return true
		}
	}
	return false
}

// runLife explores the function of the acquisition and reports the first way out that still holds the object.
// verdict: "" ok, otherwise a message; moved tells whether some path hands the object to the caller or a structure.
func (w *World) runLife(l *lifeSpec, seed ssa.Value) (msg string, pos ssa.Instruction, moved bool, where string) {
	fn := l.acquire.Parent()
	fl := newFlow(w, l)
	fl.narrow = true
	fl.liveObject = true
	seeds := []ssa.Value{}
	if seed != nil {
		seeds = append(seeds, seed)
	}
	outs := fl.Run(fn, "idle", seeds...)
	if fl.over {
		return "path bound exceeded", nil, false, ""
	}
	sort.SliceStable(outs, func(i, j int) bool { return outs[i].pos < outs[j].pos })
	for _, o := range outs {
		if o.st == "moved" {
			moved = true
		}
		if o.st == "held" && o.kind != "exit" {
			k := "returns"
			if o.kind == "panic" {
				k = "panics"
			}
			return k + " at " + w.Pos(o.pos) + " still holding it", nil, moved, w.Pos(o.pos)
		}
	}
	if l.again != nil {
		return "acquires it again before releasing the previous one", nil, moved, ""
	}
	return "", nil, moved, ""
}

func resultAt(c *ssa.Call, idx int) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		return c
	}
	if c.Referrers() == nil {
		return nil
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			return e
		}
	}
	return nil
}

func errResult(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// recvOf returns the receiver (or first argument of a method call) of a call.
func recvOf(c ssa.CallInstruction) ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		return com.Value
	}
	if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(com.Args) > 0 {
		return com.Args[0]
	}
	if mc, ok := com.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) == 1 {
		return mc.Bindings[0]
	}
	return nil
}

func methodName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		n := unwrapSynthetic(f)
		return n.Name()
	}
	return ""
}
