package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Provenance: where a value can come from, over the whole program (callers, captured cells, struct fields, containers).
// A container stands for its elements. The result is a set of named leaves plus every value on the way.

type Prov struct {
	w      *World
	leaf   map[string]ssa.Value
	seen   map[ssa.Value]bool
	fields map[string]bool // every struct field passed on the way, "Owner.Field"
	// stopField: do not look at what is stored in this field; it is a leaf "field:Owner.Field"
	stopField func(owner, field string) bool
	// stopCall: treat this call as a leaf "call:name#i" although it could be looked through
	stopCall func(name string) bool
	// only within: parameters are leaves
	local bool
}

func (w *World) prov(v ssa.Value, conf func(p *Prov)) *Prov {
	p := &Prov{w: w, leaf: map[string]ssa.Value{}, seen: map[ssa.Value]bool{}, fields: map[string]bool{}}
	if conf != nil {
		conf(p)
	}
	p.trace(v)
	return p
}

func (p *Prov) names() []string {
	var out []string
	for k := range p.leaf {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *Prov) has(prefix string) bool {
	for k := range p.leaf {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func (p *Prov) add(name string, v ssa.Value) {
	if _, ok := p.leaf[name]; !ok {
		p.leaf[name] = v
	}
}

func fieldVar(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return deref(v.X.Type()).Underlying().(*types.Struct).Field(v.Field)
	case *ssa.Field:
		return v.X.Type().Underlying().(*types.Struct).Field(v.Field)
	}
	return nil
}

// fieldStores lists the values stored into a field of any object of the type.
func (w *World) fieldStoresOf(fv *types.Var) []*ssa.Store {
	if w.fstores == nil {
		w.fstores = map[*types.Var][]*ssa.Store{}
		for _, f := range w.Fns {
			eachInstr(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						v := fieldVar(fa)
						w.fstores[v] = append(w.fstores[v], s)
					}
				}
			})
		}
	}
	return w.fstores[fv]
}

var passThrough = map[string]bool{
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Clean": true, "path/filepath.Abs": true,
	"path/filepath.Rel": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true, "path/filepath.EvalSymlinks": true,
	"path.Join": true, "path.Dir": true, "path.Base": true, "path.Clean": true,
	"strings.TrimSpace": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true, "strings.ReplaceAll": true, "strings.Replace": true,
	"strings.Join": true, "strings.Split": true, "strings.ToLower": true, "strings.Trim": true, "strings.TrimRight": true, "strings.TrimLeft": true,
	"strings.Fields": true, "strings.Clone": true, "strings.Cut": true, "strings.Repeat": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "strconv.Itoa": true,
	"slices.Clone": true, "slices.Concat": true, "slices.Sorted": true, "slices.Collect": true, "slices.Insert": true, "slices.Compact": true,
	"maps.Keys": true, "maps.Values": true, "maps.Clone": true, "maps.All": true, "append": true, "builtin.append": true, "builtin.min": true, "builtin.max": true,
	"bytes.Clone": true, "bytes.TrimSpace": true,
}

func (p *Prov) trace(v ssa.Value) {
	if v == nil || p.seen[v] {
		return
	}
	p.seen[v] = true
	w := p.w
	switch v := v.(type) {
	case *ssa.Const:
		if s, ok := constString(v); ok {
			p.add("const:"+s, v)
		} else if v.Value != nil {
			p.add("const:"+v.Value.ExactString(), v)
		} else {
			p.add("const:nil", v)
		}
	case *ssa.Parameter:
		fn := v.Parent()
		cs := w.callersOf[fn]
		n := 0
		if !p.local {
			for _, c := range cs {
				if a := argFor(c, fn, paramIndex(v)); a != nil {
					n++
					p.trace(a)
				}
			}
		}
		if n == 0 {
			p.add("param:"+localName(fn)+"."+v.Name(), v)
		}
	case *ssa.FreeVar:
		if b := w.bindingOf(v); b != nil {
			p.trace(b)
		} else {
			p.add("freevar:"+v.Name(), v)
		}
	case *ssa.Alloc:
		p.traceCell(v)
	case *ssa.Global:
		st := w.storesTo(v)
		for _, s := range st {
			p.trace(s.Val)
		}
		p.add("global:"+v.Name(), v)
	case *ssa.UnOp:
		if v.Op == token.MUL || v.Op == token.ARROW {
			p.trace(v.X)
		} else {
			p.trace(v.X)
		}
	case *ssa.FieldAddr:
		p.traceField(v, v.X)
	case *ssa.Field:
		p.traceField(v, v.X)
	case *ssa.IndexAddr:
		p.trace(v.X)
	case *ssa.Index:
		p.trace(v.X)
	case *ssa.Slice:
		p.trace(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			p.trace(e)
		}
	case *ssa.ChangeType:
		p.trace(v.X)
	case *ssa.Convert:
		p.trace(v.X)
	case *ssa.MakeInterface:
		p.trace(v.X)
	case *ssa.ChangeInterface:
		p.trace(v.X)
	case *ssa.TypeAssert:
		p.trace(v.X)
	case *ssa.BinOp:
		p.trace(v.X)
		p.trace(v.Y)
	case *ssa.Lookup:
		p.trace(v.X)
	case *ssa.Range:
		p.trace(v.X)
	case *ssa.Next:
		p.trace(v.Iter)
	case *ssa.MakeMap:
		p.traceUpdates(v)
	case *ssa.MakeSlice:
		p.traceUpdates(v)
	case *ssa.MakeChan:
		p.add("chan", v)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			p.traceCall(c, v.Index)
			return
		}
		p.trace(v.Tuple)
	case *ssa.Call:
		p.traceCall(v, -1)
	case *ssa.MakeClosure:
		p.add("func:"+localName(v.Fn.(*ssa.Function)), v)
	case *ssa.Function:
		p.add("func:"+localName(v), v)
	}
}

func (p *Prov) traceField(v ssa.Value, base ssa.Value) {
	w := p.w
	o, f, _ := fieldName(v)
	p.fields[o+"."+f] = true
	if p.stopField != nil && p.stopField(o, f) {
		p.add("field:"+o+"."+f, v)
		return
	}
	st := w.fieldStoresOf(fieldVar(v))
	for _, s := range st {
		p.trace(s.Val)
	}
	// objects of the type that come from somewhere else (decoded, external)
	n := namedOf(base.Type())
	ext := n != nil && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	if len(st) == 0 || ext {
		if ext {
			p.add("field:"+typeName(n)+"."+f, v)
		} else {
			p.add("field:"+o+"."+f, v)
		}
	}
}

// traceCell follows what is stored in a local variable or composite literal.
func (p *Prov) traceCell(v *ssa.Alloc) {
	for _, s := range p.w.storesTo(v) {
		p.trace(s.Val)
	}
	p.traceUpdates(v)
}

// traceUpdates follows element stores into an array, slice, map or struct value, also through copies in the function.
func (p *Prov) traceUpdates(v ssa.Value) {
	al := p.w.aliases(v.Parent(), []ssa.Value{v})
	if in, ok := v.(ssa.Instruction); ok {
		_ = in
	}
	var closureCells []ssa.Value
	for a := range al {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				for _, q := range *r.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == r {
						p.trace(s.Val)
					}
					if fa, ok := q.(*ssa.FieldAddr); ok {
						for _, z := range *fa.Referrers() {
							if s, ok := z.(*ssa.Store); ok && s.Addr == fa {
								p.trace(s.Val)
							}
						}
					}
				}
			case *ssa.FieldAddr:
				if r.X != a {
					continue
				}
				if r.Referrers() == nil {
					continue
				}
				for _, q := range *r.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == r {
						p.trace(s.Val)
					}
				}
			case *ssa.MapUpdate:
				if r.Map == a {
					p.trace(r.Key)
					p.trace(r.Value)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == a && i < len(fn.FreeVars) {
						closureCells = append(closureCells, fn.FreeVars[i])
					}
				}
			}
		}
	}
	for len(closureCells) > 0 {
		c := closureCells[0]
		closureCells = closureCells[1:]
		key := c
		if p.seen[key] {
			// FreeVars are marked when traced; element stores still have to be followed once
		}
		fn := c.Parent()
		for a := range p.w.aliases(fn, []ssa.Value{c}) {
			if a.Referrers() == nil {
				continue
			}
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					if r.Map == a {
						p.trace(r.Key)
						p.trace(r.Value)
					}
				case *ssa.IndexAddr:
					for _, q := range *r.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == r {
							p.trace(s.Val)
						}
					}
				case *ssa.MakeClosure:
					g := r.Fn.(*ssa.Function)
					for i, b := range r.Bindings {
						if b == a && i < len(g.FreeVars) && len(closureCells) < 50 {
							closureCells = append(closureCells, g.FreeVars[i])
						}
					}
				}
			}
		}
	}
}

func (p *Prov) traceCall(c *ssa.Call, idx int) {
	w := p.w
	name := calleeName(c)
	leafName := "call:" + name
	if idx > 0 {
		leafName += "#" + string(rune('0'+idx))
	}
	if p.stopCall != nil && p.stopCall(name) {
		p.add(leafName, c)
		return
	}
	entered := false
	for _, g := range w.Callees(c) {
		own := w.Own[g.Pkg] || g.Origin() != nil && w.Own[g.Origin().Pkg]
		if !own || len(g.Blocks) == 0 {
			continue
		}
		entered = true
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				vals := retVals(r)
				for i, v := range vals {
					if idx < 0 || i == idx {
						p.trace(v)
					}
				}
			}
		}
	}
	if entered {
		return
	}
	base := name
	if i := strings.IndexByte(base, '['); i > 0 {
		base = base[:i]
	}
	if passThrough[base] || strings.HasPrefix(base, "github.com/go-analyze/bulk.") {
		if c.Call.IsInvoke() {
			p.trace(c.Call.Value)
		}
		for _, a := range c.Call.Args {
			p.trace(a)
		}
		return
	}
	p.add(leafName, c)
}
