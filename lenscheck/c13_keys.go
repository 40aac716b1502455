package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkKeys }

// A key function turns a value into a key by hashing a sequence of tokens. The sequence is extracted as a graph
// (helpers inlined) and must be uniquely decodable.

type tnode struct {
	kind string   // tok, branch, enter, exit, rec, end, eps
	tok  string   // C const, F fixed/self-delimiting, L fixed-width length, D decimal length, N decimal, V variable
	name string   // what it is about
	args []string // of a nested call: what its arguments are about
	text string   // constant bytes
	pos  token.Pos
	next []*tnode
	cond ssa.Value
	fr   *kframe
	coll string // collection of a loop
	l    *loop
	maps bool // loop runs in map order
	id   int
}

type kframe struct {
	f    *ssa.Function
	args map[*ssa.Parameter]kval
	up   *kframe
}

type kval struct {
	v  ssa.Value
	fr *kframe
}

type keyGraph struct {
	w     *World
	keyFn map[*ssa.Function]bool
	n     int
	top   *ssa.Function
	sinks map[ssa.Value]bool
}

func isDigest(c ssa.CallInstruction) bool {
	n := calleeName(c)
	switch n {
	case "crypto/sha1.Sum", "crypto/sha256.Sum256", "crypto/md5.Sum", "crypto/sha512.Sum512", "(hash.Hash).Sum", "(hash.Hash64).Sum64", "(hash.Hash32).Sum32":
		return true
	}
	return false
}

// keyFunctions: functions of package lens returning a string which is (or is computed by) a digest.
func (w *World) keyFunctions() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 10 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return from(x.X, d+1)
		case *ssa.ChangeType:
			return from(x.X, d+1)
		case *ssa.Slice:
			return from(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if from(e, d+1) {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return from(x.X, d+1)
			}
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v && from(s.Val, d+1) {
					return true
				}
			}
		case *ssa.Call:
			if isDigest(x) {
				return true
			}
			for _, g := range w.Callees(x) {
				if out[g] {
					return true
				}
			}
		}
		return false
	}
	for {
		n := len(out)
		for _, f := range w.Fns {
			if f.Pkg != w.Lens || out[f] || f.Parent() != nil {
				continue
			}
			sig := f.Signature
			if sig.Results().Len() != 1 {
				continue
			}
			if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && from(retVals(r)[0], 0) {
					out[f] = true
				}
			}
		}
		if len(out) == n {
			return out
		}
	}
}

func checkKeys(c *Check) {
	w := c.W
	c.Rule("framed", "the bytes a key is computed from can be taken apart again in one way only", 4)
	c.Rule("complete", "every field of the value goes into its key on every path, unless it was tested to be empty", 4)
	c.Rule("ordered", "a key does not depend on the order in which a map is iterated", 1)
	c.Rule("equality", "comparing two values compares every field", 2)
	keyFn := w.keyFunctions()
	var fns []*ssa.Function
	for f := range keyFn {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		g := &keyGraph{w: w, keyFn: keyFn, top: f, sinks: map[ssa.Value]bool{}}
		end := g.node("end")
		start := g.build(&kframe{f: f, args: map[*ssa.Parameter]kval{}}, end, map[*ssa.Function]bool{f: true})
		name := FnName(f)
		bad, pos := g.decodable(start)
		c.Decide(bad == "", "framed", name, w.Pos(pos), "%s", bad)
		for _, n := range g.all(start) {
			if n.kind == "enter" && g.writes(n) {
				c.Decide(!n.maps, "ordered", name+" over "+n.coll, w.Pos(n.pos), "the elements are hashed in the random order of the map")
			}
		}
		g.complete(c, f, start)
	}
	for _, f := range w.Fns {
		if f.Pkg != w.Lens || f.Signature.Recv() == nil || f.Name() != "Equal" || len(f.Params) != 2 || f.Parent() != nil {
			continue
		}
		n := isStructVal(deref(f.Params[0].Type()))
		if n == nil || namedOf(f.Params[1].Type()) == nil || namedOf(f.Params[1].Type()).Obj() != n.Obj() {
			continue
		}
		st := n.Underlying().(*types.Struct)
		got := map[string]bool{}
		for _, g := range w.reach(f) {
			eachInstr(g, func(in ssa.Instruction) {
				if call, ok := in.(*ssa.Call); ok { // compared by a helper
					fs := map[string]int{}
					for _, a := range call.Call.Args {
						if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
							if o, x, ok := fieldName(ld.X); ok && o == n.Obj().Name() {
								fs[x]++
							}
						}
					}
					for x, k := range fs {
						if k == 2 {
							got[x] = true
						}
					}
				}
				b, ok := in.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ {
					return
				}
				if isStructVal(b.X.Type()) != nil { // whole structs are compared
					for i := 0; i < st.NumFields(); i++ {
						got[st.Field(i).Name()] = true
					}
				}
				x, ok1 := b.X.(*ssa.UnOp)
				y, ok2 := b.Y.(*ssa.UnOp)
				if !ok1 || !ok2 {
					return
				}
				o1, f1, k1 := fieldName(x.X)
				o2, f2, k2 := fieldName(y.X)
				if k1 && k2 && o1 == o2 && f1 == f2 && o1 == n.Obj().Name() && x.X.(*ssa.FieldAddr).X != y.X.(*ssa.FieldAddr).X {
					got[f1] = true
				}
			})
		}
		for i := 0; i < st.NumFields(); i++ {
			c.Decide(got[st.Field(i).Name()], "equality", FnName(f)+" "+st.Field(i).Name(), w.Pos(f.Pos()), "the field is not compared")
		}
	}
}

func (g *keyGraph) node(kind string) *tnode {
	g.n++
	return &tnode{kind: kind, id: g.n}
}

// build makes the graph of fr.f continuing at cont; returns its entry.
func (g *keyGraph) build(fr *kframe, cont *tnode, on map[*ssa.Function]bool) *tnode {
	f := fr.f
	entry := map[*ssa.BasicBlock]*tnode{}
	for _, b := range f.Blocks {
		entry[b] = g.node("eps")
	}
	loops := g.w.loops(f)
	for _, b := range f.Blocks {
		cur := entry[b]
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			toks := g.tokensOf(ci, fr)
			for _, t := range toks {
				t.pos = in.Pos()
				cur.next = append(cur.next, t)
				cur = t
			}
			if toks != nil {
				continue
			}
			if g.keyCall(ci) || isDigest(ci) {
				continue
			}
			for _, h := range g.w.Callees(ci) {
				if !g.w.own(h) || len(h.Blocks) == 0 || !g.feeds(h, fr) {
					continue
				}
				if on[h] {
					r := g.node("rec")
					r.pos = in.Pos()
					for i := range h.Params {
						if a := argFor(ci, h, i); a != nil {
							r.args = append(r.args, g.nm(a, fr, 0))
						}
					}
					cur.next = append(cur.next, r)
					cur = r
					continue
				}
				nf := &kframe{f: h, args: map[*ssa.Parameter]kval{}, up: fr}
				for i, p := range h.Params {
					if a := argFor(ci, h, i); a != nil {
						nf.args[p] = kval{a, fr}
					}
				}
				on[h] = true
				after := g.node("eps")
				s := g.build(nf, after, on)
				delete(on, h)
				cur.next = append(cur.next, s)
				cur = after
			}
		}
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			cur.next = append(cur.next, cont)
		case *ssa.If:
			br := g.node("branch")
			br.cond, br.fr, br.pos = last.Cond, fr, last.Cond.Pos()
			for _, l := range loops {
				if l.body[b] && (!l.body[b.Succs[0]] || !l.body[b.Succs[1]]) {
					br.l = l
				}
			}
			cur.next = append(cur.next, br)
			cur = br
		}
		for _, s := range b.Succs {
			at := cur
			for _, l := range loops {
				if l.body[b] && !l.body[s] {
					x := g.node("exit")
					x.l, x.coll, x.maps = l, "", false
					x.coll, x.maps = g.collOf(f, l, fr)
					at.next = append(at.next, x)
					at = x
				}
			}
			for _, l := range loops {
				if l.header == s && !l.body[b] {
					x := g.node("enter")
					x.l = l
					x.pos = l.header.Instrs[0].Pos()
					x.coll, x.maps = g.collOf(f, l, fr)
					at.next = append(at.next, x)
					at = x
				}
			}
			at.next = append(at.next, entry[s])
			if at == cur && b.Instrs[len(b.Instrs)-1] != nil {
				continue
			}
		}
	}
	return entry[f.Blocks[0]]
}

// collOf names the collection a loop runs over.
func (g *keyGraph) collOf(f *ssa.Function, l *loop, fr *kframe) (string, bool) {
	for _, b := range f.Blocks {
		if !l.body[b] || g.w.innermost(f, b) != l {
			continue
		}
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					_, isMap := rg.X.Type().Underlying().(*types.Map)
					return g.nm(rg.X, fr, 0), isMap
				}
			}
		}
	}
	if t := tripCount(l); t != nil && isLenCall(t.bound) {
		a := lenArg(t.bound)
		n := g.nm(a, fr, 0)
		if strings.HasPrefix(n, "keys(") {
			sorted := g.sortedBefore(f, a, l)
			return strings.TrimSuffix(strings.TrimPrefix(n, "keys("), ")"), !sorted
		}
		return n, false
	}
	return "", false
}

// sortedBefore: the slice is sorted before the loop on every path.
func (g *keyGraph) sortedBefore(f *ssa.Function, v ssa.Value, l *loop) bool {
	if c, ok := v.(*ssa.Call); ok && strings.HasPrefix(calleeName(c), "slices.Sorted") {
		return true
	}
	ok := false
	eachInstr(f, func(in ssa.Instruction) {
		c, isC := in.(*ssa.Call)
		if !isC || len(c.Call.Args) == 0 {
			return
		}
		n := calleeName(c)
		if !(strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "sort.")) {
			return
		}
		a := c.Call.Args[0]
		if mi, isM := a.(*ssa.MakeInterface); isM {
			a = mi.X
		}
		if ct, isM := a.(*ssa.ChangeType); isM {
			a = ct.X
		}
		if (a == v || g.w.canon(a) == g.w.canon(v)) && c.Block().Dominates(l.header) {
			ok = true
		}
	})
	return ok
}

func (g *keyGraph) keyCall(ci ssa.CallInstruction) bool {
	for _, h := range g.w.Callees(ci) {
		if g.keyFn[h] {
			return true
		}
	}
	return false
}

// feeds: h may write to a sink (a hash or buffer it captured or was given), or composes bytes for one.
func (g *keyGraph) feeds(h *ssa.Function, fr *kframe) bool {
	for _, x := range g.w.reach(h) {
		found := false
		eachInstr(x, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, _, ok := sinkWrite(ci); ok {
					found = true
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}

// sinkWrite: the call writes bytes to a hash, buffer or builder: the written value and how.
func sinkWrite(ci ssa.CallInstruction) (ssa.Value, string, bool) {
	com := ci.Common()
	n := calleeName(ci)
	isSink := func(t types.Type) bool {
		s := types.TypeString(t, nil)
		return s == "hash.Hash" || s == "hash.Hash64" || s == "hash.Hash32" || s == "*bytes.Buffer" || s == "*strings.Builder" || s == "io.Writer"
	}
	if com.IsInvoke() {
		if com.Method.Name() == "Write" && isSink(com.Value.Type()) {
			return com.Args[0], "", true
		}
		return nil, "", false
	}
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(io.Writer).", "(hash.Hash)."} {
		if strings.HasPrefix(n, p) {
			switch m := strings.TrimPrefix(n, p); m {
			case "Write", "WriteString", "WriteByte", "WriteRune":
				return com.Args[len(com.Args)-1], m, true
			}
			return nil, "", false
		}
	}
	switch n {
	case "io.WriteString":
		return com.Args[1], "WriteString", true
	case "fmt.Fprintf":
		return nil, "fprintf", true
	case "encoding/binary.Write":
		return com.Args[2], "binary", true
	}
	return nil, "", false
}

// tokensOf: the tokens a call contributes; nil when it contributes none itself.
func (g *keyGraph) tokensOf(ci ssa.CallInstruction, fr *kframe) []*tnode {
	if v, how, ok := sinkWrite(ci); ok {
		switch how {
		case "fprintf":
			return g.format(ci.Common().Args[1], ci.Common().Args[2], fr)
		case "binary":
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			return []*tnode{g.number(v, fr, "L", "F")}
		case "WriteByte", "WriteRune":
			if k, ok := constInt(v); ok {
				return []*tnode{g.tok("C", "", string(rune(k)))}
			}
			return []*tnode{g.tok("F", g.nm(v, fr, 0), "")}
		}
		return g.bytes(v, ci, fr, 0)
	}
	call, ok := ci.(*ssa.Call)
	if !ok {
		return nil
	}
	if fr.up == nil && (isDigest(ci) || g.keyCall(ci)) && !ci.Common().IsInvoke() && g.returned(call) {
		args := ci.Common().Args
		if len(args) == 0 {
			return nil
		}
		a := args[len(args)-1]
		if h := ci.Common().StaticCallee(); h != nil && g.keyFn[h] {
			for i, p := range h.Params { // the composed text
				if isText(p.Type()) || isBytes(p.Type()) {
					a = args[i]
				}
			}
		}
		return g.bytes(a, ci, fr, 0)
	}
	return nil
}

// returned: the result of the call becomes the result of the function (and is no part of a composition).
func (g *keyGraph) returned(c *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var ret func(v ssa.Value) bool
	ret = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Return:
				return true
			case *ssa.Convert:
				if ret(r) {
					return true
				}
			case *ssa.Slice:
				if ret(r) {
					return true
				}
			case *ssa.Phi:
				if ret(r) {
					return true
				}
			case *ssa.UnOp:
				if ret(r) {
					return true
				}
			case *ssa.Store:
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v && ret(al) {
					return true
				}
			}
		}
		return false
	}
	return ret(c)
}

func (g *keyGraph) tok(kind, name, text string) *tnode {
	n := g.node("tok")
	n.tok, n.name, n.text = kind, name, text
	return n
}

// number: a number as text or bytes; the length of something is a length token.
func (g *keyGraph) number(v ssa.Value, fr *kframe, ifLen, other string) *tnode {
	x := v
	for {
		if c, ok := x.(*ssa.Convert); ok {
			x = c.X
			continue
		}
		if p, ok := x.(*ssa.Parameter); ok {
			if kv, ok := fr.args[p]; ok {
				x, fr = kv.v, kv.fr
				continue
			}
		}
		break
	}
	if isLenCall(x) {
		return g.tok(ifLen, g.nm(lenArg(x), fr, 0), "")
	}
	return g.tok(other, g.nm(x, fr, 0), "")
}

// bytes: the tokens of a byte or string expression.
func (g *keyGraph) bytes(v ssa.Value, at ssa.Instruction, fr *kframe, d int) []*tnode {
	if d > 20 {
		return []*tnode{g.tok("V", fmt.Sprintf("@%p", v), "")}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok {
			if s == "" {
				return []*tnode{}
			}
			return []*tnode{g.tok("C", "", s)}
		}
		return []*tnode{}
	case *ssa.Convert:
		return g.bytes(x.X, at, fr, d+1)
	case *ssa.ChangeType:
		return g.bytes(x.X, at, fr, d+1)
	case *ssa.MakeInterface:
		return g.bytes(x.X, at, fr, d+1)
	case *ssa.MakeSlice:
		if k, ok := constInt(x.Len); ok && k == 0 {
			return []*tnode{}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isText(x.Type()) {
			return append(g.bytes(x.X, at, fr, d+1), g.bytes(x.Y, at, fr, d+1)...)
		}
	case *ssa.Parameter:
		if kv, ok := fr.args[x]; ok {
			return g.bytes(kv.v, at, kv.fr, d+1)
		}
	case *ssa.Slice:
		root := g.w.cellRoot(x.X)
		if al, ok := root.(*ssa.Alloc); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				if s, ok := constArray(al, int(arr.Len())); ok {
					return []*tnode{g.tok("C", "", s)}
				}
				if num := g.lastPut(al, at, x, fr); num != nil {
					return []*tnode{num}
				}
				return []*tnode{g.tok("F", fmt.Sprintf("@%p", al), "")}
			}
		}
		if k, ok := constInt(x.High); x.High != nil && ok && k == 0 {
			return []*tnode{}
		}
		if x.Low == nil && x.High == nil {
			return g.bytes(x.X, at, fr, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ss := g.w.storesTo(x.X); len(ss) == 1 {
				return g.bytes(ss[0].Val, at, fr, d+1)
			}
		}
	case *ssa.Call:
		n := calleeName(x)
		switch n {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
			return []*tnode{}
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
			return []*tnode{g.number(x.Call.Args[0], fr, "D", "N")}
		case "strconv.Quote":
			return []*tnode{g.tok("F", g.nm(x.Call.Args[0], fr, 0), "")}
		case "fmt.Sprintf":
			return g.format(x.Call.Args[0], x.Call.Args[1], fr)
		case "strconv.AppendInt", "strconv.AppendUint":
			return append(g.bytes(x.Call.Args[0], at, fr, d+1), g.number(x.Call.Args[1], fr, "D", "N"))
		case "encoding/binary.AppendUvarint", "encoding/binary.AppendVarint":
			return append(g.bytes(x.Call.Args[0], at, fr, d+1), g.number(x.Call.Args[1], fr, "L", "F"))
		case "strings.Join":
			return []*tnode{g.tok("V", "join", "")}
		}
		if strings.HasSuffix(n, "Endian).AppendUint64") || strings.HasSuffix(n, "Endian).AppendUint32") || strings.HasSuffix(n, "Endian).AppendUint16") {
			return append(g.bytes(x.Call.Args[1], at, fr, d+1), g.number(x.Call.Args[2], fr, "L", "F"))
		}
		if isAppend(x) {
			out := g.bytes(x.Call.Args[0], at, fr, d+1)
			// append(buf, b...) or append(buf, 'c')
			if isText(x.Call.Args[1].Type()) || isBytes(x.Call.Args[1].Type()) {
				return append(out, g.bytes(x.Call.Args[1], x, fr, d+1)...)
			}
		}
		for _, h := range g.w.Callees(x) {
			if g.keyFn[h] {
				nm := h.Name()
				for _, a := range x.Call.Args {
					nm += " " + g.nm(a, fr, 0)
				}
				return []*tnode{g.tok("V", nm, "")}
			}
			// a helper that composes
			if g.w.own(h) && len(h.Blocks) == 1 && d < 10 {
				if r, ok := h.Blocks[0].Instrs[len(h.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					nf := &kframe{f: h, args: map[*ssa.Parameter]kval{}, up: fr}
					for i, p := range h.Params {
						if a := argFor(x, h, i); a != nil {
							nf.args[p] = kval{a, fr}
						}
					}
					return g.bytes(r.Results[0], r, nf, d+1)
				}
			}
		}
	case *ssa.Phi:
		// bytes collected over a loop or on alternative paths: appended pieces must each be self-delimiting
		return []*tnode{g.tok("V", fmt.Sprintf("phi@%p", x), "")}
	}
	return []*tnode{g.tok("V", g.nm(v, fr, 0), "")}
}

// constArray: the array literal's constant bytes.
func constArray(al *ssa.Alloc, n int) (string, bool) {
	buf := make([]byte, n)
	got := 0
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			i, ok := constInt(ia.Index)
			if !ok || i < 0 || int(i) >= n {
				return "", false
			}
			for _, s := range *ia.Referrers() {
				st, ok := s.(*ssa.Store)
				if !ok {
					return "", false
				}
				k, ok := constInt(st.Val)
				if !ok {
					return "", false
				}
				buf[i] = byte(k)
				got++
			}
		}
	}
	return string(buf), got == n
}

// lastPut: the number put into the array last before the instruction.
func (g *keyGraph) lastPut(al *ssa.Alloc, at ssa.Instruction, use *ssa.Slice, fr *kframe) *tnode {
	b := use.Block()
	i := instrIndex(use)
	for n := 0; n < 8; n++ {
		for i--; i >= 0; i-- {
			c, ok := b.Instrs[i].(*ssa.Call)
			if !ok || !strings.Contains(calleeName(c), "Endian).PutUint") {
				continue
			}
			args := c.Call.Args
			sl, ok := args[len(args)-2].(*ssa.Slice)
			if !ok || g.w.cellRoot(sl.X) != ssa.Value(al) {
				continue
			}
			return g.number(args[len(args)-1], fr, "L", "F")
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		i = len(b.Instrs)
	}
	return nil
}

func (g *keyGraph) format(fs, args ssa.Value, fr *kframe) []*tnode {
	s, ok := constString(fs)
	if !ok {
		return []*tnode{g.tok("V", "format", "")}
	}
	k := newWalk(g.w, nil)
	vals, ok := k.varargs(args)
	if !ok {
		return []*tnode{g.tok("V", "format", "")}
	}
	out := []*tnode{}
	lit := ""
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' || i+1 >= len(s) {
			lit += s[i : i+1]
			continue
		}
		i++
		if s[i] == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			out = append(out, g.tok("C", "", lit))
			lit = ""
		}
		if n >= len(vals) {
			break
		}
		v := vals[n]
		n++
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		switch {
		case s[i] == 'q':
			out = append(out, g.tok("F", g.nm(v, fr, 0), ""))
		case isInt(v.Type()):
			out = append(out, g.number(v, fr, "D", "N"))
		case isText(v.Type()) || isBytes(v.Type()):
			out = append(out, g.bytes(v, nil, fr, 0)...)
		default:
			out = append(out, g.tok("V", g.nm(v, fr, 0), ""))
		}
	}
	if lit != "" {
		out = append(out, g.tok("C", "", lit))
	}
	return out
}

// nm names a value so that the same value gets the same name across the inlined functions.
func (g *keyGraph) nm(v ssa.Value, fr *kframe, d int) string {
	if v == nil {
		return ""
	}
	if d > 20 {
		return fmt.Sprintf("@%p", v)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Parameter:
		if fr != nil {
			if kv, ok := fr.args[x]; ok {
				return g.nm(kv.v, kv.fr, d+1)
			}
		}
		return fmt.Sprintf("%s#%d", x.Name(), paramIndex(x))
	case *ssa.Convert:
		return g.nm(x.X, fr, d+1)
	case *ssa.ChangeType:
		return g.nm(x.X, fr, d+1)
	case *ssa.MakeInterface:
		return g.nm(x.X, fr, d+1)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return g.nm(x.X, fr, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				_, f, _ := fieldName(a)
				return g.nm(a.X, fr, d+1) + "." + f
			case *ssa.IndexAddr:
				return g.nm(a.X, fr, d+1) + "[]"
			}
			if ss := g.w.storesTo(x.X); len(ss) == 1 {
				return g.nm(ss[0].Val, fr, d+1)
			}
			return fmt.Sprintf("*@%p", g.w.cellRoot(x.X))
		}
	case *ssa.IndexAddr:
		return g.nm(x.X, fr, d+1) + "[]"
	case *ssa.Alloc:
		if ss := g.w.storesTo(x); len(ss) == 1 {
			return g.nm(ss[0].Val, fr, d+1)
		}
	case *ssa.Field:
		_, f, _ := fieldName(x)
		return g.nm(x.X, fr, d+1) + "." + f
	case *ssa.Lookup:
		return g.nm(x.X, fr, d+1) + "[]"
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				if x.Index == 1 {
					return "keys(" + g.nm(rg.X, fr, d+1) + ")[]"
				}
				return g.nm(rg.X, fr, d+1) + "[]"
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return g.nm(lk, fr, d+1)
		}
		return g.nm(x.Tuple, fr, d+1) + fmt.Sprintf("/%d", x.Index)
	case *ssa.Call:
		n := calleeName(x)
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + g.nm(x.Call.Args[0], fr, d+1) + ")"
		}
		switch {
		case strings.HasPrefix(n, "slices.Sorted"), strings.HasPrefix(n, "slices.Collect"):
			return g.nm(x.Call.Args[0], fr, d+1)
		case strings.HasPrefix(n, "maps.Keys"), strings.Contains(n, "bulk.MapKeysSlice"):
			return "keys(" + g.nm(x.Call.Args[0], fr, d+1) + ")"
		}
		if len(x.Call.Args) == 1 {
			if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); isMap {
				if _, isSl := x.Type().Underlying().(*types.Slice); isSl {
					return "keys(" + g.nm(x.Call.Args[0], fr, d+1) + ")"
				}
			}
			return n + "(" + g.nm(x.Call.Args[0], fr, d+1) + ")"
		}
	case *ssa.Phi:
		// a slice collected from the keys of a map
		if _, isSl := x.Type().Underlying().(*types.Slice); isSl {
			for _, e := range x.Edges {
				if c, ok := e.(*ssa.Call); ok && isAppend(c) {
					if ev, ok := appended1(c); ok {
						n := g.nm(ev, fr, d+1)
						if strings.HasPrefix(n, "keys(") && strings.HasSuffix(n, ")[]") {
							return strings.TrimSuffix(n, "[]")
						}
					}
				}
			}
		}
	}
	return fmt.Sprintf("@%p", v)
}

// ---------- analysis of the graph ----------

func (g *keyGraph) all(start *tnode) []*tnode {
	seen := map[*tnode]bool{}
	var out []*tnode
	st := []*tnode{start}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		out = append(out, n)
		st = append(st, n.next...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// writes: the loop entered here writes tokens.
func (g *keyGraph) writes(n *tnode) bool {
	seen := map[*tnode]bool{}
	st := append([]*tnode{}, n.next...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x.kind == "exit" && x.l == n.l {
			continue
		}
		seen[x] = true
		if x.kind == "tok" || x.kind == "rec" {
			return true
		}
		if x.kind == "end" {
			continue
		}
		st = append(st, x.next...)
	}
	return false
}

func digitStart(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

// decodable explores the graph: "" when the token sequence can be taken apart in one way.
func (g *keyGraph) decodable(start *tnode) (string, token.Pos) {
	type state struct {
		n    *tnode
		pend string // what is pending: "" | L:x | D:x | N | V | E (an open list ended)
		open string // loops entered uncounted, innermost last: coll names
	}
	seen := map[state]bool{}
	st := []state{{start, "", ""}}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		n := s.n
		pend := s.pend
		open := s.open
		switch n.kind {
		case "end":
			continue
		case "tok":
			switch {
			case strings.HasPrefix(pend, "V"):
				return "bytes of varying length are followed by more without their length being written before them (" + strings.TrimPrefix(pend, "V ") + ")", n.pos
			case pend == "E":
				return "more follows after a list of varying length whose length is not written before it", n.pos
			case pend == "R":
				return "more follows after nested elements whose number is not written before them", n.pos
			case pend == "N" || strings.HasPrefix(pend, "D:"):
				if n.tok != "C" || digitStart(n.text) || n.text[0] == '-' {
					return "a number is followed by more without anything that ends it", n.pos
				}
			}
			switch n.tok {
			case "C":
				if strings.HasPrefix(pend, "D:") {
					pend = "L:" + pend[2:]
				} else {
					pend = ""
				}
			case "F":
				pend = ""
			case "L":
				pend = "L:" + n.name
			case "D":
				pend = "D:" + n.name
			case "N":
				pend = "N"
			case "V":
				if pend == "L:"+n.name {
					pend = ""
				} else {
					pend = "V " + n.name
				}
			}
		case "rec":
			switch {
			case strings.HasPrefix(pend, "V"), pend == "E", pend == "R":
				return "nested elements follow something whose end is not marked", n.pos
			case slices.ContainsFunc(n.args, func(a string) bool { return pend == "L:"+a }):
				pend = ""
			default:
				pend = "R"
			}
		case "enter":
			if !g.writes(n) {
				break
			}
			if n.coll != "" && pend == "L:"+n.coll {
				pend = ""
			} else {
				open += "|" + fmt.Sprintf("%p", n.l)
			}
		case "exit":
			tag := "|" + fmt.Sprintf("%p", n.l)
			if strings.Contains(open, tag) {
				open = strings.Replace(open, tag, "", 1)
				if pend == "" || strings.HasPrefix(pend, "L:") {
					pend = "E"
				}
			}
		case "branch":
			if n.l != nil {
				break // a loop test
			}
			if bad := g.ambiguous(n); bad != "" {
				return bad, n.pos
			}
		}
		for _, x := range n.next {
			st = append(st, state{x, pend, open})
		}
	}
	return "", token.NoPos
}

// first: the tokens that can come first from n on ("" + END for the end).
func (g *keyGraph) first(n *tnode) (map[string]bool, map[*tnode]bool) {
	out := map[string]bool{}
	nodes := map[*tnode]bool{}
	seen := map[*tnode]bool{}
	st := []*tnode{n}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		switch x.kind {
		case "tok", "rec", "end":
			nodes[x] = true
		}
		switch x.kind {
		case "tok":
			if x.tok == "C" {
				out["C"+x.text] = true
			} else {
				out[fmt.Sprintf("T%d", x.id)] = true
			}
			continue
		case "rec":
			out[fmt.Sprintf("T%d", x.id)] = true
			continue
		case "end":
			out["END"] = true
			continue
		}
		st = append(st, x.next...)
	}
	return out, nodes
}

// ambiguous: the two ways of a branch write different things which do not start with different marks.
func (g *keyGraph) ambiguous(n *tnode) string {
	if len(n.next) != 2 {
		return ""
	}
	a, na := g.first(n.next[0])
	b, nb := g.first(n.next[1])
	same := len(na) == len(nb)
	for x := range na {
		same = same && nb[x]
	}
	if same {
		return ""
	}
	if len(a) == 0 || len(b) == 0 {
		return "" // one way panics
	}
	// one way ends with no key of this sequence at all (an early return)
	if len(a) == 1 && a["END"] || len(b) == 1 && b["END"] {
		if g.nothingBefore(n) {
			return ""
		}
	}
	// decided by what has been written
	if c, ok := n.cond.(*ssa.BinOp); ok {
		for _, v := range []ssa.Value{c.X, c.Y} {
			if call, ok := v.(*ssa.Call); ok {
				switch calleeName(call) {
				case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
					return ""
				}
			}
			if isInductionVar(v) {
				return "" // the position in the list
			}
		}
	}
	width := -1
	for _, m := range []map[string]bool{a, b} {
		for t := range m {
			if !strings.HasPrefix(t, "C") {
				return "two ways of writing a value are not told apart by a mark"
			}
			if width >= 0 && len(t) != width {
				return "two ways of writing a value are not told apart by a mark of fixed width"
			}
			width = len(t)
		}
	}
	for t := range a {
		if b[t] {
			return "two ways of writing a value start with the same mark"
		}
	}
	return ""
}

func isInductionVar(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return isInt(x.Type())
	case *ssa.BinOp:
		return x.Op == token.ADD && isInt(x.Type()) && isInductionVar(x.X)
	}
	return false
}

// nothingBefore: no token can have been written when n is reached (the branch is in the outermost function
// before any token).
func (g *keyGraph) nothingBefore(n *tnode) bool { return n.fr != nil && n.fr.up == nil }

// complete: every field of the value is written on every path.
func (g *keyGraph) complete(c *Check, f *ssa.Function, start *tnode) {
	if len(f.Params) == 0 {
		return
	}
	w := g.w
	for i, p := range f.Params {
		t := p.Type()
		isRecv := i == 0 && f.Signature.Recv() != nil
		if n := isStructVal(deref(t)); n != nil && n.Obj().Pkg() == w.Lens.Pkg && isRecv {
			st := n.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				F := st.Field(j).Name()
				missed := g.misses(start, F, func(x *tnode) bool { return x.kind == "end" })
				c.Decide(!missed, "complete", FnName(f)+" "+F, w.Pos(f.Pos()), "the field may be left out of the key")
			}
			continue
		}
		elem := types.Type(nil)
		switch u := t.Underlying().(type) {
		case *types.Map:
			elem = u.Elem()
		case *types.Slice:
			elem = u.Elem()
		}
		if elem == nil {
			continue
		}
		n := isStructVal(deref(elem))
		if n == nil || n.Obj().Pkg() != w.Lens.Pkg {
			continue
		}
		_, isMap := t.Underlying().(*types.Map)
		loops := 0
		for _, e := range g.all(start) {
			if e.kind != "enter" || !g.writes(e) || e.coll != g.nm(p, &kframe{f: f}, 0) {
				continue
			}
			loops++
			st := n.Underlying().(*types.Struct)
			fields := []string{}
			for j := 0; j < st.NumFields(); j++ {
				if !isRecv {
					if b, ok := st.Field(j).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
						continue
					}
				}
				fields = append(fields, "."+st.Field(j).Name())
			}
			if isMap {
				fields = append(fields, "keys()")
			}
			for _, F := range fields {
				missed := g.missesIter(e, F)
				c.Decide(!missed, "complete", FnName(f)+" "+strings.TrimPrefix(F, "."), w.Pos(f.Pos()), "it may be left out of the key")
			}
		}
		c.Decide(loops > 0, "complete", FnName(f)+" elements", w.Pos(f.Pos()), "the elements do not go into the key")
	}
}

func mentions(x *tnode, F string) bool {
	if F == "keys()" {
		return x.kind == "tok" && x.tok == "V" && strings.HasPrefix(x.name, "keys(")
	}
	if x.kind == "tok" && x.tok == "L" || x.tok == "D" {
		return false
	}
	if x.kind != "tok" && x.kind != "rec" {
		return false
	}
	return slices.ContainsFunc(append([]string{x.name}, x.args...), func(nm string) bool {
		i := strings.Index(nm, F)
		if i < 0 {
			return false
		}
		rest := nm[i+len(F):]
		return rest == "" || !isIdentChar(rest[0])
	})
}

func isIdentChar(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// impliesEmpty: the edge says that field F is empty.
func (g *keyGraph) impliesEmpty(n *tnode, si int, F string) bool {
	if n.kind != "branch" {
		return false
	}
	cond, truth := n.cond, si == 0
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, truth = u.X, !truth
	}
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if _, isC := x.(*ssa.Const); isC {
		x, y, op = y, x, flip(op)
	}
	k, ok := y.(*ssa.Const)
	if !ok {
		return false
	}
	if !truth {
		op = negate(op)
	}
	if isLenCall(x) {
		nm := g.nm(lenArg(x), n.fr, 0)
		kk, ok := constInt(k)
		return ok && strings.HasSuffix(nm, F) && (kk == 0 && (op == token.EQL || op == token.LEQ) || kk == 1 && op == token.LSS)
	}
	nm := g.nm(x, n.fr, 0)
	if !strings.HasSuffix(nm, F) {
		// the whole object is nil
		return k.Value == nil && op == token.EQL && !strings.Contains(nm, ".")
	}
	if k.Value == nil {
		return op == token.EQL
	}
	if s, ok := constString(k); ok {
		return s == "" && op == token.EQL
	}
	return false
}

func (g *keyGraph) misses(start *tnode, F string, end func(*tnode) bool) bool {
	F = "." + F
	seen := map[*tnode]bool{}
	st := []*tnode{start}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if mentions(x, F) {
			continue
		}
		if end(x) {
			return true
		}
		for i, nx := range x.next {
			if g.impliesEmpty(x, i, F) {
				continue
			}
			st = append(st, nx)
		}
	}
	return false
}

// missesIter: one round of the loop can pass without writing F.
func (g *keyGraph) missesIter(e *tnode, F string) bool {
	if len(e.next) != 1 {
		return true
	}
	head := e.next[0]
	// the loop test: rounds begin at its inner successors
	var starts []*tnode
	seen := map[*tnode]bool{}
	var find func(x *tnode)
	find = func(x *tnode) {
		if seen[x] || x.kind == "exit" {
			return
		}
		seen[x] = true
		if x.kind == "branch" && x.l == e.l {
			for _, n := range x.next {
				if n.kind != "exit" {
					starts = append(starts, n)
				}
			}
			return
		}
		for _, n := range x.next {
			find(n)
		}
	}
	find(head)
	if len(starts) == 0 {
		return true
	}
	for _, s := range starts {
		vis := map[*tnode]bool{}
		st := []*tnode{s}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if vis[x] {
				continue
			}
			vis[x] = true
			if mentions(x, F) {
				continue
			}
			if x == head || x.kind == "exit" && x.l == e.l || x.kind == "end" {
				return true
			}
			for i, nx := range x.next {
				if g.impliesEmpty(x, i, F) {
					continue
				}
				st = append(st, nx)
			}
		}
	}
	return false
}
