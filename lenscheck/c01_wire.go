package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkWire }

type endpointSide struct {
	fn  *ssa.Function
	pos token.Pos
}

// pathConsts collects string constants that look like URL paths in the backward slice of v.
func (w *World) pathConsts(v ssa.Value, seen map[ssa.Value]bool, depth int) []string {
	if v == nil || seen[v] || depth > 12 {
		return nil
	}
	seen[v] = true
	if s, ok := constString(v); ok {
		if strings.HasPrefix(s, "/") {
			return []string{s}
		}
		return nil
	}
	var out []string
	switch v := v.(type) {
	case *ssa.BinOp:
		out = append(out, w.pathConsts(v.X, seen, depth+1)...)
		out = append(out, w.pathConsts(v.Y, seen, depth+1)...)
	case *ssa.Phi:
		for _, e := range v.Edges {
			out = append(out, w.pathConsts(e, seen, depth+1)...)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			for _, s := range w.storesTo(v.X) {
				out = append(out, w.pathConsts(s.Val, seen, depth+1)...)
			}
		}
	case *ssa.Call:
		for _, a := range v.Call.Args {
			out = append(out, w.pathConsts(a, seen, depth+1)...)
		}
	case *ssa.MakeInterface:
		return w.pathConsts(v.X, seen, depth+1)
	case *ssa.Slice:
		return w.pathConsts(v.X, seen, depth+1)
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						out = append(out, w.pathConsts(st.Val, seen, depth+1)...)
					}
				}
			}
		}
	case *ssa.FreeVar:
		if b := w.bindingOf(v); b != nil {
			return w.pathConsts(b, seen, depth+1)
		}
	}
	return out
}

// senders finds, per endpoint path, the outermost function that encodes a message and posts it there.
func (w *World) senders() map[string][]endpointSide {
	out := map[string][]endpointSide{}
	var up func(f *ssa.Function, ep ssa.Value, pos token.Pos, depth int)
	up = func(f *ssa.Function, ep ssa.Value, pos token.Pos, depth int) {
		if p, ok := ep.(*ssa.Parameter); ok && depth < 6 {
			idx := paramIndex(p)
			for _, c := range w.callersOf[f] {
				if a := argFor(c, f, idx); a != nil {
					up(c.Parent(), a, c.Pos(), depth+1)
				}
			}
			return
		}
		for _, path := range w.pathConsts(ep, map[ssa.Value]bool{}, 0) {
			out[path] = append(out[path], endpointSide{f, pos})
		}
	}
	for _, f := range w.Fns {
		if f.Pkg != w.Lens {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && calleeName(c) == "(*net/http.Client).Post" {
				up(f, c.Call.Args[1], c.Pos(), 0)
			}
		})
	}
	return out
}

// handlers finds, per registered path, the handler function.
func (w *World) handlers() map[string][]endpointSide {
	out := map[string][]endpointSide{}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch calleeName(c) {
			case "(*net/http.ServeMux).HandleFunc", "(*net/http.ServeMux).Handle", "net/http.HandleFunc":
				args := c.Call.Args
				pathArg, hArg := args[len(args)-2], args[len(args)-1]
				for _, p := range w.pathConsts(pathArg, map[ssa.Value]bool{}, 0) {
					for _, h := range w.funcsOf(hArg, map[ssa.Value]bool{}) {
						out[p] = append(out[p], endpointSide{h, c.Pos()})
					}
				}
			}
		})
	}
	return out
}

func checkWire(c *Check) {
	w := c.W
	c.Rule("endpoint-pairing", "every path the client posts to is registered by the server exactly once, and with exactly one sender", 4)
	c.Rule("message-grammar", "the sequence of primitive writes of each sender and the sequence of primitive reads of the handler registered for its path are the same language", 4)
	c.Rule("field-grammar", "the field encoder emits only values the field decoder accepts, tag by tag, with the same payload layout", 2)
	c.Rule("width", "no value is narrowed by the decoder below the width it had in the client", 6)
	c.Rule("frame-fields", "a stack-frame component is stored back into the component it was written from", 1)
	c.Rule("primitive-agreement", "each primitive uses the same byte order, width, and bit layout on both sides", 6)
	c.Rule("kind-preservation", "every variable kind is sent under a tag whose decoded Go type can represent every value of that kind", 26)
	c.Rule("counted-loops", "a sequence of items is preceded by exactly the number of items that follow; packed bits are taken from where they were placed", 8)
	c.Assume("I/O on the in-memory message buffer and on the request body succeeds on the paths compared; content of strings and maps is not compared")

	encF, decF := w.Func("(*lensMsgEncoder).streamField"), w.Func("(*lensReader).readField")
	if encF == nil || decF == nil {
		c.Bad("field-grammar", "anchors", "-", "field encoder or decoder not found (streamField=%v readField=%v)", encF != nil, decF != nil)
		return
	}
	memoE, memoD := map[*ssa.Function]string{}, map[*ssa.Function]string{}
	pairs := map[[2]*sym]bool{}

	// field codec
	ex := &wireX{w: w, side: encSide, field: encF, primC: memoE}
	en, err := ex.build(encF)
	if err != nil {
		c.Bad("field-grammar", "encoder", w.Pos(encF.Pos()), "%v", err)
		return
	}
	tagSet := map[int64]bool{}
	for _, s := range en.symbols() {
		if s.op == "BYTE" && !s.any {
			tagSet[s.val] = true
		}
	}
	var tags []int64
	for t := range tagSet {
		tags = append(tags, t)
	}
	sort.Slice(tags, func(i, j int) bool { return tags[i] < tags[j] })
	dx := &wireX{w: w, side: decSide, field: decF, tags: tags, primC: memoD}
	dn, err := dx.build(decF)
	if err != nil {
		c.Bad("field-grammar", "decoder", w.Pos(decF.Pos()), "%v", err)
		return
	}
	ok, word, pos := included(en, dn, pairs)
	c.Decide(ok, "field-grammar", "encoder within decoder", w.Pos(pos), "the client can emit %q, which the decoder does not accept", joinWord(word))
	ok, word, pos = included(dn, en, nil)
	c.Decide(ok, "field-grammar", "decoder within encoder", w.Pos(pos), "for tags the client emits, the decoder expects %q, which the client never sends", joinWord(word))

	// messages
	snd, hnd := w.senders(), w.handlers()
	paths := map[string]bool{}
	for p := range snd {
		paths[p] = true
	}
	for p := range hnd {
		paths[p] = true
	}
	var plist []string
	for p := range paths {
		plist = append(plist, p)
	}
	sort.Strings(plist)
	for _, p := range plist {
		s, h := snd[p], hnd[p]
		if len(s) == 0 || len(h) != 1 {
			at := "-"
			if len(s) > 0 {
				at = w.Pos(s[0].pos)
			} else if len(h) > 0 {
				at = w.Pos(h[0].pos)
			}
			c.Bad("endpoint-pairing", p, at, "%d sender(s) and %d handler(s) for this path", len(s), len(h))
			continue
		}
		c.Ok("endpoint-pairing", p)
		for _, sd := range s {
			key := p
			sx := &wireX{w: w, side: encSide, field: encF, primC: memoE, posted: true}
			sn, err := sx.build(sd.fn)
			if err != nil {
				c.Bad("message-grammar", key, w.Pos(sd.pos), "sender %s: %v", FnName(sd.fn), err)
				continue
			}
			hx := &wireX{w: w, side: decSide, field: decF, tags: tags, primC: memoD}
			hn, err := hx.build(h[0].fn)
			if err != nil {
				c.Bad("message-grammar", key, w.Pos(h[0].pos), "handler %s: %v", FnName(h[0].fn), err)
				continue
			}
			ok, word, pos := included(sn, hn, pairs)
			if !ok {
				c.Bad("message-grammar", key, w.Pos(pos), "client message %q is not what handler %s reads", joinWord(word), FnName(h[0].fn))
				continue
			}
			ok, word, pos = included(hn, sn, nil)
			c.Decide(ok, "message-grammar", key, w.Pos(pos), "handler %s reads %q, which sender %s never writes", FnName(h[0].fn), joinWord(word), FnName(sd.fn))
		}
	}

	// aligned transitions: widths and frame components
	wd, fl := map[string]string{}, map[string]string{}
	for pr := range pairs {
		e, d := pr[0], pr[1]
		if e.op == "FIELD" || e.op == "RAW" || e.op == "BYTE" {
			continue
		}
		ek := fmt.Sprintf("%s from %d-bit at %s", e.op, e.width, enclosing(w, e.pos))
		if d.width > 0 && e.width > d.width {
			wd[ek] = fmt.Sprintf("%s|written from a %d-bit value at %s, narrowed to %d bits when read at %s", w.Pos(d.pos), e.width, w.Pos(e.pos), d.width, w.Pos(d.pos))
		} else if _, bad := wd[ek]; !bad {
			wd[ek] = ""
		}
		if e.label != "" && d.label != "" {
			if e.label == d.label {
				fl[e.label] = ""
			} else if _, good := fl[e.label]; !good {
				fl[e.label] = fmt.Sprintf("%s|written from %s at %s, stored into %s at %s", w.Pos(d.pos), e.label, w.Pos(e.pos), d.label, w.Pos(d.pos))
			}
		}
	}
	emit := func(rule string, m map[string]string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if m[k] == "" {
				c.Ok(rule, k)
			} else {
				p, msg, _ := strings.Cut(m[k], "|")
				c.Bad(rule, k, p, "%s", msg)
			}
		}
	}
	emit("width", wd)
	emit("frame-fields", fl)

	checkPrimitives(c, memoE, memoD)
	checkKinds(c, encF, decF, memoE, memoD, tags)
	checkCountedLoops(c, encF, memoE, memoD)
	c.extra["tags_emitted"] = tags
	c.extra["encoder_states"] = len(en.edges)
	c.extra["decoder_states"] = len(dn.edges)
}

func enclosing(w *World, p token.Pos) string {
	for _, f := range w.Fns {
		if f.Syntax() != nil && f.Syntax().Pos() <= p && p <= f.Syntax().End() && f.Parent() == nil {
			return localName(f)
		}
	}
	return "?"
}

// primFeatures summarises what a primitive does to bits: byte order and width of fixed-size accesses, float bit
// conversions, shift distances and masks.
func primFeatures(w *World, f *ssa.Function, prim map[*ssa.Function]string, seen map[*ssa.Function]bool, out map[string]bool) {
	if seen[f] || len(f.Blocks) == 0 {
		return
	}
	seen[f] = true
	eachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Call:
			n := calleeName(in)
			if strings.Contains(n, "ittleEndian") {
				out["LE"] = true
			}
			if strings.Contains(n, "igEndian") {
				out["BE"] = true
			}
			for _, k := range []string{"Uint16", "Uint32", "Uint64"} {
				if strings.HasSuffix(n, k) && strings.Contains(n, "Endian") {
					out["w"+k] = true
				}
			}
			if strings.HasPrefix(n, "math.Float32") {
				out["f32bits"] = true
			}
			if strings.HasPrefix(n, "math.Float64") {
				out["f64bits"] = true
			}
			for _, g := range w.Callees(in) {
				if g.Pkg == w.Lens && (prim[g] == "" || prim[g] == "FIX64") {
					primFeatures(w, g, prim, seen, out)
				}
			}
		case *ssa.BinOp:
			if k, ok := constInt(in.Y); ok {
				switch in.Op {
				case token.SHR, token.SHL:
					out[fmt.Sprintf("shift%d", k)] = true
				case token.AND, token.OR:
					out[fmt.Sprintf("%s%#x", in.Op, k)] = true
				case token.ADD:
					if k == 7 {
						out["shift7"] = true
					}
				case token.GEQ, token.LSS:
					out[fmt.Sprintf("cmp%#x", k)] = true
				case token.GTR, token.LEQ:
					out[fmt.Sprintf("cmp%#x", k+1)] = true
				}
			}
		}
	})
}

func checkPrimitives(c *Check, memoE, memoD map[*ssa.Function]string) {
	w := c.W
	type side struct {
		f    *ssa.Function
		feat map[string]bool
	}
	collect := func(m map[*ssa.Function]string) map[string]side {
		out := map[string]side{}
		var fs []*ssa.Function
		for f := range m {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			if m[f] == "" {
				continue
			}
			ft := map[string]bool{}
			primFeatures(w, f, m, map[*ssa.Function]bool{}, ft)
			out[m[f]] = side{f, ft}
		}
		return out
	}
	e, d := collect(memoE), collect(memoD)
	for _, p := range []string{"BYTE", "VARINT", "SVARINT", "FIX64", "F32", "F64"} {
		es, eok := e[p]
		ds, dok := d[p]
		if !eok || !dok {
			c.Bad("primitive-agreement", p, "-", "primitive %s present on encoder side: %v, on decoder side: %v", p, eok, dok)
			continue
		}
		bad := ""
		need := func(s side, who string, fs ...string) {
			for _, f := range fs {
				if !s.feat[f] && bad == "" {
					bad = fmt.Sprintf("%s %s lacks %s (has %v)", who, FnName(s.f), f, keys(s.feat))
				}
			}
		}
		forbid := func(s side, who string, fs ...string) {
			for _, f := range fs {
				if s.feat[f] && bad == "" {
					bad = fmt.Sprintf("%s %s has unexpected %s", who, FnName(s.f), f)
				}
			}
		}
		order := func(wk string) {
			if usesBinaryPkg(es.feat) && usesBinaryPkg(ds.feat) {
				if es.feat["BE"] != ds.feat["BE"] || es.feat["LE"] != ds.feat["LE"] {
					bad = "byte order differs between encoder and decoder"
				}
				need(es, "encoder", wk)
				need(ds, "decoder", wk)
			}
		}
		switch p {
		case "VARINT":
			// 7 payload bits per byte, continuation bit 0x80; skipped for library implementations
			if len(es.feat) > 0 && len(ds.feat) > 0 {
				need(es, "encoder", "shift7", "|0x80", "cmp0x80")
				need(ds, "decoder", "shift7")
				if !ds.feat["&0x7f"] && !ds.feat["&^0x80"] {
					need(ds, "decoder", "&0x7f")
				}
				if !ds.feat["cmp0x80"] && !ds.feat["&0x80"] {
					need(ds, "decoder", "cmp0x80")
				}
				// ten 7-bit groups are needed for 64 bits: the shift may go up to 63
				for f := range ds.feat {
					var k int64
					if n, _ := fmt.Sscanf(f, "cmp0x%x", &k); n == 1 && k > 7 && k <= 63 && bad == "" {
						bad = fmt.Sprintf("decoder %s rejects shift distances of %d and above: the last group of a 64-bit value needs 63", FnName(ds.f), k)
					}
				}
			}
		case "SVARINT":
			need(es, "encoder", "shift1", "shift63")
		case "FIX64":
			order("wUint64")
			forbid(es, "encoder", "f64bits", "f32bits")
			forbid(ds, "decoder", "f64bits", "f32bits")
		case "F32":
			order("wUint32")
			if es.feat["f32bits"] != ds.feat["f32bits"] || es.feat["f64bits"] != ds.feat["f64bits"] {
				bad = "float bit conversion differs between encoder and decoder"
			}
		case "F64":
			order("wUint64")
			if es.feat["f32bits"] != ds.feat["f32bits"] || es.feat["f64bits"] != ds.feat["f64bits"] {
				bad = "float bit conversion differs between encoder and decoder"
			}
		}
		c.Decide(bad == "", "primitive-agreement", p, w.Pos(ds.f.Pos()), "%s", bad)
	}
}

func usesBinaryPkg(m map[string]bool) bool { return m["LE"] || m["BE"] }

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// kindValue finds the value a codec function dispatches on: compared with at least 6 distinct reflect.Kind constants.
func kindValue(f *ssa.Function) ssa.Value {
	cnt := map[ssa.Value]map[int64]bool{}
	eachInstr(f, func(in ssa.Instruction) {
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.EQL && isNamed(b.X.Type(), "reflect", "Kind") {
			if k, ok := constInt(b.Y); ok {
				if cnt[b.X] == nil {
					cnt[b.X] = map[int64]bool{}
				}
				cnt[b.X][k] = true
			}
		}
	})
	var best ssa.Value
	n := 5
	for v, s := range cnt {
		if len(s) > n || len(s) == n && best != nil && v.Name() < best.Name() {
			best, n = v, len(s)
		}
	}
	return best
}

// decodedTypes: Go types the decoder produces for a tag.
func decodedTypes(w *World, decF *ssa.Function, tag int64, memoD map[*ssa.Function]string) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var find func(f *ssa.Function)
	find = func(f *ssa.Function) {
		if seen[f] || f.Pkg != w.Lens || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		x := &wireX{w: w, side: decSide, primC: memoD, tags: []int64{tag}}
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			for _, g := range w.Callees(call) {
				if memoD[g] == "BYTE" && x.isTagRead(call) {
					iv := &winv{x: x, f: f, pinV: tagValue(call), pins: []int64{tag}}
					// blocks reachable with the tag pinned
					reach := map[*ssa.BasicBlock]bool{}
					var walk func(b *ssa.BasicBlock)
					walk = func(b *ssa.BasicBlock) {
						if reach[b] {
							return
						}
						reach[b] = true
						if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
							if v, known := iv.cond(ifi.Cond, b, 0, 0); known {
								if v {
									walk(b.Succs[0])
								} else {
									walk(b.Succs[1])
								}
								return
							}
						}
						for _, s := range b.Succs {
							walk(s)
						}
					}
					walk(call.Block())
					for b := range reach {
						for _, in := range b.Instrs {
							if mi, ok := in.(*ssa.MakeInterface); ok && !types.Implements(mi.X.Type(), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
								if it, ok := mi.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && usedAsResult(mi) {
									out[typeName(mi.X.Type())] = true
								}
							}
						}
					}
				}
				find(g)
			}
		})
	}
	find(decF)
	return out
}

func usedAsResult(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Phi:
			if usedAsResult(r) {
				return true
			}
		case *ssa.Store:
			if _, _, ok := fieldName(r.Addr); ok {
				return true
			}
			if _, ok := r.Addr.(*ssa.Alloc); ok {
				return true
			}
		}
	}
	return false
}

func checkKinds(c *Check, encF, decF *ssa.Function, memoE, memoD map[*ssa.Function]string, tags []int64) {
	w := c.W
	scalar := map[reflect.Kind][]string{
		reflect.Bool: {"bool"}, reflect.Int8: {"int8", "int16", "int32", "int64", "int"}, reflect.Int16: {"int16", "int32", "int64", "int"},
		reflect.Int32: {"int32", "int64", "int"}, reflect.Int: {"int64", "int"}, reflect.Int64: {"int64"},
		reflect.Uint8: {"uint8", "uint16", "uint32", "uint64", "uint"}, reflect.Uint16: {"uint16", "uint32", "uint64", "uint"}, reflect.Uint32: {"uint32", "uint64", "uint"},
		reflect.Uint: {"uint64", "uint"}, reflect.Uint64: {"uint64"}, reflect.Uintptr: {"uint64"},
		reflect.Float32: {"float32", "float64"}, reflect.Float64: {"float64"}, reflect.Complex64: {"complex64", "complex128"}, reflect.Complex128: {"complex128"},
		reflect.String: {"string"},
	}
	// the functions that dispatch on a kind, with the kind pinned in turn
	var disp []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Pkg != w.Lens || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		ioX := &wireX{w: w, side: encSide}
		if kindValue(f) != nil && ioX.performsIO(f, map[*ssa.Function]bool{}) {
			disp = append(disp, f)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if call, ok := in.(*ssa.Call); ok {
				for _, g := range w.Callees(call) {
					walk(g)
				}
			}
		})
	}
	walk(encF)
	isElem := func(v ssa.Value) bool { // kind of an element type rather than of the value itself
		if call, ok := v.(*ssa.Call); ok {
			if call.Call.IsInvoke() && call.Call.Method.Name() == "Kind" {
				if c2, ok := call.Call.Value.(*ssa.Call); ok && c2.Call.IsInvoke() && c2.Call.Method.Name() == "Elem" {
					return true
				}
			}
		}
		return false
	}
	var kinds []reflect.Kind
	for k := range scalar {
		kinds = append(kinds, k)
	}
	sort.Slice(kinds, func(i, j int) bool { return kinds[i] < kinds[j] })
	nd := 0
	for _, f := range disp {
		kv := kindValue(f)
		nd++
		elem := isElem(kv)
		// emission sites reached whatever the kind (nil, cycle and depth markers) say nothing about the kind
		common := map[string]bool{}
		for i := 0; i <= int(reflect.UnsafePointer); i++ {
			x := &wireX{w: w, side: encSide, field: encF, primC: memoE, kindV: kv, kind: int64(i)}
			n, err := x.build(f)
			if err != nil {
				continue
			}
			cur := map[string]bool{}
			for _, s := range n.symbols() {
				cur[s.site] = i == 0 || common[s.site]
			}
			common = cur
		}
		for _, k := range kinds {
			if elem && (k == reflect.Complex64 || k == reflect.Complex128) {
				continue
			}
			x := &wireX{w: w, side: encSide, field: encF, primC: memoE, kindV: kv, kind: int64(k)}
			n, err := x.build(f)
			key := fmt.Sprintf("%s kind=%s", map[bool]string{true: "element", false: "value"}[elem], k)
			if err != nil {
				c.Bad("kind-preservation", key, w.Pos(f.Pos()), "%v", err)
				continue
			}
			ts := map[int64]bool{}
			for _, s := range n.symbols() {
				if s.op == "BYTE" && !s.any && !common[s.site] {
					ts[s.val] = true
				}
			}
			bad := ""
			n2 := 0
			for t := range ts {
				if k == reflect.Bool && !elem && (t == 0 || t == 1) && len(ts) > 1 {
					continue // the payload byte of a bool, or its tag: checked by the grammar
				}
				n2++
				dt := decodedTypes(w, decF, t, memoD)
				okT := len(dt) > 0
				for d := range dt {
					allowed := false
					for _, a := range scalar[k] {
						if !elem && d == a || elem && (d == "[]"+a || k == reflect.Uint8 && (d == "string" || d == "[]byte")) {
							allowed = true
						}
					}
					if !allowed {
						okT = false
					}
				}
				if !okT {
					bad = fmt.Sprintf("values of kind %s are sent under tag %#x, decoded as %v: not every value survives", k, t, keys(dt))
				}
			}
			if n2 == 0 && k != reflect.Bool {
				bad = "no tag is emitted for this kind"
			}
			c.Decide(bad == "", "kind-preservation", key, w.Pos(f.Pos()), "%s", bad)
		}
	}
	if nd < 2 {
		c.Bad("kind-preservation", "dispatch", "-", "found %d functions dispatching on the kind of the value, expected the value and the element dispatch", nd)
	}
}
