package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkOptions }

// the documented options and the setting each one stands for
var optionField = map[string]string{
	"project": "ProjectDir", "module": "ModuleVersionFlag", "modules": "ModulesVersionFlag", "gomod": "UpdatedGoModFile",
	"gowork": "UpdatedGoWorkFile", "monitorport": "AstMonitorPort", "json": "ReportJsonFile", "charts": "ReportChartsFile",
	"fieldrecurse": "MaxFieldRecurse", "fieldlen": "MaxFieldLen", "cachemb": "CacheMB", "mutationscope": "MutationScope",
	"mutationset": "MutationMode", "mutationtests": "MutationTests", "tmpcopy": "TmpCopy", "timemultiplier": "TimeMultiplier",
}

// settings with a range: the least and the greatest value that can be worked with
var optionRange = map[string][2]int64{
	"AstMonitorPort": {1, 65535}, "MaxFieldRecurse": {1, 1 << 31}, "MaxFieldLen": {1, 1 << 31}, "CacheMB": {1, 1 << 31}, "TimeMultiplier": {1, 1 << 31},
}

func checkOptions(c *Check) {
	c.Rule("option-stored", "the value given for an option becomes the setting of that name, and no other", 8)
	c.Rule("range-checked", "a numeric setting outside its range is refused", 5)
	c.Rule("value-checked", "a setting with a fixed set of values is refused when it has another one, and every value the analysis asks for is in that set", 3)
	c.Rule("required-checked", "a missing project or update and contradicting update files are refused", 3)
	c.Rule("paths-checked", "every given file path is checked, whatever else is configured", 2)
	c.Rule("prepared-first", "the analysis uses the settings only after they were checked and accepted, which can happen only once", 2)
	c.Rule("setting-used", "where a setting takes effect it is that setting which is used", 5)
	w := c.W
	checkFlags(c)
	prep := w.Func("(*Config).Prepare")
	if prep == nil {
		for _, f := range w.Fns {
			if f.Name() == "Prepare" && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), ".Config") {
				prep = f
			}
		}
	}
	if prep == nil {
		c.Bad("prepared-first", "Prepare", "?", "the settings are not checked")
		return
	}
	o := &optCheck{c: c, w: w, prep: prep, scope: w.ownReach(prep, 3)}
	o.combos()
	o.once()
	o.uses()
}

// ---------- flags ----------

func checkFlags(c *Check) {
	w := c.W
	vars := map[ssa.Value]string{} // variables which options are put in
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			if x, ok := in.(*ssa.Call); ok {
				if n, ptr := flagName(x); n != "" && ptr != nil {
					vars[w.cellRoot(ptr)] = n
				}
			}
		})
	}
	stored := map[string]map[string]string{} // option -> field -> position
	found := map[string]string{}
	for _, f := range w.Fns {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "lens/cmd") {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Call:
				n, ptr := flagName(x)
				if n == "" {
					return
				}
				found[n] = w.Pos(x.Pos())
				if ptr != nil {
					if fld, ok := cfgField(ptr); ok {
						put(stored, n, fld, w.Pos(x.Pos()))
					}
				}
			case *ssa.Store:
				fld, ok := cfgField(x.Addr)
				if !ok {
					return
				}
				p := w.prov(x.Val, func(p *Prov) { p.local = true })
				if isParam(x.Val) {
					p = w.prov(x.Val, nil)
				}
				if b, isB := x.Val.(*ssa.UnOp); isB && b.Op == token.NOT {
					fld = "the opposite of " + fld
				} else if _, isB := x.Val.(*ssa.BinOp); isB {
					fld = "something made from " + fld
				}
				for v := range p.seen {
					if cl, ok := v.(*ssa.Call); ok {
						if n, ptr := flagName(cl); n != "" && ptr == nil {
							put(stored, n, fld, w.Pos(x.Pos()))
						}
					}
					if u, ok := v.(*ssa.UnOp); ok {
						v = u.X
					}
					if n := vars[w.cellRoot(v)]; n != "" {
						put(stored, n, fld, w.Pos(x.Pos()))
					}
				}
			}
		})
	}
	if len(found) > len(optionField)/2 { // written out one by one
		for n := range optionField {
			c.Decide(found[n] != "", "option-stored", "option "+n+" exists", "lens/cmd", "there is no option -%s any more", n)
		}
	}
	var names []string
	for n := range found {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want, ok := optionField[n]
		if !ok {
			continue
		}
		got := stored[n]
		if len(got) == 0 {
			c.Bad("option-stored", "option "+n, found[n], "the value given for -%s is not taken over into the settings", n)
			continue
		}
		bad, at := "", found[n]
		for fld, pos := range got {
			if fld != want {
				bad, at = fld, pos
			}
		}
		if bad == "" && got[want] == "" {
			bad = "nothing"
		}
		c.Decide(bad == "", "option-stored", "option "+n, at, "the value given for -%s becomes %s instead of %s", n, bad, want)
	}
}

func put(m map[string]map[string]string, a, b, pos string) {
	if m[a] == nil {
		m[a] = map[string]string{}
	}
	m[a][b] = pos
}

// flagName: the option a call of package flag defines, and the variable it is put in (for the ...Var forms).
func flagName(c *ssa.Call) (string, ssa.Value) {
	n := calleeName(c)
	i := strings.LastIndex(n, ".")
	if i < 0 || !(strings.HasPrefix(n, "flag.") || strings.HasPrefix(n, "(*flag.FlagSet).")) {
		return "", nil
	}
	args := c.Call.Args
	if strings.HasPrefix(n, "(*flag.FlagSet).") {
		args = args[1:]
	}
	switch n[i+1:] {
	case "String", "Int", "Bool", "Int64", "Uint", "Duration", "Float64":
		if s, ok := constString(args[0]); ok {
			return s, nil
		}
	case "StringVar", "IntVar", "BoolVar":
		if s, ok := constString(args[1]); ok {
			return s, args[0]
		}
	}
	return "", nil
}

// ---------- Prepare ----------

type optCheck struct {
	c     *Check
	w     *World
	prep  *ssa.Function
	scope map[*ssa.Function]bool
	fails string
}

func (o *optCheck) fns() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range o.w.Fns {
		if o.scope[f] && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// settings: the fields of Config a value is made from, as seen from the checks (not from what others store there).
func (o *optCheck) settings(v ssa.Value) map[string]bool {
	fields, _, _ := o.w.pathLeaves(v)
	return fields
}

type rangeTest struct {
	field string
	low   bool
	bound int64
	known bool
	fails bool
	pos   token.Pos
}

func isStringCmp(b *ssa.BinOp) bool { return isString(b.X.Type()) }

// behind: the settings a condition is made from, including those which decide the parts of it.
func (o *optCheck) behind(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if seen[v] || d > 12 {
			return
		}
		seen[v] = true
		for n := range o.settings(v) {
			out[n] = true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				rec(e, d+1)
				p := x.Block().Preds[i]
				for k := 0; k < 4; k++ {
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
						rec(iff.Cond, d+1)
					}
					if len(p.Preds) != 1 {
						break
					}
					p = p.Preds[0]
				}
			}
		case *ssa.BinOp:
			rec(x.X, d+1)
			rec(x.Y, d+1)
		case *ssa.UnOp:
			rec(x.X, d+1)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				rec(a, d+1)
			}
		}
	}
	rec(v, 0)
	return out
}

func optionSetting(n string) bool {
	for _, f := range optionField {
		if f == n {
			return true
		}
	}
	return false
}

// once: Run checks the settings before it uses any, and a second check is refused.
func (o *optCheck) once() {
	w := o.w
	for _, ci := range w.callersOf[o.prep] {
		f := ci.Parent()
		if o.scope[f] {
			continue
		}
		call, ok := ci.(*ssa.Call)
		if !ok {
			o.c.Bad("prepared-first", localName(f), w.Pos(ci.Pos()), "the settings are not checked before they are used")
			continue
		}
		bad := token.NoPos
		eachInstr(f, func(in ssa.Instruction) {
			u, isU := in.(*ssa.UnOp)
			if !isU || u.Op != token.MUL {
				return
			}
			if _, isF := cfgField(u.X); !isF {
				return
			}
			if !(call.Block() == u.Block() && before(call, u) || call.Block() != u.Block() && call.Block().Dominates(u.Block())) {
				bad = u.Pos()
			}
		})
		o.c.Decide(bad == token.NoPos, "prepared-first", localName(f), w.Pos(bad), "a setting is used before the settings were checked")
	}
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func (o *optCheck) boolSettings(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		v = u.X
	}
	if fld, ok := cfgField(v); ok {
		if b, isB := v.Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
			out[fld] = true
		}
	}
	return out
}

// ---------- where settings take effect ----------

func (o *optCheck) uses() {
	w, c := o.w, o.c
	exact := func(key string, v ssa.Value, want string, pos token.Pos) {
		fs := o.settings(v)
		var other []string
		for n := range fs {
			if n != want && optionSetting(n) {
				other = append(other, n)
			}
		}
		sort.Strings(other)
		switch {
		case len(other) > 0:
			c.Bad("setting-used", key, w.Pos(pos), "%s is used instead of %s", strings.Join(other, ", "), want)
		default:
			c.Decide(fs[want], "setting-used", key, w.Pos(pos), "%s has no influence here", want)
		}
	}
	guard := func(key string, b *ssa.BasicBlock, want string, pos token.Pos) {
		fs := map[string]bool{}
		for d := b.Idom(); d != nil; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || failsOnly(d.Succs[0]) || failsOnly(d.Succs[1]) {
				continue
			}
			around := false
			for _, s := range d.Succs {
				around = around || s == b || s.Dominates(b)
			}
			if !around {
				continue
			}
			if b, isB := iff.Cond.(*ssa.BinOp); isB && !isString(b.X.Type()) && !isBoolType(b.X.Type()) {
				continue // an error, a length, a loop
			}
			for n := range o.behind(iff.Cond) {
				fs[n] = true
			}
		}
		var other []string
		for n := range fs {
			if n != want && strings.HasPrefix(n, "Mutation") {
				other = append(other, n)
			}
		}
		sort.Strings(other)
		switch {
		case len(other) > 0 && !fs[want]:
			c.Bad("setting-used", key, w.Pos(pos), "%s decides this instead of %s", strings.Join(other, ", "), want)
		default:
			c.Decide(fs[want], "setting-used", key, w.Pos(pos), "%s does not decide this", want)
		}
	}
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if k, ok := constString(x.Key); ok {
					switch k {
					case "lensMonitorFieldMaxRecurse":
						exact("depth of recorded values", x.Value, "MaxFieldRecurse", x.Pos())
					case "lensMonitorFieldMaxLen":
						exact("length of recorded values", x.Value, "MaxFieldLen", x.Pos())
					}
				}
			case *ssa.Store:
				ow, fn, ok := fieldName(x.Addr)
				if !ok {
					return
				}
				switch {
				case fn == "Addr" && strings.HasSuffix(ow, "Server"):
					exact("address of the monitor", x.Val, "AstMonitorPort", x.Pos())
				case strings.HasSuffix(ow, "astServer") && fn == "maxFieldLen":
					exact("length of decoded values", x.Val, "MaxFieldLen", x.Pos())
				case strings.HasSuffix(ow, "DefaultStorageProvider") && fn == "CacheMB":
					exact("cache size", x.Val, "CacheMB", x.Pos())
				}
			case *ssa.Call:
				for _, g := range w.Callees(x) {
					switch localName(g) {
					case "buildExecSelectTestsScript", "buildExecAllTestsScript":
						sel := localName(g) == "buildExecSelectTestsScript"
						o.when(g.Name(), x, "MutationTests", map[string]bool{"full": !sel, "targeted": sel})
						guard("tests run per mutation: "+g.Name(), x.Block(), "MutationTests", x.Pos())
					}
					if g.Name() == "InsertFuncLines" && strings.HasPrefix(localName(f), "RunMutationTesting") {
						o.when("changed lines only", x, "MutationScope", map[string]bool{"function": false, "line": true, "area": true})
					}
					if localName(g) == "RunMutationTesting" {
						o.when("mutations of "+localName(f), x, "MutationScope", map[string]bool{"none": false, "function": true, "line": true, "area": true})
					}
					if g.Name() == "CompareTestResults" && len(g.Params) > 0 && w.Own[g.Pkg] {
						for i, p := range g.Params {
							if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
								if a := argFor(x, g, i); a != nil {
									exact("factor for slower tests in "+localName(f), a, "TimeMultiplier", x.Pos())
								}
							}
						}
					}
				}
				for _, a := range x.Call.Args {
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						if a != x.Call.Args[0] && holdsConst(a, "--disable") {
							o.when("disabled mutations", x, "MutationMode", map[string]bool{"full": false, "fast": true})
							guard("disabled mutations", x.Block(), "MutationMode", x.Pos())
						}
					}
				}
			}
		})
	}
}

// blockReaches: control can get from one block to the other.
func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isParam(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

// holdsConst: the list was written out with this string in it.
func holdsConst(v ssa.Value, want string) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok {
					if k, ok := constString(st.Val); ok && k == want {
						return true
					}
				}
			}
		}
	}
	return false
}
