package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkReport }

// providerCall: a call to a method of one of the engine's provider interfaces.
func (w *World) providerCall(ci ssa.CallInstruction) (string, bool) {
	com := ci.Common()
	if !com.IsInvoke() {
		return "", false
	}
	n := namedOf(com.Value.Type())
	if n == nil || n.Obj().Pkg() != w.Lens.Pkg {
		return "", false
	}
	eng := w.Type("AnalysisEngine")
	if eng == nil {
		return "", false
	}
	st := eng.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m := namedOf(st.Field(i).Type()); m != nil && m.Obj() == n.Obj() {
			return com.Method.Name(), true
		}
	}
	return "", false
}

// the stages of an analysis, in order
var stages = []string{"AnalyzeModuleChanges", "PerformCallerStaticAnalysis", "ProvideTests", "RunModuleUpdateAnalysis", "RunMutationTesting", "CompareTestResults"}

type figure struct {
	from     string // the stage that supplies it
	term     string
	optional bool // may also be absent although the stage is in the program
}

const (
	tChanged   = "AnalyzeModuleChanges#0"
	tCallers   = "PerformCallerStaticAnalysis#0"
	tTests     = "ProvideTests#0"
	tReports   = "CompareTestResults#2[]"
	tReachable = tCallers + "[].ChangeFunctions[].Function.FunctionIdent"
)

var figures = map[string]figure{
	"module.changed_modules[]":                             {"AnalyzeModuleChanges", tChanged + "{k}", false},
	"module.changed_module_count":                          {"AnalyzeModuleChanges", "len{" + tChanged + "{k}}", false},
	"module.changed_function_count":                        {"AnalyzeModuleChanges", "len{" + tChanged + "[][]}", false},
	"module.reachable_changed_functions[]":                 {"PerformCallerStaticAnalysis", tReachable, false},
	"module.reachable_changed_function_count":              {"PerformCallerStaticAnalysis", "len{" + tReachable + "}", false},
	"module.untracked_module_function_count":               {"RunModuleUpdateAnalysis", "RunModuleUpdateAnalysis#2", false},
	"validation.relevant_project_functions[]":              {"PerformCallerStaticAnalysis", tCallers + "[].Function.FunctionIdent", false},
	"validation.relevant_project_function_count":           {"PerformCallerStaticAnalysis", "len{" + tCallers + "[].Function.FunctionIdent}", false},
	"validation.relevant_test_functions[]":                 {"ProvideTests", tTests + "[].Function.FunctionIdent", false},
	"validation.relevant_test_function_count":              {"ProvideTests", "len{" + tTests + "[].Function.FunctionIdent}", false},
	"validation.project_field_check_point_count":           {"RunModuleUpdateAnalysis", "RunModuleUpdateAnalysis#0", false},
	"validation.module_change_hit_in_test_count":           {"RunModuleUpdateAnalysis", "RunModuleUpdateAnalysis#1", false},
	"validation.test_field_match_count":                    {"CompareTestResults", "CompareTestResults#0", false},
	"validation.test_field_diff_count":                     {"CompareTestResults", "CompareTestResults#1", false},
	"validation.mutation_count":                            {"RunMutationTesting", "RunMutationTesting#0.MutationCount", true},
	"validation.mutations_squashed":                        {"RunMutationTesting", "RunMutationTesting#0.SquashedCount", true},
	"validation.performance_changes[].test_function_ident": {"CompareTestResults", tReports + ".OriginalResult.TestFunction.FunctionIdent", true},
	"validation.performance_changes[].test_function_name":  {"CompareTestResults", tReports + ".OriginalResult.TestFunction.FunctionName", true},
	"validation.performance_changes[].caller_ident":        {"CompareTestResults", tReports + ".CallerTimeChanges{k}", true},
	"validation.performance_changes[].time_diff_ms":        {"CompareTestResults", "ms(" + tReports + ".CallerTimeChanges[].TimeDiff)", true},
	"validation.performance_changes[].pre_time_ms":         {"CompareTestResults", tReports + ".CallerTimeChanges[].PreTimeMs", true},
	"validation.performance_changes[].post_time_ms":        {"CompareTestResults", tReports + ".CallerTimeChanges[].PostTimeMs", true},
	"validation.test_details[].test_function_ident":        {"CompareTestResults", tReports + ".OriginalResult.TestFunction.FunctionIdent", true},
	"validation.test_details[].test_function_name":         {"CompareTestResults", tReports + ".OriginalResult.TestFunction.FunctionName", true},
	"validation.test_details[].baseline_failure":           {"CompareTestResults", tReports + ".OriginalResult.TestFailure", true},
	"validation.test_details[].pass_regression": {"CompareTestResults", "bool{" + tReports + ".OriginalResult.TestFailure; " + tReports +
		".PostUpdateResult.TestFailure}=0010", true},
	"validation.test_details[].diff_field_count":        {"CompareTestResults", tReports + ".DiffFieldCount", true},
	"validation.test_details[].module_change_hit_count": {"CompareTestResults", tReports + ".OriginalResult.ModuleChangesHit", true},
	"validation.test_details[].field_changes":           {"CompareTestResults", tReports + ".CallerFieldChanges", true},
}

// the phases whose duration is reported: begins after the first stage set, ends after the second
var durations = map[string][2]int{ // index of the last stage before the begin and before the end; -1: none
	"analysis_ms": {-1, 1}, "test_discovery_ms": {1, 2}, "field_check_ms": {2, 3}, "mutation_ms": {3, 4},
}

// what a bar chart with a given title shows: figures, "a-b" is a difference
var chartData = map[string][]string{
	"Module Change Impact":             {"module.reachable_changed_function_count", "module.changed_function_count-module.reachable_changed_function_count"},
	"Changed Module Function Coverage": {"validation.module_change_hit_in_test_count", "module.untracked_module_function_count", "module.reachable_changed_function_count-validation.module_change_hit_in_test_count-module.untracked_module_function_count"},
	"Field Stability":                  {"validation.test_field_match_count", "validation.test_field_diff_count"},
	"Mutations Squashed":               {"validation.mutations_squashed", "validation.mutation_count-validation.mutations_squashed"},
}

type reportCheck struct {
	c     *Check
	w     *World
	names map[*ssa.Function]map[string]bool
}

func (r *reportCheck) termer() *termer {
	w := r.w
	t := newTermer(w)
	t.leafCall = func(ci ssa.CallInstruction, cx *tctx) (string, bool) {
		if n, ok := w.providerCall(ci); ok && n != "WriteReportFiles" {
			return n, true
		}
		if calleeName(ci) == "time.Now" {
			return "now{" + strings.Join(r.before(ci, cx), " ") + "}", true
		}
		return "", false
	}
	t.leafVal = func(v ssa.Value, cx *tctx) (string, bool) {
		if types.TypeString(v.Type(), nil) == "[]*"+w.Lens.Pkg.Path()+".ModuleChange" {
			if _, isP := v.(*ssa.Parameter); !isP {
				return "modules", true
			}
		}
		return "", false
	}
	return t
}

// stagesIn: the stages a function may run.
func (r *reportCheck) stagesIn(f *ssa.Function) map[string]bool {
	if m, ok := r.names[f]; ok {
		return m
	}
	m := map[string]bool{}
	r.names[f] = m
	eachInstr(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			for n := range r.stagesOf(ci) {
				m[n] = true
			}
		}
	})
	return m
}

func (r *reportCheck) stagesOf(ci ssa.CallInstruction) map[string]bool {
	m := map[string]bool{}
	if n, ok := r.w.providerCall(ci); ok {
		if slices.Contains(stages, n) {
			m[n] = true
		}
		return m
	}
	for _, g := range r.w.Callees(ci) {
		if r.w.own(g) && len(g.Blocks) > 0 {
			for n := range r.stagesIn(g) {
				m[n] = true
			}
		}
	}
	return m
}

// before: the stages that may have run before the instruction, in order.
func (r *reportCheck) before(at ssa.Instruction, c *tctx) []string {
	got := map[string]bool{}
	for {
		f := at.Parent()
		eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(*ssa.Call); ok && in != at && mayPrecede(in, at) {
				for n := range r.stagesOf(ci) {
					got[n] = true
				}
			}
		})
		if c == nil || c.up == nil || c.site == nil || c.f != f {
			break
		}
		at, c = c.site, c.up
	}
	var out []string
	for _, s := range stages {
		if got[s] {
			out = append(out, s)
		}
	}
	return out
}

// mayPrecede: a can run before b in one execution of the function.
func mayPrecede(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

// tops: the frames in which f runs, from exported functions down.
func (t *termer) tops(f *ssa.Function, d int) []*tctx {
	cs := t.w.callersOf[f]
	if d > 5 || f.Object() != nil && f.Object().Exported() || len(cs) == 0 {
		return []*tctx{{f: f}}
	}
	var out []*tctx
	for _, ci := range cs {
		for _, up := range t.tops(ci.Parent(), d+1) {
			out = append(out, t.enter(ci, f, up))
		}
	}
	return out
}

func checkReport(c *Check) {
	w := c.W
	c.Rule("figure", "each figure of the report is the one computed for it by the stage responsible, at every place a report is written", 40)
	c.Rule("duration", "each reported duration is the time between the ends of the stages it is named after", 8)
	c.Rule("every-element", "what is collected into the report is collected for every element, on every path", 4)
	c.Rule("chart", "each chart shows the figures of the report it is titled after", 6)
	c.Rule("written", "the report that was built is what is written, to the file that was asked for", 2)
	c.Rule("stage-input", "each stage is given all that the stages before it found", 8)
	r := &reportCheck{c: c, w: w, names: map[*ssa.Function]map[string]bool{}}
	t := r.termer()
	sites := 0
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			n, ok := w.providerCall(ci)
			if !ok {
				return
			}
			if _, ok := stageInput[n]; ok {
				for _, top := range t.tops(f, 0) {
					r.input(t, ci, n, top)
				}
			}
			if n != "WriteReportFiles" {
				return
			}
			for _, top := range t.tops(f, 0) {
				sites++
				r.site(t, ci, top, sites)
			}
		})
	}
	c.Decide(sites > 0, "figure", "report", "-", "no report is written")
	r.elements(t)
	r.fromJSON()
}

// what a stage is given, by the type of the parameter (and its position among those of the type)
var stageInput = map[string]map[string][]string{
	"PerformCallerStaticAnalysis": {"[]*ModuleFunction": {tChanged + "[][]"}},
	"ProvideTests":                {"[]*CallerFunction": {tCallers + "[]"}},
	"RunModuleUpdateAnalysis": {"[]*CallerFunction": {tCallers + "[]"}, "[]*TestFunction": {tTests + "[]"}, "[]*ModuleChange": {"modules[]"},
		"ReachableModuleChange": {"PerformCallerStaticAnalysis#1[]"}},
	"RunMutationTesting":   {"[]*ModuleFunction": {tChanged + "[][]"}, "[]*TestFunction": {tTests + "[]"}},
	"CompareTestResults":   {"Storage": {"RunModuleUpdateAnalysis#3", "RunModuleUpdateAnalysis#4"}},
	"AnalyzeModuleChanges": {"[]*ModuleChange": {"modules[]"}},
}

func (r *reportCheck) input(t *termer, ci *ssa.Call, n string, top *tctx) {
	w := r.w
	rest := map[string][]string{}
	for ty, want := range stageInput[n] {
		rest[ty] = want
	}
	for _, a := range ci.Call.Args {
		ty := types.TypeString(a.Type(), func(*types.Package) string { return "" })
		want, ok := rest[ty]
		if !ok || len(want) == 0 {
			continue
		}
		rest[ty] = want[1:]
		var path []string
		if ty != "Storage" {
			path = []string{"[]"}
		}
		got := t.eval(a, top, path...)
		delete(got, "0")
		r.c.Decide(got.String() == want[0], "stage-input", n+" "+ty+fmt.Sprintf(" %d", len(want)), w.Pos(ci.Pos()), "it is given %s, expected %s", got, want[0])
	}
	for ty, left := range rest {
		if len(left) > 0 {
			r.c.Bad("stage-input", n+" "+ty, w.Pos(ci.Pos()), "it is not given %s", strings.Join(left, ", "))
		}
	}
}

func (r *reportCheck) site(t *termer, ci *ssa.Call, top *tctx, n int) {
	c, w := r.c, r.w
	done := r.before(ci, top)
	at := fmt.Sprintf("report after %d stages", len(done))
	if len(done) == len(stages) {
		at = "final report"
	}
	pos := w.Pos(ci.Pos())
	fig := map[string]terms{}
	var marshals int
	for _, g := range w.Callees(ci) {
		if !w.own(g) || len(g.Blocks) == 0 {
			continue
		}
		root := t.enter(ci, g, top)
		t.frames(root, func(x ssa.CallInstruction, cx *tctx) {
			if calleeName(x) != "encoding/json.Marshal" {
				return
			}
			a := x.Common().Args[0]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			if nm := namedOf(deref(a.Type())); nm == nil || nm.Obj().Name() != "ReportMetrics" {
				return
			}
			marshals++
			w.jsonFields(a.Type(), "", nil, func(name string, path []string) {
				fig[name] = t.eval(a, cx, path...)
			})
		})
		r.charts(r.termer(), root, fig, at)
		r.written(r.termer(), root, at, top)
	}
	if marshals == 0 {
		c.Bad("figure", at, pos, "the report is not built from ReportMetrics")
		return
	}
	last := ""
	if len(done) > 0 && len(done) < len(stages) {
		last = done[len(done)-1]
	}
	for _, name := range figNames(fig) {
		got := fig[name]
		if d, ok := durations[name]; ok {
			r.duration(at+" "+name, pos, got, d, done)
			continue
		}
		switch name {
		case "generated_at":
			c.Decide(got.String() == "now{}", "duration", at+" "+name, pos, "it is %s, not the time the analysis began", got)
			continue
		case "run_ms":
			ok := got.String() == "ms(time.Since(now{}))"
			for s := range got {
				if strings.HasPrefix(s, "ms((time.Time).Sub(now{") && strings.HasSuffix(s, ", now{}))") {
					ok = true
				}
			}
			c.Decide(ok, "duration", at+" "+name, pos, "it is %s, not the time since the analysis began", got)
			continue
		case "module.root_module_name", "module.root_module_start_version", "module.root_module_update_version":
			want := map[string]string{"module.root_module_name": ".Name", "module.root_module_start_version": ".PriorVersion", "module.root_module_update_version": ".NewVersion"}[name]
			ok := false
			for s := range got {
				if s == "0" || s == `""` {
					continue
				}
				if strings.HasPrefix(s, "modules[") && strings.HasSuffix(s, "]"+want) {
					ok = true
					continue
				}
				ok = false
				break
			}
			c.Decide(ok, "figure", at+" "+name, pos, "it comes from %s", got)
			continue
		case "validation.generated_test_function_count":
			c.Decide(got["0"] && len(got) <= 2, "figure", at+" "+name, pos, "it comes from %s", got)
			continue
		}
		f, ok := figures[name]
		if !ok {
			continue // a new figure
		}
		var good bool
		switch {
		case !slices.Contains(done, f.from):
			good = got.String() == "0" || got.String() == "bool{0}=00" || len(got) == 0
		case f.from == last && got.String() == "0":
			good = true // reported because there was none
		default:
			g := terms{}
			add(g, got)
			if f.optional {
				delete(g, "0")
			}
			good = g.String() == f.term
		}
		c.Decide(good, "figure", at+" "+name, pos, "it is %s; expected %s from %s", got, f.term, f.from)
	}
}

func figNames(m map[string]terms) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (r *reportCheck) duration(name, pos string, got terms, d [2]int, done []string) {
	stageAt := func(i int) []string { // the stages before the end of stage i
		var out []string
		for _, s := range done {
			if slices.Index(stages, s) <= i {
				out = append(out, s)
			}
		}
		return out
	}
	now := func(i int) string { return "now{" + strings.Join(stageAt(i), " ") + "}" }
	want := "ms((time.Time).Sub(" + now(d[1]) + ", " + now(d[0]) + "))"
	if d[0] >= 0 && !slices.Contains(done, stages[d[0]]) || d[0] >= 0 && !slices.Contains(done, stages[d[1]]) && d[1] != 4 {
		r.c.Decide(got.String() == "0", "duration", name, pos, "it is %s although its stage has not run", got)
		return
	}
	r.c.Decide(got.String() == want, "duration", name, pos, "it is %s, expected %s", got, want)
}

// charts: every bar chart drawn below root shows the figures its title names.
func (r *reportCheck) charts(t *termer, root *tctx, fig map[string]terms, at string) {
	c, w := r.c, r.w
	diff := func(a, b terms) terms {
		out := terms{}
		for x := range a {
			for y := range b {
				out["("+x+" - "+y+")"] = true
			}
		}
		return out
	}
	seen := map[string]int{}
	t.frames(root, func(x ssa.CallInstruction, cx *tctx) {
		r.chartTests(t, x, cx, fig, at)
		call, ok := x.(*ssa.Call)
		if !ok || !strings.HasSuffix(calleeName(x), "charts.NewBarChartOptionWithData") {
			return
		}
		title := chartTitle(call)
		want, ok := chartData[title]
		if !ok {
			return
		}
		seen[title]++
		for i, e := range want {
			var exp terms
			for j, part := range strings.Split(e, "-") {
				if j == 0 {
					exp = fig[part]
				} else {
					exp = diff(exp, fig[part])
				}
			}
			got := t.eval(call.Call.Args[0], cx, fmt.Sprintf("[%d]", i), "[0]")
			c.Decide(got.String() == exp.String(), "chart", fmt.Sprintf("%s %s %d, drawing %d", at, title, i, seen[title]), w.Pos(x.Pos()), "it shows %s, expected %s = %s", got, e, exp)
		}
	})
	for title := range chartData {
		if seen[title] == 0 {
			c.Bad("chart", at+" "+title, "-", "the chart is not drawn from bar data")
		}
	}
}

// the parts of a test's report the charts show, and the figure each must be
var chartTestParts = []struct {
	path []string
	fig  string
}{
	{[]string{"[]", ".OriginalResult", ".TestFunction", ".FunctionName"}, "validation.test_details[].test_function_name"},
	{[]string{"[]", ".OriginalResult", ".TestFailure"}, "validation.test_details[].baseline_failure"},
	{[]string{"[]", ".DiffFieldCount"}, "validation.test_details[].diff_field_count"},
	{[]string{"[]", ".CallerFieldChanges"}, "validation.test_details[].field_changes"},
	{[]string{"[]", ".CallerTimeChanges", "[]", ".PreTimeMs"}, "validation.performance_changes[].pre_time_ms"},
	{[]string{"[]", ".CallerTimeChanges", "[]", ".PostTimeMs"}, "validation.performance_changes[].post_time_ms"},
}

// chartTests: the test reports handed to the drawing of the charts are those of the report.
func (r *reportCheck) chartTests(t *termer, x ssa.CallInstruction, cx *tctx, fig map[string]terms, at string) {
	draws := false
	for _, g := range r.w.Callees(x) {
		eachInstr(g, func(in ssa.Instruction) {
			if ci, ok := in.(*ssa.Call); ok && strings.HasSuffix(calleeName(ci), "charts.NewBarChartOptionWithData") {
				draws = true
			}
		})
	}
	if !draws {
		return
	}
	for _, a := range x.Common().Args {
		sl, ok := a.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if nm := namedOf(sl.Elem()); nm == nil || nm.Obj().Name() != "TestReport" {
			continue
		}
		for _, p := range chartTestParts {
			got, exp := t.eval(a, cx, p.path...), fig[p.fig]
			g, e := terms{}, terms{}
			add(g, got)
			add(e, exp)
			delete(g, "0")
			delete(e, "0")
			r.c.Decide(g.String() == e.String(), "chart", at+" tests"+strings.Join(p.path, "")+" "+r.w.Pos(x.Pos()), r.w.Pos(x.Pos()),
				"the charts show %s, the report %s", g, e)
		}
	}
}

// chartTitle: the constant stored into Title.Text of the option the call creates.
func chartTitle(call *ssa.Call) string {
	title := ""
	for _, r := range *call.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok {
			continue
		}
		for _, q := range *s.Addr.Referrers() {
			fa, ok := q.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if _, f, _ := fieldName(fa); f != "Title" {
				continue
			}
			for _, q2 := range *fa.Referrers() {
				fb, ok := q2.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, f, _ := fieldName(fb); f != "Text" {
					continue
				}
				for _, q3 := range *fb.Referrers() {
					if st, ok := q3.(*ssa.Store); ok && st.Addr == fb {
						if k, ok := constString(st.Val); ok {
							title = k
						}
					}
				}
			}
		}
	}
	return title
}

// written: what is written to the report file is the encoded report; each file goes to its own path.
func (r *reportCheck) written(t *termer, root *tctx, at string, top *tctx) {
	c, w := r.c, r.w
	paths := map[string]bool{}
	t.frames(root, func(x ssa.CallInstruction, cx *tctx) {
		switch calleeName(x) {
		case "os.WriteFile", "os.Create", "os.OpenFile", "os.Rename":
			pi := 0
			if calleeName(x) == "os.Rename" {
				pi = 1
			}
			p := t.eval(x.Common().Args[pi], cx).String()
			for _, f := range []string{"ReportJsonFile", "ReportChartsFile"} {
				if !strings.Contains(p, "."+f) {
					continue
				}
				paths[f] = true
				if calleeName(x) != "os.WriteFile" {
					continue
				}
				d := t.eval(x.Common().Args[1], cx).String()
				ok := strings.Contains(d, "json.Marshal")
				if f == "ReportChartsFile" {
					ok = strings.Contains(d, "charts.Painter")
				}
				c.Decide(ok, "written", at+" "+f, w.Pos(x.Pos()), "%s is written to %s", short(d), p)
			}
		}
	})
	for _, f := range []string{"ReportJsonFile", "ReportChartsFile"} {
		if !paths[f] {
			c.Bad("written", at+" "+f, "-", "nothing is written to the configured file")
		}
	}
}

func short(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// elements: an operation that fills a collection of the report inside a loop runs in every round.
func (r *reportCheck) elements(t *termer) {
	w := r.w
	var ops []ssa.Instruction
	for op := range t.touched {
		ops = append(ops, op)
	}
	slices.SortFunc(ops, func(a, b ssa.Instruction) int { return int(a.Pos() - b.Pos()) })
	seen := map[string]bool{}
	for _, op := range ops {
		f := op.Parent()
		var target = op.Block()
		for l := w.innermost(f, target); l != nil; l = w.outer(f, l) {
			key := fmt.Sprintf("%p %p", l, target)
			if seen[key] {
				target = l.header
				continue
			}
			seen[key] = true
			bad := r.skips(l, target, w.sliceOf(op))
			r.c.Decide(bad == "", "every-element", FnName(f)+" "+w.Pos(l.header.Instrs[0].Pos()), w.Pos(op.Pos()), "%s", bad)
			target = l.header
		}
	}
}

// outer: the loop directly around l.
func (w *World) outer(f *ssa.Function, l *loop) *loop {
	var best *loop
	for _, o := range w.loops(f) {
		if o != l && o.body[l.header] && (best == nil || best.body[o.header]) && o.header != l.header {
			best = o
		}
	}
	return best
}

// skips: a round of the loop can end without passing target.
func (r *reportCheck) skips(l *loop, target *ssa.BasicBlock, uses map[string]bool) string {
	if target == l.header {
		return ""
	}
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && !failsOnly(s) {
				return "the loop is left before all elements are done"
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for _, s := range l.header.Succs {
		if l.body[s] {
			st = append(st, s)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || b == target || !l.body[b] {
			continue
		}
		if b == l.header {
			return "a round can pass without the element being collected"
		}
		seen[b] = true
		for i, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && r.w.emptinessEdge(iff.Cond, i == 0, uses) {
				continue
			}
			st = append(st, s)
		}
	}
	return ""
}

// sliceOf: the values an operation is computed from, by their canonical names.
func (w *World) sliceOf(op ssa.Instruction) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] || len(seen) > 600 {
			return
		}
		seen[v] = true
		out[w.canon(v)] = true
		if al, ok := v.(*ssa.Alloc); ok {
			var into func(a ssa.Value)
			into = func(a ssa.Value) {
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == a {
							visit(r.Val)
						}
					case *ssa.FieldAddr:
						into(r)
					case *ssa.IndexAddr:
						into(r)
					}
				}
			}
			into(al)
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		for _, o := range in.Operands(nil) {
			visit(*o)
		}
	}
	for _, o := range op.Operands(nil) {
		visit(*o)
	}
	return out
}

// emptinessEdge: taking this edge means that there is nothing to collect, because what would be collected comes from
// something found empty or nil, or is there already.
func (w *World) emptinessEdge(cond ssa.Value, truth bool, uses map[string]bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.emptinessEdge(x.X, !truth, uses)
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && lk.CommaOk && x.Index == 1 {
			return truth && uses[w.canon(lk.Index)] // already there
		}
	case *ssa.Lookup:
		if isBool(x.Type()) {
			return truth && uses[w.canon(x.Index)]
		}
	case *ssa.Call:
		if strings.HasPrefix(calleeName(x), "slices.Contains") && len(x.Call.Args) == 2 {
			return truth && uses[w.canon(x.Call.Args[1])]
		}
	case *ssa.BinOp:
		op, a, b := x.Op, x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b, op = b, a, flip(op)
		}
		if !truth {
			op = negate(op)
		}
		k, ok := b.(*ssa.Const)
		if !ok {
			return false
		}
		if isLenCall(a) {
			n, _ := constInt(k)
			return (n == 0 && (op == token.EQL || op == token.LEQ) || n == 1 && op == token.LSS) && uses[w.canon(a.(*ssa.Call).Call.Args[0])]
		}
		return k.Value == nil && op == token.EQL && uses[w.canon(a)]
	}
	return false
}

// fromJSON: charts rendered from a stored report show its figures.
func (r *reportCheck) fromJSON() {
	w := r.w
	for _, f := range w.Fns {
		if f.Pkg != w.Lens || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for _, p := range f.Params {
			nm := namedOf(deref(p.Type()))
			if nm == nil || nm.Obj().Name() != "ReportMetrics" {
				continue
			}
			t := r.termer()
			root := &tctx{f: f}
			fig := map[string]terms{}
			w.jsonFields(p.Type(), "", nil, func(name string, path []string) { fig[name] = t.eval(p, root, path...) })
			r.charts(t, root, fig, "charts of a stored report")
		}
	}
}

// jsonFields lists the leaves of the JSON encoding of a struct.
func (w *World) jsonFields(ty types.Type, name string, path []string, visit func(name string, path []string)) {
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		w.jsonFields(u.Elem(), name, path, visit)
		return
	case *types.Slice:
		w.jsonFields(u.Elem(), name+"[]", append(append([]string{}, path...), "[]"), visit)
		return
	case *types.Struct:
		if n := namedOf(ty); n == nil || n.Obj().Pkg() != w.Lens.Pkg {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			tag := jsonTag(u.Tag(i))
			if tag == "" {
				tag = u.Field(i).Name()
			}
			nn := tag
			if name != "" {
				nn = name + "." + tag
			}
			w.jsonFields(u.Field(i).Type(), nn, append(append([]string{}, path...), "."+u.Field(i).Name()), visit)
		}
		return
	}
	visit(name, path)
}

func jsonTag(tag string) string {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return ""
	}
	tag = tag[i+6:]
	tag = tag[:strings.Index(tag, `"`)]
	if j := strings.Index(tag, ","); j >= 0 {
		tag = tag[:j]
	}
	return tag
}
