package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation: the rule, the construct it is about (stable, no line numbers), and where.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Msg       string `json:"msg"`
	Known     bool   `json:"known,omitempty"`
}

// Check collects the obligations of one property.
type Check struct {
	W        *World
	ID       string
	Findings []Finding
	obls     map[string][]string // rule -> constructs discharged
	bad      map[string]int
	floors   map[string]int
	rules    map[string]string
	assume   []string
	extra    map[string]any
}

func newCheck(w *World, id string) *Check {
	return &Check{W: w, ID: id, obls: map[string][]string{}, bad: map[string]int{}, floors: map[string]int{},
		rules: map[string]string{}, extra: map[string]any{}}
}

// Rule declares a rule: its text and the least number of instances confirmed by reading the code.
func (c *Check) Rule(name, text string, floor int) {
	c.rules[name] = text
	c.floors[name] = floor
}

func (c *Check) Ok(rule, construct string) { c.obls[rule] = append(c.obls[rule], construct) }

func (c *Check) Bad(rule, construct, pos, format string, args ...any) {
	c.bad[rule]++
	c.Findings = append(c.Findings, Finding{Rule: rule, Construct: construct, Pos: pos, Msg: fmt.Sprintf(format, args...)})
}

func (c *Check) Assume(s string) { c.assume = append(c.assume, s) }

// Decide records the obligation as discharged when ok, as violated otherwise.
func (c *Check) Decide(ok bool, rule, construct, pos, format string, args ...any) {
	if ok {
		c.Ok(rule, construct)
	} else {
		c.Bad(rule, construct, pos, format, args...)
	}
}

func verifDir() string {
	if d := os.Getenv("LENSCHECK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type knownKey struct{ prop, rule, construct string }

func loadKnown() (map[knownKey]string, error) {
	out := map[knownKey]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if os.IsNotExist(err) {
		return out, nil
	} else if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=C01 rule=<rule> construct=<construct> :: text
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " :: ")
		var k knownKey
		for _, p := range []struct {
			n string
			d *string
		}{{"property=", &k.prop}, {"rule=", &k.rule}, {"construct=", &k.construct}} {
			i := strings.Index(head, p.n)
			if i < 0 {
				return nil, fmt.Errorf("bad known-findings line: %s", l)
			}
			rest := head[i+len(p.n):]
			if p.n != "construct=" {
				rest, _, _ = strings.Cut(rest, " ")
			}
			*p.d = strings.TrimSpace(rest)
		}
		out[k] = text
	}
	return out, sc.Err()
}

// Finish applies floors and known findings, writes the evidence, prints the verdict, returns the exit code.
func (c *Check) Finish(start time.Time, tier string) int {
	names := make([]string, 0, len(c.rules))
	for r := range c.rules {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		if n := len(c.obls[r]) + c.bad[r]; n < c.floors[r] {
			c.Bad(r, "coverage-floor", "-", "rule matched %d instances, fewer than the %d confirmed by reading: the construct it guards is gone or no longer recognised", n, c.floors[r])
		}
	}
	known, err := loadKnown()
	if err != nil {
		c.Bad("machinery", "known-findings", "-", "%v", err)
	}
	viol := 0
	sort.SliceStable(c.Findings, func(i, j int) bool {
		if c.Findings[i].Rule != c.Findings[j].Rule {
			return c.Findings[i].Rule < c.Findings[j].Rule
		}
		return c.Findings[i].Construct < c.Findings[j].Construct
	})
	for i := range c.Findings {
		f := &c.Findings[i]
		if txt, ok := known[knownKey{c.ID, f.Rule, f.Construct}]; ok {
			f.Known = true
			fmt.Printf("KNOWN-FINDING: property=%s [%s] %s: %s\n", c.ID, f.Rule, f.Construct, txt)
			continue
		}
		viol++
	}
	ev := c.evidence(start, tier, viol, names)
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
	}
	if viol == 0 {
		fmt.Printf("OK property=%s obligations=%d rules=%d wall=%.1fs\n", c.ID, c.total(), len(names), time.Since(start).Seconds())
		return 0
	}
	rep := filepath.Join(evDir, c.ID+".violations.json")
	b, _ = json.MarshalIndent(c.Findings, "", " ")
	_ = os.WriteFile(rep, append(b, '\n'), 0o644)
	for _, f := range c.Findings {
		if !f.Known {
			fmt.Printf("  %s [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
	return 1
}

func (c *Check) total() int {
	n := 0
	for _, o := range c.obls {
		n += len(o)
	}
	for _, b := range c.bad {
		n += b
	}
	return n
}

func (c *Check) evidence(start time.Time, tier string, viol int, names []string) map[string]any {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	perRule := []map[string]any{}
	for _, r := range names {
		cons := append([]string(nil), c.obls[r]...)
		sort.Strings(cons)
		perRule = append(perRule, map[string]any{"rule": r, "text": c.rules[r], "instances": len(c.obls[r]) + c.bad[r],
			"violated": c.bad[r], "floor": c.floors[r], "constructs": cons})
	}
	cov := map[string]any{
		"explanation": fmt.Sprintf("static analysis of the current tree of %s: %d packages of the repository (%d with dependencies) type-checked, %d functions in SSA form; %d rule instances decided by %d rules; every instance is listed under rules",
			repoDir(), len(c.W.Pkgs), c.W.NDeps, len(c.W.Fns), c.total(), len(names)),
		"obligations": c.total(),
		"discharged":  c.total() - len(c.Findings),
		"functions":   len(c.W.Fns),
		"rules":       perRule,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	return map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(start).Seconds(), "violations": viol}
}
