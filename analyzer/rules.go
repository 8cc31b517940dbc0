package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Rule decides one property.
type Rule struct {
	id          string
	explanation string
	assumptions []string
	run         func(c *Ctx)
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.id] = r }

// Finding is one obligation that does not hold or could not be decided.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Message   string `json:"message"`
	Known     bool   `json:"known,omitempty"`
}

func (f Finding) key() string { return f.Rule + "|" + f.Construct }

// Ctx collects the obligations of one run.
type Ctx struct {
	p        *Program
	rule     *Rule
	tier     string
	findings []Finding
	seen     map[string]bool
	oks      map[string][]string // rule -> constructs discharged
	analysed map[string]bool
	notes    map[string]any
	open     []Finding // obligations in a form that the rule cannot decide
}

// undecided records an obligation that the code has in a form that the rule
// does not understand: neither discharged nor a violation.
func (c *Ctx) undecided(rule, construct, where, format string, a ...any) {
	f := Finding{Rule: rule, Construct: construct, Where: where, Message: fmt.Sprintf(format, a...)}
	k := "?" + f.key() + "|" + where
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.open = append(c.open, f)
}

func newCtx(p *Program, r *Rule, tier string) *Ctx {
	return &Ctx{p: p, rule: r, tier: tier, seen: map[string]bool{}, oks: map[string][]string{}, analysed: map[string]bool{}, notes: map[string]any{}}
}

// ok records a discharged obligation.
func (c *Ctx) ok(rule, construct string) { c.oks[rule] = append(c.oks[rule], construct) }

// bad records an obligation that is violated or undecided.
func (c *Ctx) bad(rule, construct, where, format string, a ...any) {
	f := Finding{Rule: rule, Construct: construct, Where: where, Message: fmt.Sprintf(format, a...)}
	k := f.key() + "|" + where
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, f)
}

// check records one obligation either way.
func (c *Ctx) check(good bool, rule, construct, where, format string, a ...any) bool {
	if good {
		c.ok(rule, construct)
	} else {
		c.bad(rule, construct, where, format, a...)
	}
	return good
}

// atLeast fails if a rule matched fewer instances than confirmed by hand.
func (c *Ctx) atLeast(rule string, n int) {
	got := len(c.oks[rule])
	for _, f := range c.findings {
		if f.Rule == rule {
			got++
		}
	}
	if got < n {
		c.undecided("coverage", rule, "-", "rule %s matched %d instances, at least %d are known to exist: its anchors are gone or unrecognised", rule, got, n)
	}
}

type known struct{ prop, key, text string }

func readKnown(file string) (ks []known) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=ID key=<<rule|construct>> text
		var k known
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "property=") {
				k.prop = strings.TrimPrefix(f, "property=")
			}
		}
		if i := strings.Index(l, "key=<<"); i >= 0 {
			if j := strings.Index(l[i:], ">>"); j >= 0 {
				k.key = l[i+6 : i+j]
				k.text = strings.TrimSpace(l[i+j+2:])
			}
		}
		ks = append(ks, k)
	}
	return ks
}

type runResult struct {
	c      *Ctx
	failed []Finding
	wall   float64
}

// decide runs the rule, turning every failure of the analysis into a finding.
func runRule(repo string, overlay map[string][]byte, id, tier string) *runResult {
	start := time.Now()
	r := rules[id]
	c := newCtx(nil, r, tier)
	func() {
		defer func() {
			if x := recover(); x != nil {
				c.undecided("analysis", "internal", "-", "the analysis failed: %v", x)
				if os.Getenv("AN_DEBUG") != "" {
					fmt.Printf("%v\n%s\n", x, debug.Stack())
				}
			}
		}()
		p, err := load(repo, overlay)
		if err != nil {
			c.bad("analysis", "load", "-", "the source does not type-check: %v", err)
			return
		}
		if p.effort = 1; tier == "thorough" {
			p.effort = 8 // larger limits for code that is undecided within the usual ones
		}
		c.p = p
		r.run(c)
	}()
	return &runResult{c: c, wall: time.Since(start).Seconds()}
}

func verifDir() string {
	exe, err := os.Executable()
	if err == nil {
		if d := filepath.Dir(filepath.Dir(exe)); d != "" {
			if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
				return d
			}
		}
	}
	return "/verif"
}

func runProperty(repo, id, tier string) int {
	r := rules[id]
	if r == nil {
		fmt.Printf("VIOLATION property=%s replay=-\nno rule for this property\n", id)
		return 1
	}
	vd := verifDir()
	res := runRule(repo, nil, id, tier)
	c := res.c
	ks := readKnown(filepath.Join(vd, "known_findings.txt"))
	var bad []Finding
	printed := map[string]bool{}
	for i := range c.findings {
		f := &c.findings[i]
		for _, k := range ks {
			if k.prop == id && k.key == f.key() {
				f.Known = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.key(), k.text)
				}
			}
		}
		if !f.Known {
			bad = append(bad, *f)
		}
	}
	obl, dis := len(c.findings), 0
	perRule := map[string]int{}
	var samples []string
	for _, k := range sortedKeys(c.oks) {
		perRule[k] = len(c.oks[k])
		dis += len(c.oks[k])
		for i, s := range c.oks[k] {
			if i < 3 {
				samples = append(samples, k+": "+s)
			}
		}
	}
	obl += dis
	cov := map[string]any{
		"explanation":          r.explanation,
		"obligations":          obl,
		"discharged":           dis,
		"obligations_per_rule": perRule,
		"functions_analysed":   sortedKeys(c.analysed),
		"function_count":       len(c.analysed),
		"samples":              samples,
	}
	cov["undecided"] = len(c.open)
	if len(c.open) > 0 {
		cov["undecided_obligations"] = c.open
	}
	if c.p != nil {
		cov["files_type_checked"] = c.p.files
		cov["functions_in_program"] = len(c.p.fns)
	}
	for k, v := range c.notes {
		cov[k] = v
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.assumptions, "wall_s": res.wall,
		"violations": len(bad),
	}
	if ev["assumptions"] == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	os.WriteFile(filepath.Join(vd, "evidence", id+".json"), append(b, '\n'), 0o644)
	for i, f := range c.open {
		if i < 20 {
			fmt.Printf("UNDECIDED property=%s %s: [%s] %s: %.300s\n", id, f.Where, f.Rule, f.Construct, f.Message)
		}
	}
	report := filepath.Join(vd, "evidence", id+".violations.txt")
	os.Remove(report)
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations in %d rules hold (%d functions, %.1fs)\n", id, dis, len(perRule), len(c.analysed), res.wall)
		return 0
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Where < bad[j].Where })
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Where, f.Rule, f.Construct, f.Message)
	}
	os.WriteFile(report, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	out := sb.String()
	if len(out) > 12000 {
		out = out[:12000] + "…\n"
	}
	fmt.Print(out)
	return 1
}
