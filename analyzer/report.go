package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one construct that breaks a rule.
type Violation struct {
	Rule   string   `json:"rule"`
	Where  string   `json:"where"`
	Func   string   `json:"func"`
	Detail string   `json:"detail"`
	Path   []string `json:"path,omitempty"`
	Key    string   `json:"key"`
}

// Report accumulates what one run analysed and found.
type Report struct {
	Prop        string
	Level       string
	Rules       map[string]string
	Counts      map[string]int
	Obligations int
	Discharged  int
	Samples     []string
	Viol        []Violation
	Assumptions []string
	Explanation string
	sampleSeen  map[string]int
	okSeen      map[string]bool
	minimum     []minReq
}

type minReq struct {
	count string
	min   int
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Level: "other", Rules: map[string]string{}, Counts: map[string]int{}, sampleSeen: map[string]int{}, okSeen: map[string]bool{}}
}

func (r *Report) Rule(name, text string) { r.Rules[name] = text }

// Count adds to a measured counter.
func (r *Report) Count(name string, n int) { r.Counts[name] += n }

// Min requires a measured counter to reach a floor; a check that finds fewer
// instances than it is known to have is not looking at the right thing.
func (r *Report) Min(name string, n int) { r.minimum = append(r.minimum, minReq{name, n}) }

// OK records a discharged obligation.
func (r *Report) OK(rule, where, detail string) {
	k := rule + "|" + where + "|" + detail
	if r.okSeen[k] {
		return
	}
	r.okSeen[k] = true
	r.Obligations++
	r.Discharged++
	if r.sampleSeen[rule] < 4 {
		r.sampleSeen[rule]++
		r.Samples = append(r.Samples, fmt.Sprintf("%s: %s: %s", rule, where, detail))
	}
}

// Bad records a violated obligation.
func (r *Report) Bad(rule, where, fn, detail string, path ...string) {
	key := rule + "|" + fn + "|" + detail
	for _, v := range r.Viol {
		if v.Key == key && v.Where == where {
			return
		}
	}
	r.Obligations++
	r.Viol = append(r.Viol, Violation{Rule: rule, Where: where, Func: fn, Detail: detail, Path: path, Key: key})
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// finish writes evidence and the report and returns the exit code.
func (r *Report) finish(start time.Time, cmd string) int {
	for _, m := range r.minimum {
		if r.Counts[m.count] < m.min {
			r.Bad("coverage-floor", "-", "-", fmt.Sprintf("only %d instances of %q found, at least %d expected: the analysis no longer recognises the code it is about", r.Counts[m.count], m.count, m.min))
		}
	}
	sort.SliceStable(r.Viol, func(i, j int) bool { return r.Viol[i].Where < r.Viol[j].Where })

	known := loadKnown(filepath.Join(verifDir(), "known-findings.txt"), r.Prop)
	var fresh []Violation
	for _, v := range r.Viol {
		if what, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
			continue
		}
		fresh = append(fresh, v)
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var rules []string
	for k, v := range r.Rules {
		rules = append(rules, k+": "+v)
	}
	sort.Strings(rules)
	expl := r.Explanation
	cov := map[string]interface{}{
		"explanation": expl,
		"rules":       rules,
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"analysed":    r.Counts,
		"samples":     r.Samples,
	}
	if r.Level == "proof" {
		cov["checker_cmd"] = cmd
		cov["trusted_base"] = r.Assumptions
	}
	if r.Assumptions == nil {
		r.Assumptions = []string{}
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": r.Level,
		"coverage": cov, "assumptions": r.Assumptions, "wall_s": time.Since(start).Seconds(),
		"violations": len(fresh),
	}
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	rep := filepath.Join(evDir, r.Prop+".report.txt")
	if len(fresh) == 0 {
		_ = os.Remove(rep)
		fmt.Printf("OK property=%s obligations=%d discharged=%d\n", r.Prop, r.Obligations, r.Discharged)
		return 0
	}
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s [%s] %s in %s\n", v.Where, v.Rule, v.Detail, v.Func)
		for _, s := range v.Path {
			fmt.Fprintf(&sb, "    %s\n", s)
		}
		fmt.Fprintf(&sb, "    rule: %s\n", r.Rules[v.Rule])
		fmt.Fprintf(&sb, "    key: %s\n", v.Key)
	}
	_ = os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rep)
	return 1
}

// loadKnown reads known findings: lines "known: property=<id> key=<key> :: <what fails>".
func loadKnown(file, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		k, what, ok := strings.Cut(rest, " :: ")
		if ok {
			out[k] = what
		}
	}
	return out
}
