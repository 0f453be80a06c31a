package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is a violated (or undecided) obligation.
type Finding struct {
	Rule  string // rule name
	Key   string // construct: function + site, without line numbers
	Where string // file:line
	Msg   string
	Chain string // call chain, if any
}

// Report collects what a check did.
type Report struct {
	Prop     string
	findings map[string]Finding
	order    []string
	cov      map[string]any
	samples  []string
	explain  string
	minima   []string
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, findings: map[string]Finding{}, cov: map[string]any{}}
}

func (r *Report) add(f Finding) {
	k := f.Rule + "|" + f.Key
	if _, ok := r.findings[k]; ok {
		return
	}
	r.findings[k] = f
	r.order = append(r.order, k)
}

func (r *Report) count(name string, n int) {
	if v, ok := r.cov[name].(int); ok {
		r.cov[name] = v + n
		return
	}
	r.cov[name] = n
}

func (r *Report) sample(s string) {
	if len(r.samples) < 25 {
		r.samples = append(r.samples, s)
	}
}

// need is an anchor: a count below what the rule must see makes the check fail (a vacuous pass is no pass).
func (r *Report) need(name string, got, min int) {
	if got < min {
		r.add(Finding{Rule: "anchor", Key: name, Where: "-",
			Msg: fmt.Sprintf("the rule found %d instance(s) of %q, at least %d expected: it would pass vacuously", got, name, min)})
	}
}

func openKnown(path, prop string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// open: property=<id> key=<rule|key> <what fails>
		if !strings.HasPrefix(l, "open: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "open: property="+prop+" key=")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		res[rest[:i]] = rest[i+4:]
	}
	return res
}

// finish writes evidence, prints the verdict and returns the exit code.
func (r *Report) finish(verif, tier string, start time.Time) int {
	known := openKnown(filepath.Join(verif, "known_findings.txt"), r.Prop)
	var viol []Finding
	suppressed := 0
	for _, k := range r.order {
		if what, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
			suppressed++
			continue
		}
		viol = append(viol, r.findings[k])
	}
	ev := map[string]any{
		"property": r.Prop,
		"tier":     tier,
		"seed":     1,
		"level":    "other",
		"wall_s":   time.Since(start).Seconds(),
	}
	cov := map[string]any{"explanation": r.explain}
	for k, v := range r.cov {
		cov[k] = v
	}
	cov["findings"] = len(viol)
	cov["known_findings"] = suppressed
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	ev["coverage"] = cov
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	epath := filepath.Join(verif, "evidence", r.Prop+".json")
	if err := os.WriteFile(epath, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	var names []string
	for k := range r.cov {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  %s: %v\n", k, r.cov[k])
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s (%.1fs)\n", r.Prop, time.Since(start).Seconds())
		return 0
	}
	rpath := filepath.Join(verif, "evidence", r.Prop+".violations.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: rule %s: %s [%s]\n", f.Where, f.Rule, f.Msg, f.Key)
		if f.Chain != "" {
			fmt.Fprintf(&sb, "    via %s\n", f.Chain)
		}
	}
	os.WriteFile(rpath, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rpath)
	return 1
}
