// Command verifchecker decides the properties of /verif/properties.jsonl by
// static analysis of the current source of the repository.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is one broken obligation. Key identifies it by rule and construct,
// never by line, so that the known-findings file survives unrelated edits.
type Finding struct {
	Key  string // rule|construct
	Pos  string
	Text string
}

// Report collects what a rule analysed and what it found.
type Report struct {
	Findings    []Finding
	Obligations int
	Discharged  int
	Counts      map[string]int
	Rules       []string
	Samples     []string
	Notes       []string
}

func (r *Report) rule(format string, a ...interface{}) {
	r.Rules = append(r.Rules, fmt.Sprintf(format, a...))
}
func (r *Report) count(name string, n int) { r.Counts[name] += n }
func (r *Report) ok(format string, a ...interface{}) {
	r.Obligations++
	r.Discharged++
	r.sample(format, a...)
}
func (r *Report) sample(format string, a ...interface{}) {
	if format == "" || len(r.Samples) >= 60 {
		return
	}
	t := fmt.Sprintf(format, a...)
	for _, s := range r.Samples {
		if s == t {
			return
		}
	}
	r.Samples = append(r.Samples, t)
}
func (r *Report) note(format string, a ...interface{}) {
	r.Notes = append(r.Notes, fmt.Sprintf(format, a...))
}

// bad records a broken obligation (deduplicated by key).
func (r *Report) bad(key, pos, format string, a ...interface{}) {
	for _, f := range r.Findings {
		if f.Key == key {
			return
		}
	}
	r.Obligations++
	r.Findings = append(r.Findings, Finding{Key: key, Pos: pos, Text: fmt.Sprintf(format, a...)})
}

// need fails the check when fewer instances than confirmed by reading were found.
func (r *Report) need(what string, got, min int) {
	r.Counts[what] = got
	if got < min {
		r.bad("anchor|"+what, "-", "only %d instance(s) of %q found, at least %d expected: the rule has lost its anchors", got, what, min)
	} else {
		r.Obligations++
		r.Discharged++
	}
}

type ruleFunc func(p *Program, r *Report)

type propertyCheck struct {
	id          string
	run         ruleFunc
	explanation string
	trusted     []string
}

var registry = map[string]propertyCheck{}

func register(id, explanation string, run ruleFunc, trusted ...string) {
	registry[id] = propertyCheck{id, run, explanation, trusted}
}

func main() {
	prop := flag.String("prop", "", "property id (or 'all')")
	repo := flag.String("repo", "/repo", "repository to analyse")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	known := flag.String("known", "/verif/known-findings.txt", "known findings")
	verbose := flag.Bool("v", false, "print what was analysed")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	start := time.Now()
	p, err := load(*repo)
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		c, found := registry[id]
		if !found {
			fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
			os.Exit(2)
		}
		if one(p, err, c, tier, *out, *known, *verbose, start) != 0 {
			code = 1
		}
		start = time.Now()
	}
	os.Exit(code)
}

func one(p *Program, loadErr error, c propertyCheck, tier, out, known string, verbose bool, start time.Time) int {
	r := &Report{Counts: map[string]int{}}
	func() {
		defer func() {
			if rec := recover(); rec != nil {
				r.bad("internal|panic", "-", "the analysis could not be completed: %v\n%s", rec, debug.Stack())
			}
		}()
		if loadErr != nil {
			r.bad("load|type-check", "-", "the repository cannot be analysed: %v", loadErr)
			return
		}
		c.run(p, r)
	}()
	listed := readKnown(known, c.id)
	var fresh []Finding
	for _, f := range r.Findings {
		if text, ok := listed[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", c.id, f.Key, f.Pos, text)
			continue
		}
		fresh = append(fresh, f)
	}
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].Key < fresh[j].Key })
	if p != nil {
		r.Counts["packages"] = len(p.Pkgs)
		r.Counts["functions_in_program"] = len(p.Funcs)
	}
	os.MkdirAll(out, 0o755)
	cov := map[string]interface{}{
		"explanation": c.explanation,
		"obligations": r.Obligations, "discharged": r.Discharged,
		"rules": r.Rules, "analysed": r.Counts, "samples": r.Samples,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": 1, "level": "other", "coverage": cov,
		"assumptions": c.trusted, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		ev["seed"] = n
	}
	if c.trusted == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, c.id+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligation(s), %d discharged, %d finding(s), %.1fs\n", c.id, r.Obligations, r.Discharged, len(r.Findings), time.Since(start).Seconds())
	if verbose {
		var ks []string
		for k := range r.Counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %s = %d\n", k, r.Counts[k])
		}
		for _, s := range r.Samples {
			fmt.Println("   .", s)
		}
		for _, s := range r.Notes {
			fmt.Println("   note:", s)
		}
	}
	replay := filepath.Join(out, c.id+".violations.txt")
	os.Remove(replay)
	if len(fresh) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&sb, "property %s broken at %s\n  obligation: %s\n  %s\n\n", c.id, f.Pos, f.Key, f.Text)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}

// readKnown reads "finding: property=<id> key=<key> :: <text>" lines.
func readKnown(file, id string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		pre := "finding: property=" + id + " key="
		if !strings.HasPrefix(line, pre) {
			continue
		}
		rest := strings.SplitN(line[len(pre):], " :: ", 2)
		text := ""
		if len(rest) == 2 {
			text = rest[1]
		}
		res[strings.TrimSpace(rest[0])] = text
	}
	return res
}
