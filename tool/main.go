// ristcheck decides the properties of go-ristretto from its type-checked
// source (go/packages + go/ssa).  It never runs the code under analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

// Report collects the outcome of one property check.
type Report struct {
	Prop       string
	Tier       string
	Violations []Violation
	Counts     map[string]int
	Notes      []string
	Samples    []string
	Rule       string
	Assume     []string
}

// A Violation names the construct that breaks the property.
type Violation struct {
	Config    string `json:"config,omitempty"`
	Construct string `json:"construct"`
	Rule      string `json:"rule"`
	Detail    string `json:"detail"`
	Pos       string `json:"pos,omitempty"`
}

func (r *Report) violate(v Violation) {
	k := v.Construct + "|" + v.Rule + "|" + v.Detail + "|" + v.Config
	for _, o := range r.Violations {
		if o.Construct+"|"+o.Rule+"|"+o.Detail+"|"+o.Config == k {
			return
		}
	}
	r.Violations = append(r.Violations, v)
}
func (r *Report) count(k string, n int) { r.Counts[k] += n }
func (r *Report) sample(format string, a ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

type checkFn struct {
	rule string
	run  func(*Env, *Report)
	// minimal counts: a check that analysed fewer instances than confirmed by hand is vacuous
	floor  map[string]int
	assume []string
	split  bool // distribute the constructs over processes
}

var checks = map[string]checkFn{}

// Env gives access to the loaded configurations of /repo.
type Env struct {
	repo    string
	tier    string
	configs []*Program
	start   time.Time
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif", "directory for evidence and replay files")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "internal: claim directory and result file")
	flag.Parse()
	if *worker != "" {
		runWorker(*prop, *repo, *tier, *worker)
		return
	}
	if *prop == "list" {
		var ks []string
		for k := range checks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		return
	}
	os.Exit(runCheck(*prop, *repo, *out, *tier))
}

func runCheck(prop, repo, out, tier string) int {
	start := time.Now()
	rep := &Report{Prop: prop, Tier: tier, Counts: map[string]int{}}
	ck, ok := checks[prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %s\n", prop)
		return 2
	}
	rep.Rule = ck.rule
	rep.Assume = ck.assume
	if os.Getenv("RISTDEBUG") == "" {
		go watch(func(why string) {
			r := &Report{Prop: prop, Tier: tier, Counts: map[string]int{}, Rule: ck.rule, Assume: ck.assume}
			r.violate(Violation{Construct: "analysis", Rule: "undecided constructs fail the check", Detail: "analysis stopped: " + why})
			os.Exit(finish(r, out, start))
		})
	}
	caught(rep, func() {
		env := &Env{repo: repo, tier: tier, start: start}
		if !ck.split || os.Getenv("RISTONLY") != "" {
			env.load()
		}
		if ck.split && os.Getenv("RISTONLY") == "" {
			spread(ck, env, rep)
		} else {
			ck.run(env, rep)
		}
		for k, n := range ck.floor {
			if rep.Counts[k] < n {
				rep.violate(Violation{Construct: "analysis", Rule: "no vacuous pass", Detail: fmt.Sprintf("%s: %d instances analysed, at least %d expected", k, rep.Counts[k], n)})
			}
		}
	})
	return finish(rep, out, start)
}

const (
	budgetTime = 800 * time.Second
	budgetHeap = 22 << 30
)

// watch stops an analysis that runs out of its time or memory: a check that
// cannot decide within its budget has not shown the property.
func watch(stop func(why string)) {
	start := time.Now()
	ppid := os.Getppid()
	for {
		time.Sleep(2 * time.Second)
		if claimDir != "" && os.Getppid() != ppid {
			os.Exit(3)
		}
		if time.Since(start) > budgetTime {
			stop("not decided within the time budget")
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > budgetHeap {
			stop("not decided within the memory budget")
		}
	}
}

// caught turns a failure of the analysis into a violation.
func caught(rep *Report, f func()) {
	defer func() {
		if x := recover(); x != nil {
			msg := fmt.Sprintf("%v", x)
			st := string(debug.Stack())
			rep.Notes = append(rep.Notes, st)
			rep.violate(Violation{Construct: "analysis", Rule: "undecided constructs fail the check", Detail: "analysis stopped: " + msg})
			if os.Getenv("RISTDEBUG") != "" {
				fmt.Fprintln(os.Stderr, st)
			}
		}
	}()
	f()
}

func finish(rep *Report, out string, start time.Time) int {
	known := loadKnown(filepath.Join(out, "known-findings.txt"), rep.Prop)
	var left []Violation
	for _, v := range rep.Violations {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", rep.Prop, k)
			continue
		}
		left = append(left, v)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	n := 0
	keys := []string{}
	for k := range rep.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		n += rep.Counts[k]
	}
	cov := map[string]interface{}{
		"explanation": rep.Rule,
		"counts":      rep.Counts,
		"samples":     rep.Samples,
	}
	ev := map[string]interface{}{
		"property": rep.Prop, "tier": rep.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": rep.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": len(left),
	}
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, "evidence", rep.Prop+".json"), append(b, '\n'), 0o644)
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, rep.Counts[k])
	}
	if len(left) == 0 {
		fmt.Printf("OK property=%s (%.1fs)\n", rep.Prop, time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(out, "evidence", rep.Prop+".violation.json")
	b, _ = json.MarshalIndent(map[string]interface{}{"property": rep.Prop, "violations": left, "notes": rep.Notes}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, v := range left {
		if i >= 12 {
			fmt.Printf("  ... %d more\n", len(left)-i)
			break
		}
		fmt.Printf("  [%s] %s %s: %s (%s)\n", v.Rule, v.Config, v.Construct, printable(v.Detail), v.Pos)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Prop, rp)
	return 1
}

// printable replaces what is not text in names of abstract values.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == utf8.RuneError || r < ' ' {
			return '.'
		}
		return r
	}, s)
}

type knownSet struct{ entries [][2]string }

// loadKnown reads lines "known: property=<id> construct=<c> rule=<r> :: <text>".
func loadKnown(path, prop string) knownSet {
	var ks knownSet
	b, err := os.ReadFile(path)
	if err != nil {
		return ks
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		parts := strings.SplitN(l, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		i := strings.Index(parts[0], "construct=")
		if i < 0 {
			continue
		}
		ks.entries = append(ks.entries, [2]string{strings.TrimSpace(parts[0][i+len("construct="):]), parts[1]})
	}
	return ks
}

func (k knownSet) match(v Violation) string {
	for _, e := range k.entries {
		if e[0] == v.Construct+"|"+v.Rule {
			return e[1]
		}
	}
	return ""
}
