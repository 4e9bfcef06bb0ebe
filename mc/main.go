//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	ID        string
	Scenarios func(tier string) []*Scenario
	// Extra: exhaustive enumerations that are not state-space searches. They report evaluations.
	Extra       func(tier string, deadline time.Time) []Result
	Assumptions []string
	Rule        string
	Quick       time.Duration // time budget of the exploration, quick tier
	Known       []KnownCheck
}

// KnownCheck re-runs the specific history of a recorded finding.
type KnownCheck struct {
	Key  string
	What string
	Run  func() (present bool, err error)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var l []string
		for id := range checks {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	id := os.Getenv("VERIF_PROP")
	if os.Getenv(childMark) == "" {
		os.Exit(supervise(id))
	}
	go watchdog(id)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if n := runtime.NumCPU(); n < nWorkers {
		nWorkers = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	out := os.Getenv("VERIF_EVIDENCE")
	only := os.Getenv("VERIF_SCENARIO")
	c := checks[id]
	if c == nil {
		fatal("unknown property %q", id)
	}
	start := time.Now()
	budget := c.Quick
	if budget == 0 {
		budget = 60 * time.Second
	}
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := start.Add(budget)
	known := loadKnown(id)
	var results []Result
	var viol *Violation
	if c.Scenarios != nil {
		scs := c.Scenarios(tier)
		deadline := deadline
		if c.Extra != nil {
			deadline = start.Add(budget / 2)
		}
		for i, sc := range scs {
			if only != "" && sc.Name != only {
				continue
			}
			// share what is left of the budget fairly among the remaining scenarios
			left := time.Until(deadline)
			share := left / time.Duration(len(scs)-i)
			if i < len(scs)-1 {
				share = share * 3 / 2
			}
			r := explore(sc, time.Now().Add(share))
			results = append(results, r)
			fmt.Fprintf(os.Stderr, "%s/%s: states=%d transitions=%d depth=%d/%d complete=%v fix=%v acc=%d rej=%d cmp=%d %.1fs\n", id, r.Scenario, r.States, r.Transitions, r.Depth, r.DepthWanted, r.Complete, r.FixedPoint, r.Accepted, r.Rejected, r.Compared, r.WallS)
			if os.Getenv("VERIF_VERBOSE") != "" {
				for _, s := range r.Samples {
					fmt.Fprintln(os.Stderr, "   ", s)
				}
			}
			if r.Viol != nil {
				viol = r.Viol
				break
			}
		}
	}
	if viol == nil && c.Extra != nil && only == "" {
		for _, r := range c.Extra(tier, deadline) {
			results = append(results, r)
			fmt.Fprintf(os.Stderr, "%s/%s: evaluations=%d complete=%v %.1fs\n", id, r.Scenario, r.Transitions, r.Complete, r.WallS)
			if r.Viol != nil {
				viol = r.Viol
				break
			}
		}
	}
	findings := 0
	for _, k := range c.Known {
		present, err := k.Run()
		if err != nil {
			viol = &Violation{Scenario: "known:" + k.Key, Msg: err.Error()}
			break
		}
		if present {
			if known[k.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", id, k.Key, k.What)
				findings++
			} else if viol == nil {
				viol = &Violation{Scenario: "known:" + k.Key, Msg: k.What}
			}
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(),
	}
	var states, transitions, compared, acc int64
	complete := true
	var samples []string
	for _, r := range results {
		states += r.States
		transitions += r.Transitions
		compared += r.Compared
		acc += r.Accepted
		complete = complete && r.Complete
		samples = append(samples, r.Samples...)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	traces := compared
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev["violations"] = nv
	ev["coverage"] = map[string]interface{}{
		"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
		"samples": samples, "exhaustive": complete && viol == nil, "scenarios": results,
		"messages_accepted": acc, "known_findings_present": findings, "rule": c.Rule,
		"meaning_of_counts": "states: distinct (stores, height, time, model) reached; transitions: operations executed on the real code; traces_validated_against_impl: states/steps at which an independent oracle or reference model was compared with the real code's state or answer",
	}
	bz, _ := json.MarshalIndent(ev, "", " ")
	if out != "" {
		if err := os.WriteFile(out, append(bz, '\n'), 0644); err != nil {
			fatal("%v", err)
		}
	}
	if viol != nil {
		viol.report(id)
		os.Exit(1)
	}
	fmt.Printf("OK property=%s states=%d transitions=%d exhaustive=%v\n", id, states, transitions, complete)
}

// loadKnown reads the committed list of recorded findings: lines "property=<id> <key> <text>".
func loadKnown(id string) map[string]bool {
	r := map[string]bool{}
	bz, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(bz), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "property="+id {
			r[f[1]] = true
		}
	}
	return r
}
