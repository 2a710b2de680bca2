// The harness: "harness ID" runs the check of property ID against the library
// in /repo, in supervised worker processes, and reports what was observed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	_ "verif/harness/checks"
	"verif/harness/rt"
)

const lib = "github.com/dufourgilles/emberlib"

func main() {
	worker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.Int("case", -1, "run only this case")
	dir := flag.String("dir", "", "")
	root := flag.String("root", "/verif", "")
	replay := flag.String("replay", "", "run the case of a replay file again")
	list := flag.Bool("list", false, "")
	flag.Parse()
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *list {
		for id, c := range rt.All {
			fmt.Println(id, c.Race)
		}
		return
	}
	known := rt.LoadKnown(filepath.Join(*root, "known-findings.txt"))
	id := flag.Arg(0)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var v rt.Violation
		if err != nil || json.Unmarshal(b, &v) != nil {
			fmt.Fprintln(os.Stderr, "cannot read", *replay)
			os.Exit(2)
		}
		id, seed, tier, *only = v.Property, v.Seed, v.Tier, v.Case
	}
	check := rt.All[id]
	if check == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		os.Exit(2)
	}
	if *worker {
		rt.Worker(id, *dir, tier, seed, *shard, *shards, *only)
	}
	os.Exit(supervise(check, *root, tier, seed, *only, known))
}

func supervise(check *rt.Check, root, tier string, seed uint64, only int, known map[string]string) int {
	start := time.Now()
	work := filepath.Join(root, "work", check.ID)
	os.RemoveAll(work)
	if err := os.MkdirAll(work, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	shards := check.Shards
	if only >= 0 {
		shards = 1
	}
	var wg sync.WaitGroup
	ends := make([]error, shards)
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-worker", "-root", root, "-dir", work, "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-case", strconv.Itoa(only), check.ID)
			cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier, "GOTRACEBACK=all",
				"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(work, fmt.Sprintf("race-%d", i)))
			errF, _ := os.Create(filepath.Join(work, fmt.Sprintf("stderr-%d", i)))
			outF, _ := os.Create(filepath.Join(work, fmt.Sprintf("stdout-%d", i)))
			cmd.Stderr, cmd.Stdout = errF, outF
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			ends[i] = cmd.Run()
			errF.Close()
			outF.Close()
		}(i)
	}
	wg.Wait()

	total := rt.Result{Counts: map[string]int64{}, Maxima: map[string]int64{}, Known: map[string]int64{}}
	distinct := map[uint64]bool{}
	var violations []rt.Violation
	internal := []string{}
	for i := 0; i < shards; i++ {
		var r rt.Result
		b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("result-%d.json", i)))
		if err == nil {
			json.Unmarshal(b, &r)
		}
		total.Cases += r.Cases
		for k, v := range r.Counts {
			total.Counts[k] += v
		}
		for k, v := range r.Known {
			total.Known[k] += v
		}
		for k, v := range r.Maxima {
			if v > total.Maxima[k] {
				total.Maxima[k] = v
			}
		}
		for _, h := range r.Distinct {
			distinct[h] = true
		}
		total.Samples = append(total.Samples, r.Samples...)
		n := 0
		if b, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("violations-%d", i))); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				var v rt.Violation
				if json.Unmarshal([]byte(l), &v) == nil && v.Property != "" {
					violations = append(violations, v)
					n++
				}
			}
		}
		if ends[i] != nil && n == 0 {
			b, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("stderr-%d", i)))
			text := string(b)
			c := -1
			if cb, err := os.ReadFile(filepath.Join(work, fmt.Sprintf("case-%d", i))); err == nil && len(cb) > 12 {
				c, _ = strconv.Atoi(strings.TrimSpace(string(cb[:12])))
			}
			if crashInLibrary(text) {
				violations = append(violations, rt.Violation{Property: check.ID, Case: c, Seed: seed, Tier: tier, Key: "crash",
					Message: "the process ended: " + clip(text, 6000), Notes: rt.InputNote(filepath.Join(work, fmt.Sprintf("case-%d", i)))})
			} else {
				internal = append(internal, fmt.Sprintf("worker %d of %s ended at case %d: %v\n%s", i, check.ID, c, ends[i], clip(text, 3000)))
			}
		}
	}
	races, raceReports := 0, []string{}
	if check.Race {
		files, _ := filepath.Glob(filepath.Join(work, "race-*"))
		seen := map[string]bool{}
		for _, f := range files {
			b, _ := os.ReadFile(f)
			for _, rep := range strings.Split(string(b), "==================") {
				if !strings.Contains(rep, "WARNING: DATA RACE") {
					continue
				}
				races++
				if !inLibrary(rep) {
					internal = append(internal, "race in the harness: "+clip(rep, 2000))
					continue
				}
				k := signature(rep)
				if seen[k] {
					continue
				}
				seen[k] = true
				raceReports = append(raceReports, rep)
				violations = append(violations, rt.Violation{Property: check.ID, Case: -1, Seed: seed, Tier: tier, Key: "race", Message: clip(rep, 6000)})
			}
		}
		total.Counts["race_reports"] = int64(races)
	}
	if tier == "quick" && only < 0 && len(violations) == 0 && os.Getenv("HARNESS_PERCENT") == "" {
		for k, m := range check.Min {
			if total.Counts[k] < m {
				internal = append(internal, fmt.Sprintf("vacuous run: %s is %d, expected at least %d", k, total.Counts[k], m))
			}
		}
	}

	if only < 0 {
		writeEvidence(check, root, tier, seed, total, distinct, len(violations), time.Since(start))
	}
	keys := []string{}
	for k := range known {
		if strings.HasPrefix(k, check.ID+"/") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", check.ID, known[k], total.Known[strings.TrimPrefix(k, check.ID+"/")])
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct, %v", check.ID, tier, seed, total.Cases, len(distinct), time.Since(start).Round(time.Millisecond))
	names := []string{}
	for k := range total.Counts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf(" %s=%d", k, total.Counts[k])
	}
	fmt.Println()
	if len(violations) > 0 {
		out := filepath.Join(root, "out")
		os.MkdirAll(out, 0o755)
		for i, v := range violations {
			if i >= 10 {
				break
			}
			path := filepath.Join(out, fmt.Sprintf("%s-%d.json", check.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("case %d [%s] %s\n", v.Case, v.Key, clip(v.Message, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, path)
		}
		return 1
	}
	if len(internal) > 0 {
		for _, s := range internal {
			fmt.Println("INTERNAL:", s)
		}
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// crashInLibrary tells whether the goroutine that ended the process was in the
// library. The first goroutine printed is the one that failed.
func crashInLibrary(text string) bool {
	if strings.Contains(text, "fatal error: concurrent map") || strings.Contains(text, "fatal error: sync: unlock of unlocked") ||
		strings.Contains(text, "fatal error: stack overflow") || strings.Contains(text, "goroutine stack exceeds") ||
		strings.Contains(text, "fatal error: all goroutines are asleep") || strings.Contains(text, "out of memory") {
		return strings.Contains(text, lib+"/")
	}
	i := strings.Index(text, "\ngoroutine ")
	if i < 0 {
		return false
	}
	first := text[i+1:]
	if j := strings.Index(first, "\n\n"); j >= 0 {
		first = first[:j]
	}
	return strings.Contains(first, lib+"/")
}

// accesses is the part of a race report with the two stacks.
func accesses(rep string) string {
	if i := strings.Index(rep, "Goroutine "); i > 0 {
		// keep both access stacks, not the creation stacks
		return rep[:i]
	}
	return rep
}

// inLibrary tells whether one of the two accesses of a race report was made by
// the library, itself or through the standard library.
func inLibrary(rep string) bool {
	for _, stack := range strings.Split(accesses(rep), "\n\n") {
		for _, m := range frame.FindAllStringSubmatch(stack, -1) {
			if strings.HasPrefix(m[1], lib+"/") {
				return true
			}
			if strings.HasPrefix(m[1], "verif/harness/") {
				break
			}
		}
	}
	return false
}

var frame = regexp.MustCompile(`(?m)^  (\S+)\(`)

func signature(rep string) string {
	s := []string{}
	for _, m := range frame.FindAllStringSubmatch(accesses(rep), -1) {
		s = append(s, m[1])
	}
	return strings.Join(s, ";")
}

func writeEvidence(check *rt.Check, root, tier string, seed uint64, r rt.Result, distinct map[uint64]bool, violations int, wall time.Duration) {
	samples := []string{}
	for i, s := range r.Samples {
		if i < 6 {
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]interface{}{
		"evaluations":         r.Cases,
		"distinct_nontrivial": len(distinct),
		"rule":                check.Rule,
		"samples":             samples,
		"observed":            r.Counts,
		"maxima":              r.Maxima,
		"known_findings_seen": r.Known,
	}
	if check.Exhaustive {
		cov["exhaustive"] = true
	}
	ev := map[string]interface{}{
		"property":   check.ID,
		"tier":       tier,
		"seed":       seed,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     wall.Seconds(),
		"violations": violations,
	}
	if len(check.Assumptions) > 0 {
		ev["assumptions"] = check.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, check.ID+".json"), append(b, '\n'), 0o644)
}
