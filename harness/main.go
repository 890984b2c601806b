package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Sig      string `json:"sig"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func main() {
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	verif := fs.String("verif", "/verif", "the verification folder")
	isChild := fs.Bool("child", false, "")
	out := fs.String("out", "", "")
	progress := fs.String("progress", "", "")
	scratch := fs.String("scratch", "", "")
	only := fs.String("group", "", "run a single case of this group")
	onlyIdx := fs.Int("idx", 0, "")
	seedF := fs.String("seed", "", "")
	tierF := fs.String("tier", "", "")
	replay := fs.String("replay", "", "replay file")
	list := fs.Bool("list", false, "")
	first := fs.Bool("firstuse", false, "")
	_ = fs.Parse(os.Args[1:])

	if *list {
		for _, id := range sortedKeys(props) {
			fmt.Println(id, props[id].Race)
		}
		return
	}
	if *seedF == "" {
		*seedF = os.Getenv("VERIF_SEED")
	}
	seed, err := strconv.ParseInt(*seedF, 10, 64)
	if err != nil {
		seed = 1
	}
	if *first {
		os.Exit(firstUse(seed, *scratch))
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		*prop, seed, tier, *only, *onlyIdx = v.Property, v.Seed, v.Tier, v.Group, v.Idx
	}
	p := props[*prop]
	if p == nil {
		fatal("unknown property %q", *prop)
	}
	if *isChild {
		child(p, seed, tier, *out, *progress, *scratch, *only, *onlyIdx)
		return
	}
	os.Exit(parent(p, seed, tier, *verif, *only, *onlyIdx))
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "error: "+format+"\n", args...)
	os.Exit(2)
}

type childResult struct {
	rep      *Report
	exit     string
	crash    string
	slots    []slotState
	races    []raceReport
	timedOut bool
}

func spawn(p *Prop, seed int64, tier, work, only string, onlyIdx int, limit time.Duration) (res childResult) {
	dir, err := os.MkdirTemp(work, "run")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	out, prog, scratch := filepath.Join(dir, "report.json"), filepath.Join(dir, "progress"), filepath.Join(dir, "scratch")
	_ = os.Mkdir(scratch, 0o755)
	exe, _ := os.Executable()
	args := []string{"-child", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-tier", tier, "-out", out, "-progress", prog, "-scratch", scratch}
	if only != "" {
		args = append(args, "-group", only, "-idx", fmt.Sprint(onlyIdx))
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all", "GOMEMLIMIT=20GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if os.Getenv("VH_VERBOSE") != "" {
		cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	timer := time.AfterFunc(limit, func() { res.timedOut = true; _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	timer.Stop()
	if err != nil {
		res.exit = err.Error()
	}
	if b, err := os.ReadFile(out); err == nil {
		var rep Report
		if json.Unmarshal(b, &rep) == nil {
			res.rep = &rep
		}
	}
	if b, err := os.ReadFile(out + ".crash"); err == nil {
		res.crash = string(b)
	}
	if b, err := os.ReadFile(prog); err == nil {
		for i := 0; i+slotSize <= len(b); i += slotSize {
			s := strings.TrimRight(string(b[i:i+slotSize]), "\x00")
			var st slotState
			if n, _ := fmt.Sscanf(s, "%s %d", &st.Group, &st.Idx); n == 2 {
				res.slots = append(res.slots, st)
			}
		}
	}
	if p.Race {
		files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, f := range files {
			if b, err := os.ReadFile(f); err == nil {
				res.races = append(res.races, parseRaces(string(b))...)
			}
		}
	}
	return
}

type raceReport struct{ sig, text string }

var reFrame = regexp.MustCompile(`(?m)^  (github\.com/hedzr/store[^\s(]*(?:\([^)]*\))?[^\s(]*)`)

// parseRaces splits the race detector's log and keeps a signature of the pair
// of topmost frames which belong to the store. Races without any frame of the
// store (the monitor's own) would be an error of the harness.
func parseRaces(log string) (ret []raceReport) {
	for _, blk := range strings.Split(log, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var tops []string
		for _, part := range regexp.MustCompile(`(?m)^(?:Write|Read|Previous|Atomic|Goroutine|\s*\[)[^\n]*:?$`).Split(blk, -1) {
			for _, m := range reFrame.FindAllStringSubmatch(part, -1) {
				if !strings.Contains(m[1], "zverif") {
					f := strings.TrimPrefix(m[1], "github.com/hedzr/store")
					tops = append(tops, f)
					break
				}
			}
		}
		if len(tops) > 2 {
			tops = tops[:2]
		}
		sort.Strings(tops)
		ret = append(ret, raceReport{"race:" + strings.Join(tops, "+"), blk})
	}
	return
}

func parent(p *Prop, seed int64, tier, verif, only string, onlyIdx int) int {
	start := time.Now()
	work, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(work)
	var known knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fatal("known_findings.json: %v", err)
		}
	}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 5 * time.Hour
	}
	res := spawn(p, seed, tier, work, only, onlyIdx, limit)
	rep := res.rep
	if rep == nil {
		rep = &Report{}
	}
	vs := rep.Violations
	var inconclusive []string

	isolate := func(cands []slotState, kind string) {
		for _, c := range cands {
			r := spawn(p, seed, tier, work, c.Group, c.Idx, 150*time.Second)
			v := Violation{Property: p.ID, Group: c.Group, Idx: c.Idx, Seed: seed, Tier: tier}
			switch {
			case r.rep != nil && len(r.rep.Violations) > 0:
				vs = append(vs, r.rep.Violations...)
			case r.rep != nil && len(r.rep.Hang) > 0, r.timedOut:
				v.Sig, v.Msg = c.Group+"/hang", "the case does not end (twice, the second time running alone)"
				if r.rep != nil {
					v.Stack = clip(r.rep.HangStack, 20000)
				}
				vs = append(vs, v)
			case r.rep == nil || !r.rep.Done:
				v.Sig, v.Msg, v.Stack = c.Group+"/crash:"+panicSite([]byte(r.crash)), "the process crashed: "+firstLine(r.crash, r.exit), clip(r.crash, 20000)
				vs = append(vs, v)
			}
			if len(vs) >= 3 || kind == "hang" && len(vs) > 0 {
				return
			}
		}
	}
	switch {
	case rep.Done:
	case len(rep.Hang) > 0:
		isolate(rep.Hang, "hang")
		if len(vs) == 0 {
			inconclusive = append(inconclusive, "a case exceeded its time limit once but not when run alone")
		}
	case res.timedOut:
		inconclusive = append(inconclusive, "the run exceeded its total time limit")
	default:
		n := len(vs)
		isolate(res.slots, "crash")
		if len(vs) == n {
			if strings.Contains(res.crash, "fatal error") || strings.Contains(res.crash, "panic:") {
				v := Violation{Property: p.ID, Seed: seed, Tier: tier, Sig: "crash:" + panicSite([]byte(res.crash)), Msg: "the process crashed: " + firstLine(res.crash, res.exit), Stack: clip(res.crash, 20000)}
				if len(res.slots) > 0 {
					v.Group, v.Idx = res.slots[0].Group, res.slots[0].Idx
				}
				vs = append(vs, v)
			} else {
				inconclusive = append(inconclusive, "the workload process ended unexpectedly: "+res.exit)
			}
		}
	}
	raceSigs := map[string]int{}
	for _, r := range res.races {
		if raceSigs[r.sig]++; raceSigs[r.sig] > 1 {
			continue
		}
		if r.sig == "race:" {
			if os.Getenv("VH_VERBOSE") != "" {
				fmt.Fprintln(os.Stderr, r.text)
			}
			inconclusive = append(inconclusive, "a race without a frame of the store")
			continue
		}
		vs = append(vs, Violation{Property: p.ID, Seed: seed, Tier: tier, Group: only, Idx: onlyIdx, Sig: r.sig, Msg: "data race", Stack: clip(r.text, 20000)})
	}

	fresh, matched := 0, map[string]bool{}
	var lines []string
	for _, v := range vs {
		hit := false
		for _, k := range known.Findings {
			if k.Property == p.ID && k.Sig == v.Sig {
				hit = true
				matched[k.Sig] = true
			}
		}
		if hit {
			continue
		}
		fresh++
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, v.Group, v.Idx, fresh))
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(name, b, 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, name), fmt.Sprintf("  [%s] %s", v.Sig, clip(v.Msg, 1500)))
	}
	for _, k := range known.Findings {
		if k.Property == p.ID && matched[k.Sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	if only == "" {
		writeEvidence(p, seed, tier, verif, rep, fresh, len(res.races), time.Since(start))
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if fresh > 0 {
		return 1
	}
	if len(inconclusive) == 0 && only == "" {
		for _, g := range p.Groups {
			gs := rep.Groups[g.Name]
			if gs["cases"] == 0 || gs["oracle_evaluations"] == 0 {
				if n := rep.Groups[g.Name]["discarded"]; n == 0 || gs["cases"] > 0 {
					inconclusive = append(inconclusive, "group "+g.Name+" observed nothing")
				} else {
					fmt.Printf("note: all %d cases of group %s were discarded (machine too slow)\n", n, g.Name)
				}
			}
		}
	}
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Fprintln(os.Stderr, "inconclusive:", s)
		}
		return 2
	}
	fmt.Printf("OK property=%s tier=%s cases=%d distinct=%d oracle_evaluations=%d wall=%.1fs\n", p.ID, tier, rep.Evaluations, rep.Distinct, rep.Observed, time.Since(start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(a, b string) string {
	for _, l := range strings.Split(a, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return b
}

func writeEvidence(p *Prop, seed int64, tier, verif string, rep *Report, fresh, races int, wall time.Duration) {
	samples := rep.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	for _, g := range rep.Groups {
		delete(g, "samples")
	}
	cov := map[string]any{
		"evaluations":         rep.Evaluations,
		"distinct_nontrivial": rep.Distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"oracle_evaluations":  rep.Observed,
		"discarded":           rep.Discarded,
		"groups":              rep.Groups,
		"observed_events":     rep.Counts,
	}
	if p.Race {
		cov["race_reports"] = races
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov, "assumptions": p.Assumptions,
		"wall_s": wall.Seconds(), "violations": fresh}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}
