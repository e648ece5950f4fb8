package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Key      string `json:"key,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func main() {
	mode := flag.String("mode", "check", "check, worker or list")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("nshards", 1, "")
	ncases := flag.Int("ncases", 0, "")
	only := flag.Int("case", -1, "run only this case")
	out := flag.String("out", "", "worker output")
	verif := flag.String("verif", "/verif", "verif directory")
	flag.Parse()
	if *mode == "list" {
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	p := registry[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	n := *ncases
	if n == 0 {
		n = p.Quick
		if *tier == "thorough" {
			n = p.Thorough
		}
	}
	if *mode == "worker" {
		workerMain(p, *seed, *tier, *shard, *nshards, n, *only, *out)
		return
	}
	os.Exit(parent(p, *tier, *seed, n, *only, *verif))
}

type shardResult struct {
	rep        *report
	violations []Violation
	last       int
	exit       int
	stderr     string
	timeout    bool
}

func runShard(p *Property, tier string, seed uint64, n, only, shard, nshards int, dir, verif string) shardResult {
	outPath := filepath.Join(dir, fmt.Sprintf("shard-%d", shard))
	errPath := outPath + ".err"
	ef, _ := os.Create(errPath)
	cmd := exec.Command(os.Args[0], "-mode", "worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-shard", fmt.Sprint(shard), "-nshards", fmt.Sprint(nshards), "-ncases", fmt.Sprint(n), "-case", fmt.Sprint(only),
		"-out", outPath, "-verif", verif)
	cmd.Stderr = ef
	cmd.Stdout = ef
	scratch := filepath.Join(dir, fmt.Sprintf("tmp-%d", shard))
	os.Mkdir(scratch, 0755)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	res := shardResult{last: -1}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	err := cmd.Start()
	if err == nil {
		timer := time.AfterFunc(limit, func() { res.timeout = true; cmd.Process.Kill() })
		err = cmd.Wait()
		timer.Stop()
	}
	ef.Close()
	if err != nil {
		res.exit = -1
		if cmd.ProcessState != nil {
			res.exit = cmd.ProcessState.ExitCode()
			if res.exit == 0 {
				res.exit = -1
			}
		}
	}
	b, _ := ioutil.ReadFile(errPath)
	res.stderr = string(b)
	f, err := os.Open(outPath)
	if err != nil {
		return res
	}
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if strings.HasPrefix(line, "S ") {
			fmt.Sscanf(line, "S %d", &res.last)
		} else if strings.HasPrefix(line, "V ") {
			v := Violation{}
			if json.Unmarshal([]byte(line[2:]), &v) == nil {
				res.violations = append(res.violations, v)
			}
		} else if strings.HasPrefix(line, "R ") {
			r := &report{}
			if json.Unmarshal([]byte(line[2:]), r) == nil {
				res.rep = r
			}
		}
		if err != nil {
			break
		}
	}
	return res
}

func parent(p *Property, tier string, seed uint64, n, only int, verif string) int {
	t0 := time.Now()
	dir, err := ioutil.TempDir("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	if only >= 0 {
		shards = 1
	}
	results := make([]shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = runShard(p, tier, seed, n, only, i, shards, dir, verif)
		}(i)
	}
	wg.Wait()

	total := report{Counts: map[string]int64{}}
	fps := map[uint64]struct{}{}
	var viols []Violation
	inconclusive := []string{}
	for i, r := range results {
		viols = append(viols, r.violations...)
		if r.rep != nil {
			total.Evals += r.rep.Evals
			total.Cases += r.rep.Cases
			for k, v := range r.rep.Counts {
				if strings.HasPrefix(k, "max ") {
					if v > total.Counts[k] {
						total.Counts[k] = v
					}
				} else {
					total.Counts[k] += v
				}
			}
			for _, f := range r.rep.Fps {
				fps[f] = struct{}{}
			}
			total.Samples = append(total.Samples, r.rep.Samples...)
		}
		if r.rep != nil && r.exit == 0 {
			continue
		}
		// the worker died: who is to blame?
		se := r.stderr
		switch {
		case r.timeout:
			inconclusive = append(inconclusive, fmt.Sprintf("shard %d: time limit (case %d)", i, r.last))
		case strings.Contains(se, "HARNESS-ERROR"):
			inconclusive = append(inconclusive, fmt.Sprintf("shard %d: %s", i, trunc(se[strings.Index(se, "HARNESS-ERROR"):], 3000)))
		case strings.Contains(se, "dmitryikh/leaves") && (strings.Contains(se, "panic:") || strings.Contains(se, "fatal error:") || strings.Contains(se, "runtime: ") || strings.Contains(se, "DATA RACE") || strings.Contains(se, "HANG:") || strings.Contains(se, "signal ")):
			viols = append(viols, Violation{Case: r.last, Msg: "process died: " + firstLine(se), Stack: trunc(se, 8000)})
		default:
			inconclusive = append(inconclusive, fmt.Sprintf("shard %d: exit %d in case %d: %s", i, r.exit, r.last, trunc(se, 3000)))
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })

	known := map[string]finding{}
	var fixedEntries []finding
	if b, err := ioutil.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		var fs []finding
		if err := json.Unmarshal(b, &fs); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
		for _, f := range fs {
			if f.Property != p.ID {
				continue
			}
			if f.Status == "known" && f.Key != "" {
				known[f.Key] = f
			} else {
				fixedEntries = append(fixedEntries, f)
			}
		}
	}
	printed := map[string]bool{}
	var fresh []Violation
	for _, v := range viols {
		if f, ok := known[v.Key]; ok && v.Key != "" {
			if !printed[v.Key] {
				printed[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
			}
			continue
		}
		fresh = append(fresh, v)
	}

	if len(fresh) == 0 && len(inconclusive) == 0 && only < 0 {
		for _, k := range p.Need {
			if total.Counts[k] == 0 {
				inconclusive = append(inconclusive, fmt.Sprintf("event %q never observed", k))
			}
		}
		if total.Evals == 0 {
			inconclusive = append(inconclusive, "nothing was evaluated")
		}
	}

	samples := total.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(fps),
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               total.Cases,
		"events":              total.Counts,
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": p.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if only < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		if err := ioutil.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(fresh) > 0 {
		rdir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rdir, 0755)
		for i, v := range fresh {
			if i >= 3 {
				break
			}
			path := filepath.Join(rdir, fmt.Sprintf("%s-case%d-seed%d-%s.json", p.ID, v.Case, seed, tier))
			b, _ := json.MarshalIndent(map[string]interface{}{
				"property": p.ID, "seed": seed, "tier": tier, "case": v.Case, "cases": n, "message": v.Msg, "inputs": v.Dump, "stack": v.Stack,
				"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s --case %d", seed, tier, p.ID, v.Case),
			}, "", " ")
			ioutil.WriteFile(path, append(b, '\n'), 0644)
			fmt.Printf("# %s case %d: %s\n", p.ID, v.Case, trunc(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s %s\n", p.ID, s)
		}
		return 2
	}
	fmt.Printf("OK property=%s evaluations=%d distinct_nontrivial=%d cases=%d wall=%.1fs\n", p.ID, total.Evals, len(fps), total.Cases, time.Since(t0).Seconds())
	return 0
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, k := range []string{"panic:", "fatal error:", "DATA RACE", "HANG:", "runtime: out of memory", "signal "} {
			if strings.Contains(l, k) {
				return trunc(l, 400)
			}
		}
	}
	return trunc(s, 200)
}
