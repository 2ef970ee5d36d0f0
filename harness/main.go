package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(dir string) map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS.json"))
	if err != nil {
		return out
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "KNOWN_FINDINGS.json:", err)
		os.Exit(3)
	}
	for _, k := range doc.Findings {
		out[k.Property+"/"+k.Key] = k
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|child|case|list|sub")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id, c := range registry {
			ids = append(ids, fmt.Sprintf("%s race=%v quick=%d thorough=%d", id, c.Race, c.Quick, c.Thorough))
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "needrace":
		if c := registry[os.Args[2]]; c != nil && c.Race {
			fmt.Println("race")
		}
	case "child":
		fs := flag.NewFlagSet("child", flag.ExitOnError)
		id := fs.String("check", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Int64("seed", 1, "")
		cases := fs.String("cases", "", "comma separated")
		out := fs.String("out", "", "")
		fs.Parse(os.Args[2:])
		var cs []int
		for _, s := range strings.Split(*cases, ",") {
			if n, err := strconv.Atoi(s); err == nil {
				cs = append(cs, n)
			}
		}
		os.Exit(childMain(*id, *tier, *seed, cs, *out))
	case "sub":
		os.Exit(subMain(os.Args[2:]))
	case "case": // vh case -check C01 -case 12 : run one case in this process, verbosely
		fs := flag.NewFlagSet("case", flag.ExitOnError)
		id := fs.String("check", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Int64("seed", 1, "")
		idx := fs.Int("case", 0, "")
		fs.Parse(os.Args[2:])
		ck := registry[*id]
		if ck.Setup != nil {
			if err := ck.Setup(); err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
		}
		go watchdog(20*time.Second, func(kind, msg string) { fmt.Println(kind, msg); os.Exit(1) })
		r := runCase(ck, *seed, *tier, *idx)
		for _, t := range r.Trace {
			fmt.Println("  ", t)
		}
		fmt.Println("known:", r.Known)
		fmt.Println("kind:", r.Kind, "viol:", r.Viol)
		if r.Viol != "" {
			os.Exit(1)
		}
	case "run":
		os.Exit(runMain(os.Args[2:]))
	default:
		os.Exit(3)
	}
}

type raceReport struct{ text, key string }

// parseRaces returns the race reports in which one of the two accesses is made
// by the code under test (first frame that is neither standard library nor third party).
func parseRaces(glob string) (target []raceReport, other int) {
	files, _ := filepath.Glob(glob)
	seen := map[string]bool{}
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			owners := []string{}
			key := ""
			secs := strings.Split(blk, "\n\n")
			for i, s := range secs {
				if i > 1 {
					break
				}
				owners = append(owners, firstOwner(s))
				for _, l := range strings.Split(s, "\n") {
					if strings.HasPrefix(strings.TrimSpace(l), modPath) {
						key += strings.TrimSpace(l) + "|"
						break
					}
				}
			}
			isT := false
			for _, o := range owners {
				if o == "target" {
					isT = true
				}
			}
			if !isT {
				other++
				continue
			}
			if !seen[key] {
				seen[key] = true
				target = append(target, raceReport{blk, key})
			}
		}
	}
	return
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("check", "", "")
	dir := fs.String("dir", "/verif", "")
	n := fs.Int("n", 0, "override number of cases")
	jobs := fs.Int("j", 0, "")
	fs.Parse(args)
	ck := registry[*id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		return 3
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	total := ck.Quick
	if tier == "thorough" {
		total = ck.Thorough
		if total == 0 {
			total = ck.Quick * 10
		}
	}
	if *n > 0 {
		total = *n
	}
	shards := ck.Shards
	if shards == 0 {
		shards = 8
	}
	if *jobs > 0 {
		shards = *jobs
	}
	if shards > total {
		shards = total
	}
	start := time.Now()
	evDir := filepath.Join(*dir, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replays"), 0o755)
	work, err := os.MkdirTemp("", "vh-"+*id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(work)
	self, _ := os.Executable()

	// Hand out batches of cases to processes.
	var batches [][]int
	per := (total + shards*4 - 1) / (shards * 4)
	if ck.PerProc > 0 && per > ck.PerProc {
		per = ck.PerProc
	}
	if per < 1 {
		per = 1
	}
	nb := (total + per - 1) / per
	for b := 0; b < nb; b++ {
		var l []int
		for i := b; i < total; i += nb {
			l = append(l, i)
		}
		batches = append(batches, l)
	}

	var mu sync.Mutex
	var viols []result
	var harnessErrs []string
	known := map[string]string{}
	counters := map[string]int64{}
	sigs := map[uint64]bool{}
	var samples []string
	evals := 0
	stop := false
	next := 0
	racesOther := 0
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(batches) {
					mu.Unlock()
					return
				}
				bi := next
				next++
				mu.Unlock()
				base := filepath.Join(work, fmt.Sprintf("b%d", bi))
				scratch := base + ".tmp"
				os.MkdirAll(scratch, 0o755)
				var cs []string
				for _, c := range batches[bi] {
					cs = append(cs, strconv.Itoa(c))
				}
				cmd := exec.Command(self, "child", "-check", *id, "-tier", tier, "-seed", fmt.Sprint(seed), "-cases", strings.Join(cs, ","), "-out", base+".out")
				cmd.Dir = scratch
				cmd.Env = append(os.Environ(), "VH_SCRATCH="+scratch, "TMPDIR="+scratch, "GOTRACEBACK=all",
					"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path="+base+".race")
				so, _ := os.Create(base + ".stdout")
				se, _ := os.Create(base + ".stderr")
				cmd.Stdout, cmd.Stderr = so, se
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
				if err := cmd.Start(); err != nil {
					mu.Lock()
					harnessErrs = append(harnessErrs, err.Error())
					stop = true
					mu.Unlock()
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				var werr error
				killed := false
			wait:
				for {
					select {
					case werr = <-done:
						break wait
					case <-time.After(300 * time.Millisecond):
						mu.Lock()
						st := stop
						mu.Unlock()
						if st && !killed {
							killed = true
							syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
						}
					}
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				so.Close()
				se.Close()
				// Read results.
				rs := readResults(base + ".out")
				mu.Lock()
				lastStart, finished := -1, map[int]bool{}
				gotViol := false
				for _, r := range rs {
					if r.Start {
						lastStart = r.Case
						continue
					}
					finished[r.Case] = true
					evals++
					for k, v := range r.Counters {
						if strings.HasPrefix(k, "max_") {
							if counters[k] < v {
								counters[k] = v
							}
						} else {
							counters[k] += v
						}
					}
					for k, v := range r.Known {
						known[k] = v
					}
					if r.NonTriv {
						sigs[r.Sig] = true
					}
					if r.Sample != "" && len(samples) < 6 && r.NonTriv {
						samples = append(samples, fmt.Sprintf("case %d: %s", r.Case, r.Sample))
					}
					if r.Viol != "" {
						gotViol = true
						switch r.Kind {
						case "violation", "deadlock":
							viols = append(viols, r)
						default:
							harnessErrs = append(harnessErrs, fmt.Sprintf("case %d: %s: %s", r.Case, r.Kind, r.Viol))
						}
						stop = true
					}
				}
				if !killed && !gotViol && werr != nil {
					b, _ := os.ReadFile(base + ".stderr")
					txt := string(b)
					kind := crashKind(txt)
					if len(txt) > 12000 {
						txt = txt[:8000] + "\n...\n" + txt[len(txt)-4000:]
					}
					if kind == "violation" {
						viols = append(viols, result{Case: lastStart, Kind: "violation", Viol: "process crashed in code under test: " + txt})
					} else {
						harnessErrs = append(harnessErrs, fmt.Sprintf("case %d: child ended: %v\n%s", lastStart, werr, txt))
					}
					stop = true
				}
				if ck.Race {
					tr, oth := parseRaces(base + ".race*")
					racesOther += oth
					if len(tr) > 0 {
						var txt []string
						for _, r := range tr {
							txt = append(txt, r.key+"\n"+r.text)
						}
						viols = append(viols, result{Case: lastStart, Kind: "violation", Viol: fmt.Sprintf("data race (%d distinct): %s", len(tr), strings.Join(txt, "\n----\n"))})
						stop = true
					}
				}
				mu.Unlock()
				os.RemoveAll(scratch)
			}
		}(s)
	}
	wg.Wait()

	kf := loadKnown(*dir)
	var kkeys []string
	for k := range known {
		kkeys = append(kkeys, k)
	}
	sort.Strings(kkeys)
	knownSeen := []string{}
	for _, k := range kkeys {
		if f, ok := kf[*id+"/"+k]; ok && f.Status != "fixed" {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *id, k, f.What)
			knownSeen = append(knownSeen, k)
		} else {
			viols = append(viols, result{Kind: "violation", Viol: "unlisted finding " + k + ": " + known[k]})
		}
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(sigs),
		"rule":                ck.Rule,
		"samples":             samples,
		"observed":            counters,
		"cases_planned":       total,
	}
	if ck.Race {
		cov["race_detector"] = true
		cov["race_reports_outside_target"] = racesOther
	}
	if len(knownSeen) > 0 {
		cov["known_findings_seen"] = knownSeen
	}
	ev := map[string]interface{}{
		"property": *id, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if samples == nil {
		cov["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, *id+".json"), append(b, '\n'), 0o644)

	if len(viols) > 0 {
		sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })
		v := viols[0]
		rp := filepath.Join(evDir, "replays", fmt.Sprintf("%s-seed%d-case%d.txt", *id, seed, v.Case))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s /verif/run.sh %s -replay %d\n\n%s\n\n", *id, seed, tier, *id, v.Case, v.Viol)
		fmt.Fprintf(&sb, "history:\n%s\n", strings.Join(v.Trace, "\n"))
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		msg := v.Viol
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rp)
		return 1
	}
	if len(harnessErrs) > 0 {
		for _, h := range harnessErrs {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", h)
		}
		return 3
	}
	if evals < total || len(sigs) == 0 {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: only %d of %d cases completed, %d non-trivial\n", evals, total, len(sigs))
		return 3
	}
	fmt.Printf("%s: held on %d executions (%d distinct non-trivial), %.1fs, observed %v\n", *id, evals, len(sigs), time.Since(start).Seconds(), counters)
	return 0
}

// crashKind decides from the output of a crashed process whether the code
// under test crashed it.
func crashKind(txt string) string {
	if strings.Contains(txt, "unexpected fault address") {
		// The harness has no unsafe code: the memory came from the code under test.
		return "violation"
	}
	i := strings.Index(txt, "\npanic: ")
	if strings.HasPrefix(txt, "panic: ") {
		i = 0
	}
	if i < 0 {
		i = strings.Index(txt, "fatal error: ")
		if i < 0 {
			return "harness"
		}
		if strings.Contains(txt, "out of memory") {
			// unbounded allocation requested by the code under test
			j := strings.Index(txt[i:], "goroutine ")
			if j >= 0 && firstOwner(firstBlock(txt[i+j:])) == "target" {
				return "violation"
			}
			return "harness"
		}
	}
	rest := txt[i:]
	j := strings.Index(rest, "\ngoroutine ")
	if j < 0 {
		return "harness"
	}
	if firstOwner(firstBlock(rest[j+1:])) == "target" {
		return "violation"
	}
	return "harness"
}

func firstBlock(s string) string {
	if i := strings.Index(s, "\n\n"); i >= 0 {
		return s[:i]
	}
	return s
}

func readResults(fn string) []result {
	f, err := os.Open(fn)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []result
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 0 {
			var res result
			if json.Unmarshal(line, &res) == nil {
				out = append(out, res)
			}
		}
		if err != nil {
			return out
		}
	}
}
