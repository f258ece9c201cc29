// Command drive runs one check: it starts the child processes that explore the shards of the space, confirms
// failures, writes the evidence file and prints the verdict.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/mc"
)

var (
	bin     = flag.String("bin", "", "child binary")
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "quick", "quick or thorough")
	out     = flag.String("out", "", "scratch directory")
	verif   = flag.String("verif", "/verif", "framework directory")
	shards  = flag.Int("n", 8, "processes")
	replay  = flag.String("replay", "", "replay file")
	level   = flag.String("level", "model_checking", "evidence level")
	deadArg = flag.Float64("deadline", 0, "seconds for the exploration")
	isTest  = flag.Bool("test", false, "the child is a test binary")
)

type describe struct {
	ID, Level, Rule string
	Assumptions     []string
	Drivers         []string
}

func command(cfg mc.Config) *exec.Cmd {
	b, _ := json.Marshal(cfg)
	args := []string{}
	if *isTest {
		args = append(args, "-test.run=^TestMC$", "-test.timeout=0", "-test.count=1")
	}
	cmd := exec.Command(*bin, args...)
	races := filepath.Join(*out, "race")
	cmd.Env = append(os.Environ(), "MC_CFG="+string(b), "GOMAXPROCS=2", "MC_RACE_LOG="+races,
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path="+races)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	t0 := time.Now()
	if *replay != "" {
		doReplay(*replay)
	}
	var d describe
	if o, err := command(mc.Config{Cmd: "describe", Prop: *prop, Out: *out, Tier: *tier}).CombinedOutput(); err != nil {
		die("describe: %v\n%s", err, o)
	}
	b, err := os.ReadFile(filepath.Join(*out, "describe.json"))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &d); err != nil {
		die("%v", err)
	}
	deadline := *deadArg
	if deadline == 0 {
		deadline = 560
		if *tier == "thorough" {
			deadline = 3000
		}
	}
	type child struct {
		res   mc.Result
		err   error
		log   []byte
		crash *mc.Violation
	}
	kids := make([]child, *shards)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := false
	procs := make([]*exec.Cmd, *shards)
	for i := range kids {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var buf bytes.Buffer
			cmd := command(mc.Config{Cmd: "run", Prop: *prop, Tier: *tier, Shard: i, Of: *shards, Deadline: deadline, Out: *out})
			cmd.Stdout, cmd.Stderr = &limited{b: &buf}, &limited{b: &buf}
			mu.Lock()
			if stop {
				mu.Unlock()
				return
			}
			err := cmd.Start()
			procs[i] = cmd
			mu.Unlock()
			if err == nil {
				err = cmd.Wait()
			}
			kids[i].err, kids[i].log = err, buf.Bytes()
			if b, e := os.ReadFile(filepath.Join(*out, fmt.Sprintf("result.%d.json", i))); e == nil {
				json.Unmarshal(b, &kids[i].res)
			}
			mu.Lock()
			defer mu.Unlock()
			if stop {
				return
			}
			if len(kids[i].res.Violations) > 0 {
				stop = true
			} else if !kids[i].res.Done {
				// the child died: a fatal error of the runtime, a panic on a goroutine of the code, a hang
				di, trail, e := mc.ReadJournal(filepath.Join(*out, fmt.Sprintf("journal.%d", i)))
				if e == nil && di < len(d.Drivers) {
					mu.Unlock()
					kids[i].crash = confirmCrash(d.Drivers[di], trail, kids[i].log)
					mu.Lock()
					if kids[i].crash != nil {
						stop = true
					}
				}
			}
			if stop {
				for _, p := range procs {
					if p != nil && p.Process != nil {
						p.Process.Kill()
					}
				}
			}
		}(i)
	}
	wg.Wait()

	var viol *mc.Violation
	var errs []string
	var total mc.Result
	agg := map[string]*mc.DriverResult{}
	order := []string{}
	for i := range kids {
		k := &kids[i]
		if len(k.res.Violations) > 0 && (viol == nil || len(k.res.Violations[0].Trail) < len(viol.Trail)) {
			viol = &k.res.Violations[0]
		}
		if k.crash != nil && viol == nil {
			viol = k.crash
		}
		if k.res.Error != "" {
			errs = append(errs, k.res.Error)
		} else if !k.res.Done && !stop {
			errs = append(errs, fmt.Sprintf("shard %d died: %v\n%s", i, k.err, tail(k.log)))
		}
		total.ExtraStates += k.res.ExtraStates
		total.StatesCapped = total.StatesCapped || k.res.StatesCapped
		total.Unstable = append(total.Unstable, k.res.Unstable...)
		for _, dr := range k.res.Drivers {
			a := agg[dr.Name]
			if a == nil {
				c := dr
				c.Samples = nil
				c.Executions, c.NonTrivial, c.Steps, c.WallS = 0, 0, 0, 0
				c.Complete = true
				agg[dr.Name] = &c
				a = &c
				order = append(order, dr.Name)
			}
			a.Executions += dr.Executions
			a.NonTrivial += dr.NonTrivial
			a.Steps += dr.Steps
			a.Complete = a.Complete && dr.Complete
			if dr.WallS > a.WallS {
				a.WallS = dr.WallS
			}
			a.Samples = append(a.Samples, dr.Samples...)
		}
	}
	states := countStates() + total.ExtraStates
	var execs, nontriv, steps int64
	complete := viol == nil && !stop
	samples := []string{}
	drs := []mc.DriverResult{}
	for _, n := range order {
		a := agg[n]
		execs += a.Executions
		nontriv += a.NonTrivial
		steps += a.Steps
		complete = complete && a.Complete
		sort.Strings(a.Samples)
		if len(a.Samples) > 3 {
			a.Samples = []string{a.Samples[0], a.Samples[len(a.Samples)/2], a.Samples[len(a.Samples)-1]}
		}
		samples = append(samples, a.Samples...)
		drs = append(drs, *a)
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	for i := range drs {
		drs[i].Samples = nil
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	cov := map[string]interface{}{
		"evaluations":                   execs,
		"distinct_nontrivial":           nontriv,
		"rule":                          d.Rule,
		"states":                        states,
		"transitions":                   steps,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"exhaustive":                    complete,
		"drivers":                       drs,
		"states_capped":                 total.StatesCapped,
		"explanation":                   "every execution is one distinct choice sequence of a driver, run on the real code and compared step by step with the reference model; states are distinct canonical states seen at the steps, transitions are operations executed on the code",
	}
	if len(total.Unstable) > 0 {
		cov["unstable_not_reported"] = len(total.Unstable)
		cov["unstable_sample"] = total.Unstable[0].Message
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": *level, "coverage": cov,
		"assumptions": d.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ = json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if viol != nil {
		dir := filepath.Join(*verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *prop, clean(viol.Driver)))
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		for _, l := range viol.Log {
			fmt.Println("  |", l)
		}
		fmt.Printf("%s driver %s: %s\n", *prop, viol.Driver, viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		os.Exit(1)
	}
	if len(errs) > 0 {
		die("%s: error of the check: %s", *prop, strings.Join(errs, "\n"))
	}
	if len(total.Unstable) > 0 {
		fmt.Printf("%s: %d executions failed but did not fail again when repeated; first: %s\n", *prop, len(total.Unstable), total.Unstable[0].Message)
	}
	fmt.Printf("%s %s: held on %d executions, %d states, %d transitions, complete=%v, %.1fs\n", *prop, *tier, execs, states, steps, complete, time.Since(t0).Seconds())
	for _, a := range drs {
		fmt.Printf("  %-22s executions=%d transitions=%d complete=%v %.1fs\n", a.Name, a.Executions, a.Steps, a.Complete, a.WallS)
	}
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '-' || r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, s)
}

func tail(b []byte) string {
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

// limited keeps the first and discards the rest of what a child prints.
type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// confirmCrash repeats the execution during which a child died; it is a violation if the repetitions die too.
func confirmCrash(driver string, trail []int, log []byte) *mc.Violation {
	died := 0
	var last []byte
	for i := 0; i < 2; i++ {
		cmd := command(mc.Config{Cmd: "replay", Prop: *prop, Tier: *tier, Out: *out, Driver: driver, Trail: trail})
		o, err := cmd.CombinedOutput()
		if err != nil && !bytes.Contains(o, []byte("HarnessError")) {
			died++
			last = o
		}
	}
	if died < 2 {
		return nil
	}
	msg := "the process running the code died"
	for _, s := range []string{"panic:", "fatal error:", "MC-HANG", "MC-MEMORY", "REPLAY: property broken:"} {
		if i := bytes.Index(last, []byte(s)); i >= 0 {
			e := i + 600
			if e > len(last) {
				e = len(last)
			}
			msg += ": " + string(last[i:e])
			break
		}
	}
	return &mc.Violation{Property: *prop, Driver: driver, Tier: *tier, Trail: trail, Message: msg}
}

func countStates() int64 {
	all := map[uint64]struct{}{}
	for i := 0; i < *shards; i++ {
		b, err := os.ReadFile(filepath.Join(*out, fmt.Sprintf("states.%d", i)))
		if err != nil {
			continue
		}
		for j := 0; j+8 <= len(b); j += 8 {
			all[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
		}
	}
	return int64(len(all))
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var v mc.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		die("%v", err)
	}
	if v.Tier == "" {
		v.Tier = "quick"
	}
	cmd := command(mc.Config{Cmd: "replay", Prop: v.Property, Tier: v.Tier, Out: *out, Driver: v.Driver, Trail: v.Trail})
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 {
			os.Exit(1)
		}
		fmt.Println("REPLAY: the process died:", err)
		os.Exit(1)
	}
	os.Exit(0)
}
