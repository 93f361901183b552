package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func loadKnown(id string) (keys map[string]bool, text map[string]string) {
	keys, text = map[string]bool{}, map[string]string{}
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		// finding: property=<id> key=<quoted key> <what fails>
		l := sc.Text()
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		k, err := strconv.Unquote(q)
		if err != nil {
			continue
		}
		keys[k] = true
		text[k] = strings.TrimSpace(rest[len(q):])
	}
	return
}

func main() {
	log.SetOutput(io.Discard) // the generator logs
	if len(os.Args) < 2 {
		fmt.Println("usage: mc run ID TIER | mc replay FILE | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	case "run":
		os.Exit(parentMain(os.Args[2], os.Args[3]))
	case "child":
		secs, _ := strconv.Atoi(os.Args[6])
		known, _ := loadKnown(os.Args[2])
		childMain(os.Args[2], os.Args[3], os.Args[4], os.Args[5], time.Duration(secs)*time.Second, known)
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "sub":
		subMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// subMain hosts helper processes some checks need.
var subs = map[string]func(args []string){}

func subMain(args []string) { subs[args[0]](args[1:]) }

// replayMain runs one recorded case; exit 1 when it fails.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	if id, tier, ok := strings.Cut(v.History, " "); ok {
		fmt.Printf("this violation needs the cases explored before it: op=%s input=%q\n%s\nrepeat it with MC_WORKERS=1 ./run.sh %s %s\n", v.Op, v.Input, v.Msg, id, tier)
		return 1
	}
	op := ops[v.Op]
	if op == nil {
		fmt.Println("unknown op", v.Op)
		return 2
	}
	_, f := safe(op, v.Input)
	if f != nil {
		fmt.Printf("FAIL op=%s input=%q\n%s\n", v.Op, v.Input, f.Msg)
		return 1
	}
	fmt.Printf("ok op=%s input=%q\n", v.Op, v.Input)
	return 0
}

// confirm replays a case in a fresh process with CPU and memory limits. It returns whether the
// case fails there (non-zero exit, crash, CPU or memory exhaustion) and a description.
func confirm(v violation, cpu int) (bool, string) {
	dir := os.Getenv("MC_TMP")
	p := filepath.Join(dir, fmt.Sprintf("confirm-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(v)
	os.WriteFile(p, b, 0600)
	defer os.Remove(p)
	exe, _ := os.Executable()
	mem := "ulimit -v 6000000; "
	if v.Op == "C20.sched" || v.Op == "C28.race" { // the race detector reserves address space
		mem = ""
	}
	cmd := exec.Command("/bin/sh", "-c", fmt.Sprintf("ulimit -t %d; %sexec \"$0\" replay \"$1\"", cpu, mem), exe, p)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(240 * time.Second): // asleep forever: no CPU used, no answer
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return true, "no answer within 240 s of wall time (blocked)"
	}
	s := out.String()
	if len(s) > 3000 {
		s = s[:3000]
	}
	if err == nil {
		return false, s
	}
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return true, fmt.Sprintf("killed by %v (does not terminate within %d s of CPU time)\n%s", ws.Signal(), cpu, s)
		}
		if ws.ExitStatus() == 2 && !strings.Contains(s, "goroutine ") && !strings.Contains(s, "fatal error") {
			return false, s
		}
		return true, s
	}
	return false, s
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func parentMain(id, tier string) int {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	budget := 300
	if tier == "thorough" {
		budget = 780
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		budget, _ = strconv.Atoi(s)
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Setenv("MC_TMP", tmp)
	_, knownText := loadKnown(id)
	exe, _ := os.Executable()

	var viols []violation
	note := ""
	runs := 0
	// explore runs one exploring child, with the given number of workers (0 = all cores).
	explore := func(workers int) (res *result) {
		runs++
		slots := filepath.Join(tmp, fmt.Sprintf("slots%d", runs))
		outp := filepath.Join(tmp, fmt.Sprintf("out%d", runs))
		sf := openSlots(slots)
		left := budget - int(time.Since(start).Seconds())
		if left < 5 {
			return nil
		}
		cmd := exec.Command(exe, "child", id, tier, slots, outp, strconv.Itoa(left))
		cmd.Env = append(os.Environ(), "MC_WORKERS="+strconv.Itoa(workers))
		var serr bytes.Buffer
		cmd.Stdout = &serr
		cmd.Stderr = &serr
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			fmt.Println(err)
			return nil
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var suspects []violation
		lastSeq := make([]uint64, nSlots)
		lastT := make([]time.Time, nSlots)
		cleared := map[string]bool{}
		running := true
		grab := func() {
			for w := 0; w < nSlots; w++ {
				if _, busy, op, in := sf.read(w); busy {
					suspects = append(suspects, violation{Op: op, Input: in})
				}
			}
		}
		kill := func() {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			running = false
		}
		tick := time.NewTicker(200 * time.Millisecond)
		for running {
			select {
			case werr := <-done:
				running = false
				if werr != nil {
					grab()
					note = fmt.Sprintf("exploring process ended: %v", werr)
					tail := serr.String()
					if len(tail) > 1500 {
						tail = tail[:1500]
					}
					fmt.Printf("note: %s\n%s\n", note, tail)
				}
			case <-tick.C:
				now := time.Now()
				if rss(cmd.Process.Pid) > 14<<30 {
					grab()
					note = "memory blow-up"
					kill()
					break
				}
				for w := 0; w < nSlots && running; w++ {
					seq, busy, op, in := sf.read(w)
					if seq != lastSeq[w] || !busy {
						lastSeq[w], lastT[w] = seq, now
						continue
					}
					key := fmt.Sprintf("%d/%d", w, seq)
					if now.Sub(lastT[w]) > 15*time.Second && !cleared[key] {
						v := violation{Op: op, Input: in}
						if bad, why := confirm(v, 30); bad {
							v.Msg = "does not terminate: " + why
							viols = append(viols, v)
							kill()
						}
						cleared[key] = true
					}
				}
				if time.Since(start) > time.Duration(budget+40)*time.Second && running {
					note = "internal deadline"
					kill()
				}
			}
		}
		tick.Stop()
		for _, v := range suspects {
			if bad, why := confirm(v, 60); bad {
				v.Msg = "crash: " + why
				viols = append(viols, v)
				break
			}
		}
		if b, err := os.ReadFile(outp); err == nil {
			var r result
			if json.Unmarshal(b, &r) == nil {
				res = &r
			}
		}
		return res
	}
	var res *result
	for attempt := 0; attempt < 2 && res == nil && len(viols) == 0; attempt++ {
		res = explore(attempt) // once more without parallel workers: shared state of the code can break them
	}
	if res == nil {
		res = &result{Level: ck.level, Rule: ck.rule, Known: map[string]int64{}, Extra: map[string]any{}}
		if note != "" {
			res.Extra["note"] = note
		}
	}
	// violations found by the child must fail in a fresh process as well
	for _, v := range res.Violations {
		bad, why := confirm(v, 120)
		if !bad {
			fmt.Printf("note: not reproduced in a fresh process, not reported: op=%s input=%q: %s\n", v.Op, v.Input, v.Msg)
			res.Exhaustive = false
			continue
		}
		_ = why
		viols = append(viols, v)
	}
	// A case that failed but does not fail by itself depends on what was done before it in the
	// same process. Repeat the exploration in a fixed order; what fails at the same place in two
	// such runs is a reproducible violation by a history.
	if len(viols) == 0 && (len(res.Violations) > 0 || res.Flaky > 0) {
		fmt.Println("note: a failure that does not repeat in isolation; repeating the exploration in one fixed order")
		var last *violation
		for k := 0; k < 2; k++ {
			r := explore(1)
			if r == nil || len(r.Violations) == 0 {
				break
			}
			v := r.Violations[0]
			if bad, _ := confirm(v, 120); bad {
				viols = append(viols, v)
				break
			}
			if last != nil && last.Op == v.Op && bytes.Equal(last.Input, v.Input) {
				v.History = id + " " + tier
				v.Msg = "fails after the cases explored before it in the same process, not alone: " + v.Msg
				viols = append(viols, v)
			}
			last = &v
		}
	}
	writeEvidence(id, tier, res, len(viols), time.Since(start).Seconds())
	for k, n := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, knownText[k], n)
	}
	fmt.Printf("%s %s: %d cases, %d non-trivial, exhaustive=%v, %.1fs\n", id, tier, res.Evaluations, res.Nontrivial, res.Exhaustive, time.Since(start).Seconds())
	for _, p := range res.Phases {
		if os.Getenv("MC_VERBOSE") == "" && p.Cases == p.Of {
			continue
		}
		fmt.Printf("  %-60s %d/%d (%d non-trivial)\n", p.Name, p.Cases, p.Of, p.Nontrivial)
	}
	if len(viols) > 0 {
		v := viols[0]
		rd := filepath.Join(verifDir, "replays")
		os.MkdirAll(rd, 0755)
		p := filepath.Join(rd, id+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("input: %q\n%s\n", v.Input, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	return 0
}

func writeEvidence(id, tier string, r *result, nv int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{}
	for k, v := range r.Extra {
		cov[k] = v
	}
	cov["rule"] = r.Rule
	cov["samples"] = r.Samples
	if len(r.Samples) == 0 {
		cov["samples"] = []string{}
	}
	cov["exhaustive"] = r.Exhaustive && nv == 0
	cov["phases"] = r.Phases
	if r.Level != "model_checking" {
		cov["evaluations"] = r.Evaluations
		cov["distinct_nontrivial"] = r.Distinct
		cov["nontrivial_executions"] = r.Nontrivial
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": r.Level,
		"coverage": cov, "wall_s": wall, "violations": nv,
		"assumptions": r.Assumptions,
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	d := filepath.Join(verifDir, "evidence")
	os.MkdirAll(d, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(d, id+".json"), append(b, '\n'), 0644)
}
