package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: amtcheck run|worker|exec|replay|builds ...")
		os.Exit(exitUsage)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	var a workerArgs
	fs.StringVar(&a.prop, "prop", "", "")
	fs.StringVar(&a.tier, "tier", "quick", "")
	fs.Int64Var(&a.seed, "seed", 1, "")
	fs.IntVar(&a.shard, "shard", 0, "")
	fs.IntVar(&a.of, "of", 1, "")
	fs.IntVar(&a.n, "n", 0, "")
	fs.IntVar(&a.variantOffset, "offset", 0, "")
	fs.StringVar(&a.journal, "journal", "", "")
	fs.StringVar(&a.out, "out", "", "")
	fs.StringVar(&a.fps, "fps", "", "")
	fs.IntVar(&a.deadline, "deadline", 600, "")
	dir := fs.String("dir", "", "directory of the built harness binaries")
	verif := fs.String("verif", "/verif", "")
	evidence := fs.String("evidence", "", "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "builds": // the builds a property needs
		p := registry[a.prop]
		if p == nil {
			os.Exit(exitUsage)
		}
		seen := map[string]bool{}
		for _, v := range p.Variants {
			if !seen[v.Build] {
				fmt.Println(v.Build)
			}
			seen[v.Build] = true
		}
	case "seedprobe":
		seedProbe(a.prop)
	case "worker":
		os.Exit(worker(a))
	case "exec":
		b, err := os.ReadFile(fs.Arg(0))
		var r Replay
		if err != nil || json.Unmarshal(b, &r) != nil {
			os.Exit(exitUsage)
		}
		os.Exit(execReplay(&r))
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		var r Replay
		if err != nil || json.Unmarshal(b, &r) != nil {
			fmt.Fprintln(os.Stderr, "cannot read replay file")
			os.Exit(2)
		}
		o := &orch{dir: *dir}
		o.scratch()
		out := o.exec(&r, 300*time.Second)
		os.RemoveAll(o.tmp)
		fmt.Println(out.msg)
		if out.fails {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, fs.Arg(0))
			os.Exit(1)
		}
		fmt.Printf("property %s holds on this replay\n", r.Prop)
	case "run":
		if *evidence == "" {
			*evidence = filepath.Join(*verif, "evidence")
		}
		o := &orch{dir: *dir, evidence: *evidence, seed: a.seed, tier: a.tier}
		o.scratch()
		code := o.run(a.prop, a.n)
		os.RemoveAll(o.tmp)
		os.Exit(code)
	default:
		os.Exit(exitUsage)
	}
}

type orch struct {
	dir, evidence, tier string
	seed                int64
	tmp                 string
	serial              int
	mu                  sync.Mutex
}

func (o *orch) scratch() {
	var err error
	if o.tmp, err = os.MkdirTemp(o.dir, "run"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func (o *orch) bin(build string) string { return filepath.Join(o.dir, "amtcheck-"+build) }

type outcome struct {
	fails   bool
	invalid bool
	unclear bool // no verdict (killed, timeout, setup trouble)
	msg     string
	exit    string
}

func limited(b []byte, n int) string {
	if len(b) > n {
		b = append(append([]byte{}, b[:n/2]...), append([]byte("\n...\n"), b[len(b)-n/2:]...)...)
	}
	return string(b)
}

func (o *orch) command(build string, env []string, proc int, args ...string) *exec.Cmd {
	cmd := exec.Command(o.bin(build), args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "GOMAXPROCS="+strconv.Itoa(max(2, proc)), "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// classify turns the end of a process into an outcome.
func classify(err error, stdout, stderr []byte, timedOut bool) (out outcome) {
	out.msg = strings.TrimSpace(string(stdout))
	if err == nil {
		return
	}
	ee, ok := err.(*exec.ExitError)
	if !ok || timedOut {
		out.unclear, out.msg = true, "process: "+fmt.Sprint(err)
		return
	}
	out.exit = ee.String()
	ws := ee.Sys().(syscall.WaitStatus)
	se := strings.TrimSpace(limited(stderr, 6000))
	switch {
	case ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM || ws.Signal() == syscall.SIGINT):
		out.unclear, out.msg = true, "killed: "+ee.String()
	case ws.ExitStatus() == exitInvalid:
		out.invalid = true
	case ws.ExitStatus() == exitUsage:
		out.unclear, out.msg = true, se
	case ws.ExitStatus() == exitFail:
		out.fails = true
	case ws.ExitStatus() == exitHang:
		out.fails, out.msg = true, fmt.Sprintf("an operation does not terminate (more than %v of CPU time for one case)", caseCPU)
	case ws.ExitStatus() == exitMemory:
		out.fails, out.msg = true, "an operation allocates without bound"
	case strings.Contains(se, "out of memory") || strings.Contains(se, "cannot allocate memory") || strings.Contains(se, "errno=12") ||
		strings.Contains(se, "failed to create new OS thread") || strings.Contains(se, "ReserveShadowMemoryRange") || strings.Contains(se, "failed to intercept"):
		out.unclear, out.msg = true, se
	case strings.Contains(se, "WARNING: DATA RACE"):
		out.fails, out.msg = true, "data race\n"+se
	case strings.Contains(se, "AddressSanitizer"):
		out.fails, out.msg = true, "address sanitizer report\n"+se
	case strings.Contains(se, "checkptr"):
		out.fails, out.msg = true, "invalid pointer arithmetic\n"+se
	default:
		out.fails, out.msg = true, "the process crashes ("+ee.String()+")\n"+se
	}
	return
}

// exec runs a replay in a fresh process.
func (o *orch) exec(r *Replay, timeout time.Duration) outcome {
	o.mu.Lock()
	o.serial++
	f := filepath.Join(o.tmp, fmt.Sprintf("exec%d.json", o.serial))
	o.mu.Unlock()
	b, _ := json.Marshal(r)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return outcome{unclear: true, msg: err.Error()}
	}
	defer os.Remove(f)
	cmd := o.command(r.Build, r.Env, r.Proc, "exec", f)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return outcome{unclear: true, msg: err.Error()}
	}
	timedOut := false
	t := time.AfterFunc(timeout, func() { timedOut = true; cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	return classify(err, so.Bytes(), se.Bytes(), timedOut)
}

type shardEnd struct {
	variant, shard int
	res            *Result
	fps            []byte
	out            outcome
	journal        int // last case started, -1 if none
}

func (o *orch) run(id string, override int) int {
	t0 := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	os.MkdirAll(o.evidence, 0o755)
	total := p.Quick
	deadline := 300
	if o.tier == "thorough" {
		total = p.Thorough
		deadline = 660
	}
	if override > 0 {
		total = override
	}
	if d, err := strconv.Atoi(os.Getenv("AMT_DEADLINE")); err == nil && d > 0 {
		deadline = d
	}
	deadline /= len(p.Variants)
	sum := &Result{Class: map[string]int64{}}
	fps := map[uint64]bool{}
	variants := []string{}
	var viol *Replay
	unclear := ""
	complete := true
	offset := 0
	for vi, v := range p.Variants {
		n := int(float64(total) * v.Scale)
		before := sum.Evaluations
		ends := o.shards(p, vi, v, n, offset, deadline)
		for _, e := range ends {
			if e.res != nil {
				sum.Evaluations += e.res.Evaluations
				sum.Nontrivial += e.res.Nontrivial
				merge(sum.Class, e.res.Class)
				if len(sum.Samples) < 3 {
					sum.Samples = append(sum.Samples, e.res.Samples...)
				}
				for i := 0; i+8 <= len(e.fps); i += 8 {
					fps[binary.LittleEndian.Uint64(e.fps[i:])] = true
				}
				complete = complete && e.res.Complete
			}
		}
		variants = append(variants, fmt.Sprintf("%s %s: %d cases", v.Build, strings.Join(v.Env, " "), sum.Evaluations-before))
		viol, unclear = o.judge(p, v, ends)
		if viol != nil || unclear != "" {
			break
		}
		offset += n
	}
	if viol != nil {
		viol = o.shrink(viol)
		path := filepath.Join(o.evidence, "replay-"+id+".json")
		viol.HowTo = "bash /verif/replay.sh " + path
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, b, 0o644)
		sum.Msg = viol.Msg
		sum.Failed = true
		fmt.Println(viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else {
		os.Remove(filepath.Join(o.evidence, "replay-"+id+".json"))
	}
	o.writeEvidence(p, sum, fps, variants, complete, unclear, time.Since(t0))
	switch {
	case viol != nil:
		return 1
	case unclear != "":
		fmt.Fprintf(os.Stderr, "no verdict for %s: %s\n", id, unclear)
		return 2
	}
	fmt.Printf("%s: %d cases (%d distinct non-trivial), held, %.1f s\n", id, sum.Evaluations, len(fps), time.Since(t0).Seconds())
	return 0
}

// shards runs the cases of a variant in parallel worker processes.
func (o *orch) shards(p *Property, vi int, v Variant, n, offset, deadline int) []*shardEnd {
	of := min(8, max(2, runtime.NumCPU()))
	if v.Build == "race" && p.ID == "C11" {
		of = max(2, of/2)
	}
	ends := make([]*shardEnd, of)
	cmds := make([]*exec.Cmd, of)
	var wg sync.WaitGroup
	var mu sync.Mutex
	stopped := false
	for s := 0; s < of; s++ {
		e := &shardEnd{variant: vi, shard: s, journal: -1}
		ends[s] = e
		base := filepath.Join(o.tmp, fmt.Sprintf("v%ds%d", vi, s))
		cmd := o.command(v.Build, v.Env, v.Proc, "worker", "-prop", p.ID, "-tier", o.tier, "-seed", fmt.Sprint(o.seed), "-shard", fmt.Sprint(s), "-of", fmt.Sprint(of),
			"-n", fmt.Sprint(n), "-offset", fmt.Sprint(offset), "-journal", base+".j", "-out", base+".out", "-fps", base+".fps", "-deadline", fmt.Sprint(deadline))
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmds[s] = cmd
		wg.Add(1)
		go func() {
			defer wg.Done()
			// a process killed from outside (not by us) is tried again
			for try := 0; ; try++ {
				so.Reset()
				se.Reset()
				c := cmd
				if try > 0 {
					c = o.command(v.Build, v.Env, v.Proc, cmd.Args[1:]...)
					c.Stdout, c.Stderr = &so, &se
				}
				mu.Lock()
				if stopped {
					mu.Unlock()
					e.out = outcome{}
					e.res = nil
					return
				}
				// Pdeathsig is tied to the starting thread
				runtime.LockOSThread()
				err := c.Start()
				cmds[s] = c
				mu.Unlock()
				timedOut := false
				if err == nil {
					t := time.AfterFunc(time.Duration(deadline+120)*time.Second, func() { timedOut = true; c.Process.Kill() })
					err = c.Wait()
					t.Stop()
				}
				runtime.UnlockOSThread()
				mu.Lock()
				wasStopped := stopped
				mu.Unlock()
				e.out = classify(err, so.Bytes(), se.Bytes(), timedOut)
				if e.out.unclear && wasStopped {
					e.out = outcome{}
				}
				if e.out.unclear && try < 2 && !timedOut {
					continue
				}
				break
			}
			if b, err := os.ReadFile(base + ".out"); err == nil {
				r := &Result{}
				if json.Unmarshal(b, r) == nil {
					e.res = r
				}
			}
			e.fps, _ = os.ReadFile(base + ".fps")
			if b, err := os.ReadFile(base + ".j"); err == nil && len(b) == 8 {
				e.journal = int(binary.LittleEndian.Uint64(b)) - 1
			}
			if e.out.fails {
				mu.Lock()
				if !stopped {
					stopped = true
					for _, c := range cmds {
						if c != nil && c.Process != nil && c != cmds[s] {
							c.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return ends
}

// judge confirms the failures of shards in fresh processes.
func (o *orch) judge(p *Property, v Variant, ends []*shardEnd) (*Replay, string) {
	unclear := ""
	for _, e := range ends {
		if e.out.unclear {
			unclear = fmt.Sprintf("worker %d: %s", e.shard, e.out.msg)
		}
	}
	for _, e := range ends {
		if !e.out.fails {
			continue
		}
		idx, msg := e.journal, e.out.msg
		if e.res != nil && e.res.Failed {
			idx, msg = e.res.Index, e.res.Msg
		}
		if idx < 0 {
			return nil, "a worker died before its first case: " + msg
		}
		c := p.generate(newR(o.seed, p.ID, idx), o.tier, idx)
		r := &Replay{Prop: p.ID, Build: v.Build, Env: v.Env, Proc: v.Proc, Msg: msg, Case: c, Seed: o.seed, Tier: o.tier, Index: idx, Repeat: 1}
		race := strings.Contains(msg, "DATA RACE")
		for try := 0; try < 6; try++ {
			if try >= 2 {
				r.Repeat = 25
			}
			out := o.exec(r, 150*time.Second)
			if out.fails {
				r.Msg, r.Process = out.msg, out.exit
				// a second time, to exclude a transient disturbance
				if o.exec(r, 150*time.Second).fails || race || strings.Contains(out.msg, "DATA RACE") || o.exec(r, 150*time.Second).fails {
					return r, ""
				}
			}
		}
		// the failure may need the history of the process: run the worker's cases up to it
		for _, k := range []int{2, 8, 64, 1 << 30} {
			of := len(ends)
			from := idx
			for j := 0; j < k && from-of >= 0 && from-of >= idx-idx; j++ {
				from -= of
			}
			rs := *r
			rs.Case, rs.From, rs.Step = nil, from, of
			out := o.exec(&rs, 400*time.Second)
			if out.fails && o.exec(&rs, 400*time.Second).fails {
				rs.Msg, rs.Process = out.msg, out.exit
				return &rs, ""
			}
			if from-of < 0 {
				break
			}
		}
		if race { // a report of the race detector is conclusive
			r.Repeat, r.Log = 200, msg
			return r, ""
		}
		unclear = fmt.Sprintf("case %d failed once and could not be reproduced: %s", idx, msg)
	}
	return nil, unclear
}

func (o *orch) writeEvidence(p *Property, s *Result, fps map[uint64]bool, variants []string, complete bool, unclear string, wall time.Duration) {
	classes := map[string]int64{}
	maxima := map[string]int64{}
	for k, v := range s.Class {
		if strings.HasPrefix(k, "max:") {
			maxima[k[4:]] = v
		} else {
			classes[k] = v
		}
	}
	samples := []any{}
	sort.SliceStable(s.Samples, func(i, j int) bool { return len(s.Samples[i].Ops) < len(s.Samples[j].Ops) })
	for i, c := range s.Samples {
		if i < 3 {
			samples = append(samples, c)
		}
	}
	v := 0
	if s.Failed {
		v = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": o.tier, "seed": o.seed, "level": "exploration", "wall_s": float64(int(wall.Seconds()*10)) / 10, "violations": v,
		"assumptions": append([]string{"go toolchain " + runtime.Version() + ", linux/amd64", "distinct keys differ within their first 15 complete 64-bit hashes",
			"code running inside an operation does not insert into or delete from the container while that operation still needs its structure (see C20)"}, p.Assume...),
		"coverage": map[string]any{
			"evaluations": s.Evaluations, "distinct_nontrivial": len(fps), "rule": p.Rule, "samples": samples,
			"classes": classes, "maxima": maxima, "variants": variants, "all_planned_cases_run": complete && unclear == "" && !s.Failed,
		},
	}
	if unclear != "" {
		ev["coverage"].(map[string]any)["no_verdict"] = unclear
	}
	if s.Failed {
		ev["coverage"].(map[string]any)["violation"] = s.Msg
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(o.evidence, p.ID+".json"), b, 0o644)
}
