package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
)

// exit codes of worker and exec processes
const (
	exitOK      = 0
	exitFail    = 10 // a *Failure; the message is in the output file
	exitInvalid = 11 // the case is outside the domain (exec only)
	exitHang    = 12 // absurd CPU time for one case
	exitMemory  = 13 // absurd memory for one case
	exitUsage   = 20
)

// Result is what a worker reports.
type Result struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Class       map[string]int64 `json:"class"`
	Samples     []*Case          `json:"samples"`
	Failed      bool             `json:"failed"`
	Index       int              `json:"index"`
	Msg         string           `json:"msg"`
	Complete    bool             `json:"complete"`
}

func merge(dst, src map[string]int64) {
	for k, v := range src {
		if len(k) > 4 && k[:4] == "max:" {
			dst[k] = max(dst[k], v)
		} else {
			dst[k] += v
		}
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var caseSerial atomic.Int64

// watch ends the process when a single case uses absurd CPU time or memory.
func watch(cpuLimit time.Duration, memLimit uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		last, t0 := int64(-1), cpuTime()
		for {
			time.Sleep(40 * time.Millisecond)
			if s := caseSerial.Load(); s != last {
				last, t0 = s, cpuTime()
			} else if cpuTime()-t0 > cpuLimit {
				os.Exit(exitHang)
			}
			metrics.Read(sample)
			if sample[0].Value.Uint64() > memLimit {
				os.Exit(exitMemory)
			}
		}
	}()
}

const (
	caseCPU = 45 * time.Second // the slowest case takes about a second
	caseMem = 3 << 30          // the largest case needs less than 300 MB
)

func fingerprint(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func guarded(p *Property, c *Case, st *Stats) (err error) {
	caseSerial.Add(1)
	debug.SetPanicOnFault(true)
	for j := range c.Ops {
		if len(c.Pools) == 0 && (c.Ops[j].K < 0 || c.Ops[j].K >= len(c.Keys)) && c.Prop != "C15" && c.Prop != "C19" {
			return &Invalid{"key index"}
		}
	}
	return runCase(p, c, st)
}

type workerArgs struct {
	prop, tier    string
	seed          int64
	shard, of, n  int
	from          int
	journal, out  string
	fps           string
	deadline      int // seconds
	variantOffset int
}

// worker runs the cases shard, shard+of, ... below n.
func worker(a workerArgs) int {
	p := registry[a.prop]
	if p == nil {
		return exitUsage
	}
	watch(caseCPU, caseMem)
	res := &Result{Class: map[string]int64{}, Index: -1}
	jf, err := os.OpenFile(a.journal, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUsage
	}
	var fps []byte
	var buf [8]byte
	end := time.Now().Add(time.Duration(a.deadline) * time.Second)
	code := exitOK
	res.Complete = true
	for i := a.shard; i < a.n; i += a.of {
		if time.Now().After(end) {
			res.Complete = false
			break
		}
		idx := i + a.variantOffset
		binary.LittleEndian.PutUint64(buf[:], uint64(idx)+1)
		jf.WriteAt(buf[:], 0)
		c := p.generate(newR(a.seed, a.prop, idx), a.tier, idx)
		st := &Stats{Class: map[string]int64{}}
		t0 := cpuTime()
		err := guarded(p, c, st)
		st.max("case_cpu_ms", float64((cpuTime()-t0)/time.Millisecond))
		if inv, ok := err.(*Invalid); ok {
			res.Class["discarded: "+inv.Msg]++
			continue
		}
		if err != nil {
			res.Failed, res.Index, res.Msg = true, idx, err.Error()
			code = exitFail
			break
		}
		res.Evaluations++
		merge(res.Class, st.Class)
		if st.Nontrivial {
			res.Nontrivial++
			b, _ := json.Marshal(c)
			fps = binary.LittleEndian.AppendUint64(fps, fingerprint(b))
			if len(res.Samples) == 0 && len(b) < 100000 || len(res.Samples) < 2 && len(b) < 1500 || len(b) < 400 && len(res.Samples) < 3 {
				res.Samples = append(res.Samples, c)
			}
		}
	}
	b, _ := json.Marshal(res)
	os.WriteFile(a.fps, fps, 0o644)
	if err := os.WriteFile(a.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUsage
	}
	return code
}

// Replay is a reproducible violation.
type Replay struct {
	Prop    string   `json:"property"`
	Build   string   `json:"build"`
	Env     []string `json:"env,omitempty"`
	Proc    int      `json:"proc"`
	Msg     string   `json:"message"`
	Repeat  int      `json:"repeat"` // executions of the case in one process
	Case    *Case    `json:"case,omitempty"`
	Seed    int64    `json:"seed"`
	Tier    string   `json:"tier"`
	Index   int      `json:"index"`
	Step    int      `json:"step,omitempty"` // without a case: the cases From, From+Step, ..., Index in one process
	From    int      `json:"from,omitempty"`
	HowTo   string   `json:"how_to"`
	Log     string   `json:"log,omitempty"`
	Process string   `json:"process_exit,omitempty"`
}

// execReplay runs a replay in this process.
func execReplay(r *Replay) int {
	p := registry[r.Prop]
	if p == nil {
		return exitUsage
	}
	watch(caseCPU, caseMem)
	runtime.GOMAXPROCS(max(2, r.Proc))
	run := func(c *Case) int {
		err := guarded(p, c, &Stats{Class: map[string]int64{}})
		switch err := err.(type) {
		case nil:
			return exitOK
		case *Invalid:
			fmt.Println("invalid:", err.Msg)
			return exitInvalid
		default:
			fmt.Println(err.Error())
			return exitFail
		}
	}
	if r.Case != nil {
		for i := 0; i < max(1, r.Repeat); i++ {
			if code := run(r.Case.clone()); code != exitOK {
				return code
			}
		}
		return exitOK
	}
	for i := r.From; i <= r.Index; i += max(1, r.Step) {
		if code := run(p.generate(newR(r.Seed, r.Prop, i), r.Tier, i)); code == exitFail {
			return code
		}
	}
	return exitOK
}
