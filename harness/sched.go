//go:build sched

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ikawaha/kagome/v2/zzvsync"
)

func (o sop) key() string { j, _ := json.Marshal(o); return string(j) }

var keyCache = map[sop]string{}

func cachedKey(o sop) string {
	k, ok := keyCache[o]
	if !ok {
		k = o.key()
		keyCache[o] = k
	}
	return k
}

type schedOut struct {
	Res     [][]string     `json:"res"`
	R       zzvsync.Result `json:"r"`
	Races   int            `json:"races"`
	Choices []choice       `json:"choices"`
}
type choice struct {
	Step   int64
	Own    int32
	Forced bool
	Mask   uint16
}

// runJob runs the job once under a plan. from: the first step whose choices are wanted.
func runJob(j schedJob, plan []zzvsync.Decision, from int64, reset, fine bool) schedOut {
	if reset {
		zzvsync.ResetPools()
	}
	zzvsync.SetPolicy(j.Policy)
	if filterFresh != nil {
		filterFresh()
	}
	for _, o := range j.Warm {
		o.perform()
	}
	// build everything lazily created by the harness before the run
	for _, th := range j.Threads {
		for _, o := range th {
			if o.API != "http" {
				schedCfg(o.Cfg)
			}
		}
	}
	out := schedOut{Res: make([][]string, len(j.Threads))}
	var fs []func()
	for i := range j.Threads {
		i := i
		out.Res[i] = make([]string, len(j.Threads[i]))
		fs = append(fs, func() {
			for k, o := range j.Threads[i] {
				out.Res[i][k], _ = o.perform()
			}
		})
	}
	before := raceErrors()
	out.R = zzvsync.Run(plan, fs)
	out.Races = raceErrors() - before
	n := out.R.Steps
	if n >= zzvsync.MaxSteps {
		n = zzvsync.MaxSteps - 1
	}
	for s := from; s <= n; s++ {
		own, forced, coarse, mask := zzvsync.Choice(s)
		if !forced && !coarse && !fine {
			continue
		}
		rest := mask
		if !forced {
			rest &^= 1 << uint(own)
		}
		if rest == 0 || (forced && rest&(rest-1) == 0) {
			continue
		}
		out.Choices = append(out.Choices, choice{s, own, forced, mask})
	}
	return out
}

func (out *schedOut) judge(j schedJob, base map[string]string) string {
	if len(out.R.Panics) > 0 {
		return out.R.Panics[0]
	}
	if out.R.Violation != "" {
		return out.R.Violation
	}
	for i := range j.Threads {
		for k, o := range j.Threads[i] {
			if want, got := base[cachedKey(o)], out.Res[i][k]; got != want {
				return fmt.Sprintf("goroutine %d: call %d (%s) gives\n%s\nalone it gives\n%s", i, k, o.key(), got, want)
			}
		}
	}
	if out.Races > 0 {
		return "data race (reported by the race detector on this schedule)"
	}
	return ""
}

type schedStat struct {
	Schedules, Steps, Points int64
	MaxSteps                 int64
	Violations               []schedViolation
	Capped                   bool
	Pools                    [3]int64
}
type schedViolation struct {
	Job  schedJob           `json:"job"`
	Plan []zzvsync.Decision `json:"plan"`
	Msg  string             `json:"msg"`
	Fine bool               `json:"fine,omitempty"`
}

type explorer struct {
	st       *schedStat
	base     map[string]string
	cold     bool
	fine     bool
	deadline time.Time
	progress atomic.Int64
	job      schedJob
	plan     []zzvsync.Decision
}

func (e *explorer) describe() string {
	b, _ := json.Marshal(schedViolation{Job: e.job, Plan: e.plan})
	return "SCHEDULE " + string(b)
}

func coldRun(j schedJob, plan []zzvsync.Decision, fine bool) (out schedOut, msg string) {
	b, _ := json.Marshal(schedViolation{Job: j, Plan: plan, Fine: fine})
	self, _ := os.Executable()
	cmd := exec.Command(self, "schedone")
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil && so.Len() == 0 {
		code := cmd.ProcessState.ExitCode()
		if code == zzvsync.ExitDeadlock || code == zzvsync.ExitLivelock {
			return out, clip(se.String(), 500)
		}
		if strings.Contains(se.String(), "DATA RACE") || strings.Contains(se.String(), "ikawaha/kagome/v2/") {
			return out, "the process died: " + clip(se.String(), 3000)
		}
		fmt.Fprintln(os.Stderr, "cold run failed:", err, clip(se.String(), 1000))
		os.Exit(75)
	}
	if err := json.Unmarshal(so.Bytes(), &out); err != nil {
		fmt.Fprintln(os.Stderr, "cold run: bad answer", err, clip(so.String(), 300))
		os.Exit(75)
	}
	return out, ""
}

// explore runs the job under all schedules with at most budget preemptions that extend the plan.
func (e *explorer) explore(j schedJob, plan []zzvsync.Decision, budget int) {
	if len(e.st.Violations) >= 2 {
		return
	}
	if time.Now().After(e.deadline) {
		e.st.Capped = true
		return
	}
	from := int64(1)
	if len(plan) > 0 {
		from = plan[len(plan)-1].Step + 1
	}
	e.job, e.plan = j, plan
	var out schedOut
	msg := ""
	if e.cold {
		out, msg = coldRun(j, plan, e.fine)
		k := 0
		for _, c := range out.Choices {
			if c.Step >= from {
				out.Choices[k] = c
				k++
			}
		}
		out.Choices = out.Choices[:k]
	} else {
		out = runJob(j, plan, from, true, e.fine)
	}
	if msg == "" {
		msg = out.judge(j, e.base)
	}
	e.progress.Add(1)
	e.st.Schedules++
	e.st.Steps += out.R.Steps
	if out.R.Steps > e.st.MaxSteps {
		e.st.MaxSteps = out.R.Steps
	}
	if msg != "" {
		e.st.Violations = append(e.st.Violations, schedViolation{Job: j, Plan: append([]zzvsync.Decision{}, plan...), Msg: msg})
		return
	}
	for _, c := range out.Choices {
		def := c.Own
		if c.Forced {
			n := int32(len(j.Threads))
			for i := int32(1); i <= n; i++ {
				if t := (c.Own + i) % n; c.Mask>>uint(t)&1 == 1 {
					def = t
					break
				}
			}
		} else if budget == 0 {
			continue
		}
		for t := int32(0); t < 16; t++ {
			if t == def || c.Mask>>uint(t)&1 == 0 || (!c.Forced && t == c.Own) {
				continue
			}
			b := budget
			if !c.Forced {
				b--
			}
			e.explore(j, append(plan[:len(plan):len(plan)], zzvsync.Decision{Step: c.Step, To: t}), b)
		}
	}
}

func init() {
	// schedbase: results of the operations, each alone in this fresh process
	subcommands["schedbase"] = func(args []string) {
		var o sop
		json.Unmarshal([]byte(args[0]), &o)
		startHandler(o.API == "http")
		s, _ := o.perform()
		io.WriteString(os.Stdout, s)
	}
	subcommands["schedone"] = func(args []string) {
		var v schedViolation
		if err := json.NewDecoder(os.Stdin).Decode(&v); err != nil {
			os.Exit(75)
		}
		zzvsync.Describe = func() string { b, _ := json.Marshal(v); return "SCHEDULE " + string(b) }
		startHandler(v.Job.http())
		out := runJob(v.Job, v.Plan, 1, false, v.Fine)
		json.NewEncoder(os.Stdout).Encode(out)
	}
	subcommands["schedconfirm"] = func(args []string) {
		var q struct {
			Case schedViolation    `json:"case"`
			Base map[string]string `json:"base"`
		}
		if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
			os.Exit(75)
		}
		zzvsync.Describe = func() string { return "" }
		startHandler(q.Case.Job.http())
		out := runJob(q.Case.Job, q.Case.Plan, 1, true, false)
		if msg := out.judge(q.Case.Job, q.Base); msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
	}
	// schedworker: stdin = schedTask
	subcommands["schedworker"] = func(args []string) {
		var t schedTask
		if err := json.NewDecoder(os.Stdin).Decode(&t); err != nil {
			os.Exit(75)
		}
		st := &schedStat{}
		e := &explorer{st: st, base: t.Base, cold: t.Cold, fine: t.Fine, deadline: time.Now().Add(time.Duration(t.LimitS) * time.Second)}
		zzvsync.Describe = e.describe
		for _, j := range t.Jobs {
			if j.http() {
				startHandler(true)
				break
			}
		}
		go func() {
			last, same := int64(-1), 0
			for {
				time.Sleep(5 * time.Second)
				if p := e.progress.Load(); p == last {
					same++
				} else {
					last, same = p, 0
				}
				if same >= 6 {
					fmt.Fprintln(os.Stderr, "STUCK", e.describe())
					os.Exit(74)
				}
			}
		}()
		for i, j := range t.Jobs {
			e.explore(j, nil, t.Bound)
			if os.Getenv("VH_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "job %d: %d schedules, %d steps max\n", i, st.Schedules, st.MaxSteps)
			}
		}
		st.Pools = [3]int64{zzvsync.Gets, zzvsync.Puts, zzvsync.Reuses}
		json.NewEncoder(os.Stdout).Encode(st)
	}
}
