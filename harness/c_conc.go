package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// schedAnswer is what a worker prints.
type schedAnswer struct {
	Schedules, Steps, MaxSteps int64
	Violations                 []struct {
		Job  json.RawMessage `json:"job"`
		Plan json.RawMessage `json:"plan"`
		Msg  string          `json:"msg"`
	}
	Capped bool
	Pools  [3]int64
}

type schedBin struct {
	path         string
	dir          string
	points       int
	uncontrolled []string
	free         bool // not under the scheduler
}

// buildSched builds this program with the instrumented packages. It returns nil if that is not possible.
func buildSched(c *Ctx, withServer, race bool) *schedBin {
	return buildSchedOf(c, []string{"tokenizer"}, withServer, race)
}

func buildSchedOf(c *Ctx, dirs []string, withServer, race bool, more ...string) *schedBin {
	dir := must(os.MkdirTemp(filepath.Join(verifDir, ".build"), "sched-"))
	tags := "sched"
	extra := map[string]string{}
	opt := instrOpt{}
	if withServer {
		dirs = append(dirs, "cmd/server")
		tags += ",schedhttp"
		p := filepath.Join(dir, "zzvhttp.go")
		if err := genHTTPShim(p); err != nil {
			c.Set("server_instrumentation", err.Error())
			return nil
		}
		extra["zzvhttp/zzvhttp.go"] = p
		opt.imports = map[string]string{"net/http": "github.com/ikawaha/kagome/v2/zzvhttp"}
	}
	ov, unc, points, err := instrumentDirs(repoDir, dir, dirs, extra, opt)
	if err != nil {
		c.Set("instrumentation_error", err.Error())
		os.RemoveAll(dir)
		return nil
	}
	bin := filepath.Join(dir, "vhs")
	args := []string{"build", "-overlay", ov, "-tags", tags, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "sched_main.go", "sched.go", "sched_op.go", "schedtypes.go", "sched_seq.go", "show.go", "synth.go", "util.go")
	args = append(args, more...)
	if race {
		args = append(args, "sched_race.go")
	} else {
		args = append(args, "sched_norace.go")
	}
	if withServer {
		args = append(args, "sched_http.go")
	} else {
		args = append(args, "sched_nohttp.go")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the instrumented code does not build: %v\n%s\n", err, clip(string(b), 3000))
		c.Set("instrumentation_error", clip(string(b), 600))
		os.RemoveAll(dir)
		return nil
	}
	return &schedBin{path: bin, dir: dir, points: points, uncontrolled: unc}
}

// buildFree builds the program whose goroutines are not controlled.
func buildFree(c *Ctx, more ...string) *schedBin {
	dir := must(os.MkdirTemp(filepath.Join(verifDir, ".build"), "free-"))
	bin := filepath.Join(dir, "vhf")
	cmd := exec.Command("go", "build", "-race", "-o", bin, "sched_main.go", "sched_free.go", "sched_op.go", "sched_race.go", "schedtypes.go", "show.go", "synth.go", "util.go")
	cmd.Args = append(cmd.Args, more...)
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the free-running program does not build: %v\n%s\n", err, clip(string(b), 3000))
		os.RemoveAll(dir)
		os.Exit(3)
	}
	return &schedBin{path: bin, dir: dir, free: true}
}

func (b *schedBin) close() {
	if os.Getenv("VH_KEEP") == "" {
		os.RemoveAll(b.dir)
	}
}

// base runs every operation alone, each in a process of its own.
func (b *schedBin) base(c *Ctx, jobs []schedJob) map[string]string {
	ops := map[string]sop{}
	for _, j := range jobs {
		for _, t := range j.Threads {
			for _, o := range t {
				k := string(must(json.Marshal(o)))
				ops[k] = o
			}
		}
	}
	return b.baseOps(c, sortedKeys(ops))
}

func (b *schedBin) baseOps(c *Ctx, keys []string) map[string]string {
	ret := map[string]string{}
	var mu sync.Mutex
	parallel(c, len(keys), func(_, i int) {
		cmd := exec.Command(b.path, "schedbase", keys[i])
		cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Run(); err != nil {
			if strings.Contains(e.String(), "ikawaha/kagome/v2") {
				c.Fail("alone", json.RawMessage(keys[i]), fmt.Errorf("a single call fails: %s", clip(e.String(), 3000)), nil)
				return
			}
			panic(fmt.Sprintf("schedbase %s: %v %s", keys[i], err, e.String()))
		}
		mu.Lock()
		ret[keys[i]] = o.String()
		mu.Unlock()
	})
	return ret
}

// run spreads the jobs over the cores. It returns false if the code could not be controlled.
func (b *schedBin) run(c *Ctx, name string, jobs []schedJob, bound int, fine, cold bool, limit time.Duration) bool {
	if c.Done() {
		return true
	}
	c.Group(name)
	base := b.base(c, jobs)
	if c.Done() {
		return true
	}
	n := workers()
	ok := true
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		t := schedTask{Bound: bound, Cold: cold, Fine: fine, LimitS: int(limit / time.Second), Base: base}
		for i := w; i < len(jobs); i += n {
			t.Jobs = append(t.Jobs, jobs[i])
		}
		if len(t.Jobs) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(b.path, "schedworker")
			cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0")
			cmd.Stdin = bytes.NewReader(must(json.Marshal(t)))
			var o bytes.Buffer
			var e tail
			cmd.Stdout, cmd.Stderr = &o, &e
			err := cmd.Run()
			text := string(e.b)
			if os.Getenv("VH_TRACE") != "" {
				os.Stderr.WriteString(text)
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				code := cmd.ProcessState.ExitCode()
				sched := json.RawMessage(`null`)
				if i := strings.LastIndex(text, "SCHEDULE "); i >= 0 {
					s, _, _ := strings.Cut(text[i+9:], "\n")
					if json.Valid([]byte(s)) {
						sched = json.RawMessage(s)
					}
				}
				switch {
				case code == 71 || code == 72:
					b.confirm(c, name, sched, firstLine(text[max(0, strings.LastIndex(text, "LOCK:")-4):]))
				case code == 74:
					ok = false
					c.Set("not_controllable", clip(text, 600))
				case strings.Contains(text, "ikawaha/kagome/v2/") && (strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:")):
					c.Fail(name, sched, fmt.Errorf("the process died: %s", clip(text, 4000)), nil)
				default:
					ok = false
					c.Set("not_controllable", fmt.Sprintf("exit %d: %s", code, clip(text, 600)))
				}
				return
			}
			var a schedAnswer
			if err := json.Unmarshal(o.Bytes(), &a); err != nil {
				ok = false
				c.Set("not_controllable", "bad answer: "+clip(o.String(), 200))
				return
			}
			c.states.Add(a.Schedules)
			c.transitions.Add(a.Steps)
			c.traces.Add(a.Schedules)
			c.Add("schedules: "+name, a.Schedules)
			c.Add("pool_reuses", a.Pools[2])
			c.mu.Lock()
			if v, _ := c.extra["longest_run_steps"].(int64); a.MaxSteps > v {
				c.extra["longest_run_steps"] = a.MaxSteps
			}
			c.mu.Unlock()
			if a.Capped {
				c.mu.Lock()
				c.exhaustive = false
				c.extra["capped: "+name] = true
				c.mu.Unlock()
			}
			for _, v := range a.Violations {
				cs := must(json.Marshal(map[string]json.RawMessage{"job": v.Job, "plan": v.Plan}))
				msg := v.Msg
				if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 && strings.Contains(msg, "race") {
					msg += "\n" + clip(text[i:], 3000)
				}
				if b.free {
					c.Fail(name, cs, fmt.Errorf("%s", msg), nil)
					continue
				}
				b.confirm(c, name, cs, msg)
			}
		}()
	}
	wg.Wait()
	return ok
}

// confirm runs a violating schedule again in processes of its own, and reports it if it fails there as well.
func (b *schedBin) confirm(c *Ctx, name string, cs json.RawMessage, msg string) {
	err := b.again(cs)
	if err == nil {
		// the failure may depend on the history of the worker's process: not a schedule we can show
		fmt.Fprintf(os.Stderr, "not repeatable in a fresh process, ignored: %s\n", clip(msg, 1500))
		c.Add("not_repeatable", 1)
		return
	}
	c.Fail(name, cs, fmt.Errorf("%s", msg), func() error { return b.again(cs) })
}

func (b *schedBin) again(cs json.RawMessage) error {
	var v struct {
		Job schedJob `json:"job"`
	}
	if err := json.Unmarshal(cs, &v); err != nil {
		return nil
	}
	base := b.base(&Ctx{deadline: time.Now().Add(time.Hour), extra: map[string]any{}}, []schedJob{v.Job})
	in := must(json.Marshal(map[string]any{"case": cs, "base": base}))
	cmd := exec.Command(b.path, "schedconfirm")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0")
	cmd.Stdin = bytes.NewReader(in)
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := cmd.Start(); err != nil {
		return nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil
	}
	switch cmd.ProcessState.ExitCode() {
	case 0, 75:
		return nil
	}
	return fmt.Errorf("%s", clip(o.String(), 4000))
}
