package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func evidencePath(id string) string { return filepath.Join(verifDir, "evidence", id+".json") }
func replayDir() string {
	d := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(d, 0o755)
	return d
}
func stuckPath(id string) string { return filepath.Join(replayDir(), id+"-stuck.json") }

// Doc is a replay file.
type Doc struct {
	Property string          `json:"property"`
	Group    string          `json:"group"`
	Case     json.RawMessage `json:"case,omitempty"`
	Message  string          `json:"message"`
	Repro    string          `json:"reproduced,omitempty"`
	InFlight []slotDoc       `json:"in_flight,omitempty"`
}

type slotDoc struct {
	Group string          `json:"group"`
	Case  json.RawMessage `json:"case"`
}

type violation struct{ msg, replay string }

// Ctx is the state of one check run.
type Ctx struct {
	id, tier                    string
	seed                        int
	thorough                    bool
	start                       time.Time
	deadline                    time.Time
	states, transitions, traces atomic.Int64
	mu                          sync.Mutex
	samples                     []any
	sampleCount                 map[string]int
	violations                  []violation
	stop                        atomic.Bool
	exhaustive                  bool
	extra                       map[string]any
	assumptions                 []string
	noEvidence                  bool
	group                       atomic.Value // string
	slots                       []*slot
	slowOK                      bool
	groupStart                  map[string]time.Time
}

const stuckAfter = 60 * time.Second

func newCtx(id, tier string) *Ctx {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{id: id, tier: tier, seed: seed, thorough: tier == "thorough", start: time.Now(), exhaustive: true,
		sampleCount: map[string]int{}, extra: map[string]any{}, groupStart: map[string]time.Time{}}
	c.slowOK = os.Getenv("VH_SLOW_OK") != ""
	limit := 420 * time.Second
	if c.thorough {
		limit = 3 * time.Hour
	}
	if v := os.Getenv("VH_LIMIT_S"); v != "" {
		n, _ := strconv.Atoi(v)
		limit = time.Duration(n) * time.Second
	}
	c.deadline = c.start.Add(limit)
	return c
}

// Done says that exploration should end (enough violations, or the internal deadline).
func (c *Ctx) Done() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.stop.Store(true)
		c.mu.Lock()
		c.exhaustive = false
		c.extra["capped_by_internal_deadline"] = true
		c.mu.Unlock()
		return true
	}
	return false
}

// Group starts a named part of the exploration.
func (c *Ctx) Group(name string) {
	c.group.Store(name)
	fmt.Fprintf(os.Stderr, "[%s %6.1fs] %s\n", c.id, time.Since(c.start).Seconds(), name)
}

// notExhaustive: part of the space could not be explored.
func (c *Ctx) notExhaustive() { c.mu.Lock(); c.exhaustive = false; c.mu.Unlock() }

func (c *Ctx) Set(k string, v any) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }
func (c *Ctx) Add(k string, n int64) {
	c.mu.Lock()
	v, _ := c.extra[k].(int64)
	c.extra[k] = v + n
	c.mu.Unlock()
}

// Sample keeps at most n samples per kind.
func (c *Ctx) Sample(kind string, n int, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleCount[kind] >= n {
		return
	}
	c.sampleCount[kind]++
	c.samples = append(c.samples, map[string]any{"kind": kind, "case": v})
}

// Fail records a violation; again (may be nil) runs the case once more.
func (c *Ctx) Fail(group string, cs any, err error, again func() error) {
	repro := ""
	if again != nil {
		k := 0
		for i := 0; i < 5; i++ {
			if safe(again) != nil {
				k++
			}
		}
		repro = fmt.Sprintf("%d/5", k)
	}
	c.report(group, cs, err.Error(), repro)
}

// FailIfRepeatable is for oracles that involve time or the network: the failure must be seen again each of 5 times.
func (c *Ctx) FailIfRepeatable(group string, cs any, err error, again func() error) {
	c.failIf(5, group, cs, err, again)
}

// FailIfTwice is FailIfRepeatable for slow cases.
func (c *Ctx) FailIfTwice(group string, cs any, err error, again func() error) {
	c.failIf(2, group, cs, err, again)
}

func (c *Ctx) failIf(n int, group string, cs any, err error, again func() error) {
	for i := 0; i < n; i++ {
		if e := safe(again); e == nil {
			fmt.Fprintf(os.Stderr, "not repeatable, ignored: %v\n", err)
			c.Add("not_repeatable", 1)
			return
		}
	}
	c.report(group, cs, err.Error(), fmt.Sprintf("%d/%d", n, n))
}

func safe(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func (c *Ctx) report(group string, cs any, msg, repro string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.violations) >= 5 {
		c.stop.Store(true)
		return
	}
	raw, _ := json.Marshal(cs)
	d := Doc{Property: c.id, Group: group, Case: raw, Message: msg, Repro: repro}
	p := filepath.Join(replayDir(), fmt.Sprintf("%s-%d.json", c.id, len(c.violations)))
	writeJSON(p, d)
	fmt.Fprintf(os.Stderr, "violation in %s (%s): %s\n", group, repro, clip(msg, 3000))
	c.violations = append(c.violations, violation{msg, p})
	c.stop.Store(true)
}

func writeJSON(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		os.WriteFile(p, b, 0o644)
	}
}

func (c *Ctx) finish() int {
	cov := map[string]any{
		"states":                        c.states.Load(),
		"transitions":                   c.transitions.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"samples":                       c.samples,
		"exhaustive":                    c.exhaustive && len(c.violations) == 0,
	}
	if lv := registry[c.id].level; lv == "fault_enumeration" || lv == "exploration" {
		cov["evaluations"] = c.traces.Load()
		cov["distinct_nontrivial"] = c.states.Load()
		delete(cov, "states")
		delete(cov, "transitions")
		delete(cov, "traces_validated_against_impl")
		cov["steps"] = c.transitions.Load()
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": registry[c.id].level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations),
	}
	if len(c.assumptions) > 0 {
		ev["assumptions"] = c.assumptions
	}
	if !c.noEvidence {
		os.MkdirAll(filepath.Dir(evidencePath(c.id)), 0o755)
		writeJSON(evidencePath(c.id), ev)
	}
	if len(c.violations) > 0 {
		for _, v := range c.violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, v.replay)
			fmt.Printf("  %s\n", strings.ReplaceAll(strings.ToValidUTF8(clip(v.msg, 1200), "\uFFFD"), "\n", "\n  "))
		}
		return 1
	}
	if c.states.Load() == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 3
	}
	fmt.Printf("ok property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs\n", c.id, c.tier,
		c.states.Load(), c.transitions.Load(), c.traces.Load(), time.Since(c.start).Seconds())
	return 0
}

func stack() string { return string(debug.Stack()) }

func (c *Ctx) harnessPanic(r any) {
	st := stack()
	_, refused := r.(repoErr)
	if refused || strings.Contains(st, "ikawaha/kagome/v2") {
		g, _ := c.group.Load().(string)
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(1)
		c.notExhaustive()
		c.report(g, nil, fmt.Sprintf("panic: %v\n%s", r, st), "")
		return
	}
	fmt.Fprintf(os.Stderr, "harness error: %v\n%s\n", r, st)
	os.Exit(3)
}

// ---- in-flight cases: what each worker is doing, readable after a crash ----

const slotSize = 8192
const maxSlots = 64

type slot struct {
	mem   []byte
	since atomic.Int64 // unix nanoseconds, 0 = idle
	limit atomic.Int64
	cs    atomic.Value
}

type inflight struct {
	group string
	cs    func() any
}

func slotFile(id string) string { return filepath.Join(replayDir(), id+"-inflight.bin") }

func (c *Ctx) startWatchdog() {
	f, err := os.OpenFile(slotFile(c.id), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	var mem []byte
	if err == nil {
		f.Truncate(slotSize * maxSlots)
		mem, err = syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		f.Close()
	}
	for i := 0; i < maxSlots; i++ {
		s := &slot{}
		if err == nil {
			s.mem = mem[i*slotSize : (i+1)*slotSize]
		}
		c.slots = append(c.slots, s)
	}
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(time.Second)
			now := time.Now().UnixNano()
			runtime.ReadMemStats(&ms)
			big := ms.HeapAlloc > 22<<30
			for _, s := range c.slots {
				t := s.since.Load()
				lim := s.limit.Load()
				if lim == 0 {
					lim = int64(stuckAfter)
				}
				if t != 0 && (big || (now-t > lim && !c.slowOK)) {
					in, _ := s.cs.Load().(inflight)
					if in.cs == nil {
						continue
					}
					raw, _ := json.Marshal(in.cs())
					writeJSON(stuckPath(c.id), Doc{Property: c.id, Group: in.group, Case: raw, Message: "did not come back"})
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					os.Stderr.Write(buf)
					os.Exit(exitStuck)
				}
			}
		}
	}()
}

// Enter marks slot i as running the case; mk is evaluated only if something goes wrong, raw is stored at once.
func (c *Ctx) Enter(i int, group string, raw string, mk func() any) {
	if i >= len(c.slots) {
		return
	}
	s := c.slots[i]
	if s.mem != nil && raw != "" {
		r := group + "\x00" + raw
		if len(r) > slotSize-8 {
			r = r[:slotSize-8]
		}
		copy(s.mem[4:], r)
		s.mem[0], s.mem[1], s.mem[2], s.mem[3] = byte(len(r)), byte(len(r)>>8), byte(len(r)>>16), 1
	}
	s.cs.Store(inflight{group, mk})
	s.since.Store(time.Now().UnixNano())
}

// Leave marks slot i as idle.
func (c *Ctx) Leave(i int) {
	if i >= len(c.slots) {
		return
	}
	c.slots[i].since.Store(0)
	if m := c.slots[i].mem; m != nil {
		m[3] = 0
	}
}

func readSlots(id string) []slotDoc {
	b, err := os.ReadFile(slotFile(id))
	if err != nil {
		return nil
	}
	var ret []slotDoc
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := b[i : i+slotSize]
		n := int(s[0]) | int(s[1])<<8 | int(s[2])<<16
		if s[3] != 1 || n == 0 || n > slotSize-4 {
			continue
		}
		g, raw, _ := strings.Cut(string(s[4:4+n]), "\x00")
		var m json.RawMessage
		if json.Unmarshal([]byte(raw), &m) != nil {
			m, _ = json.Marshal(raw)
		}
		ret = append(ret, slotDoc{g, m})
	}
	return ret
}

// ---- parallel enumeration ----

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// parallel calls f(worker, i) for all i in [0,n), in chunks, on all cores.
func parallel(c *Ctx, n int, f func(w, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	nw := workers()
	chunk := n / (nw * 64)
	if chunk < 1 {
		chunk = 1
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					c.harnessPanic(r)
				}
			}()
			for !c.Done() {
				i := int(next.Add(int64(chunk))) - chunk
				if i >= n {
					return
				}
				for j := i; j < i+chunk && j < n; j++ {
					if c.stop.Load() {
						return
					}
					f(w, j)
				}
			}
		}(w)
	}
	wg.Wait()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
