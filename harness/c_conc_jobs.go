package main

import (
	"os"
	"time"
)

// c07Ops are the operations goroutines run.
func c07Ops() []sop {
	return []sop{
		{Cfg: 0, API: "analyze", Mode: 1, In: "ab"},
		{Cfg: 1, API: "analyze", Mode: 2, In: "漢a"},
		{Cfg: 0, API: "analyze", Mode: 3, In: "x\xff"},
		{Cfg: 2, API: "graph", Mode: 1, In: "a"},
		{Cfg: 3, API: "wakati", In: "aa"},
		{Cfg: 0, API: "tokenize", In: ""},
	}
}

func c07Jobs(thorough bool) (pairs, triples, colds []schedJob) {
	ops := c07Ops()
	warm := []sop{{Cfg: 1, API: "analyze", Mode: 2, In: "abab漢a"}}
	pols := []int{0, 1}
	for i := range ops {
		for k := i; k < len(ops); k++ {
			for _, w := range [][]sop{nil, warm} {
				for _, p := range pols {
					if w == nil && p == 1 {
						continue
					}
					pairs = append(pairs, schedJob{Warm: w, Threads: [][]sop{{ops[i]}, {ops[k]}}, Policy: p})
				}
			}
			colds = append(colds, schedJob{Threads: [][]sop{{ops[i]}, {ops[k]}}})
		}
	}
	for i := range ops {
		triples = append(triples, schedJob{Threads: [][]sop{{ops[i]}, {ops[(i+1)%len(ops)]}, {ops[(i+3)%len(ops)]}}},
			schedJob{Warm: warm, Threads: [][]sop{{ops[i], ops[(i+2)%len(ops)]}, {ops[(i+1)%len(ops)], ops[i]}}})
	}
	return
}

func runC07(c *Ctx) {
	var b *schedBin
	if os.Getenv("VH_FREE") == "" {
		b = buildSched(c, false, true)
	}
	if b == nil {
		stressC07(c)
		return
	}
	defer b.close()
	c.Set("scheduling_points_in_source", b.points)
	if len(b.uncontrolled) > 0 {
		c.Set("files_without_scheduling_points", b.uncontrolled)
	}
	pairs, triples, colds := c07Jobs(c.thorough)
	for _, j := range []schedJob{pairs[0], triples[1]} {
		c.Sample("schedules of", 2, j)
	}
	min := func(q, t int) time.Duration {
		if c.thorough {
			return time.Duration(t) * time.Second
		}
		return time.Duration(q) * time.Second
	}
	ok := b.run(c, "two goroutines, switches at every statement, <=1 preemption", pairs, 1, true, false, min(60, 600)) &&
		b.run(c, "three goroutines or two calls each, switches at every statement, <=1 preemption", triples, 1, true, false, min(60, 600)) &&
		b.run(c, "two goroutines in a fresh process, switches at synchronisation operations, <=1 preemption", colds, 1, false, true, min(60, 600)) &&
		b.run(c, "two goroutines, switches at synchronisation operations, <=2 preemptions", pairs, 2, false, false, min(60, 600)) &&
		b.run(c, "three goroutines, switches at synchronisation operations, <=2 preemptions", triples, 2, false, false, min(90, 600))
	n := 4
	if c.thorough {
		n = len(colds)
	}
	ok = ok && b.run(c, "two goroutines in a fresh process, switches at every statement, <=1 preemption", colds[:n], 1, true, true, min(75, 1200))
	if c.thorough {
		ok = ok && b.run(c, "two goroutines, switches at synchronisation operations, <=3 preemptions", pairs, 3, false, false, min(60, 1800)) &&
			b.run(c, "two goroutines, switches at every statement, <=2 preemptions", pairs, 2, true, false, min(60, 3600))
	}
	if !ok {
		stressC07(c)
	}
}

// stressC07 is for code the scheduler cannot control: goroutines run freely under the race detector. This is no
// exploration, and the evidence says so.
func stressC07(c *Ctx) {
	c.mu.Lock()
	c.exhaustive = false
	c.extra["fallback"] = "the code could not be put under the scheduler; goroutines ran freely under the race detector instead"
	c.mu.Unlock()
	if c.Done() {
		return
	}
	c.Group("fallback: free-running goroutines under the race detector")
	b := buildFree(c)
	if b == nil {
		return
	}
	defer b.close()
	pairs, triples, _ := c07Jobs(c.thorough)
	c.Sample("goroutines of", 1, pairs[0])
	b.run(c, "free-running", append(pairs, triples...), 0, false, false, 40*time.Second)
}

func init() {
	register("C07", "model_checking", runC07, nil)
}
