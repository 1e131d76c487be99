package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

func c06Ops() []sop {
	return []sop{
		{Cfg: 0, API: "analyze", Mode: 1, In: "ab"},
		{Cfg: 0, API: "analyze", Mode: 2, In: "abab漢a"},
		{Cfg: 0, API: "analyze", Mode: 3, In: "x\xffy"},
		{Cfg: 1, API: "analyze", Mode: 1, In: "ab"},
		{Cfg: 1, API: "analyze", Mode: 2, In: "漢a漢ab"},
		{Cfg: 1, API: "analyze", Mode: 3, In: "xyab"},
		{Cfg: 2, API: "analyze", Mode: 1, In: "aab"},
		{Cfg: 3, API: "analyze", Mode: 1, In: "aaa"},
		{Cfg: 3, API: "analyze", Mode: 2, In: ""},
		{Cfg: 0, API: "tokenize", In: ""},
		{Cfg: 0, API: "wakati", In: "ab漢"},
		{Cfg: 1, API: "wakati", In: "ab漢"},
		{Cfg: 0, API: "graph", Mode: 1, In: "ab"},
		{Cfg: 1, API: "graph", Mode: 2, In: "漢ab"},
		{Cfg: 2, API: "graph", Mode: 3, In: "xa"},
		{Cfg: 3, API: "graph", Mode: 1, In: "aa"},
		{Cfg: 1, API: "panicgraph", Mode: 1, In: "ab漢"},
		{Cfg: 0, API: "analyze", Mode: 1, In: B(strings.Repeat("a", 70))},
		{Cfg: 3, API: "analyze", Mode: 3, In: B(strings.Repeat("漢", 33))},
		{API: "scribble"},
	}
}

// c06Matrix: the same texts through every tokenizer, entry point and mode; the tokenizers share their system dictionary, so
// a result kept under a key that leaves out one of these shows up.
func c06Matrix() []sop {
	var ops []sop
	for _, in := range []B{"ab", "漢ab"} {
		for _, cfg := range []int{0, 1, 2, 3, 4, 5} {
			for m := 1; m <= 3; m++ {
				ops = append(ops, sop{Cfg: cfg, API: "analyze", Mode: m, In: in})
			}
			ops = append(ops, sop{Cfg: cfg, API: "wakati", In: in}, sop{Cfg: cfg, API: "graph", Mode: 1, In: in}, sop{Cfg: cfg, API: "graph", Mode: 3, In: in})
		}
	}
	return append(ops, sop{API: "scribble"})
}

// c06Lengths: texts of lengths around the powers of two, each text different from the others.
func c06Lengths(th bool) []sop {
	lens := []int{0, 1, 2, 5}
	for k := 3; k <= 13; k++ {
		for x := -1; x <= 1; x++ {
			lens = append(lens, 1<<k+x)
		}
	}
	lens = append(lens, 5000, 20000)
	if th {
		lens = append(lens, 1000, 3000, 10000, 16384, 32768, 65536, 65537, 70000)
	}
	unit := []rune("ab漢xaab漢b漢xyaabab")
	var ops []sop
	for i, l := range lens {
		r := make([]rune, l)
		for k := range r {
			r[k] = unit[(k+i*5+k/97)%len(unit)]
		}
		o := sop{Cfg: i % 6, API: "analyze", Mode: 1 + i%3, In: B(string(r))}
		if l < 600 && i%5 == 4 {
			o.API = "graph"
		}
		ops = append(ops, o)
	}
	return ops
}

func (b *schedBin) runSeqs(c *Ctx, name string, ops []sop, depth, policy int, limit time.Duration) bool {
	if c.Done() {
		return true
	}
	c.Group(name)
	var keys []string
	for _, o := range ops {
		if o.API != "scribble" {
			keys = append(keys, string(must(json.Marshal(o))))
		}
	}
	bm := b.baseOps(c, keys)
	if c.Done() {
		return true
	}
	var base []string
	for _, o := range ops {
		base = append(base, bm[string(must(json.Marshal(o)))])
	}
	n := workers()
	if depth < 0 {
		n = 1
	}
	ok := true
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		t := seqTask{Ops: ops, Base: base, Depth: depth, Policy: policy, Part: w, Parts: n, LimitS: int(limit / time.Second)}
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(b.path, "seqworker")
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			cmd.Stdin = bytes.NewReader(must(json.Marshal(t)))
			var o bytes.Buffer
			var e tail
			cmd.Stdout, cmd.Stderr = &o, &e
			err := runLimited(cmd, limit+120*time.Second)
			mu.Lock()
			defer mu.Unlock()
			text := string(e.b)
			if err != nil {
				if strings.Contains(text, "ikawaha/kagome/v2/") && (strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:")) {
					c.Fail(name, nil, fmt.Errorf("the process died: %s", clip(text, 4000)), nil)
					return
				}
				ok = false
				c.Set("not_controllable", clip(fmt.Sprint(err, " ", text), 600))
				return
			}
			var a seqAnswer
			if err := json.Unmarshal(o.Bytes(), &a); err != nil {
				ok = false
				return
			}
			c.states.Add(a.Histories)
			c.transitions.Add(a.Calls)
			c.traces.Add(a.Histories)
			c.Add("histories: "+name, a.Histories)
			c.Add("pool_reuses", a.Reuses)
			if a.Capped {
				c.mu.Lock()
				c.exhaustive = false
				c.extra["capped: "+name] = true
				c.mu.Unlock()
			}
			if a.Msg != "" {
				again := func() error { return b.seqOne(c, a) }
				if a.Long {
					c.Fail(name, a.Failed, fmt.Errorf("in one long history: %s", a.Msg), again)
					return
				}
				if again() == nil {
					// the history before this one matters: still a dependence on other calls
					c.Fail(name, a.Failed, fmt.Errorf("after other histories in the same process (pools emptied in between): %s", a.Msg), again)
					return
				}
				c.Fail(name, a.Failed, fmt.Errorf("%s", a.Msg), again)
			}
		}()
	}
	wg.Wait()
	return ok
}

func runLimited(cmd *exec.Cmd, d time.Duration) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err
	case <-time.After(d):
		cmd.Process.Kill()
		<-done
		return fmt.Errorf("killed after %v", d)
	}
}

func (b *schedBin) seqOne(c *Ctx, a seqAnswer) error {
	var keys, base []string
	for _, o := range a.Failed {
		if o.API != "scribble" {
			keys = append(keys, string(must(json.Marshal(o))))
		}
	}
	bm := b.baseOps(&Ctx{deadline: time.Now().Add(time.Hour), extra: map[string]any{}}, keys)
	for _, o := range a.Failed {
		base = append(base, bm[string(must(json.Marshal(o)))])
	}
	cmd := exec.Command(b.path, "seqone")
	cmd.Stdin = bytes.NewReader(must(json.Marshal(seqTask{Ops: a.Failed, Base: base, Policy: a.Policy})))
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := runLimited(cmd, time.Minute); err == nil || cmd.ProcessState.ExitCode() == 75 {
		return nil
	}
	return fmt.Errorf("%s", clip(o.String(), 3000))
}

// ---- histories on the real dictionaries, with the code as it is ----

type rop struct {
	Dict string `json:"dict"` // ipa, uni
	User int    `json:"user"` // 0 none
	Omit bool   `json:"omit"`
	API  string `json:"api"`
	Mode int    `json:"mode"`
	In   B      `json:"in"`
}

func realOps() []rop {
	var ops []rop
	ins := []B{"", "すもももももももものうち", "関西国際空港の東京大学", "ABC\xff漢字ｱ😀", B(strings.Repeat("すもも東京", 60))}
	for _, d := range []string{"ipa", "uni"} {
		for i, in := range ins {
			ops = append(ops, rop{Dict: d, API: "analyze", Mode: 1 + i%3, In: in})
			ops = append(ops, rop{Dict: d, User: 1 + i%2, API: "analyze", Mode: 1 + (i+1)%3, In: in, Omit: i%2 == 1})
		}
		ops = append(ops, rop{Dict: d, API: "wakati", In: ins[1]}, rop{Dict: d, User: 1, API: "graph", Mode: 2, In: ins[2]},
			rop{Dict: d, API: "graph", Mode: 3, In: ins[3]}, rop{Dict: d, User: 2, API: "panic", Mode: 1, In: ins[1]})
	}
	return ops
}

var realToks sync.Map

func (o rop) tok() *tokenizer.Tokenizer {
	k := fmt.Sprint(o.Dict, o.User, o.Omit)
	if v, ok := realToks.Load(k); ok {
		return v.(*tokenizer.Tokenizer)
	}
	d := ipaDict()
	if o.Dict == "uni" {
		d = uniDict()
	}
	opts := []tokenizer.Option{}
	switch o.User {
	case 1:
		opts = append(opts, tokenizer.UserDict(userDict(append([]string{}, userWords...))))
	case 2:
		opts = append(opts, tokenizer.UserDict(userDict([]string{"もも", "国際"})))
	}
	if o.Omit {
		opts = append(opts, tokenizer.OmitBosEos())
	}
	t := mustRepo(tokenizer.New(d, opts...))
	realToks.Store(k, t)
	return t
}

type failAfter struct{ n int }

func (f *failAfter) Write(b []byte) (int, error) {
	f.n--
	if f.n < 0 {
		panic("writer")
	}
	return len(b), nil
}

func (o rop) perform() (string, []tokenizer.Token) {
	t := o.tok()
	var b strings.Builder
	var ts []tokenizer.Token
	switch o.API {
	case "wakati":
		fmt.Fprintf(&b, "%q", t.Wakati(string(o.In)))
	case "graph":
		var g bytes.Buffer
		ts = t.AnalyzeGraph(&g, string(o.In), tokenizer.TokenizeMode(o.Mode))
		b.WriteString(normalGraph(g.Bytes()))
	case "panic":
		func() {
			defer func() { recover() }()
			t.AnalyzeGraph(&failAfter{9}, string(o.In), tokenizer.TokenizeMode(o.Mode))
		}()
	default:
		ts = t.Analyze(string(o.In), tokenizer.TokenizeMode(o.Mode))
	}
	b.WriteString(describe(ts))
	return b.String(), ts
}

func realBase(c *Ctx, ops []rop) []string {
	base := make([]string, len(ops))
	self := must(os.Executable())
	parallel(c, len(ops), func(_, i int) {
		cmd := exec.Command(self, "c06base", string(must(json.Marshal(ops[i]))))
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Run(); err != nil {
			panic(fmt.Sprintf("ikawaha/kagome/v2 call alone fails: %v %s", err, clip(e.String(), 2000)))
		}
		base[i] = o.String()
	})
	return base
}

func runReal(c *Ctx) {
	c.Group("real dictionaries: baselines in fresh processes")
	ops := realOps()
	base := realBase(c, ops)
	if c.Done() {
		return
	}
	c.Sample("history", 2, []rop{ops[0], ops[5], ops[0]})
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	c.Group("real dictionaries: every history a,b,a of calls one after the other")
	for i := range ops {
		for k := range ops {
			if c.Done() {
				return
			}
			hist := []rop{ops[i], ops[k], ops[i]}
			want := []string{base[i], base[k], base[i]}
			run := func() error {
				var kept [][]tokenizer.Token
				var desc []string
				for n, o := range hist {
					got, ts := o.perform()
					if got != want[n] {
						return fmt.Errorf("call %d (%+v) gives\n%s\nin a fresh process it gives\n%s", n, o, clip(got, 1500), clip(want[n], 1500))
					}
					kept = append(kept, ts)
					desc = append(desc, describe(ts))
				}
				for n := range kept {
					if describe(kept[n]) != desc[n] {
						return fmt.Errorf("the tokens of call %d changed afterwards", n)
					}
				}
				return nil
			}
			c.states.Add(1)
			c.transitions.Add(3)
			c.traces.Add(3)
			if err := run(); err != nil {
				c.Fail("real histories", hist, err, run)
			}
		}
	}
}

func runC06(c *Ctx) {
	if b := buildSched(c, false, false); b != nil {
		defer b.close()
		ops := c06Ops()
		pol := []string{"last in first out", "first in first out", "always new", "alternating"}
		depth := 4
		if c.thorough {
			depth = 5
		}
		ok := b.runSeqs(c, fmt.Sprintf("all histories of %d of %d calls, pools %s", depth, len(ops), pol[0]), ops, depth, 0, 10*time.Minute)
		for p := 1; p < 4 && ok; p++ {
			ok = b.runSeqs(c, fmt.Sprintf("all histories of %d of %d calls, pools %s", depth, len(ops), pol[p]), ops, depth, p, 10*time.Minute)
		}
		for p := 0; p < 2 && ok; p++ {
			ok = b.runSeqs(c, fmt.Sprintf("one history with every sequence of %d calls, pools %s, never emptied", depth-1, pol[p]), ops, -(depth - 1), p, 10*time.Minute)
		}
		if mo := c06Matrix(); ok {
			d := 3
			ok = b.runSeqs(c, fmt.Sprintf("all histories of %d of %d calls that differ in tokenizer, entry point and mode only", d, len(mo)), mo, d, 0, 10*time.Minute)
			if ok {
				ok = b.runSeqs(c, fmt.Sprintf("one history with every sequence of %d of %d such calls", 2, len(mo)), mo, -2, 0, 10*time.Minute)
			}
		}
		if lo := c06Lengths(c.thorough); ok {
			ok = b.runSeqs(c, fmt.Sprintf("all pairs of %d texts of lengths around the powers of two", len(lo)), lo, 2, 0, 10*time.Minute)
		}
		c.Sample("history", 3, []sop{ops[1], ops[9], ops[19], ops[12]})
		c.Set("bounds", fmt.Sprintf("histories of %d calls over %d operations", depth, len(ops)))
	} else {
		c.Set("pools", "the package sync stand-in could not be put in place; only histories with the real pools were explored")
	}
	runReal(c)
}

func init() {
	subcommands["c06base"] = func(args []string) {
		var o rop
		if err := json.Unmarshal([]byte(args[0]), &o); err != nil {
			os.Exit(75)
		}
		s, _ := o.perform()
		io.WriteString(os.Stdout, s)
	}
	register("C06", "model_checking", runC06, nil)
}
