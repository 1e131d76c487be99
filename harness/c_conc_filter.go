package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"slices"
	"time"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func c23Ops() []sop {
	return []sop{
		{API: "f:match", Cfg: 0, In: "a,b,c;a,c;z,x;e,e;a"},
		{API: "f:match", Cfg: 0, In: "a,c,d;e;a,x"},
		{API: "f:match", Cfg: 1, In: "z,b,z;a,b;a,b,c"},
		{API: "f:string", Cfg: 0},
		{API: "f:pos", Cfg: 0},
		{API: "f:pos", Cfg: 0, Mode: 1},
		{API: "f:pos", Cfg: 1},
		{API: "f:word", Cfg: 0},
		{API: "f:word", Cfg: 0, Mode: 1},
		{API: "f:word", Cfg: 1},
		{API: "f:func", In: "a"},
		{API: "f:func", In: "b", Mode: 1},
		{API: "f:ja", Cfg: 0},
		{API: "f:ja", Cfg: 0, Mode: 1},
		{API: "f:ja", Cfg: 1},
		{API: "f:new", In: "a,b;b;c,?,e"},
		{API: "f:new", In: "a,?,c;b,b"},
		{API: "f:split", Cfg: 0, In: "あ い。」う\n\nえ!お"},
		{API: "f:split", Cfg: 0, In: "abc? x\n \ny."},
		{API: "f:split", Cfg: 1, In: "あいう えおか、」き"},
		{API: "f:split", Cfg: 2, In: "a b。\n\nc"},
		{API: "f:janew"},
		{API: "f:janew", In: "ab,漢"},
	}
}

// turns uses two scanners over one splitter in the turns the bits of m say, and each to its end then. What Bytes returned
// is looked at before the next Scan of the same scanner.
func turns(split bufio.SplitFunc, texts [2]string, m int) (res [2][]string) {
	var scs [2]*bufio.Scanner
	var last [2][]byte
	for k := range scs {
		scs[k] = bufio.NewScanner(&chunks{texts[k], 1 + k*2})
		scs[k].Split(split)
	}
	step := func(k int) {
		if last[k] != nil {
			res[k] = append(res[k], string(last[k]))
			last[k] = nil
		}
		if scs[k].Scan() {
			last[k] = scs[k].Bytes()
			if last[k] == nil {
				last[k] = []byte{}
			}
		}
	}
	for ; m > 1; m >>= 1 {
		step(m & 1)
	}
	for k := range scs {
		for step(k); last[k] != nil; step(k) {
		}
	}
	return
}

type chunks struct {
	s string
	n int
}

func (r *chunks) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(b, r.s[:min(r.n, len(r.s))])
	r.s = r.s[n:]
	return n, nil
}

// c23Lists: whatever the caller does with the lists it made a filter from or the vectors it asked for, the filter's
// answers stay the same; and making and asking leave the lists as they are.
func c23Lists(c *Ctx) {
	c.Group("lists changed after a filter was made from them")
	al := []string{"a", "b", filter.Any}
	var pats, vecs [][]string
	var grow func(al, p []string, n int, out *[][]string)
	grow = func(al, p []string, n int, out *[][]string) {
		if len(p) > 0 {
			*out = append(*out, append(make([]string, 0, len(p)+2), p...)) // with room to append
		}
		if n > 0 {
			for _, x := range al {
				grow(al, append(p[:len(p):len(p)], x), n-1, out)
			}
		}
	}
	n := 2
	if c.thorough {
		n = 3
	}
	grow(al, nil, n, &pats)
	grow([]string{"a", "b", "c"}, nil, 3, &vecs)
	tokens := schedTokensOf("ab漢axx abb漢b")
	show := func(f *filter.FeaturesFilter, pf *filter.POSFilter, w *filter.WordFilter, jf *ja.Filter) string {
		var b []byte
		for _, v := range vecs {
			b = append(b, "ft"[btoi(f.Match(v))], "ft"[btoi(pf.Match(v))], "ft"[btoi(w.Match(v[0]))])
		}
		b = fmt.Appendf(b, "%q", jf.Yield(tokens))
		return string(append(b, f.String()...))
	}
	parallel(c, len(pats), func(_, i int) {
		for k := range pats {
			for pos := 0; pos < len(pats[i])+len(pats[k]) && !c.Done(); pos++ {
				for _, x := range []string{"c", "b", filter.Any} {
					c.states.Add(1)
					c.traces.Add(1)
					c.transitions.Add(int64(3 * len(vecs)))
					check := func() error {
						ps := [][]string{slices.Grow(slices.Clone(pats[i]), 2), slices.Grow(slices.Clone(pats[k]), 2)}
						words := []string{ps[0][0], ps[1][0], "ab"}
						tags := [][]string{{"名詞", "一般"}, {"動詞"}}
						before := fmt.Sprintf("%q %q %q", ps, words, tags)
						f, pf, w := filter.NewFeaturesFilter(ps...), filter.NewPOSFilter(ps...), filter.NewWordFilter(words)
						jf := mustRepo(ja.NewFilter(ja.StopTagsFilterOption(tags), ja.StopWordsFilterOption(words), ja.BaseFormFilterOption(tags[1:])))
						want := show(f, pf, w, jf)
						if after := fmt.Sprintf("%q %q %q", ps, words, tags); after != before {
							return fmt.Errorf("making and using filters changed the caller's lists from\n%s\nto\n%s", before, after)
						}
						if pos < len(ps[0]) {
							ps[0][pos] = x
						} else {
							ps[1][pos-len(ps[0])] = x
						}
						_ = append(ps[0], x, x)
						ps[0], ps[1] = ps[1], []string{x}
						words[0], words[2] = x, x
						tags[0][1], tags[1][0], tags[0] = x, x, []string{x}
						if got := show(f, pf, w, jf); got != want {
							return fmt.Errorf("filters made from %s answer\n%s\nafter the caller changed its lists, before that they answered\n%s", before, got, want)
						}
						return nil
					}
					if err := safe(check); err != nil {
						c.Fail("lists changed after a filter was made from them", map[string]any{"patterns": [][]string{pats[i], pats[k]}, "position": pos, "to": x}, err, check)
						return
					}
				}
			}
		}
	})
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// schedTokensOf analyses with a small dictionary.
func schedTokensOf(s string) []tokenizer.Token {
	d := &Synth{Keys: []string{"a", "a", "ab", "b", "漢"}, N: 2, Conn: []int16{-1, 5, 7, -3}, Group: 0b0010, Invoke: 0b10,
		Morphs: [][3]int16{{0, 1, 4}, {1, 0, 3}, {1, 1, 2}, {0, 0, 1}, {0, 1, 2}}}
	d.defaultUnk(3)
	return d.cfg().TOmit.Analyze(s, tokenizer.Normal)
}

func c23Turns(c *Ctx) {
	bits := 8
	if c.thorough {
		bits = 14
	}
	texts := []string{"あ い。う」 え。お", " a。\n\nbc!  d、」ef", "x y", "。。 」\n \nz q!", ""}
	sp := &filter.SentenceSplitter{Delim: []rune("。、"), Follower: []rune("」"), SkipWhiteSpace: true, MaxRuneLen: 5}
	raw := filter.SentenceSplitter{Delim: []rune("。"), DoubleLineFeedSplit: true, MaxRuneLen: 100}
	c.Group("two scanners used in turns")
	for si, split := range []bufio.SplitFunc{filter.ScanSentences, sp.ScanSentences, raw.ScanSentences} {
		for _, x := range texts {
			for _, y := range texts {
				tx := [2]string{x, y}
				alone := fmt.Sprintf("%q", [2][]string{turns(split, [2]string{x, ""}, 1)[0], turns(split, [2]string{"", y}, 1)[1]})
				for m := 1 << bits; m < 2<<bits && !c.Done(); m++ {
					c.states.Add(1)
					c.traces.Add(1)
					c.transitions.Add(int64(bits))
					check := func() error {
						if got := fmt.Sprintf("%q", turns(split, tx, m)); got != alone {
							return fmt.Errorf("used in the turns %b, two scanners over one splitter give\n%s\neach alone gives\n%s", m, got, alone)
						}
						return nil
					}
					if err := safe(check); err != nil {
						c.Fail("two scanners used in turns", map[string]any{"splitter": si, "texts": tx, "turns": fmt.Sprintf("%b", m)}, err, check)
						break
					}
				}
			}
		}
	}
}

func runC23(c *Ctx) {
	c23Lists(c)
	c23Turns(c)
	ops := c23Ops()
	var pairs, colds, triples []schedJob
	light := len(ops) - 2
	for i := range ops {
		for k := i; k < len(ops); k++ {
			colds = append(colds, schedJob{Threads: [][]sop{{ops[i]}, {ops[k]}}})
			if i < light && k < light {
				pairs = append(pairs, schedJob{Threads: [][]sop{{ops[i]}, {ops[k]}}})
			}
		}
		if i < light {
			triples = append(triples, schedJob{Threads: [][]sop{{ops[i]}, {ops[(i+1)%light]}, {ops[(i+2)%light]}}},
				schedJob{Warm: []sop{ops[(i+3)%light]}, Threads: [][]sop{{ops[i], ops[(i+1)%light]}, {ops[(i+1)%light], ops[i]}}})
		}
	}
	var news []schedJob
	for i := range ops {
		news = append(news, schedJob{Threads: [][]sop{{ops[light]}, {ops[i]}}}, schedJob{Threads: [][]sop{{ops[light+1]}, {ops[i]}}})
	}
	var b *schedBin
	if os.Getenv("VH_FREE") == "" {
		b = buildSchedOf(c, []string{"tokenizer", "filter"}, false, true, "sched_filter.go")
	}
	ok := b != nil
	if ok {
		defer b.close()
		c.Set("scheduling_points_in_source", b.points)
		if len(b.uncontrolled) > 0 {
			c.Set("files_without_scheduling_points", b.uncontrolled)
		}
		c.Sample("schedules of", 2, pairs[0])
		lim := func(q, t int) time.Duration {
			if c.thorough {
				return time.Duration(t) * time.Second
			}
			return time.Duration(q) * time.Second
		}
		ok = b.run(c, "two goroutines, switches at every statement, <=1 preemption", pairs, 1, true, false, lim(60, 600)) &&
			b.run(c, "three goroutines or two uses each, switches at every statement, <=1 preemption", triples, 1, true, false, lim(60, 600)) &&
			b.run(c, "two goroutines in a fresh process, switches at synchronisation operations, <=1 preemption", colds, 1, false, true, lim(60, 600)) &&
			b.run(c, "two goroutines, one makes a Japanese filter, switches at synchronisation operations, <=2 preemptions", news, 2, false, false, lim(60, 600))
		if c.thorough {
			ok = ok && b.run(c, "two goroutines, one makes a Japanese filter, switches at every statement, <=1 preemption", news, 1, true, false, lim(0, 1200)) &&
				b.run(c, "two goroutines, switches at every statement, <=2 preemptions", pairs, 2, true, false, lim(0, 3600)) &&
				b.run(c, "two goroutines in a fresh process, switches at every statement, <=1 preemption", colds[:12], 1, true, true, lim(0, 1200))
		}
		d := 3
		if c.thorough {
			d = 4
		}
		ok = ok && b.runSeqs(c, fmt.Sprintf("all sequences of %d uses", d), ops, d, 0, lim(60, 1800))
	}
	if !ok {
		c.mu.Lock()
		c.exhaustive = false
		c.extra["fallback"] = "the code could not be put under the scheduler; goroutines ran freely under the race detector instead"
		c.mu.Unlock()
		if c.Done() {
			return
		}
		f := buildFree(c, "sched_filter.go")
		defer f.close()
		c.Sample("goroutines of", 1, pairs[0])
		f.run(c, "free-running", append(pairs, triples...), 0, false, false, 40*time.Second)
	}
}

func init() {
	register("C23", "model_checking", runC23, nil)
}
