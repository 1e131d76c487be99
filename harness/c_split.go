package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/filter"
)

// SplitCfg is a splitter setting in a form that survives JSON.
type SplitCfg struct {
	Default  bool   `json:"default,omitempty"`
	Delim    string `json:"delim"`
	Follower string `json:"follower"`
	Skip     bool   `json:"skip"`
	DLF      bool   `json:"dlf"`
	Max      int    `json:"max"`
}

func (s SplitCfg) fn() bufio.SplitFunc {
	if s.Default {
		return filter.ScanSentences
	}
	return filter.SentenceSplitter{Delim: []rune(s.Delim), Follower: []rune(s.Follower), SkipWhiteSpace: s.Skip, DoubleLineFeedSplit: s.DLF, MaxRuneLen: s.Max}.ScanSentences
}

var defaultSplit = SplitCfg{Default: true, Delim: "。．！!？?", Follower: ".｣」』)）｝}〉》", Skip: true, DLF: true, Max: 128}

// refSplit is the reference splitter: the rules of C11 over the characters of the whole text.
func refSplit(s SplitCfg, text string) []string {
	const (
		head = iota // nothing of the sentence yet
		body
		tail // after a delimiter or the maximum length
	)
	var ret []string
	var cur []byte
	st, count := head, 0
	feeds := 0 // line feeds right before
	end := func() {
		if len(cur) > 0 {
			ret = append(ret, string(cur))
		}
		cur, st, count, feeds = nil, head, 0, 0
	}
	delim := func(r rune) bool { return strings.ContainsRune(s.Delim, r) }
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		skipped := s.Skip && unicode.IsSpace(r)
		if st == tail && !skipped && !delim(r) && !strings.ContainsRune(s.Follower, r) {
			end()
			continue // this character begins the next sentence
		}
		i += n
		if r == '\n' {
			feeds++
		} else {
			feeds = 0
		}
		switch {
		case skipped && st == head:
			feeds = 0
		case skipped:
			if (st == body && delim(r)) || (s.DLF && feeds == 2) {
				end()
			}
		case st == tail:
			cur = append(cur, text[i-n:i]...)
			feeds = 0
		default:
			st = body
			cur = append(cur, text[i-n:i]...)
			count++
			if s.DLF && feeds == 2 {
				end()
			} else if delim(r) || count >= s.Max {
				st, feeds = tail, 0
			}
		}
	}
	end()
	return ret
}

var scanBufs = sync.Pool{New: func() any { b := make([]byte, 1<<16); return &b }}

// scanAll runs the scanner; size>0 sets the initial buffer, max the limit.
func scanAll(s SplitCfg, r io.Reader, size, max int) ([]string, error) {
	sc := bufio.NewScanner(r)
	if size >= 0 {
		sc.Buffer(make([]byte, 0, size), max)
	} else if size == -2 {
		b := scanBufs.Get().(*[]byte)
		defer scanBufs.Put(b)
		sc.Buffer((*b)[:0], max)
	}
	sc.Split(s.fn())
	var ret []string
	for sc.Scan() {
		ret = append(ret, sc.Text())
		if len(ret) > 1<<20 {
			return ret, errors.New("too many sentences")
		}
	}
	return ret, sc.Err()
}

func stripSpace(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if !unicode.IsSpace(r) {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

type splitCase struct {
	Cfg    SplitCfg `json:"cfg"`
	Text   B        `json:"text"`
	Chunks []int    `json:"chunks,omitempty"` // sizes of the pieces
	EOF    string   `json:"eof,omitempty"`    // "with" the last piece or "after" it
	Err    int      `json:"err"`              // the read after this many bytes fails; -1 none
	Buf    int      `json:"buf"`              // initial buffer, -1 the scanner's own
	Max    int      `json:"max,omitempty"`
	Empty  bool     `json:"empty,omitempty"` // an empty read between the pieces
}

func quoteList(l []string) string {
	s := fmt.Sprintf("%q", l)
	return clip(s, 600)
}

func checkC11(cs *splitCase) error {
	text := string(cs.Text)
	got, err := scanAll(cs.Cfg, strings.NewReader(text), -2, len(text)+1<<17)
	if err != nil {
		return fmt.Errorf("scanner reports %w", err)
	}
	want := refSplit(cs.Cfg, text)
	whole := text
	if cs.Cfg.Skip {
		whole = stripSpace(text)
	}
	if strings.Join(got, "") != whole {
		return fmt.Errorf("sentences %s are not the text %q", quoteList(got), clip(text, 300))
	}
	for _, g := range got {
		if g == "" {
			return fmt.Errorf("empty sentence in %s of %q", quoteList(got), clip(text, 300))
		}
	}
	if !sameStrings(got, want) {
		return fmt.Errorf("%q is split into %s, the rules say %s", clip(text, 300), quoteList(got), quoteList(want))
	}
	return nil
}

var errRead = errors.New("read error")

// chunkReader delivers a text in given pieces.
type chunkReader struct {
	text   string
	chunks []int
	with   bool // EOF or error comes with the last piece
	end    error
	empty  bool
	gap    bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.empty && !r.gap {
		r.gap = true
		return 0, nil
	}
	r.gap = false
	if len(r.text) == 0 {
		return 0, r.end
	}
	n := len(r.text)
	if len(r.chunks) > 0 {
		n = min(n, r.chunks[0])
	}
	if n > len(p) {
		if len(r.chunks) > 0 {
			r.chunks[0] -= len(p)
		}
		n = len(p)
	} else if len(r.chunks) > 0 {
		r.chunks = r.chunks[1:]
	}
	copy(p, r.text[:n])
	r.text = r.text[n:]
	if len(r.text) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

func checkC12(cs *splitCase, want []string) error {
	text := string(cs.Text)
	rd := &chunkReader{text: text, chunks: append([]int{}, cs.Chunks...), with: cs.EOF == "with", end: io.EOF, empty: cs.Empty}
	if cs.Err >= 0 {
		rd.text = text[:cs.Err]
		rd.end = errRead
		want = refSplit(cs.Cfg, rd.text)
	} else if want == nil {
		want = refSplit(cs.Cfg, text)
	}
	mx := cs.Max
	if mx == 0 {
		mx = len(text) + 64
	}
	got, err := scanAll(cs.Cfg, rd, cs.Buf, mx)
	if cs.Err >= 0 {
		if !errors.Is(err, errRead) {
			return fmt.Errorf("the read error after %d bytes of %q is reported as %v", cs.Err, clip(text, 300), err)
		}
	} else if err != nil {
		return fmt.Errorf("scanner reports %w", err)
	}
	if !sameStrings(got, want) {
		return fmt.Errorf("%q in pieces %v is split into %s, in one piece into %s", clip(text, 300), cs.Chunks, quoteList(got), quoteList(want))
	}
	return nil
}

// settings that are combined
func splitCfgs(delims, followers []string, maxes []int) []SplitCfg {
	var ret []SplitCfg
	for _, d := range delims {
		for _, f := range followers {
			for _, m := range maxes {
				for k := 0; k < 4; k++ {
					ret = append(ret, SplitCfg{Delim: d, Follower: f, Skip: k&1 == 1, DLF: k&2 == 2, Max: m})
				}
			}
		}
	}
	return ret
}

type splitRun struct{ c *Ctx }

func (s splitRun) one(w int, group string, cs splitCase, f func(*splitCase) error) {
	s.c.Enter(w, group, "", func() any { return cs })
	err := safe(func() error { return f(&cs) })
	s.c.Leave(w)
	if err != nil {
		s.c.Fail(group, cs, err, func() error { return f(&cs) })
	}
}

func c11One(cs *splitCase) error { return checkC11(cs) }
func c12One(cs *splitCase) error { return checkC12(cs, nil) }

func runC11(c *Ctx) {
	r := splitRun{c}
	alpha := []string{"あ", "a", "。", "」", "\n", " ", "\u3000", "\xff", "😀", "."}
	n := 5
	if c.thorough {
		n = 6
	}
	cfgs := append(splitCfgs([]string{"。", "。\n", "。 \u3000a", ""}, []string{"」.", "」\n ", "。あ", ""}, []int{1, 2, 3, 128}), defaultSplit)
	cfgs = append(cfgs, splitCfgs([]string{"。"}, []string{"」"}, []int{-1, 0, 4, 5})...)
	c.Group(fmt.Sprintf("all texts of <=%d of %d symbols x %d settings", n, len(alpha), len(cfgs)))
	texts := upto(alpha, n)
	parallel(c, len(texts), func(w, i int) {
		for _, cf := range cfgs {
			r.one(w, "short", splitCase{Cfg: cf, Text: B(texts[i]), Err: -1, Buf: -2}, c11One)
		}
		c.states.Add(int64(len(cfgs)))
		c.traces.Add(int64(len(cfgs)))
		c.transitions.Add(int64(len(cfgs) * len(texts[i])))
	})
	c.Sample("short", 1, splitCase{Cfg: cfgs[3], Text: "あ。」\n\n", Err: -1})
	// longer texts over what matters
	small := []string{"あ", "。", "」", "\n", " "}
	m := 7
	if c.thorough {
		m = 9
	}
	scfgs := append(splitCfgs([]string{"。"}, []string{"」"}, []int{3, 128}), defaultSplit)
	for l := n; l <= m; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(small)
		}
		c.Group(fmt.Sprintf("all texts of %d of %d symbols x %d settings", l, len(small), len(scfgs)))
		parallel(c, total, func(w, i int) {
			t := nth(small, l, i)
			for _, cf := range scfgs {
				r.one(w, "short", splitCase{Cfg: cf, Text: B(t), Err: -1, Buf: -2}, c11One)
			}
			c.states.Add(int64(len(scfgs)))
			c.traces.Add(int64(len(scfgs)))
			c.transitions.Add(int64(len(scfgs) * len(t)))
		})
	}
	c.Group("every character in every role")
	forms := []string{"あ%あ", "あ。%あ", "%%。%」%い。", "あ\n%\nい", "あ%", "あ。」%」い"}
	chCfgs := append(splitCfgs([]string{"。"}, []string{"」"}, []int{2, 128}), defaultSplit)
	parallel(c, 0x11000, func(w, k int) {
		ch := string(rune(k))
		for _, f := range forms {
			t := strings.ReplaceAll(f, "%", ch)
			for _, cf := range chCfgs {
				r.one(w, "characters", splitCase{Cfg: cf, Text: B(t), Err: -1, Buf: -2}, c11One)
			}
			if k > 0 && k != 0xfffd && (k < 0x3100 || k > 0xf900) && !(k >= 0xd800 && k < 0xe000) {
				for _, cf := range []SplitCfg{{Delim: ch, Follower: "」", Skip: true, DLF: true, Max: 128}, {Delim: "。", Follower: ch, Skip: false, DLF: true, Max: 128}} {
					r.one(w, "characters", splitCase{Cfg: cf, Text: B(t), Err: -1, Buf: -2}, c11One)
				}
			}
			c.states.Add(int64(len(chCfgs)))
			c.traces.Add(int64(len(chCfgs)))
			c.transitions.Add(int64(len(t)))
		}
	})
	c.Group("around the maximum length")
	units := []string{"あ", "a", "😀", "\xff", "あ ", "\nあ", "あ\u3000 "}
	tails := upto([]string{"。", "」", " ", "い", "\n"}, 3)
	var ls []int
	for _, b := range []int{1, 2, 3, 127, 128, 129, 255, 256, 257, 384} {
		ls = append(ls, b)
	}
	parallel(c, len(units)*len(tails), func(w, i int) {
		for _, l := range ls {
			t := strings.Repeat(units[i%len(units)], l) + tails[i/len(units)]
			for _, cf := range []SplitCfg{defaultSplit, {Delim: "。", Follower: "」", Skip: false, DLF: true, Max: 128}, {Delim: "。", Follower: "」", Skip: true, DLF: false, Max: 127}, {Delim: "。", Follower: "」い", Skip: true, DLF: true, Max: 256}, {Delim: "。", Follower: "」", Skip: false, DLF: false, Max: 1 << 30}} {
				r.one(w, "length", splitCase{Cfg: cf, Text: B(t + "う。え"), Err: -1, Buf: -2}, c11One)
				c.states.Add(1)
				c.traces.Add(1)
				c.transitions.Add(int64(len(t)))
			}
		}
	})
	c.Group("long texts")
	text := bocchan()
	off, _ := decode(text)
	var longs []string
	for _, n := range []int{1000, 4096, 30000, len(off) - 1} {
		longs = append(longs, text[:off[min(n, len(off)-1)]])
	}
	longs = append(longs, strings.Repeat("あ", 70000), strings.Repeat("。", 70000), strings.Repeat(" ", 70000)+"あ", strings.Repeat("\n", 70000), strings.Repeat("あ。\n\n", 20000), strings.Repeat("」", 5000)+"。"+strings.Repeat("」", 5000)+"い", strings.Repeat("あ\n", 40000), strings.Repeat("あ \n \n", 300))
	parallel(c, len(longs), func(w, i int) {
		for _, cf := range append(splitCfgs([]string{"。", "。、"}, []string{"」", ""}, []int{10, 128, 1 << 20}), defaultSplit) {
			r.one(w, "long", splitCase{Cfg: cf, Text: B(longs[i]), Err: -1, Buf: -2}, c11One)
			c.states.Add(1)
			c.traces.Add(1)
			c.transitions.Add(int64(len(longs[i])))
		}
	})
	c.states.Add(c.transitions.Load()) // a state is a position in a text under a setting
	c.Set("bounds", fmt.Sprintf("all texts of <=%d of 10 symbols x %d settings, <=%d of 5 symbols; every character; lengths around the maximum; texts of 70000 characters", n, len(cfgs), m))
}

func runC12(c *Ctx) {
	r := splitRun{c}
	cfgs := []SplitCfg{defaultSplit, {Delim: "。", Follower: "」", Skip: false, DLF: true, Max: 128}, {Delim: "。\n", Follower: "」", Skip: true, DLF: true, Max: 2}, {Delim: "。", Follower: "」", Skip: true, DLF: false, Max: 3}, {Delim: "。", Follower: "」", Skip: false, DLF: false, Max: 2}}
	run := func(name string, alpha []string, n, maxBytes int) {
		texts := upto(alpha, n)
		c.Group(fmt.Sprintf("%s: all cuts of all %d texts of <=%d symbols (<=%d bytes)", name, len(texts), n, maxBytes))
		parallel(c, len(texts), func(w, i int) {
			t := texts[i]
			if len(t) > maxBytes || len(t) == 0 {
				return
			}
			for _, cf := range cfgs {
				want := refSplit(cf, t)
				for m := 0; m < 1<<(len(t)-1); m++ {
					cs := splitCase{Cfg: cf, Text: B(t), Err: -1, Buf: -2}
					k := 1
					for b := 0; b < len(t)-1; b++ {
						if m>>b&1 == 1 {
							cs.Chunks = append(cs.Chunks, k)
							k = 0
						}
						k++
					}
					cs.Chunks = append(cs.Chunks, k)
					cs.EOF = []string{"after", "with"}[m&1]
					cs.Empty = m%7 == 3
					r.one(w, name, cs, func(x *splitCase) error { return checkC12(x, want) })
					c.transitions.Add(int64(len(cs.Chunks)))
				}
				c.states.Add(1)
				c.traces.Add(1 << (len(t) - 1))
			}
		})
	}
	alpha := []string{"あ", "。", "」", "\n", " ", "\xe3", "a"}
	if c.thorough {
		run("cuts", alpha, 5, 15)
		run("cuts", []string{"。", "\n", "」", " ", "😀", "\u3000"}, 6, 14)
		run("cuts", []string{"あ", "。", "\n", " "}, 8, 12)
	} else {
		run("cuts", alpha, 4, 12)
		run("cuts", []string{"。", "\n", "」", " ", "😀", "\u3000"}, 4, 11)
		run("cuts", []string{"a", "。", "\n", " "}, 6, 9)
	}
	// longer texts: one piece boundary at every byte, two boundaries, byte by byte, buffer sizes, read errors
	texts := []string{
		"これは。」本。\n\nです　ね！？」』いい😀。 」 \n\n \xff\xe3あ。",
		"「あ。」「い。」\n\n\n。。。」」\n \n。\r\n\r\nう　。え",
		strings.Repeat("あ", 130) + "。」\n" + strings.Repeat("い\n", 140) + "。",
		"  \n\n 。 a b c\n\n", "\n\n\n", "。", " ", "あ",
		"。\u0085」\u2028\u2029\u00a0。」\ufeff。",
		"\xe3\x81。\xf0\x9f\x98。\xff\xff\n\xe3\n",
	}
	for _, f := range upto([]string{"。", "\n", "」", " ", "い"}, 3) {
		texts = append(texts, "あいうえおかきくけこ"+f+"さしす"+f)
	}
	var jobs []splitCase
	for _, t := range texts {
		for _, cf := range cfgs {
			ones := make([]int, len(t))
			for i := range ones {
				ones[i] = 1
			}
			for _, e := range []string{"after", "with"} {
				jobs = append(jobs, splitCase{Cfg: cf, Text: B(t), Chunks: ones, EOF: e, Err: -1, Buf: -1}, splitCase{Cfg: cf, Text: B(t), Chunks: ones, EOF: e, Err: -1, Buf: -1, Empty: true})
			}
			for i := 1; i < len(t); i++ {
				jobs = append(jobs, splitCase{Cfg: cf, Text: B(t), Chunks: []int{i, len(t)}, EOF: "after", Err: -1, Buf: -1})
				if len(t) < 90 {
					for j := i + 1; j < len(t); j++ {
						jobs = append(jobs, splitCase{Cfg: cf, Text: B(t), Chunks: []int{i, j - i, len(t)}, EOF: "with", Err: -1, Buf: -1})
					}
				}
			}
			for i := 0; i <= len(t); i++ { // read errors
				for _, e := range []string{"after", "with"} {
					jobs = append(jobs, splitCase{Cfg: cf, Text: B(t), Chunks: []int{len(t)}, EOF: e, Err: i, Buf: -1}, splitCase{Cfg: cf, Text: B(t), Chunks: append([]int{}, ones[:i]...), EOF: e, Err: i, Buf: -1})
				}
			}
			// initial buffer sizes
			for b := 0; b <= 40; b++ {
				jobs = append(jobs, splitCase{Cfg: cf, Text: B(t), EOF: "after", Err: -1, Buf: b}, splitCase{Cfg: cf, Text: B(t), Chunks: ones, EOF: "with", Err: -1, Buf: b})
			}
			// the smallest limit that holds every sentence with the white space around it
			need := 0
			if s := longestSpan(cf, t); s > need {
				need = s
			}
			for d := 0; d < 6; d++ {
				jobs = append(jobs, splitCase{Cfg: cf, Text: B(t), EOF: "after", Err: -1, Buf: 0, Max: need + 8 + d})
			}
		}
	}
	c.Group(fmt.Sprintf("%d deliveries of %d longer texts (cuts, empty reads, read errors, buffers)", len(jobs), len(texts)))
	parallel(c, len(jobs), func(w, i int) {
		r.one(w, "deliveries", jobs[i], c12One)
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(int64(len(jobs[i].Chunks) + 1))
	})
	c.Sample("delivery", 1, jobs[0])
	c.Sample("read error", 1, jobs[len(jobs)-400])
	// around the boundaries of the scanner's buffer and of typical readers
	c.Group("critical sequences across buffer boundaries")
	crit := upto([]string{"。", "」", "\n", " ", "😀", "\u3000", "あ", "\xff"}, 2)
	crit = append(crit, "。」』。", "\n\n\n", "。\n\n」", "。 」 」", "あ\n \nい", "。\r\n\r\n")
	fill := []string{"a", "あ", "い。", " ", "い。」 \n"}
	bounds := []int{4096, 8192}
	if c.thorough {
		bounds = []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
	}
	big := []SplitCfg{defaultSplit, {Delim: "。", Follower: "」", Skip: false, DLF: true, Max: 1 << 30}, {Delim: "。", Follower: "」", Skip: true, DLF: true, Max: 1 << 30}}
	parallel(c, len(crit)*len(fill), func(w, i int) {
		cr, fl := crit[i%len(crit)], fill[i/len(crit)]
		if cr == "" {
			return
		}
		for _, b := range bounds {
			for d := -9; d <= 2; d++ {
				t := strings.Repeat(fl, b/len(fl))
				for len(t) < b+d {
					t += "a"
				}
				t = t[:b+d]
				for len(t) > 0 && !utf8.ValidString(t) {
					t = t[:len(t)-1]
				}
				for len(t) < b+d {
					t = "b" + t
				}
				t += cr + "う。え"
				for _, cf := range big {
					r.one(w, "boundaries", splitCase{Cfg: cf, Text: B(t), EOF: "after", Err: -1, Buf: -1}, c12One)
					r.one(w, "boundaries", splitCase{Cfg: cf, Text: B(t), Chunks: []int{b, len(t)}, EOF: "with", Err: -1, Buf: 4096}, c12One)
				}
				c.states.Add(1)
				c.traces.Add(int64(2 * len(big)))
				c.transitions.Add(int64(2 * len(big)))
			}
		}
	})
	c.Group("a novel, byte by byte and in pieces of every size up to 300")
	text := bocchan()
	off, _ := decode(text)
	text = text[:off[min(len(off)-1, 20000)]]
	sizes := 60
	if c.thorough {
		sizes = 300
		text = bocchan()
	}
	parallel(c, sizes*3, func(w, i int) {
		k := i/3 + 1
		cf := big[i%3]
		if i%3 > 0 {
			cf.Max = 200
		}
		chunks := make([]int, len(text)/k+1)
		for j := range chunks {
			chunks[j] = k
		}
		t := text
		if k < 10 {
			t = t[:off[2000]]
		}
		r.one(w, "novel", splitCase{Cfg: cf, Text: B(t), Chunks: chunks, EOF: "after", Err: -1, Buf: -1}, c12One)
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(int64(len(t) / k))
	})
	c.Set("bounds", "every way to cut every text of <=4 of 7 symbols (<=12 bytes; thorough <=15); for longer texts every pair of cuts, every read error position, every initial buffer size <=40, the smallest limits; critical sequences at 12 offsets from the buffer boundaries")
}

// longestSpan is the longest stretch of text that belongs to one sentence, with the white space around it.
func longestSpan(cf SplitCfg, t string) int {
	ss := refSplit(cf, t)
	longest, at := 0, 0
	for _, s := range ss {
		// match the characters of s from at on, skipping white space
		i := at
		for k := 0; k < len(s) && i < len(t); {
			if t[i] == s[k] && !(cf.Skip && isSpaceAt(t, i)) {
				i++
				k++
			} else {
				_, n := utf8.DecodeRuneInString(t[i:])
				i += n
			}
		}
		e := i
		for e < len(t) && isSpaceAt(t, e) {
			_, n := utf8.DecodeRuneInString(t[e:])
			e += n
		}
		longest = max(longest, e-at)
		at = i
	}
	return max(longest, len(t)-at)
}

func isSpaceAt(t string, i int) bool {
	r, _ := utf8.DecodeRuneInString(t[i:])
	return unicode.IsSpace(r)
}

func replaySplit(f func(*splitCase) error) func(c *Ctx, d Doc) error {
	return func(c *Ctx, d Doc) error {
		var cs splitCase
		if err := json.Unmarshal(d.Case, &cs); err != nil {
			return nil
		}
		return f(&cs)
	}
}

func init() {
	register("C11", "model_checking", runC11, replaySplit(c11One))
	register("C12", "model_checking", runC12, replaySplit(c12One))
}
