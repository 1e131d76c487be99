package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"
)

// W is a worker's local state.
type W struct {
	n                           int
	c                           *Ctx
	states, transitions, traces int64
	cases, paths                int64
}

func (w *W) flush() {
	w.c.states.Add(w.states)
	w.c.transitions.Add(w.transitions)
	w.c.traces.Add(w.traces)
	w.c.Add("inputs_enumerated", w.cases)
	if w.paths > 0 {
		w.c.Add("brute_force_paths", w.paths)
	}
	w.paths = 0
	w.states, w.transitions, w.traces, w.cases = 0, 0, 0, 0
}

// strCheck decides the property for one input with one configuration.
type strCheck func(w *W, dc *DictCfg, in string) error

// strCase is the replay form.
type strCase struct {
	Key   string `json:"key"`
	Input B      `json:"input"`
}

// x is the exploration of inputs for one property.
type x struct {
	c     *Ctx
	ws    []*W
	check strCheck
}

func newX(c *Ctx, check strCheck) *x {
	e := &x{c: c, check: check}
	for i := 0; i < workers(); i++ {
		e.ws = append(e.ws, &W{n: i, c: c})
	}
	return e
}

func (e *x) flush() {
	for _, w := range e.ws {
		w.flush()
	}
}

func safeStr(check strCheck, w *W, dc *DictCfg, in string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := stack()
			if !strings.Contains(st, "ikawaha/kagome/v2") {
				panic(r)
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return check(w, dc, in)
}

// one runs a single case.
func (e *x) one(wi int, group string, dc *DictCfg, in string) {
	w := e.ws[wi]
	mk := func() any { return strCase{dc.key, B(in)} }
	raw := ""
	if len(in) < 256 && len(dc.key) < 2000 {
		raw = `{"key":` + dc.quoted + `,"input":{"b64":"` + base64.StdEncoding.EncodeToString([]byte(in)) + `"}}`
	}
	e.c.Enter(wi, group, raw, mk)
	err := safeStr(e.check, w, dc, in)
	e.c.Leave(wi)
	w.cases++
	if w.cases&1023 == 0 {
		w.flush()
	}
	if err != nil {
		e.c.Fail(group, mk(), err, func() error { return safeStr(e.check, w, dc, in) })
	} else if w.traces > 0 && len(in) > 0 && len(in) < 200 {
		e.c.Sample(group, 1, mk())
	}
}

// all enumerates all strings of exactly n symbols.
func (e *x) all(group string, dc *DictCfg, alpha []string, n int) {
	total := 1
	for i := 0; i < n; i++ {
		total *= len(alpha)
	}
	parallel(e.c, total, func(w, i int) { e.one(w, group, dc, nth(alpha, n, i)) })
}

func nth(alpha []string, n, i int) string {
	var b strings.Builder
	for k := 0; k < n; k++ {
		b.WriteString(alpha[i%len(alpha)])
		i /= len(alpha)
	}
	return b.String()
}

// upto returns all strings of at most n symbols.
func upto(alpha []string, n int) []string {
	var ret []string
	for l := 0; l <= n; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(alpha)
		}
		for i := 0; i < total; i++ {
			ret = append(ret, nth(alpha, l, i))
		}
	}
	return ret
}

func (e *x) list(group string, dc *DictCfg, ins []string) {
	parallel(e.c, len(ins), func(w, i int) { e.one(w, group, dc, ins[i]) })
}

// symbols: at least one of every character category of the dictionaries, plus what is special to decoding.
var symValid = []string{"あ", "は", "の", "ア", "ー", "漢", "東", "京", "一", "々", "2", "a", "Z", "α", "Я", "「", "。", " ", "\n", "é", "ｱ", "😀"}
var symOdd = []string{"\x00", "\xff", "\xe3", "\x81", "\ufffd", "\xed\xa0\x80", "𠮷", "\u3000", "\u00a0", "゛"}

// symWords are words the program itself uses as marks.
var symWords = []string{"BOS", "EOS", "*", "UNKNOWN", "KNOWN", "USER", "DUMMY", "---", "null", "は"}
var symCore = []string{"あ", "の", "ア", "漢", "京", "2", "a", "。", " ", "😀", "\xff", "\xe3", "\ufffd"}

func concat(a ...[]string) []string {
	var r []string
	for _, v := range a {
		r = append(r, v...)
	}
	return r
}

// ---- synthetic families ----

type family struct {
	name  string
	alpha []string
	max   int
	dicts []*Synth
}

func weights(n int, vals []int16, f func(w []int16)) {
	w := make([]int16, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int16{}, w...))
			return
		}
		for _, v := range vals {
			w[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

// families are the small dictionaries that are enumerated completely.
func families(thorough bool) []family {
	var fs []family
	plus := 0
	if thorough {
		plus = 1
	}
	{ // A: all weights and connection costs
		f := family{name: "synthA: all word costs x all 2x2 connection costs", alpha: []string{"a", "b", "c"}, max: 4 + plus}
		ctx := [][2]int16{{0, 1}, {1, 0}, {1, 1}, {0, 0}}
		weights(4, []int16{-7, 0, 5}, func(w []int16) {
			weights(4, []int16{-3, 0, 4}, func(cn []int16) {
				s := &Synth{Keys: []string{"a", "a", "ab", "b"}, N: 2, Conn: cn, Group: 0b10, Invoke: uint8(int(w[0]&1) << 1)}
				for i := range s.Keys {
					s.Morphs = append(s.Morphs, [3]int16{ctx[i][0], ctx[i][1], w[i]})
				}
				s.defaultUnk(-2)
				if cn[0] == 0 {
					s.defaultUnk(6)
				}
				f.dicts = append(f.dicts, s)
			})
		})
		fs = append(fs, f)
	}
	{ // B: all context ids
		f := family{name: "synthB: all context id assignments", alpha: []string{"a", "b"}, max: 6 + plus}
		weights(6, []int16{0, 1, 2}, func(x []int16) {
			s := &Synth{Keys: []string{"a", "aa", "b"}, N: 3, Conn: []int16{1, -2, 4, 8, -16, 32, 64, -128, 256}, Invoke: 0, Group: 0b10}
			for i := 0; i < 3; i++ {
				s.Morphs = append(s.Morphs, [3]int16{x[2*i], x[2*i+1], int16(10 * (i - 1))})
			}
			s.defaultUnk(3)
			f.dicts = append(f.dicts, s)
		})
		fs = append(fs, f)
	}
	{ // C: all invoke / group settings
		f := family{name: "synthC: all invoke and group settings of four categories", alpha: []string{"a", "漢", "あ", "-", "\xff", "\ufffd"}, max: 4}
		for _, keys := range [][]string{{}, {"a", "aa", "漢"}, {"-", "a漢", "あ", "漢漢"}} {
			for inv := 0; inv < 16; inv++ {
				for gr := 0; gr < 16; gr++ {
					s := &Synth{Keys: keys, N: 1, Conn: []int16{0}, Invoke: uint8(inv), Group: uint8(gr)}
					for i := range keys {
						s.Morphs = append(s.Morphs, [3]int16{0, 0, int16(7 - 3*i)})
					}
					s.Unk = [][3]int16{{0, 0, 5}, {0, 0, 9}, {0, 0, 2}, {0, 0, 4}, {0, 0, 3}, {0, 0, 6}, {0, 0, 1}, {0, 0, 1}}
					s.UnkDup = []int{2, 1, 2, 1, 1, 1}
					f.dicts = append(f.dicts, s)
				}
			}
		}
		fs = append(fs, f)
	}
	{ // E: extreme costs
		f := family{name: "synthE: extreme word and connection costs", alpha: []string{"a", "b"}, max: 6}
		ext := []int16{-32768, -1, 32767}
		weights(2, ext, func(w []int16) {
			weights(4, ext, func(cn []int16) {
				for _, uw := range ext {
					s := &Synth{Keys: []string{"a", "ab"}, N: 2, Conn: cn, Group: 0b10, Invoke: 0b10}
					s.Morphs = [][3]int16{{0, 1, w[0]}, {1, 0, w[1]}}
					s.defaultUnk(uw)
					f.dicts = append(f.dicts, s)
				}
			})
		})
		fs = append(fs, f)
	}
	return fs
}

// userFamily: all subsets of overlapping user entries.
func userFamily(thorough bool) family {
	f := family{name: "synthU: all sets of overlapping user entries", alpha: []string{"a", "b", "漢"}, max: 5}
	if thorough {
		f.max = 7
	}
	words := []string{"a", "ab", "b", "ba", "aba", "漢", "漢a"}
	for m := 1; m < 1<<len(words); m++ {
		var us []string
		for i, w := range words {
			if m>>i&1 == 1 {
				us = append(us, w)
			}
		}
		for v := 0; v < 2; v++ {
			s := &Synth{Keys: []string{"a", "ab", "b", "bab", "漢"}, N: 2, Conn: []int16{-100, 5, 7, -300}, Group: 0b110, Invoke: 0b10, User: us}
			wt := []int16{-3000, 3000}[v]
			s.Morphs = [][3]int16{{0, 1, wt}, {1, 0, wt}, {0, 0, -wt}, {1, 1, wt}, {0, 1, wt}}
			s.defaultUnk(-wt)
			f.dicts = append(f.dicts, s)
		}
	}
	return f
}

// searchFamily: for every word length, dictionaries in which the search mode penalty tips the balance by one.
func searchFamily() (dicts []*Synth, inputs [][]string) {
	for _, ch := range []string{"漢", "あ", "a", "々", "〇", "𠮷", "﨑", "ヶ", "가", "漢あ", "あ漢", "漢a"} {
		unit := []rune(ch)
		for k := 1; k <= 14; k++ {
			var word string
			for i := 0; i < k; i++ {
				word += string(unit[i%len(unit)])
			}
			p := searchPenalty([]rune(word))
			// two halves against the whole: cost(whole) = wk + p, cost(1 + rest) = ...
			for d := int16(-2); d <= 2; d++ {
				// singles cost p/k each, rounded, so that the sum is within k of p; the connection cost tunes it
				for _, base := range []int64{p, 0} {
					w1 := base / int64(k)
					rem := base - w1*int64(k)
					if w1 > 32000 {
						continue
					}
					s := &Synth{N: 2, Conn: []int16{0, 0, 0, 0}, Group: 0, Invoke: 0}
					keys := map[string]int16{}
					for i := range unit {
						keys[string(unit[i])] = int16(w1)
					}
					if k > 1 {
						keys[word] = d - int16(rem)
					}
					for _, kk := range sortedKeys(keys) {
						s.Keys = append(s.Keys, kk)
						s.Morphs = append(s.Morphs, [3]int16{0, 0, keys[kk]})
					}
					s.defaultUnk(30000)
					dicts = append(dicts, s)
					inputs = append(inputs, []string{word, word + word, word + "x", "x" + word})
				}
			}
		}
	}
	return
}

// lengthFamily: a word of every length, as a system word, as a user word and as both.
func lengthFamily(thorough bool) (dicts []*Synth, inputs [][]string) {
	var ks []int
	for k := 1; k <= 36; k++ {
		ks = append(ks, k)
	}
	for _, b := range []int{43, 64, 86, 128, 171, 256, 342, 512} {
		ks = append(ks, b-1, b, b+1)
	}
	if thorough {
		ks = ks[:0]
		for k := 1; k <= 600; k++ {
			ks = append(ks, k)
		}
	}
	for _, ch := range []string{"a", "あ", "漢", "😀", "漢a"} {
		unit := []rune(ch)
		for _, k := range ks {
			var word []rune
			for i := 0; i < k; i++ {
				word = append(word, unit[i%len(unit)])
			}
			w := string(word)
			for v := 0; v < 3; v++ {
				s := &Synth{Keys: []string{"c"}, Morphs: [][3]int16{{0, 0, 3}}, N: 1, Conn: []int16{1}, Group: 0b1110, Invoke: 0b1000}
				if v != 1 {
					keys := []string{"c", w}
					if w < "c" {
						keys = []string{w, "c"}
					}
					if w != "c" {
						s.Keys, s.Morphs = keys, [][3]int16{{0, 0, -2}, {0, 0, -2}}
					}
				}
				if v != 0 {
					s.User = []string{w}
				}
				s.defaultUnk(3000)
				dicts = append(dicts, s)
				inputs = append(inputs, []string{w, w + "c", "c" + w + "c", string(word[:k-1]), w + w, string(word[:k-1]) + "c" + w, "\xff" + w + "\xff"})
			}
		}
	}
	return
}

// manyFamily: many words that start at one character: words of all lengths up to n, and n homographs.
func manyFamily(most int) (dicts []*Synth, inputs [][]string) {
	for _, ch := range []string{"a", "漢"} {
		for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100} {
			if n > most {
				continue
			}
			for v := 0; v < 4; v++ {
				s := &Synth{N: 2, Conn: []int16{3, -2, 5, 1}, Group: 0b110, Invoke: 0b10}
				for i := 1; i <= n; i++ {
					k := strings.Repeat(ch, i)
					switch v {
					case 0: // system words of all lengths
						s.Keys = append(s.Keys, k)
						s.Morphs = append(s.Morphs, [3]int16{int16(i % 2), int16(i / 2 % 2), int16(10*i - 12*(i/3))})
					case 1: // homographs, the best one at the end
						s.Keys = append(s.Keys, ch)
						s.Morphs = append(s.Morphs, [3]int16{int16(i % 2), int16(i / 2 % 2), int16(-i)})
					case 2: // user words of all lengths
						s.User = append(s.User, k)
					case 3: // homographs, the best one first
						s.Keys = append(s.Keys, ch)
						s.Morphs = append(s.Morphs, [3]int16{int16(i % 2), int16(i / 2 % 2), int16(i)})
					}
				}
				if len(s.Keys) == 0 {
					s.Keys, s.Morphs = []string{ch}, [][3]int16{{0, 1, -3000}}
				}
				s.defaultUnk(40)
				s.Unk[0][2] = 7
				dicts = append(dicts, s)
				var ins []string
				for _, l := range []int{1, 2, 3, n - 1, n, n + 1, 2*n + 1} {
					if l > 0 {
						ins = append(ins, strings.Repeat(ch, l), "x"+strings.Repeat(ch, l)+"y")
					}
				}
				inputs = append(inputs, ins)
			}
		}
	}
	return
}

func (e *x) runPairs(name string, ds []*Synth, ins [][]string) {
	if e.c.Done() {
		return
	}
	e.c.Group(name)
	parallel(e.c, len(ds), func(w, i int) {
		dc := ds[i].cfg()
		for _, in := range ins[i] {
			e.one(w, name, dc, in)
		}
	})
	e.c.Add("synthetic_dictionaries", int64(len(ds)))
	e.flush()
}

// runSynth enumerates the synthetic families.
func (e *x) runSynth(fs ...family) {
	for _, f := range fs {
		if e.c.Done() {
			return
		}
		e.c.Group(f.name)
		ins := upto(f.alpha, f.max)
		parallel(e.c, len(f.dicts), func(w, i int) {
			dc := f.dicts[i].cfg()
			for _, in := range ins {
				if e.c.stop.Load() {
					return
				}
				e.one(w, f.name, dc, in)
			}
		})
		e.c.Add("synthetic_dictionaries", int64(len(f.dicts)))
		e.flush()
	}
}

func (e *x) runSearch() {
	ds, ins := searchFamily()
	e.runPairs("synthS: search penalty boundaries", ds, ins)
}

// runShort enumerates all short strings over the given alphabets.
func (e *x) runShort(dc *DictCfg, name string, alpha []string, max int) {
	e.c.Group(fmt.Sprintf("%s: all strings of <=%d of %d symbols", name, max, len(alpha)))
	for l := 0; l <= max && !e.c.Done(); l++ {
		e.all(name, dc, alpha, l)
	}
	e.flush()
}

// runSurfaces analyses every spelling of the system dictionary, alone and in contexts.
func (e *x) runSurfaces(dc *DictCfg, name string, ctxs [][2]string) {
	e.c.Group(fmt.Sprintf("%s: all %d spellings in %d contexts", name, len(dc.sys), len(ctxs)))
	parallel(e.c, len(dc.sys), func(w, i int) {
		for _, cx := range ctxs {
			e.one(w, name, dc, cx[0]+dc.sys[i].Surface+cx[1])
		}
	})
	e.flush()
}

// pumpLengths are the lengths of the runs that are enumerated.
func pumpLengths(thorough bool) []int {
	var ns []int
	if thorough {
		for n := 1; n <= 2100; n++ {
			ns = append(ns, n)
		}
		for _, b := range []int{3072, 4096, 8192} {
			for d := -2; d <= 2; d++ {
				ns = append(ns, b+d)
			}
		}
		return ns
	}
	for n := 1; n <= 40; n++ {
		ns = append(ns, n)
	}
	for _, b := range []int{64, 128, 255, 256, 512, 1024, 2048} {
		for d := -2; d <= 2; d++ {
			ns = append(ns, b+d)
		}
	}
	return ns
}

// runPump analyses x^n, y x^n and x^n y for every length n of a list.
func (e *x) runPump(dc *DictCfg, name string, xs, ys []string, ns []int) {
	e.c.Group(fmt.Sprintf("%s: runs of %d symbols, %d lengths, %d neighbours", name, len(xs), len(ns), len(ys)))
	parallel(e.c, len(xs)*len(ns), func(w, i int) {
		a, n := xs[i%len(xs)], ns[i/len(xs)]
		if n > 300 && !e.c.thorough && !longRuns[a] {
			return
		}
		run := strings.Repeat(a, n)
		e.one(w, name, dc, run)
		for k, y := range ys {
			if n > 300 && k > 0 && !e.c.thorough {
				break
			}
			e.one(w, name, dc, run+y)
			e.one(w, name, dc, y+run)
		}
	})
	e.flush()
}

// longRuns are the symbols of which runs of more than 300 are analysed in the quick tier: at least one of every kind
// of category (grouped or not, invoked or not), invalid bytes, and characters of 1 to 4 bytes.
var longRuns = map[string]bool{"a": true, "ア": true, "漢": true, "😀": true, "\xff": true, "2": true, "α": true, "あ": true, "漢字": true, "東京": true}

var textCache string

func bocchan() string {
	if textCache == "" {
		b, err := os.ReadFile("/repo/testdata/bocchan.txt")
		if err != nil || len(b) < 1000 {
			b2, _ := os.ReadFile("/repo/testdata/nekodearu.txt")
			b = append(b, b2...)
		}
		textCache = string(b)
	}
	return textCache
}

// runText analyses every window of n characters of a novel, its lines, and long prefixes.
func (e *x) runText(dc *DictCfg, name string, sizes []int, step int, long []int) {
	text := bocchan()
	off, _ := decode(text)
	n := len(off) - 1
	for _, sz := range sizes {
		if n <= sz {
			continue
		}
		e.c.Group(fmt.Sprintf("%s: windows of %d characters", name, sz))
		parallel(e.c, (n-sz)/step, func(w, i int) { e.one(w, name, dc, text[off[i*step]:off[i*step+sz]]) })
	}
	if long[0] > 0 && long[len(long)-1] >= n {
		e.c.Group(name + ": lines")
		e.list(name, dc, strings.Split(text, "\n"))
	}
	e.c.Group(name + ": long inputs")
	parallel(e.c, len(long), func(w, i int) {
		in := text
		for utf8.RuneCountInString(in) < long[i] {
			in += text
		}
		o, _ := decode(in)
		e.one(w, name, dc, in[:o[long[i]]])
	})
	e.flush()
}

func replayStr(check strCheck) func(c *Ctx, d Doc) error {
	return func(c *Ctx, d Doc) error {
		var s strCase
		if err := json.Unmarshal(d.Case, &s); err != nil {
			return err
		}
		if s.Key == "" {
			return errors.New("no case recorded")
		}
		dc := cfgFromKey(s.Key)
		return safeStr(check, &W{c: c}, dc, string(s.Input))
	}
}
