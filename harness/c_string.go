package main

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

var allModes = []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended}

// tiling is C01 for one token list.
func tiling(in string, ts []tokenizer.Token, omit bool) error {
	pos, start := 0, 0
	body := ts
	if !omit {
		if len(ts) < 2 {
			return fmt.Errorf("no BOS/EOS:%s", showTokens(ts))
		}
		b := ts[0]
		if b.ID != tokenizer.BosEosID || b.Class != tokenizer.DUMMY || b.Position != 0 || b.Start != 0 || b.End != 0 || b.Surface != "BOS" {
			return fmt.Errorf("first token is not BOS at 0:%s", showTokens(ts))
		}
		e := ts[len(ts)-1]
		rc := utf8.RuneCountInString(in)
		if e.ID != tokenizer.BosEosID || e.Class != tokenizer.DUMMY || e.Position != len(in) || e.Start != rc || e.End != rc || e.Surface != "EOS" {
			return fmt.Errorf("last token is not EOS at the end (%d bytes, %d characters):%s", len(in), rc, showTokens(ts[max(0, len(ts)-5):]))
		}
		body = ts[1 : len(ts)-1]
	}
	for i := range ts {
		if ts[i].Index != i {
			return fmt.Errorf("token %d has index %d", i, ts[i].Index)
		}
	}
	for i := range body {
		t := &body[i]
		if t.ID == tokenizer.BosEosID {
			return fmt.Errorf("BOS/EOS inside the sequence at %d:%s", i, showTokens(ts))
		}
		if t.Surface == "" {
			return fmt.Errorf("empty surface at %d:%s", i, showTokens(ts))
		}
		if t.Position != pos || pos+len(t.Surface) > len(in) || in[pos:pos+len(t.Surface)] != t.Surface {
			return fmt.Errorf("token %d (%q at byte %d) is not the slice of the input at byte %d:%s", i, t.Surface, t.Position, pos, showTokens(ts))
		}
		n := utf8.RuneCountInString(t.Surface)
		if t.Start != start || t.End != start+n {
			return fmt.Errorf("token %d (%q) has character offsets [%d,%d), want [%d,%d):%s", i, t.Surface, t.Start, t.End, start, start+n, showTokens(ts))
		}
		pos += len(t.Surface)
		start += n
	}
	if pos != len(in) {
		return fmt.Errorf("tokens cover %d of %d bytes:%s", pos, len(in), showTokens(ts))
	}
	if rc := utf8.RuneCountInString(in); start != rc {
		return fmt.Errorf("tokens cover %d of %d characters:%s", start, rc, showTokens(ts))
	}
	return nil
}

func checkC01(w *W, dc *DictCfg, in string) error {
	w.states += int64(utf8.RuneCountInString(in)) + 1
	for _, m := range allModes {
		ts := dc.T.Analyze(in, m)
		w.traces++
		w.transitions += int64(len(ts))
		if err := tiling(in, ts, false); err != nil {
			return fmt.Errorf("mode %v: %w", m, err)
		}
		if len(in) <= 64 || m == tokenizer.Normal {
			w.traces++
			if err := tiling(in, dc.TOmit.Analyze(in, m), true); err != nil {
				return fmt.Errorf("mode %v without BOS/EOS: %w", m, err)
			}
		}
	}
	return nil
}

func checkC02(w *W, dc *DictCfg, in string) error {
	la := dc.lattice(in)
	w.states += la.nodes()
	for _, search := range []bool{false, true} {
		want, ok, edges := dc.viterbi(la, search)
		w.transitions += edges
		if !ok {
			continue
		}
		if len(la.runes) <= 5 && len(dc.surfOf) < 50 {
			b, n, full := dc.bruteForce(la, search, 20000)
			if full && b != want {
				panic(fmt.Sprintf("reference model: viterbi %d, brute force %d over %d paths", want, b, n))
			}
			if full {
				w.paths += int64(n)
			}
		}
		m := tokenizer.Normal
		if search {
			m = tokenizer.Search
		}
		ts := dc.T.Analyze(in, m)
		w.traces++
		got := int64(0)
		prev := &RNode{class: clsDummy, id: -1}
		at := 0
		for i := range ts {
			t := &ts[i]
			if t.ID == tokenizer.BosEosID {
				continue
			}
			n := la.find(t)
			if n == nil {
				return fmt.Errorf("mode %v: token %d (%q %v #%d) is not a candidate at character %d:%s", m, i, t.Surface, t.Class, t.ID, t.Start, showTokens(ts))
			}
			if n.start != at {
				return fmt.Errorf("mode %v: tokens do not cover the input:%s", m, showTokens(ts))
			}
			got += dc.conn(prev, n) + n.weight
			if search {
				got += prev.penalty
			}
			prev, at = n, n.end
		}
		if at != len(la.runes) {
			return fmt.Errorf("mode %v: tokens do not cover the input:%s", m, showTokens(ts))
		}
		got += dc.conn(prev, &RNode{class: clsDummy, id: -1})
		if search {
			got += prev.penalty
		}
		if got != want {
			return fmt.Errorf("mode %v: returned path costs %d, the cheapest costs %d:%s", m, got, want, showTokens(ts))
		}
	}
	return nil
}

func checkC03(w *W, dc *DictCfg, in string) error {
	for _, m := range allModes[:2] {
		ts := dc.T.Analyze(in, m)
		w.traces++
		w.states += int64(len(ts))
		for i := range ts {
			t := &ts[i]
			if t.ID == tokenizer.BosEosID {
				continue
			}
			w.transitions++
			if err := provenance(dc, in, t); err != nil {
				return fmt.Errorf("mode %v: token %d: %w:%s", m, i, err, showTokens(ts))
			}
		}
	}
	return nil
}

func provenance(dc *DictCfg, in string, t *tokenizer.Token) error {
	switch t.Class {
	case tokenizer.KNOWN:
		if t.ID < 0 || t.ID >= len(dc.surfOf) || dc.surfOf[t.ID] != t.Surface {
			return fmt.Errorf("KNOWN %q #%d is not an entry of that spelling", t.Surface, t.ID)
		}
	case tokenizer.USER:
		if t.ID < 0 || t.ID >= len(dc.userOf) || dc.userOf[t.ID] != t.Surface {
			return fmt.Errorf("USER %q #%d is not an entry of that spelling", t.Surface, t.ID)
		}
	case tokenizer.UNKNOWN:
		rs := []rune(t.Surface)
		if len(rs) == 0 {
			return fmt.Errorf("empty UNKNOWN")
		}
		cat := dc.category(rs[0])
		first := int(dc.Sys.UnkDict.Index[int32(cat)])
		n := int(dc.Sys.UnkDict.IndexDup[int32(cat)]) + 1
		if t.ID < first || t.ID >= first+n {
			return fmt.Errorf("UNKNOWN %q #%d: category %d has the definitions #%d..%d", clip(t.Surface, 50), t.ID, cat, first, first+n-1)
		}
		for _, r := range rs {
			if dc.category(r) != cat {
				return fmt.Errorf("UNKNOWN %q mixes categories", clip(t.Surface, 50))
			}
		}
		if len(rs) > 1 && !dc.Sys.GroupList[cat] {
			return fmt.Errorf("UNKNOWN %q: category %d does not group", clip(t.Surface, 50), cat)
		}
		if len(rs) > refMaxUnknown {
			return fmt.Errorf("UNKNOWN of %d characters", len(rs))
		}
		if !dc.Sys.InvokeList[cat] && t.Position >= 0 && t.Position <= len(in) {
			matches := 0
			prefixes(dc.sys, in[t.Position:], func(*Entry) { matches++ })
			prefixes(dc.user, in[t.Position:], func(*Entry) { matches++ })
			if matches > 0 {
				return fmt.Errorf("UNKNOWN %q where %d dictionary words match and category %d does not invoke", clip(t.Surface, 50), matches, cat)
			}
		}
	default:
		return fmt.Errorf("class %v", t.Class)
	}
	return nil
}

// sameTokens compares every field a user can see.
func sameTokens(a, b []tokenizer.Token) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d and %d tokens:%s |%s", len(a), len(b), showTokens(a), showTokens(b))
	}
	for i := range a {
		x, y := &a[i], &b[i]
		if x.Index != y.Index || x.ID != y.ID || x.Class != y.Class || x.Position != y.Position || x.Start != y.Start || x.End != y.End || x.Surface != y.Surface {
			return fmt.Errorf("token %d differs:%s |%s", i, showTokens(a[i:i+1]), showTokens(b[i:i+1]))
		}
	}
	return nil
}

func sameContents(a, b []tokenizer.Token) error {
	for i := range a {
		if !sameStrings(a[i].Features(), b[i].Features()) || !sameStrings(a[i].POS(), b[i].POS()) {
			return fmt.Errorf("contents of token %d differ: %q %q", i, a[i].Features(), b[i].Features())
		}
	}
	return nil
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkC04(w *W, dc *DictCfg, in string) error {
	if dc.User == nil {
		return nil
	}
	occurs := false
	matchAt := map[int]bool{}
	off, _ := decode(in)
	for _, p := range off[:len(off)-1] {
		prefixes(dc.user, in[p:], func(*Entry) { occurs = true; matchAt[p] = true })
	}
	w.states += int64(len(off))
	exact := has(dc.user, in)
	if exact != nil {
		prefixes(dc.user, in, func(e *Entry) {
			if e.Surface != in {
				exact = nil // a shorter user entry is a prefix
			}
		})
	}
	for _, m := range allModes {
		ts := dc.T.Analyze(in, m)
		w.traces++
		for i := range ts {
			t := &ts[i]
			if t.ID == tokenizer.BosEosID {
				continue
			}
			w.transitions++
			if t.Class != tokenizer.USER && matchAt[t.Position] && m != tokenizer.Extended {
				return fmt.Errorf("mode %v: %v token %q where a user entry matches:%s", m, t.Class, t.Surface, showTokens(ts))
			}
			if t.Class == tokenizer.USER {
				if t.ID < 0 || t.ID >= len(dc.userOf) || dc.userOf[t.ID] != t.Surface {
					return fmt.Errorf("mode %v: USER token %q #%d is not a user entry:%s", m, t.Surface, t.ID, showTokens(ts))
				}
			}
		}
		if exact != nil {
			if len(ts) != 3 || ts[1].Class != tokenizer.USER || ts[1].Surface != in {
				return fmt.Errorf("mode %v: input is a user entry but the analysis is%s", m, showTokens(ts))
			}
			c := dc.User.Contents[exact.IDs[0]]
			x := ts[1].UserExtra()
			if !sameStrings(ts[1].POS(), []string{c.Pos}) || x == nil || !sameStrings(x.Tokens, c.Tokens) || !sameStrings(x.Readings, c.Yomi) {
				return fmt.Errorf("mode %v: contents of user entry %q: %q %+v", m, in, ts[1].POS(), x)
			}
		}
		if !occurs {
			u := dc.TNoUser.Analyze(in, m)
			w.traces++
			if err := sameTokens(ts, u); err != nil {
				return fmt.Errorf("mode %v: no user entry occurs, but with/without user dictionary: %w", m, err)
			}
		}
	}
	return nil
}

func checkC05(w *W, dc *DictCfg, in string) error {
	s := dc.T.Analyze(in, tokenizer.Search)
	e := dc.T.Analyze(in, tokenizer.Extended)
	w.traces += 2
	w.states += int64(len(e))
	w.transitions += int64(len(s))
	k := 0
	next := func() *tokenizer.Token {
		if k < len(e) {
			k++
			return &e[k-1]
		}
		return nil
	}
	for i := range s {
		t := &s[i]
		if t.Class != tokenizer.UNKNOWN {
			x := next()
			if x == nil || x.Index != k-1 || x.ID != t.ID || x.Class != t.Class || x.Position != t.Position || x.Start != t.Start || x.End != t.End || x.Surface != t.Surface {
				return fmt.Errorf("token %d of search mode is not kept: search%s | extended%s", i, showTokens(s), showTokens(e))
			}
			continue
		}
		off, rs := decode(t.Surface)
		for j := range rs {
			x := next()
			want := t.Surface[off[j]:off[j+1]]
			if x == nil || x.Index != k-1 || x.ID != t.ID || x.Class != tokenizer.DUMMY || x.Surface != want || x.Position != t.Position+off[j] || x.Start != t.Start+j || x.End != t.Start+j+1 {
				return fmt.Errorf("character %d of unknown word %q: search%s | extended%s", j, clip(t.Surface, 50), showTokens(s[i:i+1]), showTokens(e[max(0, k-1):min(len(e), k+2)]))
			}
		}
	}
	if k != len(e) {
		return fmt.Errorf("extended mode has %d more tokens: search%s | extended%s", len(e)-k, showTokens(s), showTokens(e))
	}
	return nil
}

type countWriter int

func (c *countWriter) Write(b []byte) (int, error) { *c += countWriter(len(b)); return len(b), nil }

func checkC17(w *W, dc *DictCfg, in string) error {
	var normal []tokenizer.Token
	var size countWriter
	heavy := false // large graphs are exported once per mode only
	for _, m := range allModes {
		a := dc.T.Analyze(in, m)
		if m == tokenizer.Normal {
			normal = a
		}
		w.states += int64(len(a))
		g := dc.T.AnalyzeGraph(&size, in, m)
		heavy = size > 300000 && !w.c.thorough
		w.traces += 2
		w.transitions++
		if err := sameTokens(a, g); err != nil {
			return fmt.Errorf("mode %v: Analyze and AnalyzeGraph: %w", m, err)
		}
		if err := sameContents(a, g); err != nil {
			return fmt.Errorf("mode %v: Analyze and AnalyzeGraph: %w", m, err)
		}
		o := dc.TOmit.Analyze(in, m)
		var want []tokenizer.Token
		for _, t := range a {
			if t.ID != tokenizer.BosEosID {
				t.Index = len(want)
				want = append(want, t)
			}
		}
		w.transitions++
		if len(want) != len(a)-2 {
			return fmt.Errorf("mode %v: %d BOS/EOS tokens:%s", m, len(a)-len(want), showTokens(a))
		}
		if err := sameTokens(want, o); err != nil {
			return fmt.Errorf("mode %v: with OmitBosEos: %w", m, err)
		}
		if !heavy {
			if err := sameTokens(want, dc.TOmit.AnalyzeGraph(io.Discard, in, m)); err != nil {
				return fmt.Errorf("mode %v: AnalyzeGraph with OmitBosEos: %w", m, err)
			}
			w.traces++
		}
		w.traces++
		if dc.TShrink != nil {
			s := dc.TShrink.Analyze(in, m)
			w.traces++
			w.transitions++
			if err := sameTokens(a, s); err != nil {
				return fmt.Errorf("mode %v: full and contents-less dictionary: %w", m, err)
			}
			for i := range a {
				if !sameStrings(a[i].POS(), s[i].POS()) {
					return fmt.Errorf("mode %v: part of speech of token %d with the contents-less dictionary: %q, %q", m, i, a[i].POS(), s[i].POS())
				}
			}
		}
	}
	if err := sameTokens(normal, dc.T.Tokenize(in)); err != nil {
		return fmt.Errorf("Analyze(Normal) and Tokenize: %w", err)
	}
	if !heavy {
		var b1, b2 bytes.Buffer
		if err := sameTokens(normal, dc.T.Dot(&b1, in)); err != nil {
			return fmt.Errorf("Analyze(Normal) and Dot: %w", err)
		}
		dc.T.AnalyzeGraph(&b2, in, tokenizer.Normal)
		if bytes.Count(b1.Bytes(), []byte("\n")) != bytes.Count(b2.Bytes(), []byte("\n")) || b1.Len() == 0 {
			return fmt.Errorf("Dot and AnalyzeGraph(Normal) export different graphs")
		}
		w.traces += 3
		w.transitions += 2
	}
	var surf []string
	for _, t := range normal {
		if t.ID != tokenizer.BosEosID {
			surf = append(surf, t.Surface)
		}
	}
	for _, t := range []*tokenizer.Tokenizer{dc.T, dc.TOmit} {
		if got := t.Wakati(in); !sameStrings(got, surf) {
			return fmt.Errorf("Wakati %q, tokens %q", got, surf)
		}
		w.traces++
	}
	odd, one := []tokenizer.TokenizeMode{0, 4, -1, 255, 256 + 2, 1 << 16}, tokenizer.TokenizeMode(1)
	if strconv.IntSize > 32 {
		odd = append(odd, one<<32+2)
	}
	for _, m := range odd {
		if err := sameTokens(normal, dc.T.Analyze(in, m)); err != nil {
			return fmt.Errorf("mode %d is not Normal: %w", int(m), err)
		}
		w.traces++
	}
	if heavy {
		return nil
	}
	if err := sameTokens(normal, dc.T.AnalyzeGraph(io.Discard, in, 7)); err != nil {
		return fmt.Errorf("AnalyzeGraph mode 7 is not Normal: %w", err)
	}
	w.traces++
	return nil
}

var userWords = []string{"東京", "京", "東京大学", "大学", "関西国際空港", "の", "a", "ab", "2", "一", "漢字", "😀", "アー", "ー", "朝青龍,朝青龍,アサショウリュウ,カスタム人名", "日本経済新聞,日本 経済 新聞,ニホン ケイザイ シンブン,カスタム名詞"}

// stringProps explores inputs for the properties about one analysis.
func stringProps(check strCheck, opt struct{ user, noSearch, uni, sat, light bool }) checkFn {
	return func(c *Ctx) {
		e := newX(c, check)
		th := c.thorough
		if !opt.user {
			fs := families(th)
			if opt.light && !th {
				for i := range fs {
					fs[i].max -= 2
				}
			}
			e.runSynth(fs...)
		}
		e.runSynth(userFamily(th))
		ds, ins := lengthFamily(th)
		e.runPairs("synthL: words of every length", ds, ins)
		most := 100
		if opt.light && !th {
			most = 33
		}
		ds, ins = manyFamily(most)
		e.runPairs("synthM: many words at one character", ds, ins)
		if !opt.noSearch {
			e.runSearch()
		}
		var ipa *DictCfg
		userIPA := ipaCfg(userWords...)
		if opt.user {
			ipa = userIPA
		} else {
			ipa = ipaCfg()
		}
		ipa.TShrink = mustRepo(tokenizer.New(shrunk(ipa.Sys)))
		if opt.user {
			ipa.TShrink = nil
		}
		odd := symOdd
		n := 4
		if opt.light {
			n = 3
		}
		if th {
			n++
		}
		e.runShort(ipa, "ipa", concat(symValid, odd), n)
		wn := 3
		if opt.light && !th {
			wn = 2
		}
		e.runShort(ipa, "ipa, words of the program", concat(symWords, []string{"a", " "}), wn)
		core := symCore
		e.runShort(ipa, "ipa", core, n+1)
		e.runShort(userIPA, "ipa+user", []string{"東", "京", "大", "学", "の", "a", "b", "2", "ー", "ア", "漢", "字", "😀"}, n+1)
		ctxs := [][2]string{{"", ""}, {"", "の"}, {"ア", ""}}
		if opt.light && !th {
			ctxs = ctxs[:1]
		}
		e.runSurfaces(ipa, "ipa", ctxs)
		if !opt.light || th {
			e.runSurfaces(userIPA, "ipa+user", [][2]string{{"", ""}})
		}
		pumpX := concat(symValid, odd, []string{"ab", "漢字", "すもも", "12.", "ーア"})
		ys := []string{"a", "の", "漢"}
		if opt.light && !th {
			ys = ys[:1]
		}
		lens := pumpLengths(th)
		if opt.light && !th {
			lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 1023, 1024, 1025}
		}
		e.runPump(ipa, "ipa", pumpX, ys, lens)
		e.runPump(userIPA, "ipa+user", []string{"a", "東京", "2", "ー", "漢"}, []string{"東京", "b"}, pumpLengths(th))
		sizes, step := []int{15, 60}, 3
		long := []int{1000, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100000}
		if opt.light {
			step = 60
			long = []int{1000, 4096, 20000}
		}
		if th {
			sizes, step = []int{7, 15, 40, 128, 300}, 1
			long = append(long, 250000, 1000000)
		}
		e.runText(ipa, "ipa", sizes, step, long)
		if !opt.light || th {
			e.runText(userIPA, "ipa+user", []int{30}, step*2, []int{5000})
		}
		for k := 0; k < 65536 && !c.Done(); k += 65536 {
			c.Group("ipa: every character of the basic plane, alone and between two characters")
			parallel(c, 0x11000, func(w, r int) {
				s := string(rune(r))
				e.one(w, "ipa chars", ipa, s)
				e.one(w, "ipa chars", ipa, s+s)
				e.one(w, "ipa chars", ipa, "あ"+s+"a")
			})
			e.flush()
		}
		u := uniCfg()
		if opt.user {
			u = uniCfg(userWords...)
		}
		if opt.light {
			u.TShrink = mustRepo(tokenizer.New(shrunk(u.Sys)))
		}
		if opt.uni || th {
			e.runSurfaces(u, "uni", [][2]string{{"", ""}})
		}
		e.runShort(u, "uni", concat(symValid, odd), 2)
		e.runShort(u, "uni, words of the program", symWords, 2)
		e.runPump(u, "uni", []string{"a", "漢", "😀", "ア", "あ"}, []string{"の"}, []int{1, 2, 7, 8, 9, 1023, 1024, 1025})
		if step = 60; th {
			step = 3
		}
		e.runText(u, "uni", []int{60}, step, []int{20000})
		if opt.sat {
			runSaturation(e)
		}
		e.flush()
		c.Set("bounds", fmt.Sprintf("strings: <=%d symbols of %d and <=%d of %d; runs up to %d characters; long inputs up to %d characters", n, len(symValid)+len(odd), n+1, len(core), pumpLengths(th)[len(pumpLengths(th))-1], long[len(long)-1]))
	}
}

// runSaturation: inputs so long, and words so expensive, that the total cost does not fit in 32 bits.
func runSaturation(e *x) {
	e.c.Group("inputs whose total cost saturates")
	var ds []*Synth
	var ins [][]string
	mk := func(w, uw, cn int16, n int, tails ...string) {
		s := &Synth{Keys: []string{"a", "ab", "bb", "c", "漢字字"}, N: 1, Conn: []int16{cn}, Group: 0b1000, Invoke: 0b1000,
			Morphs: [][3]int16{{0, 0, w}, {0, 0, w}, {0, 0, -1}, {0, 0, w}, {0, 0, -5}}}
		s.defaultUnk(uw)
		ds = append(ds, s)
		var l []string
		for _, t := range tails {
			l = append(l, strings.Repeat("c", n)+t, strings.Repeat("c", n)+t+strings.Repeat("ab", 20))
		}
		ins = append(ins, l)
	}
	tails := []string{"", "ab", "abb", "あああb", "漢字字字", "xab", "aabbb漢字字", "😀あ字字字"}
	for _, n := range []int{32760, 32770, 33000} {
		mk(32767, 32767, 32767, n, tails...)
	}
	mk(32767, 30000, 0, 65600, tails...)
	mk(-32768, -32768, -32768, 33000, tails...)
	parallel(e.c, len(ds), func(w, i int) {
		dc := ds[i].cfg()
		for _, in := range ins[i] {
			e.one(w, "saturation", dc, in)
		}
	})
	if e.c.thorough {
		dc := ipaCfg()
		for _, t := range []string{"ゥゥトヨタ自動車", "東京大学", "aああ漢字"} {
			e.one(0, "saturation ipa", dc, strings.Repeat("すもももももももものうち", 100000)+t)
		}
	}
	e.flush()
}

func init() {
	type o = struct{ user, noSearch, uni, sat, light bool }
	register("C01", "model_checking", stringProps(checkC01, o{uni: true, sat: true}), replayStr(checkC01))
	register("C02", "model_checking", stringProps(checkC02, o{}), replayStr(checkC02))
	register("C03", "model_checking", stringProps(checkC03, o{uni: true}), replayStr(checkC03))
	register("C04", "model_checking", stringProps(checkC04, o{user: true}), replayStr(checkC04))
	register("C05", "model_checking", stringProps(checkC05, o{}), replayStr(checkC05))
	register("C17", "model_checking", func(c *Ctx) {
		runOptions(c)
		stringProps(checkC17, o{noSearch: true, light: true})(c)
	}, replayC17)
}
