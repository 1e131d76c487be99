"""Seeded bugs, batch 7: shared filters and splitters (C23), and more of the commands and the server."""
JA = "filter/ja/filter.go"; FE = "filter/feature.go"; SP = "filter/sentence_splitter.go"; WO = "filter/word.go"; PO = "filter/pos.go"
def prog(imports, body): return "package main\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imports) + ")\n\n" + body
IPA = "github.com/ikawaha/kagome-dict/ipa"; T = "github.com/ikawaha/kagome/v2/tokenizer"
F = "github.com/ikawaha/kagome/v2/filter"; J = "github.com/ikawaha/kagome/v2/filter/ja"
SEEDS = {
 "c23-scratch": dict(property="C23",
  needs="two scanners with the package's split function, used in turns, and the bytes of a sentence looked at after the other scanner has gone on",
  breaks="the copy of the data a sentence is compacted in is kept in a package variable and used again: the sentence of one scanner is overwritten by the next scan of another",
  edits=[(SP, '''// ScanSentences implements SplitFunc''', '''// scratch is the space sentences are compacted in.
var scratch []byte

// ScanSentences implements SplitFunc'''),
         (SP, "		data = append([]byte(nil), data...)", "		scratch = append(scratch[:0], data...)\n		data = scratch")],
  demo=prog(["bufio", "fmt", "os", "strings", F], '''func main() {
	a := bufio.NewScanner(strings.NewReader("あか い。" + "うえお。"))
	b := bufio.NewScanner(strings.NewReader("xyz zy。" + "ppp。"))
	a.Split(filter.ScanSentences)
	b.Split(filter.ScanSentences)
	a.Scan()
	s := a.Bytes()
	b.Scan()
	if string(s) != "あかい。" {
		fmt.Printf("%q\\n", s)
		os.Exit(1)
	}
}
''')),
 "c23-last-vector": dict(property="C23",
  needs="one part-of-speech filter used by two goroutines at the same time",
  breaks="a features filter remembers the vector it looked at last and its answer, without a lock: concurrent uses get each other's answers",
  edits=[(FE, '''type FeaturesFilter struct {
	root filterNode
}''', '''type FeaturesFilter struct {
	root filterNode

	last   Features // features of the last match; tokens of the same kind often follow one another
	answer bool
}'''), (FE, "	return f.root.match(fs)\n", '''	if f.last == nil || !sameFeatures(f.last, fs) {
		f.answer = f.root.match(fs)
		f.last = append([]string{}, fs...)
	}
	return f.answer
'''), (FE, "// String implements string interface.", '''func sameFeatures(a, b Features) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// String implements string interface.''')],
  demo=prog(["fmt", "os", "sync", F], '''func main() {
	f := filter.NewFeaturesFilter(filter.Features{"a", "b"}, filter.Features{"c"})
	vs := []filter.Features{{"a", "b", "x"}, {"a", "c"}, {"c", "d"}, {"d"}}
	want := []bool{true, false, true, false}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400000; i++ {
				k := (i + g) % 4
				if f.Match(vs[k]) != want[k] {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad)
		os.Exit(1)
	}
}
''')),
 "c23-ja-cache": dict(property="C23",
  needs="a Japanese filter made with the default lists after another one was made with stop words of its own",
  breaks="the default filter is made once and options change that one: a filter with options changes those made before and after",
  edits=[(JA, '''func newDefaultLuceneFilter() (*Filter, error) {
''', '''var defaultFilter *Filter // the bundled lists are read once

func newDefaultLuceneFilter() (*Filter, error) {
	if defaultFilter != nil {
		return defaultFilter, nil
	}
'''), (JA, '''	return &Filter{
		baserForm:''', '''	defaultFilter = &Filter{
		baserForm:'''), (JA, '''		stopWords: wo,
	}, nil
}

func newDefaultLuceneStopTagPOSFilter''', '''		stopWords: wo,
	}
	return defaultFilter, nil
}

func newDefaultLuceneStopTagPOSFilter''')],
  demo=prog(["fmt", "os", IPA, T, J], '''func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	ts := t.Tokenize("人魚は、南の方の海にばかり棲んでいるのではありません。")
	a, _ := ja.NewFilter()
	want := fmt.Sprint(a.Yield(ts))
	ja.NewFilter(ja.StopWordsFilterOption([]string{"人魚"}))
	if got := fmt.Sprint(a.Yield(ts)); got != want {
		fmt.Println(got, want)
		os.Exit(1)
	}
}
''')),
 "c23-word-buffer": dict(property="C23",
  needs="one word filter used by two goroutines",
  breaks="the tokens that stay are collected in a slice kept in the filter: two uses at the same time mix their tokens",
  edits=[(WO, "	words map[string]struct{}\n}", "	words map[string]struct{}\n	kept  *[]tokenizer.Token // tokens that stay, used again by every call\n}"),
         (WO, "		words: make(map[string]struct{}, len(words)),\n", "		words: make(map[string]struct{}, len(words)),\n		kept:  new([]tokenizer.Token),\n"),
         (WO, '''	tail := 0
	for i, v := range *tokens {
		if f.Match(v.Surface) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''', '''	*f.kept = (*f.kept)[:0]
	for _, v := range *tokens {
		if f.Match(v.Surface) != drop {
			*f.kept = append(*f.kept, v)
		}
	}
	*tokens = (*tokens)[:copy(*tokens, *f.kept)]
''')],
  demo=prog(["fmt", "os", "sync", F, T], '''func main() {
	f := filter.NewWordFilter([]string{"a"})
	bad := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
			for i := 0; i < 100000; i++ {
				ts := []tokenizer.Token{{Surface: "a", Index: g}, {Surface: "b", Index: g}, {Surface: "c", Index: g}}
				f.Drop(&ts)
				if len(ts) != 2 || ts[0].Index != g || ts[1].Index != g || ts[0].Surface != "b" {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad)
		os.Exit(1)
	}
}
''')),
 "c23-move-front": dict(property="C23",
  needs="a features filter with several patterns of the same first feature, used by two goroutines or after a history of matches that reorders the patterns while another use walks over them",
  breaks="an edge that matched is moved to the front of its list while other goroutines may be walking over it",
  edits=[(FE, '''		if v.to.isLeaf() || v.to.match(fs[1:]) {
			return true
''', '''		if v.to.isLeaf() || v.to.match(fs[1:]) {
			n.fanout[0], n.fanout[i] = n.fanout[i], n.fanout[0] // it is likely to match again
			return true
'''), (FE, "	for _, v := range n.fanout {\n		if v.val != Any", "	for i, v := range n.fanout {\n		if v.val != Any")],
  demo=prog(["fmt", "os", "sync", F], '''func main() {
	var ps []filter.Features
	for i := 0; i < 6; i++ {
		ps = append(ps, filter.Features{fmt.Sprint(i)})
	}
	f := filter.NewFeaturesFilter(ps...)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000000; i++ {
				if !f.Match(ps[(i*7+g)%6]) {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad)
		os.Exit(1)
	}
}
''')),
 "c23-alias-words": dict(property="C23",
  needs="the list of a part-of-speech pattern changed by the caller after the filter was made",
  breaks="the edges of a filter point to the caller's strings: when the caller uses the list again the filter's patterns change with it",
  edits=[(FE, "type filterEdge struct {\n	val Feature\n", "type filterEdge struct {\n	val *Feature\n"),
         (FE, "		if v.val == s {", "		if *v.val == s {"),
         (FE, "		if v.val != Any && v.val != fs[0] {", "		if *v.val != Any && *v.val != fs[0] {"),
         (FE, "			val: v,\n", "			val: &fs[i],\n"),
         (FE, "strings.Repeat(space, indent), edge.val)", "strings.Repeat(space, indent), *edge.val)")],
  demo=prog(["os", F], '''func main() {
	p := filter.Features{"a", "b"}
	f := filter.NewFeaturesFilter(p)
	p[1] = "c"
	if !f.Match([]string{"a", "b"}) || f.Match([]string{"a", "c"}) {
		os.Exit(1)
	}
}
''')),
}
