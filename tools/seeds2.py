exec(open("/verif/tools/seeds1.py").read().split('SEEDS["c02-unk-limit-bytes"]')[0])
N = "tokenizer/lattice/node.go"; P = "tokenizer/lattice/mem/pool.go"; TZ = "tokenizer/tokenizer.go"; TK = "tokenizer/token.go"
F = "filter/feature.go"; FF = "filter/filter.go"; W = "filter/word.go"; POS = "filter/pos.go"; SS = "filter/sentence_splitter.go"; JA = "filter/ja/filter.go"; JL = "filter/ja/loader.go"
API = "cmd/server/api.go"; DEMO = "cmd/server/demo.go"; SRV = "cmd/server/cmd.go"; TC = "cmd/tokenize/cmd.go"; SC = "cmd/sentence/cmd.go"; LC = "cmd/lattice/cmd.go"
def prog(imports, body):
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n" + body
FI = "github.com/ikawaha/kagome/v2/filter"; JAI = "github.com/ikawaha/kagome/v2/filter/ja"; TI = "github.com/ikawaha/kagome/v2/tokenizer"; IPA = "github.com/ikawaha/kagome-dict/ipa"
DI = "github.com/ikawaha/kagome-dict/dict"
# command-line demonstrations
CLI = '''#!/bin/bash
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOFLAGS=-mod=readonly
go build -o "$tmp/kagome" . || exit 3
cd "$tmp"
'''
SEEDS["c01-group-width"] = dict(property="C01", needs="a run of one character category in which an ill-formed byte follows another character of that category",
  breaks="the extent of an unknown word is computed from the decoded character, so an ill-formed byte counts three bytes: tokens overlap or the analysis panics",
  edits=[(L, "\t\t\t\t\tendPos += w\n", "\t\t\t\t\tendPos += utf8.RuneLen(c)\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	for _, s := range []string{"\\xff\\xffabc", "é\\xffabc", "\\uFFFD\\xffabc", "\\U0001F600\\xff\\xffx"} {
		var b strings.Builder
		for _, v := range t.Tokenize(s) {
			b.WriteString(v.Surface)
		}
		if b.String() != s {
			fmt.Printf("%q: %q\\n", s, b.String())
			os.Exit(1)
		}
	}
}
''', ("fmt", "os", "strings")))
SEEDS["c01-extended-position"] = dict(property="C01", needs="Extended mode and an unknown word of multi-byte characters",
  breaks="Position of the pieces of a split unknown word counts characters",
  edits=[(L, "Position: p.Position + k,", "Position: p.Position + i,")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	s := "ヴヴヴを"
	for _, v := range t.Analyze(s, tokenizer.Extended) {
		if s[v.Position:v.Position+len(v.Surface)] != v.Surface {
			fmt.Println(v)
			os.Exit(1)
		}
	}
}
'''))
SEEDS["c02-beam"] = dict(property="C02", needs="a position where more than 8 words end, with the best one among the later ones",
  breaks="only the first 8 predecessors are looked at",
  edits=[(L, "\t\t\tfor j, n := range prevList {\n", "\t\t\tfor j, n := range prevList {\n\t\t\t\tif j >= 8 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n")],
  demo=tok('''
func main() {
	c := *ipa.Dict()
	c.Morphs = append(c.Morphs[:0:0], c.Morphs...)
	s, most := "", 0
	for r := 'ぁ'; r <= 'ん'; r++ {
		k := 0
		c.Index.CommonPrefixSearchCallback(string(r), func(int, int) { k++ })
		if k > most {
			s, most = string(r), k
		}
	}
	n, best := 0, -1
	c.Index.CommonPrefixSearchCallback(s, func(id, l int) {
		if l == len(s) && id > best {
			n, best = n+1, id
		}
	})
	fmt.Println(s, n)
	c.Morphs[best].Weight = -30000
	tt, _ := tokenizer.New(&c, tokenizer.OmitBosEos())
	r := tt.Tokenize(s)
	if len(r) != 1 || r[0].ID != best {
		fmt.Println(s, n, best, r)
		os.Exit(1)
	}
}
'''))
SEEDS["c02-extended-penalty"] = dict(property="C05", needs="Extended mode and a compound that only the length penalty splits",
  breaks="Extended mode does not apply the search-mode penalty",
  edits=[(L, "if m != Normal {", "if m == Search {")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	for _, s := range []string{"関西国際空港", "日本経済新聞"} {
		if a, b := len(t.Analyze(s, tokenizer.Search)), len(t.Analyze(s, tokenizer.Extended)); a != b {
			fmt.Println(s, a, b)
			os.Exit(1)
		}
	}
}
'''))
SEEDS["c02-short-penalty"] = dict(property="C02", needs="Search mode and a word of exactly eight characters that are not all ideographs",
  breaks="the length from which other words are penalized is off by one",
  edits=[(L, "if l > searchModeOtherLength {", "if l > searchModeOtherLength+1 {")],
  demo=tok('''
func main() {
	// an unknown word of eight characters weighs 1700 more in Search mode: make that visible by lowering its cost step by step
	c := *ipa.Dict()
	t, _ := tokenizer.New(&c, tokenizer.OmitBosEos())
	n := 0
	for _, v := range ipa.Dict().Contents {
		w := v[2]
		if utf8.RuneCountInString(w) != 8 {
			continue
		}
		if len(t.Analyze(w, tokenizer.Normal)) == 1 && len(t.Analyze(w, tokenizer.Search)) > 1 {
			n++
		}
	}
	fmt.Println(n)
	if n < 600 {
		os.Exit(1)
	}
}
''', ("fmt", "os", "unicode/utf8")))
SEEDS["c02-first-unknown"] = dict(property="C02", needs="an unknown word whose category has several entries, the chosen one not being the first",
  breaks="the node of an unknown word carries the id of the first entry of its category although another entry's costs are used",
  edits=[(L, "\tn.ID = id\n", "\tn.ID = id\n\tif class == UNKNOWN {\n\t\tn.ID = int(la.dic.UnkDict.Index[int32(la.dic.CharacterCategory([]rune(surface)[0]))])\n\t}\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	seen := map[int]bool{}
	for _, s := range []string{"ヴヴヴが", "ヴヴヴする", "ヴヴヴさん", "ヴヴヴ県", "ヴヴヴ社は", "東京ヴヴヴ", "abcde株式会社", "abcdeさん"} {
		for _, v := range t.Tokenize(s) {
			if v.Class == tokenizer.UNKNOWN {
				seen[v.ID] = true
			}
		}
	}
	if len(seen) < 3 {
		fmt.Println("unknown entries used:", seen)
		os.Exit(1)
	}
}
'''))
SEEDS["c06-long-free"] = dict(property="C06", needs="an analysis of a text of more than 4096 characters before another one",
  breaks="the lattice of a long text goes back to the pool with its nodes still listed",
  edits=[(L, "\tfor i := range la.list {\n\t\tfor j := range la.list[i] {", "\tfor i := range la.list {\n\t\tif i > 4096 {\n\t\t\tbreak // keep very long lattices as they are\n\t\t}\n\t\tfor j := range la.list[i] {")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	a, b := strings.Repeat("吾輩は猫である。", 700), strings.Repeat("名前はまだ無い。", 600)
	want := len(t.Tokenize(b))
	for i := 0; i < 20; i++ {
		t.Tokenize(a)
		if got := len(t.Tokenize(b)); got != want {
			fmt.Println(want, got)
			os.Exit(1)
		}
	}
	w := fmt.Sprint(fresh(b))
	if g := fmt.Sprint(t.Tokenize(b)); g != w {
		os.Exit(1)
	}
}

func fresh(s string) []tokenizer.Token {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	var r []tokenizer.Token
	pos, st := 0, 0
	for _, l := range strings.SplitAfter(s, "。") {
		for _, v := range t.Tokenize(l) {
			v.Position += pos
			v.Start += st
			v.End += st
			v.Index = len(r)
			r = append(r, v)
		}
		pos += len(l)
		st += len([]rune(l))
	}
	return r
}
''', ("fmt", "os", "strings")))
CACHE = '''
var last struct {
	sync.Mutex
	key    string
	mode   TokenizeMode
%s	tokens []Token
}
'''
SEEDS["c06-cached-alias"] = dict(property="C06", needs="the same text analysed twice in a row, with the first result filtered in place in between",
  breaks="the last result is remembered and handed out again without a copy",
  edits=[(TZ, '\t"io"\n', '\t"io"\n\t"sync"\n'),
   (TZ, "// Analyze tokenizes a sentence in the specified mode.", "var last struct {\n\tsync.Mutex\n\tinput  string\n\tmode   TokenizeMode\n\tt      Tokenizer\n\ttokens []Token\n}\n\n// Analyze tokenizes a sentence in the specified mode."),
   (TZ, "func (t Tokenizer) Analyze(input string, mode TokenizeMode) []Token {\n", "func (t Tokenizer) Analyze(input string, mode TokenizeMode) (ret []Token) {\n\tlast.Lock()\n\tif last.tokens != nil && last.input == input && last.mode == mode && last.t == t {\n\t\tret = last.tokens\n\t\tlast.Unlock()\n\t\treturn ret\n\t}\n\tlast.Unlock()\n\tdefer func() {\n\t\tlast.Lock()\n\t\tlast.input, last.mode, last.t, last.tokens = input, mode, t, ret\n\t\tlast.Unlock()\n\t}()\n")],
  demo=prog(("fmt", "os", FI, IPA, TI), '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	s := "すもももももももものうち"
	a := t.Tokenize(s)
	want := fmt.Sprint(a)
	filter.NewWordFilter([]string{"も"}).Drop(&a)
	if got := fmt.Sprint(t.Tokenize(s)); got != want {
		fmt.Println(got)
		os.Exit(1)
	}
}
'''))
SEEDS["c06-cache-key"] = dict(property="C06", needs="two tokenizers with different user dictionaries and the same text",
  breaks="unknown-word results are cached by text only, across tokenizers",
  edits=[(TZ, '\t"io"\n', '\t"io"\n\t"sync"\n'),
   (TZ, "// Analyze tokenizes a sentence in the specified mode.", "var last struct {\n\tsync.Mutex\n\tinput  string\n\tmode   TokenizeMode\n\tomit   bool\n\tdic    *dict.Dict\n\ttokens []Token\n}\n\n// Analyze tokenizes a sentence in the specified mode."),
   (TZ, "func (t Tokenizer) Analyze(input string, mode TokenizeMode) []Token {\n", "func (t Tokenizer) Analyze(input string, mode TokenizeMode) (ret []Token) {\n\tlast.Lock()\n\tif last.tokens != nil && last.input == input && last.mode == mode && last.omit == t.omitBosEos && last.dic == t.dict {\n\t\tret = append(ret, last.tokens...)\n\t\tlast.Unlock()\n\t\treturn ret\n\t}\n\tlast.Unlock()\n\tdefer func() {\n\t\tlast.Lock()\n\t\tlast.input, last.mode, last.omit, last.dic, last.tokens = input, mode, t.omitBosEos, t.dict, append([]Token(nil), ret...)\n\t\tlast.Unlock()\n\t}()\n")],
  demo=tok('''
func main() {
	s := "朝青龍です"
	r := dict.UserDictRecords{{Text: "朝青龍", Tokens: []string{"朝青龍"}, Yomi: []string{"ア"}, Pos: "P"}}
	u, err := r.NewUserDict()
	if err != nil {
		os.Exit(4)
	}
	t1, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	t2, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(u), tokenizer.OmitBosEos())
	t1.Tokenize(s)
	if k := t2.Tokenize(s); k[0].Class != tokenizer.USER {
		fmt.Println(k)
		os.Exit(1)
	}
}
'''))
SEEDS["c07-freelist"] = dict(property="C07", needs="two goroutines taking the last free object at the same time",
  breaks="the pool looks at its free list in one critical section and takes from it in another",
  edits=[(P, "\tinternal *sync.Pool\n", "\tinternal *sync.Pool\n\tmu       *sync.RWMutex\n\tfree     *[]*T\n"),
   (P, "\treturn Pool[T]{\n", "\treturn Pool[T]{\n\t\tmu:   new(sync.RWMutex),\n\t\tfree: new([]*T),\n"),
   (P, "\treturn p.internal.Get().(*T)\n", "\tp.mu.RLock()\n\tn := len(*p.free)\n\tp.mu.RUnlock()\n\tif n == 0 {\n\t\treturn p.internal.Get().(*T)\n\t}\n\tp.mu.Lock()\n\tdefer p.mu.Unlock()\n\tx := (*p.free)[n-1]\n\t*p.free = (*p.free)[:n-1]\n\treturn x\n"),
   (P, "\tp.internal.Put(x)\n", "\tp.mu.Lock()\n\tdefer p.mu.Unlock()\n\tif len(*p.free) < 1024 {\n\t\t*p.free = append(*p.free, x)\n\t\treturn\n\t}\n\tp.internal.Put(x)\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	ss := []string{"すもももももももものうち", "関西国際空港", "吾輩は猫である。名前はまだ無い。", "ヴヴヴ"}
	var want []string
	for _, s := range ss {
		want = append(want, fmt.Sprint(t.Tokenize(s)))
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				k := (g + i) % len(ss)
				if got := fmt.Sprint(t.Tokenize(ss[k])); got != want[k] {
					fmt.Println(got)
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
''', ("fmt", "os", "sync")))
SEEDS["c07-scratch"] = dict(property="C07", needs="two analyses in Extended mode with unknown words at the same time",
  breaks="the buffer in which an unknown word is taken apart is shared by all analyses",
  edits=[(L, "// Backward runs backward algorithm of the Viterbi.", "var scratch []*Node\n\n// Backward runs backward algorithm of the Viterbi."),
   (L, "\t\tstack := make([]*Node, 0, runeLen)\n", "\t\tif cap(scratch) < runeLen {\n\t\t\tscratch = make([]*Node, 0, runeLen)\n\t\t}\n\t\tstack := scratch[:0]\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	ss := []string{strings.Repeat("ヴ", 400), strings.Repeat("xyz", 200)}
	var want []string
	for _, s := range ss {
		want = append(want, fmt.Sprint(t.Analyze(s, tokenizer.Extended)))
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				k := (g + i) % len(ss)
				if got := fmt.Sprint(t.Analyze(ss[k], tokenizer.Extended)); got != want[k] {
					fmt.Println("differs")
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
''', ("fmt", "os", "strings", "sync")))
SEEDS["c08-pos-alias"] = dict(property="C08", needs="a caller that changes or extends what POS returned for an unknown word",
  breaks="POS of an unknown word is a window on the dictionary's own record",
  edits=[(TK, "\t\tret := make([]string, 0, end-start)\n\t\tfor i := start; i < end; i++ {\n\t\t\tret = append(ret, feature[i])\n\t\t}\n\t\treturn ret\n", "\t\treturn feature[start:end]\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	a := t.Tokenize("ヴヴヴ")[0]
	w := fmt.Sprint(a.Features())
	_ = append(a.POS(), "memo")
	if g := fmt.Sprint(t.Tokenize("ヴヴヴ")[0].Features()); g != w {
		fmt.Println(w, g)
		os.Exit(1)
	}
}
'''))
SEEDS["c08-user-yomi"] = dict(property="C08", needs="a user entry whose number of readings differs from its number of parts",
  breaks="the readings feature of a user entry is cut to the number of parts, in one of two accessors",
  edits=[(TK, '\t\t\treturn strings.Join(t.udict.Contents[t.ID].Yomi, "/"), true\n', '\t\t\tc := t.udict.Contents[t.ID]\n\t\t\treturn strings.Join(c.Yomi[:len(c.Tokens)], "/"), true\n')],
  demo=tok('''
func main() {
	r := dict.UserDictRecords{{Text: "朝青龍", Tokens: []string{"朝青龍"}, Yomi: []string{"アサ", "ショウ"}, Pos: "P"}}
	u, err := r.NewUserDict()
	if err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(u), tokenizer.OmitBosEos())
	a := t.Tokenize("朝青龍")[0]
	f, _ := a.FeatureAt(2)
	if f != a.Features()[2] {
		fmt.Println(f, a.Features())
		os.Exit(1)
	}
}
'''))
SEEDS["c09-any-absorbs"] = dict(property="C09", needs="a pattern that begins with Any, and a later pattern with a literal in the same place",
  breaks="a literal is merged into an existing Any branch",
  edits=[(F, "\t\tif v.val == s {\n", "\t\tif v.val == s || v.val == Any {\n")],
  demo=prog(("fmt", "os", FI), '''
func main() {
	f := filter.NewFeaturesFilter(filter.Features{filter.Any, "b"}, filter.Features{"x", "c"})
	if f.Match(filter.Features{"y", "c"}) || !f.Match(filter.Features{"x", "c"}) {
		fmt.Println("wrong match")
		os.Exit(1)
	}
}
'''))
SEEDS["c09-short-vector"] = dict(property="C09", needs="a vector shorter than a pattern whose remaining places are Any",
  breaks="trailing Any places match places that do not exist",
  edits=[(F, "\tif len(fs) == 0 {\n\t\treturn false\n\t}\n", "\tif len(fs) == 0 {\n\t\treturn len(n.fanout) == 1 && n.fanout[0].val == Any && n.fanout[0].to.isLeaf()\n\t}\n")],
  demo=prog(("fmt", "os", FI), '''
func main() {
	f := filter.NewFeaturesFilter(filter.Features{"a", filter.Any})
	if f.Match(filter.Features{"a"}) {
		fmt.Println("wrong match")
		os.Exit(1)
	}
}
'''))
SEEDS["c10-keep-none"] = dict(property="C10", needs="a filter that removes every token",
  breaks="when no token survives the list is left as it was",
  edits=[(FF, "\t*tokens = (*tokens)[:tail]\n", "\tif tail == 0 {\n\t\treturn\n\t}\n\t*tokens = (*tokens)[:tail]\n")],
  demo=prog(("fmt", "os", FI, IPA, TI), '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	a := t.Tokenize("すもも")
	filter.Keep(&a, func(tokenizer.Token) bool { return false })
	if len(a) != 0 {
		fmt.Println(a)
		os.Exit(1)
	}
}
'''))
SEEDS["c10-comment"] = dict(property="C10", needs="a default stop word that follows white space or a comment in the list",
  breaks="lines of the default lists are cut at the first white space, and a stop word of one character is skipped",
  edits=[(JL, "\t\tif line == \"\" {\n", "\t\tif len(line) <= 3 {\n")],
  demo=prog(("fmt", "os", JAI, IPA, TI), '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	f, err := ja.NewFilter(ja.StopTagsFilterOption(nil))
	if err != nil {
		os.Exit(4)
	}
	for _, s := range []string{"の", "に", "は", "を", "た", "が", "で", "て", "と", "し", "れ", "さ"} {
		a := t.Tokenize(s)
		if len(a) != 1 {
			continue
		}
		f.Drop(&a)
		if len(a) != 0 {
			fmt.Println(a)
			os.Exit(1)
		}
	}
}
'''))
SEEDS["c11-blank-counts"] = dict(property="C11", needs="a sentence without delimiter, longer than the maximum, with white space in it",
  breaks="skipped white space counts towards the maximum length",
  edits=[(SS, "\t\tif s.SkipWhiteSpace && unicode.IsSpace(r) {\n\t\t\tp += size\n\t\t\tswitch {", "\t\tif s.SkipWhiteSpace && unicode.IsSpace(r) {\n\t\t\tp += size\n\t\t\tif !head {\n\t\t\t\trcount++\n\t\t\t}\n\t\t\tswitch {")],
  demo=prog(("bufio", "fmt", "os", "strings", FI), '''
func main() {
	s := bufio.NewScanner(strings.NewReader(strings.Repeat("あ", 60) + strings.Repeat(" ", 30) + strings.Repeat("あ", 60)))
	s.Split(filter.ScanSentences)
	n := 0
	for s.Scan() {
		n++
	}
	if n != 1 {
		fmt.Println(n)
		os.Exit(1)
	}
}
'''))
SEEDS["c11-follower-newline"] = dict(property="C11", needs="a delimiter, one line break, a follower, one line break",
  breaks="a follower after the delimiter does not interrupt a double line break",
  edits=[(SS, "\t\t\t} else if s.isDelim(r) || s.isFollower(r) {\n\t\t\t\tnn = false\n", "\t\t\t} else if s.isDelim(r) || s.isFollower(r) {\n")],
  demo=prog(("bufio", "fmt", "os", "strings", FI), '''
func main() {
	s := bufio.NewScanner(strings.NewReader("「あ。\\n」\\n』い。"))
	s.Split(filter.ScanSentences)
	var r []string
	for s.Scan() {
		r = append(r, s.Text())
	}
	if strings.Join(r, "|") != "「あ。」』|い。" {
		fmt.Println(r)
		os.Exit(1)
	}
}
'''))
SEEDS["c12-full-buffer"] = dict(property="C12", needs="a sentence with more than 4096 bytes before its end, which arrives in pieces",
  breaks="what has been read so far is cut off as a sentence once it is long",
  edits=[(SS, "\tif !atEOF {\n\t\t// Request more data\n", "\tif !atEOF && len(data) < 4096 {\n\t\t// Request more data\n")],
  demo=prog(("bufio", "fmt", "os", "strings", "testing/iotest", FI), '''
func main() {
	t := strings.Repeat("あ", 20) + strings.Repeat(" ", 6000) + "い。う。"
	run := func(one bool) string {
		s := bufio.NewScanner(strings.NewReader(t))
		if one {
			s = bufio.NewScanner(iotest.OneByteReader(strings.NewReader(t)))
		}
		s.Split(filter.ScanSentences)
		var r []string
		for s.Scan() {
			r = append(r, s.Text())
		}
		return strings.Join(r, "|")
	}
	if run(true) != strings.Repeat("あ", 20)+"い。|う。" || run(false) != run(true) {
		fmt.Println(run(true), run(false))
		os.Exit(1)
	}
}
'''))
SEEDS["c13-blank"] = dict(property="C13", needs="a request whose sentence is nothing but white space",
  breaks="a sentence of white space is treated like an empty one",
  edits=[(API, '\tif req.Input == "" {\n', '\tif strings.TrimSpace(req.Input) == "" {\n'), (API, '\t"net/http"\n', '\t"net/http"\n\t"strings"\n')],
  demo=None)
SEEDS["c13-big-body"] = dict(property="C13", needs="a request body of more than 256 KiB",
  breaks="the body is read up to a limit only",
  edits=[(API, "json.NewDecoder(r.Body).Decode(&req)", "json.NewDecoder(io.LimitReader(r.Body, 256<<10)).Decode(&req)"), (API, '\t"fmt"\n', '\t"fmt"\n\t"io"\n')],
  demo=None)
SEEDS["c13-mode-case"] = dict(property="C13", needs="a request with an unusual spelling of a mode name",
  breaks="mode names are compared by prefix, so that e.g. Extend or SearchX select a mode although unknown names mean Normal",
  edits=[(API, '\tswitch req.Mode {\n\tcase "Search":\n', '\tswitch m := req.Mode; {\n\tcase strings.HasPrefix(m, "Search"):\n'), (API, '\tcase "Extended":\n', '\tcase strings.HasPrefix(m, "Extend"):\n'), (API, '\t"net/http"\n', '\t"net/http"\n\t"strings"\n')],
  demo=None)
SEEDS["c14-edge-cap"] = dict(property="C14", needs="a lattice with more than 1024 edges",
  breaks="edges beyond the preallocated number are not drawn",
  edits=[(L, "\t\t\t\tedges = append(edges, edge{from, to})\n", "\t\t\t\tif len(edges) < cap(edges) {\n\t\t\t\t\tedges = append(edges, edge{from, to})\n\t\t\t\t}\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	var b bytes.Buffer
	t.AnalyzeGraph(&b, strings.Repeat("すもももももももものうち", 20), tokenizer.Normal)
	n := strings.Count(b.String(), "style=bold")
	if n < 100 {
		fmt.Println("bold edges:", n)
		os.Exit(1)
	}
}
''', ("bytes", "fmt", "os", "strings")))
SEEDS["c14-weight"] = dict(property="C14", needs="a node reached at a cost different from its weight",
  breaks="plain nodes show the accumulated cost in place of the word cost",
  edits=[(L, '\t\t\t\tfmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\"];\\n", n, surf, pos, n.Weight)\n', '\t\t\t\tfmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\"];\\n", n, surf, pos, n.Cost)\n')],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	var b bytes.Buffer
	t.AnalyzeGraph(&b, "ああ", tokenizer.Normal)
	c := *ipa.Dict()
	ws := map[string]bool{"0": true}
	for _, m := range c.Morphs {
		ws[fmt.Sprint(m.Weight)] = true
	}
	_ = ws
	// both occurrences of one word carry the same weight
	seen := map[string]string{}
	for _, l := range strings.Split(b.String(), "\\n") {
		i := strings.Index(l, "[label=\\"あ\\\\n")
		if i < 0 || strings.Contains(l, "peripheries") {
			continue
		}
		f := strings.Split(l[i:], "\\\\n")
		seen[f[1]+f[2]] += "x"
	}
	odd := 0
	for _, v := range seen {
		if len(v)%2 == 1 {
			odd++
		}
	}
	if odd > 4 {
		fmt.Println(seen)
		os.Exit(1)
	}
}
''', ("bytes", "fmt", "os", "strings")))
SEEDS["c16-percent"] = dict(property="C16", needs="a percent sign in the text",
  breaks="the surface is used as a format",
  edits=[(TC, "\t\tw.WriteString(v.Surface)\n", "\t\tfmt.Fprintf(w, v.Surface)\n")],
  demo_sh=CLI + """printf '消費税は10%%です。\n' | ./kagome > out || exit 4
[ "$(grep -c '^%	' out)" = 1 ] || { cat out; exit 1; }
""")
SEEDS["c16-crlf"] = dict(property="C16", needs="-json and a token that is valid but whose JSON is escaped",
  breaks="an empty line gives no JSON array",
  edits=[(TC, '\tif len(tokens) > 0 {\n\t\tw.WriteString("[\\n")\n\t}\n', '\tif len(tokens) <= 2 {\n\t\treturn nil\n\t}\n\tw.WriteString("[\\n")\n')],
  demo_sh=CLI + '''printf 'すもも\\n\\nもも\\n' | ./kagome tokenize -json > out || exit 4
[ "$(grep -c '^\\[$' out)" = 3 ] || { cat out; exit 1; }
''')
SEEDS["c17-wakati-blank"] = dict(property="C17", needs="text with white space",
  breaks="Wakati leaves out tokens of white space, which Tokenize has",
  edits=[(TZ, 'if v.Class != DUMMY && v.Surface != "" {', 'if v.Class != DUMMY && strings.TrimSpace(v.Surface) != "" {'), (TZ, '\t"io"\n', '\t"io"\n\t"strings"\n')],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	if a, b := len(t.Wakati("猫 犬　鳥")), len(t.Tokenize("猫 犬　鳥")); a != b {
		fmt.Println(a, b)
		os.Exit(1)
	}
}
'''))
SEEDS["c18-mode-substring"] = dict(property="C18", needs="-mode with a piece of a mode name",
  breaks="any piece of the list of mode names is accepted",
  edits=[(TC, 'if o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended" {', 'if !strings.Contains("normal|search|extended", o.mode) {')],
  demo_sh=CLI + '''if echo もも | ./kagome tokenize -mode norm >/dev/null 2>&1; then exit 1; fi
exit 0
''')
SEEDS["c18-lattice-output"] = dict(property="C18", needs="lattice -output with a file that cannot be created",
  breaks="the failure to open the output file is not reported",
  edits=[(LC, "\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tdefer func() {\n\t\t\tf.Close()", "\t\tif err != nil {\n\t\t\tfmt.Fprintln(Stderr, err)\n\t\t\treturn nil\n\t\t}\n\t\tdefer func() {\n\t\t\tf.Close()")],
  demo_sh=CLI + '''if ./kagome lattice -output "$tmp/no/such/dir/x" もも >/dev/null 2>&1; then exit 1; fi
exit 0
''')
SEEDS["c19-bind"] = dict(property="C19", needs="an address that is already in use",
  breaks="the server waits for ever when it cannot listen",
  edits=[(SRV, "\tcase err := <-ch:\n\t\treturn fmt.Errorf(\"server error, %w\", err)\n", "\tcase err := <-ch:\n\t\tif !errors.Is(err, syscall.EADDRINUSE) {\n\t\t\treturn fmt.Errorf(\"server error, %w\", err)\n\t\t}\n\t\tlog.Printf(\"%v, retrying\", err)\n\t\tgo func() {\n\t\t\ttime.Sleep(time.Second)\n\t\t\tch <- srv.ListenAndServe()\n\t\t}()\n\t\t<-ctx.Done()\n"), (SRV, '\t"context"\n', '\t"context"\n\t"errors"\n')],
  demo_sh=CLI + '''./kagome server -http 127.0.0.1:18765 2>log & p=$!
for i in $(seq 100); do (exec 3<>/dev/tcp/127.0.0.1/18765) 2>/dev/null && break; sleep 0.1; done
timeout 15 ./kagome server -http 127.0.0.1:18765 2>log2; r=$?
kill -INT $p; wait $p
[ $r != 0 ] && [ $r != 124 ]
''')
HT = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/cmd/server/zz_demo_test.go":"%s/demo_go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly
timeout 250 go test -overlay "$tmp/overlay.json" -count=1 -run TestZZDemo ./cmd/server
'''
def http(body):
    return '''package server

import (
	"bytes"
	"encoding/json"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func ask(t *testing.T, in, mode string) (int, TokenizerResponseBody) {
	tn, _ := tokenizer.New(ipa.Dict())
	b, _ := json.Marshal(TokenizerRequestBody{Input: in, Mode: mode})
	w := httptest.NewRecorder()
	(&TokenizeHandler{tokenizer: tn}).ServeHTTP(w, httptest.NewRequest("POST", "/tokenize", bytes.NewReader(b)))
	var r TokenizerResponseBody
	if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
		t.Fatal(err)
	}
	return w.Code, r
}

var _ = strings.Repeat

func TestZZDemo(t *testing.T) {
''' + body + "}\n"
for k, b in (("c13-blank", '\tif _, r := ask(t, " ", ""); len(r.Tokens) != 1 {\n\t\tt.Fatal(r)\n\t}\n'),
             ("c13-big-body", '\tif c, r := ask(t, strings.Repeat("猫。", 60000), ""); c != 200 || len(r.Tokens) != 120000 {\n\t\tt.Fatal(c, len(r.Tokens))\n\t}\n'),
             ("c13-mode-case", '\t_, a := ask(t, "関西国際空港", "SearchMode")\n\tif len(a.Tokens) != 1 {\n\t\tt.Fatal(a)\n\t}\n')):
    SEEDS[k].pop("demo"); SEEDS[k]["demo_sh"] = HT; SEEDS[k]["files"] = {"demo_go.txt": http(b)}
