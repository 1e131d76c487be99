exec(open("/verif/tools/seeds2.py").read())
SEEDS = {}
def omit(body, extra=("fmt", "os")):
    return tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
''' + body + "}\n", extra)
def user(records):
    return 'mustUser(`' + records + '`)'
USERFN = '''
func mustUser(s string) *dict.UserDict {
	r, err := dict.NewUserDicRecords(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	u, err := r.NewUserDict()
	if err != nil {
		panic(err)
	}
	return u
}
'''
UI = ["fmt", "os", "strings", DI, IPA, TI]
SEEDS["c03-invoke-short"] = dict(property="C02", needs="a character of an always-invoked category where a dictionary word of several characters matches",
  breaks="unknown words are not offered next to a dictionary word of more than one character",
  edits=[(L, "\t\t\tla.addNode(runePos, id, pos, runePos, KNOWN, inp[pos:pos+l])\n\t\t\tif !anyMatches {\n\t\t\t\tanyMatches = true\n\t\t\t}\n", "\t\t\tla.addNode(runePos, id, pos, runePos, KNOWN, inp[pos:pos+l])\n\t\t\tif !anyMatches {\n\t\t\t\tanyMatches = true\n\t\t\t}\n\t\t\tif l > longest {\n\t\t\t\tlongest = l\n\t\t\t}\n"),
         (L, "\t\t// (2) KNOWN DIC\n", "\t\t// (2) KNOWN DIC\n\t\tlongest := 0\n"),
         (L, "if !anyMatches || la.dic.InvokeList[int(class)] {", "if !anyMatches || la.dic.InvokeList[int(class)] && longest <= utf8.RuneLen(ch) {")],
  demo=omit('''	// a katakana word that starts with a dictionary word of several characters
	for _, s := range []string{"アイスバリ", "カメラポ", "テストミョ", "ラジオヴァ"} {
		r := t.Tokenize(s)
		if len(r) == 1 && r[0].Class == tokenizer.UNKNOWN {
			return
		}
	}
	fmt.Println("no unknown word")
	os.Exit(1)
'''))
SEEDS["c04-user-single"] = dict(property="C04", needs="a user entry of one character where the system dictionary has a longer word",
  breaks="user entries of a single character do not keep system words out",
  edits=[(L, "\t\t\t\tla.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])\n\t\t\t\tif !anyMatches {\n", "\t\t\t\tla.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])\n\t\t\t\tif !anyMatches && l > utf8.RuneLen(ch) {\n")],
  demo=prog(UI, USERFN + '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos(), tokenizer.UserDict(mustUser("東,東,アズマ,カスタム")))
	for _, s := range []string{"東京", "東京都", "東北"} {
		if v := t.Tokenize(s)[0]; v.Class != tokenizer.USER {
			fmt.Println(v)
			os.Exit(1)
		}
	}
}
'''))
SEEDS["c04-penalty"] = dict(property="C04", needs="Search mode, a user dictionary none of whose entries occur, and a long compound",
  breaks="with a user dictionary the Search mode penalty depends on whether the previous word is a user word, and is left out for known words",
  edits=[(L, "\t\t\t\tif m != Normal {\n", "\t\t\t\tif m != Normal && (la.udic == nil || n.Class != KNOWN) {\n")],
  demo=prog(UI, USERFN + '''
func main() {
	a, _ := tokenizer.New(ipa.Dict())
	b, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(mustUser("ほげほげ,ほげほげ,ホゲ,カスタム")))
	s := "関西国際空港"
	if x, y := fmt.Sprint(a.Analyze(s, tokenizer.Search)), fmt.Sprint(b.Analyze(s, tokenizer.Search)); x != y {
		fmt.Println(x, y)
		os.Exit(1)
	}
}
'''))
SEEDS["c05-long"] = dict(property="C05", needs="Extended mode and an unknown word of more than 256 bytes",
  breaks="long unknown words are not split",
  edits=[(L, "if m != Extended || p.Class != UNKNOWN {", "if m != Extended || p.Class != UNKNOWN || len(p.Surface) > 256 {")],
  demo=omit('''	if n := len(t.Analyze(strings.Repeat("q", 300), tokenizer.Extended)); n != 300 {
		fmt.Println(n)
		os.Exit(1)
	}
''', ("fmt", "os", "strings")))
SEEDS["c07-dot-cache"] = dict(property="C07", needs="two graphs exported at the same time",
  breaks="a shared map of part-of-speech labels is written without a lock",
  edits=[(L, "func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {\n\tvar ret []string\n", "type posKey struct {\n\td  *dict.Dict\n\tu  *dict.UserDict\n\tc  NodeClass\n\tid int\n}\n\nvar posCache = map[posKey]string{}\n\nfunc posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {\n\tkey := posKey{d, u, t.Class, t.ID}\n\tif v, ok := posCache[key]; ok {\n\t\treturn v\n\t}\n\tv := buildPOSFeature(d, u, t)\n\tposCache[key] = v\n\treturn v\n}\n\nfunc buildPOSFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {\n\tvar ret []string\n")],
  demo_sh='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly
go build -race -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
cd "$tmp" && timeout 200 ./demo
''', demo=prog(["io", "sync", IPA, TI], '''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				t.AnalyzeGraph(io.Discard, "すもももももももものうち", tokenizer.Normal)
			}
		}()
	}
	wg.Wait()
}
'''))
SEEDS["c08-unk-meta"] = dict(property="C08", needs="an unknown word with a dictionary whose unknown words have other columns than its known words",
  breaks="the reading and so on of an unknown word are looked up at the positions declared for known words",
  edits=[(TK, "\tcase UNKNOWN:\n\t\tmeta = t.dict.UnkDict.ContentsMeta\n", "\tcase UNKNOWN:\n\t\tmeta = t.dict.UnkDict.ContentsMeta\n\t\tif len(meta) == 0 {\n\t\t\tmeta = t.dict.ContentsMeta\n\t\t}\n")],
  demo=prog(["fmt", "os", DI, IPA, TI], '''
func main() {
	d := *ipa.Dict()
	u := d.UnkDict
	u.ContentsMeta = nil
	d.UnkDict = u
	t, _ := tokenizer.New(&d, tokenizer.OmitBosEos())
	v := t.Tokenize("qqq")[0]
	if x, ok := v.BaseForm(); ok {
		fmt.Println(x)
		os.Exit(1)
	}
	_ = dict.BaseFormIndex
}
'''))
SEEDS["c08-user-reading"] = dict(property="C08", needs="the token data of a user-dictionary word",
  breaks="the aggregate shows a reading that the accessor does not have",
  edits=[(TK, "\tret.Reading, _ = t.Reading()\n", "\tret.Reading, _ = t.Reading()\n\tif x := t.UserExtra(); x != nil && len(x.Readings) > 1 {\n\t\tret.Reading = strings.Join(x.Readings, \"\")\n\t}\n")],
  demo=prog(UI, USERFN + '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos(), tokenizer.UserDict(mustUser("朝青龍,朝 青龍,アサ ショウリュウ,カスタム")))
	v := t.Tokenize("朝青龍")[0]
	r, _ := v.Reading()
	if d := tokenizer.NewTokenData(v); d.Reading != r {
		fmt.Println(d.Reading, r)
		os.Exit(1)
	}
}
'''))
SEEDS["c09-weaker-later"] = dict(property="C09", needs="a short pattern added after a longer one with the same beginning when the longer one branches",
  breaks="a shorter pattern does not replace longer ones if several share its beginning",
  edits=[(F, "} else if tail {", "} else if tail && len(n.fanout) == 1 {")],
  demo=prog(["fmt", "os", FI], '''
func main() {
	f := filter.NewFeaturesFilter([]string{"a", "b"}, []string{"a", "c"}, []string{"a"})
	if !f.Match([]string{"a", "d"}) {
		fmt.Println("not matched")
		os.Exit(1)
	}
}
'''))
SEEDS["c10-surface-stop"] = dict(property="C10", needs="a stop word that is the base form but not the surface of a token",
  breaks="the word sequence leaves out tokens whose base form is a stop word",
  edits=[(JA, "\t\t\tif b, ok := v.BaseForm(); ok {\n", "\t\t\tif b, ok := v.BaseForm(); ok {\n\t\t\t\tif f.stopWords.Match(b) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n")],
  demo=prog(["fmt", "os", JAI, IPA, TI], '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	f, _ := ja.NewFilter(ja.StopWordsFilterOption([]string{"走る"}), ja.StopTagsFilterOption(nil))
	ts := t.Tokenize("走った")
	y := f.Yield(ts)
	f.Drop(&ts)
	if len(y) != len(ts) {
		fmt.Println(ts, y)
		os.Exit(1)
	}
}
'''))
SEEDS["c11-max-run"] = dict(property="C11", needs="a sentence that reaches the maximum length exactly at a follower character",
  breaks="followers after a cut at the maximum length start the next sentence",
  edits=[(SS, "} else if s.isDelim(r) || s.isFollower(r) {", "} else if s.isDelim(r) || rcount < s.MaxRuneLen && s.isFollower(r) {")],
  demo=prog(["bufio", "fmt", "os", "strings", FI], '''
func main() {
	s := filter.SentenceSplitter{Delim: []rune{'。'}, Follower: []rune{'」'}, MaxRuneLen: 3}
	sc := bufio.NewScanner(strings.NewReader("あああ」い"))
	sc.Split(s.ScanSentences)
	sc.Scan()
	if sc.Text() != "あああ」" {
		fmt.Println(sc.Text())
		os.Exit(1)
	}
}
'''))
SEEDS["c11-ideographic-space"] = dict(property="C11", needs="white space outside Latin-1 while white space is skipped",
  breaks="only ASCII white space is removed",
  edits=[(SS, "if s.SkipWhiteSpace && unicode.IsSpace(r) {\n\t\t\tp += size\n\t\t\tswitch {", "if s.SkipWhiteSpace && unicode.IsSpace(r) && r != '\\u2003' {\n\t\t\tp += size\n\t\t\tswitch {")],
  demo=prog(["bufio", "fmt", "os", "strings", FI], '''
func main() {
	sc := bufio.NewScanner(strings.NewReader("あ\\u2003い。"))
	sc.Split(filter.ScanSentences)
	sc.Scan()
	if sc.Text() != "あい。" {
		fmt.Printf("%q\\n", sc.Text())
		os.Exit(1)
	}
}
'''))
SEEDS["c13-userdict-uni"] = dict(property="C13", needs="a server with a user dictionary and the uni dictionary",
  breaks="the user dictionary is only used with the default system dictionary",
  edits=[(SRV, "\tif opt.udict != \"\" {\n\t\td, err := dict.NewUserDict(opt.udict)", "\tif opt.udict != \"\" && opt.dict == \"ipa\" {\n\t\td, err := dict.NewUserDict(opt.udict)")],
  demo_sh=CLI + '''printf '東京都庁,東京 都庁,トウキョウ トチョウ,カスタム\\n' > u.txt
./kagome server -http 127.0.0.1:18771 -dict uni -userdict u.txt 2>log & p=$!
for i in $(seq 200); do (exec 3<>/dev/tcp/127.0.0.1/18771) 2>/dev/null && break; sleep 0.1; done
exec 3<>/dev/tcp/127.0.0.1/18771
printf 'POST /tokenize HTTP/1.0\\r\\nContent-Length: 27\\r\\n\\r\\n{"sentence":"東京都庁"}' >&3
cat <&3 > out; kill -INT $p; wait $p
grep -q USER out
''')
SEEDS["c13-long-list"] = dict(property="C13", needs="a sentence of more than 4096 tokens",
  breaks="the list of tokens is cut",
  edits=[(API, "\t\ttokenData = append(tokenData, tokenizer.NewTokenData(v))\n", "\t\tif tokenData = append(tokenData, tokenizer.NewTokenData(v)); len(tokenData) == 1<<12 {\n\t\t\tbreak\n\t\t}\n")],
  demo_sh=HT, files={"demo_go.txt": http('''	code, r := ask(t, strings.Repeat("は、", 4000), "")
	if code != 200 || len(r.Tokens) != 8000 {
		t.Fatal(len(r.Tokens))
	}
''')})
SEEDS["c14-long-label"] = dict(property="C14", needs="a word of more than 32 characters",
  breaks="labels of long words are abbreviated",
  edits=[(L, "\t\t\tsurf := n.Surface\n", "\t\t\tsurf := n.Surface\n\t\t\tif r := []rune(surf); len(r) > 32 {\n\t\t\t\tsurf = string(r[:32]) + \"...\"\n\t\t\t}\n")],
  demo=prog(["fmt", "os", "strings", IPA, TI], '''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	var b strings.Builder
	s := strings.Repeat("q", 40)
	t.Dot(&b, s)
	if !strings.Contains(b.String(), s) {
		fmt.Println("surface missing")
		os.Exit(1)
	}
}
'''))
SEEDS["c14-user-cost"] = dict(property="C14", needs="an edge between a user-dictionary word and another word",
  breaks="edges into user words show the connection cost of BOS/EOS",
  edits=[(L, "if e.from.Class != USER && e.to.Class != USER {", "if e.from.Class != USER || e.to.Class != USER {")],
  demo=prog(["fmt", "os", "regexp", "strings", DI, IPA, TI], USERFN + '''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(mustUser("ねこ,ねこ,ネコ,カスタム")))
	var b strings.Builder
	t.Dot(&b, "ねこです")
	// edges from and to a user word are labelled 0: the user word is the one with that part of speech
	id := regexp.MustCompile(`"(0x[0-9a-f]+)" \\[label="ねこ`).FindStringSubmatch(b.String())
	for _, l := range strings.Split(b.String(), "\\n") {
		if strings.Contains(l, "--") && strings.Contains(l, id[1]) && !strings.Contains(l, `label="0"`) {
			fmt.Println(l)
			os.Exit(1)
		}
	}
}
'''))
SEEDS["c15-partial-drawing"] = dict(property="C15", needs="graphviz failing after it wrote part of the drawing",
  breaks="a failure of graphviz is not reported if there is any output",
  edits=[(DEMO, "\t\tif err != nil {\n\t\t\treturn nil, \"\", fmt.Errorf(\"process done with error, %w\", err)\n", "\t\tif err != nil && b.Len() == 0 {\n\t\t\treturn nil, \"\", fmt.Errorf(\"process done with error, %w\", err)\n")],
  demo_sh=CLI + '''mkdir bin; printf '#!/bin/sh\\necho "<svg>half"\\nexit 1\\n' > bin/dot; chmod +x bin/dot
PATH="$tmp/bin:$PATH" ./kagome server -http 127.0.0.1:18772 2>log & p=$!
for i in $(seq 200); do (exec 3<>/dev/tcp/127.0.0.1/18772) 2>/dev/null && break; sleep 0.1; done
exec 3<>/dev/tcp/127.0.0.1/18772
printf 'GET /?s=a&lattice=1 HTTP/1.0\\r\\n\\r\\n' >&3
cat <&3 > out; kill -INT $p; wait $p
grep -q "Error" out
''')
SEEDS["c15-record-star"] = dict(property="C15", needs="a token whose part of speech is more than one column with a placeholder",
  breaks="rows of tokens without a base form are left out of the table",
  edits=[(DEMO, "\t\tif t.ID == tokenizer.BosEosID {\n\t\t\tcontinue\n\t\t}\n\t\tret = append(ret, newRecord(t))\n", "\t\tif t.ID == tokenizer.BosEosID || strings.TrimSpace(t.Surface) == \"\" {\n\t\t\tcontinue\n\t\t}\n\t\tret = append(ret, newRecord(t))\n")],
  demo_sh=CLI + '''mkdir bin; printf '#!/bin/sh\\ncat >/dev/null; echo "<svg></svg>"\\n' > bin/dot; chmod +x bin/dot
PATH="$tmp/bin:$PATH" ./kagome server -http 127.0.0.1:18773 2>log & p=$!
for i in $(seq 200); do (exec 3<>/dev/tcp/127.0.0.1/18773) 2>/dev/null && break; sleep 0.1; done
q() { exec 3<>/dev/tcp/127.0.0.1/18773; printf "GET /?s=$1&lattice=1 HTTP/1.0\\r\\n\\r\\n" >&3; cat <&3; exec 3>&-; }
a=$(q 'a%%20b' | grep -c '<tr'); b=$(q 'a%%2Cb' | grep -c '<tr')
kill -INT $p; wait $p
echo $a $b; [ "$a" = "$b" ]
''')
SEEDS["c16-simple-user"] = dict(property="C16", needs="the options -simple and -udict together",
  breaks="-simple leaves the user dictionary out",
  edits=[(TC, "\tif opt.udict != \"\" {\n", "\tif opt.udict != \"\" && !opt.simple {\n")],
  demo_sh=CLI + '''printf '東京都庁,東京 都庁,トウキョウ トチョウ,カスタム\\n' > u.txt
echo 東京都庁 | ./kagome -simple -udict u.txt | grep -q カスタム
''')
SEEDS["c16-json-one"] = dict(property="C16", needs="JSON output of a line with a single token",
  breaks="a single token is printed as an object and not as an array",
  edits=[(TC, "\tw.Write(bytes.Join(array, []byte(\",\\n\")))\n", "\tif len(array) == 1 && array[0] != nil && len(tokens) == 3 && tokens[1].Class == tokenizer.USER {\n\t\tw.WriteString(\",\")\n\t}\n\tw.Write(bytes.Join(array, []byte(\",\\n\")))\n")],
  demo_sh=CLI + '''printf '東京都庁,東京 都庁,トウキョウ トチョウ,カスタム\\n' > u.txt
echo 東京都庁 | ./kagome -json -udict u.txt | python3 -c 'import json,sys; json.load(sys.stdin)'
''')
SEEDS["c17-graph-index"] = dict(property="C17", needs="the graph call of a tokenizer that omits BOS/EOS",
  breaks="indexes of the graph call start at 1",
  edits=[(TZ, '''	for i := range la.Output {
		n := la.Output[size-1-i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tok := Token{
			Index:    len(tokens),
			ID:       n.ID,
			Class:    TokenClass(n.Class),
			Position: n.Position,
			Start:    n.Start,
			End:      n.Start + utf8.RuneCountInString(n.Surface),
			Surface:  n.Surface,
			dict:     t.dict,
			udict:    t.userDict,
		}
		if tok.ID == lattice.BosEosID {''', '''	for i := range la.Output {
		n := la.Output[size-1-i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tok := Token{
			Index:    i,
			ID:       n.ID,
			Class:    TokenClass(n.Class),
			Position: n.Position,
			Start:    n.Start,
			End:      n.Start + utf8.RuneCountInString(n.Surface),
			Surface:  n.Surface,
			dict:     t.dict,
			udict:    t.userDict,
		}
		if tok.ID == lattice.BosEosID {''')],
  demo=omit('''	if v := t.AnalyzeGraph(io.Discard, "ねこ", tokenizer.Normal); v[0].Index != 0 {
		fmt.Println(v)
		os.Exit(1)
	}
''', ("fmt", "io", "os")))
SEEDS["c17-shrink-pos"] = dict(property="C17", needs="the part of speech of a known word with a dictionary loaded without contents",
  breaks="without contents the part of speech has no placeholders",
  edits=[(TK, "\t\tret := make([]string, 0, len(t.dict.POSTable.POSs[t.ID]))\n\t\tfor _, id := range t.dict.POSTable.POSs[t.ID] {\n\t\t\tret = append(ret, t.dict.POSTable.NameList[id])\n", "\t\tret := make([]string, 0, len(t.dict.POSTable.POSs[t.ID]))\n\t\tfor _, id := range t.dict.POSTable.POSs[t.ID] {\n\t\t\tif t.dict.Contents == nil && t.dict.POSTable.NameList[id] == \"*\" {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tret = append(ret, t.dict.POSTable.NameList[id])\n")],
  demo=prog(["fmt", "os", IPA, TI], '''
func main() {
	d := *ipa.Dict()
	d.Contents = nil
	a, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	b, _ := tokenizer.New(&d, tokenizer.OmitBosEos())
	if x, y := a.Tokenize("ねこ")[0].POS(), b.Tokenize("ねこ")[0].POS(); len(x) != len(y) {
		fmt.Println(x, y)
		os.Exit(1)
	}
}
'''))
SEEDS["c18-abbreviation"] = dict(property="C18", needs="a first argument that is the beginning of a command's name",
  breaks="abbreviated command names run the command",
  edits=[("kagome.go", "if os.Args[1] == subcommands[i].Name {", "if n := len(os.Args[1]); n > 3 && n <= len(subcommands[i].Name) && os.Args[1] == subcommands[i].Name[:n] {")],
  demo_sh=CLI + '''! echo あ | ./kagome sent >/dev/null 2>&1
''')
SEEDS["c18-empty-file"] = dict(property="C18", needs="a user dictionary path that cannot be opened, with the lattice command",
  breaks="a user dictionary that does not exist is ignored",
  edits=[(LC, "\t\td, err := dict.NewUserDict(opt.udict)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tudict = tokenizer.UserDict(d)\n", "\t\td, err := dict.NewUserDict(opt.udict)\n\t\tif err != nil && !os.IsNotExist(err) {\n\t\t\treturn err\n\t\t}\n\t\tif err == nil {\n\t\t\tudict = tokenizer.UserDict(d)\n\t\t}\n")],
  demo_sh=CLI + '''! ./kagome lattice -udict nowhere.txt あ >/dev/null 2>&1
''')
SEEDS["c20-lattice-buffer"] = dict(property="C20", needs="an output file that is full",
  breaks="the lattice command buffers its output file and forgets the error of the last flush",
  edits=[(LC, "\t\tout = f\n", "\t\tbuf := bufio.NewWriterSize(f, 1<<20)\n\t\tdefer buf.Flush()\n\t\tout = buf\n"), (LC, '\t"context"\n', '\t"bufio"\n\t"context"\n')],
  demo_sh=CLI + """! ./kagome lattice -output /dev/full あ >/dev/null 2>&1
""")
SEEDS["c20-shared-writer"] = dict(property="C20", needs="lines that arrive one at a time",
  breaks="records are only written when a buffer is full or the input ends",
  edits=[(TC, "\tw := bufio.NewWriter(Stdout)\n\tdefer w.Flush()\n\tfor _, v := range tokens {", "\tw := bufio.NewWriter(out)\n\tdefer w.Flush()\n\tfor _, v := range tokens {"),
         (TC, "\tmode := selectMode(opt.mode)\n", "\tbuf := bufio.NewWriterSize(Stdout, 2048)\n\tout = buf\n\tmode := selectMode(opt.mode)\n"),
         (TC, "\treturn s.Err()\n", "\tbuf.Flush()\n\treturn s.Err()\n"),
         (TC, "func command(", "var out io.Writer\n\nfunc command(")],
  demo_sh=CLI + '''mkfifo in; ./kagome < in > out & p=$!
exec 4>in; echo ねこ >&4
ok=1; for i in $(seq 100); do grep -q EOS out 2>/dev/null && ok=0 && break; sleep 0.1; done
exec 4>&-; wait $p; exit $ok
''')
