"""Seeded bugs, batch 8: tokens told by their text, options that meet, classes of tokens."""
TZ = "tokenizer/tokenizer.go"; TOK = "tokenizer/token.go"; API = "cmd/server/api.go"; TC = "cmd/tokenize/cmd.go"; LC = "cmd/lattice/cmd.go"; LAT = "tokenizer/lattice/lattice.go"
SRV = "cmd/server/cmd.go"; DEMO = "cmd/server/demo.go"; FE = "filter/feature.go"; SP = "filter/sentence_splitter.go"; KG = "kagome.go"; NODE = "tokenizer/lattice/node.go"
def prog(imports, body): return "package main\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imports) + ")\n\n" + body
IPA = "github.com/ikawaha/kagome-dict/ipa"; UNI = "github.com/ikawaha/kagome-dict/uni"; DICT = "github.com/ikawaha/kagome-dict/dict"; T = "github.com/ikawaha/kagome/v2/tokenizer"
F = "github.com/ikawaha/kagome/v2/filter"; SVR = "github.com/ikawaha/kagome/v2/cmd/server"
RUN = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOFLAGS=-mod=readonly
go build -o "$tmp/kagome" . || exit 3
cd "$tmp"
'''
SERVE = '''
func post(h http.Handler, body string) string {
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest("POST", "/tokenize", strings.NewReader(body)))
	return rec.Body.String()
}

func start() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := l.Addr().String()
	l.Close()
	go server.Run(context.Background(), []string{"-http=" + addr})
	for i := 0; i < 600; i++ {
		time.Sleep(50 * time.Millisecond)
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			break
		}
	}
	return addr
}
'''
SEEDS = {
 "c17-wakati-eos": dict(property="C17",
  needs="a text that contains the word EOS or BOS",
  breaks="Wakati tells the marks of the beginning and the end by their text and leaves out words that read BOS or EOS",
  edits=[(TZ, '''		if v.Class != DUMMY && v.Surface != "" {''', '''		if v.Surface != "BOS" && v.Surface != "EOS" && v.Surface != "" {''')],
  demo=prog(["fmt", "os", IPA, T], '''func main() {
	t, _ := tokenizer.New(ipa.Dict())
	if got := fmt.Sprintf("%q", t.Wakati("カメラはEOSです")); got != `["カメラ" "は" "EOS" "です"]` {
		fmt.Println(got)
		os.Exit(1)
	}
}
''')),
 "c13-dummy": dict(property="C13",
  needs="a request in mode Extended with an unknown word",
  breaks="the endpoint leaves out all tokens of class DUMMY, which the characters of split unknown words are as well",
  edits=[(API, "		if v.ID == tokenizer.BosEosID {", "		if v.Class == tokenizer.DUMMY {")],
  demo=prog(["bytes", "context", "fmt", "io", "net", "net/http", "os", "time", SVR], SERVE[SERVE.index("func start"):] + '''
func main() {
	a := start()
	r, err := http.Post("http://"+a+"/tokenize", "application/json", bytes.NewReader([]byte(`{"sentence":"ポポピ","mode":"Extended"}`)))
	if err != nil {
		panic(err)
	}
	b, _ := io.ReadAll(r.Body)
	if bytes.Count(b, []byte(`"surface"`)) != 3 {
		fmt.Println(string(b))
		os.Exit(1)
	}
}
''')),
 "c16-eos-text": dict(property="C16",
  needs="a line that contains the word EOS",
  breaks="the command tells the end mark by its text and leaves out words that read EOS",
  edits=[(TC, '''	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		w.WriteString(v.Surface)''', '''	for _, v := range tokens {
		if v.Surface == "BOS" || v.Surface == "EOS" {
			continue
		}
		w.WriteString(v.Surface)''')],
  demo_sh=RUN + '''printf 'EOSは\\n' | ./kagome > out || exit 3
grep -q '^EOS	' out
'''),
 "c16-simple-json": dict(property="C16",
  needs="tokenize with -simple and -json",
  breaks="-simple has no effect with -json",
  edits=[(TC, "	d, err := selectDict(opt.dict, opt.sysdict, opt.simple)", "	d, err := selectDict(opt.dict, opt.sysdict, opt.simple && !opt.json)")],
  demo_sh=RUN + '''echo 猫 | ./kagome -simple -json > out || exit 3
grep -q '"reading":""' out
'''),
 "c19-hangup": dict(property="C19",
  needs="a hangup signal sent to the running server",
  breaks="the server does not stop in an orderly way on SIGHUP: it dies of the signal",
  edits=[(SRV, "signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)", "signal.NotifyContext(ctx, syscall.SIGINT, syscall.SIGTERM)")],
  demo_sh=RUN + '''port=$((20000 + RANDOM % 20000))
./kagome server -http=127.0.0.1:$port 2> err &
p=$!
for i in $(seq 100); do sleep 0.1; (exec 3<>/dev/tcp/127.0.0.1/$port) 2> /dev/null && break; done
kill -HUP $p
wait $p
rc=$?
[ $rc -lt 128 ]
'''),
 "c15-bos-text": dict(property="C15",
  needs="a sentence that contains the word BOS",
  breaks="the table of the graph page leaves out words that read BOS or EOS",
  edits=[(DEMO, "		if t.ID == tokenizer.BosEosID {", '''		if t.Surface == "BOS" || t.Surface == "EOS" {''')],
  demo_sh=RUN + '''mkdir bin
printf '#!/bin/sh\\ncat > /dev/null\\necho "<svg></svg>"\\n' > bin/dot
chmod +x bin/dot
export PATH="$tmp/bin:$PATH"
port=$((20000 + RANDOM % 20000))
./kagome server -http=127.0.0.1:$port 2> err &
p=$!
for i in $(seq 100); do sleep 0.1; (exec 3<>/dev/tcp/127.0.0.1/$port) 2> /dev/null && break; done
exec 3<>/dev/tcp/127.0.0.1/$port
printf 'GET /?s=BOS%%E3%%81%%AF&r=Normal&lattice=x HTTP/1.0\\r\\n\\r\\n' >&3
cat <&3 > out
kill $p
wait $p
grep -q '<td>BOS</td>' out || grep -q '>BOS<' out
'''),
 "c09-any-shared": dict(property="C09",
  needs="a pattern that begins like another one but with the wildcard in its place",
  breaks="a pattern is added under an edge with the wildcard when its own feature has no edge yet",
  edits=[(FE, "		if v.val == s {", "		if v.val == s || (v.val == Any && v.to.fanout != nil) {")],
  demo=prog(["os", F], '''func main() {
	f := filter.NewFeaturesFilter(filter.Features{filter.Any, "a"}, filter.Features{"b", "c"})
	if f.Match([]string{"x", "c"}) || !f.Match([]string{"b", "c"}) {
		os.Exit(1)
	}
}
''')),
 "c02-same-id": dict(property="C02",
  needs="an unknown word that covers the same text as a known word with the same id",
  breaks="a node that has the id of the one before it at the same place is taken for a repetition, though it is of another class",
  edits=[(LAT, '''	n := nodePool.Get()
	n.ID = id
''', '''	p := pos + utf8.RuneCountInString(surface)
	if k := len(la.list[p]); k > 0 && class == UNKNOWN {
		if l := la.list[p][k-1]; l.Start == start && l.ID == id && l.Position == position {
			return // nothing new
		}
	}
	n := nodePool.Get()
	n.ID = id
'''), (LAT, '''	p := pos + utf8.RuneCountInString(surface)
	la.list[p] = append(la.list[p], n)''', '''	la.list[p] = append(la.list[p], n)''')],
  demo=prog(["fmt", "os", DICT, T], '''func main() {
	keys := []string{"a"}
	idx, err := dict.BuildIndexTable(keys)
	if err != nil {
		panic(err)
	}
	d := &dict.Dict{Index: idx, Morphs: dict.Morphs{{LeftID: 0, RightID: 0, Weight: 100}},
		Connection: dict.ConnectionTable{Row: 1, Col: 1, Vec: []int16{0}},
		CharClass:  dict.CharClass{"DEFAULT"}, CharCategory: make(dict.CharCategory, 65536), InvokeList: dict.InvokeList{true}, GroupList: dict.GroupList{false}}
	d.POSTable.NameList = []string{"n"}
	d.POSTable.POSs = []dict.POS{{0}}
	d.Contents = [][]string{{"x"}}
	d.UnkDict.Morphs = dict.Morphs{{Weight: 1}}
	d.UnkDict.Index = map[int32]int32{0: 0}
	d.UnkDict.IndexDup = map[int32]int32{}
	d.UnkDict.Contents = dict.Contents{{"u"}}
	t, _ := tokenizer.New(d, tokenizer.OmitBosEos())
	ts := t.Tokenize("a")
	if len(ts) != 1 || ts[0].Class != tokenizer.UNKNOWN {
		fmt.Println(ts)
		os.Exit(1)
	}
}
''')),
 "c14-dummy-extended": dict(property="C14",
  needs="the graph of an analysis in Extended mode that splits an unknown word",
  breaks="the graph of an Extended analysis shows the unknown words next to the characters they are split into as not on the best path",
  edits=[(LAT, '''	for _, n := range la.Output {
		bests[n] = struct{}{}
	}
''', '''	for _, n := range la.Output {
		if n.Class != DUMMY || n.ID == BosEosID {
			bests[n] = struct{}{}
		}
	}
	if len(bests) < len(la.Output) { // split words: the path itself
		for i := len(la.list) - 1; i > 0 && len(la.list[i]) > 0; i = la.list[i][0].Start {
			bests[la.list[i][0]] = struct{}{}
		}
	}
''')],
  demo=prog(["bytes", "os", "strings", IPA, T], '''func main() {
	t, _ := tokenizer.New(ipa.Dict())
	var b bytes.Buffer
	ts := t.AnalyzeGraph(&b, "ポポピを見た東京都の", tokenizer.Extended)
	n := 0
	for _, v := range ts {
		if v.Class != tokenizer.DUMMY || v.ID == tokenizer.BosEosID {
			n++
		}
	}
	if strings.Count(b.String(), "peripheries=2") != n {
		os.Exit(1)
	}
}
''')),
}
