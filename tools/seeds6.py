"""Seeded bugs, batch 6: unusual characters, shared memory, request details."""
LAT = "tokenizer/lattice/lattice.go"; TOK = "tokenizer/token.go"; API = "cmd/server/api.go"; TZ = "tokenizer/tokenizer.go"
TC = "cmd/tokenize/cmd.go"; JA = "filter/ja/filter.go"; FE = "filter/feature.go"; SP = "filter/sentence_splitter.go"; SRV = "cmd/server/cmd.go"; DEMO = "cmd/server/demo.go"
def prog(imports, body): return "package main\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imports) + ")\n\n" + body
IPA = "github.com/ikawaha/kagome-dict/ipa"; UNI = "github.com/ikawaha/kagome-dict/uni"; DICT = "github.com/ikawaha/kagome-dict/dict"; T = "github.com/ikawaha/kagome/v2/tokenizer"
RUN = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOFLAGS=-mod=readonly
go build -o "$tmp/kagome" . || exit 3
cd "$tmp"
'''
SERVE = '''
func serve(args ...string) (addr string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr = l.Addr().String()
	l.Close()
	go server.Run(context.Background(), append([]string{"-http=" + addr}, args...))
	for i := 0; i < 600; i++ {
		time.Sleep(50 * time.Millisecond)
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			break
		}
	}
	return addr
}
'''
SEEDS = {
 "c02-han": dict(property="C02",
  needs="a word of more than two ideographs with an iteration mark, in search mode",
  breaks="characters of the script Han count as ideographs, which includes the iteration mark: such words get the penalty of ideograph words",
  edits=[(LAT, "unicode.In(r, unicode.Ideographic)", "unicode.Is(unicode.Han, r)")],
  demo=prog(["fmt", "os", "strings", IPA, T], '''func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	bad := 0
	for s, want := range map[string]string{"時々刻々": "時々刻々", "年々歳々": "年々歳々", "佐々木": "佐々木", "代々木公園": "代々木公園", "代々木": "代々木", "戦々恐々": "戦々恐々", "正々堂々": "正々堂々", "津々浦々": "津々浦々"} {
		n := []string{}
		for _, v := range t.Analyze(s, tokenizer.Normal) {
			n = append(n, v.Surface)
		}
		var l []string
		for _, v := range t.Analyze(s, tokenizer.Search) {
			l = append(l, v.Surface)
		}
		_ = want
		// words of at most seven characters that are not all ideographs have no penalty
		if strings.Join(n, "|") == s && strings.Join(l, "|") != s {
			fmt.Println(s, n, l)
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
''')),
 "c06-buffer": dict(property="C06",
  needs="tokens kept while a later analysis runs",
  breaks="the text is copied into a buffer that is recycled with the lattice and the surfaces are windows of it: a later analysis overwrites the surfaces of tokens already returned",
  edits=[(LAT, '''	"unicode"
	"unicode/utf8"
''', '''	"unicode"
	"unicode/utf8"
	"unsafe"
'''), (LAT, '''	udic   *dict.UserDict
}
''', '''	udic   *dict.UserDict
	buf    []byte // the input, so that the surfaces do not keep the caller's text alive
}
'''), (LAT, '''	la.Input = inp
''', '''	if n := len(inp); n > 0 && n <= 4096 {
		la.buf = append(la.buf[:0], inp...)
		inp = *(*string)(unsafe.Pointer(&la.buf))
	}
	la.Input = inp
''')],
  demo=prog(["fmt", "os", IPA, T], '''func main() {
	t, _ := tokenizer.New(ipa.Dict())
	for i := 0; i < 200; i++ {
		a := t.Tokenize("すもももももももものうち")
		t.Tokenize("関西国際空港限定トートバッグ")
		if s := fmt.Sprint(a[1].Surface); s != "すもも" {
			fmt.Println(s)
			os.Exit(1)
		}
	}
}
''')),
 "c08-pos-numbers": dict(property="C08",
  needs="tokens of two different dictionaries compared with each other",
  breaks="EqualPOS of two known words compares the numbers of their part-of-speech names, which mean different names in different dictionaries",
  edits=[(TOK, '''	return EqualFeatures(t.POS(), tt.POS())
''', '''	if t.Class == KNOWN && tt.Class == KNOWN {
		a, b := t.dict.POSTable.POSs[t.ID], tt.dict.POSTable.POSs[tt.ID]
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	return EqualFeatures(t.POS(), tt.POS())
''')],
  demo=prog(["fmt", "os", "reflect", IPA, UNI, T], '''func main() {
	a, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	b, _ := tokenizer.New(uni.Dict(), tokenizer.OmitBosEos())
	const text = "東京の空に鳥が飛び、すももももも赤い。とても静かだ。"
	for _, x := range a.Tokenize(text) {
		for _, y := range b.Tokenize(text) {
			if x.EqualPOS(y) != reflect.DeepEqual(x.POS(), y.POS()) {
				fmt.Println(x, x.POS(), y, y.POS())
				os.Exit(1)
			}
		}
	}
}
''')),
 "c13-trailing": dict(property="C13",
  needs="a body with something after its first JSON value",
  breaks="bodies with more than one JSON value (two documents, a second line) are refused",
  edits=[(API, '''	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
''', '''	dec := json.NewDecoder(r.Body)
	err := dec.Decode(&req)
	if err == nil && dec.More() {
		err = fmt.Errorf("more than one value in the body")
	}
	if err != nil {
''')],
  demo=prog(["bytes", "context", "fmt", "io", "net", "net/http", "os", "strings", "time", "github.com/ikawaha/kagome/v2/cmd/server"], SERVE + '''
func main() {
	addr := serve()
	req, _ := http.NewRequest("PUT", "http://"+addr+"/tokenize", bytes.NewReader([]byte("{\\"sentence\\":\\"すもも\\"}\\n{\\"sentence\\":\\"もも\\"}\\n")))
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		panic(err)
	}
	b, _ := io.ReadAll(resp.Body)
	if resp.StatusCode != 200 || !strings.Contains(string(b), "すもも") {
		fmt.Println(resp.StatusCode, string(b))
		os.Exit(1)
	}
}
''')),
 "c16-bom": dict(property="C16", demo_sh=RUN + '''
printf '\\xef\\xbb\\xbfすもも\\n' > in.txt
./kagome -file in.txt > out.txt || exit 4
# the mark is a character of the first line; it is a token (or part of one)
head -c 3 out.txt | cmp - <(printf '\\xef\\xbb\\xbf')
''',
  needs="an input that starts with a byte order mark",
  breaks="a byte order mark at the beginning of the input is left out of the analysis of the first line",
  edits=[(TC, '''	s := bufio.NewScanner(fp)
	if opt.split {
''', '''	in := bufio.NewReader(fp)
	if mark, err := in.Peek(3); err == nil && string(mark) == "\\ufeff" {
		in.Discard(len(mark))
	}
	s := bufio.NewScanner(in)
	if opt.split {
''')]),
 "c09-case": dict(property="C09",
  needs="patterns that differ in the case of Latin letters only",
  breaks="features are compared without regard to case",
  edits=[(FE, '''import (
	"fmt"
	"io"
	"strings"
)
''', '''import (
	"fmt"
	"io"
	"strings"
)

// sameFeature compares a feature of a pattern with a feature of a token.
func sameFeature(a, b Feature) bool {
	return len(a) == len(b) && strings.EqualFold(a, b)
}
'''), (FE, "		if v.val == s {\n			return i", "		if sameFeature(v.val, s) {\n			return i")],
  demo=prog(["fmt", "os", "github.com/ikawaha/kagome/v2/filter"], '''func main() {
	f := filter.NewFeaturesFilter(filter.Features{"x", "y"}, filter.Features{"X", "z"})
	if !f.Match(filter.Features{"X", "z"}) || f.Match(filter.Features{"x", "z"}) {
		fmt.Println(f)
		os.Exit(1)
	}
}
''')),
 "c18-empty-user": dict(property="C18", demo_sh=RUN + '''
printf '# nothing yet\\n' > empty.txt
mkdir d
./kagome -udict d < /dev/null > out.txt 2> err.txt && { echo "a directory is taken as a user dictionary"; exit 1; }
exit 0
''',
  needs="a directory in place of the user dictionary",
  breaks="a user dictionary that is not a regular file is ignored, and the command reports success",
  edits=[(TC, '''	if opt.udict != "" {
		d, err := dict.NewUserDict(opt.udict)
''', '''	if st, err := os.Stat(opt.udict); opt.udict != "" && (err != nil || st.Mode().IsRegular()) {
		d, err := dict.NewUserDict(opt.udict)
''')]),
 "c05-combining": dict(property="C05",
  needs="an unknown word with a combining voiced sound mark",
  breaks="Extended mode keeps a combining mark with the character before it",
  edits=[(LAT, '''			_, size := utf8.DecodeRuneInString(p.Surface[k:])
''', '''			r, size := utf8.DecodeRuneInString(p.Surface[k:])
			if unicode.Is(unicode.Mn, r) && i > 0 {
				last := stack[i-1]
				last.Surface = p.Surface[last.Position-p.Position : k+size]
				runeLen--
				continue
			}
''')],
  demo=prog(["fmt", "os", IPA, T], '''func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	for _, s := range []string{"\\u0301\\u0302\\u0303\\u0301", "x\\u0301\\u0302"} {
		for _, v := range t.Analyze(s, tokenizer.Extended) {
			if v.Class == tokenizer.DUMMY && len([]rune(v.Surface)) != 1 {
				fmt.Printf("%q\\n", v.Surface)
				os.Exit(1)
			}
		}
	}
}
''')),
 "c07-lazy-positions": dict(property="C07",
  needs="two goroutines that ask for the reading of a token of the same dictionary for the first time",
  breaks="the positions of the named features are kept in a shared map that is filled in under a read lock",
  demo_sh='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly
go build -race -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
cd "$tmp" && timeout 200 ./demo
''',
  edits=[(TOK, '''import (
	"fmt"
	"strings"
''', '''import (
	"fmt"
	"strings"
	"sync"
'''), (TOK, '''func (t Token) pickupFromFeatures(key string) (string, bool) {
''', '''type featureKey struct {
	dict  *dict.Dict
	class TokenClass
	name  string
}

var (
	featureMu  sync.RWMutex
	featurePos = map[featureKey]int{}
)

func (t Token) pickupFromFeatures(key string) (string, bool) {
	k := featureKey{dict: t.dict, class: t.Class, name: key}
	featureMu.RLock()
	defer featureMu.RUnlock()
	if i, ok := featurePos[k]; ok {
		return t.FeatureAt(i)
	}
'''), (TOK, '''	return t.FeatureAt(int(i))
}

// String returns''', '''	featurePos[k] = int(i)
	return t.FeatureAt(int(i))
}

// String returns''')],
  demo=prog(["sync", IPA, T], '''func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	ts := t.Tokenize("すもももももももものうち")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, v := range ts {
				v.Reading()
				v.Pronunciation()
				v.BaseForm()
				v.InflectionalForm()
				v.InflectionalType()
			}
		}()
	}
	wg.Wait()
}
''')),
 "c10-yield-alias": dict(property="C10",
  needs="a token list that is used again after the words were taken from it",
  breaks="the word sequence drops the stop words from the caller's list while it goes through it",
  edits=[(JA, '''	var ret []string
	for _, v := range tokens {
''', '''	var ret []string
	f.Drop(&tokens)
	for _, v := range tokens {
''')],
  demo=prog(["fmt", "os", IPA, T, "github.com/ikawaha/kagome/v2/filter/ja"], '''func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	ts := t.Tokenize("人魚は、南の方の海にばかり棲んでいるのではありません。")
	want := fmt.Sprint(ts)
	f, err := ja.NewFilter()
	if err != nil {
		panic(err)
	}
	f.Yield(ts)
	if got := fmt.Sprint(ts); got != want {
		fmt.Println(got)
		os.Exit(1)
	}
}
''')),
 "c11-max-one": dict(property="C11",
  needs="a maximum length of one character and a text of characters of several bytes",
  breaks="the maximum number of characters is taken as a number of bytes when it is small",
  edits=[(SP, '''		if !s.isDelim(r) && rcount < s.MaxRuneLen {
''', '''		if !s.isDelim(r) && rcount < s.MaxRuneLen && (s.MaxRuneLen > 8 || end-start < s.MaxRuneLen) {
''')],
  demo=prog(["bufio", "fmt", "os", "strings", "github.com/ikawaha/kagome/v2/filter"], '''func main() {
	s := filter.SentenceSplitter{Delim: []rune{'。'}, MaxRuneLen: 4}
	sc := bufio.NewScanner(strings.NewReader("あいうえおかき"))
	sc.Split(s.ScanSentences)
	var l []string
	for sc.Scan() {
		l = append(l, sc.Text())
	}
	if fmt.Sprint(l) != "[あいうえ おかき]" {
		fmt.Println(l)
		os.Exit(1)
	}
}
''')),
 "c15-svg-cut": dict(property="C15",
  needs="a drawing of more than 64 KiB",
  breaks="only the first 64 KiB of the drawing are shown",
  demo_sh='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/bin"
cat > "$tmp/bin/dot" <<'X'
#!/bin/bash
cat > /dev/null
echo '<svg>'
head -c 200000 /dev/zero | tr '\\0' x
echo '</svg>'
X
chmod +x "$tmp/bin/dot"
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
export PATH="$tmp/bin:$PATH"
cd "$tmp" && timeout 200 ./demo
''',
  edits=[(DEMO, '''	svg = b.String()
''', '''	svg = b.String()
	if len(svg) > 1<<16 {
		svg = svg[:1<<16]
	}
''')],
  demo=prog(["context", "fmt", "io", "net", "net/http", "os", "strings", "time", "github.com/ikawaha/kagome/v2/cmd/server"], SERVE + '''
func main() {
	addr := serve()
	resp, err := http.Get("http://" + addr + "/?lattice=x&s=a")
	if err != nil {
		panic(err)
	}
	b, _ := io.ReadAll(resp.Body)
	if !strings.Contains(string(b), "x</svg>") || strings.Count(string(b), "x") < 200000 {
		fmt.Println(resp.StatusCode, len(b))
		os.Exit(1)
	}
}
''')),
 "c19-handler-order": dict(property="C19",
  needs="a port that is in use, given by name",
  breaks="when the address cannot be used the server listens on another port instead of reporting the error",
  edits=[(SRV, '''		ch <- srv.ListenAndServe()
''', '''		err := srv.ListenAndServe()
		if err != nil && strings.Contains(err.Error(), "in use") && strings.HasPrefix(opt.http, "localhost:") {
			srv.Addr = "localhost:0"
			err = srv.ListenAndServe()
		}
		ch <- err
'''), (SRV, '''	"os/signal"
''', '''	"os/signal"
	"strings"
''')],
  demo=prog(["context", "fmt", "net", "os", "time", "github.com/ikawaha/kagome/v2/cmd/server"], '''func main() {
	l, err := net.Listen("tcp", "localhost:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	done := make(chan error, 1)
	go func() { done <- server.Run(context.Background(), []string{"-http=localhost:" + port}) }()
	select {
	case err := <-done:
		if err != nil {
			return
		}
	case <-time.After(20 * time.Second):
	}
	fmt.Println("no error")
	os.Exit(1)
}
''')),
}
