IMP = '''package main

import (
%s
	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

var _ = dict.NewUserDict
'''
def tok(body, std=("fmt", "os")):
    return IMP % "\n".join('\t"%s"' % s for s in std) + body
SEEDS = {}
L = "tokenizer/lattice/lattice.go"
SEEDS["c02-unk-limit-bytes"] = dict(property="C02", needs="a run of more than 341 three-byte characters of one grouping category",
  breaks="the length limit of unknown words counts bytes, so a long run of multi-byte characters is cut although one unknown word is cheaper",
  edits=[(L, "if unkWordLen >= maximumUnknownWordLength {", "if endPos-pos >= maximumUnknownWordLength {"),
         (L, "\t\t\tunkWordLen := 1\n", ""), (L, "\t\t\t\t\tunkWordLen++\n", "")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	for _, n := range []int{300, 342, 500, 1000} {
		if k := len(t.Tokenize(strings.Repeat("ヴ", n))); k != 1 {
			fmt.Println(n, "characters:", k, "tokens")
			os.Exit(1)
		}
	}
}
''', ("fmt", "os", "strings")))
SEEDS["c02-kanji-script"] = dict(property="C02", needs="Search mode and a word of three or more characters with an iteration mark or another character in the Han script but not ideographic",
  breaks="words such as names with U+3005 get the all-ideographs penalty in Search mode",
  edits=[(L, "unicode.In(r, unicode.Ideographic)", "unicode.In(r, unicode.Han)")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	for _, w := range []string{"佐々木", "代々木", "多々良", "奈々子"} {
		a, b := t.Analyze(w, tokenizer.Normal), t.Analyze(w, tokenizer.Search)
		if len(a) == 1 && len(b) != 1 {
			fmt.Println(w, b)
			os.Exit(1)
		}
	}
}
'''))
SEEDS["c04-user-window"] = dict(property="C04", needs="a user entry longer than 64 bytes",
  breaks="user entries longer than the lookup window are never found",
  edits=[(L, "\t\tif la.udic != nil {\n\t\t\tla.udic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {",
          "\t\tif la.udic != nil {\n\t\t\trest := inp[pos:]\n\t\t\tif len(rest) > 64 {\n\t\t\t\trest = rest[:64] // no need to look further\n\t\t\t}\n\t\t\tla.udic.Index.CommonPrefixSearchCallback(rest, func(id, l int) {")],
  demo=tok('''
func main() {
	long := "独立行政法人日本学術振興会科学研究費補助金研究計画調書"
	r := dict.UserDictRecords{{Text: long, Tokens: []string{long}, Yomi: []string{"カ"}, Pos: "P"}}
	u, err := r.NewUserDict()
	if err != nil {
		os.Exit(4)
	}
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(u), tokenizer.OmitBosEos())
	if k := t.Tokenize(long + "です"); k[0].Class != tokenizer.USER {
		fmt.Println(k)
		os.Exit(1)
	}
}
'''))
SEEDS["c05-single-char"] = dict(property="C05", needs="Extended mode and an unknown word of exactly one character",
  breaks="an unknown word of one character is not replaced by a DUMMY token",
  edits=[(L, "if m != Extended || p.Class != UNKNOWN {", "if m != Extended || p.Class != UNKNOWN || utf8.RuneCountInString(p.Surface) == 1 {")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	for _, s := range []string{"\\U00020000", "ꀀ", "猫ꀀ猫"} {
		for _, k := range t.Analyze(s, tokenizer.Extended) {
			if k.Class == tokenizer.UNKNOWN {
				fmt.Println(k)
				os.Exit(1)
			}
		}
	}
}
'''))
SEEDS["c06-sticky-userdict"] = dict(property="C06", needs="an analysis with a user dictionary followed, on the same recycled lattice, by one of a tokenizer without",
  breaks="the user dictionary of the last user of a recycled lattice leaks into the next analysis (two sites, each harmless alone)",
  edits=[(L, "\tla.udic = u\n", "\tif u != nil {\n\t\tla.udic = u\n\t}\n"), (L, "\tla.list = la.list[:0]\n\tla.udic = nil\n", "\tla.list = la.list[:0]\n")],
  demo=tok('''
func main() {
	runtime.LockOSThread()
	r := dict.UserDictRecords{{Text: "すもも", Tokens: []string{"すもも"}, Yomi: []string{"ス"}, Pos: "P"}}
	u, _ := r.NewUserDict()
	a, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(u))
	b, _ := tokenizer.New(ipa.Dict())
	for i := 0; i < 200; i++ {
		a.Tokenize("すもも")
		for _, k := range b.Tokenize("すもも") {
			if k.Class == tokenizer.USER {
				fmt.Println("user word without a user dictionary")
				os.Exit(1)
			}
		}
	}
}
''', ("fmt", "os", "runtime")))
SEEDS["c07-early-put"] = dict(property="C07", needs="two goroutines: the second gets the recycled lattice while the first is still clearing it",
  breaks="a lattice is given back to the pool before it has been cleared, so two goroutines use it at once",
  edits=[(L, "func (la *Lattice) Free() {\n\tla.Input = \"\"\n", "func (la *Lattice) Free() {\n\tdefer la.reset()\n\tlatticePool.Put(la)\n}\n\nfunc (la *Lattice) reset() {\n\tla.Input = \"\"\n"),
         (L, "\tla.udic = nil\n\tlatticePool.Put(la)\n", "\tla.udic = nil\n")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	in := strings.Repeat("すもももももももものうち", 40)
	want := t.Tokenize(in)
	bad := make(chan string, 1000)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint(e)
				}
			}()
			for i := 0; i < 3000; i++ {
				if got := t.Tokenize(in); len(got) != len(want) {
					bad <- "different result"
					return
				}
			}
		}()
	}
	go func() { wg.Wait(); close(bad) }()
	for b := range bad {
		fmt.Println(b)
		os.Exit(1)
	}
}
''', ("fmt", "os", "strings", "sync")))
SEEDS["c08-extra-alias"] = dict(property="C08", needs="a caller that modifies the custom segmentation it got",
  breaks="the slices returned by UserExtra are those of the dictionary",
  edits=[("tokenizer/token.go", "\ttokens := make([]string, len(t.udict.Contents[t.ID].Tokens))\n\tcopy(tokens, t.udict.Contents[t.ID].Tokens)\n", "\ttokens := t.udict.Contents[t.ID].Tokens\n")],
  demo=tok('''
func main() {
	r := dict.UserDictRecords{{Text: "朝青龍", Tokens: []string{"朝", "青龍"}, Yomi: []string{"アサ", "ショウリュウ"}, Pos: "P"}}
	u, _ := r.NewUserDict()
	t, _ := tokenizer.New(ipa.Dict(), tokenizer.UserDict(u), tokenizer.OmitBosEos())
	k := t.Tokenize("朝青龍")[0]
	k.UserExtra().Tokens[0] = "X"
	if f := k.Features(); f[1] != "朝/青龍" {
		fmt.Println(f)
		os.Exit(1)
	}
}
'''))
SEEDS["c09-long-then-short"] = dict(property="C09", needs="a pattern given after a longer pattern that it is a prefix of",
  breaks="a pattern given after longer ones starting with it has no effect of its own",
  edits=[("filter/feature.go", "\t\t\t} else if tail {\n\t\t\t\tn.fanout = nil // clear week conditions.\n\t\t\t\tbreak\n\t\t\t}\n", "\t\t\t}\n"),
         ("filter/feature.go", "\tfor i, v := range fs {\n\t\ttail := i == len(fs)-1\n", "\tfor _, v := range fs {\n")],
  demo='''package main

import (
	"os"

	"github.com/ikawaha/kagome/v2/filter"
)

func main() {
	f := filter.NewFeaturesFilter(filter.Features{"名詞", "固有名詞", "人名"}, filter.Features{"名詞"})
	if !f.Match(filter.Features{"名詞", "一般"}) {
		os.Exit(1)
	}
}
''')
SEEDS["c11-delim-run"] = dict(property="C11", needs="two delimiters in a row",
  breaks="a second delimiter right after the first starts a sentence of its own",
  edits=[("filter/sentence_splitter.go", "} else if s.isDelim(r) || s.isFollower(r) {", "} else if s.isFollower(r) {")],
  demo='''package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"github.com/ikawaha/kagome/v2/filter"
)

func main() {
	s := bufio.NewScanner(strings.NewReader("なに！？はい。"))
	s.Split(filter.ScanSentences)
	var out []string
	for s.Scan() {
		out = append(out, s.Text())
	}
	if len(out) != 2 {
		fmt.Println(out)
		os.Exit(1)
	}
}
''')
SEEDS["c14-hidden-edges"] = dict(property="C14", needs="an input with unknown candidates that are not on the best path",
  breaks="edges to words that are not drawn, so graphviz shows boxes for undeclared nodes",
  edits=[(L, "\t\t\t\tif from.Class == UNKNOWN {\n\t\t\t\t\tif _, ok := bests[from]; !ok {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t}\n", "")],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	for _, in := range []string{"ポポピー", "abcですAB", "１２３円"} {
		var b bytes.Buffer
		t.Dot(&b, in)
		decl := map[string]bool{}
		for _, m := range regexp.MustCompile(`(?m)^\\t"(0x[0-9a-f]+)" \\[`).FindAllStringSubmatch(b.String(), -1) {
			decl[m[1]] = true
		}
		for _, m := range regexp.MustCompile(`(?m)^\\t"(0x[0-9a-f]+)" -- "(0x[0-9a-f]+)"`).FindAllStringSubmatch(b.String(), -1) {
			if !decl[m[1]] || !decl[m[2]] {
				fmt.Println(in, m[0])
				os.Exit(1)
			}
		}
	}
}
''', ("bytes", "fmt", "os", "regexp")))
SEEDS["c17-mode-cast"] = dict(property="C17", needs="a mode value that is none of the three",
  breaks="a mode outside the three is no longer treated as Normal",
  edits=[("tokenizer/tokenizer.go", '''	m := lattice.Normal
	switch mode {
	case Normal:
		m = lattice.Normal
	case Search:
		m = lattice.Search
	case Extended:
		m = lattice.Extended
	}
	la.Forward(m)''', '''	m := lattice.TokenizeMode(mode)
	la.Forward(m)''')],
  demo=tok('''
func main() {
	t, _ := tokenizer.New(ipa.Dict())
	a, b := t.Analyze("関西国際空港", tokenizer.Normal), t.Analyze("関西国際空港", tokenizer.TokenizeMode(0))
	if len(a) != len(b) {
		fmt.Println(a, b)
		os.Exit(1)
	}
}
'''))
SEEDS["c18-sentence-operand"] = dict(property="C18", needs="sentence with a file name given as operand",
  breaks="a first operand is ignored instead of rejected, and standard input is read",
  edits=[("cmd/sentence/cmd.go", "if nonFlag := o.flagSet.Args(); len(nonFlag) != 0 {", "if nonFlag := o.flagSet.Args(); len(nonFlag) > 1 {")],
  demo='''package main

import (
	"os"

	"github.com/ikawaha/kagome/v2/cmd/sentence"
)

func main() {
	if sentence.OptionCheck([]string{"file.txt"}) == nil {
		os.Exit(1)
	}
}
''')
SEEDS["c16-overlong"] = dict(property="C16", needs="an input line that exceeds the scanner's buffer",
  breaks="tokenize stops at an over-long line and reports success",
  edits=[("cmd/tokenize/cmd.go", "\treturn s.Err()\n", "\treturn nil\n")],
  demo='''package main

import (
	"context"
	"io"
	"os"
	"strings"

	"github.com/ikawaha/kagome/v2/cmd/tokenize"
)

func main() {
	tokenize.Stdout = io.Discard
	if err := os.WriteFile("in.txt", []byte("a\\n"+strings.Repeat("あ", 30000)+"\\nb\\n"), 0o600); err != nil {
		os.Exit(4)
	}
	if tokenize.Run(context.Background(), []string{"-file", "in.txt"}) == nil {
		os.Exit(1)
	}
}
''')
SEEDS["c13-pooled-request"] = dict(property="C13", needs="a request without a mode after one with a mode (or without a sentence after one with)",
  breaks="request structs are recycled without being cleared, so fields absent from one request take the value of an earlier one",
  edits=[("cmd/server/api.go", "\tvar req TokenizerRequestBody\n\tif err := json.NewDecoder(r.Body).Decode(&req); err != nil {", "\treq := requestPool.Get().(*TokenizerRequestBody)\n\tdefer requestPool.Put(req)\n\tif err := json.NewDecoder(r.Body).Decode(req); err != nil {"),
         ("cmd/server/api.go", "// TokenizerResponseBody is", "var requestPool = sync.Pool{New: func() interface{} { return new(TokenizerRequestBody) }}\n\n// TokenizerResponseBody is"),
         ("cmd/server/api.go", '\t"net/http"\n', '\t"net/http"\n\t"sync"\n')],
  demo='''package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
)

func main() {
	server.Stderr = io.Discard
	addr := "127.0.0.1:38417"
	go server.Run(context.Background(), []string{"-http", addr})
	post := func(s string) string {
		for i := 0; i < 200; i++ {
			r, err := http.Post("http://"+addr+"/tokenize", "application/json", bytes.NewBufferString(s))
			if err == nil {
				b, _ := io.ReadAll(r.Body)
				r.Body.Close()
				return string(b)
			}
			time.Sleep(50 * time.Millisecond)
		}
		fmt.Println("no answer")
		os.Exit(0)
		return ""
	}
	want := post(`{"sentence":"関西国際空港"}`)
	for i := 0; i < 50; i++ {
		post(`{"sentence":"関西国際空港","mode":"Search"}`)
		if got := post(`{"sentence":"関西国際空港"}`); got != want {
			fmt.Println(got)
			os.Exit(1)
		}
	}
}
''')
SEEDS["c15-mode-html"] = dict(property="C15", needs="a mode parameter with markup on the lattice page",
  breaks="the mode given by the client goes into the page without escaping",
  edits=[("cmd/server/demo.go", "\t\tGraphSVG template.HTML\n\t\tMode     string\n", "\t\tGraphSVG template.HTML\n\t\tMode     template.HTML\n"),
         ("cmd/server/demo.go", "\t\tMode:     mode,\n", "\t\tMode:     template.HTML(mode),\n")],
  demo='''package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
)

func main() {
	server.Stderr = io.Discard
	addr := "127.0.0.1:38418"
	go server.Run(context.Background(), []string{"-http", addr})
	for i := 0; i < 200; i++ {
		r, err := http.Get("http://" + addr + "/?lattice=1&s=a&r=" + url.QueryEscape("<b>x</b>"))
		if err == nil {
			b, _ := io.ReadAll(r.Body)
			if strings.Contains(string(b), "<b>x</b>") {
				fmt.Println("markup in the page")
				os.Exit(1)
			}
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
}
''')
