"""Seeded bugs, batch 5: builds for 32-bit processors (C22)."""
LAT = "tokenizer/lattice/lattice.go"; TOK = "tokenizer/token.go"; API = "cmd/server/api.go"
SH = '''#!/bin/bash
# runs the same program built for this processor and for a 32-bit one; the two have to print the same
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=0
go build -overlay "$tmp/overlay.json" -o "$tmp/native" ./zzdemo || exit 3
GOARCH=386 go build -overlay "$tmp/overlay.json" -o "$tmp/small" ./zzdemo || exit 3
cd "$tmp" && timeout 120 ./native > a.txt 2>a.err || exit 4
timeout 120 ./small > b.txt 2>b.err || { tail -3 b.err; exit 1; }
cmp a.txt b.txt
'''
HEAD = '''package main

import (
	"fmt"
	"strings"

	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

'''
SEEDS = {
 "c22-int-cost": dict(property="C22", demo_sh=SH,
  needs="an int of 32 bits, and a path whose cost is near the largest one (a text of some hundred thousand unknown words)",
  breaks="the running total of a path is an int: on a 32-bit processor it wraps around to a very low cost instead of being limited to the largest one, so that another segmentation is chosen",
  edits=[(LAT, "totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)", "totalCost := int(c) + int(target.Weight) + int(n.Cost)"),
         (LAT, "totalCost += int64(additionalCost(n))", "totalCost += additionalCost(n)")],
  demo=HEAD + '''func main() {
	t, err := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	if err != nil {
		panic(err)
	}
	for _, s := range []string{strings.Repeat("鬱a", 150000)+strings.Repeat("東京都すもももももももものうち", 9), "すもももももももものうち"} {
		for _, m := range []tokenizer.TokenizeMode{tokenizer.Normal, tokenizer.Search, tokenizer.Extended} {
			for _, v := range t.Analyze(s, m) {
				fmt.Println(m, v.Start, v.End, v.Class)
			}
		}
	}
}
'''),
 "c22-pos-memo": dict(property="C22", demo_sh=SH,
  needs="a processor with 32-bit words, and two words of the same class converted one after the other",
  breaks="NewTokenData keeps the part of speech of a dictionary entry under a word-sized key made by shifting the entry's number by 32 bits: where a word has 32 bits all entries share the key, and later tokens get the part of speech of the first",
  edits=[(TOK, '''import (
	"fmt"
	"strings"
''', '''import (
	"fmt"
	"strings"
	"sync"
'''), (TOK, '''// NewTokenData returns a data which''', '''// posKey identifies an entry of a dictionary.
type posKey struct {
	dict  *dict.Dict
	entry uint
}

// posMemo holds the parts of speech of the entries that were converted.
var posMemo sync.Map

// sharedPOS returns the part of speech of a word of the dictionary.
func (t Token) sharedPOS() []string {
	if t.Class == USER || t.Class == DUMMY {
		return t.POS()
	}
	key := posKey{dict: t.dict, entry: uint(t.ID)<<32 | uint(t.Class)}
	if v, ok := posMemo.Load(key); ok {
		return append([]string{}, v.([]string)...)
	}
	pos := t.POS()
	posMemo.Store(key, append([]string{}, pos...))
	return pos
}

// NewTokenData returns a data which'''), (TOK, "		POS:      t.POS(),", "		POS:      t.sharedPOS(),")],
  demo=HEAD + '''func main() {
	t, err := tokenizer.New(ipa.Dict(), tokenizer.OmitBosEos())
	if err != nil {
		panic(err)
	}
	for _, v := range t.Tokenize(strings.Repeat("すもももももももものうち。公園で", 2)) {
		fmt.Println(tokenizer.NewTokenData(v))
	}
}
'''),
 "c22-counter": dict(property="C22", demo_sh=SH,
  needs="a 32-bit processor, where a 64-bit field after a pointer is not aligned for atomic operations",
  breaks="the server counts the requests it answered in an int64 field that follows a pointer: on a 32-bit processor the atomic addition panics and no request is answered",
  edits=[(API, '''	"fmt"
	"net/http"
''', '''	"fmt"
	"net/http"
	"sync/atomic"
'''), (API, '''	tokenizer *tokenizer.Tokenizer
}
''', '''	tokenizer *tokenizer.Tokenizer
	answered  int64 // number of texts analyzed
}
'''), (API, '''	tokens := h.tokenizer.Analyze(req.Input, mode)
''', '''	tokens := h.tokenizer.Analyze(req.Input, mode)
	atomic.AddInt64(&h.answered, 1)
''')],
  demo='''package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
)

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := l.Addr().String()
	l.Close()
	go server.Run(context.Background(), []string{"-http=" + addr})
	for i := 0; i < 600; i++ {
		time.Sleep(50 * time.Millisecond)
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			break
		}
	}
	req, _ := http.NewRequest("PUT", "http://"+addr+"/tokenize", bytes.NewReader([]byte(`{"sentence":"すもも"}`)))
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := io.ReadAll(resp.Body)
	fmt.Println(resp.StatusCode, string(b))
}
'''),
}
