"""Seeded bugs, batch 4: the demo page's script (C21)."""
PAGEJS = open("/verif/harness/page/page.js").read()
HTML = "cmd/server/asset/demo.html"; DEMO = "cmd/server/demo.go"
SH = '''#!/bin/bash
# opens the demo page of a running server in a small browser (page.js, run by node) and compares its table with the library
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo && go build -o "$tmp/kagome" . || exit 3
cd "$tmp" && timeout 200 ./demo "$here/page.js"
'''
MAIN = '''package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

const user = `%(user)s`

var _ = strings.Repeat

type event = map[string]string

var events = []event{%(events)s}

func main() {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	addr := l.Addr().String()
	l.Close()
	args := []string{"server", "-http=" + addr}
	opts := []tokenizer.Option{}
	if user != "" {
		os.WriteFile("user.txt", []byte(user), 0600)
		args = append(args, "-userdict", "user.txt")
		u, err := dict.NewUserDict("user.txt")
		if err != nil {
			panic(err)
		}
		opts = append(opts, tokenizer.UserDict(u))
	}
	ctx, cancel := context.WithCancel(context.Background())
	srv := exec.CommandContext(ctx, "./kagome", args...)
	if err := srv.Start(); err != nil {
		panic(err)
	}
	code := run(addr, opts)
	cancel()
	srv.Wait()
	os.Exit(code)
}

func run(addr string, opts []tokenizer.Option) int {
	for i := 0; ; i++ {
		if r, err := http.Get("http://" + addr + "/"); err == nil {
			io.Copy(io.Discard, r.Body)
			r.Body.Close()
			break
		}
		if i > 300 {
			panic("the server does not start")
		}
		time.Sleep(100 * time.Millisecond)
	}
	t, err := tokenizer.New(ipa.Dict(), opts...)
	if err != nil {
		panic(err)
	}
	want := map[string][][]string{}
	text, mode := "", "Normal"
	for _, e := range events {
		if v, ok := e["text"]; ok {
			text = v
		} else {
			mode = e["mode"]
		}
		m := map[string]tokenizer.TokenizeMode{"Normal": tokenizer.Normal, "Search": tokenizer.Search, "Extended": tokenizer.Extended}[mode]
		rows := [][]string{}
		or := func(v string, ok bool) string {
			if !ok || v == "" {
				return "*"
			}
			return v
		}
		for _, k := range t.Analyze(text, m) {
			if k.ID != tokenizer.BosEosID {
				rows = append(rows, []string{k.Surface, strings.Join(k.POS(), ","), or(k.BaseForm()), or(k.Reading()), or(k.Pronunciation())})
			}
		}
		want[mode+" "+text] = rows
	}
	cmd := exec.Command("node", os.Args[1], "http://"+addr+"/")
	cmd.Stderr = os.Stderr
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	defer cmd.Wait()
	defer in.Close()
	b, _ := json.Marshal(map[string]any{"events": events, "all": true, "want": want, "faults": map[string]string{%(faults)s}})
	in.Write(append(b, '\\n'))
	s, err := bufio.NewReaderSize(out, 1<<20).ReadString('\\n')
	if err != nil {
		panic(err)
	}
	var r struct{ Bad string }
	if err := json.Unmarshal([]byte(s), &r); err != nil {
		panic(s)
	}
	if r.Bad != "" {
		fmt.Println(r.Bad)
		return 1
	}
	return 0
}
'''
def seed(needs, breaks, edits, events, user="", faults=""):
    return dict(property="C21", needs=needs, breaks=breaks, edits=edits, demo_sh=SH, files={"page.js": PAGEJS}, demo=MAIN % dict(events=events, user=user, faults=faults))
S = '        var s = document.getElementById("inp").value;\n'
SEEDS = {}
SEEDS["c21-busy"] = seed("the text is changed while the answer for an earlier text is still on its way",
 "changes made while a request is pending are never analyzed: the table stays at an older text",
 [(HTML, S, "        if(busy) { return; } // one request at a time\n        busy = true;\n" + S), (HTML, "    function cb(data, status) {\n", "    var busy = false;\n\n    function cb(data, status) {\n        busy = false;\n")],
 '{"text": "東京"}, {"text": "関西国際空港"}')
SEEDS["c21-empty-list"] = seed("the text is deleted after something was analyzed",
 "the table keeps the analysis of the text that was deleted",
 [(HTML, 'if(status == "success" && Array.isArray(data.tokens)){', 'if(status == "success" && Array.isArray(data.tokens) && data.tokens.length > 0){')],
 '{"text": "東京"}, {"text": ""}')
SEEDS["c21-trim"] = seed("a text that starts or ends with white space",
 "the white space of the text is missing in the table",
 [(HTML, S, '        var s = document.getElementById("inp").value.trim();\n')],
 '{"text": "東京 "}')
SEEDS["c21-cache-text"] = seed("the answer for a text arrives before another mode is chosen",
 "the table shows the analysis in the mode in which the text was first seen",
 [(HTML, S, S + "        if(seen[s]) { cb(seen[s], \"success\"); return; }\n"), (HTML, "    function cb(data, status) {\n", "    var seen = {}; // answers by text\n\n    function cb(data, status) {\n        if(status == \"success\" && Array.isArray(data.tokens)) { seen[$.map(data.tokens, function(v) { return v.surface; }).join(\"\")] = data; }\n")],
 '{"text": "関西国際空港"}, {"mode": "Search"}')
SEEDS["c21-pronunciation"] = seed("a word of a user dictionary: it has a reading and no pronunciation",
 "the table shows a pronunciation that the analysis does not have",
 [(HTML, 'pronoun = val.pronunciation!= "" ? val.pronunciation : "*";', 'pronoun = val.pronunciation!= "" ? val.pronunciation : reading;')],
 '{"text": "朝青龍は強い"}', user="朝青龍,朝青龍,アサショウリュウ,カスタム人名\\n".replace("\\n", "\n"))
SEEDS["c21-long"] = seed("a text of more than 1000 tokens", "the table shows the first 1000 tokens only",
 [(HTML, '            $.each(data.tokens, function(i, val) {\n', '            $.each(data.tokens, function(i, val) {\n                if(i >= 1000) { return false; } // keep the page responsive\n')],
 '{"text": strings.Repeat("すもももももももものうち。", 200)}')
SEEDS["c21-empty-row"] = seed("a text whose first token is white space", "tokens of white space are not shown",
 [(HTML, '            $.each(data.tokens, function(i, val) {\n', '            $.each(data.tokens, function(i, val) {\n                if($.trim(val.surface) == "") { return; }\n')],
 '{"text": " 東京"}')
SEEDS["c21-normal-default"] = seed("the Search mode is chosen twice with Normal in between", "the radio buttons' change is handled once only",
 [(HTML, """    $('input[name="r"]:radio').change( function() {""", """    $('input[name="r"]:radio').one('change', function() {"""), (HTML, ' oninput="tokenize()"', ''), (HTML, '<textarea id="inp"', '<textarea oninput="tokenize()" id="inp"')],
 '{"text": "関西国際空港"}, {"mode": "Search"}, {"mode": "Normal"}, {"mode": "Search"}')
