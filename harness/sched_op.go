//go:build sched

package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

var schedCfgs [8]*DictCfg

// schedCfg: 0 plain, 1 and 2 and 5 with user dictionaries, 4 without BOS/EOS, all over one and the same system dictionary; 3 over
// another one, without BOS/EOS.
func schedCfg(i int) *DictCfg {
	if schedCfgs[i] == nil {
		if i == 3 {
			d := &Synth{Keys: []string{"a", "aa"}, N: 1, Conn: []int16{2}, Morphs: [][3]int16{{0, 0, -4}, {0, 0, 9}}, Group: 0b110}
			d.defaultUnk(-2)
			schedCfgs[i] = d.cfg()
			return schedCfgs[i]
		}
		if schedCfgs[0] == nil {
			d := &Synth{Keys: []string{"a", "a", "ab", "b", "漢"}, N: 2, Conn: []int16{-1, 5, 7, -3}, Group: 0b0010, Invoke: 0b10,
				Morphs: [][3]int16{{0, 1, 4}, {1, 0, 3}, {1, 1, 2}, {0, 0, 1}, {0, 1, 2}}}
			d.defaultUnk(3)
			schedCfgs[0] = d.cfg()
		}
		if i == 0 {
			return schedCfgs[0]
		}
		c := schedCfgs[0]
		users := map[int][]string{1: {"ab", "漢a"}, 2: {"a"}, 5: {"b", "漢a"}}
		if u := users[i]; u != nil {
			c = newCfg("synth", c.Sys, userDict(u), c.sys)
		}
		schedCfgs[i] = c
	}
	return schedCfgs[i]
}

var schedHandler http.Handler

// Set by sched_filter.go, in programs that contain it.
var (
	filterHook  func(o sop) string
	filterFresh func()
)

type panicWriter struct{ n int }

func (p *panicWriter) Write(b []byte) (int, error) {
	p.n--
	if p.n < 0 {
		panic("writer")
	}
	return len(b), nil
}

// perform runs one operation and returns everything it shows.
func (o sop) perform() (string, []tokenizer.Token) {
	var b strings.Builder
	var ts []tokenizer.Token
	if o.API == "http" {
		req := httptest.NewRequest("POST", "/tokenize", strings.NewReader(string(o.In)))
		rec := httptest.NewRecorder()
		schedHandler.ServeHTTP(rec, req)
		return fmt.Sprint(rec.Code, rec.Header(), rec.Body.String()), nil
	}
	if strings.HasPrefix(o.API, "f:") {
		return filterHook(o), nil
	}
	c := schedCfg(o.Cfg)
	t := c.T
	if o.Cfg == 3 || o.Cfg == 4 {
		t = c.TOmit
	}
	in := string(o.In)
	switch o.API {
	case "wakati":
		fmt.Fprintf(&b, "%q", t.Wakati(in))
	case "graph":
		var g bytes.Buffer
		ts = t.AnalyzeGraph(&g, in, tokenizer.TokenizeMode(o.Mode))
		b.WriteString(normalGraph(g.Bytes()))
	case "panicgraph":
		func() {
			defer func() { recover() }()
			t.AnalyzeGraph(&panicWriter{7}, in, tokenizer.TokenizeMode(o.Mode))
		}()
	case "tokenize":
		ts = t.Tokenize(in)
	default:
		ts = t.Analyze(in, tokenizer.TokenizeMode(o.Mode))
	}
	b.WriteString(describe(ts))
	return b.String(), ts
}
