package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

// C21: the script of the demo page, run by node in a small browser (page/page.js) against a real server. The program node
// enumerates the schedules of events and arriving answers itself, depth first, and compares the table with what the library
// says about the contents of the form.

type pageEvent map[string]string // text: the text is replaced; mode: a mode is chosen

type pageCase struct {
	Query   string                `json:"query,omitempty"` // the page is opened with this
	Start   *pageForm             `json:"start,omitempty"` // what the form is to hold then
	Events  []pageEvent           `json:"events"`
	Old     bool                  `json:"old,omitempty"`   // a browser without input events for radio buttons
	All     bool                  `json:"all,omitempty"`   // all orders in which answers can arrive
	Eager   bool                  `json:"eager,omitempty"` // every answer arrives before the next event
	Faults  map[string]string     `json:"faults,omitempty"`
	Choices []int                 `json:"choices,omitempty"`
	Want    map[string][][]string `json:"want,omitempty"`
	Cfg     *srvCfg               `json:"cfg,omitempty"`
}

type pageForm struct {
	Text string `json:"text"`
	Mode string `json:"mode"`
}

type pageResult struct {
	Schedules   int64           `json:"schedules"`
	Steps       int64           `json:"steps"`
	Requests    int64           `json:"requests"`
	Bad         string          `json:"bad"`
	Unsupported string          `json:"unsupported"`
	Log         json.RawMessage `json:"log"`
	Choices     []int           `json:"choices"`
}

type pageEnv struct {
	c     *Ctx
	cfg   *srvCfg
	srv   *running
	t     *tokenizer.Tokenizer
	procs chan *pageProc
	mu    sync.Mutex
	rows  map[string][][]string
	odd   map[string]bool
}

type pageProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startPage(srv *running) *pageProc {
	cmd := exec.Command("node", filepath.Join(verifDir, "harness", "page", "page.js"), "http://"+srv.addr+"/")
	cmd.Stderr = os.Stderr
	p := &pageProc{cmd: cmd}
	p.in = must(cmd.StdinPipe())
	p.out = bufio.NewReaderSize(must(cmd.StdoutPipe()), 1<<20)
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("node cannot be started: %v", err))
	}
	return p
}

func newPageEnv(c *Ctx, cfg *srvCfg, n int) *pageEnv {
	e := &pageEnv{c: c, cfg: cfg, procs: make(chan *pageProc, n), rows: map[string][][]string{}, odd: map[string]bool{}}
	e.srv, e.t = cfg.start()
	for i := 0; i < n; i++ {
		e.procs <- startPage(e.srv)
	}
	return e
}

func (e *pageEnv) close() {
	for i := 0; i < cap(e.procs); i++ {
		p := <-e.procs
		p.in.Close()
		p.cmd.Wait()
	}
	e.srv.stop()
}

// want is the table for a text in a mode. An empty cell stands for "" or "*".
func (e *pageEnv) want(mode, text string) [][]string {
	key := mode + " " + text
	e.mu.Lock()
	defer e.mu.Unlock()
	if r, ok := e.rows[key]; ok {
		return r
	}
	m := map[string]tokenizer.TokenizeMode{"Normal": tokenizer.Normal, "Search": tokenizer.Search, "Extended": tokenizer.Extended}[mode]
	or := func(v string, ok bool) string {
		if !ok || v == "" {
			return "*"
		}
		return v
	}
	rows := [][]string{}
	for _, t := range e.t.Analyze(text, m) {
		if t.ID != tokenizer.BosEosID {
			rows = append(rows, []string{t.Surface, strings.Join(t.POS(), ","), or(t.BaseForm()), or(t.Reading()), or(t.Pronunciation())})
		}
	}
	e.rows[key] = rows
	return rows
}

func (e *pageEnv) run(k pageCase) (pageResult, error) {
	text, mode := "", "Normal"
	if k.Query != "" {
		v := must(url.ParseQuery(strings.TrimPrefix(k.Query, "?")))
		text = v.Get("s")
		if m := v.Get("r"); m == "Search" || m == "Extended" {
			mode = m
		}
	}
	k.Want = map[string][][]string{mode + " " + text: e.want(mode, text)}
	for _, ev := range k.Events {
		if v, ok := ev["text"]; ok {
			text = v
		} else {
			mode = ev["mode"]
		}
		k.Want[mode+" "+text] = e.want(mode, text)
	}
	p := <-e.procs
	defer func() { e.procs <- p }()
	var r pageResult
	if _, err := p.in.Write(append(must(json.Marshal(k)), '\n')); err != nil {
		return r, fmt.Errorf("the harness of the page broke: %w", err)
	}
	l, err := p.out.ReadBytes('\n')
	if err != nil {
		panic(fmt.Sprintf("the harness of the page broke: %v", err))
	}
	if err := json.Unmarshal(l, &r); err != nil {
		panic(fmt.Sprintf("the harness of the page said %q", l))
	}
	if r.Unsupported != "" {
		e.mu.Lock()
		e.odd[r.Unsupported] = true
		e.mu.Unlock()
		return r, nil
	}
	if r.Bad != "" {
		return r, fmt.Errorf("%s (after %s)", r.Bad, r.Log)
	}
	return r, nil
}

func (e *pageEnv) batch(group string, ks []pageCase) {
	parallel(e.c, len(ks), func(w, i int) {
		k := ks[i]
		e.c.Enter(w, "page", "", func() any { return k })
		r, err := e.run(k)
		e.c.Leave(w)
		e.c.states.Add(r.Steps)
		e.c.transitions.Add(r.Steps)
		e.c.traces.Add(r.Schedules)
		e.c.Add("schedules", r.Schedules)
		e.c.Add("requests", r.Requests)
		if r.Unsupported != "" {
			e.c.Add("cases whose script uses what the browser does not have", 1)
			return
		}
		if err != nil {
			again := k
			again.Cfg, again.Choices, again.All = e.cfg, r.Choices, false
			e.c.FailIfRepeatable(group, again, err, func() error { _, err := e.run(again); return err })
			return
		}
		e.c.Sample(group, 1, k)
	})
}

func pageSeqs(evs []pageEvent, n int) [][]pageEvent {
	ret := [][]pageEvent{}
	last := [][]pageEvent{nil}
	for l := 1; l <= n; l++ {
		var next [][]pageEvent
		for _, p := range last {
			for _, ev := range evs {
				next = append(next, append(append([]pageEvent{}, p...), ev))
			}
		}
		ret, last = append(ret, next...), next
	}
	return ret
}

// pageUser: words, parts of speech and readings that are markup.
var pageUser = []string{"<b>x</b>,<b>x</b>,<i>エックス</i>,<u>名詞</u>", "<img src=x onerror=alert(1)>,a,b,c", "&lt;,a,b,&lt;&amp;", "&copy,a,b,&copy", "</td></tr></table>,a,b,</td>", "<!--x-->,a,b,<!--", "東京,東 京,トウ キョウ,カスタム名詞", "a b,a b,エー ビー,\"'<"}

func runC21(c *Ctx) {
	th := c.thorough
	text := func(s string) pageEvent { return pageEvent{"text": s} }
	mode := func(s string) pageEvent { return pageEvent{"mode": s} }
	e := newPageEnv(c, &srvCfg{User: pageUser}, 8)
	closeEnv := func() {
		for k := range e.odd {
			c.Set("not modelled: "+k, true)
		}
		if len(e.odd) > 0 {
			c.notExhaustive()
		}
		e.close()
	}
	defer func() { closeEnv() }()

	n := 3
	if th {
		n = 4
	}
	c.Group(fmt.Sprintf("all sequences of <=%d events, all orders in which the answers arrive", n))
	evs := []pageEvent{text("関西国際空港zz"), text(""), text("東京"), mode("Search"), mode("Extended")}
	var ks []pageCase
	for _, seq := range pageSeqs(evs, n) {
		radio := 0
		for _, ev := range seq {
			if _, ok := ev["mode"]; ok {
				radio++
			}
		}
		if len(seq)+radio > 7 {
			continue
		}
		ks = append(ks, pageCase{Events: seq, All: true})
		if radio > 0 {
			ks = append(ks, pageCase{Events: seq, All: true, Old: true})
		}
	}
	for _, q := range []string{"?s=" + url.QueryEscape("関西国際空港"), "?s=%3Cb%3E&r=Search"} {
		for _, seq := range pageSeqs(append(evs, mode("Normal")), 2) {
			ks = append(ks, pageCase{Query: q, Events: seq, All: true}, pageCase{Query: q, Events: seq, All: true, Old: true})
		}
	}
	for _, m := range []string{"", "Normal", "Search", "Extended"} {
		for _, s := range append(upto([]string{"<", "&", "\"", "/textarea>", "a", "漢", "{{"}, 3), "  関西\n国際空港\n") {
			v := url.Values{}
			if m != "" {
				v.Set("r", m)
			}
			v.Set("s", s)
			f := &pageForm{s, m}
			if m == "" {
				f.Mode = "Normal"
			}
			k := pageCase{Query: "?" + v.Encode(), Start: f, Events: []pageEvent{}}
			ks = append(ks, k)
			k.Events = []pageEvent{mode("Normal"), text("zz")}
			ks = append(ks, k)
		}
	}
	e.batch("events", ks)

	l := 5
	if th {
		l = 6
	}
	c.Group(fmt.Sprintf("all sequences of <=%d events, the answers at once or all at the end", l))
	ks = nil
	for _, seq := range pageSeqs([]pageEvent{text("関西国際空港zz"), text(""), mode("Normal"), mode("Search"), mode("Extended")}, l) {
		for i := 0; i < 4; i++ {
			ks = append(ks, pageCase{Events: seq, Eager: i&1 == 0, Old: i&2 == 0})
		}
	}
	e.batch("sequences", ks)

	c.Group("answers that fail: every subset of the first 4 requests x 4 ways")
	ks = nil
	for _, seq := range pageSeqs([]pageEvent{text("関西国際空港"), text("東京"), mode("Search")}, 3) {
		for f := 1; f < 16; f++ {
			for _, how := range []string{"lost", "garbage", "error", "empty"} {
				k := pageCase{Events: seq, Faults: map[string]string{}, All: len(seq) < 3 || th, Old: f%2 == 0}
				for i := 0; i < 4; i++ {
					if f>>i&1 == 1 {
						k.Faults[fmt.Sprint(i)] = how
					}
				}
				ks = append(ks, k)
			}
		}
	}
	e.batch("faults", ks)

	c.Group("every text: markup, marks, characters")
	ks = nil
	l = 3
	if th {
		l = 4
	}
	ins := upto([]string{"<", ">", "&", "\"", "'", "!", "-", "/", "a", ";", "漢", "\n", " ", "#", "?"}, l)
	for _, u := range pageUser {
		w := strings.SplitN(u, ",", 2)[0]
		ins = append(ins, w, "あ"+w+"い", w+w)
	}
	ins = append(ins, "<script>alert(1)</script>", "<svg onload=x>", "<!--", "<!-->", "</td>", "&amp;", "&#60;", "&#x3c;b&#x3e;", "]]>", "{{.}}", "\u2028", "\u00a0", "😀", "\ufffd", "\u202e", "\\u003c", "\\", "\"},", "null", "undefined", "__proto__", "constructor")
	var sb strings.Builder
	for r := rune(1); r < 0x3100; r++ {
		if r == '\r' {
			continue
		}
		sb.WriteRune(r)
		if r%16 == 15 {
			ins = append(ins, sb.String())
			sb.Reset()
		}
	}
	for i, in := range ins {
		m := []string{"Search", "Extended"}[i%2]
		ks = append(ks, pageCase{Events: []pageEvent{text(in)}}, pageCase{Events: []pageEvent{mode(m), text(in)}}, pageCase{Events: []pageEvent{text(in), mode(m)}, Old: true})
	}
	e.batch("texts", ks)

	c.Group("long texts")
	ks = nil
	novel := bocchan()
	o, _ := decode(novel)
	for _, n := range []int{100, 1000, 3000} {
		for i := 0; i < 4; i++ {
			ks = append(ks, pageCase{Events: []pageEvent{text(novel[o[i*n]:o[(i+1)*n]]), mode("Extended"), mode("Normal")}})
		}
	}
	e.batch("long", ks)

	for _, cfg := range []srvCfg{{Dict: "uni"}, {}} {
		c.Group("texts with server " + fmt.Sprint(cfg))
		closeEnv()
		cfg := cfg
		e = newPageEnv(c, &cfg, 8)
		ks = nil
		for _, in := range []string{"関西国際空港に行く。", "デジカメを買った", "abc<!--あ", "すもももももももものうち\n走った", "<b>&amp;", "㌔zz"} {
			for _, m := range []string{"Normal", "Search", "Extended"} {
				for _, old := range []bool{false, true} {
					ks = append(ks, pageCase{Events: []pageEvent{text(in), mode(m)}, All: true, Old: old}, pageCase{Events: []pageEvent{mode(m), text(in)}, All: true, Old: old})
				}
			}
		}
		e.batch("dictionaries", ks)
	}
	c.Set("bounds", fmt.Sprintf("all sequences of <=%d of 5 events x all orders of the answers, two browsers; all sequences of <=5 (thorough 6) events with the answers at once or at the end; all subsets of failing answers for <=3 of 3 events; all texts of <=%d of 15 marks, all characters below U+3100", n, l))
}

func replayC21(c *Ctx, d Doc) error {
	var k pageCase
	if err := json.Unmarshal(d.Case, &k); err != nil {
		return err
	}
	if k.Cfg == nil {
		return errors.New("no configuration")
	}
	e := newPageEnv(c, k.Cfg, 1)
	defer e.close()
	_, err := e.run(k)
	return err
}

func init() { register("C21", "model_checking", runC21, replayC21) }
