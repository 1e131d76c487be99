package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

const answerTimeout = 20 * time.Second

// freeAddr returns a loopback address nobody listens on.
func freeAddr() string {
	l := must(net.Listen("tcp", "127.0.0.1:0"))
	defer l.Close()
	return l.Addr().String()
}

type running struct {
	addr   string
	cancel context.CancelFunc
	done   chan error
}

// startServer runs the server in this process and waits until it accepts connections.
func startServer(args ...string) *running {
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	for try := 0; ; try++ {
		r := &running{addr: freeAddr(), done: make(chan error, 1)}
		ctx, cancel := context.WithCancel(context.Background())
		r.cancel = cancel
		go func() { r.done <- server.Run(ctx, append([]string{"-http", r.addr}, args...)) }()
		for i := 0; i < 3000; i++ {
			c, err := net.Dial("tcp", r.addr)
			if err == nil {
				c.Close()
				return r
			}
			select {
			case err := <-r.done:
				if try > 5 {
					panic(fmt.Sprintf("server does not start: %v", err))
				}
				i = 1 << 30
			case <-time.After(10 * time.Millisecond):
			}
			if i == 1<<30 {
				break
			}
		}
		cancel()
		if try > 5 {
			panic("server does not start")
		}
	}
}

func (r *running) stop() {
	r.cancel()
	select {
	case <-r.done:
	case <-time.After(15 * time.Second):
	}
}

// srvCfg is a choice of dictionaries for the server.
type srvCfg struct {
	Dict string   `json:"dict,omitempty"`
	User []string `json:"user,omitempty"` // lines of the user dictionary
}

// srvUser: entries that split, do not split, contain ASCII, blanks in other scripts and markup.
var srvUser = []string{"東京,東 京,トウ キョウ,カスタム名詞", "関西国際空港,関西国際空港,カンサイ,カスタム", "a漢,a 漢,エー カン,<b>&カスタム", "す,す,ス,*", "もも,も も,モ モ,\"'"}

func srvCfgs() []srvCfg {
	return []srvCfg{{Dict: "uni"}, {User: srvUser}, {Dict: "uni", User: srvUser}, {Dict: "ipa", User: srvUser[:1]}, {Dict: "ipa"}}
}

// start runs a server with these dictionaries and returns the tokenizer it must agree with.
func (k *srvCfg) start() (*running, *tokenizer.Tokenizer) {
	if k == nil {
		return startServer(), ipaCfg().T
	}
	var args []string
	d, opt := ipaDict(), tokenizer.Nop()
	if k.Dict != "" {
		args = append(args, "-dict", k.Dict)
	}
	if k.Dict == "uni" {
		d = uniDict()
	}
	if k.User != nil {
		f := must(os.CreateTemp("", "vh-user"))
		f.WriteString(strings.Join(k.User, "\n"))
		f.Close()
		defer os.Remove(f.Name())
		args = append(args, "-userdict", f.Name())
		opt = tokenizer.UserDict(must(dict.NewUserDict(f.Name())))
	}
	t := mustRepo(tokenizer.New(d, opt))
	return startServer(args...), t
}

// hreq is one request.
type hreq struct {
	Method string `json:"method,omitempty"` // default POST
	Path   string `json:"path,omitempty"`   // default /tokenize
	Hdr    string `json:"hdr,omitempty"`
	Body   B      `json:"body"`
	Chunks []int  `json:"chunks,omitempty"` // chunked transfer with these sizes
	Abort  bool   `json:"abort,omitempty"`  // close the connection in the middle of the request
	Slow   int    `json:"slow,omitempty"`   // read the answer in pieces of this many bytes
	Two    bool   `json:"two,omitempty"`    // send in two pieces instead of three
}

func (q hreq) head() string {
	m, p := q.Method, q.Path
	if m == "" {
		m = "POST"
	}
	if p == "" {
		p = "/tokenize"
	}
	h := m + " " + p + " HTTP/1.1\r\nHost: x\r\n" + q.Hdr
	if q.Chunks != nil {
		return h + "Transfer-Encoding: chunked\r\n\r\n"
	}
	return h + "Content-Length: " + strconv.Itoa(len(q.Body)) + "\r\n\r\n"
}

func (q hreq) wire() []string {
	if q.Chunks == nil {
		h := len(q.Body) / 2
		if q.Two {
			return []string{q.head() + string(q.Body[:h]), string(q.Body[h:])}
		}
		return []string{q.head(), string(q.Body[:h]), string(q.Body[h:])}
	}
	ps := []string{q.head()}
	rest := string(q.Body)
	for i := 0; len(rest) > 0; i++ {
		n := min(len(rest), q.Chunks[i%len(q.Chunks)])
		ps = append(ps, fmt.Sprintf("%x\r\n%s\r\n", n, rest[:n]))
		rest = rest[n:]
	}
	return append(ps, "0\r\n\r\n")
}

// hcase is a history: requests one after another on one connection, or one per connection with the order of the pieces.
type hcase struct {
	Reqs  []hreq  `json:"reqs"`
	Sched []int   `json:"sched,omitempty"`
	Cfg   *srvCfg `json:"cfg,omitempty"`
}

var errTransport = errors.New("no complete answer")

type hconn struct {
	addr string
	c    net.Conn
	r    *bufio.Reader
}

func (h *hconn) open() error {
	if h.c != nil {
		return nil
	}
	c, err := net.DialTimeout("tcp", h.addr, answerTimeout)
	if err != nil {
		return fmt.Errorf("%w: %v", errTransport, err)
	}
	h.c, h.r = c, bufio.NewReaderSize(c, 4096)
	return nil
}

func (h *hconn) close() {
	if h.c != nil {
		h.c.Close()
		h.c = nil
	}
}

func (h *hconn) send(p string) error {
	if p == "" {
		return nil
	}
	if err := h.open(); err != nil {
		return err
	}
	h.c.SetDeadline(time.Now().Add(answerTimeout))
	if _, err := h.c.Write([]byte(p)); err != nil {
		return fmt.Errorf("%w: write: %v", errTransport, err)
	}
	return nil
}

// answer reads one response and judges it.
func (h *hconn) answer(q hreq, t *tokenizer.Tokenizer) error {
	h.c.SetDeadline(time.Now().Add(answerTimeout))
	m := q.Method
	if m == "" {
		m = "POST"
	}
	var rd = h.r
	if q.Slow > 0 {
		rd = bufio.NewReaderSize(&slowReader{h.r, q.Slow}, 16)
	}
	resp, err := http.ReadResponse(rd, &http.Request{Method: m})
	if err != nil {
		h.close()
		return fmt.Errorf("%w: %v", errTransport, err)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		h.close()
		return fmt.Errorf("%w: body: %v", errTransport, err)
	}
	if resp.Close {
		h.close()
	}
	if m == "HEAD" {
		return nil
	}
	return judge(q, resp.StatusCode, b, t)
}

type slowReader struct {
	r io.Reader
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	if s.n > 1000 {
		time.Sleep(time.Millisecond)
	}
	return s.r.Read(p)
}

// judge compares an answer of the tokenize endpoint with the library.
func judge(q hreq, code int, body []byte, t *tokenizer.Tokenizer) error {
	var req struct {
		Sentence string `json:"sentence"`
		Mode     string `json:"mode"`
	}
	derr := json.NewDecoder(strings.NewReader(string(q.Body))).Decode(&req)
	dec := json.NewDecoder(bytes.NewReader(body))
	var m map[string]json.RawMessage
	if err := dec.Decode(&m); err != nil || m == nil {
		return fmt.Errorf("the answer %q is not a JSON object: %v", clip(string(body), 300), err)
	}
	if _, err := dec.Token(); err != io.EOF {
		return fmt.Errorf("the answer has something after its JSON object: %q", clip(string(body), 300))
	}
	status := string(m["status"])
	if derr != nil {
		var text *string
		if code != 400 || status != "false" || json.Unmarshal(m["error"], &text) != nil || text == nil || *text == "" {
			return fmt.Errorf("answer %d %q to a malformed request", code, clip(string(body), 300))
		}
		return nil
	}
	if code != 200 || status != "true" {
		return fmt.Errorf("answer %d %q to a well-formed request", code, clip(string(body), 300))
	}
	mode := tokenizer.Normal
	switch req.Mode {
	case "Search":
		mode = tokenizer.Search
	case "Extended":
		mode = tokenizer.Extended
	}
	var got []json.RawMessage
	if err := json.Unmarshal(m["tokens"], &got); err != nil || got == nil {
		return fmt.Errorf("tokens is %q, not a list", clip(string(m["tokens"]), 300))
	}
	var want []tokenizer.Token
	if req.Sentence != "" {
		for _, tk := range t.Analyze(req.Sentence, mode) {
			if tk.ID != tokenizer.BosEosID {
				want = append(want, tk)
			}
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d tokens, want %d (%s)", len(got), len(want), showTokens(want))
	}
	for i := range got {
		if len(want) > 3000 && i%7 != 0 && i != len(want)-1 {
			continue
		}
		w := tokenizer.NewTokenData(want[i])
		if err := jsonIsToken(got[i], w); err != nil {
			return fmt.Errorf("token %d: %w", i, err)
		}
	}
	return nil
}

// run plays a history against the server.
func (hc *hcase) run(c *Ctx, conns []*hconn, t *tokenizer.Tokenizer) error {
	if hc.Sched == nil {
		h := conns[0]
		for i, q := range hc.Reqs {
			c.transitions.Add(1)
			err := h.single(q, t)
			if err != nil {
				return fmt.Errorf("request %d: %w", i, err)
			}
		}
		return nil
	}
	pos := make([]int, len(hc.Reqs))
	for i := range hc.Reqs {
		if conns[i].c == nil {
			if err := conns[i].open(); err != nil {
				return err
			}
		}
	}
	for _, k := range hc.Sched {
		c.transitions.Add(1)
		q := hc.Reqs[k]
		h := conns[k]
		w := q.wire()
		p := pos[k]
		pos[k]++
		switch {
		case q.Abort && p == len(w)-1:
			h.close()
		case q.Abort && p >= len(w):
		case p < len(w):
			if err := h.send(w[p]); err != nil {
				h.close()
				return fmt.Errorf("connection %d: %w", k, err)
			}
		case p == len(w):
			if err := h.answer(q, t); err != nil {
				h.close()
				return fmt.Errorf("connection %d: %w", k, err)
			}
		}
	}
	return nil
}

func (h *hconn) single(q hreq, t *tokenizer.Tokenizer) error {
	w := q.wire()
	if q.Abort {
		if err := h.send(w[0] + w[1]); err != nil {
			return err
		}
		h.close()
		return nil
	}
	if q.Chunks == nil {
		w = []string{strings.Join(w, "")}
	}
	for _, p := range w {
		if err := h.send(p); err != nil {
			h.close()
			return err
		}
	}
	return h.answer(q, t)
}

type hrun struct {
	c     *Ctx
	addr  string
	t     *tokenizer.Tokenizer
	conns [][]*hconn
}

func newHRun(c *Ctx, addr string, t *tokenizer.Tokenizer) *hrun {
	h := &hrun{c: c, addr: addr, t: t}
	for i := 0; i < workers(); i++ {
		var cs []*hconn
		for k := 0; k < 3; k++ {
			cs = append(cs, &hconn{addr: addr})
		}
		h.conns = append(h.conns, cs)
	}
	return h
}

func (h *hrun) fresh(hc *hcase) error {
	cs := []*hconn{{addr: h.addr}, {addr: h.addr}, {addr: h.addr}}
	defer func() {
		for _, c := range cs {
			c.close()
		}
	}()
	return hc.run(h.c, cs, h.t)
}

func (h *hrun) one(w int, group string, hc hcase) {
	h.c.states.Add(1)
	h.c.traces.Add(1)
	err := hc.run(h.c, h.conns[w], h.t)
	if err == nil {
		h.c.Sample(group, 1, hc)
		return
	}
	for _, cn := range h.conns[w] {
		cn.close()
	}
	if errors.Is(err, errTransport) {
		h.c.FailIfRepeatable(group, hc, err, func() error { return h.fresh(&hc) })
		return
	}
	h.c.Fail(group, hc, err, func() error { return h.fresh(&hc) })
}

func jq(s string) string { return string(must(json.Marshal(s))) }

// interleavings lists all orders of k sequences with the given numbers of events.
func interleavings(ns []int) [][]int {
	var ret [][]int
	left := append([]int{}, ns...)
	var cur []int
	var rec func()
	rec = func() {
		end := true
		for i := range left {
			if left[i] > 0 {
				end = false
				left[i]--
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				left[i]++
			}
		}
		if end {
			ret = append(ret, append([]int{}, cur...))
		}
	}
	rec()
	return ret
}

func runC13(c *Ctx) {
	th := c.thorough
	srv := startServer()
	defer srv.stop()
	ip := ipaCfg()
	h := newHRun(c, srv.addr, ip.T)

	structural := []string{"{", "}", `"sentence"`, `"mode"`, ":", ",", `"あ"`, `"Search"`, "1", "null", "[", "]"}
	n := 5
	if th {
		n = 6
	}
	c.Group(fmt.Sprintf("all bodies of <=%d of %d JSON tokens", n, len(structural)))
	for l := 0; l <= n; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(structural)
		}
		parallel(c, total, func(w, i int) {
			h.one(w, "JSON tokens", hcase{Reqs: []hreq{{Body: B(nth(structural, l, i))}}})
		})
	}
	vals := []string{`"漢字"`, `""`, "null", "1", "true", "[]", "{}", `"Search"`, `"Extended"`, `["a"]`, `-1e5`, `"\ud800"`, `"\u0000a"`, `{"sentence":"x"}`}
	keys := []string{`"sentence"`, `"mode"`, `"other"`, `""`, `"tokens"`}
	c.Group("all objects of <=2 of 5 keys x 14 values")
	var fields []string
	for _, k := range keys {
		for _, v := range vals {
			fields = append(fields, k+":"+v)
		}
	}
	tails := []string{"", "\n", " x", "{}", "}", "\x00", `{"sentence":"後"}`, ",", "null"}
	parallel(c, len(fields)*len(fields), func(w, i int) {
		b := "{" + fields[i%len(fields)] + "," + fields[i/len(fields)] + "}"
		h.one(w, "objects", hcase{Reqs: []hreq{{Body: B(b + tails[i%len(tails)])}}})
	})
	parallel(c, len(fields)*len(tails), func(w, i int) {
		h.one(w, "objects", hcase{Reqs: []hreq{{Body: B("\n{" + fields[i/len(tails)] + "} " + tails[i%len(tails)])}}})
	})
	c.Group("all bodies of <=2 bytes")
	parallel(c, 257, func(w, i int) {
		if i == 256 {
			h.one(w, "bytes", hcase{Reqs: []hreq{{}}})
			return
		}
		h.one(w, "bytes", hcase{Reqs: []hreq{{Body: B(string([]byte{byte(i)}))}}})
		for j := 0; j < 256; j++ {
			h.one(w, "bytes", hcase{Reqs: []hreq{{Body: B(string([]byte{byte(i), byte(j)}))}}})
		}
	})
	valid := []string{
		`{"sentence":"すもももももももものうち","mode":"Search"}`,
		`{"mode":"Extended","sentence":"関西国際空港abc\u3042\n\"\\"}`,
		"{\"sentence\" : \"a<b>&'\xff\xe3\x81漢\" , \"x\":[1,{\"sentence\":2}],\"mode\":null}",
	}
	c.Group("every prefix and every single-byte change of valid requests")
	for _, v := range valid {
		parallel(c, len(v), func(w, i int) {
			h.one(w, "prefixes", hcase{Reqs: []hreq{{Body: B(v[:i])}}})
			h.one(w, "suffixes", hcase{Reqs: []hreq{{Body: B(v[i:])}}})
			h.one(w, "deletions", hcase{Reqs: []hreq{{Body: B(v[:i] + v[i+1:])}}})
			for b := 0; b < 256; b++ {
				if !th && b > 0x80 && b%5 != 0 {
					continue
				}
				x := []byte(v)
				x[i] = byte(b)
				h.one(w, "byte changes", hcase{Reqs: []hreq{{Body: B(x)}}})
			}
		})
	}
	modes := []string{"", "Normal", "Search", "Extended", "normal", "search", "extended", "SEARCH", "Search ", " Search", "extend", "Extend", "x", "検索", "Search\x00", "1", "Searchx", "NormalSearch"}
	ss := upto(concat(symCore, []string{"\x00", "\"", "\\", "<", "&", "\u2028", "é", "関西国際空港", "ｱ"}), 2)
	ss = concat(ss, upto(symWords, 2))
	c.Group(fmt.Sprintf("%d sentences x %d modes", len(ss), len(modes)))
	parallel(c, len(ss), func(w, i int) {
		for k, m := range modes {
			if k > 3 && i%11 != 0 && !th {
				continue
			}
			// the raw bytes of the sentence where JSON allows it, otherwise escaped
			raw := jq(ss[i])
			if !strings.ContainsAny(ss[i], "\"\\\x00\n") {
				raw = `"` + ss[i] + `"`
			}
			h.one(w, "sentences", hcase{Reqs: []hreq{{Body: B(`{"mode":` + jq(m) + `,"sentence":` + raw + `}`)}}})
		}
	})
	ds := upto(concat(symCore, []string{"東京", "関西国際空港", "もも", "a漢", "す"}), 2)
	cfgs := srvCfgs()
	c.Group(fmt.Sprintf("%d choices of dictionaries x %d sentences x 4 modes", len(cfgs), len(ds)))
	for i := range cfgs {
		srv, t := cfgs[i].start()
		h := newHRun(c, srv.addr, t)
		parallel(c, len(ds), func(w, j int) {
			for k, m := range []string{"Normal", "Search", "Extended", "x"} {
				if k == 3 && j%11 != 0 && !th {
					continue
				}
				h.one(w, "dictionaries", hcase{Cfg: &cfgs[i], Reqs: []hreq{{Body: B(`{"mode":` + jq(m) + `,"sentence":` + jq(ds[j]) + `}`)}}})
			}
		})
		for _, m := range []string{"Normal", "Search", "Extended"} {
			h.one(0, "dictionaries", hcase{Cfg: &cfgs[i], Reqs: []hreq{{Body: B(`{"mode":` + jq(m) + `,"sentence":` + jq(clip(bocchan(), 30000)) + `}`)}}})
		}
		srv.stop()
	}
	c.Group("every character as a sentence")
	parallel(c, 0x110, func(w, i int) {
		var b strings.Builder
		for r := i * 256; r < i*256+256; r++ {
			fmt.Fprintf(&b, "\\u%04x", r&0xffff)
			if r > 0xffff {
				b.WriteString("漢")
			}
		}
		h.one(w, "characters", hcase{Reqs: []hreq{{Body: B(`{"sentence":"` + b.String() + `"}`)}}})
		for r := i * 256; r < i*256+256 && (th || i%16 == 0 || i == 0xff); r++ {
			h.one(w, "characters", hcase{Reqs: []hreq{{Body: B(fmt.Sprintf(`{"sentence":"\u%04x"}`, r&0xffff))}}})
		}
	})
	c.Group("methods, headers and transfer codings")
	{
		var cs []hcase
		bodies := []string{`{"sentence":"東京"}`, `{"sentence":"東京都に住む","mode":"Search"} `, `{`, ``, `{"sentence":"` + strings.Repeat("すもももも", 200) + `"}`}
		for _, m := range []string{"GET", "PUT", "PATCH", "DELETE", "OPTIONS", "POST", "FOO"} {
			for _, b := range bodies {
				for _, hd := range []string{"", "Content-Type: text/plain\r\n", "Content-Type: application/json; charset=utf-8\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Accept: text/html\r\n", "Accept-Encoding: gzip\r\n", "Expect: 100-continue\r\n", "Connection: close\r\n"} {
					if strings.HasPrefix(hd, "Expect") {
						continue // the interim answer is not modelled
					}
					cs = append(cs, hcase{Reqs: []hreq{{Method: m, Hdr: hd, Body: B(b)}}})
				}
				for _, ch := range [][]int{{1}, {2, 3}, {7}, {1000}, {4096}} {
					cs = append(cs, hcase{Reqs: []hreq{{Method: m, Body: B(b), Chunks: ch}}})
				}
			}
		}
		for _, p := range []string{"/tokenize?x=1", "/tokenize?sentence=a&mode=Search", "http://x/tokenize"} {
			cs = append(cs, hcase{Reqs: []hreq{{Path: p, Body: B(bodies[1])}}})
		}
		parallel(c, len(cs), func(w, i int) { h.one(w, "methods", cs[i]) })
	}
	c.Group("large requests and answers")
	{
		text := bocchan()
		o, _ := decode(text)
		var cs []hcase
		sizes := []int{1000, 10000, 60000}
		if th {
			sizes = append(sizes, 100000)
		}
		for _, k := range sizes {
			k = min(k, len(o)-1)
			for _, m := range []string{"Normal", "Search", "Extended"} {
				cs = append(cs, hcase{Reqs: []hreq{{Body: B(`{"sentence":` + jq(text[:o[k]]) + `,"mode":"` + m + `"}`)}}})
			}
		}
		cs = append(cs, hcase{Reqs: []hreq{{Body: B(`{"sentence":` + jq(text[:o[20000]]) + `}`), Slow: 4000}}},
			hcase{Reqs: []hreq{{Body: B(`{"sentence":` + jq(strings.Repeat("a😀", 70000)) + `}`)}}},
			hcase{Reqs: []hreq{{Body: B(`{"sentence":` + jq(strings.Repeat("\n", 100000)) + `}`)}}},
			hcase{Reqs: []hreq{{Body: B(`{"sentence":` + jq(text[:o[3000]]) + `}`), Slow: 16}}})
		for _, p := range []int{1 << 12, 1 << 16, 1 << 20, 5 << 20, 12 << 20, 40 << 20} {
			cs = append(cs, hcase{Reqs: []hreq{{Body: B(strings.Repeat(" ", p) + `{"sentence":"東京"}`)}}},
				hcase{Reqs: []hreq{{Body: B(`{"x":"` + strings.Repeat("x", p) + `","sentence":"京都"}`)}}})
			if p <= 1<<20 {
				cs = append(cs, hcase{Reqs: []hreq{{Body: B(`{"x":"` + strings.Repeat("x", p))}}})
			}
		}
		for d := 1; d <= 5000; d *= 10 {
			cs = append(cs, hcase{Reqs: []hreq{{Body: B(`{"x":` + strings.Repeat("[", d) + strings.Repeat("]", d) + `,"sentence":"京都"}`)}}})
			cs = append(cs, hcase{Reqs: []hreq{{Body: B(strings.Repeat("[", d))}}})
		}
		parallel(c, len(cs), func(w, i int) { h.one(w, "large", cs[i]) })
	}
	kinds := []hreq{
		{Body: B(`{"sentence":"関西国際空港","mode":"Search"}`)},
		{Body: B(`{"sentence":"関西国際空港"}`)},
		{Body: B(`{"sentence":"デジカメを買った","mode":"Extended"}`)},
		{Body: B(`{"sentence":"","mode":"Search"}`)},
		{Body: B(`{"sentence":`)},
		{Body: B(``)},
		{Body: B(`{"sentence":1}`)},
		{Body: B(`{"mode":"Extended"}`)},
		{Body: B(`{"sentence":"` + strings.Repeat("すもももももももものうち", 120) + `","mode":"Normal"}`)},
		{Body: B(`{"sentence":"関西国際空港","mode":"Extended"}{"sentence":"x"}`)},
		{Body: B(`{"sentence":"あ\u0000\ud800"}`), Chunks: []int{3}},
		{Body: B(`{"sentence":"途中で切れる接続","mode":"Search"}`), Abort: true},
	}
	d := 3
	if th {
		d = 4
	}
	c.Group(fmt.Sprintf("all histories of %d of %d requests on one connection", d, len(kinds)))
	total := 1
	for i := 0; i < d; i++ {
		total *= len(kinds)
	}
	parallel(c, total, func(w, i int) {
		var hc hcase
		for k := 0; k < d; k++ {
			hc.Reqs = append(hc.Reqs, kinds[i%len(kinds)])
			i /= len(kinds)
		}
		h.one(w, "histories", hc)
	})
	limit := 60 * time.Second
	if th {
		limit = 30 * time.Minute
	}
	runHolds(c, "every request held at every statement while every other one is served", []string{
		post(`{"sentence":"関西国際空港","mode":"Search"}`), post(`{"sentence":"関西国際空港"}`), post(`{"sentence":"デジカメを買った\u0001","mode":"Extended"}`),
		post(`{"sentence":"","mode":"Search"}`), post(`{"sentence":`), post(`{"sentence":1}`),
		(&demoCase{Demo: true, Sentence: "東京", Mode: "Search"}).request(),
	}, nil, limit)
	c.Group("all orders of the pieces of two requests on two connections")
	events := func(q hreq) int { return len(q.wire()) + 1 }
	two := []int{0, 2, 3, 4, 7, 8, 9, 11}
	parallel(c, len(two)*len(two), func(w, i int) {
		a, b := kinds[two[i%len(two)]], kinds[two[i/len(two)]]
		for _, s := range interleavings([]int{events(a), events(b)}) {
			h.one(w, "interleavings", hcase{Reqs: []hreq{a, b}, Sched: s})
		}
	})
	c.Group("all orders of the pieces of three requests on three connections")
	three := [][3]int{{0, 1, 2}, {0, 2, 9}, {0, 4, 1}, {9, 11, 2}, {6, 0, 7}, {3, 2, 1}, {2, 8, 0}}
	for i := range kinds {
		kinds[i].Two = !th
	}
	if th {
		for _, a := range []int{0, 2, 4, 11} {
			for _, b := range []int{1, 8, 9} {
				three = append(three, [3]int{a, b, 2}, [3]int{a, b, 4})
			}
		}
	}
	for _, t3 := range three {
		a, b, e := kinds[t3[0]], kinds[t3[1]], kinds[t3[2]]
		ss := interleavings([]int{events(a), events(b), events(e)})
		parallel(c, len(ss), func(w, i int) {
			h.one(w, "interleavings", hcase{Reqs: []hreq{a, b, e}, Sched: ss[i]})
		})
	}
	c.Group("many requests at once")
	runMany(c, h)
	select {
	case err := <-srv.done:
		c.Fail("server", nil, fmt.Errorf("the server ended by itself: %v", err), nil)
	default:
	}
	c.Set("bounds", fmt.Sprintf("all bodies of <=%d of 12 JSON tokens, of <=2 bytes, all objects of 2 of 70 fields, prefixes/suffixes/deletions/byte changes of 3 requests; %d histories of depth %d; all piece orders of 2 requests (64 pairs) and of 3 requests", n, total, d))
}

// runMany sends different requests at the same time, in waves.
func runMany(c *Ctx, h *hrun) {
	waves := 20
	if c.thorough {
		waves = 200
	}
	text := bocchan()
	o, _ := decode(text)
	for wv := 0; wv < waves && !c.Done(); wv++ {
		var wg sync.WaitGroup
		for k := 0; k < 64; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				p := (wv*64 + k) * 37 % (len(o) - 700)
				l := 5 + (k*k)%600
				q := hreq{Body: B(`{"sentence":` + jq(text[o[p]:o[p+l]]) + `,"mode":"` + []string{"Normal", "Search", "Extended", "?"}[k%4] + `"}`)}
				if k%9 == 0 {
					q.Body = q.Body[:len(q.Body)/2]
				}
				q.Abort = k%13 == 5
				hc := hcase{Reqs: []hreq{q, q}}
				c.states.Add(1)
				c.traces.Add(1)
				if err := h.fresh(&hc); err != nil {
					if errors.Is(err, errTransport) {
						c.FailIfRepeatable("concurrent", hc, err, func() error { return h.fresh(&hc) })
					} else {
						c.Fail("concurrent", hc, err, func() error { return h.fresh(&hc) })
					}
				}
			}(k)
		}
		wg.Wait()
	}
}

func replayC13(c *Ctx, d Doc) error {
	var hc hcase
	if err := json.Unmarshal(d.Case, &hc); err != nil {
		return err
	}
	srv, t := hc.Cfg.start()
	defer srv.stop()
	return newHRun(c, srv.addr, t).fresh(&hc)
}

func init() { register("C13", "model_checking", runC13, replayC13) }
