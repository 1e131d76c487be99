package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

// demoCase is a request to the demo page with a behaviour of graphviz.
type demoCase struct {
	Dot      string  `json:"dot"` // behaviour: see fakedot; "real", "missing", "dir", "noexec", "badinterp", "script ..."
	Sentence B       `json:"sentence"`
	Mode     string  `json:"mode"`
	Form     string  `json:"form"` // get, post, multipart
	Demo     bool    `json:"demo,omitempty"`
	Raw      string  `json:"raw,omitempty"` // a raw request target instead
	Expect   string  `json:"expect"`        // ok, error, any
	Cfg      *srvCfg `json:"cfg,omitempty"`
}

func (d demoCase) String() string {
	return fmt.Sprintf("dot=%q sentence=%q mode=%q form=%s", d.Dot, clip(string(d.Sentence), 100), d.Mode, d.Form)
}

type demoEnv struct {
	c    *Ctx
	dir  string
	addr string
	t    *tokenizer.Tokenizer
	orig string
	mu   sync.Mutex
	rows map[string]string
}

func fakeDotPath() string { return filepath.Join(verifDir, ".build", "fakedot") }

func newDemoEnv(c *Ctx, addr string, t *tokenizer.Tokenizer) *demoEnv {
	e := &demoEnv{c: c, addr: addr, t: t, orig: os.Getenv("PATH")}
	e.dir = must(os.MkdirTemp("", "vh-demo"))
	mk := func(n string) string {
		p := filepath.Join(e.dir, n)
		os.Mkdir(p, 0o755)
		return p
	}
	if err := os.Symlink(fakeDotPath(), filepath.Join(mk("fake"), "dot")); err != nil {
		panic(err)
	}
	mk("missing")
	os.Mkdir(filepath.Join(mk("dir"), "dot"), 0o755)
	os.WriteFile(filepath.Join(mk("noexec"), "dot"), []byte("#!/bin/sh\n"), 0o644)
	os.WriteFile(filepath.Join(mk("badinterp"), "dot"), []byte("#!/nonexistent/interpreter\n"), 0o755)
	os.WriteFile(filepath.Join(mk("garbage"), "dot"), []byte("\x7fELF nonsense"), 0o755)
	os.WriteFile(filepath.Join(mk("script"), "dot"), []byte("#!/bin/sh\n"+fakeDotPath()+"\nexit $?\n"), 0o755)
	return e
}

func (e *demoEnv) close() {
	os.Setenv("PATH", e.orig)
	os.RemoveAll(e.dir)
}

// setDot arranges for graphviz to behave as told. The program runs one such case at a time.
func (e *demoEnv) setDot(b string) {
	switch b {
	case "real":
		os.Setenv("PATH", e.orig)
	case "missing", "dir", "noexec", "badinterp", "garbage":
		os.Setenv("PATH", filepath.Join(e.dir, b))
	default:
		d := "fake"
		if r, ok := strings.CutPrefix(b, "script "); ok {
			d, b = "script", r
		}
		os.Setenv("FAKEDOT", b)
		os.Setenv("PATH", filepath.Join(e.dir, d))
	}
}

func (d *demoCase) request() string {
	v := url.Values{"s": {string(d.Sentence)}, "r": {d.Mode}}
	if !d.Demo {
		v.Set("lattice", "Lattice")
	}
	switch {
	case d.Raw != "":
		return d.Raw
	case d.Form == "post":
		b := v.Encode()
		return "POST /_demo HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + fmt.Sprint(len(b)) + "\r\n\r\n" + b
	case d.Form == "multipart":
		var b strings.Builder
		for k, x := range v {
			b.WriteString("--BB\r\nContent-Disposition: form-data; name=\"" + k + "\"\r\n\r\n" + x[0] + "\r\n")
		}
		b.WriteString("--BB--\r\n")
		return "POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: " + fmt.Sprint(b.Len()) + "\r\n\r\n" + b.String()
	}
	return "GET /?" + v.Encode() + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"
}

// fetch sends the request and returns the page.
func fetch(addr, req string, limit time.Duration) (string, error) {
	c, err := net.DialTimeout("tcp", addr, limit)
	if err != nil {
		return "", fmt.Errorf("%w: %v", errTransport, err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(limit))
	go io.WriteString(c, req)
	m, _, _ := strings.Cut(req, " ")
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: m})
	if err != nil {
		return "", fmt.Errorf("%w: %v", errTransport, err)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return "", fmt.Errorf("%w: the page is cut: %v", errTransport, err)
	}
	return string(b), nil
}

var (
	tagRe      = regexp.MustCompile(`<[^>]*>`)
	svgRe      = regexp.MustCompile(`(?s)<svg.*</svg>`)
	tdRe       = regexp.MustCompile(`(?s)<td[^>]*>(.*?)</td>`)
	textareaRe = regexp.MustCompile(`(?s)<textarea[^>]*>(.*?)</textarea>`)
)

// pageText is what a browser shows for a piece of the page.
func pageText(s string) string { return normText(html.UnescapeString(s)) }

// normText: characters that cannot be put into a page are shown as U+FFFD.
func normText(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		switch r {
		case 0:
			r = utf8.RuneError
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (e *demoEnv) tokens(s, mode string) []tokenizer.Token {
	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" {
		m = tokenizer.Search
	}
	var ret []tokenizer.Token
	for _, t := range e.t.Analyze(s, m) {
		if t.ID != tokenizer.BosEosID {
			ret = append(ret, t)
		}
	}
	return ret
}

func (e *demoEnv) table(s, mode string) []string {
	or := func(v string, ok bool) string {
		if !ok {
			return "*"
		}
		return v
	}
	var ret []string
	for _, t := range e.tokens(s, mode) {
		pos := strings.Join(t.POS(), ",")
		if pos == "" {
			pos = "*"
		}
		ret = append(ret, normText(t.Surface), normText(pos), normText(or(t.BaseForm())), normText(or(t.Reading())), normText(or(t.Pronunciation())))
	}
	return ret
}

// tags lists the tags of a page, without those of the drawing.
func tags(page string) []string {
	return tagRe.FindAllString(page, -1)
}

// rowTags are the tags of a page with n rows, learned from pages for harmless text.
func (e *demoEnv) skeleton(n int) ([]string, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	get := func(k string) ([]string, error) {
		if e.rows == nil {
			e.rows = map[string]string{}
		}
		if p, ok := e.rows[k]; ok {
			return tags(p), nil
		}
		e.setDot("readall;svg")
		d := demoCase{Sentence: B(k)}
		p, err := fetch(e.addr, d.request(), answerTimeout)
		if err != nil {
			return nil, err
		}
		p = svgRe.ReplaceAllString(p, "")
		e.rows[k] = p
		return tags(p), nil
	}
	zero, err := get("")
	if err != nil {
		return nil, err
	}
	one, err := get("あ")
	if err != nil {
		return nil, err
	}
	// one = pre + row + post with zero = pre + post
	i := 0
	for i < len(zero) && one[i] == zero[i] {
		i++
	}
	k := len(one) - len(zero)
	if k <= 0 {
		return nil, fmt.Errorf("the page for one token has no more tags than the page for none")
	}
	ret := append([]string{}, one[:i]...)
	for j := 0; j < n; j++ {
		ret = append(ret, one[i:i+k]...)
	}
	return append(ret, one[i+k:]...), nil
}

func (e *demoEnv) judge(d *demoCase, page string) error {
	if !strings.Contains(page, "</html>") {
		return fmt.Errorf("the page is not complete: ...%q", clip(page[max(0, len(page)-200):], 200))
	}
	if d.Raw != "" {
		return nil
	}
	if d.Demo {
		m := textareaRe.FindStringSubmatch(page)
		if m == nil || pageText(m[1]) != normText(string(d.Sentence)) {
			return fmt.Errorf("the text area does not contain the sentence: %q", m)
		}
		if e.rows["demo"] == "" {
			b := demoCase{Sentence: "あ", Demo: true}
			p, err := fetch(e.addr, b.request(), answerTimeout)
			if err != nil {
				return err
			}
			e.rows = map[string]string{"demo": p}
		}
		// the radio button may be checked
		norm := func(p string) string {
			return strings.Join(strings.Fields(strings.ReplaceAll(strings.Join(tags(p), "\n"), "checked", "")), " ")
		}
		if a, b := norm(e.rows["demo"]), norm(page); a != b {
			return fmt.Errorf("the tags of the page depend on the text: %s", firstDiff(b, a))
		}
		return nil
	}
	drawing := strings.Contains(page, `id="drawing-7731"`)
	if d.Dot == "real" {
		drawing = strings.Contains(page, "<svg") && strings.Contains(page, "</svg>")
	}
	noSvg := svgRe.ReplaceAllString(page, "")
	if i := strings.Index(noSvg, "<svg"); i >= 0 {
		noSvg = noSvg[:i]
	}
	low := strings.ToLower(tagRe.ReplaceAllString(noSvg, " "))
	errText := strings.Contains(low, "error") || strings.Contains(low, "time out") || strings.Contains(low, "timeout")
	var tds []string
	for _, m := range tdRe.FindAllStringSubmatch(noSvg, -1) {
		tds = append(tds, pageText(m[1]))
	}
	want := append([]string{normText(string(d.Sentence)), normText(d.Mode)}, e.table(string(d.Sentence), d.Mode)...)
	full := sameStrings(tds, want)
	empty := len(tds) == 2 && sameStrings(tds, want[:2])
	if !full && !(empty && d.Expect != "ok") {
		for i := range want {
			if i >= len(tds) || tds[i] != want[i] {
				got := "nothing"
				if i < len(tds) {
					got = fmt.Sprintf("%q", clip(tds[i], 80))
				}
				return fmt.Errorf("cell %d of the tables is %s, want %q (%d cells, want %d)", i, got, clip(want[i], 80), len(tds), len(want))
			}
		}
		return fmt.Errorf("%d cells in the tables, want %d", len(tds), len(want))
	}
	switch d.Expect {
	case "ok":
		if !drawing || errText {
			return fmt.Errorf("graphviz succeeded, but the page has drawing=%v error=%v", drawing, errText)
		}
	case "error":
		if drawing || !errText {
			return fmt.Errorf("graphviz failed, but the page has drawing=%v error=%v", drawing, errText)
		}
	}
	if d.Expect == "ok" {
		sk, err := e.skeleton((len(want) - 2) / 5)
		if err != nil {
			return err
		}
		if a, b := strings.Join(sk, "\n"), strings.Join(tags(noSvg), "\n"); a != b {
			return fmt.Errorf("the tags of the page depend on the text: %s", firstDiff(b, a))
		}
	}
	return nil
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%q where %q is expected", clip(a[max(0, i-20):], 80), clip(b[max(0, i-20):], 80))
}

func (e *demoEnv) run(d *demoCase, limit time.Duration) error {
	e.setDot(d.Dot)
	page, err := fetch(e.addr, d.request(), limit)
	if err != nil {
		return err
	}
	return e.judge(d, page)
}

func (e *demoEnv) one(group string, d demoCase) {
	if e.c.Done() {
		return
	}
	e.c.states.Add(1)
	e.c.transitions.Add(int64(1 + strings.Count(d.Dot, ";")))
	e.c.traces.Add(1)
	if err := e.run(&d, answerTimeout); err != nil {
		err = fmt.Errorf("%v: %w", d, err)
		e.c.FailIfRepeatable(group, d, err, func() error { return e.run(&d, answerTimeout) })
		return
	}
	e.c.Sample(group, 1, d)
}

// batch judges cases in processes of their own, several at a time (a process has one behaviour of graphviz at a time).
func (e *demoEnv) batch(group string, ds []demoCase) {
	if e.c.Done() {
		return
	}
	e.setDot("real")
	self := must(os.Executable())
	n := workers() - 1
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad, left []int
	for w := 0; w < n; w++ {
		var idx []int
		var mine []demoCase
		for i := w; i < len(ds); i += n {
			idx = append(idx, i)
			mine = append(mine, ds[i])
		}
		if len(mine) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self, "demoshard")
			cmd.Stdin = bytes.NewReader(must(json.Marshal(mine)))
			var o bytes.Buffer
			cmd.Stdout = &o
			cmd.Stderr = os.Stderr
			err := runLimited(cmd, 10*time.Minute)
			var ans struct {
				Done int
				Bad  []int
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil || json.Unmarshal(o.Bytes(), &ans) != nil {
				left = append(left, idx...)
				return
			}
			e.c.states.Add(int64(ans.Done))
			e.c.traces.Add(int64(ans.Done))
			for i := 0; i < ans.Done; i++ {
				e.c.transitions.Add(int64(1 + strings.Count(mine[i].Dot, ";")))
			}
			for _, b := range ans.Bad {
				bad = append(bad, idx[b])
			}
		}()
	}
	wg.Wait()
	for _, i := range append(bad, left...) { // judged here
		e.one(group, ds[i])
	}
	if len(ds) > 0 {
		e.c.Sample(group, 2, ds[0])
	}
}

func demoShard([]string) {
	var ds []demoCase
	if err := json.NewDecoder(os.Stdin).Decode(&ds); err != nil {
		os.Exit(75)
	}
	c := newCtx("C15", "quick")
	srv := startServer()
	e := newDemoEnv(c, srv.addr, ipaCfg().T)
	var ans struct {
		Done int
		Bad  []int
	}
	for i := range ds {
		ans.Done++
		if err := e.run(&ds[i], answerTimeout); err != nil {
			ans.Bad = append(ans.Bad, i)
			if len(ans.Bad) >= 3 {
				break
			}
		}
	}
	e.close()
	json.NewEncoder(os.Stdout).Encode(ans)
}

// demoGraphSizes: sentences whose graphs are small and larger than a pipe holds.
var bigSentence = strings.Repeat("すもももももももものうち", 60)

func runC15(c *Ctx) {
	th := c.thorough
	// behaviours that take the whole time limit run in processes of their own, meanwhile
	hangs := startHangs(c)
	srv := startServer()
	defer srv.stop()
	ip := ipaCfg()
	e := newDemoEnv(c, srv.addr, ip.T)
	defer e.close()

	c.Group("every way for graphviz to end")
	var bs []demoCase
	reads := []string{"", "read 1", "read 10", "read 100", "read 4095", "read 4096", "read 65535", "read 65536", "read 65537", "readall", "readslow 4096", "closein"}
	outs := []string{"", "svg", "svg 70000", "half", "err 100", "err 70000", "svg;err 70000", "out 1;svg"}
	ends := []string{"exit 0", "exit 1", "exit 2", "exit 255", "kill 9", "kill 15", "kill 11", "closeout;exit 0", "closeout;exit 1", "closein;exit 1", "sleep 30;exit 1"}
	for _, sen := range []string{"a", bigSentence} {
		for _, first := range []bool{true, false} {
			for _, r := range reads {
				for _, o := range outs {
					for _, x := range ends {
						ops := []string{r, o, x}
						if !first {
							ops = []string{o, r, x}
							if o == "" || r == "" {
								continue
							}
						}
						d := demoCase{Dot: strings.Join(ops, ";"), Sentence: B(sen), Expect: "error"}
						if strings.HasSuffix(x, "exit 0") {
							d.Expect = "any"
							if (r == "readall" || r == "readslow 4096") && strings.HasPrefix(o, "svg") {
								d.Expect = "ok"
							}
						}
						if !th && len(sen) > 10 && (x == "kill 15" || x == "exit 2" || x == "exit 255" || o == "svg;err 70000" || o == "err 100") {
							continue
						}
						bs = append(bs, d)
					}
				}
			}
		}
	}
	bs = append(bs, demoCase{Dot: "readall;bare;exit 0", Sentence: "東京", Expect: "ok"})
	bs = append(bs, demoCase{Dot: "bare;readall;exit 0", Sentence: "東京", Expect: "ok"})
	e.batch("behaviours", bs)
	for _, b := range []string{"missing", "dir", "noexec", "badinterp", "garbage"} {
		for _, s := range []string{"", "東京", bigSentence} {
			e.one("cannot be started", demoCase{Dot: b, Sentence: B(s), Expect: "error"})
		}
	}
	c.Group("a failure does not affect the next request")
	kinds := []demoCase{
		{Dot: "readall;svg;exit 0", Sentence: "東京都", Mode: "Search", Expect: "ok"},
		{Dot: "readall;svg;exit 0", Sentence: B(bigSentence), Mode: "Normal", Expect: "ok"},
		{Dot: "exit 1", Sentence: B(bigSentence), Expect: "error"},
		{Dot: "read 10;svg;kill 9", Sentence: "関西国際空港", Expect: "error"},
		{Dot: "missing", Sentence: "あ", Expect: "error"},
		{Dot: "badinterp", Sentence: "いう", Expect: "error"},
		{Dot: "closein;sleep 20;exit 3", Sentence: B(bigSentence), Expect: "error"},
		{Dot: "", Sentence: "すもももももももものうち", Demo: true},
		{Dot: "half;err 70000;exit 1", Sentence: "a", Mode: "Extended", Expect: "error"},
	}
	for _, a := range kinds {
		for _, b := range kinds {
			for _, d := range []demoCase{a, b, kinds[0]} {
				e.one("histories", d)
			}
		}
	}
	c.Group("texts that must be escaped")
	hostile := []string{"<script>alert(1)</script>", "</td></tr></table>", "</textarea><script>x</script>", "\"'><img src=x onerror=y>", "&lt;b&gt;", "&amp;", "{{.Sentence}}", "<!--", "-->", "]]>", "javascript:alert(1)", "</html>", "<", ">", "&", "\"", "'", "`", "+", "\x00", "\xff", "\u2028", "a\nb", "<svg onload=x>", "</title>", "\u00a0", "error"}
	marks := []string{"<", ">", "&", "\"", "'", "/", "b", "漢", "\xff"}
	texts := concat(hostile, upto(marks, 2))
	if th {
		texts = concat(hostile, upto(marks, 4))
	}
	for i, s := range texts {
		for _, f := range []string{"get", "post", "multipart"} {
			if f != "get" && i >= len(hostile) {
				continue
			}
			if f == "multipart" && strings.Contains(s, "\n") {
				continue
			}
			for _, m := range []string{"Normal", "Search"} {
				if !strings.Contains(s, "error") {
					e.one("escaping", demoCase{Dot: "readall;svg;exit 0", Sentence: B(s), Mode: m, Form: f, Expect: "ok"})
				}
				e.one("escaping", demoCase{Sentence: B(s), Mode: m, Form: f, Demo: true})
			}
			if !strings.Contains(s, "error") {
				e.one("escaping", demoCase{Dot: "readall;svg;exit 0", Sentence: "東京", Mode: s, Form: f, Expect: "ok"})
				e.one("escaping", demoCase{Dot: "exit 1", Sentence: B(s), Mode: s, Form: f, Expect: "any"})
			}
			e.one("escaping", demoCase{Sentence: "東京", Mode: s, Form: f, Demo: true})
		}
	}
	c.Group("token tables")
	ss := upto(symCore, 2)
	if th {
		ss = upto(symCore, 3)
	}
	ss = concat(ss, upto(symWords, 2))
	modes := []string{"Normal", "Search", "Extended", "", "x"}
	for i, s := range ss {
		e.one("tables", demoCase{Dot: "readall;svg;exit 0", Sentence: B(s), Mode: modes[i%5], Expect: "ok"})
	}
	for _, s := range []string{"関西国際空港", "すもももももももものうち", "デジカメを買ったabc", bigSentence, "吾輩は猫である。名前はまだ無い。", strings.Repeat("a漢", 300)} {
		for _, m := range modes {
			e.one("tables", demoCase{Dot: "readall;svg;exit 0", Sentence: B(s), Mode: m, Form: "post", Expect: "ok"})
		}
	}
	us := upto(concat(symCore[:min(8, len(symCore))], []string{"東京", "関西国際空港", "もも", "a漢", "す"}), 2)
	c.Group("token tables, other dictionaries")
	cfgs := srvCfgs()
	for k := range cfgs {
		srv, t := cfgs[k].start()
		e := newDemoEnv(c, srv.addr, t)
		for i, s := range us {
			if i%2 == 0 || th || strings.Contains(s, "東京") {
				e.one("dictionaries", demoCase{Dot: "readall;svg;exit 0", Sentence: B(s), Mode: modes[(i/2)%5], Expect: "ok", Cfg: &cfgs[k]})
			}
			e.one("dictionaries", demoCase{Sentence: B(s), Mode: modes[(i+1)%5], Demo: true, Cfg: &cfgs[k]})
		}
		e.close()
		srv.stop()
	}
	c.Group("malformed requests")
	for _, r := range []string{
		"GET /?s=%zz&lattice=1 HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
		"GET /?;;;= HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
		"GET /nowhere?lattice= HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
		"DELETE /?lattice=x HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
		"POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: multipart/form-data; boundary=Q\r\nContent-Length: 5\r\n\r\n--Qxx",
		"POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 9\r\n\r\ns=%%%&r=1",
		"POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 3\r\n\r\nabc",
		"GET /?s=a&s=b&lattice=1&lattice=2 HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	} {
		e.one("malformed", demoCase{Dot: "readall;svg;exit 0", Raw: r, Expect: "any"})
	}
	e.setDot("real")
	if _, err := exec.LookPath("dot"); err == nil {
		c.Group("real graphviz")
		for _, s := range []string{"", "a", "東京都", `"\`, "すもももももももものうち", "<b>&", "関西国際空港\n", "\\n\\\"", "😀\xff"} {
			for _, m := range []string{"Normal", "Search", "Extended"} {
				e.one("graphviz", demoCase{Dot: "real", Sentence: B(s), Mode: m, Expect: "ok"})
			}
		}
	}
	c.Group("requests given up by the client, and the next one")
	for i := 0; i < 20; i++ {
		e.setDot("sleep 300;readall;svg;exit 0")
		d := demoCase{Sentence: B(bigSentence)}
		if cn, err := net.Dial("tcp", e.addr); err == nil {
			io.WriteString(cn, d.request())
			time.Sleep(time.Duration(i) * 10 * time.Millisecond)
			cn.Close()
		}
		e.one("given up", kinds[i%2])
	}
	c.Group("many requests at once")
	{
		e.setDot("readall;svg;sleep 50;exit 0")
		var wg sync.WaitGroup
		text := bocchan()
		o, _ := decode(text)
		if _, err := e.skeleton(1); err == nil {
			e.setDot("readall;svg;sleep 50;exit 0")
			for k := 0; k < 40; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					d := demoCase{Dot: "readall;svg;sleep 50;exit 0", Sentence: B(text[o[k*100]:o[k*101+20]]), Mode: modes[k%3], Expect: "ok"}
					c.states.Add(1)
					c.traces.Add(1)
					page, err := fetch(e.addr, d.request(), 60*time.Second)
					if err == nil {
						err = e.judge(&d, page)
					}
					if err != nil {
						c.FailIfRepeatable("concurrent", d, err, func() error { return e.run(&d, 60*time.Second) })
					}
				}()
			}
		}
		wg.Wait()
	}
	e.setDot("real")
	limit := 60 * time.Second
	if th {
		limit = 30 * time.Minute
	}
	runHolds(c, "every request held at every statement while every other one is served", []string{
		(&demoCase{Sentence: "東京都", Mode: "Search"}).request(), (&demoCase{Sentence: "関西国際空港に<i>", Mode: "Normal"}).request(),
		(&demoCase{Sentence: "ねこ&", Mode: "Search", Demo: true}).request(), (&demoCase{Sentence: "", Mode: "Normal"}).request(),
		post(`{"sentence":"すもももももももものうち","mode":"Search"}`),
	}, []string{"PATH=" + filepath.Join(e.dir, "fake"), "FAKEDOT=sum;exit 0"}, limit)
	runHolds(c, "the same without graphviz", []string{
		(&demoCase{Sentence: "東京都", Mode: "Search"}).request(), (&demoCase{Sentence: "ねこ&", Mode: "Search", Demo: true}).request(),
	}, []string{"PATH=" + filepath.Join(e.dir, "missing")}, limit)
	c.Group("graphviz that does not finish")
	hangs()
	select {
	case err := <-srv.done:
		c.Fail("server", nil, fmt.Errorf("the server ended by itself: %v", err), nil)
	default:
	}
	c.Set("bounds", "all combinations of 12 ways of reading x 8 outputs x 11 ways to end x 2 orders x small/large graph; all pairs of 9 kinds of request followed by a good one; all texts of <=2 of 9 marks plus 27 hostile ones in sentence and mode; hang behaviours against the time limit")
}

// hangSpecs are the behaviours that last until the time limit of the demo page.
var hangSpecs = []string{
	"sleep 200000",
	"readall;sleep 200000",
	"readall;svg;sleep 200000",
	"readall;svg;closeout;sleep 200000",
	"closein;closeout;closeerr;sleep 200000",
	"child 200;exit 0",
	"child 200;exit 1",
	"readall;svg;child 200;sleep 200000",
	"script sleep 200000",
	"script readall;svg;sleep 200000",
}

// startHangs runs the behaviours in processes of their own and returns a function that waits for the verdicts.
func startHangs(c *Ctx) func() {
	self := must(os.Executable())
	type res struct {
		spec string
		big  bool
		err  error
	}
	run := func(spec string, big bool) error {
		cmd := exec.Command(self, "demohang", spec, fmt.Sprint(big))
		out, err := cmd.CombinedOutput()
		if err == nil {
			return nil
		}
		if cmd.ProcessState.ExitCode() == 1 {
			return fmt.Errorf("dot=%q large graph=%v: %s", spec, big, tailStr(string(out), 1000))
		}
		return nil // the helper itself failed
	}
	n := 0
	ch := make(chan res, 64)
	for _, spec := range hangSpecs {
		for _, big := range []bool{false, true} {
			n++
			go func() { ch <- res{spec, big, run(spec, big)} }()
		}
	}
	return func() {
		for i := 0; i < n; i++ {
			r := <-ch
			c.states.Add(1)
			c.transitions.Add(3)
			c.traces.Add(1)
			if r.err != nil {
				d := demoCase{Dot: r.spec, Sentence: "hang"}
				if r.big {
					d.Sentence = B(bigSentence)
				}
				// once more, alone
				if err := run(r.spec, r.big); err != nil {
					c.report("does not finish", d, r.err.Error(), "2/2")
				}
			}
		}
	}
}

// demoHang is run in a process of its own: graphviz hangs, the page must come all the same, and others meanwhile.
func demoHang(args []string) {
	c := newCtx("C15", "quick")
	srv := startServer()
	ip := ipaCfg()
	e := newDemoEnv(c, srv.addr, ip.T)
	fail := func(err error) {
		e.close()
		fmt.Println(err)
		os.Exit(1)
	}
	sen := "東京"
	if args[1] == "true" {
		sen = bigSentence
	}
	e.skeleton(1)
	e.setDot(args[0])
	d := demoCase{Dot: args[0], Sentence: B(sen), Expect: "error"}
	if args[0] == "child 200;exit 0" {
		d.Expect = "any"
	}
	start := time.Now()
	ch := make(chan error, 1)
	go func() {
		page, err := fetch(e.addr, d.request(), 90*time.Second)
		if err == nil {
			err = e.judge(&d, page)
		}
		ch <- err
	}()
	// meanwhile others are served
	time.Sleep(1500 * time.Millisecond)
	for i := 0; i < 3; i++ {
		o := demoCase{Dot: "readall;svg;exit 0", Sentence: "京都", Expect: "ok"}
		if err := e.run(&o, answerTimeout); err != nil {
			fail(fmt.Errorf("while a graphviz hangs: %w", err))
		}
		t := hcase{Reqs: []hreq{{Body: `{"sentence":"京都"}`}}}
		if err := newHRun(c, e.addr, ip.T).fresh(&t); err != nil {
			fail(fmt.Errorf("while a graphviz hangs: %w", err))
		}
	}
	if err := <-ch; err != nil {
		fail(fmt.Errorf("after %.0fs: %w", time.Since(start).Seconds(), err))
	}
	o := demoCase{Dot: "readall;svg;exit 0", Sentence: "京都", Expect: "ok"}
	if err := e.run(&o, answerTimeout); err != nil {
		fail(fmt.Errorf("after a graphviz hung: %w", err))
	}
	e.close()
}

func replayC15(c *Ctx, d Doc) error {
	var dc demoCase
	if err := json.Unmarshal(d.Case, &dc); err != nil {
		return err
	}
	if d.Group == "does not finish" {
		demoHang([]string{dc.Dot, fmt.Sprint(len(dc.Sentence) > 100)})
		return nil
	}
	srv, t := dc.Cfg.start()
	defer srv.stop()
	e := newDemoEnv(c, srv.addr, t)
	defer e.close()
	if err := e.run(&dc, 90*time.Second); err != nil {
		return err
	}
	return errors.Join()
}

func init() {
	register("C15", "model_checking", runC15, replayC15)
	subcommands["demohang"] = demoHang
	subcommands["demoshard"] = demoShard
}
