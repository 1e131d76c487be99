package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
)

const stopLimit = 40 * time.Second

var lifeNext atomic.Int64

// lifeAddr returns an address of its own: every history has its own loopback address.
func lifeAddr() string {
	n := lifeNext.Add(1)
	return fmt.Sprintf("127.%d.%d.%d:6060", 40+os.Getpid()%60, n/250%250, 1+n%250)
}

func dialable(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

type life struct {
	addr   string
	cancel context.CancelFunc
	done   chan error
	open   bool // still accepting when it returned
	conns  []net.Conn
}

func startLife(addr string, pre bool, args ...string) *life {
	ctx, cancel := context.WithCancel(context.Background())
	l := &life{addr: addr, cancel: cancel, done: make(chan error, 1)}
	if pre {
		cancel()
	}
	go func() {
		err := server.Run(ctx, append([]string{"-http", addr}, args...))
		l.open = dialable(addr)
		l.done <- err
	}()
	return l
}

func (l *life) ready() error {
	for t := time.Now(); time.Since(t) < 30*time.Second; {
		select {
		case err := <-l.done:
			l.done <- err
			return fmt.Errorf("the server has returned (error %v) though nobody stopped it", err)
		default:
		}
		if dialable(l.addr) {
			return nil
		}
		time.Sleep(2 * time.Millisecond)
	}
	return errors.New("the server does not accept connections")
}

func (l *life) dial() (net.Conn, error) {
	c, err := net.DialTimeout("tcp", l.addr, 5*time.Second)
	if err == nil {
		l.conns = append(l.conns, c)
	}
	return c, err
}

const lifeBody = `{"sentence":"すもももももももものうち"}`

// request makes one request on a connection of its own, which stays open.
func (l *life) request(body string) ([]byte, error) {
	c, err := l.dial()
	if err != nil {
		return nil, err
	}
	fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(r.Body)
	if err == nil && r.StatusCode != 200 {
		err = fmt.Errorf("status %d", r.StatusCode)
	}
	return b, err
}

func (l *life) serves() error {
	b, err := l.request(lifeBody)
	if err != nil {
		return fmt.Errorf("a request is not answered while the server runs: %v", err)
	}
	if strings.Count(string(b), `"surface"`) != 7 {
		return fmt.Errorf("a request gets a wrong answer: %s", clip(string(b), 300))
	}
	return nil
}

// stopped waits for the end after a stop and judges it.
func (l *life) stopped() error {
	select {
	case err := <-l.done:
		if err != nil {
			return fmt.Errorf("stopped on request, the server returns the error %v", err)
		}
	case <-time.After(stopLimit):
		return fmt.Errorf("the server does not return within %v after it was stopped", stopLimit)
	}
	if l.open || dialable(l.addr) {
		return errors.New("the server has returned and still accepts connections")
	}
	return nil
}

func (l *life) close() {
	l.cancel()
	for _, c := range l.conns {
		c.Close()
	}
}

// lifeHist is a history of one address: a list of lives, each a sequence of events and a moment of cancellation.
type lifeHist struct {
	Lives []lifeOne `json:"lives"`
}
type lifeOne struct {
	Cancel string `json:"cancel"` // before, at once, ready, ready+Nms
	Events string `json:"events,omitempty"`
	DelayU int    `json:"delay_us,omitempty"`
}

// events:
//
//	r  a request is answered; the connection stays open, idle
//	c  a connection without a request
//	h  half a request
//	g  a request whose long answer nobody reads
//	a  a connection that is dropped in the middle of a request
//	b  another server is started on the same address: it must fail, and the first go on
func (h lifeHist) run() error {
	addr := lifeAddr()
	for n, o := range h.Lives {
		if err := o.run(addr); err != nil {
			return fmt.Errorf("life %d: %w", n, err)
		}
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return fmt.Errorf("life %d: after the end the address cannot be used: %v", n, err)
		}
		l.Close()
	}
	return nil
}

func (o lifeOne) run(addr string) error {
	l := startLife(addr, o.Cancel == "before")
	defer l.close()
	switch o.Cancel {
	case "before":
	case "at once":
		time.Sleep(time.Duration(o.DelayU) * time.Microsecond)
		l.cancel()
	default:
		if err := l.ready(); err != nil {
			return err
		}
		for _, e := range o.Events {
			switch e {
			case 'r':
				if err := l.serves(); err != nil {
					return err
				}
			case 'c':
				if _, err := l.dial(); err != nil {
					return fmt.Errorf("no connection: %v", err)
				}
			case 'h', 'a':
				c, err := l.dial()
				if err != nil {
					return fmt.Errorf("no connection: %v", err)
				}
				fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(lifeBody), lifeBody[:9])
				if e == 'a' {
					c.Close()
				}
			case 'g':
				c, err := l.dial()
				if err != nil {
					return fmt.Errorf("no connection: %v", err)
				}
				body := `{"sentence":"` + strings.Repeat("すもももももももものうち", 1500) + `"}`
				c.(*net.TCPConn).SetReadBuffer(4096)
				fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
			case 'b':
				m := startLife(addr, false)
				select {
				case err := <-m.done:
					if err == nil {
						return errors.New("a second server on the same address returns without error")
					}
				case <-time.After(stopLimit):
					m.cancel()
					return errors.New("a second server on the same address does not report an error")
				}
			}
		}
		select {
		case err := <-l.done:
			return fmt.Errorf("the server has returned (error %v) though nobody stopped it", err)
		default:
		}
		l.cancel()
	}
	return l.stopped()
}

type lifeErr struct {
	Args []string `json:"args"`
	Want string   `json:"want"` // error, serves
}

func (e lifeErr) run(dir string) error {
	var args []string
	for _, a := range e.Args {
		args = append(args, strings.ReplaceAll(a, "DIR", dir))
	}
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	go func() { done <- server.Run(ctx, args) }()
	select {
	case err := <-done:
		if err == nil {
			return fmt.Errorf("no error for %q", args)
		}
		return nil
	case <-time.After(30 * time.Second):
		cancel()
		<-done
		return fmt.Errorf("no error for %q, the server runs", args)
	}
}

func lifeFiles() string {
	dir := must(os.MkdirTemp("", "vh-life-"))
	w := func(n, s string) { os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644) }
	w("good.txt", "もももも,も も も も,ヨ ミ カ タ,カスタム名詞\n")
	w("bad1.txt", "一つ\n")
	w("bad2.txt", "朝青龍,朝青龍,アサショウリュウ,カスタム人名,余分\n")
	w("bad3.txt", "朝青龍,朝 青 龍,アサ ショウリュウ,カスタム人名\n")
	os.Mkdir(filepath.Join(dir, "folder"), 0o755)
	return dir
}

func runC19(c *Ctx) {
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	dir := lifeFiles()
	defer os.RemoveAll(dir)
	ok := func(group string, cs any, run func() error) {
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(1)
		if err := safe(run); err != nil {
			c.FailIfTwice(group, cs, err, run)
		}
	}
	c.Group("what cannot be used is reported")
	var es []lifeErr
	busy := must(net.Listen("tcp", lifeAddr()))
	defer busy.Close()
	for _, a := range []string{"127.0.0.1", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:x", ":70000", "[::1", "1:2:3", "198.51.100.7:6060", busy.Addr().String(), "127.0.0.1:6060:1", "]:1"} {
		es = append(es, lifeErr{Args: []string{"-http", a}}, lifeErr{Args: []string{"-http=" + a, "-userdict", "DIR/good.txt", "-dict", "ipa"}})
	}
	spellings := []string{"localhost:%s", "127.0.0.1:%s", ":%s", "0.0.0.0:%s", "[::]:%s", "[::1]:%s", "LOCALHOST:%s", "127.1.2.3:%s"}
	var taken []net.Listener
	for _, f := range spellings {
		// the port is taken on every address the spelling may stand for
		l, err := net.Listen("tcp", fmt.Sprintf(f, "0"))
		if err != nil {
			continue
		}
		taken = append(taken, l)
		_, port, _ := net.SplitHostPort(l.Addr().String())
		for _, h := range []string{"0.0.0.0:", "127.0.0.1:", "[::1]:", "[::]:"} {
			if l, err := net.Listen("tcp", h+port); err == nil {
				taken = append(taken, l)
			}
		}
		es = append(es, lifeErr{Args: []string{"-http", fmt.Sprintf(f, port)}}, lifeErr{Args: []string{"-dict=uni", "-http=" + fmt.Sprintf(f, port)}})
	}
	defer func() {
		for _, l := range taken {
			l.Close()
		}
	}()
	// the default address, :6060, which is taken by busy
	es = append(es, lifeErr{Args: []string{}}, lifeErr{Args: []string{"-dict", "ipa"}})
	for _, u := range []string{"DIR/none.txt", "DIR/folder", "DIR/bad1.txt", "DIR/bad2.txt", "DIR/bad3.txt", "DIR/good.txt/x"} {
		es = append(es, lifeErr{Args: []string{"-http", lifeAddr(), "-userdict", u}}, lifeErr{Args: []string{"-userdict", u, "-http", lifeAddr(), "-dict", "ipa"}})
	}
	for _, d := range []string{"x", "IPA", "ipa ", "uni2"} {
		es = append(es, lifeErr{Args: []string{"-http", lifeAddr(), "-dict", d}})
	}
	for _, x := range []string{"operand", "-bogus", "-http", "--", "-"} {
		if x == "--" {
			continue
		}
		es = append(es, lifeErr{Args: []string{"-http", lifeAddr(), x}})
	}
	parallel(c, len(es), func(_, i int) { ok("errors", es[i], func() error { return es[i].run(dir) }) })
	c.Sample("failure to start", 2, es[3])

	c.Group("served with a user dictionary and another system dictionary")
	for i, a := range [][]string{{"-userdict", filepath.Join(dir, "good.txt")}, {"-dict", "uni"}, {"-dict", "uni", "-userdict", filepath.Join(dir, "good.txt")}} {
		ok("served", a, func() error {
			l := startLife(lifeAddr(), false, a...)
			defer l.close()
			if err := l.ready(); err != nil {
				return err
			}
			b, err := l.request(lifeBody)
			if err != nil {
				return err
			}
			if i != 1 && !strings.Contains(string(b), "カスタム名詞") {
				return fmt.Errorf("the user dictionary is not used: %s", clip(string(b), 300))
			}
			if i > 0 && !strings.Contains(string(b), "代名詞") && !strings.Contains(string(b), "李") && !strings.Contains(string(b), "助詞") {
				return fmt.Errorf("the answer is %s", clip(string(b), 300))
			}
			l.cancel()
			return l.stopped()
		})
	}

	c.Group("every way to write the address")
	for _, f := range spellings {
		l, err := net.Listen("tcp", fmt.Sprintf(f, "0"))
		if err != nil {
			continue
		}
		_, port, _ := net.SplitHostPort(l.Addr().String())
		l.Close()
		a := fmt.Sprintf(f, port)
		ok("addresses", a, func() error {
			for i := 0; i < 2; i++ {
				l := startLife(a, false)
				defer l.close()
				if err := l.ready(); err != nil {
					return err
				}
				if b, err := l.request(lifeBody); err != nil || !strings.Contains(string(b), "すもも") {
					return fmt.Errorf("request: %v %s", err, clip(string(b), 300))
				}
				l.cancel()
				if err := l.stopped(); err != nil {
					return err
				}
			}
			return nil
		})
	}

	var hs []lifeHist
	alphabet := "rchgab"
	depth := 3
	if c.thorough {
		depth = 4
	}
	c.Group(fmt.Sprintf("all lives with <=%d of %d events, one or two after another on one address", depth, len(alphabet)))
	var words func(w string)
	words = func(w string) {
		hs = append(hs, lifeHist{[]lifeOne{{Cancel: "ready", Events: w}}})
		if len(w) <= 1 {
			for _, v := range append([]string{""}, strings.Split(alphabet, "")...) {
				hs = append(hs, lifeHist{[]lifeOne{{Cancel: "ready", Events: w}, {Cancel: "ready", Events: v}}})
			}
			for _, k := range []string{"before", "at once"} {
				hs = append(hs, lifeHist{[]lifeOne{{Cancel: k}, {Cancel: "ready", Events: w}, {Cancel: k}, {Cancel: "ready", Events: w + "r"}}})
			}
		}
		if len(w) < depth {
			for _, e := range alphabet {
				words(w + string(e))
			}
		}
	}
	words("")
	delays := 300
	if c.thorough {
		delays = 3000
	}
	for d := 0; d < delays; d++ {
		hs = append(hs, lifeHist{[]lifeOne{{Cancel: "at once", DelayU: d * 5}, {Cancel: "before"}, {Cancel: "at once", DelayU: d * 3}}})
	}
	var wg sync.WaitGroup
	var next atomic.Int64
	for w := 0; w < 100; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !c.Done() {
				i := int(next.Add(1)) - 1
				if i >= len(hs) {
					return
				}
				h := hs[i]
				c.transitions.Add(int64(len(h.Lives)))
				ok("histories", h, h.run)
			}
		}()
	}
	wg.Wait()
	c.Sample("history", 3, hs[40])
	c.Set("bounds", fmt.Sprintf("%d histories of one address, %d failures to start", len(hs), len(es)))

	c.Group("two servers at the same time")
	for i := 0; i < 4 && !c.Done(); i++ {
		ok("two servers", i, func() error {
			a, b := startLife(lifeAddr(), false), startLife(lifeAddr(), false)
			defer a.close()
			defer b.close()
			if err := errors.Join(a.ready(), b.ready()); err != nil {
				return err
			}
			if i&1 == 1 {
				a, b = b, a
			}
			if i&2 == 2 {
				if _, err := b.dial(); err != nil {
					return err
				}
			}
			a.cancel()
			if err := a.stopped(); err != nil {
				return err
			}
			if err := b.serves(); err != nil {
				return fmt.Errorf("after the other server has been stopped: %w", err)
			}
			b.cancel()
			return b.stopped()
		})
	}
	runPauses(c)
	runAfter(c)
	runSignals(c, dir)
}

// ---- goroutines of the server held at every statement ----

func buildLife(c *Ctx, dirs ...string) (bin string, sites int) {
	dir := must(os.MkdirTemp(filepath.Join(verifDir, ".build"), "life-"))
	opt := instrOpt{pause: &sites}
	ov, _, _, err := instrumentDirs(repoDir, dir, dirs, map[string]string{"zzvpause/pause.go": filepath.Join(verifDir, "harness", "vsync", "pause.go.txt")}, opt)
	if err != nil {
		c.Set("instrumentation_error", err.Error())
		os.RemoveAll(dir)
		return "", 0
	}
	bin = filepath.Join(dir, "vhl")
	cmd := exec.Command("go", "build", "-overlay", ov, "-tags", "life", "-o", bin, "life_run.go", "lifetypes.go")
	cmd.Dir = filepath.Join(verifDir, "harness")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the instrumented server does not build: %v\n%s\n", err, clip(string(b), 3000))
		c.Set("instrumentation_error", clip(string(b), 600))
		os.RemoveAll(dir)
		return "", 0
	}
	return bin, sites
}

func lifeWorker(bin string, w int, cases []lifeCase, sites int, limit time.Duration) (a lifeAnswer, text string, err error) {
	t := lifeTask{IP: fmt.Sprintf("127.%d.%d", 100+w, os.Getpid()%250), Cases: cases, LimitS: int(limit / time.Second), Sites: sites}
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(must(json.Marshal(t)))
	var o bytes.Buffer
	var e tail
	cmd.Stdout, cmd.Stderr = &o, &e
	err = runLimited(cmd, limit+2*time.Minute)
	text = string(e.b)
	if err == nil {
		err = json.Unmarshal(o.Bytes(), &a)
	}
	return
}

func runPauses(c *Ctx) {
	if c.Done() {
		return
	}
	bin, sites := buildLife(c, "cmd/server")
	if bin == "" {
		c.mu.Lock()
		c.exhaustive = false
		c.mu.Unlock()
		return
	}
	defer os.RemoveAll(filepath.Dir(bin))
	scens := []string{"before", "at once", "ready", "idle", "request", "signal", "occupied"}
	run := func(name string, cases []lifeCase, limit time.Duration) []int {
		if c.Done() {
			return nil
		}
		c.Group(name)
		n := workers()
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[int]bool{}
		for w := 0; w < n; w++ {
			var mine []lifeCase
			for i := w; i < len(cases); i += n {
				mine = append(mine, cases[i])
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				a, text, err := lifeWorker(bin, w, mine, sites, limit)
				if err != nil {
					if strings.Contains(text, "ikawaha/kagome/v2/cmd/server") {
						c.Fail(name, nil, fmt.Errorf("the process died: %s", clip(text, 3000)), nil)
						return
					}
					c.Set("pauses_not_run", clip(fmt.Sprint(err, text), 400))
					return
				}
				c.states.Add(a.Runs)
				c.transitions.Add(a.Runs + a.Hits)
				c.traces.Add(a.Runs)
				c.Add("lives_with_a_goroutine_held", a.Runs)
				c.Add("holds", a.Hits)
				if a.Capped {
					c.mu.Lock()
					c.exhaustive = false
					c.extra["capped: "+name] = true
					c.mu.Unlock()
				}
				mu.Lock()
				defer mu.Unlock()
				for _, s := range a.Reached {
					seen[s] = true
				}
				for i, k := range a.Failed {
					again := func() error {
						a, _, err := lifeWorker(bin, w, []lifeCase{k}, sites, 2*time.Minute)
						if err == nil && len(a.Failed) > 0 {
							return errors.New(a.Msgs[0])
						}
						return nil
					}
					c.FailIfTwice(name, k, errors.New(a.Msgs[i]), again)
					if c.Done() {
						return
					}
				}
			}()
		}
		wg.Wait()
		var r []int
		for i := 0; i < sites; i++ {
			if seen[i] {
				r = append(r, i)
			}
		}
		return r
	}
	// which statements does a life come by?
	var first []lifeCase
	for _, s := range scens {
		first = append(first, lifeCase{Scen: s})
	}
	reached := run("lives of the instrumented server", first, 60*time.Second)
	c.Set("statements_in_server", sites)
	c.Set("statements_reached", len(reached))
	var one, two []lifeCase
	for _, s := range reached {
		for _, sc := range scens {
			for _, at := range []bool{false, true} {
				if at && (sc == "before" || sc == "at once" || sc == "occupied") {
					continue
				}
				one = append(one, lifeCase{Sites: []int{s}, Scen: sc, AtPause: at})
			}
		}
	}
	for _, s := range reached {
		for _, u := range reached {
			if s < u {
				for _, sc := range scens {
					two = append(two, lifeCase{Sites: []int{s, u}, Scen: sc, AtPause: true})
				}
			}
		}
	}
	lim := 60 * time.Second
	if c.thorough {
		lim = 10 * time.Minute
	}
	run(fmt.Sprintf("a goroutine of the server held at each of %d statements, in %d situations", len(reached), len(scens)), one, lim)
	if len(one) > 0 {
		c.Sample("held goroutine", 2, one[len(one)/2])
	}
	if c.thorough {
		run("two goroutines held at every two statements", two, 60*time.Minute)
	}
}

// ---- signals, with the real program ----

type sigCase struct {
	Sig    int    `json:"signal"`
	Events string `json:"events"`
	Twice  bool   `json:"twice,omitempty"`
}

func (k sigCase) run(bin string) error {
	addr := lifeAddr()
	cmd := exec.Command(bin, "server", "-http", addr)
	var e tail
	cmd.Stderr = &e
	if err := cmd.Start(); err != nil {
		return nil
	}
	defer cmd.Process.Kill()
	l := &life{addr: addr, cancel: func() {}, done: make(chan error, 1)}
	go func() { l.done <- cmd.Wait() }()
	defer l.close()
	if err := l.ready(); err != nil {
		return err
	}
	for _, ev := range k.Events {
		switch ev {
		case 'r':
			if err := l.serves(); err != nil {
				return err
			}
		case 'c':
			l.dial()
		case 'h':
			if c, err := l.dial(); err == nil {
				fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(lifeBody), lifeBody[:9])
			}
		}
	}
	cmd.Process.Signal(syscall.Signal(k.Sig))
	if k.Twice {
		time.Sleep(20 * time.Millisecond)
		cmd.Process.Signal(syscall.Signal(k.Sig))
	}
	select {
	case err := <-l.done:
		if err != nil {
			return fmt.Errorf("after signal %v the program ends with %v", syscall.Signal(k.Sig), err)
		}
	case <-time.After(stopLimit):
		return fmt.Errorf("after signal %v the program does not end within %v", syscall.Signal(k.Sig), stopLimit)
	}
	if dialable(addr) {
		return errors.New("the program has ended and the address still accepts connections")
	}
	return nil
}

func runSignals(c *Ctx, dir string) {
	if c.Done() {
		return
	}
	c.Group("signals to the real program")
	bin := goBuild(dir)
	var ks []sigCase
	for _, s := range []syscall.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM} {
		for _, e := range []string{"", "r", "c", "h", "rr", "rch"} {
			for _, t := range []bool{false, true} {
				ks = append(ks, sigCase{int(s), e, t})
			}
		}
	}
	parallel(c, len(ks), func(_, i int) {
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(1)
		if err := ks[i].run(bin); err != nil {
			c.FailIfTwice("signals", ks[i], err, func() error { return ks[i].run(bin) })
		}
	})
	c.Sample("signal", 2, ks[3])
}

func replayC19(c *Ctx, d Doc) error {
	dir := lifeFiles()
	defer os.RemoveAll(dir)
	switch d.Group {
	case "histories":
		var h lifeHist
		if err := json.Unmarshal(d.Case, &h); err != nil {
			return err
		}
		return h.run()
	case "errors":
		var e lifeErr
		if err := json.Unmarshal(d.Case, &e); err != nil {
			return err
		}
		return e.run(dir)
	case "signals":
		var k sigCase
		if err := json.Unmarshal(d.Case, &k); err != nil {
			return err
		}
		return k.run(goBuild(dir))
	case "after":
		var k afterCase
		if err := json.Unmarshal(d.Case, &k); err != nil {
			return err
		}
		return k.run()
	}
	runC19(c)
	if len(c.violations) > 0 {
		return errors.New(c.violations[0].msg)
	}
	return nil
}

func init() { register("C19", "model_checking", runC19, replayC19) }
