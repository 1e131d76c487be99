package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	latcmd "github.com/ikawaha/kagome/v2/cmd/lattice"
	sencmd "github.com/ikawaha/kagome/v2/cmd/sentence"
	tokcmd "github.com/ikawaha/kagome/v2/cmd/tokenize"
)

// outFault says how standard output fails.
type outFault struct {
	Kind string `json:"kind"` // none, bytes (full after N bytes), call (call N fails), from (every call from N on), late (call N takes everything and fails)
	N    int    `json:"n"`
}

// outCase is a run of a command with failing output, or one that is fed line by line.
type outCase struct {
	Args   []string `json:"args"`
	Input  B        `json:"input"`
	Fault  outFault `json:"fault"`
	Via    string   `json:"via,omitempty"` // process level: devfull, pipe N, outfull, readonly
	Lines  []B      `json:"lines,omitempty"`
	Cut    int      `json:"cut,omitempty"`
	Binary bool     `json:"binary,omitempty"`
}

func (k outCase) String() string {
	if k.Lines != nil {
		return fmt.Sprintf("%q fed line by line with %q (cut %d)", k.Args, k.Lines, k.Cut)
	}
	return fmt.Sprintf("%q on %q with output failing: %v %s", k.Args, clip(string(k.Input), 100), k.Fault, k.Via)
}

var errSink = errors.New("no space left on device (injected)")

// faultSink is the output.
type faultSink struct {
	mu       sync.Mutex
	cond     *sync.Cond
	f        outFault
	buf      bytes.Buffer
	calls    int
	rejected bool
}

func newFaultSink(f outFault) *faultSink {
	s := &faultSink{f: f}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *faultSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	defer s.cond.Broadcast()
	if len(p) == 0 {
		return 0, nil
	}
	c := s.calls
	s.calls++
	switch {
	case s.f.Kind == "bytes" && s.buf.Len()+len(p) > s.f.N:
		n := s.f.N - s.buf.Len()
		s.buf.Write(p[:n])
		s.rejected = true
		return n, errSink
	case s.f.Kind == "call" && c == s.f.N, s.f.Kind == "from" && c >= s.f.N:
		s.rejected = true
		return 0, errSink
	case s.f.Kind == "late" && c == s.f.N:
		s.buf.Write(p)
		s.rejected = true
		return len(p), errSink
	}
	s.buf.Write(p)
	return len(p), nil
}

// waitFor waits until the output is exactly want.
func (s *faultSink) waitFor(want string, limit time.Duration) error {
	t := time.AfterFunc(limit, func() { s.mu.Lock(); s.f.N = -1; s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.buf.String() != want {
		if s.f.N == -1 {
			return fmt.Errorf("the output so far is %q, not %q", clip(s.buf.String(), 200), clip(want, 200))
		}
		s.cond.Wait()
	}
	return nil
}

func runCmd(args []string, out io.Writer) error {
	ctx := context.Background()
	switch args[0] {
	case "sentence":
		sencmd.Stdout, sencmd.Stderr = out, io.Discard
		return sencmd.Run(ctx, args[1:])
	case "lattice":
		latcmd.Stdout, latcmd.Stderr = out, io.Discard
		return latcmd.Run(ctx, args[1:])
	}
	tokcmd.Stdout, tokcmd.Stderr = out, io.Discard
	return tokcmd.Run(ctx, args[1:])
}

type outEnv struct {
	*cliEnv
	full     map[string]string
	findings []*outFinding
}

// inFile runs a command in this process on a file.
func (e *outEnv) inFile(k *outCase, f outFault) (*faultSink, error) {
	p := e.path("out-in.txt")
	os.WriteFile(p, []byte(k.Input), 0o644)
	in := must(os.Open(p))
	defer in.Close()
	os.Stdin = in
	defer func() { os.Stdin = e.stdin }()
	s := newFaultSink(f)
	err := runCmd(k.Args, s)
	return s, err
}

// complete is the output when nothing fails.
func (e *outEnv) complete(k *outCase) (string, int, error) {
	s, err := e.inFile(k, outFault{Kind: "none"})
	if err != nil {
		return "", 0, fmt.Errorf("%q on %q fails although its output is fine: %v", k.Args, clip(string(k.Input), 100), err)
	}
	return s.buf.String(), s.calls, nil
}

func (e *outEnv) run(k *outCase) error {
	switch {
	case k.Lines != nil && k.Binary:
		return e.interactiveProcess(k)
	case k.Lines != nil:
		return e.interactive(k)
	case k.Via != "":
		return e.process(k)
	}
	s, err := e.inFile(k, k.Fault)
	if s.rejected && err == nil {
		if !e.known(k) {
			return fmt.Errorf("success is reported although output was refused (after %d bytes)", s.buf.Len())
		}
		if k.Fault.Kind == "late" {
			return nil
		}
	}
	if !s.rejected && err != nil {
		return fmt.Errorf("error %v although all output was taken", err)
	}
	if k.Args[0] == "lattice" || k.Fault.Kind == "call" {
		return nil // node names differ from run to run
	}
	key := fmt.Sprint(k.Args, "\x00", k.Input)
	full, ok := e.full[key]
	if !ok {
		if full, _, err = e.complete(k); err != nil {
			return err
		}
		e.full[key] = full
	}
	if got := s.buf.String(); !strings.HasPrefix(full, got) {
		return fmt.Errorf("the output %q is not the beginning of the complete output %q", clip(got, 200), clip(full, 200))
	}
	return nil
}

// pieces cuts a line for writing.
func (k *outCase) pieces(l B) []string {
	s := string(l) + "\n"
	switch k.Cut {
	case 1:
		return []string{string(l), "\n"}
	case 2:
		return []string{s[:len(s)/2], s[len(s)/2:]}
	}
	return []string{s}
}

func (e *outEnv) wants(k *outCase) ([]string, error) {
	var ret []string
	in := ""
	for _, l := range k.Lines {
		in += string(l) + "\n"
		x := outCase{Args: k.Args, Input: B(in)}
		w, _, err := e.complete(&x)
		if err != nil {
			return nil, err
		}
		ret = append(ret, w)
	}
	return ret, nil
}

const promptLimit = 20 * time.Second

// interactive feeds a command line by line and expects the records of each line before the next one is sent.
func (e *outEnv) interactive(k *outCase) error {
	wants, err := e.wants(k)
	if err != nil {
		return err
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	defer r.Close()
	os.Stdin = r
	defer func() { os.Stdin = e.stdin }()
	s := newFaultSink(outFault{Kind: "none"})
	done := make(chan error, 1)
	go func() { done <- runCmd(k.Args, s) }()
	var res error
	for i, l := range k.Lines {
		for _, p := range k.pieces(l) {
			w.WriteString(p)
		}
		if res = s.waitFor(wants[i], promptLimit); res != nil {
			res = fmt.Errorf("after line %d: %w", i+1, res)
			break
		}
	}
	w.Close()
	select {
	case err := <-done:
		if res == nil && err != nil {
			res = fmt.Errorf("error %v", err)
		}
	case <-time.After(promptLimit):
		res = errors.Join(res, fmt.Errorf("the command does not end with its input"))
	}
	return res
}

func (e *outEnv) interactiveProcess(k *outCase) error {
	wants, err := e.wants(k)
	if err != nil {
		return err
	}
	cmd := exec.Command(e.program(), k.Args...)
	w := must(cmd.StdinPipe())
	s := newFaultSink(outFault{Kind: "none"})
	cmd.Stdout = s
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	defer cmd.Process.Kill()
	for i, l := range k.Lines {
		for _, p := range k.pieces(l) {
			io.WriteString(w, p)
		}
		if err := s.waitFor(wants[i], promptLimit); err != nil {
			return fmt.Errorf("after line %d: %w", i+1, err)
		}
	}
	w.Close()
	return cmd.Wait()
}

func (e *outEnv) program() string {
	if e.bin == "" {
		e.bin = goBuild(e.dir)
	}
	return e.bin
}

// process runs the program with an output of the operating system that fails.
func (e *outEnv) process(k *outCase) error {
	args := append([]string{}, k.Args...)
	var kind string
	var n int
	fmt.Sscan(k.Via, &kind, &n)
	cmd := exec.Command(e.program())
	cmd.Stdin = strings.NewReader(string(k.Input))
	var wait func()
	switch kind {
	case "devfull":
		f := must(os.OpenFile("/dev/full", os.O_WRONLY, 0))
		defer f.Close()
		cmd.Stdout = f
	case "readonly":
		f := must(os.Open(os.DevNull))
		defer f.Close()
		cmd.Stdout = f
	case "outfull":
		args = append([]string{args[0], "-output", "/dev/full"}, args[1:]...)
	case "pipe":
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.Stdout = w
		done := make(chan bool)
		go func() {
			io.CopyN(io.Discard, r, int64(n))
			r.Close()
			close(done)
		}()
		wait = func() { w.Close(); <-done }
	}
	cmd.Args = append(cmd.Args, args...)
	var er bytes.Buffer
	cmd.Stderr = &er
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if wait != nil {
		wait()
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return fmt.Errorf("the program hangs")
	}
	if err == nil && !(kind != "pipe" && e.known(k)) {
		return fmt.Errorf("the program exits with status 0")
	}
	return nil
}

// site names the place in the code that writes the output of a case.
func (k *outCase) site() string {
	switch {
	case len(k.Args) > 0 && (k.Args[0] == "sentence" || k.Args[0] == "lattice"):
		return k.Args[0]
	case slices.Contains(k.Args, "-json"):
		return "tokenize-json"
	}
	return "tokenize-text"
}

// known tells whether lost output of this case is listed as a known finding, and counts it.
func (e *outEnv) known(k *outCase) bool {
	for _, f := range e.findings {
		if f.site == k.site() {
			f.seen.Add(1)
			return true
		}
	}
	return false
}

type outFinding struct {
	site, text string
	seen       atomic.Int64
}

// outFindings reads the entries "known: property=C20 site=NAME TEXT".
func outFindings() (ret []*outFinding) {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if r, ok := strings.CutPrefix(l, "known: property=C20 site="); ok {
			site, text, _ := strings.Cut(r, " ")
			ret = append(ret, &outFinding{site: site, text: text})
		}
	}
	return ret
}

func (e *outEnv) one(group string, k outCase) {
	if e.c.Done() {
		return
	}
	e.c.states.Add(1)
	e.c.traces.Add(1)
	e.c.transitions.Add(1 + int64(len(k.Lines)))
	e.c.Enter(0, group, "", func() any { return k })
	err := safe(func() error { return e.run(&k) })
	e.c.Leave(0)
	if err != nil {
		e.c.FailIfRepeatable(group, k, fmt.Errorf("%v: %w", k, err), func() error { return e.run(&k) })
		return
	}
	e.c.Sample(group, 1, k)
}

func runC20(c *Ctx) {
	th := c.thorough
	e := &outEnv{cliEnv: newCliEnv(c), full: map[string]string{}, findings: outFindings()}
	defer e.close()
	texts := []string{"", "\n", "東京", "東京\na漢b\n\nすもも", "関西。国際！」\n\n空港 x", "\xff\xe3\n<&\">\n"}
	if th {
		texts = append(texts, strings.Repeat("すもももももももものうち。\n", 20), bocchanPart(2000))
	}
	var cmds [][]string
	for _, m := range []string{"normal", "search", "extended"} {
		for x := 0; x < 4; x++ {
			a := []string{"tokenize", "-mode", m}
			if x&1 > 0 {
				a = append(a, "-json")
			}
			if x&2 > 0 {
				a = append(a, "-split")
			}
			cmds = append(cmds, a)
		}
	}
	cmds = append(cmds, []string{"sentence"}, []string{"tokenize"}, []string{"tokenize", "-simple", "-udict", e.path("u.txt")}, []string{"tokenize", "-sysdict", "uni", "-json"})
	faults := func(group string, k outCase) {
		full, calls, err := e.complete(&k)
		if err != nil {
			c.Fail(group, k, err, func() error { _, _, err := e.complete(&k); return err })
			return
		}
		for n := 0; n <= len(full); n++ {
			if n > 20000 && n%101 != 0 && n != len(full) {
				continue
			}
			k.Fault = outFault{"bytes", n}
			e.one(group, k)
		}
		for n := 0; n <= calls; n++ {
			for _, kind := range []string{"call", "from", "late"} {
				k.Fault = outFault{kind, n}
				e.one(group, k)
			}
		}
	}
	c.Group(fmt.Sprintf("%d option sets x %d inputs: output failing at every byte and in every call", len(cmds), len(texts)))
	for _, a := range cmds {
		for _, t := range texts {
			faults("faults", outCase{Args: a, Input: B(t)})
		}
	}
	long := bocchanPart(3000)
	c.Group("long output failing")
	for _, a := range cmds {
		k := outCase{Args: a, Input: B(long)}
		full, calls, err := e.complete(&k)
		if err != nil {
			c.Fail("long", k, err, func() error { _, _, err := e.complete(&k); return err })
			continue
		}
		step := 977
		if th {
			step = 61
		}
		var at []int
		for n := 0; n < len(full); n += step {
			at = append(at, n)
		}
		for b := 1024; b < len(full); b += 1024 {
			at = append(at, b-1, b, b+1)
		}
		at = append(at, len(full)-1, len(full))
		if len(full) < 1 {
			at = nil
		}
		for i, n := range at {
			if !th && len(at) > 100 && i%(len(at)/100+1) != 0 && i < len(at)-2 {
				continue
			}
			k.Fault = outFault{"bytes", n}
			e.one("long", k)
		}
		for _, n := range []int{0, 1, calls / 2, calls - 1} {
			for _, kind := range []string{"call", "from", "late"} {
				k.Fault = outFault{kind, n}
				e.one("long", k)
			}
		}
	}
	c.Group("the lattice command: output failing at every byte and in every call")
	sens := []string{"a", "東京", "x\"y", "\xff"}
	if th {
		sens = append(sens, "関西国際空港", "すもももももももものうち", "")
	}
	for _, m := range []string{"normal", "search", "extended"} {
		for _, s := range sens {
			faults("lattice", outCase{Args: []string{"lattice", "-mode", m, s}})
			faults("lattice", outCase{Args: []string{"lattice", "-v", "-udict", e.path("u.txt"), "-mode", m, s}})
		}
	}
	lines := []B{"東京", "", "a漢b", " ", "\xff", "すもももももももものうち", B(strings.Repeat("関西国際空港abc", 150))}
	modes := [][]string{{"tokenize"}, {"tokenize", "-json"}, {"tokenize", "-mode", "search"}, {"tokenize", "-mode", "extended", "-json"}, {"tokenize", "-udict", e.path("u.txt"), "-simple"}}
	d := 2
	if th {
		d = 4
	}
	c.Group(fmt.Sprintf("fed line by line: all sequences of <=%d of %d lines x 3 ways to send a line x %d option sets", d, len(lines), len(modes)))
	var seqs func(n int, cur []B)
	seqs = func(n int, cur []B) {
		if len(cur) > 0 {
			for _, a := range modes {
				for cut := 0; cut < 3; cut++ {
					e.one("line by line", outCase{Args: a, Lines: append([]B{}, cur...), Cut: cut})
				}
			}
		}
		if n > 0 {
			for _, l := range lines {
				seqs(n-1, append(cur[:len(cur):len(cur)], l))
			}
		}
	}
	seqs(d, nil)
	for _, a := range modes {
		e.one("line by line", outCase{Args: a, Lines: concatB(lines, lines, lines), Cut: 2})
	}
	c.Group("the program")
	e.program()
	var ps []outCase
	big := bocchanPart(40000)
	sen := strings.ReplaceAll(bocchanPart(6000), "\n", "")
	for _, a := range [][]string{{"tokenize"}, {}, {"tokenize", "-json"}, {"-split", "-mode", "search"}, {"sentence"}} {
		for _, v := range []string{"devfull", "readonly"} {
			for _, t := range []string{"東京", long, "東京\n\nあ。い"} {
				ps = append(ps, outCase{Args: a, Input: B(t), Via: v})
			}
		}
		t := big
		if len(a) == 1 {
			t = strings.Repeat(big, 4)
		}
		for _, n := range []int{0, 1, 4096, 30000} {
			ps = append(ps, outCase{Args: a, Input: B(t), Via: fmt.Sprint("pipe ", n)})
		}
	}
	for _, s := range []string{"東京", sen} {
		for _, v := range []string{"devfull", "readonly", "outfull"} {
			ps = append(ps, outCase{Args: []string{"lattice", s}, Via: v})
			ps = append(ps, outCase{Args: []string{"lattice", "-v", "-mode", "search", s}, Via: v})
		}
	}
	for _, n := range []int{1, 4096, 30000} {
		ps = append(ps, outCase{Args: []string{"lattice", sen}, Via: fmt.Sprint("pipe ", n)})
	}
	for _, a := range [][]string{{}, {"tokenize", "-json"}, {"-mode", "extended"}} {
		args := a
		if len(a) == 0 || a[0] != "tokenize" {
			args = append([]string{"tokenize"}, a...)
		}
		e.one("program", outCase{Args: args, Lines: lines, Binary: true, Cut: 1})
	}
	parallel(c, len(ps), func(w, i int) {
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(1 + int64(len(ps[i].Lines)))
		if err := safe(func() error { return e.run(&ps[i]) }); err != nil {
			c.FailIfRepeatable("program", ps[i], fmt.Errorf("%v: %w", ps[i], err), func() error { return e.run(&ps[i]) })
		}
	})
	c.Sample("program", 1, ps[0])
	for _, f := range e.findings {
		if f.seen.Load() > 0 {
			fmt.Printf("KNOWN-FINDING: property=C20 %s: %s\n", f.site, f.text)
			c.Set("known_finding "+f.site, fmt.Sprintf("%d cases: %s", f.seen.Load(), f.text))
		}
	}
	c.Set("bounds", fmt.Sprintf("output refused at every byte and in every write call for %d option sets x %d inputs and 6 x %d lattice runs; line-by-line feeding of all sequences of <=%d of %d lines", len(cmds), len(texts), len(sens), d, len(lines)))
}

func concatB(a ...[]B) []B {
	var r []B
	for _, v := range a {
		r = append(r, v...)
	}
	return r
}

// bocchanPart is a piece of running text of n characters, in lines.
func bocchanPart(n int) string {
	t := bocchan()
	o, _ := decode(t)
	return t[:o[min(n, len(o)-1)]]
}

func replayC20(c *Ctx, d Doc) error {
	var k outCase
	if err := json.Unmarshal(d.Case, &k); err != nil {
		return err
	}
	e := &outEnv{cliEnv: newCliEnv(c), full: map[string]string{}, findings: outFindings()}
	defer e.close()
	for i, a := range k.Args { // the user dictionary lies in a scratch directory
		if strings.HasSuffix(a, "/u.txt") {
			k.Args[i] = e.path("u.txt")
		}
	}
	return e.run(&k)
}

func init() { register("C20", "model_checking", runC20, replayC20) }
