package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	latcmd "github.com/ikawaha/kagome/v2/cmd/lattice"
	sencmd "github.com/ikawaha/kagome/v2/cmd/sentence"
	"github.com/ikawaha/kagome/v2/cmd/server"
	tokcmd "github.com/ikawaha/kagome/v2/cmd/tokenize"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// cliCase is one run of a command that reads text.
type cliCase struct {
	Cmd     string `json:"cmd"` // tokenize or sentence
	Input   B      `json:"input"`
	Mode    string `json:"mode,omitempty"`
	JSON    bool   `json:"json,omitempty"`
	Split   bool   `json:"split,omitempty"`
	Simple  bool   `json:"simple,omitempty"`
	User    bool   `json:"user,omitempty"`
	Sys     string `json:"sys,omitempty"`
	Dict    string `json:"dict,omitempty"`
	Via     string `json:"via"`              // file, stdin, pipe (in pieces), pipeerr (a read error at the end)
	Pieces  int    `json:"pieces,omitempty"` // size of the pieces
	Process bool   `json:"process,omitempty"`
	Exec    string `json:"exec,omitempty"` // name the command explicitly or not
}

func (k cliCase) String() string {
	s := k.Cmd
	if k.Mode != "" {
		s += " -mode " + k.Mode
	}
	for n, b := range map[string]bool{"-json": k.JSON, "-split": k.Split, "-simple": k.Simple, "-udict": k.User} {
		if b {
			s += " " + n
		}
	}
	return s + fmt.Sprintf(" via %s %d on %q", k.Via, k.Pieces, clip(string(k.Input), 120))
}

type cliEnv struct {
	c     *Ctx
	dir   string
	toks  map[string]*tokenizer.Tokenizer
	bin   string
	stdin *os.File
}

const cliUser = "東京,東 京,トウ キョウ,カスタム名詞\na漢,a 漢,エー カン,カスタム\n"

func newCliEnv(c *Ctx) *cliEnv {
	e := &cliEnv{c: c, toks: map[string]*tokenizer.Tokenizer{}, stdin: os.Stdin}
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "vh-cli")
	if err != nil {
		d = must(os.MkdirTemp("", "vh-cli"))
	}
	e.dir = d
	os.WriteFile(e.path("u.txt"), []byte(cliUser), 0o644)
	return e
}

func (e *cliEnv) path(n string) string { return filepath.Join(e.dir, n) }

func (e *cliEnv) close() {
	os.Stdin = e.stdin
	os.RemoveAll(e.dir)
}

// tok is the tokenizer a command is to use. Within one process the dictionary package keeps a single copy of each
// built-in dictionary, with contents if it was first asked for with contents, as here; -simple only makes a
// difference to them in a process of its own.
func (e *cliEnv) tok(k *cliCase) *tokenizer.Tokenizer {
	key := fmt.Sprint(k.User, k.Simple, k.Sys, k.Dict, k.Process)
	if t := e.toks[key]; t != nil {
		return t
	}
	opt := tokenizer.Nop()
	if k.User {
		opt = tokenizer.UserDict(must(dict.NewUserDict(e.path("u.txt"))))
	}
	d := ipaDict()
	if k.Sys == "uni" {
		d = uniDict()
	}
	if k.Simple && (k.Process || k.Dict != "") {
		d = shrunk(d)
	}
	t := mustRepo(tokenizer.New(d, opt))
	e.toks[key] = t
	return t
}

// goBuild builds the program from /repo's working tree.
func goBuild(dir string) string {
	out := filepath.Join(dir, "kagome")
	cmd := exec.Command("go", "build", "-o", out, ".")
	cmd.Dir = repoDir
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the program does not build: %v\n%s", err, b)
		os.Exit(3)
	}
	return out
}

const repoDir = "/repo"

func (e *cliEnv) args(k *cliCase) []string {
	var a []string
	if k.Cmd == "tokenize" {
		if k.Mode != "" {
			a = append(a, "-mode", k.Mode)
		}
		if k.JSON {
			a = append(a, "-json")
		}
		if k.Split {
			a = append(a, "-split")
		}
		if k.Simple {
			a = append(a, "-simple")
		}
		if k.User {
			a = append(a, "-udict", e.path("u.txt"))
		}
		if k.Sys != "" {
			a = append(a, "-sysdict", k.Sys)
		}
		if k.Dict != "" {
			a = append(a, "-dict", k.Dict)
		}
	}
	if k.Via == "file" {
		a = append(a, "-file", e.path("in.txt"))
	}
	return a
}

// feed prepares standard input.
func (e *cliEnv) feed(k *cliCase) (*os.File, func()) {
	in := string(k.Input)
	switch k.Via {
	case "file":
		os.WriteFile(e.path("in.txt"), []byte(in), 0o644)
		f := must(os.Open(os.DevNull))
		return f, func() { f.Close() }
	case "stdin":
		os.WriteFile(e.path("stdin.txt"), []byte(in), 0o644)
		f := must(os.Open(e.path("stdin.txt")))
		return f, func() { f.Close() }
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		for len(in) > 0 {
			n := len(in)
			if k.Pieces > 0 && k.Pieces < n {
				n = k.Pieces
			}
			if _, err := io.WriteString(w, in[:n]); err != nil {
				break
			}
			in = in[n:]
			if k.Pieces > 0 || k.Via == "pipeerr" {
				drained(r)
			}
		}
		if k.Via == "pipeerr" {
			drained(r)
			r.SetReadDeadline(time.Now().Add(-time.Second))
			return
		}
		w.Close()
	}()
	return r, func() { r.Close(); <-done; w.Close() }
}

// drained waits until the pipe is empty.
func drained(r *os.File) {
	rc, err := r.SyscallConn()
	if err != nil {
		return
	}
	for i := 0; i < 200000; i++ {
		n := 0
		var e syscall.Errno
		err := rc.Control(func(fd uintptr) {
			_, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n)))
		})
		if err != nil || e != 0 || int32(n) == 0 {
			return
		}
		if i > 100 {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

func textRecord(ts []tokenizer.Token) string {
	var b strings.Builder
	for _, t := range ts {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		b.WriteString(t.Surface)
		if t.Class != tokenizer.DUMMY {
			b.WriteString("\t" + strings.Join(t.Features(), ","))
		}
		b.WriteString("\n")
	}
	return b.String() + "EOS\n"
}

// units are the lines (or sentences) of an input; long[i] says that unit i does not fit into 64 KB.
func (k *cliCase) units() (us []string, firstLong int, partial bool) {
	in := string(k.Input)
	firstLong = -1
	if k.Split || k.Cmd == "sentence" {
		us = refSplit(defaultSplit, in)
		// a sentence has at most 128 characters and its followers; only white space makes it long
		if longestSpan(defaultSplit, in) > 60000 {
			firstLong = -2
		}
		return us, firstLong, false
	}
	for len(in) > 0 {
		i := strings.IndexByte(in, '\n')
		l := in
		if i >= 0 {
			l, in = in[:i], in[i+1:]
		} else {
			in = ""
			partial = true
		}
		n := len(l)
		if i >= 0 {
			n++
		}
		if n >= 65536 && firstLong < 0 {
			firstLong = len(us)
		}
		us = append(us, strings.TrimSuffix(l, "\r"))
	}
	return us, firstLong, partial
}

// judgeOutput compares the output with the records of the units.
func (e *cliEnv) judgeOutput(k *cliCase, out string, err error) error {
	us, long, partial := k.units()
	var recs []string
	match := func(n int) (bool, string) { // the output is exactly the first n records
		rest := out
		if k.Cmd == "tokenize" && k.JSON {
			dec := json.NewDecoder(strings.NewReader(rest))
			for i := 0; i < n; i++ {
				var l []json.RawMessage
				if er := dec.Decode(&l); er != nil || l == nil {
					return false, fmt.Sprintf("record %d: not a JSON list: %v", i, er)
				}
				var want []tokenizer.Token
				for _, t := range e.tok(k).Analyze(us[i], mode(k.Mode)) {
					if t.ID != tokenizer.BosEosID {
						want = append(want, t)
					}
				}
				if len(l) != len(want) {
					return false, fmt.Sprintf("record %d (%q): %d tokens, want %d", i, clip(us[i], 60), len(l), len(want))
				}
				for j := range l {
					if er := jsonIsToken(l[j], tokenizer.NewTokenData(want[j])); er != nil {
						return false, fmt.Sprintf("record %d token %d: %v", i, j, er)
					}
				}
			}
			if _, er := dec.Token(); er != io.EOF {
				return false, fmt.Sprintf("more output after %d records", n)
			}
			return true, ""
		}
		for i := 0; i < n; i++ {
			if i >= len(recs) {
				r := us[i] + "\n"
				if k.Cmd == "tokenize" {
					r = textRecord(e.tok(k).Analyze(us[i], mode(k.Mode)))
				}
				recs = append(recs, r)
			}
			if !strings.HasPrefix(rest, recs[i]) {
				return false, fmt.Sprintf("record %d is %q, want %q", i, clip(rest, 200), clip(recs[i], 200))
			}
			rest = rest[len(recs[i]):]
		}
		if rest != "" {
			return false, fmt.Sprintf("more output after %d records: %q", n, clip(rest, 200))
		}
		return true, ""
	}
	if err == nil {
		if k.Via == "pipeerr" {
			return errors.New("a read error is not reported")
		}
		if ok, why := match(len(us)); !ok {
			return fmt.Errorf("success is reported, but %s", why)
		}
		return nil
	}
	switch {
	case k.Via == "pipeerr":
		n := len(us)
		if k.Split || k.Cmd == "sentence" {
			for d := 0; d <= 1; d++ {
				if ok, _ := match(max(0, n-d)); ok {
					return nil
				}
			}
		} else {
			if ok, _ := match(n); ok {
				return nil
			}
			if partial {
				if ok, _ := match(n - 1); ok {
					return nil
				}
			}
		}
		_, why := match(n)
		return fmt.Errorf("a read error is reported, but the output before it is not complete: %s", why)
	case long >= 0:
		if ok, why := match(long); !ok {
			return fmt.Errorf("an over-long line is reported, but the output before it is wrong: %s", why)
		}
		return nil
	case long == -2:
		for n := len(us); n >= 0; n-- {
			if ok, _ := match(n); ok {
				return nil
			}
		}
		return errors.New("the output before an over-long sentence is not a sequence of records")
	}
	return fmt.Errorf("unexpected error: %v", err)
}

func mode(s string) tokenizer.TokenizeMode {
	switch s {
	case "search":
		return tokenizer.Search
	case "extended":
		return tokenizer.Extended
	}
	return tokenizer.Normal
}

func (e *cliEnv) run(k *cliCase) error {
	in, done := e.feed(k)
	defer done()
	args := e.args(k)
	if k.Process {
		if e.bin == "" {
			e.bin = goBuild(e.dir)
		}
		if k.Exec != "default" {
			args = append([]string{k.Cmd}, args...)
		}
		var out, er bytes.Buffer
		cmd := exec.Command(e.bin, args...)
		cmd.Stdin, cmd.Stdout, cmd.Stderr = in, &out, &er
		err := cmd.Run()
		if err != nil && er.Len() == 0 {
			return fmt.Errorf("%v without a message", err)
		}
		return e.judgeOutput(k, out.String(), err)
	}
	var out bytes.Buffer
	os.Stdin = in
	defer func() { os.Stdin = e.stdin }()
	var err error
	if k.Cmd == "sentence" {
		sencmd.Stdout, sencmd.Stderr = &out, io.Discard
		err = sencmd.Run(context.Background(), args)
	} else {
		tokcmd.Stdout, tokcmd.Stderr = &out, io.Discard
		err = tokcmd.Run(context.Background(), args)
	}
	return e.judgeOutput(k, out.String(), err)
}

func (e *cliEnv) one(group string, k cliCase) {
	if e.c.Done() {
		return
	}
	e.c.states.Add(1)
	e.c.traces.Add(1)
	e.c.transitions.Add(1 + int64(strings.Count(string(k.Input), "\n")))
	e.c.Enter(0, group, "", func() any { return k })
	err := safe(func() error { return e.run(&k) })
	e.c.Leave(0)
	if err != nil {
		e.c.FailIfRepeatable(group, k, fmt.Errorf("%v: %w", k, err), func() error { return e.run(&k) })
		return
	}
	e.c.Sample(group, 1, k)
}

// variants are the combinations of options.
func cliVariants() []cliCase {
	var ks []cliCase
	for _, m := range []string{"normal", "search", "extended"} {
		for x := 0; x < 16; x++ {
			ks = append(ks, cliCase{Cmd: "tokenize", Mode: m, JSON: x&1 > 0, Split: x&2 > 0, User: x&4 > 0, Simple: x&8 > 0})
		}
	}
	return append(ks, cliCase{Cmd: "sentence"})
}

func runC16(c *Ctx) {
	th := c.thorough
	e := newCliEnv(c)
	defer e.close()
	vs := cliVariants()
	basic := []cliCase{}
	for _, v := range vs {
		if !v.User && !v.Simple {
			basic = append(basic, v)
		}
	}
	alpha := []string{"あ", "b", "。", "\n", "\r", " ", "\xff", "」"}
	n := 4
	if th {
		n = 5
	}
	ins := upto(alpha, n)
	c.Group(fmt.Sprintf("all files of <=%d of %d symbols x %d option sets", n, len(alpha), len(basic)))
	for i, in := range ins {
		for j, v := range basic {
			if !th && len(in) > 0 && i > 600 && j < 12 && (i+j)%4 != 0 {
				continue
			}
			v.Input, v.Via = B(in), "file"
			e.one("files", v)
		}
	}
	c.Group("all option sets x all ways to read")
	texts := []string{"", "\n", "\n\n", "東京都a漢字。a漢だ\r\nすもももももももものうち", "関西国際空港に行く。デジカメを買った！」そうだ\n\n二行目abc\xff\xe3\n", "a\tb,c\"d\\<e>&\n\u2028EOS\n[]\n", "\n\nあ", "あ\n\n\n", " \n ", "。。。\n。", strings.Join(upto(symWords, 2), "\n")}
	for _, t := range texts {
		for _, v := range vs {
			v.Input = B(t)
			for _, via := range []string{"file", "stdin", "pipe", "pipeerr"} {
				v.Via = via
				for _, ps := range []int{0, 1, 2, 5} {
					if ps > 0 && (!strings.HasPrefix(via, "pipe") || v.User || v.Simple) {
						continue
					}
					v.Pieces = ps
					e.one("ways to read", v)
				}
			}
		}
	}
	c.Group("all files of <=3 of 6 lines x all option sets")
	for _, in := range upto([]string{"東京\n", "a漢\n", "東京東京\n", "\n", "あ\n", "東京a漢。\n"}, 3) {
		for _, v := range vs {
			v.Input, v.Via = B(in), "file"
			e.one("lines", v)
		}
	}
	c.Group("lengths around the buffer sizes")
	var lens []int
	for _, b := range []int{4096, 8192, 16384, 32768, 65536, 131072} {
		for d := -3; d <= 3; d++ {
			if !th && b > 5000 && b != 65536 && d != 0 {
				continue
			}
			lens = append(lens, b+d)
		}
	}
	for _, l := range lens {
		for _, unit := range []string{"あ", "。", " ", "ab"} {
			long := strings.Repeat(unit, l/len(unit)) + strings.Repeat("x", l%len(unit))
			for _, shape := range []string{"%s", "%s\n", "%s\r\n", "前。\n%s\n後。\n", "前\n\n%s"} {
				in := fmt.Sprintf(shape, long)
				for _, v := range []cliCase{{Cmd: "tokenize"}, {Cmd: "tokenize", Split: true}, {Cmd: "sentence"}, {Cmd: "tokenize", JSON: true, Mode: "search"}} {
					if !th && l > 20000 && (v.JSON || unit == "ab" || unit == "。" || l > 66000 && !v.Split) {
						continue
					}
					if !th && l < 10000 && unit == "ab" && shape != "%s\n" && shape != "前。\n%s\n後。\n" {
						continue
					}
					if !th && l > 10000 && shape != "前。\n%s\n後。\n" && (shape != "%s" || unit == " ") {
						continue
					}
					v.Input, v.Via = B(in), "file"
					e.one("lengths", v)
				}
			}
		}
	}
	c.Group("many lines")
	{
		novel := bocchan()
		o, _ := decode(novel)
		var b strings.Builder
		for i := 0; i+20 < len(o) && i < 16000; i += 20 {
			b.WriteString(novel[o[i]:o[i+20]] + "\n")
			if i%200 == 0 {
				b.WriteString("\n")
			}
		}
		for _, v := range basic {
			v.Input, v.Via = B(b.String()), "file"
			if v.Split || v.Cmd == "sentence" {
				v.Input = B(novel[:o[10000]])
			}
			e.one("many lines", v)
			v.Via, v.Pieces = "pipe", 4096
			e.one("many lines", v)
		}
		for _, k := range []int{1, 2, 100, 1000, 5000, 20000} {
			e.one("many lines", cliCase{Cmd: "tokenize", Input: B(strings.Repeat("あ\n", k)), Via: "file"})
			e.one("many lines", cliCase{Cmd: "tokenize", JSON: true, Input: B(strings.Repeat("\n", k)), Via: "stdin"})
			e.one("many lines", cliCase{Cmd: "sentence", Input: B(strings.Repeat("あ。", k)), Via: "stdin"})
		}
	}
	c.Group("every pair of ASCII characters, every character")
	{
		var pairs, all strings.Builder
		for a := byte(' '); a < 127; a++ {
			for b := byte(' '); b < 127; b++ {
				pairs.WriteString("あ" + string(rune(a)) + string(rune(b)) + "い\n")
			}
		}
		for r := rune(0); r < 0x10000; r++ {
			if r != '\n' && (r < 0xd800 || r > 0xdfff) {
				all.WriteString("x" + string(r) + "1\n")
			}
		}
		sentences := func(s string) string { return strings.ReplaceAll(s, "\n", "。\n") }
		for _, v := range []cliCase{{Cmd: "tokenize"}, {Cmd: "tokenize", JSON: true, Mode: "extended"}, {Cmd: "sentence"}, {Cmd: "tokenize", Split: true, Mode: "search"}} {
			for _, in := range []string{pairs.String(), all.String()} {
				if v.Split || v.Cmd == "sentence" {
					in = sentences(in)
				}
				v.Input, v.Via = B(in), "file"
				e.one("characters", v)
			}
		}
	}
	c.Group("every character, and every pair of bytes, at the beginning and at the end of the input")
	{
		var marks []string
		for r := rune(0); r < 0x10000; r++ {
			if th || r < 0x250 || r >= 0x2000 && r < 0x3100 || r >= 0xd7f0 && r < 0xd800 || r >= 0xe000 && r < 0xe010 || r >= 0xfe00 {
				marks = append(marks, string(r))
			}
		}
		odd := []byte{0, 9, 10, 13, 32, 0x1f, 0x8b, 0x80, 0xbb, 0xbf, 0xc0, 0xe3, 0xef, 0xf0, 0xfe, 0xff, '"', '#', '%', '+', '-', '/', '\\', 'P', 'B', 'Z', 'h'}
		for _, a := range odd {
			for _, b := range odd {
				marks = append(marks, string([]byte{a, b}))
			}
		}
		for a := 0x80; a < 0x100; a++ {
			marks = append(marks, string([]byte{byte(a)}))
		}
		marks = append(marks, "\ufeff\ufeff", "\ufeff\n", "\xff\xfe\x00\x00", "\x00\x00\xfe\xff", "+/v8-", "#!", "# ", "// ", "---\n", "{", "[", "\x1b[0m", "\x04", "\x1a")
		for i, v := range []cliCase{{Cmd: "tokenize"}, {Cmd: "sentence"}, {Cmd: "tokenize", JSON: true}, {Cmd: "tokenize", Split: true}} {
			for k, m := range marks {
				if !th && i > 1 && len(m) == 3 && k%7 != 0 && m != "\ufeff" {
					continue
				}
				v.Input, v.Via = B(m+"東a\n"+m+"あ。"+m), "file"
				e.one("first and last", v)
				if m == "\ufeff" || len(m) == 2 && !utf8.ValidString(m) {
					v.Via = "stdin"
					e.one("first and last", v)
				}
			}
		}
	}
	c.Group("a read error after every byte")
	for _, t := range []string{"東京。\nすもも\n\nあ", "a。」b\n"} {
		for i := 0; i <= len(t); i++ {
			for _, v := range basic {
				v.Input, v.Via = B(t[:i]), "pipeerr"
				e.one("read errors", v)
			}
		}
	}
	c.Group("input that cannot be read")
	for _, p := range []string{e.path("missing.txt"), e.dir, "/proc/self/mem", e.path("in.txt") + "/x"} {
		for _, cmd := range []string{"tokenize", "sentence"} {
			f := func() error {
				var out bytes.Buffer
				tokcmd.Stdout, sencmd.Stdout = &out, &out
				tokcmd.Stderr, sencmd.Stderr = io.Discard, io.Discard
				var err error
				if cmd == "tokenize" {
					err = tokcmd.Run(context.Background(), []string{"-file", p})
				} else {
					err = sencmd.Run(context.Background(), []string{"-file", p})
				}
				if err == nil || out.Len() > 0 {
					return fmt.Errorf("%s -file %s: error %v, output %q", cmd, p, err, out.String())
				}
				return nil
			}
			c.states.Add(1)
			c.traces.Add(1)
			if err := f(); err != nil {
				c.Fail("unreadable", nil, err, f)
			}
		}
	}
	c.Group("other dictionaries")
	others := []cliCase{{Cmd: "tokenize", Sys: "uni"}}
	if th {
		others = append(others, cliCase{Cmd: "tokenize", Sys: "uni", Simple: true}, cliCase{Cmd: "tokenize", Sys: "uni", JSON: true, User: true, Mode: "extended"})
	}
	if p := ipaDictFile(); p != "" {
		others = append(others, cliCase{Cmd: "tokenize", Dict: p, Mode: "search"})
		if th {
			others = append(others, cliCase{Cmd: "tokenize", Dict: p, Simple: true}, cliCase{Cmd: "tokenize", Dict: p, Sys: "uni", User: true})
		}
	}
	for _, v := range others {
		if v.Dict != "" {
			e.toks[fmt.Sprint(v.User, v.Simple, v.Sys, v.Dict, false)] = e.tok(&cliCase{User: v.User, Simple: v.Simple, Process: true})
		}
		v.Input, v.Via = "関西国際空港に行く。\n東京都a漢字abc\n", "file"
		e.one("dictionaries", v)
	}
	e.runLattice()
	c.Group("the program itself")
	for i, t := range texts {
		if t == "" && !th {
			continue
		}
		for j, v := range []cliCase{{Cmd: "tokenize", Exec: "default"}, {Cmd: "sentence"}, {Cmd: "tokenize", JSON: true, Split: true, Mode: "extended"}, {Cmd: "tokenize", Simple: true, User: true, Mode: "search"}} {
			if !th && (i+j)%2 != 0 {
				continue
			}
			v.Input, v.Via, v.Process = B(t), []string{"pipe", "file", "stdin"}[(i+j)%3], true
			e.one("program", v)
		}
	}
	for x := 0; x < 12; x++ { // every option set that has -simple
		if c.Done() {
			break
		}
		v := cliCase{Cmd: "tokenize", JSON: x&1 > 0, Split: x&2 > 0, Simple: true, User: x >= 8, Mode: []string{"normal", "search", "extended"}[x%3], Via: "pipe", Process: true, Input: "関西国際空港に行く。\n東京都a漢字EOS\n"}
		if x >= 8 {
			v.Split = !v.JSON
		}
		if x&4 > 0 && x < 8 {
			v.Sys = "uni"
		}
		e.one("program", v)
	}
	c.Set("bounds", fmt.Sprintf("all files of <=%d of %d symbols, all 49 option sets, lines within 3 bytes of the buffer sizes, a read error after every byte of two texts, novels; the lattice command on all lists of <=2 of 9 words x options", n, len(alpha)))
}

// latCase is a run of the lattice command.
type latCase struct {
	Words []B    `json:"words"`
	Mode  string `json:"mode,omitempty"`
	Dict  string `json:"dict,omitempty"`
	User  bool   `json:"user,omitempty"`
	V     bool   `json:"v,omitempty"`
	Out   string `json:"out,omitempty"` // new, longer, shorter: the -output file
}

func (e *cliEnv) lattice(k *latCase) error {
	var args, words []string
	for n, v := range map[string]string{"-mode": k.Mode, "-dict": k.Dict} {
		if v != "" {
			args = append(args, n, v)
		}
	}
	if k.User {
		args = append(args, "-udict", e.path("u.txt"))
	}
	if k.V {
		args = append(args, "-v")
	}
	file := e.path("out.dot")
	os.Remove(file)
	defer os.Remove(file)
	if k.Out != "" {
		args = append(args, "-output", file)
		switch k.Out {
		case "longer":
			os.WriteFile(file, bytes.Repeat([]byte("old } "), 40000), 0o600)
		case "shorter":
			os.WriteFile(file, []byte("old"), 0o600)
		}
	}
	for _, w := range k.Words {
		words = append(words, string(w))
	}
	args = append(append(args, "--"), words...)
	var out, er bytes.Buffer
	latcmd.Stdout, latcmd.Stderr = &out, &er
	if err := latcmd.Run(context.Background(), args); err != nil {
		return fmt.Errorf("lattice %q: %w", args, err)
	}
	text := out.String()
	if k.Out != "" {
		if text != "" {
			return fmt.Errorf("lattice %q writes on standard output: %q", args, clip(text, 100))
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return fmt.Errorf("lattice %q: %w", args, err)
		}
		text = string(b)
	}
	sys := k.Dict
	if sys == "ipa" {
		sys = ""
	}
	var lib bytes.Buffer
	ts := e.tok(&cliCase{User: k.User, Sys: sys}).AnalyzeGraph(&lib, strings.Join(words, " "), mode(k.Mode))
	if err := sameGraph(text, lib.String()); err != nil {
		return fmt.Errorf("lattice %q: %w", args, err)
	}
	want := ""
	if k.V {
		want = textRecord(ts)
	}
	if er.String() != want {
		return fmt.Errorf("lattice %q: standard error %q, want %q", args, clip(er.String(), 300), clip(want, 300))
	}
	return nil
}

func (e *cliEnv) runLattice() {
	c := e.c
	words := upto2([]string{"東京", "", "a漢", "関西国際空港zz", "x y", "\"\\", "すもも\nもも", "-v", "\xff"}, 2)
	c.Group(fmt.Sprintf("the lattice command: %d lists of words x modes x dictionaries x -v x output", len(words)))
	for _, ws := range words {
		for _, d := range []string{"", "ipa", "uni"} {
			if d == "uni" && len(ws) > 1 && !c.thorough {
				continue
			}
			for _, m := range []string{"", "normal", "search", "extended"} {
				for x := 0; x < 4; x++ {
					for _, o := range []string{"", "new", "longer", "shorter"} {
						if d == "ipa" && (x != 3 || o != "") {
							continue
						}
						k := latCase{Mode: m, Dict: d, User: x&1 > 0, V: x&2 > 0, Out: o}
						for _, w := range ws {
							k.Words = append(k.Words, B(w))
						}
						c.states.Add(1)
						c.traces.Add(1)
						c.transitions.Add(1)
						if err := safe(func() error { return e.lattice(&k) }); err != nil {
							c.Fail("lattice", k, err, func() error { return e.lattice(&k) })
						}
						c.Sample("lattice", 1, k)
					}
				}
			}
		}
	}
}

// upto2 is all lists of 1..n of the words.
func upto2(ws []string, n int) [][]string {
	ret, last := [][]string{}, [][]string{nil}
	for l := 1; l <= n; l++ {
		var next [][]string
		for _, p := range last {
			for _, w := range ws {
				next = append(next, append(append([]string{}, p...), w))
			}
		}
		ret, last = append(ret, next...), next
	}
	return ret
}

// ipaDictFile is the dictionary file of the IPA module, if it is where the module cache has it.
func ipaDictFile() string {
	_ = ipa.Dict
	ms, _ := filepath.Glob("/root/go/pkg/mod/github.com/ikawaha/kagome-dict/ipa@*/ipa.dict")
	if len(ms) == 0 {
		return ""
	}
	return ms[len(ms)-1]
}

func replayC16(c *Ctx, d Doc) error {
	var k cliCase
	if err := json.Unmarshal(d.Case, &k); err != nil {
		return err
	}
	e := newCliEnv(c)
	defer e.close()
	var l latCase
	if json.Unmarshal(d.Case, &l) == nil && l.Words != nil {
		return safe(func() error { return e.lattice(&l) })
	}
	return safe(func() error { return e.run(&k) })
}

// ---- C18: options ----

// flagSpec describes a command for the reference parser.
type flagSpec struct {
	name       string
	strs       map[string][]string // value flags: allowed values (nil: any)
	bools      []string
	positional bool
	check      func([]string) error
}

var boolValues = map[string]bool{"1": true, "0": true, "t": true, "f": true, "T": true, "F": true, "true": true, "false": true, "TRUE": true, "FALSE": true, "True": true, "False": true}

// accepts is the reference: the flag syntax of the Go standard library, written down independently.
func (s *flagSpec) accepts(args []string) (ok bool, values map[string]string, rest []string) {
	values = map[string]string{}
	i := 0
	for i < len(args) {
		a := args[i]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		i++
		if a == "--" {
			break
		}
		name := strings.TrimPrefix(a[1:], "-")
		if name == "" || name[0] == '-' || name[0] == '=' {
			return false, nil, nil
		}
		val, has := "", false
		if k := strings.IndexByte(name, '='); k > 0 {
			name, val, has = name[:k], name[k+1:], true
		}
		isBool := false
		for _, b := range s.bools {
			isBool = isBool || b == name
		}
		_, isStr := s.strs[name]
		switch {
		case isBool:
			if has && !boolValues[val] {
				return false, nil, nil
			}
			if !has {
				val = "true"
			}
			values[name] = val
		case isStr:
			if !has {
				if i >= len(args) {
					return false, nil, nil
				}
				val = args[i]
				i++
			}
			values[name] = val
		default:
			return false, nil, nil
		}
	}
	rest = args[i:]
	if s.positional != (len(rest) > 0) {
		return false, nil, nil
	}
	for f, v := range values {
		if allowed := s.strs[f]; allowed != nil {
			in := false
			for _, x := range allowed {
				in = in || x == v
			}
			if !in {
				return false, nil, nil
			}
		}
	}
	return true, values, rest
}

func flagSpecs() []*flagSpec {
	dicts, modes := []string{"ipa", "uni"}, []string{"normal", "search", "extended"}
	return []*flagSpec{
		{name: "tokenize", strs: map[string][]string{"file": nil, "dict": nil, "udict": nil, "sysdict": dicts, "mode": modes}, bools: []string{"simple", "split", "json"}, check: tokcmd.OptionCheck},
		{name: "server", strs: map[string][]string{"http": nil, "userdict": nil, "dict": dicts}, check: server.OptionCheck},
		{name: "lattice", strs: map[string][]string{"udict": nil, "dict": dicts, "mode": modes, "output": nil}, bools: []string{"v"}, positional: true, check: latcmd.OptionCheck},
		{name: "sentence", strs: map[string][]string{"file": nil}, check: sencmd.OptionCheck},
	}
}

type optCase struct {
	Cmd  string   `json:"cmd"`
	Args []string `json:"args"`
	Run  bool     `json:"run"`
}

func (s *flagSpec) tokens() []string {
	t := []string{"-h", "-help", "--", "-", "x", "-unknown", "-unknown=1", "---mode", "-=1", "日本"}
	for _, n := range sortedKeys(s.strs) {
		t = append(t, "-"+n)
		vs := s.strs[n]
		if vs == nil {
			vs = []string{"F"}
		} else {
			vs = concat(vs, []string{strings.ToUpper(vs[0]), vs[0] + "x", vs[0][:len(vs[0])-1], " " + vs[1], "foo"})
		}
		for k, v := range vs {
			if k%2 == 0 {
				t = append(t, "-"+n+"="+v)
			} else {
				t = append(t, "--"+n+"="+v)
			}
		}
	}
	for _, b := range s.bools {
		t = append(t, "-"+b, "--"+b+"=true", "-"+b+"=0", "-"+b+"=maybe", "-"+b+"=")
	}
	for _, v := range []string{"ipa", "uni", "search", "normal", "extended", "bad", "-mode", "-dict"} {
		t = append(t, v)
	}
	seen := map[string]bool{}
	var ret []string
	for _, x := range t {
		if !seen[x] {
			seen[x] = true
			ret = append(ret, x)
		}
	}
	return ret
}

func (s *flagSpec) checkOptions(args []string) error {
	want, _, _ := s.accepts(args)
	err := s.check(args)
	if (err == nil) != want {
		return fmt.Errorf("%s %q: option check says %v, want accepted=%v", s.name, args, err, want)
	}
	return nil
}

// runCommand runs a command in this process; F in the arguments stands for a usable file.
func (e *cliEnv) runCommand(s *flagSpec, args []string) error {
	want, vals, _ := s.accepts(args)
	var real []string
	for _, a := range args {
		switch {
		case a == "F":
			a = e.path("F")
		case strings.HasSuffix(a, "=F"):
			a = strings.TrimSuffix(a, "F") + e.path("F")
		}
		real = append(real, a)
	}
	_, _, rest := s.accepts(real)
	// values that are used as files or addresses
	for _, f := range []string{"file", "dict", "udict", "userdict", "output"} {
		v, set := vals[f]
		if !set || s.strs[f] != nil {
			continue
		}
		switch {
		case f == "dict": // not a dictionary file, whatever it is
			if v != "" {
				want = false
			}
		case f == "output":
		case v == "":
		case v != "F":
			want = false
		}
	}
	if vals["output"] != "" && vals["output"] != "F" {
		return nil // would be created in the working directory
	}
	os.WriteFile(e.path("F"), []byte("東京,東 京,トウ キョウ,カスタム名詞\n"), 0o644)
	var fUser *dict.UserDict
	if vals["udict"] == "F" {
		fUser = must(dict.NewUserDict(e.path("F")))
	}
	var out bytes.Buffer
	null := must(os.Open(e.path("in.txt")))
	defer null.Close()
	os.Stdin = null
	defer func() { os.Stdin = e.stdin }()
	var err error
	switch s.name {
	case "tokenize":
		tokcmd.Stdout, tokcmd.Stderr = &out, io.Discard
		err = tokcmd.Run(context.Background(), real)
	case "sentence":
		sencmd.Stdout, sencmd.Stderr = &out, io.Discard
		err = sencmd.Run(context.Background(), real)
	case "lattice":
		latcmd.Stdout, latcmd.Stderr = &out, io.Discard
		err = latcmd.Run(context.Background(), real)
	case "server":
		if want && vals["http"] != "" {
			return nil // only valid addresses are tried, see C19
		}
		server.Stderr = io.Discard
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		err = server.Run(ctx, append([]string{"-http", "127.0.0.1:0"}, real...))
	}
	if (err == nil) != want {
		return fmt.Errorf("%s %q: run says %v, want accepted=%v", s.name, args, err, want)
	}
	if err != nil && out.Len() > 0 {
		return fmt.Errorf("%s %q: error %v after output %q", s.name, args, err, clip(out.String(), 200))
	}
	if err != nil {
		return nil
	}
	// accepted: the values are the ones that are used
	switch s.name {
	case "tokenize":
		k := cliCase{Cmd: "tokenize", Mode: vals["mode"], Sys: vals["sysdict"], JSON: truth(vals["json"]), Split: truth(vals["split"]), Simple: truth(vals["simple"])}
		if k.Sys == "ipa" {
			k.Sys = ""
		}
		k.Input = "関西国際空港に行く。東京\nabc\n"
		if vals["file"] == "F" {
			k.Input = "東京,東 京,トウ キョウ,カスタム名詞\n"
		}
		k.User = vals["udict"] == "F"
		if k.User {
			key := fmt.Sprint(k.User, k.Simple, k.Sys, k.Dict, false)
			if e.toks[key] == nil {
				d := ipaDict()
				if k.Sys == "uni" {
					d = uniDict()
				}
				e.toks[key] = mustRepo(tokenizer.New(d, tokenizer.UserDict(fUser)))
			}
		}
		return e.judgeOutput(&k, out.String(), nil)
	case "sentence":
		k := cliCase{Cmd: "sentence", Input: "関西国際空港に行く。東京\nabc\n"}
		if vals["file"] == "F" {
			k.Input = "東京,東 京,トウ キョウ,カスタム名詞\n"
		}
		return e.judgeOutput(&k, out.String(), nil)
	case "lattice":
		d := ipaDict()
		if vals["dict"] == "uni" {
			d = uniDict()
		}
		opt := tokenizer.Nop()
		if vals["udict"] == "F" {
			opt = tokenizer.UserDict(fUser)
		}
		t := mustRepo(tokenizer.New(d, opt))
		var b bytes.Buffer
		t.AnalyzeGraph(&b, strings.Join(rest, " "), mode(vals["mode"]))
		got := out.String()
		if vals["output"] == "F" {
			got = string(must(os.ReadFile(e.path("F"))))
			if vals["udict"] == "F" {
				return nil
			}
			if out.Len() > 0 {
				return fmt.Errorf("%s %q: output %q although -output is given", s.name, args, clip(out.String(), 100))
			}
		}
		if strings.Count(got, "\n") != strings.Count(b.String(), "\n") || !strings.HasPrefix(got, "graph") {
			return fmt.Errorf("%s %q: the graph is not that of %q: %q", s.name, args, rest, clip(got, 200))
		}
	}
	return nil
}

func truth(s string) bool { return s == "1" || s == "t" || s == "T" || strings.EqualFold(s, "true") }

func runC18(c *Ctx) {
	log.SetOutput(io.Discard)
	th := c.thorough
	e := newCliEnv(c)
	defer e.close()
	os.WriteFile(e.path("in.txt"), []byte("関西国際空港に行く。東京\nabc\n"), 0o644)
	for _, s := range flagSpecs() {
		ts := s.tokens()
		n := 3
		if th && len(ts) < 50 {
			n = 4
		}
		c.Group(fmt.Sprintf("option check of %s: all argument lists of <=%d of %d arguments", s.name, n, len(ts)))
		for l := 0; l <= n; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= len(ts)
			}
			parallel(c, total, func(w, i int) {
				var args []string
				for k := 0; k < l; k++ {
					args = append(args, ts[i%len(ts)])
					i /= len(ts)
				}
				c.states.Add(1)
				c.transitions.Add(int64(l))
				c.traces.Add(1)
				f := func() error { return s.checkOptions(args) }
				if err := safe(f); err != nil {
					c.Fail("options", optCase{s.name, args, false}, err, f)
				}
			})
		}
		m := 2
		c.Group(fmt.Sprintf("run of %s: all argument lists of <=%d of %d arguments", s.name, m, len(ts)))
		var lists [][]string
		for l := 0; l <= m; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= len(ts)
			}
			for i := 0; i < total; i++ {
				var args []string
				for k, x := 0, i; k < l; k++ {
					args = append(args, ts[x%len(ts)])
					x /= len(ts)
				}
				lists = append(lists, args)
			}
		}
		// longer lists around valid ones
		var good [][]string
		for _, l := range lists {
			if ok, _, _ := s.accepts(l); ok && len(l) > 0 {
				good = append(good, l)
			}
		}
		for i, g := range good {
			for j, x := range ts {
				if th || (i+j)%9 == 0 {
					lists = append(lists, append(append([]string{}, g...), x), append([]string{x}, g...))
				}
			}
		}
		for _, args := range lists {
			if c.Done() {
				return
			}
			c.states.Add(1)
			c.transitions.Add(int64(len(args)))
			c.traces.Add(1)
			f := func() error { return e.runCommand(s, args) }
			if err := safe(f); err != nil {
				c.FailIfRepeatable("run", optCase{s.name, args, true}, err, f)
			}
		}
	}
	c.Group("files that cannot be used")
	runBadFiles(c, e)
	c.Group("the program itself")
	runProgram(c, e)
	c.Set("bounds", "option check: all argument lists of <=3 arguments; run: all of <=2 and extensions of the valid ones; the program: all commands with valid and invalid options")
}

func runBadFiles(c *Ctx, e *cliEnv) {
	bad := map[string]string{
		"columns": "東京,東 京,トウ キョウ\n", "five": "a,b,c,d,e\n", "readings": "東京,東 京,トウキョウ,名詞\n",
		"twice": "東京,東京,トウキョウ,名詞\n東京,東京,トーキョー,名詞\n", "later": "京都,京都,キョウト,名詞\n\n# x\nこわれた行\n", "binary": "\x00\x01\xff\n",
	}
	var paths []string
	for n, t := range bad {
		os.WriteFile(e.path("bad-"+n), []byte(t), 0o644)
		paths = append(paths, e.path("bad-"+n))
	}
	paths = append(paths, e.path("missing"), e.dir, e.path("in.txt")+"/below")
	type bc struct {
		name string
		run  func() error
	}
	var out bytes.Buffer
	for _, p := range paths {
		cases := []bc{
			{"tokenize -udict " + p, func() error {
				return tokcmd.Run(context.Background(), []string{"-udict", p, "-file", e.path("in.txt")})
			}},
			{"tokenize -udict " + p + " -simple", func() error {
				return tokcmd.Run(context.Background(), []string{"-simple", "-udict", p, "-json", "-file", e.path("in.txt")})
			}},
			{"tokenize -dict " + p, func() error {
				return tokcmd.Run(context.Background(), []string{"-dict", p, "-file", e.path("in.txt")})
			}},
			{"tokenize -simple -dict " + p, func() error {
				return tokcmd.Run(context.Background(), []string{"-dict", p, "-simple", "-file", e.path("in.txt")})
			}},
			{"lattice -udict " + p, func() error { return latcmd.Run(context.Background(), []string{"-udict", p, "東京"}) }},
			{"server -userdict " + p, func() error {
				ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
				defer cancel()
				return server.Run(ctx, []string{"-http", "127.0.0.1:0", "-userdict", p})
			}},
		}
		if !strings.Contains(p, "bad-") {
			cases = append(cases,
				bc{"tokenize -file " + p, func() error { return tokcmd.Run(context.Background(), []string{"-file", p}) }},
				bc{"sentence -file " + p, func() error { return sencmd.Run(context.Background(), []string{"-file", p}) }})
		}
		if p == e.dir || strings.HasSuffix(p, "below") {
			cases = append(cases, bc{"lattice -output " + p, func() error { return latcmd.Run(context.Background(), []string{"-output", p, "東京"}) }})
		}
		for _, b := range cases {
			f := func() error {
				out.Reset()
				tokcmd.Stdout, sencmd.Stdout, latcmd.Stdout = &out, &out, &out
				tokcmd.Stderr, sencmd.Stderr, latcmd.Stderr, server.Stderr = io.Discard, io.Discard, io.Discard, io.Discard
				if err := b.run(); err == nil {
					return fmt.Errorf("%s: no error", b.name)
				}
				if out.Len() > 0 {
					return fmt.Errorf("%s: output %q", b.name, clip(out.String(), 100))
				}
				return nil
			}
			c.states.Add(1)
			c.transitions.Add(1)
			c.traces.Add(1)
			if err := safe(f); err != nil {
				c.Fail("unusable files", nil, err, f)
			}
		}
	}
}

// runProgram runs the real program and looks at its exit status and output.
func runProgram(c *Ctx, e *cliEnv) {
	bin := goBuild(e.dir)
	in := e.path("in.txt")
	specs := map[string]*flagSpec{}
	for _, s := range flagSpecs() {
		specs[s.name] = s
	}
	type pc struct {
		args []string
		ok   bool
		like []string // same standard output as this
	}
	var cs []pc
	valid := map[string][][]string{
		"tokenize": {{"-file", in}, {"-file", in, "-mode", "search", "-json"}, {"-file=" + in, "-split"}, {"-file", in, "-simple", "-mode=extended"}},
		"sentence": {{"-file", in}},
		"lattice":  {{"東京"}, {"-mode", "search", "-v", "関西", "国際"}, {"--", "-x"}},
	}
	for _, name := range sortedKeys(valid) {
		for _, a := range valid[name] {
			cs = append(cs, pc{args: append([]string{name}, a...), ok: true})
		}
	}
	for _, a := range valid["tokenize"] {
		cs = append(cs, pc{args: a, ok: true, like: append([]string{"tokenize"}, a...)})
	}
	cs = append(cs, pc{args: []string{"version"}, ok: true}, pc{args: []string{}, ok: true}, pc{args: []string{"tokenize"}, ok: true}, pc{args: []string{"sentence"}, ok: true})
	for _, a := range [][]string{{"foo"}, {"Tokenize"}, {"tokenise", "-file", in}, {"-mode", "bad"}, {"-file", in, "rest"}, {"-unknown"}, {"-help"}, {"-h"}, {""}, {"-file"}, {"-file", e.path("missing")},
		{"-udict", e.path("missing"), "-file", in}, {"version2"}, {"-file", in, "tokenize"}, {"-sysdict", "x"}, {"--mode"},
		{"-file", e.dir}, {"-dict", in, "-file", in}, {"-", "-file", in}} {
		cs = append(cs, pc{args: a}, pc{args: append([]string{"tokenize"}, a...)})
	}
	for _, a := range [][]string{{}, {"-mode", "bad", "x"}, {"-dict", "bad", "x"}, {"-udict", e.path("missing"), "x"}, {"-output", e.dir, "x"}, {"-unknown", "x"}, {"-v"}, {"--"}} {
		cs = append(cs, pc{args: append([]string{"lattice"}, a...)})
	}
	for _, a := range [][]string{{"x"}, {"-file", e.path("missing")}, {"-file", e.dir}, {"-unknown"}, {"-mode", "normal"}} {
		cs = append(cs, pc{args: append([]string{"sentence"}, a...)})
	}
	for _, a := range [][]string{{"x"}, {"-dict", "bad"}, {"-userdict", e.path("missing")}, {"-http", "127.0.0.1:99999"}, {"-http", "nonsense"}, {"-unknown"}, {"-help"}} {
		cs = append(cs, pc{args: append([]string{"server"}, a...)})
	}
	// a first argument that is nearly the name of a command names none
	names := []string{"tokenize", "server", "lattice", "sentence", "version"}
	seen := map[string]bool{}
	for _, n := range names {
		var near []string
		for i := range n {
			near = append(near, n[:i], n[i:]+"x", n[i+1:], n[:i]+n[i+1:], n[:i]+strings.ToUpper(n[i:i+1])+n[i+1:], n[:i]+n[i:i+1]+n[i:])
		}
		near = append(near, n+"s", n+" ", " "+n, n+"\n", "-"+n, "--"+n, strings.ToUpper(n), "./"+n, n+"=", n+","+n)
		for _, x := range near {
			named := x == ""
			for _, m := range names {
				named = named || m == x
			}
			if !named && !seen[x] {
				seen[x] = true
				cs = append(cs, pc{args: []string{x}}, pc{args: []string{x, "-file", in}})
			}
		}
	}
	type res struct {
		code     int
		out, err string
	}
	run := func(args []string) res {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		var out, er bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &er
		f := must(os.Open(in))
		defer f.Close()
		cmd.Stdin = f
		cmd.Dir = e.dir
		cmd.Run()
		return res{cmd.ProcessState.ExitCode(), out.String(), er.String()}
	}
	parallel(c, len(cs), func(_, i int) {
		p := cs[i]
		f := func() error {
			r := run(p.args)
			if (r.code == 0) != p.ok {
				return fmt.Errorf("kagome %q: exit status %d, want success=%v (%s)", p.args, r.code, p.ok, clip(r.err, 200))
			}
			if !p.ok && r.out != "" {
				return fmt.Errorf("kagome %q: output %q although it failed", p.args, clip(r.out, 200))
			}
			if !p.ok && r.err == "" {
				return fmt.Errorf("kagome %q: fails without a message", p.args)
			}
			if p.like != nil {
				if o := run(p.like); o != r {
					return fmt.Errorf("kagome %q does not do what kagome %q does", p.args, p.like)
				}
			}
			if p.ok && len(p.args) == 1 && p.args[0] == "tokenize" {
				if o := run(nil); o != r || r.out == "" {
					return fmt.Errorf("kagome without a command does not do what kagome tokenize does")
				}
			}
			return nil
		}
		c.states.Add(1)
		c.transitions.Add(1)
		c.traces.Add(1)
		if err := f(); err != nil {
			c.FailIfRepeatable("program", optCase{"", p.args, true}, err, f)
		}
	})
}

func replayC18(c *Ctx, d Doc) error {
	var o optCase
	if err := json.Unmarshal(d.Case, &o); err != nil {
		return err
	}
	e := newCliEnv(c)
	defer e.close()
	os.WriteFile(e.path("in.txt"), []byte("関西国際空港に行く。東京\nabc\n"), 0o644)
	for _, s := range flagSpecs() {
		if s.name == o.Cmd {
			if o.Run {
				return e.runCommand(s, o.Args)
			}
			return s.checkOptions(o.Args)
		}
	}
	runBadFiles(c, e)
	runProgram(c, e)
	if len(c.violations) > 0 {
		return errors.New(c.violations[0].msg)
	}
	return nil
}

func init() {
	register("C16", "model_checking", runC16, replayC16)
	register("C18", "model_checking", runC18, replayC18)
}
