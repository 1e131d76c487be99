package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// C22: the same spaces are explored by this program built for another architecture, and everything the library, the server
// and the commands answer is compared with the answers of the native build. An answer is reduced to a hash; the hashes are
// collected in buckets, and a bucket that differs is explored again to find the cases.

const platBuckets = 4096

type platTable struct {
	mu     sync.Mutex
	Sum    map[string][]uint64 `json:"sum"`
	N      map[string][]int64  `json:"n"`
	Capped bool                `json:"capped"`
	Cases  int64               `json:"cases"`
	Steps  int64               `json:"steps"`
	dump   *bufio.Writer
	which  map[string]bool // group:bucket to be written to dump
}

type platCase struct {
	Group string   `json:"group"`
	Key   string   `json:"key,omitempty"` // dictionary, splitter, patterns, arguments
	Input B        `json:"input"`
	Arch  string   `json:"arch,omitempty"`
	Args  []string `json:"args,omitempty"`
}

func fnv64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0xff, 0})
	}
	return h.Sum64()
}

func (p *platTable) add(group, key, in, answer string, steps int) {
	b := int(fnv64(key, in) % platBuckets)
	v := fnv64(key, in, answer)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.Sum[group] == nil {
		p.Sum[group], p.N[group] = make([]uint64, platBuckets), make([]int64, platBuckets)
	}
	p.Sum[group][b] += v
	p.N[group][b]++
	p.Cases++
	p.Steps += int64(steps)
	if p.dump != nil && p.which[fmt.Sprintf("%s:%d", group, b)] {
		p.dump.Write(append(must(json.Marshal(map[string]any{"case": platCase{Group: group, Key: key, Input: B(in)}, "hash": fmt.Sprintf("%016x", v)})), '\n'))
	}
}

func guarded(f func() (string, int)) (s string, n int) {
	defer func() {
		if r := recover(); r != nil {
			s, n = fmt.Sprintf("panic: %v", r), 0
		}
	}()
	return f()
}

// the answers

func platString(dc *DictCfg, in string) (string, int) {
	return guarded(func() (string, int) {
		var b strings.Builder
		n := 0
		for _, m := range allModes {
			ts := dc.T.Analyze(in, m)
			n += len(ts)
			fmt.Fprintf(&b, "%v %d\n", m, len(ts))
			for i := range ts {
				t := &ts[i]
				fmt.Fprintf(&b, "%d %d %v %d %d %d %s", t.Index, t.ID, t.Class, t.Start, t.End, t.Position, t.Surface)
				if len(ts) < 40 {
					fmt.Fprintf(&b, "%q", t.Features())
				}
				b.WriteByte('\n')
			}
			if len(in) < 40 && (len(in) < 8 || fnv64(in)%8 == 0) {
				var g bytes.Buffer
				dc.T.AnalyzeGraph(&g, in, m)
				b.WriteString(noAddresses(g.String()))
				for i := range ts {
					b.Write(must(json.Marshal(tokenizer.NewTokenData(ts[i]))))
				}
			}
		}
		fmt.Fprintf(&b, "%q", dc.T.Wakati(in))
		return b.String(), n
	})
}

func platSplit(s SplitCfg, in string) (string, int) {
	return guarded(func() (string, int) {
		ss, err := scanAll(s, strings.NewReader(in), -2, 1<<16)
		for _, size := range []int{0, 7} {
			if len(in) > 100 {
				break // one byte at a time takes quadratic time
			}
			s2, err2 := scanAll(s, iotestOneByte{strings.NewReader(in)}, size, 1<<16)
			ss = append(append(ss, s2...), fmt.Sprint(err2))
		}
		return fmt.Sprintf("%q %v", ss, err), len(ss)
	})
}

type iotestOneByte struct{ r io.Reader }

func (o iotestOneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

func platFilter(pats [][]string, vecs [][]string) (string, int) {
	return guarded(func() (string, int) {
		f := filter.NewFeaturesFilter(pats...)
		var b strings.Builder
		for _, v := range vecs {
			fmt.Fprint(&b, f.Match(v))
		}
		return b.String(), len(vecs)
	})
}

var platTok struct {
	once sync.Once
	t    *tokenizer.Tokenizer
	f    *ja.Filter
}

func platJa(in string) (string, int) {
	return guarded(func() (string, int) {
		platTok.once.Do(func() { platTok.t, platTok.f = ipaCfg().T, mustRepo(ja.NewFilter()) })
		ts := platTok.t.Tokenize(in)
		var b strings.Builder
		fmt.Fprintf(&b, "%q", platTok.f.Yield(ts))
		platTok.f.Drop(&ts)
		for _, t := range ts {
			fmt.Fprintf(&b, " %d%s", t.Index, t.Surface)
		}
		return b.String(), len(ts)
	})
}

func platHTTP(addr, req string) (string, int) {
	method, rest, _ := strings.Cut(req, " ")
	path, body, _ := strings.Cut(rest, " ")
	q := must(http.NewRequest(method, "http://"+addr+path, strings.NewReader(body)))
	q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r, err := http.DefaultClient.Do(q)
	if err != nil {
		return "no answer: " + strings.ReplaceAll(err.Error(), addr, "ADDR"), 1
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return fmt.Sprint(r.StatusCode, r.Header["Content-Type"], err, string(b)), 1
}

var address = regexp.MustCompile(`0x[0-9a-f]+`)

// noAddresses replaces the addresses of nodes by their order of appearance.
func noAddresses(s string) string {
	seen := map[string]string{}
	return address.ReplaceAllStringFunc(s, func(a string) string {
		if seen[a] == "" {
			seen[a] = fmt.Sprintf("#%d", len(seen))
		}
		return seen[a]
	})
}

// the spaces

func platExplore(c *Ctx, p *platTable) {
	th := c.thorough
	type o = struct{ user, noSearch, uni, sat, light bool }
	c.Group("strings")
	stringProps(func(w *W, dc *DictCfg, in string) error {
		s, n := platString(dc, in)
		p.add("strings", dc.key, in, s, n)
		return nil
	}, o{uni: th, sat: true, light: true})(c)

	c.Group("sentences")
	n := 4
	if th {
		n = 6
	}
	texts := append(upto([]string{"。", "」", " ", "\n", "　", "a", "漢", "\xe3"}, n), bocchan()[:100000], strings.Repeat("あ", 30000), strings.Repeat("あ", 127)+"。」"+strings.Repeat(" ", 70000))
	var cfgs []SplitCfg
	for _, d := range []string{"。", "。 \n", ""} {
		for _, f := range []string{"」", ""} {
			for i := 0; i < 4; i++ {
				for _, m := range []int{-1, 0, 1, 3, 128, 1<<31 - 1} {
					cfgs = append(cfgs, SplitCfg{Delim: d, Follower: f, Skip: i&1 > 0, DLF: i&2 > 0, Max: m})
				}
			}
		}
	}
	cfgs = append(cfgs, defaultSplit)
	parallel(c, len(texts), func(w, i int) {
		for j, s := range cfgs {
			if j%5 != i%5 && s != defaultSplit && !th {
				continue
			}
			a, k := platSplit(s, texts[i])
			p.add("sentences", string(must(json.Marshal(s))), texts[i], a, k)
		}
	})

	c.Group("filters")
	var vecs [][]string
	for _, v := range optSeqs([]string{"A", "B", ""}, 4) {
		vecs = append(vecs, v)
	}
	pats := optSeqs([]string{"A", "B", filter.Any}, 3)[1:]
	var lists [][][]string
	for _, a := range pats {
		lists = append(lists, [][]string{a})
		for _, b := range pats {
			lists = append(lists, [][]string{a, b})
			if len(a) < 3 && len(b) < 3 {
				for _, c := range pats[:12] {
					lists = append(lists, [][]string{a, b, c})
				}
			}
		}
	}
	parallel(c, len(lists), func(w, i int) {
		a, k := platFilter(lists[i], vecs)
		p.add("filters", string(must(json.Marshal(lists[i]))), "", a, k)
	})

	c.Group("Japanese filter")
	lines := strings.SplitAfter(bocchan(), "\n")
	for _, e := range ipaEntries {
		if th || len(e.Surface)%3 == 0 {
			lines = append(lines, e.Surface+"です")
		}
	}
	if !th && len(lines) > 40000 {
		lines = lines[:40000]
	}
	parallel(c, len(lines), func(w, i int) {
		a, k := platJa(lines[i])
		p.add("Japanese filter", "", lines[i], a, k)
	})

	c.Group("server")
	srv := startServer()
	defer srv.stop()
	reqs := platRequests(th)
	parallel(c, len(reqs), func(w, i int) {
		a, k := platHTTP(srv.addr, reqs[i])
		p.add("server", "", reqs[i], a, k)
	})
}

func platRequests(th bool) []string {
	var ret []string
	n := 3
	if th {
		n = 4
	}
	for _, s := range upto([]string{"{", "}", `"sentence"`, `"mode"`, `"東京zz"`, `"Search"`, ":", ",", "null", "1"}, n) {
		ret = append(ret, "POST /tokenize "+s)
	}
	for _, s := range concat(upto([]string{"東京", "ab", "<", " ", "\\u0000", "関西国際空港", "🗻"}, 3), []string{strings.Repeat("すもももももももものうち", 3000)}) {
		for _, m := range []string{"Normal", "Search", "Extended"} {
			ret = append(ret, `POST /tokenize {"sentence":"`+s+`","mode":"`+m+`"}`)
		}
		if !strings.Contains(s, "\\") && len(s) < 1000 {
			ret = append(ret, "POST / s="+urlEscape(s)+"&r=Search", "GET /?s="+urlEscape(s)+" ")
		}
	}
	return append(ret, "GET /tokenize ", "PUT /tokenize {}", "GET /x ", "HEAD / ")
}

func urlEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%%%02X", s[i])
	}
	return b.String()
}

// digestMain explores and writes the table; arguments: tier, file of the table, [file with the buckets to dump, file of the dump]
func digestMain(args []string) {
	c := newCtx("C22", args[0])
	c.noEvidence = true
	p := &platTable{Sum: map[string][]uint64{}, N: map[string][]int64{}}
	if len(args) > 2 {
		p.which = map[string]bool{}
		for _, l := range strings.Fields(strings.ReplaceAll(string(must(os.ReadFile(args[2]))), " ", "_")) {
			p.which[strings.ReplaceAll(l, "_", " ")] = true
		}
		f := must(os.Create(args[3]))
		p.dump = bufio.NewWriter(f)
		defer p.dump.Flush()
	}
	platExplore(c, p)
	p.Capped = c.Done()
	writeJSON(args[1], p)
}

// oneMain answers single cases read from standard input.
func oneMain([]string) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	var srv *running
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			if srv != nil {
				srv.stop()
			}
			return
		}
		var k platCase
		if err := json.Unmarshal(l, &k); err != nil {
			panic(err)
		}
		var a string
		switch k.Group {
		case "strings":
			a, _ = platString(cfgFromKey(k.Key), string(k.Input))
		case "sentences":
			var s SplitCfg
			json.Unmarshal([]byte(k.Key), &s)
			a, _ = platSplit(s, string(k.Input))
		case "filters":
			var pats [][]string
			json.Unmarshal([]byte(k.Key), &pats)
			a, _ = platFilter(pats, optSeqs([]string{"A", "B", ""}, 4))
		case "Japanese filter":
			a, _ = platJa(string(k.Input))
		case "server":
			if srv == nil {
				srv = startServer()
			}
			a, _ = platHTTP(srv.addr, string(k.Input))
		}
		os.Stdout.Write(append(must(json.Marshal(B(a))), '\n'))
	}
}

// the comparison

type platEnv struct {
	dir     string
	self    string
	other   map[string]string // architecture -> this program
	kagome  map[string]string // "" and architecture -> the program
	timeout time.Duration
}

func platBuild(dir, arch, src, out string) {
	args := []string{"build", "-o", out, "."}
	cmd := exec.Command("go", args...)
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	if arch != "" {
		cmd.Env = append(cmd.Env, "GOARCH="+arch)
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		if arch != "" { // it builds for this machine
			panic(repoErr{fmt.Errorf("the program does not build for %s: %v\n%s", arch, err, clip(string(b), 2000))})
		}
		fmt.Fprintf(os.Stderr, "the program does not build: %v\n%s", err, b)
		os.Exit(3)
	}
}

func newPlatEnv() *platEnv {
	e := &platEnv{dir: must(os.MkdirTemp(filepath.Join(verifDir, ".build"), "plat-")), self: must(os.Executable()), other: map[string]string{}, kagome: map[string]string{}}
	e.kagome[""] = filepath.Join(e.dir, "kagome")
	platBuild(e.dir, "", repoDir, e.kagome[""])
	for _, arch := range []string{"386"} {
		e.other[arch] = filepath.Join(e.dir, "vh-"+arch)
		platBuild(e.dir, arch, filepath.Join(verifDir, "harness"), e.other[arch])
		e.kagome[arch] = filepath.Join(e.dir, arch, "kagome")
		platBuild(e.dir, arch, repoDir, e.kagome[arch])
	}
	return e
}

func (e *platEnv) close() { os.RemoveAll(e.dir) }

// answer runs one case with one program.
func (e *platEnv) answer(bin string, k platCase) string {
	cmd := exec.Command(bin, "one")
	cmd.Stdin = bytes.NewReader(append(must(json.Marshal(k)), '\n'))
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	done := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	defer done.Stop()
	if err := cmd.Run(); err != nil {
		return fmt.Sprintf("%v %s", err, tailStr(errb.String(), 1500))
	}
	var b B
	if err := json.Unmarshal(out.Bytes(), &b); err != nil {
		return fmt.Sprintf("%v: %q", err, out.String())
	}
	return string(b)
}

func (e *platEnv) one(k platCase) error {
	if k.Group == "commands" {
		return e.command(k)
	}
	// the command line carries no limits: long inputs go through standard input
	a, b := e.answer(e.self, k), e.answer(e.other[k.Arch], k)
	if a == b {
		return nil
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Errorf("%s, key %s, input %q: built for %s the answer is ...%q, built for this machine ...%q (first difference at byte %d)", k.Group, clip(k.Key, 300), clip(string(k.Input), 200), k.Arch, clip(b[max(0, i-60):], 200), clip(a[max(0, i-60):], 200), i)
}

func (e *platEnv) command(k platCase) error {
	run := func(bin string) (string, string) {
		cmd := exec.Command(bin, k.Args...)
		cmd.Dir = e.dir
		cmd.Stdin = strings.NewReader(string(k.Input))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		done := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		defer done.Stop()
		err := cmd.Run()
		return fmt.Sprint(err, noAddresses(out.String())), strings.ReplaceAll(errb.String(), bin, "kagome")
	}
	o1, e1 := run(e.kagome[""])
	o2, e2 := run(e.kagome[k.Arch])
	if o1 != o2 {
		return fmt.Errorf("kagome %q with input %q: built for %s: %q, for this machine: %q", k.Args, clip(string(k.Input), 200), k.Arch, clip(o2, 500), clip(o1, 500))
	}
	if e1 != e2 && !strings.Contains(strings.Join(k.Args, " "), "server") {
		return fmt.Errorf("kagome %q with input %q: built for %s it says %q, for this machine %q", k.Args, clip(string(k.Input), 200), k.Arch, clip(e2, 500), clip(e1, 500))
	}
	return nil
}

func platCommands(th bool) []platCase {
	var ret []platCase
	ins := []string{"関西国際空港に行く。東京\nabc\n", "", "\xff\n\x00漢字", strings.Repeat("すもももももももものうち。", 2000) + "\n" + strings.Repeat("東京\n", 3000), strings.Repeat("a", 70000) + "\n東京\n"}
	var sets [][]string
	for _, m := range []string{"normal", "search", "extended", "x"} {
		for _, x := range [][]string{nil, {"-json"}, {"-split"}, {"-sysdict", "uni"}, {"-simple"}, {"-udict", "u.txt"}} {
			sets = append(sets, append([]string{"tokenize", "-mode", m}, x...))
		}
	}
	sets = append(sets, []string{"sentence"}, []string{"-json", "-split"}, []string{"-h"}, []string{"lattice"}, []string{"version"}, []string{"server", "-dict", "x"})
	for _, s := range sets {
		for _, in := range ins {
			ret = append(ret, platCase{Args: s, Input: B(in)})
		}
	}
	for _, m := range []string{"normal", "search", "extended"} {
		for _, s := range []string{"関西国際空港", "a b", "\xff", strings.Repeat("も", 100), "📛<>\""} {
			ret = append(ret, platCase{Args: []string{"lattice", "-v", "-mode", m, s}})
		}
	}
	for i := range ret {
		ret[i].Group = "commands"
	}
	return ret
}

func runC22(c *Ctx) {
	e := newPlatEnv()
	defer e.close()
	os.WriteFile(filepath.Join(e.dir, "u.txt"), []byte("東京,東 京,トウ キョウ,カスタム名詞\n"), 0o644)
	for _, arch := range sortedKeys(e.other) {
		c.Group("strings, sentences, filters, server built for " + arch)
		// both explore at the same time
		type result struct {
			t   *platTable
			err error
			say string
		}
		explore := func(bin, name string, more ...string) result {
			f := filepath.Join(e.dir, name)
			cmd := exec.Command(bin, append([]string{"digest", c.tier, f}, more...)...)
			var errb tail
			cmd.Stderr = &errb
			cmd.Env = append(os.Environ(), "GOGC=60")
			err := cmd.Run()
			r := result{err: err, say: string(errb.last(3000))}
			if err == nil {
				r.t = &platTable{}
				r.err = json.Unmarshal(must(os.ReadFile(f)), r.t)
			}
			return r
		}
		both := func(more func(bin string) []string) (a, b result) {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { defer wg.Done(); a = explore(e.self, "native.json", more("native")...) }()
			b = explore(e.other[arch], "other.json", more("other")...)
			wg.Wait()
			return
		}
		a, b := both(func(string) []string { return nil })
		if a.err != nil {
			panic(fmt.Sprintf("the native exploration ended with %v: %s", a.err, a.say))
		}
		if b.err != nil {
			c.Fail("explore", platCase{Group: "explore", Arch: arch}, fmt.Errorf("built for %s the exploration ends with %v, built for this machine it does not: %s", arch, b.err, b.say), nil)
			continue
		}
		c.states.Add(a.t.Steps)
		c.transitions.Add(a.t.Cases)
		c.traces.Add(b.t.Cases)
		if a.t.Capped || b.t.Capped {
			c.notExhaustive()
		}
		var diff []string
		for _, g := range sortedKeys(a.t.Sum) {
			var n int64
			for i, s := range a.t.Sum[g] {
				n += a.t.N[g][i]
				o := b.t.Sum[g]
				if o == nil || b.t.N[g][i] != a.t.N[g][i] {
					if !a.t.Capped && !b.t.Capped {
						panic(fmt.Sprintf("the explorations of %s differ", g))
					}
					continue
				}
				if o[i] != s {
					diff = append(diff, fmt.Sprintf("%s:%d", g, i))
				}
			}
			c.Set("cases: "+g, n)
			c.Sample(g, 1, map[string]any{"group": g, "bucket": 0, "cases": a.t.N[g][0], "hash": fmt.Sprintf("%016x", a.t.Sum[g][0])})
		}
		if len(diff) > 0 {
			e.find(c, arch, diff, both2(both))
		}
		c.Group("commands built for " + arch)
		ks := platCommands(c.thorough)
		parallel(c, len(ks), func(w, i int) {
			k := ks[i]
			k.Arch = arch
			c.Enter(w, "commands", "", func() any { return k })
			err := e.command(k)
			c.Leave(w)
			c.transitions.Add(1)
			c.traces.Add(1)
			if err == nil {
				c.Sample("commands", 3, k)
			}
			if err != nil {
				c.FailIfTwice("commands", k, err, func() error { return e.command(k) })
			}
		})
		c.Set("cases: commands", int64(len(ks)))
	}
	c.Set("bounds", "the reduced spaces of C17 (strings), texts of <=4 of 8 symbols x 29 of 145 splitters each (thorough: <=6 x all), lists of <=3 patterns, the novel and 40,000 words through the Japanese filter, 2,000 requests, 165 command lines; architectures: 386 against amd64")
}

func both2[T any](f func(func(string) []string) (T, T)) func(func(string) []string) {
	return func(m func(string) []string) { f(m) }
}

// find explores the buckets that differ again, with both programs, and reports the cases.
func (e *platEnv) find(c *Ctx, arch string, diff []string, both func(func(string) []string)) {
	if len(diff) > 64 {
		diff = diff[:64]
	}
	w := filepath.Join(e.dir, "which")
	os.WriteFile(w, []byte(strings.Join(diff, "\n")), 0o644)
	both(func(n string) []string { return []string{w, filepath.Join(e.dir, n+".dump")} })
	read := func(n string) map[string]string {
		ret := map[string]string{}
		for _, l := range bytes.Split(must(os.ReadFile(filepath.Join(e.dir, n+".dump"))), []byte("\n")) {
			var v struct {
				Case json.RawMessage `json:"case"`
				Hash string          `json:"hash"`
			}
			if json.Unmarshal(l, &v) == nil && v.Case != nil {
				ret[string(v.Case)] = v.Hash
			}
		}
		return ret
	}
	a, b := read("native"), read("other")
	found := 0
	for _, raw := range sortedKeys(a) {
		if a[raw] == b[raw] || found >= 5 {
			continue
		}
		var k platCase
		if json.Unmarshal([]byte(raw), &k) != nil {
			continue
		}
		k.Arch = arch
		if err := safe(func() error { return e.one(k) }); err != nil {
			found++
			c.FailIfTwice(k.Group, k, err, func() error { return e.one(k) })
		}
	}
	if found == 0 {
		c.Set("differences that could not be repeated", diff)
	}
}

func replayC22(c *Ctx, d Doc) error {
	var k platCase
	if err := json.Unmarshal(d.Case, &k); err != nil {
		return err
	}
	if k.Group == "explore" {
		return errors.New("run the check")
	}
	e := newPlatEnv()
	defer e.close()
	os.WriteFile(filepath.Join(e.dir, "u.txt"), []byte("東京,東 京,トウ キョウ,カスタム名詞\n"), 0o644)
	return e.one(k)
}

func init() {
	subcommands["digest"] = digestMain
	subcommands["one"] = oneMain
	register("C22", "model_checking", runC22, replayC22)
}
