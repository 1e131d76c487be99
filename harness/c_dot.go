package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	latcmd "github.com/ikawaha/kagome/v2/cmd/lattice"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// ---- a parser for the DOT language ----

type dotTok struct {
	kind byte // i identifier or number, q quoted string, or the character itself; e for "--"
	s    string
}

func dotLex(b string) ([]dotTok, error) {
	var ts []dotTok
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '#' && (i == 0 || b[i-1] == '\n'):
			for i < len(b) && b[i] != '\n' {
				i++
			}
		case strings.HasPrefix(b[i:], "//"):
			for i < len(b) && b[i] != '\n' {
				i++
			}
		case strings.HasPrefix(b[i:], "/*"):
			k := strings.Index(b[i+2:], "*/")
			if k < 0 {
				return nil, errors.New("unterminated comment")
			}
			i += k + 4
		case c == '"':
			var s strings.Builder
			i++
			done := false
			for i < len(b) {
				if b[i] == '"' {
					i++
					done = true
					break
				}
				if b[i] == 0 {
					return nil, errors.New("a NUL in a quoted string")
				}
				if b[i] == '\\' && i+1 < len(b) {
					switch b[i+1] {
					case '"':
						s.WriteByte('"')
						i += 2
						continue
					case '\\':
						s.WriteString(`\\`)
						i += 2
						continue
					case '\n':
						i += 2
						continue
					}
				}
				s.WriteByte(b[i])
				i++
			}
			if !done {
				return nil, errors.New("unterminated string")
			}
			ts = append(ts, dotTok{'q', s.String()})
		case strings.IndexByte("{}[];,=:+", c) >= 0:
			ts = append(ts, dotTok{c, string(c)})
			i++
		case strings.HasPrefix(b[i:], "--"):
			ts = append(ts, dotTok{'e', "--"})
			i += 2
		case strings.HasPrefix(b[i:], "->"):
			return nil, errors.New("directed edge in an undirected graph")
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(b) && (b[j] == '_' || b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z' || b[j] >= '0' && b[j] <= '9' || b[j] >= 0x80) {
				j++
			}
			ts = append(ts, dotTok{'i', b[i:j]})
			i = j
		case c == '-' || c == '.' || c >= '0' && c <= '9':
			j := i + 1
			for j < len(b) && (b[j] == '.' || b[j] >= '0' && b[j] <= '9') {
				j++
			}
			ts = append(ts, dotTok{'i', b[i:j]})
			i = j
		default:
			return nil, fmt.Errorf("unexpected byte %q at %d", c, i)
		}
	}
	return ts, nil
}

type dotNode struct {
	id    string
	attrs map[string]string
}
type dotEdge struct {
	from, to string
	attrs    map[string]string
}
type dotGraph struct {
	nodes []dotNode
	byID  map[string]*dotNode
	edges []dotEdge
}

func parseDot(b string) (*dotGraph, error) {
	ts, err := dotLex(b)
	if err != nil {
		return nil, err
	}
	p := 0
	peek := func() dotTok {
		if p < len(ts) {
			return ts[p]
		}
		return dotTok{}
	}
	next := func() dotTok {
		t := peek()
		p++
		return t
	}
	isID := func(t dotTok) bool { return t.kind == 'i' || t.kind == 'q' }
	if t := next(); t.kind == 'i' && strings.EqualFold(t.s, "strict") {
		return nil, errors.New("strict graph merges edges")
	} else if t.kind != 'i' || !strings.EqualFold(t.s, "graph") {
		return nil, fmt.Errorf("graph expected, got %q", t.s)
	}
	if isID(peek()) {
		p++
	}
	if next().kind != '{' {
		return nil, errors.New("{ expected")
	}
	attrs := func() (map[string]string, error) {
		m := map[string]string{}
		for peek().kind == '[' {
			p++
			for peek().kind != ']' {
				k := next()
				if !isID(k) {
					return nil, fmt.Errorf("attribute name expected, got %q", k.s)
				}
				if next().kind != '=' {
					return nil, fmt.Errorf("= expected after attribute %q", k.s)
				}
				v := next()
				if !isID(v) {
					return nil, fmt.Errorf("attribute value expected, got %q", v.s)
				}
				m[k.s] = v.s
				if c := peek().kind; c == ',' || c == ';' {
					p++
				}
			}
			p++
		}
		return m, nil
	}
	g := &dotGraph{byID: map[string]*dotNode{}}
	for {
		t := next()
		switch {
		case t.kind == '}':
			if p != len(ts) {
				return nil, errors.New("text after the graph")
			}
			for i := range g.nodes {
				n := &g.nodes[i]
				if g.byID[n.id] != nil {
					return nil, fmt.Errorf("node %s is declared twice", n.id)
				}
				g.byID[n.id] = n
			}
			return g, nil
		case t.kind == ';':
		case t.kind == 'i' && (t.s == "graph" || t.s == "node" || t.s == "edge") && peek().kind == '[':
			if _, err := attrs(); err != nil {
				return nil, err
			}
		case isID(t) && peek().kind == '=':
			p++
			if !isID(next()) {
				return nil, errors.New("value expected")
			}
		case isID(t) && peek().kind == 'e':
			p++
			to := next()
			if !isID(to) {
				return nil, errors.New("edge target expected")
			}
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			g.edges = append(g.edges, dotEdge{t.s, to.s, a})
		case isID(t):
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			g.nodes = append(g.nodes, dotNode{t.s, a})
		default:
			return nil, fmt.Errorf("statement expected, got %q", t.s)
		}
	}
}

// labelText interprets the escapes of a label.
func labelText(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				b.WriteByte('\n')
			case '\\':
				b.WriteByte('\\')
			default:
				b.WriteString("<escape " + string(s[i]) + ">")
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// ---- oracle ----

func (dc *DictCfg) posLabel(class, id int) string {
	var ps []string
	switch class {
	case clsKnown:
		for _, p := range dc.Sys.POSTable.POSs[id] {
			ps = append(ps, dc.Sys.POSTable.NameList[p])
		}
	case clsUnknown:
		m := dc.Sys.UnkDict.ContentsMeta
		a, n := int(m[dict.POSStartIndex]), int(m[dict.POSHierarchy])
		ps = dc.Sys.UnkDict.Contents[id][a : a+n]
	case clsUser:
		ps = []string{dc.User.Contents[id].Pos}
	}
	var out []string
	for _, p := range ps {
		if p != "*" || class == clsUser {
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return "---"
	}
	return strings.Join(out, "/")
}

func (dc *DictCfg) nodeLabel(la *RLattice, n *RNode, ends string) string {
	surf := ends
	if ends == "" {
		surf = strings.ReplaceAll(la.input[la.off[n.start]:la.off[n.end]], "\x00", "\u2400")
	}
	return surf + "\n" + dc.posLabel(n.class, n.id) + "\n" + strconv.FormatInt(n.weight, 10)
}

func isBest(a map[string]string) bool { return a["peripheries"] == "2" || a["shape"] == "ellipse" }
func isBold(a map[string]string) bool { return strings.Contains(a["style"], "bold") }

// checkGraph compares a graph with the reference lattice and the returned tokens.
func checkGraph(w *W, dc *DictCfg, la *RLattice, text string, ts []tokenizer.Token, mode tokenizer.TokenizeMode) error {
	g, err := parseDot(text)
	if err != nil {
		return fmt.Errorf("not valid DOT: %w", err)
	}
	w.states += int64(len(g.nodes))
	w.transitions += int64(len(g.edges))
	for _, e := range g.edges {
		if g.byID[e.from] == nil || g.byID[e.to] == nil {
			return fmt.Errorf("edge %s -- %s joins a node that is not declared", e.from, e.to)
		}
	}
	if mode == tokenizer.Extended {
		return checkExtendedGraph(dc, la, g, ts)
	}
	// drawn candidates
	type drawn struct {
		n     *RNode
		label string
	}
	n := len(la.runes)
	byEnd := make([][]drawn, n+2)
	byStart := make([][]drawn, n+1)
	bos, eos := &RNode{class: clsDummy, id: -1}, &RNode{class: clsDummy, id: -1, start: n, end: n + 1}
	want := map[string]int{}
	add := func(r *RNode, ends string) {
		d := drawn{r, dc.nodeLabel(la, r, ends)}
		want[d.label]++
		if ends != "BOS" {
			byStart[r.start] = append(byStart[r.start], d)
		}
		if ends != "EOS" {
			byEnd[r.end] = append(byEnd[r.end], d)
		}
	}
	add(bos, "BOS")
	add(eos, "EOS")
	for _, l := range la.at {
		for i := range l {
			if l[i].class != clsUnknown {
				add(&l[i], "")
			}
		}
	}
	var path []string
	path = append(path, dc.nodeLabel(la, bos, "BOS"))
	for i := range ts {
		t := &ts[i]
		if t.ID == tokenizer.BosEosID {
			continue
		}
		r := la.find(t)
		if r == nil {
			return fmt.Errorf("returned token %v is not a candidate", *t)
		}
		path = append(path, dc.nodeLabel(la, r, ""))
		if t.Class == tokenizer.UNKNOWN {
			add(r, "")
		}
	}
	path = append(path, dc.nodeLabel(la, eos, "EOS"))
	got := map[string]int{}
	for _, x := range g.nodes {
		got[labelText(x.attrs["label"])]++
	}
	if d := diffCounts(got, want); d != "" {
		return fmt.Errorf("nodes: %s", d)
	}
	wantE, gotE := map[string]int{}, map[string]int{}
	for i := range byStart {
		for _, b := range byStart[i] {
			for _, a := range byEnd[i] {
				wantE[fmt.Sprintf("%q -- %q [%d]", a.label, b.label, dc.conn(a.n, b.n))]++
			}
		}
	}
	for _, e := range g.edges {
		gotE[fmt.Sprintf("%q -- %q [%s]", labelText(g.byID[e.from].attrs["label"]), labelText(g.byID[e.to].attrs["label"]), e.attrs["label"])]++
	}
	if d := diffCounts(gotE, wantE); d != "" {
		return fmt.Errorf("edges: %s", d)
	}
	// the highlighted path
	nextOf := map[string]string{}
	inDeg := map[string]int{}
	bold := 0
	for _, e := range g.edges {
		if !isBold(e.attrs) {
			continue
		}
		bold++
		if _, dup := nextOf[e.from]; dup || inDeg[e.to] > 0 {
			return fmt.Errorf("highlighted edges fork at %q", g.byID[e.from].attrs["label"])
		}
		nextOf[e.from] = e.to
		inDeg[e.to]++
	}
	best := 0
	start := ""
	for _, x := range g.nodes {
		if isBest(x.attrs) {
			best++
			if inDeg[x.id] == 0 {
				if start != "" {
					return errors.New("highlighted nodes that do not form one path")
				}
				start = x.id
			}
		}
	}
	var walk []string
	for id := start; id != "" && len(walk) <= len(g.nodes); id = nextOf[id] {
		walk = append(walk, labelText(g.byID[id].attrs["label"]))
	}
	if !sameStrings(walk, path) || best != len(path) || bold != len(path)-1 {
		return fmt.Errorf("highlighted path (%d nodes, %d edges) %s, tokens %s", best, bold, quoteList(walk), quoteList(path))
	}
	return nil
}

// checkExtendedGraph: all user and known candidates are drawn and, of them, those that were returned are highlighted. What
// is drawn for the unknown words, which are returned as characters, is left open.
func checkExtendedGraph(dc *DictCfg, la *RLattice, g *dotGraph, ts []tokenizer.Token) error {
	n := len(la.runes)
	bos, eos := &RNode{class: clsDummy, id: -1}, &RNode{class: clsDummy, id: -1, start: n, end: n + 1}
	open := map[string]bool{} // labels of unknown candidates
	want := map[string]int{dc.nodeLabel(la, bos, "BOS"): 1, dc.nodeLabel(la, eos, "EOS"): 1}
	for _, l := range la.at {
		for i := range l {
			if l[i].class == clsUnknown {
				open[dc.nodeLabel(la, &l[i], "")] = true
			} else {
				want[dc.nodeLabel(la, &l[i], "")]++
			}
		}
	}
	wantBest := map[string]int{dc.nodeLabel(la, bos, "BOS"): 1, dc.nodeLabel(la, eos, "EOS"): 1}
	for i := range ts {
		if t := &ts[i]; t.Class == tokenizer.KNOWN || t.Class == tokenizer.USER {
			r := la.find(t)
			if r == nil {
				return fmt.Errorf("returned token %v is not a candidate", *t)
			}
			wantBest[dc.nodeLabel(la, r, "")]++
		}
	}
	got, gotBest := map[string]int{}, map[string]int{}
	for _, x := range g.nodes {
		l := labelText(x.attrs["label"])
		got[l]++
		if isBest(x.attrs) {
			gotBest[l]++
		}
	}
	for l := range open {
		for _, m := range []map[string]int{got, gotBest, want, wantBest} {
			delete(m, l)
		}
	}
	if d := diffCounts(got, want); d != "" {
		return fmt.Errorf("nodes: %s", d)
	}
	if d := diffCounts(gotBest, wantBest); d != "" {
		return fmt.Errorf("highlighted nodes: %s", d)
	}
	return nil
}

// sameGraph compares two drawings as labelled multigraphs with highlights, whatever their nodes are called.
func sameGraph(got, want string) error {
	count := func(text string) (map[string]int, error) {
		g, err := parseDot(text)
		if err != nil {
			return nil, fmt.Errorf("not valid DOT: %w", err)
		}
		m := map[string]int{}
		node := func(id string) string {
			x := g.byID[id]
			if x == nil {
				return "undeclared " + id
			}
			return fmt.Sprintf("%q best=%v", labelText(x.attrs["label"]), isBest(x.attrs))
		}
		for _, x := range g.nodes {
			m[node(x.id)]++
		}
		for _, e := range g.edges {
			m[fmt.Sprintf("%s -- %s [%s] bold=%v", node(e.from), node(e.to), e.attrs["label"], isBold(e.attrs))]++
		}
		return m, nil
	}
	a, err := count(got)
	if err != nil {
		return err
	}
	b, err := count(want)
	if err != nil {
		return fmt.Errorf("the library's graph is %w", err)
	}
	if d := diffCounts(a, b); d != "" {
		return fmt.Errorf("not the library's graph: %s", d)
	}
	return nil
}

func diffCounts(got, want map[string]int) string {
	var ds []string
	for k, n := range want {
		if got[k] != n {
			ds = append(ds, fmt.Sprintf("%s: %d, want %d", k, got[k], n))
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			ds = append(ds, fmt.Sprintf("%s: %d, want none", k, n))
		}
	}
	sort.Strings(ds)
	if len(ds) > 5 {
		ds = append(ds[:5], fmt.Sprintf("and %d more", len(ds)-5))
	}
	return strings.Join(ds, "; ")
}

func checkC14(w *W, dc *DictCfg, in string) error {
	la := dc.lattice(in)
	for _, m := range allModes {
		var b bytes.Buffer
		ts := dc.T.AnalyzeGraph(&b, in, m)
		w.traces++
		if err := checkGraph(w, dc, la, b.String(), ts, m); err != nil {
			return fmt.Errorf("mode %v: %w", m, err)
		}
		if err := sameTokens(dc.T.Analyze(in, m), ts); err != nil {
			return fmt.Errorf("mode %v: exporting altered the analysis: %w", m, err)
		}
	}
	if len(in) < 40 {
		var b bytes.Buffer
		ts := dc.T.Dot(&b, in)
		w.traces++
		if err := checkGraph(w, dc, la, b.String(), ts, tokenizer.Normal); err != nil {
			return fmt.Errorf("Dot: %w", err)
		}
		b.Reset()
		ts = dc.TOmit.AnalyzeGraph(&b, in, tokenizer.Search)
		w.traces++
		if err := checkGraph(w, dc, la, b.String(), ts, tokenizer.Search); err != nil {
			return fmt.Errorf("without BOS/EOS: %w", err)
		}
	}
	return nil
}

// checkC14Light: one mode only.
func checkC14Light(w *W, dc *DictCfg, in string) error {
	var b bytes.Buffer
	ts := dc.T.AnalyzeGraph(&b, in, tokenizer.Search)
	w.traces++
	return checkGraph(w, dc, dc.lattice(in), b.String(), ts, tokenizer.Search)
}

// failWriter accepts k bytes (whole is: or k calls) and then fails.
type failWriter struct {
	left, calls int
	short       bool
}

var errWriter = errors.New("writer failed")

func (f *failWriter) Write(p []byte) (int, error) {
	if f.calls == 0 {
		return 0, errWriter
	}
	f.calls--
	if len(p) > f.left {
		n := f.left
		f.left = 0
		if f.short {
			return n, io.ErrShortWrite
		}
		return n, errWriter
	}
	f.left -= len(p)
	return len(p), nil
}

func checkC14Fail(w *W, dc *DictCfg, in string) error {
	for _, m := range allModes {
		want := dc.T.Analyze(in, m)
		var b bytes.Buffer
		dc.T.AnalyzeGraph(&b, in, m)
		step := 1 + b.Len()/3000
		for k := 0; k <= b.Len()+1; k += step {
			w.traces++
			w.states++
			w.transitions += int64(k)
			got := dc.T.AnalyzeGraph(&failWriter{left: k, calls: -1, short: k%2 == 1}, in, m)
			if err := sameTokens(want, got); err != nil {
				return fmt.Errorf("mode %v: writer failing after %d bytes: %w", m, k, err)
			}
		}
		for k := 0; k < 40; k++ {
			w.traces++
			got := dc.T.AnalyzeGraph(&failWriter{left: 1 << 30, calls: k}, in, m)
			if err := sameTokens(want, got); err != nil {
				return fmt.Errorf("mode %v: writer failing after %d calls: %w", m, k, err)
			}
		}
		// and the next export is complete
		var b2 bytes.Buffer
		ts := dc.T.AnalyzeGraph(&b2, in, m)
		if err := checkGraph(w, dc, dc.lattice(in), b2.String(), ts, m); err != nil {
			return fmt.Errorf("mode %v: after failed exports: %w", m, err)
		}
	}
	return nil
}

func runC14(c *Ctx) {
	th := c.thorough
	x := newX(c, checkC14)
	fs := families(th)
	if !th {
		for i := range fs {
			fs[i].max = min(fs[i].max, 2)
		}
	}
	x.runSynth(fs...)
	uf := userFamily(th)
	uf.max = min(uf.max, 4)
	x.runSynth(uf)
	quotes := &Synth{Keys: []string{`"`, `"\`, `\`, `\"`, `\n`, "a"}, Morphs: [][3]int16{{}, {0, 0, -3}, {0, 0, 5}, {0, 0, 7}, {0, 0, -9}, {}}, N: 1, Conn: []int16{-4}, Group: 0b10, User: []string{`\\`, `"a`, `}`, `a];`}}
	quotes.defaultUnk(7)
	qd := quotes.cfg()
	x.runShort(qd, "synthetic with quotes", []string{`"`, `\`, "n", "a", "}", "]", ";", "\n", "漢", "\xff"}, 4)
	ip := ipaCfg()
	ipU := ipaCfg(concat(userWords, []string{`"`, `\`, `a"b\`, `N`})...)
	special := []string{`"`, `\`, "n", "l", "N", "G", "{", "}", "[", "]", ";", "#", "/", "*", "-", ">", "<", "&", "\n", "\r", "\t", "'", "%", "\x00", "\x7f", "\u2028"}
	n := 3
	x.runShort(ip, "ipa", special, n)
	x.runShort(ip, "ipa", concat(symValid, symOdd), 2)
	x.runShort(ip, "ipa, words of the program", symWords, 2)
	x.runShort(ipU, "ipa+user", []string{"東", "京", "a", "b", `"`, `\`, "2", "ア", "ー", "😀"}, n+1)
	x.runShort(ip, "ipa", []string{"あ", "の", "ア", "漢", "京", "2", "a", "。", "\xff", `\`}, n+1)
	if th {
		x.runSurfaces(ip, "ipa", [][2]string{{"", ""}, {"の", "あ"}})
		x.runText(ip, "ipa", []int{10, 40}, 3, []int{1000, 5000})
	} else {
		l := newX(c, checkC14Light)
		l.runSurfaces(ip, "ipa", [][2]string{{"", ""}})
		x.runText(ip, "ipa", []int{25}, 40, []int{1000})
	}
	x.runPump(ip, "ipa", []string{"a", "ア", `"`, `\`, "漢", "2", "\xff"}, []string{`"`}, []int{5, 17, 33, 64, 100, 300})
	x.runPump(ip, "ipa", []string{"a", "漢"}, []string{"の"}, []int{1023, 1024, 1025, 1500})
	c.Group("every character")
	parallel(c, 0x11000, func(w, r int) { x.one(w, "characters", ip, "a"+string(rune(r))+"漢") })
	x.flush()
	c.Group("writers failing at every byte")
	y := newX(c, checkC14Fail)
	y.list("failing writers", ip, []string{"", "a", "東京", "すもももももももものうち", "関西国際空港\xffabc", `"\`, "aaaaaaaaaa😀", strings.Repeat("ア", 50)})
	y.list("failing writers", ipU, []string{"東京", `a"b\東京大学`})
	y.list("failing writers", qd, []string{"", `"\n`})
	y.flush()
	c.Group("the lattice command")
	runLatticeCmd(c, ip)
	runGraphviz(c, ip, special)
	if uc := uniCfg; th {
		u := uc()
		x.runShort(u, "uni", concat(symValid, special), 2)
		x.runSurfaces(u, "uni", [][2]string{{"", ""}})
	}
	c.Set("bounds", "all strings of <=3 of 26 special symbols, <=4 of 10 symbols, all IPA spellings, every character; synthetic families; runs up to 1500 characters; writers failing at every byte of the export")
}

// runGraphviz lets graphviz's own parser read graphs, if it is installed: this binds the parser above to the real one.
func runGraphviz(c *Ctx, ip *DictCfg, special []string) {
	nop, err := exec.LookPath("nop")
	if err != nil || c.Done() {
		return
	}
	c.Group("graphs read by graphviz's parser")
	ins := concat(upto(special, 2), symOdd, []string{"", "東京都", "関西国際空港\n", `\\"`, `a"b`, "😀", strings.Repeat("ア", 40)})
	parallel(c, len(ins), func(_, i int) {
		in := ins[i]
		f := func() error {
			var b, out, er bytes.Buffer
			ip.T.AnalyzeGraph(&b, in, tokenizer.Search)
			g, err := parseDot(b.String())
			if err != nil {
				return err
			}
			cmd := exec.Command(nop)
			cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(b.Bytes()), &out, &er
			if err := cmd.Run(); err != nil || strings.Contains(er.String(), "error") {
				return fmt.Errorf("graphviz does not read the graph: %v %s", err, clip(er.String(), 500))
			}
			h, err := parseDot(out.String())
			if err != nil {
				return nil
			}
			if len(h.nodes) != len(g.nodes) || len(h.edges) != len(g.edges) {
				return fmt.Errorf("graphviz reads %d nodes and %d edges instead of %d and %d", len(h.nodes), len(h.edges), len(g.nodes), len(g.edges))
			}
			return nil
		}
		c.traces.Add(1)
		c.Add("graphs_read_by_graphviz", 1)
		if err := f(); err != nil {
			c.Fail("graphviz", B(in), err, f)
		}
	})
}

// runLatticeCmd: the command writes the same graph, to standard output or to a file.
func runLatticeCmd(c *Ctx, ip *DictCfg) {
	dir := must(os.MkdirTemp("", "vh-lattice"))
	defer os.RemoveAll(dir)
	oldOut, oldErr := latcmd.Stdout, latcmd.Stderr
	defer func() { latcmd.Stdout, latcmd.Stderr = oldOut, oldErr }()
	ud := filepath.Join(dir, "u.txt")
	os.WriteFile(ud, []byte("東京,東 京,トウ キョウ,カスタム\n"), 0o644)
	ipU := ipaCfg("東京,東 京,トウ キョウ,カスタム")
	for _, in := range []string{"", "a", "東京都", "すもも", `a "b" \`, "a b", "漢字\nかな", "aaaaaaaaaaaa", "関西国際空港", "\xff", "-x", "😀😀"} {
		for _, m := range []string{"normal", "search", "extended"} {
			for _, toFile := range []bool{false, true} {
				for _, user := range []bool{false, true} {
					for _, verbose := range []bool{false, true} {
						f := func() error {
							var out, er bytes.Buffer
							latcmd.Stdout, latcmd.Stderr = &out, &er
							args := []string{"-mode", m}
							file := filepath.Join(dir, "out.dot")
							if toFile {
								os.WriteFile(file, []byte(strings.Repeat("old contents ", 10000)), 0o600)
								args = append(args, "-output", file)
							}
							dc := ip
							if user {
								args = append(args, "-udict", ud)
								dc = ipU
							}
							if verbose {
								args = append(args, "-v")
							}
							if strings.HasPrefix(in, "-") {
								args = append(args, "--")
							}
							if err := latcmd.Run(context.Background(), append(args, in)); err != nil {
								return fmt.Errorf("lattice %q: %w", args, err)
							}
							text := out.String()
							if toFile {
								if text != "" {
									return fmt.Errorf("output on standard output with -output: %q", text)
								}
								text = string(must(os.ReadFile(file)))
							}
							mode := map[string]tokenizer.TokenizeMode{"normal": tokenizer.Normal, "search": tokenizer.Search, "extended": tokenizer.Extended}[m]
							w := &W{c: c}
							ts := dc.T.Analyze(in, mode)
							err := checkGraph(w, dc, dc.lattice(in), text, ts, mode)
							c.states.Add(w.states)
							c.transitions.Add(w.transitions)
							return err
						}
						c.traces.Add(1)
						if err := safe(f); err != nil {
							c.Fail("command", map[string]any{"input": B(in), "mode": m, "file": toFile, "user": user}, err, f)
						}
					}
				}
			}
		}
	}
}

func replayC14(c *Ctx, d Doc) error {
	var s strCase
	if json.Unmarshal(d.Case, &s) != nil || s.Key == "" {
		runLatticeCmd(c, ipaCfg())
		if len(c.violations) > 0 {
			return errors.New(c.violations[0].msg)
		}
		return nil
	}
	dc := cfgFromKey(s.Key)
	if err := safeStr(checkC14, &W{c: c}, dc, string(s.Input)); err != nil {
		return err
	}
	return safeStr(checkC14Fail, &W{c: c}, dc, string(s.Input))
}

func init() { register("C14", "model_checking", runC14, replayC14) }
