"""Edits of /repo that keep the behaviour: every check must stay quiet on them (tools/tryrefac.py)."""
L = "tokenizer/lattice/lattice.go"; N = "tokenizer/lattice/node.go"; P = "tokenizer/lattice/mem/pool.go"; TZ = "tokenizer/tokenizer.go"; TK = "tokenizer/token.go"
F = "filter/feature.go"; FF = "filter/filter.go"; W = "filter/word.go"; POS = "filter/pos.go"; SS = "filter/sentence_splitter.go"; JA = "filter/ja/filter.go"; JL = "filter/ja/loader.go"
API = "cmd/server/api.go"; DEMO = "cmd/server/demo.go"; SRV = "cmd/server/cmd.go"; TC = "cmd/tokenize/cmd.go"; SC = "cmd/sentence/cmd.go"; LC = "cmd/lattice/cmd.go"
REFS = {}
TOKC = "C01 C02 C03 C04 C05 C06 C07 C13 C14 C17".split()
REFS["forward-local"] = (TOKC, [
 (L, '''		currentList := la.list[i]
		for index, target := range currentList {
			prevList := la.list[target.Start]
			if len(prevList) == 0 {
				la.list[i][index].Cost = maximumCost
				continue
			}
			la.list[i][index].Cost, la.list[i][index].prev = maximumCost, nil
			for j, n := range prevList {
				if n.prev == nil && n.Class != DUMMY {
					continue // not reachable from BOS
				}
				var c int16
				if n.Class != USER && target.Class != USER {
					c = la.dic.Connection.At(int(n.Right), int(target.Left))
				}
				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
				if m != Normal {
					totalCost += int64(additionalCost(n))
				}
				if totalCost > maximumCost {
					totalCost = maximumCost
				}
				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
					la.list[i][index].prev = la.list[target.Start][j]
				}
			}
		}
	}
}
''', '''		for _, target := range la.list[i] {
			la.relax(target, m)
		}
	}
}

// connectionCost returns the cost of two adjacent nodes.
func (la *Lattice) connectionCost(l, r *Node) int64 {
	if l.Class == USER || r.Class == USER {
		return 0
	}
	return int64(la.dic.Connection.At(int(l.Right), int(r.Left)))
}

// relax chooses the best predecessor of a node.
func (la *Lattice) relax(target *Node, m TokenizeMode) {
	best, cost := (*Node)(nil), int64(maximumCost)
	for _, n := range la.list[target.Start] {
		if n.prev == nil && n.Class != DUMMY {
			continue // not reachable from BOS
		}
		total := la.connectionCost(n, target) + int64(target.Weight) + int64(n.Cost)
		if m == Search || m == Extended {
			total += int64(additionalCost(n))
		}
		if best == nil || total < cost {
			if total > maximumCost {
				total = maximumCost
			}
			best, cost = n, total
		}
	}
	target.prev, target.Cost = best, int32(cost)
}
''')])
REFS["build-split"] = (TOKC, [
 (L, '''			var endPos int
			if ch != utf8.RuneError {
				endPos = pos + utf8.RuneLen(ch)
			} else {
				// an invalid byte or a (valid) U+FFFD in the input
				_, size := utf8.DecodeRuneInString(inp[pos:])
				endPos = pos + size
			}
			unkWordLen := 1
			if la.dic.GroupList[int(class)] {
				for i, w, size := endPos, 0, len(inp); i < size; i += w {
					var c rune
					c, w = utf8.DecodeRuneInString(inp[i:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}
			}

			prev := pos
			if c, size := utf8.DecodeLastRuneInString(inp[pos:endPos]); c != utf8.RuneError {
				prev = endPos - size
			}
			id := la.dic.UnkDict.Index[int32(class)]
			dup := la.dic.UnkDict.IndexDup[int32(class)]
			for x := 0; x < int(dup)+1; x++ {
				if pos < prev {
					// add the string with one character truncated at the end.
					la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:prev])
				}
				la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])
			}
		}
	}
}
''', '''			la.addUnknowns(inp, pos, runePos)
		}
	}
}

// unknownWord returns the end of the unknown word at pos.
func (la *Lattice) unknownWord(inp string, pos int) int {
	c, size := utf8.DecodeRuneInString(inp[pos:])
	class := la.dic.CharacterCategory(c)
	end := pos + size
	if !la.dic.GroupList[int(class)] {
		return end
	}
	for n := 1; n < maximumUnknownWordLength && end < len(inp); n++ {
		c, size := utf8.DecodeRuneInString(inp[end:])
		if la.dic.CharacterCategory(c) != class {
			return end
		}
		end += size
	}
	return end
}

// addUnknowns adds the unknown words at pos.
func (la *Lattice) addUnknowns(inp string, pos, runePos int) {
	end := la.unknownWord(inp, pos)
	first, _ := utf8.DecodeRuneInString(inp[pos:])
	class := int32(la.dic.CharacterCategory(first))
	surfaces := []string{inp[pos:end]}
	if last, size := utf8.DecodeLastRuneInString(inp[pos:end]); last != utf8.RuneError && end-size > pos {
		surfaces = []string{inp[pos : end-size], inp[pos:end]}
	}
	from := int(la.dic.UnkDict.Index[class])
	to := from + int(la.dic.UnkDict.IndexDup[class])
	for id := from; id <= to; id++ {
		for _, s := range surfaces {
			la.addNode(runePos, id, pos, runePos, UNKNOWN, s)
		}
	}
}
''')])
REFS["analyze-shared"] = (TOKC + ["C16", "C15"], [
 (TZ, '''func (t Tokenizer) Analyze(input string, mode TokenizeMode) []Token {
	la := lattice.New(t.dict, t.userDict)
	defer la.Free()
	la.Build(input)
''', '''func (t Tokenizer) Analyze(input string, mode TokenizeMode) []Token {
	return t.AnalyzeGraph(nil, input, mode)
}

func (t Tokenizer) oldAnalyze(input string, mode TokenizeMode) []Token {
	la := lattice.New(t.dict, t.userDict)
	defer la.Free()
	la.Build(input)
'''), (TZ, "	la.Dot(w)\n", "	if w != nil {\n		la.Dot(w)\n	}\n")])
REFS["pool-mutex"] = (["C06", "C07", "C01", "C13"], [
 (P, '''	internal *sync.Pool
''', '''	mu   *sync.Mutex
	free *[]*T
	newF func() *T
'''), (P, '''		internal: &sync.Pool{
			New: func() any {
				return newF()
			},
		},
''', '''		mu:   new(sync.Mutex),
		free: new([]*T),
		newF: newF,
'''), (P, "	return p.internal.Get().(*T)\n", '''	p.mu.Lock()
	defer p.mu.Unlock()
	f := *p.free
	if len(f) == 0 {
		return p.newF()
	}
	x := f[len(f)-1]
	f[len(f)-1] = nil
	*p.free = f[:len(f)-1]
	return x
'''), (P, "	p.internal.Put(x)\n", "	p.mu.Lock()\n	*p.free = append(*p.free, x)\n	p.mu.Unlock()\n")])
REFS["pool-none"] = (["C06", "C07", "C17"], [
 (L, "	la := latticePool.Get()\n", "	la := &Lattice{}\n"), (L, "	latticePool.Put(la)\n", ""), (L, "			nodePool.Put(la.list[i][j])\n", ""),
 (L, "	n := nodePool.Get()\n", "	n := new(Node)\n"), (L, '''var latticePool = mem.NewPool[Lattice](func() *Lattice {
	return new(Lattice)
})

''', ""), (L, '	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"\n', ""), (N, '''import (
	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
)

''', ""), (N, '''var nodePool = mem.NewPool[Node](func() *Node {
	return new(Node)
})
''', "")])
REFS["pool-chan"] = (["C06", "C07"], [
 (P, "	internal *sync.Pool\n", "	internal *sync.Pool\n	ch       chan *T\n"),
 (P, "	return Pool[T]{\n", "	return Pool[T]{\n		ch: make(chan *T, 64),\n"),
 (P, "	return p.internal.Get().(*T)\n", "	select {\n	case x := <-p.ch:\n		return x\n	default:\n		return p.internal.Get().(*T)\n	}\n"),
 (P, "	p.internal.Put(x)\n", "	select {\n	case p.ch <- x:\n	default:\n		p.internal.Put(x)\n	}\n")])
REFS["token-once"] = (["C07", "C06", "C08"], [
 (TK, '''func (c TokenClass) String() string {
	ret := ""
	switch c {
	case DUMMY:
		ret = "DUMMY"
	case KNOWN:
		ret = "KNOWN"
	case UNKNOWN:
		ret = "UNKNOWN"
	case USER:
		ret = "USER"
	}
	return ret
}
''', '''func (c TokenClass) String() string {
	namesOnce.Do(func() {
		names = map[TokenClass]string{DUMMY: "DUMMY", KNOWN: "KNOWN", UNKNOWN: "UNKNOWN", USER: "USER"}
	})
	return names[c]
}

var (
	namesOnce sync.Once
	names     map[TokenClass]string
)
'''), (TK, '	"strings"\n', '	"strings"\n	"sync"\n')])
REFS["cache-ok"] = (["C06", "C07", "C17", "C01"], [
 (L, "	if l > searchModeKanjiLength && kanjiOnly(n.Surface) {\n", "	if l > searchModeKanjiLength && cachedKanjiOnly(n.Surface) {\n"),
 (L, "func kanjiOnly(s string) bool {", '''var kanjiCache sync.Map

func cachedKanjiOnly(s string) bool {
	if v, ok := kanjiCache.Load(s); ok {
		return v.(bool)
	}
	v := kanjiOnly(s)
	kanjiCache.Store(s, v)
	return v
}

func kanjiOnly(s string) bool {'''), (L, '	"strings"\n', '	"strings"\n	"sync"\n')])
REFS["splitter"] = (["C11", "C12", "C16"], [
 (SS, '''	for _, d := range s.Delim {
		if r == d {
			return true
		}
	}
	return false
}

func (s SentenceSplitter) isFollower(r rune) bool {
	for _, d := range s.Follower {
		if r == d {
			return true
		}
	}
	return false
}
''', '''	return contains(s.Delim, r)
}

func (s SentenceSplitter) isFollower(r rune) bool {
	return contains(s.Follower, r)
}

func contains(set []rune, r rune) bool {
	for i := range set {
		if set[i] == r {
			return true
		}
	}
	return false
}
'''), (SS, '''		if end != p {
			for i := 0; i < size; i++ {
				data[end+i] = data[p+i]
			}
		}
		p += size
		end += size
		rcount++
''', '''		copy(data[end:end+size], data[p:p+size])
		p, end = p+size, end+size
		rcount++
''')])
REFS["splitter-nocopy"] = (["C11", "C12", "C16"], [
 (SS, "	if s.SkipWhiteSpace && !atEOF {\n", "	if s.SkipWhiteSpace {\n")])
REFS["filter-generic"] = (["C09", "C10"], [
 (W, '''	if tokens == nil {
		return
	}
	tail := 0
	for i, v := range *tokens {
		if f.Match(v.Surface) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''', '''	applyFilter(func(t tokenizer.Token) bool { return f.Match(t.Surface) }, tokens, drop)
'''), (FF, '''	tail := 0
	for i, v := range *tokens {
		if match(v) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''', '''	out := make([]tokenizer.Token, 0, len(*tokens))
	for _, v := range *tokens {
		if match(v) != drop {
			out = append(out, v)
		}
	}
	*tokens = out
'''), (F, '''	if len(fs) == 0 {
		return false
	}
	for _, v := range n.fanout {
		if v.val != Any && v.val != fs[0] {
			continue
		}
		if v.to.isLeaf() || v.to.match(fs[1:]) {
			return true
		}
	}
	return false
''', '''	if len(fs) == 0 {
		return false
	}
	head, rest := fs[0], fs[1:]
	for i := range n.fanout {
		e := n.fanout[i]
		if (e.val == Any || e.val == head) && (e.to.isLeaf() || e.to.match(rest)) {
			return true
		}
	}
	return false
''')])
REFS["filter-list"] = (["C09", "C10"], [
 (F, "	return f.root.match(fs)\n", '''	for _, p := range f.patterns {
		if len(p) > 0 && matchPrefix(p, fs) {
			return true
		}
	}
	return false
'''), (F, "func NewFeaturesFilter(fs ...Features) *FeaturesFilter {\n	var ret FeaturesFilter\n", '''func NewFeaturesFilter(fs ...Features) *FeaturesFilter {
	var ret FeaturesFilter
	for _, v := range fs {
		ret.patterns = append(ret.patterns, append(Features(nil), v...))
	}
'''), (F, "	root filterNode\n", "	root     filterNode\n	patterns []Features\n"), (F, "// Match returns true", '''func matchPrefix(p, fs Features) bool {
	if len(fs) < len(p) {
		return false
	}
	for i, v := range p {
		if v != Any && v != fs[i] {
			return false
		}
	}
	return true
}

// Match returns true''')])
REFS["api-stream"] = (["C13"], [
 (API, '''	resp, err := json.Marshal(TokenizerResponseBody{
		Status: true,
		Tokens: tokenData,
	})
	if err != nil {
		http.Error(w, fmt.Sprintf("{\\"status\\":false,\\"error\\":%s}", quote(err)), http.StatusInternalServerError)
		return
	}
	w.WriteHeader(http.StatusOK)
	w.Write(resp)
''', '''	w.WriteHeader(http.StatusOK)
	_ = json.NewEncoder(w).Encode(TokenizerResponseBody{
		Status: true,
		Tokens: tokenData,
	})
'''), (API, "	var tokenData []tokenizer.TokenData\n	for _, v := range tokens {\n		if v.ID == tokenizer.BosEosID {\n			continue\n		}\n		tokenData = append(tokenData, tokenizer.NewTokenData(v))\n	}\n", '''	tokenData := make([]tokenizer.TokenData, 0, len(tokens))
	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			tokenData = append(tokenData, tokenizer.NewTokenData(tokens[i]))
		}
	}
''')])
REFS["api-readall"] = (["C13"], [
 (API, '''	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
''', '''	defer r.Body.Close()
	dec := json.NewDecoder(bufio.NewReader(r.Body))
	err := dec.Decode(&req)
	if err != nil {
'''), (API, "	resp, err := json.Marshal", "	var resp []byte\n	resp, err = json.Marshal"), (API, 'import (\n', 'import (\n	"bufio"\n')])
REFS["server-notify"] = (["C19", "C13", "C18"], [
 (SRV, """	ctx, stop := signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
	defer stop()
	return command(ctx, opt)
""", """	ctx, cancel := context.WithCancel(ctx)
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
	done := make(chan struct{})
	go func() {
		defer close(done)
		select {
		case <-c:
			cancel()
		case <-ctx.Done():
		}
	}()
	defer func() {
		signal.Stop(c)
		cancel()
		<-done
	}()
	return command(ctx, opt)
""")])
REFS["server-listen"] = (["C19", "C13", "C15"], [
 (SRV, '''	ch := make(chan error)
	go func() {
		log.Println(opt.http)
		ch <- srv.ListenAndServe()
	}()
''', '''	addr := opt.http
	if addr == "" {
		addr = ":http"
	}
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return fmt.Errorf("server error, %w", err)
	}
	log.Println(opt.http)
	ch := make(chan error, 1)
	go func() {
		defer close(ch)
		ch <- srv.Serve(ln)
	}()
'''), (SRV, '	"net/http"\n', '	"net"\n	"net/http"\n')])
REFS["demo-waitdelay"] = (["C15"], [
 (DEMO, '''	done := make(chan error, 1)
	go func() {
		done <- cmd.Run()
	}()
	select {
	case err := <-done:
		if err != nil {
			return nil, "", fmt.Errorf("process done with error, %w", err)
		}
	case <-ctx.Done(): // do not wait for a descendant of the killed process that holds its pipes
		return nil, "", fmt.Errorf("process done with error, %w", ctx.Err())
	}
''', '''	cmd.WaitDelay = time.Second
	if err := cmd.Run(); err != nil {
		if ctx.Err() != nil {
			err = ctx.Err()
		}
		return nil, "", fmt.Errorf("process done with error, %w", err)
	}
''')])
REFS["demo-buffer"] = (["C15"], [
 (DEMO, '''	if err := graphT.Execute(w, struct {''', '''	var page bytes.Buffer
	defer func() {
		w.Header().Set("Content-Type", "text/html; charset=utf-8")
		_, _ = w.Write(page.Bytes())
	}()
	if err := graphT.Execute(&page, struct {''')])
REFS["cmd-buffered"] = (["C16", "C18", "C20"], [
 (TC, '''	for s.Scan() {
		tokens := t.Analyze(s.Text(), mode)
		if !opt.json {
			printTokens(tokens)
			continue
		}
		if err := printTokensJSON(tokens); err != nil {
			return err
		}
	}
	return s.Err()
''', '''	show := func(tokens []tokenizer.Token) error {
		printTokens(tokens)
		return nil
	}
	if opt.json {
		show = printTokensJSON
	}
	for s.Scan() {
		if err := show(t.Analyze(string(s.Bytes()), mode)); err != nil {
			return err
		}
	}
	if err := s.Err(); err != nil {
		return fmt.Errorf("read error: %w", err)
	}
	return nil
'''), (SC, '''	for scanner.Scan() {
		fmt.Fprintln(w, scanner.Text())
	}
	return scanner.Err()
''', '''	bw := bufio.NewWriter(w)
	defer bw.Flush()
	for scanner.Scan() {
		bw.Write(scanner.Bytes())
		bw.WriteByte('\\n')
	}
	return scanner.Err()
''')])
REFS["cmd-bigbuffer"] = (["C16", "C20"], [
 (TC, "	s := bufio.NewScanner(fp)\n", "	s := bufio.NewScanner(fp)\n	s.Buffer(make([]byte, 0, 64*1024), 1024*1024)\n")])
REFS["dot-builder"] = (["C14", "C17", "C15"], [
 (L, '	fmt.Fprintln(w, "graph lattice {")\n', '	out := w\n	var buf strings.Builder\n	w = &buf\n	defer func() { _, _ = io.WriteString(out, buf.String()) }()\n	fmt.Fprintln(w, "graph lattice {")\n'),
 (L, "	edges := make([]edge, 0, 1024)\n", "	var edges []edge\n")])
REFS["dot-ids"] = (["C14", "C15", "C17"], [
 (L, '	fmt.Fprintln(w, "graph lattice {")\n', '''	names := map[*Node]string{}
	name := func(n *Node) string {
		if _, ok := names[n]; !ok {
			names[n] = fmt.Sprintf("n%d", len(names))
		}
		return names[n]
	}
	fmt.Fprintln(w, "graph lattice {")
'''),
 (L, '''fmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\",shape=ellipse, peripheries=2];\\n", n, surf,''', '''fmt.Fprintf(w, "\\t%s [peripheries=2, shape=ellipse, label=\\"%s\\\\n%s\\\\n%d\\"]\\n", name(n), surf,'''),
 (L, '''fmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\"];\\n", n, surf,''', '''fmt.Fprintf(w, "\\t%s [label=\\"%s\\\\n%s\\\\n%d\\"];\\n", name(n), surf,'''),
 (L, '''"\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\", style=bold, color=blue, fontcolor=blue];\\n",
				e.from, e.to, c)''', '''"\\t%s -- %s [label=\\"%d\\", style=bold, color=blue, fontcolor=blue];\\n",
				name(e.from), name(e.to), c)'''),
 (L, '''"\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\"];\\n",
				e.from, e.to, c)''', '''"\\t%s -- %s [label=\\"%d\\"];\\n",
				name(e.from), name(e.to), c)''')])
REFS["token-accessors"] = (["C08", "C10", "C13", "C17"], [
 (TK, '''		features := make([]string, len(t.dict.UnkDict.Contents[t.ID]))
		for i := range t.dict.UnkDict.Contents[t.ID] {
			features[i] = t.dict.UnkDict.Contents[t.ID][i]
		}
		return features
''', '''		return append([]string{}, t.dict.UnkDict.Contents[t.ID]...)
'''), (TK, '''	if t.Class != USER {
		return nil
	}
	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))
	copy(tokens, t.udict.Contents[t.ID].Tokens)
	yomi := make([]string, len(t.udict.Contents[t.ID].Yomi))
	copy(yomi, t.udict.Contents[t.ID].Yomi)
	return &UserExtra{
		Tokens:   tokens,
		Readings: yomi,
	}
''', '''	if t.Class == USER {
		c := t.udict.Contents[t.ID]
		return &UserExtra{
			Tokens:   append([]string{}, c.Tokens...),
			Readings: append([]string{}, c.Yomi...),
		}
	}
	return nil
''')])
REFS["options-switch"] = (["C18", "C16", "C20"], [
 (TC, '''	if o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended" {
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}
''', '''	switch o.mode {
	case "", "normal", "search", "extended":
	default:
		return fmt.Errorf("invalid mode: %q", o.mode)
	}
'''), (LC, '''	if o.flagSet.NArg() == 0 {
		return errors.New("no option is specified")
	}
''', '''	rest := o.flagSet.Args()
	if len(rest) == 0 {
		return errors.New("nothing to analyze")
	}
''')])

REFS["cmd-records"] = (["C16", "C20", "C18"], [
 (TC, """	w := bufio.NewWriter(Stdout)
	defer w.Flush()
	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		w.WriteString(v.Surface)
		if v.Class != tokenizer.DUMMY {
			w.WriteString("\\t")
			w.WriteString(strings.Join(v.Features(), ","))
		}
		w.WriteString("\\n")
	}
	w.WriteString("EOS\\n")
""", """	var w strings.Builder
	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			w.WriteString(record(&tokens[i]) + "\\n")
		}
	}
	w.WriteString("EOS\\n")
	fmt.Fprint(Stdout, w.String())
}

// record is the output line of a token.
func record(v *tokenizer.Token) string {
	if v.Class == tokenizer.DUMMY {
		return v.Surface
	}
	return v.Surface + "\\t" + strings.Join(v.Features(), ",")
"""), (TC, """	w.Write(bytes.Join(array, []byte(",\\n")))
""", """	for i, v := range array {
		if i != 0 {
			w.WriteString(",\\n")
		}
		w.Write(v)
	}
"""), (TC, '	"bytes"\n', '')])
REFS["main-map"] = (["C18", "C20"], [
 ("kagome.go", """		for i := range subcommands {
			if os.Args[1] == subcommands[i].Name {
				run = subcommands[i].Run
			}
		}
""", """		byName := map[string]func(context.Context, []string) error{}
		for _, c := range subcommands {
			byName[c.Name] = c.Run
		}
		run = byName[os.Args[1]]
""")])
REFS["lattice-once"] = (["C16", "C20", "C14"], [
 (LC, """	w := &errWriter{Writer: out}
	tokens := t.AnalyzeGraph(w, opt.input, mode)
	if w.err != nil {
		return w.err
	}
""", """	var graph strings.Builder
	tokens := t.AnalyzeGraph(&graph, opt.input, mode)
	w := &errWriter{Writer: out}
	if _, err := io.WriteString(w, graph.String()); err != nil {
		return err
	}
"""), (LC, """		for i, size := 1, len(tokens); i < size; i++ {
			tok := tokens[i]
			f := tok.Features()
			if tok.Class == tokenizer.DUMMY {
				fmt.Fprintf(Stderr, "%s\\n", tok.Surface)
			} else {
				fmt.Fprintf(Stderr, "%s\\t%v\\n", tok.Surface, strings.Join(f, ","))
			}
		}
""", """		for _, tok := range tokens[1:] {
			line := tok.Surface
			if tok.Class != tokenizer.DUMMY {
				line += "\\t" + strings.Join(tok.Features(), ",")
			}
			fmt.Fprintln(Stderr, line)
		}
""")])

# --- demo page script
HTML = "cmd/server/asset/demo.html"
PAGEC = "C21 C15".split()
TOK_OLD = '''        $.post('./tokenize', JSON.stringify(o), function(data, status) {
            if(n == latest){ // the answers may arrive in another order
                cb(data, status);
            }
        }, 'json');
'''
CB_OLD = '''            $("#morphs").empty();
            $.each(data.tokens, function(i, val) {
                pos = (val.pos == null) ? "*" : val.pos;
                base = val.base_form != "" ? val.base_form : "*";
                reading = val.reading != "" ? val.reading : "*";
                pronoun = val.pronunciation!= "" ? val.pronunciation : "*";
                $("#morphs").append(
                    $("<tr>").append(
                        $("<td>").text(val.surface),
                        $("<td>").text(String(pos)),
                        $("<td>").text(base),
                        $("<td>").text(reading),
                        $("<td>").text(pronoun)
                    )
                );
            });
'''
REFS["page-fetch"] = (PAGEC, [(HTML, TOK_OLD, '''        fetch('./tokenize', {method: 'POST', body: JSON.stringify(o)})
            .then(function(r) { if(!r.ok) { throw new Error(r.status); } return r.json(); })
            .then(function(data) { if(n == latest) { cb(data, "success"); } })
            .catch(function(e) { console.log(e); });
''')])
REFS["page-async"] = (["C21"], [(HTML, "    function tokenize() {", "    async function tokenize() {"), (HTML, TOK_OLD, '''        try {
            const r = await fetch('./tokenize', {method: 'POST', headers: {'Content-Type': 'application/json'}, body: JSON.stringify(o)});
            if(!r.ok) return;
            const data = await r.json();
            if(n === latest) cb(data, "success");
        } catch(e) {
            console.error(e);
        }
''')])
REFS["page-xhr"] = (PAGEC, [(HTML, TOK_OLD, '''        var x = new XMLHttpRequest();
        x.open('POST', './tokenize');
        x.onload = function() {
            if(n != latest || x.status != 200) { return; }
            try { cb(JSON.parse(x.responseText), "success"); } catch(e) { /* not JSON */ }
        };
        x.send(JSON.stringify(o));
''')])
REFS["page-ajax"] = (["C21"], [(HTML, TOK_OLD, '''        $.ajax({url: './tokenize', type: 'POST', data: JSON.stringify(o), dataType: 'json', success: function(data, status) {
            if(n == latest){ // the answers may arrive in another order
                cb(data, status);
            }
        }});
''')])
REFS["page-abort"] = (["C21"], [(HTML, "    var latest = 0; // number of the latest request\n", "    var pending = null; // the latest request\n"), (HTML, "        var n = ++latest;\n", "        if(pending) { pending.abort(); }\n"), (HTML, TOK_OLD, "        pending = $.post('./tokenize', JSON.stringify(o), cb, 'json');\n")])
REFS["page-native-rows"] = (PAGEC, [(HTML, CB_OLD, '''            var body = document.getElementById("morphs");
            while(body.firstChild) { body.removeChild(body.firstChild); }
            data.tokens.forEach(function(val) {
                var tr = document.createElement("tr");
                var pos = (val.pos == null) ? "*" : val.pos;
                [val.surface, String(pos), val.base_form, val.reading, val.pronunciation].forEach(function(x, i) {
                    var td = document.createElement("td");
                    td.textContent = (i >= 2 && x === "") ? "*" : x;
                    tr.appendChild(td);
                });
                body.appendChild(tr);
            });
''')])
REFS["page-fragment"] = (["C21"], [(HTML, CB_OLD, '''            const frag = document.createDocumentFragment();
            for (const {surface, pos, base_form, reading, pronunciation} of data.tokens) {
                const tr = document.createElement("tr");
                for (const x of [surface, (pos || ["*"]).join(","), base_form || "*", reading || "*", pronunciation || "*"]) {
                    const td = document.createElement("td");
                    td.append(x);
                    tr.append(td);
                }
                frag.append(tr);
            }
            document.querySelector("#morphs").replaceChildren(frag);
''')])
REFS["page-escape"] = (["C21"], [(HTML, CB_OLD, '''            var esc = function(x) { return String(x).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;"); };
            var rows = $.map(data.tokens, function(val) {
                var cells = [val.surface, (val.pos == null) ? "*" : val.pos, val.base_form || "*", val.reading || "*", val.pronunciation || "*"];
                return "<tr><td>" + $.map(cells.map(String), esc).join("</td><td>") + "</td></tr>";
            });
            $("#morphs").html(rows.join("\\n"));
''')])
REFS["page-inner"] = (["C21"], [(HTML, CB_OLD, '''            const esc = x => String(x).replace(/[&<>"']/g, c => `&#${c.charCodeAt(0)};`);
            document.getElementById("morphs").innerHTML = data.tokens.map(val =>
                `<tr><td>${esc(val.surface)}</td><td>${esc(val.pos == null ? "*" : val.pos)}</td><td>${esc(val.base_form || "*")}</td><td>${esc(val.reading || "*")}</td><td>${esc(val.pronunciation || "*")}</td></tr>`).join("");
''')])
REFS["page-insertrow"] = (["C21"], [(HTML, CB_OLD, '''            var body = document.getElementById("morphs");
            while(body.rows.length > 0) { body.deleteRow(0); }
            data.tokens.forEach(function(val) {
                var row = body.insertRow();
                [val.surface, val.pos == null ? "*" : val.pos.join(), val.base_form || "*", val.reading || "*", val.pronunciation || "*"].forEach(function(x) { row.insertCell().textContent = x; });
            });
''')])
REFS["page-listeners"] = (PAGEC, [(HTML, ''' oninput="tokenize()" target''', ''' target'''), (HTML, '''    $('input[name="r"]:radio').change( function() {
        tokenize();
    })
''', '''    document.getElementById("inp").addEventListener("input", tokenize);
    document.querySelectorAll('input[name="r"]').forEach(function(e) {
        e.addEventListener("change", function() { tokenize(); });
    });
''')])
REFS["page-jq-mode"] = (["C21"], [(HTML, '''document.getElementById("inp").value''', '''$("#inp").val()'''), (HTML, '''$('input[name="r"]').filter(':checked').val()''', '''document.querySelector('input[name="r"]:checked').value'''), (HTML, '''    $('input[name="r"]:radio').change( function() {
        tokenize();
    })
''', '''    $(function() {
        $("form").bind("change", tokenize);
    });
''')])
REFS["page-helper"] = (PAGEC, [(HTML, CB_OLD, '''            var body = $("#morphs").empty();
            for (var i = 0; i < data.tokens.length; i++) {
                body.append(row(data.tokens[i]));
            }
'''), (HTML, "    function cb(data, status) {", '''    // star replaces what is not known.
    function star(x) {
        return (x == null || x === "") ? "*" : String(x);
    }

    function row(val) {
        var tr = $("<tr></tr>");
        $.each([val.surface, val.pos, val.base_form, val.reading, val.pronunciation], function(i, x) {
            $("<td/>", {text: i == 0 ? x : star(x)}).appendTo(tr);
        });
        return tr;
    }

    function cb(data, status) {''')])
REFS["page-debounce"] = (["C21"], [(HTML, "    function tokenize() {\n", '''    var timer = null;

    function tokenize() {
        clearTimeout(timer);
        timer = setTimeout(send, 50);
    }

    function send() {
''')])
REFS["page-ids"] = (PAGEC, [(HTML, 'id="morphs"', 'id="result"'), (HTML, '$("#morphs").empty()', '$("#result").empty()'), (HTML, '$("#morphs").append(', '$("#result").append('), (HTML, 'id="inp"', 'id="text"'), (HTML, 'getElementById("inp")', 'getElementById("text")')])
REFS["page-thead"] = (PAGEC, [(HTML, '<thread><tr>', '<thead><tr>'), (HTML, '</tr></thread>', '</tr></thead>'), (HTML, '<div id="center">', '<main id="center">'), (HTML, '  </table>\n</div>', '  </table>\n</main>'), (HTML, 'div#center', 'main#center')])
