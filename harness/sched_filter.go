//go:build sched

package main

import (
	"bufio"
	"fmt"
	"io"
	"strings"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// The filters and splitters all operations share.
type sharedFilters struct {
	features []*filter.FeaturesFilter
	pos      []*filter.POSFilter
	words    []*filter.WordFilter
	ja       []*ja.Filter
	split    []func([]byte, bool) (int, []byte, error)
}

var (
	shared       *sharedFilters
	sharedTokens []tokenizer.Token
)

func patterns(s string) (ret [][]string) {
	for _, p := range strings.Split(s, ";") {
		if p != "" {
			ret = append(ret, strings.Split(strings.ReplaceAll(p, "?", filter.Any), ","))
		}
	}
	return
}

func freshFilters() {
	if sharedTokens == nil {
		sharedTokens = schedCfg(1).T.Analyze("ab漢axx abb漢b", tokenizer.Normal)
	}
	sp := &filter.SentenceSplitter{Delim: []rune("。、"), Follower: []rune("」"), SkipWhiteSpace: true, MaxRuneLen: 5}
	raw := filter.SentenceSplitter{Delim: []rune("。"), DoubleLineFeedSplit: true, MaxRuneLen: 100}
	shared = &sharedFilters{
		features: []*filter.FeaturesFilter{filter.NewFeaturesFilter(patterns("a,b;a,c,d;?,x;e")...), filter.NewFeaturesFilter(patterns("?,b,?;a,?,c")...)},
		pos:      []*filter.POSFilter{filter.NewPOSFilter(patterns("名詞;動詞,自立")...), filter.NewPOSFilter(patterns("?,一般;カスタムab")...)},
		words:    []*filter.WordFilter{filter.NewWordFilter([]string{"ab", "x"}), filter.NewWordFilter([]string{"漢", "b", " "})},
		ja: []*ja.Filter{
			mustRepo(ja.NewFilter(ja.StopWordsFilterOption([]string{"ab"}), ja.StopTagsFilterOption(patterns("名詞,一般")))),
			mustRepo(ja.NewFilter(ja.BaseFormFilterOption(patterns("名詞")))),
		},
		split: []func([]byte, bool) (int, []byte, error){filter.ScanSentences, sp.ScanSentences, raw.ScanSentences},
	}
}

func surfaces(ts []tokenizer.Token) string {
	var b strings.Builder
	for i := range ts {
		fmt.Fprintf(&b, "%d:%q@%d ", ts[i].Class, ts[i].Surface, ts[i].Position)
	}
	return b.String()
}

func (s *sharedFilters) scanner(i int, text string) *bufio.Scanner {
	sc := bufio.NewScanner(&pieceReader{text, 1 + (len(text)+i)%4})
	sc.Split(s.split[i])
	return sc
}

type pieceReader struct {
	s string
	n int
}

func (r *pieceReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(b, r.s[:min(r.n, len(r.s))])
	r.s = r.s[n:]
	return n, nil
}

// filterOp performs an operation with the shared filters.
func filterOp(o sop) string {
	if shared == nil {
		freshFilters()
	}
	var b strings.Builder
	in := string(o.In)
	ts := append([]tokenizer.Token(nil), sharedTokens...)
	apply := func(keep, drop func(*[]tokenizer.Token)) {
		if o.Mode == 0 {
			keep(&ts)
		} else {
			drop(&ts)
		}
		b.WriteString(surfaces(ts))
	}
	switch o.API {
	case "f:match":
		for _, v := range patterns(in) {
			fmt.Fprint(&b, shared.features[o.Cfg].Match(v), " ")
		}
	case "f:string":
		fmt.Fprint(&b, shared.features[o.Cfg])
	case "f:pos":
		apply(shared.pos[o.Cfg].Keep, shared.pos[o.Cfg].Drop)
	case "f:word":
		apply(shared.words[o.Cfg].Keep, shared.words[o.Cfg].Drop)
	case "f:func":
		m := func(t tokenizer.Token) bool { return strings.Contains(t.Surface, in) }
		apply(func(p *[]tokenizer.Token) { filter.Keep(p, m) }, func(p *[]tokenizer.Token) { filter.Drop(p, m) })
	case "f:ja":
		if o.Mode == 0 {
			fmt.Fprintf(&b, "%q", shared.ja[o.Cfg].Yield(ts))
			b.WriteString(surfaces(ts))
		} else {
			shared.ja[o.Cfg].Drop(&ts)
			b.WriteString(surfaces(ts))
		}
	case "f:janew":
		var opts []ja.FilterOption
		words := strings.Split(in, ",")
		if in != "" {
			opts = append(opts, ja.StopWordsFilterOption(words))
		}
		f := mustRepo(ja.NewFilter(opts...))
		for i := range words { // the list is the caller's again
			words[i] = "scribble"
		}
		fmt.Fprintf(&b, "%q", f.Yield(ts))
	case "f:new":
		ps, vs := patterns(in), patterns("a,b,c;b,b;a;c,d,e")
		f, w := filter.NewFeaturesFilter(ps...), filter.NewWordFilter(ps[0])
		for _, p := range ps {
			for i := range p {
				p[i] = "scribble"
			}
		}
		for _, v := range vs {
			fmt.Fprint(&b, f.Match(v), w.Match(v[0]), " ")
		}
	case "f:split":
		sc := shared.scanner(o.Cfg, in)
		for sc.Scan() {
			fmt.Fprintf(&b, "%q ", sc.Text())
		}
		fmt.Fprint(&b, sc.Err())
	default:
		panic("no such operation: " + o.API)
	}
	return b.String()
}

func init() {
	filterHook, filterFresh = filterOp, freshFilters
}
