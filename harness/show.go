package main

import (
	"fmt"
	"regexp"
	"strconv"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

var ptrRE = regexp.MustCompile(`0x[0-9a-f]+`)

func normalGraph(b []byte) string {
	names := map[string]string{}
	return ptrRE.ReplaceAllStringFunc(string(b), func(s string) string {
		n, ok := names[s]
		if !ok {
			n = fmt.Sprint("n", len(names))
			names[s] = n
		}
		return n
	})
}

// describe shows everything about tokens.
func describe(ts []tokenizer.Token) string {
	var b []byte
	list := func(l []string) {
		b = append(b, '[')
		for _, s := range l {
			b = append(b, s...)
			b = append(b, '|')
		}
		b = append(b, ']')
	}
	opt := func(s string, ok bool) {
		b = strconv.AppendBool(b, ok)
		b = append(b, s...)
		b = append(b, ' ')
	}
	for i := range ts {
		t := &ts[i]
		for _, n := range []int{t.Index, t.ID, int(t.Class), t.Position, t.Start, t.End} {
			b = strconv.AppendInt(b, int64(n), 10)
			b = append(b, ' ')
		}
		b = strconv.AppendQuote(b, t.Surface)
		list(t.Features())
		list(t.POS())
		opt(t.FeatureAt(0))
		opt(t.BaseForm())
		opt(t.Reading())
		if u := t.UserExtra(); u != nil {
			list(u.Tokens)
			list(u.Readings)
		}
		b = append(b, '\n')
	}
	return string(b)
}
