package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// C17, options: all lists of options, built from the same option values, against what the list says.

type optList struct {
	Dict string   `json:"dict"` // ipa, nil
	Opts []string `json:"opts"` // nop, omit, A, B (user dictionaries), nil (no user dictionary)
}

type optEnv struct {
	opts map[string]tokenizer.Option
	want map[string][][]tokenizer.Token // user dictionary -> tokens for every input and mode
}

var optInputs = []string{"", "東京大学に行く。", "関西国際空港zzz", "a", "\xff東京"}

func (e *optEnv) analyses(t *tokenizer.Tokenizer) [][]tokenizer.Token {
	var ret [][]tokenizer.Token
	for _, in := range optInputs {
		for _, m := range allModes {
			ret = append(ret, t.Analyze(in, m))
		}
	}
	return ret
}

func newOptEnv() *optEnv {
	users := map[string]*dict.UserDict{"A": userDict([]string{"東京大", "a"}), "B": userDict([]string{"京大学", "国際空"})}
	e := &optEnv{opts: map[string]tokenizer.Option{"nop": tokenizer.Nop(), "omit": tokenizer.OmitBosEos(), "nil": tokenizer.UserDict(nil)}, want: map[string][][]tokenizer.Token{}}
	e.want[""] = e.analyses(mustRepo(tokenizer.New(ipaDict())))
	for k, u := range users {
		e.opts[k] = tokenizer.UserDict(u)
		e.want[k] = e.analyses(mustRepo(tokenizer.New(ipaDict(), tokenizer.UserDict(u))))
	}
	return e
}

func (e *optEnv) build(k optList) (*tokenizer.Tokenizer, error) {
	var d *dict.Dict
	if k.Dict == "ipa" {
		d = ipaDict()
	}
	var opts []tokenizer.Option
	for _, o := range k.Opts {
		opts = append(opts, e.opts[o])
	}
	return tokenizer.New(d, opts...)
}

func (e *optEnv) compare(k optList, t *tokenizer.Tokenizer) error {
	user, omit := "", false
	for _, o := range k.Opts {
		switch o {
		case "omit":
			omit = true
		case "A", "B":
			user = o
		}
	}
	for i, got := range e.analyses(t) {
		want := e.want[user][i]
		in, m := optInputs[i/len(allModes)], allModes[i%len(allModes)]
		if omit {
			w := []tokenizer.Token{}
			for _, t := range want {
				if t.ID != tokenizer.BosEosID {
					t.Index = len(w)
					w = append(w, t)
				}
			}
			want = w
		}
		if err := sameTokens(want, got); err != nil {
			return fmt.Errorf("%q in mode %v: %w", in, m, err)
		}
		if err := sameContents(want, got); err != nil {
			return fmt.Errorf("%q in mode %v: %w", in, m, err)
		}
		if err := sameTokens(want, t.AnalyzeGraph(io.Discard, in, m)); err != nil {
			return fmt.Errorf("graph of %q in mode %v: %w", in, m, err)
		}
	}
	return nil
}

func (e *optEnv) check(k optList) (*tokenizer.Tokenizer, error) {
	bad := k.Dict != "ipa"
	for _, o := range k.Opts {
		bad = bad || o == "nil"
	}
	t, err := e.build(k)
	if bad != (err != nil) {
		return nil, fmt.Errorf("options %q with dictionary %s: error %v", k.Opts, k.Dict, err)
	}
	if bad {
		return nil, nil
	}
	if t == nil {
		return nil, errors.New("no tokenizer and no error")
	}
	if err := e.compare(k, t); err != nil {
		return nil, fmt.Errorf("options %q: %w", k.Opts, err)
	}
	return t, nil
}

func runOptions(c *Ctx) {
	n := 4
	if c.thorough {
		n = 5
	}
	c.Group(fmt.Sprintf("all lists of <=%d options", n))
	e := newOptEnv()
	var ks []optList
	for _, l := range optSeqs([]string{"nop", "omit", "A", "B", "nil"}, n) {
		ks = append(ks, optList{"ipa", l})
	}
	for _, l := range optSeqs([]string{"nop", "omit", "A", "nil"}, 2) {
		ks = append(ks, optList{"nil", l})
	}
	ts := make([]*tokenizer.Tokenizer, len(ks))
	run := func(i int, f func() error) {
		err := safe(f)
		c.states.Add(int64(len(optInputs) * len(allModes)))
		c.transitions.Add(1)
		c.traces.Add(1)
		if err != nil {
			c.Fail("options", ks[i], err, func() error { _, err := newOptEnv().check(ks[i]); return err })
		}
	}
	parallel(c, len(ks), func(w, i int) {
		run(i, func() (err error) { ts[i], err = e.check(ks[i]); return })
	})
	// none of them has changed since
	parallel(c, len(ks), func(w, i int) {
		if ts[i] != nil {
			run(i, func() error { return e.compare(ks[i], ts[i]) })
		}
	})
}

// optSeqs lists all sequences of up to n of the symbols.
func optSeqs(sym []string, n int) [][]string {
	ret := [][]string{{}}
	last := ret
	for l := 1; l <= n; l++ {
		var next [][]string
		for _, p := range last {
			for _, s := range sym {
				next = append(next, append(append([]string{}, p...), s))
			}
		}
		ret, last = append(ret, next...), next
	}
	return ret
}

func replayC17(c *Ctx, d Doc) error {
	if d.Group != "options" {
		return replayStr(checkC17)(c, d)
	}
	var k optList
	if err := json.Unmarshal(d.Case, &k); err != nil {
		return err
	}
	_, err := newOptEnv().check(k)
	return err
}
