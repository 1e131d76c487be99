package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// tmpl returns a token bound to the configuration's dictionaries; ID and Class can be set to address any entry.
func tmpl(t *tokenizer.Tokenizer) tokenizer.Token {
	return t.Tokenize("x")[0]
}

// ---------- C08 ----------

type tokSrc struct {
	name string
	sys  *dict.Dict
	user *dict.UserDict
	t    tokenizer.Token
}

type tokCase struct {
	Source string `json:"source"`
	Class  string `json:"class"`
	ID     int    `json:"id"`
}

func metaAt(m dict.ContentsMeta, k string) (int, bool) {
	v, ok := m[k]
	return int(v), ok
}

// wantFeatures is the oracle: the features and the part of speech of an entry, and where named features are.
func (s *tokSrc) want(class tokenizer.TokenClass, id int) (fs, pos []string, meta dict.ContentsMeta, extra *tokenizer.UserExtra) {
	switch class {
	case tokenizer.KNOWN:
		for _, p := range s.sys.POSTable.POSs[id] {
			pos = append(pos, s.sys.POSTable.NameList[p])
		}
		fs = append(fs, pos...)
		if s.sys.Contents != nil {
			fs = append(fs, s.sys.Contents[id]...)
		}
		meta = s.sys.ContentsMeta
	case tokenizer.UNKNOWN:
		fs = append(fs, s.sys.UnkDict.Contents[id]...)
		meta = s.sys.UnkDict.ContentsMeta
		a, ok := metaAt(meta, dict.POSStartIndex)
		if !ok {
			a = 0
		}
		n, ok := metaAt(meta, dict.POSHierarchy)
		if !ok {
			n = 1
		}
		if !ok && a > 0 {
			// neither end nor length is declared for a part of speech that does not start at 0
			n = 1 - a
		}
		for i := a; i < a+n && a+n <= len(fs); i++ {
			pos = append(pos, fs[i])
		}
	case tokenizer.USER:
		c := s.user.Contents[id]
		fs = []string{c.Pos, strings.Join(c.Tokens, "/"), strings.Join(c.Yomi, "/")}
		pos = []string{c.Pos}
		extra = &tokenizer.UserExtra{Tokens: c.Tokens, Readings: c.Yomi}
	}
	return
}

func checkToken(s *tokSrc, class tokenizer.TokenClass, id int, deep bool) error {
	t := s.t
	t.Class, t.ID = class, id
	t.Start, t.End, t.Position, t.Index = id+1, id+3, id+7, id+9
	if t.Surface == "" || id%2 == 0 {
		t.Surface = "表層"
	}
	fs, pos, meta, extra := s.want(class, id)
	again := func() error {
		if got := t.Features(); !sameStrings(got, fs) {
			return fmt.Errorf("features %q, want %q", got, fs)
		}
		if got := t.POS(); !sameStrings(got, pos) {
			return fmt.Errorf("part of speech %q, want %q", got, pos)
		}
		return nil
	}
	if err := again(); err != nil {
		return err
	}
	idx := func(i int) error {
		got, ok := t.FeatureAt(i)
		if i >= 0 && i < len(fs) {
			if !ok || got != fs[i] {
				return fmt.Errorf("feature %d: %q %v, want %q", i, got, ok, fs[i])
			}
		} else if ok || got != "" {
			return fmt.Errorf("feature %d of %d exists: %q", i, len(fs), got)
		}
		return nil
	}
	for i := -2; i < len(fs)+4; i++ {
		if err := idx(i); err != nil {
			return err
		}
	}
	if deep {
		for _, i := range []int{math.MinInt, math.MinInt32, -100, 31, 63, 64, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, math.MaxInt} {
			if err := idx(i); err != nil {
				return err
			}
		}
	}
	named := func(key string, f func() (string, bool)) (string, error) {
		i, declared := metaAt(meta, key)
		got, ok := f()
		if declared && i >= 0 && i < len(fs) {
			if !ok || got != fs[i] {
				return got, fmt.Errorf("%s is %q %v, want feature %d of %q", key, got, ok, i, fs)
			}
		} else if ok || got != "" {
			return got, fmt.Errorf("%s is %q, but the dictionary has none", key, got)
		}
		return got, nil
	}
	vals := map[string]string{}
	for _, n := range []struct {
		k string
		f func() (string, bool)
	}{{dict.InflectionalType, t.InflectionalType}, {dict.InflectionalForm, t.InflectionalForm}, {dict.BaseFormIndex, t.BaseForm}, {dict.ReadingIndex, t.Reading}, {dict.PronunciationIndex, t.Pronunciation}} {
		v, err := named(n.k, n.f)
		if err != nil {
			return err
		}
		vals[n.k] = v
	}
	x := t.UserExtra()
	if (x == nil) != (extra == nil) || (x != nil && (!sameStrings(x.Tokens, extra.Tokens) || !sameStrings(x.Readings, extra.Readings))) {
		return fmt.Errorf("user extra %+v, want %+v", x, extra)
	}
	d := tokenizer.NewTokenData(t)
	wantD := tokenizer.TokenData{ID: t.ID, Start: t.Start, End: t.End, Surface: t.Surface, Class: class.String(), POS: pos, Features: fs,
		BaseForm: vals[dict.BaseFormIndex], Reading: vals[dict.ReadingIndex], Pronunciation: vals[dict.PronunciationIndex]}
	if err := sameData(d, wantD); err != nil {
		return err
	}
	if deep {
		// JSON form
		b, err := json.Marshal(d)
		if err != nil {
			return fmt.Errorf("token data as JSON: %w", err)
		}
		if err := jsonIsToken(b, wantD); err != nil {
			return err
		}
		// what was returned belongs to the caller
		for _, l := range [][]string{t.Features(), t.POS(), d.Features, d.POS} {
			scribble(l)
		}
		if x != nil {
			scribble(x.Tokens)
			scribble(x.Readings)
			x = t.UserExtra()
			if !sameStrings(x.Tokens, extra.Tokens) || !sameStrings(x.Readings, extra.Readings) {
				return fmt.Errorf("user extra changed after a caller modified an earlier answer: %+v", x)
			}
		}
		fs2, _, _, _ := s.want(class, id)
		if !sameStrings(fs, fs2) {
			return fmt.Errorf("the dictionary changed after a caller modified an answer: %q, was %q", fs2, fs)
		}
		if err := again(); err != nil {
			return fmt.Errorf("after a caller modified an earlier answer: %w", err)
		}
		if err := sameData(tokenizer.NewTokenData(t), wantD); err != nil {
			return fmt.Errorf("after a caller modified an earlier answer: %w", err)
		}
		if !t.EqualFeatures(t) || !t.EqualPOS(t) || !t.Equal(t) {
			return fmt.Errorf("token is not equal to itself")
		}
	}
	return nil
}

func scribble(l []string) {
	for i := range l {
		l[i] = "SCRIBBLE"
	}
	l = append(l, "SCRIBBLE2")
	_ = l[:cap(l)]
	for i := range l[:cap(l)] {
		l[:cap(l)][i] = "SCRIBBLE3"
	}
}

func sameData(d, w tokenizer.TokenData) error {
	if d.POS == nil || d.Features == nil {
		return fmt.Errorf("nil list in token data %+v", d)
	}
	if d.ID != w.ID || d.Start != w.Start || d.End != w.End || d.Surface != w.Surface || d.Class != w.Class || !sameStrings(d.POS, w.POS) ||
		!sameStrings(d.Features, w.Features) || d.BaseForm != w.BaseForm || d.Reading != w.Reading || d.Pronunciation != w.Pronunciation {
		return fmt.Errorf("token data %+v, want %+v", d, w)
	}
	return nil
}

// jsonText is a string after a trip through JSON: every invalid byte becomes U+FFFD.
func jsonText(s string) string { return string([]rune(s)) }

// jsonIsToken checks the documented JSON form field by field.
func jsonIsToken(b []byte, w tokenizer.TokenData) error {
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		return fmt.Errorf("token JSON %s: %w", b, err)
	}
	list := func(l []string) any {
		ret := []any{}
		for _, v := range l {
			ret = append(ret, jsonText(v))
		}
		return ret
	}
	want := map[string]any{"id": float64(w.ID), "start": float64(w.Start), "end": float64(w.End), "surface": jsonText(w.Surface), "class": w.Class,
		"pos": list(w.POS), "base_form": w.BaseForm, "reading": w.Reading, "pronunciation": w.Pronunciation, "features": list(w.Features)}
	for k, v := range want {
		if fmt.Sprint(m[k]) != fmt.Sprint(v) || m[k] == nil {
			return fmt.Errorf("token JSON field %s is %v, want %v (%s)", k, m[k], v, b)
		}
	}
	if len(m) != len(want) {
		return fmt.Errorf("token JSON has %d fields, want %d: %s", len(m), len(want), b)
	}
	return nil
}

// synthetic dictionaries with every choice of declared positions
func metaSources() []*tokSrc {
	var ret []*tokSrc
	keys := []string{dict.InflectionalType, dict.InflectionalForm, dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex}
	for m := 0; m < 32; m++ {
		for ncon := 0; ncon <= 3; ncon++ {
			for hier := 1; hier <= 3; hier++ {
				s := &Synth{Keys: []string{"x", "y"}, Morphs: [][3]int16{{}, {}}, N: 1, Conn: []int16{0}}
				s.defaultUnk(1)
				d := s.dict()
				d.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: int8(hier)}
				d.UnkDict.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: int8(hier)}
				if m == 31 {
					delete(d.UnkDict.ContentsMeta, dict.POSStartIndex)
				}
				for i, k := range keys {
					if m>>i&1 == 1 {
						d.ContentsMeta[k] = int8(hier + i - 1)
						d.UnkDict.ContentsMeta[k] = int8((i + m) % 5)
					}
				}
				for i := range d.Contents {
					d.Contents[i] = []string{fmt.Sprint("c", i), "*", ""}[:ncon]
					d.POSTable.POSs[i] = dict.POS{1, 4, 3}[:hier]
				}
				for i := range d.UnkDict.Contents {
					d.UnkDict.Contents[i] = []string{"未", "知", "*", fmt.Sprint(i), "", "z"}[:min(6, hier+ncon)]
				}
				tk := mustRepo(tokenizer.New(d))
				ret = append(ret, &tokSrc{name: fmt.Sprintf("synthetic meta=%d contents=%d hierarchy=%d", m, ncon, hier), sys: d, t: tmpl(tk)})
			}
		}
	}
	// known and unknown words declare their positions independently of each other; bit 5 of a choice: nothing at all
	for mk := 0; mk <= 32; mk++ {
		for mu := 0; mu <= 32; mu++ {
			s := &Synth{Keys: []string{"x"}, Morphs: [][3]int16{{}}, N: 1, Conn: []int16{0}}
			s.defaultUnk(1)
			d := s.dict()
			d.ContentsMeta, d.UnkDict.ContentsMeta = dict.ContentsMeta{}, dict.ContentsMeta{}
			for i, k := range keys {
				if mk>>i&1 == 1 {
					d.ContentsMeta[k] = int8(2 + i)
				}
				if mu>>i&1 == 1 {
					d.UnkDict.ContentsMeta[k] = int8((i + 2) % 5)
				}
			}
			if mk < 32 {
				d.ContentsMeta[dict.POSStartIndex], d.ContentsMeta[dict.POSHierarchy] = 0, 2
			} else {
				d.ContentsMeta = nil
			}
			if mu < 32 {
				d.UnkDict.ContentsMeta[dict.POSStartIndex], d.UnkDict.ContentsMeta[dict.POSHierarchy] = 0, 2
			} else if mk%2 == 0 {
				d.UnkDict.ContentsMeta = nil
			}
			d.Contents[0], d.POSTable.POSs[0] = []string{"c2", "c3", "c4", "c5", "c6"}, dict.POS{1, 4}
			for i := range d.UnkDict.Contents {
				d.UnkDict.Contents[i] = []string{"u0", "u1", "u2", "u3", "u4", "u5", "u6"}
			}
			tk := mustRepo(tokenizer.New(d))
			ret = append(ret, &tokSrc{name: fmt.Sprintf("synthetic known=%d unknown=%d", mk, mu), sys: d, t: tmpl(tk)})
		}
	}
	return ret
}

func c08Sources(c *Ctx) []*tokSrc {
	u1 := userDict(userWords)
	u2 := userDict([]string{"x", "東京,東 京,トウ キョウ,地名", "a,,,"})
	ip := ipaDict()
	ss := []*tokSrc{
		{name: "ipa", sys: ip, t: tmpl(mustRepo(tokenizer.New(ip)))},
		{name: "ipa without contents", sys: shrunk(ip), t: tmpl(mustRepo(tokenizer.New(shrunk(ip))))},
		{name: "ipa+user", sys: ip, user: u1, t: tmpl(mustRepo(tokenizer.New(ip, tokenizer.UserDict(u1))))},
		{name: "ipa+user2", sys: ip, user: u2, t: tmpl(mustRepo(tokenizer.New(ip, tokenizer.UserDict(u2))))},
		{name: "uni", sys: uniDict(), t: tmpl(mustRepo(tokenizer.New(uniDict())))},
		{name: "uni without contents", sys: shrunk(uniDict()), user: u1, t: tmpl(mustRepo(tokenizer.New(shrunk(uniDict()), tokenizer.UserDict(u1))))},
	}
	return append(ss, metaSources()...)
}

func (s *tokSrc) size(class tokenizer.TokenClass) int {
	switch class {
	case tokenizer.KNOWN:
		return len(s.sys.Morphs)
	case tokenizer.UNKNOWN:
		return len(s.sys.UnkDict.Contents)
	case tokenizer.USER:
		if s.user != nil {
			return len(s.user.Contents)
		}
		return 0
	}
	return 1
}

func runC08(c *Ctx) {
	ss := c08Sources(c)
	classes := []tokenizer.TokenClass{tokenizer.DUMMY, tokenizer.KNOWN, tokenizer.UNKNOWN, tokenizer.USER}
	one := func(w int, s *tokSrc, cl tokenizer.TokenClass, id int, deep bool) {
		if id >= s.size(cl) {
			return
		}
		if cl == tokenizer.DUMMY {
			id = tokenizer.BosEosID
		}
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(12)
		cs := tokCase{s.name, cl.String(), id}
		c.Enter(w, "entry", "", func() any { return cs })
		err := safe(func() error { return checkToken(s, cl, id, deep) })
		c.Leave(w)
		if err != nil {
			c.Fail("entry", cs, fmt.Errorf("%s %s #%d: %w", s.name, cl, id, err), func() error { return checkToken(s, cl, id, deep) })
		} else if id%5000 == 7 {
			c.Sample(s.name+cl.String(), 1, cs)
		}
	}
	n := 0
	for _, s := range ss {
		n = max(n, s.size(tokenizer.KNOWN))
	}
	for pass := 0; pass < 2; pass++ {
		c.Group(fmt.Sprintf("every entry of every class of %d dictionaries, dictionaries interleaved, pass %d", len(ss), pass))
		parallel(c, n, func(w, id int) {
			if pass == 1 {
				id = n - 1 - id
			}
			for k := range ss {
				s := ss[k]
				if pass == 1 {
					s = ss[len(ss)-1-k]
				}
				for _, cl := range classes {
					one(w, s, cl, id, pass == 1)
				}
			}
		})
	}
	c.Group("tokens of analyses")
	x := newX(c, checkTokensOf)
	synth := &Synth{Keys: []string{"a", "ab"}, Morphs: [][3]int16{{}, {}}, N: 1, Conn: []int16{0}, User: []string{"漢", "ab"}, Group: 2}
	synth.defaultUnk(5)
	ipaU := ipaCfg(userWords...)
	x.runShort(synth.cfg(), "synthetic", []string{"a", "b", "漢", "\xff", "😀"}, 5)
	x.runShort(ipaU, "ipa+user", concat(symValid, symOdd), 2)
	x.runSurfaces(ipaU, "ipa+user", [][2]string{{"", ""}})
	x.runText(ipaU, "ipa+user", []int{20}, 11, []int{1})
	x.flush()
	c.Group("equality of features")
	for _, vecs := range [][][]string{vectors([]string{"A", "B", "*"}, 0, 4), vectors([]string{"", "A", "AB", "B", "A,B", ",", "A/B", "\x00", "a", "*"}, 0, 3)} {
		parallel(c, len(vecs), func(w, i int) {
			for _, b := range vecs {
				a := vecs[i]
				c.states.Add(1)
				c.traces.Add(1)
				if tokenizer.EqualFeatures(a, b) != sameStrings(a, b) {
					c.Fail("equality", [][]string{a, b}, fmt.Errorf("EqualFeatures(%q,%q) = %v", a, b, !sameStrings(a, b)), nil)
				}
			}
		})
	}
	ts := equalityTokens(ss, c.thorough)
	c.Group(fmt.Sprintf("equality of all pairs of %d tokens", len(ts)))
	parallel(c, len(ts), func(w, i int) {
		for j := range ts {
			c.states.Add(1)
			c.traces.Add(3)
			if err := safe(func() error { return ts[i].equalOK(&ts[j]) }); err != nil {
				c.Fail("pair of tokens", pairCase{Pair: [2]tokCase{ts[i].cs, ts[j].cs}, Surfaces: [2]string{ts[i].t.Surface, ts[j].t.Surface}}, err, func() error { return ts[i].equalOK(&ts[j]) })
			}
		}
	})
	c.Set("bounds", "all entries of the IPA and UniDic dictionaries (with and without contents), user entries, unknown definitions; 384 synthetic dictionaries with every choice of declared positions and 1089 in which known and unknown words differ in them")
}

// eqToken is a token with the features and part of speech it has according to its dictionary.
type eqToken struct {
	t       tokenizer.Token
	cs      tokCase
	fs, pos []string
}

type pairCase struct {
	Pair     [2]tokCase `json:"pair"`
	Surfaces [2]string  `json:"surfaces"`
}

func newEqToken(s *tokSrc, cl tokenizer.TokenClass, id int, surface string) eqToken {
	e := eqToken{t: s.t, cs: tokCase{s.name, cl.String(), id}}
	e.t.Class, e.t.ID, e.t.Surface = cl, id, surface
	e.t.Index, e.t.Position, e.t.Start, e.t.End = id+1, id, id+2, id+3
	e.fs, e.pos, _, _ = s.want(cl, id)
	return e
}

// equalityTokens: of every dictionary the first words (many of them homographs or words that differ in one feature only),
// words spread over the rest, and all unknown and user entries; some of them with another surface.
func equalityTokens(ss []*tokSrc, th bool) (ret []eqToken) {
	first, stride := 60, 9001
	if th {
		first, stride = 300, 1501
	}
	meta := 0
	for _, s := range ss {
		for _, cl := range []tokenizer.TokenClass{tokenizer.DUMMY, tokenizer.KNOWN, tokenizer.UNKNOWN, tokenizer.USER} {
			n := s.size(cl)
			if n < 20 {
				if meta++; cl == tokenizer.KNOWN && meta > 200 {
					break // enough synthetic dictionaries
				}
			}
			for id := 0; id < n; id++ {
				if cl == tokenizer.KNOWN && id >= first && id%stride != 0 {
					continue
				}
				k := id
				if cl == tokenizer.DUMMY {
					k = tokenizer.BosEosID
				}
				ret = append(ret, newEqToken(s, cl, k, "表層"))
				if id%5 == 0 {
					ret = append(ret, newEqToken(s, cl, k, "表"))
				}
			}
		}
	}
	return ret
}

func (a *eqToken) equalOK(b *eqToken) error {
	if got, want := a.t.EqualFeatures(b.t), sameStrings(a.fs, b.fs); got != want {
		return fmt.Errorf("EqualFeatures of tokens with the features %q and %q is %v", a.fs, b.fs, got)
	}
	if got, want := a.t.EqualPOS(b.t), sameStrings(a.pos, b.pos); got != want {
		return fmt.Errorf("EqualPOS of tokens with the parts of speech %q and %q is %v", a.pos, b.pos, got)
	}
	if got, want := a.t.Equal(b.t), a.t.ID == b.t.ID && a.t.Class == b.t.Class && a.t.Surface == b.t.Surface; got != want {
		return fmt.Errorf("Equal of %v and %v is %v", a.t, b.t, got)
	}
	return nil
}

// checkTokensOf: the tokens an analysis returns carry the contents of the entries they name.
func checkTokensOf(w *W, dc *DictCfg, in string) error {
	s := &tokSrc{name: dc.Name, sys: dc.Sys, user: dc.User}
	for _, m := range allModes {
		ts := dc.T.Analyze(in, m)
		w.traces++
		for i := range ts {
			t := &ts[i]
			w.states++
			fs, pos, _, _ := s.want(t.Class, t.ID)
			if got := t.Features(); !sameStrings(got, fs) {
				return fmt.Errorf("token %d: features %q, want %q", i, got, fs)
			}
			if got := t.POS(); !sameStrings(got, pos) {
				return fmt.Errorf("token %d: part of speech %q, want %q", i, got, pos)
			}
			d := tokenizer.NewTokenData(*t)
			w.transitions++
			if d.Surface != t.Surface || d.ID != t.ID || d.Start != t.Start || d.End != t.End || !sameStrings(d.Features, fs) || !sameStrings(d.POS, pos) {
				return fmt.Errorf("token data %+v of token %v", d, *t)
			}
			if in != "" && len(in) < 40 {
				b, err := json.Marshal(d)
				if err != nil {
					return err
				}
				if err := jsonIsToken(b, d); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func replayC08(c *Ctx, d Doc) error {
	var pc pairCase
	if json.Unmarshal(d.Case, &pc) == nil && pc.Pair[0].Source != "" {
		var es [2]eqToken
		for _, s := range c08Sources(c) {
			for i, tc := range pc.Pair {
				for _, cl := range []tokenizer.TokenClass{tokenizer.DUMMY, tokenizer.KNOWN, tokenizer.UNKNOWN, tokenizer.USER} {
					if s.name == tc.Source && cl.String() == tc.Class {
						es[i] = newEqToken(s, cl, tc.ID, pc.Surfaces[i])
					}
				}
			}
		}
		return es[0].equalOK(&es[1])
	}
	var tc tokCase
	if json.Unmarshal(d.Case, &tc) == nil && tc.Source != "" {
		for _, s := range c08Sources(c) {
			if s.name != tc.Source {
				continue
			}
			for _, cl := range []tokenizer.TokenClass{tokenizer.DUMMY, tokenizer.KNOWN, tokenizer.UNKNOWN, tokenizer.USER} {
				if cl.String() == tc.Class {
					return checkToken(s, cl, tc.ID, true)
				}
			}
		}
	}
	return replayStr(checkTokensOf)(c, d)
}

// ---------- C09 ----------

func refMatch(patterns [][]string, v []string) bool {
	for _, p := range patterns {
		if len(p) > len(v) {
			continue
		}
		ok := true
		for i := range p {
			if p[i] != filter.Any && p[i] != v[i] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

type patCase struct {
	Patterns [][]B `json:"patterns"`
	Vector   []B   `json:"vector"`
}

func toB(v []string) []B {
	r := []B{}
	for _, s := range v {
		r = append(r, B(s))
	}
	return r
}

func vectors(alpha []string, lo, hi int) [][]string {
	var ret [][]string
	for l := lo; l <= hi; l++ {
		t := 1
		for i := 0; i < l; i++ {
			t *= len(alpha)
		}
		for i := 0; i < t; i++ {
			v := []string{}
			for k, j := 0, i; k < l; k++ {
				v = append(v, alpha[j%len(alpha)])
				j /= len(alpha)
			}
			ret = append(ret, v)
		}
	}
	return ret
}

func patternsOK(c *Ctx, ps [][]string, vs [][]string) error {
	cp := make([][]string, len(ps))
	for i := range ps {
		cp[i] = append([]string{}, ps[i]...)
	}
	f := filter.NewFeaturesFilter(cp...)
	pf := filter.NewPOSFilter(cp...)
	for i := range cp { // the filter was built; what the caller does with its slices is its own business
		for j := range cp[i] {
			cp[i][j] = "\x01"
		}
	}
	for i := range vs {
		v := vs[i]
		want := refMatch(ps, v)
		if got := f.Match(v); got != want {
			return fmt.Errorf("patterns %q: Match(%q) = %v", ps, v, got)
		}
	}
	for i := len(vs) - 1; i >= 0; i-- {
		if got := pf.Match(vs[i]); got != refMatch(ps, vs[i]) {
			return fmt.Errorf("patterns %q: POS Match(%q) = %v", ps, vs[i], got)
		}
	}
	return nil
}

func runC09(c *Ctx) {
	run := func(name string, pats, vs [][]string, n int) {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(pats)
		}
		c.Group(fmt.Sprintf("%s: all lists of %d of %d patterns x %d vectors", name, n, len(pats), len(vs)))
		parallel(c, total, func(w, i int) {
			var ps [][]string
			for k, j := 0, i; k < n; k++ {
				ps = append(ps, pats[j%len(pats)])
				j /= len(pats)
			}
			c.states.Add(1)
			c.traces.Add(2)
			c.transitions.Add(int64(2 * len(vs)))
			if err := safe(func() error { return patternsOK(c, ps, vs) }); err != nil {
				var bs [][]B
				for _, p := range ps {
					bs = append(bs, toB(p))
				}
				c.Fail(name, patCase{Patterns: bs}, err, func() error { return patternsOK(c, ps, vs) })
			}
		})
	}
	c.Sample("list", 1, [][]string{{"A", "Any"}, {"B"}, {"A", "B", "Any"}})
	alphas := [][]string{{"A", "B", filter.Any}, {"", "*", filter.Any}, {"A", "AA", filter.Any}, {"A", "A\x00", "\x00\x00", filter.Any}, {"A/", "/A", "A", filter.Any}, {"A", filter.Any, "\x00A"}, {"a", "A", " a"}, {"が", "か\u3099", "ガ"}, {"\xff", "\ufffd", filter.Any}}
	vecAlpha := [][]string{{"A", "B", "C"}, {"", "*", "x"}, {"A", "AA", "AAA"}, {"A", "A\x00", "\x00\x00"}, {"A/", "/A", "A"}, {"A", filter.Any, "\x00A"}, {"a", "A", " a"}, {"が", "か\u3099", "ガ"}, {"\xff", "\xfe", "\ufffd"}}
	for i, a := range alphas {
		name := fmt.Sprintf("alphabet %q", a)
		vs := vectors(vecAlpha[i], 0, 4)
		p3 := vectors(a, 1, 3)
		p2 := vectors(a, 1, 2)
		for n := 0; n <= 2; n++ {
			run(name, p3, vs, n)
		}
		if i == 0 {
			run(name, p3, vs, 3)
			run(name, p2, vs, 4)
			run(name, vectors(a, 1, 1), vs, 6)
			if c.thorough {
				run(name, p3, vs, 4)
				run(name, p2, vs, 6)
			} else {
				run(name, p2, vectors(vecAlpha[i], 0, 3), 5)
			}
			run("one long pattern", vectors(a, 1, 8), vectors(vecAlpha[i][:2], 0, 9), 1)
		} else {
			run(name, p2, vs, 3)
			if c.thorough {
				run(name, p3, vs, 3)
			}
		}
	}
	// many patterns, long patterns
	c.Group("long lists and long patterns")
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000}
	for _, n := range sizes {
		for kind := 0; kind < 4; kind++ {
			var ps [][]string
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					ps = append(ps, []string{fmt.Sprint(i)})
				case 1:
					ps = append(ps, []string{"x", fmt.Sprint(i), "y"})
				case 2:
					ps = append(ps, []string{filter.Any, fmt.Sprint(i)})
				case 3:
					p := []string{}
					for k := 0; k <= i%70; k++ {
						p = append(p, fmt.Sprint(k*(1+i/70)))
					}
					ps = append(ps, p)
				}
			}
			var vs [][]string
			for i := 0; i < n+2; i++ {
				vs = append(vs, []string{fmt.Sprint(i)}, []string{"x", fmt.Sprint(i), "y"}, []string{"x", fmt.Sprint(i)}, []string{"x", fmt.Sprint(i), "z", "y"}, []string{fmt.Sprint(i), fmt.Sprint(i)})
				if i < 200 {
					p := []string{}
					for k := 0; k <= i%72; k++ {
						p = append(p, fmt.Sprint(k*(1+i/72)))
					}
					vs = append(vs, p)
				}
			}
			c.states.Add(1)
			c.traces.Add(2)
			c.transitions.Add(int64(2 * len(vs)))
			if err := safe(func() error { return patternsOK(c, ps, vs) }); err != nil {
				c.Fail("long lists", map[string]int{"n": n, "kind": kind}, err, nil)
			}
			// one pattern of n positions against vectors around it
			long := make([]string, n)
			for i := range long {
				long[i] = "v"
				if i%3 == 1 {
					long[i] = filter.Any
				}
			}
			var lv [][]string
			for _, d := range []int{-1, 0, 1} {
				if n+d < 0 {
					continue
				}
				v := make([]string, n+d)
				for i := range v {
					v[i] = "v"
				}
				lv = append(lv, v)
				for i := range v {
					if n > 300 {
						break
					}
					x := append([]string{}, v...)
					x[i] = "w"
					lv = append(lv, x)
				}
			}
			if kind == 0 {
				c.states.Add(1)
				c.transitions.Add(int64(2 * len(lv)))
				if err := safe(func() error { return patternsOK(c, [][]string{long}, lv) }); err != nil {
					c.Fail("long pattern", map[string]int{"n": n}, err, nil)
				}
			}
		}
	}
	// word filters
	c.Group("word filters")
	words := []string{"", "a", "A", "ab", "b", "の", "ノ", "の\x00", "\xff", "が", "か\u3099", " "}
	parallel(c, 1<<len(words), func(w, m int) {
		var l []string
		for i := range words {
			if m>>i&1 == 1 {
				l = append(l, words[i])
				if m&1 == 1 {
					l = append([]string{words[i]}, l...) // duplicates, other order
				}
			}
		}
		c.states.Add(1)
		c.traces.Add(1)
		f := filter.NewWordFilter(append([]string{}, l...))
		for i, x := range words {
			c.transitions.Add(1)
			if f.Match(x) != (m>>i&1 == 1) {
				c.Fail("word filter", map[string]any{"words": toB(l), "query": B(x)}, fmt.Errorf("word filter %q: Match(%q) = %v", l, x, f.Match(x)), nil)
			}
		}
		for _, x := range []string{"aa", "ab ", " a", "no", "\x00", "BOS", "\ufffd"} {
			if f.Match(x) {
				c.Fail("word filter", map[string]any{"words": toB(l), "query": B(x)}, fmt.Errorf("word filter %q: Match(%q)", l, x), nil)
			}
		}
	})
	ipaDict()
	var all []string
	for i, e := range ipaEntries {
		if i%2 == 0 {
			all = append(all, e.Surface)
		}
	}
	f := filter.NewWordFilter(all)
	for i, e := range ipaEntries {
		c.traces.Add(1)
		if f.Match(e.Surface) != (i%2 == 0) {
			c.Fail("word filter", map[string]any{"word": B(e.Surface)}, fmt.Errorf("filter of every other spelling: Match(%q) = %v", e.Surface, i%2 != 0), nil)
		}
	}
	c.Set("bounds", "ordered lists of up to 3 patterns of length 1..3 over {A,B,Any} (4 and 5 of length<=2; thorough: 4 of length<=3), vectors of length<=4 over 3 values; lists up to 1000, patterns up to 1000 positions")
}

func replayC09(c *Ctx, d Doc) error {
	var p patCase
	if err := json.Unmarshal(d.Case, &p); err != nil || len(p.Patterns) == 0 {
		runC09(c)
		if len(c.violations) > 0 {
			return fmt.Errorf("%s", c.violations[0].msg)
		}
		return nil
	}
	var ps [][]string
	vals := []string{"C", "x"}
	for _, q := range p.Patterns {
		var x []string
		for _, v := range q {
			x = append(x, string(v))
			if string(v) != filter.Any {
				vals = append(vals, string(v))
			}
		}
		ps = append(ps, x)
	}
	if len(vals) > 7 {
		vals = vals[:7]
	}
	return patternsOK(c, ps, vectors(vals, 0, 4))
}

// ---------- C10 ----------

func tokensEqual(a, b []tokenizer.Token) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d tokens, want %d:%s |%s", len(a), len(b), showTokens(a), showTokens(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("token %d is%s, want%s", i, showTokens(a[i:i+1]), showTokens(b[i:i+1]))
		}
	}
	return nil
}

// splitCheck runs keep and drop on copies and compares with want.
func splitCheck(name string, ts []tokenizer.Token, match func(*tokenizer.Token) bool, keep, drop func(*[]tokenizer.Token)) error {
	var wk, wd []tokenizer.Token
	for i := range ts {
		if match(&ts[i]) {
			wk = append(wk, ts[i])
		} else {
			wd = append(wd, ts[i])
		}
	}
	if keep != nil {
		l := append(make([]tokenizer.Token, 0, len(ts)+len(ts)%3), ts...)
		keep(&l)
		if err := tokensEqual(l, wk); err != nil {
			return fmt.Errorf("%s Keep: %w", name, err)
		}
		keep(&l)
		if err := tokensEqual(l, wk); err != nil {
			return fmt.Errorf("%s Keep twice: %w", name, err)
		}
	}
	l := append(make([]tokenizer.Token, 0, len(ts)+len(ts)%2), ts...)
	drop(&l)
	if err := tokensEqual(l, wd); err != nil {
		return fmt.Errorf("%s Drop: %w", name, err)
	}
	drop(&l)
	if err := tokensEqual(l, wd); err != nil {
		return fmt.Errorf("%s Drop twice: %w", name, err)
	}
	return nil
}

type jaOracle struct {
	base, tags [][]string
	words      map[string]bool
}

func (o *jaOracle) dropped(t *tokenizer.Token) bool {
	return refMatch(o.tags, t.POS()) || o.words[t.Surface]
}

func (o *jaOracle) word(t *tokenizer.Token) string {
	if refMatch(o.base, t.POS()) {
		if b, ok := t.BaseForm(); ok {
			return b
		}
	}
	return t.Surface
}

func jaDefaults() (tags [][]string, words map[string]bool) {
	read := func(p string) []string {
		b := must(os.ReadFile("/repo/filter/ja/asset/" + p))
		var ret []string
		for _, l := range strings.Split(string(b), "\n") {
			l, _, _ = strings.Cut(strings.TrimSuffix(l, "\r"), "#")
			if l != "" {
				ret = append(ret, l)
			}
		}
		return ret
	}
	for _, t := range read("stop_tags.txt") {
		p := strings.Split(t, "-")
		for len(p) < 4 {
			p = append(p, "*")
		}
		tags = append(tags, p)
	}
	words = map[string]bool{}
	for _, w := range read("stop_words.txt") {
		words[w] = true
	}
	return
}

func runC10(c *Ctx) {
	fail := func(group string, cs any, f func() error) {
		c.traces.Add(1)
		if err := safe(f); err != nil {
			c.Fail(group, cs, err, f)
		}
	}
	// tokens of two parts of speech and two surfaces, all distinct
	s := &Synth{Keys: []string{"a", "b"}, Morphs: [][3]int16{{}, {}}, N: 1, Conn: []int16{0}, User: []string{"u"}}
	s.defaultUnk(1)
	dc := s.cfg()
	base := tmpl(dc.T)
	mk := func(i int, hit bool, kind int) tokenizer.Token {
		t := base
		t.Class = tokenizer.KNOWN
		t.Index, t.Position, t.Start, t.End = i, 3*i, i, i+1
		t.Surface = "ng"
		t.ID = 1
		if hit {
			t.Surface = "hit"
			t.ID = 0
		}
		return t
	}
	isHit := func(t *tokenizer.Token) bool { return t.Surface == "hit" }
	word := filter.NewWordFilter([]string{"hit", "other"})
	posHit := dc.Sys.POSTable.NameList[dc.Sys.POSTable.POSs[0][0]]
	pos := filter.NewPOSFilter(filter.POS{posHit}, filter.POS{"無"})
	jaW := mustRepo(ja.NewFilter(ja.StopWordsFilterOption([]string{"hit"})))
	jaT := mustRepo(ja.NewFilter(ja.StopTagsFilterOption([]filter.POS{{posHit}})))
	all := func(ts []tokenizer.Token) error {
		m := func(t tokenizer.Token) bool { return isHit(&t) }
		if err := splitCheck("filter", ts, isHit, func(p *[]tokenizer.Token) { filter.Keep(p, m) }, func(p *[]tokenizer.Token) { filter.Drop(p, m) }); err != nil {
			return err
		}
		if err := splitCheck("word filter", ts, isHit, word.Keep, word.Drop); err != nil {
			return err
		}
		if err := splitCheck("POS filter", ts, isHit, pos.Keep, pos.Drop); err != nil {
			return err
		}
		if err := splitCheck("japanese filter (stop words)", ts, isHit, nil, jaW.Drop); err != nil {
			return err
		}
		if err := splitCheck("japanese filter (stop tags)", ts, isHit, nil, jaT.Drop); err != nil {
			return err
		}
		var y []string
		for i := range ts {
			if !isHit(&ts[i]) {
				b, _ := ts[i].BaseForm()
				y = append(y, b) // 動詞
			}
		}
		for _, f := range []*ja.Filter{jaW, jaT} {
			cp := append([]tokenizer.Token{}, ts...)
			if got := f.Yield(cp); !sameStrings(got, y) {
				return fmt.Errorf("Yield: %q, want %q", got, y)
			}
			if err := tokensEqual(cp, ts); err != nil {
				return fmt.Errorf("Yield changed its argument: %w", err)
			}
		}
		return nil
	}
	maxN := 12
	if c.thorough {
		maxN = 17
	}
	for n := 0; n <= maxN && !c.Done(); n++ {
		c.Group(fmt.Sprintf("all match patterns of %d tokens", n))
		parallel(c, 1<<n, func(w, m int) {
			ts := make([]tokenizer.Token, n)
			for i := range ts {
				ts[i] = mk(i, m>>i&1 == 1, 0)
			}
			c.states.Add(1)
			c.transitions.Add(int64(n))
			c.traces.Add(7)
			if err := safe(func() error { return all(ts) }); err != nil {
				c.Fail("mask", map[string]int{"n": n, "mask": m}, err, func() error { return all(ts) })
			}
		})
	}
	c.Sample("mask", 1, map[string]int{"n": 5, "mask": 13})
	c.Group("long lists")
	for _, n := range []int{13, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 70000} {
		for per := 1; per <= 5; per++ {
			for ph := 0; ph < per; ph++ {
				ts := make([]tokenizer.Token, n)
				for i := range ts {
					ts[i] = mk(i, i%per == ph, 0)
				}
				c.states.Add(1)
				c.transitions.Add(int64(n))
				fail("long", map[string]int{"n": n, "period": per, "phase": ph}, func() error { return all(ts) })
			}
		}
		ts := make([]tokenizer.Token, n)
		for i := range ts {
			ts[i] = mk(i, i == n-1 || i == n/2, 0)
		}
		fail("long", map[string]int{"n": n}, func() error { return all(ts) })
	}
	c.Group("nil and empty")
	fail("nil", "nil", func() error {
		never := func(tokenizer.Token) bool { panic("match called") }
		filter.Keep(nil, never)
		filter.Drop(nil, never)
		word.Keep(nil)
		word.Drop(nil)
		pos.Keep(nil)
		pos.Drop(nil)
		jaW.Drop(nil)
		for _, f := range []func(*[]tokenizer.Token){func(p *[]tokenizer.Token) { filter.Keep(p, never) }, func(p *[]tokenizer.Token) { filter.Drop(p, never) }, word.Keep, word.Drop, pos.Keep, pos.Drop, jaW.Drop} {
			var l []tokenizer.Token
			f(&l)
			if len(l) != 0 {
				return fmt.Errorf("nil list became %v", l)
			}
			l = []tokenizer.Token{}
			f(&l)
			if len(l) != 0 {
				return fmt.Errorf("empty list became %v", l)
			}
		}
		if y := jaW.Yield(nil); len(y) != 0 {
			return fmt.Errorf("Yield(nil) = %q", y)
		}
		return nil
	})

	// the japanese filter
	tags, words := jaDefaults()
	defBase := [][]string{{"動詞"}, {"形容詞"}, {"形容動詞"}}
	ip := ipaCfg(userWords...)
	sh := mustRepo(tokenizer.New(shrunk(ip.Sys)))
	var list []tokenizer.Token // a token of every entry, of every class
	full, bare := tmpl(ip.T), tmpl(sh)
	add := func(t tokenizer.Token, cl tokenizer.TokenClass, id int, surf string) {
		t.Class, t.ID, t.Surface = cl, id, surf
		t.Index = len(list)
		list = append(list, t)
	}
	for id := range ip.Sys.Morphs {
		add(full, tokenizer.KNOWN, id, ip.surfOf[id])
		if id%7 == 0 {
			add(bare, tokenizer.KNOWN, id, ip.surfOf[id])
		}
	}
	var sw []string
	for w := range words {
		sw = append(sw, w)
	}
	for id := range ip.Sys.UnkDict.Contents {
		for _, s := range concat(sw, []string{"", "X", "の ", "のの", "する"}) {
			add(full, tokenizer.UNKNOWN, id, s)
			add(bare, tokenizer.UNKNOWN, id, s)
		}
	}
	for id := range ip.User.Contents {
		for _, s := range concat(sw, []string{"東京"}) {
			add(full, tokenizer.USER, id, s)
		}
	}
	for _, s := range concat(sw, []string{"BOS", "EOS"}) {
		add(full, tokenizer.DUMMY, -1, s)
	}
	uniC := uniCfg()
	ut := tmpl(uniC.T)
	for id := 0; id < len(uniC.Sys.Morphs); id += 5 {
		add(ut, tokenizer.KNOWN, id, uniC.surfOf[id])
	}
	type option struct {
		name string
		opt  ja.FilterOption
		set  func(*jaOracle)
	}
	toPOS := func(p [][]string) []filter.POS { return p }
	customBase := [][]string{{"名詞"}, {filter.Any, "自立"}}
	customTags := [][]string{{"名詞", "一般"}, {"助詞"}, {filter.Any, filter.Any, "人名"}}
	customWords := []string{"東京", "する", "a", "X"}
	opts := []option{
		{"base", ja.BaseFormFilterOption(toPOS(customBase)), func(o *jaOracle) { o.base = customBase }},
		{"no base", ja.BaseFormFilterOption(nil), func(o *jaOracle) { o.base = nil }},
		{"tags", ja.StopTagsFilterOption(toPOS(customTags)), func(o *jaOracle) { o.tags = customTags }},
		{"no tags", ja.StopTagsFilterOption([]filter.POS{}), func(o *jaOracle) { o.tags = nil }},
		{"words", ja.StopWordsFilterOption(customWords), func(o *jaOracle) {
			o.words = map[string]bool{}
			for _, w := range customWords {
				o.words[w] = true
			}
		}},
		{"no words", ja.StopWordsFilterOption(nil), func(o *jaOracle) { o.words = nil }},
	}
	var seqs [][]int
	for _, v := range upto([]string{"0", "1", "2", "3", "4", "5"}, 3) {
		var q []int
		for _, r := range v {
			q = append(q, int(r-'0'))
		}
		seqs = append(seqs, q)
	}
	mkFilter := func(q []int) (*ja.Filter, *jaOracle, []string) {
		o := &jaOracle{base: defBase, tags: tags, words: words}
		var os []ja.FilterOption
		var names []string
		for _, i := range q {
			os = append(os, opts[i].opt)
			opts[i].set(o)
			names = append(names, opts[i].name)
		}
		return mustRepo(ja.NewFilter(os...)), o, names
	}
	jaList := func(f *ja.Filter, o *jaOracle, ts []tokenizer.Token) error {
		if err := splitCheck("japanese filter", ts, o.dropped, nil, f.Drop); err != nil {
			return err
		}
		var y []string
		for i := range ts {
			if !o.dropped(&ts[i]) {
				y = append(y, o.word(&ts[i]))
			}
		}
		if got := f.Yield(ts); !sameStrings(got, y) {
			for i := range y {
				if i >= len(got) || got[i] != y[i] {
					return fmt.Errorf("Yield: %d words, want %d; word %d is %q, want %q", len(got), len(y), i, got[min(i, max(0, len(got)-1)):min(len(got), i+1)], y[i])
				}
			}
			return fmt.Errorf("Yield: %d words, want %d", len(got), len(y))
		}
		return nil
	}
	c.Group(fmt.Sprintf("japanese filter: a token of every entry, %d tokens, and every sequence of <=3 options", len(list)))
	step := (len(list) + 199) / 200
	parallel(c, len(seqs), func(w, k int) {
		f, o, names := mkFilter(seqs[k])
		l := list
		if len(seqs[k]) > 1 && !c.thorough {
			// every 41st entry, all the others
			l = nil
			for i := range list {
				if i%41 == k%41 || list[i].Class != tokenizer.KNOWN {
					l = append(l, list[i])
				}
			}
		}
		for i := 0; i < len(l) && !c.stop.Load(); i += step {
			ts := l[i:min(len(l), i+step)]
			c.states.Add(int64(len(ts)))
			c.transitions.Add(int64(2 * len(ts)))
			c.traces.Add(2)
			if err := safe(func() error { return jaList(f, o, ts) }); err != nil {
				c.Fail("japanese", map[string]any{"options": names, "from": i}, fmt.Errorf("options %v: %w", names, err), func() error { return jaList(f, o, ts) })
			}
		}
	})
	// all short sequences over kinds of tokens
	var kinds []tokenizer.Token
	pick := map[string]bool{}
	for i := range list {
		t := &list[i]
		o := jaOracle{base: defBase, tags: tags, words: words}
		k := fmt.Sprint(t.Class, refMatch(tags, t.POS()), words[t.Surface], o.word(t) == t.Surface, t.Class == tokenizer.KNOWN && len(t.Features()) > 5)
		if !pick[k] {
			pick[k] = true
			kinds = append(kinds, *t)
		}
	}
	c.Group(fmt.Sprintf("japanese filter: all sequences of <=4 of %d kinds of tokens", len(kinds)))
	f, o, _ := mkFilter(nil)
	for n := 0; n <= 4; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(kinds)
		}
		parallel(c, total, func(w, i int) {
			ts := make([]tokenizer.Token, n)
			for k, j := 0, i; k < n; k++ {
				ts[k] = kinds[j%len(kinds)]
				ts[k].Index = k
				j /= len(kinds)
			}
			c.states.Add(1)
			c.transitions.Add(int64(n))
			c.traces.Add(2)
			if err := safe(func() error { return jaList(f, o, ts) }); err != nil {
				c.Fail("japanese sequences", showTokens(ts), err, func() error { return jaList(f, o, ts) })
			}
		})
	}
	c.Group("japanese filter: every spelling and windows of text analysed")
	x := newX(c, func(w *W, dc *DictCfg, in string) error {
		ts := dc.T.Tokenize(in)
		w.traces++
		w.states += int64(len(ts))
		w.transitions += int64(len(ts))
		return jaList(f, o, ts)
	})
	x.runSurfaces(ip, "ipa+user", [][2]string{{"", ""}})
	x.runText(ip, "ipa+user", []int{40}, 7, []int{1})
	x.flush()
	c.Set("bounds", fmt.Sprintf("all match patterns of <=%d tokens, periodic patterns up to 70000 tokens; japanese filter: every entry, all option sequences of <=3", maxN))
}

func init() {
	register("C08", "model_checking", runC08, replayC08)
	register("C09", "model_checking", runC09, replayC09)
	register("C10", "model_checking", runC10, nil)
}
