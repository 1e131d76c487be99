package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/dict/trie"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// Entry is a dictionary spelling with all its ids.
type Entry struct {
	Surface string
	IDs     []int
}

// DictCfg is a tokenizer configuration together with what the reference model knows about it.
type DictCfg struct {
	Name    string
	Sys     *dict.Dict
	User    *dict.UserDict
	T       *tokenizer.Tokenizer // plain
	TOmit   *tokenizer.Tokenizer // OmitBosEos
	TShrink *tokenizer.Tokenizer // without contents
	TNoUser *tokenizer.Tokenizer // without the user dictionary
	sys     []Entry              // sorted by surface
	surfOf  []string             // id -> surface
	user    []Entry
	userOf  []string
	key     string // JSON form for replays
	quoted  string
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// repoErr is the failure of a call of the code under test that has to succeed, outside of a case.
type repoErr struct{ error }

func mustRepo[T any](v T, err error) T {
	if err != nil {
		panic(repoErr{fmt.Errorf("a call with valid arguments is refused: %w", err)})
	}
	return v
}

// enumerate lists all spellings of a double array by depth-first search, independently of the search functions.
func enumerate(da trie.DoubleArray, dup map[int32]int32) []Entry {
	if len(da) == 0 {
		return nil
	}
	// children by parent
	kids := make([][]int32, len(da))
	for q := 1; q < len(da); q++ {
		if p := da[q].Check; p >= 0 && int(p) < len(da) {
			kids[p] = append(kids[p], int32(q))
		}
	}
	var ret []Entry
	var buf []byte
	var walk func(p int32)
	walk = func(p int32) {
		ks := kids[p]
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, q := range ks {
			ch := q - da[p].Base
			if ch < 0 || ch > 255 {
				continue
			}
			if ch == 0 {
				id := int(-da[q].Base)
				e := Entry{Surface: string(buf)}
				for i := 0; i <= int(dup[int32(id)]); i++ {
					e.IDs = append(e.IDs, id+i)
				}
				ret = append(ret, e)
				continue
			}
			buf = append(buf, byte(ch))
			walk(q)
			buf = buf[:len(buf)-1]
		}
	}
	walk(0)
	sort.Slice(ret, func(i, j int) bool { return ret[i].Surface < ret[j].Surface })
	return ret
}

func newCfg(name string, sys *dict.Dict, user *dict.UserDict, sysEntries []Entry) *DictCfg {
	c := &DictCfg{Name: name, Sys: sys, User: user}
	opt := tokenizer.Nop()
	if user != nil {
		opt = tokenizer.UserDict(user)
	}
	c.T = mustRepo(tokenizer.New(sys, opt))
	c.TOmit = mustRepo(tokenizer.New(sys, opt, tokenizer.OmitBosEos()))
	c.TNoUser = c.T
	if user != nil {
		c.TNoUser = mustRepo(tokenizer.New(sys))
	}
	if sysEntries == nil {
		sysEntries = enumerate(sys.Index.Da, sys.Index.Dup)
	}
	c.sys = sysEntries
	c.surfOf = make([]string, len(sys.Morphs))
	for _, e := range c.sys {
		for _, id := range e.IDs {
			c.surfOf[id] = e.Surface
		}
	}
	if user != nil {
		c.user = enumerate(user.Index.Da, user.Index.Dup)
		c.userOf = make([]string, len(user.Contents))
		for _, e := range c.user {
			for _, id := range e.IDs {
				c.userOf[id] = e.Surface
			}
		}
	}
	return c
}

// userDict builds a user dictionary; an entry is "text" or "text,tok tok,yomi yomi,pos".
func userDict(entries []string) *dict.UserDict {
	var rec dict.UserDictRecords
	for i, e := range entries {
		f := strings.Split(e, ",")
		if len(f) == 4 {
			rec = append(rec, dict.UserDicRecord{Text: f[0], Tokens: strings.Split(f[1], " "), Yomi: strings.Split(f[2], " "), Pos: f[3]})
			continue
		}
		rec = append(rec, dict.UserDicRecord{Text: e, Tokens: []string{e, fmt.Sprint(i)}, Yomi: []string{"ヨ" + e, "ミ"}, Pos: "カスタム" + e})
	}
	return must(rec.NewUserDict())
}

func (c *DictCfg) setKey(b []byte) {
	c.key = string(b)
	c.quoted = string(must(json.Marshal(c.key)))
}

// Key identifies a configuration in replay files.
type Key struct {
	Base  string   `json:"base"`
	User  []string `json:"user,omitempty"`
	Synth *Synth   `json:"synth,omitempty"`
}

// ---- synthetic dictionaries ----

// Synth describes a small dictionary. Characters fall into the categories
// 0 DEFAULT, 1 ALPHA (a-z, A-Z), 2 KANJI (ideographs), 3 HIRAGANA, 4 DIGIT (0-9), 5 SPACE.
type Synth struct {
	Keys   []string   `json:"keys"`   // sorted, duplicates are homographs
	Morphs [][3]int16 `json:"morphs"` // left, right, weight per key
	N      int        `json:"n"`      // context ids 0..n-1
	Conn   []int16    `json:"conn"`   // Conn[right*n+left]
	Invoke uint8      `json:"invoke"` // bit per category
	Group  uint8      `json:"group"`
	Unk    [][3]int16 `json:"unk"`    // per unknown definition: left, right, weight
	UnkDup []int      `json:"unkdup"` // definitions per category, sums to len(Unk)
	User   []string   `json:"user,omitempty"`
}

const synthCats = 6

var synthCategory = func() dict.CharCategory {
	c := make(dict.CharCategory, 65536)
	for r := range c {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z':
			c[r] = 1
		case r >= 0x4e00 && r <= 0x9fff, r == '々', r == '〇':
			c[r] = 2
		case r >= 0x3041 && r <= 0x309f:
			c[r] = 3
		case r >= '0' && r <= '9':
			c[r] = 4
		case r == ' ', r == '\n', r == '\t', r == 0x3000:
			c[r] = 5
		}
	}
	return c
}()

var synthIndexCache sync.Map // keys joined -> dict.IndexTable

func synthIndex(keys []string) dict.IndexTable {
	k := strings.Join(keys, "\x00")
	if v, ok := synthIndexCache.Load(k); ok {
		return v.(dict.IndexTable)
	}
	idx := must(dict.BuildIndexTable(keys))
	synthIndexCache.Store(k, idx)
	return idx
}

var synthEntryCache sync.Map

func (s *Synth) dict() *dict.Dict {
	d := &dict.Dict{
		Index:        synthIndex(s.Keys),
		CharClass:    dict.CharClass{"DEFAULT", "ALPHA", "KANJI", "HIRAGANA", "DIGIT", "SPACE"},
		CharCategory: synthCategory,
		ContentsMeta: dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 2, dict.InflectionalType: 2, dict.InflectionalForm: 3, dict.BaseFormIndex: 4, dict.ReadingIndex: 5, dict.PronunciationIndex: 6},
	}
	d.POSTable.NameList = []string{"", "名詞", "動詞", "*", "一般", "自立"}
	for i, k := range s.Keys {
		m := s.Morphs[i]
		d.Morphs = append(d.Morphs, dict.Morph{LeftID: m[0], RightID: m[1], Weight: m[2]})
		d.POSTable.POSs = append(d.POSTable.POSs, dict.POS{dict.POSID(1 + i%2), dict.POSID(3 + i%3)})
		d.Contents = append(d.Contents, []string{"t" + k, "f" + k, "b" + k, fmt.Sprint("r", i), fmt.Sprint("p", i)})
	}
	d.Connection = dict.ConnectionTable{Row: int64(s.N), Col: int64(s.N), Vec: make([]int16, s.N*s.N)}
	for r := 0; r < s.N; r++ {
		for l := 0; l < s.N; l++ {
			d.Connection.Vec[s.N*l+r] = s.Conn[r*s.N+l]
		}
	}
	d.UnkDict.Index = map[int32]int32{}
	d.UnkDict.IndexDup = map[int32]int32{}
	d.UnkDict.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 2, dict.BaseFormIndex: 2}
	n := 0
	for cat := 0; cat < synthCats; cat++ {
		d.InvokeList = append(d.InvokeList, s.Invoke>>cat&1 == 1)
		d.GroupList = append(d.GroupList, s.Group>>cat&1 == 1)
		d.UnkDict.Index[int32(cat)] = int32(n)
		if s.UnkDup[cat] > 1 {
			d.UnkDict.IndexDup[int32(cat)] = int32(s.UnkDup[cat] - 1)
		}
		for i := 0; i < s.UnkDup[cat]; i++ {
			m := s.Unk[n]
			d.UnkDict.Morphs = append(d.UnkDict.Morphs, dict.Morph{LeftID: m[0], RightID: m[1], Weight: m[2]})
			d.UnkDict.Contents = append(d.UnkDict.Contents, []string{"未知", d.CharClass[cat], fmt.Sprint("*", n)})
			n++
		}
	}
	return d
}

func (s *Synth) cfg() *DictCfg {
	var u *dict.UserDict
	if len(s.User) > 0 {
		u = userDict(append([]string{}, s.User...))
	}
	d := s.dict()
	k := strings.Join(s.Keys, "\x00")
	var es []Entry
	if v, ok := synthEntryCache.Load(k); ok {
		es = v.([]Entry)
	} else {
		es = []Entry{}
		for i := 0; i < len(s.Keys); {
			j := i
			e := Entry{Surface: s.Keys[i]}
			for j < len(s.Keys) && s.Keys[j] == s.Keys[i] {
				e.IDs = append(e.IDs, j)
				j++
			}
			es = append(es, e)
			i = j
		}
		synthEntryCache.Store(k, es)
	}
	c := newCfg("synth", d, u, es)
	c.setKey(must(json.Marshal(Key{Base: "synth", Synth: s})))
	return c
}

// defaultUnk gives every category one definition with the given weight.
func (s *Synth) defaultUnk(weight int16) *Synth {
	s.Unk = nil
	s.UnkDup = nil
	for i := 0; i < synthCats; i++ {
		s.Unk = append(s.Unk, [3]int16{0, 0, weight})
		s.UnkDup = append(s.UnkDup, 1)
	}
	return s
}
