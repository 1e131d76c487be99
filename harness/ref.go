package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

// The reference model: a lattice of candidate words and the cost of a path through it, written from the
// property texts (not from the code): candidates at every character, 64-bit costs, no recycling.

const (
	clsDummy   = int(tokenizer.DUMMY)
	clsKnown   = int(tokenizer.KNOWN)
	clsUnknown = int(tokenizer.UNKNOWN)
	clsUser    = int(tokenizer.USER)
)

// RNode is a candidate word.
type RNode struct {
	start, end  int // characters
	id, class   int
	left, right int
	weight      int64
	penalty     int64 // search mode
	best        int64 // cheapest path from the beginning up to and including this word
	reached     bool
}

// RLattice is the reference lattice of an input.
type RLattice struct {
	input string
	off   []int // byte offset of every character, and len(input)
	runes []rune
	at    [][]RNode // candidates by start
}

func (c *DictCfg) category(r rune) int {
	cat := c.Sys.CharCategory
	if int(r) < len(cat) {
		return int(cat[r])
	}
	return int(cat[0])
}

// prefixes calls f for every entry that is a prefix of s.
func prefixes(es []Entry, s string, f func(e *Entry)) {
	lo, hi := 0, len(es)
	for n := 1; n <= len(s) && lo < hi; n++ {
		p := s[:n]
		if s[n-1] == 0 {
			return // spellings cannot contain NUL
		}
		lo += sort.Search(hi-lo, func(i int) bool { return es[lo+i].Surface >= p })
		if lo < hi && es[lo].Surface == p {
			f(&es[lo])
		}
		// all of es[lo:hi] start with s[:n-1] and are >= p, so they have an n-th byte
		ch := s[n-1]
		hi = lo + sort.Search(hi-lo, func(i int) bool { return es[lo+i].Surface[n-1] > ch })
	}
}

func has(es []Entry, s string) *Entry {
	i := sort.Search(len(es), func(i int) bool { return es[i].Surface >= s })
	if i < len(es) && es[i].Surface == s {
		return &es[i]
	}
	return nil
}

func decode(in string) (off []int, runes []rune) {
	for i := 0; i < len(in); {
		r, n := utf8.DecodeRuneInString(in[i:])
		off = append(off, i)
		runes = append(runes, r)
		i += n
	}
	return append(off, len(in)), runes
}

func searchPenalty(runes []rune) int64 {
	n := len(runes)
	ideo := n > 0
	for _, r := range runes {
		if !unicode.Is(unicode.Ideographic, r) {
			ideo = false
			break
		}
	}
	if ideo && n > 2 {
		return int64(n-2) * 3000
	}
	if !ideo && n > 7 {
		return int64(n-7) * 1700
	}
	return 0
}

const refMaxUnknown = 1024

// lattice builds the reference lattice.
func (c *DictCfg) lattice(in string) *RLattice {
	la := &RLattice{input: in}
	la.off, la.runes = decode(in)
	n := len(la.runes)
	la.at = make([][]RNode, n)
	byOff := func(from, nbytes int) int { // end character of a match starting at character from
		want := la.off[from] + nbytes
		for e := from + 1; e <= n; e++ {
			if la.off[e] == want {
				return e
			}
			if la.off[e] > want {
				return -1
			}
		}
		return -1
	}
	// run lengths
	runEnd := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		if i+1 < n && c.category(la.runes[i]) == c.category(la.runes[i+1]) {
			runEnd[i] = runEnd[i+1]
		} else {
			runEnd[i] = i + 1
		}
	}
	for i := 0; i < n; i++ {
		rest := in[la.off[i]:]
		var ns []RNode
		prefixes(c.user, rest, func(e *Entry) {
			end := byOff(i, len(e.Surface))
			for _, id := range e.IDs {
				ns = append(ns, RNode{start: i, end: end, id: id, class: clsUser})
			}
		})
		if len(ns) == 0 {
			prefixes(c.sys, rest, func(e *Entry) {
				end := byOff(i, len(e.Surface))
				for _, id := range e.IDs {
					m := c.Sys.Morphs[id]
					ns = append(ns, RNode{start: i, end: end, id: id, class: clsKnown, left: int(m.LeftID), right: int(m.RightID), weight: int64(m.Weight)})
				}
			})
			cat := c.category(la.runes[i])
			if len(ns) == 0 || c.Sys.InvokeList[cat] {
				end := i + 1
				if c.Sys.GroupList[cat] {
					end = min(runEnd[i], i+refMaxUnknown)
				}
				ends := []int{end}
				// the run less its last character (not when that character is U+FFFD or an invalid byte)
				if end-1 > i && la.runes[end-1] != utf8.RuneError {
					ends = []int{end - 1, end}
				}
				first := int(c.Sys.UnkDict.Index[int32(cat)])
				dup := int(c.Sys.UnkDict.IndexDup[int32(cat)])
				for x := 0; x <= dup; x++ {
					m := c.Sys.UnkDict.Morphs[first+x]
					for _, e := range ends {
						ns = append(ns, RNode{start: i, end: e, id: first + x, class: clsUnknown, left: int(m.LeftID), right: int(m.RightID), weight: int64(m.Weight)})
					}
				}
			}
		}
		for k := range ns {
			ns[k].penalty = searchPenalty(la.runes[ns[k].start:ns[k].end])
		}
		la.at[i] = ns
	}
	return la
}

func (c *DictCfg) conn(a, b *RNode) int64 {
	if a.class == clsUser || b.class == clsUser {
		return 0
	}
	t := &c.Sys.Connection
	return int64(t.Vec[int(t.Row)*b.left+a.right])
}

const maxCost32 = 1<<31 - 1
const minCost32 = -1 << 31

// viterbi returns the optimum total cost; ok is false if some partial total does not fit in 32 bits.
func (c *DictCfg) viterbi(la *RLattice, search bool) (cost int64, ok bool, edges int64) {
	n := len(la.runes)
	ends := make([][]*RNode, n+1)
	bos := &RNode{class: clsDummy, id: -1, reached: true}
	ends[0] = []*RNode{bos}
	ok = true
	relax := func(t *RNode, at int) {
		t.reached = false
		for _, p := range ends[at] {
			if !p.reached {
				continue
			}
			edges++
			v := p.best + c.conn(p, t) + t.weight
			if search {
				v += p.penalty
			}
			if !t.reached || v < t.best {
				t.best, t.reached = v, true
			}
		}
		if t.reached && (t.best > maxCost32 || t.best < minCost32) {
			ok = false
		}
	}
	for i := 0; i < n; i++ {
		for k := range la.at[i] {
			t := &la.at[i][k]
			relax(t, i)
			ends[t.end] = append(ends[t.end], t)
		}
	}
	eos := &RNode{class: clsDummy, id: -1}
	relax(eos, n)
	return eos.best, ok, edges
}

// bruteForce enumerates every path explicitly and returns the optimum and the number of paths (limit: give up).
func (c *DictCfg) bruteForce(la *RLattice, search bool, limit int) (best int64, paths int, ok bool) {
	n := len(la.runes)
	eos := &RNode{class: clsDummy, id: -1}
	found := false
	var walk func(p *RNode, at int, cost int64) bool
	walk = func(p *RNode, at int, cost int64) bool {
		if at == n {
			v := cost + c.conn(p, eos)
			if search {
				v += p.penalty
			}
			if !found || v < best {
				best, found = v, true
			}
			paths++
			return paths <= limit
		}
		for k := range la.at[at] {
			t := &la.at[at][k]
			v := cost + c.conn(p, t) + t.weight
			if search {
				v += p.penalty
			}
			if !walk(t, t.end, v) {
				return false
			}
		}
		return true
	}
	full := walk(&RNode{class: clsDummy, id: -1}, 0, 0)
	return best, paths, full && found
}

// find returns the candidate that a token stands for, or nil.
func (la *RLattice) find(t *tokenizer.Token) *RNode {
	if t.Start < 0 || t.Start >= len(la.at) {
		return nil
	}
	for k := range la.at[t.Start] {
		n := &la.at[t.Start][k]
		if n.id == t.ID && n.class == int(t.Class) && n.end == t.End {
			return n
		}
	}
	return nil
}

func (la *RLattice) nodes() int64 {
	var n int64 = 2
	for i := range la.at {
		n += int64(len(la.at[i]))
	}
	return n
}

func (la *RLattice) sub(i, j int) string { return la.input[la.off[i]:la.off[j]] }

func showTokens(ts []tokenizer.Token) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 60 {
			fmt.Fprintf(&b, " ...(%d)", len(ts))
			break
		}
		fmt.Fprintf(&b, " %d:%q/%v#%d@%d[%d,%d)", t.Index, clip(t.Surface, 60), t.Class, t.ID, t.Position, t.Start, t.End)
	}
	return b.String()
}
