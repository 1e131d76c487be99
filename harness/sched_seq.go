//go:build sched

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/zzvsync"
)

// runSeq performs a history and judges every result; the tokens of all calls are looked at again at the end.
func runSeq(ops []sop, idx []int, base []string) string {
	type kept struct {
		ts   []tokenizer.Token
		want string
		op   int
	}
	var keep [16]kept
	n := 0
	for pos, i := range idx {
		o := ops[i]
		if o.API == "scribble" {
			if n > 0 { // the caller overwrites the tokens it got last
				k := &keep[n-1]
				for j := range k.ts {
					k.ts[j] = tokenizer.Token{Surface: "scribble", ID: 77, Class: tokenizer.KNOWN}
				}
				n--
			}
			continue
		}
		got, ts := o.perform()
		if got != base[i] {
			return fmt.Sprintf("call %d of the history gives\n%s\nalone, in a fresh process, it gives\n%s", pos, got, base[i])
		}
		if len(ts) > 0 {
			keep[n] = kept{ts, describe(ts), pos}
			n++
		}
	}
	for i := 0; i < n; i++ {
		if got := describe(keep[i].ts); got != keep[i].want {
			return fmt.Sprintf("the tokens returned by call %d changed afterwards: they were\n%s\nand are\n%s", keep[i].op, keep[i].want, got)
		}
	}
	return ""
}

func safeSeq(ops []sop, idx []int, base []string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	return runSeq(ops, idx, base)
}

func init() {
	subcommands["seqworker"] = func(args []string) {
		var t seqTask
		if err := json.NewDecoder(os.Stdin).Decode(&t); err != nil {
			os.Exit(75)
		}
		deadline := time.Now().Add(time.Duration(t.LimitS) * time.Second)
		var a seqAnswer
		states := map[[8]int]bool{}
		do := func(idx []int, reset bool) bool {
			if reset {
				zzvsync.ResetPools()
			}
			msg := safeSeq(t.Ops, idx, t.Base)
			a.Histories++
			a.Calls += int64(len(idx))
			if v := zzvsync.TakeViolation(); msg == "" && v != "" {
				msg = v
			}
			states[zzvsync.PoolSizes()] = true
			if msg != "" {
				a.Msg = msg
				a.Policy = t.Policy
				for _, i := range idx {
					a.Failed = append(a.Failed, t.Ops[i])
				}
			}
			return msg == ""
		}
		zzvsync.SetPolicy(t.Policy)
		if t.Depth > 0 {
			idx := make([]int, t.Depth)
			total := 1
			for range idx {
				total *= len(t.Ops)
			}
			for h := t.Part; h < total; h += t.Parts {
				x := h
				for k := range idx {
					idx[k] = x % len(t.Ops)
					x /= len(t.Ops)
				}
				if !do(idx, true) {
					break
				}
				if h&1023 == 0 && time.Now().After(deadline) {
					a.Capped = true
					break
				}
			}
		} else { // one long history containing every sequence of -Depth operations, in windows
			seq := deBruijn(len(t.Ops), -t.Depth)
			for i := 0; i+8 <= len(seq); i += 8 {
				if !do(seq[i:i+8], false) {
					a.Long = true
					break
				}
			}
		}
		a.Reuses = zzvsync.Reuses
		a.PoolStates = len(states)
		json.NewEncoder(os.Stdout).Encode(a)
	}
	subcommands["seqone"] = func(args []string) {
		var t seqTask
		if err := json.NewDecoder(os.Stdin).Decode(&t); err != nil {
			os.Exit(75)
		}
		zzvsync.SetPolicy(t.Policy)
		var idx []int
		for i := range t.Ops {
			idx = append(idx, i)
		}
		msg := safeSeq(t.Ops, idx, t.Base)
		if v := zzvsync.TakeViolation(); msg == "" && v != "" {
			msg = v
		}
		if msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
	}
}

// deBruijn returns a cyclic sequence over k symbols containing every word of length n once (plus the wrap-around).
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}
