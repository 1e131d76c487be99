package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// runHolds holds every request at every statement of the server and the tokenizer it comes by, serves every other
// request meanwhile, and compares all answers with those given alone. env is added to the environment of the server.
func runHolds(c *Ctx, name string, reqs []string, env []string, limit time.Duration) {
	if c.Done() {
		return
	}
	bin, sites := buildLife(c, "cmd/server", "tokenizer")
	if bin == "" {
		c.mu.Lock()
		c.exhaustive = false
		c.mu.Unlock()
		return
	}
	defer os.RemoveAll(filepath.Dir(bin))
	c.Group(name)
	one := func(w, parts int, only *[3]int) (a holdAnswer, text string, err error) {
		t := holdTask{Addr: lifeAddr(), Reqs: reqs, Sites: sites, Part: w, Parts: parts, LimitS: int(limit / time.Second), Only: only}
		cmd := exec.Command(bin, "hold")
		cmd.Env = append(os.Environ(), env...)
		cmd.Stdin = bytes.NewReader(must(json.Marshal(t)))
		var o bytes.Buffer
		var e tail
		cmd.Stdout, cmd.Stderr = &o, &e
		err = runLimited(cmd, limit+3*time.Minute)
		text = string(e.b)
		if err == nil {
			err = json.Unmarshal(o.Bytes(), &a)
		}
		return
	}
	n := workers()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var base []string
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, text, err := one(w, n, nil)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if strings.Contains(text, "ikawaha/kagome/v2/") {
					c.Fail(name, nil, fmt.Errorf("the process died: %s", clip(text, 3000)), nil)
					return
				}
				c.Set("holds_not_run", clip(fmt.Sprint(err, text), 400))
				return
			}
			c.states.Add(a.Runs)
			c.transitions.Add(a.Hits * 2)
			c.traces.Add(a.Runs * 2)
			c.Add("requests_held", a.Hits)
			if a.Capped {
				c.mu.Lock()
				c.exhaustive = false
				c.extra["capped: "+name] = true
				c.mu.Unlock()
			}
			if base == nil {
				base = a.Base
			}
			for i := range base {
				if a.Base[i] != base[i] && len(a.Failed) == 0 {
					c.Fail(name, reqs[i], fmt.Errorf("two servers answer differently:\n%s\n%s", clip(base[i], 1500), clip(a.Base[i], 1500)), nil)
					return
				}
			}
			for i, f := range a.Failed {
				cs := map[string]any{"held": B(reqs[f[0]]), "served": B(reqs[f[1]]), "statement": f[2]}
				c.FailIfTwice(name, cs, errors.New(clip(a.Msgs[i], 3000)), func() error {
					only := &f
					if f[2] < 0 {
						only = nil
					}
					a, text, err := one(0, 1, only)
					if err != nil {
						return fmt.Errorf("%v %s", err, clip(text, 500))
					}
					if len(a.Failed) > 0 {
						return errors.New(a.Msgs[0])
					}
					return nil
				})
				if c.Done() {
					return
				}
			}
		}()
	}
	wg.Wait()
	c.Sample("held", 1, B(reqs[0]))
	c.Set("statements_in_server_and_tokenizer", sites)
}

func post(body string) string {
	return fmt.Sprintf("POST /tokenize HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
}
