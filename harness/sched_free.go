//go:build schedfree

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sync"
	"time"
)

// The program for code that cannot be put under the scheduler: goroutines run freely.
func init() {
	subcommands["schedbase"] = func(args []string) {
		var o sop
		json.Unmarshal([]byte(args[0]), &o)
		s, _ := o.perform()
		io.WriteString(os.Stdout, s)
	}
	subcommands["schedworker"] = func(args []string) {
		var t schedTask
		if err := json.NewDecoder(os.Stdin).Decode(&t); err != nil {
			os.Exit(75)
		}
		out := map[string]any{}
		var runs int64
		type viol struct {
			Job schedJob `json:"job"`
			Msg string   `json:"msg"`
		}
		var vs []viol
		for i := 0; i < 4; i++ {
			schedCfg(i)
		}
		if filterFresh != nil {
			filterFresh()
		}
		deadline := time.Now().Add(time.Duration(t.LimitS) * time.Second)
		before := raceErrors()
		for r := 0; r < 40 && len(vs) == 0 && time.Now().Before(deadline); r++ {
			for _, j := range t.Jobs {
				var wg sync.WaitGroup
				var mu sync.Mutex
				start := make(chan struct{})
				for k := 0; k < 4; k++ {
					for i := range j.Threads {
						wg.Add(1)
						go func(ops []sop) {
							defer wg.Done()
							<-start
							for _, o := range ops {
								got, _ := o.perform()
								k, _ := json.Marshal(o)
								if want := t.Base[string(k)]; got != want {
									mu.Lock()
									vs = append(vs, viol{j, fmt.Sprintf("a call (%s) gives\n%s\nalone it gives\n%s", k, got, want)})
									mu.Unlock()
								}
							}
						}(j.Threads[i])
					}
				}
				close(start)
				wg.Wait()
				runs++
				if n := raceErrors() - before; n > 0 && len(vs) == 0 {
					vs = append(vs, viol{j, "data race (reported by the race detector)"})
				}
				if len(vs) > 0 {
					vs = vs[:1]
					break
				}
			}
		}
		out["Schedules"] = runs
		out["Violations"] = vs
		json.NewEncoder(os.Stdout).Encode(out)
	}
}
