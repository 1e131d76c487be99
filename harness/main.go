// Command vh runs the model-checking machinery for one property.
//
//	vh run C01 quick      supervise a check (spawns "vh child ...")
//	vh child C01 quick    explore; writes evidence and replay files
//	vh replay FILE        run the single case recorded in a replay file
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type checkFn func(c *Ctx)

type property struct {
	level  string
	run    checkFn
	replay func(c *Ctx, doc Doc) error // nil: the whole check is run again
}

var registry = map[string]property{}
var subcommands = map[string]func(args []string){}

func register(id, level string, run checkFn, replay func(c *Ctx, doc Doc) error) {
	registry[id] = property{level, run, replay}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|child|replay ...")
		os.Exit(2)
	}
	if f, ok := subcommands[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2], os.Args[3]))
	case "child":
		c := newCtx(os.Args[2], os.Args[3])
		c.startWatchdog()
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.harnessPanic(r)
				}
			}()
			registry[c.id].run(c)
		}()
		os.Exit(c.finish())
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d Doc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[d.Property]
	c := newCtx(d.Property, "quick")
	c.noEvidence = true
	if p.replay == nil || d.Case == nil {
		p.run(c)
		return c.finish()
	}
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, stack())
			}
		}()
		return p.replay(c, d)
	}()
	if err != nil {
		fmt.Printf("REPRODUCED property=%s %v\n", d.Property, err)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

const exitStuck = 77

// supervise runs the exploration in a child process, so that a fatal runtime error or an endless loop of the code
// under test is an observation and not the end of the check.
func supervise(id, tier string) int {
	if _, ok := registry[id]; !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	_ = os.Remove(evidencePath(id))
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for attempt := 0; ; attempt++ {
		var errb tail
		cmd := exec.Command(self, "child", id, tier)
		cmd.Stdout = os.Stdout
		cmd.Stderr = &errb
		start := time.Now()
		err = cmd.Run()
		code := cmd.ProcessState.ExitCode()
		os.Stderr.WriteString(strings.ToValidUTF8(string(errb.last(4000)), "?"))
		if err == nil || code == 1 {
			return code
		}
		text := string(errb.b)
		inKagome := strings.Contains(text, "ikawaha/kagome/v2")
		switch {
		case code == exitStuck:
			// the child recorded the case that did not come back; try it alone, with plenty of time.
			p := stuckPath(id)
			r := exec.Command(self, "replay", p)
			var out bytes.Buffer
			r.Stdout, r.Stderr = &out, &out
			if err := r.Start(); err != nil {
				return 3
			}
			done := make(chan error, 1)
			go func() { done <- r.Wait() }()
			hang := false
			select {
			case <-done:
			case <-time.After(150 * time.Second):
				r.Process.Kill()
				<-done
				hang = true
			}
			rc := r.ProcessState.ExitCode()
			if hang || rc == 1 || (rc == 2 && strings.Contains(out.String(), "ikawaha/kagome/v2")) {
				return crashViolation(id, tier, p, "analysis does not come back or exhausts memory (also when run alone)\n"+tailStr(out.String(), 2000)+"\n"+tailStr(text, 4000), start)
			}
			fmt.Fprintln(os.Stderr, "a case was slow but came back when run alone; not a violation")
			if attempt < 1 {
				os.Setenv("VH_SLOW_OK", "1")
				continue
			}
			return 3
		case inKagome && (strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "goroutine stack exceeds")):
			doc := Doc{Property: id, Group: "crash", Message: tailStr(text, 6000), InFlight: readSlots(id)}
			if len(doc.InFlight) > 0 {
				doc.Case = doc.InFlight[0].Case
				doc.Group = doc.InFlight[0].Group
			}
			p := filepath.Join(replayDir(), id+"-crash.json")
			writeJSON(p, doc)
			return crashViolation(id, tier, p, "the process died: "+firstLine(text), start)
		default:
			fmt.Fprintf(os.Stderr, "child ended with code %d\n", code)
			if attempt < 1 {
				continue
			}
			return 3
		}
	}
}

func crashViolation(id, tier, replay, msg string, start time.Time) int {
	c := newCtx(id, tier)
	c.start = start
	c.exhaustive = false
	c.states.Add(1)
	c.transitions.Add(1)
	c.traces.Add(1)
	c.samples = append(c.samples, tailStr(msg, 1500))
	c.violations = append(c.violations, violation{msg, replay})
	return c.finish()
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "stack exceeds") {
			return l
		}
	}
	return ""
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// tail keeps the beginning and the end of what is written.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 4<<20 {
		t.b = append(append([]byte{}, t.b[:1<<20]...), t.b[len(t.b)-1<<20:]...)
	}
	return len(p), nil
}

func (t *tail) last(n int) []byte {
	if len(t.b) > n {
		return t.b[len(t.b)-n:]
	}
	return t.b
}
