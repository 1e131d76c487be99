package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
)

// afterCase: lives of the server in one process, and a signal after the last.
type afterCase struct {
	Lives []string `json:"lives"` // badaddr, baddict, before, ready, request, idle, half, signal (ended by the signal itself)
	Sig   int      `json:"signal"`
}

// run plays the case in a process of its own.
func (k afterCase) run() error {
	cmd := exec.Command(must(os.Executable()), "lifeafter")
	cmd.Stdin = bytes.NewReader(must(json.Marshal(k)))
	var out bytes.Buffer
	cmd.Stdout = &out
	err := runLimited(cmd, 3*time.Minute)
	switch {
	case strings.Contains(out.String(), "skip"):
		return nil
	case !strings.Contains(out.String(), "ALL-RETURNED"):
		return fmt.Errorf("%v: %s %v", k.Lives, clip(out.String(), 1500), err)
	}
	var x *exec.ExitError
	if errors.As(err, &x) {
		if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.Signal(k.Sig) {
			return nil
		}
	}
	return fmt.Errorf("%v: after the server returned, signal %v did not have its usual effect: %v %s", k.Lives, syscall.Signal(k.Sig), err, clip(out.String(), 300))
}

// kagomeStacks returns the stacks of goroutines that are in the repository's code or were started by it.
func kagomeStacks() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	var ret []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "ikawaha/kagome/v2/") {
			ret = append(ret, g)
		}
	}
	return strings.Join(ret, "\n\n")
}

func lifeAfter([]string) {
	var k afterCase
	if err := json.NewDecoder(os.Stdin).Decode(&k); err != nil {
		os.Exit(75)
	}
	sig := syscall.Signal(k.Sig)
	if signal.Ignored(sig) {
		fmt.Println("skip: the signal is ignored here")
		os.Exit(0)
	}
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	bad := func(f string, a ...any) {
		fmt.Printf(f+"\n", a...)
		os.Exit(1)
	}
	for i, l := range k.Lives {
		addr := fmt.Sprintf("127.%d.%d.%d:6060", 101+i, os.Getpid()/250%250, 1+os.Getpid()%250)
		args := []string{"-http", addr}
		ctx, cancel := context.WithCancel(context.Background())
		switch l {
		case "badaddr":
			args = []string{"-http", "127.0.0.1:99999"}
		case "baddict":
			args = append(args, "-userdict", "/nonexistent/file")
		case "before":
			cancel()
		}
		done := make(chan error, 1)
		go func() { done <- server.Run(ctx, args) }()
		var conns []net.Conn
		if l != "badaddr" && l != "baddict" && l != "before" {
			s := &life{addr: addr, cancel: cancel, done: done}
			if err := s.ready(); err != nil {
				bad("life %d: %v", i, err)
			}
			switch l {
			case "request":
				if err := s.serves(); err != nil {
					bad("life %d: %v", i, err)
				}
			case "idle":
				s.dial()
			case "half":
				if c, err := s.dial(); err == nil {
					fmt.Fprintf(c, "POST /tokenize HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(lifeBody), lifeBody[:9])
				}
			}
			conns = s.conns
			if l == "signal" {
				syscall.Kill(os.Getpid(), sig)
			} else {
				cancel()
			}
		}
		select {
		case err := <-done:
			if wantErr := strings.HasPrefix(l, "bad"); (err != nil) != wantErr {
				bad("life %d: Run returned %v", i, err)
			}
		case <-time.After(stopLimit):
			bad("life %d: Run does not return", i)
		}
		for _, c := range conns {
			c.Close()
		}
		if i < len(k.Lives)-1 {
			cancel()
		}
		_ = cancel
	}
	var st string
	for t0 := time.Now(); time.Since(t0) < 10*time.Second; time.Sleep(5 * time.Millisecond) {
		if st = kagomeStacks(); st == "" {
			break
		}
	}
	if st != "" {
		bad("after Run returned goroutines of the server are left:\n%s", st)
	}
	fmt.Println("ALL-RETURNED")
	os.Stdout.Sync()
	syscall.Kill(os.Getpid(), sig)
	time.Sleep(3 * time.Second)
	os.Exit(9)
}

func runAfter(c *Ctx) {
	if c.Done() {
		return
	}
	kinds := []string{"badaddr", "baddict", "before", "ready", "request", "idle", "half", "signal"}
	sigs := []syscall.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM}
	d := 2
	if c.thorough {
		d = 3
	}
	var ks []afterCase
	n := 0
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			n++
			for i, s := range sigs {
				if len(cur) > 1 && !c.thorough && i != n%3 {
					continue
				}
				ks = append(ks, afterCase{append([]string{}, cur...), int(s)})
			}
		}
		if len(cur) < d {
			for _, k := range kinds {
				rec(append(cur[:len(cur):len(cur)], k))
			}
		}
	}
	rec(nil)
	c.Group(fmt.Sprintf("nothing is left after the end: all sequences of <=%d of %d lives, then a signal (%d)", d, len(kinds), len(ks)))
	parallel(c, len(ks), func(_, i int) {
		c.states.Add(1)
		c.traces.Add(1)
		c.transitions.Add(int64(len(ks[i].Lives) + 1))
		if err := ks[i].run(); err != nil {
			c.FailIfTwice("after", ks[i], err, func() error { return ks[i].run() })
		}
	})
	c.Sample("after the end", 2, ks[5])
}

func init() { subcommands["lifeafter"] = lifeAfter }
