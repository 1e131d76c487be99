//go:build life

package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/zzvpause"
)

const (
	lifeHold  = 25 * time.Millisecond
	lifeLimit = 30 * time.Second
)

func accepts(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func lifeRun(addr string, k lifeCase) (msg string, hits int64) {
	var ps []*zzvpause.Pause
	for _, s := range k.Sites {
		ps = append(ps, zzvpause.New(s))
	}
	zzvpause.Set(ps)
	ctx, cancelCtx := context.WithCancel(context.Background())
	defer cancelCtx()
	end := make(chan struct{})
	defer close(end)
	var once sync.Once
	var nhit atomic.Int64
	stop := func() {
		once.Do(func() {
			if k.Scen != "signal" {
				cancelCtx()
				return
			}
			go func() {
				for { // a signal may come before the server listens to signals
					syscall.Kill(os.Getpid(), syscall.SIGTERM)
					select {
					case <-end:
						return
					case <-time.After(150 * time.Millisecond):
					}
				}
			}()
		})
	}
	if k.Scen == "occupied" {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return "", 0
		}
		defer l.Close()
	}
	if k.Scen == "before" {
		stop()
	}
	firstHit := make(chan struct{})
	var hitOnce sync.Once
	var rel sync.WaitGroup
	released := func(p *zzvpause.Pause, paused bool) {
		defer rel.Done()
		select {
		case <-p.Hit:
			nhit.Add(1)
			hitOnce.Do(func() { close(firstHit) })
			if k.AtPause && k.Scen != "occupied" {
				stop()
			}
			time.Sleep(lifeHold)
		case <-end:
		}
		close(p.Release)
	}
	for _, p := range ps {
		rel.Add(1)
		go released(p, true)
	}
	type ret struct {
		err  error
		open bool
	}
	done := make(chan ret, 1)
	go func() {
		err := server.Run(ctx, []string{"-http", addr})
		done <- ret{err, k.Scen != "occupied" && accepts(addr)}
	}()
	finish := func(r ret) (string, int64) {
		n := nhit.Load()
		if k.Scen == "occupied" {
			if r.err == nil {
				return "the address is in use, and no error is returned", n
			}
			return "", n
		}
		if r.err != nil {
			return fmt.Sprintf("stopped on request, it returns the error %v", r.err), n
		}
		if r.open {
			return "it has returned and still accepts connections", n
		}
		if n > 0 {
			time.Sleep(lifeHold + 10*time.Millisecond)
			if accepts(addr) {
				return "some time after it has returned it accepts connections", n
			}
		}
		return "", n
	}
	ready := func() bool {
		for i := 0; i < 2000; i++ {
			if accepts(addr) {
				return true
			}
			select {
			case r := <-done:
				done <- r
				return false
			case <-time.After(2 * time.Millisecond):
			}
		}
		return false
	}
	if k.Scen == "at once" {
		stop()
	} else if k.Scen != "before" && k.Scen != "occupied" {
		if !ready() && !(k.AtPause && nhit.Load() > 0) {
			select {
			case r := <-done:
				return fmt.Sprintf("it returns (error %v) though nobody has stopped it", r.err), nhit.Load()
			default:
				return "it does not accept connections", nhit.Load()
			}
		}
		if k.Scen == "idle" || k.Scen == "request" {
			got := make(chan struct{})
			go func() {
				defer close(got)
				c, err := net.DialTimeout("tcp", addr, time.Second)
				if err != nil {
					return
				}
				go func() { <-end; c.Close() }()
				path := "POST /tokenize"
				if k.Scen == "idle" {
					path = "GET /"
				}
				body := `{"sentence":"東京"}`
				fmt.Fprintf(c, "%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", path, len(body), body)
				c.SetReadDeadline(time.Now().Add(3 * time.Second))
				if r, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil {
					io.Copy(io.Discard, r.Body)
				}
			}()
			if k.Scen == "idle" {
				<-got
			} else {
				time.Sleep(2 * time.Millisecond)
			}
		}
		stop()
	}
	select {
	case r := <-done:
		return finish(r)
	case <-time.After(lifeLimit):
		return fmt.Sprintf("it does not return within %v", lifeLimit), nhit.Load()
	}
}

// holdFetch makes one request on a connection of its own and returns the whole answer.
func holdFetch(addr, req string) string {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return "no connection"
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	io.WriteString(c, req)
	b, err := io.ReadAll(c)
	if err != nil {
		return "no answer: " + string(b)
	}
	var keep []string
	for _, l := range strings.Split(string(b), "\r\n") {
		if !strings.HasPrefix(l, "Date: ") {
			keep = append(keep, l)
		}
	}
	return strings.Join(keep, "\r\n")
}

func holdMain() {
	var t holdTask
	if err := json.NewDecoder(os.Stdin).Decode(&t); err != nil {
		os.Exit(75)
	}
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go server.Run(ctx, []string{"-http", t.Addr})
	for i := 0; i < 3000 && !accepts(t.Addr); i++ {
		time.Sleep(5 * time.Millisecond)
	}
	var a holdAnswer
	base := make([]string, len(t.Reqs))
	sites := make([][]int, len(t.Reqs))
	for i, q := range t.Reqs {
		before := make([]int64, t.Sites)
		for s := range before {
			before[s] = zzvpause.Seen(s)
		}
		base[i] = holdFetch(t.Addr, q)
		for s := range before {
			if zzvpause.Seen(s) > before[s] {
				sites[i] = append(sites[i], s)
			}
		}
		if again := holdFetch(t.Addr, q); again != base[i] {
			a.Msgs = append(a.Msgs, fmt.Sprintf("two answers to the same request differ:\n%s\n%s", base[i], again))
			a.Failed = append(a.Failed, [3]int{i, i, -1})
		}
	}
	a.Base = base
	deadline := time.Now().Add(time.Duration(t.LimitS) * time.Second)
	n := 0
out:
	for i := range t.Reqs {
		for _, s := range sites[i] {
			for j := range t.Reqs {
				n++
				if n%t.Parts != t.Part || t.Only != nil && *t.Only != [3]int{i, j, s} {
					continue
				}
				if time.Now().After(deadline) {
					a.Capped = true
					break out
				}
				p := zzvpause.New(s)
				zzvpause.Set([]*zzvpause.Pause{p})
				ra, rb := make(chan string, 1), make(chan string, 1)
				go func() { ra <- holdFetch(t.Addr, t.Reqs[i]) }()
				gotA, gotB := "", ""
				held := false
				select {
				case <-p.Hit:
					held = true
				case gotA = <-ra:
				}
				if held {
					a.Hits++
					go func() { rb <- holdFetch(t.Addr, t.Reqs[j]) }()
					select {
					case gotB = <-rb:
						close(p.Release)
					case <-time.After(400 * time.Millisecond): // it may have to wait for the other request
						close(p.Release)
						gotB = <-rb
					}
					gotA = <-ra
				} else {
					gotB = base[j]
				}
				zzvpause.Set(nil)
				a.Runs++
				if gotA != base[i] {
					a.Msgs = append(a.Msgs, fmt.Sprintf("a request held while another one was served is answered\n%s\nalone it is answered\n%s", gotA, base[i]))
				} else if gotB != base[j] {
					a.Msgs = append(a.Msgs, fmt.Sprintf("a request served while another one was held is answered\n%s\nalone it is answered\n%s", gotB, base[j]))
				} else {
					continue
				}
				a.Failed = append(a.Failed, [3]int{i, j, s})
				if len(a.Failed) >= 3 {
					break out
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(a)
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "hold" {
		holdMain()
		return
	}
	var t lifeTask
	if err := json.NewDecoder(os.Stdin).Decode(&t); err != nil {
		os.Exit(75)
	}
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	signal.Notify(make(chan os.Signal, 1), syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
	deadline := time.Now().Add(time.Duration(t.LimitS) * time.Second)
	var a lifeAnswer
	for i, k := range t.Cases {
		if time.Now().After(deadline) {
			a.Capped = true
			break
		}
		addr := fmt.Sprintf("%s.%d:6060", t.IP, 1+i%250)
		msg, hits := lifeRun(addr, k)
		zzvpause.Set(nil)
		a.Runs++
		a.Hits += hits
		if msg != "" {
			a.Failed = append(a.Failed, k)
			a.Msgs = append(a.Msgs, msg)
			if strings.Contains(msg, "within") || len(a.Failed) >= 3 {
				break
			}
		}
	}
	for i := 0; i < t.Sites; i++ {
		if zzvpause.Seen(i) > 0 {
			a.Reached = append(a.Reached, i)
		}
	}
	json.NewEncoder(os.Stdout).Encode(a)
}
