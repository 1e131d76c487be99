// Command fakedot stands in for graphviz: it does what the environment variable FAKEDOT says.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	for _, op := range strings.Split(os.Getenv("FAKEDOT"), ";") {
		f := strings.Fields(op)
		if len(f) == 0 {
			continue
		}
		n := 0
		if len(f) > 1 {
			n, _ = strconv.Atoi(f[1])
		}
		switch f[0] {
		case "read": // n bytes
			io.CopyN(io.Discard, os.Stdin, int64(n))
		case "readall":
			io.Copy(io.Discard, os.Stdin)
		case "readslow": // everything, n bytes at a time
			b := make([]byte, n)
			for {
				if _, err := os.Stdin.Read(b); err != nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
		case "svg": // a drawing with n bytes of filling
			fmt.Print("<?xml version=\"1.0\"?>\n<!-- fake -->\n<svg id=\"drawing-7731\"><g>" + strings.Repeat("x", n) + "</g></svg>\n")
		case "sum": // reads everything and draws something that depends on it, apart from the names of the nodes
			b, _ := io.ReadAll(os.Stdin)
			names := map[string]string{}
			t := regexp.MustCompile(`"0x[0-9a-f]+"|\b0x[0-9a-f]+\b`).ReplaceAllStringFunc(string(b), func(s string) string {
				if names[s] == "" {
					names[s] = fmt.Sprint("n", len(names))
				}
				return names[s]
			})
			fmt.Printf("<svg id=\"drawing-7731\"><g>%x</g></svg>\n", sha256.Sum256([]byte(t)))
		case "bare": // a drawing without a header
			fmt.Print("<svg id=\"drawing-7731\"></svg>")
		case "half": // the beginning of a drawing
			fmt.Print("<svg id=\"drawing-7731\"><g>")
		case "out":
			os.Stdout.Write(bytes.Repeat([]byte("o"), n))
		case "err":
			os.Stderr.Write(bytes.Repeat([]byte("e"), n))
		case "closein":
			os.Stdin.Close()
		case "closeout":
			os.Stdout.Close()
		case "closeerr":
			os.Stderr.Close()
		case "sleep": // milliseconds
			time.Sleep(time.Duration(n) * time.Millisecond)
		case "child": // a child that holds the pipes for n seconds
			c := exec.Command("/bin/sleep", f[1])
			c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
			c.Start()
		case "kill":
			syscall.Kill(os.Getpid(), syscall.Signal(n))
			time.Sleep(time.Second)
		case "ignore": // signals that can be ignored
			exec.Command("true")
		case "exit":
			os.Exit(n)
		}
	}
}
