//go:build schedmain

// The program that explores schedules: it is built from this file, sched*.go, schedtypes.go, synth.go and util.go with the
// instrumented packages of kagome, and run by "vh".
package main

import "os"

var subcommands = map[string]func(args []string){}

func main() {
	if f, ok := subcommands[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	os.Exit(75)
}
