//go:build sched && !schedhttp

package main

func startHandler(want bool) {
	if want {
		panic("built without the server")
	}
}
