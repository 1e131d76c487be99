//go:build sched && !race

package main

func raceErrors() int { return 0 }
