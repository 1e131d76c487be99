//go:build sched && race

package main

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
