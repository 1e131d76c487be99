//go:build sched && schedhttp

package main

import (
	"context"
	"io"
	"log"

	"github.com/ikawaha/kagome/v2/cmd/server"
	"github.com/ikawaha/kagome/v2/zzvhttp"
)

func startHandler(want bool) {
	if !want || schedHandler != nil {
		return
	}
	log.SetOutput(io.Discard)
	server.Stderr = io.Discard
	go server.Run(context.Background(), []string{"-http", "127.0.0.1:1"})
	schedHandler = <-zzvhttp.Handlers
}
