package main

import (
	"os"
	"runtime/pprof"
	"time"
)

func profile() func() {
	p := os.Getenv("VERIF_PROF")
	if p == "" {
		return func() {}
	}
	f, _ := os.Create(p)
	pprof.StartCPUProfile(f)
	if d, err := time.ParseDuration(os.Getenv("VERIF_PROF_FOR")); err == nil {
		time.AfterFunc(d, func() { pprof.StopCPUProfile(); f.Close(); os.Exit(3) })
	}
	return func() { pprof.StopCPUProfile(); f.Close() }
}
