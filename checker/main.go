package main

import (
	"fmt"
	"os"
	rtdebug "runtime/debug"
	"strings"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		debug = true
		w, err := load(repoDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dumpEntry(w, os.Args[2])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		rtdebug.SetGCPercent(400)
		rtdebug.SetMemoryLimit(12 << 30)
		stop := profile()
		s := check(os.Args[2:])
		stop()
		os.Exit(s)
	}
	fmt.Println("usage: checker check PROPERTY... | checker dump FUNCTION")
	os.Exit(1)
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func dumpEntry(w *World, name string) {
	r := newRun(w, "dump")
	if name == "prompt" {
		for _, a := range r.promptFns() {
			a.dump()
		}
		return
	}
	k := kPlain
	switch {
	case strings.Contains(name, "crypto."):
		k = kCrypto
	case strings.Contains(name, "main."):
		k = kMain
	case strings.Contains(name, "FromBytes"):
		k = kField
	}
	r.analyse(k, name, nil).dump()
}
