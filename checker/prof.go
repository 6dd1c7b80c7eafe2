package main

import (
	"os"
	"runtime/pprof"
	"time"
)

func startProf() {
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(35 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
			os.Exit(3)
		}()
	}
}
