package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

// usage: engine run HARNESSDIR JOB.json OUT.json | engine check ID TIER
func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	switch os.Args[1] {
	case "run":
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fatal("%v", err)
		}
		var j Job
		if err := json.Unmarshal(b, &j); err != nil {
			fatal("%v", err)
		}
		p, err := loadProgram(os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		if f := os.Getenv("ENGINE_PROFILE"); f != "" {
			w, err := os.Create(f)
			if err != nil {
				fatal("%v", err)
			}
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		r := runJob(p, j)
		o, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(os.Args[4], o, 0o644); err != nil {
			fatal("%v", err)
		}
	case "worker":
		// runs the jobs named on its input one after another on a program loaded once
		p, err := loadProgram(os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			f := strings.Fields(in.Text())
			if len(f) != 2 {
				fatal("bad request")
			}
			b, err := os.ReadFile(f[0])
			if err != nil {
				fatal("%v", err)
			}
			var j Job
			if err := json.Unmarshal(b, &j); err != nil {
				fatal("%v", err)
			}
			o, _ := json.MarshalIndent(runJob(p, j), "", " ")
			if err := os.WriteFile(f[1], o, 0o644); err != nil {
				fatal("%v", err)
			}
			runtime.GC()
			fmt.Println("done")
		}
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	default:
		fatal("unknown command")
	}
}
