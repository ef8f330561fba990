// mcconc runs the exploration of one property in one build variant.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"verifmc/conc"
	"verifmc/core"
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	variant := flag.String("variant", "plain", "build variant")
	out := flag.String("out", "", "result file")
	slots := flag.String("slots", "", "crash slots")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	budget := flag.Duration("budget", 10*time.Minute, "internal deadline")
	replay := flag.String("replay", "", "failure to replay")
	cpu := flag.String("cpuprofile", "", "profile")
	shard := flag.String("shard", "0/1", "part of the scenarios")
	first := flag.String("first", "", "scenario of first use to run in this process")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	runtime.GOMAXPROCS(1)
	fmt.Sscanf(*shard, "%d/%d", &conc.Shard[0], &conc.Shard[1])
	if *workers > core.MaxWorkers {
		*workers = core.MaxWorkers
	}
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	conc.FirstArgs = []string{"-prop", *prop, "-tier", *tier, "-variant", *variant}
	conc.FirstOnly = *first != ""
	c := conc.Build(*prop, *tier, *variant)
	if *first != "" {
		os.Exit(conc.Child(*first))
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var f core.Failure
		if err := json.Unmarshal(b, &f); err != nil || c == nil {
			fmt.Println("bad replay file", err)
			os.Exit(3)
		}
		e := core.NewEngine(*prop, *tier, "", 1, *budget)
		if f.Part == "" && f.PartIdx >= 0 {
			f.Part = core.PartName(c, f.PartIdx)
		}
		for i, s := range core.Steps(c, &f) {
			fmt.Printf("  %d %s\n", i, s)
		}
		if err := core.Reexec(c, &f, e.Workers[0]); err != nil {
			fmt.Println("REPRODUCED:", err)
			os.Exit(1)
		}
		fmt.Println("NOT REPRODUCED")
		return
	}
	e := core.NewEngine(*prop, *tier, *slots, *workers, *budget)
	if c != nil {
		e.Run(c)
	}
	if *verbose {
		for _, p := range e.Res.Parts {
			fmt.Printf("%-60s %9d states %10d transitions %7d traces depth %d exhaustive=%v %.1fs %s %v\n", p.Name, p.States, p.Transitions, p.Traces, p.Depth, p.Exhaustive, p.WallS, p.Note, p.Frontier)
		}
		for _, f := range e.Res.Findings {
			fmt.Println("FINDING", f)
		}
		if f := e.Res.Failure; f != nil {
			fmt.Printf("FAILURE %s root %d path %v case %d (%s)\n%s\n", f.Part, f.Root, f.Path, f.Case, f.Repro, f.What)
			for i, s := range f.Steps {
				fmt.Printf("  %d %s\n", i, s)
			}
		}
	}
	if *out != "" {
		if err := core.WriteJSON(*out, e.Res); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	if e.Res.Failure != nil {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}
