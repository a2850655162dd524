// simrun executes one plan (one seed) in this process.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"syscall"

	"opcuasim/scen"
)

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	plan := flag.String("plan", "", "plan file instead of a seed")
	out := flag.String("out", "", "result file")
	dump := flag.Bool("dump", false, "print the plan and exit")
	trace := flag.Bool("trace", false, "trace to stderr")
	list := flag.Bool("list", false, "list scenarios")
	flag.Parse()
	// a run that eats memory ends itself, not the machine
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	if *list {
		for k := range scen.All {
			fmt.Println(k)
		}
		return
	}
	var p *scen.Plan
	if *plan != "" {
		b, err := os.ReadFile(*plan)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		p = &scen.Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if scen.All[p.Prop] == nil {
			fmt.Fprintln(os.Stderr, "unknown property in plan")
			os.Exit(3)
		}
	} else if p = scen.MakePlan(*prop, *tier, *seed); p == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		os.Exit(3)
	}
	if *dump {
		b, _ := json.MarshalIndent(p, "", " ")
		os.Stdout.Write(append(b, '\n'))
		return
	}
	scen.Execute(p, *out, *trace)
}
