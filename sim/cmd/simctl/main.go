// simctl builds the simulator from the current tree and runs the checks.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, `usage:
  simctl build
  simctl check PROP quick|thorough
  simctl replay FILE
  simctl explore PROP SECONDS [BASE]   (development: all violation classes)`)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "build":
		t := time.Now()
		if _, err := buildSim(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Printf("simulator built in %.1fs\n", time.Since(t).Seconds())
	case "check":
		if len(os.Args) != 4 {
			usage()
		}
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(replay(os.Args[2]))
	case "explore":
		if len(os.Args) < 4 {
			usage()
		}
		n, _ := strconv.Atoi(os.Args[3])
		base := uint64(1)
		if len(os.Args) > 4 {
			b, _ := strconv.Atoi(os.Args[4])
			base = uint64(b)
		}
		os.Exit(explore(os.Args[2], n, base))
	default:
		usage()
	}
}
