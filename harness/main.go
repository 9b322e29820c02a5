package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vdriver gen|exec ...")
	}
	if os.Args[1] == "seal" {
		sealMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	plan := fs.String("plan", "", "")
	out := fs.String("out", "", "")
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	limit := fs.Float64("limit", 10, "seconds per call")
	from := fs.Int("from", 0, "")
	crashAt := fs.Int("crash-at", -1, "")
	sync := fs.Bool("sync", false, "record progress at each event")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "gen":
		genPlan(*prop, *seed, *tier, *out)
	case "exec":
		execPlan(*plan, *out, time.Duration(*limit*float64(time.Second)), *from, *crashAt, *sync)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
}
