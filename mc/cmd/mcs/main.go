//go:build sched

package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/mc/core"
	"verif/mc/props"
	"verif/mc/sched"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-race-child" {
		var suite string
		var y, a, b, c, d, e int
		fmt.Sscan(os.Args[2], &suite, &y, &a, &b, &c, &d, &e)
		os.Exit(sched.RaceChild(suite, y, a, b, c, d, e))
	}
	if len(os.Args) > 2 && os.Args[1] == "-race-steps" {
		var suite string
		var y, a int
		fmt.Sscan(os.Args[2], &suite, &y, &a)
		os.Exit(sched.RaceSteps(suite, y, a))
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	verif := flag.String("verif", "/verif", "verif dir")
	workerF := flag.Bool("worker", false, "")
	one := flag.Bool("one", false, "")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("nshards", 1, "")
	journal := flag.String("journal", "", "")
	out := flag.String("out", "", "")
	deadline := flag.Int64("deadline", 0, "")
	space := flag.String("space", "", "")
	cas := flag.Int64("case", 0, "")
	budget := flag.Int("budget", 0, "seconds")
	flag.Parse()
	p := props.Find(*prop)
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(3)
	}
	switch {
	case *workerF:
		core.WorkerMain(p, *tier, *shard, *nshards, *journal, *out, time.Unix(*deadline, 0))
	case *one:
		core.OneMain(p, *tier, *space, *cas, *out)
	default:
		self, _ := os.Executable()
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		b := *budget
		if b == 0 {
			b = 480
			if *tier == "thorough" {
				b = 3600
			}
		}
		os.Exit(core.ParentMain(p, core.Config{Verif: *verif, Tier: *tier, Seed: seed, Shards: core.NumShards(), Budget: time.Duration(b) * time.Second, Self: self}))
	}
}
