package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
)

func main() {
	var o Opts
	flag.StringVar(&o.repo, "repo", "/repo", "tree under verification")
	flag.StringVar(&o.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&o.prop, "prop", "", "property to check")
	flag.StringVar(&o.work, "work", "", "scratch directory")
	flag.StringVar(&o.fn, "fn", "", "verify only this function (development)")
	flag.BoolVar(&o.dev, "dev", false, "development: print the verifier's output, keep files")
	flag.BoolVar(&o.noReplay, "noreplay", false, "skip the replay harness")
	flag.IntVar(&o.rlimit, "rlimit", 60, "resource limit per function")
	flag.BoolVar(&o.own, "own", false, "development: ownership obligations only")
	flag.BoolVar(&o.smoke, "smoke", false, "development: vacuity run")
	flag.BoolVar(&o.shape, "shape", false, "development: record the shapes of the functions the contracts were written for")
	flag.Parse()
	confs, err := loadConf(o)
	if err != nil {
		fatal("%v", err)
	}
	if o.shape {
		recordShapes(o, confs)
		return
	}
	pc, ok := confs[o.prop]
	if !ok {
		fatal("unknown property %q", o.prop)
	}
	if o.own {
		w, err := loadWorld(o.repo, []string{"./internal/..."})
		if err != nil {
			fatal("%v", err)
		}
		t, _, err := translate(o, w, pc, false)
		if err != nil {
			fatal("%v", err)
		}
		r := ownership(t, w, pc)
		fmt.Println(r.n, "ownership obligations")
		for _, f := range r.fails {
			fmt.Println(f)
		}
		return
	}
	if o.dev {
		if o.work == "" {
			o.work = "/tmp/w" + o.prop
		}
		os.Exit(devCheck(o, pc))
	}
	o.tier, o.seed = "quick", 1
	if os.Getenv("VERIF_TIER") == "thorough" {
		o.tier = "thorough"
	}
	if n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		o.seed = n
	}
	os.Exit(report(o, pc))
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}
