// Command unicheck decides semantic properties of unidoc/unitype from its source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

type checkFn func(P *Prog, r *Report, tier string)

var checks = map[string]checkFn{}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dumpPat := flag.String("dump", "", "analyse entry points and print what is not proved (development aid)")
	root := flag.String("root", "", "analyse one entry point and print the result as JSON (used by the checks)")
	flag.Parse()
	debug.SetGCPercent(400)
	if *tier == "thorough" {
		deepCount = 60
		if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil && n > 0 {
			deepSeed = uint64(n)
		}
	}
	start := time.Now()
	if *dumpPat != "" {
		P, err := loadProg(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dump(P, *dumpPat)
		return
	}
	if *root != "" {
		P, err := loadProg(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if f := os.Getenv("UNICHECK_PROFILE"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		json.NewEncoder(os.Stdout).Encode(analyseRoot(P, *root))
		return
	}
	fn := checks[*prop]
	if fn == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	r := newReport(*prop)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.add(Finding{Rule: "checker", Key: "panic", Where: "-", Msg: fmt.Sprintf("the analysis failed: %v", e)})
				if os.Getenv("UNICHECK_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		rp, err := filepath.EvalSymlinks(*repo)
		if err != nil {
			rp = *repo
		}
		P, err := loadProg(rp)
		if err != nil {
			r.add(Finding{Rule: "load", Key: "load", Where: "-", Msg: err.Error()})
			return
		}
		if f := os.Getenv("UNICHECK_PROFILE"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		fn(P, r, *tier)
	}()
	os.Exit(r.finish(*verif, *tier, start))
}
