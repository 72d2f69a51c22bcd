// Command engine decides the properties of /repo by symbolic execution of its SSA form with Z3.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(14 << 30)
	if len(os.Args) < 2 {
		fatal("usage: engine check|replay ...")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

var limits = map[string]time.Duration{"quick": 700 * time.Second, "thorough": 3600 * time.Second}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	root := fs.String("root", "/verif", "framework root")
	only := fs.String("h", "", "only harnesses matching this regular expression")
	verbose := fs.Bool("v", false, "verbose")
	workers := fs.Int("j", 0, "workers")
	maxv := fs.Int("maxviol", 300, "stop after this many counterexamples")
	limit := fs.Duration("limit", 0, "time limit")
	noreplay := fs.Bool("noreplay", false, "do not replay natively")
	prof := fs.String("prof", "", "cpu profile")
	fs.BoolVar(&debugPrint, "debug", false, "print vx.Debug")
	fs.StringVar(&repoDir, "repo", repoDir, "the repository (for trials on a copy)")
	fs.Parse(args)
	start := time.Now()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	lim := limits[*tier]
	if *limit > 0 {
		lim = *limit
	}
	tmp, err := os.MkdirTemp("", "vx-")
	if err != nil {
		fatal("%v", err)
	}
	code := 2
	func() {
		defer os.RemoveAll(tmp)
		r := &Run{prop: *prop, tier: *tier, maxSteps: 60_000_000, maxConc: 4200, maxSymAlloc: 64, workers: *workers,
			deadline: start.Add(lim), maxViol: *maxv, verbose: *verbose}
		nat := &Native_{root: *root, tmp: tmp}
		if err := nat.prepare(); err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			return
		}
		if !*noreplay {
			nat.startBuild()
		}
		if err := r.load(filepath.Join(*root, "harness"), nat.overlayBytes); err != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", err)
			return
		}
		re := regexp.MustCompile(*only)
		for _, h := range r.all {
			if h.prop == *prop && re.MatchString(h.name) {
				r.hs = append(r.hs, h)
			}
		}
		if len(r.hs) == 0 {
			fmt.Fprintln(os.Stderr, "ERROR: no harness for", *prop)
			return
		}
		loadT := time.Since(start)
		r.explore()
		if !*noreplay {
			if err := nat.wait(); err != nil {
				fmt.Fprintln(os.Stderr, "ERROR: native build:", err)
				return
			}
		}
		code = r.report(nat, *root, seed, start, loadT, *noreplay)
	}()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "framework root")
	fs.Parse(args)
	tmp, err := os.MkdirTemp("", "vx-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	nat := &Native_{root: *root, tmp: tmp}
	if err := nat.prepare(); err != nil {
		fatal("%v", err)
	}
	nat.startBuild()
	if err := nat.wait(); err != nil {
		fatal("%v", err)
	}
	for _, f := range fs.Args() {
		w, err := readWitness(f)
		if err != nil {
			fatal("%v", err)
		}
		fmt.Printf("%s: %s\n", f, strings.TrimSpace(nat.run(w, true).String()))
	}
}
