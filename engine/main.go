package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|dbg ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		fs.Parse(os.Args[2:])
		os.Exit(checkMain(*repo, *verif, fs.Arg(0)))
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		fs.Parse(os.Args[2:])
		b, err := os.ReadFile(fs.Arg(0))
		var ro replayOut
		if err != nil || json.Unmarshal(b, &ro) != nil {
			fmt.Println("cannot read replay file")
			os.Exit(2)
		}
		if ro.Failing == nil {
			fmt.Println("the file names a failed obligation without a failing input:", ro.Obligation)
			os.Exit(1)
		}
		w, err := Load(*repo, ro.Property, *verif)
		if err != nil {
			fmt.Println("LOAD", err)
			os.Exit(2)
		}
		n := newNative(*repo, *verif, ro.Property, w)
		for _, d := range w.harnesses {
			if d.Name == ro.Harness {
				r := n.run(d, []map[string]interface{}{ro.Failing}, 0, 1)
				fmt.Printf("%s: failed again: %v %s %s\n", d.Name, r.Found, r.Msg, r.Err)
				n.close()
				if r.Found {
					os.Exit(1)
				}
				os.Exit(0)
			}
		}
	case "nat": // run the harnesses of a property natively (debugging aid)
		fs := flag.NewFlagSet("nat", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		only := fs.String("h", "", "")
		sec := fs.Int("s", 5, "")
		fs.Parse(os.Args[2:])
		w, err := Load(*repo, fs.Arg(0), *verif)
		if err != nil {
			fmt.Println("LOAD", err)
			os.Exit(1)
		}
		n := newNative(*repo, *verif, fs.Arg(0), w)
		for _, d := range w.harnesses {
			if *only != "" && d.Name != *only {
				continue
			}
			r := n.run(d, nil, time.Duration(*sec)*time.Second, 1)
			fmt.Printf("%s: runs %d skips %d found %v %s %s\n", d.Name, r.Runs, r.Skips, r.Found, r.Msg, r.Err)
			if r.Found {
				b, _ := json.Marshal(r.Inputs)
				fmt.Println("   ", string(b))
			}
		}
		n.close()
	case "dbg":
		fs := flag.NewFlagSet("dbg", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		only := fs.String("h", "", "")
		smt := fs.String("smt", "", "")
		fs.Parse(os.Args[2:])
		if *smt != "" {
			dbgSMT, _ = os.Create(*smt)
		}
		t := time.Now()
		w, err := Load(*repo, fs.Arg(0), *verif)
		if err != nil {
			fmt.Println("LOAD", err)
			os.Exit(1)
		}
		fmt.Println("loaded", time.Since(t))
		for _, d := range w.harnesses {
			if *only != "" && d.Name != *only {
				continue
			}
			st := &SolverStats{ByTool: map[string]int{}}
			fmt.Println("==", d.Name)
			r := RunHarness(w, d, st, true, 600*time.Second)
			printResult(r, st)
		}
	}
}

func printResult(r *HarnessResult, st *SolverStats) {
	n, ok := 0, 0
	for _, o := range r.Obl {
		n += o.Checked
		ok += o.Discharged
	}
	fmt.Printf("%s: obligations %d discharged %d, rounds %d paths %d instrs %d loops %d returns %d ensures %d, queries %d solver %v (grounding %v), %v err=%q\n", r.Decl.Name, n, ok, r.Rounds, r.Paths, r.Instrs, r.Loops, r.Returns, r.Reach, st.Queries, st.Time.Round(time.Millisecond), st.Ground.Round(time.Millisecond), r.Elapsed.Round(time.Millisecond), r.Err)
	for _, f := range r.Fails {
		fmt.Printf("  FAIL %s (%s) model=%v %v\n", f.Name, f.Res, f.HasMod, f.Inputs)
	}
	for _, a := range r.Assumed {
		fmt.Println("  assumed:", a)
	}
}
