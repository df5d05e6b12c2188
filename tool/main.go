package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if os.Getenv("GEGOV_LONG") != "" {
		clipLen = 6000
	}
	repo := os.Getenv("GEGOV_REPO")
	if repo == "" {
		repo = "/repo"
	}
	var err error
	P, err = load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(os.Args) < 2 {
		for _, f := range P.funcs {
			fmt.Println(f, fnPos(f))
		}
		return
	}
	if f := os.Getenv("GEGOV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(15*time.Second, pprof.StopCPUProfile)
	}
	switch os.Args[1] {
	case "check":
		home := os.Getenv("GEGOV_HOME")
		if home == "" {
			home = "/verif"
		}
		os.Exit(runCheck(os.Args[2], home))
	case "checkall":
		home := os.Getenv("GEGOV_HOME")
		if home == "" {
			home = "/verif"
		}
		// optional comma separated prefixes, in that order
		var ids []string
		pre := ""
		if len(os.Args) > 2 {
			pre = os.Args[2]
		}
		have := map[string]bool{}
		for _, p := range strings.Split(pre, ",") {
			var l []string
			for id := range checks {
				if strings.HasPrefix(id, p) && !have[id] {
					have[id] = true
					l = append(l, id)
				}
			}
			sort.Strings(l)
			ids = append(ids, l...)
		}
		code := 0
		for _, id := range ids {
			t0 := time.Now()
			if x := runCheck(id, home); x != 0 {
				code = x
				if os.Getenv("GEGOV_STOP") != "" {
					break
				}
			}
			if d := time.Since(t0).Seconds(); d > 3 {
				fmt.Printf("  (%s took %.1fs)\n", id, d)
			}
		}
		os.Exit(code)
	case "dump":
		dump(os.Args[2], os.Args[3])
	case "dumpall":
		for _, f := range P.funcs {
			if os.Getenv("V") != "" {
				fmt.Println(f)
			}
			if len(f.FreeVars) > 0 {
				continue
			}
			deadline = time.Now().Add(5 * time.Second)
			t0 := time.Now()
			e := newEval()
			r := evalFn(e, f, nil, nil)
			s := "ok"
			if r.err != "" {
				s = "UNDECIDED " + r.err
			}
			fmt.Printf("%-60s %s steps=%d %.2fs\n", f, s, e.steps, time.Since(t0).Seconds())
		}
	}
}
