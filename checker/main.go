package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	dir := "/repo"
	if d := os.Getenv("VERIF_REPO"); d != "" {
		dir = d
	}
	debug.SetGCPercent(400)
	if len(os.Args) > 1 && os.Args[1] == "mutate" {
		if err := mutants(dir); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "rewrite" {
		for _, k := range os.Args[2:] {
			if err := rewriteTree(dir, k); err != nil {
				fmt.Println(k, err)
				os.Exit(3)
			}
		}
		return
	}
	P, err := loadProgram(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if f := os.Getenv("CHK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "dump":
		for _, n := range os.Args[2:] {
			for fn := range ssautil.AllFunctions(P.prog) {
				if fn.Pkg == P.pkg && fn.Name() == n {
					fn.WriteTo(os.Stdout)
				}
			}
		}
	case "roles":
		fmt.Println("init ok", P.initOK, P.initUndec, P.initPanics, len(P.baseHeap))
		fmt.Println(P.tSub, P.tResult, P.errField, P.scoreField, P.fnFormat, P.fnCtxString)
		for _, f := range P.funcs() {
			s, n, v := P.validateParams(f)
			if p := P.parseParam(f); p >= 0 {
				fmt.Println("parse", f, p)
			}
			if v && P.recursive(f) {
				fmt.Println("validate", f, s, n)
			}
			if P.isRefWalk(f) {
				fmt.Println("walk", f)
			}
		}
		fmt.Println(P.modSet())
	case "scen":
		r := newReport()
		draft := os.Args[2]
		keys := os.Args[3:]
		opts := map[string]string{}
		for i, k := range keys {
			if j := strings.Index(k, "/"); j >= 0 {
				opts[k[:j]] = k[j+1:]
				keys[i] = k[:j]
			}
		}
		runScen(P, r, func() *Scen {
			s := buildScen(P, draft, keys, opts)
			s.in.tight = os.Getenv("CHK_TIGHT") != ""
			return s
		})
		r.print()
	case "singles":
		r := newReport()
		ds := allDrafts
		if len(os.Args) > 2 {
			ds = os.Args[2:]
		}
		runJobs(P, r, singles(ds), true)
		r.print()
	case "groups":
		r := newReport()
		ds := allDrafts
		if len(os.Args) > 2 {
			ds = os.Args[2:]
		}
		runJobs(P, r, append(groups(ds), typeLists(ds)...), true)
		r.print()
	case "all":
		r := newReport()
		var js []Job
		seen := map[string]bool{}
		for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C23", "C24"} {
			for _, j := range checks[id].jobs("quick") {
				if os.Getenv("CHK_TINY") != "" && (strings.HasPrefix(j.Name, "Draft4 ") || strings.HasPrefix(j.Name, "Draft6 ") || strings.HasPrefix(j.Name, "Hybrid ") && !strings.Contains(j.Name, "xclusive") || strings.HasPrefix(j.Name, "references: arbitrary identifiers") && !strings.Contains(j.Name, "named a (Hyb") || strings.HasPrefix(j.Name, "references: arbitrary values of") && !strings.Contains(j.Name, "(Draft7")) {
					continue
				}
				if os.Getenv("CHK_SMALL") == "no" && strings.HasSuffix(j.Name, "(small)") || os.Getenv("CHK_SMALL") == "only" && !strings.HasSuffix(j.Name, "(small)") {
					continue
				}
				if f := os.Getenv("CHK_ONLY"); !seen[j.Name] && strings.Contains(j.Name, f) {
					seen[j.Name] = true
					js = append(js, j)
				}
			}
		}
		r.first = os.Getenv("CHK_FIRST") != ""
		runJobs(P, r, js, os.Getenv("CHK_SLOW") != "")
		for i, v := range r.Viols {
			if v.Key == "" && i < 12 {
				fmt.Println("VIOL", v.Props, v.Scen, ":", v.What, "\n    ", cut(v.Facts, 500))
			}
		}
		i := 0
		for k, v := range r.Undec {
			if i++; i <= 15 {
				fmt.Println("UNDEC", k, cut(v, 3000))
			}
		}
		fmt.Printf("%d jobs, %d viols, %d undecided, %.0fs\n", len(js), len(r.Viols), len(r.Undec), time.Since(started).Seconds())
	case "check":
		os.Exit(runCheck(P, os.Args[2]))
	case "pairs":
		r := newReport()
		ds := allDrafts
		if len(os.Args) > 2 {
			ds = os.Args[2:]
		}
		runJobs(P, r, pairs(ds, nil), true)
		r.print()
	default:
		fmt.Println("unknown", strings.Join(os.Args, " "))
	}
}
