package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"
)

func boot() *World {
	initActors()
	w := newWorld()
	theCodec = w.App.AppCodec()
	initModuleAddrs()
	for acc := range moduleAccounts() {
		if w.App.BankKeeper.BlockedAddr(accAddr(acc)) {
			blockedSet[acc] = true
		}
	}
	return w
}

func caseSeed(seed int64, prop string, i int) int64 {
	h := int64(1469598103934665603)
	for _, b := range []byte(fmt.Sprintf("%d/%s/%d", seed, prop, i)) {
		h ^= int64(b)
		h *= 1099511628211
	}
	return h & 0x7fffffffffffffff
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "explore" {
		fs := flag.NewFlagSet("explore", flag.ExitOnError)
		prof := fs.String("profile", "R01", "")
		prop := fs.String("prop", "*", "")
		n := fs.Int("n", 10, "")
		start := fs.Int("start", 0, "")
		seed := fs.Int64("seed", 1, "")
		verbose := fs.Bool("v", false, "")
		stop := fs.Bool("stop", false, "stop at the first violation")
		must(fs.Parse(os.Args[2:]))
		if f := os.Getenv("MW_PROF"); f != "" {
			fh, err := os.Create(f)
			must(err)
			must(pprof.StartCPUProfile(fh))
			defer pprof.StopCPUProfile()
		}
		w := boot()
		defer w.Close()
		st := newStats()
		t0 := time.Now()
		whats := map[string]int{}
		for i := *start; i < *start+*n; i++ {
			r := newRunner(w, *prop, st)
			r.verbose = *verbose
			g := newGen(caseSeed(*seed, *prof, i), r, profiles[*prof])
			g.scenario(profiles[*prof].steps)
			st.Cases++
			if r.viol != nil {
				b, _ := json.Marshal(Case{Prop: *prop, Ops: r.ops})
				_ = os.WriteFile(fmt.Sprintf("/tmp/mw/case-%s-%d.json", *prof, i), b, 0o644)
				fmt.Printf("case %d step %d %s\n   VIOL %s\n", i, r.step, lastOp(r.ops), r.viol.What)
				whats[r.viol.Props]++
				if *stop {
					os.Exit(3)
				}
			}
			r.close()
		}
		fmt.Printf("%d cases %d steps %.1fs states %d\n", st.Cases, st.Steps, time.Since(t0).Seconds(), len(st.States))
		ks := []string{}
		for k := range st.Events {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf(" %s=%d", k, st.Events[k])
		}
		fmt.Println()
		for _, f := range st.Foreign {
			fmt.Println("FOREIGN", f)
		}
		fmt.Println(whats)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "record" {
		recordMain(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "nodeproc" {
		nodeProc(os.Args[2])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "worker" {
		workerMain(os.Args[2:])
		return
	}
	replayMain(os.Args[len(os.Args)-1])
}
