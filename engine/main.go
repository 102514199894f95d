package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

const repoPkg = "github.com/absolutelightning/go-immutable-adaptive-radix"

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) > 1 && os.Args[1] == "run" {
		cmdRun(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "usage: engine run|check ...")
	os.Exit(2)
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	h := fs.String("h", "", "harness function(s), comma separated")
	ps := fs.String("p", "", "params k=v,...")
	workers := fs.Int("j", 8, "workers")
	budget := fs.Int("t", 60, "seconds")
	bin := fs.String("solver", "z3", "solver")
	dir := fs.String("dir", "/verif/harness", "harness dir")
	cpu := fs.String("cpu", "", "profile")
	steps := fs.Int64("steps", 20000000, "instruction limit per path")
	fs.Int64Var(&recheck, "recheck", recheck, "confirm every n-th value-set decision by the solver")
	fs.Parse(args)
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	prog, harn := LoadProgram(*dir, ".")
	lt := time.Since(t0)
	params := map[string]int{}
	for _, kv := range strings.Split(*ps, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			params[k], _ = strconv.Atoi(v)
		}
	}
	var tasks []*Task
	for _, n := range strings.Split(*h, ",") {
		tasks = append(tasks, &Task{Harness: n, Params: params})
	}
	s := Explore(prog, harn, repoPkg, tasks, *workers, time.Duration(*budget)*time.Second, *bin, *steps)
	fmt.Printf("load %.2fs wall %.2fs paths %d dead %d forks %d asserts %d (queries %d, dom %d/%d) steps %d solver{q %d sat %d unsat %d unk %d time %.1fs} timedout %v pending %d\n",
		lt.Seconds(), s.Wall.Seconds(), s.Paths, s.Dead, s.Forks, s.Asserts, s.AssertQ, s.DomRechecked, s.DomDecided, s.Steps, s.Solver.Queries, s.Solver.SatN, s.Solver.UnsatN, s.Solver.UnknownN, s.Solver.Time.Seconds(), s.TimedOut, s.Pending)
	for k, v := range s.Errors {
		fmt.Printf("ERR %dx %s\n", v, k)
	}
	seen := map[string]int{}
	for _, v := range s.Violations {
		seen[v.Msg]++
		if seen[v.Msg] > 1 {
			continue
		}
		b, _ := json.Marshal(v)
		fmt.Printf("VIOL %s\n", b)
	}
	for k, v := range s.Reach {
		fmt.Printf("reach %s %d\n", k, v)
	}
}
