// Command replay runs recorded cases natively against the real package.
//
// It reads a JSON array of cases from the file named by its argument and
// prints one JSON outcome per line.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/harness"
	"verif/harness/sym"
)

var table = map[string]func(){
	"C01": harness.C01, "C02": harness.C02, "C03": harness.C03, "C04": harness.C04,
	"C05": harness.C05, "C06": harness.C06, "C07": harness.C07, "C08": harness.C08,
	"C09": harness.C09, "C10": harness.C10, "C11": harness.C11, "C12": harness.C12,
	"C13": harness.C13, "C15": harness.C15, "C14": harness.C14, "C16": harness.C16, "C16G": harness.C16G,
	"C17": harness.C17, "C18": harness.C18, "C19": harness.C19, "C20": harness.C20,
	"C21": harness.C21,
}

type task struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
}

type kase struct {
	Task   task        `json:"task"`
	Inputs []sym.Input `json:"inputs"`
	Conc   bool        `json:"conc"`
	Once   bool        `json:"once"`
}

type outcome struct {
	Kind string    `json:"kind"` // ok, assert, assume, panic, hang, mismatch
	Msg  string    `json:"msg"`
	Obs  []sym.Obs `json:"obs"`
}

func run(c kase, limit time.Duration) (o outcome) {
	f := table[c.Task.Harness]
	if f == nil {
		return outcome{Kind: "mismatch", Msg: "no harness " + c.Task.Harness}
	}
	r := &sym.Run{Inputs: c.Inputs, Params: c.Task.Params}
	sym.Cur = r
	done := make(chan outcome, 1)
	go func() {
		o := outcome{Kind: "ok"}
		defer func() {
			if e := recover(); e != nil {
				if s, ok := e.(sym.Stop); ok {
					o = outcome{Kind: s.Kind, Msg: s.Msg}
				} else {
					o = outcome{Kind: "panic", Msg: fmt.Sprintf("%v\n%s", e, debug.Stack())}
				}
			}
			o.Obs = r.Obs
			done <- o
		}()
		f()
	}()
	select {
	case o = <-done:
	case <-time.After(limit):
		o = outcome{Kind: "hang", Msg: "no result within " + limit.String()}
	}
	return o
}

func main() {
	debug.SetMaxStack(64 << 20)
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var cs []kase
	if err := json.Unmarshal(data, &cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := json.NewEncoder(os.Stdout)
	for _, c := range cs {
		o := run(c, 10*time.Second)
		// which schedule a native run takes is up to chance
		for t := time.Now(); c.Conc && !c.Once && o.Kind == "ok" && time.Since(t) < 15*time.Second; {
			o = run(c, 10*time.Second)
		}
		out.Encode(o)
		if o.Kind == "hang" {
			// the runaway goroutine cannot be stopped; later cases need a new process
			os.Exit(3)
		}
	}
}
