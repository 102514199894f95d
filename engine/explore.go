package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(3)
}

// Task is one harness entry point with concrete parameters.
type Task struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params,omitempty"`
	id      int
	open    atomic.Int32 // jobs not finished yet
	ns      atomic.Int64 // worker time spent
}

func (t *Task) String() string {
	s := t.Harness
	var ks []string
	for k := range t.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, t.Params[k])
	}
	return s
}

type Job struct {
	task   *Task
	prefix []byte
}

// Case is a concrete assignment of one path's inputs (what the native replay consumes).
type Case struct {
	Task   *Task   `json:"task"`
	Inputs []Input `json:"inputs"`
	Msg    string  `json:"msg,omitempty"`
	Obs    []Obs   `json:"obs,omitempty"`
	Sched  []int   `json:"sched,omitempty"`
	Conc   bool    `json:"conc,omitempty"`
	Once   bool    `json:"once,omitempty"`
}
type Input struct {
	Name string `json:"n"`
	Val  int    `json:"v"`
}
type Obs struct {
	Name string   `json:"n"`
	V    []uint64 `json:"v"`
}

type Result struct {
	Paths, Dead, Forks, Asserts, AssertQ, Steps, Unknown, DomDecided, DomRechecked, Scheds, Redundant, Implicit int64
	Violations                                                                                                  []Case
	Errors                                                                                                      map[string]int
	Samples                                                                                                     []Case
	PerTask                                                                                                     map[string]int64
}

type Pool struct {
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []Job
	idle     int32
	n        int
	stop     atomic.Bool
	timedOut atomic.Bool
	deadline time.Time
	pending  atomic.Int64
	firstV   atomic.Int64
	nviol    atomic.Int64
}

func (p *Pool) get() (Job, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	atomic.AddInt32(&p.idle, 1)
	for len(p.jobs) == 0 {
		if p.stop.Load() || int(atomic.LoadInt32(&p.idle)) == p.n {
			p.stop.Store(true)
			p.cond.Broadcast()
			return Job{}, false
		}
		p.cond.Wait()
	}
	j := p.jobs[0]
	p.jobs = p.jobs[1:]
	atomic.AddInt32(&p.idle, -1)
	return j, true
}
func (p *Pool) put(j Job) {
	j.task.open.Add(1)
	p.mu.Lock()
	p.jobs = append(p.jobs, j)
	p.mu.Unlock()
	p.cond.Signal()
}

type Worker struct {
	id       int
	x        *Ctx
	prog     *Prog
	solver   *Solver
	stack    []*State
	res      Result
	entered  map[string]bool
	reach    map[string]int64
	maxSteps int64
	pool     *Pool
	base     *State
	harn     *ssa.Package
	task     *Task
	taskN    map[string]int64
	msgN     map[string]int
}

func (w *Worker) push(s *State) { w.stack = append(w.stack, s) }

func (w *Worker) poll(st *State) {
	p := w.pool
	if p.stop.Load() {
		panic(pathEnd{endDup, "stopped"})
	}
	if time.Now().After(p.deadline) {
		p.timedOut.Store(true)
		p.stop.Store(true)
		p.cond.Broadcast()
		panic(pathEnd{endDup, "deadline"})
	}
	if fv := p.firstV.Load(); fv != 0 && (time.Now().UnixNano()-fv > int64(5*time.Second) || p.nviol.Load() > 40) {
		p.stop.Store(true)
		p.cond.Broadcast()
	}
	if len(w.stack) > 0 && atomic.LoadInt32(&p.idle) > 0 {
		p.mu.Lock()
		need := int(p.idle) > len(p.jobs)
		p.mu.Unlock()
		if need {
			s := w.stack[0]
			w.stack = append(w.stack[:0:0], w.stack[1:]...)
			tr := append([]byte(nil), s.trace...)
			if s.pending >= 0 {
				tr = append(tr, byte(s.pending))
			}
			p.put(Job{s.task, tr})
		}
	}
}

func (w *Worker) newState() *State {
	st := &State{w: w, tok: new(token_), pending: -1}
	st.heap = make([]*Obj, maxGlobals, maxGlobals*2)
	st.threads = []*Thread{{}}
	return st
}

func (w *Worker) initBase() {
	st := w.newState()
	st.task = &Task{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok && e.kind == endOK {
					return
				}
				fatal("package init: %v", r)
			}
		}()
		st.pushCall(w.prog.fn(w.harn.Func("init")), nil, nil, -1)
		st.run()
	}()
	st.threads = []*Thread{{}}
	w.base = st
}

func (w *Worker) loop() {
	defer w.solver.Close()
	w.initBase()
	for {
		j, ok := w.pool.get()
		if !ok {
			return
		}
		w.task = j.task
		began := time.Now()
		st := w.base.clone()
		st.w = w
		st.task = j.task
		st.steps = 0
		st.replay = j.prefix
		fn := w.harn.Func(j.task.Harness)
		if fn == nil {
			fatal("no harness %s", j.task.Harness)
		}
		st.pushCall(w.prog.fn(fn), nil, nil, -1)
		w.stack = w.stack[:0]
		w.push(st)
		for len(w.stack) > 0 {
			if w.pool.stop.Load() {
				w.pool.pending.Add(int64(len(w.stack)))
				w.stack = w.stack[:0]
				break
			}
			s := w.stack[len(w.stack)-1]
			w.stack = w.stack[:len(w.stack)-1]
			w.runPath(s)
		}
		j.task.ns.Add(int64(time.Since(began)))
		if !w.pool.stop.Load() {
			j.task.open.Add(-1)
		}
	}
}

func (w *Worker) runPath(s *State) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		e, ok := r.(pathEnd)
		if !ok {
			// a construct the interpreter does not expect
			e = pathEnd{endError, fmt.Sprintf("engine: %v at %s", r, s.where())}
		}
		w.res.Steps += s.steps
		switch e.kind {
		case endOK:
			w.res.Paths++
			if s.mt {
				w.res.Scheds++
			}
			k := s.task.String()
			w.res.PerTask[k]++
			n := w.res.PerTask[k]
			if n <= 2 || n&(n-1) == 0 || n%997 == 0 {
				if len(w.res.Samples) < 400 {
					w.res.Samples = append(w.res.Samples, s.toCase(""))
				}
			}
		case endRedundant:
			w.res.Redundant++
		case endAssume:
			w.res.Dead++
		case endViolation:
			w.pool.firstV.CompareAndSwap(0, time.Now().UnixNano())
			k := s.task.String() + e.msg
			w.msgN[k]++
			if w.msgN[k] <= 3 {
				w.pool.nviol.Add(1)
				w.res.Violations = append(w.res.Violations, s.toCase(e.msg))
			}
		case endLimit:
			w.pool.firstV.CompareAndSwap(0, time.Now().UnixNano())
			w.msgN[e.msg]++
			if w.msgN[e.msg] <= 1 {
				w.pool.nviol.Add(1)
				w.res.Violations = append(w.res.Violations, s.toCase("no termination: "+e.msg))
			}
		case endError:
			w.res.Errors[e.msg]++
		case endDup:
			w.pool.pending.Add(1)
		}
	}()
	s.run()
}

func (st *State) toCase(msg string) Case {
	c := Case{Task: st.task, Msg: msg, Conc: st.mt}
	st.ensureModel()
	m := st.models[0]
	for _, in := range st.inputs {
		v := in.c
		if in.kind == 'b' {
			v = int(st.w.x.Eval(in.e, m))
		}
		c.Inputs = append(c.Inputs, Input{in.name, v})
	}
	for _, o := range st.obs {
		ob := Obs{Name: o.name, V: []uint64{}}
		for _, e := range o.v {
			ob.V = append(ob.V, st.w.x.Eval(e, m))
		}
		c.Obs = append(c.Obs, ob)
	}
	for _, s := range st.sched {
		c.Sched = append(c.Sched, int(s))
	}
	return c
}

type Summary struct {
	Result
	Solver    SolverStats
	Functions []string
	Reach     map[string]int64
	TimedOut  bool
	Pending   int64
	Wall      time.Duration
	LoadTime  time.Duration
}

// LoadProgram builds SSA for the harness and everything below it from source.
func LoadProgram(dir, pattern string) (*ssa.Program, *ssa.Package) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pk, err := packages.Load(cfg, pattern)
	if err != nil {
		fatal("load: %v", err)
	}
	if packages.PrintErrors(pk) > 0 {
		fatal("harness or repository does not compile")
	}
	prog, sp := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	return prog, sp[0]
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on")
}

func Explore(prog *ssa.Program, harn *ssa.Package, repoPkg string, tasks []*Task, workers int, budget time.Duration, solverBin string, maxSteps int64) *Summary {
	t0 := time.Now()
	p := &Pool{n: workers, deadline: time.Now().Add(budget)}
	p.cond = sync.NewCond(&p.mu)
	for i, t := range tasks {
		t.id = i
		t.open.Store(1)
		p.jobs = append(p.jobs, Job{task: t})
	}
	var ws []*Worker
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		x := NewCtx()
		w := &Worker{id: i, x: x, prog: NewProg(prog, x, repoPkg, harn.Pkg.Path()), solver: NewSolver(x, solverBin), pool: p,
			entered: map[string]bool{}, reach: map[string]int64{}, maxSteps: maxSteps, harn: harn, msgN: map[string]int{}}
		w.res.Errors = map[string]int{}
		w.res.PerTask = map[string]int64{}
		ws = append(ws, w)
		wg.Add(1)
		go func() { defer wg.Done(); w.loop() }()
	}
	wg.Wait()
	s := &Summary{Reach: map[string]int64{}}
	s.Errors = map[string]int{}
	s.PerTask = map[string]int64{}
	fs := map[string]bool{}
	for _, w := range ws {
		r := &w.res
		s.Paths += r.Paths
		s.Dead += r.Dead
		s.Forks += r.Forks
		s.Asserts += r.Asserts
		s.AssertQ += r.AssertQ
		s.Steps += r.Steps
		s.Unknown += r.Unknown
		s.Scheds += r.Scheds
		s.Redundant += r.Redundant
		s.Implicit += r.Implicit
		s.DomDecided += r.DomDecided
		s.DomRechecked += r.DomRechecked
		s.Violations = append(s.Violations, r.Violations...)
		s.Samples = append(s.Samples, r.Samples...)
		for k, v := range r.Errors {
			s.Errors[k] += v
		}
		for k, v := range r.PerTask {
			s.PerTask[k] += v
		}
		for k, v := range w.reach {
			s.Reach[k] += v
		}
		for k := range w.entered {
			fs[k] = true
		}
		s.Solver.Queries += w.solver.Stats.Queries
		s.Solver.SatN += w.solver.Stats.SatN
		s.Solver.UnsatN += w.solver.Stats.UnsatN
		s.Solver.UnknownN += w.solver.Stats.UnknownN
		s.Solver.Time += w.solver.Stats.Time
	}
	for k := range fs {
		s.Functions = append(s.Functions, k)
	}
	sort.Strings(s.Functions)
	s.TimedOut = p.timedOut.Load()
	s.Pending = p.pending.Load() + int64(len(p.jobs))
	s.Wall = time.Since(t0)
	return s
}

var _ types.Type
