package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// cmdCheck decides one property: explore, replay natively, write evidence.
func cmdCheck(args []string) int {
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check <property> quick|thorough")
		return 2
	}
	id, tier := args[0], args[1]
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sp, err := specOf(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	start := time.Now()
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	// the native side is built while the symbolic side runs
	rep := &replayer{dir: filepath.Join(root, "harness"), bin: filepath.Join(scratch, "replay"), scratch: scratch, race: sp.race}
	built := make(chan error, 1)
	go func() { built <- rep.build() }()

	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 5400 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	solver := os.Getenv("VERIF_SOLVER")
	if solver == "" {
		solver = "z3"
	}
	tasks := sp.tasks(tier)
	prog, harn := LoadProgram(filepath.Join(root, "harness"), ".")
	load := time.Since(start)
	s := Explore(prog, harn, repoPkg, tasks, runtime.NumCPU(), budget, solver, 60000000)

	if err := <-built; err != nil {
		fmt.Fprintln(os.Stderr, "ERROR: native replay does not build:", err)
		return 2
	}
	exit := 0
	fail := func(f string, a ...any) {
		fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
		if exit == 0 {
			exit = 2
		}
	}

	// violations count only when the real code shows them
	confirmed, findings, unconfirmed := 0, 0, 0
	known := loadFindings(filepath.Join(root, "known-findings.txt"), id)
	cases := pickViolations(s.Violations, 8)
	var lines []string
	for i, c := range cases {
		o := rep.one(c)
		if !o.bad() {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "not reproduced natively (%s): %s: %s\n", o.Kind, c.Task, c.Msg)
			continue
		}
		if k := known.match(c); k != "" {
			findings++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		confirmed++
		path := filepath.Join(root, "evidence", fmt.Sprintf("%s.violation%d.json", id, i))
		writeJSON(path, []any{map[string]any{"property": id, "task": c.Task, "inputs": c.Inputs, "msg": c.Msg, "sched": c.Sched, "native": o}})
		if len(lines) == 0 {
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
		}
		fmt.Printf("%s: %s (native: %s)\n", c.Task, firstLine(c.Msg), o.Kind)
	}
	if confirmed > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		exit = 1
	} else if unconfirmed > 0 {
		fail("%d symbolic counterexamples did not reproduce natively", unconfirmed)
	}

	// paths that held are replayed too: encoding and real code must agree
	rng := rand.New(rand.NewSource(seed))
	rng.Shuffle(len(s.Samples), func(i, j int) { s.Samples[i], s.Samples[j] = s.Samples[j], s.Samples[i] })
	sampleN := 400
	if tier == "thorough" {
		sampleN = 2000
	}
	samples := s.Samples
	if len(samples) > sampleN {
		samples = samples[:sampleN]
	}
	validated := 0
	if confirmed == 0 {
		n, err := rep.validate(samples)
		validated = n
		if err != nil {
			fail("encoding and real code disagree: %v", err)
		}
	}

	if len(s.Errors) > 0 {
		for k, v := range s.Errors {
			if exit != 1 {
				fail("%d paths: %s", v, k)
			}
		}
	}
	if s.Unknown > 0 && exit != 1 {
		fail("%d queries undecided", s.Unknown)
	}
	done, reduced := 0, []string{}
	for _, t := range tasks {
		if t.open.Load() == 0 {
			done++
			if s.PerTask[t.String()] == 0 && confirmed == 0 && unconfirmed == 0 {
				fail("vacuous: %s has no completed path", t)
			}
		} else {
			reduced = append(reduced, t.String())
		}
	}
	if confirmed == 0 && len(reduced) > 0 {
		fmt.Printf("REDUCED-BOUND property=%s: %d of %d bound sets completed within %s; not completed: %s\n", id, done, len(tasks), budget, strings.Join(reduced, "; "))
		if done == 0 {
			fail("nothing completed")
		}
	}
	if s.Reach["end"] == 0 && confirmed == 0 {
		fail("vacuous: no harness reached its end")
	}
	if s.Solver.Queries == 0 && confirmed == 0 {
		fail("vacuous: no solver query was made")
	}

	var bounds []string
	spent := map[string]float64{}
	for _, t := range tasks {
		bounds = append(bounds, t.String())
		spent[t.String()] = round(time.Duration(t.ns.Load()).Seconds())
	}
	var shown []any
	for i, c := range samples {
		if i == 5 {
			break
		}
		shown = append(shown, map[string]any{"bounds": c.Task.String(), "inputs": inputsText(c.Inputs)})
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        s.Paths + s.Forks + s.Dead,
			"transitions":                   s.Steps,
			"traces_validated_against_impl": validated,
			"samples":                       shown,
			"exhaustive":                    len(reduced) == 0,
			"symbolic_paths_completed":      s.Paths,
			"paths_cut_by_assumptions":      s.Dead,
			"branch_splits":                 s.Forks,
			"assertions":                    s.Asserts,
			"implicit_panic_checks":         s.Implicit,
			"assertion_queries_unsat":       s.AssertQ - int64(len(s.Violations)),
			"solver":                        solver,
			"solver_queries":                s.Solver.Queries,
			"solver_sat":                    s.Solver.SatN,
			"solver_unsat":                  s.Solver.UnsatN,
			"solver_unknown":                s.Solver.UnknownN,
			"solver_time_s":                 round(s.Solver.Time.Seconds()),
			"byte_domain_decisions":         s.DomDecided,
			"byte_domain_confirmed_by_smt":  s.DomRechecked,
			"bounds":                        bounds,
			"bound_sets_completed":          done,
			"bound_sets_not_completed":      reduced,
			"functions_encoded":             s.Functions,
			"schedules":                     s.Scheds,
			"encoding_load_s":               round(load.Seconds()),
			"paths_per_bound_set":           s.PerTask,
			"worker_s_per_bound_set":        spent,
		},
		"assumptions": append([]string{sp.note}, commonAssumptions...),
		"violations":  confirmed,
		"wall_s":      round(time.Since(start).Seconds()),
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := writeJSON(filepath.Join(root, "evidence", id+".json"), ev); err != nil {
		fail("evidence: %v", err)
	}
	fmt.Printf("%s %s: %d bound sets (%d complete), %d paths, %d assertions, %d solver queries (%.1f s solver), %d byte-domain decisions, %d traces validated, %.1f s\n",
		id, tier, len(tasks), done, s.Paths, s.Asserts, s.Solver.Queries, s.Solver.Time.Seconds(), s.DomDecided, validated, time.Since(start).Seconds())
	return exit
}

var commonAssumptions = []string{
	"everything outside the listed bounds (longer histories, longer or more keys, other templates) is not covered",
	"values are int, except in C20",
	"allocation never fails; fmt, log and os calls are modelled as returning zero values",
	"go/ssa lowers the source faithfully; sampled paths are replayed natively to check this",
	"conditions over a single input byte are decided on exact 256-value sets, a share of them confirmed by the solver",
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func inputsText(in []Input) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d", v.Name, v.Val)
	}
	return sb.String()
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// pickViolations keeps one case per message first, then fills up to n.
func pickViolations(vs []Case, n int) []Case {
	sort.SliceStable(vs, func(i, j int) bool {
		if a, b := vs[i].Task.id, vs[j].Task.id; a != b {
			return a < b
		}
		return len(vs[i].Inputs) < len(vs[j].Inputs)
	})
	var first, rest []Case
	seen := map[string]bool{}
	for _, v := range vs {
		if !seen[v.Msg] {
			seen[v.Msg] = true
			first = append(first, v)
		} else {
			rest = append(rest, v)
		}
	}
	first = append(first, rest...)
	if len(first) > n {
		first = first[:n]
	}
	return first
}

// ---- findings ----

// A known finding is one line
//
//	finding: property=<id> at=<task> inputs=<name=value ...> msg=<assertion> what=<description>
//
// and matches exactly that task, assertion and input list.
type findings []map[string]string

func loadFindings(path, id string) findings {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r findings
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		m := map[string]string{}
		for _, part := range strings.Split(rest, " ; ") {
			k, v, _ := strings.Cut(part, "=")
			m[strings.TrimSpace(k)] = strings.TrimSpace(v)
		}
		if m["property"] == id {
			r = append(r, m)
		}
	}
	return r
}

func (f findings) match(c Case) string {
	for _, m := range f {
		if m["at"] == c.Task.String() && m["inputs"] == inputsText(c.Inputs) && m["msg"] == firstLine(c.Msg) {
			return m["what"]
		}
	}
	return ""
}

// ---- native replay ----

type replayer struct {
	dir, bin, scratch string
	race              bool
	n                 int
}

type outcome struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Obs  []Obs  `json:"obs,omitempty"`
}

// bad reports whether the real code misbehaved.
func (o outcome) bad() bool {
	switch o.Kind {
	case "assert", "panic", "hang", "crash", "race":
		return true
	}
	return false
}

func (r *replayer) build() error {
	args := []string{"build", "-o", r.bin}
	if r.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./cmd/replay")...)
	cmd.Dir = r.dir
	cmd.Env = goEnv()
	if r.race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

func (r *replayer) run(cs []Case, limit time.Duration) ([]outcome, string) {
	r.n++
	f := filepath.Join(r.scratch, fmt.Sprintf("case%d.json", r.n))
	if err := writeJSON(f, cs); err != nil {
		return nil, err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, f)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	runErr := cmd.Run()
	var os []outcome
	dec := json.NewDecoder(&out)
	for {
		var o outcome
		if dec.Decode(&o) != nil {
			break
		}
		os = append(os, o)
	}
	text := errb.String()
	if len(text) > 4000 {
		text = text[:4000]
	}
	if len(os) < len(cs) && runErr != nil && (len(os) == 0 || os[len(os)-1].Kind != "hang") {
		kind := "crash"
		if strings.Contains(text, "DATA RACE") {
			kind = "race"
		} else if ctx.Err() != nil {
			kind = "hang"
		}
		os = append(os, outcome{Kind: kind, Msg: text})
	}
	return os, text
}

func (r *replayer) one(c Case) outcome {
	tries := 1
	if c.Conc {
		tries = 3
	}
	var o outcome
	for i := 0; i < tries; i++ {
		os, text := r.run([]Case{c}, 60*time.Second)
		if len(os) == 0 {
			return outcome{Kind: "mismatch", Msg: text}
		}
		if o = os[0]; o.bad() {
			break
		}
	}
	return o
}

// validate replays completed paths and compares every observation.
func (r *replayer) validate(cs []Case) (int, error) {
	n := 0
	const batch = 200
	for i := range cs {
		cs[i].Once = true
	}
	for len(cs) > 0 {
		k := min(batch, len(cs))
		os, text := r.run(cs[:k], 300*time.Second)
		for i, o := range os {
			if o.Kind != "ok" {
				return n, fmt.Errorf("%s [%s]: native run ended with %s %s", cs[i].Task, inputsText(cs[i].Inputs), o.Kind, firstLine(o.Msg))
			}
			a, _ := json.Marshal(cs[i].Obs)
			b, _ := json.Marshal(o.Obs)
			if len(cs[i].Obs)+len(o.Obs) > 0 && !bytes.Equal(a, b) {
				return n, fmt.Errorf("%s [%s]: observed %s, encoding says %s", cs[i].Task, inputsText(cs[i].Inputs), b, a)
			}
			n++
		}
		if len(os) < k {
			return n, fmt.Errorf("native run stopped early: %s", firstLine(text))
		}
		cs = cs[k:]
	}
	return n, nil
}
