package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A spec line names a harness and its bounds; a|b|c lists alternatives and
// a..b a range, and a line stands for all combinations.
func expand(line string) []*Task {
	f := strings.Fields(line)
	sets := []map[string]int{{}}
	for _, kv := range f[1:] {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			fatal("bad spec %q", line)
		}
		var vals []int
		for _, alt := range strings.Split(v, "|") {
			lo, hi, rng := strings.Cut(alt, "..")
			a, err := strconv.Atoi(lo)
			b := a
			if err == nil && rng {
				b, err = strconv.Atoi(hi)
			}
			if err != nil {
				fatal("bad spec %q", line)
			}
			for ; a <= b; a++ {
				vals = append(vals, a)
			}
		}
		var next []map[string]int
		for _, s := range sets {
			for _, x := range vals {
				m := map[string]int{k: x}
				for kk, vv := range s {
					m[kk] = vv
				}
				next = append(next, m)
			}
		}
		sets = next
	}
	var r []*Task
	for _, s := range sets {
		r = append(r, &Task{Harness: f[0], Params: s})
	}
	return r
}

type checkSpec struct {
	quick    string
	thorough string // runs after the quick lines
	race     bool   // native replay under the race detector
	note     string
}

func (c *checkSpec) tasks(tier string) []*Task {
	lines := c.quick
	if tier == "thorough" {
		lines += "\n" + c.thorough
	}
	var r []*Task
	seen := map[string]bool{}
	for _, l := range strings.Split(lines, "\n") {
		l, _, _ = strings.Cut(l, "#")
		if strings.TrimSpace(l) == "" {
			continue
		}
		for _, t := range expand(l) {
			if !seen[t.String()] {
				seen[t.String()] = true
				r = append(r, t)
			}
		}
	}
	if len(r) == 0 {
		fatal("no tasks")
	}
	return r
}

func specOf(id string) (*checkSpec, error) {
	c := specs[id]
	if c == nil {
		return nil, fmt.Errorf("no check for property %s", id)
	}
	return c, nil
}
