package main

// Back ends: z3 (two releases) and cvc5, run as subprocesses on SMT-LIB text.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Answer of a solver.
type Answer struct {
	res     string // unsat, sat, unknown
	backend string
	out     string
	dur     time.Duration
}

// Solvers runs queries with bounded parallelism and caching.
type Solvers struct {
	sem     chan struct{}
	mu      sync.Mutex
	cache   map[[32]byte]*Answer
	stats   map[string]int
	total   time.Duration
	queries int
	scale   float64
}

// NewSolvers makes a pool.
func NewSolvers(n int) *Solvers {
	return &Solvers{sem: make(chan struct{}, n), cache: map[[32]byte]*Answer{}, stats: map[string]int{}, scale: 1}
}

type backend struct {
	name   string
	theory bool
	args   []string
}

func (s *Solvers) run(ctx context.Context, b backend, q string, timeout time.Duration) *Answer {
	select {
	case s.sem <- struct{}{}:
	case <-ctx.Done():
		return &Answer{res: "unknown", backend: b.name}
	}
	defer func() { <-s.sem }()
	ctx, cancel := context.WithTimeout(ctx, timeout+500*time.Millisecond)
	defer cancel()
	args := append([]string{}, b.args[1:]...)
	switch {
	case strings.HasPrefix(b.args[0], "z3"):
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()), "-in")
	case b.args[0] == "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), "-")
	}
	t0 := time.Now()
	c := exec.CommandContext(ctx, b.args[0], args...)
	c.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	_ = c.Run()
	a := &Answer{res: "unknown", backend: b.name, out: out.String(), dur: time.Since(t0)}
	first := strings.TrimSpace(out.String())
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		a.res = "unsat"
	case "sat":
		a.res = "sat"
	}
	s.mu.Lock()
	s.total += a.dur
	s.mu.Unlock()
	return a
}

// Prove checks that the conjunction is unsatisfiable. quick: first stage only.
func (s *Solvers) Prove(uf, theory func() string, effort int) *Answer {
	q := uf()
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", effort, q)))
	s.mu.Lock()
	if a, ok := s.cache[h]; ok {
		s.mu.Unlock()
		return a
	}
	s.queries++
	s.mu.Unlock()
	a := s.prove(q, theory, effort)
	s.mu.Lock()
	s.cache[h] = a
	s.stats[a.backend+":"+a.res]++
	s.mu.Unlock()
	return a
}

// again forgets what was not proved and lengthens all time limits.
func (s *Solvers) again(f float64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.scale *= f
	for k, a := range s.cache {
		if a.res != "unsat" {
			delete(s.cache, k)
		}
	}
}

func (s *Solvers) d(ms int) time.Duration {
	return time.Duration(float64(ms)*s.scale) * time.Millisecond
}

// Efforts of a proof attempt: 0 automatic candidate invariants, 2 candidates from contracts, 1 obligations.
func (s *Solvers) prove(q string, theory func() string, effort int) *Answer {
	ctx := context.Background()
	// pattern-based instantiation alone answers quickly when it saturates
	em := backend{"z3-5.3-ematch", false, []string{"z3-new", "auto_config=false", "smt.mbqi=false", "smt.array.extensional=false"}}
	t1 := 2500
	if effort == 0 {
		t1 = 1500
	}
	a := s.run(ctx, em, q, s.d(t1))
	if a.res == "unsat" {
		return a
	}
	saturated := a.res == "unknown" && a.dur < s.d(t1-300)
	if b := s.run(ctx, backend{"z3-5.3-ematch-ext", false, []string{"z3-new", "auto_config=false", "smt.mbqi=false"}}, q, s.d(t1/2)); b.res == "unsat" {
		return b
	} else if b.res == "unknown" && b.dur < s.d(t1/2-300) {
		saturated = true
	}
	qt := ""
	if theory != nil {
		qt = theory()
	}
	if effort == 0 {
		if qt != "" && qt != q {
			if b := s.run(ctx, backend{"cvc5-strings", true, []string{"cvc5", "--strings-exp"}}, qt, s.d(1500)); b.res == "unsat" {
				return b
			}
		}
		if !saturated {
			if b := s.run(ctx, backend{"cvc5", false, []string{"cvc5"}}, q, s.d(1500)); b.res == "unsat" {
				return b
			}
		}
		return a
	}
	if effort == 1 {
		if b := s.run(ctx, backend{"z3-5.3", false, []string{"z3-new"}}, q, s.d(t1)); b.res == "unsat" || b.res == "sat" && qt == "" {
			return b
		} else if b.res == "sat" {
			a = b
		}
	}
	type job struct {
		b backend
		q string
		t int
	}
	var jobs []job
	long := 25000
	if effort == 2 {
		long = 4000
		if saturated {
			long = 2000
		}
	}
	if a.res != "sat" {
		jobs = append(jobs, job{backend{"cvc5", false, []string{"cvc5"}}, q, long},
			job{backend{"z3-5.3-s7", false, []string{"z3-new", "smt.random_seed=7"}}, q, long},
			job{backend{"z3-4.8", false, []string{"z3"}}, q, long},
			job{backend{"z3-5.3-nomacro", false, []string{"z3-new", "smt.mbqi=false"}}, q, long})
	}
	if qt != "" {
		jobs = append(jobs, job{backend{"cvc5-strings", true, []string{"cvc5", "--strings-exp"}}, qt, long},
			job{backend{"z3-5.3-strings", true, []string{"z3-new"}}, qt, long})
	}
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan *Answer, len(jobs))
	for _, j := range jobs {
		go func(j job) { ch <- s.run(ctx, j.b, j.q, s.d(j.t)) }(j)
	}
	best := a
	for range jobs {
		b := <-ch
		if b.res == "unsat" {
			return b
		}
		if b.res == "sat" && (best.res != "sat" || strings.Contains(b.backend, "strings")) {
			best = b
			if strings.Contains(b.backend, "strings") && effort != 2 { // the theory query leaves quantified facts out
				return best
			}
		}
	}
	return best
}

// ---------------------------------------------------------------- incremental feasibility solver

// Incr is a z3 process used to prune infeasible branches (an optimisation only:
// an answer other than unsat keeps the branch).
type Incr struct {
	cmd   *exec.Cmd
	in    *bufWriter
	out   *lineReader
	tb    *TB
	decl  map[*Term]string
	fdecl map[string]bool
	n     int
	cache map[string]bool
	calls int
	dead  bool
}
