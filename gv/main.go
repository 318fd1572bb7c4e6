package main

// Command line: gv check PROPERTY, gv fn KEY, gv list, gv audit.

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	var (
		repo    = flag.String("repo", "/repo", "tree to verify")
		verif   = flag.String("verif", "/verif", "verification directory")
		tier    = flag.String("tier", "quick", "quick or thorough")
		verbose = flag.Bool("v", false, "verbose")
		noRep   = flag.Bool("noreplay", false, "no replay")
		dloop   = flag.Bool("loops", false, "debug loops")
		only    = flag.String("only", "", "only this function")
	)
	flag.Parse()
	debugLoops = *dloop
	if flag.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: gv [flags] check PROPERTY | list | audit | funcs")
		os.Exit(2)
	}
	t0 := time.Now()
	w, err := Load(*repo, *verif, []string{"./..."})
	if err != nil {
		// the tree does not build: nothing can be said
		fmt.Fprintln(os.Stderr, "gv: load:", err)
		os.Exit(2)
	}
	if err := w.LoadSpecs(filepath.Join(*verif, "contracts")); err != nil {
		fmt.Fprintln(os.Stderr, "gv: contracts:", err)
		os.Exit(2)
	}
	w.sol = NewSolvers(8)
	w.timeout = 400
	loadDur := time.Since(t0)
	switch flag.Arg(0) {
	case "funcs":
		var ks []string
		for k := range w.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	case "audit":
		w.audit()
	case "check":
		if *tier == "thorough" {
			w.sol.scale = 3
			w.timeout = 1200
		}
		c := &checkRun{w: w, prop: flag.Arg(1), tier: *tier, verif: *verif, repo: *repo, verbose: *verbose, noReplay: *noRep, only: *only, start: t0, loadDur: loadDur}
		os.Exit(c.run())
	}
}

type checkRun struct {
	w        *World
	prop     string
	tier     string
	verif    string
	repo     string
	verbose  bool
	noReplay bool
	only     string
	start    time.Time
	loadDur  time.Duration
}

// verifyScope verifies the functions of a property and everything whose contract they use.
func (c *checkRun) verifyScope() []*FnResult {
	w := c.w
	w.prop = c.prop
	var mu sync.Mutex
	var wg sync.WaitGroup
	done := map[string]bool{}
	var out []*FnResult
	sem := make(chan struct{}, 8)
	var start func(key string)
	start = func(key string) {
		mu.Lock()
		if done[key] {
			mu.Unlock()
			return
		}
		done[key] = true
		mu.Unlock()
		if con := w.sp.contracts[key]; con != nil && (con.extern || con.noverify) {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r := w.verify(key)
			<-sem
			mu.Lock()
			out = append(out, r)
			mu.Unlock()
			if r.e != nil && os.Getenv("GV_JUST") == "" {
				for k := range r.e.usedCon {
					if s := w.sp.props[c.prop]; s != nil && s.relies[k] {
						continue
					}
					start(k)
				}
			}
		}()
	}
	if c.only != "" {
		start(c.only)
	} else if s := w.sp.props[c.prop]; s != nil {
		for _, f := range s.funcs {
			start(f)
		}
	}
	wg.Wait()
	c.retry(out)
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// retry verifies functions with undischarged obligations once more with longer solver times: on a busy machine
// the wall-clock limits of the first attempt may have been too short. The second result counts when it is complete.
func (c *checkRun) retry(out []*FnResult) {
	w := c.w
	if time.Since(c.start) > 200*time.Second || os.Getenv("GV_JUST") != "" {
		return
	}
	var idx []int
	for i, r := range out {
		if r.e == nil || r.err != "" {
			continue
		}
		for _, o := range r.e.obls {
			if hasLabel(o.labels, w.prop) && !o.trivial && (o.ans == nil || o.ans.res != "unsat") {
				idx = append(idx, i)
				break
			}
		}
	}
	if len(idx) == 0 {
		return
	}
	left := 560*time.Second - time.Since(c.start)
	w.sol.again(2.5)
	if t := int(left.Seconds()); c.tier != "thorough" && w.timeout > t {
		w.timeout = t
	}
	var wg sync.WaitGroup
	for _, i := range idx {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := w.verify(out[i].key)
			if r.e != nil && r.err == "" && !r.missing {
				out[i] = r
			}
		}(i)
	}
	wg.Wait()
}

func (c *checkRun) run() int {
	w := c.w
	scope := w.sp.props[c.prop]
	if scope == nil && c.only == "" {
		fmt.Fprintln(os.Stderr, "gv: no scope for property", c.prop)
		return 2
	}
	res := c.verifyScope()
	var failed []*Obl
	var bounded []string
	optional := map[string]bool{}
	type fnEv struct {
		Function    string         `json:"function"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Simplified  int            `json:"by_simplification"`
		Invariants  int            `json:"loop_invariants_proved"`
		Exits       int            `json:"returns_reached"`
		Status      string         `json:"status"`
		Inlined     []string       `json:"inlined,omitempty"`
		Loops       []string       `json:"loops,omitempty"`
		Kinds       map[string]int `json:"kinds,omitempty"`
	}
	var fns []fnEv
	total, disch, triv := 0, 0, 0
	back := map[string]int{}
	assumed := map[string]bool{}
	ext := map[string]bool{}
	var solver time.Duration
	for _, r := range res {
		fe := fnEv{Function: r.key, Status: "verified", Kinds: map[string]int{}}
		if r.missing {
			con := w.sp.contracts[r.key]
			if con != nil && con.optional {
				optional[r.key] = true
				continue
			}
			fe.Status = "not in the tree"
			bounded = append(bounded, r.key+": no such function in this tree")
			fns = append(fns, fe)
			continue
		}
		e := r.e
		if r.err != "" {
			fe.Status = "outside the verifier's subset: " + r.err
			bounded = append(bounded, r.key+": "+r.err)
		} else {
			con := w.sp.contracts[r.key]
			if r.exits == 0 && con != nil && !con.mayPanic && e.panics == 0 {
				// a function that never returns: nothing about its result is established
				fe.Status = "verified (no return reached)"
			}
			if r.vacuous {
				fe.Status = "VACUOUS: no return is reachable under the assumptions"
			}
			for _, o := range e.obls {
				if !hasLabel(o.labels, c.prop) {
					continue
				}
				total++
				fe.Obligations++
				fe.Kinds[o.kind]++
				switch {
				case o.trivial:
					triv++
					disch++
					fe.Simplified++
					fe.Discharged++
				case o.ans.res == "unsat":
					disch++
					fe.Discharged++
					back[o.ans.backend]++
					solver += o.ans.dur
				default:
					failed = append(failed, o)
					solver += o.ans.dur
				}
			}
			if fe.Discharged < fe.Obligations {
				fe.Status = "obligations not discharged"
			}
		}
		fe.Invariants = e.invProved
		fe.Loops = e.loopStats
		fe.Exits = r.exits
		for k := range e.inlined {
			fe.Inlined = append(fe.Inlined, k)
		}
		sort.Strings(fe.Inlined)
		for k := range e.assumed {
			assumed[k] = true
		}
		for k := range e.usedCon {
			if scope != nil && scope.relies[k] {
				assumed["contract of "+k+" (its obligations are discharged by the checks of the properties it carries)"] = true
			}
		}
		for k := range e.usedExt {
			ext[k] = true
		}
		fns = append(fns, fe)
		if c.verbose {
			fmt.Printf("%-40s %-12s obl %d disch %d triv %d inv %d paths %d incr %d %.1fs %s\n", r.key, fe.Status, fe.Obligations, fe.Discharged, fe.Simplified, fe.Invariants, e.paths, e.incr.calls, r.dur.Seconds(), r.err)
			for _, l := range e.loopStats {
				fmt.Println("   ", l)
			}
		}
	}
	for _, o := range failed {
		if c.verbose {
			fmt.Printf("FAILED %s [%s] %s (%s) %s\n   goal %s\n   path %s\n", o.fn, o.kind, o.name, o.pos, o.ans.res, cut(o.goal.String(), 400), strings.Join(o.trace, " ; "))
		}
	}
	// replay
	rep := &Replay{c: c}
	needReplay := len(failed) > 0 || len(bounded) > 0
	status := 0
	var repOut string
	var repRan bool
	var vio string
	if (needReplay || rep.always()) && !c.noReplay {
		repRan, repOut = rep.run()
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	rfile := filepath.Join(c.verif, "evidence", "replay-"+c.prop+".txt")
	os.Remove(rfile)
	if len(failed) > 0 || rep.failed {
		status = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", c.prop)
		for _, o := range failed {
			fmt.Fprintf(&b, "\nFAILED OBLIGATION in %s\n  kind: %s\n  what: %s\n  at:   %s\n  path: %s\n  solver: %s (%s)\n  goal: %s\n", o.fn, o.kind, o.name, o.pos, strings.Join(o.trace, " ; "), o.ans.backend, o.ans.res, cut(o.goal.String(), 2000))
			if o.ans.out != "" {
				fmt.Fprintf(&b, "  solver output: %s\n", cut(o.ans.out, 2000))
			}
		}
		if rep.failed {
			fmt.Fprintf(&b, "\nREPLAY AGAINST THE REAL CODE (fails):\n%s\n", repOut)
		} else if repRan {
			fmt.Fprintf(&b, "\nReplay against the real code found no failing input:\n%s\n", cut(repOut, 4000))
		}
		os.WriteFile(rfile, []byte(b.String()), 0o644)
		vio = "VIOLATION property=" + c.prop + " replay=" + rfile
		if !rep.failed {
			vio += " no-failing-input-found"
		}
		for _, o := range failed {
			fmt.Printf("undischarged: %s: %s: %s at %s (%s)\n", o.fn, o.kind, o.name, o.pos, o.ans.res)
		}
		if rep.failed {
			fmt.Println(cut(repOut, 3000))
		}
	}
	for _, b := range bounded {
		fmt.Println("bounded only:", b)
	}
	for _, k := range c.known() {
		fmt.Println("KNOWN-FINDING: property=" + c.prop + " " + k)
	}
	// evidence
	var fnNames []string
	for _, f := range fns {
		fnNames = append(fnNames, f.Function)
	}
	ev := map[string]interface{}{}
	ev["property"] = c.prop
	c.evidence(ev, fns, fnNames, total, disch, triv, back, keysOf(assumed), keysOf(ext), bounded, failed, solver, repRan, repOut, rep)
	fmt.Printf("%s: %d functions, %d obligations, %d discharged (%d by simplification), %d failed, %d bounded, %.1fs\n", c.prop, len(fns), total, disch, triv, len(failed), len(bounded), time.Since(c.start).Seconds())
	if vio != "" {
		fmt.Println(vio)
	}
	return status
}

func keysOf(m map[string]bool) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// known lists the known findings of the property.
func (c *checkRun) known() []string {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + c.prop + " "
		if strings.HasPrefix(l, p) {
			out = append(out, l[len(p):])
		}
	}
	return out
}

// Replay runs the concrete driver of a property against the real code.
type Replay struct {
	c      *checkRun
	failed bool
	passed int // drivers that ran and found nothing
}

func (r *Replay) always() bool {
	_, err := os.Stat(filepath.Join(r.c.verif, "replay", "always", r.c.prop))
	return err == nil || r.c.tier == "thorough"
}

func (r *Replay) run() (bool, string) {
	fs, _ := filepath.Glob(filepath.Join(r.c.verif, "replay", "*", strings.ToLower(r.c.prop)+"_verif_test.go"))
	if len(fs) == 0 {
		return false, "no replay driver"
	}
	tmp, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	var out strings.Builder
	for _, f := range fs {
		pkg := filepath.Base(filepath.Dir(f))
		rel := pkg
		if b, err := os.ReadFile(filepath.Join(filepath.Dir(f), "PKGDIR")); err == nil {
			rel = strings.TrimSpace(string(b))
		}
		ov := map[string]map[string]string{"Replace": {filepath.Join(r.c.repo, rel, filepath.Base(f)): f}}
		// helpers
		hs, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "helper_verif_test.go"))
		for _, h := range hs {
			ov["Replace"][filepath.Join(r.c.repo, rel, filepath.Base(h))] = h
		}
		b, _ := json.Marshal(ov)
		of := filepath.Join(tmp, "overlay-"+pkg+".json")
		os.WriteFile(of, b, 0o644)
		bin := filepath.Join(tmp, pkg+".test")
		cmd := exec.Command("go", "test", "-c", "-overlay", of, "-o", bin, "./"+rel)
		cmd.Dir = r.c.repo
		if o, err := cmd.CombinedOutput(); err != nil {
			out.Write(o)
			out.WriteString("\n(the driver does not build against this tree)\n")
			continue
		}
		// what the code under test deletes or overwrites is confined to an unprivileged user's scratch directory
		scratch := filepath.Join(tmp, "scratch-"+pkg)
		os.MkdirAll(scratch, 0o755)
		os.Chmod(tmp, 0o755)
		os.Chmod(bin, 0o755)
		if os.Chown(scratch, 65534, 65534) != nil {
			out.WriteString("(no unprivileged user: the driver was not run)\n")
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), 260*time.Second)
		cmd = exec.CommandContext(ctx, bin, "-test.timeout=240s", "-test.run=^TestReplay"+r.c.prop+"$")
		cmd.Dir = scratch
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "GV_TIER=" + r.c.tier}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		o, err := cmd.CombinedOutput()
		cancel()
		out.WriteString(lastPart(string(o), 6000))
		if _, ran := err.(*exec.ExitError); ran {
			r.failed = true
		} else if err != nil {
			out.WriteString("(the driver was not run: " + err.Error() + ")\n")
		} else {
			r.passed++
		}
	}
	return true, out.String()
}

func lastPart(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// audit reports contract clauses whose label is never checked.
func (w *World) audit() {
	for _, p := range keysOfProps(w.sp.props) {
		fmt.Println(p, w.sp.props[p].funcs)
	}
}

func keysOfProps(m map[string]*PropScope) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
