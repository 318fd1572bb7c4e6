package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func (c *checkRun) evidence(ev map[string]interface{}, fns interface{}, names []string, total, disch, triv int, back map[string]int, assumed, ext, bounded []string, failed []*Obl, solver time.Duration, repRan bool, repOut string, rep *Replay) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev["tier"] = c.tier
	ev["seed"] = seed
	ev["level"] = "proof"
	cov := map[string]interface{}{}
	tb := []string{
		"gv (this verifier: go/ssa symbolic execution, memory model, loop inference, query printing)",
		"golang.org/x/tools/go/ssa v0.52.0 and the Go type checker",
		"z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
		"integer addition and multiplication of machine integers do not overflow (subtraction of unsigned integers and conversions are exact)",
		"append returns a slice with a new backing array",
	}
	tb = append(tb, assumed...)
	for _, x := range ext {
		tb = append(tb, "library: "+x)
	}
	for _, n := range c.w.sp.notes[c.prop] {
		tb = append(tb, n)
	}
	cov["obligations"] = total
	cov["discharged"] = disch
	cov["checker_cmd"] = "/verif/check.sh " + c.prop + " --tier " + c.tier
	cov["trusted_base"] = tb
	cov["by_simplification"] = triv
	cov["by_back_end"] = back
	cov["solver_seconds"] = float64(int(solver.Seconds()*100)) / 100
	cov["solver_queries_including_invariant_inference"] = c.w.sol.queries
	cov["functions_under_contract"] = names
	cov["functions"] = fns
	cov["contract_lines"] = c.w.sp.lines
	if len(bounded) > 0 {
		cov["bounded_only"] = bounded
		ev["level"] = "other"
		cov["explanation"] = "the functions under bounded_only are outside the verifier's subset in this tree; for them only the replay driver ran (a bounded check, not a proof): " + strings.Join(bounded, "; ")
	}
	if len(failed) > 0 {
		var fs []string
		for _, o := range failed {
			fs = append(fs, o.fn+": "+o.kind+": "+o.name+" at "+o.pos)
		}
		cov["not_discharged"] = fs
	}
	if repRan {
		cov["replay_driver"] = map[string]interface{}{"failed": rep.failed, "output": cut(repOut, 1500)}
	}
	ev["coverage"] = cov
	ev["wall_s"] = float64(int(time.Since(c.start).Seconds()*100)) / 100
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}
