package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
)

type bufWriter struct{ w *bufio.Writer }
type lineReader struct{ r *bufio.Reader }

// NewIncr starts the pruning solver for a term builder.
func NewIncr(tb *TB) *Incr {
	c := exec.Command("z3-new", "-in")
	in, err := c.StdinPipe()
	if err != nil {
		return &Incr{dead: true}
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return &Incr{dead: true}
	}
	if err := c.Start(); err != nil {
		return &Incr{dead: true}
	}
	i := &Incr{cmd: c, in: &bufWriter{bufio.NewWriter(in)}, out: &lineReader{bufio.NewReader(out)}, tb: tb,
		decl: map[*Term]string{}, fdecl: map[string]bool{}, cache: map[string]bool{}}
	i.send("(set-option :timeout 150)\n(set-logic ALL)\n(declare-sort Str 0)\n(declare-sort Bytes 0)\n(declare-sort StrList 0)\n")
	i.send("(declare-datatypes ((Slice 0)) (((mk-slice (sl.arr Int) (sl.off Int) (sl.len Int) (sl.cap Int)))))\n")
	i.send("(declare-datatypes ((Iface 0)) (((mk-iface (if.tag Int) (if.val Int)))))\n")
	return i
}

func (i *Incr) send(s string) {
	if i.dead {
		return
	}
	if _, err := i.in.w.WriteString(s); err != nil {
		i.dead = true
	}
}

// Close ends the process.
func (i *Incr) Close() {
	if i.cmd != nil && i.cmd.Process != nil {
		i.cmd.Process.Kill()
		i.cmd.Wait()
	}
	i.dead = true
}

func (i *Incr) ref(t *Term) string {
	if n, ok := i.decl[t]; ok {
		return n
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return intLit(t.name)
	case "const":
		n := smtName(t.name)
		i.send(fmt.Sprintf("(declare-const %s %s)\n", n, t.sort))
		i.decl[t] = n
		for _, f := range i.tb.facts[t] {
			if !f.quant && !f.hasBV {
				i.send("(assert " + i.ref(f) + ")\n")
			}
		}
		return n
	case "str":
		n := strLitUF(t.name)
		i.send(fmt.Sprintf("(declare-const %s Str)\n", n))
		// distinct from all previous literals through an injective code
		if !i.fdecl["lit.code"] {
			i.fdecl["lit.code"] = true
			i.send("(declare-fun lit.code (Str) Int)\n")
		}
		i.send(fmt.Sprintf("(assert (= (lit.code %s) %d))\n", n, t.id))
		i.decl[t] = n
		return n
	}
	var as []string
	for _, a := range t.args {
		as = append(as, i.ref(a))
	}
	var s string
	switch t.op {
	case "constarr":
		s = "((as const " + string(t.sort) + ") " + as[0] + ")"
	case "app":
		if !i.fdecl[t.name] {
			i.fdecl[t.name] = true
			d := i.tb.funs[t.name]
			var ss []string
			for _, a := range d.args {
				ss = append(ss, string(a))
			}
			i.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(ss, " "), d.res))
		}
		s = smtName(t.name)
		if len(as) > 0 {
			s = "(" + s + " " + strings.Join(as, " ") + ")"
		}
	default:
		s = "(" + t.op + " " + strings.Join(as, " ") + ")"
	}
	i.n++
	n := fmt.Sprintf("e!%d", i.n)
	i.send(fmt.Sprintf("(define-fun %s () %s %s)\n", n, t.sort, s))
	i.decl[t] = n
	return n
}

// Infeasible reports whether the (quantifier-free part of the) conjunction is certainly unsatisfiable.
func (i *Incr) Infeasible(pc []*Term) bool {
	if i.dead {
		return false
	}
	var ids []int
	set := map[int]*Term{}
	for _, t := range pc {
		if t.quant || t.hasBV {
			continue
		}
		if t.op == "false" {
			return true
		}
		if _, ok := set[t.id]; !ok {
			set[t.id] = t
			ids = append(ids, t.id)
		}
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if r, ok := i.cache[key]; ok {
		return r
	}
	i.calls++
	var refs []string
	for _, id := range ids {
		refs = append(refs, i.ref(set[id]))
	}
	i.send("(push 1)\n")
	for _, r := range refs {
		i.send("(assert " + r + ")\n")
	}
	i.send("(check-sat)\n(pop 1)\n")
	if err := i.in.w.Flush(); err != nil {
		i.dead = true
		return false
	}
	for {
		l, err := i.out.r.ReadString('\n')
		if err == io.EOF || err != nil {
			i.dead = true
			return false
		}
		l = strings.TrimSpace(l)
		switch l {
		case "unsat":
			i.cache[key] = true
			return true
		case "sat", "unknown":
			i.cache[key] = false
			return false
		}
		if strings.HasPrefix(l, "(error") {
			if debugIncr {
				fmt.Println("incr:", l)
			}
		}
	}
}

var debugIncr bool
