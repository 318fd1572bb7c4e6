package main

// Verification of one function against its contract, and construction of solver queries.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newEng(w *World, fn *ssa.Function, con *Contract, key string) *Eng {
	tb := NewTB()
	e := &Eng{w: w, tb: tb, fn: fn, con: con, key: key, keys: map[string]keyMeta{}, init: map[string]*Term{}, seen: map[string]bool{},
		funRefs: map[*Term]*CloV{}, params: map[string]SV{}, guardTerm: map[*Term]*guardInfo{}, usedExt: map[string]bool{}, usedCon: map[string]bool{},
		usedSpawn: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, tags: map[string]int64{}, siteHits: map[*CallSite]int{},
		eqNoted: map[string]bool{}, maxPaths: 6000, deadline: time.Now().Add(time.Duration(w.timeout) * time.Second)}
	e.incr = NewIncr(tb)
	e.wm0 = tb.Fresh("wm", SInt)
	tb.isBase[e.wm0] = true
	tb.facts[e.wm0] = append(tb.facts[e.wm0], tb.Le(tb.Int(1001), e.wm0))
	return e
}

// ---------------------------------------------------------------- queries

type axInst struct {
	t    *Term
	trig map[string]bool // one of these functions must occur
}

func (e *Eng) axiomTerms() []*axInst {
	if e.axs != nil {
		return e.axs
	}
	e.axs = []*axInst{}
	for _, cl := range e.w.sp.axioms {
		st := &State{heap: map[string]*Term{}, wm: e.wm0, last: map[string]map[string]*Term{}}
		c := &ECtx{e: e, st: st, vars: map[string]SV{}, pkg: e.w.sp.axpkg[cl]}
		t := c.boolean(cl.e)
		a := &axInst{t: t, trig: map[string]bool{}}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.op == "app" && len(t.args) > 0 {
				a.trig[t.name] = true
			}
			for _, x := range t.args {
				rec(x)
			}
		}
		if t.op == "forall" && len(t.pats) > 0 {
			for _, p := range t.pats {
				// the whole group must be there; one function of each group suffices as a filter
				rec(p[0])
			}
		} else {
			rec(t)
		}
		e.axs = append(e.axs, a)
	}
	return e.axs
}

type closure struct {
	e        *Eng
	out      []*Term
	inOut    map[*Term]bool
	seen     map[*Term]bool
	funs     map[string]bool
	apps     map[string][]*Term // ground applications by function
	frames   []*Term
	shadows  int
	ground   []*Term
	axDone   map[*axInst]bool
	insts    map[*Term]bool
	noQuant  bool
	elemDone map[*Term]bool
}

func (c *closure) add(t *Term) {
	if t.op == "true" || c.inOut[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			c.add(a)
		}
		return
	}
	c.inOut[t] = true
	c.out = append(c.out, t)
	c.visit(t)
}

func (c *closure) visit(t *Term) {
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	e, tb := c.e, c.e.tb
	for _, a := range t.args {
		c.visit(a)
	}
	for _, p := range t.pats {
		for _, a := range p {
			c.visit(a)
		}
	}
	switch t.op {
	case "const":
		for _, f := range tb.facts[t] {
			c.add(f)
		}
		if f := tb.frameOf[t]; f != nil {
			c.frames = append(c.frames, t)
			c.visit(f.parent)
			c.visit(f.wm)
			if !c.noQuant {
				r := tb.BVar("r", SInt)
				conds := []*Term{tb.Lt(r, f.wm)}
				for _, x := range f.except {
					conds = append(conds, tb.Not(tb.Eq(r, x)))
				}
				lhs := tb.mk("select", "", tb.elemSort(t), t, r)
				rhs := tb.mk("select", "", tb.elemSort(t), f.parent, r)
				c.add(tb.Forall([]*Term{r}, [][]*Term{{lhs}}, tb.Imp(tb.And(conds...), tb.Eq(lhs, rhs))))
			}
		}
	case "app":
		c.funs[t.name] = true
		if t.hasBV {
			return
		}
		c.apps[t.name] = append(c.apps[t.name], t)
		switch {
		case t.name == "str.bytes":
			if a := t.args[0]; a.op != "app" || a.name != "bytes.str" {
				c.add(tb.Eq(tb.App("bytes.str", SStr, t), a))
			}
			c.add(tb.Eq(tb.App("bytes.len", SInt, t), e.strLen(t.args[0])))
		case t.name == "bytes.str":
			if a := t.args[0]; a.op != "app" || a.name != "str.bytes" {
				c.add(tb.Eq(tb.App("str.bytes", SBytes, t), a))
			}
		case t.name == "bytes.of":
			c.add(tb.Imp(tb.Le(tb.Int(0), t.args[2]), tb.Eq(tb.App("bytes.len", SInt, t), t.args[2])))
		case t.name == "bytes.len":
			c.add(tb.Le(tb.Int(0), t))
		case t.name == "str.code":
			c.add(tb.And(tb.Le(tb.Int(-1), t), tb.Le(t, tb.Int(255))))
		case t.name == "list.len":
			c.add(tb.Le(tb.Int(0), t))
		case strings.HasPrefix(t.name, "box."):
			n := t.name[4:]
			c.boxFacts(t, n)
		}
	case "select":
		if t.hasBV {
			x := t.args[0]
			if m := tb.meta[x]; m != nil && m.d == 1 && m.local && m.ub != nil && !c.noQuant && !c.elemDone[x] {
				// what the elements of a slice refer to exists
				if c.elemDone == nil {
					c.elemDone = map[*Term]bool{}
				}
				c.elemDone[x] = true
				k, _, _ := arrParts(x.sort)
				i := tb.BVar("i", k)
				el := tb.mk("select", "", tb.elemSort(x), x, i)
				c.add(tb.Forall([]*Term{i}, [][]*Term{{el}}, m.fact(el)))
			}
			return
		}
		a, i := t.args[0], t.args[1]
		if f := tb.frameOf[a]; f != nil {
			conds := []*Term{tb.Lt(i, f.wm)}
			for _, x := range f.except {
				conds = append(conds, tb.Not(tb.Eq(i, x)))
			}
			p := tb.Select(f.parent, i)
			c.add(tb.Imp(tb.And(conds...), tb.Eq(t, p)))
		}
		switch a.op {
		case "store":
			c.visit(tb.Select(a.args[0], i))
		case "ite":
			c.visit(tb.Select(a.args[1], i))
			c.visit(tb.Select(a.args[2], i))
		case "select":
			// select(select(store(b,r,v),q),i)
			if b := a.args[0]; b.op == "store" {
				c.visit(tb.Select(tb.Select(b.args[0], a.args[1]), i))
				c.visit(tb.Select(b.args[2], i))
			}
		}
		x, d := t, 0
		var r *Term
		for x.op == "select" {
			r = x.args[1]
			x = x.args[0]
			d++
		}
		if m := tb.meta[x]; m != nil && m.d == d {
			f := m.fact(t)
			if m.local {
				c.add(f)
			} else {
				c.add(tb.Imp(tb.Lt(r, m.wm), f))
			}
		}
	}
}

func (tb *TB) elemSort(t *Term) Sort {
	_, v, _ := arrParts(t.sort)
	return v
}

func (c *closure) boxFacts(t *Term, n string) {
	tb := c.e.tb
	names, ok := c.e.boxNames[n]
	if !ok {
		return
	}
	for i, a := range t.args {
		if i < len(names) {
			c.add(tb.Eq(tb.App(names[i], a.sort, t), a))
		}
	}
}

// axioms adds the axioms whose functions occur, to a fixpoint.
func (c *closure) axioms() {
	for changed := true; changed; {
		changed = false
		for _, a := range c.e.axiomTerms() {
			if c.axDone[a] {
				continue
			}
			hit := len(a.trig) == 0
			for f := range a.trig {
				if c.funs[f] {
					hit = true
				}
			}
			if hit {
				c.axDone[a] = true
				c.add(a.t)
				changed = true
			}
		}
	}
}

// instantiate matches quantified axioms against the ground terms (theory mode).
func (c *closure) instantiate(qs []*Term, rounds int) {
	tb := c.e.tb
	for r := 0; r < rounds; r++ {
		n := 0
		var terms []*Term
		for t := range c.seen {
			if !t.hasBV && (t.op == "app" || t.op == "select") {
				terms = append(terms, t)
			}
		}
		sort.Slice(terms, func(i, j int) bool { return terms[i].id < terms[j].id })
		for _, q := range qs {
			for _, pat := range q.pats {
				var rec func(i int, m map[*Term]*Term)
				rec = func(i int, m map[*Term]*Term) {
					if n > 400 {
						return
					}
					if i == len(pat) {
						for _, v := range q.bound {
							if m[v] == nil {
								return
							}
						}
						x := tb.Subst(q.args[0], m)
						if !c.insts[x] {
							c.insts[x] = true
							n++
							c.add(x)
						}
						return
					}
					for _, t := range terms {
						m2 := map[*Term]*Term{}
						for k, v := range m {
							m2[k] = v
						}
						if match(pat[i], t, q.bound, m2) {
							rec(i+1, m2)
						}
					}
				}
				rec(0, map[*Term]*Term{})
			}
		}
		if n == 0 {
			return
		}
	}
}

func match(p, t *Term, vars []*Term, m map[*Term]*Term) bool {
	if p.op == "bvar" {
		for _, v := range vars {
			if v == p {
				if o, ok := m[p]; ok {
					return o == t
				}
				if p.sort != t.sort {
					return false
				}
				m[p] = t
				return true
			}
		}
		return p == t
	}
	if !p.hasBV {
		return p == t
	}
	if p.op != t.op || p.name != t.name || p.sort != t.sort || len(p.args) != len(t.args) {
		return false
	}
	for i := range p.args {
		if !match(p.args[i], t.args[i], vars, m) {
			return false
		}
	}
	return true
}

func (e *Eng) close(asserts []*Term, theory bool) []*Term {
	c := &closure{e: e, inOut: map[*Term]bool{}, seen: map[*Term]bool{}, funs: map[string]bool{}, apps: map[string][]*Term{},
		axDone: map[*axInst]bool{}, insts: map[*Term]bool{}, noQuant: theory}
	for _, a := range asserts {
		c.add(a)
	}
	c.sumFacts()
	if !theory {
		c.axioms()
		return c.out
	}
	var qs []*Term
	for _, a := range c.e.axiomTerms() {
		if a.t.op == "forall" && len(a.t.pats) > 0 {
			qs = append(qs, a.t)
		} else if a.t.op != "forall" {
			hit := false
			for f := range a.trig {
				hit = hit || c.funs[f]
			}
			if hit {
				c.add(a.t)
			}
		}
	}
	var local []*Term
	for _, t := range c.out {
		if t.op == "forall" && len(t.pats) > 0 {
			local = append(local, t)
		}
	}
	c.instantiate(append(qs, local...), 3)
	var out []*Term
	for _, t := range c.out {
		if t.op == "forall" {
			continue
		}
		out = append(out, t)
	}
	return out
}

// queries builds the solver texts for pc |- goal. The second is built on demand (not concurrently with other work on the builder).
func (e *Eng) queries(pc []*Term, goal *Term) (func() string, func() string) {
	as := make([]*Term, 0, len(pc)+1)
	for _, t := range pc {
		as = append(as, e.skolem(t, true))
	}
	as = append(as, e.skolem(goal, false))
	txt := e.tb.Query(e.close(as, false), false)
	uf := func() string { return txt }
	var once sync.Once
	var qt string
	th := func() string {
		once.Do(func() {
			e.qmu.Lock()
			defer e.qmu.Unlock()
			qt = e.tb.Query(e.close(as, true), true)
		})
		return qt
	}
	if !usesStrings(txt) {
		return uf, nil
	}
	return uf, th
}

// skolem is t (pos) or its negation with the outer existential quantifiers replaced by constants.
func (e *Eng) skolem(t *Term, pos bool) *Term {
	tb := e.tb
	key := skKey{t, pos}
	if r, ok := e.skolems[key]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == "not":
		r = e.skolem(t.args[0], !pos)
	case t.op == "and" || t.op == "or":
		var xs []*Term
		for _, a := range t.args {
			xs = append(xs, e.skolem(a, pos))
		}
		if (t.op == "and") == pos {
			r = tb.And(xs...)
		} else {
			r = tb.Or(xs...)
		}
	case t.op == "=>":
		a, b := e.skolem(t.args[0], !pos), e.skolem(t.args[1], pos)
		if pos {
			r = tb.Or(a, b)
			if !a.hasQ() {
				r = tb.Imp(t.args[0], b)
			}
		} else {
			r = tb.And(a, b)
		}
	case t.op == "forall" && !pos || t.op == "exists" && pos:
		m := map[*Term]*Term{}
		for _, v := range t.bound {
			m[v] = tb.Fresh("sk", v.sort)
		}
		r = e.skolem(tb.Subst(t.args[0], m), pos)
	default:
		r = t
		if !pos {
			r = tb.Not(t)
		}
	}
	if e.skolems == nil {
		e.skolems = map[skKey]*Term{}
	}
	e.skolems[key] = r
	return r
}

type skKey struct {
	t   *Term
	pos bool
}

func (t *Term) hasQ() bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if a.hasQ() {
			return true
		}
	}
	return false
}

func usesStrings(q string) bool {
	return strings.Contains(q, "(declare-fun |s_s.")
}

// ---------------------------------------------------------------- functions

// FnResult is the outcome for one function.
type FnResult struct {
	key     string
	obls    []*Obl
	err     string // outside the subset
	missing bool
	vacuous bool
	e       *Eng
	dur     time.Duration
	exits   int
}

func (w *World) verify(key string) (res *FnResult) {
	res = &FnResult{key: key}
	t0 := time.Now()
	con := w.sp.contracts[key]
	fn := w.funcs[key]
	if fn == nil && con != nil && con.lemma {
		return w.lemma(key, con)
	}
	if fn == nil {
		res.missing = true
		return
	}
	e := newEng(w, fn, con, key)
	res.e = e
	defer func() {
		if e.incr != nil {
			e.incr.Close()
		}
		res.dur = time.Since(t0)
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				res.err = x.msg
			case specErr:
				res.err = "specification: " + x.msg
			default:
				if os.Getenv("GV_PANIC") != "" {
					panic(r)
				}
				res.err = fmt.Sprint("internal: ", r)
			}
		}
	}()
	e.run()
	res.exits = e.exits
	res.obls = e.obls
	e.discharge()
	res.vacuous = e.vacuous()
	return
}

// lemma checks that the requires of a lemma imply its ensures.
func (w *World) lemma(key string, con *Contract) (res *FnResult) {
	res = &FnResult{key: key}
	t0 := time.Now()
	e := newEng(w, nil, con, key)
	res.e = e
	defer func() {
		e.incr.Close()
		res.dur = time.Since(t0)
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				res.err = x.msg
			case specErr:
				res.err = "specification: " + x.msg
			default:
				panic(r)
			}
		}
	}()
	st := &State{heap: map[string]*Term{}, wm: e.wm0, last: map[string]map[string]*Term{}}
	e.entry = map[string]*Term{}
	for i, p := range con.params {
		t := w.parseType(con.ptypes[i], con.pkg)
		v := e.tb.Fresh("p."+p, t.sort)
		if t.t != nil {
			e.symFacts(v, t.t, e.wm0)
			if _, ok := under(t.t).(*types.Pointer); ok {
				st.assume(e, e.tb.Not(e.tb.Eq(v, e.tb.Int(0))))
			}
		}
		e.params[p] = SV{v: v, t: t}
	}
	for _, r := range con.requires {
		st.assume(e, e.rootCtx(st).boolean(r.e))
	}
	for _, en := range con.ensures {
		e.oblige(st, "lemma", clauseName(en), en.labels, e.rootCtx(st).boolean(en.e), con.pos)
	}
	res.exits = 1
	res.obls = e.obls
	e.discharge()
	return
}

func (e *Eng) run() {
	tb := e.tb
	st := &State{heap: map[string]*Term{}, wm: e.wm0, last: map[string]map[string]*Term{}}
	var args []Val
	con := e.con
	for i, p := range e.fn.Params {
		var v Val
		if isStruct(p.Type()) {
			v = e.freshVal(st, "p."+p.Name(), p.Type())
		} else {
			t := tb.Fresh("p."+p.Name(), sortOf(p.Type()))
			e.symFacts(t, p.Type(), e.wm0)
			v = t
		}
		args = append(args, v)
		pt := p.Type()
		if con != nil && i < len(con.params) {
			nm := con.params[i]
			if i < len(con.ptypes) && con.ptypes[i] != "" {
				nt := e.w.parseType(con.ptypes[i], con.pkg)
				if sortIsIface(pt) && !sortIsIface(nt.t) {
					it := e.toTerm(v)
					st.assume(e, tb.Eq(tb.IfTag(it), tb.Int(e.tag(typeName(nt.t)))))
					uv := e.unbox(st, it, nt.t)
					// make the tag known to the executor
					var val *Term
					if t, ok := uv.(*Term); ok && isRefType(nt.t) {
						val = t
						args[i] = tb.MkIface(tb.Int(e.tag(typeName(nt.t))), val)
						tb.ub[val] = e.wm0
					}
					e.params[nm] = SV{v: uv, t: nt}
					pt = nt.t
					v = uv
				} else {
					e.params[nm] = SV{v: v, t: nt}
				}
			} else {
				e.params[nm] = SV{v: v, t: goTy(pt)}
			}
			if con.nilable[nm] {
				continue
			}
		}
		switch under(pt).(type) {
		case *types.Pointer, *types.Signature:
			if t, ok := v.(*Term); ok {
				st.assume(e, tb.Not(tb.Eq(t, tb.Int(0))))
			}
		}
	}
	if con != nil && len(con.params) > len(e.fn.Params) {
		panic(specErr{con.pos + ": contract has more parameters than the function"})
	}
	e.entry = map[string]*Term{}
	if con != nil {
		for _, r := range con.requires {
			st.assume(e, e.rootCtx(st).boolean(r.e))
		}
		for _, hs := range []struct {
			xs   []*Expr
			read bool
		}{{con.holds, false}, {con.rholds, true}} {
			for _, h := range hs.xs {
				d, ref := e.lockOf(e.rootCtx(st), h)
				st.held = append(st.held, &heldLock{decl: d, ref: ref, read: hs.read})
			}
		}
	}
	for k, v := range st.heap {
		e.entry[k] = v
	}
	for _, h := range st.held {
		h.acq = copyHeap(e.entry)
	}
	nheld := len(st.held)
	// free variables of closures verified on their own are not supported
	if len(e.fn.FreeVars) > 0 {
		panic(unsup("closure verified on its own"))
	}
	e.siteAfter(st, "enter", nil, nil, nil, nil)
	f := e.push(st, e.fn, nil, args, nil)
	f.onRet = func(e *Eng, st *State, res []Val) {
		e.exit(st, res, nheld)
	}
	e.explore([]*State{st})
}

// exit checks the postcondition.
func (e *Eng) exit(st *State, res []Val, nheld int) {
	if st.dead {
		return
	}
	if e.quiet == 0 {
		e.exits++
	}
	pos := e.pos(e.fn.Pos())
	if len(st.held) != nheld {
		e.oblige(st, "lock", "locks held at return are those held at entry", e.propLabel(), e.tb.False, pos)
		return
	}
	if len(st.pend) > 0 {
		panic(unsup("goroutines of an environment not waited for"))
	}
	con := e.con
	if con == nil {
		return
	}
	if e.quiet == 0 {
		e.exitPCs = append(e.exitPCs, st.pc[:len(st.pc):len(st.pc)])
	}
	c := e.rootCtx(st)
	sig := e.fn.Signature
	for i, n := range con.results {
		if i < len(res) {
			c.vars[n] = SV{v: res[i], t: goTy(sig.Results().At(i).Type())}
		}
	}
	for _, en := range con.ensures {
		lb := en.labels
		if len(lb) == 0 {
			lb = e.propLabel()
		}
		e.oblige(st, "ensures", clauseName(en), lb, c.boolean(en.e), pos)
	}
	e.frameCheck(st, c, pos)
}

// frameCheck: everything outside the modifies clause is as at entry.
func (e *Eng) frameCheck(st *State, c *ECtx, pos string) {
	tb := e.tb
	con := e.con
	whole := map[string]bool{}
	refs := map[string][]*Term{}
	ec := c.inHeap(copyHeap(e.entry))
	ec.st.wm = e.wm0
	addRef := func(k string, r *Term) { refs[k] = append(refs[k], r) }
	var item func(m ModItem, ec *ECtx)
	item = func(m ModItem, ec *ECtx) {
		switch m.kind {
		case "ghost", "allg":
			whole[e.ghostKey(e.ghost(m.name))] = true
		case "gfield":
			k := e.ghostKey(e.ghost(m.name))
			r := ec.term(m.e, ec.eval(m.e))
			if r.sort == SIface {
				r = tb.IfVal(r)
			}
			if r.sort == SSlice {
				r = tb.SlArr(r)
			}
			addRef(k, r)
		case "all":
			k, _ := e.fieldKey(m.name, ec.pkg)
			whole[k] = true
		case "maps":
			mt := under(e.w.parseType(m.name, ec.pkg).t).(*types.Map)
			a, b, l := e.mapKeys(mt)
			whole[a], whole[b], whole[l] = true, true, true
		case "mem":
			t := e.w.parseType(m.name, ec.pkg).t
			for _, lf := range flatten(t) {
				whole[e.mkey(t, lf.path, lf.typ)] = true
			}
		case "contents":
			sv := ec.eval(m.e)
			r := ec.term(m.e, sv)
			switch u := under(sv.t.t).(type) {
			case *types.Map:
				a, b, l := e.mapKeys(u)
				for _, k := range []string{a, b, l} {
					addRef(k, r)
				}
			case *types.Slice:
				for _, lf := range flatten(u.Elem()) {
					addRef(e.mkey(u.Elem(), lf.path, lf.typ), tb.SlArr(r))
				}
			}
		case "field":
			if x := m.e; x.op == "call" && x.args[0].op == "id" && x.args[0].name == "deref" && len(x.args) == 2 {
				v := ec.eval(x.args[1])
				pt, ok := under(v.t.t).(*types.Pointer)
				if !ok || isStruct(pt.Elem()) {
					panic(unsup("modifies deref of %s", typeName(v.t.t)))
				}
				if l := e.locOf(v.v, pt.Elem()); l.kind == 'o' {
					addRef(e.okey(l.root, l.path, pt.Elem()), l.ref)
				}
				return
			}
			base := ec.eval(m.e.args[0])
			l := ec.fieldLoc(m.e, base, m.e.name)
			for _, lf := range flatten(l.typ) {
				addRef(e.okey(l.root, joinPath(l.path, lf.path), lf.typ), l.ref)
			}
		}
	}
	for _, m := range con.modifies {
		item(m, ec)
	}
	for _, a := range con.acquires {
		d, ref := e.lockOf(ec, a)
		lc := e.lockCtx(ec.st, d, ref)
		for _, g := range d.guards {
			item(g, lc)
		}
		for _, h := range st.acqs {
			if h.decl == d && h.ref == ref {
				for _, g := range d.guards {
					if g.kind == "contents" {
						item(g, lc.inHeap(h.acq))
					}
				}
			}
		}
	}
	for _, a := range con.owned {
		d, ref := e.lockOf(ec, a)
		lc := e.lockCtx(ec.st, d, ref)
		for _, g := range d.guards {
			if g.kind != "contents" {
				continue
			}
			switch u := under(lc.eval(g.e).t.t).(type) {
			case *types.Map:
				a, b, l := e.mapKeys(u)
				whole[a], whole[b], whole[l] = true, true, true
			case *types.Slice:
				for _, lf := range flatten(u.Elem()) {
					whole[e.mkey(u.Elem(), lf.path, lf.typ)] = true
				}
			}
		}
		e.assumed["maps and slices guarded by "+d.typ+"."+d.field+" are reachable only through the fields that hold them (frame of "+e.key+")"] = true
	}
	lb := con.frame
	if len(lb) == 0 {
		lb = e.propLabel()
	}
	for _, k := range sortedKeys(st.heap) {
		cur := st.heap[k]
		ini := e.entry[k]
		if ini == nil {
			ini = e.init[k]
		}
		if ini == nil || cur == ini || whole[k] || strings.HasPrefix(k, "I:") {
			continue
		}
		if strings.HasPrefix(k, "X:") {
			e.oblige(st, "frame", k+" is not changed", lb, tb.Eq(cur, ini), pos)
			continue
		}
		ks, _, isArr := arrParts(cur.sort)
		if !isArr || ks != SInt {
			e.oblige(st, "frame", k+" is not changed", lb, tb.Eq(cur, ini), pos)
			continue
		}
		r := tb.Const("frame!r", SInt)
		tb.ub[r] = e.wm0
		conds := []*Term{tb.Lt(r, e.wm0), tb.Le(tb.Int(0), r)}
		for _, x := range refs[k] {
			conds = append(conds, tb.Not(tb.Eq(r, x)))
		}
		// peel stores at allowed or new references
		t := cur
		for t.op == "store" {
			i := t.args[1]
			ok := tb.below(e.wm0, i) || i == e.wm0
			if b, _, _ := tb.offset(i); b == e.wm0 {
				ok = true
			}
			for _, x := range refs[k] {
				ok = ok || x == i
			}
			if !ok {
				break
			}
			t = t.args[0]
		}
		e.oblige(st, "frame", k+" is changed only where the contract allows", lb, tb.Imp(tb.And(conds...), tb.Eq(tb.Select(t, r), tb.Select(ini, r))), pos)
	}
}

func (e *Eng) ghost(name string) *GhostDecl {
	g := e.w.sp.ghosts[name]
	if g == nil {
		panic(specErr{"unknown ghost " + name})
	}
	return g
}

func hasLabel(ls []string, l string) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// discharge sends the obligations of the checked property to the solvers.
func (e *Eng) discharge() {
	t0 := time.Now()
	defer func() {
		if profile {
			fmt.Printf("PROF discharge %s: %d obligations %.1fs\n", e.key, len(e.obls), time.Since(t0).Seconds())
		}
	}()
	type job struct {
		o      *Obl
		uf, th func() string
	}
	var jobs []job
	for _, o := range e.obls {
		if e.w.prop != "" && !hasLabel(o.labels, e.w.prop) {
			continue
		}
		if o.trivial {
			continue
		}
		if o.goal.op == "true" || hasTerm(o.pc, o.goal) {
			o.trivial = true
			continue
		}
		uf, th := e.queries(o.pc, o.goal)
		jobs = append(jobs, job{o, uf, th})
	}
	if profile {
		fmt.Printf("PROF start discharge %s: %d of %d %s\n", e.key, len(jobs), len(e.obls), time.Now().Format("15:04:05"))
	}
	var wg sync.WaitGroup
	var fmu sync.Mutex
	nfail := map[string]int{}
	lim := make(chan struct{}, 8)
	for _, j := range jobs {
		wg.Add(1)
		lim <- struct{}{}
		go func(j job) {
			defer wg.Done()
			defer func() { <-lim }()
			t1 := time.Now()
			if t1.After(e.deadline.Add(60 * time.Second)) {
				j.o.ans = &Answer{res: "unknown", backend: "none", out: "out of time"}
				return
			}
			j.o.ans = e.w.sol.Prove(j.uf, j.th, 0)
			// an obligation that failed on other paths is not worth the long attempts again
			id := j.o.kind + " " + j.o.name
			fmu.Lock()
			n := nfail[id]
			fmu.Unlock()
			if j.o.ans.res != "unsat" && n < 2 {
				j.o.ans = e.w.sol.Prove(j.uf, j.th, 1)
			}
			if j.o.ans.res != "unsat" {
				fmu.Lock()
				nfail[id]++
				fmu.Unlock()
			}
			if profile {
				fmt.Printf("PROF obligation %s %s %s %.1fs: %s %s\n", e.key, j.o.kind, j.o.name, time.Since(t1).Seconds(), j.o.ans.res, j.o.ans.backend)
			}
			if debugQ != "" && j.o.ans.res != "unsat" {
				n := fmt.Sprintf("%s/%s-%d.smt2", debugQ, sanitize(strings.ReplaceAll(e.key, "/", "_")), j.o.goal.id)
				os.WriteFile(n, []byte(j.uf()), 0o644)
				if j.th != nil {
					os.WriteFile(n+".th", []byte(j.th()), 0o644)
				}
			}
		}(j)
	}
	wg.Wait()
}

// vacuous reports whether every return is provably unreachable (the assumptions contradict each other or the code never returns).
func (e *Eng) vacuous() bool {
	if len(e.exitPCs) == 0 {
		return false
	}
	n := 0
	for _, pc := range e.exitPCs {
		uf, th := e.queries(pc, e.tb.False)
		if e.w.sol.Prove(uf, th, 0).res != "unsat" {
			return false
		}
		if n++; n >= 6 {
			break
		}
	}
	return true
}

var profile = os.Getenv("GV_PROF") != ""

var debugQ = os.Getenv("GV_DEBUGQ")
