package main

// Loops: modified-set discovery and invariant inference (Houdini over candidates).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type modEntry struct {
	all   bool
	fresh bool
	refs  map[*Term]bool
}

type loopCtx struct {
	header   *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	discover bool
	birth    int
	wm       *Term
	mods     map[string]*modEntry
	back     []*State
	nterm    *Term
	held     int
	pend     int
	inv      map[*Term]*cand // assumed formula -> candidate
	run      *loopRun
	weak     bool // first exploration: no invariants assumed
}

// record notes a heap modification inside the loop.
func (lc *loopCtx) record(e *Eng, key string, ref *Term) {
	if !lc.discover {
		return
	}
	m := lc.mods[key]
	if m == nil {
		m = &modEntry{refs: map[*Term]bool{}}
		lc.mods[key] = m
	}
	if ref == nil {
		m.all = true
		return
	}
	if ref.birth <= lc.birth {
		m.refs[ref] = true
		return
	}
	if b, _, _ := e.tb.offset(ref); b != nil && e.tb.isBase[b] {
		m.fresh = true
		return
	}
	m.all = true
}

func (lc *loopCtx) recordFresh(key string) {
	if !lc.discover {
		return
	}
	m := lc.mods[key]
	if m == nil {
		m = &modEntry{refs: map[*Term]bool{}}
		lc.mods[key] = m
	}
	m.fresh = true
}

func modSig(mods map[string]*modEntry) string {
	var ks []string
	for k, m := range mods {
		ids := []string{}
		for r := range m.refs {
			ids = append(ids, fmt.Sprint(r.id))
		}
		sort.Strings(ids)
		if m.all {
			ids = nil
		}
		ks = append(ks, fmt.Sprintf("%s:%v:%v:%v", k, m.all, m.fresh, ids))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// cand is a candidate invariant.
type cand struct {
	name    string
	f       func(st *State, n *Term) *Term
	dropped bool
	user    bool
}

// inst evaluates a candidate; a failure to evaluate drops it.
func (e *Eng) inst(c *cand, st *State, n *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				t = nil
				return
			}
			if _, ok := r.(Unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st, n)
}

// havocHeap forgets what the loop modifies.
func (e *Eng) havocHeap(st *State, mods map[string]*modEntry, wm *Term) {
	var ks []string
	for k := range mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := mods[k]
		cur := e.get(st, k)
		switch {
		case m.all:
			s := e.newSym(k, st.wm)
			st.heap[k] = s
			for i := range st.loops {
				st.loops[i].lc.record(e, k, nil)
			}
		case m.fresh:
			s := e.newSym(k, st.wm)
			var ex []*Term
			for r := range m.refs {
				ex = append(ex, r)
			}
			sort.Slice(ex, func(i, j int) bool { return ex[i].id < ex[j].id })
			e.tb.frameOf[s] = &frameInfo{parent: cur, wm: wm, except: ex}
			st.heap[k] = s
			for i := range st.loops {
				for _, r := range ex {
					st.loops[i].lc.record(e, k, r)
				}
				st.loops[i].lc.recordFresh(k)
			}
		default:
			var ex []*Term
			for r := range m.refs {
				ex = append(ex, r)
			}
			sort.Slice(ex, func(i, j int) bool { return ex[i].id < ex[j].id })
			for _, r := range ex {
				e.havocInner(st, k, r)
			}
		}
	}
}

type loopRun struct {
	locks    bool // the body takes a lock
	e      *Eng
	lp     *loop
	entry  *State
	mods   map[string]*modEntry
	cands  []*cand
	seen   map[string]bool
	phis   []*ssa.Phi
	births int
	failed map[string]bool // candidates of inner loops that were not provable in an earlier exploration
	weak   bool
}

// outer finds the memory of failed candidates for a loop entered in st: explorations of an outer loop's
// body assume ever less, so what was not provable once is not tried again.
func (lr *loopRun) outer() (mem map[string]bool, key string, weak bool) {
	for _, l := range lr.entry.loops {
		if l.lc.run == nil {
			return nil, "", false
		}
		if l.lc.weak {
			weak = true
		}
	}
	if len(lr.entry.loops) == 0 {
		return nil, "", false
	}
	r := lr.entry.loops[0].lc.run
	if r.failed == nil {
		r.failed = map[string]bool{}
	}
	return r.failed, fmt.Sprintf("%p %s ", lr.lp.header, strings.Join(lr.entry.trace, ";")), weak
}

// dropKey names a candidate of a loop: a generated candidate that was not inductive on two paths to the loop
// is not tried on further ones.
func (lr *loopRun) dropKey(name string) string {
	return fmt.Sprintf("%p %s", lr.lp.header, name)
}

// enterLoop is called when control reaches a loop header from outside.
func (e *Eng) enterLoop(st *State, lp *loop) {
	t0 := time.Now()
	lr := &loopRun{e: e, lp: lp, entry: st.clone(), mods: map[string]*modEntry{}, seen: map[string]bool{}}
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		same := true // a variable the loop does not assign
		for i, pred := range lp.header.Preds {
			if lp.body[pred] && p.Edges[i] != ssa.Value(p) {
				same = false
			}
		}
		if same {
			continue
		}
		lr.phis = append(lr.phis, p)
	}
	// first pass: nothing assumed, find what is modified
	e.quiet++
	var back []*State
	var lc *loopCtx
	for pass := 0; ; pass++ {
		if pass > 40 {
			e.quiet--
			panic(unsup("loop at %s does not stabilise", e.pos(lp.header.Instrs[0].Pos())))
		}
		hs, c := lr.head(true)
		lc = c
		e.explore([]*State{hs})
		back = lc.back
		merged := false
		for k, m := range lc.mods {
			o := lr.mods[k]
			if o == nil {
				lr.mods[k] = m
				merged = true
				continue
			}
			if m.all && !o.all {
				o.all, merged = true, true
			}
			if m.fresh && !o.fresh {
				o.fresh, merged = true, true
			}
			for r := range m.refs {
				if !o.refs[r] {
					o.refs[r], merged = true, true
				}
			}
		}
		if merged {
			// more is modified than assumed: restart with all candidates that were not refuted at entry
			lr.generate()
			continue
		}
		if pass == 0 {
			lr.generate()
			if len(lr.cands) > 0 {
				continue
			}
		}
		if !lr.houdini(lc, back) {
			break
		}
	}
	e.quiet--
	if profile {
		fmt.Printf("PROF loop %s %s: %d candidates %.1fs at %s\n", e.key, e.loopPos(lp), len(lr.cands), time.Since(t0).Seconds(), strings.Join(lr.entry.trace, ";"))
	}
	if e.loopDrops == nil {
		e.loopDrops = map[string]int{}
	}
	for _, c := range lr.cands {
		if c.dropped && !c.user {
			e.loopDrops[lr.dropKey(c.name)]++
		}
	}
	hs, _ := lr.head(false)
	if e.quiet == 0 {
		var names []string
		for _, c := range lr.cands {
			if !c.dropped {
				names = append(names, c.name)
				e.invProved++
			}
		}
		e.loopStats = append(e.loopStats, fmt.Sprintf("%s: loop at %s: %d of %d candidate invariants proved inductive: %s", funcKey(lp.header.Parent()), e.loopPos(lp), len(names), len(lr.cands), strings.Join(names, " | ")))
	}
	*st = *hs
}

func (e *Eng) loopPos(lp *loop) string {
	for _, in := range lp.header.Instrs {
		if in.Pos().IsValid() {
			return e.pos(in.Pos())
		}
	}
	for _, s := range lp.header.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return e.pos(in.Pos())
			}
		}
	}
	return "?"
}

// head builds the state at the head of an arbitrary iteration.
func (lr *loopRun) head(discover bool) (*State, *loopCtx) {
	e := lr.e
	tb := e.tb
	st := lr.entry.clone()
	lc := &loopCtx{header: lr.lp.header, body: lr.lp.body, discover: discover, birth: tb.births, wm: st.wm, mods: map[string]*modEntry{}, held: len(st.held), pend: len(st.pend), inv: map[*Term]*cand{}, run: lr, weak: discover && len(lr.cands) == 0}
	// births increase, so the limit is what existed at entry: use the entry watermark's time
	lc.birth = lr.entryBirth()
	wm := st.wm
	st.newBase(e)
	e.havocHeap(st, lr.mods, wm)
	f := st.top()
	for _, p := range lr.phis {
		v := f.env[p]
		switch v.(type) {
		case *Term, *StructV:
			f.env[p] = e.freshPhi(st, p)
		case *CloV, *IterV, *Loc:
			// kept; the back edge checks that it does not change
		}
	}
	n := tb.Fresh("n", SInt)
	tb.facts[n] = append(tb.facts[n], tb.Le(tb.Int(0), n))
	lc.nterm = n
	for k := range st.last {
		if k == "$acq" {
			if discover || lr.locks {
				delete(st.last, k)
			}
			continue
		}
		st.last[k] = copyHeap(st.heap)
	}
	for _, h := range st.held {
		_ = h
	}
	for _, c := range lr.cands {
		if c.dropped {
			continue
		}
		t := e.inst(c, st, n)
		if t == nil {
			c.dropped = true
			continue
		}
		for _, cj := range conjuncts(t) {
			lc.inv[cj] = c
		}
		st.assume(e, t)
	}
	st.loops = append(st.loops, activeLoop{depth: len(st.frames), lc: lc, n: n, wm: st.wm})
	st.trace = append(st.trace, e.loopPos(lr.lp)+" loop iteration")
	return st, lc
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (e *Eng) freshPhi(st *State, p *ssa.Phi) Val {
	if isStruct(p.Type()) {
		return e.freshVal(st, "phi", p.Type())
	}
	nm := p.Comment
	if nm == "" {
		nm = p.Name()
	}
	v := e.tb.Fresh("phi."+nm, sortOf(p.Type()))
	e.symFacts(v, p.Type(), st.wm)
	return v
}

func (lr *loopRun) entryBirth() int {
	if lr.births == 0 {
		lr.births = lr.e.tb.births
	}
	return lr.births
}

// backEdge is reached at the end of an iteration.
func (e *Eng) backEdge(st *State, al activeLoop) {
	if len(st.held) != al.lc.held {
		e.oblige(st, "lock", "locks held are the same at the end of a loop iteration", e.propLabel(), e.tb.False, "")
	}
	if len(st.pend) != al.lc.pend {
		panic(unsup("goroutines of an environment started in a loop"))
	}
	if al.lc.discover {
		al.lc.back = append(al.lc.back, st.clone())
	}
	st.dead = true
}

func (e *Eng) propLabel() []string { return []string{e.w.prop} }

// houdini drops candidates that are not preserved; reports whether any was dropped.
func (lr *loopRun) houdini(lc *loopCtx, back []*State) bool {
	e := lr.e
	anyDropped := false
	mem, key, weak := lr.outer()
	type job struct {
		c    *cand
		st   *State
		goal *Term
	}
	for {
		var jobs []job
		for _, c := range lr.cands {
			if c.dropped {
				continue
			}
			for _, b := range back {
				g := e.inst(c, b, e.tb.Add(lc.nterm, e.tb.Int(1)))
				if g == nil {
					c.dropped = true
					break
				}
				if g.op == "true" || hasTerm(b.pc, g) {
					continue
				}
				jobs = append(jobs, job{c, b, g})
			}
		}
		// pc without dropped invariants
		pcOf := func(b *State) []*Term {
			var out []*Term
			seen := map[*Term]bool{}
			for _, t := range b.pc {
				// (a branch condition may be the same formula as a candidate: only the candidate goes)
				if c := lc.inv[t]; c != nil && c.dropped && !seen[t] {
					seen[t] = true
					continue
				}
				out = append(out, t)
			}
			return out
		}
		res := make([]bool, len(jobs))
		why := make([]string, len(jobs))
		var wg sync.WaitGroup
		var run []func()
		for i, j := range jobs {
			if j.c.dropped {
				res[i] = true
				continue
			}
			i := i
			uf, th := e.queries(pcOf(j.st), j.goal)
			run = append(run, func() {
				ef := 0
				if (jobs[i].c.user || strings.HasPrefix(jobs[i].c.name, "lock ")) && !weak {
					ef = 2
				}
				a := e.w.sol.Prove(uf, th, ef)
				res[i] = a.res == "unsat"
				why[i] = a.res
				if !res[i] && debugQ != "" && (jobs[i].c.user || strings.HasPrefix(jobs[i].c.name, "lock")) {
					os.WriteFile(fmt.Sprintf("%s/loop-%s.smt2", debugQ, strings.Map(func(r rune) rune {
						if r == '/' || r == ' ' {
							return '_'
						}
						return r
					}, jobs[i].c.name)), []byte("; "+jobs[i].c.name+"\n"+uf()), 0644)
				}
			})
		}
		for _, f := range run {
			f := f
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
		dropped := false
		for i, j := range jobs {
			if !res[i] && !j.c.dropped {
				j.c.dropped = true
				dropped = true
				anyDropped = true
				if j.c.user && mem != nil && !weak {
					mem[key+j.c.name] = true
				}
				if debugLoops {
					fmt.Printf("  drop %s (%s) [%s] at %s\n", j.c.name, why[i], e.loopPos(lr.lp), strings.Join(j.st.trace, " ; "))
				}
			}
		}
		if !dropped {
			return anyDropped
		}
	}
}

var debugLoops bool

func hasTerm(pc []*Term, g *Term) bool {
	for _, t := range pc {
		if t == g {
			return true
		}
	}
	return false
}

// generate makes the candidates, checked against the entry state.
func (lr *loopRun) generate() {
	e := lr.e
	tb := e.tb
	ent := lr.entry
	var cs []*cand
	add := func(name string, user bool, f func(st *State, n *Term) *Term) {
		if lr.seen[name] {
			return
		}
		lr.seen[name] = true
		if !user && !strings.HasPrefix(name, "lock ") && e.loopDrops[lr.dropKey(name)] >= 2 {
			return
		}
		cs = append(cs, &cand{name: name, f: f, user: user})
	}
	fr := ent.top()
	type src struct {
		name string
		typ  types.Type
		get  func(st *State) Val
		mod  bool
	}
	var srcs []src
	idx := len(ent.frames) - 1
	for _, p := range lr.phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		srcs = append(srcs, src{nm, p.Type(), func(st *State) Val { return st.frames[idx].env[p] }, true})
	}
	// cells and fields with a fixed address that the loop changes
	var mk []string
	for k := range lr.mods {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		k := k
		m := lr.mods[k]
		km := e.keys[k]
		if km.depth != 1 || km.typ == nil || !strings.HasPrefix(k, "F:") {
			continue
		}
		var rs []*Term
		for r := range m.refs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for i, r := range rs {
			r := r
			srcs = append(srcs, src{fmt.Sprintf("%s#%d", k[2:], i), km.typ, func(st *State) Val { return e.fromTerm(tb.Select(e.get(st, k), r), km.typ) }, true})
		}
	}
	// values fixed during the loop
	type fixed struct {
		name string
		typ  types.Type
		v    Val
	}
	var fx []fixed
	var vals []ssa.Value
	for v := range fr.env {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		if isPhiOf(lr.phis, v) {
			continue
		}
		if _, ok := v.Type().(*types.Tuple); ok {
			continue
		}
		x := fr.env[v]
		switch x.(type) {
		case *Term:
			fx = append(fx, fixed{v.Name(), v.Type(), x})
		case *StructV:
			fx = append(fx, fixed{v.Name(), v.Type(), x})
		case *Loc:
		}
		if pt, ok := under(v.Type()).(*types.Pointer); ok {
			_, isAlloc := v.(*ssa.Alloc)
			_, isFV := v.(*ssa.FreeVar)
			if (isAlloc || isFV) && !isStruct(pt.Elem()) {
				v := v
				el := pt.Elem()
				srcs = append(srcs, src{"*" + v.Name(), el, func(st *State) Val {
					return e.load(st, e.locOf(st.frames[idx].env[v], el))
				}, false})
			}
		}
	}
	for _, s := range srcs {
		s := s
		ev := s.get(ent)
		et, isT := ev.(*Term)
		if !isT || !s.mod {
			continue
		}
		T := func(st *State) *Term { return e.toTerm(s.get(st)) }
		switch u := under(s.typ).(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsInteger != 0:
				add(s.name+" == entry + n", false, func(st *State, n *Term) *Term { return tb.Eq(T(st), tb.Add(et, n)) })
				add(s.name+" == entry - n", false, func(st *State, n *Term) *Term { return tb.Eq(T(st), tb.Sub(et, n)) })
				add(s.name+" >= entry", false, func(st *State, n *Term) *Term { return tb.Le(et, T(st)) })
				add(s.name+" >= 0", false, func(st *State, n *Term) *Term { return tb.Le(tb.Int(0), T(st)) })
				add(s.name+" <= n", false, func(st *State, n *Term) *Term { return tb.Le(T(st), n) })
				for i, lim := range lr.limits() {
					lim := lim
					add(fmt.Sprintf("%s <= limit%d", s.name, i), false, func(st *State, n *Term) *Term { return tb.Le(T(st), lim(st)) })
					add(fmt.Sprintf("%s < limit%d", s.name, i), false, func(st *State, n *Term) *Term { return tb.Lt(T(st), lim(st)) })
				}
			case u.Info()&types.IsBoolean != 0:
				add(s.name+" unchanged", false, func(st *State, n *Term) *Term { return tb.Eq(T(st), et) })
			case u.Info()&types.IsString != 0:
			}
		case *types.Slice:
			add("off("+s.name+") == 0", false, func(st *State, n *Term) *Term { return tb.Eq(tb.SlOff(T(st)), tb.Int(0)) })
			add("arr("+s.name+") new", false, func(st *State, n *Term) *Term {
				return tb.Or(tb.Le(ent.wm, tb.SlArr(T(st))), tb.Eq(tb.SlArr(T(st)), tb.SlArr(et)))
			})
			add("len("+s.name+") == entry + n", false, func(st *State, n *Term) *Term {
				return tb.Eq(tb.SlLen(T(st)), tb.Add(tb.SlLen(et), n))
			})
			add("len("+s.name+") == entry - n", false, func(st *State, n *Term) *Term {
				return tb.Eq(tb.SlLen(T(st)), tb.Sub(tb.SlLen(et), n))
			})
			add("len("+s.name+") <= entry + n", false, func(st *State, n *Term) *Term {
				return tb.Le(tb.SlLen(T(st)), tb.Add(tb.SlLen(et), n))
			})
			add("len("+s.name+") >= entry", false, func(st *State, n *Term) *Term {
				return tb.Le(tb.SlLen(et), tb.SlLen(T(st)))
			})
			add("len("+s.name+") >= 1", false, func(st *State, n *Term) *Term {
				return tb.Le(tb.Int(1), tb.SlLen(T(st)))
			})
			add("non-nil("+s.name+")", false, func(st *State, n *Term) *Term {
				return tb.Not(tb.Eq(tb.SlArr(T(st)), tb.Int(0)))
			})
		case *types.Interface:
			add(s.name+" nil", false, func(st *State, n *Term) *Term { return tb.Eq(tb.IfTag(T(st)), tb.Int(0)) })
		case *types.Pointer, *types.Map, *types.Chan:
			add(s.name+" non-nil", false, func(st *State, n *Term) *Term { return tb.Not(tb.Eq(T(st), tb.Int(0))) })
			add(s.name+" nil", false, func(st *State, n *Term) *Term { return tb.Eq(T(st), tb.Int(0)) })
			add(s.name+" unchanged", false, func(st *State, n *Term) *Term { return tb.Eq(T(st), et) })
		}
	}
	// objects that the loop leaves alone
	for _, k := range mk {
		k := k
		m := lr.mods[k]
		if !m.all || !(strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "M:")) {
			continue
		}
		var ex []*Term
		for r := range m.refs {
			ex = append(ex, r)
		}
		for _, s := range srcs {
			if _, ok := under(s.typ).(*types.Slice); ok && strings.HasPrefix(k, "M:") {
				if et, ok := s.get(ent).(*Term); ok {
					ex = append(ex, tb.SlArr(et))
				}
			}
		}
		sort.Slice(ex, func(i, j int) bool { return ex[i].id < ex[j].id })
		ini := e.get(ent, k)
		bounds := []*Term{ent.wm, e.wm0}
		if k := len(ent.loops); k > 0 && ent.loops[k-1].wm != ent.wm {
			bounds = append(bounds, ent.loops[k-1].wm)
		}
		for bi, b := range bounds {
			if bi == 1 && b == ent.wm {
				continue
			}
			b := b
			add(fmt.Sprintf("%s unchanged below %s", k, []string{"the loop", "the function", "the outer iteration"}[bi]), false, func(st *State, n *Term) *Term {
				r := tb.BVar("r", SInt)
				cs := []*Term{tb.Lt(r, b)}
				for _, x := range ex {
					cs = append(cs, tb.Not(tb.Eq(r, x)))
				}
				cur := e.get(st, k)
				return tb.Forall([]*Term{r}, [][]*Term{{tb.Select(cur, r)}}, tb.Imp(tb.And(cs...), tb.Eq(tb.Select(cur, r), tb.Select(ini, r))))
			})
		}
	}
	// n against the limits
	for i, lim := range lr.limits() {
		lim := lim
		add(fmt.Sprintf("n <= limit%d", i), false, func(st *State, n *Term) *Term { return tb.Le(n, lim(st)) })
	}
	// a map iteration only visits keys of the map
	it := lr.iter()
	if it != nil {
		add("visited within the map", false, func(st *State, n *Term) *Term {
			k := tb.BVar("k", sortOf(it.mt.Key()))
			vis := e.get(st, it.key)
			return tb.Forall([]*Term{k}, [][]*Term{{tb.Select(vis, k)}}, tb.Imp(tb.Select(vis, k), tb.Select(it.start, k)))
		})
		md, _, _ := e.mapKeys(it.mt)
		add("map unchanged", false, func(st *State, n *Term) *Term {
			return tb.Eq(tb.Select(e.get(st, md), it.m), it.start)
		})
	}
	// invariants of held locks
	for hi, h := range ent.held {
		if h.read {
			continue
		}
		for ci, inv := range h.decl.invs {
			if e.omitted(inv) {
				continue
			}
			h, inv := h, inv
			add(fmt.Sprintf("lock %s.%s invariant %d/%d", h.decl.typ, h.decl.field, hi, ci), false, func(st *State, n *Term) *Term {
				return e.lockCtx(st, h.decl, h.ref).boolean(inv.e)
			})
		}
	}
	// invariants from the contract
	if e.con != nil {
		for li, cl := range e.con.loopinv {
			lr.instances(li, cl, func(vars map[string]func(st *State) SV, label string) {
				add(label, true, func(st *State, n *Term) *Term {
					c := e.rootCtx(st)
					c.pre = lr.entry.heap
					c.n = n
					for i := len(st.loops) - 1; i >= 0; i-- {
						if st.loops[i].lc.header != lr.lp.header {
							c.outn = st.loops[i].n
							c.outwm = st.loops[i].wm
							break
						}
					}
					if it != nil {
						ks := sortOf(it.mt.Key())
						v := SV{v: e.get(st, it.key), t: &STy{k: goTy(it.mt.Key()), v: tyBool, sort: ArrSort(ks, SBool)}}
						c.vis = &v
					}
					for k, f := range vars {
						c.vars[k] = f(st)
					}
					return c.boolean(cl.e)
				})
			}, func(t types.Type) []holeVal {
				var out []holeVal
				for _, s := range srcs {
					if types.Identical(types.Unalias(s.typ), types.Unalias(t)) || typeName(s.typ) == typeName(t) {
						s := s
						out = append(out, holeVal{s.name, func(st *State) SV { return SV{v: s.get(st), t: goTy(s.typ)} }, s.mod})
					}
				}
				for _, x := range fx {
					if typeName(x.typ) == typeName(t) {
						x := x
						out = append(out, holeVal{x.name, func(st *State) SV { return SV{v: x.v, t: goTy(x.typ)} }, false})
					}
				}
				return out
			})
		}
	}
	// entry check
	var keep []*cand
	res := make([]bool, len(cs))
	var wg sync.WaitGroup
	var run []func()
	mem, key, weak := lr.outer()
	for i, c := range cs {
		if c.user && mem[key+c.name] {
			continue
		}
		t := e.inst(c, ent, tb.Int(0))
		if t == nil {
			if debugLoops && c.user {
				fmt.Printf("  cannot evaluate %s\n", c.name)
			}
			continue
		}
		if t.op == "true" || hasTerm(ent.pc, t) {
			res[i] = true
			continue
		}
		if t.op == "false" {
			continue
		}
		i := i
		uf, th := e.queries(ent.pc, t)
		run = append(run, func() { res[i] = e.w.sol.Prove(uf, th, 0).res == "unsat" })
	}
	for _, f := range run {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
	for i, c := range cs {
		if res[i] {
			keep = append(keep, c)
			continue
		}
		if c.user && mem != nil && !weak {
			mem[key+c.name] = true
		}
		if debugLoops && c.user {
			fmt.Printf("  not true at entry: %s [%s]\n", c.name, e.loopPos(lr.lp))
		}
	}
	lr.cands = append(lr.cands, keep...)
}

type holeVal struct {
	name string
	get  func(st *State) SV
	mod  bool
}

func isPhiOf(ps []*ssa.Phi, v ssa.Value) bool {
	for _, p := range ps {
		if ssa.Value(p) == v {
			return true
		}
	}
	return false
}

// instances enumerates the bindings of a template's holes.
func (lr *loopRun) instances(li int, cl *Clause, emit func(map[string]func(st *State) SV, string), cands func(t types.Type) []holeVal) {
	e := lr.e
	opts := make([][]holeVal, len(cl.holes))
	total := 1
	for i, h := range cl.holes {
		t := e.w.parseType(h.typ, e.con.pkg)
		if t.t == nil {
			return
		}
		opts[i] = cands(t.t)
		total *= len(opts[i])
	}
	if total == 0 || total > 400 {
		return
	}
	for k := 0; k < total; k++ {
		m := map[string]func(st *State) SV{}
		lab := fmt.Sprintf("contract[%d] %s", li, clauseName(cl))
		x := k
		for i, h := range cl.holes {
			o := opts[i][x%len(opts[i])]
			x /= len(opts[i])
			m[h.name] = o.get
			lab += fmt.Sprintf(" {%s=%s}", h.name, o.name)
		}
		emit(m, lab)
	}
}

// limits finds loop-invariant values the loop compares against.
func (lr *loopRun) limits() []func(st *State) *Term {
	e := lr.e
	idx := len(lr.entry.frames) - 1
	env := lr.entry.frames[idx].env
	var out []func(st *State) *Term
	seen := map[string]bool{}
	value := func(v ssa.Value) func(st *State) *Term {
		if c, ok := v.(*ssa.Const); ok {
			if isInteger(c.Type()) && c.Value != nil {
				t := e.toTerm(e.constVal(c))
				return func(*State) *Term { return t }
			}
			return nil
		}
		if isPhiOf(lr.phis, v) || !isInteger(v.Type()) {
			return nil
		}
		if x, ok := env[v]; ok {
			if t, ok := x.(*Term); ok {
				return func(*State) *Term { return t }
			}
			return nil
		}
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := call.Call.Args[0]
				if x, ok := env[a]; ok && !isPhiOf(lr.phis, a) {
					if t, ok := x.(*Term); ok {
						if t.sort == SSlice {
							return func(*State) *Term { return e.tb.SlLen(t) }
						}
						if t.sort == SStr {
							return func(*State) *Term { return e.strLen(t) }
						}
					}
				}
			}
		}
		return nil
	}
	var blocks []*ssa.BasicBlock
	for b := range lr.lp.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if f := value(v); f != nil {
					k := v.Name()
					if !seen[k] {
						seen[k] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// iter finds the map iterator advanced by the loop header.
func (lr *loopRun) iter() *IterV {
	for _, in := range lr.lp.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := lr.entry.top().env[nx.Iter].(*IterV); ok {
				return it
			}
		}
	}
	return nil
}

// noteLock marks the loops around as taking a lock.
func (st *State) noteLock() {
	for _, l := range st.loops {
		l.lc.run.locks = true
	}
}
