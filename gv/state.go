package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one symbolic state.
type State struct {
	pc         []*Term
	heap       map[string]*Term
	wm         *Term // all existing references are below
	frames     []*Frame
	held       []*heldLock
	acqs       []*heldLock // every lock section entered so far
	loops      []activeLoop
	trace      []string
	pend       []*pending // goroutines started in an environment and not yet waited for
	shared     map[*Term]bool
	cells      map[*Term]bool // variables a goroutine writes
	threadRet  Val            // what the function of a goroutine returned
	threadRetT types.Type
	spawnN     *Term // iteration of the loop that started this goroutine
	dead       bool
	last       map[string]map[string]*Term // lock instance -> heap at my last release
	nodisc     bool
}

// pending goroutine.
type pending struct {
	env *Term
	fn  Val
	pos string
}

type heldLock struct {
	decl *LockDecl
	ref  *Term
	read bool
	acq  map[string]*Term
}

// Frame is an activation.
type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	i      int
	env    map[ssa.Value]Val
	defers []*deferred
	call   *ssa.Call // in the caller, receiving the result (nil: discard)
	onRet  func(e *Eng, st *State, res []Val)
	rundef bool
	retv   []Val
	names  map[string]*Loc
	phi    map[*ssa.Phi]Val // values of the phi nodes of the block entered next, if not those of its predecessor
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  string
}

type activeLoop struct {
	depth int // len(frames) when entered
	lc    *loopCtx
	n     *Term
	wm    *Term // what existed when the iteration began
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], wm: s.wm, trace: s.trace[:len(s.trace):len(s.trace)], pend: s.pend[:len(s.pend):len(s.pend)]}
	n.heap = make(map[string]*Term, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for _, f := range s.frames {
		n.frames = append(n.frames, f.clone())
	}
	n.held = append([]*heldLock{}, s.held...)
	n.acqs = s.acqs[:len(s.acqs):len(s.acqs)]
	n.loops = append([]activeLoop{}, s.loops...)
	if s.shared != nil {
		n.shared = map[*Term]bool{}
		for k, v := range s.shared {
			n.shared[k] = v
		}
	}
	if s.cells != nil {
		n.cells = map[*Term]bool{}
		for k, v := range s.cells {
			n.cells[k] = v
		}
	}
	n.spawnN = s.spawnN
	n.threadRet, n.threadRetT = s.threadRet, s.threadRetT
	n.last = map[string]map[string]*Term{}
	for k, v := range s.last {
		n.last[k] = v
	}
	return n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

func (s *State) assume(e *Eng, t *Term) {
	switch t.op {
	case "true":
		return
	case "and":
		for _, a := range t.args {
			s.assume(e, a)
		}
		return
	case "false":
		s.dead = true
	}
	s.pc = append(s.pc, t)
}

// alloc makes a new reference.
func (s *State) alloc(e *Eng) *Term {
	r := s.wm
	s.wm = e.tb.Add(s.wm, e.tb.Int(1))
	e.tb.nonzero[r] = true
	return r
}

// newBase starts a new watermark above the current one.
func (s *State) newBase(e *Eng) {
	b := e.tb.Fresh("wm", SInt)
	e.tb.isBase[b] = true
	e.tb.facts[b] = append(e.tb.facts[b], e.tb.Le(s.wm, b))
	s.wm = b
}

// ---------------------------------------------------------------- heap

type keyMeta struct {
	sort  Sort // of the whole heap component
	typ   types.Type
	depth int
	gh    *GhostDecl
}

func (e *Eng) declKey(key string, m keyMeta) {
	if _, ok := e.keys[key]; !ok {
		e.keys[key] = m
	}
}

// newSym makes a fresh symbol for a heap component.
func (e *Eng) newSym(key string, wm *Term) *Term {
	m := e.keys[key]
	t := e.tb.Fresh("h."+key, m.sort)
	e.regSym(t, m, m.depth, wm)
	return t
}

func (e *Eng) regSym(t *Term, m keyMeta, depth int, wm *Term) {
	if m.typ == nil {
		return
	}
	if depth == 0 {
		e.symFacts(t, m.typ, wm)
		return
	}
	sm := &symMeta{d: depth, wm: wm}
	typ := m.typ
	sm.fact = func(v *Term) *Term { return e.wf(v, typ, wm) }
	switch under(typ).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface:
		sm.ub = wm
	}
	e.tb.meta[t] = sm
}

// symFacts attaches the type invariant to a symbol.
func (e *Eng) symFacts(t *Term, typ types.Type, wm *Term) {
	f := e.wf(t, typ, wm)
	if f.op != "true" {
		e.tb.facts[t] = append(e.tb.facts[t], f)
	}
	switch under(typ).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface:
		e.tb.ub[t] = wm
	case *types.Array:
		u := under(typ).(*types.Array)
		e.tb.meta[t] = &symMeta{d: 1, local: true, wm: wm, fact: func(v *Term) *Term { return e.wf(v, u.Elem(), wm) }}
	}
}

// get reads a heap component (creating its initial symbol when first touched).
func (e *Eng) get(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t, ok := e.init[key]
	if !ok {
		if _, ok := e.keys[key]; !ok {
			panic(unsup("unknown heap key %s", key))
		}
		t = e.newSym(key, e.wm0)
		t.birth = 0 // it stands for what was there at entry, whenever it is first read
		e.init[key] = t
		if strings.HasPrefix(key, "MD:") {
			// the nil map is empty
			k, _, _ := arrParts(e.keys[key].sort)
			_ = k
			inner := e.tb.Select(t, e.tb.Int(0))
			e.tb.facts[t] = append(e.tb.facts[t], e.tb.Eq(inner, e.tb.ConstArr(inner.sort, e.tb.False)))
		}
		if strings.HasPrefix(key, "ML:") {
			e.tb.facts[t] = append(e.tb.facts[t], e.tb.Eq(e.tb.Select(t, e.tb.Int(0)), e.tb.Int(0)))
		}
	}
	st.heap[key] = t
	return t
}

func (e *Eng) set(st *State, key string, v *Term, ref *Term) {
	e.get(st, key)
	st.heap[key] = v
	for i := range st.loops {
		st.loops[i].lc.record(e, key, ref)
	}
}

// object field / cell
func (e *Eng) okey(root, path string, t types.Type) string {
	k := "F:" + root
	if path != "" {
		k += "." + path
	}
	e.declKey(k, keyMeta{sort: ArrSort(SInt, sortOf(t)), typ: t, depth: 1})
	return k
}

func (e *Eng) mkey(elem types.Type, path string, t types.Type) string {
	k := "M:" + elemName(elem)
	if path != "" {
		k += "." + path
	}
	e.declKey(k, keyMeta{sort: ArrSort(SInt, ArrSort(SInt, sortOf(t))), typ: t, depth: 2})
	return k
}

func (e *Eng) mapKeys(mt *types.Map) (md, mv, ml string) {
	n := elemName(mt.Key()) + "," + elemName(mt.Elem())
	ks := sortOf(mt.Key())
	md, mv, ml = "MD:"+n, "MV:"+n, "ML:"+n
	e.declKey(md, keyMeta{sort: ArrSort(SInt, ArrSort(ks, SBool)), typ: types.Typ[types.Bool], depth: 2})
	e.declKey(mv, keyMeta{sort: ArrSort(SInt, ArrSort(ks, sortOf(mt.Elem()))), typ: mt.Elem(), depth: 2})
	e.declKey(ml, keyMeta{sort: ArrSort(SInt, SInt), typ: types.Typ[types.Uint32], depth: 1})
	return
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

// locOf views a pointer value as a location.
func (e *Eng) locOf(v Val, pointee types.Type) *Loc {
	switch v := v.(type) {
	case *Loc:
		return v
	case *Term:
		return &Loc{kind: 'o', ref: v, root: typeName(pointee), typ: pointee}
	}
	panic(unsup("pointer value %T", v))
}

// load reads a location.
func (e *Eng) load(st *State, l *Loc) Val {
	if isStruct(l.typ) {
		sv := &StructV{typ: l.typ}
		for _, lf := range flatten(l.typ) {
			sv.leaves = append(sv.leaves, e.loadLeaf(st, l, lf))
		}
		return sv
	}
	return e.loadLeaf(st, l, leaf{"", l.typ})
}

func (e *Eng) leafTerm(st *State, l *Loc, lf leaf) *Term {
	p := joinPath(l.path, lf.path)
	switch l.kind {
	case 'o':
		if at, ok := under(lf.typ).(*types.Array); ok && l.path == "" && lf.path == "" {
			return e.tb.Select(e.get(st, e.mkey(at.Elem(), "", at.Elem())), l.ref)
		}
		return e.tb.Select(e.get(st, e.okey(l.root, p, lf.typ)), l.ref)
	case 'e':
		k := "M:" + l.root
		if p != "" {
			k += "." + p
		}
		e.declKey(k, keyMeta{sort: ArrSort(SInt, ArrSort(SInt, sortOf(lf.typ))), typ: lf.typ, depth: 2})
		return e.tb.Select(e.tb.Select(e.get(st, k), l.ref), l.idx)
	}
	panic(unsup("load from %c", l.kind))
}

func (e *Eng) loadLeaf(st *State, l *Loc, lf leaf) Val {
	if l.kind == 'o' && st.cells[l.ref] && l.path == "" {
		v := e.tb.Fresh("cell", sortOf(lf.typ))
		e.symFacts(v, lf.typ, st.wm)
		if lf.path == "" {
			e.cellInv(st, l, v, func(c *Clause, t *Term) { st.assume(e, t) })
		}
		return v
	}
	t := e.leafTerm(st, l, lf)
	return e.fromTerm(t, lf.typ)
}

// fromTerm turns function references back into closures.
func (e *Eng) fromTerm(t *Term, typ types.Type) Val {
	if c, ok := e.funRefs[t]; ok {
		return c
	}
	return t
}

// toTerm makes a scalar storable.
func (e *Eng) toTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *CloV:
		for t, c := range e.funRefs {
			if c == v {
				return t
			}
		}
		e.nFun++
		t := e.tb.Const(fmt.Sprintf("fun!%d", e.nFun), SInt)
		e.tb.facts[t] = []*Term{e.tb.Lt(e.tb.Int(0), t)}
		e.funRefs[t] = v
		return t
	case *Loc:
		if v.kind == 'o' && v.path == "" {
			return v.ref
		}
		panic(unsup("interior pointer stored in memory (%s.%s)", v.root, v.path))
	}
	panic(unsup("value %T stored in memory", v))
}

func (e *Eng) store(st *State, l *Loc, v Val) {
	if isStruct(l.typ) {
		sv, ok := v.(*StructV)
		if !ok {
			panic(unsup("store of %T in a struct location", v))
		}
		for i, lf := range flatten(l.typ) {
			e.storeLeaf(st, l, lf, sv.leaves[i])
		}
		return
	}
	e.storeLeaf(st, l, leaf{"", l.typ}, v)
}

func (e *Eng) storeLeaf(st *State, l *Loc, lf leaf, v Val) {
	p := joinPath(l.path, lf.path)
	t := e.toTerm(v)
	switch l.kind {
	case 'o':
		if at, ok := under(lf.typ).(*types.Array); ok && l.path == "" && lf.path == "" {
			k := e.mkey(at.Elem(), "", at.Elem())
			e.set(st, k, e.tb.Store(e.get(st, k), l.ref, t), l.ref)
			return
		}
		k := e.okey(l.root, p, lf.typ)
		if p == "" && st.cells[l.ref] {
			e.cellInv(st, l, t, func(c *Clause, t *Term) {
				e.oblige(st, "cell", "variable shared with a goroutine: "+clauseName(c), c.labels, t, "")
			})
		}
		e.checkImmut(st, l.root, p, l.ref)
		e.set(st, k, e.tb.Store(e.get(st, k), l.ref, t), l.ref)
		return
	case 'e':
		k := "M:" + l.root
		if p != "" {
			k += "." + p
		}
		e.declKey(k, keyMeta{sort: ArrSort(SInt, ArrSort(SInt, sortOf(lf.typ))), typ: lf.typ, depth: 2})
		m := e.get(st, k)
		e.set(st, k, e.tb.Store(m, l.ref, e.tb.Store(e.tb.Select(m, l.ref), l.idx, t)), l.ref)
		return
	}
	panic(unsup("store to %c", l.kind))
}

// initObject stores the zero value in a fresh object.
func (e *Eng) initObject(st *State, ref *Term, t types.Type) {
	e.store(st, &Loc{kind: 'o', ref: ref, root: typeName(t), typ: t}, e.zero(t))
}

// ---------------------------------------------------------------- maps and slices

func (e *Eng) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	md, _, _ := e.mapKeys(mt)
	return e.tb.Select(e.tb.Select(e.get(st, md), m), k)
}

func (e *Eng) mapVal(st *State, mt *types.Map, m, k *Term) *Term {
	_, mv, _ := e.mapKeys(mt)
	return e.tb.Select(e.tb.Select(e.get(st, mv), m), k)
}

func (e *Eng) mapPut(st *State, mt *types.Map, m, k *Term, v *Term) {
	md, mv, ml := e.mapKeys(mt)
	tb := e.tb
	has := e.mapHas(st, mt, m, k)
	d, vv, n := e.get(st, md), e.get(st, mv), e.get(st, ml)
	e.noteMapKey(st, mt, m, k)
	e.set(st, ml, tb.Store(n, m, tb.Ite(has, tb.Select(n, m), tb.Add(tb.Select(n, m), tb.Int(1)))), m)
	e.set(st, md, tb.Store(d, m, tb.Store(tb.Select(d, m), k, tb.True)), m)
	e.set(st, mv, tb.Store(vv, m, tb.Store(tb.Select(vv, m), k, v)), m)
}

func (e *Eng) mapDel(st *State, mt *types.Map, m, k *Term) {
	md, _, ml := e.mapKeys(mt)
	tb := e.tb
	has := e.mapHas(st, mt, m, k)
	d, n := e.get(st, md), e.get(st, ml)
	e.noteMapKey(st, mt, m, k)
	e.set(st, ml, tb.Store(n, m, tb.Ite(has, tb.Sub(tb.Select(n, m), tb.Int(1)), tb.Select(n, m))), m)
	e.set(st, md, tb.Store(d, m, tb.Store(tb.Select(d, m), k, tb.False)), m)
}

// mapLen is the number of keys (zero exactly for empty maps).
func (e *Eng) mapLen(st *State, mt *types.Map, m *Term) *Term {
	md, _, ml := e.mapKeys(mt)
	tb := e.tb
	n := tb.Select(e.get(st, ml), m)
	d := tb.Select(e.get(st, md), m)
	st.assume(e, tb.Le(tb.Int(0), n))
	k := tb.BVar("k", sortOf(mt.Key()))
	st.assume(e, tb.Imp(tb.Eq(n, tb.Int(0)), tb.Forall([]*Term{k}, [][]*Term{{tb.Select(d, k)}}, tb.Not(tb.Select(d, k)))))
	w := tb.Fresh("mapkey", sortOf(mt.Key()))
	st.assume(e, tb.Imp(tb.Lt(tb.Int(0), n), tb.Select(d, w)))
	return n
}

func (e *Eng) noteMapKey(st *State, mt *types.Map, m, k *Term) {
	// a map with a key is not empty
	_, _, ml := e.mapKeys(mt)
	st.assume(e, e.tb.Imp(e.mapHas(st, mt, m, k), e.tb.Le(e.tb.Int(1), e.tb.Select(e.get(st, ml), m))))
	for _, x := range e.mapTouched {
		if x == k {
			return
		}
	}
	e.mapTouched = append(e.mapTouched, k)
}

// elems reads a slice of statically known length.
func (e *Eng) elems(st *State, s *Term, elem types.Type) ([]*Term, bool) {
	n, ok := e.tb.SlLen(s).isInt()
	if !ok || n > 64 {
		return nil, false
	}
	k := e.mkey(elem, "", elem)
	arr := e.tb.Select(e.get(st, k), e.tb.SlArr(s))
	if n == 0 {
		return nil, true
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, e.tb.Select(arr, e.tb.Add(e.tb.SlOff(s), e.tb.Int(i))))
	}
	return out, true
}

// bytesOf is the abstract content of a byte slice.
func (e *Eng) bytesOf(st *State, s *Term) *Term {
	k := e.mkey(types.Typ[types.Uint8], "", types.Typ[types.Uint8])
	arr := e.tb.Select(e.get(st, k), e.tb.SlArr(s))
	return e.tb.App("bytes.of", SBytes, arr, e.tb.SlOff(s), e.tb.SlLen(s))
}

// newBytes allocates a byte slice with an abstract content.
func (e *Eng) newBytes(st *State, b *Term, prefix string) *Term {
	tb := e.tb
	k := e.mkey(types.Typ[types.Uint8], "", types.Typ[types.Uint8])
	r := st.alloc(e)
	a := tb.Fresh(prefix, ArrSort(SInt, SInt))
	n := tb.App("bytes.len", SInt, b)
	e.set(st, k, tb.Store(e.get(st, k), r, a), r)
	st.assume(e, tb.Le(tb.Int(0), n))
	st.assume(e, tb.Eq(tb.App("bytes.of", SBytes, a, tb.Int(0), n), b))
	return tb.MkSlice(r, tb.Int(0), n, n)
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// cellInv evaluates the invariants of a variable that goroutines write.
func (e *Eng) cellInv(st *State, l *Loc, v *Term, f func(c *Clause, t *Term)) {
	if e.con == nil {
		return
	}
	for _, c := range e.con.cellinv {
		if len(c.holes) != 1 || e.omitted(c) {
			continue
		}
		t := e.w.parseType(c.holes[0].typ, e.con.pkg)
		if t.t == nil || typeName(t.t) != typeName(l.typ) {
			continue
		}
		x := e.rootCtx(st)
		x.vars[c.holes[0].name] = SV{v: v, t: goTy(l.typ)}
		f(c, x.boolean(c.e))
	}
}

// markCells notes the variables a closure (or a closure in it) assigns.
func (e *Eng) markCells(st *State, v Val) {
	cl, ok := v.(*CloV)
	if !ok {
		if t, isT := v.(*Term); isT {
			cl = e.funRefs[t]
		}
		if cl == nil {
			return
		}
	}
	for i, b := range cl.bind {
		if i >= len(cl.fn.FreeVars) || !assigns(cl.fn, cl.fn.FreeVars[i]) {
			continue
		}
		pt, ok := under(cl.fn.FreeVars[i].Type()).(*types.Pointer)
		if !ok {
			continue
		}
		l := e.locOf(b, pt.Elem())
		if l.kind != 'o' || l.path != "" || st.cells[l.ref] {
			continue
		}
		if !isStruct(l.typ) {
			if t, ok := e.loadLeaf(st, l, leaf{"", l.typ}).(*Term); ok {
				e.cellInv(st, l, t, func(c *Clause, t *Term) {
					e.oblige(st, "cell", "variable shared with a goroutine: "+clauseName(c), c.labels, t, "")
				})
			}
		}
		if st.cells == nil {
			st.cells = map[*Term]bool{}
		}
		st.cells[l.ref] = true
	}
}

func assigns(fn *ssa.Function, v ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					return true
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, x := range in.Bindings {
					if x == v && assigns(f, f.FreeVars[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}
