package main

// Symbolic execution of go/ssa instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is a proof obligation.
type Obl struct {
	fn      string
	kind    string
	name    string
	labels  []string
	pos     string
	pc      []*Term
	goal    *Term
	trace   []string
	heldBy  string
	ans     *Answer
	trivial bool
	theory  bool
	assump  []*Term
	st      *State
}

// Eng verifies one function.
type Eng struct {
	w         *World
	tb        *TB
	fn        *ssa.Function
	con       *Contract
	key       string
	keys      map[string]keyMeta
	init      map[string]*Term
	wm0       *Term
	incr      *Incr
	obls      []*Obl
	seen      map[string]bool
	loopDrops map[string]int
	quiet     int
	nFun      int
	funRefs   map[*Term]*CloV
	ptrRefs   map[*Term]*Loc // pointers to fields held in interfaces
	// values found in maps
	lookupVal map[*Term]*Term

	params     map[string]SV
	entry      map[string]*Term
	mapTouched []*Term
	skolems    map[skKey]*Term
	sums       map[*Term]*sumInst
	sumVar     map[Sort]*Term
	sumSyms    map[*Term]Sort
	sumWit     map[sumPair]*Term
	exits      int
	panics     int
	paths      int
	maxPaths   int
	deadline   time.Time
	guardTerm  map[*Term]*guardInfo
	usedExt    map[string]bool
	usedCon    map[string]bool
	usedSpawn  map[string]bool
	inlined    map[string]bool
	assumed    map[string]bool
	loopStats  []string
	axioms     []*Term
	reach      []*State
	tags       map[string]int64
	lookups    int
	depthBase  int
	eqNoted    map[string]bool
	crashOff   bool
	siteHits   map[*CallSite]int
	loopSeq    int
	invProved  int
	exitPCs    [][]*Term
	axs        []*axInst
	boxNames   map[string][]string
	qmu        sync.Mutex
}

type guardInfo struct {
	decl *LockDecl
	ref  *Term
}

func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.w.fset.Position(p)
	f := q.Filename
	if len(f) > 6 && f[:6] == "/repo/" {
		f = f[6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records an obligation and assumes it afterwards.
func (e *Eng) oblige(st *State, kind, name string, labels []string, goal *Term, pos string) {
	if st.dead {
		return
	}
	if goal.op == "and" && e.quiet == 0 && len(labels) > 0 {
		for _, g := range goal.args { // one obligation for each conjunct
			e.oblige(st, kind, name, labels, g, pos)
		}
		return
	}
	if e.quiet == 0 && len(labels) > 0 {
		o := &Obl{fn: e.key, kind: kind, name: name, labels: labels, pos: pos, goal: goal, theory: e.con != nil && e.con.theory}
		if goal.op == "true" {
			o.trivial = true
			k := fmt.Sprintf("%s|%s|%s|%v", kind, name, pos, labels)
			if !e.seen[k+"triv"] {
				e.seen[k+"triv"] = true
				e.obls = append(e.obls, o)
			}
		} else {
			o.pc = st.pc[:len(st.pc):len(st.pc)]
			o.trace = st.trace
			o.st = st.clone()
			k := fmt.Sprintf("%s|%s|%s|%d|", kind, name, pos, goal.id)
			for _, p := range o.pc {
				k += fmt.Sprint(p.id, ",")
			}
			if !e.seen[k] {
				e.seen[k] = true
				e.obls = append(e.obls, o)
			}
		}
	}
	st.assume(e, goal)
}

func (e *Eng) safety() []string {
	if e.con != nil {
		return e.con.safety
	}
	return nil
}

// ---------------------------------------------------------------- exploration

func (e *Eng) explore(work []*State) {
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for !st.dead && len(st.frames) > 0 {
			more := e.step(st)
			for _, m := range more {
				if !m.dead {
					e.paths++
					work = append(work, m)
				}
			}
			if e.paths > e.maxPaths {
				panic(unsup("more than %d paths", e.maxPaths))
			}
			if len(more) > 0 && time.Now().After(e.deadline) {
				panic(unsup("exploration time exceeded"))
			}
		}
	}
}

// jump moves the top frame to a block, handling loop entries and exits.
func (e *Eng) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	f.prev, f.block, f.i = f.block, to, 0
	d := len(st.frames)
	// leave loops
	for len(st.loops) > 0 {
		al := st.loops[len(st.loops)-1]
		if al.depth != d || al.lc.body[to] {
			break
		}
		if al.lc.discover {
			st.dead = true
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	li := e.w.loopsOf(f.fn)
	if li.headers[to] == nil {
		e.phis(st)
		return
	}
	if len(st.loops) > 0 {
		al := st.loops[len(st.loops)-1]
		if al.depth == d && al.lc.header == to {
			e.phis(st)
			e.backEdge(st, al)
			return
		}
	}
	e.phis(st)
	e.enterLoop(st, li.headers[to])
}

// phis evaluates the phi nodes of the block just entered.
func (e *Eng) phis(st *State) {
	f := st.top()
	b := f.block
	pi := -1
	for i, p := range b.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	var vals []Val
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, e.val(st, p.Edges[pi]))
	}
	for i, p := range ph {
		if v, ok := f.phi[p]; ok {
			vals[i] = v
		}
	}
	f.phi = nil
	for i, p := range ph {
		f.env[p] = vals[i]
	}
	f.i = len(ph)
}

// val evaluates an operand.
func (e *Eng) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return &CloV{fn: v}
	case *ssa.Global:
		return &Loc{kind: 'g', root: v.Pkg.Pkg.Name() + "." + v.Name(), typ: under(v.Type()).(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	if x, ok := st.top().env[v]; ok {
		return x
	}
	panic(unsup("value %s (%T) of %s has no symbolic value", v.Name(), v, st.top().fn))
}

func (e *Eng) term(st *State, v ssa.Value) *Term {
	return e.toTerm(e.val(st, v))
}

func (e *Eng) constVal(c *ssa.Const) Val {
	tb := e.tb
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tb.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return tb.Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return tb.Const("float:"+c.Value.ExactString(), SInt)
		}
		return tb.BigInt(c.Value.ExactString())
	case constant.Float:
		return tb.Const("float:"+c.Value.ExactString(), SInt)
	}
	panic(unsup("constant %s", c))
}

// step executes one instruction; it may return forked states.
func (e *Eng) step(st *State) []*State {
	f := st.top()
	in := f.block.Instrs[f.i]
	f.i++
	tb := e.tb
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Phi:
		panic(unsup("phi out of place"))
	case *ssa.Jump:
		e.jump(st, f.block.Succs[0])
	case *ssa.If:
		return e.branch(st, in)
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, e.val(st, r))
		}
		e.ret(st, res)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.i-- // run again until empty
			return e.call(st, d.call, d.fn, d.args, nil, d.pos, true)
		}
	case *ssa.Panic:
		e.panics++
		if e.con == nil || !e.con.mayPanic {
			e.oblige(st, "no-panic", "explicit panic unreachable", e.safety(), tb.False, e.pos(in.Pos()))
		}
		st.dead = true
	case *ssa.Alloc:
		ref := st.alloc(e)
		pt := under(in.Type()).(*types.Pointer).Elem()
		e.initObject(st, ref, pt)
		f.env[in] = ref
	case *ssa.BinOp:
		f.env[in] = e.binop(st, in)
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.ChangeType:
		v := e.val(st, in.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{typ: in.Type(), leaves: sv.leaves}
		}
		f.env[in] = v
	case *ssa.ChangeInterface:
		f.env[in] = e.val(st, in.X)
	case *ssa.Convert:
		f.env[in] = e.convert(st, e.term(st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		f.env[in] = e.makeIface(st, e.val(st, in.X), in.X.Type())
	case *ssa.Extract:
		f.env[in] = e.val(st, in.Tuple).(*TupleV).v[in.Index]
	case *ssa.Field:
		sv, ok := e.val(st, in.X).(*StructV)
		if !ok {
			panic(unsup("field of %T", e.val(st, in.X)))
		}
		f.env[in] = structField(sv, in.Field)
	case *ssa.FieldAddr:
		f.env[in] = e.fieldAddr(st, in)
	case *ssa.IndexAddr:
		f.env[in] = e.indexAddr(st, in)
	case *ssa.Index:
		f.env[in] = e.index(st, in)
	case *ssa.Lookup:
		f.env[in] = e.lookup(st, in)
	case *ssa.MapUpdate:
		m := e.term(st, in.Map)
		e.oblige(st, "map-write", "map is not nil", e.safety(), tb.Not(tb.Eq(m, tb.Int(0))), e.pos(in.Pos()))
		e.checkGuard(st, m, true, e.pos(in.Pos()))
		mt := under(in.Map.Type()).(*types.Map)
		if isStruct(mt.Elem()) {
			panic(unsup("map of structs"))
		}
		e.mapPut(st, mt, m, e.mapKey(st, in.Key), e.toTerm(e.val(st, in.Value)))
	case *ssa.MakeMap:
		mt := under(in.Type()).(*types.Map)
		md, _, ml := e.mapKeys(mt)
		ref := st.alloc(e)
		d := e.get(st, md)
		inner := tb.ConstArr(ArrSort(sortOf(mt.Key()), SBool), tb.False)
		e.set(st, md, tb.Store(d, ref, inner), ref)
		e.set(st, ml, tb.Store(e.get(st, ml), ref, tb.Int(0)), ref)
		f.env[in] = ref
	case *ssa.MakeChan:
		ref := st.alloc(e)
		n := e.term(st, in.Size)
		e.oblige(st, "make-chan", "channel size is not negative", e.safety(), tb.Le(tb.Int(0), n), e.pos(in.Pos()))
		e.chanInit(st, ref, n, in)
		f.env[in] = ref
	case *ssa.MakeSlice:
		ref := st.alloc(e)
		n, c := e.term(st, in.Len), e.term(st, in.Cap)
		e.oblige(st, "make-slice", "0 <= len <= cap", e.safety(), tb.And(tb.Le(tb.Int(0), n), tb.Le(n, c)), e.pos(in.Pos()))
		el := under(in.Type()).(*types.Slice).Elem()
		for _, lf := range flatten(el) {
			k := e.mkey(el, lf.path, lf.typ)
			z := e.zero(lf.typ).(*Term)
			e.set(st, k, tb.Store(e.get(st, k), ref, tb.ConstArr(ArrSort(SInt, sortOf(lf.typ)), z)), ref)
		}
		f.env[in] = tb.MkSlice(ref, tb.Int(0), n, c)
	case *ssa.MakeClosure:
		c := &CloV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, e.val(st, b))
		}
		f.env[in] = c
	case *ssa.Slice:
		f.env[in] = e.slice(st, in)
	case *ssa.Store:
		l := e.locOf(e.val(st, in.Addr), under(in.Addr.Type()).(*types.Pointer).Elem())
		if l.kind == 'g' {
			panic(unsup("store to global %s", l.root))
		}
		e.nilCheck(st, l, e.pos(in.Pos()))
		e.guardLoc(st, l, true, e.pos(in.Pos()))
		e.store(st, l, e.val(st, in.Val))
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Range:
		f.env[in] = e.rangeOver(st, in)
	case *ssa.Next:
		return e.next(st, in)
	case *ssa.Call:
		fnv, args := e.callArgs(st, &in.Call)
		return e.call(st, &in.Call, fnv, args, in, e.pos(in.Pos()), false)
	case *ssa.Defer:
		fnv, args := e.callArgs(st, &in.Call)
		d := &deferred{call: &in.Call, fn: fnv, args: args, pos: e.pos(in.Pos())}
		if k := e.calleeKey(&in.Call, fnv); k != "" {
			if c := e.w.contractFor(k); c != nil && c.benign {
				// its effect is accounted for at the defer statement: it runs on every exit
				return e.call(st, d.call, d.fn, d.args, nil, d.pos, true)
			}
		}
		for i := len(st.loops) - 1; i >= 0; i-- {
			if st.loops[i].depth == len(st.frames) {
				panic(unsup("defer inside a loop at %s", d.pos))
			}
		}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		fnv, args := e.callArgs(st, &in.Call)
		e.spawn(st, &in.Call, fnv, args, e.pos(in.Pos()))
	case *ssa.Send:
		e.send(st, e.term(st, in.Chan), in.Chan.Type(), e.val(st, in.X), e.pos(in.Pos()))
	case *ssa.Select:
		return e.selectStmt(st, in)
	default:
		panic(unsup("instruction %T at %s", in, e.pos(in.Pos())))
	}
	return nil
}

// ret returns from the top frame.
func (e *Eng) ret(st *State, res []Val) {
	f := st.top()
	d := len(st.frames)
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == d {
		if st.loops[len(st.loops)-1].lc.discover {
			st.dead = true
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	st.frames = st.frames[:d-1]
	if f.onRet != nil {
		f.onRet(e, st, res)
		return
	}
	if f.call != nil && len(st.frames) > 0 {
		e.bind(st, f.call, res)
	}
}

func (e *Eng) bind(st *State, call *ssa.Call, res []Val) {
	if call == nil {
		return
	}
	switch len(res) {
	case 0:
		st.top().env[call] = &TupleV{}
	case 1:
		if _, ok := under(call.Type()).(*types.Tuple); ok {
			st.top().env[call] = &TupleV{v: res}
		} else {
			st.top().env[call] = res[0]
		}
	default:
		st.top().env[call] = &TupleV{v: res}
	}
}

func (e *Eng) nilCheck(st *State, l *Loc, pos string) {
	if l.kind == 'o' {
		e.oblige(st, "nil", "pointer is not nil", e.safety(), e.tb.Not(e.tb.Eq(l.ref, e.tb.Int(0))), pos)
	}
}

func (e *Eng) fieldAddr(st *State, in *ssa.FieldAddr) Val {
	pt := under(in.X.Type()).(*types.Pointer).Elem()
	l := e.locOf(e.val(st, in.X), pt)
	e.nilCheck(st, l, e.pos(in.Pos()))
	f := under(pt).(*types.Struct).Field(in.Field)
	n := *l
	n.path = joinPath(l.path, f.Name())
	n.typ = f.Type()
	return &n
}

func (e *Eng) bounds(st *State, i, n *Term, pos string) {
	e.oblige(st, "bounds", "index in range", e.safety(), e.tb.And(e.tb.Le(e.tb.Int(0), i), e.tb.Lt(i, n)), pos)
}

func (e *Eng) indexAddr(st *State, in *ssa.IndexAddr) Val {
	i := e.term(st, in.Index)
	switch t := under(in.X.Type()).(type) {
	case *types.Slice:
		s := e.term(st, in.X)
		e.bounds(st, i, e.tb.SlLen(s), e.pos(in.Pos()))
		return &Loc{kind: 'e', ref: e.tb.SlArr(s), idx: e.tb.Add(e.tb.SlOff(s), i), root: elemName(t.Elem()), typ: t.Elem()}
	case *types.Pointer:
		at := under(t.Elem()).(*types.Array)
		l := e.locOf(e.val(st, in.X), t.Elem())
		if l.kind != 'o' || l.path != "" {
			panic(unsup("element of an array field"))
		}
		e.bounds(st, i, e.tb.Int(at.Len()), e.pos(in.Pos()))
		return &Loc{kind: 'e', ref: l.ref, idx: i, root: elemName(at.Elem()), typ: at.Elem()}
	}
	panic(unsup("IndexAddr on %s", in.X.Type()))
}

func (e *Eng) index(st *State, in *ssa.Index) Val {
	i := e.term(st, in.Index)
	x := e.term(st, in.X)
	switch t := under(in.X.Type()).(type) {
	case *types.Array:
		e.bounds(st, i, e.tb.Int(t.Len()), e.pos(in.Pos()))
		return e.tb.Select(x, i)
	case *types.Basic:
		e.bounds(st, i, e.strLen(x), e.pos(in.Pos()))
		return e.charAt(st, x, i)
	}
	panic(unsup("Index on %s", in.X.Type()))
}

func (e *Eng) charAt(st *State, s, i *Term) *Term {
	c := e.tb.App("str.code", SInt, e.tb.App("str.at", SStr, s, i))
	if s.op == "str" {
		if n, ok := i.isInt(); ok && n >= 0 && int(n) < len(s.name) {
			return e.tb.Int(int64(s.name[n]))
		}
	}
	return c
}

func (e *Eng) strLen(s *Term) *Term {
	if s.op == "str" {
		return e.tb.Int(int64(len(s.name)))
	}
	return e.tb.App("str.len", SInt, s)
}

func (e *Eng) mapKey(st *State, v ssa.Value) *Term { return e.toTerm(e.val(st, v)) }

func (e *Eng) lookup(st *State, in *ssa.Lookup) Val {
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		s, i := e.term(st, in.X), e.term(st, in.Index)
		e.bounds(st, i, e.strLen(s), e.pos(in.Pos()))
		return e.charAt(st, s, i)
	}
	m, k := e.term(st, in.X), e.mapKey(st, in.Index)
	e.checkGuard(st, m, false, e.pos(in.Pos()))
	e.noteMapKey(st, mt, m, k)
	has := e.mapHas(st, mt, m, k)
	var v Val
	if s, isS := under(mt.Elem()).(*types.Struct); isS && s.NumFields() == 0 {
		v = &StructV{typ: mt.Elem()}
	} else {
		z := e.zero(mt.Elem())
		val := e.mapVal(st, mt, m, k)
		e.noteLoad(st, val, mt.Elem())
		t := e.tb.Ite(has, val, z.(*Term))
		if _, isSl := under(mt.Elem()).(*types.Slice); isSl && t.op == "ite" {
			// a name for the value keeps its parts recognisable
			if e.lookupVal == nil {
				e.lookupVal = map[*Term]*Term{}
			}
			n := e.lookupVal[t]
			if n == nil {
				n = e.tb.Fresh("lookup", t.sort)
				e.symFacts(n, mt.Elem(), st.wm)
				e.tb.facts[n] = append(e.tb.facts[n], e.tb.Imp(has, e.tb.Eq(n, val)), e.tb.Imp(e.tb.Not(has), e.tb.Eq(n, z.(*Term))))
				e.lookupVal[t] = n
			}
			t = n
		}
		v = e.fromTerm(t, mt.Elem())
	}
	if in.CommaOk {
		return &TupleV{v: []Val{v, has}}
	}
	return v
}

// noteLoad assumes that what was read from the heap exists by now.
func (e *Eng) noteLoad(st *State, t *Term, typ types.Type) {
	if !isRefType(typ) && sortOf(typ) != SIface && sortOf(typ) != SSlice || t.op != "select" {
		return
	}
	x, d := t, 0
	var r *Term
	for x.op == "select" {
		r = x.args[1]
		x = x.args[0]
		d++
	}
	if m := e.tb.meta[x]; m != nil && m.d == d && (m.local || e.tb.below(r, m.wm)) {
		return
	}
	f := e.wf(t, typ, st.wm)
	if !hasTerm(st.pc, f) {
		st.assume(e, f)
	}
}

func (e *Eng) slice(st *State, in *ssa.Slice) Val {
	tb := e.tb
	pos := e.pos(in.Pos())
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(st, v)
	}
	switch t := under(in.X.Type()).(type) {
	case *types.Basic: // string
		s := e.term(st, in.X)
		n := e.strLen(s)
		lo, hi := opt(in.Low, tb.Int(0)), opt(in.High, n)
		e.oblige(st, "bounds", "string slice in range", e.safety(), tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, n)), pos)
		return e.substr(st, s, lo, tb.Sub(hi, lo))
	case *types.Slice:
		s := e.term(st, in.X)
		lo, hi := opt(in.Low, tb.Int(0)), opt(in.High, tb.SlLen(s))
		cp := tb.SlCap(s)
		if in.Max != nil {
			cp = e.term(st, in.Max)
		}
		e.oblige(st, "bounds", "slice in range", e.safety(), tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, cp), tb.Le(cp, tb.SlCap(s))), pos)
		return tb.MkSlice(tb.SlArr(s), tb.Add(tb.SlOff(s), lo), tb.Sub(hi, lo), tb.Sub(cp, lo))
	case *types.Pointer:
		at := under(t.Elem()).(*types.Array)
		l := e.locOf(e.val(st, in.X), t.Elem())
		if l.kind != 'o' || l.path != "" {
			panic(unsup("slice of an array field"))
		}
		lo, hi := opt(in.Low, tb.Int(0)), opt(in.High, tb.Int(at.Len()))
		e.oblige(st, "bounds", "slice in range", e.safety(), tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, tb.Int(at.Len()))), pos)
		return tb.MkSlice(l.ref, lo, tb.Sub(hi, lo), tb.Sub(tb.Int(at.Len()), lo))
	}
	panic(unsup("slice of %s", in.X.Type()))
}

func (e *Eng) substr(st *State, s, lo, n *Term) *Term {
	if s.op == "str" {
		a, ok1 := lo.isInt()
		b, ok2 := n.isInt()
		if ok1 && ok2 && a >= 0 && b >= 0 && int(a+b) <= len(s.name) {
			return e.tb.Str(s.name[a : a+b])
		}
	}
	if l, ok := lo.isInt(); ok && l == 0 && n == e.strLen(s) {
		return s
	}
	return e.tb.App("str.substr", SStr, s, lo, n)
}

func (e *Eng) concat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return e.tb.Str(a.name + b.name)
	}
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	// right-nest so that different groupings of + coincide
	if a.op == "app" && a.name == "str.concat" {
		return e.concat(a.args[0], e.concat(a.args[1], b))
	}
	if a.op == "str" && b.op == "app" && b.name == "str.concat" && b.args[0].op == "str" {
		return e.concat(e.tb.Str(a.name+b.args[0].name), b.args[1])
	}
	return e.tb.App("str.concat", SStr, a, b)
}

func (e *Eng) binop(st *State, in *ssa.BinOp) Val {
	tb := e.tb
	xv, yv := e.val(st, in.X), e.val(st, in.Y)
	t := in.X.Type()
	if in.Op == token.EQL || in.Op == token.NEQ {
		r := e.equal(st, xv, yv, t, in.Y.Type())
		if in.Op == token.NEQ {
			r = tb.Not(r)
		}
		return r
	}
	x, y := e.toTerm(xv), e.toTerm(yv)
	isStr := sortOf(t) == SStr
	switch in.Op {
	case token.ADD:
		if isStr {
			return e.concat(x, y)
		}
		return tb.Add(x, y)
	case token.SUB:
		if isUnsigned(t) {
			e.oblige(st, "underflow", "unsigned subtraction does not underflow", e.safety(), tb.Le(y, x), e.pos(in.Pos()))
		}
		return tb.Sub(x, y)
	case token.MUL:
		return tb.Mul(x, y)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			switch in.Op {
			case token.LSS:
				return tb.App("str.lt", SBool, x, y)
			case token.GTR:
				return tb.App("str.lt", SBool, y, x)
			case token.LEQ:
				return tb.App("str.le", SBool, x, y)
			}
			return tb.App("str.le", SBool, y, x)
		}
		switch in.Op {
		case token.LSS:
			return tb.Lt(x, y)
		case token.GTR:
			return tb.Lt(y, x)
		case token.LEQ:
			return tb.Le(x, y)
		}
		return tb.Le(y, x)
	case token.QUO, token.REM:
		e.oblige(st, "div", "divisor is not zero", e.safety(), tb.Not(tb.Eq(y, tb.Int(0))), e.pos(in.Pos()))
		if c, ok := y.isInt(); ok && c > 0 {
			// truncated division
			q := tb.Ite(tb.Le(tb.Int(0), x), tb.mk("div", "", SInt, x, y), tb.Sub(tb.Int(0), tb.mk("div", "", SInt, tb.Sub(tb.Int(0), x), y)))
			if in.Op == token.QUO {
				return q
			}
			return tb.Sub(x, tb.Mul(y, q))
		}
		return tb.App("go."+in.Op.String()+"div", SInt, x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		name := map[token.Token]string{token.AND: "bit.and", token.OR: "bit.or", token.XOR: "bit.xor", token.AND_NOT: "bit.andnot", token.SHL: "bit.shl", token.SHR: "bit.shr"}[in.Op]
		if a, ok := x.isInt(); ok {
			if b, ok := y.isInt(); ok && a >= 0 && b >= 0 {
				switch in.Op {
				case token.SHL:
					if b < 40 && a < 1<<20 {
						return tb.Int(a << uint(b))
					}
				case token.SHR:
					return tb.Int(a >> uint(b))
				case token.AND:
					return tb.Int(a & b)
				case token.OR:
					return tb.Int(a | b)
				}
			}
		}
		r := tb.App(name, SInt, x, y)
		st.assume(e, e.wf(r, in.Type(), st.wm))
		return r
	}
	panic(unsup("operator %s", in.Op))
}

// equal compares two values of static types tx, ty.
func (e *Eng) equal(st *State, a, b Val, tx, ty types.Type) *Term {
	tb := e.tb
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		var cs []*Term
		for i := range sa.leaves {
			cs = append(cs, tb.Eq(e.toTerm(sa.leaves[i]), e.toTerm(sb.leaves[i])))
		}
		return tb.And(cs...)
	}
	_, ax := a.(*CloV)
	_, bx := b.(*CloV)
	if ax || bx {
		// only comparison with nil
		return tb.False
	}
	if la, ok := a.(*Loc); ok {
		if lb, ok := b.(*Loc); ok && la.kind == lb.kind && la.kind == 'o' && la.root == lb.root && la.path == lb.path {
			return tb.Eq(la.ref, lb.ref)
		}
		if t, ok := b.(*Term); ok && t.op == "int" && t.name == "0" {
			return tb.False
		}
		panic(unsup("comparison of interior pointers"))
	}
	x, y := e.toTerm(a), e.toTerm(b)
	if x.sort == SSlice {
		// comparison with nil
		if y.op == "mk-slice" && y.args[0].op == "int" {
			return tb.Eq(tb.SlArr(x), tb.Int(0))
		}
		if x.op == "mk-slice" && x.args[0].op == "int" {
			return tb.Eq(tb.SlArr(y), tb.Int(0))
		}
	}
	if x.sort == SIface && y.sort != SIface {
		y = e.makeIface(st, b, ty)
	}
	if y.sort == SIface && x.sort != SIface {
		x = e.makeIface(st, a, tx)
	}
	if x.sort == SIface {
		n := tb.NilIface()
		if y == n {
			return tb.Eq(tb.IfTag(x), tb.Int(0))
		}
		if x == n {
			return tb.Eq(tb.IfTag(y), tb.Int(0))
		}
	}
	return tb.Eq(x, y)
}

func (e *Eng) unop(st *State, in *ssa.UnOp) []*State {
	f := st.top()
	tb := e.tb
	switch in.Op {
	case token.MUL:
		pt := under(in.X.Type()).(*types.Pointer).Elem()
		l := e.locOf(e.val(st, in.X), pt)
		if l.kind == 'g' {
			f.env[in] = e.global(st, l)
			return nil
		}
		e.nilCheck(st, l, e.pos(in.Pos()))
		e.guardLoc(st, l, false, e.pos(in.Pos()))
		v := e.load(st, l)
		if t, ok := v.(*Term); ok && l.kind != 'g' {
			e.noteLoad(st, t, l.typ)
		}
		e.afterLoad(st, l, v)
		f.env[in] = v
	case token.NOT:
		f.env[in] = tb.Not(e.term(st, in.X))
	case token.SUB:
		f.env[in] = tb.Sub(tb.Int(0), e.term(st, in.X))
	case token.XOR:
		f.env[in] = tb.App("bit.not", SInt, e.term(st, in.X))
	case token.ARROW:
		return e.recv(st, in)
	default:
		panic(unsup("unary %s", in.Op))
	}
	return nil
}

// global reads a package-level variable, treated as constant.
func (e *Eng) global(st *State, l *Loc) Val {
	e.assumed["package variable "+l.root+" keeps its initial value"] = true
	if isStruct(l.typ) {
		sv := &StructV{typ: l.typ}
		for _, lf := range flatten(l.typ) {
			sv.leaves = append(sv.leaves, e.globalTerm(l.root+"."+lf.path, lf.typ))
		}
		return sv
	}
	return e.globalTerm(l.root, l.typ)
}

func (e *Eng) globalTerm(name string, t types.Type) *Term {
	tb := e.tb
	if isRefType(t) {
		id := e.w.globalID(name)
		return tb.Int(id)
	}
	if sortOf(t) == SIface {
		id := e.w.globalID(name)
		e.tag("global." + name)
		// error values of the standard library are *errors.errorString
		return tb.MkIface(tb.Int(e.tag("global."+name)), tb.Int(id))
	}
	v := tb.Const("g."+name, sortOf(t))
	if len(tb.facts[v]) == 0 {
		tb.facts[v] = append(tb.facts[v], e.wf(v, t, tb.Int(1000)))
	}
	return v
}

// tag numbers a dynamic type.
func (e *Eng) tag(name string) int64 {
	return e.w.tagID(name)
}

// convert between types.
func (e *Eng) convert(st *State, x *Term, from, to types.Type) Val {
	tb := e.tb
	if isInteger(from) && isInteger(to) {
		return e.intConv(x, from, to)
	}
	fb, ts := under(from), under(to)
	if isByteSlice(ts) && sortOf(from) == SStr {
		return e.newBytes(st, e.strBytes(x), "conv")
	}
	if isByteSlice(fb) && sortOf(to) == SStr {
		return e.bytesStr(e.bytesOf(st, x))
	}
	if isInteger(from) && sortOf(to) == SStr {
		return tb.App("str.fromrune", SStr, x)
	}
	if isInteger(from) || isInteger(to) {
		return tb.App("conv."+typeName(from)+"."+typeName(to), sortOf(to), x)
	}
	if sortOf(from) == sortOf(to) {
		return x
	}
	panic(unsup("conversion %s to %s", from, to))
}

// strBytes / bytesStr are mutually inverse.
func (e *Eng) strBytes(s *Term) *Term {
	if s.op == "app" && s.name == "bytes.str" {
		return s.args[0]
	}
	return e.tb.App("str.bytes", SBytes, s)
}

func (e *Eng) bytesStr(b *Term) *Term {
	if b.op == "app" && b.name == "str.bytes" {
		return b.args[0]
	}
	return e.tb.App("bytes.str", SStr, b)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Eng) intConv(x *Term, from, to types.Type) *Term {
	tb := e.tb
	_, _, fb, fu, ok1 := intRange(from)
	lo, hi, b, u, ok2 := intRange(to)
	if !ok1 || !ok2 {
		return x
	}
	if fb < b && (fu || !u) || fb == b && fu == u {
		return x
	}
	if _, ok := x.isInt(); ok {
		if v, ok := x.isInt(); ok && v >= 0 && v < 128 {
			return x
		}
	}
	pow := map[int]string{8: "256", 16: "65536", 32: "4294967296", 64: "18446744073709551616"}[b]
	in := tb.And(tb.Le(tb.BigInt(lo), x), tb.Le(x, tb.BigInt(hi)))
	if fb == b {
		if u { // signed -> unsigned
			return tb.Ite(tb.Le(tb.Int(0), x), x, tb.mk("+", "", SInt, x, tb.BigInt(pow)))
		}
		return tb.Ite(tb.Le(x, tb.BigInt(hi)), x, tb.mk("-", "", SInt, x, tb.BigInt(pow)))
	}
	// general wrap
	m := tb.mk("mod", "", SInt, x, tb.BigInt(pow))
	if u {
		return tb.Ite(in, x, m)
	}
	return tb.Ite(in, x, tb.Ite(tb.Le(m, tb.BigInt(hi)), m, tb.mk("-", "", SInt, m, tb.BigInt(pow))))
}

// makeIface boxes a value.
func (e *Eng) makeIface(st *State, v Val, t types.Type) *Term {
	tb := e.tb
	if sortIsIface(t) {
		return e.toTerm(v)
	}
	tag := tb.Int(e.tag(typeName(t)))
	switch x := v.(type) {
	case *StructV:
		var as []*Term
		for _, l := range x.leaves {
			as = append(as, e.toTerm(l))
		}
		if len(as) == 0 {
			return tb.MkIface(tag, tb.Int(0))
		}
		var ns []string
		for _, l := range flatten(t) {
			ns = append(ns, "unbox."+typeName(t)+"."+l.path)
		}
		e.noteBox(typeName(t), ns)
		return tb.MkIface(tag, tb.App("box."+typeName(t), SInt, as...))
	case *CloV:
		return tb.MkIface(tag, e.toTerm(v))
	case *Loc:
		// a pointer to a field: whoever gets it may write there
		if x.kind == 'o' && x.path != "" {
			e.guardLoc(st, x, true, "")
			e.nFun++
			r := tb.Const(fmt.Sprintf("fieldptr!%d", e.nFun), SInt)
			tb.facts[r] = []*Term{tb.Lt(tb.Int(0), r)}
			if e.ptrRefs == nil {
				e.ptrRefs = map[*Term]*Loc{}
			}
			e.ptrRefs[r] = x
			return tb.MkIface(tag, r)
		}
	}
	x := e.toTerm(v)
	if isRefType(t) {
		return tb.MkIface(tag, x)
	}
	e.noteBox(typeName(t), []string{"unbox." + typeName(t)})
	b := tb.App("box."+typeName(t), SInt, x)
	return tb.MkIface(tag, b)
}

func (e *Eng) noteBox(n string, fs []string) {
	if e.boxNames == nil {
		e.boxNames = map[string][]string{}
	}
	e.boxNames[sanitize(n)] = fs
}

func sortIsIface(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

// unbox reads the concrete value back.
func (e *Eng) unbox(st *State, i *Term, t types.Type) Val {
	tb := e.tb
	v := tb.IfVal(i)
	if isRefType(t) {
		if l := e.ptrRefs[v]; l != nil {
			return l
		}
		return v
	}
	if isStruct(t) {
		sv := &StructV{typ: t}
		ls := flatten(t)
		if v.op == "app" && v.name == sanitize("box."+typeName(t)) && len(v.args) == len(ls) {
			for _, a := range v.args {
				sv.leaves = append(sv.leaves, a)
			}
			return sv
		}
		for _, l := range ls {
			x := tb.App("unbox."+typeName(t)+"."+l.path, sortOf(l.typ), v)
			sv.leaves = append(sv.leaves, x)
		}
		return sv
	}
	if v.op == "app" && v.name == sanitize("box."+typeName(t)) {
		return v.args[0]
	}
	if _, ok := under(t).(*types.Signature); ok {
		return e.fromTerm(v, t)
	}
	return tb.App("unbox."+typeName(t), sortOf(t), v)
}

func (e *Eng) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	tb := e.tb
	f := st.top()
	x := e.term(st, in.X)
	if sortIsIface(in.AssertedType) {
		// to another interface: success unknown unless nil
		ok := tb.App("implements."+typeName(in.AssertedType), SBool, tb.IfTag(x))
		okc := tb.And(tb.Not(tb.Eq(tb.IfTag(x), tb.Int(0))), ok)
		if in.CommaOk {
			f.env[in] = &TupleV{v: []Val{tb.Ite(okc, x, tb.NilIface()), okc}}
			return nil
		}
		e.oblige(st, "type-assert", "interface conversion succeeds", e.safety(), okc, e.pos(in.Pos()))
		f.env[in] = x
		return nil
	}
	ok := tb.Eq(tb.IfTag(x), tb.Int(e.tag(typeName(in.AssertedType))))
	v := e.unbox(st, x, in.AssertedType)
	if t, isT := v.(*Term); isT && isRefType(in.AssertedType) {
		_ = t
	}
	if in.CommaOk {
		z := e.zero(in.AssertedType)
		if sv, isS := v.(*StructV); isS {
			zs := z.(*StructV)
			n := &StructV{typ: sv.typ}
			for i := range sv.leaves {
				n.leaves = append(n.leaves, tb.Ite(ok, e.toTerm(sv.leaves[i]), e.toTerm(zs.leaves[i])))
			}
			f.env[in] = &TupleV{v: []Val{n, ok}}
			return nil
		}
		f.env[in] = &TupleV{v: []Val{tb.Ite(ok, e.toTerm(v), z.(*Term)), ok}}
		return nil
	}
	e.oblige(st, "type-assert", "dynamic type is "+typeName(in.AssertedType), e.safety(), ok, e.pos(in.Pos()))
	f.env[in] = v
	return nil
}

// rangeOver starts an iteration over a map.
func (e *Eng) rangeOver(st *State, in *ssa.Range) Val {
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		panic(unsup("range over %s", in.X.Type()))
	}
	m := e.term(st, in.X)
	e.checkGuard(st, m, false, e.pos(in.Pos()))
	md, _, _ := e.mapKeys(mt)
	ks := sortOf(mt.Key())
	key := fmt.Sprintf("I:%s:%s", funcKey(in.Parent()), in.Name())
	e.declKey(key, keyMeta{sort: ArrSort(ks, SBool)})
	e.get(st, key)
	st.heap[key] = e.tb.ConstArr(ArrSort(ks, SBool), e.tb.False)
	for i := range st.loops {
		st.loops[i].lc.record(e, key, nil)
	}
	return &IterV{key: key, m: m, mt: mt, start: e.tb.Select(e.get(st, md), m)}
}

func (e *Eng) next(st *State, in *ssa.Next) []*State {
	if in.IsString {
		panic(unsup("range over a string"))
	}
	tb := e.tb
	it, ok := e.val(st, in.Iter).(*IterV)
	if !ok {
		panic(unsup("iterator"))
	}
	e.checkGuard(st, it.m, false, e.pos(in.Pos()))
	md, mv, _ := e.mapKeys(it.mt)
	d := tb.Select(e.get(st, md), it.m)
	vis := e.get(st, it.key)
	ks := sortOf(it.mt.Key())
	// exhausted
	o := st.clone()
	k := tb.BVar("k", ks)
	body := tb.Imp(tb.And(tb.Select(d, k), tb.Select(it.start, k)), tb.Select(vis, k))
	o.assume(e, tb.Forall([]*Term{k}, [][]*Term{{tb.Select(d, k)}, {tb.Select(vis, k)}}, body))
	tt := in.Type().(*types.Tuple)
	zk := e.zero(it.mt.Key())
	zv := e.zero(it.mt.Elem())
	_ = tt
	o.top().env[in] = &TupleV{v: []Val{tb.False, zk, zv}}
	o.trace = append(o.trace, "range done")
	// one more
	kk := tb.Fresh("key", ks)
	e.symFacts(kk, it.mt.Key(), st.wm)
	st.assume(e, tb.Select(d, kk))
	st.assume(e, tb.Not(tb.Select(vis, kk)))
	e.noteMapKey(st, it.mt, it.m, kk)
	e.set(st, it.key, tb.Store(vis, kk, tb.True), nil)
	v := tb.Select(tb.Select(e.get(st, mv), it.m), kk)
	st.top().env[in] = &TupleV{v: []Val{tb.True, kk, e.fromTerm(v, it.mt.Elem())}}
	st.trace = append(st.trace, "range next")
	return []*State{o}
}
