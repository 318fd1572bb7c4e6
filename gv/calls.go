package main

// Calls: contracts, inlining, goroutines, locks, channels.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) callArgs(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fnv Val
	if c.IsInvoke() {
		fnv = e.val(st, c.Value)
	} else {
		fnv = e.val(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return fnv, args
}

// calleeKey names the callee if it is statically known.
func (e *Eng) calleeKey(c *ssa.CallCommon, fnv Val) string {
	if c.IsInvoke() {
		return objKey(c.Method)
	}
	if cl, ok := fnv.(*CloV); ok {
		return e.w.alias(funcKey(cl.fn))
	}
	return ""
}

// call performs a call; results are bound to instr (nil: discarded).
func (e *Eng) call(st *State, c *ssa.CallCommon, fnv Val, args []Val, instr *ssa.Call, pos string, deferredCall bool) []*State {
	if c.IsInvoke() {
		recv := e.toTerm(fnv)
		tag := e.tb.IfTag(recv)
		if id, ok := tag.isInt(); ok && id != 0 {
			if t := e.w.tagType(id); t != nil {
				fn := e.w.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
				if fn != nil {
					rv := e.unbox(st, recv, t)
					return e.callFn(st, fn, nil, append([]Val{rv}, args...), instr, pos)
				}
			}
		}
		key := e.w.alias(objKey(c.Method))
		e.oblige(st, "nil", "interface value is not nil", e.safety(), e.tb.Not(e.tb.Eq(tag, e.tb.Int(0))), pos)
		all := append([]Val{recv}, args...)
		ts := []types.Type{c.Value.Type()}
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		return e.extern(st, key, c.Method.Type().(*types.Signature), all, ts, instr, pos)
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		e.builtinCall(st, f.Name(), c, args, instr, pos)
		return nil
	case *CloV:
		return e.callFn(st, f.fn, f.bind, args, instr, pos)
	case *Term:
		if cl, ok := e.funRefs[f]; ok {
			return e.callFn(st, cl.fn, cl.bind, args, instr, pos)
		}
		// unknown function value: context.CancelFunc and the like
		key := e.w.alias("fn." + typeName(c.Value.Type()))
		if e.w.contractFor(key) != nil {
			ts := []types.Type{}
			for _, a := range c.Args {
				ts = append(ts, a.Type())
			}
			return e.extern(st, key, c.Signature(), args, ts, instr, pos)
		}
		panic(unsup("call of an unknown function value of type %s at %s", c.Value.Type(), pos))
	}
	panic(unsup("call of %T at %s", fnv, pos))
}

func sigTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	if r := sig.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (e *Eng) callFn(st *State, fn *ssa.Function, bind []Val, args []Val, instr *ssa.Call, pos string) []*State {
	key := e.w.alias(funcKey(fn))
	if strings.HasSuffix(fn.Name(), "$bound") && len(fn.Blocks) > 0 { // a method value: the receiver is bound
		e.push(st, fn, bind, args, instr)
		return nil
	}
	if fn.Synthetic == "" || fn.Object() != nil {
		if con := e.w.contractFor(key); con != nil && !con.inline {
			return e.extern(st, key, fn.Signature, args, sigTypes(fn.Signature), instr, pos)
		}
	}
	if e.special(st, key, fn.Signature, args, instr, pos) {
		return nil
	}
	if more, ok := e.specialFork(st, key, fn, args, instr, pos); ok {
		return more
	}
	if m := e.w.models[key]; m != nil && m != fn {
		e.siteCheck(st, key, args, sigTypes(fn.Signature), pos)
		e.usedExt["model of "+key] = true
		e.push(st, m, nil, args, instr)
		return nil
	}
	inRepo := e.w.inRepo(fn)
	if !inRepo && fn.Synthetic == "" {
		return e.extern(st, key, fn.Signature, args, sigTypes(fn.Signature), instr, pos)
	}
	if len(fn.Blocks) == 0 {
		return e.extern(st, key, fn.Signature, args, sigTypes(fn.Signature), instr, pos)
	}
	depth := 0
	for _, f := range st.frames {
		if f.fn == fn {
			panic(unsup("recursive call of %s", key))
		}
		depth++
	}
	if depth > 14 {
		panic(unsup("inlining too deep at %s", key))
	}
	e.siteCheck(st, key, args, sigTypes(fn.Signature), pos)
	if fn.Synthetic == "" {
		e.inlined[key] = true
	}
	e.push(st, fn, bind, args, instr)
	return nil
}

func (e *Eng) push(st *State, fn *ssa.Function, bind []Val, args []Val, instr *ssa.Call) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, call: instr}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = bind[i]
	}
	f.block = fn.Blocks[0]
	st.frames = append(st.frames, f)
	li := e.w.loopsOf(fn)
	if li.headers[fn.Blocks[0]] != nil {
		panic(unsup("loop at function entry"))
	}
	return f
}

// siteCheck evaluates the root contract's callsite clauses for a callee.
func (e *Eng) siteCheck(st *State, key string, args []Val, ts []types.Type, pos string) {
	if e.con == nil {
		return
	}
	for _, cs := range e.con.callsites {
		if e.w.alias(cs.callee) != key {
			continue
		}
		if e.quiet == 0 {
			e.siteHits[cs]++
		}
		c := e.rootCtx(st)
		c.n = st.spawnN
		if n := len(st.loops); n > 0 {
			c.n = st.loops[n-1].n
		}
		for i, p := range cs.params {
			if p != "_" && i < len(args) {
				c.vars[p] = SV{v: args[i], t: goTy(ts[i])}
			}
		}
		e.oblige(st, "callsite", key+": "+cs.c.text, cs.c.labels, c.boolean(cs.c.e), pos)
	}
}

// siteAfter runs the root contract's ghost code attached to calls of a callee.
func (e *Eng) siteAfter(st *State, key string, sig *types.Signature, args []Val, ts []types.Type, res []Val) {
	if e.con == nil {
		return
	}
	for _, a := range e.con.afters {
		if e.w.alias(a.callee) != key {
			continue
		}
		c := e.rootCtx(st)
		c.old = copyHeap(st.heap)
		c.owm = st.wm
		for i, p := range a.params {
			if p != "_" && i < len(args) {
				c.vars[p] = SV{v: args[i], t: goTy(ts[i])}
			}
		}
		for i, p := range a.results {
			if p != "_" && i < len(res) {
				c.vars[p] = SV{v: res[i], t: goTy(sig.Results().At(i).Type())}
			}
		}
		for _, m := range a.mods {
			e.havocItem(st, c.inHeapOld(c.old), m)
		}
		for _, en := range a.ens {
			st.assume(e, c.boolean(en.e))
		}
	}
}

// rootCtx evaluates formulas of the root contract in the current state.
func (e *Eng) rootCtx(st *State) *ECtx {
	c := &ECtx{e: e, st: st, vars: map[string]SV{}, old: e.entry, owm: e.wm0}
	if e.con != nil {
		c.pkg = e.con.pkg
	}
	for k, v := range e.params {
		c.vars[k] = v
	}
	if n := len(st.held); n > 0 {
		c.acq = st.held[n-1].acq
	} else if h, ok := st.last["$acq"]; ok {
		c.acq = h
	} else {
		c.acq = e.entry
	}
	return c
}

var freshPkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "hex": true, "unicode": true, "fmt": true, "errors": true,
	"time": true, "context": true, "log": true, "math": true, "utf8": true, "mime": true, "bytes": true, "url": true, "regexp": true, "error": true, "base64": true, "slices": false}

var denyFns = map[string]bool{"fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, "fmt.Scan": true, "errors.As": true, "fmt.Sscanf": true, "fmt.Sscan": true}

// extern applies a contract, a built-in meaning, or the default for functions without a body here.
func (e *Eng) extern(st *State, key string, sig *types.Signature, args []Val, ts []types.Type, instr *ssa.Call, pos string) []*State {
	e.siteCheck(st, key, args, ts, pos)
	if con := e.w.contractFor(key); con != nil && !con.inline {
		res := e.applyContract(st, con, key, sig, args, ts, pos)
		e.siteAfter(st, key, sig, args, ts, res)
		e.bind(st, instr, res)
		return nil
	}
	if e.special(st, key, sig, args, instr, pos) {
		return nil
	}
	if d, ok := e.w.sp.pureExt[key]; ok {
		e.usedExt["pure "+key] = true
		rt := e.w.parseType(d.res, d.pkg)
		var as []*Term
		for _, a := range args {
			as = append(as, e.toTerm(a))
		}
		r := e.tb.App("L.F."+d.name, rt.sort, as...)
		if sig.Results().Len() > 0 {
			st.assume(e, e.wf(r, sig.Results().At(0).Type(), st.wm))
		}
		e.bind(st, instr, []Val{r})
		return nil
	}
	if res, ok := e.pureCall(st, key, sig, args, pos); ok {
		e.usedExt["built-in "+key] = true
		e.bind(st, instr, res)
		return nil
	}
	pk := key
	if i := strings.IndexByte(key, '.'); i >= 0 {
		pk = key[:i]
	}
	if !freshPkgs[pk] || denyFns[key] {
		panic(unsup("no contract for %s called at %s", key, pos))
	}
	e.usedExt["unconstrained "+key] = true
	st.newBase(e)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, e.freshVal(st, "r."+key, sig.Results().At(i).Type()))
	}
	e.bind(st, instr, res)
	return nil
}

// applyContract replaces a call by the callee's contract.
func (e *Eng) applyContract(st *State, con *Contract, key string, sig *types.Signature, args []Val, ts []types.Type, pos string) []Val {
	tb := e.tb
	if con.extern {
		e.usedExt["contract "+key] = true
	} else {
		e.usedCon[key] = true
	}
	c := &ECtx{e: e, st: st, vars: map[string]SV{}, pkg: con.pkg}
	ri := 0
	for i, p := range con.params {
		if i >= len(args) {
			panic(specErr{con.pos + ": contract of " + key + " has too many parameters"})
		}
		v := args[i]
		t := ts[i]
		if i < len(con.ptypes) && con.ptypes[i] != "" {
			nt := e.w.parseType(con.ptypes[i], con.pkg)
			if sortIsIface(t) && !sortIsIface(nt.t) {
				it := e.toTerm(v)
				e.oblige(st, "requires", key+": dynamic type of "+p+" is "+con.ptypes[i], e.safety(), tb.Eq(tb.IfTag(it), tb.Int(e.tag(typeName(nt.t)))), pos)
				v = e.unbox(st, it, nt.t)
				t = nt.t
			}
		}
		c.vars[p] = SV{v: v, t: goTy(t)}
		if _, ok := under(t).(*types.Pointer); ok && !con.nilable[p] {
			if tv, ok := v.(*Term); ok {
				e.oblige(st, "requires", key+": "+p+" is not nil", e.safety(), tb.Not(tb.Eq(tv, tb.Int(0))), pos)
			}
		}
		if _, ok := under(t).(*types.Signature); ok {
			if tv, isT := v.(*Term); isT && !con.nilable[p] {
				e.oblige(st, "requires", key+": "+p+" is not nil", e.safety(), tb.Not(tb.Eq(tv, tb.Int(0))), pos)
			}
		}
		ri++
	}
	for _, r := range con.requires {
		e.oblige(st, "requires", key+": "+clauseName(r), e.propLabel(), c.boolean(r.e), pos)
	}
	for _, h := range con.holds {
		d, ref := e.lockOf(c, h)
		e.oblige(st, "lock", key+": lock "+d.typ+"."+d.field+" is held", d.labels, e.heldTerm(st, d, ref, true), pos)
	}
	for _, h := range con.rholds {
		d, ref := e.lockOf(c, h)
		e.oblige(st, "lock", key+": lock "+d.typ+"."+d.field+" is held", d.labels, e.heldTerm(st, d, ref, false), pos)
	}
	old := copyHeap(st.heap)
	owm := st.wm
	st.newBase(e)
	c.old, c.owm = old, owm
	for _, h := range con.acquires {
		d, ref := e.lockOf(c, h)
		e.lockOrder(st, d, ref, pos)
		e.havocGuards(st, d, ref)
		e.assumeInvs(st, d, ref, nil)
		e.assumeRely(st, d, ref, old)
		st.noteLock()
		c.acq = copyHeap(st.heap)
		st.acqs = append(st.acqs[:len(st.acqs):len(st.acqs)], &heldLock{decl: d, ref: ref, acq: c.acq})
		e.havocGuards(st, d, ref)
		for _, g := range d.guards { // what was guarded when the lock was taken
			if g.kind == "contents" {
				e.havocItem(st, e.lockCtx(st, d, ref).inHeapOld(c.acq), g)
			}
		}
		e.assumeInvs(st, d, ref, c.acq)
		st.acqs = append(st.acqs, &heldLock{decl: d, ref: ref, acq: copyHeap(st.heap)})
	}
	if len(con.acquires) > 0 {
		st.last["$acq"] = c.acq
	}
	for _, m := range con.modifies {
		e.havocItem(st, c.inHeapOld(old), m)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := e.freshVal(st, "r."+key, rt)
		if i < len(con.ptypes2()) {
			_ = v
		}
		res = append(res, v)
		if i < len(con.results) {
			c.vars[con.results[i]] = SV{v: v, t: goTy(rt)}
		}
	}
	if con.spawn != "" {
		v, ok := c.vars[con.spawn]
		if !ok {
			panic(specErr{con.pos + ": spawn parameter"})
		}
		e.spawnVal(st, v.v, pos)
	}
	if d, ok := e.w.sp.pureExt[key]; ok && len(res) == 1 {
		var as []*Term
		for _, a := range args {
			as = append(as, e.toTerm(a))
		}
		if r, ok := res[0].(*Term); ok {
			st.assume(e, tb.Eq(r, tb.App("L.F."+d.name, r.sort, as...)))
		}
	}
	for _, en := range con.ensures {
		if e.omitted(en) {
			continue
		}
		st.assume(e, c.boolean(en.e))
	}
	for i, v := range res {
		if t, ok := v.(*Term); ok {
			e.contentsExist(st, t, sig.Results().At(i).Type())
		}
	}
	if con.effect && e.con != nil && !e.crashOff {
		for _, ci := range e.con.crash {
			e.oblige(st, "crash-invariant", clauseName(ci)+" after "+key, ci.labels, e.rootCtx(st).boolean(ci.e), pos)
		}
	}
	return res
}

// omitted reports whether the checked property does without the clause.
func (e *Eng) omitted(c *Clause) bool {
	ps := e.w.sp.props[e.w.prop]
	if ps == nil || len(ps.omits) == 0 || len(c.labels) == 0 {
		return false
	}
	for _, l := range c.labels {
		if !ps.omits[l] {
			return false
		}
	}
	return true
}

func (c *Contract) ptypes2() []string { return nil }

func (c *ECtx) inHeapOld(h map[string]*Term) *ECtx { return c.inHeap(copyHeap(h)) }

func copyHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

func clauseName(c *Clause) string {
	if c.name != "" {
		return c.name
	}
	t := c.text
	if len(t) > 90 {
		t = t[:90] + "..."
	}
	return t
}

// havocItem forgets a modified location; expressions are evaluated in ctx (the old state).
func (e *Eng) havocItem(st *State, c *ECtx, m ModItem) {
	tb := e.tb
	switch m.kind {
	case "ghost":
		g := e.w.sp.ghosts[m.name]
		if g == nil {
			panic(specErr{"unknown ghost " + m.name})
		}
		k := e.ghostKey(g)
		e.set(st, k, e.newSym(k, st.wm), nil)
	case "gfield":
		g := e.w.sp.ghosts[m.name]
		if g == nil {
			panic(specErr{"unknown ghost " + m.name})
		}
		k := e.ghostKey(g)
		sv := c.eval(m.e)
		r := c.term(m.e, sv)
		if r.sort == SIface {
			r = tb.IfVal(r)
		}
		if r.sort == SSlice {
			r = tb.SlArr(r)
		}
		_, vs, _ := arrParts(e.keys[k].sort)
		e.set(st, k, tb.Store(e.get(st, k), r, tb.Fresh("g."+m.name, vs)), r)
	case "allg":
		g := e.w.sp.ghosts[m.name]
		k := e.ghostKey(g)
		e.set(st, k, e.newSym(k, st.wm), nil)
	case "all":
		k, lf := e.fieldKey(m.name, c.pkg)
		_ = lf
		e.set(st, k, e.newSym(k, st.wm), nil)
	case "maps":
		mt := under(e.w.parseType(m.name, c.pkg).t).(*types.Map)
		a, b, l := e.mapKeys(mt)
		for _, k := range []string{a, b, l} {
			e.get(st, k)
			e.set(st, k, e.newSym(k, st.wm), nil)
		}
	case "mem":
		t := e.w.parseType(m.name, c.pkg).t
		for _, lf := range flatten(t) {
			k := e.mkey(t, lf.path, lf.typ)
			e.get(st, k)
			e.set(st, k, e.newSym(k, st.wm), nil)
		}
	case "contents":
		sv := c.eval(m.e)
		r := c.term(m.e, sv)
		switch u := under(sv.t.t).(type) {
		case *types.Map:
			a, b, l := e.mapKeys(u)
			for _, k := range []string{a, b, l} {
				e.havocInner(st, k, r)
			}
		case *types.Slice:
			for _, lf := range flatten(u.Elem()) {
				e.havocInner(st, e.mkey(u.Elem(), lf.path, lf.typ), tb.SlArr(r))
			}
		default:
			panic(specErr{m.e.pos + ": contents of " + typeName(sv.t.t)})
		}
	case "field":
		if x := m.e; x.op == "call" && x.args[0].op == "id" && x.args[0].name == "deref" && len(x.args) == 2 {
			v := c.eval(x.args[1])
			pt, ok := under(v.t.t).(*types.Pointer)
			if !ok || isStruct(pt.Elem()) {
				panic(unsup("modifies deref of %s", typeName(v.t.t)))
			}
			l := e.locOf(v.v, pt.Elem())
			n := tb.Fresh("m.deref", sortOf(l.typ))
			e.symFacts(n, l.typ, st.wm)
			e.storeLeaf(st, l, leaf{"", l.typ}, n)
			return
		}
		if m.e.op != "sel" {
			panic(specErr{m.e.pos + ": modifies needs a field"})
		}
		base := c.eval(m.e.args[0])
		l := c.fieldLoc(m.e, base, m.e.name)
		for _, lf := range flatten(l.typ) {
			k := e.okey(l.root, joinPath(l.path, lf.path), lf.typ)
			v := tb.Fresh("m."+k, sortOf(lf.typ))
			e.symFacts(v, lf.typ, st.wm)
			e.set(st, k, tb.Store(e.get(st, k), l.ref, v), l.ref)
		}
	}
}

// contentsExist assumes that what a map or slice refers to exists by now.
func (e *Eng) contentsExist(st *State, v *Term, t types.Type) {
	tb := e.tb
	refs := func(t types.Type) bool { return isRefType(t) || sortOf(t) == SSlice }
	switch u := under(t).(type) {
	case *types.Map:
		if !refs(u.Elem()) {
			return
		}
		_, mv, _ := e.mapKeys(u)
		k := tb.BVar("k", sortOf(u.Key()))
		el := tb.Select(tb.Select(e.get(st, mv), v), k)
		st.assume(e, tb.Forall([]*Term{k}, [][]*Term{{el}}, e.wf(el, u.Elem(), st.wm)))
	case *types.Slice:
		if !refs(u.Elem()) {
			return
		}
		i := tb.BVar("i", SInt)
		el := tb.Select(tb.Select(e.get(st, e.mkey(u.Elem(), "", u.Elem())), tb.SlArr(v)), i)
		st.assume(e, tb.Forall([]*Term{i}, [][]*Term{{el}}, e.wf(el, u.Elem(), st.wm)))
	}
}

func (e *Eng) havocInner(st *State, k string, r *Term) {
	tb := e.tb
	m := e.keys[k]
	cur := e.get(st, k)
	_, vs, _ := arrParts(m.sort)
	v := tb.Fresh("c."+k, vs)
	if m.typ != nil {
		if m.depth == 2 {
			typ, wm := m.typ, st.wm
			sm := &symMeta{d: 1, local: true, wm: wm, fact: func(x *Term) *Term { return e.wf(x, typ, wm) }}
			switch under(typ).(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface:
				sm.ub = wm
			}
			tb.meta[v] = sm
		} else {
			e.symFacts(v, m.typ, st.wm)
		}
	}
	e.set(st, k, tb.Store(cur, r, v), r)
}

// fieldKey resolves "T.f" of package pkg (or "p.T.f") to a heap key.
func (e *Eng) fieldKey(name, pkg string) (string, types.Type) {
	ps := strings.Split(name, ".")
	tn := ps[0]
	rest := ps[1:]
	if len(ps) > 2 && e.w.pkgs[ps[0]] != nil {
		tn = ps[0] + "." + ps[1]
		rest = ps[2:]
	}
	t := e.w.parseType(tn, pkg).t
	for _, lf := range flatten(t) {
		if lf.path == strings.Join(rest, ".") {
			return e.okey(typeName(t), lf.path, lf.typ), lf.typ
		}
	}
	panic(specErr{"unknown field " + name})
}

// fieldLoc gives the location of a (promoted) field.
func (c *ECtx) fieldLoc(x *Expr, a SV, name string) *Loc {
	t := a.t.t
	var pkg *types.Package
	if n := namedOf(t); n != nil {
		pkg = n.Obj().Pkg()
	}
	obj, idx := c.lookupField(t, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		c.fail(x, "no field %s", name)
	}
	v := a.v
	var l *Loc
	for _, i := range idx {
		if l == nil {
			pt, ok := under(t).(*types.Pointer)
			if !ok {
				if ll, isL := v.(*Loc); isL {
					l = ll
				} else {
					c.fail(x, "not addressable")
				}
			} else {
				l = c.e.locOf(v, pt.Elem())
				t = pt.Elem()
			}
		} else if pt, ok := under(t).(*types.Pointer); ok {
			l = c.e.locOf(c.e.load(c.st, l), pt.Elem())
			t = pt.Elem()
		}
		f := under(t).(*types.Struct).Field(i)
		n := *l
		n.path = joinPath(l.path, f.Name())
		n.typ = f.Type()
		l = &n
		t = f.Type()
	}
	return l
}

// ---------------------------------------------------------------- locks

func (w *World) lockDecl(root, path string) *LockDecl {
	for _, d := range w.sp.locks {
		n := d.typ
		if !strings.Contains(n, ".") {
			n = d.pkg + "." + n
		}
		if n == root && d.field == path {
			return d
		}
	}
	return nil
}

func (e *Eng) lockOf(c *ECtx, x *Expr) (*LockDecl, *Term) {
	if x.op != "sel" {
		panic(specErr{x.pos + ": lock expression"})
	}
	l := c.fieldLoc(x, c.eval(x.args[0]), x.name)
	d := e.w.lockDecl(l.root, l.path)
	if d == nil {
		panic(specErr{x.pos + ": no lock declaration for " + l.root + "." + l.path})
	}
	return d, l.ref
}

func (e *Eng) heldTerm(st *State, d *LockDecl, ref *Term, write bool) *Term {
	var ds []*Term
	for _, h := range st.held {
		if h.decl == d && !(write && h.read) {
			ds = append(ds, e.tb.Eq(h.ref, ref))
		}
	}
	return e.tb.Or(ds...)
}

func (e *Eng) lockOrder(st *State, d *LockDecl, ref *Term, pos string) {
	for _, h := range st.held {
		ok := e.tb.True
		switch {
		case h.decl == d:
			ok = e.tb.Not(e.tb.Eq(h.ref, ref))
			e.oblige(st, "lock", "lock "+d.typ+"."+d.field+" is not taken twice", d.labels, ok, pos)
			if ok.op != "false" {
				e.oblige(st, "lock-order", "two locks "+d.typ+"."+d.field+" at once", d.labels, e.tb.False, pos)
			}
		case h.decl.level >= d.level:
			e.oblige(st, "lock-order", fmt.Sprintf("%s.%s is taken after %s.%s", d.typ, d.field, h.decl.typ, h.decl.field), d.labels, e.tb.False, pos)
		default:
			e.oblige(st, "lock-order", fmt.Sprintf("%s.%s may be taken while holding %s.%s", d.typ, d.field, h.decl.typ, h.decl.field), d.labels, e.tb.True, pos)
		}
	}
	if e.con != nil && !e.con.extern && len(e.con.acquires) >= 0 && e.con.hasMod {
		// locks taken by a function under contract are declared
		found := e.tb.False
		for _, x := range e.con.acquires {
			c := e.rootCtx(st).inHeap(copyHeap(e.entry))
			d2, r2 := e.lockOf(c, x)
			if d2 == d {
				found = e.tb.Or(found, e.tb.Eq(r2, ref))
			}
		}
		fresh := e.tb.Le(e.wm0, ref)
		e.oblige(st, "lock", "taking lock "+d.typ+"."+d.field+" is declared", d.labels, e.tb.Or(found, fresh), pos)
	}
}

func (e *Eng) lockCtx(st *State, d *LockDecl, ref *Term) *ECtx {
	c := &ECtx{e: e, st: st, vars: map[string]SV{}, pkg: d.pkg}
	t := e.w.parseType("*"+d.typ, d.pkg)
	c.vars["this"] = SV{v: ref, t: t}
	return c
}

func (e *Eng) havocGuards(st *State, d *LockDecl, ref *Term) {
	c := e.lockCtx(st, d, ref)
	e.assumeOwned(st, d, ref, c)
	for _, g := range d.guards {
		e.havocItem(st, c, g)
	}
	e.assumeOwned(st, d, ref, c)
}

// assumeOwned separates what the lock guards from the maps the function was given, where the contract says so.
func (e *Eng) assumeOwned(st *State, d *LockDecl, ref *Term, lc *ECtx) {
	if e.con == nil || len(e.con.owned) == 0 || e.entry == nil {
		return
	}
	for _, x := range e.con.owned {
		d2, r2 := e.lockOf(e.rootCtx(st).inHeap(copyHeap(e.entry)), x)
		if d2 != d || r2 != ref {
			continue
		}
		for _, g := range d.guards {
			if g.kind != "contents" {
				continue
			}
			v := lc.eval(g.e)
			t, ok := v.v.(*Term)
			if !ok {
				continue
			}
			for _, p := range e.params {
				if pt, ok := p.v.(*Term); ok && p.t.t != nil && types.Identical(under(p.t.t), under(v.t.t)) {
					st.assume(e, e.tb.Or(e.tb.Not(e.tb.Eq(t, pt)), e.tb.Eq(pt, e.tb.Int(0))))
				}
			}
		}
	}
}

// assumeInvs assumes what every holder of the lock established.
func (e *Eng) assumeInvs(st *State, d *LockDecl, ref *Term, old map[string]*Term) {
	c := e.lockCtx(st, d, ref)
	for _, i := range d.invs {
		if e.omitted(i) {
			continue
		}
		st.assume(e, c.boolean(i.e))
	}
	if old != nil {
		c.old, c.acq = old, old
		for _, i := range d.history {
			if e.omitted(i) {
				continue
			}
			st.assume(e, c.boolean(i.e))
		}
	}
}

// assumeRely assumes what no other thread changes between two of this thread's critical sections.
func (e *Eng) assumeRely(st *State, d *LockDecl, ref *Term, prev map[string]*Term) {
	c := e.lockCtx(st, d, ref)
	c.old, c.acq = prev, prev
	for _, r := range d.rely {
		if e.omitted(r) {
			continue
		}
		st.assume(e, c.boolean(r.e))
	}
}

func lockID(d *LockDecl, ref *Term) string { return fmt.Sprintf("%s.%s@%d", d.typ, d.field, ref.id) }

func (e *Eng) lock(st *State, l *Loc, read bool, pos string) {
	st.noteLock()
	d := e.w.lockDecl(l.root, l.path)
	if d == nil {
		panic(unsup("no declaration for lock %s.%s taken at %s", l.root, l.path, pos))
	}
	e.lockOrder(st, d, l.ref, pos)
	prev := st.last[lockID(d, l.ref)]
	if prev == nil {
		prev = e.entry
	}
	st.newBase(e)
	e.havocGuards(st, d, l.ref)
	e.assumeInvs(st, d, l.ref, nil)
	e.assumeRely(st, d, l.ref, prev)
	st.held = append(st.held, &heldLock{decl: d, ref: l.ref, read: read, acq: copyHeap(st.heap)})
	st.acqs = append(st.acqs[:len(st.acqs):len(st.acqs)], st.held[len(st.held)-1])
	st.trace = append(st.trace, pos+" lock "+d.field)
}

func (e *Eng) unlock(st *State, l *Loc, read bool, pos string) {
	d := e.w.lockDecl(l.root, l.path)
	if d == nil {
		panic(unsup("no declaration for lock %s.%s", l.root, l.path))
	}
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.decl == d && h.ref == l.ref {
			if h.read != read {
				e.oblige(st, "lock", "unlock matches the lock mode", d.labels, e.tb.False, pos)
			}
			if !read {
				e.checkInvs(st, d, l.ref, h.acq, pos)
			}
			st.held = append(append([]*heldLock{}, st.held[:i]...), st.held[i+1:]...)
			st.last[lockID(d, l.ref)] = copyHeap(st.heap)
			st.last["$acq"] = h.acq
			return
		}
	}
	e.oblige(st, "lock", "unlock of a lock that is held", d.labels, e.tb.False, pos)
	st.dead = true
}

func (e *Eng) checkInvs(st *State, d *LockDecl, ref *Term, acq map[string]*Term, pos string) {
	c := e.lockCtx(st, d, ref)
	for _, i := range d.invs {
		e.oblige(st, "lock-invariant", d.typ+"."+d.field+": "+clauseName(i), i.labels, c.boolean(i.e), pos)
	}
	c.old, c.acq = acq, acq
	for _, i := range d.history {
		e.oblige(st, "lock-history", d.typ+"."+d.field+": "+clauseName(i), i.labels, c.boolean(i.e), pos)
	}
}

// guardLoc checks that a guarded field is accessed with its lock held.
func (e *Eng) guardLoc(st *State, l *Loc, write bool, pos string) {
	if l.kind != 'o' {
		return
	}
	gs := e.w.guardOf(l.root + "." + l.path)
	for _, g := range gs {
		e.guardOblige(st, g.d, g.all, l.ref, write, l.root+"."+l.path, pos)
	}
}

func (e *Eng) guardOblige(st *State, d *LockDecl, all bool, ref *Term, write bool, what, pos string) {
	var ok *Term
	if all {
		ok = e.tb.False
		for _, h := range st.held {
			if h.decl == d && !(write && h.read) {
				ok = e.tb.True
			}
		}
	} else {
		ok = e.heldTerm(st, d, ref, write)
	}
	if ok.op != "true" && !st.shared[ref] {
		ok = e.tb.Or(ok, e.tb.Le(e.wm0, ref))
	}
	mode := "read"
	if write {
		mode = "write"
	}
	e.oblige(st, "guard", fmt.Sprintf("%s of %s happens under %s.%s", mode, what, d.typ, d.field), d.labels, ok, pos)
}

func (e *Eng) afterLoad(st *State, l *Loc, v Val) {
	t, ok := v.(*Term)
	if !ok || l.kind != 'o' {
		return
	}
	if d := e.w.contentsOf(l.root + "." + l.path); d != nil {
		e.guardTerm[t] = &guardInfo{decl: d, ref: l.ref}
	}
	if e.w.sp.nonnil[l.root+"."+l.path] {
		e.assumed["field "+l.root+"."+l.path+" of a constructed object is not nil"] = true
		if t.sort == SInt {
			st.assume(e, e.tb.Or(e.tb.Not(e.tb.Eq(t, e.tb.Int(0))), e.tb.Le(e.wm0, l.ref)))
		} else if t.sort == SIface {
			st.assume(e, e.tb.Or(e.tb.Not(e.tb.Eq(e.tb.IfTag(t), e.tb.Int(0))), e.tb.Le(e.wm0, l.ref)))
		}
	}
}

func (e *Eng) checkGuard(st *State, m *Term, write bool, pos string) {
	if g := e.guardTerm[m]; g != nil {
		e.guardOblige(st, g.decl, false, g.ref, write, "map guarded by "+g.decl.typ, pos)
	}
}

func (e *Eng) checkImmut(st *State, root, path string, ref *Term) {
	if e.w.sp.immut[root+"."+path] && e.wm0 != nil {
		e.oblige(st, "immutable", root+"."+path+" is only set while constructing", e.w.sp.immutLbl[root+"."+path], e.tb.Le(e.wm0, ref), "")
	}
}

// ---------------------------------------------------------------- goroutines

func (e *Eng) spawn(st *State, c *ssa.CallCommon, fnv Val, args []Val, pos string) {
	e.siteCheck(st, "go", nil, nil, pos)
	e.markCells(st, fnv)
	n := st.clone()
	e.forkThread(st, n, func() {
		n.frames = nil
		n.setSpawnN()
		e.callDetached(n, c, fnv, args, pos)
	})
	for _, a := range args {
		e.share(st, a)
	}
	e.share(st, fnv)
	e.siteAfter(st, "go", nil, nil, nil, nil)
}

func (e *Eng) share(st *State, v Val) {
	if st.shared == nil {
		st.shared = map[*Term]bool{}
	}
	switch v := v.(type) {
	case *Term:
		st.shared[v] = true
	case *Loc:
		if v.ref != nil {
			st.shared[v.ref] = true
		}
	case *CloV:
		for _, b := range v.bind {
			e.share(st, b)
			// a captured variable shares what it holds
			if t, ok := b.(*Term); ok {
				for k, h := range st.heap {
					m := e.keys[k]
					if m.depth == 1 && m.typ != nil && isRefType(m.typ) && strings.HasPrefix(k, "F:*") {
						x := e.tb.Select(h, t)
						if x.op != "select" {
							st.shared[x] = true
						}
					}
				}
			}
		}
	}
}

// setSpawnN remembers the iteration the spawner was in.
func (s *State) setSpawnN() {
	if n := len(s.loops); n > 0 {
		s.spawnN = s.loops[n-1].n
	}
	s.loops = nil
}

// spawnVal runs a function value as a new goroutine (its parameters are arbitrary).
func (e *Eng) spawnVal(st *State, v Val, pos string) {
	cl, ok := v.(*CloV)
	if !ok {
		if t, isT := v.(*Term); isT && e.funRefs[t] != nil {
			cl = e.funRefs[t]
		} else {
			panic(unsup("goroutine of an unknown function at %s", pos))
		}
	}
	e.markCells(st, cl)
	n := st.clone()
	e.forkThread(st, n, func() {
		n.frames = nil
		n.setSpawnN()
		var args []Val
		for _, p := range cl.fn.Params {
			v := e.freshVal(n, "arg."+p.Name(), p.Type())
			if t, ok := v.(*Term); ok && t.sort == SIface {
				e.assumed["library functions start goroutines with arguments (contexts) that are not nil"] = true
				n.assume(e, e.tb.Not(e.tb.Eq(e.tb.IfTag(t), e.tb.Int(0))))
			}
			args = append(args, v)
		}
		e.stubFrame(n)
		e.callFn(n, cl.fn, cl.bind, args, nil, pos)
		if f := n.top(); f.fn == cl.fn && f.onRet == nil && cl.fn.Signature.Results().Len() == 1 {
			f.onRet = func(e *Eng, st *State, res []Val) {
				st.threadRet, st.threadRetT = res[0], cl.fn.Signature.Results().At(0).Type()
			}
		}
	})
	e.share(st, v)
}

func (e *Eng) callDetached(n *State, c *ssa.CallCommon, fnv Val, args []Val, pos string) {
	e.stubFrame(n)
	e.call(n, c, fnv, args, nil, pos, false)
}

// stubFrame is an empty activation that ends the thread.
func (e *Eng) stubFrame(n *State) {
	f := &Frame{fn: e.fn, env: map[ssa.Value]Val{}}
	f.block = e.w.stub()
	f.onRet = func(e *Eng, st *State, res []Val) {
		for _, h := range st.held {
			e.oblige(st, "lock", "goroutine releases "+h.decl.typ+"."+h.decl.field, h.decl.labels, e.tb.False, "")
		}
		if e.con != nil {
			for _, x := range e.con.onexit {
				c := e.rootCtx(st)
				c.n = st.spawnN
				if st.threadRet == nil {
					st.threadRetT = types.Universe.Lookup("error").Type()
					st.threadRet = e.freshVal(st, "ret", st.threadRetT)
				}
				c.vars["threadresult"] = SV{v: st.threadRet, t: goTy(st.threadRetT)}
				e.oblige(st, "goroutine", "at the end of a goroutine: "+clauseName(x), x.labels, c.boolean(x.e), "")
			}
		}
	}
	n.frames = append(n.frames, f)
}

// forkThread explores a new goroutine: it starts without locks and its effects are not seen by the spawner.
func (e *Eng) forkThread(st, n *State, start func()) {
	e.threadInit(st, n)
	if e.quiet > 0 {
		return
	}
	n.held = nil
	n.pend = nil
	crash := e.crashOff
	e.crashOff = true
	start()
	e.explore([]*State{n})
	e.crashOff = crash
}

// threadInit resets the thread-local ghosts of a new thread, except those its creator gives away.
func (e *Eng) threadInit(st, n *State) {
	for name, g := range e.w.sp.ghosts {
		if !strings.HasPrefix(name, "t_") {
			continue
		}
		k := e.ghostKey(g)
		if e.con != nil && e.con.gives[name] {
			n.heap[k] = e.get(st, k)
			e.set(st, k, e.zeroSort(e.keys[k].sort), nil)
		} else {
			n.heap[k] = e.zeroSort(e.keys[k].sort)
		}
		if strings.HasPrefix(name, "t_up_") { // a new thread starts with a copy of its creator's
			n.heap[k] = e.get(st, k)
		}
	}
}

// ---------------------------------------------------------------- channels

func chanElem(t types.Type) string {
	el := under(t).(*types.Chan).Elem()
	switch x := under(el).(type) {
	case *types.Struct:
		if x.NumFields() == 0 {
			return "unit"
		}
	case *types.Pointer:
		el = x.Elem()
	}
	n := typeName(el)
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (e *Eng) chanContract(t types.Type, op string) *Contract {
	return e.w.contractFor("chan." + chanElem(t) + "." + op)
}

func (e *Eng) chanInit(st *State, ref, n *Term, in *ssa.MakeChan) {
	if con := e.chanContract(in.Type(), "make"); con != nil {
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(), types.NewTuple(), false)
		e.applyContract(st, con, con.key, sig, []Val{ref, n}, []types.Type{in.Type(), types.Typ[types.Int]}, e.pos(in.Pos()))
		e.siteAfter(st, con.key, sig, []Val{ref, n}, []types.Type{in.Type(), types.Typ[types.Int]}, nil)
	}
}

func (e *Eng) send(st *State, ch *Term, t types.Type, v Val, pos string) {
	if con := e.chanContract(t, "send"); con != nil {
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(), types.NewTuple(), false)
		el := under(t).(*types.Chan).Elem()
		e.siteCheck(st, con.key, []Val{ch, v}, []types.Type{t, el}, pos)
		e.applyContract(st, con, con.key, sig, []Val{ch, v}, []types.Type{t, el}, pos)
		e.siteAfter(st, con.key, sig, []Val{ch, v}, []types.Type{t, el}, nil)
	}
}

// recvVal performs a receive and returns value and ok.
func (e *Eng) recvVal(st *State, ch *Term, t types.Type, pos string, commaOk bool) (Val, Val) {
	el := under(t).(*types.Chan).Elem()
	for _, h := range st.held {
		if len(h.decl.labels) > 0 {
			e.oblige(st, "lock", "no receive while holding "+h.decl.typ+"."+h.decl.field, h.decl.labels, e.tb.False, pos)
		}
	}
	if con := e.chanContract(t, "recv"); con != nil {
		vs := types.NewTuple(types.NewVar(0, nil, "v", el), types.NewVar(0, nil, "ok", types.Typ[types.Bool]))
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(), vs, false)
		e.siteCheck(st, con.key, []Val{ch}, []types.Type{t}, pos)
		r := e.applyContract(st, con, con.key, sig, []Val{ch}, []types.Type{t}, pos)
		e.siteAfter(st, con.key, sig, []Val{ch}, []types.Type{t}, r)
		return r[0], r[1]
	}
	st.newBase(e)
	return e.freshVal(st, "recv", el), e.tb.Fresh("recvok", SBool)
}

func (e *Eng) recv(st *State, in *ssa.UnOp) []*State {
	e.oblige(st, "nil", "receive from a channel that is not nil", e.safety(), e.tb.Not(e.tb.Eq(e.term(st, in.X), e.tb.Int(0))), e.pos(in.Pos()))
	v, ok := e.recvVal(st, e.term(st, in.X), in.X.Type(), e.pos(in.Pos()), in.CommaOk)
	if in.CommaOk {
		st.top().env[in] = &TupleV{v: []Val{v, ok}}
	} else {
		st.top().env[in] = v
	}
	return nil
}

func (e *Eng) selectStmt(st *State, in *ssa.Select) []*State {
	var out []*State
	pos := e.pos(in.Pos())
	mk := func(s *State, idx int) {
		tv := &TupleV{v: []Val{e.tb.Int(int64(idx)), Val(e.tb.False)}}
		s.trace = append(s.trace, fmt.Sprintf("%s select case %d", pos, idx))
		for i, c := range in.States {
			if c.Dir == types.SendOnly {
				if i == idx {
					e.send(s, e.term(s, c.Chan), c.Chan.Type(), e.val(s, c.Send), pos)
				}
				continue
			}
			if i == idx {
				v, ok := e.recvVal(s, e.term(s, c.Chan), c.Chan.Type(), pos, true)
				tv.v[1] = ok
				tv.v = append(tv.v, v)
			} else {
				tv.v = append(tv.v, e.zero(under(c.Chan.Type()).(*types.Chan).Elem()))
			}
		}
		s.top().env[in] = tv
	}
	base := st.clone()
	first := true
	n := len(in.States)
	for i := 0; i < n; i++ {
		s := st
		if !first {
			s = base.clone()
			out = append(out, s)
		}
		first = false
		mk(s, i)
	}
	if !in.Blocking {
		s := st
		if !first {
			s = base.clone()
			out = append(out, s)
		}
		// default
		tv := &TupleV{v: []Val{e.tb.Int(-1), Val(e.tb.False)}}
		for _, c := range in.States {
			if c.Dir != types.SendOnly {
				tv.v = append(tv.v, e.zero(under(c.Chan.Type()).(*types.Chan).Elem()))
			}
		}
		s.trace = append(s.trace, pos+" select default")
		s.top().env[in] = tv
	}
	return out
}
