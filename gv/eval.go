package main

// Evaluation of specification expressions in a state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// STy is a specification type.
type STy struct {
	t    types.Type
	k, v *STy // ghost array
	sort Sort
}

// SV is a specification value.
type SV struct {
	v   Val
	t   *STy
	nil bool
}

var (
	tyInt   = &STy{t: types.Typ[types.Int], sort: SInt}
	tyBool  = &STy{t: types.Typ[types.Bool], sort: SBool}
	tyStr   = &STy{t: types.Typ[types.String], sort: SStr}
	tyBytes = &STy{sort: SBytes}
	tyList  = &STy{sort: SList}
)

func goTy(t types.Type) *STy {
	s := Sort("")
	if !isStruct(t) {
		if _, ok := under(t).(*types.Tuple); !ok {
			s = sortOf(t)
		}
	}
	return &STy{t: t, sort: s}
}

// ECtx is an evaluation context.
type ECtx struct {
	e     *Eng
	st    *State
	vars  map[string]SV
	old   map[string]*Term
	acq   map[string]*Term
	pre   map[string]*Term
	pkg   string
	owm   *Term // watermark of the old state (for fresh)
	n     *Term
	outn  *Term
	outwm *Term
	vis   *SV
	sumc  int
}

func (c *ECtx) child() *ECtx {
	n := *c
	n.vars = map[string]SV{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	return &n
}

func (c *ECtx) inHeap(h map[string]*Term) *ECtx {
	n := *c
	s := *c.st
	s.heap = h
	s.loops = nil
	n.st = &s
	return &n
}

type specErr struct{ msg string }

func (c *ECtx) fail(x *Expr, f string, a ...interface{}) {
	panic(specErr{x.pos + ": " + fmt.Sprintf(f, a...)})
}

// boolean evaluates a formula.
func (c *ECtx) boolean(x *Expr) *Term {
	v := c.eval(x)
	t := c.term(x, v)
	if t.sort != SBool {
		c.fail(x, "not a formula")
	}
	return t
}

func (c *ECtx) term(x *Expr, v SV) *Term {
	if v.nil {
		return c.e.tb.Int(0)
	}
	switch y := v.v.(type) {
	case *Term:
		return y
	case *Loc:
		if y.kind == 'o' && y.path == "" {
			return y.ref
		}
		if isStruct(y.typ) {
			c.fail(x, "struct value used as a scalar")
		}
		return c.e.toTerm(c.e.load(c.st, y))
	case *CloV:
		return c.e.toTerm(y)
	}
	c.fail(x, "scalar expected, got %T", v.v)
	return nil
}

// coerce nil to the sort of the other operand.
func (c *ECtx) nilOf(t *STy) *Term {
	tb := c.e.tb
	if t == nil {
		return tb.Int(0)
	}
	switch t.sort {
	case SSlice:
		return tb.NilSlice()
	case SIface:
		return tb.NilIface()
	}
	return tb.Int(0)
}

func (c *ECtx) eval(x *Expr) SV {
	tb := c.e.tb
	switch x.op {
	case "int":
		return SV{v: tb.BigInt(x.name), t: tyInt}
	case "str":
		return SV{v: tb.Str(x.name), t: tyStr}
	case "id":
		return c.ident(x)
	case "un":
		if x.name == "!" {
			return SV{v: tb.Not(c.boolean(x.args[0])), t: tyBool}
		}
		a := c.eval(x.args[0])
		return SV{v: tb.Sub(tb.Int(0), c.term(x, a)), t: tyInt}
	case "bin":
		return c.bin(x)
	case "sel":
		return c.sel(x)
	case "index":
		return c.index(x)
	case "update":
		a := c.eval(x.args[0])
		if a.t == nil || a.t.k == nil {
			c.fail(x, "update of a non-ghost value")
		}
		k := c.coerce(x, c.eval(x.args[1]), a.t.k)
		v := c.coerce(x, c.eval(x.args[2]), a.t.v)
		return SV{v: tb.Store(c.term(x, a), k, v), t: a.t}
	case "call":
		return c.call(x)
	case "forall", "exists":
		n := c.child()
		var bv []*Term
		for _, v := range x.vars {
			t := c.e.w.parseType(v.typ, c.pkg)
			b := tb.BVar(v.name, t.sort)
			bv = append(bv, b)
			n.vars[v.name] = SV{v: b, t: t}
		}
		body := n.boolean(x.args[0])
		var pats [][]*Term
		for _, ps := range x.pats {
			var p []*Term
			for _, y := range ps {
				p = append(p, n.term(y, n.eval(y)))
			}
			pats = append(pats, p)
		}
		if x.op == "forall" {
			return SV{v: tb.Forall(bv, pats, body), t: tyBool}
		}
		return SV{v: tb.Exists(bv, pats, body), t: tyBool}
	}
	c.fail(x, "expression %s", x.op)
	return SV{}
}

func (c *ECtx) coerce(x *Expr, v SV, t *STy) *Term {
	if v.nil {
		return c.nilOf(t)
	}
	if t != nil && t.sort == SIface && v.t != nil && v.t.sort != SIface && v.t.t != nil {
		return c.e.makeIface(c.st, v.v, v.t.t)
	}
	return c.term(x, v)
}

func (c *ECtx) ident(x *Expr) SV {
	tb := c.e.tb
	switch x.name {
	case "true":
		return SV{v: tb.True, t: tyBool}
	case "false":
		return SV{v: tb.False, t: tyBool}
	case "nil":
		return SV{nil: true}
	case "$n":
		if c.n == nil {
			c.fail(x, "$n outside a loop")
		}
		return SV{v: c.n, t: tyInt}
	case "$o":
		if c.outn == nil {
			c.fail(x, "$o outside a nested loop")
		}
		return SV{v: c.outn, t: tyInt}
	case "$visited":
		if c.vis == nil {
			c.fail(x, "$visited outside a map loop")
		}
		return *c.vis
	case "$wm":
		return SV{v: c.st.wm, t: tyInt}
	}
	if v, ok := c.vars[x.name]; ok {
		return v
	}
	if g, ok := c.e.w.sp.ghosts[x.name]; ok && !g.field {
		t := c.e.w.parseType(g.typ, g.pkg)
		return SV{v: c.e.get(c.st, c.e.ghostKey(g)), t: t}
	}
	if f, ok := c.e.w.sp.funcs[x.name]; ok && len(f.params) == 0 {
		return c.apply(x, f, nil)
	}
	if v, ok := c.pkgObj(x, c.pkg, x.name); ok {
		return v
	}
	c.fail(x, "unknown name %s", x.name)
	return SV{}
}

func (e *Eng) ghostKey(g *GhostDecl) string {
	t := e.w.parseType(g.typ, g.pkg)
	if g.field {
		k := "XF:" + g.name
		e.declKey(k, keyMeta{sort: ArrSort(SInt, t.sort), gh: g})
		return k
	}
	k := "X:" + g.name
	m := keyMeta{sort: t.sort, gh: g}
	if t.t != nil && isRefType(t.t) {
		m.typ = t.t
	}
	e.declKey(k, m)
	return k
}

func (c *ECtx) pkgObj(x *Expr, pkg, name string) (SV, bool) {
	p := c.e.w.pkgs[pkg]
	if p == nil {
		return SV{}, false
	}
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			return SV{v: c.e.tb.BigInt(o.Val().ExactString()), t: tyInt}, true
		case constant.String:
			return SV{v: c.e.tb.Str(constant.StringVal(o.Val())), t: tyStr}, true
		case constant.Bool:
			return SV{v: c.e.tb.Bool(constant.BoolVal(o.Val())), t: tyBool}, true
		}
	case *types.Var:
		return SV{v: c.e.globalTerm(pkg+"."+name, o.Type()), t: goTy(o.Type())}, true
	}
	return SV{}, false
}

func (c *ECtx) sel(x *Expr) SV {
	if b := x.args[0]; b.op == "id" {
		if _, isVar := c.vars[b.name]; !isVar {
			if _, isGhost := c.e.w.sp.ghosts[b.name]; !isGhost && c.e.w.pkgs[b.name] != nil {
				if v, ok := c.pkgObj(x, b.name, x.name); ok {
					return v
				}
				c.fail(x, "unknown %s.%s", b.name, x.name)
			}
		}
	}
	a := c.eval(x.args[0])
	if a.t == nil || a.t.t == nil {
		c.fail(x, "selection .%s on a ghost value", x.name)
	}
	return c.field(x, a, x.name)
}

// field selects a (possibly promoted) field.
func (c *ECtx) field(x *Expr, a SV, name string) SV {
	t := a.t.t
	var pkg *types.Package
	if n := namedOf(t); n != nil {
		pkg = n.Obj().Pkg()
	}
	obj, idx := c.lookupField(t, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		c.fail(x, "no field %s in %s", name, typeName(t))
	}
	v := a.v
	for _, i := range idx {
		if pt, ok := under(t).(*types.Pointer); ok {
			// dereference
			l := c.e.locOf(c.asPtr(x, v), pt.Elem())
			t = pt.Elem()
			f := under(t).(*types.Struct).Field(i)
			n := *l
			n.path = joinPath(l.path, f.Name())
			n.typ = f.Type()
			t = f.Type()
			if isStruct(t) {
				v = &n
			} else {
				v = c.e.load(c.st, &n)
			}
			continue
		}
		f := under(t).(*types.Struct).Field(i)
		switch y := v.(type) {
		case *StructV:
			v = structField(y, i)
		case *Loc:
			n := *y
			n.path = joinPath(y.path, f.Name())
			n.typ = f.Type()
			if isStruct(f.Type()) {
				v = &n
			} else {
				v = c.e.load(c.st, &n)
			}
		default:
			c.fail(x, "field of %T", v)
		}
		t = f.Type()
	}
	return SV{v: v, t: goTy(t)}
}

func (c *ECtx) asPtr(x *Expr, v Val) Val {
	switch v.(type) {
	case *Term, *Loc:
		return v
	}
	c.fail(x, "pointer expected, got %T", v)
	return nil
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (c *ECtx) index(x *Expr) SV {
	tb := c.e.tb
	a := c.eval(x.args[0])
	if a.t == nil {
		c.fail(x, "index of nil")
	}
	if a.t.k != nil {
		return SV{v: tb.Select(c.term(x, a), c.coerce(x, c.eval(x.args[1]), a.t.k)), t: a.t.v}
	}
	i := c.eval(x.args[1])
	switch u := under(a.t.t).(type) {
	case *types.Map:
		v := c.e.mapVal(c.st, u, c.term(x, a), c.coerce(x, i, goTy(u.Key())))
		return SV{v: v, t: goTy(u.Elem())}
	case *types.Slice:
		s := c.term(x, a)
		k := c.e.mkey(u.Elem(), "", u.Elem())
		return SV{v: tb.Select(tb.Select(c.e.get(c.st, k), tb.SlArr(s)), tb.Add(tb.SlOff(s), c.term(x, i))), t: goTy(u.Elem())}
	case *types.Basic:
		return SV{v: c.e.charAt(c.st, c.term(x, a), c.term(x, i)), t: tyInt}
	case *types.Array:
		return SV{v: tb.Select(c.term(x, a), c.term(x, i)), t: goTy(u.Elem())}
	}
	c.fail(x, "index of %s", a.t.t)
	return SV{}
}

func (c *ECtx) bin(x *Expr) SV {
	tb := c.e.tb
	b := func(t *Term) SV { return SV{v: t, t: tyBool} }
	switch x.name {
	case "==>":
		return b(tb.Imp(c.boolean(x.args[0]), c.boolean(x.args[1])))
	case "<==>":
		return b(tb.Eq(c.boolean(x.args[0]), c.boolean(x.args[1])))
	case "&&":
		return b(tb.And(c.boolean(x.args[0]), c.boolean(x.args[1])))
	case "||":
		return b(tb.Or(c.boolean(x.args[0]), c.boolean(x.args[1])))
	}
	l, r := c.eval(x.args[0]), c.eval(x.args[1])
	switch x.name {
	case "in":
		if r.t == nil {
			c.fail(x, "in nil")
		}
		if r.t.k != nil {
			return b(tb.Select(c.term(x, r), c.coerce(x, l, r.t.k)))
		}
		mt, ok := under(r.t.t).(*types.Map)
		if !ok {
			c.fail(x, "in %s", r.t.t)
		}
		return b(c.e.mapHas(c.st, mt, c.term(x, r), c.coerce(x, l, goTy(mt.Key()))))
	case "==", "!=":
		var t *Term
		switch {
		case l.nil && r.nil:
			t = tb.True
		case l.nil || r.nil:
			o := l
			if l.nil {
				o = r
			}
			ot := c.term(x, o)
			switch ot.sort {
			case SSlice:
				t = tb.Eq(tb.SlArr(ot), tb.Int(0))
			case SIface:
				t = tb.Eq(tb.IfTag(ot), tb.Int(0))
			default:
				t = tb.Eq(ot, tb.Int(0))
			}
		default:
			_, ls := l.v.(*StructV)
			_, rs := r.v.(*StructV)
			if ls || rs {
				t = c.e.equal(c.st, c.full(l), c.full(r), l.t.t, r.t.t)
				break
			}
			if l.t != nil && r.t != nil && l.t.sort == SIface && r.t.sort != SIface {
				t = tb.Eq(c.term(x, l), c.coerce(x, r, l.t))
				break
			}
			if l.t != nil && r.t != nil && r.t.sort == SIface && l.t.sort != SIface {
				t = tb.Eq(c.coerce(x, l, r.t), c.term(x, r))
				break
			}
			lt, rt := c.term(x, l), c.term(x, r)
			if lt.sort != rt.sort {
				c.fail(x, "comparison of %s with %s", lt.sort, rt.sort)
			}
			t = tb.Eq(lt, rt)
		}
		if x.name == "!=" {
			t = tb.Not(t)
		}
		return b(t)
	}
	lt, rt := c.term(x, l), c.term(x, r)
	if lt.sort == SStr {
		switch x.name {
		case "+":
			return SV{v: c.e.concat(lt, rt), t: tyStr}
		case "<":
			return b(tb.App("str.lt", SBool, lt, rt))
		}
	}
	if lt.sort != SInt || rt.sort != SInt {
		c.fail(x, "operator %s on %s and %s", x.name, lt.sort, rt.sort)
	}
	switch x.name {
	case "+":
		return SV{v: tb.Add(lt, rt), t: tyInt}
	case "-":
		return SV{v: tb.Sub(lt, rt), t: tyInt}
	case "*":
		return SV{v: tb.Mul(lt, rt), t: tyInt}
	case "<":
		return b(tb.Lt(lt, rt))
	case "<=":
		return b(tb.Le(lt, rt))
	case ">":
		return b(tb.Lt(rt, lt))
	case ">=":
		return b(tb.Le(rt, lt))
	}
	c.fail(x, "operator %s", x.name)
	return SV{}
}

func (c *ECtx) full(v SV) Val {
	if l, ok := v.v.(*Loc); ok {
		return c.e.load(c.st, l)
	}
	return v.v
}

func (c *ECtx) apply(x *Expr, f *FuncDef, args []SV) SV {
	w := c.e.w
	if len(args) != len(f.params) {
		c.fail(x, "%s takes %d arguments", f.name, len(f.params))
	}
	rt := w.parseType(f.res, f.pkg)
	if f.body != nil {
		n := c.child()
		n.vars = map[string]SV{}
		n.pkg = f.pkg
		for i, p := range f.params {
			a := args[i]
			pt := w.parseType(p.typ, f.pkg)
			if a.nil {
				a = SV{v: c.nilOf(pt), t: pt}
			} else if pt.sort == SIface && a.t != nil && a.t.sort != SIface {
				a = SV{v: c.coerce(x, a, pt), t: pt}
			} else {
				a.t = pt
			}
			n.vars[p.name] = a
		}
		r := n.eval(f.body)
		if r.nil {
			r = SV{v: c.nilOf(rt)}
		}
		r.t = rt
		return r
	}
	var ts []*Term
	for i, p := range f.params {
		pt := w.parseType(p.typ, f.pkg)
		ts = append(ts, c.coerce(x, args[i], pt))
	}
	if len(ts) == 0 {
		return SV{v: c.e.tb.Const("L."+f.name, rt.sort), t: rt}
	}
	return SV{v: c.e.tb.App("L."+f.name, rt.sort, ts...), t: rt}
}

func dottedName(x *Expr) string {
	switch x.op {
	case "id":
		return x.name
	case "sel":
		if d := dottedName(x.args[0]); d != "" {
			return d + "." + x.name
		}
	}
	return ""
}

func (c *ECtx) call(x *Expr) SV {
	e := c.e
	tb := e.tb
	f := x.args[0]
	args := x.args[1:]
	if f.op == "id" {
		switch f.name {
		case "old":
			if c.old == nil {
				c.fail(x, "old() has no meaning here")
			}
			return c.inHeap(c.old).eval(args[0])
		case "acq":
			if c.acq == nil {
				c.fail(x, "acq() has no meaning here")
			}
			return c.inHeap(c.acq).eval(args[0])
		case "held":
			d, ref := e.lockOf(c, args[0])
			return SV{v: e.heldTerm(c.st, d, ref, true), t: tyBool}
		case "pre":
			if c.pre == nil {
				c.fail(x, "pre() has no meaning here")
			}
			return c.inHeap(c.pre).eval(args[0])
		case "typeis":
			t := e.w.parseType(x.name, c.pkg)
			return SV{v: tb.Eq(tb.IfTag(c.term(x, c.eval(args[0]))), tb.Int(e.tag(typeName(t.t)))), t: tyBool}
		case "as":
			t := e.w.parseType(x.name, c.pkg)
			a := c.eval(args[0])
			return SV{v: e.unbox(c.st, c.term(x, a), t.t), t: t}
		case "sumof":
			t := e.w.parseType(x.name, c.pkg)
			return c.sumof(x, args[0].name, t, args[1])
		}
		switch f.name {
		case "deref", "len", "cap", "arr", "off", "bytes", "fresh", "freshin", "alloced", "isnew", "ite", "hasprefix", "hassuffix", "contains", "substr", "indexof", "bitand", "val", "dom", "str", "strbytes", "code", "tagof", "emptyset", "vals", "box", "concat", "iface":
			var vs []SV
			for _, a := range args {
				vs = append(vs, c.eval(a))
			}
			return c.builtin(x, f.name, args, vs)
		}
		if g, ok := e.w.sp.ghosts[f.name]; ok && g.field {
			t := e.w.parseType(g.typ, g.pkg)
			a := c.eval(args[0])
			r := c.term(x, a)
			if r.sort == SIface {
				r = tb.IfVal(r)
			}
			if r.sort == SSlice {
				r = tb.SlArr(r)
			}
			return SV{v: tb.Select(e.get(c.st, e.ghostKey(g)), r), t: t}
		}
		if d, ok := e.w.sp.funcs[f.name]; ok {
			var vs []SV
			for _, a := range args {
				vs = append(vs, c.eval(a))
			}
			return c.apply(x, d, vs)
		}
	}
	name := dottedName(f)
	if name != "" {
		name = e.w.alias(name)
		var vs []SV
		for _, a := range args {
			vs = append(vs, c.eval(a))
		}
		if d, ok := e.w.sp.pureExt[name]; ok {
			n := *d
			n.body = nil
			n.name = "F." + d.name
			return c.apply(x, &n, vs)
		}
		var ts []*Term
		for i, v := range vs {
			_ = i
			ts = append(ts, c.coerce(x, v, nil))
		}
		if r, t, ok := e.pureFn(c.st, name, ts); ok {
			return SV{v: r, t: t}
		}
	}
	c.fail(x, "unknown function %s", name)
	return SV{}
}

func (c *ECtx) builtin(x *Expr, name string, args []*Expr, vs []SV) SV {
	e := c.e
	tb := e.tb
	t := func(i int) *Term { return c.term(args[i], vs[i]) }
	in := func(v *Term) SV { return SV{v: v, t: tyInt} }
	bo := func(v *Term) SV { return SV{v: v, t: tyBool} }
	switch name {
	case "len":
		switch a := t(0); a.sort {
		case SStr:
			return in(e.strLen(a))
		case SSlice:
			return in(tb.SlLen(a))
		case SBytes:
			return in(tb.App("bytes.len", SInt, a))
		default:
			if mt, ok := under(vs[0].t.t).(*types.Map); ok {
				_, _, ml := e.mapKeys(mt)
				return in(tb.Select(e.get(c.st, ml), a))
			}
		}
	case "deref":
		pt, ok := under(vs[0].t.t).(*types.Pointer)
		if !ok {
			c.fail(x, "deref of %s", typeName(vs[0].t.t))
		}
		return SV{v: e.load(c.st, e.locOf(vs[0].v, pt.Elem())), t: goTy(pt.Elem())}
	case "cap":
		return in(tb.SlCap(t(0)))
	case "arr":
		return in(tb.SlArr(t(0)))
	case "off":
		return in(tb.SlOff(t(0)))
	case "bytes":
		if vs[0].t != nil && vs[0].t.t != nil {
			if at, ok := under(vs[0].t.t).(*types.Array); ok {
				return SV{v: tb.App("bytes.of", SBytes, t(0), tb.Int(0), tb.Int(at.Len())), t: tyBytes}
			}
		}
		return SV{v: e.bytesOf(c.st, t(0)), t: tyBytes}
	case "fresh", "freshin", "alloced":
		// alloced: allocated by now; freshin: allocated in the current iteration of the outer loop
		a := t(0)
		owm := c.owm
		if name == "freshin" {
			owm = c.outwm
		}
		switch a.sort {
		case SSlice:
			a = tb.SlArr(a)
		case SIface:
			a = tb.IfVal(a)
		}
		if name == "alloced" {
			return bo(tb.Lt(a, c.st.wm))
		}
		if owm == nil {
			c.fail(x, "fresh() has no meaning here")
		}
		return bo(tb.And(tb.Le(owm, a), tb.Lt(a, c.st.wm)))
	case "ite":
		a, b := vs[1], vs[2]
		ty := a.t
		if a.nil {
			ty = b.t
		}
		return SV{v: tb.Ite(t(0), c.coerce(args[1], a, ty), c.coerce(args[2], b, ty)), t: ty}
	case "hasprefix":
		return bo(e.hasPrefix(t(0), t(1)))
	case "hassuffix":
		return bo(e.hasSuffix(t(0), t(1)))
	case "bitand":
		x, y := t(0), t(1)
		if a, ok := x.isInt(); ok {
			if b, ok := y.isInt(); ok {
				return in(tb.Int(a & b))
			}
		}
		return in(tb.App("bit.and", SInt, x, y))
	case "contains":
		return bo(tb.App("str.contains", SBool, t(0), t(1)))
	case "substr":
		return SV{v: e.substr(c.st, t(0), t(1), t(2)), t: tyStr}
	case "indexof":
		return in(tb.App("str.indexof", SInt, t(0), t(1), tb.Int(0)))
	case "val":
		return in(tb.IfVal(t(0)))
	case "tagof":
		return in(tb.IfTag(t(0)))
	case "str":
		return SV{v: e.bytesStr(t(0)), t: tyStr}
	case "strbytes":
		return SV{v: e.strBytes(t(0)), t: tyBytes}
	case "code":
		return in(tb.App("str.code", SInt, t(0)))
	case "dom":
		if mt, ok := under(vs[0].t.t).(*types.Map); ok {
			md, _, _ := e.mapKeys(mt)
			return SV{v: tb.Select(e.get(c.st, md), t(0)), t: &STy{k: goTy(mt.Key()), v: tyBool, sort: ArrSort(sortOf(mt.Key()), SBool)}}
		}
	case "vals":
		if mt, ok := under(vs[0].t.t).(*types.Map); ok {
			_, mv, _ := e.mapKeys(mt)
			return SV{v: tb.Select(e.get(c.st, mv), t(0)), t: &STy{k: goTy(mt.Key()), v: goTy(mt.Elem()), sort: ArrSort(sortOf(mt.Key()), sortOf(mt.Elem()))}}
		}
	}
	c.fail(x, "bad use of %s", name)
	return SV{}
}

// sumInst is an instance of a sum over a map-like function.
type sumInst struct {
	g  *Term // array symbol, pointwise equal to the summand
	ks Sort
}

type sumPair struct{ a, b, k *Term }

func (e *Eng) sumOf(g *Term, ks Sort) {
	if e.sumSyms == nil {
		e.sumSyms, e.sumWit = map[*Term]Sort{}, map[sumPair]*Term{}
	}
	e.sumSyms[g] = ks
}

// sumFacts are the instances of the laws of finite sums for the sums and map keys of a query:
// two sums whose summands agree except at k differ by the summands at k, and a sum whose
// summands are zero except at k is the summand at k.
func (c *closure) sumFacts() {
	e, tb := c.e, c.e.tb
	var gs []*Term
	for t := range c.seen {
		if _, ok := e.sumSyms[t]; ok {
			gs = append(gs, t)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	wit := func(a, b, k *Term, s Sort) *Term {
		p := sumPair{a, b, k}
		if e.sumWit[p] == nil {
			e.sumWit[p] = tb.Fresh("sumwit", s)
		}
		return e.sumWit[p]
	}
	tot := func(g *Term) *Term { return tb.App("total."+string(e.sumSyms[g]), SInt, g) }
	for i, g := range gs {
		s := e.sumSyms[g]
		ks := []*Term{nil}
		for _, k := range e.mapTouched {
			if k.sort == s && c.seen[k] && !k.hasBV {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			w := wit(g, g, k, s)
			if k == nil {
				c.add(tb.Or(tb.Not(tb.Eq(tb.Select(g, w), tb.Int(0))), tb.Eq(tot(g), tb.Int(0))))
			} else {
				c.add(tb.Or(tb.And(tb.Not(tb.Eq(w, k)), tb.Not(tb.Eq(tb.Select(g, w), tb.Int(0)))), tb.Eq(tot(g), tb.Select(g, k))))
			}
			for _, h := range gs[i+1:] {
				if e.sumSyms[h] != s {
					continue
				}
				w := wit(g, h, k, s)
				if k == nil {
					c.add(tb.Or(tb.Not(tb.Eq(tb.Select(g, w), tb.Select(h, w))), tb.Eq(tot(g), tot(h))))
				} else {
					c.add(tb.Or(tb.And(tb.Not(tb.Eq(w, k)), tb.Not(tb.Eq(tb.Select(g, w), tb.Select(h, w)))),
						tb.Eq(tb.Sub(tot(g), tb.Select(g, k)), tb.Sub(tot(h), tb.Select(h, k)))))
				}
			}
		}
	}
}

// sumof introduces an array equal pointwise to the summand and returns total(array).
func (c *ECtx) sumof(x *Expr, name string, t *STy, body *Expr) SV {
	tb := c.e.tb
	n := c.child()
	if c.e.sumVar == nil {
		c.e.sumVar, c.e.sums = map[Sort]*Term{}, map[*Term]*sumInst{}
	}
	b := c.e.sumVar[t.sort]
	if b == nil {
		b = tb.BVar("sumkey", t.sort)
		c.e.sumVar[t.sort] = b
	}
	n.vars[name] = SV{v: b, t: t}
	val := n.term(body, n.eval(body))
	if s := c.e.sums[val]; s != nil {
		return SV{v: tb.App("total."+string(t.sort), SInt, s.g), t: tyInt}
	}
	g := tb.Fresh("sum", ArrSort(t.sort, SInt))
	tot := tb.App("total."+string(t.sort), SInt, g)
	// definition of g (a conservative extension), and facts about sums of non-negative functions
	tb.facts[g] = append(tb.facts[g],
		tb.Forall([]*Term{b}, [][]*Term{{tb.Select(g, b)}}, tb.Eq(tb.Select(g, b), val)),
		tb.Forall([]*Term{b}, [][]*Term{{tb.Select(g, b)}}, tb.And(tb.Le(tb.Int(0), tb.Select(g, b)), tb.Le(tb.Select(g, b), tot))))
	c.e.sums[val] = &sumInst{g: g, ks: t.sort}
	c.e.sumOf(g, t.sort)
	return SV{v: tot, t: tyInt}
}

// ---------------------------------------------------------------- types

func (w *World) parseType(s, pkg string) *STy {
	k := pkg + "|" + s
	w.tmu.Lock()
	defer w.tmu.Unlock()
	if t, ok := w.tyCache[k]; ok {
		return t
	}
	t := w.parseTy(s, pkg)
	w.tyCache[k] = t
	return t
}

func (w *World) parseTy(s, pkg string) *STy {
	switch s {
	case "bytes":
		return tyBytes
	case "strlist":
		return tyList
	case "ref":
		return &STy{t: types.Typ[types.Int], sort: SInt}
	}
	if strings.HasPrefix(s, "arr[") {
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, v := w.parseTy(s[4:i], pkg), w.parseTy(s[i+1:], pkg)
					return &STy{k: k, v: v, sort: ArrSort(k.sort, v.sort)}
				}
			}
		}
	}
	return goTy(w.goType(s, pkg))
}

func (w *World) goType(s, pkg string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.goType(s[1:], pkg))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.goType(s[2:], pkg))
	case strings.HasPrefix(s, "chan "):
		return types.NewChan(types.SendRecv, w.goType(s[5:], pkg))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(w.goType(s[4:i], pkg), w.goType(s[i+1:], pkg))
				}
			}
		}
	case s == "struct{}":
		return types.NewStruct(nil, nil)
	case s == "error":
		return types.Universe.Lookup("error").Type()
	case s == "any":
		return types.NewInterfaceType(nil, nil)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	p, n := pkg, s
	if i := strings.IndexByte(s, '.'); i >= 0 {
		p, n = s[:i], s[i+1:]
	}
	if pk := w.pkgs[p]; pk != nil {
		if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	panic(specErr{"unknown type " + s + " in package " + pkg})
}

// lookupField finds a (promoted) field, whichever repository package its name belongs to.
func (c *ECtx) lookupField(t types.Type, pkg *types.Package, name string) (types.Object, []int) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if _, ok := obj.(*types.Var); ok {
		return obj, idx
	}
	for p := range c.e.w.repo {
		if obj, idx, _ := types.LookupFieldOrMethod(t, true, p, name); obj != nil {
			if _, ok := obj.(*types.Var); ok {
				return obj, idx
			}
		}
	}
	return nil, nil
}
