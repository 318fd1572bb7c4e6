package main

// Meaning of built-in functions and of the pure part of the standard library.

import (
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) hasPrefix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return e.tb.Bool(strings.HasPrefix(s.name, p.name))
	}
	if p.op == "str" && p.name == "" {
		return e.tb.True
	}
	return e.tb.App("str.prefixof", SBool, p, s)
}

func (e *Eng) hasSuffix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return e.tb.Bool(strings.HasSuffix(s.name, p.name))
	}
	if p.op == "str" && p.name == "" {
		return e.tb.True
	}
	return e.tb.App("str.suffixof", SBool, p, s)
}

// pureFn gives the term of a pure library function, for code and specifications alike.
func (e *Eng) pureFn(st *State, name string, a []*Term) (*Term, *STy, bool) {
	tb := e.tb
	s := func(t *Term) (*Term, *STy, bool) { return t, tyStr, true }
	b := func(t *Term) (*Term, *STy, bool) { return t, tyBool, true }
	switch name {
	case "strings.HasPrefix":
		return b(e.hasPrefix(a[0], a[1]))
	case "strings.HasSuffix":
		return b(e.hasSuffix(a[0], a[1]))
	case "strings.Contains":
		return b(tb.App("str.contains", SBool, a[0], a[1]))
	case "strings.ContainsRune":
		return b(tb.App("str.contains", SBool, a[0], e.runeStr(a[1])))
	case "strings.Index":
		return tb.App("str.indexof", SInt, a[0], a[1], tb.Int(0)), tyInt, true
	case "strings.TrimSuffix":
		return s(tb.Ite(e.hasSuffix(a[0], a[1]), e.substr(st, a[0], tb.Int(0), tb.Sub(e.strLen(a[0]), e.strLen(a[1]))), a[0]))
	case "strings.TrimPrefix":
		return s(tb.Ite(e.hasPrefix(a[0], a[1]), e.substr(st, a[0], e.strLen(a[1]), tb.Sub(e.strLen(a[0]), e.strLen(a[1]))), a[0]))
	case "path.Join":
		var xs []*Term
		for _, x := range a {
			if x.op == "str" && x.name == "" {
				continue
			}
			xs = append(xs, x)
		}
		switch len(xs) {
		case 0:
			return s(tb.Str(""))
		case 1:
			return s(tb.Ite(tb.Eq(xs[0], tb.Str("")), tb.Str(""), tb.App("path.Clean", SStr, xs[0])))
		}
		r := tb.App("path.Join", SStr, xs[0], xs[1])
		for _, x := range xs[2:] {
			r = tb.App("path.Join", SStr, r, x)
		}
		return s(r)
	case "path.Clean", "path.Dir", "path.Base", "path.Ext", "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		return s(tb.App(name, SStr, a[0]))
	case "path.IsAbs":
		return b(e.hasPrefix(a[0], tb.Str("/")))
	case "strings.Trim", "strings.TrimRight", "strings.TrimLeft":
		return s(tb.App(name, SStr, a[0], a[1]))
	case "hex.enc":
		return s(tb.App("hex.enc", SStr, a[0]))
	case "hex.dec":
		return tb.App("hex.dec", SBytes, a[0]), tyBytes, true
	case "hex.ok":
		return b(tb.App("hex.ok", SBool, a[0]))
	case "num.parse":
		return tb.App("num.parse", SInt, a[0]), tyInt, true
	case "num.ok":
		return b(tb.App("num.ok", SBool, a[0]))
	case "num.fmt":
		return s(tb.App("num.fmt", SStr, a[0]))
	case "fields":
		return tb.App("fields", SList, a[0]), tyList, true
	case "splitn":
		return tb.App("splitn", SList, a[0], a[1], a[2]), tyList, true
	case "list.len":
		return tb.App("list.len", SInt, a[0]), tyInt, true
	case "list.at":
		return s(tb.Select(tb.App("list.arr", ArrSort(SInt, SStr), a[0]), a[1]))
	}
	return nil, nil, false
}

func (e *Eng) runeStr(r *Term) *Term {
	if n, ok := r.isInt(); ok && n < 128 && n > 0 {
		return e.tb.Str(string(rune(n)))
	}
	return e.tb.App("str.fromrune", SStr, r)
}

// newList allocates a slice holding an abstract list of strings.
func (e *Eng) newList(st *State, l *Term) *Term {
	tb := e.tb
	ts := types.Typ[types.String]
	k := e.mkey(ts, "", ts)
	r := st.alloc(e)
	n := tb.App("list.len", SInt, l)
	st.assume(e, tb.Le(tb.Int(0), n))
	e.set(st, k, tb.Store(e.get(st, k), r, tb.App("list.arr", ArrSort(SInt, SStr), l)), r)
	return tb.MkSlice(r, tb.Int(0), n, n)
}

// newErr makes a fresh non-nil error.
func (e *Eng) newErr(st *State) *Term {
	r := st.alloc(e)
	return e.tb.MkIface(e.tb.Int(e.tag("error!new")), r)
}

// errIf makes an error that is nil exactly when ok.
func (e *Eng) errIf(st *State, ok *Term) *Term {
	er := e.newErr(st)
	return e.tb.Ite(ok, e.tb.NilIface(), er)
}

// pureCall executes a call of a pure library function.
func (e *Eng) pureCall(st *State, key string, sig *types.Signature, args []Val, pos string) ([]Val, bool) {
	tb := e.tb
	one := func(t *Term) ([]Val, bool) { return []Val{t}, true }
	T := func(i int) *Term { return e.toTerm(args[i]) }
	switch key {
	case "path.Join":
		xs, ok := e.elems(st, T(0), types.Typ[types.String])
		if !ok {
			return nil, false
		}
		r, _, _ := e.pureFn(st, key, xs)
		return one(r)
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ContainsRune", "strings.Index", "strings.TrimSuffix", "strings.TrimPrefix",
		"path.Clean", "path.Dir", "path.Base", "path.Ext", "path.IsAbs", "strings.Trim", "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.TrimRight", "strings.TrimLeft":
		var ts []*Term
		for i := range args {
			ts = append(ts, T(i))
		}
		r, _, _ := e.pureFn(st, key, ts)
		return one(r)
	case "bytes.Compare":
		x, y := e.bytesOf(st, T(0)), e.bytesOf(st, T(1))
		c := tb.App("bytes.cmp", SInt, x, y)
		st.assume(e, tb.Eq(tb.Eq(c, tb.Int(0)), tb.Eq(x, y)))
		return one(c)
	case "bytes.Equal":
		return one(tb.Eq(e.bytesOf(st, T(0)), e.bytesOf(st, T(1))))
	case "hex.EncodeToString":
		return one(tb.App("hex.enc", SStr, e.bytesOf(st, T(0))))
	case "hex.DecodeString":
		s := T(0)
		sl := e.newBytes(st, tb.App("hex.dec", SBytes, s), "hex")
		ok := tb.App("hex.ok", SBool, s)
		return []Val{sl, e.errIf(st, ok)}, true
	case "strconv.ParseUint":
		if n, ok := T(1).isInt(); !ok || n != 10 {
			return nil, false
		}
		if n, ok := T(2).isInt(); !ok || n != 64 {
			return nil, false
		}
		s := T(0)
		v := tb.App("num.parse", SInt, s)
		st.assume(e, e.wf(v, types.Typ[types.Uint64], st.wm))
		ok := tb.App("num.ok", SBool, s)
		return []Val{tb.Ite(ok, v, tb.Fresh("parsed", SInt)), e.errIf(st, ok)}, true
	case "strconv.FormatInt":
		if n, ok := T(1).isInt(); !ok || n != 10 {
			return nil, false
		}
		return one(tb.App("num.fmt", SStr, T(0)))
	case "strconv.Itoa":
		return one(tb.App("num.fmt", SStr, T(0)))
	case "strings.Fields":
		return one(e.newList(st, tb.App("fields", SList, T(0))))
	case "strings.SplitN", "strings.Split":
		n := tb.Int(-1)
		if key == "strings.SplitN" {
			n = T(2)
		}
		l := tb.App("splitn", SList, T(0), T(1), n)
		ln := tb.App("list.len", SInt, l)
		if c, ok := n.isInt(); ok && T(1).op == "str" && T(1).name != "" {
			if c != 0 {
				st.assume(e, tb.Le(tb.Int(1), ln))
			}
			if c > 0 {
				st.assume(e, tb.Le(ln, tb.Int(c)))
			}
			if c == 2 {
				arr := tb.App("list.arr", ArrSort(SInt, SStr), l)
				s, sep := T(0), T(1)
				has := tb.App("str.contains", SBool, s, sep)
				ix := tb.App("str.indexof", SInt, s, sep, tb.Int(0))
				st.assume(e, tb.Eq(has, tb.Eq(ln, tb.Int(2))))
				st.assume(e, tb.Imp(tb.Not(has), tb.Eq(tb.Select(arr, tb.Int(0)), s)))
				st.assume(e, tb.Imp(has, tb.And(tb.Eq(tb.Select(arr, tb.Int(0)), e.substr(st, s, tb.Int(0), ix)),
					tb.Eq(tb.Select(arr, tb.Int(1)), e.substr(st, s, tb.Add(ix, e.strLen(sep)), tb.Sub(e.strLen(s), tb.Add(ix, e.strLen(sep))))))))
				a0, a1 := tb.Select(arr, tb.Int(0)), tb.Select(arr, tb.Int(1))
				st.assume(e, tb.Imp(has, tb.And(tb.Eq(s, e.concat(a0, e.concat(sep, a1))), tb.Not(tb.App("str.contains", SBool, a0, sep)))))
			}
		}
		return one(e.newList(st, l))
	case "errors.New":
		return one(e.newErr(st))
	case "fmt.Errorf", "errors.Errorf":
		return one(e.newErr(st))
	case "errors.Wrap", "errors.Wrapf", "errors.WithStack", "errors.WithMessage":
		x := T(0)
		er := e.newErr(st)
		isnil := tb.Eq(tb.IfTag(x), tb.Int(0))
		return one(tb.Ite(isnil, tb.NilIface(), er))
	}
	return nil, false
}

// special handles calls with effects on the verifier's own state.
func (e *Eng) special(st *State, key string, sig *types.Signature, args []Val, instr *ssa.Call, pos string) bool {
	switch key {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		l, ok := args[0].(*Loc)
		if !ok {
			panic(unsup("lock that is not a field at %s", pos))
		}
		read := strings.Contains(key, ".R") && (strings.HasSuffix(key, "RLock") || strings.HasSuffix(key, "RUnlock"))
		if strings.HasSuffix(key, "Unlock") {
			e.unlock(st, l, read, pos)
		} else {
			e.lock(st, l, read, pos)
		}
		e.bind(st, instr, nil)
		return true
	case "regexp.Regexp.MatchString":
		if pat, ok := e.w.regexpOf(args[0]); ok {
			if cls, min, ok := simpleClass(pat); ok {
				e.usedExt["built-in "+key+" of a package-level pattern of the form ^[class]+$"] = true
				s := e.toTerm(args[1])
				i := e.tb.BVar("i", SInt)
				at := e.tb.App("str.code", SInt, e.tb.App("str.at", SStr, s, i))
				var in []*Term
				for k := 0; k+1 < len(cls); k += 2 {
					in = append(in, e.tb.And(e.tb.Le(e.tb.Int(int64(cls[k])), at), e.tb.Le(at, e.tb.Int(int64(cls[k+1])))))
				}
				n := e.strLen(s)
				st.assume(e, e.tb.Le(e.tb.Int(0), n))
				all := e.tb.Forall([]*Term{i}, [][]*Term{{at}}, e.tb.Imp(e.tb.And(e.tb.Le(e.tb.Int(0), i), e.tb.Lt(i, n)), e.tb.Or(in...)))
				b := e.tb.Fresh("match", SBool)
				st.assume(e, e.tb.Eq(b, e.tb.And(e.tb.Le(e.tb.Int(int64(min)), n), all)))
				e.bind(st, instr, []Val{b})
				return true
			}
		}
	case "log.Info", "log.Warn", "log.Error", "log.Debug", "log.Critical":
		e.usedExt["ignored "+key] = true
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, e.freshVal(st, "log", sig.Results().At(i).Type()))
		}
		e.bind(st, instr, res)
		return true
	}
	return false
}

// simpleClass reads a pattern ^[class]+$ or ^[class]*$ of ASCII characters.
func simpleClass(pat string) (ranges []rune, min int, ok bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) != 3 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[2].Op != syntax.OpEndText {
		return nil, 0, false
	}
	x := re.Sub[1]
	switch x.Op {
	case syntax.OpPlus:
		min = 1
	case syntax.OpStar:
	default:
		return nil, 0, false
	}
	x = x.Sub[0]
	switch x.Op {
	case syntax.OpCharClass:
		ranges = x.Rune
	case syntax.OpLiteral:
		if len(x.Rune) != 1 || x.Flags&syntax.FoldCase != 0 {
			return nil, 0, false
		}
		ranges = []rune{x.Rune[0], x.Rune[0]}
	default:
		return nil, 0, false
	}
	for _, r := range ranges {
		if r > 127 {
			return nil, 0, false
		}
	}
	return ranges, min, true
}

func (e *Eng) specialFork(st *State, key string, fn *ssa.Function, args []Val, instr *ssa.Call, pos string) ([]*State, bool) {
	return nil, false
}

// builtinCall executes len, append and friends.
func (e *Eng) builtinCall(st *State, name string, c *ssa.CallCommon, args []Val, instr *ssa.Call, pos string) {
	tb := e.tb
	T := func(i int) *Term { return e.toTerm(args[i]) }
	ret := func(v Val) { e.bind(st, instr, []Val{v}) }
	switch name {
	case "len", "cap":
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			if name == "len" {
				ret(tb.SlLen(T(0)))
			} else {
				ret(tb.SlCap(T(0)))
			}
			return
		case *types.Basic:
			n := e.strLen(T(0))
			st.assume(e, tb.Le(tb.Int(0), n))
			ret(n)
			return
		case *types.Map:
			m := T(0)
			e.checkGuard(st, m, false, pos)
			ret(e.mapLen(st, u, m))
			return
		case *types.Array:
			ret(tb.Int(u.Len()))
			return
		case *types.Pointer:
			ret(tb.Int(under(u.Elem()).(*types.Array).Len()))
			return
		case *types.Chan:
			v := tb.Fresh("chanlen", SInt)
			st.assume(e, tb.Le(tb.Int(0), v))
			ret(v)
			return
		}
	case "append":
		e.appendCall(st, c, args, instr, pos)
		return
	case "copy":
		el := under(c.Args[0].Type()).(*types.Slice).Elem()
		d := T(0)
		n := tb.Fresh("copied", SInt)
		st.assume(e, tb.And(tb.Le(tb.Int(0), n), tb.Le(n, tb.SlLen(d))))
		for _, lf := range flatten(el) {
			e.havocInner(st, e.mkey(el, lf.path, lf.typ), tb.SlArr(d))
		}
		ret(n)
		return
	case "delete":
		m := T(0)
		mt := under(c.Args[0].Type()).(*types.Map)
		e.checkGuard(st, m, true, pos)
		k := e.toTerm(args[1])
		// deleting from a nil map does nothing: the nil map is empty, so the update is the identity
		e.mapDel(st, mt, m, k)
		e.bind(st, instr, nil)
		return
	case "close":
		ch := T(0)
		if con := e.chanContract(c.Args[0].Type(), "close"); con != nil {
			sg := types.NewSignatureType(nil, nil, nil, types.NewTuple(), types.NewTuple(), false)
			e.siteCheck(st, con.key, []Val{ch}, []types.Type{c.Args[0].Type()}, pos)
			e.applyContract(st, con, con.key, sg, []Val{ch}, []types.Type{c.Args[0].Type()}, pos)
		} else {
			e.oblige(st, "nil", "closed channel is not nil", e.safety(), tb.Not(tb.Eq(ch, tb.Int(0))), pos)
		}
		e.bind(st, instr, nil)
		return
	case "min", "max":
		r := T(0)
		for i := 1; i < len(args); i++ {
			if name == "min" {
				r = tb.Ite(tb.Le(r, T(i)), r, T(i))
			} else {
				r = tb.Ite(tb.Le(T(i), r), r, T(i))
			}
		}
		ret(r)
		return
	case "print", "println":
		e.bind(st, instr, nil)
		return
	case "ssa:wrapnilchk":
		ret(args[0])
		return
	case "recover":
		ret(tb.NilIface())
		return
	}
	panic(unsup("builtin %s at %s", name, pos))
}

// appendCall models append as producing a fresh backing array.
func (e *Eng) appendCall(st *State, c *ssa.CallCommon, args []Val, instr *ssa.Call, pos string) {
	tb := e.tb
	s := e.toTerm(args[0])
	stt := under(c.Args[0].Type()).(*types.Slice)
	el := stt.Elem()
	e.assumed["append is treated as returning a slice with a new backing array (no aliasing with the argument's spare capacity)"] = true
	if len(args) == 1 {
		e.bind(st, instr, []Val{s})
		return
	}
	var t *Term
	tIsStr := sortOf(c.Args[1].Type()) == SStr
	t = e.toTerm(args[1])
	var n2 *Term
	if tIsStr {
		n2 = e.strLen(t)
	} else {
		n2 = tb.SlLen(t)
	}
	n1 := tb.SlLen(s)
	ref := st.alloc(e)
	ln := tb.Add(n1, n2)
	cp := tb.Fresh("cap", SInt)
	st.assume(e, tb.And(tb.Le(ln, cp), tb.Le(cp, tb.BigInt("4611686018427387904"))))
	for _, lf := range flatten(el) {
		k := e.mkey(el, lf.path, lf.typ)
		m := e.get(st, k)
		a := tb.Select(m, tb.SlArr(s))
		cnt, known := n2.isInt()
		off := tb.SlOff(s)
		o, offOK := off.isInt()
		if !offOK && known && e.incr.Infeasible(append(st.pc[:len(st.pc):len(st.pc)], tb.Not(tb.Eq(off, tb.Int(0))))) {
			o, offOK = 0, true
		}
		links := e.con != nil && e.con.links
		if known && !tIsStr && cnt <= 8 && offOK && o == 0 && !links {
			b := tb.Select(m, tb.SlArr(t))
			for i := int64(0); i < cnt; i++ {
				a = tb.Store(a, tb.Add(n1, tb.Int(i)), tb.Select(b, tb.Add(tb.SlOff(t), tb.Int(i))))
			}
			e.set(st, k, tb.Store(m, ref, a), ref)
			continue
		}
		if tIsStr {
			na := tb.Fresh("app", ArrSort(SInt, SInt))
			e.set(st, k, tb.Store(m, ref, na), ref)
			continue
		}
		b := tb.Select(m, tb.SlArr(t))
		na := tb.Fresh("app", ArrSort(SInt, sortOf(lf.typ)))
		typ, wm := lf.typ, st.wm
		sm := &symMeta{d: 1, local: true, wm: wm, fact: func(v *Term) *Term { return e.wf(v, typ, wm) }}
		switch under(typ).(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface:
			sm.ub = wm
		}
		tb.meta[na] = sm
		i := tb.BVar("i", SInt)
		st.assume(e, tb.Forall([]*Term{i}, [][]*Term{{tb.Select(na, i)}}, tb.And(
			tb.Imp(tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, n1)), tb.Eq(tb.Select(na, i), tb.mk("select", "", sortOf(lf.typ), a, tb.Add(off, i)))),
			tb.Imp(tb.And(tb.Le(n1, i), tb.Lt(i, ln)), tb.Eq(tb.Select(na, i), tb.mk("select", "", sortOf(lf.typ), b, tb.Add(tb.SlOff(t), tb.Sub(i, n1))))))))
		if !known || links { // from the elements appended to those of the result
			y := tb.BVar("y", SInt)
			by := tb.mk("select", "", sortOf(lf.typ), b, y)
			st.assume(e, tb.Forall([]*Term{y}, [][]*Term{{by}}, tb.Imp(tb.And(tb.Le(tb.SlOff(t), y), tb.Lt(y, tb.Add(tb.SlOff(t), n2))),
				tb.Eq(tb.Select(na, tb.Add(tb.Sub(y, tb.SlOff(t)), n1)), by))))
			ay := tb.mk("select", "", sortOf(lf.typ), a, y)
			st.assume(e, tb.Forall([]*Term{y}, [][]*Term{{ay}}, tb.Imp(tb.And(tb.Le(off, y), tb.Lt(y, tb.Add(off, n1))),
				tb.Eq(tb.Select(na, tb.Sub(y, off)), ay))))
		}
		if known && cnt <= 8 {
			for j := int64(0); j < cnt; j++ {
				st.assume(e, tb.Eq(tb.Select(na, tb.Add(n1, tb.Int(j))), tb.Select(b, tb.Add(tb.SlOff(t), tb.Int(j)))))
			}
		}
		e.set(st, k, tb.Store(m, ref, na), ref)
	}
	// append(nil...) of nothing stays nil
	r := tb.MkSlice(ref, tb.Int(0), ln, cp)
	if cnt, ok := n2.isInt(); !ok || cnt == 0 {
		if o, k := tb.SlOff(s).isInt(); k && o == 0 || e.incr.Infeasible(append(st.pc[:len(st.pc):len(st.pc)], tb.Not(tb.Eq(tb.SlOff(s), tb.Int(0))))) {
			arr := tb.SlArr(s)
			if !ok { // a name of its own: triggers cannot contain the case split
				arr = tb.Fresh("arr", SInt)
				tb.ub[arr] = st.wm
				st.assume(e, tb.Imp(tb.Eq(n2, tb.Int(0)), tb.And(tb.Eq(arr, tb.SlArr(s)), tb.Not(tb.Eq(arr, ref)))))
				st.assume(e, tb.Imp(tb.Not(tb.Eq(n2, tb.Int(0))), tb.Eq(arr, ref)))
				st.assume(e, tb.Le(tb.Int(0), arr))
			}
			r = tb.MkSlice(arr, tb.Int(0), ln, tb.Ite(tb.Eq(n2, tb.Int(0)), tb.SlCap(s), cp))
		} else {
			r = tb.Ite(tb.And(tb.Eq(n2, tb.Int(0))), s, r)
		}
	}
	if instr != nil {
		e.bind(st, instr, []Val{r})
	}
}
