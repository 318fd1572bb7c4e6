package main

// Go types to SMT sorts, value representation.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *StructV, *TupleV, *Loc, *CloV, *IterV.
type Val interface{}

// StructV is a struct value, flattened.
type StructV struct {
	typ    types.Type
	leaves []Val
}

// TupleV is a multi-value.
type TupleV struct{ v []Val }

// CloV is a function value known statically.
type CloV struct {
	fn   *ssa.Function
	bind []Val
}

// IterV is a map iterator.
type IterV struct {
	key   string // heap key of the visited set
	m     *Term
	mt    *types.Map
	start *Term // domain at the start
}

// Loc is an address that is not a whole object.
type Loc struct {
	kind byte // 'o' object leaf/part, 'e' element of array memory, 'g' global
	ref  *Term
	idx  *Term
	root string // name of the object's type, or of the element type, or global name
	path string
	typ  types.Type // type of the pointee
}

type leaf struct {
	path string
	typ  types.Type
}

type typeInfo struct {
	flat  map[types.Type][]leaf
	names map[types.Type]string
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Name() + "." + o.Name()
		}
		return o.Name()
	case *types.Pointer:
		return "*" + typeName(t.Elem())
	case *types.Slice:
		return "[]" + typeName(t.Elem())
	case *types.Map:
		return "map[" + typeName(t.Key()) + "]" + typeName(t.Elem())
	case *types.Chan:
		return "chan " + typeName(t.Elem())
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return t.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// elemName names an element type for memory keys: types with the same representation and identity share.
func elemName(t types.Type) string { return typeName(t) }

func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isStruct(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok
}

// flatten lists the scalar leaves of a type.
func flatten(t types.Type) []leaf {
	var out []leaf
	var rec func(t types.Type, path string, depth int)
	rec = func(t types.Type, path string, depth int) {
		if st, ok := under(t).(*types.Struct); ok {
			if isOpaque(t) {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				p := f.Name()
				if path != "" {
					p = path + "." + p
				}
				rec(f.Type(), p, depth+1)
			}
			return
		}
		out = append(out, leaf{path, t})
	}
	rec(t, "", 0)
	return out
}

// sortOf gives the SMT sort of a scalar type.
func sortOf(t types.Type) Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		if isStruct(u.Elem()) {
			panic(unsup("array of structs"))
		}
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return SInt
		}
		panic(unsup("struct type %s as a scalar", typeName(t)))
	case *types.Tuple:
		panic(unsup("tuple as scalar"))
	case *types.TypeParam:
		panic(unsup("type parameter"))
	}
	return SInt
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intRange returns decimal bounds.
func intRange(t types.Type) (lo, hi string, bits int, unsigned, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return "-9223372036854775808", "9223372036854775807", 64, false, true
	case types.Int32, types.UntypedRune:
		return "-2147483648", "2147483647", 32, false, true
	case types.Int16:
		return "-32768", "32767", 16, false, true
	case types.Int8:
		return "-128", "127", 8, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", 64, true, true
	case types.Uint32:
		return "0", "4294967295", 32, true, true
	case types.Uint16:
		return "0", "65535", 16, true, true
	case types.Uint8:
		return "0", "255", 8, true, true
	}
	return
}

func isRefType(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

// zero value of a type.
func (e *Eng) zero(t types.Type) Val {
	tb := e.tb
	if isStruct(t) {
		sv := &StructV{typ: t}
		for _, l := range flatten(t) {
			sv.leaves = append(sv.leaves, e.zero(l.typ))
		}
		return sv
	}
	switch u := under(t).(type) {
	case *types.Array:
		z, ok := e.zero(u.Elem()).(*Term)
		if !ok {
			panic(unsup("array of structs"))
		}
		return tb.ConstArr(sortOf(t), z)
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, e.zero(u.At(i).Type()))
		}
		return tv
	}
	return e.zeroSort(sortOf(t))
}

func (e *Eng) zeroSort(s Sort) *Term {
	tb := e.tb
	switch s {
	case SInt:
		return tb.Int(0)
	case SBool:
		return tb.False
	case SStr:
		return tb.Str("")
	case SSlice:
		return tb.NilSlice()
	case SIface:
		return tb.NilIface()
	}
	if _, v, ok := arrParts(s); ok {
		return tb.ConstArr(s, e.zeroSort(v))
	}
	if s == SBytes {
		return tb.App("str.bytes", SBytes, tb.Str(""))
	}
	panic(unsup("zero of sort %s", s))
}

// wf is the type invariant of a scalar value at watermark wm.
func (e *Eng) wf(v *Term, t types.Type, wm *Term) *Term {
	tb := e.tb
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if _, ok := v.isInt(); ok {
				return tb.True
			}
			lo, hi, _, _, ok := intRange(t)
			if ok {
				return tb.And(tb.Le(tb.BigInt(lo), v), tb.Le(v, tb.BigInt(hi)))
			}
		}
		return tb.True
	case *types.Pointer, *types.Map, *types.Chan:
		return tb.And(tb.Le(tb.Int(0), v), tb.Lt(v, wm))
	case *types.Slice:
		if v.op == "mk-slice" && v.args[0].op == "int" {
			return tb.True
		}
		return tb.And(tb.Le(tb.Int(0), tb.SlArr(v)), tb.Lt(tb.SlArr(v), wm), tb.Le(tb.Int(0), tb.SlOff(v)),
			tb.Le(tb.Int(0), tb.SlLen(v)), tb.Le(tb.SlLen(v), tb.SlCap(v)), tb.Le(tb.SlCap(v), tb.BigInt("4611686018427387904")),
			tb.Imp(tb.Eq(tb.SlArr(v), tb.Int(0)), tb.And(tb.Eq(tb.SlCap(v), tb.Int(0)), tb.Eq(tb.SlOff(v), tb.Int(0)))))
	case *types.Interface:
		if v.op == "mk-iface" {
			return tb.True
		}
		return tb.And(tb.Le(tb.Int(0), tb.IfTag(v)), tb.Lt(tb.IfVal(v), wm),
			tb.Imp(tb.Eq(tb.IfTag(v), tb.Int(0)), tb.Eq(tb.IfVal(v), tb.Int(0))))
	}
	return tb.True
}

// freshVal makes an unconstrained value of a type (type invariant assumed in st).
func (e *Eng) freshVal(st *State, prefix string, t types.Type) Val {
	if tt, ok := under(t).(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			tv.v = append(tv.v, e.freshVal(st, prefix, tt.At(i).Type()))
		}
		return tv
	}
	if isStruct(t) {
		sv := &StructV{typ: t}
		for _, l := range flatten(t) {
			sv.leaves = append(sv.leaves, e.freshVal(st, prefix+"."+l.path, l.typ))
		}
		return sv
	}
	v := e.tb.Fresh(prefix, sortOf(t))
	st.assume(e, e.wf(v, t, st.wm))
	return v
}

// structField extracts field i of a struct value.
func structField(sv *StructV, i int) Val {
	st := under(sv.typ).(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += nLeaves(st.Field(j).Type())
	}
	ft := st.Field(i).Type()
	if isStruct(ft) {
		return &StructV{typ: ft, leaves: sv.leaves[off : off+nLeaves(ft)]}
	}
	return sv.leaves[off]
}

func nLeaves(t types.Type) int {
	if isStruct(t) {
		return len(flatten(t))
	}
	return 1
}

// funcKey is the contract key of a function.
func funcKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		return funcKey(p) + n[strings.Index(n+"$", "$"):]
	}
	obj := fn.Object()
	if obj == nil {
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Name() + "." + fn.Name()
		}
		return fn.String()
	}
	return objKey(obj)
}

func objKey(obj types.Object) string {
	pk := ""
	if obj.Pkg() != nil {
		pk = obj.Pkg().Name() + "."
	}
	f, ok := obj.(*types.Func)
	if !ok {
		return pk + obj.Name()
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
			}
			return n.Obj().Name() + "." + f.Name()
		}
		return pk + "?." + f.Name()
	}
	return pk + f.Name()
}
