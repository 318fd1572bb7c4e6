package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort, written in SMT-LIB syntax.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SBytes Sort = "Bytes"
	SList  Sort = "StrList"
)

// ArrSort builds an array sort.
func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort.
func arrParts(s Sort) (k, v Sort, ok bool) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		return "", "", false
	}
	str = str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:]), true
			}
		}
	}
	return "", "", false
}

// Term is a hash-consed term.
type Term struct {
	op    string // "const" (symbol), "int", "str", "true", "false", "bvar", "forall", "exists", or an SMT operator / function
	name  string // symbol name or literal
	args  []*Term
	sort  Sort
	bound []*Term   // quantifiers
	pats  [][]*Term // quantifiers
	id    int
	quant bool // contains a quantifier
	hasBV bool // contains a bound variable (over-approximation: any)
	birth int  // largest birth among symbols inside (creation order of symbols)
}

// TB is a term builder (one per verified function; not shared between goroutines).
type TB struct {
	tab    map[string]*Term
	n      int
	fresh  map[string]int
	births int
	True   *Term
	False  *Term
	funs   map[string]*FunDecl // declared uninterpreted functions
	forder []string
	consts []*Term
	lits   map[string]*Term

	isBase  map[*Term]bool     // watermark symbols
	ub      map[*Term]*Term    // reference symbol -> watermark above it
	facts   map[*Term][]*Term  // facts that hold of a symbol by construction
	meta    map[*Term]*symMeta // array symbols holding program values
	frameOf map[*Term]*frameInfo
	selFact func(t *Term) *Term
	nonzero map[*Term]bool
	axFacts []*Term
}

// symMeta describes an array symbol holding program values.
type symMeta struct {
	fact  func(v *Term) *Term // type invariant of an element
	ub    *Term               // watermark for reference elements (nil if not references)
	d     int                 // number of selects down to a value
	wm    *Term               // facts hold for references below
	local bool                // the first index is not a reference
}

// frameInfo says that a symbol equals parent on references below wm, except refs.
type frameInfo struct {
	parent *Term
	wm     *Term
	except []*Term
}

// FunDecl declares an uninterpreted function.
type FunDecl struct {
	name string
	args []Sort
	res  Sort
}

// NewTB makes a builder.
func NewTB() *TB {
	tb := &TB{tab: map[string]*Term{}, fresh: map[string]int{}, funs: map[string]*FunDecl{}, lits: map[string]*Term{},
		isBase: map[*Term]bool{}, ub: map[*Term]*Term{}, facts: map[*Term][]*Term{}, meta: map[*Term]*symMeta{}, frameOf: map[*Term]*frameInfo{}, nonzero: map[*Term]bool{}}
	tb.True = tb.mk("true", "", SBool)
	tb.False = tb.mk("false", "", SBool)
	return tb
}

func (tb *TB) mk(op, name string, s Sort, args ...*Term) *Term {
	return tb.mkq(op, name, s, nil, nil, args...)
}

func (tb *TB) mkq(op, name string, s Sort, bound []*Term, pats [][]*Term, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('\x00')
	b.WriteString(name)
	b.WriteByte('\x00')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	if len(bound) > 0 {
		b.WriteByte('|')
		for _, a := range bound {
			b.WriteByte(' ')
			b.WriteString(strconv.Itoa(a.id))
		}
		for _, p := range pats {
			b.WriteByte('|')
			for _, a := range p {
				b.WriteByte(' ')
				b.WriteString(strconv.Itoa(a.id))
			}
		}
	}
	k := b.String()
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.n++
	t := &Term{op: op, name: name, args: args, sort: s, id: tb.n, bound: bound, pats: pats}
	for _, a := range args {
		t.quant = t.quant || a.quant
		t.hasBV = t.hasBV || a.hasBV
		if a.birth > t.birth {
			t.birth = a.birth
		}
	}
	switch op {
	case "forall", "exists":
		t.quant = true
		t.hasBV = len(freeBVs(t)) > 0
	case "bvar":
		t.hasBV = true
	}
	tb.tab[k] = t
	return t
}

func freeBVs(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	var rec func(t *Term, b map[*Term]bool)
	rec = func(t *Term, b map[*Term]bool) {
		if !t.hasBV && t.op != "forall" && t.op != "exists" {
			return
		}
		if t.op == "bvar" {
			if !b[t] {
				res[t] = true
			}
			return
		}
		if len(t.bound) > 0 {
			nb := map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.bound {
				nb[v] = true
			}
			b = nb
		}
		for _, a := range t.args {
			rec(a, b)
		}
	}
	rec(t, map[*Term]bool{})
	return res
}

// Fresh makes a new symbol.
func (tb *TB) Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	tb.fresh[prefix]++
	name := fmt.Sprintf("%s!%d", prefix, tb.fresh[prefix])
	tb.births++
	t := tb.mk("const", name, s)
	t.birth = tb.births
	tb.consts = append(tb.consts, t)
	return t
}

// Const is a fixed named symbol.
func (tb *TB) Const(name string, s Sort) *Term {
	name = sanitize(name)
	k := "const\x00" + name + "\x00" + string(s)
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := tb.mk("const", name, s)
	tb.consts = append(tb.consts, t)
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '@', r == '-', r == '~', r == '/':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("@")
		case r == '[':
			b.WriteString("~")
		case r == ']':
			b.WriteString("~")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// BVar makes a bound variable.
func (tb *TB) BVar(name string, s Sort) *Term {
	tb.fresh["bv"]++
	return tb.mk("bvar", fmt.Sprintf("%s?%d", sanitize(name), tb.fresh["bv"]), s)
}

// Int literal.
func (tb *TB) Int(i int64) *Term { return tb.mk("int", strconv.FormatInt(i, 10), SInt) }

// BigInt literal given in decimal.
func (tb *TB) BigInt(s string) *Term { return tb.mk("int", s, SInt) }

// Str literal.
func (tb *TB) Str(s string) *Term {
	t := tb.mk("str", s, SStr)
	tb.lits[s] = t
	return t
}

// Bool literal.
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (t *Term) isInt() (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.name, 10, 64)
	return v, err == nil
}

// App applies a declared function.
func (tb *TB) App(f string, res Sort, args ...*Term) *Term {
	f = sanitize(f)
	if _, ok := tb.funs[f]; !ok {
		d := &FunDecl{name: f, res: res}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		tb.funs[f] = d
		tb.forder = append(tb.forder, f)
	} else {
		d := tb.funs[f]
		if len(d.args) != len(args) {
			panic(unsup("function %s used with %d and %d arguments", f, len(d.args), len(args)))
		}
		for i, a := range args {
			if d.args[i] != a.sort {
				panic(unsup("function %s argument %d: sort %s vs %s", f, i, d.args[i], a.sort))
			}
		}
		res = d.res
	}
	return tb.mk("app", f, res, args...)
}

// Unsupported is panicked for constructs outside the subset.
type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }
func unsup(f string, a ...interface{}) Unsupported {
	return Unsupported{fmt.Sprintf(f, a...)}
}

// Not negates.
func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tb.False
	case "false":
		return tb.True
	case "not":
		return a.args[0]
	}
	return tb.mk("not", "", SBool, a)
}

// And conjoins.
func (tb *TB) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		switch x.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[tb.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tb.False
		}
	}
	switch len(out) {
	case 0:
		return tb.True
	case 1:
		return out[0]
	}
	return tb.mk("and", "", SBool, out...)
}

// Or disjoins.
func (tb *TB) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		switch x.op {
		case "false":
			continue
		case "true":
			return tb.True
		}
		ys := []*Term{x}
		if x.op == "or" {
			ys = x.args
		}
		for _, y := range ys {
			if seen[y] {
				continue
			}
			if seen[tb.Not(y)] {
				return tb.True
			}
			seen[y] = true
			out = append(out, y)
		}
	}
	switch len(out) {
	case 0:
		return tb.False
	case 1:
		return out[0]
	}
	return tb.mk("or", "", SBool, out...)
}

// Imp is implication.
func (tb *TB) Imp(a, b *Term) *Term {
	switch {
	case a.op == "true":
		return b
	case a.op == "false", b.op == "true", a == b:
		return tb.True
	case b.op == "false":
		return tb.Not(a)
	}
	return tb.mk("=>", "", SBool, a, b)
}

// linear offset view of an Int term: (base, const)
func (tb *TB) offset(t *Term) (*Term, int64, bool) {
	if v, ok := t.isInt(); ok {
		return nil, v, true
	}
	if t.op == "+" && len(t.args) == 2 {
		if v, ok := t.args[1].isInt(); ok {
			return t.args[0], v, true
		}
	}
	return t, 0, true
}

// distinctTerms reports whether a and b are certainly different.
func (tb *TB) distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		if a.op == "int" && b.op == "int" {
			return a.name != b.name
		}
		b1, c1, _ := tb.offset(a)
		b2, c2, _ := tb.offset(b)
		if b1 == b2 && c1 != c2 {
			return true
		}
		if tb.below(a, b) || tb.below(b, a) {
			return true
		}
	case SStr:
		if a.op == "str" && b.op == "str" {
			return a.name != b.name
		}
	case SBool:
		if a.op == "true" && b.op == "false" || a.op == "false" && b.op == "true" {
			return true
		}
	case SIface:
		if a.op == "mk-iface" && b.op == "mk-iface" {
			return tb.distinctTerms(a.args[0], b.args[0]) || tb.distinctTerms(a.args[1], b.args[1])
		}
	case SSlice:
		if a.op == "mk-slice" && b.op == "mk-slice" {
			for i := range a.args {
				if tb.distinctTerms(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

// below reports that a is a reference certainly smaller than the allocated reference b.
func (tb *TB) below(a, b *Term) bool {
	bb, cb, _ := tb.offset(b)
	if bb == nil || !tb.isBase[bb] || cb < 0 {
		return false
	}
	if v, ok := a.isInt(); ok {
		return v <= 1000
	}
	ba, ca, _ := tb.offset(a)
	if ba != nil && tb.isBase[ba] {
		return ba != bb && ba.birth < bb.birth || ba == bb && ca < cb
	}
	u := tb.ubOf(a)
	if u == nil {
		return false
	}
	bu, cu, _ := tb.offset(u)
	if bu == bb {
		return cu <= cb
	}
	return bu != nil && tb.isBase[bu] && bu.birth < bb.birth
}

// ubOf finds a watermark above a reference term.
func (tb *TB) ubOf(a *Term) *Term {
	if u, ok := tb.ub[a]; ok {
		return u
	}
	switch a.op {
	case "select":
		x, d := a, 0
		var r *Term
		for x.op == "select" {
			r = x.args[1]
			x = x.args[0]
			d++
		}
		if m := tb.meta[x]; m != nil && m.ub != nil && m.d == d && (m.local || tb.below(r, m.ub)) {
			return m.ub
		}
	case "sl.arr", "if.val":
		return tb.ubOf(a.args[0])
	}
	return nil
}

// Eq is equality.
func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.sort != b.sort {
		panic(unsup("equality between sorts %s and %s", a.sort, b.sort))
	}
	if tb.distinctTerms(a, b) {
		return tb.False
	}
	if a.sort == SBool {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return tb.Not(b)
		}
		if b.op == "false" {
			return tb.Not(a)
		}
	}
	if a.op == "ite" && (b.op == "int" || b.op == "str") {
		return tb.Ite(a.args[0], tb.Eq(a.args[1], b), tb.Eq(a.args[2], b))
	}
	if b.op == "ite" && (a.op == "int" || a.op == "str") {
		return tb.Ite(b.args[0], tb.Eq(b.args[1], a), tb.Eq(b.args[2], a))
	}
	if a.op == "mk-iface" && b.op == "mk-iface" || a.op == "mk-slice" && b.op == "mk-slice" {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tb.Eq(a.args[i], b.args[i]))
		}
		return tb.And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk("=", "", SBool, a, b)
}

// Ite is if-then-else.
func (tb *TB) Ite(c, a, b *Term) *Term {
	switch {
	case c.op == "true":
		return a
	case c.op == "false":
		return b
	case a == b:
		return a
	}
	if a.sort == SBool {
		if a.op == "true" && b.op == "false" {
			return c
		}
		if a.op == "false" && b.op == "true" {
			return tb.Not(c)
		}
		if a.op == "true" {
			return tb.Or(c, b)
		}
		if b.op == "false" {
			return tb.And(c, a)
		}
		if a.op == "false" {
			return tb.And(tb.Not(c), b)
		}
		if b.op == "true" {
			return tb.Or(tb.Not(c), a)
		}
	}
	return tb.mk("ite", "", a.sort, c, a, b)
}

// Add is integer addition.
func (tb *TB) Add(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return tb.Int(x + y)
		}
		if x == 0 {
			return b
		}
		a, b = b, a
	}
	if y, ok := b.isInt(); ok {
		if y == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 {
			if z, ok := a.args[1].isInt(); ok {
				return tb.Add(a.args[0], tb.Int(y+z))
			}
		}
	}
	return tb.mk("+", "", SInt, a, b)
}

// Sub is integer subtraction.
func (tb *TB) Sub(a, b *Term) *Term {
	if y, ok := b.isInt(); ok {
		return tb.Add(a, tb.Int(-y))
	}
	if a == b {
		return tb.Int(0)
	}
	return tb.mk("-", "", SInt, a, b)
}

// Mul is multiplication.
func (tb *TB) Mul(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return tb.Int(x * y)
		}
		if x == 1 {
			return b
		}
	}
	return tb.mk("*", "", SInt, a, b)
}

// Le is <=.
func (tb *TB) Le(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	b1, c1, _ := tb.offset(a)
	b2, c2, _ := tb.offset(b)
	if b1 == b2 && (b1 != nil || (a.op == "int" && b.op == "int")) {
		if b1 == nil {
			if _, ok := a.isInt(); !ok {
				return tb.mk("<=", "", SBool, a, b)
			}
			if _, ok := b.isInt(); !ok {
				return tb.mk("<=", "", SBool, a, b)
			}
		}
		return tb.Bool(c1 <= c2)
	}
	return tb.mk("<=", "", SBool, a, b)
}

// Lt is <.
func (tb *TB) Lt(a, b *Term) *Term { return tb.Not(tb.Le(b, a)) }

// Select reads an array.
func (tb *TB) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if tb.distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if f := tb.frameOf[a]; f != nil && i.sort == SInt {
		if tb.below(i, f.wm) {
			ok := true
			for _, x := range f.except {
				if !tb.distinctTerms(x, i) {
					ok = false
				}
			}
			if ok {
				return tb.Select(f.parent, i)
			}
		}
	}
	_, v, ok := arrParts(a.sort)
	if !ok {
		panic(unsup("select on sort %s", a.sort))
	}
	if a.op == "ite" && a.args[1].op != "const" {
		return tb.Ite(a.args[0], tb.Select(a.args[1], i), tb.Select(a.args[2], i))
	}
	return tb.mk("select", "", v, a, i)
}

// Store writes an array.
func (tb *TB) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "select" && false {
		return a
	}
	k, e, _ := arrParts(a.sort)
	if i.sort != k || v.sort != e {
		panic(unsup("store %s into %s at %s", v.sort, a.sort, i.sort))
	}
	// storing back the same value
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return tb.mk("store", "", a.sort, a, i, v)
}

// ConstArr is a constant array.
func (tb *TB) ConstArr(s Sort, v *Term) *Term { return tb.mk("constarr", "", s, v) }

// Slices and interfaces.
func (tb *TB) MkSlice(arr, off, ln, cp *Term) *Term {
	return tb.mk("mk-slice", "", SSlice, arr, off, ln, cp)
}
func (tb *TB) slacc(n string, i int, s *Term) *Term {
	if s.op == "mk-slice" {
		return s.args[i]
	}
	if s.op == "ite" {
		return tb.Ite(s.args[0], tb.slacc(n, i, s.args[1]), tb.slacc(n, i, s.args[2]))
	}
	return tb.mk(n, "", SInt, s)
}
func (tb *TB) SlArr(s *Term) *Term { return tb.slacc("sl.arr", 0, s) }
func (tb *TB) SlOff(s *Term) *Term { return tb.slacc("sl.off", 1, s) }
func (tb *TB) SlLen(s *Term) *Term { return tb.slacc("sl.len", 2, s) }
func (tb *TB) SlCap(s *Term) *Term { return tb.slacc("sl.cap", 3, s) }
func (tb *TB) NilSlice() *Term     { z := tb.Int(0); return tb.MkSlice(z, z, z, z) }
func (tb *TB) MkIface(tag, v *Term) *Term {
	return tb.mk("mk-iface", "", SIface, tag, v)
}
func (tb *TB) IfTag(s *Term) *Term {
	if s.op == "mk-iface" {
		return s.args[0]
	}
	if s.op == "ite" {
		return tb.Ite(s.args[0], tb.IfTag(s.args[1]), tb.IfTag(s.args[2]))
	}
	return tb.mk("if.tag", "", SInt, s)
}
func (tb *TB) IfVal(s *Term) *Term {
	if s.op == "mk-iface" {
		return s.args[1]
	}
	if s.op == "ite" {
		return tb.Ite(s.args[0], tb.IfVal(s.args[1]), tb.IfVal(s.args[2]))
	}
	return tb.mk("if.val", "", SInt, s)
}
func (tb *TB) NilIface() *Term { return tb.MkIface(tb.Int(0), tb.Int(0)) }

// Forall quantifies.
func (tb *TB) Forall(vs []*Term, pats [][]*Term, body *Term) *Term {
	return tb.quantify("forall", vs, pats, body)
}

// Exists quantifies.
func (tb *TB) Exists(vs []*Term, pats [][]*Term, body *Term) *Term {
	return tb.quantify("exists", vs, pats, body)
}
func (tb *TB) quantify(op string, vs []*Term, pats [][]*Term, body *Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	return tb.mkq(op, "", SBool, vs, tb.cleanPats(vs, pats), body)
}

func hasOp(t *Term, ops map[string]bool) bool {
	if ops[t.op] {
		return true
	}
	for _, a := range t.args {
		if hasOp(a, ops) {
			return true
		}
	}
	return false
}

var noPatOps = map[string]bool{"ite": true, "and": true, "or": true, "not": true, "=": true, "<=": true, "=>": true}

// cleanPats replaces pattern terms that contain logical operators by their usable parts.
func (tb *TB) cleanPats(vs []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, g := range pats {
		alts := [][]*Term{nil}
		for _, t := range g {
			if !hasOp(t, noPatOps) {
				for i := range alts {
					alts[i] = append(alts[i][:len(alts[i]):len(alts[i])], t)
				}
				continue
			}
			var parts []*Term
			var rec func(t *Term)
			rec = func(t *Term) {
				if !t.hasBV {
					return
				}
				if (t.op == "app" || t.op == "select") && !hasOp(t, noPatOps) {
					for _, p := range parts {
						if p == t {
							return
						}
					}
					parts = append(parts, t)
					return
				}
				for _, a := range t.args {
					rec(a)
				}
			}
			rec(t)
			var na [][]*Term
			for _, a := range alts {
				for _, p := range parts {
					if len(na) < 6 {
						na = append(na, append(a[:len(a):len(a)], p))
					}
				}
			}
			alts = na
		}
		for _, a := range alts {
			have := map[*Term]bool{}
			for _, t := range a {
				t.boundIn(have)
			}
			ok := true
			for _, v := range vs {
				ok = ok && have[v]
			}
			if ok {
				out = append(out, a)
			}
		}
	}
	return out
}

func (t *Term) boundIn(m map[*Term]bool) {
	if t.op == "bvar" {
		m[t] = true
	}
	if !t.hasBV {
		return
	}
	for _, a := range t.args {
		a.boundIn(m)
	}
}

// Subst replaces terms (not under capture-prone binders; bound variables are globally unique).
func (tb *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			ch = ch || na[i] != a
		}
		r := t
		if ch {
			r = tb.rebuild(t, na, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (tb *TB) rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case "not":
		return tb.Not(a[0])
	case "and":
		return tb.And(a...)
	case "or":
		return tb.Or(a...)
	case "=>":
		return tb.Imp(a[0], a[1])
	case "=":
		return tb.Eq(a[0], a[1])
	case "ite":
		return tb.Ite(a[0], a[1], a[2])
	case "+":
		return tb.Add(a[0], a[1])
	case "-":
		return tb.Sub(a[0], a[1])
	case "<=":
		return tb.Le(a[0], a[1])
	case "select":
		return tb.Select(a[0], a[1])
	case "store":
		return tb.Store(a[0], a[1], a[2])
	case "sl.arr":
		return tb.SlArr(a[0])
	case "sl.off":
		return tb.SlOff(a[0])
	case "sl.len":
		return tb.SlLen(a[0])
	case "sl.cap":
		return tb.SlCap(a[0])
	case "if.tag":
		return tb.IfTag(a[0])
	case "if.val":
		return tb.IfVal(a[0])
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, x := range p {
				np = append(np, rec(x))
			}
			pats = append(pats, np)
		}
		return tb.quantify(t.op, t.bound, pats, a[0])
	}
	r := tb.mkq(t.op, t.name, t.sort, t.bound, t.pats, a...)
	return r
}

// ---------------------------------------------------------------- printing

func smtName(n string) string {
	if strings.HasPrefix(n, "str.") {
		n = "s" + n[3:] // not the solver's own string operators
		return "|s_" + n + "|"
	}
	return "|" + n + "|"
}

func intLit(n string) string {
	if strings.HasPrefix(n, "-") {
		return "(- " + n[1:] + ")"
	}
	return n
}

// symbols collects constants, functions and string literals used.
type symtab struct {
	consts map[*Term]bool
	funs   map[string]bool
	strs   map[*Term]bool
	sorts  map[Sort]bool
	ops    map[string]bool
	seen   map[*Term]bool
}

func newSymtab() *symtab {
	return &symtab{map[*Term]bool{}, map[string]bool{}, map[*Term]bool{}, map[Sort]bool{}, map[string]bool{}, map[*Term]bool{}}
}

func (s *symtab) add(t *Term) {
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	s.sorts[t.sort] = true
	switch t.op {
	case "const":
		s.consts[t] = true
	case "app":
		s.funs[t.name] = true
	case "str":
		s.strs[t] = true
	default:
		s.ops[t.op] = true
	}
	for _, a := range t.args {
		s.add(a)
	}
	for _, b := range t.bound {
		s.sorts[b.sort] = true
	}
	for _, p := range t.pats {
		for _, a := range p {
			s.add(a)
		}
	}
}

// printer prints a set of terms with sharing through define-fun.
type printer struct {
	canon   map[*Term]string
	tb      *TB
	theory  bool // native string theory
	out     *strings.Builder
	names   map[*Term]string
	count   map[*Term]int
	nextDef int
	idx     map[*Term]string
	zero    map[*Term]bool // offsets an assertion says are zero
}

func (p *printer) countRefs(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.countRefs(a)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			p.countRefs(a)
		}
	}
}

func smtSort(s Sort, theory bool) string {
	if theory {
		// replace the token Str by String
		str := string(s)
		var out []string
		for _, f := range strings.Fields(strings.NewReplacer("(", "( ", ")", " )").Replace(str)) {
			if f == "Str" {
				f = "String"
			}
			out = append(out, f)
		}
		return strings.NewReplacer("( ", "(", " )", ")").Replace(strings.Join(out, " "))
	}
	return string(s)
}

func strLitTheory(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\':
			b.WriteString(`\u{5c}`)
		case c < 32 || c > 126:
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func strLitUF(s string) string {
	var b strings.Builder
	b.WriteString("|s:")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' || c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, "~%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('|')
	return b.String()
}

// realNames prints symbols under their own names (for debugging; canonical names make equal queries equal texts).
var realNames = os.Getenv("GV_NAMES") != ""

func (p *printer) sym(t *Term) string {
	if p.canon == nil {
		return smtName(t.name)
	}
	if n, ok := p.canon[t]; ok {
		return n
	}
	n := fmt.Sprintf("b!%d", len(p.canon))
	p.canon[t] = n
	return n
}

// def returns the text for t, emitting definitions for shared closed subterms.
func (p *printer) txt(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case "true", "false":
		return t.op
	case "const", "bvar":
		return p.sym(t)
	case "int":
		return intLit(t.name)
	case "str":
		if p.theory {
			return strLitTheory(t.name)
		}
		return strLitUF(t.name)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for i, v := range t.bound {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + p.sym(v) + " " + smtSort(v.sort, p.theory) + ")")
		}
		b.WriteString(") ")
		body := p.txt(t.args[0])
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range t.pats {
				b.WriteString(" :pattern (")
				for i, a := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.txt(a))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		s = b.String()
	case "constarr":
		if _, v, _ := arrParts(t.sort); !p.theory && p.out != nil && (v == SStr || v == SBytes || v == SList) {
			// constant arrays of uninterpreted values: a named array and its defining axiom (cvc5 wants values there)
			if n, ok := p.names[t]; ok {
				return n
			}
			k, _, _ := arrParts(t.sort)
			p.nextDef++
			n := fmt.Sprintf("ca!%d", p.nextDef)
			z := p.txt(t.args[0])
			fmt.Fprintf(p.out, "(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, smtSort(t.sort, false), smtSort(k, false), n, z, n)
			p.names[t] = n
			return n
		}
		s = "((as const " + smtSort(t.sort, p.theory) + ") " + p.txt(t.args[0]) + ")"
	case "app":
		if len(t.args) == 0 {
			return p.funName(t.name)
		}
		var b strings.Builder
		b.WriteString("(" + p.funName(t.name))
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(p.txt(a))
		}
		b.WriteString(")")
		s = b.String()
	default:
		var b strings.Builder
		b.WriteString("(" + t.op)
		for i, a := range t.args {
			b.WriteByte(' ')
			if x, ok := "", false; i == 1 && !p.theory && (t.op == "select" || t.op == "store") {
				if x, ok = p.index(a); ok {
					b.WriteString(x)
					continue
				}
			}
			b.WriteString(p.txt(a))
		}
		b.WriteString(")")
		s = b.String()
	}
	if p.count[t] > 1 && !t.hasBV && len(s) > 24 {
		p.nextDef++
		n := fmt.Sprintf("d!%d", p.nextDef)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, smtSort(t.sort, p.theory), s)
		p.names[t] = n
		return n
	}
	return s
}

// index prints offset + i, the place of element i of a slice, as (ix offset i): solvers reorder sums, so
// triggers containing sums match unreliably.  ix is defined to be the sum.
func (p *printer) index(t *Term) (string, bool) {
	if t.sort != SInt {
		return "", false
	}
	if n, ok := p.idx[t]; ok {
		return n, n != ""
	}
	var off *Term
	var rest []*Term
	var flat func(x *Term)
	flat = func(x *Term) {
		switch {
		case x.op == "+":
			for _, a := range x.args {
				flat(a)
			}
		case x.op == "sl.off" && off == nil && !x.hasBV:
			off = x
		default:
			rest = append(rest, x)
		}
	}
	flat(t)
	if off == nil {
		p.idx[t] = ""
		return "", false
	}
	zero := p.zero[off]
	n := "0"
	switch len(rest) {
	case 0:
	case 1:
		n = p.txt(rest[0])
	default:
		n = "(+"
		for _, x := range rest {
			n += " " + p.txt(x)
		}
		n += ")"
	}
	r := "(ix " + p.txt(off) + " " + n + ")"
	if zero {
		r = n // an assertion says that the offset is zero
	}
	if !t.hasBV {
		p.idx[t] = r
	}
	return r, true
}

// theoryOps maps string function symbols to SMT-LIB theory operators.
var theoryOps = map[string]string{
	"str.len": "str.len", "str.concat": "str.++", "str.prefixof": "str.prefixof", "str.suffixof": "str.suffixof",
	"str.contains": "str.contains", "str.indexof": "str.indexof", "str.substr": "str.substr", "str.at": "str.at",
	"str.code": "str.to_code", "str.fromcode": "str.from_code", "str.lt": "str.<", "str.le": "str.<=",
}

func (p *printer) funName(n string) string {
	if p.theory {
		if o, ok := theoryOps[n]; ok {
			return o
		}
	}
	return smtName(n)
}

// Query is a proof obligation in SMT-LIB form.
func (tb *TB) Query(asserts []*Term, theory bool) string {
	st := newSymtab()
	for _, a := range asserts {
		st.add(a)
	}
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	if !theory {
		b.WriteString("(declare-sort Str 0)\n")
	}
	b.WriteString("(declare-sort Bytes 0)\n(declare-sort StrList 0)\n")
	b.WriteString("(declare-datatypes ((Slice 0)) (((mk-slice (sl.arr Int) (sl.off Int) (sl.len Int) (sl.cap Int)))))\n")
	b.WriteString("(declare-datatypes ((Iface 0)) (((mk-iface (if.tag Int) (if.val Int)))))\n")
	if !theory {
		b.WriteString("(declare-fun ix (Int Int) Int)\n(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))\n")
	}
	for _, f := range tb.forder {
		if !st.funs[f] {
			continue
		}
		if theory {
			if _, ok := theoryOps[f]; ok {
				continue
			}
		}
		d := tb.funs[f]
		var as []string
		for _, a := range d.args {
			as = append(as, smtSort(a, theory))
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(f), strings.Join(as, " "), smtSort(d.res, theory))
	}
	var cs []*Term
	for c := range st.consts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	canon := map[*Term]string{}
	for i, c := range cs {
		if realNames {
			canon[c] = smtName(c.name)
		} else {
			canon[c] = fmt.Sprintf("k!%d", i)
		}
		fmt.Fprintf(&b, "(declare-const %s %s)\n", canon[c], smtSort(c.sort, theory))
	}
	if !theory {
		var ls []*Term
		for c := range st.strs {
			ls = append(ls, c)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].name < ls[j].name })
		for _, c := range ls {
			fmt.Fprintf(&b, "(declare-const %s Str)\n", strLitUF(c.name))
		}
		if len(ls) > 1 {
			b.WriteString("(assert (distinct")
			for _, c := range ls {
				b.WriteString(" " + strLitUF(c.name))
			}
			b.WriteString("))\n")
		}
		if st.funs["str.len"] {
			for _, c := range ls {
				fmt.Fprintf(&b, "(assert (= (|s_s.len| %s) %d))\n", strLitUF(c.name), len(c.name))
			}
			fmt.Fprintf(&b, "(assert (forall ((x Str)) (! (>= (|s_s.len| x) 0) :pattern ((|s_s.len| x)))))\n")
			if st.strs[tb.Str("")] {
				fmt.Fprintf(&b, "(assert (forall ((x Str)) (! (=> (= (|s_s.len| x) 0) (= x |s:|)) :pattern ((|s_s.len| x)))))\n")
			}
		}
	}
	p := &printer{canon: canon, tb: tb, theory: theory, out: &b, names: map[*Term]string{}, count: map[*Term]int{}, idx: map[*Term]string{}, zero: map[*Term]bool{}}
	for _, a := range asserts {
		if a.op == "=" && len(a.args) == 2 {
			for i, x := range a.args {
				if y := a.args[1-i]; x.op == "sl.off" && y.op == "int" && y.name == "0" {
					p.zero[x] = true
				}
			}
		}
	}
	for _, a := range asserts {
		p.countRefs(a)
	}
	for _, a := range asserts {
		s := p.txt(a)
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (t *Term) String() string {
	var b strings.Builder
	p := &printer{out: &b, names: map[*Term]string{}, count: map[*Term]int{}, idx: map[*Term]string{}}
	return p.txt(t)
}
