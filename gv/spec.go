package main

// Parser of the contract language (.gvs files).

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

// Expr is a specification expression.
type Expr struct {
	op   string // id, int, str, sel, index, call, un, bin, quant, old, ite, update, slice...
	name string
	args []*Expr
	vars []QVar
	pats [][]*Expr
	pos  string
}

// QVar is a quantified variable with a type written in the spec.
type QVar struct{ name, typ string }

// Clause is a labelled formula.
type Clause struct {
	labels []string
	name   string
	e      *Expr
	pos    string
	holes  []QVar
	text   string
}

// Item of a modifies clause.
type ModItem struct {
	kind string // field, all, contents, ghost
	e    *Expr
	name string
}

// Contract of a function.
type Contract struct {
	key       string
	params    []string
	results   []string
	ptypes    []string // optional "as" types
	requires  []*Clause
	ensures   []*Clause
	loopinv   []*Clause
	cellinv   []*Clause // of variables that goroutines write
	asserts   map[string][]*Clause
	modifies  []ModItem
	hasMod    bool
	safety    []string // labels of panic-freedom and callee preconditions
	frame     []string // labels of frame obligations
	inline    bool
	extern    bool
	pure      bool
	mayPanic  bool
	effect    bool
	lemma     bool
	replay    []string
	nilable   map[string]bool
	holds     []*Expr
	rholds    []*Expr
	theory    bool
	pos       string
	pkg       string
	crash     []*Clause
	callsites []*CallSite
	afters    []*After
	gives     map[string]bool
	onexit    []*Clause
	iter      string
	spawn     string
	acquires  []*Expr
	owned     []*Expr // locks whose guarded contents are taken to be reachable only through them
	noverify  bool
	optional  bool
	stable    []*Clause
	benign    bool
	links     bool // append introduces a named array, linked to the old one in both directions
	defines   []*Clause
	unroll    int
}

// CallSite is an obligation attached to calls of a callee inside a function.
type CallSite struct {
	callee string
	params []string
	c      *Clause
}

// After is ghost code run after calls of a callee inside a function: it changes thread-local ghosts only.
type After struct {
	callee  string
	params  []string
	results []string
	mods    []ModItem
	ens     []*Clause
}

// LockDecl declares what a mutex protects.
type LockDecl struct {
	typ, field string
	level      int
	guards     []ModItem
	invs       []*Clause
	history    []*Clause
	onrelease  []*Clause
	labels     []string
	pos, pkg   string
	rely       []*Clause
}

// FuncDef is a logic function: macro (body) or uninterpreted.
type FuncDef struct {
	name   string
	params []QVar
	res    string
	body   *Expr
	pkg    string
}

// GhostDecl is a ghost variable or ghost field.
type GhostDecl struct {
	name  string
	field bool
	of    string
	typ   string
	pkg   string
	// shared ghosts are havocked where other threads may act
}

// Spec is everything read from contract files.
type Spec struct {
	contracts map[string]*Contract
	order     []string
	locks     []*LockDecl
	funcs     map[string]*FuncDef
	ghosts    map[string]*GhostDecl
	axioms    []*Clause
	axpkg     map[*Clause]string
	aliases   map[string]string
	immut     map[string]bool     // immutable fields T.f
	immutLbl  map[string][]string // labels for immutability obligations
	pureExt   map[string]*FuncDef
	nonnil    map[string]bool
	props     map[string]*PropScope
	uniqTypes map[string]bool
	lines     int
	ifaces    map[string]string
	notes     map[string][]string
}

// PropScope lists the functions a property's check verifies.
type PropScope struct {
	id     string
	funcs  []string
	relies map[string]bool // verified by the checks of other properties
	omits  map[string]bool // clauses of these properties are not assumed (they are not needed)
}

type tok struct {
	k, s string
	line int
}

type sparser struct {
	toks []tok
	i    int
	file string
	pkg  string
	sp   *Spec
}

func lex(src, file string) []tok {
	var ts []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "->", "==", "!=", "<=", ">=", "&&", "||", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string %s", file, line, src[i:j+1]))
			}
			ts = append(ts, tok{"str", s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad char", file, line))
			}
			ts = append(ts, tok{"int", strconv.Itoa(int(r)), line})
			i = j + 1
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j]))) {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '?':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '?') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				ts = append(ts, tok{"op", string(c), line})
				i++
			}
		}
	}
	ts = append(ts, tok{"eof", "", line})
	return ts
}

func newSpec() *Spec {
	return &Spec{contracts: map[string]*Contract{}, funcs: map[string]*FuncDef{}, ghosts: map[string]*GhostDecl{},
		axpkg: map[*Clause]string{}, aliases: map[string]string{}, immut: map[string]bool{}, immutLbl: map[string][]string{},
		pureExt: map[string]*FuncDef{}, nonnil: map[string]bool{}, props: map[string]*PropScope{}, uniqTypes: map[string]bool{}, ifaces: map[string]string{}, notes: map[string][]string{}}
}

func (sp *Spec) parseFile(file string) (err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	sp.lines += strings.Count(string(b), "\n")
	p := &sparser{toks: lex(string(b), file), file: file, sp: sp}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	p.top()
	return err
}

func (p *sparser) peek() tok { return p.toks[p.i] }
func (p *sparser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *sparser) pos() string { return fmt.Sprintf("%s:%d", p.file, p.peek().line) }

// dotted name a.b.c
func (p *sparser) dotted() string {
	s := ""
	if p.accept("(") { // (T).m form not needed
		p.fail("unexpected (")
	}
	s = p.ident()
	for p.is(".") || (p.is("/") || p.is("-")) && p.toks[p.i+1].k == "id" && false {
		p.next()
		s += "." + p.ident()
	}
	return s
}

// typ parses a type: returns its text
func (p *sparser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	case p.is("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	case p.is("arr"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "arr[" + k + "]" + p.typ()
	case p.is("set"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "arr[" + k + "]bool"
	case p.is("chan"):
		p.next()
		return "chan " + p.typ()
	case p.is("struct"):
		p.next()
		p.expect("{")
		p.expect("}")
		return "struct{}"
	}
	return p.dotted()
}

func (p *sparser) labels() []string {
	var l []string
	if p.accept("[") {
		for !p.is("]") {
			l = append(l, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	return l
}

func (p *sparser) clause() *Clause {
	c := &Clause{pos: p.pos()}
	c.labels = p.labels()
	// optional name:
	if p.peek().k == "id" && p.toks[p.i+1].k == "op" && p.toks[p.i+1].s == ":" {
		c.name = p.ident()
		p.next()
	}
	st := p.i
	c.e = p.expr(0)
	c.text = p.text(st, p.i)
	return c
}

func (p *sparser) text(a, b int) string {
	var sb strings.Builder
	for i := a; i < b; i++ {
		if p.toks[i].k == "str" {
			sb.WriteString(strconv.Quote(p.toks[i].s))
		} else {
			sb.WriteString(p.toks[i].s)
		}
		if i+1 < b && p.toks[i].k != "op" && p.toks[i+1].k != "op" {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

func (p *sparser) modItems() []ModItem {
	var l []ModItem
	for {
		switch {
		case p.accept("none"):
		case p.accept("ghost"):
			l = append(l, ModItem{kind: "ghost", name: p.ident()})
		case p.accept("gfield"):
			n := p.ident()
			p.expect("(")
			e := p.expr(0)
			p.expect(")")
			l = append(l, ModItem{kind: "gfield", name: n, e: e})
		case p.accept("allg"):
			l = append(l, ModItem{kind: "allg", name: p.ident()})
		case p.accept("contents"):
			p.expect("(")
			e := p.expr(0)
			p.expect(")")
			l = append(l, ModItem{kind: "contents", e: e})
		case p.accept("all"):
			l = append(l, ModItem{kind: "all", name: p.dotted()})
		case p.accept("maps"):
			l = append(l, ModItem{kind: "maps", name: p.typ()})
		case p.accept("mem"):
			l = append(l, ModItem{kind: "mem", name: p.typ()})
		default:
			e := p.expr(9)
			l = append(l, ModItem{kind: "field", e: e})
		}
		if !p.accept(",") {
			return l
		}
	}
}

// qualified reads T.f and puts the current package in front.
func (p *sparser) qualified() string {
	n := p.dotted()
	if strings.Count(n, ".") == 1 && p.pkg != "" {
		n = p.pkg + "." + n
	}
	return n
}

func (p *sparser) top() {
	for p.peek().k != "eof" {
		switch {
		case p.accept("package"):
			p.pkg = p.ident()
		case p.accept("alias"):
			a := p.dotted()
			p.expect("=")
			p.sp.aliases[a] = p.dotted()
		case p.accept("immutable"):
			lb := p.labels()
			for {
				n := p.qualified()
				p.sp.immut[n] = true
				p.sp.immutLbl[n] = lb
				if !p.accept(",") {
					break
				}
			}
		case p.accept("nonnil"):
			for {
				p.sp.nonnil[p.qualified()] = true
				if !p.accept(",") {
					break
				}
			}
		case p.accept("note"):
			id := p.ident()
			t := p.next()
			p.sp.notes[id] = append(p.sp.notes[id], t.s)
		case p.accept("property"):
			ps := &PropScope{id: p.ident()}
			p.expect(":")
			for {
				ps.funcs = append(ps.funcs, p.dotted())
				if !p.accept(",") {
					break
				}
			}
			ps.relies = map[string]bool{}
			if p.accept("relies") {
				for {
					ps.relies[p.dotted()] = true
					if !p.accept(",") {
						break
					}
				}
			}
			ps.omits = map[string]bool{}
			if p.accept("omits") {
				for {
					ps.omits[p.ident()] = true
					if !p.accept(",") {
						break
					}
				}
			}
			p.sp.props[ps.id] = ps
		case p.accept("ghost"):
			switch {
			case p.accept("var"):
				g := &GhostDecl{name: p.ident(), pkg: p.pkg}
				g.typ = p.typ()
				p.sp.ghosts[g.name] = g
			case p.accept("field"):
				g := &GhostDecl{field: true, name: p.ident(), pkg: p.pkg}
				p.expect("(")
				g.of = p.typ()
				p.expect(")")
				g.typ = p.typ()
				p.sp.ghosts[g.name] = g
			default:
				p.fail("ghost var/field")
			}
		case p.accept("def"):
			f := &FuncDef{name: p.ident(), pkg: p.pkg}
			f.params = p.qvarsParen()
			f.res = p.typ()
			p.expect("=")
			f.body = p.expr(0)
			p.sp.funcs[f.name] = f
		case p.accept("logic"):
			f := &FuncDef{name: p.ident(), pkg: p.pkg}
			f.params = p.qvarsParen()
			f.res = p.typ()
			p.sp.funcs[f.name] = f
		case p.accept("pure"):
			p.expect("func")
			f := &FuncDef{name: p.dotted(), pkg: p.pkg}
			f.params = p.qvarsParen()
			f.res = p.typ()
			p.sp.pureExt[f.name] = f
		case p.accept("axiom"):
			c := p.clause()
			p.sp.axioms = append(p.sp.axioms, c)
			p.sp.axpkg[c] = p.pkg
		case p.accept("lock"):
			p.lock()
		case p.is("func") || p.is("extern") || p.is("lemma"):
			k := p.next().s
			p.contract(k)
		default:
			p.fail("unknown declaration")
		}
	}
}

func (p *sparser) qvarsParen() []QVar {
	var vs []QVar
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		vs = append(vs, QVar{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return vs
}

func (p *sparser) lock() {
	l := &LockDecl{pkg: p.pkg, pos: p.pos()}
	n := p.dotted()
	i := strings.LastIndex(n, ".")
	l.typ, l.field = n[:i], n[i+1:]
	p.expect("{")
	for !p.accept("}") {
		switch {
		case p.accept("level"):
			t := p.next()
			l.level, _ = strconv.Atoi(t.s)
		case p.accept("labels"):
			l.labels = p.labels()
		case p.accept("guards"):
			l.guards = append(l.guards, p.modItems()...)
		case p.accept("invariant"):
			l.invs = append(l.invs, p.clause())
		case p.accept("history"):
			l.history = append(l.history, p.clause())
		case p.accept("rely"):
			l.rely = append(l.rely, p.clause())
		case p.accept("onrelease"):
			l.onrelease = append(l.onrelease, p.clause())
		default:
			p.fail("lock clause")
		}
	}
	p.sp.locks = append(p.sp.locks, l)
}

func (p *sparser) contract(kind string) {
	c := &Contract{pos: p.pos(), pkg: p.pkg, nilable: map[string]bool{}}
	c.extern = kind == "extern"
	c.lemma = kind == "lemma"
	c.key = p.dotted()
	if !strings.Contains(c.key, ".") || kind != "extern" && !strings.HasPrefix(c.key, p.pkg+".") && p.pkg != "" {
		c.key = p.pkg + "." + c.key
	}
	p.expect("(")
	for !p.is(")") {
		c.params = append(c.params, p.ident())
		if p.accept("as") {
			c.ptypes = append(c.ptypes, p.typ())
		} else {
			c.ptypes = append(c.ptypes, "")
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.accept("(") {
		for !p.is(")") {
			c.results = append(c.results, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
	}
	if p.accept("{") {
		for !p.accept("}") {
			p.contractClause(c)
		}
	}
	if _, dup := p.sp.contracts[c.key]; dup {
		p.fail("duplicate contract %s", c.key)
	}
	p.sp.contracts[c.key] = c
	p.sp.order = append(p.sp.order, c.key)
}

// callee reads the name of a called function; names of the current package may be short.
func (p *sparser) callee() string {
	n := p.dotted()
	if n == "go" {
		return n
	}
	if p.pkg != "" && (!strings.Contains(n, ".") || n[0] >= 'A' && n[0] <= 'Z') {
		n = p.pkg + "." + n
	}
	return n
}

// checkNames refuses ghosts and logic functions of the same name.
func (sp *Spec) checkNames() error {
	for n := range sp.ghosts {
		if _, ok := sp.funcs[n]; ok {
			return fmt.Errorf("%s is both a ghost and a logic function", n)
		}
	}
	return nil
}

func (p *sparser) contractClause(c *Contract) {
	switch {
	case p.accept("requires"):
		c.requires = append(c.requires, p.clause())
	case p.accept("ensures"):
		c.ensures = append(c.ensures, p.clause())
	case p.accept("loopinv"), p.accept("cellinv"):
		cell := p.toks[p.i-1].s == "cellinv"
		var holes []QVar
		if p.accept("<") {
			for {
				n := p.ident()
				p.expect(":")
				holes = append(holes, QVar{n, p.typ()})
				if !p.accept(",") {
					break
				}
			}
			p.expect(">")
		}
		cl := p.clause()
		cl.holes = holes
		if cell {
			c.cellinv = append(c.cellinv, cl)
		} else {
			c.loopinv = append(c.loopinv, cl)
		}
	case p.accept("callsite"):
		cs := &CallSite{}
		lb := p.labels()
		cs.callee = p.callee()
		p.expect("(")
		for !p.is(")") {
			cs.params = append(cs.params, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		p.expect(":")
		st := p.i
		cl := &Clause{pos: p.pos(), labels: lb, e: p.expr(0)}
		cl.text = p.text(st, p.i)
		cs.c = cl
		c.callsites = append(c.callsites, cs)
	case p.is("after") || p.is("enter"):
		a := &After{}
		enter := p.accept("enter")
		if enter { // at the start of the function
			a.callee = "enter"
		} else {
			p.accept("after")
			a.callee = p.callee()
		}
		names := func() (l []string) {
			p.expect("(")
			for !p.is(")") {
				l = append(l, p.ident())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return
		}
		if !enter {
			a.params = names()
		}
		if p.is("(") {
			a.results = names()
		}
		p.expect("{")
		for !p.accept("}") {
			switch {
			case p.accept("modifies"):
				a.mods = append(a.mods, p.modItems()...)
			case p.accept("ensures"):
				a.ens = append(a.ens, p.clause())
			default:
				p.fail("clause of after")
			}
		}
		for _, m := range a.mods {
			if !strings.HasPrefix(m.name, "t_") && m.name != "frozen" {
				p.fail("ghost code may change thread-local ghosts only")
			}
		}
		c.afters = append(c.afters, a)
	case p.accept("gives"):
		if c.gives == nil {
			c.gives = map[string]bool{}
		}
		for {
			c.gives[p.ident()] = true
			if !p.accept(",") {
				break
			}
		}
	case p.accept("onexit"):
		c.onexit = append(c.onexit, p.clause())
	case p.accept("crashinv"):
		c.crash = append(c.crash, p.clause())
	case p.accept("stable"):
		c.stable = append(c.stable, p.clause())
	case p.accept("modifies"):
		c.hasMod = true
		c.modifies = append(c.modifies, p.modItems()...)
	case p.accept("safety"):
		c.safety = append(c.safety, p.labels()...)
	case p.accept("frame"):
		c.frame = append(c.frame, p.labels()...)
	case p.accept("inline"):
		c.inline = true
	case p.accept("theory"):
		c.theory = true
	case p.accept("pure"):
		c.pure = true
	case p.accept("appendlinks"):
		c.links = true
	case p.accept("benign"):
		c.benign = true
	case p.accept("effect"):
		c.effect = true
	case p.accept("noverify"):
		c.noverify = true
	case p.accept("optional"):
		c.optional = true
	case p.accept("may_panic"):
		c.mayPanic = true
	case p.accept("spawn"):
		c.spawn = p.ident()
	case p.accept("iterates"):
		c.iter = p.ident()
	case p.accept("nilable"):
		for {
			c.nilable[p.ident()] = true
			if !p.accept(",") {
				break
			}
		}
	case p.accept("holds"):
		c.holds = append(c.holds, p.expr(9))
	case p.accept("locks"):
		c.acquires = append(c.acquires, p.expr(9))
	case p.accept("owned"):
		c.owned = append(c.owned, p.expr(9))
	case p.accept("rholds"):
		c.rholds = append(c.rholds, p.expr(9))
	default:
		p.fail("unknown clause")
	}
}

// ---------------------------------------------------------------- expressions

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7}

func (p *sparser) expr(min int) *Expr {
	e := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return e
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return e
		}
		pos := p.pos()
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		e = &Expr{op: "bin", name: t.s, args: []*Expr{e, r}, pos: pos}
	}
}

func (p *sparser) unary() *Expr {
	pos := p.pos()
	switch {
	case p.accept("!"):
		return &Expr{op: "un", name: "!", args: []*Expr{p.unary()}, pos: pos}
	case p.accept("-"):
		return &Expr{op: "un", name: "-", args: []*Expr{p.unary()}, pos: pos}
	case p.is("forall") || p.is("exists"):
		q := p.next().s
		e := &Expr{op: q, pos: pos}
		for {
			n := p.ident()
			names := []string{n}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			ty := p.typ()
			for _, n := range names {
				e.vars = append(e.vars, QVar{n, ty})
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var ps []*Expr
			for !p.is("}") {
				ps = append(ps, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.pats = append(e.pats, ps)
		}
		e.args = []*Expr{p.expr(0)}
		return e
	}
	return p.postfix(p.primary())
}

func (p *sparser) primary() *Expr {
	pos := p.pos()
	t := p.next()
	switch {
	case t.k == "int":
		return &Expr{op: "int", name: t.s, pos: pos}
	case t.k == "str":
		return &Expr{op: "str", name: t.s, pos: pos}
	case t.k == "op" && t.s == "(":
		e := p.expr(0)
		p.expect(")")
		return e
	case t.k == "id":
		return &Expr{op: "id", name: t.s, pos: pos}
	}
	p.i--
	p.fail("expected expression")
	return nil
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		pos := p.pos()
		switch {
		case p.accept("."):
			e = &Expr{op: "sel", name: p.ident(), args: []*Expr{e}, pos: pos}
		case p.accept("["):
			i := p.expr(0)
			if p.accept(":=") {
				v := p.expr(0)
				p.expect("]")
				e = &Expr{op: "update", args: []*Expr{e, i, v}, pos: pos}
			} else {
				p.expect("]")
				e = &Expr{op: "index", args: []*Expr{e, i}, pos: pos}
			}
		case p.accept("("):
			c := &Expr{op: "call", args: []*Expr{e}, pos: pos}
			isType := e.op == "id" && (e.name == "typeis" || e.name == "sumof" || e.name == "as")
			for !p.is(")") {
				if isType && len(c.args) == 2 && c.name == "" {
					c.name = p.typ()
				} else {
					c.args = append(c.args, p.expr(0))
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
