package main

// Branches: short-circuit conditions are folded into one condition, so that they do not
// multiply the paths.

import (
	"golang.org/x/tools/go/ssa"
)

// arm is one way out of a folded condition.
type arm struct {
	to  *ssa.BasicBlock
	phi map[*ssa.Phi]Val
}

func (e *Eng) armOf(st *State, from, to *ssa.BasicBlock) (arm, bool) {
	a := arm{to: to, phi: map[*ssa.Phi]Val{}}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if pi >= 0 {
				return a, false
			}
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a.phi[p] = e.val(st, p.Edges[pi])
	}
	return a, true
}

// mergeArms joins two ways into one block: x if c, else y.
func (e *Eng) mergeArms(c *Term, x, y arm) (arm, bool) {
	r := arm{to: x.to, phi: map[*ssa.Phi]Val{}}
	for p, v := range x.phi {
		w := y.phi[p]
		a, ok1 := v.(*Term)
		b, ok2 := w.(*Term)
		switch {
		case ok1 && ok2 && a == b:
			r.phi[p] = a
		case ok1 && ok2 && a.sort == SBool && b.sort == SBool:
			r.phi[p] = e.tb.Ite(c, a, b)
		default:
			return r, false
		}
	}
	return r, true
}

// pureBlock reports whether a block only computes.
func (e *Eng) pureBlock(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Lookup, *ssa.Extract, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Index, *ssa.If, *ssa.Jump:
		case *ssa.UnOp:
			if in.Op.String() == "<-" {
				return false
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() != "len" && bi.Name() != "cap" {
					return false
				}
				continue
			}
			if !e.foldable(in) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Eng) sameState(a, b *State) bool {
	if len(a.frames) != len(b.frames) || a.wm != b.wm || len(a.held) != len(b.held) || b.dead {
		return false
	}
	for k, v := range b.heap {
		if w, ok := a.heap[k]; ok && w != v {
			return false
		}
	}
	return true
}

func (e *Eng) branch(st *State, in *ssa.If) []*State {
	tb := e.tb
	f := st.top()
	c := e.term(st, in.Cond)
	p := e.pos(in.Cond.Pos())
	t, ok1 := e.armOf(st, f.block, f.block.Succs[0])
	fl, ok2 := e.armOf(st, f.block, f.block.Succs[1])
	if ok1 && ok2 && !c.isBoolConst() {
		folded := map[*ssa.BasicBlock]bool{f.block: true}
		li := e.w.loopsOf(f.fn)
	again:
		for side := 0; side < 2; side++ {
			in, out, g := t, fl, c // in: the way into the block to fold
			if side == 1 {
				in, out, g = fl, t, tb.Not(c)
			}
			b := in.to
			if li.headers[b] != nil || li.headers[out.to] != nil || len(in.phi) > 0 || !e.pureBlock(b) {
				continue
			}
			all := true
			for _, q := range b.Preds {
				all = all && folded[q]
			}
			last := b.Instrs[len(b.Instrs)-1]
			_, isJump := last.(*ssa.Jump)
			if !all || isJump && b.Succs[0] != out.to || !isJump && b.Succs[0] != out.to && b.Succs[1] != out.to || !isJump && b.Succs[0] == b.Succs[1] {
				continue
			}
			o := st.clone()
			o.assume(e, g)
			base := len(o.pc)
			of := o.top()
			of.prev, of.block, of.i = of.block, b, 0
			ok := true
			for of.i < len(b.Instrs)-1 && ok {
				more := e.step(o)
				ok = len(more) == 0 && !o.dead && len(o.frames) == len(st.frames)
			}
			if !ok || !e.sameState(st, o) {
				continue
			}
			var c2 *Term
			if !isJump {
				c2 = e.term(o, last.(*ssa.If).Cond)
			}
			var nt, nf arm
			if isJump {
				a, aok := e.armOf(o, b, out.to)
				m, mok := e.mergeArms(g, a, out)
				if !aok || !mok {
					continue
				}
				e.adopt(st, o, g, base)
				st.top().phi = m.phi
				st.top().block = b
				st.trace = append(st.trace, p+" folded")
				e.jump(st, out.to)
				return nil
			}
			// the shared way out
			shTrue := b.Succs[0] == out.to
			other := b.Succs[1]
			if !shTrue {
				other = b.Succs[0]
			}
			sh, aok := e.armOf(o, b, out.to)
			m, mok := e.mergeArms(g, sh, out)
			oth, ook := e.armOf(o, b, other)
			if !aok || !mok || !ook {
				continue
			}
			e.adopt(st, o, g, base)
			if !shTrue {
				c2 = tb.Not(c2)
			}
			// taken to the shared block: not g, or g and c2
			share := tb.Or(tb.Not(g), c2)
			c, nt, nf = share, m, oth
			t, fl = nt, nf
			folded[b] = true
			st.top().block = b
			if c.isBoolConst() {
				break again
			}
			goto again
		}
	}
	go1 := func(s *State, a arm) {
		s.top().phi = a.phi
		// any predecessor of the target will do: the phi values are given
		fr := s.top()
		okp := false
		for _, q := range a.to.Preds {
			okp = okp || q == fr.block
		}
		if !okp {
			fr.block = a.to.Preds[0]
			for _, q := range a.to.Preds {
				if q.Dominates(a.to) {
					fr.block = q
				}
			}
		}
		e.jump(s, a.to)
	}
	if c.op == "true" {
		go1(st, t)
		return nil
	}
	if c.op == "false" {
		go1(st, fl)
		return nil
	}
	nc := tb.Not(c)
	ti := e.incr.Infeasible(append(st.pc[:len(st.pc):len(st.pc)], c))
	fi := !ti && e.incr.Infeasible(append(st.pc[:len(st.pc):len(st.pc)], nc))
	switch {
	case ti:
		st.assume(e, nc)
		go1(st, fl)
		return nil
	case fi:
		st.assume(e, c)
		go1(st, t)
		return nil
	}
	o := st.clone()
	o.assume(e, nc)
	o.trace = append(o.trace, p+" false")
	go1(o, fl)
	st.assume(e, c)
	st.trace = append(st.trace, p+" true")
	go1(st, t)
	return []*State{o}
}

// adopt takes over what a folded block computed when g held.
func (e *Eng) adopt(st, o *State, g *Term, base int) {
	for _, x := range o.pc[base:] {
		st.assume(e, e.tb.Imp(g, x))
	}
	for k, v := range o.heap {
		if _, ok := st.heap[k]; !ok {
			st.heap[k] = v
		}
	}
	env := st.top().env
	for k, v := range o.top().env {
		env[k] = v
	}
}

func (e *Eng) foldable(in *ssa.Call) bool {
	if in.Call.IsInvoke() {
		con := e.w.contractFor(e.w.alias(objKey(in.Call.Method)))
		return con != nil && con.hasMod && len(con.modifies) == 0
	}
	fn := in.Call.StaticCallee()
	if fn == nil || len(fn.FreeVars) > 0 {
		return false
	}
	key := e.w.alias(funcKey(fn))
	if con := e.w.contractFor(key); con != nil && !con.inline {
		return con.hasMod && len(con.modifies) == 0
	}
	return len(key) > 8 && key[:8] == "strings."
}

func (t *Term) isBoolConst() bool { return t.op == "true" || t.op == "false" }
