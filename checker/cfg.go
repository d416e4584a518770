package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// liveInfo: SSA values live at the start and at the end of each block.
type liveInfo struct {
	in, out []map[ssa.Value]bool
	after   map[ssa.Instruction]map[ssa.Value]bool
	cand    map[*ssa.Alloc]bool
	cont    []map[*ssa.Alloc]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (p *Program) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := p.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveInfo{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n), after: map[ssa.Instruction]map[ssa.Value]bool{}}
	for i := range l.in {
		l.in[i], l.out[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	var buf [16]*ssa.Value
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					out[v] = true
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if tracked(phi.Edges[pi]) {
							out[phi.Edges[pi]] = true
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				for _, op := range ins.Operands(buf[:0]) {
					if *op != nil && tracked(*op) {
						in[*op] = true
					}
				}
			}
			// phis of this block that are used stay in the in-set: they are assigned on the edge
			if len(out) != len(l.out[bi]) || len(in) != len(l.in[bi]) {
				l.out[bi], l.in[bi] = out, in
				changed = true
			}
		}
	}
	p.live[fn] = l
	p.contentLiveness(fn, l)
	return l
}

// contentLiveness: at the start of which blocks the value of a local variable can still be read
// (variables whose address does not leave the function other than as the argument of a call).
func (p *Program) contentLiveness(fn *ssa.Function, l *liveInfo) {
	l.cont = make([]map[*ssa.Alloc]bool, len(fn.Blocks))
	cand := map[ssa.Value]*ssa.Alloc{} // the variable and the addresses in it
	var addrs func(v ssa.Value, a *ssa.Alloc, into map[ssa.Value]*ssa.Alloc) bool
	addrs = func(v ssa.Value, a *ssa.Alloc, into map[ssa.Value]*ssa.Alloc) bool {
		into[v] = a
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !addrs(x, a, into) {
					return false
				}
			case *ssa.IndexAddr:
				if !addrs(x, a, into) {
					return false
				}
			case *ssa.Call:
				rt := x.Call.Signature().Results()
				for i := 0; i < rt.Len(); i++ {
					switch rt.At(i).Type().Underlying().(type) {
					case *types.Basic, *types.Struct:
					default:
						if !isErrorType(rt.At(i).Type()) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				into := map[ssa.Value]*ssa.Alloc{}
				if addrs(a, a, into) {
					for v := range into {
						cand[v] = a
					}
				}
			}
		}
	}
	l.cand = map[*ssa.Alloc]bool{}
	for _, a := range cand {
		l.cand[a] = true
	}
	var buf [16]*ssa.Value
	for i := range l.cont {
		l.cont[i] = map[*ssa.Alloc]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[*ssa.Alloc]bool{}
			for _, s := range b.Succs {
				for a := range l.cont[s.Index] {
					cur[a] = true
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if a, ok := in.(*ssa.Alloc); ok {
					delete(cur, a)
				}
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.Alloc); ok {
						delete(cur, a)
						continue
					}
				}
				switch in.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					continue
				}
				for _, op := range in.Operands(buf[:0]) {
					if *op != nil && cand[*op] != nil {
						cur[cand[*op]] = true
					}
				}
			}
			if len(cur) != len(l.cont[bi]) {
				l.cont[bi] = cur
				changed = true
			}
		}
	}
}

// liveAfter returns the values live after an instruction.
func (p *Program) liveAfter(ins ssa.Instruction) map[ssa.Value]bool {
	fn := ins.Parent()
	l := p.liveness(fn)
	if m, ok := l.after[ins]; ok {
		return m
	}
	b := ins.Block()
	m := map[ssa.Value]bool{}
	for v := range l.out[b.Index] {
		m[v] = true
	}
	var buf [16]*ssa.Value
	for i := len(b.Instrs) - 1; i >= 0 && b.Instrs[i] != ins; i-- {
		x := b.Instrs[i]
		if v, ok := x.(ssa.Value); ok {
			delete(m, v)
		}
		for _, op := range x.Operands(buf[:0]) {
			if *op != nil && tracked(*op) {
				m[*op] = true
			}
		}
	}
	l.after[ins] = m
	return m
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	outer  *Loop
}

type loopInfo struct {
	order  []int // block index -> priority (lower first), loop bodies are contiguous
	header map[*ssa.BasicBlock]*Loop
	inner  map[*ssa.BasicBlock]*Loop // innermost loop of a block
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	li := &loopInfo{make([]int, len(fn.Blocks)), map[*ssa.BasicBlock]*Loop{}, map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				lp := li.header[s]
				if lp == nil {
					lp = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = lp
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		var best *Loop
		for _, lp := range li.header {
			if lp.body[b] && (best == nil || len(lp.body) < len(best.body)) {
				best = lp
			}
		}
		li.inner[b] = best
	}
	for _, lp := range li.header {
		var best *Loop
		for _, o := range li.header {
			if o != lp && o.body[lp.header] && (best == nil || len(o.body) < len(best.body)) {
				best = o
			}
		}
		lp.outer = best
	}
	// order: reverse postorder in which edges that leave a loop are followed first (so they come last)
	seen := map[*ssa.BasicBlock]bool{}
	n := len(fn.Blocks)
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		lp := li.inner[b]
		var exits, stay []*ssa.BasicBlock
		for _, s := range b.Succs {
			if lp != nil && !lp.body[s] {
				exits = append(exits, s)
			} else {
				stay = append(stay, s)
			}
		}
		for _, s := range append(exits, stay...) {
			if !seen[s] {
				visit(s)
			}
		}
		n--
		li.order[b.Index] = n
	}
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0])
	}
	p.loops[fn] = li
	return li
}
