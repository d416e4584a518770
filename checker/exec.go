package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Hooks is what a property rule observes of the analysed paths.
type Hooks struct {
	Call      func(s *State, c *Call)
	After     func(s *State, c *Call, res *Term)
	Store     func(s *State, addr, val *Term, in ssa.Instruction)
	Load      func(s *State, addr *Term, in ssa.Instruction)
	Deref     func(s *State, ptr *Term, in ssa.Instruction)
	MapLookup func(s *State, m, k *Term, in ssa.Instruction)
	MapUpdate func(s *State, m, k, v *Term, in ssa.Instruction) // v nil: delete
	MapRange  func(s *State, m *Term, in ssa.Instruction)
	Index     func(s *State, x, i *Term, in ssa.Instruction)
	Slice     func(s *State, x, lo, hi *Term, in *ssa.Slice) // lo, hi nil: not given
	Enter     func(s *State, fn *ssa.Function, args []*Term)
	Return    func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction)
	Branch    func(s *State, cond *Term, taken bool, in ssa.Instruction)
	Panic     func(s *State, in ssa.Instruction, why string)
	Assert    func(s *State, x *Term, t types.Type, in ssa.Instruction) // type assertion without ok
	Go        func(s *State, c *Call)
	Wait      func(s *State, what string, in ssa.Instruction)
	Lock      func(s *State, mu *Term, in ssa.Instruction)
	Unlock    func(s *State, mu *Term, in ssa.Instruction)
	Convert   func(s *State, v *Term, from, to types.Type, in ssa.Instruction)
	MakeIface func(s *State, v *Term, in ssa.Instruction)
	RootEnd   func(s *State, fn *ssa.Function, res []*Term)
	Model     func(s *State, k *Call) ([]outcome, bool)
	Decode    func(s *State, target, v *Term, k *Call)
	Append    func(s *State, base *Term, add []*Term, in ssa.Instruction)
	Opaque    func(fn *ssa.Function) bool
	LoopBack  func(s *State, in ssa.Instruction) // an iteration of a loop ends
	GoKeeps   bool                               // goroutines are explored as separate roots
}

// Call describes a call being made.
type Call struct {
	instr  ssa.Instruction
	name   string
	fn     *ssa.Function // resolved function, if it has a body here
	common *ssa.CallCommon
	args   []*Term // receiver first
	inline bool
	defer_ bool
}

func (c *Call) arg(i int) *Term {
	if i < len(c.args) {
		return c.args[i]
	}
	return nil
}

// Engine interprets functions over abstract states.
type Engine struct {
	p          *Program
	h          *Hooks
	steps      int
	maxSteps   int
	late       bool          // no time left
	failed     func() bool   // a violation has been found
	failedAt   time.Duration // when that was first seen
	peak       int
	root       *ssa.Function
	pending    []pendingRoot
	peek       bool // reading leaves no trace in the state
	spawned    map[string]bool
	undecided  map[string]string
	visited    map[*ssa.Function]bool
	calls      map[ssa.Instruction]bool
	nStates    int
	total      int               // instructions interpreted
	sibs       map[*Term][]*Term // results returned together with an error
	debug      bool
	dumpAt     string
	blockCount map[string]int
}

type fnT = *ssa.Function

type pendingRoot struct {
	s    *State
	fn   *ssa.Function
	args []*Term
	bind []*Term
	what string
}

func newEngine(p *Program, h *Hooks) *Engine {
	return &Engine{p: p, h: h, maxSteps: 6000000, spawned: map[string]bool{}, undecided: map[string]string{},
		visited: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{}, sibs: map[*Term][]*Term{}}
}

func (e *Engine) giveUp(where, why string) {
	if _, ok := e.undecided[where]; !ok {
		e.undecided[where] = why
	}
}

// outOfTime says that the analysis has to stop so that the check answers in time: after a violation was found, it
// only goes on for a while to see whether there are others.
func (e *Engine) outOfTime() bool {
	if e.late {
		return true
	}
	t := time.Since(startTime)
	if e.failed != nil && e.failed() {
		if e.failedAt == 0 {
			e.failedAt = t
		}
		e.late = t > e.failedAt+60*time.Second
	}
	if t > 10*time.Minute {
		e.late = true
	}
	if !e.late && e.nStates%(1<<15) == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		e.late = m.HeapInuse > 14<<30
	}
	return e.late
}

var startTime = time.Now()

func newState(e *Engine) *State {
	return &State{e: e, mem: map[*Term]*Term{}, maps: map[*Term]*mapState{}, facts: newFacts(), ver: map[string]*Term{},
		epoch: intern(Term{op: OSym, name: "epoch0"}), rootVer: map[*Term]*Term{}, escaped: map[*Term]bool{},
		forall: map[*Term][]qf{}, mon: map[string]*Term{}}
}

func paramSym(fn *ssa.Function, v ssa.Value) *Term {
	return intern(Term{op: OSym, name: "param:" + fn.String() + "." + v.Name(), typ: v.Type()})
}

// Exit is a way a function returned.
type Exit struct {
	s   *State
	res []*Term
}

// exploreRoot runs a function from an unknown state, then the goroutines it starts.
func (e *Engine) exploreRoot(fn *ssa.Function, setup func(s *State, args []*Term)) {
	e.root = fn
	e.steps = 0
	if os.Getenv("HX_PROFILE") != "" {
		t0, n0 := time.Now(), e.nStates
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintln(os.Stderr, "root", fn, d.Seconds(), e.nStates-n0)
			}
		}()
	}
	s := newState(e)
	var args []*Term
	for i, p := range fn.Params {
		t := paramSym(fn, p)
		args = append(args, t)
		if i == 0 && fn.Signature.Recv() != nil {
			s.facts.assumeRel(t, tNil, NE)
		}
	}
	if lo, hi := e.p.argCount(fn); hi >= 0 {
		n := s.lenOf(args[1])
		if s.facts.assumeRel(n, mkInt(lo), GT|EQ); lo == hi {
			s.facts.assumeRel(n, mkInt(lo), EQ)
		}
		s.facts.assumeRel(n, mkInt(hi), LT|EQ)
	}
	var binds []*Term
	for _, fv := range fn.FreeVars {
		binds = append(binds, paramSym(fn, fv))
	}
	if setup != nil {
		setup(s, args)
	}
	e.runRoot(s, fn, args, binds)
	for len(e.pending) > 0 {
		p := e.pending[0]
		e.pending = e.pending[1:]
		e.runRoot(p.s, p.fn, p.args, p.bind)
	}
}

func (e *Engine) runRoot(s *State, fn *ssa.Function, args, binds []*Term) {
	exits := e.callFn(s, nil, fn, args, binds, nil)
	for _, x := range exits {
		if e.h.RootEnd != nil {
			if x.s.fr == nil {
				x.s.fr = &Frame{fn: fn}
			}
			// whether it succeeded is decided before the check looks at it
			if er := errOf(fn, x.res); er != nil && x.s.facts.possible(er, tNil)&^EQ != 0 && x.s.facts.possible(er, tNil)&EQ != 0 {
				f := x.s.clone()
				if f.facts.assumeRel(er, tNil, NE) {
					e.h.RootEnd(f, fn, x.res)
				}
				if !x.s.facts.assumeRel(er, tNil, EQ) {
					continue
				}
			}
			e.h.RootEnd(x.s, fn, x.res)
		}
	}
}

func (e *Engine) callFn(s *State, at ssa.Instruction, fn *ssa.Function, args, binds []*Term, parent *Ctx) []Exit {
	e.visited[fn] = true
	fr := &Frame{fn: fn, ctx: mkCtx(parent, at, fn), env: map[ssa.Value]*Term{}, caller: s.fr, at: at, loops: map[*ssa.BasicBlock]*loopState{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	caller := s.fr
	s.fr = fr
	if e.h.Enter != nil {
		e.h.Enter(s, fn, args)
	}
	exits := e.run(s)
	// results that cannot be told apart are one
	var out []Exit
	seen := map[string]bool{}
	for _, x := range exits {
		x.s.fr = caller
		if caller != nil {
			x.s.fr = caller.clone()
			if len(exits) > 1 {
				x.s.gc(e.p.liveAfter(at), x.res...)
				k := x.s.key(x.res...)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
		}
		out = append(out, x)
	}
	return out
}

// ---------------------------------------------------------------- control flow

type workItem struct {
	b, prev *ssa.BasicBlock
	s       *State
	seq     int
	prio    int
}

type workList []*workItem

func (w workList) Len() int { return len(w) }
func (w workList) Less(i, j int) bool {
	if w[i].prio != w[j].prio {
		return w[i].prio < w[j].prio
	}
	return w[i].seq < w[j].seq
}
func (w workList) Swap(i, j int) { w[i], w[j] = w[j], w[i] }
func (w *workList) Push(x any)   { *w = append(*w, x.(*workItem)) }
func (w *workList) Pop() any {
	o := *w
	x := o[len(o)-1]
	*w = o[:len(o)-1]
	return x
}

const maxStatesPerBlock = 3000

type runCtx struct {
	e       *Engine
	li      *loopInfo
	work    workList
	seq     int
	seen    map[*ssa.BasicBlock]map[string]bool
	phiVals map[ssa.Value]map[*Term]bool
	memVals map[string]map[*Term]bool
	exits   []Exit
	count   map[*ssa.BasicBlock]int
}

func (e *Engine) run(s *State) []Exit {
	fn := s.fr.fn
	r := &runCtx{e: e, li: e.p.loopsOf(fn), seen: map[*ssa.BasicBlock]map[string]bool{},
		phiVals: map[ssa.Value]map[*Term]bool{}, memVals: map[string]map[*Term]bool{}, count: map[*ssa.BasicBlock]int{}}
	r.push(fn.Blocks[0], nil, s)
	for r.work.Len() > 0 {
		it := heap.Pop(&r.work).(*workItem)
		e.nStates++
		if e.steps > e.maxSteps {
			e.giveUp(e.root.String(), "step limit reached in "+fn.String())
			return r.exits
		}
		if e.nStates%512 == 0 && e.outOfTime() {
			e.giveUp(e.root.String(), "time or memory limit reached in "+fn.String())
			return r.exits
		}
		r.block(it)
	}
	return r.exits
}

func (r *runCtx) push(b, prev *ssa.BasicBlock, s *State) {
	r.seq++
	heap.Push(&r.work, &workItem{b, prev, s, r.seq, r.li.order[b.Index]})
}

func (r *runCtx) block(it *workItem) {
	e, b, s := r.e, it.b, it.s
	if it.prev != nil {
		if !r.enter(b, it.prev, s) {
			return
		}
		if len(b.Preds) > 1 {
			li := e.p.liveness(s.fr.fn)
			s.dropDead(li, b)
			s.gc(li.in[b.Index])
			k := s.key()
			m := r.seen[b]
			if m == nil {
				m = map[string]bool{}
				r.seen[b] = m
			}
			if m[k] {
				return
			}
			m[k] = true
			r.count[b]++
			if r.count[b] > e.peak {
				e.peak = r.count[b]
			}
			if e.debug {
				if e.dumpAt != "" && e.dumpAt == e.p.pos(instrPos(b.Instrs[0])) && r.count[b]%97 < 2 {
					fmt.Printf("==== %d\n%s", r.count[b], s.dump())
				}
				e.blockCount[e.p.pos(instrPos(b.Instrs[0]))+" in "+s.fr.fn.Name()]++
			}
			if r.count[b] > maxStatesPerBlock {
				e.giveUp(s.fr.fn.String(), "too many different states at "+e.p.pos(instrPos(b.Instrs[0])))
				return
			}
		}
	}
	states := []*State{s}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, st := range states {
			e.steps++
			e.total++
			switch x := in.(type) {
			case *ssa.If:
				r.branch(b, st, x)
			case *ssa.Jump:
				r.push(b.Succs[0], b, st)
			case *ssa.Return:
				var res []*Term
				for _, v := range x.Results {
					res = append(res, st.val(v))
				}
				if e.h.Return != nil {
					e.h.Return(st, st.fr.fn, res, in)
				}
				r.exits = append(r.exits, Exit{st, res})
			case *ssa.Panic:
				if v := st.val(x.X); v.op == OIface && strings.Contains(v.String(), "blocking select matched no case") {
					break // not in the source, and never reached
				}
				if e.h.Panic != nil {
					e.h.Panic(st, in, "panic("+st.val(x.X).String()+")")
				}
			default:
				for _, n := range e.step(st, in) {
					if !n.dead {
						next = append(next, n)
					}
				}
			}
		}
		states = next
		if len(states) == 0 {
			break
		}
	}
}

// dropDead forgets the value of local variables that are assigned before they are read again.
func (s *State) dropDead(li *liveInfo, b *ssa.BasicBlock) {
	var dead map[*Term]bool
	for v, t := range s.fr.env {
		a, ok := v.(*ssa.Alloc)
		if ok && li.cand[a] && !li.cont[b.Index][a] && t.op == OAlloc && !s.escaped[t] {
			if dead == nil {
				dead = map[*Term]bool{}
			}
			dead[t] = true
		}
	}
	if dead == nil {
		return
	}
	for a := range s.mem {
		if dead[rootAddr(a)] {
			delete(s.mem, a)
		}
	}
}

func (r *runCtx) branch(b *ssa.BasicBlock, s *State, x *ssa.If) {
	c := s.val(x.Cond)
	r.noteRange(b, s, c)
	tv := s.facts.truthOf(c)
	for i, want := range []bool{true, false} {
		if tv == 1 && !want || tv == -1 && want {
			continue
		}
		n := s
		if tv == 0 {
			n = s.clone()
			if !n.assume(c, want) {
				continue
			}
		}
		w := "is false"
		if want {
			w = "is true"
		}
		if tv == 0 {
			n.note(instrPos(x), "condition "+c.str(3)+" "+w)
		}
		if r.e.h.Branch != nil {
			r.e.h.Branch(n, c, want, x)
			if n.dead {
				continue
			}
		}
		n.exitFact(b, b.Succs[i], c, want, r.li)
		r.push(b.Succs[i], b, n)
	}
}

// assume adds a branch condition and what follows from it.
func (s *State) assume(c *Term, v bool) bool {
	if !s.facts.assume(c, v) {
		return false
	}
	s.derive(c, v)
	return true
}

func (s *State) derive(c *Term, v bool) {
	for c.op == ONot {
		c, v = c.args[0], !v
	}
	if c.op != OApp {
		return
	}
	switch c.name {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.Is", "os.IsTimeout":
		if v {
			s.facts.assumeRel(c.args[0], tNil, NE)
		}
	}
	if c.name == "==" && v {
		er := c.args[0]
		if er == tNil {
			er = c.args[1]
		}
		if er != tNil && (c.args[0] == tNil || c.args[1] == tNil) {
			for _, x := range s.e.sibs[er] {
				if pointerLike(x.typ) {
					s.facts.assumeRel(x, tNil, NE)
				}
			}
		}
	}
	if strings.HasPrefix(c.name, "is:") && v {
		s.facts.assumeRel(c.args[0], tNil, NE)
	}
}

// ranged: the slice whose length the condition at the end of the block compares with.
func (s *State) ranged(b *ssa.BasicBlock) *Term {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		if l, ok := v.(*ssa.Call); ok {
			if f, ok := l.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
				return s.val(l.Call.Args[0])
			}
		}
	}
	return nil
}

// noteRange remembers that a loop is controlled by idx < len(slice).
func (r *runCtx) noteRange(b *ssa.BasicBlock, s *State, c *Term) {
	lp := r.li.inner[b]
	if lp == nil {
		return
	}
	leaves := false
	for _, su := range b.Succs {
		if !lp.body[su] {
			leaves = true
		}
	}
	if !leaves {
		return
	}
	ls := s.fr.loops[lp.header]
	if ls == nil {
		return
	}
	for c.op == ONot {
		c = c.args[0]
	}
	if c.op != OApp || c.name != "<" {
		return
	}
	for k := 0; k < 2; k++ {
		i, n := c.args[k], c.args[1-k]
		base, off := splitAdd(i)
		if base == nil || base.op != OSym || base.instr == nil || base.instr.Block() != lp.header {
			continue
		}
		ix, ok := base.instr.(*ssa.Phi)
		if !ok {
			continue
		}
		if z, isN := n.intVal(); isN && z == 0 && k == 0 {
			if sl := s.downTo(lp, ls, ix, off); sl != nil {
				for _, x := range ls.ranges {
					if x.idx == i && x.down {
						return
					}
				}
				ls.ranges = append(ls.ranges, rangeRec{i, sl, n, true})
				return
			}
		}
		var sls []*Term
		if n.op == OApp && n.name == "len" {
			sls = append(sls, n.args[0])
		}
		if x := s.ranged(b); x != nil && s.lenOf(x) == n && (len(sls) == 0 || x != sls[0]) {
			sls = append(sls, x)
		}
		if len(sls) == 0 {
			sls = append(sls, nil)
		}
		for _, x := range ls.ranges {
			if x.idx == i && x.bound == n {
				return
			}
		}
		for _, sl := range sls {
			ls.ranges = append(ls.ranges, rangeRec{i, sl, n, false})
		}
	}
}

// exitFact: when a loop over a slice has ended normally, what held in every iteration holds for every element.
func (s *State) exitFact(from, to *ssa.BasicBlock, c *Term, v bool, li *loopInfo) {
	lp := li.inner[from]
	if lp == nil || lp.body[to] {
		return
	}
	ls := s.fr.loops[lp.header]
	if ls == nil {
		return
	}
	for c.op == ONot {
		c, v = c.args[0], !v
	}
	for _, r := range ls.ranges {
		if c.op != OApp || c.name != "<" || c != mkLt(r.idx, r.bound) || v != r.down {
			continue
		}
		if r.down {
			if ls.zero {
				if !s.facts.assumeRel(s.lenOf(r.slice), mkInt(0), EQ) {
					s.dead = true
				}
			} else if q, ok := ls.q[r.slice]; ok {
				s.learnt(r.slice, q)
			}
			continue
		}
		if ls.zero {
			// no iteration: the index has its first value
			for ph, init := range ls.inits {
				sym := s.fr.env[ph]
				if sym == nil || !r.idx.contains(sym) {
					continue
				}
				i0 := rewriteAdd(r.idx, sym, init)
				ok := s.facts.assumeRel(r.idx, i0, EQ)
				if r.bound != nil {
					ok = ok && s.facts.assumeRel(i0, r.bound, GE)
					if n, isN := i0.intVal(); isN && n == 0 {
						ok = ok && s.facts.assumeRel(r.bound, mkInt(0), EQ)
					}
				}
				if !ok {
					s.dead = true
				}
			}
			continue
		}
		if base, off := splitAdd(r.idx); r.slice != nil && base != nil {
			ix, isPhi := base.instr.(*ssa.Phi)
			if q, ok := ls.q[r.slice]; ok && isPhi && fromStart(lp, ix, off) {
				s.learnt(r.slice, q)
			}
		}
		if base, off := splitAdd(r.idx); base != nil && r.bound != nil {
			s.growth(lp, base.instr, off, r.bound)
		}
	}
}

// fromStart: the index is 0, 1, 2 and so on.
func fromStart(lp *Loop, ix *ssa.Phi, off int64) bool {
	for i, p := range lp.header.Preds {
		if n, isN := ix.Edges[i].(*ssa.Const); !lp.body[p] && (!isN || n.Value == nil || n.Int64()+off != 0) {
			return false
		}
		if lp.body[p] && !stepsBy(ix, ix.Edges[i], 1) { // one by one
			return false
		}
	}
	return true
}

// stepsBy: v is the value of the phi plus d.
func stepsBy(ix *ssa.Phi, v ssa.Value, d int64) bool {
	bo, isB := v.(*ssa.BinOp)
	if !isB || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != ssa.Value(ix) {
		return false
	}
	n, isN := bo.Y.(*ssa.Const)
	if !isN || n.Value == nil || n.Value.Kind() != constant.Int {
		return false
	}
	if bo.Op == token.SUB {
		return n.Int64() == -d
	}
	return n.Int64() == d
}

// downTo: the slice whose indices the phi takes from the last down to 0 (idx is the phi plus off).
func (s *State) downTo(lp *Loop, ls *loopState, ix *ssa.Phi, off int64) *Term {
	for i, p := range lp.header.Preds {
		if lp.body[p] && !stepsBy(ix, ix.Edges[i], -1) {
			return nil
		}
	}
	init := ls.inits[ix]
	if init == nil {
		return nil
	}
	if b, c := splitAdd(init); b != nil && b.op == OApp && b.name == "len" && c+off == -1 {
		return b.args[0]
	}
	return nil
}

// growth: a slice to which every iteration appends one element has as many elements as the loop had iterations.
func (s *State) growth(lp *Loop, idx ssa.Instruction, off int64, bound *Term) {
	ix, ok := idx.(*ssa.Phi)
	if !ok || ix.Block() != lp.header {
		return
	}
	if !fromStart(lp, ix, off) {
		return
	}
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		ok = true
		for i, p := range lp.header.Preds {
			ok = ok && (lp.body[p] && appendsOne(ph.Edges[i], ph) || !lp.body[p] && emptySlice(ph.Edges[i]))
		}
		v := s.fr.env[ph]
		if !ok || v == nil {
			continue
		}
		if !s.facts.assumeRel(s.lenOf(v), bound, EQ) {
			s.dead = true
		}
		if b := mkSym(s.fr.ctx, ix, "loop", ix.Type()); v.op == OColl {
			s.facts.assume(mkApp("inorder", types.Typ[types.Bool], v, gen(b, 1), mkInt(off)), true)
		}
	}
	for b := range lp.body {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !appendsToCell(lp, st) {
				continue
			}
			// one collection of what was appended here
			var col *Term
			n := 0
			b := mkSym(s.fr.ctx, ix, "loop", ix.Type())
			for a, v := range s.mem {
				if v.op == OColl && len(v.args) == 1 && v.args[0].op != OSpread && types.Identical(v.typ, st.Val.Type()) && v.contains(gen(b, 1)) && a.op != OIndexAddr {
					col = v
					n++
				}
			}
			if n == 1 {
				if !s.facts.assumeRel(s.lenOf(col), bound, EQ) {
					s.dead = true
				}
				s.facts.assume(mkApp("inorder", types.Typ[types.Bool], col, gen(b, 1), mkInt(off)), true)
			}
		}
	}
}

func arraySlice(v ssa.Value) int64 {
	if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		if a, ok := sl.X.(*ssa.Alloc); ok {
			if at, ok := derefT(a.Type()).Underlying().(*types.Array); ok {
				return at.Len()
			}
		}
	}
	return -1
}

func appendsOne(v ssa.Value, to *ssa.Phi) bool {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(to) {
		return false
	}
	f, ok := c.Call.Value.(*ssa.Builtin)
	return ok && f.Name() == "append" && arraySlice(c.Call.Args[1]) == 1
}

func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		n, ok := x.Len.(*ssa.Const)
		return ok && n.Int64() == 0
	case *ssa.Slice:
		if n, ok := x.High.(*ssa.Const); ok && x.Low == nil && n.Int64() == 0 {
			return true
		}
	}
	return arraySlice(v) == 0
}

// appendsToCell: the variable to which every iteration appends exactly one element (its address in the loop).
func appendsToCell(lp *Loop, st *ssa.Store) bool {
	c, ok := st.Val.(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 || arraySlice(c.Call.Args[1]) != 1 {
		return false
	}
	if f, ok := c.Call.Value.(*ssa.Builtin); !ok || f.Name() != "append" {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || !sameCell(ld.X, st.Addr) {
		return false
	}
	for i, p := range lp.header.Preds {
		if lp.body[p] && !st.Block().Dominates(lp.header.Preds[i]) {
			return false
		}
	}
	for b := range lp.body {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Store); ok && x != st && types.Identical(x.Addr.Type(), st.Addr.Type()) {
				return false
			}
		}
	}
	return innermost(lp, st.Block())
}

// innermost: the block runs once per iteration of the loop.
func innermost(lp *Loop, b *ssa.BasicBlock) bool {
	// not part of a cycle that avoids the header
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		for _, n := range x.Succs {
			if n == b {
				return true
			}
			if n != lp.header && lp.body[n] && !seen[n] {
				seen[n] = true
				if reach(n) {
					return true
				}
			}
		}
		return false
	}
	return !reach(b)
}

func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameCell(x.X, y.X)
}

func rewriteAdd(t, x, by *Term) *Term {
	b, n := splitAdd(t)
	if b == x {
		bb, m := splitAdd(by)
		return mkAddC(bb, n+m, t.typ)
	}
	return rewrite(t, map[*Term]*Term{}, func(u *Term) *Term {
		if u == x {
			return by
		}
		return nil
	})
}

// enter moves a state along an edge: loop bookkeeping, then phis.
func (r *runCtx) enter(b, prev *ssa.BasicBlock, s *State) bool {
	fr := s.fr
	lp := r.li.header[b]
	back := lp != nil && lp.body[prev]
	for h := range fr.loops {
		if l := r.li.header[h]; l != nil && !l.body[b] {
			delete(fr.loops, h)
		}
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, s.val(ph.Edges[pi]))
	}
	if back && r.e.h.LoopBack != nil {
		r.e.h.LoopBack(s, b.Instrs[0])
	}
	if back {
		ls := fr.loops[b]
		if ls == nil {
			ls = &loopState{inits: map[ssa.Value]*Term{}, q: map[*Term][]qf{}}
			fr.loops[b] = ls
		}
		r.collectQ(s, lp, ls)
		for i, ph := range phis {
			// the old value of the phi goes away, the new one is renamed with the rest
			fr.env[ph] = vals[i]
		}
		// values of the body are dead at the header
		live := r.e.p.liveness(fr.fn).in[b.Index]
		for v := range fr.env {
			if !live[v] {
				if _, ok := v.(*ssa.Parameter); !ok {
					delete(fr.env, v)
				}
			}
		}
		s.dropDead(r.e.p.liveness(fr.fn), b)
		keep := ls.ranges
		ls.ranges = nil
		s.gc(nil)
		ls.ranges = keep
		s.renameLoop(fr.ctx, lp)
		ls.zero = false
		ls.ranges = nil
		for i, ph := range phis {
			vals[i] = fr.env[ph]
			if vals[i] == nil {
				vals[i] = s.val(ph.Edges[pi])
			}
		}
	}
	for i, ph := range phis {
		v := vals[i]
		if lp != nil {
			v = r.widen(s, lp, ph, v, back)
		}
		fr.env[ph] = v
	}
	if lp != nil && back {
		r.widenMem(s, lp)
	}
	if lp != nil && !back {
		ls := &loopState{zero: true, inits: map[ssa.Value]*Term{}, q: map[*Term][]qf{}}
		for i, ph := range phis {
			if fr.env[ph] != vals[i] {
				ls.inits[ph] = vals[i]
			}
		}
		fr.loops[b] = ls
	}
	return !s.dead
}

// induction: a phi that is only increased or decreased by constants; +1, -1 or 0
func induction(lp *Loop, ph *ssa.Phi) int {
	if !isInteger(ph.Type()) {
		return 0
	}
	dir := 0
	for i, e := range ph.Edges {
		if !lp.body[lp.header.Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(ph) || (bo.Op != token.ADD && bo.Op != token.SUB) {
			return 0
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0
		}
		d := constant.Sign(c.Value)
		if bo.Op == token.SUB {
			d = -d
		}
		if d == 0 || dir != 0 && dir != d {
			return 0
		}
		dir = d
	}
	return dir
}

// counter: a phi that each iteration leaves as it is or changes by constants in one direction; +1, -1 or 0
func counter(lp *Loop, ph *ssa.Phi) int {
	if !isInteger(ph.Type()) {
		return 0
	}
	dir, seen := 0, map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == ssa.Value(ph) || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if !lp.body[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			c, k := v.Y.(*ssa.Const)
			if !lp.body[v.Block()] || !k || v.Op != token.ADD && v.Op != token.SUB || c.Value == nil || c.Value.Kind() != constant.Int {
				return false
			}
			d := constant.Sign(c.Value)
			if v.Op == token.SUB {
				d = -d
			}
			if d != 0 && dir != 0 && d != dir {
				return false
			}
			if d != 0 {
				dir = d
			}
			return ok(v.X)
		}
		return false
	}
	for i, e := range ph.Edges {
		if lp.body[lp.header.Preds[i]] && !ok(e) {
			return 0
		}
	}
	return dir
}

// smallBound: the loop is controlled by a comparison with a small constant known here
func (r *runCtx) smallBound(s *State, lp *Loop, ph *ssa.Phi) bool {
	for b := range lp.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || lp.body[b.Succs[0]] && lp.body[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isIdx := func(v ssa.Value) bool {
			if v == ssa.Value(ph) {
				return true
			}
			if x, ok := v.(*ssa.BinOp); ok && x.X == ssa.Value(ph) {
				_, c := x.Y.(*ssa.Const)
				return c
			}
			return false
		}
		var bound ssa.Value
		if isIdx(bo.X) {
			bound = bo.Y
		} else if isIdx(bo.Y) {
			bound = bo.X
		} else {
			continue
		}
		var t *Term
		if c, ok := bound.(*ssa.Const); ok {
			t = s.val(c)
		} else if t = s.fr.env[bound]; t == nil || lp.body[blockOf(bound)] {
			t = nil
			if c, ok := bound.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if a := c.Call.Args[0]; !lp.body[blockOf(a)] {
						if at := s.fr.env[a]; at != nil {
							t = s.lenOf(at)
						}
					}
				}
			}
		}
		if t != nil {
			if n, ok := t.intVal(); ok && n <= 6 {
				return true
			}
		}
	}
	return false
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

func (r *runCtx) widen(s *State, lp *Loop, ph *ssa.Phi, v *Term, back bool) *Term {
	sym := mkSym(s.fr.ctx, ph, "loop", ph.Type())
	if d := induction(lp, ph); d != 0 {
		if v.isConst() {
			if n, _ := v.intVal(); n >= -1 && n <= 8 && r.smallBound(s, lp, ph) {
				return v
			}
		}
		if !back {
			s.facts.assumeRel(sym, v, map[int]uint8{1: GE, -1: LE}[d])
			return sym
		}
		// value after renaming is old+c; the bound by the initial value stays
		s.keepBound(sym, v, d)
		return sym
	}
	if d := counter(lp, ph); d != 0 {
		return r.count1(s, sym, ph, v, back, d)
	}
	if isInteger(ph.Type()) && !v.isConst() && v.contains(gen(sym, 1)) {
		return sym
	}
	if back && v.op == OAppend || v.op == OColl {
		v = mkColl(elemsOf(v), v.typ)
		v = s.flatten(v, ph)
	}
	if v.op == OConst || v == tNil || v == sym {
		return v
	}
	m := r.phiVals[ph]
	if m == nil {
		m = map[*Term]bool{}
		r.phiVals[ph] = m
	}
	m[v] = true
	if len(m) > 12 && back || v.size > 400 {
		if u := unionColl(m, v); u != nil {
			return u
		}
		return sym
	}
	return v
}

// count1: the value of a counter at the loop header. It stays a constant while nothing was counted.
func (r *runCtx) count1(s *State, sym *Term, ph *ssa.Phi, v *Term, back bool, d int) *Term {
	rel := map[int]uint8{1: GE, -1: LE}[d]
	m := r.phiVals[ph]
	if m == nil {
		m = map[*Term]bool{}
		r.phiVals[ph] = m
	}
	if !back {
		if v.isConst() {
			m[v] = true
			return v
		}
		s.facts.assumeRel(sym, v, rel)
		return sym
	}
	if v.isConst() && m[v] {
		return v
	}
	if v.isConst() { // just counted
		s.facts.assumeRel(sym, v, rel)
		return sym
	}
	s.keepBound(sym, v, d)
	return sym
}

// flatten forgets what a collection held when its elements were made from it, once this goes three levels deep.
func (s *State) flatten(v *Term, ph *ssa.Phi) *Term {
	var deep func(t *Term, d int) bool
	memo := map[*Term]int{}
	nested := func(t *Term) bool { return (t.op == OColl || t.op == OAppend) && len(t.args) > 0 && t.typ == v.typ }
	deep = func(t *Term, d int) bool {
		if nested(t) {
			d++
		}
		if d > 2 {
			return true
		}
		if m, ok := memo[t]; ok && m >= d {
			return false
		}
		memo[t] = d
		for _, a := range t.args {
			if a != nil && deep(a, d) {
				return true
			}
		}
		return false
	}
	if !deep(v, 0) {
		return v
	}
	grown := gen(mkSym(s.fr.ctx, ph, "grown", v.typ), 1)
	var l []*Term
	for _, x := range v.args {
		l = append(l, rewrite(x, map[*Term]*Term{}, func(u *Term) *Term {
			if nested(u) {
				return grown
			}
			return nil
		}))
	}
	return mkColl(l, v.typ)
}

// unionColl joins the collections a variable was seen to hold.
func unionColl(seen map[*Term]bool, v *Term) *Term {
	if v.op != OColl {
		return nil
	}
	var all []*Term
	for w := range seen {
		if w.op == OColl {
			all = append(all, w.args...)
		}
	}
	u := mkColl(all, v.typ)
	if len(u.args) > 64 {
		return nil
	}
	seen[u] = true
	return u
}

// keepBound: facts of the renamed previous value of an induction variable carry over to the new one.
func (s *State) keepBound(sym, v *Term, d int) {
	b, _ := splitAdd(v)
	if b == nil {
		return
	}
	for m, bits := range s.facts.rel[b] {
		if !m.isConst() && m.contains(b) {
			continue
		}
		if d > 0 && bits&LT == 0 {
			s.facts.assumeRel(sym, m, GE)
		}
		if d < 0 && bits&GT == 0 {
			s.facts.assumeRel(sym, m, LE)
		}
	}
}

// widenMem bounds the values memory cells take in a loop.
func (r *runCtx) widenMem(s *State, lp *Loop) {
	for a, v := range s.mem {
		k := fmt.Sprintf("%d|%d", lp.header.Index, a.id)
		m := r.memVals[k]
		if m == nil {
			m = map[*Term]bool{}
			r.memVals[k] = m
		}
		if v.op == OAppend && (bornIn(v, s.fr.ctx, lp) || grown(m, v)) {
			s.mem[a] = mkColl(elemsOf(v), v.typ)
			continue
		}
		if v.op == OConst || v == tNil || v.op == OZero {
			if _, isInt := v.intVal(); !isInt {
				m[v] = true
				continue
			}
		}
		if v.op == OLoad && v.args[0] == a {
			continue
		}
		m[v] = true
		if len(m) > 12 || v.size > 400 {
			if u := unionColl(m, v); u != nil {
				s.mem[a] = u
				continue
			}
			s.mem[a] = intern(Term{op: OLoad, args: []*Term{a, mkSym(s.fr.ctx, lp.header.Instrs[0], "widened", nil)}, typ: v.typ})
		}
	}
}

// bornIn: the value has parts made in an iteration of the loop.
func bornIn(t *Term, ctx *Ctx, lp *Loop) bool {
	for _, l := range t.leaves() {
		if loopBorn(l, ctx, lp) {
			return true
		}
	}
	return false
}

// grown: an earlier value of the cell is what v appends to.
func grown(seen map[*Term]bool, v *Term) bool {
	for w := range seen {
		if w == v.args[0] {
			return true
		}
		if w.op == OAppend && w.args[0] == v.args[0] && len(w.args) < len(v.args) {
			pre := true
			for i := range w.args {
				pre = pre && w.args[i] == v.args[i]
			}
			if pre {
				return true
			}
		}
	}
	return false
}

func gen(t *Term, n int) *Term {
	x := *t
	x.idx = n
	return intern(x)
}

// loopBorn: the symbol is created in an iteration of the loop
func loopBorn(t *Term, ctx *Ctx, lp *Loop) bool {
	if t.instr == nil || t.ctx == nil {
		return false
	}
	if t.ctx == ctx {
		return lp.body[t.instr.Block()]
	}
	for c := t.ctx; c != nil && c.depth > ctx.depth; c = c.parent {
		if c.parent == ctx {
			return c.call != nil && lp.body[c.call.Block()]
		}
	}
	return false
}

// collectQ: what is known of the current element of the slice a loop ranges over.
func (r *runCtx) collectQ(s *State, lp *Loop, ls *loopState) {
	ctx := s.fr.ctx
	for _, rg := range ls.ranges {
		if rg.slice == nil {
			continue
		}
		elem := func(t *Term) bool { // mentions slice[idx]
			found := false
			t.walk(func(u *Term) bool {
				if u.op == OIndexAddr && u.args[0] == rg.slice && u.args[1] == rg.idx {
					found = true
				}
				return !found
			})
			return found
		}
		base, off := splitAdd(rg.idx)
		gen := func(t *Term) *Term {
			n := rewrite(t, map[*Term]*Term{}, func(u *Term) *Term {
				if b, o := splitAdd(u); b == base {
					return mkAddC(starSym, o-off, u.typ)
				}
				return nil
			})
			for _, l := range n.leaves() {
				if loopBorn(l, ctx, lp) {
					return nil
				}
			}
			return n
		}
		var cur []qf
		tr := func(t *Term) *Term { return t }
		if rg.slice.op == OColl || rg.slice.op == OAppend {
			// the elements of such a slice are known by value: state the facts of the cells that hold them
			cells := map[*Term]*Term{}
			for a, v := range s.mem {
				if !v.isConst() && elem(a) {
					cells[v] = intern(Term{op: OLoad, args: []*Term{a, s.version(a)}, typ: v.typ})
				}
			}
			memo := map[*Term]*Term{}
			tr = func(t *Term) *Term {
				return rewrite(t, memo, func(u *Term) *Term {
					if u == rg.slice {
						return u
					}
					return cells[u]
				})
			}
		}
		collect := func() {
			for _, p := range s.facts.pairs() {
				pa, pb := tr(p.a), tr(p.b)
				if !elem(pa) && !elem(pb) {
					continue
				}
				a, b := gen(pa), gen(pb)
				if a != nil && b != nil {
					bits := p.bits
					if a.id > b.id {
						a, b, bits = b, a, flip(bits)
					}
					cur = append(cur, qf{a, b, bits, false})
				}
			}
			for t, v := range s.facts.truth {
				if t = tr(t); !isApp(t, "inorder") && elem(t) {
					if a := gen(t); a != nil {
						cur = append(cur, qf{a, nil, 0, v})
					}
				}
			}
		}
		collect()
		if _, ok := s.inOrder(rg.slice, rg.idx); ok || rg.slice.op == OAlloc {
			// the element at an index is a function of the index
			tr = func(t *Term) *Term { return t }
			elem = func(t *Term) bool { return base != nil && t.contains(base) }
			collect()
		}
		old, ok := ls.q[rg.slice]
		if !ok {
			ls.q[rg.slice] = cur
			continue
		}
		var both []qf
		for _, x := range old {
			for _, y := range cur {
				if x.a == y.a && x.b == y.b && x.v == y.v {
					both = append(both, qf{x.a, x.b, x.bits | y.bits, x.v})
				}
			}
		}
		ls.q[rg.slice] = both
	}
}

// renameLoop turns the symbols of the iteration that ends into those of "an earlier iteration".
func (s *State) renameLoop(ctx *Ctx, lp *Loop) {
	memo := map[*Term]*Term{}
	hadOld := map[*Term]bool{}
	f := func(t *Term) *Term {
		if (t.op == OSym || t.op == OAlloc) && t.idx == 0 && loopBorn(t, ctx, lp) {
			return gen(t, 1)
		}
		return nil
	}
	rn := func(t *Term) *Term { return rewrite(t, memo, f) }
	any := false
	s.eachTerm(func(t *Term) {
		for _, l := range t.leaves() {
			if loopBorn(l, ctx, lp) {
				any = true
				if l.idx == 1 {
					hadOld[l] = true
				}
			}
		}
	})
	if !any {
		return
	}
	old := func(t *Term) bool {
		for _, l := range t.leaves() {
			if hadOld[l] {
				return true
			}
		}
		return false
	}
	for v, t := range s.fr.env {
		s.fr.env[v] = rn(t)
	}
	for i := range s.fr.defers {
		d := &s.fr.defers[i]
		d.fn = rn(d.fn)
		args := make([]*Term, len(d.args))
		for j, a := range d.args {
			args[j] = rn(a)
		}
		d.args = args
	}
	nm := make(map[*Term]*Term, len(s.mem))
	conflict := map[*Term]bool{}
	var as []*Term
	for a := range s.mem {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		na, nv := rn(a), rn(s.mem[a])
		if o, ok := nm[na]; ok && o != nv {
			conflict[na] = true
		}
		nm[na] = nv
	}
	for a := range conflict {
		nm[a] = intern(Term{op: OLoad, args: []*Term{a, mkSym(ctx, lp.header.Instrs[0], "merged", nil)}, typ: nm[a].typ})
	}
	s.mem = nm
	mm := make(map[*Term]*mapState, len(s.maps))
	for m, ms := range s.maps {
		n := &mapState{ms.fresh, rn(ms.ver), nil}
		seen := map[[2]*Term]bool{}
		for _, u := range ms.upd {
			nu := mapUpd{rn(u.k), nil}
			if u.v != nil {
				nu.v = rn(u.v)
			}
			if !seen[[2]*Term{nu.k, nu.v}] {
				seen[[2]*Term{nu.k, nu.v}] = true
				n.upd = append(n.upd, nu)
			}
		}
		if o, ok := mm[rn(m)]; ok {
			n.fresh = n.fresh && o.fresh
			n.upd = append(n.upd, o.upd...)
		}
		mm[rn(m)] = n
	}
	s.maps = mm
	// facts: what is said of an earlier iteration must hold for both candidates
	of := s.facts
	nf := newFacts()
	for _, p := range of.pairs() {
		na, nb := rn(p.a), rn(p.b)
		if na == p.a && nb == p.b {
			if !old(p.a) && !old(p.b) {
				nf.setRel(na, nb, p.bits)
			}
			continue
		}
		bits := p.bits
		if old(na) || old(nb) {
			bits |= of.possible(na, nb)
		}
		if bits != ALL && na != nb {
			nf.setRel(na, nb, bits)
		}
	}
	for t, v := range of.truth {
		nt := rn(t)
		if nt == t {
			if !old(t) {
				nf.truth[t] = v
			}
			continue
		}
		if old(nt) {
			if ov, ok := of.truth[nt]; !ok || ov != v {
				continue
			}
		}
		nf.truth[nt] = v
	}
	s.facts = nf
	for i := range s.locks {
		s.locks[i].mu = rn(s.locks[i].mu)
	}
	s.epoch = rn(s.epoch)
	for c, v := range s.ver {
		s.ver[c] = rn(v)
	}
	nr := map[*Term]*Term{}
	for r, v := range s.rootVer {
		nr[rn(r)] = rn(v)
	}
	s.rootVer = nr
	ne := map[*Term]bool{}
	for r := range s.escaped {
		ne[rn(r)] = true
	}
	s.escaped = ne
	na := map[*Term][]qf{}
	for sl, q := range s.forall {
		na[rn(sl)] = q
	}
	s.forall = na
	for k, v := range s.mon {
		s.mon[k] = rn(v)
	}
	for _, ls := range s.fr.loops {
		for i := range ls.ranges {
			r := &ls.ranges[i]
			r.idx, r.slice, r.bound = rn(r.idx), rn(r.slice), rn(r.bound)
		}
		nq := map[*Term][]qf{}
		for sl, q := range ls.q {
			nq[rn(sl)] = q
		}
		ls.q = nq
	}
}

func (s *State) eachTerm(f func(*Term)) {
	for _, t := range s.fr.env {
		f(t)
	}
	for a, v := range s.mem {
		f(a)
		f(v)
	}
	for m, ms := range s.maps {
		f(m)
		f(ms.ver)
		for _, u := range ms.upd {
			f(u.k)
			if u.v != nil {
				f(u.v)
			}
		}
	}
	for a, m := range s.facts.rel {
		f(a)
		for b := range m {
			f(b)
		}
	}
	for t := range s.facts.truth {
		f(t)
	}
	for _, t := range s.mon {
		f(t)
	}
	for r, v := range s.rootVer {
		f(r)
		f(v)
	}
	for r := range s.escaped {
		f(r)
	}
	for sl := range s.forall {
		f(sl)
	}
	f(s.epoch)
	for _, v := range s.ver {
		f(v)
	}
	for _, h := range s.locks {
		f(h.mu)
	}
}

// ---------------------------------------------------------------- values

func (s *State) val(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return mkZero(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return intern(Term{op: OGlobal, name: globalName(x), typ: x.Type()})
	case *ssa.Function:
		return intern(Term{op: OClosure, fn: x, name: x.String(), typ: x.Type()})
	case *ssa.Builtin:
		return mkStr("builtin " + x.Name())
	}
	if t, ok := s.fr.env[v]; ok {
		return t
	}
	// not assigned on this path (cannot happen for well-formed code)
	return mkSym(s.fr.ctx, nil, "undef:"+v.Name(), v.Type())
}

func (s *State) set(in ssa.Instruction, t *Term) {
	s.fr.env[in.(ssa.Value)] = t
}

func (s *State) lenOf(t *Term) *Term {
	switch {
	case t == tNil:
		return mkInt(0)
	case t.isConst() && t.name == "s":
		v, _ := t.strVal()
		return mkInt(int64(len(v)))
	case t.op == OColl && len(t.args) == 0:
		return mkInt(0)
	case t.op == OAlloc && len(t.args) == 1: // makeslice with its length
		return t.args[0]
	case t.op == OSlice:
		if t.args[1] == nil && t.args[2] == nil {
			if pt, ok := t.args[0].typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return mkInt(at.Len())
				}
			}
			return s.lenOf(t.args[0])
		}
		if t.args[2] != nil {
			if t.args[1] == nil {
				return t.args[2]
			}
			return mkBin(token.SUB, t.args[2], t.args[1], types.Typ[types.Int])
		}
	case t.op == OAppend:
		n := s.lenOf(t.args[0])
		k := int64(0)
		for _, a := range t.args[1:] {
			if a.op == OSpread {
				return mkApp("len", types.Typ[types.Int], t)
			}
			k++
		}
		b, c := splitAdd(n)
		return mkAddC(b, c+k, types.Typ[types.Int])
	case t.op == OZero:
		if at, ok := t.typ.Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
	}
	if ms, ok := s.maps[t]; ok && ms.fresh && len(ms.upd) == 0 {
		return mkInt(0)
	}
	return mkApp("len", types.Typ[types.Int], t)
}

// indexAddr is the address of x[i].
func (s *State) indexAddr(x, i *Term, t types.Type) *Term {
	off := int64(0)
	for x.op == OSlice {
		if x.args[1] == nil {
			x = x.args[0]
			continue
		}
		n, ok := x.args[1].intVal()
		if !ok {
			break
		}
		off += n
		x = x.args[0]
	}
	if off != 0 {
		b, c := splitAdd(i)
		i = mkAddC(b, c+off, types.Typ[types.Int])
	}
	return intern(Term{op: OIndexAddr, args: []*Term{x, i}, typ: t})
}

// learnt: a loop over the slice has ended; what an earlier one decided of every element still holds.
func (s *State) learnt(sl *Term, q []qf) {
	n := append([]qf{}, q...)
	for _, x := range s.forall[sl] {
		dup := x.b != nil
		for _, y := range q {
			dup = dup || x.a == y.a && y.b == nil
		}
		if !dup {
			n = append(n, x)
		}
	}
	s.forall[sl] = n
}

func (s *State) instantiate(sl, i *Term) {
	q, ok := s.forall[sl]
	if !ok {
		return
	}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t.op == OApp && t.name == "+c" && t.args[0] == starSym {
			n, _ := t.args[1].intVal()
			b, c := splitAdd(i)
			return mkAddC(b, c+n, t.typ)
		}
		if t == starSym {
			return i
		}
		return nil
	}
	for _, x := range q {
		if x.b == nil {
			if !s.facts.assume(rewrite(x.a, memo, f), x.v) {
				s.dead = true
			}
		} else if !s.facts.assumeRel(rewrite(x.a, memo, f), rewrite(x.b, memo, f), x.bits) {
			s.dead = true
		}
	}
}

func one(s *State) []*State { return []*State{s} }

// pick gives the loop-born parts of an element an identity of their own; what holds for every earlier iteration holds
// for the one the element is from.
func (s *State) pick(t *Term, in ssa.Instruction) *Term { return s.pickAs(t, in, nil) }

func (s *State) pickAs(t *Term, in ssa.Instruction, of func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	any := false
	f := func(u *Term) *Term {
		if u.op == OColl {
			return u // its elements are not this one
		}
		if of != nil {
			r := of(u)
			any = any || r != nil
			return r
		}
		if (u.op == OSym) && u.idx >= 1 {
			n := *u
			n.name += fmt.Sprint("#", s.fr.ctx.id, ".", instrID(in), "~", u.id) // the origin told apart
			n.ctx, n.instr, n.idx = s.fr.ctx, in, 0
			any = true
			return intern(n)
		}
		return nil
	}
	r := rewrite(t, memo, f)
	if !any {
		return r
	}
	mine := map[*Term]bool{}
	outside(t, func(l *Term) { mine[l] = l.op == OSym })
	about := func(ts ...*Term) bool { // only of this element
		some, all := false, true
		for _, t := range ts {
			outside(t, func(l *Term) {
				some = some || mine[l]
				all = all && mine[l]
			})
		}
		return some && all
	}
	for _, p := range s.facts.pairs() {
		if about(p.a, p.b) && !s.facts.assumeRel(rewrite(p.a, memo, f), rewrite(p.b, memo, f), p.bits) {
			s.dead = true
			return r
		}
	}
	for c, v := range s.facts.truth {
		if !isApp(c, "inorder") && about(c) && !s.facts.assume(rewrite(c, memo, f), v) {
			s.dead = true
			return r
		}
	}
	return r
}

// inOrder: in a slice to which every iteration appended one element, the element at an index is that of this iteration.
func (s *State) inOrder(c, i *Term) (func(*Term) *Term, bool) {
	if c.op != OColl || len(c.args) != 1 || c.args[0].op == OSpread {
		return nil, false
	}
	for x, v := range s.facts.truth {
		if v && isApp(x, "inorder") && x.args[0] == c {
			b := x.args[1]
			off, _ := x.args[2].intVal()
			ib, ic := splitAdd(i)
			at := mkAddC(ib, ic-off, types.Typ[types.Int])
			return s.iteration(b, at), true
		}
	}
	return nil, false
}

// iteration renames what earlier iterations of a loop made to what the iteration with this value of b made.
func (s *State) iteration(b, at *Term) func(*Term) *Term {
	return func(u *Term) *Term {
		if u == b {
			return at
		}
		if u.op == OColl && !u.contains(b) {
			for x, v := range s.facts.truth {
				if v && isApp(x, "inorder") && x.args[0] == u {
					return u // a list of its own
				}
			}
		}
		if isApp(u, "at") {
			return mkApp("at", u.typ, u.args[0], rewrite(u.args[1], map[*Term]*Term{}, s.iteration(b, at)))
		}
		if (u.op == OSym || u.op == OAlloc) && u.idx > 0 && u.name != "epoch" {
			return mkApp("at", u.typ, u, mkAddC(at, -firstOf(b), types.Typ[types.Int]))
		}
		return nil
	}
}

// firstOf: the value of a loop's counter in the first iteration.
func firstOf(b *Term) int64 {
	if p, ok := b.instr.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && isInteger(c.Type()) {
				return c.Int64()
			}
		}
	}
	return 0
}

// outside visits the symbols of earlier iterations in a term, except those in the elements of collections.
func outside(t *Term, f func(*Term)) {
	t.walk(func(u *Term) bool {
		if u.idx >= 1 && (u.op == OSym || u.op == OAlloc) {
			f(u)
		}
		return u.op != OColl
	})
}

// step interprets one instruction that does not end a block.
func (e *Engine) step(s *State, in ssa.Instruction) []*State {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := intern(Term{op: OAlloc, ctx: s.fr.ctx, instr: in, name: "var", typ: x.Type()})
		// a new object on each execution
		delete(s.mem, t)
		for a := range s.mem {
			if isUnder(a, t) {
				delete(s.mem, a)
			}
		}
		delete(s.rootVer, t)
		delete(s.escaped, t)
		delete(s.maps, t)
		s.set(in, t)
	case *ssa.MakeSlice:
		t := intern(Term{op: OAlloc, ctx: s.fr.ctx, instr: in, name: "makeslice", typ: x.Type(), args: []*Term{s.val(x.Len)}})
		if n, ok := s.val(x.Len).intVal(); ok && n == 0 {
			t = intern(Term{op: OAlloc, ctx: s.fr.ctx, instr: in, name: "makeslice0", typ: x.Type(), args: []*Term{mkInt(0)}})
		}
		for a := range s.mem {
			if isUnder(a, t) {
				delete(s.mem, a)
			}
		}
		delete(s.rootVer, t)
		delete(s.escaped, t)
		s.set(in, t)
	case *ssa.MakeMap:
		t := intern(Term{op: OAlloc, ctx: s.fr.ctx, instr: in, name: "makemap", typ: x.Type()})
		delete(s.rootVer, t)
		delete(s.escaped, t)
		s.maps[t] = &mapState{fresh: true, ver: v0}
		s.set(in, t)
	case *ssa.MakeChan:
		s.set(in, intern(Term{op: OAlloc, ctx: s.fr.ctx, instr: in, name: "makechan", typ: x.Type()}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, s.val(b))
		}
		f := x.Fn.(*ssa.Function)
		s.set(in, intern(Term{op: OClosure, fn: f, name: f.String(), args: bs, typ: x.Type()}))
	case *ssa.MakeInterface:
		v := s.val(x.X)
		if e.h.MakeIface != nil {
			e.h.MakeIface(s, v, in)
		}
		s.set(in, intern(Term{op: OIface, args: []*Term{v}, typ: x.X.Type()}))
	case *ssa.ChangeInterface:
		s.set(in, s.val(x.X))
	case *ssa.ChangeType:
		s.set(in, s.val(x.X))
	case *ssa.Convert:
		v := s.val(x.X)
		if e.h.Convert != nil {
			e.h.Convert(s, v, x.X.Type(), x.Type(), in)
		}
		if isBytesLike(x.X.Type()) {
			v = s.content(v)
		}
		s.set(in, mkConvert(v, x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		s.set(in, mkApp("conv:"+typKey(x.Type()), x.Type(), s.val(x.X)))
	case *ssa.SliceToArrayPointer:
		s.set(in, mkApp("arrayptr", x.Type(), s.val(x.X)))
	case *ssa.BinOp:
		s.set(in, e.binop(s, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := s.val(x.X)
			if e.h.Deref != nil {
				e.h.Deref(s, a, in)
			}
			if e.h.Load != nil {
				e.h.Load(s, a, in)
			}
			return s.loadSplit(a, x.Type(), in)
		case token.NOT:
			s.set(in, mkNot(s.val(x.X)))
		case token.SUB:
			v := s.val(x.X)
			if v.isConst() {
				s.set(in, mkConst(constant.UnaryOp(token.SUB, v.val, 0), x.Type()))
			} else {
				s.set(in, mkApp("neg", x.Type(), v))
			}
		case token.XOR:
			s.set(in, mkApp("^", x.Type(), s.val(x.X)))
		case token.ARROW:
			if e.h.Wait != nil {
				e.h.Wait(s, "channel receive", in)
			}
			s.bump(in)
			v := mkSym(s.fr.ctx, in, "recv", x.Type())
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				v = intern(Term{op: OTuple, args: []*Term{mkSym(s.fr.ctx, in, "recv", tt.At(0).Type()), mkSym(s.fr.ctx, in, "recvok", tt.At(1).Type())}})
			}
			s.set(in, v)
		}
	case *ssa.FieldAddr:
		b := s.val(x.X)
		if e.h.Deref != nil {
			e.h.Deref(s, b, in)
		}
		s.set(in, mkFieldAddr(b, x.Field, derefT(x.X.Type())))
	case *ssa.Field:
		s.set(in, mkField(s.val(x.X), x.Field, x.X.Type()))
	case *ssa.IndexAddr:
		b, i := s.val(x.X), s.val(x.Index)
		if e.h.Index != nil {
			e.h.Index(s, b, i, in)
		}
		// one of the elements of a known literal
		if arr := literalArray(b); arr != nil && !i.isConst() {
			n := arrayLen(arr)
			if n > 0 && n <= 8 {
				var out []*State
				for k := int64(0); k < n; k++ {
					c := s.clone()
					if c.facts.assumeRel(i, mkInt(k), EQ) {
						c.set(in, c.indexAddr(b, mkInt(k), x.Type()))
						out = append(out, c)
					}
				}
				return out
			}
		}
		if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice {
			// an index out of range would have panicked
			if n := s.lenOf(b); n.op == OApp && !s.facts.assumeRel(n, mkInt(0), GT) {
				return nil
			}
		}
		s.instantiate(b, i)
		a := s.indexAddr(b, i, x.Type())
		s.set(in, a)
		if c := a.args[0]; c.op == OColl || c.op == OAppend {
			return s.splitElems(a, c, x)
		}
	case *ssa.Index:
		b, i := s.val(x.X), s.val(x.Index)
		if e.h.Index != nil {
			e.h.Index(s, b, i, in)
		}
		s.set(in, mkApp("index", x.Type(), b, i))
	case *ssa.Slice:
		b := s.val(x.X)
		lo, hi := x.Low, x.High
		var tl, th *Term
		if lo != nil {
			tl = s.val(lo)
			if n, ok := tl.intVal(); ok && n == 0 {
				tl = nil
			}
		}
		if hi != nil {
			th = s.val(hi)
		}
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr && tl == nil && th == nil && x.Max == nil {
			s.set(in, b)
			break
		}
		if b == tNil {
			s.set(in, tNil)
			break
		}
		if at := arrayOf(x.X.Type()); at != nil && th != nil {
			if n, ok := th.intVal(); ok && n == at.Len() {
				th = nil
			}
		}
		if e.h.Slice != nil && (tl != nil || th != nil) {
			e.h.Slice(s, b, tl, th, x)
		}
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			s.set(in, intern(Term{op: OSlice, args: []*Term{b, tl, th}, typ: x.Type()}))
			break
		}
		s.set(in, intern(Term{op: OSlice, args: []*Term{b, tl, th}, typ: x.Type()}))
	case *ssa.Store:
		a, v := s.val(x.Addr), s.val(x.Val)
		if e.h.Deref != nil {
			e.h.Deref(s, a, in)
		}
		if e.h.Store != nil {
			e.h.Store(s, a, v, in)
		}
		s.store(a, v, x.Val.Type(), in)
	case *ssa.Lookup:
		m, k := s.val(x.X), s.val(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			if e.h.Index != nil {
				e.h.Index(s, m, k, in)
			}
			s.set(in, mkApp("index", x.Type(), m, k))
			break
		}
		if e.h.MapLookup != nil {
			e.h.MapLookup(s, m, k, in)
		}
		elem := x.X.Type().Underlying().(*types.Map).Elem()
		if m == tNil {
			s.setLookup(in, x.CommaOk, mkZero(elem), tFalse)
			break
		}
		var out []*State
		for _, r := range s.mapLookup(m, k, elem) {
			r.s.setLookup(in, x.CommaOk, r.v, r.has)
			out = append(out, r.s)
		}
		return out
	case *ssa.MapUpdate:
		m, k, v := s.val(x.Map), s.val(x.Key), s.val(x.Value)
		if e.h.MapUpdate != nil {
			e.h.MapUpdate(s, m, k, v, in)
		}
		s.mapUpdate(m, k, v, in)
	case *ssa.Range:
		m := s.val(x.X)
		if e.h.MapRange != nil {
			e.h.MapRange(s, m, in)
		}
		if m.op == OLoad || m.op == OAlloc || m.op == OSym {
			if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
				s.mapOf(m)
			}
		}
		s.set(in, mkApp("range", nil, m, s.val(x.X)))
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Extract:
		t := s.val(x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			s.set(in, t.args[x.Index])
		} else {
			s.set(in, mkApp(fmt.Sprintf("#%d", x.Index), x.Type(), t))
		}
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Select:
		if e.h.Wait != nil && x.Blocking {
			e.h.Wait(s, "select", in)
		}
		s.bump(in)
		tt := x.Type().(*types.Tuple)
		var as []*Term
		for i := 0; i < tt.Len(); i++ {
			as = append(as, mkSym(s.fr.ctx, in, fmt.Sprintf("select%d", i), tt.At(i).Type()))
		}
		s.facts.assumeRel(as[0], mkInt(int64(len(x.States))), LT)
		s.facts.assumeRel(as[0], mkInt(-1), GE)
		if x.Blocking {
			s.facts.assumeRel(as[0], mkInt(0), GE)
		}
		s.set(in, intern(Term{op: OTuple, args: as}))
	case *ssa.Send:
		s.escape(s.val(x.X))
		if e.h.Wait != nil {
			e.h.Wait(s, "channel send", in)
		}
	case *ssa.Call:
		return e.call(s, x, &x.Call)
	case *ssa.Go:
		return e.goStmt(s, x)
	case *ssa.Defer:
		d := deferred{instr: in, c: &x.Call}
		if x.Call.IsInvoke() {
			d.fn = s.val(x.Call.Value)
		} else {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = s.val(x.Call.Value)
			}
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, s.val(a))
		}
		s.fr.defers = append(s.fr.defers, d)
	case *ssa.RunDefers:
		return e.runDefers(s)
	default:
		if v, ok := in.(ssa.Value); ok {
			s.fr.env[v] = mkSym(s.fr.ctx, in, fmt.Sprintf("%T", in), v.Type())
		}
	}
	return one(s)
}

// splitElems: the element of a slice built by appends is one of those that were appended.
func (s *State) splitElems(a, c *Term, in *ssa.IndexAddr) []*State {
	et := derefT(in.Type())
	if _, ok := s.mem[a]; ok || s.hasUnder(a) {
		return one(s)
	}
	es := elemsOf(c)
	if n, ok := a.args[1].intVal(); ok && c.op == OAppend {
		exact := true
		for i := int64(0); i <= n && i < int64(len(es)); i++ {
			exact = exact && es[i].op != OSpread
		}
		if exact && n < int64(len(es)) {
			es = es[n : n+1]
		}
	}
	if len(es) > 8 {
		return one(s)
	}
	var out []*State
	for k, el := range es {
		n := s
		if len(es) > 1 {
			n = s.clone()
		}
		var v *Term
		if el.op == OSpread {
			x := el.args[0]
			ix := mkSym(s.fr.ctx, in, fmt.Sprintf("spread%d", k), types.Typ[types.Int])
			n.facts.assumeRel(ix, mkInt(0), GE)
			n.facts.assumeRel(ix, n.lenOf(x), LT)
			n.instantiate(x, ix)
			v = n.load(n.indexAddr(x, ix, in.Type()), et)
		} else if c.op == OColl {
			if at, ok := n.inOrder(c, a.args[1]); ok {
				v = n.pickAs(el, in, at)
			} else {
				v = n.pick(el, in)
			}
		} else {
			v = el
		}
		if n.dead {
			continue
		}
		n.bind(a, v, et, 0)
		out = append(out, n)
	}
	return out
}

// bind records what a cell holds (this is not a write).
func (s *State) bind(a, v *Term, t types.Type, d int) {
	if st := expandable(t); st != nil && d < 6 {
		for i := 0; i < st.NumFields(); i++ {
			s.bind(mkFieldAddr(a, i, t), mkField(v, i, t), st.Field(i).Type(), d+1)
		}
		return
	}
	s.mem[a] = v
}

func literalArray(b *Term) *Term {
	if b.op == OSlice && b.args[1] == nil && b.args[2] == nil && b.args[0].op == OAlloc && b.args[0].name == "var" {
		return b.args[0]
	}
	if b.op == OAlloc && b.name == "var" && isArray(derefT(b.typ)) {
		return b
	}
	return nil
}

func arrayOf(t types.Type) *types.Array {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a, _ := t.Underlying().(*types.Array)
	return a
}

func arrayLen(a *Term) int64 {
	if at := arrayOf(a.typ); at != nil {
		if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return 0
		}
		return at.Len()
	}
	return 0
}

func isBytesLike(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

func (s *State) setLookup(in ssa.Instruction, commaOk bool, v, has *Term) {
	if commaOk {
		s.set(in, intern(Term{op: OTuple, args: []*Term{v, has}}))
	} else {
		s.set(in, v)
	}
}

// loadSplit loads a cell; a cell of a pattern array is one of the values written in a loop.
func (s *State) loadSplit(a *Term, t types.Type, in ssa.Instruction) []*State {
	s.set(in, s.load(a, t))
	return one(s)
}

func (e *Engine) binop(s *State, x *ssa.BinOp) *Term {
	a, b := s.val(x.X), s.val(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		t := e.equal(s, a, b, x.X.Type())
		if x.Op == token.NEQ {
			t = mkNot(t)
		}
		return t
	}
	if x.Op == token.ADD || x.Op == token.SUB {
		// keep machine arithmetic apart where the type is narrow
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int8) && !(a.isConst() && b.isConst()) {
			return mkApp("narrow"+x.Op.String(), x.Type(), a, b)
		}
	}
	return mkBin(x.Op, a, b, x.Type())
}

func (e *Engine) equal(s *State, a, b *Term, t types.Type) *Term {
	// len(x) == 0 style comparisons on strings: "" == x
	if isErrT(a) && isErrT(b) {
		return mkApp("==", types.Typ[types.Bool], a, b)
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if structOf(t) != nil {
		if s.facts.eqDeep(a, b) {
			return tTrue
		}
		if s.facts.possible(a, b)&EQ == 0 {
			return tFalse
		}
	}
	return mkEq(a, b)
}

func (e *Engine) next(s *State, x *ssa.Next) []*State {
	it := s.val(x.Iter)
	tt := x.Type().(*types.Tuple)
	ok := mkSym(s.fr.ctx, x, "next.ok", types.Typ[types.Bool])
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if x.IsString {
		s.set(x, intern(Term{op: OTuple, args: []*Term{ok, mkSym(s.fr.ctx, x, "next.k", kt), mkSym(s.fr.ctx, x, "next.v", vt)}}))
		return one(s)
	}
	m := it
	if it.op == OApp && it.name == "range" {
		m = it.args[0]
	}
	if rg, isR := x.Iter.(*ssa.Range); isR {
		if mt, isM := rg.X.Type().Underlying().(*types.Map); isM {
			kt, vt = mt.Key(), mt.Elem()
		}
	}
	var out []*State
	none := s.clone()
	none.set(x, intern(Term{op: OTuple, args: []*Term{tFalse, mkZero(kt), mkZero(vt)}}))
	out = append(out, none)
	if m == tNil {
		return out
	}
	ms := s.mapOf(m)
	if ms.fresh {
		for _, u := range ms.upd {
			if u.v == nil {
				continue
			}
			c := s.clone()
			both := c.pick(intern(Term{op: OTuple, args: []*Term{u.k, u.v}}), x)
			c.set(x, intern(Term{op: OTuple, args: []*Term{tTrue, both.args[0], both.args[1]}}))
			out = append(out, c)
		}
		return out
	}
	k := mkSym(s.fr.ctx, x, "next.k", kt)
	v := mkApp("mapget", vt, m, ms.ver, k)
	s.facts.assume(mkApp("maphas", types.Typ[types.Bool], m, ms.ver, k), true)
	s.set(x, intern(Term{op: OTuple, args: []*Term{tTrue, k, v}}))
	return append(out, s)
}

func typeTerm(t types.Type) *Term { return mkStr(typKey(t)) }

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := s.val(x.X)
	t := x.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	fin := func(s *State, val, ok *Term) *State {
		if x.CommaOk {
			s.set(x, intern(Term{op: OTuple, args: []*Term{val, ok}}))
		} else {
			s.set(x, val)
		}
		return s
	}
	if v == tNil {
		if !x.CommaOk {
			if e.h.Assert != nil {
				e.h.Assert(s, v, t, x)
			}
			s.dead = true
			return nil
		}
		return one(fin(s, mkZero(t), tFalse))
	}
	if v.op == OIface {
		var ok bool
		if toIface {
			ok = types.Implements(v.typ, t.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.typ, t)
		}
		if !ok {
			if !x.CommaOk {
				if e.h.Assert != nil {
					e.h.Assert(s, v, t, x)
				}
				s.dead = true
				return nil
			}
			return one(fin(s, mkZero(t), tFalse))
		}
		val := v.args[0]
		if toIface {
			val = v
		}
		return one(fin(s, val, tTrue))
	}
	var cond, val *Term
	if toIface {
		cond, val = mkApp("impl:"+typKey(t), types.Typ[types.Bool], v), v
	} else {
		cond = mkEq(mkApp("typeof", types.Typ[types.String], v), typeTerm(t))
		val = mkApp("as:"+typKey(t), t, v)
	}
	var out []*State
	yes := s.clone()
	if yes.assume(cond, true) && yes.facts.assumeRel(v, tNil, NE) {
		if !toIface {
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				yes.facts.assumeRel(val, tNil, NE)
			}
		}
		out = append(out, fin(yes, val, tTrue))
	}
	if s.facts.truthOf(cond) != 1 && s.assume(cond, false) {
		if !x.CommaOk {
			if e.h.Assert != nil {
				e.h.Assert(s, v, t, x)
			}
		} else {
			s.note(instrPos(x), v.str(3)+" is not a "+shortType(t))
			out = append(out, fin(s, mkZero(t), tFalse))
		}
	}
	return out
}

// ---------------------------------------------------------------- calls

// resolve finds what a call runs.
func (e *Engine) resolve(s *State, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term) (*Call, []*Term) {
	k := &Call{instr: in, common: c}
	if c.IsInvoke() {
		recv := fnT
		k.args = append([]*Term{recv}, args...)
		k.name = "invoke " + typeName(c.Value.Type()) + "." + c.Method.Name()
		if recv.op == OIface {
			if fn := e.p.method(recv.typ, c.Method); fn != nil {
				k.args[0] = recv.args[0]
				k.name = fnName(fn)
				if o, ok := fn.Object().(*types.Func); ok {
					k.name = funcName(o)
				}
				if e.p.inRepo[fn] && len(fn.Blocks) > 0 {
					k.fn = fn
				}
			}
		}
		return k, nil
	}
	k.args = args
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k.name = "builtin " + b.Name()
		return k, nil
	}
	if fnT.op == OClosure {
		fn := fnT.fn
		k.name = fnName(fn)
		// bound and thunk wrappers of methods that have no body here
		if len(fn.Blocks) > 0 && (e.p.inRepo[fn] || fn.Synthetic != "" && fn.Pkg == nil) {
			k.fn = fn
		}
		return k, fnT.args
	}
	k.name = "dynamic " + typKey(c.Value.Type())
	k.args = append([]*Term{fnT}, args...)
	return k, nil
}

func (e *Engine) call(s *State, in ssa.Instruction, c *ssa.CallCommon) []*State {
	var fnT *Term
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnT = s.val(c.Value)
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, s.val(a))
	}
	k, binds := e.resolve(s, in, c, fnT, args)
	return e.doCall(s, k, binds)
}

func (e *Engine) doCall(s *State, k *Call, binds []*Term) []*State {
	in := k.instr
	e.calls[in] = true
	k.inline = k.fn != nil && e.inlineOK(s, k.fn)
	if e.h.Call != nil {
		e.h.Call(s, k)
		if s.dead {
			return nil
		}
	}
	setRes := func(st *State, res *Term) {
		if v, ok := in.(*ssa.Call); ok && !k.defer_ {
			st.fr.env[v] = res
		}
	}
	var out []*State
	if k.inline {
		ctx := s.fr.ctx
		for _, x := range e.callFn(s, in, k.fn, k.args, binds, ctx) {
			var res *Term
			switch len(x.res) {
			case 0:
				res = intern(Term{op: OTuple})
			case 1:
				res = x.res[0]
			default:
				res = intern(Term{op: OTuple, args: x.res})
			}
			if e.h.After != nil {
				e.h.After(x.s, k, res)
			}
			if x.s.dead {
				continue
			}
			setRes(x.s, res)
			out = append(out, x.s)
		}
		return out
	}
	for _, o := range e.external(s, k) {
		if o.s.dead {
			continue
		}
		if e.h.After != nil {
			e.h.After(o.s, k, o.res)
			if o.s.dead {
				continue
			}
		}
		setRes(o.s, o.res)
		out = append(out, o.s)
	}
	return out
}

func (e *Engine) inlineOK(s *State, fn *ssa.Function) bool {
	if e.h.Opaque != nil && e.h.Opaque(fn) {
		return false
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	if fnPkg(fn) == protoPkg && !strings.HasPrefix(fn.Name(), "Get") {
		return false
	}
	n, d := 0, 0
	for f := s.fr; f != nil; f = f.caller {
		d++
		if f.fn == fn {
			n++
		}
	}
	if n >= 2 || d > 40 {
		e.giveUp(fn.String(), "recursion")
		return false
	}
	return true
}

func (e *Engine) goStmt(s *State, x *ssa.Go) []*State {
	c := &x.Call
	var fnT *Term
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnT = s.val(c.Value)
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, s.val(a))
	}
	k, binds := e.resolve(s, x, c, fnT, args)
	if e.h.Go != nil {
		e.h.Go(s, k)
	}
	for _, a := range append(append([]*Term{}, k.args...), binds...) {
		s.escape(a)
	}
	if k.fn != nil {
		e.spawn(s, k.fn, k.args, binds, x)
	}
	return one(s)
}

// spawn schedules the exploration of a goroutine (or callback) from the current state.
func (e *Engine) spawn(s *State, fn *ssa.Function, args, binds []*Term, at ssa.Instruction) {
	for _, f := range e.p.fns {
		_ = f
		break
	}
	n := s.clone()
	ctx := mkCtx(s.fr.ctx, at, fn)
	n.fr = &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopState{}}
	n.locks = nil
	for k := range n.mon {
		if strings.HasPrefix(k, "own:") {
			delete(n.mon, k)
		}
	}
	all := append(append([]*Term{}, args...), binds...)
	for _, a := range all {
		n.escape(a)
	}
	n.bump(at)
	n.gc(nil, all...)
	key := fn.String() + n.key(all...)
	if e.spawned[key] {
		return
	}
	e.spawned[key] = true
	n.note(instrPos(at), "started "+fn.Name())
	n.fr = nil
	e.pending = append(e.pending, pendingRoot{n, fn, args, binds, ""})
}

func (e *Engine) runDefers(s *State) []*State {
	states := []*State{s}
	for {
		var next []*State
		progress := false
		for _, st := range states {
			n := len(st.fr.defers)
			if n == 0 {
				next = append(next, st)
				continue
			}
			progress = true
			d := st.fr.defers[n-1]
			st.fr.defers = st.fr.defers[:n-1]
			k, binds := e.resolve(st, d.instr, d.c, d.fn, d.args)
			k.defer_ = true
			next = append(next, e.doCall(st, k, binds)...)
		}
		states = next
		if !progress {
			return states
		}
	}
}
