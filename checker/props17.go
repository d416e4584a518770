package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C21", c21) }

// longest: a wait of a request that takes longer than this (in nanoseconds) does not count as bounded.
const longest = int64(10 * 60 * 1e9)

// counted gives the number of iterations of a loop if every iteration passes an exit test that must fail at some time:
// a counter against a bound that the loop does not change, the end of a list or map, or a moment in time. n is -1 if the
// number is not a constant.
func counted(lp *Loop) (n int64, ok bool) {
	exits := map[*ssa.BasicBlock]bool{}
	n = -1
	for b := range lp.body {
		if len(b.Instrs) == 0 {
			continue
		}
		f, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isIf || lp.body[b.Succs[0]] && lp.body[b.Succs[1]] {
			continue
		}
		if k, fin := runsOut(lp, f.Cond, lp.body[b.Succs[0]]); fin {
			exits[b] = true
			if k >= 0 && (n < 0 || k < n) {
				n = k
			}
		}
	}
	// is there an iteration without such a test?
	if exits[lp.header] {
		return n, true
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{lp.header}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		for _, x := range b.Succs {
			if x == lp.header {
				return 0, false
			}
			if lp.body[x] && !exits[x] && !seen[x] {
				seen[x] = true
				todo = append(todo, x)
			}
		}
	}
	return n, true
}

func invariantIn(lp *Loop, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && invariantIn(lp, x.Call.Args[0]) {
			return true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return invariantIn(lp, a.X)
			case *ssa.Alloc:
				return len(storesIn(lp, a)) == 0
			case *ssa.FreeVar, *ssa.Global:
				return true
			}
		}
	case *ssa.BinOp:
		return invariantIn(lp, x.X) && invariantIn(lp, x.Y)
	case *ssa.Convert:
		return invariantIn(lp, x.X)
	case *ssa.ChangeType:
		return invariantIn(lp, x.X)
	}
	in, ok := v.(ssa.Instruction)
	return ok && !lp.body[in.Block()]
}

// storesIn: what the loop stores in a variable.
func storesIn(lp *Loop, a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) && lp.body[st.Block()] {
			out = append(out, st)
		}
	}
	return out
}

// everyRound: the block is part of every iteration.
func everyRound(lp *Loop, b *ssa.BasicBlock) bool {
	for _, p := range lp.header.Preds {
		if lp.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// step: the value is a counter of the loop (or one step further): it grows (1) or falls (-1) in every iteration.
func step(lp *Loop, v ssa.Value) (dir int, by int64, from ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) && lp.body[x.Block()] {
				v = x.X
				continue
			}
		}
		break
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL { // a variable that closures use too
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			return 0, 0, nil
		}
		sts := storesIn(lp, a)
		if len(sts) != 1 || !everyRound(lp, sts[0].Block()) {
			return 0, 0, nil
		}
		b, ok := sts[0].Val.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return 0, 0, nil
		}
		l, ok := b.X.(*ssa.UnOp)
		c, isC := b.Y.(*ssa.Const)
		if !ok || l.X != ssa.Value(a) || !isC || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, 0, nil
		}
		k, _ := constant.Int64Val(c.Value)
		if b.Op == token.SUB {
			k = -k
		}
		switch {
		case k > 0:
			return 1, k, v
		case k < 0:
			return -1, -k, v
		}
		return 0, 0, nil
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != lp.header {
		return 0, 0, nil
	}
	seen := map[ssa.Value]bool{}
	good := true
	var visit func(e ssa.Value)
	visit = func(e ssa.Value) {
		if seen[e] || !good {
			return
		}
		seen[e] = true
		if p, isPhi := e.(*ssa.Phi); isPhi && p != phi && lp.body[p.Block()] {
			for _, x := range p.Edges {
				visit(x)
			}
			return
		}
		b, isBin := e.(*ssa.BinOp)
		if !isBin || b.X != ssa.Value(phi) {
			good = false
			return
		}
		c, isC := b.Y.(*ssa.Const)
		if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
			good = false
			return
		}
		k, exact := constant.Int64Val(c.Value)
		if b.Op == token.SUB {
			k = -k
		} else if b.Op != token.ADD {
			good = false
		}
		d := 0
		if k > 0 {
			d = 1
		} else if k < 0 {
			d, k = -1, -k
		}
		if !exact || d == 0 || dir != 0 && dir != d {
			good = false
			return
		}
		dir = d
		if by == 0 || k < by {
			by = k
		}
	}
	for i, e := range phi.Edges {
		if lp.body[phi.Block().Preds[i]] {
			visit(e)
		} else {
			from = e
		}
	}
	if !good {
		return 0, 0, nil
	}
	return dir, by, from
}

// runsOut: the condition cannot keep the loop running (by being true, or false if !stay) for ever.
func runsOut(lp *Loop, cond ssa.Value, stay bool) (int64, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return runsOut(lp, x.X, !stay)
		}
	case *ssa.Extract: // the next element of a map or string
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 && stay {
			if r, ok := nx.Iter.(*ssa.Range); ok && !lp.body[r.Block()] {
				return -1, true
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "time.Time.After", "time.Time.Before": // a moment in time
			a := x.Call.Args
			now := func(v ssa.Value) bool { c, ok := v.(*ssa.Call); return ok && calleeName(&c.Call) == "time.Now" }
			after := calleeName(&x.Call) == "time.Time.After"
			if now(a[0]) && invariantIn(lp, a[1]) {
				return -1, after != stay
			}
			if now(a[1]) && invariantIn(lp, a[0]) {
				return -1, after == stay
			}
		}
	case *ssa.BinOp:
		op, l, r := x.Op, x.X, x.Y
		if !stay {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		if invariantIn(lp, l) && !invariantIn(lp, r) {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !invariantIn(lp, r) {
			return 0, false
		}
		if c, ok := l.(*ssa.Call); ok {
			switch calleeName(&c.Call) {
			case "time.Since":
				return -1, (op == token.LSS || op == token.LEQ) && invariantIn(lp, c.Call.Args[0])
			case "time.Until":
				return -1, (op == token.GTR || op == token.GEQ) && invariantIn(lp, c.Call.Args[0])
			case "invoke context.Context.Err":
				return -1, op == token.EQL
			}
		}
		dir, by, from := step(lp, l)
		if dir == 0 || dir > 0 && op != token.LSS && op != token.LEQ && op != token.NEQ || dir < 0 && op != token.GTR && op != token.GEQ && op != token.NEQ {
			return 0, false
		}
		a, ok1 := from.(*ssa.Const)
		b, ok2 := r.(*ssa.Const)
		if ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.Kind() == constant.Int && b.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(a.Value)
			j, _ := constant.Int64Val(b.Value)
			d := j - i
			if d < 0 {
				d = -d
			}
			return d/by + 1, true
		}
		return -1, true
	}
	return 0, false
}

// remoteCall: the call of a method of another node; ctx is the context it gets.
func remoteCall(k *Call) (ctx *Term, ok bool) {
	n := k.name
	switch {
	case strings.HasPrefix(n, "invoke "+protoPkg+".") && strings.Contains(n, "Client."), strings.HasPrefix(n, protoPkg+".") && strings.Contains(n, "Client."):
	case n == "google.golang.org/grpc.ClientConn.Invoke" || n == "google.golang.org/grpc.ClientConn.NewStream" || strings.HasPrefix(n, "invoke google.golang.org/grpc.ClientConnInterface."):
	default:
		return nil, false
	}
	for _, a := range k.args {
		if typeName(typOr(a)) == "context.Context" {
			return a, true
		}
	}
	return nil, len(k.args) > 1
}

func opensNode(k *Call) bool {
	switch k.name {
	case grpcDial, "google.golang.org/grpc.DialContext", "google.golang.org/grpc.NewClient":
		return true
	}
	return false
}

func givesCancel(k *Call) bool {
	switch k.name {
	case "context.WithTimeout", "context.WithDeadline", "context.WithCancel", "context.WithTimeoutCause", "context.WithDeadlineCause", "context.WithCancelCause":
		return true
	}
	return false
}

func c21(c *Check) {
	dead := c.rule("every call to another node carries a deadline", 2)
	blocked := c.rule("opening a connection to another node does not wait for the node", 1)
	closed := c.rule("every connection opened to another node is closed on every path", 1)
	cancelled := c.rule("every context with a deadline is released on every path", 1)
	waits := c.rule("whatever a request waits for ends after a bounded time", 2)
	loops := c.rule("every loop on the way of a request ends after a bounded number of rounds", 1)
	entry := map[*ssa.Function]bool{}
	for _, f := range c.p.handlers() {
		entry[f] = true
	}
	times := map[*Term]*Term{} // moments, timers and channels: how far ahead
	made := map[string]ssa.Instruction{}
	h := &Hooks{}
	limit := func(d *Term) string {
		if d == nil {
			return "without an end"
		}
		if n, ok := d.intVal(); ok {
			if n <= 0 || n > longest {
				return fmt.Sprintf("with a limit of %d s", n/1e9)
			}
		}
		return ""
	}
	deadline := func(s *State, ctx *Term) *Term {
		for _, m := range s.monKeys("ctx:") {
			if unI(s.mon[m]) == unI(ctx) {
				return times[unI(ctx)]
			}
		}
		return nil
	}
	// inRequest: the path handles a request (it is not a goroutine that another one waits for).
	inRequest := func(s *State) bool {
		f := s.fr
		for f.caller != nil {
			f = f.caller
		}
		if s.mon["own:req"] != nil {
			return s.facts.isNil(orNil(s.mon["own:reqerr"]))
		}
		return f.fn == s.e.root && entry[f.fn] && f.fn.Name() != "OnStart"
	}
	serving := func(in ssa.Instruction) bool {
		x, ok := in.(ssa.CallInstruction)
		return ok && strings.HasSuffix(calleeName(x.Common()), ".ReadMsg")
	}
	around := func(s *State, in ssa.Instruction, what string, d *Term) {
		total := int64(1)
		if d != nil {
			if n, ok := d.intVal(); ok {
				total = n
			}
		}
		at := in
		for f := s.fr; f != nil; f = f.caller {
			if at == nil {
				break
			}
			li := c.p.loopsOf(f.fn)
			for lp := li.inner[at.Block()]; lp != nil; lp = lp.outer {
				if s.mon["own:req"] != nil && c.loopMentions(lp, serving) {
					break // the loop of the requests themselves
				}
				n, ok := counted(lp)
				msg := "the loop may go round for ever"
				if ok && n > 0 && d != nil {
					if total > longest/n {
						ok, msg = false, "the rounds of the loop take more than ten minutes"
					}
					total *= n
				}
				c.judge(s, loops, c.site(at, strings.TrimSuffix("loop around "+what, " around ")), at, ok, msg)
			}
			at = f.at
		}
	}
	h.Wait = func(s *State, what string, in ssa.Instruction) {
		if !inRequest(s) {
			return
		}
		switch x := in.(type) {
		case *ssa.Select:
			ok, why := false, "none of what it waits for comes for certain"
			var d *Term
			for _, st := range x.States {
				if st.Dir != types.RecvOnly {
					continue
				}
				if t := c.ends(s, times, s.val(st.Chan)); t != nil {
					d = t
					why = "it waits " + limit(t)
					ok = ok || limit(t) == ""
				}
			}
			c.judge(s, waits, c.site(in, "select"), in, ok, why)
			around(s, in, "select", d)
		case *ssa.UnOp:
			t := c.ends(s, times, s.val(x.X))
			c.judge(s, waits, c.site(in, "receive"), in, limit(t) == "", "it waits for another goroutine "+limit(t))
			around(s, in, "receive", t)
		case *ssa.Send:
			ch, n := s.val(x.Chan), int64(0)
			if mc, ok := ch.instr.(*ssa.MakeChan); ok && mc != nil {
				if k, ok := mc.Size.(*ssa.Const); ok {
					n, _ = constant.Int64Val(k.Value)
				}
			}
			c.judge(s, waits, c.site(in, "send"), in, n > 0, "it waits for another goroutine without an end")
			around(s, in, "send", nil)
		default:
			if what == "time.Sleep" {
				return // see Call
			}
			c.judge(s, waits, c.site(in, what), in, false, "it waits for other goroutines without an end")
		}
	}
	h.Call = func(s *State, k *Call) {
		if k.inline {
			return
		}
		if ctx, ok := remoteCall(k); ok {
			var d *Term
			if ctx != nil {
				d = deadline(s, ctx)
			}
			c.judge(s, dead, c.site(k.instr, shortCall(k.name)), k.instr, d != nil && limit(d) == "", "another node is called "+limit(d))
			if inRequest(s) {
				around(s, k.instr, shortCall(k.name), d)
			}
			return
		}
		switch {
		case opensNode(k):
			var d *Term
			if k.name == "google.golang.org/grpc.DialContext" {
				d = deadline(s, k.arg(0))
			}
			why := ""
			if s.mon["own:block"] != nil && d == nil {
				why = "the call waits until the node answers"
			}
			c.judge(s, blocked, c.site(k.instr, shortCall(k.name)), k.instr, why == "", why)
			id := c.site(k.instr, "")
			x := s.mon["own:conn:"+id]
			c.judge(s, closed, c.site(k.instr, shortCall(k.name)), k.instr, x == nil || s.facts.isNonNil(orNil(s.mon["own:cerr:"+id])), "the earlier connection is not closed")
			delete(s.mon, "own:conn:"+id)
			delete(s.mon, "own:cerr:"+id)
		case k.name == "google.golang.org/grpc.ClientConn.Close":
			for _, m := range s.monKeys("own:conn:") {
				if unI(s.mon[m]) == unI(k.arg(0)) {
					delete(s.mon, m)
					delete(s.mon, "own:cerr:"+strings.TrimPrefix(m, "own:conn:"))
				}
			}
		case strings.HasPrefix(k.name, "dynamic "):
			for _, m := range s.monKeys("own:cancel:") {
				if s.mon[m] == k.arg(0) {
					delete(s.mon, m)
				}
			}
		case givesCancel(k):
			id := c.site(k.instr, "")
			c.judge(s, cancelled, c.site(k.instr, shortCall(k.name)), k.instr, s.mon["own:cancel:"+id] == nil, "the earlier context is not released")
			delete(s.mon, "own:cancel:"+id)
		case k.name == raftApply:
			d := k.arg(2)
			c.judge(s, waits, c.site(k.instr, shortCall(k.name)), k.instr, limit(d) == "", "a change is handed to the cluster "+limit(d))
			if inRequest(s) {
				around(s, k.instr, shortCall(k.name), d)
			}
		case k.name == "time.Sleep":
			if inRequest(s) {
				c.judge(s, waits, c.site(k.instr, "time.Sleep"), k.instr, limit(k.arg(0)) == "" || s.facts.possible(k.arg(0), mkInt(longest))&GT == 0, "it pauses "+limit(k.arg(0)))
				around(s, k.instr, "time.Sleep", k.arg(0))
			}
		case strings.HasSuffix(k.name, "sync.Cond.Wait"):
			if inRequest(s) {
				c.judge(s, waits, c.site(k.instr, "Cond.Wait"), k.instr, false, "it waits for other goroutines without an end")
			}
		}
	}
	h.Decode = func(s *State, target, v *Term, k *Call) {
		if isMsgIO(k, "ReadMsg") != nil {
			s.mon["own:req"] = v
			s.mon["own:reqerr"] = mkApp("decodeErr:wire:"+typKey(derefT(target.typ)), errT, v.args[0])
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		id := c.site(k.instr, "")
		switch {
		case isMsgIO(k, "WriteMsg") != nil:
			delete(s.mon, "own:req")
			delete(s.mon, "own:reqerr")
		case opensNode(k):
			made[id] = k.instr
			s.mon["own:conn:"+id], s.mon["own:cerr:"+id] = resAt(res, 0), resAt(res, 1)
		case givesCancel(k):
			made[id] = k.instr
			s.mon["own:cancel:"+id] = resAt(res, 1)
			ctx := unI(resAt(res, 0))
			d := deadline(s, k.arg(0))
			switch {
			case strings.HasPrefix(k.name, "context.WithTimeout"):
				d = k.arg(1)
			case strings.HasPrefix(k.name, "context.WithDeadline"):
				d = times[k.arg(1)]
			}
			if d != nil {
				s.monAdd("ctx", ctx)
				times[ctx] = d
			}
		case k.name == "context.WithValue":
			if d := deadline(s, k.arg(0)); d != nil {
				s.monAdd("ctx", unI(res))
				times[unI(res)] = d
			}
		case k.name == "time.Time.Add":
			times[res] = k.arg(1)
		case k.name == "time.After" || k.name == "time.NewTimer" || k.name == "time.Tick" || k.name == "time.NewTicker":
			times[res] = k.arg(0)
		case strings.HasSuffix(k.name, "context.Context.Done"):
			if d := deadline(s, k.arg(0)); d != nil {
				times[res] = d
			}
		case k.name == "google.golang.org/grpc.WithBlock":
			s.mon["own:block"] = tTrue
		}
	}
	settle := func(s *State) {
		for _, m := range s.monKeys("own:conn:") {
			e := "own:cerr:" + strings.TrimPrefix(m, "own:conn:")
			if s.facts.isNonNil(orNil(s.mon[e])) {
				delete(s.mon, m)
				delete(s.mon, e)
			}
		}
		if e := s.mon["own:reqerr"]; e != nil && s.facts.isNonNil(e) {
			delete(s.mon, "own:req")
			delete(s.mon, "own:reqerr")
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		settle(s)
		if inRequest(s) {
			around(s, in, "", nil)
		}
	}
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) { settle(s) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		settle(s)
		given := func(t *Term) bool {
			for _, r := range res {
				if r != nil && (unI(r) == unI(t) || mentionsTerm(r, t)) {
					return true
				}
			}
			return false
		}
		for _, m := range s.monKeys("own:conn:") {
			if !given(s.mon[m]) {
				id := strings.TrimPrefix(m, "own:conn:")
				c.judge(s, closed, id+"opened", made[id], false, rel(fn)+" ends without closing the connection")
			}
		}
		for _, m := range s.monKeys("own:cancel:") {
			if !given(s.mon[m]) {
				id := strings.TrimPrefix(m, "own:cancel:")
				c.judge(s, cancelled, id+"made", made[id], false, rel(fn)+" ends without releasing the context")
			}
		}
	}
	c.explore(h, c.p.roots(), nil)
}

// ends: after which time something comes out of a channel for certain (nil: perhaps never).
func (c *Check) ends(s *State, times map[*Term]*Term, ch *Term) *Term {
	if d := times[ch]; d != nil {
		return d
	}
	if _, b := fieldOf(loadAddr(ch)); b != nil {
		return times[b] // the channel of a timer
	}
	return nil
}

func mentionsTerm(v, t *Term) bool {
	if v == t {
		return true
	}
	for _, a := range v.args {
		if mentionsTerm(a, t) {
			return true
		}
	}
	return false
}

// loopMentions: an instruction of the loop, or of what it calls.
func (c *Check) loopMentions(lp *Loop, pred func(in ssa.Instruction) bool) bool {
	for b := range lp.body {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
			if x, ok := in.(ssa.CallInstruction); ok {
				if g := x.Common().StaticCallee(); g != nil && c.p.inRepo[g] && c.p.mentions(g, pred) {
					return true
				}
			}
		}
	}
	return false
}
