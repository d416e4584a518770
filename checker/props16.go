package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C23", c23) }

// handlers lists the methods through which messages from the network reach the repository: the servers and state
// machines it registers, what it hands to them, and the services that connect to sentries.
func (p *Program) handlers() []*ssa.Function {
	ifaces := [][2]string{{protoPkg, "CosignerGRPCServer"}, {raftPkg, "FSM"}, {raftPkg, "FSMSnapshot"},
		{tmTypes, "PrivValidator"}, {sigPkg, "Cosigner"}}
	var out []*ssa.Function
	for _, f := range p.fns {
		r := f.Signature.Recv()
		if r == nil || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || fnPkg(f) == protoPkg || !p.inRepo[f] {
			continue
		}
		if f.Name() == "OnStart" {
			if p.mentions(f, dialsIn) {
				out = append(out, f)
			}
			continue
		}
		for _, n := range ifaces {
			t := p.namedType(n[0], n[1])
			if t == nil {
				continue
			}
			it, ok := t.Underlying().(*types.Interface)
			if !ok || !types.Implements(r.Type(), it) && !types.Implements(types.NewPointer(derefT(r.Type())), it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == f.Name() {
					out = append(out, f)
				}
			}
			break
		}
	}
	return out
}

func dialsIn(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && dials(&Call{name: calleeName(c.Common())})
}

// isMessage: the type is a struct of a generated protocol package (not the wrapper of one of several alternatives, which
// decoding never leaves empty).
func isMessage(t types.Type) bool {
	n := structName(t)
	i := strings.LastIndexByte(n, '.')
	if i < 0 || !strings.Contains(n[:i], "/proto") {
		return false
	}
	for _, m := range []string{"Message_", "PublicKey_"} {
		if strings.HasPrefix(n[i+1:], m) {
			return false
		}
	}
	return true
}

// nilable says why a pointer may be nil.
func (w *crashWatch) nilable(s *State, p *Term) string {
	if p == tNil || s.facts.isNil(p) {
		return "nil"
	}
	if s.facts.isNonNil(p) {
		return ""
	}
	switch {
	case p.op == OLoad && p.args[0].op == OFieldAddr:
		a := p.args[0]
		if isMessage(ownerOf(a)) {
			return "the " + fieldName(a) + " of a message, which may be absent"
		}
	case p.op == OField && isMessage(typOr(p.args[0])):
		return "a part of a message, which may be absent"
	case isApp(p, "mapget"):
		return "the value of a map entry that may not exist"
	}
	if e := w.err[p]; e != nil && !s.facts.isNil(e) {
		return "the result of a call that may have failed"
	}
	return ""
}

func ownerOf(a *Term) types.Type {
	return derefT(typOr(a.args[0]))
}

func fieldName(a *Term) string { return a.name[strings.LastIndexByte(a.name, '.')+1:] }

type crashWatch struct {
	c   *Check
	err map[*Term]*Term // a result of a call -> the error it came with
}

func c23(c *Check) {
	stop := c.rule("a request only ends the process for local state that cannot be written or is inconsistent", 1)
	asserts := c.rule("no value is taken for a type that it may not have", 0)
	nils := c.rule("no absent part of a message, missing entry or failed result is used", 20)
	bounds := c.rule("no position outside of a list or text is used", 4)
	formed := c.rule("a vote or proposal is passed on to be signed only if it is there, of a known type and its block ID is well formed", 2)

	w := &crashWatch{c: c, err: map[*Term]*Term{}}
	h := &Hooks{}
	h.After = func(s *State, k *Call, res *Term) {
		switch k.name {
		case tmTypes + ".BlockIDFromProto", tmTypes + ".VoteFromProto", tmTypes + ".ProposalFromProto":
			if e := resAt(res, 1); e != nil {
				s.mon["own:checked"], s.mon["own:checkerr"] = k.arg(0), e
			}
		}
		if res != nil && res.op == OTuple && len(res.args) > 1 {
			e := res.args[len(res.args)-1]
			if e.typ != nil && isErrorType(e.typ) {
				for _, x := range res.args[:len(res.args)-1] {
					if x.op == OSym {
						w.err[x] = e
					}
				}
				if localOp(k) {
					s.mon["own:local"] = e
				}
			}
		}
		if localOp(k) && res != nil && res.op != OTuple {
			s.mon["own:local"] = res
		}
	}
	h.Panic = func(s *State, in ssa.Instruction, why string) {
		c.judge(s, stop, c.site(in, "stop"), in, w.localReason(s), "the process ends here, and not for local state that cannot be written or is inconsistent: "+why)
	}
	h.Assert = func(s *State, x *Term, t types.Type, in ssa.Instruction) {
		c.judge(s, asserts, c.site(in, "as "+shortType(t)), in, false, "the value may not be a "+shortType(t))
	}
	h.Deref = func(s *State, p *Term, in ssa.Instruction) {
		why := w.nilable(s, p)
		c.judge(s, nils, c.site(in, "use of "+objName(p)), in, why == "", "what is used is "+why)
	}
	h.MapLookup = func(s *State, m, k *Term, in ssa.Instruction) {
		// whether the entry exists has to be known when the position made from its key is used
		if mt, ok := typOr(m).Underlying().(*types.Map); ok && typeName(mt.Elem()) == sigPkg+".CosignerPeer" {
			s.mon["peerlookup"] = mkApp("maphas", types.Typ[types.Bool], m, s.mapOf(m).ver, k)
		}
	}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if v != nil {
			c.judge(s, nils, c.site(in, "entry of "+objName(m)), in, m != tNil && !s.facts.isNil(m), "an entry is put into a map that is nil")
		}
	}
	h.Index = func(s *State, x, i *Term, in ssa.Instruction) {
		var xv, idx ssa.Value
		switch in := in.(type) {
		case *ssa.IndexAddr:
			xv, idx = in.X, in.Index
		case *ssa.Index:
			xv, idx = in.X, in.Index
		default:
			return
		}
		if at := arrayOf(xv.Type()); at != nil {
			n, known := i.intVal()
			if !known {
				c.judge(s, bounds, c.site(in, "element of "+objName(x)), in, s.below(idx, i, mkInt(at.Len())), "the position may be outside of the array")
			} else if n < 0 || n >= at.Len() {
				c.judge(s, bounds, c.site(in, "element of "+objName(x)), in, false, "the position is outside of the array")
			}
			return
		}
		c.judge(s, bounds, c.site(in, "element of "+objName(x)), in, s.below(idx, i, s.lenOf(x)) || w.ofCosigner(s, i), "the position may be outside of the list")
	}
	h.Slice = func(s *State, x, lo, hi *Term, in *ssa.Slice) {
		n := s.lenOf(x)
		if at := arrayOf(in.X.Type()); at != nil {
			n = mkInt(at.Len())
		}
		ok := true
		if hi != nil {
			ok = s.facts.possible(hi, mkInt(0))&LT == 0 && (s.facts.possible(hi, n)&GT == 0 || s.atMost(hi, n, 0))
			n = hi
		}
		if lo != nil {
			ok = ok && s.facts.possible(lo, mkInt(0))&LT == 0 && (s.facts.possible(lo, n)&GT == 0 || s.atMost(lo, n, 0))
		}
		c.judge(s, bounds, c.site(in, "part of "+objName(x)), in, ok, "the part may reach outside of the list or text")
	}
	h.Call = func(s *State, k *Call) {
		if isMsgIO(k, "WriteMsg") != nil { // the request was answered
			s.delMon("own:check")
		}
		if strings.HasPrefix(k.name, "invoke ") || strings.HasPrefix(k.name, "dynamic ") {
			why := w.nilable(s, k.arg(0))
			c.judge(s, nils, c.site(k.instr, "call of "+shortCall(k.name)), k.instr, why == "", "what is called is "+why)
		}
		if k.name == tmTypes+".BlockIDFromProto" {
			s.mon["own:checkhash"], s.mon["own:checkparts"] = w.hashes(s, k.arg(0))
		}
		// what signs or encodes a vote or a proposal of a message
		m := k.name[strings.LastIndexByte(k.name, '.')+1:]
		vote := m == "SignVote" || m == "VoteSignBytes"
		if !vote && m != "SignProposal" && m != "ProposalSignBytes" {
			return
		}
		v := k.arg(len(k.args) - 1)
		if v == nil || v.op == OSym && strings.HasPrefix(v.name, "param:") || k.inline && w.c.p.inRepo[k.fn] {
			return // passed on as it came, or judged inside
		}
		good := s.facts.isNonNil(v) && !s.facts.isNil(v)
		c.judge(s, formed, c.site(k.instr, m), k.instr, good, "the message may be without what is to be signed")
		if !good {
			return
		}
		if vote {
			t := s.get(v, c.p.namedType(tmProtoPkg, "Vote"), "Type")
			for _, x := range []int64{0, 3, 32} {
				if s.facts.possible(t, mkInt(x))&EQ != 0 {
					good = false
				}
			}
			c.judge(s, formed, c.site(k.instr, m), k.instr, good, "the vote may be of an unknown type")
		}
		c.judge(s, formed, c.site(k.instr, m), k.instr, w.checked(s, v, vote), "the block ID may be malformed, and making the bytes to sign panics then")
	}
	c.explore(h, c.p.handlers(), nil)
}

// localOp: the call turns local state into bytes or writes it.
func localOp(k *Call) bool {
	return k.name == writeAtomic || strings.HasSuffix(k.name, ".Marshal") || strings.HasSuffix(k.name, ".MarshalIndent")
}

// localReason: the path got here because local state could not be written or is inconsistent.
func (w *crashWatch) localReason(s *State) bool {
	if e := s.mon["own:local"]; e != nil && s.facts.isNonNil(e) {
		return true
	}
	sig, bytes := false, false
	for _, f := range s.facts.pairs() {
		for _, p := range [][2]*Term{{f.a, f.b}, {f.b, f.a}} {
			a, b := p[0], p[1]
			if a.op != OLoad || a.args[0].op != OFieldAddr {
				continue
			}
			switch a.args[0].name {
			case ssT + ".filePath":
				if v, ok := b.strVal(); ok && v == "" && f.bits == EQ {
					return true
				}
			case ssT + ".Signature":
				sig = sig || b == tNil && f.bits == EQ
			case ssT + ".SignBytes":
				bytes = bytes || b == tNil && f.bits&EQ == 0
			}
		}
	}
	return sig && bytes
}

// checked: the block ID of the vote or proposal was found to be well formed.
func (w *crashWatch) checked(s *State, v *Term, vote bool) bool {
	p, e := s.mon["own:checked"], s.mon["own:checkerr"]
	if p == nil || !s.facts.isNil(e) {
		return false
	}
	if p == v {
		return true
	}
	t := w.c.p.namedType(tmProtoPkg, "Proposal")
	if vote {
		t = w.c.p.namedType(tmProtoPkg, "Vote")
	}
	bid, _ := fieldAddr(v, t, "BlockID")
	if bid == p {
		return true
	}
	h1, h2 := s.mon["own:checkhash"], s.mon["own:checkparts"]
	x1, x2 := w.hashes(s, bid)
	return h1 != nil && h2 != nil && s.facts.eq(h1, x1) && s.facts.eq(h2, x2)
}

// hashes gives the hashes of a block ID.
func (w *crashWatch) hashes(s *State, bid *Term) (*Term, *Term) {
	bt, pt := w.c.p.namedType(tmProtoPkg, "BlockID"), w.c.p.namedType(tmProtoPkg, "PartSetHeader")
	ps, _ := fieldAddr(bid, bt, "PartSetHeader")
	return s.get(bid, bt, "Hash"), s.get(ps, pt, "Hash")
}

// below: 0 <= i < n.
func (s *State) below(v ssa.Value, i, n *Term) bool {
	return (s.facts.possible(i, mkInt(0))&LT == 0 || fromZero(v)) && (s.facts.possible(i, n) == LT || s.atMost(i, n, -1))
}

// fromZero: the value counts up one by one from 0 or more.
func fromZero(v ssa.Value) bool {
	d := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		v, d = b.X, c.Int64()
	}
	ix, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ix.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Int64()+d >= 0 || stepsBy(ix, e, 1) || e == ix {
			continue
		}
		return false
	}
	return true
}

// ofCosigner: the position is that of a configured cosigner (its ID is checked when the process starts, and the lists
// kept for cosigners have an entry for each).
func (w *crashWatch) ofCosigner(s *State, i *Term) bool {
	b, n := splitAdd(i)
	if n != -1 || b == nil {
		return false
	}
	if isApp(b, "invoke "+sigPkg+".Cosigner.GetID") || strings.HasSuffix(b.String(), ".&key.&ID@v0") {
		return true
	}
	id := peerID(b)
	if cl, _ := fieldOf(loadAddr(id)); cl == ckT+".ID" {
		return true
	}
	if id.op == OSym && strings.HasSuffix(id.name, "next.k") {
		return true
	}
	for f, v := range s.facts.truth {
		if v && f.op == OApp && f.name == "maphas" && (f.args[2] == id || f.args[2] == b || s.facts.eq(f.args[2], b)) {
			if mt, ok := typOr(f.args[0]).Underlying().(*types.Map); ok && typeName(mt.Elem()) == sigPkg+".CosignerPeer" {
				return true
			}
		}
	}
	return false
}
