package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tvT       = sigPkg + ".ThresholdValidator"
	getParts  = "invoke " + sigPkg + ".Cosigner.GetEphemeralSecretParts"
	setParts  = "invoke " + sigPkg + ".Cosigner.SetEphemeralSecretPartsAndSign"
	cliSign   = "invoke " + protoPkg + ".CosignerGRPCClient.SignBlock"
	raftState = raftPkg + ".Raft.State"
	raftApply = raftPkg + ".Raft.Apply"
	grpcDial  = "google.golang.org/grpc.Dial"
)

func init() {
	register("C06", c06)
	register("C07", c07)
	register("C08", c08)
	register("C09", c09)
}

func rel(fn *ssa.Function) string { return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "") }

// deref strips what stands between a value and the struct it holds.
func deref(t *Term) *Term {
	for t != nil && (t.op == OIface || t.op == OApp && t.name == "deref") {
		t = t.args[0]
	}
	return t
}

// structArg reads the struct a call argument is or points to.
func (s *State) structArg(a *Term) (*Term, types.Type) {
	a = deref(a)
	if a == nil {
		return nil, nil
	}
	t := typOr(a)
	if isPointerT(t) {
		return s.load(a, derefT(t)), derefT(t)
	}
	return a, t
}

// isSignBlock: the exported method that signs a block with the cluster.
func isSignBlock(fn *ssa.Function) bool { return fnName(fn) == tvT+".SignBlock" }

// request remembers what a signing call was asked for, from its entry to its return.
func (c *Check) request(s *State, fn *ssa.Function, args []*Term) {
	if !isSignBlock(fn) {
		return
	}
	bt := c.p.namedType(sigPkg, "Block")
	s.mon["req:pv"], s.mon["req:chain"] = args[0], args[1]
	for _, f := range []string{"Height", "Round", "Step", "SignBytes", "Timestamp"} {
		s.mon["req:"+f] = s.get(args[2], bt, f)
	}
}

func (s *State) reqPos() triple {
	return triple{s.mon["req:Height"], s.mon["req:Round"], s.mon["req:Step"]}
}

func ofCall(t *Term, name string) bool {
	for _, l := range t.leaves() {
		if l.op == OSym && strings.HasPrefix(l.name, "res:"+name+"#") {
			return true
		}
	}
	return false
}

// noteAnswer remembers what the leader answered to a forwarded request.
func (c *Check) noteAnswer(s *State, k *Call, res *Term) {
	if k.name != cliSign || res.op != OTuple || len(res.args) != 2 {
		return
	}
	s.mon["own:cli:res"], s.mon["own:cli:err"] = res.args[0], res.args[1]
	s.mon["own:cli:sig"] = s.get(res.args[0], c.p.namedType(protoPkg, "CosignerGRPCSignBlockResponse"), "Signature")
}

// leaderAnswer: sig is the signature the leader returned without an error.
func (s *State) leaderAnswer(sig *Term) bool {
	x := s.mon["own:cli:sig"]
	if x == nil || !s.facts.isNil(s.mon["own:cli:err"]) {
		return false
	}
	return sig == x || s.content(sig) == s.content(x) || s.facts.isNil(s.mon["own:cli:res"]) && s.facts.isNil(sig)
}

func c06(c *Check) {
	valid := c.rule("a successful signing call returns a signature verified over the requested bytes, or recorded for them, or made by the leader", 1)
	none := c.rule("a signing call that fails returns no signature", 3)
	rec := c.rule("only signatures verified over the bytes they are recorded with are recorded or announced", 1)
	h := &Hooks{}
	h.Enter = c.request
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) {
		n := fnName(fn)
		if n == tvT+".SignVote" || n == tvT+".SignProposal" {
			er := res[len(res)-1]
			if s.facts.isNil(er) {
				return
			}
			msg := s.mon["own:msg"]
			if msg == nil {
				return
			}
			sig := s.get(msg, derefT(typOr(msg)), "Signature")
			c.judge(s, none, rel(fn), in, sig == tNil || s.facts.isNil(sig) || sig == s.mon["own:sig0"], "the message keeps a signature although an error is returned")
			return
		}
		if !isSignBlock(fn) {
			return
		}
		sig, er := res[0], res[len(res)-1]
		if !s.facts.isNil(er) {
			c.judge(s, none, rel(fn), in, sig == tNil || s.facts.isNil(sig), "a signature may be returned together with an error")
			if !s.facts.isNonNil(er) {
				c.judge(s, valid, rel(fn), in, false, "it is not known whether an error is returned")
			}
			return
		}
		why := "the returned signature was neither verified over the requested bytes nor recorded for exactly these bytes"
		sb := s.content(s.mon["req:SignBytes"])
		content := s.content(sig)
		ok := false
		switch {
		case s.leaderAnswer(sig):
			ok = true
		case sig == tNil || s.facts.isNil(sig):
			why = "success is reported without a signature"
		case c.verifiedBy(s, s.mon["req:pv"], sb, content):
			ok = true
		case ofCall(sig, cliSign):
			why = "the answer of the leader is not used as it is, or in spite of an error"
		case fieldNameOf(sig) == "Signature" && c.recordedFor(s, sig, sb):
			ok = s.facts.isNonNil(sig)
			if !ok {
				why = "a recorded position without a signature is answered with success"
			}
		}
		c.judge(s, valid, rel(fn), in, ok, why)
	}
	w := &wm{c: c}
	w.close = func(s *State, base *Term, in ssa.Instruction, old, new triple, set map[string]*Term) {
		sig, sb := set["Signature"], set["SignBytes"]
		if sig == nil || s.mon["req:pv"] == nil || s.facts.isNil(sig) {
			return
		}
		c.judge(s, rec, objName(base)+" in SignBlock", in, sb != nil && c.verifiedBy(s, s.mon["req:pv"], s.content(sb), s.content(sig)),
			"a signature is recorded that was not verified with the validator's key over the bytes recorded with it")
	}
	w.hooks(h)
	h.Enter = func(s *State, fn *ssa.Function, args []*Term) {
		c.request(s, fn, args)
		if n := fnName(fn); n == tvT+".SignVote" || n == tvT+".SignProposal" {
			s.mon["own:msg"] = args[2]
			s.mon["own:sig0"] = s.get(args[2], derefT(typOr(args[2])), "Signature")
		}
	}
	h.After = c.noteAnswer
	h.Call = func(s *State, k *Call) {
		if k.name != raftApply || s.mon["req:pv"] == nil {
			return
		}
		v, t := c.announced(s, s.content(k.arg(1)))
		if v == nil {
			c.judge(s, rec, c.site(k.instr, "announcement"), k.instr, false, "what is announced to the cluster is not a signed position")
			return
		}
		sig, sb := part(v, t, "Signature"), part(v, t, "SignBytes")
		c.judge(s, rec, c.site(k.instr, "announcement"), k.instr, c.verifiedBy(s, s.mon["req:pv"], s.content(sb), s.content(sig)),
			"a signature is announced that was not verified with the validator's key over the bytes announced with it")
	}
	c.explore(h, c.p.roots(), nil)
}

func fieldNameOf(t *Term) string {
	if t.op == OField {
		st := structOf(typOr(t.args[0]))
		if st != nil && t.idx < st.NumFields() {
			return st.Field(t.idx).Name()
		}
	}
	if t.op == OLoad && t.args[0].op == OFieldAddr {
		n := t.args[0].name
		return n[strings.LastIndex(n, ".")+1:]
	}
	return ""
}

// verifiedBy: the public key of the validator has been found to accept sig over msg.
func (c *Check) verifiedBy(s *State, pv, msg, sig *Term) bool {
	for t, v := range s.facts.truth {
		if v && t.op == OApp && strings.HasSuffix(t.name, ".VerifySignature") && len(t.args) == 3 && t.args[1] == msg && t.args[2] == sig {
			k := t.args[0]
			if k.op == OLoad && k.args[0].op == OFieldAddr && k.args[0].args[0] == pv {
				return true
			}
		}
	}
	return false
}

// recordedFor: the recorded bytes that belong to a recorded signature were found to be the requested ones.
func (c *Check) recordedFor(s *State, sig, sb *Term) bool {
	for f, v := range s.facts.truth {
		if !v || f.op != OApp || f.name != "bytes.Equal" {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if a == sb && fieldNameOf(b) == "SignBytes" && sameBase(b, sig) {
				return true
			}
		}
	}
	return false
}

// announced decodes the command given to raft.Apply: the record a set command for the last-signed event carries.
func (c *Check) announced(s *State, data *Term) (*Term, types.Type) {
	op, k, v := c.command(s, data)
	if op == nil {
		return nil, nil
	}
	o, _ := op.strVal()
	ks, _ := k.strVal()
	if o != "set" || ks != "LSS" {
		return nil, nil
	}
	if !isApp(v, "encoding/json.Marshal") {
		return nil, nil
	}
	x := deref(v.args[0])
	if structName(typOr(x)) != sigPkg+".SignStateConsensus" {
		return nil, nil
	}
	return x, x.typ
}

func (c *Check) command(s *State, data *Term) (op, k, v *Term) {
	if !isApp(data, "encoding/json.Marshal") {
		return nil, nil, nil
	}
	x := deref(data.args[0])
	t := typOr(x)
	if structOf(t) == nil {
		return nil, nil, nil
	}
	op, k, v = part(x, t, "Op"), part(x, t, "Key"), part(x, t, "Value")
	if op == nil || k == nil || v == nil {
		return nil, nil, nil
	}
	return op, k, unconv(s.content(v))
}

// hrstOf reads position and timestamp of an HRSTKey.
func (c *Check) hrstOf(v *Term, t types.Type) (triple, *Term) {
	return triple{part(v, t, "Height"), part(v, t, "Round"), part(v, t, "Step")}, part(v, t, "Timestamp")
}

func nanosOf(t *Term) *Term {
	if t.op == OApp && t.name == "time.Unix" {
		return t.args[1]
	}
	return mkApp("unixnano", types.Typ[types.Int64], t)
}

// coordination calls f for everything through which a block request is coordinated: the position, timestamp (in
// nanoseconds) and signed bytes (nil if not part of it) of cosigner calls, forwarded requests and announcements.
func (c *Check) coordination(s *State, k *Call, f func(what string, pos triple, nanos, sb, chain *Term)) {
	switch k.name {
	case getParts:
		v, t := s.structArg(k.arg(1))
		pos, ts := c.hrstOf(v, t)
		f("GetEphemeralSecretParts", pos, ts, nil, nil)
	case setParts:
		v, t := s.structArg(k.arg(1))
		x := part(v, t, "HRST")
		pos, ts := c.hrstOf(x, c.p.namedType(sigPkg, "HRSTKey"))
		f("SetEphemeralSecretPartsAndSign", pos, ts, part(v, t, "SignBytes"), nil)
	case cliSign:
		v, t := s.structArg(k.arg(2))
		b := part(v, t, "Block")
		bs, bt := s.structArg(b)
		pos := triple{part(bs, bt, "Height"), part(bs, bt, "Round"), unconv(part(bs, bt, "Step"))}
		f("SignBlock of the leader", pos, part(bs, bt, "Timestamp"), part(bs, bt, "SignBytes"), part(v, t, "ChainID"))
	case raftApply:
		if v, t := c.announced(s, s.content(k.arg(1))); v != nil {
			pos := triple{part(v, t, "Height"), part(v, t, "Round"), part(v, t, "Step")}
			f("announcement", pos, nil, part(v, t, "SignBytes"), nil)
		}
	}
}

func c07(c *Check) {
	match := c.rule("position, timestamp, bytes and chain ID used for a message are its own", 6)
	back := c.rule("the message is returned with the signature that was made", 2)
	h := &Hooks{}
	h.Enter = func(s *State, fn *ssa.Function, args []*Term) {
		n := fnName(fn)
		if n != tvT+".SignVote" && n != tvT+".SignProposal" {
			if isSignBlock(fn) && s.mon["m"] == nil {
				// a forwarded or direct block request: its own fields
				c.request(s, fn, args)
			}
			return
		}
		m := args[2]
		t := derefT(typOr(m))
		s.mon["m"] = m
		s.mon["m:chain"] = args[1]
		for _, f := range []string{"Height", "Round", "Type", "Timestamp", "BlockID", "PolRound", "ValidatorAddress", "ValidatorIndex"} {
			if v := s.get(m, t, f); v != nil {
				s.mon["m:"+f] = v
			}
		}
		kind := ".VoteSignBytes"
		if n == tvT+".SignProposal" {
			kind = ".ProposalSignBytes"
		}
		s.mon["m:bytes"] = mkApp(tmTypes+kind, types.NewSlice(types.Typ[types.Byte]), s.content(args[1]), s.content(m))
	}
	h.Call = func(s *State, k *Call) {
		if s.mon["m"] == nil && s.mon["req:pv"] == nil {
			return
		}
		c.coordination(s, k, func(what string, pos triple, nanos, sb, chain *Term) {
			n := c.site(k.instr, what)
			var want triple
			var ts, bytes, ch *Term
			stepOK := true
			if s.mon["m"] != nil {
				want = triple{s.mon["m:Height"], s.mon["m:Round"], nil}
				ts, bytes, ch = s.mon["m:Timestamp"], s.mon["m:bytes"], s.mon["m:chain"]
				n += " for " + shortType(derefT(typOr(s.mon["m"])))
				step, ok := unconv(pos[2]).intVal()
				if s.mon["m:ValidatorIndex"] == nil {
					stepOK = ok && step == 1
				} else {
					stepOK = ok && (step == 2 || step == 3) && s.facts.possible(s.mon["m:Type"], mkInt(step-1)) == EQ
				}
			} else {
				want = s.reqPos()
				ts, bytes, ch = s.mon["req:Timestamp"], s.mon["req:SignBytes"], s.mon["req:chain"]
				n += " for a block"
				stepOK = pos[2] != nil && s.facts.eq(unconv(pos[2]), unconv(want[2]))
			}
			c.judge(s, match, n+": step", k.instr, stepOK, "the step is not known to be that of the message's type")
			for i, f := range []string{"height", "round"} {
				c.judge(s, match, n+": "+f, k.instr, pos[i] != nil && s.facts.eq(pos[i], want[i]), "another "+f+" than that of the message is used")
			}
			if nanos != nil {
				c.judge(s, match, n+": timestamp", k.instr, s.facts.eq(nanos, nanosOf(ts)), "another timestamp than that of the message is used")
			}
			if sb != nil {
				c.judge(s, match, n+": bytes", k.instr, s.content(sb) == s.content(bytes), "other bytes than those of the message are used")
			}
			if chain != nil {
				c.judge(s, match, n+": chain ID", k.instr, s.content(chain) == s.content(ch), "another chain ID than the requested one is used")
			}
		})
	}
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) {
		if isSignBlock(fn) {
			s.mon["own:made"] = res[0]
			return
		}
		n := fnName(fn)
		if n != tvT+".SignVote" && n != tvT+".SignProposal" || !s.facts.isNil(res[0]) {
			return
		}
		m := s.mon["m"]
		t := derefT(typOr(m))
		sig := s.get(m, t, "Signature")
		made := s.mon["own:made"]
		ok := made != nil && s.content(sig) == s.content(made)
		c.judge(s, back, rel(fn)+": signature", in, ok, "the message does not carry the signature that was made for it")
		for _, f := range []string{"Height", "Round", "Type", "BlockID", "PolRound", "ValidatorAddress", "ValidatorIndex"} {
			if v := s.mon["m:"+f]; v != nil {
				now := s.get(m, t, f)
				c.judge(s, back, rel(fn)+": other fields", in, now == v || s.content(now) == s.content(v), "the "+f+" of the message is changed")
			}
		}
		ts := s.get(m, t, "Timestamp")
		c.judge(s, back, rel(fn)+": timestamp", in, s.facts.eq(nanosOf(ts), nanosOf(s.mon["m:Timestamp"])), "the timestamp of the message is changed to one that was not signed")
	}
	c.explore(h, c.p.rootsNamed(tvT+".SignVote", tvT+".SignProposal", tvT+".SignBlock"), nil)
}

// rootsNamed: the entry points with these names.
func (p *Program) rootsNamed(names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.roots() {
		for _, n := range names {
			if fnName(f) == n {
				out = append(out, f)
			}
		}
	}
	return out
}

const leaderConst = 2 // raft.Leader

func (s *State) isLeader() bool {
	for _, k := range s.monKeys("raft:state:") {
		if s.facts.possible(s.mon[k], mkInt(leaderConst)) == EQ {
			return true
		}
	}
	return false
}

func (s *State) noteState(k *Call, res *Term) {
	if k.name == raftState {
		s.mon[key("raft:state", res)] = res
	}
}

func c08(c *Check) {
	lead := c.rule("cosigners are asked, and signatures recorded or announced, only by a node that found itself leader for this request", 3)
	fwd := c.rule("other nodes forward the request and return the leader's answer", 1)
	up := c.rule("raft is not used before it runs", 1)
	same := c.rule("the request is forwarded unchanged, to the node raft names as leader", 6)
	h := &Hooks{}
	h.Enter = c.request
	h.After = func(s *State, k *Call, res *Term) {
		s.noteState(k, res)
		c.noteAnswer(s, k, res)
		if k.name == grpcDial && s.mon["req:pv"] != nil {
			s.mon["own:dialed"] = k.arg(0)
		}
	}
	h.Call = func(s *State, k *Call) {
		switch k.name {
		case getParts, setParts:
			c.judge(s, lead, c.site(k.instr, k.name), k.instr, s.isLeader(), "a cosigner is asked to take part in a signature although this node is not known to be the leader")
		case raftApply:
			if s.mon["req:pv"] != nil {
				c.judge(s, lead, c.site(k.instr, "announcement"), k.instr, s.isLeader(), "a signature is announced although this node is not known to be the leader")
			}
		case raftState:
			if s.mon["req:pv"] != nil && len(s.monKeys("raft:state:")) == 0 {
				c.judge(s, up, c.site(k.instr, "raft state"), k.instr, s.facts.isNonNil(k.arg(0)), "raft is asked for its state although it may not have been started")
			}
		case cliSign:
			if s.mon["req:pv"] == nil {
				break
			}
			c.coordination(s, k, func(what string, pos triple, nanos, sb, chain *Term) {
				n := c.site(k.instr, what)
				for i, f := range []string{"height", "round", "step"} {
					c.judge(s, same, n+": "+f, k.instr, pos[i] != nil && (s.facts.eq(pos[i], s.reqPos()[i]) || f == "step" && s.facts.eq(unconv(pos[i]), unconv(s.reqPos()[i]))), "the "+f+" is not forwarded as it was requested")
				}
				c.judge(s, same, n+": timestamp", k.instr, nanos != nil && s.facts.eq(nanos, nanosOf(s.mon["req:Timestamp"])), "the timestamp is not forwarded as it was requested")
				c.judge(s, same, n+": bytes", k.instr, sb != nil && s.content(sb) == s.content(s.mon["req:SignBytes"]), "other bytes than the requested ones are forwarded")
				c.judge(s, same, n+": chain ID", k.instr, chain != nil && s.content(chain) == s.content(s.mon["req:chain"]), "another chain ID than the requested one is forwarded")
			})
			c.judge(s, same, c.site(k.instr, "addressee"), k.instr, s.mon["own:dialed"] != nil && ofCall(s.content(s.mon["own:dialed"]), raftPkg+".Raft.Leader"), "the request is sent to a node that raft did not name as leader")
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		pv := s.mon["req:pv"]
		if pv == nil {
			return
		}
		eachStore(addr, val, 0, func(a, v *Term) {
			if cl, b := fieldOf(a); strings.HasPrefix(cl, ssT+".") && !s.private(rootAddr(b)) {
				c.judge(s, lead, "records kept while signing a block", in, s.isLeader(), "a position is recorded for a block request although this node is not known to be the leader")
			}
		})
	}
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) {
		if !isSignBlock(fn) || s.isLeader() {
			return
		}
		er := res[len(res)-1]
		if s.facts.isNonNil(er) {
			return
		}
		c.judge(s, fwd, rel(fn), in, s.leaderAnswer(res[0]),
			"a node that is not the leader answers with something else than the leader's answer")
	}
	c.explore(h, c.p.roots(), nil)
}

func c09(c *Check) {
	c.startedFirst(c.rule("cosigners are asked only after this request recorded that it starts on the position, or for bytes that differ from the signed ones in the timestamp only", 2))
}

func (c *Check) startedFirst(once string) {
	h := &Hooks{}
	w := &wm{c: c}
	w.hooks(h)
	w.close = func(s *State, base *Term, in ssa.Instruction, old, new triple, set map[string]*Term) {
		if s.mon["req:pv"] == nil || rootAddr(base) != rootAddr(s.mon["req:pv"]) || s.mon["req:got"] != nil {
			return
		}
		n := triple{set["Height"], set["Round"], set["Step"]}
		if n[0] == nil || n[1] == nil || n[2] == nil || !lexGT(s, n, old) {
			return
		}
		for i := range n {
			s.mon[key("req:started", i)] = n[i]
		}
	}
	h.Enter = c.request
	h.Branch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		if s.mon["req:pv"] != nil && s.mon["req:again"] == nil && c.signedBefore(s, s.reqPos(), s.content(s.mon["req:SignBytes"])) {
			s.mon["req:again"] = tTrue
		}
	}
	h.Call = func(s *State, k *Call) {
		if k.name != getParts && k.name != setParts {
			return
		}
		c.coordination(s, k, func(what string, pos triple, nanos, sb, chain *Term) {
			started := triple{s.mon["req:started:0"], s.mon["req:started:1"], s.mon["req:started:2"]}
			ok := tripleEq(s, started, pos)
			if !ok && s.mon["req:again"] != nil {
				ok = tripleEq(s, s.reqPos(), pos)
			}
			c.judge(s, once, c.site(k.instr, what), k.instr, ok, "cosigners are asked to sign although the request neither started this position nor repeats a signed one with another timestamp")
		})
	}
	c.explore(h, c.p.rootsNamed(tvT+".SignBlock"), nil)
}

// signedBefore: a record for the position exists whose bytes differ from m in the timestamp only.
func (c *Check) signedBefore(s *State, pos triple, m *Term) bool {
	kt := c.p.namedType(sigPkg, "HRSKey")
	for f, v := range s.facts.truth {
		if !v || f.op != OApp || f.name != "maphas" {
			continue
		}
		k := f.args[2]
		kk := triple{part(k, kt, "Height"), part(k, kt, "Round"), part(k, kt, "Step")}
		if !c.isCache(f.args[0]) || !tripleEq(s, kk, pos) {
			continue
		}
		vt := c.p.namedType(sigPkg, "SignStateConsensus")
		e := mkApp("mapget", vt, f.args...)
		if onlyTimestampDiffers(s, c, s.content(part(e, vt, "SignBytes")), m) {
			return true
		}
	}
	return false
}
