package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C15", c15) }

const (
	privvalPkg = "github.com/tendermint/tendermint/proto/tendermint/privval"
	rrsT       = sigPkg + ".ReconnRemoteSigner"
	pvI        = "invoke github.com/tendermint/tendermint/types.PrivValidator."
)

// answers of the privval protocol: request -> response
var privvalKinds = map[string]string{"SignVoteRequest": "SignedVoteResponse", "SignProposalRequest": "SignedProposalResponse", "PubKeyRequest": "PubKeyResponse", "PingRequest": "PingResponse"}

// isMsgIO: reads or writes a message of the privval protocol.
func isMsgIO(k *Call, what string) *Term {
	if !strings.HasPrefix(k.name, "invoke ") || !strings.HasSuffix(k.name, "."+what) || len(k.args) < 2 {
		return nil
	}
	m, _ := unIface(k.arg(1))
	if typeName(derefT(typOr(m))) != privvalPkg+".Message" {
		return nil
	}
	return m
}

// pieceOf reads a field of the struct a pointer or value is.
func (s *State) pieceOf(v *Term, name string) *Term {
	if v == nil || v.typ == nil {
		return nil
	}
	i, _ := lookField(v.typ, name)
	if i < 0 {
		return nil
	}
	return s.at(v, v.typ, i)
}

func c15(c *Check) {
	one := c.rule("a request is answered before the next is read or the connection is given up, and nothing else is written", 3)
	kind := c.rule("the answer is of the kind of the request", 5)
	voted := c.rule("a signed vote or proposal is the requested one, signed without error under the configured chain ID", 2)
	unsig := c.rule("an answer without signature carries the error and an empty vote or proposal", 2)
	pub := c.rule("a public key answer carries the validator's key or the error", 1)
	chain := c.rule("a remote signer signs under the configured chain ID", 2)
	h := &Hooks{}
	begin := func(s *State) {
		s.delMon("own:sign")
		s.delMon("own:pub")
		s.delMon("own:formed")
	}
	open := func(s *State) bool {
		r := s.mon["own:req"]
		return r != nil && s.facts.isNil(s.mon["own:reqerr"])
	}
	h.Decode = func(s *State, target, v *Term, k *Call) {
		if isMsgIO(k, "ReadMsg") == nil {
			return
		}
		c.judge(s, one, rel(s.e.root)+" read", k.instr, !open(s), "a request is read although the previous one was not answered")
		begin(s)
		s.mon["own:req"] = v
		s.mon["own:reqerr"] = mkApp("decodeErr:wire:"+typKey(derefT(target.typ)), errT, v.args[0])
	}
	h.Call = func(s *State, k *Call) {
		if strings.HasPrefix(k.name, "invoke net.Conn.Close") || k.name == "github.com/tendermint/tendermint/p2p/conn.SecretConnection.Close" {
			stop := s.mon["own:run"] != nil && s.facts.truthOf(s.mon["own:run"]) == -1
			c.judge(s, one, rel(s.e.root)+" close", k.instr, !open(s) || stop, "the connection is given up instead of answering a request")
		}
		m := isMsgIO(k, "WriteMsg")
		if m == nil {
			return
		}
		fn := s.e.root
		c.judge(s, one, rel(fn)+" write", k.instr, open(s), "something is written that is not the answer to a request")
		req := s.mon["own:req"]
		if req == nil {
			return
		}
		defer func() { // all there is to know of an answered request
			begin(s)
			delete(s.mon, "own:req")
			delete(s.mon, "own:reqerr")
		}()
		sum := s.pieceOf(req, "Sum")
		res := s.pieceOf(m, "Sum")
		of := ""
		for q := range privvalKinds {
			t := types.NewPointer(c.p.namedType(privvalPkg, "Message_"+q))
			if s.facts.truthOf(mkEq(mkApp("typeof", types.Typ[types.String], sum), typeTerm(t))) == 1 {
				of = q
			}
		}
		if of == "" {
			none := s.facts.isNil(sum)
			if !none {
				none = true
				for q := range privvalKinds {
					t := types.NewPointer(c.p.namedType(privvalPkg, "Message_"+q))
					none = none && s.facts.truthOf(mkEq(mkApp("typeof", types.Typ[types.String], sum), typeTerm(t))) == -1
				}
			}
			c.judge(s, kind, rel(fn)+" unknown request", k.instr, none && (res == tNil || s.facts.isNil(res)), "a request that may be a known one is answered as an unknown one")
			return
		}
		want := privvalPkg + ".Message_" + privvalKinds[of]
		ok := res != nil && res.op == OIface && typeName(derefT(res.typ)) == want
		c.judge(s, kind, rel(fn)+" "+of, k.instr, ok, "the answer to a "+of+" is not a "+privvalKinds[of])
		if !ok || of == "PingRequest" {
			return
		}
		body := s.pieceOf(res.args[0], privvalKinds[of])
		er := s.pieceOf(body, "Error")
		msg := "no error"
		switch of {
		case "PubKeyRequest":
			v, e, conv, ce := s.mon["own:pub0"], s.mon["own:pub1"], s.mon["own:pub2"], s.mon["own:pub3"]
			val := s.pieceOf(body, "PubKey")
			if er == tNil || s.facts.isNil(er) {
				ok = v != nil && s.facts.isNil(e) && conv != nil && s.facts.isNil(ce) && s.mon["own:pub4"] == v && s.sameVal(val, conv)
				msg = "the public key is not the validator's"
			} else {
				bad := e
				if e == nil || s.facts.isNil(e) {
					bad = ce
				}
				ok = s.facts.isNonNil(er) && bad != nil && s.facts.isNonNil(bad) && s.tells(er, bad)
				msg = "the answer to a PubKeyRequest does not carry the error"
			}
			c.judge(s, pub, rel(fn), k.instr, ok, msg)
		default:
			part := "Vote"
			if of == "SignProposalRequest" {
				part = "Proposal"
			}
			asked := s.pieceOf(s.pieceOf(mkApp("as:"+typKey(types.NewPointer(c.p.namedType(privvalPkg, "Message_"+of))), types.NewPointer(c.p.namedType(privvalPkg, "Message_"+of)), sum), of), part)
			val := s.pieceOf(body, part)
			x, e := s.mon["own:sign0"], s.mon["own:sign1"]
			if er == tNil || s.facts.isNil(er) {
				ok = x != nil && x == asked && s.facts.isNil(e) && s.sameVal(val, s.load(asked, derefT(asked.typ)))
				c.judge(s, voted, rel(fn)+" "+part, k.instr, ok, "the signed "+part+" is not the requested one, or it was not signed successfully")
				return
			}
			sig := s.pieceOf(val, "Signature")
			ok = s.facts.isNonNil(er) && sig != nil && (sig == tNil || s.isEmpty(sig) || s.facts.isNil(sig))
			msg = "an answer with an error carries a signature"
			if ok && x != nil {
				ok, msg = s.facts.isNonNil(e) && s.tells(er, e), "the answer does not carry the error of signing"
			}
			if ok && x == nil { // refused without asking the validator: only what it cannot sign
				ok, msg = s.facts.isNil(asked), "a "+part+" is refused without asking the validator"
				if f := s.mon["own:formed0"]; !ok && f != nil {
					_, b := fieldOf(f)
					ok = (f == asked || b == asked) && s.facts.isNonNil(s.mon["own:formed1"])
				}
				if !ok && part == "Vote" {
					ty := s.get(asked, derefT(asked.typ), "Type")
					ok = s.facts.possible(ty, mkInt(1))&EQ == 0 && s.facts.possible(ty, mkInt(2))&EQ == 0
				}
			}
			c.judge(s, unsig, rel(fn)+" "+part, k.instr, ok, msg)
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		switch {
		case k.name == tmTypes+".BlockIDFromProto" || k.name == tmTypes+".VoteFromProto" || k.name == tmTypes+".ProposalFromProto":
			s.mon["own:formed0"], s.mon["own:formed1"] = k.arg(0), resAt(res, 1)
		case k.name == pvI+"SignVote" || k.name == pvI+"SignProposal":
			rs := k.arg(1)
			a := loadAddr(unconv(rs))
			cl, _ := fieldOf(a)
			c.judge(s, chain, rel(s.e.root)+" "+strings.TrimPrefix(k.name, pvI), k.instr, cl == rrsT+".chainID", "signed under another chain ID")
			s.mon["own:sign0"], s.mon["own:sign1"] = k.arg(2), res
		case k.name == pvI+"GetPubKey" && res.op == OTuple:
			s.mon["own:pub0"], s.mon["own:pub1"] = res.args[0], res.args[1]
		case k.name == "github.com/tendermint/tendermint/crypto/encoding.PubKeyToProto" && res.op == OTuple:
			s.mon["own:pub2"], s.mon["own:pub3"], s.mon["own:pub4"] = res.args[0], res.args[1], k.arg(0)
		case strings.HasSuffix(k.name, ".IsRunning"):
			s.mon["own:run"] = res
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		if !open(s) {
			begin(s)
			delete(s.mon, "own:req")
			delete(s.mon, "own:reqerr")
			delete(s.mon, "own:run")
		}
	}
	c.explore(h, c.p.rootsNamed(rrsT+".OnStart"), nil)

	h = &Hooks{}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		eachStore(addr, val, 0, func(a, v *Term) {
			if cl, _ := fieldOf(a); cl == rrsT+".chainID" {
				c.judge(s, chain, rel(s.e.root)+" configured", in, isConfigured(v, "ChainID"), "a remote signer gets another chain ID than the configured one")
			}
		})
	}
	c.explore(h, c.p.rootsStoring(rrsT+".chainID"), nil)
}

// isConfigured: the value of a field of the loaded configuration.
func isConfigured(v *Term, field string) bool {
	cl, b := fieldOf(loadAddr(unconv(v)))
	if cl != cmdPkg+".Config."+field {
		return false
	}
	g := loadAddr(b)
	return g != nil && g.op == OGlobal
}

// rootsStoring: the commands that (through calls and goroutines) run code which stores to a field.
func (p *Program) rootsStoring(class string) []*ssa.Function {
	return p.commandsReaching(storesTo(class))
}

// storesTo: the instruction stores to a field.
func storesTo(class string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t := derefT(fa.X.Type())
		f := structOf(t)
		return f != nil && typeName(t)+"."+f.Field(fa.Field).Name() == class
	}
}

// commandsReaching: the command bodies from which such an instruction can be reached.
func (p *Program) commandsReaching(hit func(ssa.Instruction) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.roots() {
		if fnPkg(f) == cmdPkg && isCommand(f) && p.mentions(f, hit) {
			out = append(out, f)
		}
	}
	return out
}

// isCommand: a function with the signature of a command body.
func isCommand(f *ssa.Function) bool {
	ps := f.Signature.Params()
	return ps.Len() == 2 && typeName(derefT(ps.At(0).Type())) == "github.com/spf13/cobra.Command"
}

// mentions: the instruction is in the function or in one it refers to.
func (p *Program) mentions(f *ssa.Function, hit func(ssa.Instruction) bool) bool {
	return p.mentionsUntil(f, hit, nil)
}

func (p *Program) mentionsUntil(f *ssa.Function, hit func(ssa.Instruction) bool, stop func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.inRepo[f] || stop != nil && len(seen) > 0 && stop(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if hit(in) {
					return true
				}
				for _, o := range in.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func init() { register("C16", c16) }

const guardT = sigPkg + ".PvGuard"

func c16(c *Check) {
	pass := c.rule("the guard passes each operation on unchanged, and its results back", 3)
	locked := c.rule("the underlying validator is only called while one mutex of the guard is held, the same for every operation", 3)
	one := c.rule("all remote signers of a process get the same guarded validator", 2)
	use := c.rule("a remote signer only uses the validator it was given", 3)

	pv := c.p.namedType(tmTypes, "PrivValidator").Underlying().(*types.Interface)
	guard := c.p.namedType(sigPkg, "PvGuard")
	var methods []*ssa.Function
	for _, f := range c.p.fns {
		if r := f.Signature.Recv(); r != nil && f.Synthetic == "" && typeName(derefT(r.Type())) == guardT {
			for i := 0; i < pv.NumMethods(); i++ {
				if pv.Method(i).Name() == f.Name() {
					methods = append(methods, f)
				}
			}
		}
	}
	common := map[string]int{}
	h := &Hooks{}
	calls := map[*ssa.Function]map[string]bool{} // mutexes held at every call so far
	h.After = func(s *State, k *Call, res *Term) {
		if !strings.HasPrefix(k.name, pvI) {
			return
		}
		fn := s.e.root
		me := paramSym(fn, fn.Params[0])
		mus := map[string]bool{}
		for _, l := range s.locks {
			if cl, b := fieldOf(l.mu); b == me && !l.read {
				mus[cl] = true
			}
		}
		c.judge(s, locked, rel(fn), k.instr, len(mus) > 0, "the validator is called without the mutex of the guard")
		if calls[fn] == nil {
			calls[fn] = mus
			for m := range mus {
				common[m]++
			}
		}
		ok := k.name == pvI+fn.Name() && len(k.args) == len(fn.Params)
		a := loadAddr(k.arg(0))
		cl, b := fieldOf(a)
		ok = ok && cl == guardT+".PrivValidator" && b == me
		for i := 1; ok && i < len(k.args); i++ {
			ok = k.args[i] == paramSym(fn, fn.Params[i])
		}
		ok = ok && s.mon["own:done"] == nil
		c.judge(s, pass, rel(fn)+" request", k.instr, ok, "the operation is not passed on as it was requested")
		s.mon["own:done"] = res
		s.mon["own:mus"] = tTrue
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) {}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		d := s.mon["own:done"]
		ok := d != nil
		if ok {
			rs := []*Term{d}
			if d.op == OTuple {
				rs = d.args
			}
			ok = len(rs) == len(res)
			for i := 0; ok && i < len(rs); i++ {
				ok = rs[i] == res[i] || s.facts.eq(rs[i], res[i])
			}
		}
		c.judge(s, pass, rel(fn)+" result", nil, ok, "the result is not the one of the validator")
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if s.mon["own:done"] == nil && rootAddr(addr).op != OAlloc {
			c.judge(s, pass, rel(s.e.root)+" request", in, false, "the request is changed on its way")
		}
	}
	c.explore(h, methods, nil)
	same := false
	for _, n := range common {
		same = same || n == len(methods)
	}
	if len(methods) > 0 {
		c.fact(locked, "PvGuard", methods[0].Pos(), same && len(methods) == pv.NumMethods(), "not all operations of the guard hold the same mutex")
	}

	h = &Hooks{}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		eachStore(addr, val, 0, func(a, v *Term) {
			if cl, _ := fieldOf(a); cl != rrsT+".privVal" {
				return
			}
			fn := s.e.root
			ok := v.op == OIface && types.Identical(v.typ, types.NewPointer(guard)) && v.args[0].op == OAlloc
			first := s.mon["own:guard"]
			c.judge(s, one, rel(fn), in, ok && (first == nil || first == v), "a remote signer gets a validator that is not the one guard all the others get")
			s.mon["own:guard"] = v
		})
	}
	c.explore(h, c.p.rootsStoring(rrsT+".privVal"), nil)

	h = &Hooks{}
	h.After = func(s *State, k *Call, res *Term) {
		if strings.HasPrefix(k.name, pvI) {
			cl, _ := fieldOf(loadAddr(k.arg(0)))
			c.judge(s, use, rel(s.e.root)+" "+strings.TrimPrefix(k.name, pvI), k.instr, cl == rrsT+".privVal", "another validator is used than the one that was given")
		}
	}
	c.explore(h, c.p.rootsNamed(rrsT+".OnStart"), nil)
}

// sameVal: the same content.
func (s *State) sameVal(a, b *Term) bool {
	if a == b || a != nil && b != nil && s.facts.eq(a, b) {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	t := typOr(a)
	if st := expandable(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if !s.sameVal(mkField(a, i, t), mkField(b, i, t)) {
				return false
			}
		}
		return true
	}
	return false
}

// tells: the text of the error is part of it.
func (s *State) tells(x, e *Term) bool {
	return s.reaches([]*Term{x}, func(t *Term) bool { return t == e }) != nil
}
