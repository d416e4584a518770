package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C25", c25) }

const (
	trapSignal  = "github.com/tendermint/tendermint/libs/os.TrapSignal"
	serviceI    = "invoke github.com/tendermint/tendermint/libs/service.Service."
	serviceBase = "github.com/tendermint/tendermint/libs/service.BaseService."
	grpcServe   = "google.golang.org/grpc.Server.Serve"
)

// serviceOf: the service whose method is called.
func serviceOf(k *Call, method string) *Term {
	var r *Term
	switch k.name {
	case serviceBase + method:
		if _, r = fieldOf(k.arg(0)); r == nil { // the embedded base of the service
			r = k.arg(0)
		}
	case serviceI + method:
		r, _ = unIface(k.arg(0))
	}
	return r
}

// errResult: the error that a call returns.
func errResult(k *Call, res *Term) *Term {
	sig := k.common.Signature()
	if k.fn != nil {
		sig = k.fn.Signature
	}
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) || res == nil {
		return nil
	}
	if n == 1 {
		return res
	}
	return resAt(res, n-1)
}

// parts of starting a node that can fail, wherever they are called from
var setupCalls = map[string]bool{
	"os.MkdirAll": true, "os.Mkdir": true, "time.ParseDuration": true,
	serviceBase + "Start": true, serviceI + "Start": true, pvI + "GetPubKey": true,
	sigPkg + ".Config.KeyFileExists": true, sigPkg + ".LoadCosignerKey": true, sigPkg + ".LoadOrCreateSignState": true, sigPkg + ".StartRemoteSigners": true,
	"net.Listen": true, "net.SplitHostPort": true, raftPkg + ".NewRaft": true, raftPkg + ".NewFileSnapshotStore": true,
	"github.com/hashicorp/raft-boltdb.NewBoltStore": true, "github.com/hashicorp/raft-boltdb.New": true, rsT + ".Open": true, grpcServe: true,
}

func c25(c *Check) {
	wired := c.rule("the peer service is started with its validator, local cosigner and peers in place", 1)
	later := c.rule("sentries are connected only after the peer service was started", 1)
	stop := c.rule("every service that was started is stopped at shutdown, for which the process waits", 4)
	fails := c.rule("a part that cannot be set up or started ends the start", 10)
	serve := c.rule("the peer service answers only when its server knows validator, local cosigner and store, and raft is set up", 1)

	store := c.p.namedType(sigPkg, "RaftStore")
	tv := c.p.namedType(sigPkg, "ThresholdValidator")
	rrs := c.p.namedType(sigPkg, "ReconnRemoteSigner")
	srvT := c.p.namedType(sigPkg, "GRPCServer")
	cosigner := map[*ssa.Function]bool{}
	h := &Hooks{}
	isSetup := func(s *State, k *Call) bool {
		if setupCalls[k.name] {
			return true
		}
		p := k.instr.Parent()
		return isCommand(s.e.root) && (p == s.e.root || p.Parent() == s.e.root) && k.fn != nil && c.p.inRepo[k.fn]
	}
	settle := func(s *State, in ssa.Instruction, end bool) {
		for _, m := range s.monKeys("setup:") {
			e := s.mon[m]
			ok := s.facts.isNil(e)
			n := rel(s.e.root) + strings.TrimPrefix(m[:strings.LastIndex(m, ":")], "setup")
			if ok || end {
				c.judge(s, fails, n, in, ok, "the start goes on although this may have failed")
				if !end {
					delete(s.mon, m)
				}
			}
		}
	}
	h.Call = func(s *State, k *Call) {
		if x := serviceOf(k, "Start"); x != nil {
			settle(s, k.instr, true)
			switch typeName(derefT(typOr(x))) {
			case rsT:
				v := s.get(x, store, "thresholdValidator")
				lc := s.get(x, store, "cosigner")
				peers := s.get(x, store, "Peers")
				why := ""
				switch {
				case v == nil || !s.facts.isNonNil(v):
					why = "the validator may not be set when the peer service starts"
				case !s.facts.isNonNil(lc):
					why = "the local cosigner may not be set when the peer service starts"
				case !s.facts.eq(deref(s.get(v, tv, "cosigner")), deref(lc)):
					why = "the validator signs with another cosigner than the peer service"
				case s.get(v, tv, "raftStore") != x:
					why = "the validator uses another store"
				case !s.sameList(s.get(v, tv, "peers"), peers):
					why = "the validator has other peers than the store"
				}
				c.judge(s, wired, rel(s.e.root), k.instr, why == "", why)
			case rrsT:
				v := s.get(x, rrs, "privVal")
				ok := s.facts.isNonNil(v)
				if cosigner[s.e.root] {
					e := s.mon["raft"]
					c.judge(s, later, rel(s.e.root), k.instr, e != nil && s.facts.isNil(e), "a sentry is connected although the peer service may not have been started")
				}
				c.judge(s, later, rel(s.e.root)+": validator", k.instr, ok, "a sentry is connected without a validator")
			}
			return
		}
		switch k.name {
		case trapSignal:
			settle(s, k.instr, true)
			s.mon["trapped"] = tTrue
		case protoPkg + ".RegisterCosignerGRPCServer":
			x, _ := unIface(k.arg(1))
			s.monAdd("srv", mkApp("pair", nil, deref(k.arg(0)), x))
		case "github.com/Jille/raft-grpc-transport.Manager.Register":
			s.monAdd("transport", deref(k.arg(1)))
		case grpcServe:
			settle(s, k.instr, true)
			why := "the server does not answer cosigners"
			for _, m := range s.monKeys("srv:") {
				p := s.mon[m]
				if p.args[0] != deref(k.arg(0)) {
					continue
				}
				x, st := p.args[1], s.e.root.Params[0]
				rs := paramSym(s.e.root, st)
				if typeName(derefT(typOr(x))) != sigPkg+".GRPCServer" {
					continue
				}
				why = ""
				for _, f := range []string{"cosigner", "thresholdValidator"} {
					if a := loadAddr(s.get(x, srvT, f)); a == nil || a.op != OFieldAddr || a.name != rsT+"."+f || a.args[0] != rs {
						why = "the server's " + f + " is not that of the store"
					}
				}
				if s.get(x, srvT, "raftStore") != rs {
					why = "the server has another store"
				}
				ra := s.get(rs, store, "raft")
				if e := s.mon["newraft"]; why == "" && (e == nil || ra != e.args[0] || !s.facts.isNil(e.args[1])) {
					why = "raft may not be set up when the server starts to answer"
				}
			}
			if why == "" {
				why = "raft messages are not served"
				for _, m := range s.monKeys("transport:") {
					if s.mon[m] == deref(k.arg(0)) {
						why = ""
					}
				}
			}
			c.judge(s, serve, rel(s.e.root), k.instr, why == "", why)
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		if k.defer_ {
			return
		}
		e := errResult(k, res)
		if x := serviceOf(k, "Start"); x != nil {
			s.monAdd("started", mkApp("pair", nil, x, e))
			if typeName(derefT(typOr(x))) == rsT {
				s.mon["raft"] = e
			}
		}
		if x := serviceOf(k, "Stop"); x != nil {
			s.facts.assume(mkApp("stopped", types.Typ[types.Bool], x), true)
			for _, m := range s.monKeys("own:elem:") {
				a := s.mon[m]
				if v, _ := unIface(s.load(a, derefT(a.typ))); v == x {
					s.facts.assume(mkApp("stopped", types.Typ[types.Bool], a), true)
				}
			}
		}
		if k.name == raftPkg+".NewRaft" {
			s.mon["newraft"] = mkApp("pair", nil, resAt(res, 0), resAt(res, 1))
		}
		if e != nil && isSetup(s, k) {
			s.mon[key("setup: "+shortCall(k.name), e)] = e
		}
	}
	h.Load = func(s *State, a *Term, in ssa.Instruction) {
		if a.op == OIndexAddr && typeName(derefT(a.typ)) == strings.TrimSuffix(strings.TrimPrefix(serviceI, "invoke "), ".") {
			s.delMon("own:elem")
			s.monAdd("own:elem", a)
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		settle(s, in, false)
		for _, m := range s.monKeys("setup: Start") {
			c.judge(s, fails, rel(s.e.root)+": Start", in, s.facts.isNil(s.mon[m]), "the next service is started although this one may have failed")
		}
	}
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) { settle(s, in, false) }
	h.Wait = func(s *State, what string, in ssa.Instruction) {
		if s.mon["trapped"] != nil {
			s.mon["own:waited"] = tTrue
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if fn != s.e.root { // a goroutine or the shutdown
			if s.mon["trapped"] != nil {
				for _, m := range s.monKeys("started:") {
					p := s.mon[m]
					if e := p.args[1]; e != nil && s.facts.isNonNil(e) {
						continue
					}
					c.judge(s, stop, rel(s.e.root)+": "+typeName(derefT(typOr(p.args[0]))), nil, s.stopped(p.args[0], fn), "a service may not be stopped at shutdown")
				}
			}
			settle(s, nil, true)
			return
		}
		if isCommand(fn) && s.facts.possible(orNil(errOf(fn, res)), tNil)&EQ != 0 {
			c.judge(s, stop, rel(fn)+": waits", nil, s.mon["own:waited"] != nil, "the process may not wait for the shutdown of its services")
		}
	}
	starts := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := ""
		if f := ci.Common().StaticCallee(); f != nil {
			n = fnName(f)
		} else if ci.Common().IsInvoke() {
			n = "invoke " + typeName(ci.Common().Value.Type()) + "." + ci.Common().Method.Name()
		}
		return n == serviceStart || n == serviceI+"Start"
	}
	roots := c.p.rootsNamed(rsT + ".OnStart")
	for _, f := range c.p.roots() {
		if fnPkg(f) == cmdPkg && isCommand(f) && c.p.mentions(f, starts) {
			roots = append(roots, f)
			cosigner[f] = c.p.mentions(f, c.p.callsTo(sigPkg+".NewRaftStore"))
		}
	}
	c.explore(h, roots, nil)
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}

func shortCall(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// stopped: the service was stopped, alone or as an element of a list.
func (s *State) stopped(x *Term, fn *ssa.Function) bool {
	is := func(t *State, v *Term) bool {
		return t.facts.truthOf(mkApp("stopped", types.Typ[types.Bool], v)) == 1
	}
	if is(s, x) {
		return true
	}
	for l := range s.forall {
		es, _ := s.elemsIn(l)
		in := false
		for _, e := range es {
			v, _ := unIface(e)
			in = in || v == x
		}
		if in && s.every(l, fn.Blocks[0].Instrs[0], func(t *State, i *Term) bool {
			a, _ := t.elemAddr(l, i)
			return is(t, a)
		}) {
			return true
		}
	}
	return false
}

// sameList: two lists with the same elements.
func (s *State) sameList(a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	a, b = s.content(a), s.content(b)
	return a == b || s.facts.eq(a, b)
}
