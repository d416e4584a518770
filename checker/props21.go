package main

import (
	"encoding/json"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C33", c33) }

// c33: leadership moves only to whom the operator named.
func c33(c *Check) {
	ask := c.rule("the cluster is asked to elect the ID that was given, and anyone only if none was given", 1)
	who := c.rule("the request goes to configured cosigners, and among them to the one that says it is the leader", 3)
	done := c.rule("success is reported only if the cluster accepted", 1)
	any := c.rule("the next candidate is elected only if none was named", 1)

	boolT := types.Typ[types.Bool]
	client := "invoke " + protoPkg + ".CosignerGRPCClient.TransferLeadership"
	const setup = "github.com/Jille/raft-grpc-leader-rpc/leaderhealth.Setup"
	// the names under which a node says that it is the leader
	served := map[string]bool{}
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || fnName(call.Common().StaticCallee()) != setup {
					continue
				}
				sl, _ := call.Common().Args[2].(*ssa.Slice)
				if sl == nil {
					continue
				}
				for _, r := range *sl.X.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, r := range *ia.Referrers() {
							if st, ok := r.(*ssa.Store); ok {
								if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
									served[strings.Trim(k.Value.ExactString(), `"`)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	// peerOf: the address of the configured peer whose address this is
	peerOf := func(v *Term) *Term {
		if cl, b := fieldOf(loadAddr(unconv(v))); cl == cmdPkg+".CosignerPeer.P2PAddr" {
			if l, _ := slot(b); l != nil && isLoaded(l, "Peers") {
				return b
			}
		}
		return nil
	}
	// within goes through what a text was made from; what a URL was resolved against is not a part of it
	var within func(t *Term, f func(u *Term))
	within = func(t *Term, f func(u *Term)) {
		t.walk(func(u *Term) bool {
			f(u)
			if isApp(u, "net/url.URL.Parse") {
				within(u.args[len(u.args)-1], f)
				return false
			}
			return true
		})
	}
	h := &Hooks{}
	h.Load = func(s *State, addr *Term, in ssa.Instruction) {
		if cl, _ := fieldOf(addr); s.mon["own:peers"] == nil && cl == ccT+".Peers" {
			if v := s.load(addr, derefT(addr.typ)); isLoaded(v, "Peers") {
				s.mon["own:peers"] = v
			}
		}
	}
	h.Append = func(s *State, base *Term, add []*Term, in ssa.Instruction) {
		for _, x := range add {
			within(x, func(u *Term) {
				if a := peerOf(u); a != nil {
					s.facts.assume(mkApp("asked", boolT, a), true)
				}
				if isLoaded(u, "P2PListen") {
					s.mon["own:self"] = tTrue
				}
			})
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) { // of a list that begins with it
		if addr.op == OIndexAddr && isLoaded(val, "P2PListen") {
			s.mon["own:self"] = tTrue
		}
	}
	// an address that cannot be parsed cannot be asked
	h.Branch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		for cond != nil && (cond.op == ONot || isApp(cond, "!")) {
			cond, taken = cond.args[0], !taken
		}
		if taken || cond == nil || !isApp(cond, "==") || len(cond.args) != 2 || cond.args[0] != tNil && cond.args[1] != tNil {
			return
		}
		within(cond, func(u *Term) {
			if a := peerOf(u); a != nil {
				s.facts.assume(mkApp("asked", boolT, a), true)
			}
			if isLoaded(u, "P2PListen") {
				s.mon["own:self"] = tTrue
			}
		})
	}
	h.After = func(s *State, k *Call, res *Term) {
		switch k.name {
		case "google.golang.org/grpc.DialContext", "google.golang.org/grpc.Dial", "google.golang.org/grpc.NewClient":
			i := 0
			if k.name == "google.golang.org/grpc.DialContext" {
				i = 1
			}
			bad, self := false, s.mon["own:self"] != nil
			seen := map[*Term]bool{}
			var visit func(u *Term)
			visit = func(u *Term) {
				if u == nil || seen[u] {
					return
				}
				seen[u] = true
				switch {
				case isLoaded(u, "P2PListen"):
					self = true
				case peerOf(u) != nil || u.op == OConst:
				case u.op == OLoad:
					// a part of a parsed address
					var parsed *Term
					u.walk(func(x *Term) bool {
						if parsed == nil && x.op == OApp && strings.HasPrefix(x.name, "net/url.") {
							parsed = x
						}
						return parsed == nil
					})
					if parsed == nil {
						bad = true
						return
					}
					visit(parsed.args[len(parsed.args)-1])
				case u.op == OSym:
					bad = true
				default:
					for _, a := range u.args {
						visit(s.content(a))
					}
				}
			}
			visit(s.content(k.arg(i)))
			c.judge(s, who, rel(s.e.root)+": address", k.instr, !bad, "it may go to another address than those of the configured cosigners")
			var peers *Term
			for _, m := range s.monKeys("own:peers") {
				peers = s.mon[m]
			}
			ok := self && peers != nil && s.every(peers, k.instr, func(t *State, i *Term) bool {
				a, _ := t.elemAddr(peers, i)
				return t.facts.truthOf(mkApp("asked", boolT, a)) == 1
			})
			c.judge(s, who, rel(s.e.root)+": all", k.instr, ok, "a cosigner that may be the leader may not be asked")
		case "google.golang.org/grpc.WithDefaultServiceConfig":
			if t, ok := s.content(k.arg(0)).strVal(); ok {
				var conf struct {
					HealthCheckConfig struct {
						ServiceName string `json:"serviceName"`
					} `json:"healthCheckConfig"`
				}
				ok = json.Unmarshal([]byte(t), &conf) == nil && served[conf.HealthCheckConfig.ServiceName]
				c.judge(s, who, rel(s.e.root)+": leader", k.instr, ok, "no cosigner says that it is the leader under the name that is asked for")
			}
		case client:
			why := ""
			req := s.content(k.arg(2))
			id := s.content(s.get(k.arg(2), derefT(typOr(req)), "LeaderID"))
			args := paramSym(s.e.root, s.e.root.Params[1])
			switch {
			case s.isArg(id, 0):
			case id == mkStr("") && s.facts.possible(s.lenOf(args), mkInt(0)) == EQ:
			case id == mkStr(""):
				why = "any cosigner may be elected although one was named"
			default:
				why = "another cosigner than the named one may be elected"
			}
			c.judge(s, ask, rel(s.e.root), k.instr, why == "", why)
			s.mon["own:done"] = res.args[len(res.args)-1]
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if s.facts.isNonNil(errOf(fn, res)) {
			return
		}
		e := s.mon["own:done"]
		c.judge(s, done, rel(fn), nil, e != nil && s.facts.isNil(e), "it may succeed although the cluster did not accept")
	}
	c.explore(h, c.p.commandsReaching(func(in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		return ok && call.Common().IsInvoke() && call.Common().Method.Name() == "TransferLeadership"
	}), nil)

	// the cosigner that serves it
	h = &Hooks{}
	h.Call = func(s *State, k *Call) {
		if k.name != raftPkg+".Raft.LeadershipTransfer" {
			return
		}
		fn := s.e.root
		req := paramSym(fn, fn.Params[2])
		want := s.get(req, derefT(fn.Params[2].Type()), "LeaderID")
		c.judge(s, any, rel(fn), k.instr, s.facts.isNil(req) || s.facts.possible(want, mkStr("")) == EQ || s.facts.possible(s.lenOf(want), mkInt(0)) == EQ, "another cosigner than the named one may be elected")
	}
	var servers []*ssa.Function
	for _, f := range c.p.servers() {
		if f.Name() == "TransferLeadership" {
			servers = append(servers, f)
		}
	}
	c.explore(h, servers, nil)
}
