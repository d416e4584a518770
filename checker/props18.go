package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C30", c30) }

const boltPkg = "github.com/hashicorp/raft-boltdb"

// c30: the raft cluster of a cosigner is made of exactly the configured cosigners.
func c30(c *Check) {
	members := c.rule("raft is told of this node and of every peer, each under its own ID and address, and of nobody else", 1)
	self := c.rule("raft runs under this node's ID, answers at its address, and applies to its store", 1)
	disk := c.rule("raft's log, votes and snapshots survive in files of their own in this node's raft directory", 3)
	start := c.rule("the node's raft ID is the ID of its key share, its address and peers are those configured", 1)

	store := c.p.namedType(sigPkg, "RaftStore")
	serverT := c.p.namedType(raftPkg, "Server")
	confT := c.p.namedType(raftPkg, "Configuration")
	raftConf := c.p.namedType(raftPkg, "Config")
	w := &wire{c}
	field := func(s *State, v *Term, t types.Type, name string) *Term {
		i, _ := lookField(t, name)
		if i < 0 || v == nil {
			return nil
		}
		return s.at(v, t, i)
	}
	// peerOf: the cosigner that this server stands for
	peerOf := func(s *State, e *Term) *Term {
		id := unconv(s.content(field(s, e, serverT, "ID")))
		if id == nil || !isApp(id, "itoa") || !isApp(id.args[0], "invoke "+sigPkg+".Cosigner.GetID") {
			return nil
		}
		p := id.args[0].args[0]
		a := unconv(s.content(field(s, e, serverT, "Address")))
		if !w.addressed(s, a, mkApp("invoke "+sigPkg+".Cosigner.GetAddress", types.Typ[types.String], id.args[0].args...)) {
			return nil
		}
		if sf := field(s, e, serverT, "Suffrage"); sf == nil || s.facts.possible(sf, mkInt(0)) != EQ {
			return nil
		}
		return p
	}
	h := &Hooks{}
	h.Opaque = func(fn *ssa.Function) bool {
		return strings.HasSuffix(fnName(fn), ".GetID") || strings.HasSuffix(fnName(fn), ".GetAddress")
	}
	h.Append = func(s *State, base *Term, add []*Term, in ssa.Instruction) {
		for _, x := range add {
			if x == nil || typeName(derefT(typOr(x))) != raftPkg+".Server" {
				continue
			}
			if p := peerOf(s, x); p != nil {
				s.monAdd("own:srv", mkApp("pair", types.Typ[types.Bool], x, p))
				s.facts.assume(mkApp("member", types.Typ[types.Bool], p), true)
			}
		}
	}
	// servers that are written into a list that was made for all of them
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OFieldAddr {
			addr = addr.args[0]
		}
		if l, _ := slot(addr); l != nil && typeName(derefT(typOr(addr))) == raftPkg+".Server" {
			s.monAdd("own:cell", addr)
		}
	}
	cells := func(s *State) {
		for _, m := range s.monKeys("own:cell:") {
			l, i := slot(s.mon[m])
			e := s.load(s.mon[m], serverT)
			if p := peerOf(s, e); p != nil {
				if from, j := slot(loadAddr(p)); from != nil {
					b, n := splitAdd(i)
					if b2, n2 := splitAdd(j); b == b2 {
						s.monAdd("own:into", mkApp("pair", types.Typ[types.Int], l, mkInt(n-n2), from))
						s.facts.assume(mkApp("member", types.Typ[types.Bool], p), true)
					}
				}
			} else if e != nil {
				s.monAdd("own:self", mkApp("pair", types.Typ[types.Int], l, i, e))
			}
			delete(s.mon, m)
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) { cells(s) }
	// filled: the servers of such a list, if it has one for this node and one for every peer
	filled := func(s *State, l, peers *Term) ([]*Term, bool) {
		var own []*Term
		off, ok := int64(0), true
		for _, m := range s.monKeys("own:into:") {
			if p := s.mon[m]; p.args[0] == l {
				off, _ = p.args[1].intVal()
				ok = ok && p.args[2] == peers
			}
		}
		at := false
		for _, m := range s.monKeys("own:self:") {
			if p := s.mon[m]; p.args[0] == l {
				own = append(own, p.args[2])
				at = at || off == 1 && p.args[1] == mkInt(0) || off == 0 && s.facts.eq(p.args[1], s.lenOf(peers))
			}
		}
		return own, ok && at && len(own) == 1 && s.facts.possible(s.lenOf(l), plus(s.lenOf(peers), 1)) == EQ
	}
	h.After = func(s *State, k *Call, res *Term) {
		switch k.name {
		case "net/url.Parse":
			if res.op == OTuple {
				s.monAdd("own:url", mkApp("pair", types.Typ[types.String], res.args[0], k.arg(0)))
			}
		case "github.com/Jille/raft-grpc-transport.New":
			s.monAdd("manager", mkApp("pair", types.Typ[types.Bool], res, k.arg(0)))
		case "github.com/Jille/raft-grpc-transport.Manager.Transport":
			for _, m := range s.monKeys("manager:") {
				if p := s.mon[m]; p.args[0] == k.arg(0) {
					s.monAdd("transport", mkApp("pair", types.Typ[types.Bool], res, p.args[1]))
				}
			}
		case boltPkg + ".NewBoltStore", raftPkg + ".NewFileSnapshotStore", raftPkg + ".NewFileSnapshotStoreWithLogger":
			s.monAdd("file", mkApp("pair", types.Typ[types.Bool], resAt(res, 0), k.arg(0)))
		}
	}
	// steady: the path is calculated from the directory and constants only
	steady := func(p, dir *Term) bool {
		ok, has := true, false
		if p == nil || dir == nil {
			return false
		}
		p.walk(func(u *Term) bool {
			if u == dir {
				has = true
				return false
			}
			if u.op == OSym || u.op == OLoad || u.op == OApp && (strings.HasPrefix(u.name, "os.") || strings.HasPrefix(u.name, "time.")) {
				ok = false
			}
			return true
		})
		return ok && has
	}
	h.Load = func(s *State, addr *Term, in ssa.Instruction) {
		if cl, _ := fieldOf(addr); cl == ccT+".Peers" && isCommand(s.e.root) {
			s.monAdd("peers", s.load(addr, derefT(addr.typ)))
		}
	}
	h.Call = func(s *State, k *Call) {
		if isCommand(s.e.root) {
			if changesFiles(k.name) && k.name != "os.MkdirAll" && k.name != "os.Mkdir" {
				for _, a := range k.args {
					if isStringT(typOr(a)) {
						s.monAdd("changed", a)
					}
				}
			}
			if x := serviceOf(k, "Start"); x != nil && typeName(derefT(typOr(x))) == rsT {
				why := c.misconfigured(s, x, store)
				c.judge(s, start, rel(s.e.root), k.instr, why == "", why)
				dir := s.get(x, store, "RaftDir")
				home := s.homeOf(dir)
				why = ""
				if home == nil || !steady(dir, home) {
					why = "the raft directory is not a fixed place in the home directory"
				}
				for _, m := range s.monKeys("changed:") {
					if a := s.mon[m]; within(dir, a) || within(a, dir) {
						why = "what raft has stored is changed before it starts"
					}
				}
				c.judge(s, disk, rel(s.e.root)+": directory", k.instr, why == "", why)
			}
			return
		}
		rs := paramSym(s.e.root, s.e.root.Params[0])
		get := func(n string) *Term { return s.get(rs, store, n) }
		fn := rel(s.e.root)
		if changesFiles(k.name) {
			for _, a := range k.args {
				if dir := get("RaftDir"); within(a, dir) {
					c.judge(s, disk, c.site(k.instr, k.name), k.instr, false, "what raft has stored is changed")
				}
			}
		}
		switch k.name {
		case raftPkg + ".Raft.BootstrapCluster":
			l, peers := field(s, k.arg(1), confT, "Servers"), get("Peers")
			cells(s)
			es, ok := s.elemsIn(l)
			if !ok {
				es, ok = filled(s, l, peers)
			}
			why, own := "", false
			if !ok {
				why = "who belongs to the cluster cannot be told"
			}
			for _, e := range es {
				if unconv(s.content(field(s, e, serverT, "ID"))) == get("NodeID") {
					own = true
					if !w.addressed(s, unconv(s.content(field(s, e, serverT, "Address"))), get("RaftBind")) {
						why = "this node does not have its own address"
					}
					if sf := field(s, e, serverT, "Suffrage"); sf == nil || s.facts.possible(sf, mkInt(0)) != EQ {
						why = "this node has no vote"
					}
					continue
				}
				p := peerOf(s, e)
				if l, _ := slot(loadAddr(p)); p == nil || l != peers {
					why = "a server is not one of the peers, under its own ID and address"
				}
			}
			switch {
			case why != "":
			case !own:
				why = "this node may not be a member under its ID"
			case !s.every(peers, k.instr, func(t *State, i *Term) bool {
				a, et := t.elemAddr(peers, i)
				return t.facts.truthOf(mkApp("member", types.Typ[types.Bool], t.load(a, et))) == 1
			}):
				why = "a peer may be left out"
			}
			c.judge(s, members, fn, k.instr, why == "", why)
		case raftPkg + ".Raft.AddVoter", raftPkg + ".Raft.AddNonvoter", raftPkg + ".Raft.RemoveServer", raftPkg + ".Raft.DemoteVoter":
			c.judge(s, members, fn+": "+shortCall(k.name), k.instr, false, "the members are changed while starting")
		case raftPkg + ".NewRaft":
			why := ""
			if a := k.arg(0); unconv(s.content(s.get(a, raftConf, "LocalID"))) != get("NodeID") {
				why = "raft does not run under the ID of this node"
			}
			if x, _ := unIface(k.arg(1)); unconv(deref(x)) != rs {
				why = "raft does not apply to the store of this node"
			}
			tr := false
			for _, m := range s.monKeys("transport:") {
				p := s.mon[m]
				tr = tr || p.args[0] == k.arg(5) && w.addressed(s, unconv(s.content(p.args[1])), get("RaftBind"))
			}
			if !tr {
				why = "raft does not answer under the address of this node"
			}
			c.judge(s, self, fn, k.instr, why == "", why)
			var paths []*Term
			for i, n := range []string{"log", "votes", "snapshots"} {
				x, _ := unIface(k.arg(2 + i))
				ok := false
				for _, m := range s.monKeys("file:") {
					if p := s.mon[m]; p.args[0] == x {
						ok = steady(p.args[1], get("RaftDir"))
						if i < 2 {
							paths = append(paths, p.args[1], x)
						}
					}
				}
				c.judge(s, disk, fn+": "+n, k.instr, ok, "they are not kept in the raft directory")
			}
			if len(paths) == 4 && paths[1] != paths[3] {
				c.judge(s, disk, fn+": files", k.instr, s.facts.possible(paths[0], paths[2])&EQ == 0, "two stores use one file")
			}
		}
	}
	roots := c.p.rootsNamed(rsT + ".OnStart")
	for _, f := range c.p.roots() {
		if fnPkg(f) == cmdPkg && isCommand(f) && c.p.mentions(f, c.p.callsTo(sigPkg+".NewRaftStore")) {
			roots = append(roots, f)
		}
	}
	c.explore(h, roots, nil)
}

// homeOf: the home directory in the configuration that this path is in.
func (s *State) homeOf(p *Term) *Term {
	var home *Term
	if p != nil {
		p.walk(func(u *Term) bool {
			if cl, _ := fieldOf(loadAddr(u)); cl == configT+".HomeDir" {
				home = u
			}
			return home == nil
		})
	}
	return home
}

// misconfigured: why the store that is started does not stand for the node that is configured.
func (c *Check) misconfigured(s *State, x *Term, store types.Type) string {
	key := c.p.namedType(sigPkg, "CosignerKey")
	lc := c.p.namedType(sigPkg, "LocalCosigner")
	own := s.get(s.get(x, store, "cosigner"), lc, "key")
	a, _ := fieldAddr(s.get(x, store, "cosigner"), lc, "key")
	id := s.get(a, key, "ID")
	if n := unconv(s.content(s.get(x, store, "NodeID"))); own == nil || id == nil || !isApp(n, "itoa") || unconv(n.args[0]) != unconv(id) {
		return "the raft ID is not the ID of the key share"
	}
	cl, cc := fieldOf(loadAddr(s.get(x, store, "RaftBind")))
	if cl != ccT+".P2PListen" {
		return "the address is not the configured one"
	}
	n := s.lenOf(s.get(x, store, "Peers"))
	if s.facts.possible(s.lenOf(s.get(cc, c.p.namedType(cmdPkg, "CosignerConfig"), "Peers")), n) == EQ {
		return ""
	}
	for _, m := range s.monKeys("peers:") {
		if s.facts.possible(s.lenOf(s.mon[m]), n) == EQ {
			return ""
		}
	}
	return "not every configured peer may be a peer of the store"
}

// within: the path a is the directory, or in it.
func within(a, dir *Term) bool {
	if a == nil || dir == nil {
		return false
	}
	if a.contains(dir) {
		return true
	}
	join := func(t *Term) bool { return isApp(t, "path.Join") || isApp(t, "path/filepath.Join") }
	if !join(dir) || !join(a) || len(a.args) < len(dir.args) {
		return false
	}
	for i, x := range dir.args {
		if a.args[i] != x {
			return false
		}
	}
	return true
}
