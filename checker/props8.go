package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C18", c18) }

const (
	configT = cmdPkg + ".Config"
	ccT     = cmdPkg + ".CosignerConfig"
)

// every: the fact holds for every element of the list; f is given a state in which i is an element of it.
func (s *State) every(list *Term, in ssa.Instruction, f func(s *State, i *Term) bool) bool {
	if list == tNil || s.facts.isNil(list) || s.facts.possible(s.lenOf(list), mkInt(0)) == EQ {
		return true
	}
	if es, ok := s.elemsIn(list); ok && list.op != OColl {
		_ = es
	}
	t := s.clone()
	i := mkSym(t.fr.ctx, in, "some", types.Typ[types.Int])
	for n := "some'"; len(t.facts.rel[i]) > 0; n += "'" { // within another one
		i = mkSym(t.fr.ctx, in, n, types.Typ[types.Int])
	}
	t.facts.assumeRel(i, mkInt(0), GT|EQ)
	t.facts.assumeRel(i, t.lenOf(list), LT)
	t.instantiate(list, i)
	return t.dead || f(t, i)
}

func (s *State) elemAddr(list, i *Term) (*Term, types.Type) {
	et := list.typ.Underlying().(*types.Slice).Elem()
	return s.indexAddr(list, i, types.NewPointer(et)), et
}

func c18(c *Check) {
	peers := c.rule("every configuration that is written has distinct peer IDs within 1..shares and room for the local node", 4)
	nodes := c.rule("every chain node address in a configuration that is written parses", 3)
	fresh := c.rule("a new configuration has a chain ID, a threshold that the cosigners can reach and a valid timeout", 1)
	mem := c.rule("a command that fails validation leaves the configuration in memory as it was", 3)
	over := c.rule("init replaces an existing configuration file only if told to", 1)
	cfgType := c.p.namedType(cmdPkg, "Config")
	ccType := c.p.namedType(cmdPkg, "CosignerConfig")

	h := &Hooks{}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		// an ID that was not met before among those that are collected
		if v != nil && isInteger(k.typ) && s.mapLacks(m, k) {
			s.monAdd("own:ids", m)
			s.facts.assume(mkApp("fresh", types.Typ[types.Bool], m, k), true)
		}
	}
	h.Call = func(s *State, k *Call) {
		if changesFiles(k.name) {
			file := false
			for _, a := range k.args {
				file = file || s.configFile(a)
			}
			if !file {
				return
			}
			doc := s.mon["own:done"]
			c.judge(s, mem, c.site(k.instr, rel(s.e.root)+" "+k.name), k.instr, doc != nil, "the configuration file is changed although no validated configuration was prepared")
			if doc == nil || doc.op == OLoad {
				return
			}
			may := s.facts.truthOf(mkApp("flag", types.Typ[types.Bool], mkStr("overwrite"))) == 1
			for _, x := range s.monKeys("own:stat:") {
				st := s.mon[x]
				for _, a := range k.args {
					if a == st.args[0] && s.facts.isNonNil(st.args[1]) {
						may = true
					}
				}
			}
			c.judge(s, over, rel(s.e.root), k.instr, may, "the file may exist, and nobody asked to overwrite it")
			return
		}
		if k.name != "gopkg.in/yaml.v2.Marshal" && k.name != "gopkg.in/yaml.v3.Marshal" {
			return
		}
		p, _ := unIface(k.arg(0))
		if typeName(derefT(typOr(p))) != configT {
			return
		}
		fn := s.e.root
		s.mon["own:done"] = p
		old := p.op == OLoad // the configuration that was loaded
		get := func(n string) *Term { return s.get(p, cfgType, n) }
		cc := get("CosignerConfig")
		ns := get("ChainNodes")
		unchanged := func(v *Term, class string) bool {
			cl, _ := fieldOf(loadAddr(v))
			return old && cl == class
		}
		ok := unchanged(ns, configT+".ChainNodes") || s.every(ns, k.instr, func(s *State, i *Term) bool {
			a, et := s.elemAddr(ns, i)
			x := s.get(a, et, "PrivValAddr")
			return s.facts.isNil(mkApp("net/url.Parse#1", errT, s.content(x)))
		})
		c.judge(s, nodes, rel(fn), k.instr, ok, "a chain node address is written that was not checked")
		single := cc == tNil || s.facts.isNil(cc)
		if !single {
			ps, n := s.get(cc, ccType, "Peers"), s.get(cc, ccType, "Shares")
			if !(unchanged(ps, ccT+".Peers") && unchanged(n, ccT+".Shares")) {
				why := ""
				switch {
				case s.facts.possible(s.lenOf(ps), n) != LT:
					why = "there may be no room for the local node"
				case !s.every(ps, k.instr, func(s *State, i *Term) bool {
					a, et := s.elemAddr(ps, i)
					id := s.get(a, et, "ShareID")
					return s.facts.possible(id, mkInt(1))&LT == 0 && s.facts.possible(id, n)&GT == 0
				}):
					why = "a peer ID may be out of range"
				case !s.distinct(ps, "ShareID", k.instr):
					why = "two peers may have the same ID"
				}
				c.judge(s, peers, rel(fn), k.instr, why == "", why)
			} else {
				c.judge(s, peers, rel(fn), k.instr, true, "")
			}
		}
		if old {
			return
		}
		why := ""
		id := get("ChainID")
		if s.facts.possible(id, mkStr(""))&EQ != 0 && s.facts.possible(s.lenOf(id), mkInt(0))&EQ != 0 {
			why = "the chain ID may be empty"
		}
		if single {
			if why == "" && s.facts.possible(s.lenOf(ns), mkInt(0))&EQ != 0 {
				why = "there may be no chain node"
			}
		} else {
			t, d := s.get(cc, ccType, "Threshold"), s.get(cc, ccType, "Timeout")
			ps, n := s.get(cc, ccType, "Peers"), s.get(cc, ccType, "Shares")
			m := plus(s.lenOf(ps), 1)
			switch {
			case why != "":
			case s.facts.possible(t, m)&GT != 0:
				why = "the threshold may exceed the number of cosigners"
			case s.facts.possible(n, m) != EQ:
				why = "the number of shares is not the number of cosigners"
			case !s.facts.isNil(mkApp("time.ParseDuration#1", errT, s.content(d))):
				why = "the timeout was not checked"
			}
		}
		c.judge(s, fresh, rel(fn), k.instr, why == "", why)
	}
	h.After = func(s *State, k *Call, res *Term) {
		if k.name == "os.Stat" || k.name == "os.Lstat" {
			s.monAdd("own:stat", mkApp("stat", errT, k.arg(0), resAt(res, 1)))
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		cl, _ := fieldOf(addr)
		if rootAddr(addr).op == OAlloc || !strings.HasPrefix(cl, cmdPkg+".") || !strings.Contains(cl, "Config.") && !strings.Contains(cl, "ChainNode.") && !strings.Contains(cl, "CosignerPeer.") {
			return
		}
		k := key("own:was", cl)
		if s.mon[k] == nil {
			s.mon[k] = mkApp("was", val.typ, addr, s.load(addr, val.typ))
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if !s.facts.isNonNil(errOf(fn, res)) || s.mon["own:done"] != nil {
			return
		}
		bad := ""
		for _, x := range s.monKeys("own:was:") {
			w := s.mon[x]
			if s.facts.possible(s.load(w.args[0], w.args[1].typ), w.args[1]) != EQ {
				bad = x[strings.LastIndexByte(x, 46)+1:]
			}
		}
		c.judge(s, mem, rel(fn), nil, bad == "", bad+" was changed although the command fails before the configuration is written")
	}
	c.explore(h, c.p.commandsReaching(c.p.callsTo("gopkg.in/yaml.v2.Marshal", "gopkg.in/yaml.v3.Marshal")), nil)
}

// mapLacks: the map is known not to have the key.
func (s *State) mapLacks(m, k *Term) bool {
	for _, r := range s.clone().mapLookup(m, k, types.Typ[types.Int]) {
		if !r.s.dead && r.has != tFalse && r.s.facts.truthOf(r.has) != -1 {
			return false
		}
	}
	return true
}

// distinct: all elements of the list were put into one map under this field, and none was there before.
func (s *State) distinct(list *Term, field string, in ssa.Instruction) bool {
	if s.every(list, in, func(*State, *Term) bool { return false }) {
		return true
	}
	for _, x := range s.monKeys("own:ids:") {
		m := s.mon[x]
		if s.every(list, in, func(s *State, i *Term) bool {
			a, et := s.elemAddr(list, i)
			return s.facts.truthOf(mkApp("fresh", types.Typ[types.Bool], m, s.get(a, et, field))) == 1
		}) {
			return true
		}
	}
	return false
}

// callsTo: the instruction calls one of these functions.
func (p *Program) callsTo(names ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		if f == nil {
			return false
		}
		for _, n := range names {
			if fnName(f) == n {
				return true
			}
		}
		return false
	}
}

func changesFiles(n string) bool {
	switch n {
	case "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.WriteFile", "io/ioutil.WriteFile":
		return true
	}
	return false
}

// configFile: the path of the configuration file.
func (s *State) configFile(t *Term) bool {
	found := false
	t.walk(func(u *Term) bool {
		if v, ok := u.strVal(); ok && strings.HasSuffix(v, "config.yaml") {
			found = true
		}
		return !found
	})
	return found
}

// resAt: the i-th result of a call.
func resAt(res *Term, i int) *Term {
	if res != nil && res.op == OTuple && i < len(res.args) {
		return res.args[i]
	}
	return tNil
}
