package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C19", c19) }

const (
	dealShares   = tsPkg + ".DealShares"
	serviceStart = "github.com/tendermint/tendermint/libs/service.BaseService.Start"
)

// within: lo <= x <= hi.
func (s *State) within(x, lo, hi *Term) bool {
	return s.atMost(lo, x, 0) && s.atMost(x, hi, 0)
}

// majority: t is more than half of n.
func (s *State) majority(t, n *Term) bool {
	two := mkInt(2)
	for _, p := range [][2]*Term{
		{t, mkBin(token.QUO, n, two, n.typ)},
		{mkBin(token.MUL, two, t, t.typ), n}, {mkBin(token.MUL, t, two, t.typ), n},
		{mkBin(token.ADD, t, t, t.typ), n},
		{t, mkBin(token.SUB, n, t, t.typ)},
	} {
		if s.facts.possible(p[0], p[1]) == GT {
			return true
		}
	}
	b, k := splitAdd(t) // t = n/2 + k
	return k > 0 && b == mkBin(token.QUO, n, two, n.typ)
}

func (s *State) majorityOf(t *Term, n []*Term) bool {
	for _, x := range n {
		if s.majority(t, x) {
			return true
		}
	}
	return false
}

func c19(c *Check) {
	deal := c.rule("key shares are dealt for 1 to 255 shares and a threshold that is more than half of them and does not exceed them", 2)
	own := c.rule("ephemeral secrets are shared with the threshold and the number of cosigners the cosigner was started with", 1)
	thr := c.rule("a cosigner starts with a threshold that is more than half of the shares and does not exceed the cosigners", 1)
	ids := c.rule("a cosigner starts with IDs within the number of cosigners, those of its peers other than its own", 2)
	conv := c.rule("a count or an ID keeps its value when it is converted to 8 bits", 5)

	cfgType := c.p.namedType(cmdPkg, "Config")
	ccType := c.p.namedType(cmdPkg, "CosignerConfig")
	config := func(s *State, f string) *Term { // of the loaded configuration
		v := c.p.pkgVar(cmdPkg, "config")
		if v == nil {
			return tNil
		}
		g := s.val(v)
		cc := s.get(s.load(g, derefT(g.typ)), cfgType, "CosignerConfig")
		return s.get(cc, ccType, f)
	}
	byID := types.Typ[types.Int]

	h := &Hooks{}
	h.Convert = func(s *State, v *Term, from, to types.Type, in ssa.Instruction) {
		if intBits(to) == 0 || intBits(to) > 16 || intBits(from) <= intBits(to) || strings.HasSuffix(fieldNameOf(v), "Step") {
			return
		}
		hi := int64(255)
		switch to.Underlying().(*types.Basic).Kind() {
		case types.Int8:
			hi = 127
		case types.Int16:
			hi = 32767
		case types.Uint16:
			hi = 65535
		}
		ok := s.within(v, mkInt(0), mkInt(hi))
		if b, n := splitAdd(v); !ok && n == 1 && hi == 255 && isApp(b, "len") {
			// bounded when the validator is made, see below
			cl, _ := fieldOf(loadAddr(b.args[0]))
			ok = cl == tvT+".peers"
		}
		c.judge(s, conv, c.site(in, "conversion"), in, ok, "the number may not fit")
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		cl, _ := fieldOf(addr)
		switch cl {
		case lcT + ".total", lcT + ".threshold", tvT + ".threshold", tvT + ".peers", lcT + ".key":
			s.mon["own:"+cl] = val
		}
	}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok || v == nil || !types.Identical(mt.Key(), byID) || typeName(mt.Elem()) != sigPkg+".CosignerPeer" {
			return
		}
		total := unconv(s.mon["own:"+lcT+".total"])
		if total == nil {
			c.judge(s, ids, c.site(in, "peer"), in, false, "the number of cosigners is not known where a peer is added")
			return
		}
		mine := s.configuredID(c)
		ok = mine != nil && (k == mine || s.facts.possible(k, mine) == EQ || s.facts.possible(k, mine)&EQ == 0)
		c.judge(s, ids, c.site(in, "peer"), in, ok, "a peer may have the cosigner's own ID")
		c.judge(s, ids, c.site(in, "range"), in, s.within(k, mkInt(1), total), "an ID may be out of range")
	}
	h.Load = func(s *State, a *Term, in ssa.Instruction) {
		// the number of shares the configuration says, at any time on the way
		if v := c.p.pkgVar(cmdPkg, "config"); v != nil && rootAddr(a) == s.val(v) {
			n := config(s, "Shares")
			s.mon[fmt.Sprintf("own:shares:%d", n.id)] = n
		}
	}
	h.Call = func(s *State, k *Call) {
		switch k.name {
		case dealShares:
			t, n := k.arg(1), k.arg(2)
			cl, b1 := fieldOf(loadAddr(t))
			cl2, b2 := fieldOf(loadAddr(n))
			if strings.HasPrefix(cl, lcT+".") || strings.HasPrefix(cl2, lcT+".") {
				c.judge(s, own, c.site(k.instr, "deal"), k.instr, cl == lcT+".threshold" && cl2 == lcT+".total" && b1 == b2, "an ephemeral secret is shared with other parameters")
				return
			}
			t, n = unconv(t), unconv(n)
			why := ""
			switch {
			case !s.within(n, mkInt(1), mkInt(255)):
				why = "the number of shares may be out of range"
			case !s.atMost(t, n, 0):
				why = "the threshold may exceed the number of shares"
			case !s.majority(t, n):
				why = "the threshold may not be more than half of the shares"
			}
			c.judge(s, deal, c.site(k.instr, rel(s.e.root)), k.instr, why == "", why)
		case serviceStart:
			total, t := s.mon["own:"+lcT+".total"], s.mon["own:"+lcT+".threshold"]
			if total == nil || t == nil || s.mon["own:started"] != nil {
				return
			}
			s.mon["own:started"] = tTrue
			total, t = unconv(total), unconv(t)
			shares := []*Term{config(s, "Shares")}
			for _, k := range s.monKeys("own:shares:") {
				shares = append(shares, s.mon[k])
			}
			for _, x := range []*Term{t, s.mon["own:"+tvT+".threshold"]} {
				why := ""
				switch {
				case x == nil:
					why = "the threshold is not set"
				case !s.majorityOf(unconv(x), shares):
					why = "the threshold may not be more than half of the shares"
				case !s.atMost(unconv(x), total, 0):
					why = "the threshold may exceed the number of cosigners"
				}
				c.judge(s, thr, c.site(k.instr, rel(s.e.root)), k.instr, why == "", why)
			}
			id := s.configuredID(c)
			c.judge(s, ids, c.site(k.instr, "own"), k.instr, id != nil && s.within(id, mkInt(1), total), "the cosigner's own ID may be out of range")
			l := s.mon["own:"+tvT+".peers"]
			c.judge(s, conv, c.site(k.instr, "peers"), k.instr, l != nil && s.atMost(s.lenOf(l), mkInt(254), 0), "the number of peers is not bounded")
		}
	}
	roots := c.p.rootsStoring(lcT + ".total")
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		seen[f] = true
	}
	for _, f := range c.p.roots() {
		if !seen[f] && (c.p.mentions(f, c.p.callsTo(dealShares)) || c.p.mentions(f, narrows)) {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	c.explore(h, roots, nil)
}

func narrows(in ssa.Instruction) bool {
	x, ok := in.(*ssa.Convert)
	return ok && intBits(x.Type()) == 8 && intBits(x.X.Type()) > 8
}

// configuredID: the ID in the key file the cosigner was started with.
func (s *State) configuredID(c *Check) *Term {
	k := s.mon["own:"+lcT+".key"]
	if k == nil {
		return nil
	}
	return part(k, c.p.namedType(sigPkg, "CosignerKey"), "ID")
}

// pkgVar: a variable of a package.
func (p *Program) pkgVar(pkg, name string) *ssa.Global {
	for _, f := range p.fns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == pkg {
			g, _ := f.Pkg.Members[name].(*ssa.Global)
			return g
		}
	}
	return nil
}

// atMost: a <= b + k follows from the known comparisons of numbers (shortest paths over their differences).
func (s *State) atMost(a, b *Term, k int64) bool {
	type edge struct {
		to *Term
		w  int64
	}
	zero := mkInt(0)
	out := map[*Term][]edge{}
	norm := func(t *Term) (*Term, int64) {
		x, n := splitAdd(t)
		if x == nil {
			x = zero
		}
		return x, n
	}
	le := func(a, b *Term, k int64) { // a <= b + k
		x, n := norm(a)
		y, m := norm(b)
		out[y] = append(out[y], edge{x, m - n + k})
	}
	nodes := map[*Term]bool{}
	node := func(t *Term) {
		x, _ := norm(t)
		if nodes[x] {
			return
		}
		nodes[x] = true
		if isApp(x, "len") {
			le(zero, x, 0)
		}
	}
	node(a)
	node(b)
	for _, p := range s.facts.pairs() {
		if p.a.typ == nil || p.b.typ == nil || !isInteger(p.a.typ) || !isInteger(p.b.typ) {
			continue
		}
		node(p.a)
		node(p.b)
		if p.bits&GT == 0 {
			d := int64(0)
			if p.bits&EQ == 0 {
				d = -1
			}
			le(p.a, p.b, d)
		}
		if p.bits&LT == 0 {
			d := int64(0)
			if p.bits&EQ == 0 {
				d = -1
			}
			le(p.b, p.a, d)
		}
	}
	dist := func(from, to *Term) (int64, bool) { // to <= from + dist
		d := map[*Term]int64{from: 0}
		work := []*Term{from}
		for n := 0; len(work) > 0 && n < 5000; n++ {
			x := work[0]
			work = work[1:]
			for _, e := range out[x] {
				if old, ok := d[e.to]; !ok || d[x]+e.w < old {
					d[e.to] = d[x] + e.w
					work = append(work, e.to)
				}
			}
		}
		v, ok := d[to]
		return v, ok
	}
	for x := range nodes {
		if isApp(x, "/") {
			if n, ok := x.args[1].intVal(); ok && n > 0 {
				y, m := norm(x.args[0])
				if d, ok := dist(y, zero); ok && d <= m {
					le(zero, x, 0)
				}
			}
		}
	}
	for t := range nodes {
		// a multiple has the sign of the number
		var f *Term
		k := int64(0)
		if isApp(t, "*") {
			for i := range t.args {
				if n, ok := t.args[i].intVal(); ok && n > 0 {
					f, k = t.args[1-i], n
				}
			}
		} else if isApp(t, "+") && t.args[0] == t.args[1] {
			f, k = t.args[0], 2
		}
		if f == nil {
			continue
		}
		if d, ok := dist(t, zero); ok {
			if d < 0 {
				le(zero, f, -((-d + k - 1) / k))
			} else {
				le(zero, f, d/k)
			}
		}
	}
	x, n := norm(a)
	y, m := norm(b)
	d, ok := dist(y, x)
	return ok && d+n-m <= k
}
