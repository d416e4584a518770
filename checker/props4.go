package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	cosignerI = sigPkg + ".Cosigner"
	getID     = "invoke " + cosignerI + ".GetID"
	combine   = tsPkg + ".CombineShares"
)

func init() { register("C29", c29) }

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// idOf: t is known to be the ID of a cosigner; returns the cosigners it is known to be the ID of.
func (s *State) idOf(t *Term) (out []*Term) {
	try := func(x *Term) {
		if x != nil && x.op == OApp && strings.HasSuffix(x.name, ".GetID") && len(x.args) == 1 {
			out = append(out, x.args[0])
		}
	}
	try(t)
	for _, p := range s.facts.pairs() {
		if p.bits == EQ {
			if p.a == t {
				try(p.b)
			}
			if p.b == t {
				try(p.a)
			}
		}
	}
	return out
}

// takesPart: x is a key of a map whose keys are cosigners.
func takesPart(s *State, x *Term) bool {
	for _, k := range s.monKeys("part:") {
		if s.mon[k] == x {
			return true
		}
	}
	for f, v := range s.facts.truth {
		if v && f.op == OApp && f.name == "maphas" && f.args[2] == x {
			if mt, ok := typOr(f.args[0]).Underlying().(*types.Map); ok && typeName(mt.Key()) == cosignerI {
				return true
			}
		}
	}
	return false
}

// fromParticipant: the ID is that of a cosigner that takes part.
func fromParticipant(s *State, id *Term) bool {
	if v, ok := s.facts.truth[mkApp("participant", types.Typ[types.Bool], id)]; ok && v {
		return true
	}
	for _, q := range s.idOf(id) {
		if takesPart(s, q) {
			return true
		}
	}
	return false
}

// answer is one answer to a request to sign with a key share.
type answer struct{ peer, sig, eph, err *Term }

func (s *State) answers() (out []answer) {
	for _, k := range s.monKeys("own:ans:") {
		a := s.mon[k].args
		out = append(out, answer{a[0], a[1], a[2], a[3]})
	}
	return out
}

func c29(c *Check) {
	parts := c.rule("a cosigner is given only ephemeral parts addressed to it, from cosigners that take part", 1)
	slots := c.rule("a signature share is kept under the ID of the cosigner that returned it", 1)
	pair := c.rule("each combined share is paired with the ID it is kept under", 1)
	empty := c.rule("an empty answer is not used as a share", 1)
	enough := c.rule("at least threshold shares are combined", 1)
	ephR := c.rule("the signature carries the ephemeral public key our own cosigner returned in this round", 1)
	h := &Hooks{}
	h.Enter = c.request
	pt := c.p.namedType(sigPkg, "CosignerEphemeralSecretPart")
	pt1 := types.NewSlice(types.Typ[types.Byte])
	ephCells := map[*Term]bool{}
	type use struct {
		s    *State
		cell *Term
		in   ssa.Instruction
	}
	var uses []use
	h.Go = func(s *State, k *Call) {
		for _, a := range k.args {
			if a != nil && a.typ != nil && typeName(a.typ) == cosignerI && takesPart(s, a) {
				s.monAdd("part", a)
			}
		}
	}
	approve := func(s *State, e *Term) {
		if e.typ == nil || typeName(e.typ) != partT {
			return
		}
		if !fromParticipant(s, part(e, pt, "SourceID")) {
			return
		}
		for _, p := range s.idOf(part(e, pt, "DestinationID")) {
			s.monAdd("own:approved", mkApp("pair", pt1, e, p))
		}
	}
	h.Branch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		// remember it beyond the loop that looks for the cosigner
		for _, p := range s.facts.pairs() {
			if p.bits == EQ {
				for _, x := range []*Term{p.a, p.b} {
					if x.op == OLoad && fromParticipant(s, x) {
						s.facts.assume(mkApp("participant", types.Typ[types.Bool], x), true)
					}
				}
			}
		}
	}
	// keptUnder: the ID a share is kept under
	keptUnder := func(s *State, e *Term) *Term {
		if l, i := slot(loadAddr(e)); l != nil {
			return plus(i, 1)
		}
		if isApp(e, "mapget") {
			return e.args[2]
		}
		return nil
	}
	// an empty answer is no share: that is found out where the shares are kept, or where they are used
	nonEmpty := func(s *State, e *Term) bool {
		return s.facts.possible(s.lenOf(e), mkInt(0))&EQ == 0
	}
	var emptyUsed ssa.Instruction
	emptyKept := false
	h.Append = func(s *State, base *Term, add []*Term, in ssa.Instruction) {
		for _, e := range add {
			approve(s, e)
			if s.mon["req:pv"] == nil {
				continue
			}
			t := typOr(e)
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				s.monAdd("own:ids", e)
			} else if isByteSlice(t) {
				s.monAdd("own:sigs", e)
				if keptUnder(s, e) != nil && !nonEmpty(s, e) {
					emptyUsed = in
				}
			}
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		// what one iteration adds to the two lists belongs together
		ids, sigs := s.monKeys("own:ids:"), s.monKeys("own:sigs:")
		if len(ids) == 0 && len(sigs) == 0 {
			return
		}
		for _, k := range ids {
			ok := false
			for _, j := range sigs {
				if u := keptUnder(s, s.mon[j]); u != nil && s.facts.eq(u, s.mon[k]) {
					ok = true
				}
			}
			if !ok {
				s.monAdd("own:lone", s.mon[k])
			}
		}
		for _, j := range sigs {
			ok := false
			u := keptUnder(s, s.mon[j])
			for _, k := range ids {
				if u != nil && s.facts.eq(u, s.mon[k]) {
					ok = true
				}
			}
			if !ok {
				s.monAdd("own:lone", s.mon[j])
			}
		}
		s.delMon("own:ids:")
		s.delMon("own:sigs:")
	}
	h.After = func(s *State, k *Call, res *Term) {
		if k.name != setParts || res.op != OTuple || len(res.args) != 2 {
			return
		}
		rt := c.p.namedType(sigPkg, "CosignerSignResponse")
		r := res.args[0]
		get := func(f string) *Term {
			if isPointerT(typOr(r)) {
				return s.get(r, rt, f)
			}
			return part(r, rt, f)
		}
		s.monAdd("own:ans", mkApp("answer", pt1, k.arg(0), get("Signature"), get("EphemeralPublic"), res.args[1]))
	}
	judgeShare := func(s *State, v, id *Term, in ssa.Instruction, n string) {
		v = s.content(v)
		for _, a := range s.answers() {
			if v != a.sig && v != s.content(a.sig) {
				continue
			}
			ok := false
			for _, p := range s.idOf(id) {
				ok = ok || p == a.peer
			}
			c.judge(s, slots, n, in, ok, "the share is kept under another ID than that of the cosigner that returned it")
			if !nonEmpty(s, a.sig) {
				emptyKept = true
			}
			c.judge(s, slots, n, in, s.facts.isNil(a.err), "a share is kept although the cosigner answered with an error")
			return
		}
		if v != nil && !s.facts.isNil(v) && !isApp(v, "zeros") {
			c.judge(s, slots, n, in, false, "what is kept as a signature share was not returned by a cosigner in this round")
		}
	}
	shareList := func(t *Term) bool {
		sl, ok := typOr(t).Underlying().(*types.Slice)
		return ok && isByteSlice(sl.Elem())
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if s.mon["req:pv"] == nil {
			return
		}
		if l, i := slot(addr); l != nil && len(s.answers()) > 0 && shareList(l) {
			s.mon[key("own:slot", addr)] = mkApp("slot", pt1, addr, i)
			return
		}
		if isByteSlice(typOr(val)) {
			v := s.content(val)
			for _, a := range s.answers() {
				if v != s.content(a.eph) || v == tNil {
					continue
				}
				if addr.op == OIndexAddr && rootAddr(addr).name == "varargs" {
					continue
				}
				own := false
				oc := s.get(s.mon["req:pv"], c.p.namedType(sigPkg, "ThresholdValidator"), "cosigner")
				own = a.peer == oc || s.facts.eq(a.peer, oc) || s.facts.eq(mkApp(getID, types.Typ[types.Int], a.peer), mkApp(getID, types.Typ[types.Int], oc))
				c.judge(s, ephR, fnOf(in)+": kept", in, own, "the ephemeral public key of another cosigner than our own is used")
				c.judge(s, ephR, fnOf(in)+": kept", in, s.facts.isNil(a.err), "an ephemeral public key is used although the cosigner answered with an error")
				ephCells[addr] = true
			}
		}
	}
	settle := func(s *State, in ssa.Instruction) {
		for _, k := range s.monKeys("own:slot:") {
			p := s.mon[k]
			sl := p.args[0]
			judgeShare(s, s.load(sl, pt1), plus(p.args[1], 1), in, "list of shares")
			delete(s.mon, k)
		}
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) { settle(s, in) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) { settle(s, nil) }
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if v != nil && s.mon["req:pv"] != nil && len(s.answers()) > 0 && isByteSlice(typOr(v)) {
			judgeShare(s, v, k, in, "map of shares")
		}
	}
	h.Call = func(s *State, k *Call) {
		switch k.name {
		case setParts:
			v, t := s.structArg(k.arg(1))
			n := c.site(k.instr, "parts")
			es, ok := s.elemsIn(part(v, t, "EncryptedSecrets"))
			c.judge(s, parts, n, k.instr, ok, "it is not known which parts a cosigner is given")
			for _, e := range es {
				good := false
				for _, mk := range s.monKeys("own:approved:") {
					if p := s.mon[mk]; p.args[0] == e && p.args[1] == k.arg(0) {
						good = true
					}
				}
				if !good && e.op == OStruct {
					// decided only now
					for _, p := range s.idOf(part(e, pt, "DestinationID")) {
						good = good || p == k.arg(0) && fromParticipant(s, part(e, pt, "SourceID"))
					}
				}
				c.judge(s, parts, n, k.instr, good, "a part is handed over that is not known to be addressed to this cosigner and to come from one that takes part")
			}
			own := s.get(s.mon["req:pv"], c.p.namedType(sigPkg, "ThresholdValidator"), "cosigner")
			c.judge(s, parts, n, k.instr, k.arg(0) == own || takesPart(s, k.arg(0)), "a cosigner is asked to sign that does not take part")
		case combine:
			n := c.site(k.instr, "CombineShares")
			ids, ok1 := s.elemsIn(k.arg(1))
			sigs, ok2 := s.elemsIn(k.arg(2))
			thr := s.get(s.mon["req:pv"], c.p.namedType(sigPkg, "ThresholdValidator"), "threshold")
			ok := s.facts.possible(s.lenOf(k.arg(1)), thr)&LT == 0 || s.facts.possible(s.lenOf(k.arg(2)), thr)&LT == 0
			c.judge(s, enough, n, k.instr, ok, "fewer shares than the threshold may be combined")
			if !ok1 || !ok2 {
				c.judge(s, pair, n, k.instr, false, "it is not known which shares are combined under which IDs")
				return
			}
			lone := map[*Term]bool{}
			for _, mk := range s.monKeys("own:lone:") {
				lone[s.mon[mk]] = true
			}
			bad := ""
			for _, e := range sigs {
				u := keptUnder(s, e)
				hit := false
				for _, i := range ids {
					hit = hit || u != nil && s.facts.eq(u, i)
				}
				if !hit || lone[e] {
					bad = "a share is combined under another ID than the one it is kept under, or without one"
				}
			}
			for _, i := range ids {
				hit := false
				for _, e := range sigs {
					u := keptUnder(s, e)
					hit = hit || u != nil && s.facts.eq(u, i)
				}
				if !hit || lone[i] {
					bad = "an ID is combined that is not that of the share at its place"
				}
			}
			c.judge(s, pair, n, k.instr, bad == "", bad)
		}
		if strings.HasSuffix(k.name, ".VerifySignature") && s.mon["req:pv"] != nil && len(k.args) == 3 {
			sig := k.arg(2)
			x := s.content(sig)
			if s.reaches([]*Term{x}, func(t *Term) bool { return isApp(t, combine) }) == nil {
				return
			}
			n := c.site(k.instr, "combined signature")
			if isApp(x, combine) {
				return // nothing was returned: not a valid signature
			}
			// what comes before the combined shares
			var first *Term
			if n := len(x.args); x.op == OAppend && x.args[n-1].op == OSpread && isApp(s.content(x.args[n-1].args[0]), combine) {
				switch {
				case n == 2:
					first = x.args[0]
				case n == 3 && s.isEmpty(x.args[0]) && x.args[1].op == OSpread:
					first = x.args[1].args[0]
				}
				if first != nil && first.op == OAppend && len(first.args) == 2 && first.args[1].op == OSpread && s.isEmpty(first.args[0]) {
					first = first.args[1].args[0]
				}
			}
			if first == tNil || first != nil && s.facts.isNil(first) {
				return // nothing was returned: not a valid signature
			}
			cell := loadAddr(first)
			c.judge(s, ephR, n, k.instr, cell != nil, "the signature is not made of an ephemeral public key a cosigner returned and the combined shares")
			if cell != nil {
				uses = append(uses, use{s, cell, k.instr})
			}
		}
	}
	c.explore(h, c.p.rootsNamed(tvT+".SignBlock"), nil)
	pos := token.NoPos
	if emptyUsed != nil {
		pos = instrPos(emptyUsed)
	}
	c.fact(empty, "shares", pos, emptyUsed == nil || !emptyKept, "a share is combined that may be empty: it is checked neither where it is kept nor where it is used")
	for _, u := range uses {
		c.judge(u.s, ephR, c.site(u.in, "combined signature"), u.in, ephCells[u.cell], "the ephemeral public key of the signature is not the one our own cosigner returned")
	}
}
