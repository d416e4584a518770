package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var recFields = []string{"Height", "Round", "Step", "Signature", "SignBytes"}

// wm follows the updates of last-signed records along a path. A group of stores to one record ends when its
// critical section ends.
type wm struct {
	c     *Check
	close func(s *State, base *Term, in ssa.Instruction, old, new triple, set map[string]*Term)
}

func (w *wm) store(s *State, addr, val *Term, in ssa.Instruction) {
	eachStore(addr, val, 0, func(a, v *Term) {
		cl, base := fieldOf(a)
		if !strings.HasPrefix(cl, ssT+".") || s.private(rootAddr(base)) {
			return
		}
		f := strings.TrimPrefix(cl, ssT+".")
		if f == "cache" || f == "filePath" {
			return
		}
		k := key("own:wm", base)
		if s.mon[k] == nil {
			s.mon[k] = base
			old := w.c.watermark(s, base)
			for i, n := range []string{"old0", "old1", "old2"} {
				s.mon[key(k, n)] = old[i]
			}
		}
		s.mon[key(k, "set", f)] = v
	})
}

func (w *wm) end(s *State, in ssa.Instruction) {
	for _, k := range s.monKeys("own:wm:") {
		if strings.Count(k, ":") != 2 {
			continue
		}
		base := s.mon[k]
		old := triple{s.mon[key(k, "old0")], s.mon[key(k, "old1")], s.mon[key(k, "old2")]}
		set := map[string]*Term{}
		for _, f := range append([]string{"EphemeralPublic"}, recFields...) {
			if v := s.mon[key(k, "set", f)]; v != nil {
				set[f] = v
			}
		}
		w.close(s, base, in, old, w.c.watermark(s, base), set)
		s.delMon(k + ":")
		delete(s.mon, k)
	}
}

func (w *wm) hooks(h *Hooks) {
	h.Store = w.store
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) { w.end(s, in) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) { w.end(s, nil) }
}

// sameBase: all terms are fields of one struct value (or cells of one object).
func sameBase(ts ...*Term) bool {
	var base *Term
	for _, t := range ts {
		var b *Term
		switch {
		case t == nil:
			return false
		case t.op == OField:
			b = t.args[0]
		case t.op == OLoad && t.args[0].op == OFieldAddr:
			b = t.args[0].args[0]
		default:
			return false
		}
		if base != nil && b != base {
			return false
		}
		base = b
	}
	return true
}

func unconv(t *Term) *Term {
	for t != nil && t.op == OApp && strings.HasPrefix(t.name, "conv:") {
		t = t.args[0]
	}
	return t
}

// samePosition: the position and the bytes are parts of one request, or the bytes are made from the vote or proposal
// the position is of.
func (c *Check) samePosition(s *State, pos triple, sb *Term) bool {
	if m := s.content(sb); isApp(m, tmTypes+".VoteSignBytes", tmTypes+".ProposalSignBytes") {
		x := m.args[1]
		for x.op == OApp && x.name == "deref" {
			x = x.args[0]
		}
		t := x.typ
		if x.op == OLoad || structOf(derefT(t)) == nil {
			return false
		}
		t = derefT(t)
		if !s.facts.eq(pos[0], part(x, t, "Height")) || !s.facts.eq(pos[1], part(x, t, "Round")) {
			return false
		}
		if isApp(m, tmTypes+".ProposalSignBytes") {
			return s.facts.eq(pos[2], mkInt(1))
		}
		step, known := pos[2].intVal()
		return known && (step == 2 || step == 3) && s.facts.possible(part(x, t, "Type"), mkInt(step-1)) == EQ
	}
	zero := sb == tNil
	for _, t := range pos {
		n, ok := t.intVal()
		zero = zero && ok && n == 0
	}
	return zero || sameBase(pos[0], pos[1], unconv(pos[2]), sb)
}

func init() {
	register("C01", c01)
	register("C02", c02)
	register("C03", c03)
	register("C04", c04)
}

func c01(c *Check) {
	fwd := c.rule("a record is only replaced by one at a higher (height, round, step)", 4)
	all := c.rule("height, round, step, signature and signed bytes are replaced together", 4)
	event := c.rule("the parts of a record come from one signing event", 4)
	refuse := c.rule("recording an equal or lower position is refused with an error, equality with its own kind", 1)
	cache := c.rule("the cache of records is only extended together with the record", 2)
	w := &wm{c: c}
	construct := func(s *State, base *Term) string {
		return objName(base) + " in " + strings.ReplaceAll(s.e.root.RelString(nil), modPath+"/", "")
	}
	w.close = func(s *State, base *Term, in ssa.Instruction, old, new triple, set map[string]*Term) {
		n := construct(s, base)
		c.judge(s, fwd, n, in, lexGT(s, new, old), "the new position "+new.String()+" is not known to be above the replaced one "+old.String())
		missing := ""
		for _, f := range recFields {
			if set[f] == nil {
				missing += " " + f
			}
		}
		c.judge(s, all, n, in, missing == "", "a record is changed without its"+missing)
		if missing != "" {
			return
		}
		sig, sb := set["Signature"], s.content(set["SignBytes"])
		ok := false
		why := "signature and signed bytes are not from the same event"
		h, r, st := set["Height"], set["Round"], set["Step"]
		switch {
		case sameBase(h, r, st, sig, set["SignBytes"]):
			ok = true
		case set["Signature"] == tNil && set["SignBytes"] == tNil:
			ok = true // a position without a signature: started on, or set by an operator
		case isApp(sig, signShareFn):
			pos, _, known := c.position(s, sig.args[0])
			ok = sig.args[0] == sb && known && tripleEq(s, pos, triple{h, r, st})
			why = "the recorded position or bytes are not those of the signature share"
			eph := set["EphemeralPublic"]
			if ok && (eph == nil || s.content(eph) != sig.args[4]) {
				ok, why = false, "the recorded ephemeral public key is not the one the share was made with"
			}
		default:
			// verified by the caller over these bytes, position and bytes from one request
			ok = c.samePosition(s, triple{h, r, st}, set["SignBytes"]) && verifiedOver(s, sb, s.content(sig))
		}
		c.judge(s, event, n, in, ok, why)
	}
	h := &Hooks{}
	w.hooks(h)
	ends := h.RootEnd
	saveFn := func(fn *ssa.Function) bool { return fnName(fn) == ssT+".Save" }
	h.Enter = func(s *State, fn *ssa.Function, args []*Term) {
		if s.e.root == fn && saveFn(fn) {
			// remember the request
			s.mon["req"] = args[1]
		}
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) {
		if fn := s.e.root; saveFn(fn) {
			// the record as it is when the critical section ends, for the judgement at the end
			recv := paramSym(fn, fn.Params[0])
			old := c.oldWatermark(s, recv)
			for i := range old {
				s.mon[key("rel", i)] = old[i]
			}
			for _, n := range recFields[:3] {
				if v := s.mon[key("own:wm", recv, "set", n)]; v != nil {
					s.mon[key("relset", n)] = v
				}
			}
		}
		w.end(s, in)
	}
	cfg := func(s *State, fn *ssa.Function, res []*Term) {
		if !saveFn(fn) || s.e.root != fn {
			return
		}
		req := s.mon["req"]
		t := c.p.namedType(sigPkg, "SignStateConsensus")
		n := triple{part(req, t, "Height"), part(req, t, "Round"), part(req, t, "Step")}
		recv := paramSym(fn, fn.Params[0])
		er := errOf(fn, res)
		set := triple{s.mon[key("own:wm", recv, "set", "Height")], s.mon[key("own:wm", recv, "set", "Round")], s.mon[key("own:wm", recv, "set", "Step")]}
		old := c.oldWatermark(s, recv)
		if s.mon["rel:0"] != nil {
			old = triple{s.mon["rel:0"], s.mon["rel:1"], s.mon["rel:2"]}
			set = triple{s.mon["relset:Height"], s.mon["relset:Round"], s.mon["relset:Step"]}
		}
		changed := set[0] != nil || set[1] != nil || set[2] != nil
		if changed {
			c.judge(s, refuse, "Save: accepted", nil, set[0] != nil && set[1] != nil && set[2] != nil && tripleEq(s, set, n), "another position than the requested one is recorded")
			c.judge(s, refuse, "Save: accepted", nil, s.facts.isNil(er), "the record is changed but an error is reported")
			return
		}
		c.judge(s, refuse, "Save: refused", nil, s.facts.isNonNil(er), "nothing was recorded but no error is reported")
		isSame := er.op == OIface && typeName(er.typ) == "*"+sigPkg+".SameHRSError"
		if isSame {
			c.judge(s, refuse, "Save: same position", nil, tripleEq(s, n, old), "reported as the same position although it may be another")
		} else {
			c.judge(s, refuse, "Save: lower position", nil, !tripleMayEq(s, n, old) && lexLTPossible(s, n, old), "an equal or higher position is reported as a regression")
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		cfg(s, fn, res)
		ends(s, fn, res)
	}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if v == nil || !c.isCache(m) || s.private(rootAddr(m)) {
			return
		}
		base := cacheOwner(m)
		if base == nil || s.private(rootAddr(base)) {
			return
		}
		kt, vt := c.p.namedType(sigPkg, "HRSKey"), c.p.namedType(sigPkg, "SignStateConsensus")
		kk := triple{part(k, kt, "Height"), part(k, kt, "Round"), part(k, kt, "Step")}
		vv := triple{part(v, vt, "Height"), part(v, vt, "Round"), part(v, vt, "Step")}
		c.judge(s, cache, "key of "+construct(s, base), in, tripleEq(s, kk, vv), "a record is cached under another position than its own")
		old := c.oldWatermark(s, base)
		c.judge(s, cache, construct(s, base), in, lexGT(s, kk, old), "a record that is not above the last one is put into the cache")
	}
	c.explore(h, c.p.roots(), nil)
}

// oldWatermark is the position of a record before the running update.
func (c *Check) oldWatermark(s *State, base *Term) triple {
	k := key("own:wm", base)
	if s.mon[k] != nil {
		return triple{s.mon[key(k, "old0")], s.mon[key(k, "old1")], s.mon[key(k, "old2")]}
	}
	return c.watermark(s, base)
}

// lexLTPossible: n is known to be below o.
func lexLTPossible(s *State, n, o triple) bool { return lexGT(s, o, n) }

func (c *Check) isCache(m *Term) bool {
	mt, ok := typOr(m).Underlying().(*types.Map)
	return ok && typeName(mt.Key()) == sigPkg+".HRSKey" && typeName(mt.Elem()) == sigPkg+".SignStateConsensus"
}

// cacheOwner: the record a cache map was read from.
func cacheOwner(m *Term) *Term {
	if m.op == OLoad {
		if cl, b := fieldOf(m.args[0]); strings.HasPrefix(cl, ssT+".") {
			return b
		}
	}
	return nil
}

// verifiedOver: a public key has been found to accept sig over msg.
func verifiedOver(s *State, msg, sig *Term) bool {
	for t, v := range s.facts.truth {
		if v && t.op == OApp && strings.HasSuffix(t.name, ".VerifySignature") && len(t.args) == 3 && t.args[1] == msg && t.args[2] == sig {
			return true
		}
	}
	return false
}

func c02(c *Check) {
	above := c.rule("bytes are signed with the key share only at or above the watermark", 1)
	after := c.rule("the watermark is at the signed position when the share is handed out", 1)
	h := &Hooks{}
	h.Call = func(s *State, k *Call) { c.signedAbove(s, k, above) }
	mark := func(s *State) {
		if b := s.mon["own:signed:base"]; b != nil && s.mon["own:signed:done"] == nil {
			pos := triple{s.mon["own:signed:pos:0"], s.mon["own:signed:pos:1"], s.mon["own:signed:pos:2"]}
			s.mon["own:signed:done"] = mkBool(tripleEq(s, c.watermark(s, b), pos))
		}
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) { mark(s) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		mark(s)
		if s.mon["own:signed"] == nil || !succeeded(s, fn, res) {
			return
		}
		if s.reaches(res, func(t *Term) bool { return isApp(t, signShareFn) }) == nil {
			return
		}
		c.judge(s, after, strings.ReplaceAll(fn.RelString(nil), modPath+"/", ""), nil, s.mon["own:signed:done"] == tTrue,
			"a signature share is handed out although the watermark was not moved to its position")
	}
	c.explore(h, c.p.roots(), nil)
}

// signedAbove judges the application of the key share: the position of the bytes is compared with the last-signed record
// as it is now (what is known of the record ends with the critical section).
func (c *Check) signedAbove(s *State, k *Call, above string) {
	if k.name != signShareFn {
		return
	}
	{
		m := s.content(k.arg(0))
		n := c.site(k.instr, "SignWithShare")
		pos, _, ok := c.position(s, m)
		if !ok {
			c.judge(s, above, n, k.instr, false, "bytes are signed that are not known to be a proposal, prevote or precommit")
			return
		}
		owner := rootAddr(s.keyOf(k.arg(1)))
		ok = false
		why := "no last-signed record is consulted"
		for _, b := range s.signStates() {
			if b.op == OLoad && rootAddr(b.args[0]) != owner || b.op == OAlloc {
				continue
			}
			w := c.watermark(s, b)
			if lexGE(s, pos, w) {
				ok = true
				s.mon["own:signed:base"] = b
			} else {
				why = "the position of the signed bytes " + pos.String() + " may be below the watermark " + w.String()
			}
		}
		if ok {
			s.mon["own:signed"] = m
			for i := range pos {
				s.mon[key("own:signed:pos", i)] = pos[i]
			}
		}
		c.judge(s, above, n, k.instr, ok, why)
	}
}

// keyOf: the address a value was read from.
func (s *State) keyOf(t *Term) *Term {
	for t != nil && t.op == OSlice {
		t = t.args[0]
	}
	if t != nil && t.op == OLoad {
		return t.args[0]
	}
	if t == nil {
		return tNil
	}
	return t
}

// memoryOnly: the fields of this package's types that hold a record which is never written to disk, because the
// function that makes the object gives it the file name "none".
func (c *Check) memoryOnly() map[string]bool {
	out := map[string]bool{}
	st := c.p.namedType(sigPkg, "SignState")
	h := &Hooks{}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		t := derefT(fn.Signature.Results().At(0).Type())
		u := structOf(t)
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); types.Identical(f.Type(), st) && len(res) > 0 {
				a := mkFieldAddr(res[0], i, t)
				if s.facts.eq(s.get(a, st, "filePath"), mkStr("none")) {
					out[a.name] = true
				}
			}
		}
	}
	var fns []*ssa.Function
	for _, f := range c.p.fns {
		r := f.Signature.Results()
		if f.Parent() != nil || fnPkg(f) != sigPkg || r.Len() != 1 || !isPointerT(r.At(0).Type()) || f.Blocks == nil {
			continue
		}
		if u := structOf(derefT(r.At(0).Type())); u != nil {
			for i := 0; i < u.NumFields(); i++ {
				if types.Identical(u.Field(i).Type(), st) {
					fns = append(fns, f)
					break
				}
			}
		}
	}
	if len(fns) > 0 {
		c.explore(h, fns, nil)
	}
	return out
}

// enterRecord and coveredReturn note that a record which is kept on disk was found to be at an offered position.
func (s *State) enterRecord(fn *ssa.Function, args []*Term) {
	if r := fn.Signature.Recv(); r != nil && typeName(r.Type()) == "*"+ssT && len(args) > 0 {
		s.mon["own:ss"] = args[0]
	}
}

func (s *State) coveredReturn(res []*Term, volatile map[string]bool) {
	for _, r := range res {
		if r.op == OIface && typeName(r.typ) == "*"+sigPkg+".SameHRSError" {
			if b := s.mon["own:ss"]; b == nil || b.op != OFieldAddr || !volatile[b.name] {
				s.mon["own:covered"] = tTrue
			}
		}
	}
}

func c03(c *Check) {
	volatile := c.memoryOnly()
	disk := c.rule("a changed record is on disk before the change is acknowledged", 4)
	cover := c.rule("a new signature is handed out only if its position is recorded", 3)
	content := c.rule("what is written is the record as it is, to its own file", 1)
	atomic := c.rule("state files are only replaced atomically", 1)
	h := &Hooks{}
	name := func(fn *ssa.Function) string { return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "") }
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		eachStore(addr, val, 0, func(a, v *Term) {
			cl, base := fieldOf(a)
			if !strings.HasPrefix(cl, ssT+".") || s.private(rootAddr(base)) || isSuffix(cl, ".cache", ".filePath") {
				return
			}
			s.mon[key("own:dirty", base)] = base
			delete(s.mon, key("own:werr", base))
		})
	}
	st := c.p.namedType(sigPkg, "SignState")
	h.After = func(s *State, k *Call, res *Term) {
		if k.name != writeAtomic {
			if isFileWrite(k.name) {
				t := s.content(k.arg(0))
				bad := t.op == OLoad && t.args[0].name == ssT+".filePath" || s.reaches(k.args[1:], func(x *Term) bool { return isStateDoc(c, x) }) != nil
				c.judge(s, atomic, c.site(k.instr, k.name), k.instr, !bad, "a last-signed record is written by "+k.name+", which is not an atomic replacement")
			}
			return
		}
		doc := s.content(k.arg(1))
		if !isStateDoc(c, doc) {
			return
		}
		rec := doc.args[0]
		for rec.op == OApp && rec.name == "deref" {
			rec = rec.args[0]
		}
		found := false
		for _, b := range s.signStates() {
			path := s.get(b, st, "filePath")
			if !s.facts.eqDeep(s.content(k.arg(0)), path) {
				continue
			}
			same := true
			for _, f := range append([]string{"EphemeralPublic"}, recFields...) {
				if s.content(part(rec, st, f)) != s.content(s.get(b, st, f)) {
					same = false
				}
			}
			if same {
				found = true
				s.mon[key("own:werr", b)] = res
			}
		}
		c.judge(s, content, c.site(k.instr, "state file"), k.instr, found, "the written content or file name is not that of the record")
		c.judge(s, atomic, c.site(k.instr, k.name), k.instr, true, "")
	}
	// when the critical section ends
	clean := func(s *State, b *Term) (bool, string) {
		if s.facts.eq(s.get(b, st, "filePath"), mkStr("none")) {
			return true, ""
		}
		e := s.mon[key("own:werr", b)]
		if e == nil {
			return false, "the changed record has not been written to its state file"
		}
		if !s.facts.isNil(e) {
			return false, "a failure to write the state file is not noticed"
		}
		return true, ""
	}
	settle := func(s *State) {
		for _, k := range s.monKeys("own:dirty:") {
			if !strings.HasSuffix(k, ":late") {
				b := s.mon[k]
				ok, why := clean(s, b)
				if !ok {
					s.mon["own:unsaved"] = mkStr(why)
				} else if b.op != OFieldAddr || !volatile[b.name] {
					s.mon["own:saved"] = tTrue
				}
				delete(s.mon, k)
				delete(s.mon, key("own:werr", b))
			}
		}
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) { settle(s) }
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) {
		s.coveredReturn(res, volatile)
	}
	h.Enter = func(s *State, fn *ssa.Function, args []*Term) { s.enterRecord(fn, args) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		any := len(s.monKeys("own:dirty:")) > 0 || s.mon["own:saved"] != nil || s.mon["own:unsaved"] != nil
		settle(s)
		ack := succeeded(s, fn, res)
		if any {
			w := s.mon["own:unsaved"]
			why := ""
			if w != nil {
				why, _ = w.strVal()
			}
			c.judge(s, disk, name(fn), nil, w == nil || !ack, why)
		}
		if !ack {
			return
		}
		if t := s.reaches(res, func(t *Term) bool { return isApp(t, signShareFn, tsPkg+".CombineShares") }); t != nil {
			ok := s.mon["own:saved"] != nil || s.mon["own:covered"] != nil
			if !ok && isApp(t, signShareFn) {
				if pos, _, known := c.position(s, t.args[0]); known {
					for _, b := range s.signStates() {
						ok = ok || tripleEq(s, pos, c.watermark(s, b))
					}
				}
			}
			c.judge(s, cover, name(fn), nil, ok, "a new signature is handed out although nothing was recorded for it")
		}
	}
	c.explore(h, c.p.roots(), nil)
}

func isFileWrite(n string) bool {
	switch n {
	case "io/ioutil.WriteFile", "os.WriteFile", "os.Create", "os.OpenFile", "os.File.Write", "os.File.WriteString", "io.WriteString":
		return true
	}
	return false
}

// isStateDoc: the JSON form of a last-signed record.
func isStateDoc(c *Check, t *Term) bool {
	if t == nil || t.op != OApp || !strings.Contains(t.name, "json.Marshal") {
		return false
	}
	a := t.args[0]
	for a.op == OApp && a.name == "deref" || a.op == OIface {
		a = a.args[0]
	}
	return a.typ != nil && structName(derefT(a.typ)) == ssT
}

func c04(c *Check) {
	same := c.rule("bytes at the last signed position are signed only if nothing but the timestamp differs", 1)
	cached := c.rule("a recorded signature is handed out only for the recorded bytes", 1)
	h := &Hooks{}
	st := c.p.namedType(sigPkg, "SignState")
	h.Call = func(s *State, k *Call) {
		if k.name != signShareFn {
			return
		}
		m := s.content(k.arg(0))
		n := c.site(k.instr, "SignWithShare")
		pos, _, ok := c.position(s, m)
		if !ok {
			c.judge(s, same, n, k.instr, false, "bytes of unknown kind are signed")
			return
		}
		owner := rootAddr(s.keyOf(k.arg(1)))
		ok, why := false, "no last-signed record is consulted"
		for _, b := range s.signStates() {
			if b.op == OLoad && rootAddr(b.args[0]) != owner || b.op == OAlloc {
				continue
			}
			if !tripleMayEq(s, pos, c.watermark(s, b)) {
				ok = true
				break
			}
			old := s.content(s.get(b, st, "SignBytes"))
			if onlyTimestampDiffers(s, c, old, m) {
				ok = true
				break
			}
			why = "different bytes may be signed at the position that was signed last: they are not known to differ in the timestamp only"
		}
		c.judge(s, same, n, k.instr, ok, why)
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if !succeeded(s, fn, res) || !strings.Contains(fn.RelString(nil), "osigner") {
			return
		}
		t := s.reaches(res, func(t *Term) bool { return t.op == OLoad && t.args[0].name == ssT+".Signature" })
		if t == nil {
			return
		}
		base := t.args[0].args[0]
		ok := false
		for f, v := range s.facts.truth {
			if v && f.op == OApp && f.name == "bytes.Equal" {
				for i := 0; i < 2; i++ {
					a, b := f.args[i], f.args[1-i]
					if a.op == OLoad && a.args[0].name == ssT+".SignBytes" && a.args[0].args[0] == base && a.args[1] == t.args[1] && (b == tNil || fromParams(fn, b)) {
						ok = true
					}
				}
			}
		}
		c.judge(s, cached, strings.ReplaceAll(fn.RelString(nil), modPath+"/", ""), nil, ok, "the recorded signature is returned for bytes that are not known to equal the recorded ones")
	}
	c.explore(h, c.p.roots(), nil)
}

// fromParams: the value is (part of) a parameter of the entry point.
func fromParams(fn *ssa.Function, t *Term) bool {
	ok := false
	for _, l := range t.leaves() {
		if strings.HasPrefix(l.name, "param:"+fn.String()+".") {
			ok = true
		}
	}
	return ok
}

// onlyTimestampDiffers: the two decode to messages that were found equal with nothing but the timestamp overridden.
func onlyTimestampDiffers(s *State, c *Check, old, new *Term) bool {
	if old == new {
		return true
	}
	for f, v := range s.facts.truth {
		if !v || f.op != OApp {
			continue
		}
		if f.name == "bytes.Equal" && (f.args[0] == old && f.args[1] == new || f.args[0] == new && f.args[1] == old) {
			return true
		}
		if f.name != "proto.Equal" && f.name != "reflect.DeepEqual" || len(f.args) != 2 {
			continue
		}
		a, b := f.args[0], f.args[1]
		for a.op == OApp && a.name == "deref" {
			a = a.args[0]
		}
		for b.op == OApp && b.name == "deref" {
			b = b.args[0]
		}
		for _, kind := range []string{"CanonicalProposal", "CanonicalVote"} {
			if messageOf(s, c, kind, a, old) && messageOf(s, c, kind, b, new) || messageOf(s, c, kind, a, new) && messageOf(s, c, kind, b, old) {
				return true
			}
		}
	}
	return false
}

// messageOf: v is what m decodes to, in all fields but the timestamp.
func messageOf(s *State, c *Check, kind string, v, m *Term) bool {
	d, er := c.decTerms(kind, m)
	if d == nil || !s.facts.isNil(er) {
		return false
	}
	if v == d {
		return true
	}
	st := structOf(d.typ)
	if !types.Identical(typOr(v), d.typ) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Timestamp" {
			continue
		}
		x, y := mkField(v, i, d.typ), mkField(d, i, d.typ)
		if x != y && s.content(x) != s.content(y) && s.content(x) != y {
			return false
		}
	}
	return true
}
