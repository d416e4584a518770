package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C20", c20) }

const (
	ckT     = sigPkg + ".CosignerKey"
	rcT     = sigPkg + ".RemoteCosigner"
	peerT   = sigPkg + ".CosignerPeer"
	genKey  = "crypto/rsa.GenerateKey#0"
	jsonEnc = "encoding/json.Marshal"
)

// jsonPart is what a struct value has under a name in JSON (fields of embedded structs included, outer ones first).
func (s *State) jsonPart(v *Term, t types.Type, name string) *Term {
	type level struct {
		v   *Term
		t   types.Type
		ptr bool
	}
	cur := []level{{v, t, false}}
	for d := 0; d < 4 && len(cur) > 0; d++ {
		var next []level
		var found []*Term
		for _, l := range cur {
			st := structOf(l.t)
			if st == nil {
				continue
			}
			field := func(i int) *Term {
				if l.ptr {
					return s.load(mkFieldAddr(l.v, i, l.t), st.Field(i).Type())
				}
				return mkField(l.v, i, l.t)
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
				if f.Embedded() && tag == "" {
					ft := f.Type()
					x := level{field(i), ft, false}
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						x.t, x.ptr = p.Elem(), true
						if isApp(x.v, "deref") { // passed by content
							x.v, x.ptr = x.v.args[0], false
						} else if decodedJSON(x.v) != nil {
							x.v, x.ptr = mkApp("deref", x.t, x.v), false
						}
					}
					if structOf(x.t) != nil {
						next = append(next, x)
						continue
					}
				}
				if n := jsonName(st, i); n == name {
					found = append(found, field(i))
				}
			}
		}
		if len(found) == 1 {
			return found[0]
		}
		if len(found) > 1 {
			return nil
		}
		cur = next
	}
	return nil
}

// ownJSON: the type (or an embedded one) has a JSON form of its own.
func ownJSON(t types.Type) bool {
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(derefT(t)), true, nil, m)
		if _, ok := o.(*types.Func); ok {
			return true
		}
	}
	return false
}

func decodeErr(dec *Term) *Term {
	return mkApp(strings.Replace(dec.name, "decoded:", "decodeErr:", 1), errT, dec.args...)
}

// errPart is the error that was returned together with the first result.
func errPart(t *Term) *Term {
	if t.op == OSym {
		n := *t
		n.name, n.typ = strings.TrimSuffix(t.name, "#0")+"#1", errT
		return intern(n)
	}
	return mkApp(strings.TrimSuffix(t.name, "#0")+"#1", errT, t.args...)
}

// decodedJSON: the decoded document a value was taken from.
func decodedJSON(v *Term) *Term {
	var hit *Term
	if v != nil {
		v.walk(func(u *Term) bool {
			if u.op == OApp && strings.HasPrefix(u.name, "decoded:json:") {
				hit = u
			}
			return hit == nil
		})
	}
	return hit
}

// namedBy: the text t contains the number id itself, not something that is calculated from it.
func namedBy(t, id *Term) bool {
	if t == id {
		return true
	}
	if t == nil || t.op == OApp && t.typ != nil && isInteger(t.typ) && !strings.HasPrefix(t.name, "conv:") {
		return false
	}
	for _, a := range t.args {
		if namedBy(a, id) {
			return true
		}
	}
	return false
}

func c20(c *Check) {
	pairs := c.rule("every dealt key has the ID, share and RSA key of one index, the RSA public keys in the order of the IDs and the validator's public key", 1)
	files := c.rule("every key is written to a file of its own, named by its ID, and a failed write is an error", 2)
	look := c.rule("where a cosigner starts, a peer's RSA key is looked up by the ID it is used under, and its address goes with its ID", 2)
	enc := c.rule("the writer of key files encodes every field of the key", 5)
	dec := c.rule("the reader of key files decodes every field from where the writer puts it, and fails if it cannot", 5)
	kt := c.p.namedType(sigPkg, "CosignerKey")
	pt := c.p.namedType(sigPkg, "CosignerPeer")
	rsaT := c.p.namedType("crypto/rsa", "PrivateKey")
	if rsaT == nil {
		if _, t := lookField(kt, "RSAKey"); t != nil {
			rsaT, _ = t.(*types.Named)
		}
	}

	isKeys := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && typeName(sl.Elem()) == ckT
	}
	jn := map[string]string{} // field -> name in JSON
	if st := structOf(kt); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			jn[st.Field(i).Name()] = jsonName(st, i)
		}
	}

	paired := func(s *State, list *Term, in ssa.Instruction) string {
		why := ""
		s.every(list, in, func(s *State, i *Term) bool {
			a, _ := s.elemAddr(list, i)
			f := func(n string) *Term { return s.get(a, kt, n) }
			idx := plus(f("ID"), -1)
			sh := loadAddr(f("ShareKey"))
			switch {
			case sh == nil || sh.op != OIndexAddr || !isApp(sh.args[0], "DealShares"):
				why = "the share is not one that was dealt"
			case !(sh.args[1] == idx || s.facts.eq(sh.args[1], idx)):
				why = "the share is not that of the ID"
			}
			if why != "" {
				return false
			}
			// the shares are of the private key that goes with the public key
			_, owner := fieldOf(loadAddr(f("PubKey")))
			pub := f("PubKey")
			ok := s.reaches([]*Term{sh.args[0].args[0]}, func(u *Term) bool {
				if fieldNameOf(u) != "PrivKey" {
					return false
				}
				if u.op == OField {
					return pub.op == OField && pub.args[0] == u.args[0] && fieldNameOf(pub) == "PubKey"
				}
				_, o := fieldOf(loadAddr(u))
				return o != nil && o == owner && fieldNameOf(pub) == "PubKey"
			}) != nil
			if !ok {
				why = "the public key is not that of the key that was shared"
				return false
			}
			ofKey := func(u, i *Term) bool { // the i-th generated key
				return isApp(u, "at") && strings.Contains(u.args[0].name, "rsa.GenerateKey") && (u.args[1] == i || s.facts.eq(u.args[1], i)) ||
					isApp(u, genKey) && u.contains(i)
			}
			var gen *Term
			s.reach(f("RSAKey"), func(u *Term) {
				if (isApp(u, "at") || u.op == OSym) && strings.Contains(u.String(), "rsa.GenerateKey") && gen == nil {
					gen = u
				}
			})
			if gen == nil || !ofKey(gen, idx) || !s.copied(f("RSAKey"), gen, rsaT) {
				why = "the RSA key is not that of the ID"
				return false
			}
			ck := f("CosignerKeys")
			full := s.every(ck, in, func(s *State, j *Term) bool {
				x, et := s.elemAddr(ck, j)
				p := s.load(x, et)
				return p.op == OFieldAddr && p.name == "crypto/rsa.PrivateKey.PublicKey" && ofKey(p.args[0], j) && p.args[0].args[0] == gen.args[0]
			})
			if !full || s.facts.possible(s.lenOf(ck), s.lenOf(sh.args[0])) != EQ {
				why = "the public keys are not those of all cosigners in the order of their IDs"
				return false
			}
			return true
		})
		return why
	}

	keyOf := func(s *State, data *Term) *Term { // the key whose encoding is written
		var k *Term
		s.reach(data, func(u *Term) {
			if k == nil && (u.op == OStruct || u.op == OLoad || u.op == OField || u.op == OSym) && typeName(typOr(u)) == ckT {
				k = u
			}
		})
		return k
	}
	written := func(id *Term) *Term { return mkApp("written", types.Typ[types.Bool], id) }
	noErr := func(s *State, in ssa.Instruction) {
		if e := s.mon["own:werr"]; e != nil {
			c.judge(s, files, rel(s.e.root)+" error", in, s.facts.isNil(e), "the command goes on although a key file may not have been written")
			delete(s.mon, "own:werr")
		}
	}
	h := &Hooks{}
	h.Call = func(s *State, k *Call) {
		if strings.HasPrefix(k.name, jsonEnc) {
			_, t := unIface(k.arg(0))
			if t != nil && typeName(derefT(t)) == ckT {
				c.judge(s, enc, c.site(k.instr, "encoding"), k.instr, isPointerT(t), "the key's own encoding is not used for a key that is not passed by reference")
			}
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		if strings.HasSuffix(k.name, ".ReadFile") {
			s.mon["own:path"], s.mon["own:rerr"] = s.content(k.arg(0)), resAt(res, 1)
		}
		if !isFileWrite(k.name) || k.inline {
			return
		}
		var data, path *Term
		for i, a := range k.args {
			if i == 0 {
				path = s.content(a)
			} else if data == nil && s.reaches([]*Term{a}, func(u *Term) bool { return typeName(typOr(u)) == ckT }) != nil {
				data = s.content(a)
			}
		}
		if data == nil {
			return
		}
		noErr(s, k.instr)
		key := keyOf(s, data)
		why := ""
		if key == nil || !isApp(data, jsonEnc+"#0") {
			why = "what is written is not the encoding of a key"
		} else if !s.facts.isNil(errPart(data)) {
			why = "what is written may not have been encoded"
		}
		if isCommand(s.e.root) && why == "" {
			id := part(key, kt, "ID")
			if !namedBy(path, id) {
				why = "the file is not named by the ID of the key, so that two keys may go to one file"
			}
			s.facts.assume(written(id), true)
		}
		c.judge(s, files, c.site(k.instr, "write"), k.instr, why == "", why)
		if e := resAt(res, 0); e != nil && isErrorType(typOr(e)) {
			s.mon["own:werr"] = e
		} else if e := resAt(res, 1); e != nil {
			s.mon["own:werr"] = e
		}
	}
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) {
		if len(res) > 0 && isKeys(typOr(res[0])) && isCommand(s.e.root) && s.facts.isNil(errOf(fn, res)) {
			s.mon["own:keys"] = res[0]
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		cl, base := fieldOf(addr)
		switch cl {
		case lcT + ".key":
			s.mon["own:"+cl] = val
		case rcT + ".id", rcT + ".address":
			s.mon["own:"+cl] = unconv(val)
			id, ad := s.mon["own:"+rcT+".id"], s.mon["own:"+rcT+".address"]
			if s.mon["own:rc"] != base || id == nil || ad == nil {
				s.mon["own:rc"] = base
				if len(s.mon) > 0 { // the other one belongs to another object
					for _, o := range []string{".id", ".address"} {
						if n := "own:" + rcT + o; n != "own:"+cl {
							delete(s.mon, n)
						}
					}
				}
				return
			}
			c.judge(s, look, c.site(in, "remote cosigner"), in, oneEntry(id, ad), "the address of a peer is not the one configured together with its ID")
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		noErr(s, in)
		delete(s.mon, "own:rc")
	}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok || v == nil || typeName(mt.Elem()) != peerT {
			return
		}
		own := s.mon["own:"+lcT+".key"]
		if own == nil {
			return
		}
		why := ""
		id := part(v, pt, "ID")
		mine := part(own, kt, "ID")
		pub := part(v, pt, "PublicKey")
		if id != k && !s.facts.eq(id, k) {
			why = "the peer is stored under another ID"
		} else if id == mine || s.facts.eq(id, mine) {
			if !s.sameVal(pub, part(part(own, kt, "RSAKey"), rsaT, "PublicKey")) {
				why = "the cosigner's own RSA key is not the one of its key file"
			}
		} else {
			list := part(own, kt, "CosignerKeys")
			a, et := s.elemAddr(list, plus(id, -1))
			p := s.load(a, et)
			if !s.sameVal(pub, s.load(p, derefT(et))) {
				why = "the RSA key is not the one that belongs to the peer's ID"
			}
		}
		c.judge(s, look, c.site(in, "peer"), in, why == "", why)
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if e := errOf(fn, res); e != nil && s.facts.isNonNil(e) {
			return
		}
		in := fn.Blocks[0].Instrs[0]
		switch {
		case fn.Name() == "MarshalJSON":
			c.encodes(s, enc, fn, res, kt, jn)
		case fn.Name() == "UnmarshalJSON":
			c.decodes(s, dec, fn, res, kt, jn)
		case len(res) == 2 && typeName(typOr(res[0])) == ckT || fn.Signature.Results().Len() == 2 && typeName(fn.Signature.Results().At(0).Type()) == ckT:
			d := decodedJSON(res[0])
			ok := d != nil && s.facts.isNil(decodeErr(d)) && s.facts.isNil(errOf(fn, res))
			if ok {
				f := d.args[0]
				ok = f.op == OSym && strings.HasSuffix(f.name, "ReadFile#0") && s.facts.isNil(errPart(f)) && s.mon["own:path"] == s.content(paramSym(fn, fn.Params[0]))
			}
			c.judge(s, dec, rel(fn), in, ok, "a key is returned that may not be the one in the file")
		case len(res) == 2 && isKeys(fn.Signature.Results().At(0).Type()):
			c.judge(s, pairs, rel(fn), in, paired(s, res[0], in) == "", paired(s, res[0], in))
		case isCommand(fn):
			noErr(s, in)
			if l := s.mon["own:keys"]; l != nil {
				ok := s.every(l, in, func(s *State, i *Term) bool {
					a, _ := s.elemAddr(l, i)
					return s.facts.truthOf(written(s.get(a, kt, "ID"))) == 1
				})
				c.judge(s, files, rel(fn)+" all", in, ok, "the command succeeds although a dealt key may not have been written")
			}
		default:
			if e := s.mon["own:werr"]; e != nil {
				c.judge(s, files, rel(fn)+" error", in, s.facts.isNil(e), "success is reported although the key file may not have been written")
			}
		}
	}
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fs ...*ssa.Function) {
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				roots = append(roots, f)
			}
		}
	}
	add(c.p.rootsNamed(ckT+".MarshalJSON", ckT+".UnmarshalJSON")...)
	for _, f := range c.p.roots() {
		rs := f.Signature.Results()
		if rs.Len() == 2 && isErrorType(rs.At(1).Type()) && fnPkg(f) == sigPkg &&
			(typeName(rs.At(0).Type()) == ckT || isKeys(rs.At(0).Type())) {
			add(f)
		}
		if ps := f.Signature.Params(); ps.Len() > 0 && typeName(derefT(ps.At(0).Type())) == ckT && c.p.mentions(f, func(in ssa.Instruction) bool {
			cl, ok := in.(*ssa.Call)
			return ok && cl.Call.StaticCallee() != nil && isFileWrite(cl.Call.StaticCallee().String())
		}) {
			add(f)
		}
	}
	add(c.p.commandsReaching(c.p.callsTo(tsPkg + ".DealShares"))...)
	add(c.p.rootsStoring(lcT + ".key")...)
	c.explore(h, roots, nil)
}

// oneEntry: both are fields of one element (of the configuration).
func oneEntry(a, b *Term) bool {
	if a.op == OField && b.op == OField {
		return a.args[0] == b.args[0]
	}
	_, x := fieldOf(loadAddr(a))
	_, y := fieldOf(loadAddr(b))
	return x != nil && x == y
}

func (c *Check) encodes(s *State, rule string, fn *ssa.Function, res []*Term, kt types.Type, jn map[string]string) {
	in := fn.Blocks[0].Instrs[0]
	self := paramSym(fn, fn.Params[0])
	out := res[0]
	if !isApp(out, jsonEnc+"#0") {
		c.judge(s, rule, rel(fn), in, false, "what is returned is not a JSON document")
		return
	}
	doc := s.content(out.args[0])
	if isApp(doc, "deref") {
		doc = doc.args[0]
	}
	t := typOr(doc)
	if ownJSON(t) || structOf(t) == nil {
		c.judge(s, rule, rel(fn), in, false, "the document has a JSON form of its own, which this analysis does not follow")
		return
	}
	ok := errOf(fn, res) != nil && (s.facts.isNil(errOf(fn, res)) || errOf(fn, res) == errPart(out))
	c.judge(s, rule, rel(fn), in, ok, "a document may be returned that could not be encoded")
	for f, n := range jn {
		v := s.jsonPart(doc, t, n)
		want := s.get(self, kt, f)
		ok := v != nil
		switch f {
		case "RSAKey":
			ok = ok && isApp(v, "crypto/x509.MarshalPKCS1PrivateKey") && s.sameContent(v.args[0], self, kt, f)
		case "PubKey":
			a := inner(v, "PublicKey.Marshal#0")
			ok = a != nil && s.facts.isNil(errPart(v))
			if ok {
				b := inner(drop(a), "PubKeyToProto#0")
				ok = b != nil && s.facts.isNil(errPart(drop(a))) && s.sameVal(b, want)
			}
		case "CosignerKeys":
			if isApp(v, "bytes") && v == s.content(v.args[0]) {
				v = v.args[0] // a list that was made and filled in
			}
			ok = ok && s.sameLen(v, want) && (s.sameLen(v, tNil) || s.every(v, in, func(s *State, i *Term) bool {
				a, et := s.elemAddr(v, i)
				b, bt := s.elemAddr(want, i)
				x := s.load(a, et)
				return isApp(x, "crypto/x509.MarshalPKCS1PublicKey") && s.sameVal(drop(x.args[0]), s.load(s.load(b, bt), derefT(bt)))
			}))
		default:
			ok = ok && s.sameVal(v, want)
		}
		c.judge(s, rule, f, in, ok, "the field "+f+" of the key is not what is written under its name")
	}
}

// sameContent: v is the content of what the field of base is or points to.
func (s *State) sameContent(v, base *Term, t types.Type, field string) bool {
	a, _ := fieldAddr(base, t, field)
	return a != nil && (v == s.content(a) || s.sameVal(drop(v), drop(s.content(a))))
}

func (s *State) sameLen(a, b *Term) bool {
	x, y := s.lenOf(a), s.lenOf(b)
	if a.typ == nil {
		x = mkInt(0)
	}
	zero := func(t, n *Term) bool {
		return s.isEmpty(t) || t.op == OZero || isApp(t, "zeros") || s.facts.possible(n, mkInt(0)) == EQ || s.facts.isNil(t)
	}
	return s.facts.possible(x, y) == EQ || (a.typ == nil || zero(a, x)) && zero(b, y)
}

// copied: v is the struct that p points to, of type t.
func (s *State) copied(v, p *Term, t types.Type) bool {
	if st := expandable(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if !s.copied(mkField(v, i, t), mkFieldAddr(p, i, t), st.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return loadAddr(v) == p || s.sameVal(v, s.load(p, t))
}

func drop(t *Term) *Term {
	if isApp(t, "deref") {
		return t.args[0]
	}
	return t
}

// inner is the argument of a call of a function with this name.
func inner(t *Term, suffix string) *Term {
	if t != nil && t.op == OApp && strings.HasSuffix(t.name, suffix) && len(t.args) > 0 {
		return t.args[0]
	}
	return nil
}

func (c *Check) decodes(s *State, rule string, fn *ssa.Function, res []*Term, kt types.Type, jn map[string]string) {
	in := fn.Blocks[0].Instrs[0]
	self := paramSym(fn, fn.Params[0])
	data := s.content(paramSym(fn, fn.Params[1]))
	doc := decodedJSON(s.get(self, kt, "ID"))
	ok := doc != nil && s.facts.isNil(errOf(fn, res))
	if ok {
		d := s.content(doc.args[0])
		ok = (d == data || d == paramSym(fn, fn.Params[1])) && s.facts.isNil(decodeErr(doc))
	}
	c.judge(s, rule, rel(fn), in, ok, "success is reported although the file may not have been decoded")
	if !ok {
		return
	}
	t := typOr(doc)
	v := doc
	for isPointerT(t) {
		t = derefT(t)
	}
	if isPointerT(typOr(doc)) {
		v = mkApp("deref", t, doc)
	}
	if ownJSON(t) {
		c.judge(s, rule, rel(fn), in, false, "the document has a JSON form of its own, which this analysis does not follow")
		return
	}
	for f, n := range jn {
		src := s.jsonPart(v, t, n)
		_, ft := lookField(kt, f)
		got := s.get(self, kt, f)
		ok := src != nil
		switch f {
		case "RSAKey":
			if ok {
				p := mkApp("crypto/x509.ParsePKCS1PrivateKey#0", types.NewPointer(ft), s.content(src))
				ok = s.facts.isNil(errPart(p)) && s.copied(got, p, ft)
			}
		case "PubKey":
			ok = ok && c.publicKey(s, got, s.content(src))
		case "CosignerKeys":
			ok = ok && s.sameLen(got, src) && s.every(got, in, func(s *State, i *Term) bool {
				a, et := s.elemAddr(got, i)
				b, bt := s.elemAddr(src, i)
				s.instantiate(src, i)
				p := s.load(a, et)
				return isApp(p, "crypto/x509.ParsePKCS1PublicKey#0") && s.content(p.args[0]) == s.content(s.load(b, bt)) && s.facts.isNil(errPart(p))
			})
		default:
			ok = ok && s.sameVal(got, src)
		}
		c.judge(s, rule, f, in, ok, "the field "+f+" of the key may not be what the file has under its name")
	}
}

// publicKey: the key that src encodes, as a protobuf message or, if it is not one, with amino.
func (c *Check) publicKey(s *State, got, src *Term) bool {
	pb := func(u *Term) bool {
		return u.op == OApp && strings.HasPrefix(u.name, "decoded:pb") && s.content(u.args[0]) == src
	}
	if a := inner(got, "PubKeyFromProto#0"); a != nil {
		d := s.reaches([]*Term{a}, pb)
		return d != nil && s.facts.isNil(decodeErr(d)) && s.facts.isNil(errPart(got))
	}
	x, _ := unIface(got)
	d := s.reaches([]*Term{x}, func(u *Term) bool {
		return u.op == OApp && strings.HasPrefix(u.name, "decoded:") && s.content(u.args[0]) == src
	})
	return d != nil && s.facts.isNil(decodeErr(d)) && s.failedProto(src)
}

// failedProto: the bytes are known not to be a protobuf message.
func (s *State) failedProto(src *Term) bool {
	for _, p := range s.facts.pairs() {
		for _, x := range []*Term{p.a, p.b} {
			if x.op == OApp && strings.HasPrefix(x.name, "decodeErr:pb") && x.args[0] == src && s.facts.isNonNil(x) {
				return true
			}
		}
	}
	return false
}
