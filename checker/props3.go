package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	lcT        = sigPkg + ".LocalCosigner"
	pmT        = sigPkg + ".PeerMetadata"
	hmT        = sigPkg + ".HrsMetadata"
	partT      = sigPkg + ".CosignerEphemeralSecretPart"
	verifyPSS  = "crypto/rsa.VerifyPSS"
	signPSS    = "crypto/rsa.SignPSS"
	encryptOA  = "crypto/rsa.EncryptOAEP"
	decryptOA  = "crypto/rsa.DecryptOAEP"
	scalarBase = tsPkg + ".ScalarMultiplyBase"
)

func init() {
	register("C10", c10)
	register("C11", c11)
	register("C12", c12)
}

// elemsIn lists the elements a slice is known to consist of; ok is false if there may be others.
func (s *State) elemsIn(t *Term) (out []*Term, ok bool) {
	ok = true
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		t = s.content(t)
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t == tNil || t.op == OZero || s.isEmpty(t) || isApp(t, "zeros") && t.args[0] == mkInt(0):
		case t.op == OAppend:
			visit(t.args[0])
			for _, a := range t.args[1:] {
				if a.op == OSpread {
					visit(a.args[0])
				} else {
					out = append(out, a)
				}
			}
		case t.op == OColl:
			for _, a := range t.args {
				if a.op == OSpread {
					visit(a.args[0])
				} else {
					out = append(out, a)
				}
			}
		case t.op == OTuple:
			out = append(out, t.args...)
		case t.op == OStruct:
			if _, isArr := t.typ.Underlying().(*types.Array); isArr {
				out = append(out, t.args...)
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	visit(t)
	return out, ok
}

// slot splits the address of a list element.
func slot(a *Term) (list, idx *Term) {
	if a == nil || a.op != OIndexAddr {
		return nil, nil
	}
	return a.args[0], a.args[1]
}

// idSlot: idx is where the entry of the cosigner with this ID is.
func idSlot(s *State, idx, id *Term) bool {
	if idx == nil || id == nil {
		return false
	}
	if s.facts.eq(idx, plus(id, -1)) || s.facts.eq(plus(idx, 1), id) {
		return true
	}
	b, n := splitAdd(idx)
	return s.facts.eq(plus(peerID(b), n+1), peerID(id))
}

// peerID: the ID of an entry of the table of cosigners is the key it is kept under (C20 decides that).
func peerID(t *Term) *Term {
	if t != nil && t.op == OField && isApp(t.args[0], "mapget") && fieldNameOf(t) == "ID" && typeName(typOr(t.args[0])) == sigPkg+".CosignerPeer" {
		return peerID(t.args[0].args[2])
	}
	return t
}

func plus(t *Term, n int64) *Term {
	b, o := splitAdd(t)
	return mkAddC(b, o+n, typOr(t))
}

// appArg strips tuple projections: t is what a call of this function returned first.
func appArgs(t *Term, name string) []*Term {
	if isApp(t, name) {
		return t.args
	}
	return nil
}

// digestOf: the struct whose encoding was hashed.
func digestOf(s *State, d *Term) *Term {
	d = s.content(d)
	if d != nil && d.op == OSlice {
		d = s.content(d.args[0])
	}
	if !isApp(d, "crypto/sha256.Sum256") {
		return nil
	}
	m := s.content(d.args[0])
	if m == nil || m.op != OApp || !strings.Contains(m.name, ".Marshal") {
		return nil
	}
	x := deref(m.args[0])
	return x
}

// covers: the encoded value contains all of these values.
func covers(s *State, x *Term, vals ...*Term) bool {
	if x == nil {
		return false
	}
	st := structOf(typOr(x))
	if st == nil {
		return false
	}
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := mkField(x, i, typOr(x))
		fs = append(fs, f, s.content(f))
	}
	for _, v := range vals {
		hit := false
		for _, f := range fs {
			if f == v || f == s.content(v) {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// peerEntry: k is the public key of the cosigner registered under an ID; returns that ID.
func (c *Check) peerEntry(s *State, k *Term) (id, m *Term) {
	k = s.content(k)
	for k != nil && k.op == OApp && k.name == "deref" {
		k = k.args[0]
	}
	e := k
	for e != nil && e.op == OField {
		e = e.args[0]
	}
	if e == nil || !isApp(e, "mapget") || e == k {
		return nil, nil
	}
	mt, ok := typOr(e.args[0]).Underlying().(*types.Map)
	if !ok || typeName(mt.Elem()) != sigPkg+".CosignerPeer" {
		return nil, nil
	}
	return peerID(e.args[2]), e
}

// metaOf: the position under which the metadata a list of peers belongs to is kept.
func (c *Check) metaOf(s *State, list *Term) *Term {
	if list == nil {
		return nil
	}
	if list.op == OField && isApp(list.args[0], "mapget") {
		return list.args[0].args[2]
	}
	return s.mon[key("meta", list)]
}

func isMetaMap(m *Term) bool {
	mt, ok := typOr(m).Underlying().(*types.Map)
	return ok && typeName(mt.Key()) == sigPkg+".HRSTKey" && typeName(mt.Elem()) == hmT
}

// noteMeta remembers under which position new metadata is kept.
func (c *Check) noteMeta(s *State, m, k, v *Term, in ssa.Instruction) {
	if v == nil || !isMetaMap(m) {
		return
	}
	t := c.p.namedType(sigPkg, "HrsMetadata")
	for _, f := range []string{"Peers", "DealtShares", "Secret"} {
		if x := part(v, t, f); x != nil && x != tNil {
			if x.op != OField {
				s.mon[key("meta", x)] = k
			}
			if y := s.content(x); y != x && y.op != OField {
				s.mon[key("meta", y)] = k
			}
		}
	}
}

func (c *Check) keyEq(s *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	t := c.p.namedType(sigPkg, "HRSTKey")
	for _, f := range []string{"Height", "Round", "Step", "Timestamp"} {
		if !s.facts.eq(part(a, t, f), part(b, t, f)) {
			return false
		}
	}
	return true
}

// requestPosition remembers the position a request to the local cosigner is for.
func (c *Check) requestPosition(s *State, fn *ssa.Function, args []*Term) {
	if s.e.root != fn {
		return
	}
	for i, p := range fn.Params {
		switch typeName(p.Type()) {
		case sigPkg + ".HRSTKey":
			s.mon["reqpos"] = args[i]
		case sigPkg + ".CosignerSetEphemeralSecretPartsAndSignRequest":
			s.mon["reqpos"] = part(args[i], p.Type(), "HRST")
		}
	}
	if len(fn.Params) > 0 {
		s.mon["self"] = args[0]
	}
}

func (c *Check) ownID(s *State) *Term {
	a, kt := fieldAddr(s.mon["self"], c.p.namedType(sigPkg, "LocalCosigner"), "key")
	if a == nil {
		return nil
	}
	return s.get(a, kt, "ID")
}

func (c *Check) cosignerRoots() []*ssa.Function {
	return c.p.rootsNamed(lcT+".SetEphemeralSecretPartsAndSign", lcT+".GetEphemeralSecretParts", lcT+".SaveLastSignedState")
}

func c10(c *Check) {
	auth := c.rule("what is stored for a peer was signed by that peer, a known cosigner, and its share is decrypted from the signed ciphertext", 2)
	slotR := c.rule("it is stored in the slot of the peer that signed it", 2)
	posR := c.rule("it is stored under the position of the request", 2)
	both := c.rule("a share and its ephemeral public key are stored together", 2)
	send := c.rule("a sent part is signed with the own key over source ID, ephemeral public key and ciphertext", 1)
	h := &Hooks{}
	h.Enter = c.requestPosition
	h.MapUpdate = c.noteMeta
	h.After = func(s *State, k *Call, res *Term) {
		if k.name != verifyPSS || !isApp(res, verifyPSS) {
			return
		}
		_, e := c.peerEntry(s, res.args[0])
		if e == nil {
			return
		}
		has := mkApp("maphas", types.Typ[types.Bool], e.args...)
		if v, ok := s.facts.truth[has]; ok && v {
			s.mon[key("vfy", res)] = res
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		eachStore(addr, val, 0, func(a, v *Term) {
			cl, base := fieldOf(a)
			if cl != pmT+".Share" && cl != pmT+".EphemeralSecretPublicKey" {
				return
			}
			f := strings.TrimPrefix(cl, pmT+".")
			list, idx := slot(base)
			if list == nil {
				if !s.private(rootAddr(base)) {
					c.judge(s, slotR, f, in, false, "it is not known whose slot is written")
				}
				return
			}
			if v == tNil || s.facts.isNil(v) {
				return
			}
			s.mon[key("own:w:"+f, base)] = base
			v = s.content(v)
			// our own values
			if idSlot(s, idx, c.ownID(s)) && c.ownValue(s, f, v, list) {
				c.judge(s, posR, f+" (own)", in, s.mon["reqpos"] == nil || c.keyEq(s, c.metaOf(s, list), s.mon["reqpos"]), "our own values are stored under another position than the requested one")
				return
			}
			ok, inSlot := false, false
			why := "no signature over the stored value was verified"
			for _, mk := range s.monKeys("vfy:") {
				r := s.mon[mk]
				if !s.facts.isNil(r) {
					why = "the value is stored although its signature was not found valid"
					continue
				}
				id, _ := c.peerEntry(s, r.args[0])
				x := digestOf(s, r.args[2])
				enc := v
				if f == "Share" {
					d := appArgs(v, decryptOA)
					if d == nil {
						why = "the stored share is not the decryption of the ciphertext sent for it"
						continue
					}
					enc = d[3]
				}
				if !covers(s, x, id, enc) {
					why = "the verified signature does not cover source ID and stored value"
					continue
				}
				ok = true
				inSlot = inSlot || idSlot(s, idx, id)
			}
			c.judge(s, auth, f, in, ok, why)
			if ok {
				c.judge(s, slotR, f, in, inSlot, "the slot is not that of the cosigner whose signature was verified")
			}
			c.judge(s, posR, f, in, s.mon["reqpos"] != nil && c.keyEq(s, c.metaOf(s, list), s.mon["reqpos"]), "it is stored under another position than that of the request")
		})
	}
	settle := func(s *State, in ssa.Instruction) {
		for _, k := range s.monKeys("own:w:") {
			b, other := s.mon[k], "Share"
			if strings.HasPrefix(k, "own:w:Share:") {
				other = "EphemeralSecretPublicKey"
			}
			c.judge(s, both, fnOf(in)+": "+other, in, s.mon[key("own:w:"+other, b)] != nil, "what is stored for a cosigner is not replaced as a whole: its "+other+" may be that of another message")
		}
		s.delMon("own:w:")
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) { settle(s, in) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		c.eachPart(s, fn, res, func(e *Term, known bool) {
			n := rel(fn)
			if !known {
				c.judge(s, send, n, nil, false, "it is not known what is sent")
				return
			}
			t := c.p.namedType(sigPkg, "CosignerEphemeralSecretPart")
			a := appArgs(s.content(part(e, t, "SourceSig")), signPSS)
			ok := a != nil
			why := "what is sent is not signed"
			if ok {
				why = "the signature does not cover source ID, ephemeral public key and ciphertext of what is sent"
				id := part(e, t, "SourceID")
				ok = covers(s, digestOf(s, a[3]), id, s.content(part(e, t, "SourceEphemeralSecretPublicKey")), s.content(part(e, t, "EncryptedSharePart")))
				if ok && !s.facts.eq(id, c.ownID(s)) {
					ok, why = false, "another source ID than the own one is sent"
				}
				if ok && !underField(a[1], s.mon["self"], "rsaKey") {
					ok, why = false, "it is not signed with the own RSA key"
				}
			}
			c.judge(s, send, n, nil, ok, why)
		})
	}
	c.explore(h, c.cosignerRoots(), nil)
}

// underField: everything in t is read from a field of an object.
func underField(t, obj *Term, f string) bool {
	found := false
	t.walk(func(u *Term) bool {
		if u.op == OFieldAddr && u.args[0] == obj && strings.HasSuffix(u.name, "."+f) {
			found = true
		}
		return !found
	})
	return found
}

// ownValue: the share dealt to ourselves, or the public key of the secret it was dealt from.
func (c *Check) ownValue(s *State, f string, v, list *Term) bool {
	if f == "EphemeralSecretPublicKey" {
		a := appArgs(v, scalarBase)
		return a != nil && c.sameMeta(s, a[0], list, "Secret")
	}
	l, i := slot(loadAddr(v))
	return l != nil && idSlot(s, i, c.ownID(s)) && c.sameMeta(s, l, list, "DealtShares")
}

func loadAddr(v *Term) *Term {
	if v != nil && v.op == OLoad {
		return v.args[0]
	}
	return nil
}

// sameMeta: v is the field f of the metadata whose list of peers is given.
func (c *Check) sameMeta(s *State, v, list *Term, f string) bool {
	if v == nil || list == nil {
		return false
	}
	if list.op == OField {
		return v.op == OField && v.args[0] == list.args[0] && fieldNameOf(v) == f
	}
	a, b := s.mon[key("meta", v)], s.mon[key("meta", list)]
	return a != nil && a == b
}

// eachPart calls f for the secret parts the call returns.
func (c *Check) eachPart(s *State, fn *ssa.Function, res []*Term, f func(e *Term, known bool)) {
	if fnName(fn) != lcT+".GetEphemeralSecretParts" || !succeeded(s, fn, res) || s.facts.isNil(res[0]) {
		return
	}
	l := s.get(res[0], c.p.namedType(sigPkg, "CosignerEphemeralSecretPartsResponse"), "EncryptedSecrets")
	es, ok := s.elemsIn(l)
	if !ok {
		f(nil, false)
	}
	for _, e := range es {
		f(e, true)
	}
}

// secretFields are the fields that hold secrets; secretTypes the structs a value of which contains one.
var secretFields = map[string]bool{
	sigPkg + ".CosignerKey.ShareKey": true, sigPkg + ".CosignerKey.RSAKey": true, lcT + ".rsaKey": true, sigPkg + ".LocalCosignerConfig.RsaKey": true,
	hmT + ".Secret": true, hmT + ".DealtShares": true, pmT + ".Share": true, "crypto/rsa.PrivateKey.D": true, "crypto/rsa.PrivateKey.Primes": true,
	"crypto/rsa.PrivateKey.Precomputed": true, "github.com/tendermint/tendermint/privval.FilePVKey.PrivKey": true,
}
var secretTypes = map[string]bool{
	sigPkg + ".CosignerKey": true, lcT: true, sigPkg + ".LocalCosignerConfig": true, hmT: true, pmT: true, "crypto/rsa.PrivateKey": true,
	"github.com/tendermint/tendermint/privval.FilePVKey": true, "github.com/tendermint/tendermint/privval.FilePV": true,
	"github.com/tendermint/tendermint/crypto/ed25519.PrivKey": true, "github.com/tendermint/tendermint/crypto.PrivKey": true,
}

// secretType: printing or encoding a value of the type shows a secret.
func secretType(t types.Type) bool {
	if v, ok := secretTypeMemo[t]; ok {
		return v
	}
	seen := map[types.Type]bool{}
	var visit func(t types.Type) bool
	visit = func(t types.Type) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if secretTypes[typeName(t)] {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return visit(u.Elem())
		case *types.Slice:
			return visit(u.Elem())
		case *types.Array:
			return visit(u.Elem())
		case *types.Map:
			return visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if visit(u.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	v := visit(t)
	secretTypeMemo[t] = v
	return v
}

var secretTypeMemo = map[types.Type]bool{}

// public functions of secrets
func declassified(n string) bool {
	if i := strings.LastIndex(n, "#"); i > 0 {
		n = n[:i]
	}
	switch n {
	case encryptOA, signPSS, verifyPSS, signShareFn, scalarBase, tsPkg + ".AddElements", tsPkg + ".CombineShares", "len", "cap", "maphas", "mapget", "<", "==",
		"crypto/rsa.EncryptPKCS1v15", "crypto/rsa.SignPKCS1v15", "crypto/x509.MarshalPKCS1PublicKey", "builtin len", "builtin cap":
		return true
	}
	return isSuffix(n, ".PubKey", ".Public", ".GetPubKey", ".Sign", ".SignVote", ".SignProposal", ".Equals", ".GetAddress", ".Address", ".Type", ".VerifySignature")
}

// leak finds a secret a value shows.
func (c *Check) leak(s *State, t *Term) *Term {
	s.e.peek = true
	defer func() { s.e.peek = false }()
	seen := map[*Term]bool{}
	taint := map[*Term]bool{}
	for _, k := range s.monKeys("taint:") {
		taint[s.mon[k]] = true
	}
	var cells map[*Term][]*Term
	under := func(root *Term) []*Term {
		if cells == nil {
			cells = map[*Term][]*Term{}
			for a := range s.mem {
				r := rootAddr(a)
				cells[r] = append(cells[r], a)
			}
		}
		return cells[root]
	}
	var visit func(t *Term, d int) *Term
	all := func(ts []*Term, d int) *Term {
		for _, a := range ts {
			if x := visit(a, d+1); x != nil {
				return x
			}
		}
		return nil
	}
	visit = func(t *Term, d int) *Term {
		if t == nil || seen[t] || d > 20 {
			return nil
		}
		seen[t] = true
		if taint[t] {
			return t
		}
		if t.op == OApp && (declassified(t.name) || strings.HasPrefix(t.name, "crypto/") && t.typ != nil && isErrorType(t.typ)) {
			return nil
		}
		if t != tNil && t.op != OConst && t.op != OZero && t.op != OIface && t.typ != nil && secretType(t.typ) && !s.facts.isNil(t) {
			return t
		}
		switch t.op {
		case OApp:
			if isApp(t, "random", decryptOA, "DealShares", tsPkg+".AddScalars") {
				return t
			}
			return all(t.args, d)
		case OLoad:
			a := t.args[0]
			for x := a; x != nil; {
				if x.op == OFieldAddr {
					if secretFields[x.name] {
						return t
					}
					if x.name == "crypto/rsa.PrivateKey.PublicKey" {
						return nil
					}
				}
				if x.op == OFieldAddr || x.op == OIndexAddr {
					x = x.args[0]
					if x.op == OField || x.op == OApp { // element of a list that is part of a value
						if y := visit(x, d+1); y != nil {
							return y
						}
					}
					continue
				}
				break
			}
			return nil
		case OField:
			if st := structOf(typOr(t.args[0])); st != nil && t.idx < st.NumFields() {
				if secretFields[typeName(derefT(typOr(t.args[0])))+"."+st.Field(t.idx).Name()] {
					return t
				}
				if st.Field(t.idx).Name() == "PublicKey" {
					return nil
				}
			}
			if t.args[0].op == OStruct || t.args[0].op == OLoad && secretFields[classOfLoad(t.args[0])] {
				return visit(t.args[0], d+1)
			}
			return nil
		case OAlloc:
			if x := s.content(t); x != t {
				if y := visit(x, d+1); y != nil {
					return y
				}
			}
			for _, a := range under(t) {
				v := s.mem[a]
				if a.op == OFieldAddr && secretFields[a.name] && v != tNil && v.op != OZero {
					return v
				}
				if y := visit(v, d+1); y != nil {
					return y
				}
			}
			return nil
		case OFieldAddr, OIndexAddr, OGlobal:
			if x := s.content(t); x != t {
				return visit(x, d+1)
			}
			return nil
		}
		if x := s.content(t); x != t {
			if y := visit(x, d+1); y != nil {
				return y
			}
		}
		return all(t.args, d)
	}
	return visit(t, 0)
}

func classOfLoad(t *Term) string {
	if a := loadAddr(t); a != nil && a.op == OFieldAddr {
		return a.name
	}
	return ""
}

// outlet: a call that shows its arguments to others.
func outlet(k *Call) (what string, from int) {
	n := k.name
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "fmt.Errorf", "log.", "errors.New", "github.com/pkg/errors.", "google.golang.org/grpc/status.",
		"github.com/spf13/cobra.Command.Print", "github.com/hashicorp/raft.Raft.Apply", "os.File.Write", "io.WriteString"} {
		if strings.HasPrefix(n, p) {
			return "output of " + n, 0
		}
	}
	switch {
	case strings.HasPrefix(n, "invoke github.com/tendermint/tendermint/libs/log.Logger."), strings.HasPrefix(n, "invoke github.com/hashicorp/go-hclog.Logger."):
		return "log", 1
	case strings.HasPrefix(n, "invoke "+protoPkg+".") && strings.Contains(n, "Client."):
		return "network request", 1
	case strings.HasSuffix(n, ".WriteMsg"):
		return "network message", 1
	}
	return "", 0
}

// answers: the function answers a caller on another machine.
func answers(fn *ssa.Function) bool {
	n := fnName(fn)
	if strings.HasPrefix(n, lcT+".") {
		return true
	}
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		if strings.HasPrefix(typeName(derefT(rt.At(i).Type())), protoPkg+".") {
			return true
		}
	}
	return strings.HasPrefix(n, tvT+".") || strings.HasPrefix(n, sigPkg+".RemoteCosigner.")
}

func c11(c *Check) {
	enc := c.rule("a dealt share is encrypted with the key of the cosigner it was dealt for", 1)
	dest := c.rule("a sent share is encrypted for the cosigner the message names, and no other secret is sent", 1)
	out := c.rule("no secret is part of an output, a log line, an error or a network message", 20)
	ans := c.rule("no secret is part of an answer", 5)
	mode := c.rule("secrets are only written to files readable by their owner alone", 1)
	h := &Hooks{}
	dealt := func(s *State, v *Term) (*Term, *Term) {
		l, i := slot(loadAddr(s.content(v)))
		if l == nil {
			return nil, nil
		}
		if l.op == OField && fieldNameOf(l) == "DealtShares" || isApp(l, "DealShares") {
			return l, i
		}
		return nil, nil
	}
	h.Call = func(s *State, k *Call) {
		if k.name == encryptOA {
			l, i := dealt(s, k.arg(3))
			id, _ := c.peerEntry(s, k.arg(2))
			c.judge(s, enc, c.site(k.instr, "EncryptOAEP"), k.instr, l != nil && id != nil && idSlot(s, i, id),
				fmt.Sprint("what is encrypted is not the share that was dealt for the owner of the key: ", i, " for ", id))
		}
		if what, from := outlet(k); what != "" {
			var bad *Term
			for i := from; i < len(k.args) && bad == nil; i++ {
				bad = c.leak(s, k.args[i])
			}
			why := ""
			if bad != nil {
				why = "a secret is shown: " + bad.String()
			}
			c.judge(s, out, c.site(k.instr, what), k.instr, bad == nil, why)
			return
		}
		if isFileWrite(k.name) || k.name == writeAtomic {
			var bad *Term
			for _, a := range k.args {
				if bad == nil {
					bad = c.leak(s, a)
				}
			}
			if bad != nil {
				p, ok := k.arg(len(k.args) - 1).intVal()
				c.judge(s, mode, c.site(k.instr, k.name), k.instr, ok && p&077 == 0, "a secret is written to a file that others can read")
			}
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		if k.inline || res == nil || declassified(k.name) || strings.HasPrefix(k.name, "builtin ") {
			return
		}
		var rs []*Term
		if res.op == OTuple {
			rs = res.args
		} else {
			rs = []*Term{res}
		}
		for _, a := range k.args {
			if len(rs) > 0 && c.leak(s, a) != nil {
				for _, r := range rs {
					if r.op == OSym && r.typ != nil && !isErrorType(r.typ) && canHold(r.typ) {
						s.monAdd("taint", r)
					}
				}
				return
			}
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if answers(fn) {
			var bad *Term
			for _, r := range res {
				if bad == nil {
					bad = c.leak(s, r)
				}
			}
			why := ""
			if bad != nil {
				why = "a secret is answered: " + bad.String()
			}
			c.judge(s, ans, rel(fn), nil, bad == nil, why)
		}
		c.eachPart(s, fn, res, func(e *Term, known bool) {
			ok := known
			why := "it is not known what is sent"
			if known {
				t := c.p.namedType(sigPkg, "CosignerEphemeralSecretPart")
				a := appArgs(s.content(part(e, t, "EncryptedSharePart")), encryptOA)
				why = "the part that is sent is not the result of an encryption"
				if ok = a != nil; ok {
					id, _ := c.peerEntry(s, a[2])
					ok = id != nil && s.facts.eq(peerID(id), peerID(part(e, t, "DestinationID")))
					why = "the share is not encrypted with the key of the cosigner the message is addressed to"
				}
			}
			c.judge(s, dest, rel(fn), nil, ok, why)
		})
	}
	c.explore(h, c.p.roots(), nil)
}

// canHold: values of the type can hold a secret.
func canHold(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return !ok || b.Info()&(types.IsString) != 0
}
func c12(c *Check) {
	bound := c.rule("the nonce of a share was kept for exactly the position and timestamp of the signed bytes", 1)
	own := c.rule("the nonce includes our own ephemeral share", 1)
	spent := c.rule("a used nonce is discarded before its signature leaves", 1)
	fresh := c.rule("metadata is made from a secret read from the system's randomness", 1)
	onekey := c.rule("metadata is kept under one key only and never replaced", 1)
	h := &Hooks{}
	h.Enter = c.requestPosition
	ht := c.p.namedType(sigPkg, "HrsMetadata")
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		c.noteMeta(s, m, k, v, in)
		if !isMetaMap(m) || s.private(rootAddr(m)) {
			return
		}
		if v == nil {
			if u := s.mon["own:used"]; u != nil && c.keyEq(s, u, k) {
				s.mon["own:spent"] = tTrue
			}
			return
		}
		n := c.site(in, "hrsMeta")
		sec := part(v, ht, "Secret")
		same := func(o *Term) bool { return o != nil && part(o, ht, "Secret") == sec }
		// an entry that is put back
		if sec.op == OField && isApp(sec.args[0], "mapget") && isMetaMap(sec.args[0].args[0]) {
			c.judge(s, onekey, n, in, c.keyEq(s, sec.args[0].args[2], k), "metadata that is kept under one key is stored under another one")
			return
		}
		x := s.content(sec)
		ok := sysRandom(x)
		why := "the secret is not what the system's random generator returned"
		if ok && !c.filled(s, x) {
			ok, why = false, "the secret is used although the random generator may have failed"
		}
		if ok && s.facts.possible(s.lenOf(sec), mkInt(32))&LT != 0 {
			ok, why = false, "the secret may have less than 32 bytes"
		}
		if d := s.content(part(v, ht, "DealtShares")); ok && (!isApp(d, "DealShares") || s.content(d.args[0]) != x) {
			ok, why = false, "the kept shares are not dealt from the kept secret"
		}
		c.judge(s, fresh, n, in, ok, why)
		// absent until now
		ok, why = c.absent(s, m, k, same), "metadata may replace the metadata that is kept for the position"
		if ok {
			for i, l := 0, s.monKeys("kept:"); i < len(l); i++ {
				if p := s.mon[l[i]]; p.args[0] == x && !c.keyEq(s, p.args[1], k) {
					ok, why = false, "the same secret is kept under two keys"
				}
			}
			s.monAdd("kept", mkApp("pair", x.typ, x, k))
		}
		c.judge(s, onekey, n, in, ok, why)
	}
	h.After = func(s *State, k *Call, res *Term) {
		if k.name == "crypto/rand.Read" || k.name == "io.ReadFull" {
			s.noteRandom(k, res)
			b := s.keyOf(k.arg(len(k.args) - 1))
			if k.arg(len(k.args)-1).op == OField || b.op == OField {
				c.judge(s, onekey, c.site(k.instr, "rand.Read"), k.instr, false, "a kept secret is overwritten")
			}
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		l, _ := slot(addr)
		if l != nil && (l.op == OField && fieldNameOf(l) == "DealtShares" || s.mon[key("meta", l)] != nil && isApp(l, "DealShares")) {
			c.judge(s, onekey, c.site(in, "DealtShares"), in, false, "a dealt share is replaced")
		}
	}
	pt := c.p.namedType(sigPkg, "PeerMetadata")
	share := func(s *State, list, idx *Term) *Term {
		return s.get(s.indexAddr(list, idx, types.NewPointer(pt)), pt, "Share")
	}
	// which share of the list: a kept share with its slot
	slotOf := func(t *Term) (list, idx *Term) {
		if a := loadAddr(t); a != nil && a.op == OFieldAddr && a.name == pmT+".Share" {
			return slot(a.args[0])
		}
		return nil, nil
	}
	h.Append = func(s *State, base *Term, add []*Term, in ssa.Instruction) {
		for _, a := range add {
			if l, _ := slotOf(s.content(a)); l != nil {
				s.facts.assume(mkApp("accounted", types.Typ[types.Bool], s.content(a)), true)
			}
		}
	}
	h.Index = func(s *State, x, i *Term, in ssa.Instruction) {
		if st, ok := typOr(x).Underlying().(*types.Slice); ok && typeName(st.Elem()) == pmT {
			s.mon["own:list"] = x // what is known of its elements stays known
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		ls := s.fr.loops[in.Block()]
		if ls == nil {
			return
		}
		for _, r := range ls.ranges {
			if r.slice == nil || r.slice.typ == nil {
				continue
			}
			st, ok := typOr(r.slice).Underlying().(*types.Slice)
			if !ok || typeName(st.Elem()) != pmT {
				continue
			}
			sh := share(s, r.slice, r.idx)
			ac := mkApp("accounted", types.Typ[types.Bool], sh)
			if v, known := s.facts.truth[ac]; known && v {
				continue
			}
			id := c.ownID(s)
			if s.facts.possible(s.lenOf(sh), mkInt(0)) == EQ || s.facts.isNil(sh) || id != nil && s.facts.possible(r.idx, plus(id, -1))&EQ == 0 {
				s.facts.assume(ac, true)
			}
		}
	}
	h.Call = func(s *State, k *Call) {
		if k.name != signShareFn {
			return
		}
		// what is known of every kept share holds for our own
		for l := range s.forall {
			if st, ok := typOr(l).Underlying().(*types.Slice); ok && typeName(st.Elem()) == pmT && c.ownID(s) != nil {
				s.instantiate(l, plus(c.ownID(s), -1))
			}
		}
		if s.dead {
			return
		}
		n := c.site(k.instr, "SignWithShare")
		pos, ts, known := c.position(s, s.content(k.arg(0)))
		sum := s.content(k.arg(2))
		ok := known && isApp(sum, tsPkg+".AddScalars")
		why := "it is not known which ephemeral shares the nonce is made of"
		var list *Term
		ownIn := false
		if ok {
			es, all := s.elemsIn(sum.args[0])
			ok = all && len(es) > 0
			for _, e := range es {
				e = s.content(e)
				l, i := slotOf(e)
				if l == nil {
					if l2, i2 := slot(loadAddr(e)); l2 != nil && fieldNameOf(l2) == "DealtShares" && idSlot(s, i2, c.ownID(s)) {
						l, i = l2, nil
						ownIn = true
					}
				}
				if l == nil {
					ok = false
					break
				}
				kk := c.metaOf(s, l)
				kt := c.p.namedType(sigPkg, "HRSTKey")
				if kk == nil || !tripleEq(s, triple{part(kk, kt, "Height"), part(kk, kt, "Round"), part(kk, kt, "Step")}, pos) ||
					!s.facts.eq(part(kk, kt, "Timestamp"), nanosOf(ts)) {
					ok, why = false, "the ephemeral shares were kept for another position or timestamp than that of the signed bytes"
					break
				}
				if l.op == OField && isApp(l.args[0], "mapget") {
					has := mkApp("maphas", types.Typ[types.Bool], l.args[0].args...)
					if v, ok2 := s.facts.truth[has]; !ok2 || !v {
						ok, why = false, "nothing may be kept for the position of the signed bytes"
					}
				}
				s.mon["own:used"] = kk
				delete(s.mon, "own:spent")
				if i != nil {
					list = l
					ownIn = ownIn || idSlot(s, i, c.ownID(s))
				}
			}
		}
		c.judge(s, bound, n, k.instr, ok, why)
		if !ok {
			return
		}
		why = "our own ephemeral share may not be part of the nonce"
		if !ownIn && list != nil {
			for _, q := range s.forall[list] {
				if q.b == nil && q.v && isApp(q.a, "accounted") {
					ownIn = true
				}
			}
		}
		if ownIn && list != nil {
			why = "our own ephemeral share may be empty"
			ownIn = s.facts.possible(s.lenOf(share(s, list, plus(c.ownID(s), -1))), mkInt(0))&EQ == 0
		}
		c.judge(s, own, n, k.instr, ownIn, why)
	}
	left := func(s *State) {
		if s.mon["own:used"] != nil && s.mon["own:spent"] == nil {
			s.mon["own:left"] = tTrue
		}
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) { left(s) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		left(s)
		if s.mon["own:used"] == nil || !succeeded(s, fn, res) || s.reaches(res, func(t *Term) bool { return isApp(t, signShareFn) }) == nil {
			return
		}
		c.judge(s, spent, rel(fn), nil, s.mon["own:left"] == nil, "a signature share leaves although its nonce is still kept and can be used for another signature")
	}
	c.explore(h, c.cosignerRoots(), nil)
}

// absent: nothing, or the same metadata, is kept under the key, as the map is now.
func (c *Check) absent(s *State, m, k *Term, same func(o *Term) bool) bool {
	ms := s.mapOf(m)
	for i := len(ms.upd) - 1; i >= 0; i-- {
		if u := ms.upd[i]; c.keyEq(s, u.k, k) {
			return u.v == nil || same(u.v)
		}
	}
	ok := ms.fresh
	for f, v := range s.facts.truth {
		if !v && f.op == OApp && f.name == "maphas" && f.args[0] == m && f.args[1] == ms.ver && c.keyEq(s, f.args[2], k) {
			ok = true
		}
	}
	return ok
}

// noteRandom remembers the error of a call that fills a buffer with random bytes.
func (s *State) noteRandom(k *Call, res *Term) {
	x := s.content(k.arg(len(k.args) - 1))
	if !isApp(x, "random") || res == nil || res.op != OTuple {
		return
	}
	s.monAdd("rnd", mkApp("pair", x.typ, x, res.args[1]))
}

// filled: the call that made the random bytes is known not to have failed.
func (c *Check) filled(s *State, x *Term) bool {
	for _, mk := range s.monKeys("rnd:") {
		if p := s.mon[mk]; p.args[0] == x && s.facts.isNil(p.args[1]) {
			return true
		}
	}
	return false
}

// sysRandom: bytes read from the operating system's cryptographic generator.
func sysRandom(x *Term) bool {
	if !isApp(x, "random") {
		return false
	}
	if x.args[0] == mkStr("crypto/rand.Read") {
		return true
	}
	src := deref(x.args[0])
	a := loadAddr(src)
	return a != nil && a.op == OGlobal && a.name == "crypto/rand.Reader"
}
