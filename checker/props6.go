package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", c14) }

// wire compares values of this repository with their form on the wire.
type wire struct{ c *Check }

// lookField finds a field by name, ignoring case.
func lookField(t types.Type, name string) (int, types.Type) {
	st := structOf(derefT(t))
	if st == nil {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Exported() && strings.EqualFold(f.Name(), name) {
			return i, f.Type()
		}
	}
	return -1, nil
}

// at reads field i of a struct, or of the struct a pointer points to.
func (s *State) at(v *Term, t types.Type, i int) *Term {
	if isPointerT(t) {
		st := derefT(t)
		return s.load(mkFieldAddr(v, i, st), structOf(st).Field(i).Type())
	}
	return mkField(v, i, t)
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int64, types.Uint64, types.Int, types.Uint:
		return 64
	}
	return 0
}

// unconvTo strips conversions to types of at least this many bits.
func unconvTo(t *Term, bits int) *Term {
	for t != nil && t.op == OApp && strings.HasPrefix(t.name, "conv:") && t.typ != nil && intBits(t.typ) >= bits {
		t = t.args[0]
	}
	return t
}

func isTime(t types.Type) bool { return typeName(t) == "time.Time" }

// agree: the value a of the repository and the wire value b have the same content; f: the first field that differs.
func (w *wire) agree(s *State, a *Term, at types.Type, b *Term, bt types.Type, only map[string]bool) (bool, string) {
	if a == nil || b == nil {
		return false, "value"
	}
	nilA := isPointerT(at) && (a == tNil || s.facts.isNil(a))
	nilB := isPointerT(bt) && (b == tNil || s.facts.isNil(b))
	if nilA && nilB {
		return true, ""
	}
	st := structOf(derefT(at))
	if st == nil || structOf(derefT(bt)) == nil {
		return false, "value"
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() || only != nil && !only[f.Name()] {
			continue
		}
		j, jt := lookField(bt, f.Name())
		if j < 0 {
			return false, f.Name()
		}
		var x, y *Term
		if nilA {
			x = mkZero(f.Type())
		} else {
			x = s.at(a, at, i)
		}
		if nilB {
			y = mkZero(jt)
		} else {
			y = s.at(b, bt, j)
		}
		if ok, sub := w.same(s, x, f.Type(), y, jt); !ok {
			if sub != "" {
				sub = "." + sub
			}
			return false, f.Name() + sub
		}
	}
	return true, ""
}

// same compares two fields.
func (w *wire) same(s *State, x *Term, xt types.Type, y *Term, yt types.Type) (bool, string) {
	switch {
	case isTime(xt) || isTime(yt):
		nx, ny := x, y
		if isTime(xt) {
			nx = nanosOf(x)
		}
		if isTime(yt) {
			ny = nanosOf(y)
		}
		return s.facts.eq(unconvTo(nx, 64), unconvTo(ny, 64)), ""
	case intBits(xt) > 0:
		n := intBits(xt)
		if m := intBits(yt); m < n {
			n = m
		}
		return s.facts.eq(unconvTo(x, n), unconvTo(y, n)), ""
	case structOf(derefT(xt)) != nil:
		return w.agree(s, x, xt, y, yt, nil)
	case isByteSlice(xt) || isStringT(xt):
		return x == y || s.content(x) == s.content(y) || (x == tNil || s.isEmpty(x) || s.facts.isNil(x)) && (y == tNil || s.isEmpty(y) || s.facts.isNil(y)), ""
	}
	// lists of parts
	return w.sameList(s, x, y) || w.sameList(s, y, x), "elements"
}

// sameList: every element of one list was converted into the other.
func (w *wire) sameList(s *State, out, in *Term) bool {
	if s.facts.isNil(in) || s.facts.possible(s.lenOf(in), mkInt(0)) == EQ {
		if s.facts.possible(s.lenOf(out), mkInt(0)) == EQ {
			return true
		}
		es, ok := s.elemsIn(out)
		return ok && len(es) == 0
	}
	all := false
	for _, q := range s.forall[in] {
		all = all || q.b == nil && q.v && isApp(q.a, "converted")
	}
	if !all {
		return false
	}
	for _, k := range s.monKeys("own:list:") {
		if p := s.mon[k]; p.args[0] == out && p.args[1] == in && s.facts.eq(s.lenOf(out), s.lenOf(in)) {
			return true
		}
	}
	es, ok := s.elemsIn(out)
	if !ok || len(es) == 0 {
		return false
	}
	for _, e := range es {
		hit := false
		for _, k := range s.monKeys("own:from:") {
			p := s.mon[k]
			hit = hit || p.args[0] == e && p.args[1] == in
		}
		if !hit {
			return false
		}
	}
	return true
}

// conversion: x is the other form of an element of a list; returns the list and the place of the element.
func (w *wire) conversion(s *State, x *Term) (list, idx *Term) {
	if x == nil || x.typ == nil {
		return nil, nil
	}
	goT := w.c.p.namedType(sigPkg, "CosignerEphemeralSecretPart")
	pbT := types.NewPointer(w.c.p.namedType(protoPkg, "EphemeralSecretPart"))
	switch typeName(derefT(x.typ)) {
	case protoPkg + ".EphemeralSecretPart":
		i, _ := lookField(pbT, "SourceID")
		a := loadAddr(unconvTo(s.at(x, pbT, i), 32))
		if a == nil || a.op != OFieldAddr {
			return nil, nil
		}
		l, n := slot(a.args[0])
		if l == nil {
			return nil, nil
		}
		if ok, _ := w.agree(s, s.load(a.args[0], goT), goT, x, pbT, nil); !ok {
			return nil, nil
		}
		return l, n
	case partT:
		v, vt := x, types.Type(goT)
		if isPointerT(x.typ) {
			vt = x.typ
		}
		i, _ := lookField(goT, "SourceID")
		a := loadAddr(unconvTo(s.at(v, vt, i), 32))
		if a == nil || a.op != OFieldAddr {
			return nil, nil
		}
		p := a.args[0]
		l, n := slot(loadAddr(p))
		if l == nil {
			return nil, nil
		}
		if ok, _ := w.agree(s, v, vt, p, pbT, nil); !ok {
			return nil, nil
		}
		return l, n
	}
	return nil, nil
}

// element is what stands for the element of a list in what is known of every element.
func (w *wire) element(s *State, l, n *Term) *Term {
	et := l.typ.Underlying().(*types.Slice).Elem()
	a := s.indexAddr(l, n, types.NewPointer(et))
	if isPointerT(et) {
		return s.load(a, et)
	}
	return s.get(a, et, "SourceID")
}

func (w *wire) hooks(h *Hooks) {
	pair := func(s *State, name string, a, b *Term) { s.monAdd(name, mkApp("pair", typOr(b), a, b)) }
	h.Append = func(s *State, base *Term, add []*Term, in ssa.Instruction) {
		for _, x := range add {
			if l, n := w.conversion(s, x); l != nil {
				twice := false
				for _, k := range s.monKeys("own:from:") {
					twice = twice || isPointerT(x.typ) && s.mon[k].args[0] == x
				}
				if twice {
					continue // the same message again: the earlier element has changed with it
				}
				pair(s, "own:from", x, l)
				s.facts.assume(mkApp("converted", types.Typ[types.Bool], w.element(s, l, n)), true)
			}
		}
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		out, i := slot(addr)
		if out == nil {
			return
		}
		if l, n := w.conversion(s, val); l != nil && i == n {
			pair(s, "own:list", out, l)
			s.facts.assume(mkApp("converted", types.Typ[types.Bool], w.element(s, l, n)), true)
		}
	}
	h.Index = func(s *State, x, i *Term, in ssa.Instruction) {
		if st, ok := typOr(x).Underlying().(*types.Slice); ok {
			if n := typeName(derefT(st.Elem())); n == partT || n == protoPkg+".EphemeralSecretPart" {
				s.monAdd("own:listed", x) // what is known of its elements stays known
			}
		}
	}
}

// addressed: a is the host of this URL, or the text itself.
func (w *wire) addressed(s *State, a, u *Term) bool {
	if a == nil || u == nil {
		return false
	}
	if u = unconv(s.content(u)); a == u {
		return true
	}
	for _, k := range s.monKeys("own:url:") {
		p := s.mon[k]
		if unconv(s.content(p.args[1])) == u && a == unconv(s.content(s.get(p.args[0], derefT(p.args[0].typ), "Host"))) {
			return true
		}
	}
	return false
}

// servers: the methods of the types that serve the protocol.
func (p *Program) servers() []*ssa.Function {
	it, ok := p.namedType(protoPkg, "CosignerGRPCServer").Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.fns {
		r := f.Signature.Recv()
		if f.Parent() != nil || r == nil || f.Synthetic != "" || fnPkg(f) != sigPkg || !types.Implements(r.Type(), it) {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == f.Name() {
				out = append(out, f)
			}
		}
	}
	return out
}

func c14(c *Check) {
	ask := c.rule("a request is sent to the cosigner with every field as the caller passed it", 3)
	got := c.rule("the caller gets every field of the answer, and an error if there is none", 3)
	act := c.rule("a server acts on every field of the request as it was sent", 6)
	ans := c.rule("a server answers with every field of the result, and with an error if there was one", 6)
	lead := c.rule("leadership is transferred to the cosigner that was named", 2)
	to := c.rule("a request goes to the address of the cosigner it is for", 3)
	w := &wire{c}

	// ---- callers
	type client struct {
		root string
		args map[string]int // field of the wire request -> parameter (0: receiver)
	}
	cli := map[string]client{
		"GetEphemeralSecretParts":        {sigPkg + ".RemoteCosigner.GetEphemeralSecretParts", map[string]int{"Hrst": 1}},
		"SetEphemeralSecretPartsAndSign": {sigPkg + ".RemoteCosigner.SetEphemeralSecretPartsAndSign", nil},
		"SignBlock":                      {rsT + ".LeaderSignBlock", nil},
	}
	h := &Hooks{}
	w.hooks(h)
	rpc := func(k *Call) string {
		n := strings.TrimPrefix(k.name, "invoke "+protoPkg+".CosignerGRPCClient.")
		if n == k.name {
			return ""
		}
		return n
	}
	h.After = func(s *State, k *Call, res *Term) {
		n := rpc(k)
		if n == "" || res.op != OTuple || len(res.args) != 2 {
			return
		}
		fn := s.e.root
		pt := fn.Params[1].Type()
		p := paramSym(fn, fn.Params[1])
		v := k.arg(2)
		vt := typOr(v)
		ok, f := false, "request"
		if cl, known := cli[n]; known && fnName(fn) == cl.root {
			if cl.args != nil {
				i, ft := lookField(vt, "Hrst")
				ok, f = w.agree(s, p, pt, s.at(v, vt, i), ft, nil)
			} else {
				ok, f = w.agree(s, p, pt, v, vt, nil)
			}
		}
		c.judge(s, ask, rel(fn), k.instr, ok, "the "+f+" is not sent as the caller passed it")
		s.mon["own:res"], s.mon["own:err"] = res.args[0], res.args[1]
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		er := errOf(fn, res)
		if s.facts.isNonNil(er) {
			return
		}
		r, e := s.mon["own:res"], s.mon["own:err"]
		if r == nil || !s.facts.isNil(e) {
			c.judge(s, got, rel(fn), nil, false, "success is reported although the call was not made or failed")
			return
		}
		ok, f := w.agree(s, res[0], fn.Signature.Results().At(0).Type(), r, r.typ, nil)
		c.judge(s, got, rel(fn), nil, ok, "the "+f+" is not returned as it was answered")
	}
	c.explore(h, c.p.rootsNamed(cli["GetEphemeralSecretParts"].root, cli["SetEphemeralSecretPartsAndSign"].root, cli["SignBlock"].root), nil)

	// ---- where it is sent
	h = &Hooks{}
	h.After = func(s *State, k *Call, res *Term) {
		fn := s.e.root
		switch {
		case k.name == "net/url.Parse" && res.op == OTuple:
			s.monAdd("own:url", mkApp("pair", types.Typ[types.String], res.args[0], k.arg(0)))
		case (k.name == raftPkg+".Raft.Leader" || k.name == raftPkg+".Raft.LeaderWithID") && fnName(fn) == rsT+".LeaderSignBlock":
			if res.op == OTuple {
				res = res.args[0]
			}
			s.monAdd("own:leader", res)
		case k.name == "google.golang.org/grpc.Dial" || k.name == "google.golang.org/grpc.DialContext" || k.name == "google.golang.org/grpc.NewClient":
			i := 0
			if strings.HasSuffix(k.name, "Context") {
				i = 1
			}
			a := unconv(s.content(k.arg(i)))
			ok := false
			if fnName(fn) == rsT+".LeaderSignBlock" {
				for _, x := range s.monKeys("own:leader:") {
					ok = ok || unconv(s.content(s.mon[x])) == a
				}
			} else {
				r := paramSym(fn, fn.Params[0])
				ok = w.addressed(s, a, s.get(r, derefT(r.typ), "address"))
			}
			c.judge(s, to, rel(fn), k.instr, ok, "the request goes to another address than the one of the cosigner it is for")
		}
	}
	c.explore(h, c.p.rootsNamed(cli["GetEphemeralSecretParts"].root, cli["SetEphemeralSecretPartsAndSign"].root, cli["SignBlock"].root), nil)

	// ---- servers
	h = &Hooks{}
	w.hooks(h)
	h.Opaque = func(fn *ssa.Function) bool {
		n := fnName(fn)
		return strings.HasPrefix(n, lcT+".") || strings.HasPrefix(n, tvT+".")
	}
	h.After = func(s *State, k *Call, res *Term) {
		fn := s.e.root
		switch {
		case k.name == "net/url.Parse" && res.op == OTuple:
			s.monAdd("own:url", mkApp("pair", types.Typ[types.String], res.args[0], k.arg(0)))
			return
		case k.name == raftPkg+".Raft.LeadershipTransfer":
			s.mon["own:moving"] = res
			return
		case k.name == raftPkg+".Raft.LeadershipTransferToServer":
			s.mon["own:moving"] = res
			req := paramSym(fn, fn.Params[2])
			want := s.get(req, derefT(fn.Params[2].Type()), "LeaderID")
			id := unconv(s.content(k.arg(1)))
			ok := want != nil && (id == want || s.facts.eq(id, want))
			c.judge(s, lead, rel(fn), k.instr, ok, "leadership is transferred to another cosigner than the requested one")
			a := unconv(s.content(k.arg(2)))
			ok = false
			s.reach(k.arg(1), func(x *Term) {
				if isApp(x, "invoke "+sigPkg+".Cosigner.GetID") {
					ok = ok || w.addressed(s, a, mkApp("invoke "+sigPkg+".Cosigner.GetAddress", types.Typ[types.String], x.args...))
				}
			})
			// or the cosigner of the address was found to have this ID
			for _, m := range s.monKeys("own:url:") {
				if x := s.content(s.mon[m].args[1]); isApp(x, "invoke "+sigPkg+".Cosigner.GetAddress") && w.addressed(s, a, x) {
					n := mkApp("itoa", types.Typ[types.String], mkApp("invoke "+sigPkg+".Cosigner.GetID", types.Typ[types.Int], x.args...))
					ok = ok || s.facts.possible(n, id) == EQ
				}
			}
			c.judge(s, lead, rel(fn)+" address", k.instr, ok, "leadership is transferred to another address than the one of the requested cosigner")
			return
		case strings.HasPrefix(k.name, "invoke "+raftPkg+".") && strings.HasSuffix(k.name, "Future.Error"):
			if k.arg(0) == s.mon["own:moving"] {
				s.mon["own:err"], s.mon["own:res"] = res, k.arg(0)
			}
			return
		}
		want := map[string]string{"SignBlock": tvT + ".SignBlock", "SetEphemeralSecretPartsAndSign": lcT + ".SetEphemeralSecretPartsAndSign", "GetEphemeralSecretParts": lcT + ".GetEphemeralSecretParts"}[fn.Name()]
		if want == "" || k.fn == nil && k.name != want || k.fn != nil && fnName(k.fn) != want {
			return
		}
		req, rt := paramSym(fn, fn.Params[2]), fn.Params[2].Type()
		ok, f := false, "request"
		switch {
		case s.facts.isNil(req): // nothing was sent
			ok = true
		case fn.Name() == "SignBlock":
			i, _ := lookField(rt, "ChainID")
			j, jt := lookField(rt, "Block")
			if ok, f = s.content(k.arg(1)) == s.content(s.at(req, rt, i)), "ChainID"; ok {
				b := k.arg(2)
				ok, f = w.agree(s, b, typOr(b), s.at(req, rt, j), jt, nil)
			}
		case fn.Name() == "SetEphemeralSecretPartsAndSign":
			ok, f = w.agree(s, k.arg(1), typOr(k.arg(1)), req, rt, nil)
		default:
			j, jt := lookField(rt, "Hrst")
			ok, f = w.agree(s, k.arg(1), typOr(k.arg(1)), s.at(req, rt, j), jt, nil)
		}
		c.judge(s, act, rel(fn), k.instr, ok, "the "+f+" that is acted on is not the one that was sent")
		if res.op == OTuple {
			s.mon["own:res"], s.mon["own:err"] = res.args[0], res.args[len(res.args)-1]
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		er := errOf(fn, res)
		if s.facts.isNonNil(er) {
			return
		}
		r, e := s.mon["own:res"], s.mon["own:err"]
		if r == nil || !s.facts.isNil(e) {
			c.judge(s, ans, rel(fn), nil, false, "success is answered although the request was not served or failed")
			return
		}
		if fn.Name() == "TransferLeadership" {
			return
		}
		ok, f := false, "answer"
		x, xt := res[0], fn.Signature.Results().At(0).Type()
		if !isByteSlice(r.typ) {
			ok, f = w.agree(s, r, r.typ, x, xt, nil)
		} else if i, _ := lookField(xt, "Signature"); i >= 0 {
			ok, f = s.content(s.at(x, xt, i)) == s.content(r), "Signature"
		}
		c.judge(s, ans, rel(fn), nil, ok, "the "+f+" is not answered as it is")
	}
	c.explore(h, c.p.servers(), nil)
}
