package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const makeSecret = "github.com/tendermint/tendermint/p2p/conn.MakeSecretConnection"

func init() { register("C28", c28) }

// cryptoPkg: packages of cryptographic primitives.
func cryptoPkg(name string) bool {
	for _, p := range []string{"crypto/", "golang.org/x/crypto/", "github.com/tendermint/tendermint/crypto", "filippo.io/", "gitlab.com/polychainlabs/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func isReader(t types.Type) bool { return t != nil && typeName(t) == "io.Reader" }

// randomArgs: the arguments that are a source of randomness for a cryptographic primitive.
func randomArgs(ci *ssa.CallCommon) []int {
	f := ci.StaticCallee()
	if f == nil || !cryptoPkg(fnName(f)) {
		return nil
	}
	var out []int
	sg := f.Signature
	off := 0
	if sg.Recv() != nil {
		off = 1
	}
	for i := 0; i < sg.Params().Len(); i++ {
		if isReader(sg.Params().At(i).Type()) {
			out = append(out, i+off)
		}
	}
	return out
}

func usesRandom(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if f := ci.Common().StaticCallee(); f != nil {
		switch fnName(f) {
		case "crypto/rand.Read", "crypto/rand.Text", dealShares, makeSecret:
			return true
		}
	}
	return len(randomArgs(ci.Common())) > 0
}

// sysReader: the operating system's generator, or a field that is never set to anything else.
func (c *Check) sysReader(v *Term) bool {
	if v == nil {
		return false
	}
	v, _ = unIface(v)
	a := loadAddr(deref(v))
	if a == nil {
		a = loadAddr(v)
	}
	if a == nil {
		return false
	}
	if a.op == OGlobal {
		return a.name == "crypto/rand.Reader"
	}
	cl, _ := fieldOf(a)
	if cl == "" {
		return false
	}
	n := 0
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || storeClass(st) != cl {
					continue
				}
				n++
				ld, ok := st.Val.(*ssa.UnOp)
				if !ok {
					return false
				}
				if g, ok := ld.X.(*ssa.Global); !ok || globalName(g) != "crypto/rand.Reader" {
					return false
				}
			}
		}
	}
	return n > 0
}

// storeClass: the field that is stored to.
func storeClass(st *ssa.Store) string {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := derefT(fa.X.Type())
	if f := structOf(t); f != nil {
		return typeName(t) + "." + f.Field(fa.Field).Name()
	}
	return ""
}

func c28(c *Check) {
	src := c.rule("every random source given to a cryptographic primitive is the operating system's generator", 4)
	abort := c.rule("an operation whose random source failed does not succeed", 3)
	nonce := c.rule("the ephemeral secret is a whole buffer of at least 32 bytes from the system's generator, known to be filled", 1)
	bits := c.rule("RSA keys have at least 2048 bits", 1)
	conn := c.rule("the key of a sentry connection is generated, not derived", 1)
	global := c.rule("the system's generator is never replaced", 1)

	replaced := false
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && strings.HasPrefix(globalName(g), "crypto/rand.") {
						replaced = true
						c.fact(global, rel(f), in.Pos(), false, "the generator of crypto/rand is replaced")
					}
				}
			}
		}
	}
	if !replaced {
		c.fact(global, "crypto/rand.Reader", 0, true, "")
	}

	connKeys := map[string]bool{}
	visited := map[ssa.Instruction]bool{}
	isGen := func(v *Term) bool {
		return s2(v, func(x *Term) bool {
			return strings.Contains(x.name, ".GenPrivKey") && !strings.Contains(x.name, "FromSecret")
		})
	}
	h := &Hooks{}
	h.Call = func(s *State, k *Call) {
		ci, ok := k.instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		visited[k.instr] = true
		if f := ci.Common().StaticCallee(); f != nil && fnName(f) == k.name {
			for _, i := range randomArgs(ci.Common()) {
				c.judge(s, src, c.site(k.instr, k.name), k.instr, c.sysReader(k.arg(i)), "the random source may be something else")
			}
		}
		switch k.name {
		case "crypto/rsa.GenerateKey":
			c.judge(s, bits, c.site(k.instr, k.name), k.instr, s.atMost(mkInt(2048), unconv(k.arg(1)), 0), "an RSA key may have fewer than 2048 bits")
		case "crypto/rsa.GenerateMultiPrimeKey":
			c.judge(s, bits, c.site(k.instr, k.name), k.instr, s.atMost(mkInt(2048), unconv(k.arg(2)), 0), "an RSA key may have fewer than 2048 bits")
		case dealShares:
			cl, _ := fieldOf(loadAddr(k.arg(2)))
			x := s.content(k.arg(0))
			if !strings.HasPrefix(cl, lcT+".") && !isApp(x, "random") {
				return // the shares of the validator key: C19, C20
			}
			why := ""
			switch {
			case !sysRandom(x):
				why = "the ephemeral secret does not come from the system's generator as a whole"
			case !c.filled(s, x):
				why = "the generator may have failed"
			case !s.atMost(mkInt(32), s.lenOf(k.arg(0)), 0):
				why = "the ephemeral secret may have fewer than 32 bytes"
			}
			c.judge(s, nonce, c.site(k.instr, "secret"), k.instr, why == "", why)
		case makeSecret:
			v, _ := unIface(k.arg(1))
			cl, _ := fieldOf(loadAddr(v))
			if cl != "" {
				connKeys[cl] = true
			}
			c.judge(s, conn, c.site(k.instr, "key"), k.instr, cl != "" || isGen(v), "the key of the connection may not be a generated one")
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		if k.name == "crypto/rand.Read" || k.name == "io.ReadFull" {
			s.noteRandom(k, res)
		}
		ci, ok := k.instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		random := k.name == "crypto/rand.Read" || k.name == "io.ReadFull" && c.sysReader(k.arg(0))
		if f := ci.Common().StaticCallee(); f != nil && fnName(f) == k.name && len(randomArgs(ci.Common())) > 0 {
			random = true
		}
		if !random || res == nil {
			return
		}
		if rt := resultTypes(k); rt.Len() > 0 && types.Identical(rt.At(rt.Len()-1).Type(), errT) {
			e := res
			if res.op == OTuple {
				e = res.args[rt.Len()-1]
			}
			s.mon["own:rnd"] = tTrue
			s.monAdd("own:rnderr", e)
		}
	}
	settle := func(s *State) {
		for _, k := range s.monKeys("own:rnderr:") {
			if s.facts.isNil(s.mon[k]) {
				delete(s.mon, k)
			}
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) { settle(s) }
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) { settle(s) }
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		settle(s)
		l := s.monKeys("own:rnderr:")
		if s.mon["own:rnd"] == nil || !succeeded(s, fn, res) {
			return
		}
		ok := true
		for _, k := range l {
			e := s.mon[k]
			ok = ok && (s.facts.isNil(e) || e == errOf(fn, res))
		}
		c.judge(s, abort, rel(fn), nil, ok, "success although a random source or a primitive that uses it may have failed")
	}
	var roots []*ssa.Function
	all := map[*ssa.Function]bool{}
	for _, f := range c.p.roots() {
		all[f] = true
	}
	for _, f := range c.p.roots() {
		switch fnPkg(f) {
		case sigPkg:
			if c.p.mentionsUntil(f, usesRandom, func(g *ssa.Function) bool { return all[g] && fnPkg(g) == sigPkg }) {
				roots = append(roots, f)
			}
		case cmdPkg:
			if isCommand(f) && c.p.mentions(f, usesRandom) {
				roots = append(roots, f)
			}
		}
	}
	c.explore(h, roots, nil)

	// what is not reached from those is judged by itself
	var rest []*ssa.Function
	for _, f := range c.p.fns {
		if p := fnPkg(f); p != sigPkg && p != cmdPkg {
			continue
		}
		miss := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				miss = miss || usesRandom(in) && !visited[in]
			}
		}
		if miss {
			rest = append(rest, f)
		}
	}
	c.explore(h, rest, nil)

	hk := &Hooks{}
	hk.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		eachStore(addr, val, 0, func(a, v *Term) {
			if cl, _ := fieldOf(a); connKeys[cl] {
				v, _ = unIface(v)
				c.judge(s, conn, c.site(in, cl), in, isGen(v), "the key of sentry connections may not be a generated one")
			}
		})
	}
	var setters []*ssa.Function
	for _, f := range c.p.roots() {
		if fnPkg(f) == sigPkg && c.p.mentions(f, func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			return ok && connKeys[storeClass(st)]
		}) {
			setters = append(setters, f)
		}
	}
	c.explore(hk, setters, nil)
}

// s2: the value, or what it was loaded or converted from, satisfies the predicate.
func s2(v *Term, pred func(*Term) bool) bool {
	for i := 0; v != nil && i < 8; i++ {
		if pred(v) {
			return true
		}
		if (v.op == OField || v.op == OApp && v.name == "conv") && len(v.args) > 0 {
			v = v.args[0]
			continue
		}
		return false
	}
	return false
}
