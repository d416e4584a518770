package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- names the rules are anchored on

const (
	tmProtoPkg  = "github.com/tendermint/tendermint/proto/tendermint/types"
	tmTypes     = "github.com/tendermint/tendermint/types"
	tsPkg       = "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	raftPkg     = "github.com/hashicorp/raft"
	ssT         = sigPkg + ".SignState"
	signShareFn = tsPkg + ".SignWithShare"
	writeAtomic = "github.com/tendermint/tendermint/libs/tempfile.WriteFileAtomic"
)

func key(parts ...any) string {
	var b strings.Builder
	for i, p := range parts {
		if i > 0 {
			b.WriteByte(':')
		}
		switch x := p.(type) {
		case *Term:
			fmt.Fprint(&b, x.id)
		default:
			fmt.Fprint(&b, x)
		}
	}
	return b.String()
}

// fieldOf splits the address of a field: class ("pkg.T.f") and the object it is in.
func fieldOf(a *Term) (string, *Term) {
	if a == nil || a.op != OFieldAddr {
		return "", nil
	}
	return a.name, a.args[0]
}

// field returns the address of base.name for a struct type.
func fieldAddr(base *Term, t types.Type, name string) (*Term, types.Type) {
	st := structOf(t)
	if st == nil {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(base, i, t), st.Field(i).Type()
		}
	}
	return nil, nil
}

// get reads base.name (base is a pointer to a struct of type t).
func (s *State) get(base *Term, t types.Type, name string) *Term {
	a, ft := fieldAddr(base, t, name)
	if a == nil {
		return nil
	}
	return s.load(a, ft)
}

// part reads field name of a struct value.
func part(v *Term, t types.Type, name string) *Term {
	st := structOf(t)
	if st == nil || v == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(v, i, t)
		}
	}
	return nil
}

// eachStore splits the store of a struct into stores of its fields.
func eachStore(addr, v *Term, d int, f func(a, v *Term)) {
	t := derefT(typOr(addr))
	if st := expandable(t); st != nil && d < 6 {
		for i := 0; i < st.NumFields(); i++ {
			eachStore(mkFieldAddr(addr, i, t), mkField(v, i, t), d+1, f)
		}
		return
	}
	f(addr, v)
}

type triple [3]*Term

func lexGT(s *State, n, o triple) bool { return lex(s, n, o, false) }
func lexGE(s *State, n, o triple) bool { return lex(s, n, o, true) }
func lex(s *State, n, o triple, eqOK bool) bool {
	for i := 0; i < 3; i++ {
		if n[i] == nil || o[i] == nil {
			return false
		}
		p := s.facts.possible(n[i], o[i])
		if p&LT != 0 {
			return false
		}
		if p == GT {
			return true
		}
	}
	return eqOK
}

func tripleEq(s *State, a, b triple) bool {
	for i := 0; i < 3; i++ {
		if a[i] == nil || b[i] == nil || !s.facts.eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// tripleMayEq: nothing excludes that the positions are the same.
func tripleMayEq(s *State, a, b triple) bool {
	for i := 0; i < 3; i++ {
		if s.facts.possible(a[i], b[i])&EQ == 0 {
			return false
		}
	}
	return true
}

func (t triple) String() string { return fmt.Sprintf("(%v, %v, %v)", t[0], t[1], t[2]) }

func (c *Check) watermark(s *State, base *Term) triple {
	t := c.p.namedType(sigPkg, "SignState")
	return triple{s.get(base, t, "Height"), s.get(base, t, "Round"), s.get(base, t, "Step")}
}

// signStates lists the last-signed records the state knows something about.
func (s *State) signStates() []*Term {
	set := map[*Term]bool{}
	var out []*Term
	for a := range s.mem {
		if cl, b := fieldOf(a); strings.HasPrefix(cl, ssT+".") && !set[b] {
			set[b] = true
			out = append(out, b)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (c *Check) decTerms(kind string, m *Term) (v, er *Term) {
	t := c.p.namedType(tmProtoPkg, kind)
	if t == nil {
		return nil, nil
	}
	n := "pb:" + typKey(t)
	return mkApp("decoded:"+n, t, m), mkApp("decodeErr:"+n, errT, m)
}

// position is the (height, round, step) the bytes m are known to decode to, and their timestamp.
func (c *Check) position(s *State, m *Term) (triple, *Term, bool) {
	if v, er := c.decTerms("CanonicalProposal", m); v != nil && s.facts.isNil(er) {
		t := v.typ
		return triple{part(v, t, "Height"), part(v, t, "Round"), mkInt(1)}, part(v, t, "Timestamp"), true
	}
	if v, er := c.decTerms("CanonicalVote", m); v != nil && s.facts.isNil(er) {
		t := v.typ
		for typ, step := range map[int64]int64{1: 2, 2: 3} {
			if s.facts.possible(part(v, t, "Type"), mkInt(typ)) == EQ {
				return triple{part(v, t, "Height"), part(v, t, "Round"), mkInt(step)}, part(v, t, "Timestamp"), true
			}
		}
	}
	return triple{}, nil, false
}

// errOf is the error among the results (nil if the function has none).
func errOf(fn *ssa.Function, res []*Term) *Term {
	rt := fn.Signature.Results()
	for i := rt.Len() - 1; i >= 0; i-- {
		if isErrorType(rt.At(i).Type()) && i < len(res) {
			return res[i]
		}
	}
	return nil
}

// succeeded: the results may be those of a call without error.
func succeeded(s *State, fn *ssa.Function, res []*Term) bool {
	e := errOf(fn, res)
	return e == nil || s.facts.possible(e, tNil)&EQ != 0
}

// reach collects what can be reached from a value through memory: the values it consists of.
func (s *State) reach(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if t == nil || seen[t] || d > 12 {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			visit(a, d+1)
		}
		if t.op == OAlloc {
			for a, v := range s.mem {
				if rootAddr(a) == t {
					visit(v, d+1)
				}
			}
		}
	}
	visit(t, 0)
}

func (s *State) reaches(res []*Term, pred func(*Term) bool) *Term {
	var hit *Term
	for _, r := range res {
		s.reach(r, func(t *Term) {
			if hit == nil && pred(t) {
				hit = t
			}
		})
	}
	return hit
}

func isApp(t *Term, names ...string) bool {
	if t == nil || t.op != OApp {
		return false
	}
	for _, n := range names {
		if t.name == n || strings.HasPrefix(t.name, n+"#") {
			return true
		}
	}
	return false
}

func isSuffix(name string, suffixes ...string) bool {
	for _, x := range suffixes {
		if strings.HasSuffix(name, x) {
			return true
		}
	}
	return false
}

// delMon removes monitor entries with a prefix.
func (s *State) delMon(prefix string) {
	for k := range s.mon {
		if strings.HasPrefix(k, prefix) {
			delete(s.mon, k)
		}
	}
}

func (s *State) monKeys(prefix string) []string {
	var l []string
	for k := range s.mon {
		if strings.HasPrefix(k, prefix) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// objName describes an object without numbering.
func objName(t *Term) string {
	if t == nil {
		return "?"
	}
	return shortType(typOr(t))
}

// monAdd adds a value to the set of values remembered under a name.
func (s *State) monAdd(name string, v *Term) {
	vals := map[*Term]bool{v: true}
	for _, k := range s.monKeys(name + ":") {
		vals[s.mon[k]] = true
		delete(s.mon, k)
	}
	var l []*Term
	for t := range vals {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for i, t := range l {
		s.mon[key(name, i)] = t
	}
}
