package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// relation bits: which orders of (a, b) are still possible
const (
	LT  uint8 = 1
	EQ  uint8 = 2
	GT  uint8 = 4
	ALL uint8 = 7
	NE        = LT | GT
	LE        = LT | EQ
	GE        = GT | EQ
)

func flip(b uint8) uint8 {
	r := b & EQ
	if b&LT != 0 {
		r |= GT
	}
	if b&GT != 0 {
		r |= LT
	}
	return r
}

func compose(x, y uint8) uint8 {
	var r uint8
	for _, a := range []uint8{LT, EQ, GT} {
		if x&a == 0 {
			continue
		}
		for _, b := range []uint8{LT, EQ, GT} {
			if y&b == 0 {
				continue
			}
			switch {
			case a == EQ:
				r |= b
			case b == EQ:
				r |= a
			case a == b:
				r |= a
			default:
				r |= ALL
			}
		}
	}
	return r
}

// Facts is what a path knows about terms: possible orders between pairs of terms, truth of boolean terms.
type Facts struct {
	rel   map[*Term]map[*Term]uint8 // symmetric; inner maps are copied on write
	truth map[*Term]bool
}

func newFacts() *Facts {
	return &Facts{map[*Term]map[*Term]uint8{}, map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{make(map[*Term]map[*Term]uint8, len(f.rel)), make(map[*Term]bool, len(f.truth))}
	for k, v := range f.rel {
		g.rel[k] = v
	}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	return g
}

func (f *Facts) set1(a, b *Term, bits uint8) {
	m := f.rel[a]
	n := make(map[*Term]uint8, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	n[b] = bits
	f.rel[a] = n
}

func (f *Facts) setRel(a, b *Term, bits uint8) {
	f.set1(a, b, bits)
	f.set1(b, a, flip(bits))
}

func nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OFieldAddr, OIndexAddr, OIface, OClosure, OColl:
		return true
	case OAppend:
		for _, a := range t.args[1:] {
			if a.op != OSpread {
				return true
			}
		}
	case OSlice:
		return nonNil(t.args[0])
	case OConst, OStruct, OZero:
		return true
	case OApp:
		return nonNilApps[t.name]
	}
	return false
}

var nonNilApps = map[string]bool{}

// base relation between two terms, without recorded facts
func baseRel(a, b *Term) uint8 {
	if a == b {
		return EQ
	}
	if a.isConst() && b.isConst() {
		if a.name != b.name || a.name == "b" {
			return NE
		}
		switch {
		case constant.Compare(a.val, token.EQL, b.val):
			return EQ
		case constant.Compare(a.val, token.LSS, b.val):
			return LT
		}
		return GT
	}
	if a == tNil && nonNil(b) || b == tNil && nonNil(a) {
		return NE
	}
	// base + constant
	if ba, ca := splitAdd(a); ba != nil {
		if bb, cb := splitAdd(b); bb == ba {
			switch {
			case ca < cb:
				return LT
			case ca > cb:
				return GT
			}
		}
	}
	if a.op == OIface && b.op == OIface && !types.Identical(a.typ, b.typ) {
		return NE
	}
	if a.op == OAlloc && b.op == OAlloc {
		return NE
	}
	if x, y := strEnd(a), strEnd(b); x != "" && y != "" && !strings.HasSuffix(x, y) && !strings.HasSuffix(y, x) {
		return NE
	}
	if v, ok := a.strVal(); ok && strEnd(b) != "" && !strings.HasSuffix(v, strEnd(b)) {
		return NE
	}
	if v, ok := b.strVal(); ok && strEnd(a) != "" && !strings.HasSuffix(v, strEnd(a)) {
		return NE
	}
	if a.op == OApp && b.isConst() {
		if r := appConstRel(a, b); r != ALL {
			return r
		}
	}
	if b.op == OApp && a.isConst() {
		if r := appConstRel(b, a); r != ALL {
			return flip(r)
		}
	}
	return ALL
}

// range knowledge of an application against a constant
func appConstRel(a, c *Term) uint8 {
	n, ok := c.intVal()
	if !ok {
		return ALL
	}
	switch a.name {
	case "len", "cap":
		if len(elemsOfKnown(a.args[0])) > 0 && n <= 0 {
			return GT
		}
		if n < 0 {
			return GT
		}
		if n == 0 {
			return GE
		}
	}
	return ALL
}

// elements that are certainly present in a slice value
func elemsOfKnown(t *Term) []*Term {
	var out []*Term
	switch t.op {
	case OColl, OAppend:
		for _, e := range elemsOf(t) {
			if e.op != OSpread {
				out = append(out, e)
			}
		}
	}
	return out
}

// structParts lists the fields of a struct value (nil if t is not one).
func structParts(t *Term) []*Term {
	switch t.op {
	case OStruct:
		return t.args
	case OConst, ONil, OAlloc, OIface, OClosure, OTuple:
		return nil
	}
	s := structOf(t.typ)
	if s == nil || opaqueStruct(t.typ) {
		return nil
	}
	out := make([]*Term, s.NumFields())
	for i := range out {
		out[i] = mkField(t, i, t.typ)
	}
	return out
}

func structPair(a, b *Term) (x, y []*Term) {
	if a.op != OStruct && a.op != OZero && b.op != OStruct && b.op != OZero {
		return nil, nil
	}
	x, y = structParts(a), structParts(b)
	if len(x) == 0 || len(x) != len(y) {
		return nil, nil
	}
	return x, y
}

// possible returns the orders of (a, b) that are not excluded.
func (f *Facts) possible(a, b *Term) uint8 {
	if x, y := structPair(a, b); x != nil && a != b {
		all := true
		for i := range x {
			p := f.possible(x[i], y[i])
			if p&EQ == 0 {
				return NE
			}
			all = all && p == EQ
		}
		if all {
			return EQ
		}
		if v, ok := f.rel[a][b]; ok {
			return v
		}
		return ALL
	}
	r := baseRel(a, b)
	if r == EQ || r == LT || r == GT {
		return r
	}
	ra := f.rel[a]
	if v, ok := ra[b]; ok {
		r &= v
	}
	// constant offsets: a = base+c compared with a constant or with another base
	for m, v := range ra {
		if m == b {
			continue
		}
		mb := baseRel(m, b)
		if w, ok := f.rel[m][b]; ok {
			mb &= w
		}
		if mb != ALL {
			r &= compose(v, mb)
		}
	}
	for m, v := range f.rel[b] {
		if m == a {
			continue
		}
		am := baseRel(a, m)
		if am != ALL {
			r &= compose(am, flip(v))
		}
	}
	if n, ok := b.intVal(); ok && len(ra) > 0 && a.typ != nil && isInteger(a.typ) {
		// between neighbouring numbers there is none
		if v, ok := ra[mkInt(n+1)]; ok && v == LT {
			r &= LE
		}
		if v, ok := ra[mkInt(n-1)]; ok && v == GT {
			r &= GE
		}
	}
	if ba, ca := splitAdd(a); ba != nil && ca != 0 {
		// (base + ca) vs const  <=>  base vs const - ca
		if n, ok := b.intVal(); ok {
			r &= f.possible(ba, mkInt(n-ca))
		} else if bb, cb := splitAdd(b); bb != nil && bb != ba {
			// base+ca vs bb+cb: use base vs bb when offsets agree
			if ca == cb {
				r &= f.possible(ba, bb)
			} else if d := f.rel[ba][bb]; d != 0 {
				if d&GT == 0 && d&EQ == 0 && ca-cb == 1 { // ba < bb  =>  ba+1 <= bb
					r &= LE
				}
				if d&GT == 0 && ca < cb {
					r &= LT
				}
				if d&LT == 0 && ca > cb {
					r &= GT
				}
			}
		}
	} else if bb, cb := splitAdd(b); bb != nil && cb != 0 {
		if n, ok := a.intVal(); ok {
			r &= f.possible(mkInt(n-cb), bb)
		} else if d := f.rel[a][bb]; d != 0 {
			if d&LT == 0 && d&EQ == 0 && cb == 1 { // a > bb => a >= bb+1
				r &= GE
			}
			if d&LT == 0 && cb < 0 {
				r &= GT
			}
			if d&GT == 0 && cb > 0 {
				r &= LT
			}
		}
	}
	return r
}

// truthOf evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (f *Facts) truthOf(t *Term) int {
	switch {
	case t == tTrue:
		return 1
	case t == tFalse:
		return -1
	case t.op == ONot:
		return -f.truthOf(t.args[0])
	}
	if v, ok := f.truth[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	if t.op == OApp {
		switch t.name {
		case "==":
			switch p := f.possible(t.args[0], t.args[1]); {
			case p == EQ:
				return 1
			case p&EQ == 0:
				return -1
			}
		case "<":
			switch p := f.possible(t.args[0], t.args[1]); {
			case p == LT:
				return 1
			case p&LT == 0:
				return -1
			}
		}
	}
	return 0
}

// assume records that t has the given truth; false if that is impossible.
func (f *Facts) assume(t *Term, v bool) bool {
	if t.op == ONot {
		return f.assume(t.args[0], !v)
	}
	if x := f.truthOf(t); x != 0 {
		return (x > 0) == v
	}
	if t.op == OApp && t.name == "==" {
		bits := uint8(EQ)
		if !v {
			bits = NE
		}
		return f.assumeRel(t.args[0], t.args[1], bits)
	}
	if t.op == OApp && t.name == "<" {
		bits := uint8(LT)
		if !v {
			bits = GE
		}
		return f.assumeRel(t.args[0], t.args[1], bits)
	}
	f.truth[t] = v
	return true
}

func (f *Facts) assumeRel(a, b *Term, bits uint8) bool {
	p := f.possible(a, b)
	n := p & bits
	if n == 0 {
		return false
	}
	if x, y := structPair(a, b); x != nil {
		open := -1
		for i := range x {
			if n == EQ {
				if !f.assumeRel(x[i], y[i], EQ) {
					return false
				}
			} else if n&EQ == 0 && f.possible(x[i], y[i]) != EQ {
				if open >= 0 {
					open = len(x)
				} else {
					open = i
				}
			}
		}
		if n&EQ == 0 && open >= 0 && open < len(x) {
			return f.assumeRel(x[open], y[open], NE)
		}
		if n != EQ && n != ALL && p != n {
			f.setRel(a, b, n)
		}
		return true
	}
	if n != baseRel(a, b) {
		f.setRel(a, b, n)
	}
	return true
}

func (f *Facts) isNil(t *Term) bool    { return f.possible(t, tNil) == EQ }
func (f *Facts) isNonNil(t *Term) bool { return f.possible(t, tNil)&EQ == 0 }
func (f *Facts) eq(a, b *Term) bool    { return a == b || f.possible(a, b) == EQ }

// eqDeep: equal by facts, or built in the same way from equal parts
func (f *Facts) eqDeep(a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	if f.eq(a, b) {
		return true
	}
	if a.op != b.op || a.name != b.name || a.idx != b.idx || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	if a.op == OSym || a.op == OAlloc || a.fn != b.fn {
		return false
	}
	for i := range a.args {
		if !f.eqDeep(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

type factPair struct {
	a, b *Term
	bits uint8
}

func (f *Facts) pairs() []factPair {
	var out []factPair
	for a, m := range f.rel {
		for b, v := range m {
			if a.id < b.id {
				out = append(out, factPair{a, b, v})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].a != out[j].a {
			return out[i].a.id < out[j].a.id
		}
		return out[i].b.id < out[j].b.id
	})
	return out
}

// strEnd: what a string that was put together is known to end in.
func strEnd(t *Term) string {
	if t.op != OApp || len(t.args) == 0 || t.name != "concat" && t.name != "path.Join" && t.name != "path/filepath.Join" {
		return ""
	}
	l := t.args[len(t.args)-1]
	v, ok := l.strVal()
	if !ok {
		v = strEnd(l)
	}
	if t.name != "concat" && (v == "" || strings.Contains(v, "/") || strings.HasSuffix(v, ".")) {
		return ""
	}
	return v
}
