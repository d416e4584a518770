package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is the list of branch decisions of a path, newest first.
type Trace struct {
	prev *Trace
	pos  token.Pos
	what string
	n    int
}

type deferred struct {
	instr ssa.Instruction
	name  string
	fn    *Term // closure term or nil
	recv  types.Type
	args  []*Term
	c     *ssa.CallCommon
}

type rangeRec struct {
	idx, slice, bound *Term
	down              bool
}

// qf is a fact about every element of a slice; the index is starSym.
type qf struct {
	a, b *Term // relation bits between a and b, or truth of a when b is nil
	bits uint8
	v    bool
}

type loopState struct {
	zero   bool // no back edge taken yet
	inits  map[ssa.Value]*Term
	ranges []rangeRec
	q      map[*Term][]qf // nil until the first back edge
}

func (l *loopState) clone() *loopState {
	n := &loopState{l.zero, l.inits, append([]rangeRec{}, l.ranges...), map[*Term][]qf{}}
	for k, v := range l.q {
		n.q[k] = v
	}
	return n
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	env    map[ssa.Value]*Term
	defers []deferred
	caller *Frame
	at     ssa.Instruction // in the caller
	loops  map[*ssa.BasicBlock]*loopState
	inDef  bool
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred{}, f.defers...)
	g.loops = make(map[*ssa.BasicBlock]*loopState, len(f.loops))
	for k, v := range f.loops {
		g.loops[k] = v.clone()
	}
	return &g
}

type mapUpd struct {
	k, v *Term // v == nil: deleted
}

type mapState struct {
	fresh bool // created empty on this path and not shared
	ver   *Term
	upd   []mapUpd // oldest first
}

type held struct {
	mu   *Term
	site ssa.Instruction
	read bool
}

// State is what is known at one program point on (a set of) paths.
type State struct {
	e       *Engine
	fr      *Frame
	mem     map[*Term]*Term
	maps    map[*Term]*mapState
	facts   *Facts
	locks   []held
	ver     map[string]*Term
	epoch   *Term
	rootVer map[*Term]*Term // objects with unknown content since a version
	escaped map[*Term]bool
	forall  map[*Term][]qf
	mon     map[string]*Term
	trace   *Trace
	dead    bool
}

func (s *State) clone() *State {
	n := &State{e: s.e, fr: s.fr.clone(), facts: s.facts.clone(), epoch: s.epoch, trace: s.trace}
	n.mem = make(map[*Term]*Term, len(s.mem)+8)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.maps = make(map[*Term]*mapState, len(s.maps))
	for k, v := range s.maps {
		n.maps[k] = v
	}
	n.locks = append([]held{}, s.locks...)
	n.ver = make(map[string]*Term, len(s.ver))
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.rootVer = make(map[*Term]*Term, len(s.rootVer))
	for k, v := range s.rootVer {
		n.rootVer[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	n.forall = make(map[*Term][]qf, len(s.forall))
	for k, v := range s.forall {
		n.forall[k] = v
	}
	n.mon = make(map[string]*Term, len(s.mon))
	for k, v := range s.mon {
		n.mon[k] = v
	}
	return n
}

func (s *State) note(pos token.Pos, what string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{s.trace, pos, what, n}
}

func (s *State) path() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, s.e.p.pos(t.pos)+": "+t.what)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------- addresses

func opaqueStruct(t types.Type) bool {
	switch typeName(t) {
	case "time.Time", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "math/big.Int", "sync/atomic.Value":
		return true
	}
	return false
}

func expandable(t types.Type) *types.Struct {
	if t == nil || opaqueStruct(t) {
		return nil
	}
	return structOf(t)
}

func isArray(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// rootAddr strips field and index steps: the object (pointer or slice value) an address is in.
func rootAddr(a *Term) *Term {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
		if a.op == OSlice {
			a = a.args[0]
		}
	}
	return a
}

var v0 = intern(Term{op: OSym, name: "v0"})
var starSym = intern(Term{op: OSym, name: "*", typ: types.Typ[types.Int]})

func (e *Engine) classOf(addr *Term) string {
	switch addr.op {
	case OFieldAddr:
		return addr.name
	case OIndexAddr:
		return "[]" + typKey(derefT(addr.typ))
	case OGlobal:
		return "global " + addr.name
	}
	if addr.typ != nil {
		return "*" + typKey(derefT(addr.typ))
	}
	return "*?"
}

func (s *State) version(addr *Term) *Term {
	if v, ok := s.rootVer[rootAddr(addr)]; ok {
		return v
	}
	c := s.e.classOf(addr)
	if !s.e.p.mutable[c] {
		return v0
	}
	if v, ok := s.ver[c]; ok {
		return v
	}
	if msgClass(c) {
		return v0
	}
	return s.epoch
}

// msgClass: fields of protocol messages. A message belongs to the request it came with, other goroutines do not
// change it.
func msgClass(c string) bool {
	return strings.HasPrefix(c, "github.com/tendermint/tendermint/proto/") || strings.HasPrefix(c, protoPkg+".")
}

func contentAddr(t *Term) *Term {
	return intern(Term{op: OIndexAddr, name: "content", args: []*Term{t, starSym}})
}

func (s *State) load(addr *Term, t types.Type) *Term {
	return s.load1(addr, t, 0)
}

func (s *State) load1(addr *Term, t types.Type, d int) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if st := expandable(t); st != nil && d < 6 {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.load1(mkFieldAddr(addr, i, t), st.Field(i).Type(), d+1)
		}
		return mkStruct(t, fs)
	}
	if isArray(t) {
		if v, ok := s.mem[contentAddr(addr)]; ok {
			return v
		}
	}
	root := rootAddr(addr)
	if root.op == OAlloc && s.rootVer[root] == nil {
		// fresh: zero unless written; elements written under other indices may be this one
		if addr.op == OIndexAddr || addr.op == OFieldAddr {
			if v := s.pattern(addr); v != nil {
				return v
			}
			if s.mayBeWritten(addr) {
				return intern(Term{op: OLoad, args: []*Term{addr, s.memHash(root)}, typ: t})
			}
		}
		if isArray(t) && s.hasUnder(addr) {
			return intern(Term{op: OLoad, args: []*Term{addr, s.memHash(addr)}, typ: t})
		}
		return mkZero(t)
	}
	if v := s.pattern(addr); v != nil {
		if !s.e.peek {
			s.mem[addr] = v
		}
		return v
	}
	v := intern(Term{op: OLoad, args: []*Term{addr, s.version(addr)}, typ: t})
	if s.e.peek {
		return v
	}
	s.mem[addr] = v
	if addr.op == OGlobal && isErrorType(t) && !s.e.p.mutable["global "+addr.name] {
		s.facts.assumeRel(v, tNil, NE)
	}
	return v
}

// pattern reads a cell that a loop has filled in under its loop variable.
func (s *State) pattern(addr *Term) *Term {
	x := addr
	for x.op == OFieldAddr {
		x = x.args[0]
	}
	if x.op != OIndexAddr || x.name != "" {
		return nil
	}
	if f, ok := s.inOrder(x.args[0], x.args[1]); ok {
		return s.partAt(addr, rewrite(x.args[0].args[0], map[*Term]*Term{}, f))
	}
	if x.args[0].op == OColl || x.args[0].op == OAppend {
		return nil // what its elements are was chosen for this path only
	}
	for a, v := range s.mem {
		if a == addr || a.op != addr.op {
			continue
		}
		if p, j := matchIndex(a, addr); p != nil {
			b, off := splitAdd(p)
			if b == nil || b.op != OSym || b.idx == 0 || b.name != "loop" {
				continue
			}
			jb, jc := splitAdd(j)
			at := mkAddC(jb, jc-off, types.Typ[types.Int])
			return rewrite(v, map[*Term]*Term{}, s.iteration(b, at))
		}
	}
	return nil
}

// partAt: the part of an element's value that an address within the element names.
func (s *State) partAt(addr, v *Term) *Term {
	if addr.op != OFieldAddr {
		return v
	}
	w := s.partAt(addr.args[0], v)
	return mkField(w, addr.idx, derefT(addr.args[0].typ))
}

// matchIndex: the two addresses differ in one index only; returns both indices.
func matchIndex(a, b *Term) (*Term, *Term) {
	if a.op != b.op || a.idx != b.idx || a.op != OFieldAddr && a.op != OIndexAddr || a.name != b.name {
		return nil, nil
	}
	switch a.op {
	case OFieldAddr:
		return matchIndex(a.args[0], b.args[0])
	case OIndexAddr:
		if a.args[0] == b.args[0] && a.name == "" {
			return a.args[1], b.args[1]
		}
	}
	return nil, nil
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (s *State) hasUnder(addr *Term) bool {
	for a := range s.mem {
		for x := a; x.op == OFieldAddr || x.op == OIndexAddr; {
			x = x.args[0]
			if x == addr {
				return true
			}
		}
	}
	return false
}

// memHash: the content of an array as a term
func (s *State) memHash(addr *Term) *Term {
	var l []*Term
	for a, v := range s.mem {
		if isUnder(a, addr) {
			l = append(l, intern(Term{op: OTuple, args: []*Term{a, v}}))
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return intern(Term{op: OTuple, args: l})
}

// mayBeWritten: an entry of memory with another index may be the same cell
func (s *State) mayBeWritten(addr *Term) bool {
	for a := range s.mem {
		if a != addr && a.id != addr.id && s.mayAlias(a, addr) {
			return true
		}
	}
	return false
}

func (s *State) store(addr, v *Term, t types.Type, in ssa.Instruction) {
	s.store1(addr, v, t, in, 0)
}

func (s *State) store1(addr, v *Term, t types.Type, in ssa.Instruction, d int) {
	if st := expandable(t); st != nil && d < 6 {
		delete(s.mem, addr)
		for i := 0; i < st.NumFields(); i++ {
			s.store1(mkFieldAddr(addr, i, t), mkField(v, i, t), st.Field(i).Type(), in, d+1)
		}
		return
	}
	root := rootAddr(addr)
	shared := root.op != OAlloc || s.escaped[root] || s.rootVer[root] != nil
	if shared {
		s.escape(v)
	}
	for a := range s.mem {
		if a == addr {
			continue
		}
		if s.mayAlias(a, addr) || isUnder(a, addr) {
			delete(s.mem, a)
		}
	}
	for sl := range s.forall {
		if addr != sl && s.mayAliasPtr(rootAddr(addr), sl) && addr.op != OGlobal {
			if addr.op == OIndexAddr || addr.op == OFieldAddr {
				if r := rootAddr(addr); r == sl || r.op != OAlloc {
					if types.Identical(typOr(sl), typOr(r)) {
						delete(s.forall, sl)
					}
				}
			}
		}
	}
	if shared {
		c := s.e.classOf(addr)
		s.ver[c] = mkSym(s.fr.ctx, in, "st:"+c, nil)
	}
	s.mem[addr] = v
}

func typOr(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func isUnder(a, base *Term) bool {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
		if a == base {
			return true
		}
	}
	return false
}

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		// a field or element against a plain pointer to the same type
		if a.op == OGlobal || b.op == OGlobal {
			return false
		}
		x, y := a, b
		if x.op != OFieldAddr && x.op != OIndexAddr {
			x, y = y, x
		}
		if y.op == OFieldAddr || y.op == OIndexAddr {
			if x.name == "content" || y.name == "content" {
				return rootAddr(x) == rootAddr(y)
			}
			if !types.Identical(typOr(x), typOr(y)) {
				return false
			}
			rx, ry := rootAddr(x), rootAddr(y)
			if rx == ry {
				return true
			}
			return !(s.private(rx) || s.private(ry))
		}
		if !types.Identical(typOr(x), typOr(y)) {
			return false
		}
		rx := rootAddr(x)
		return !(s.private(rx) || s.private(y)) && y.op != OAlloc
	}
	switch a.op {
	case OFieldAddr:
		return a.idx == b.idx && a.name == b.name && s.mayAliasPtr(a.args[0], b.args[0])
	case OIndexAddr:
		if a.name != b.name {
			return rootAddr(a) == rootAddr(b)
		}
		if a.name != "content" && !types.Identical(typOr(a), typOr(b)) {
			return false
		}
		return s.facts.possible(a.args[1], b.args[1])&EQ != 0 && s.mayAliasPtr(a.args[0], b.args[0])
	}
	return s.mayAliasPtr(a, b)
}

// private: a fresh object no other pointer can lead to
func (s *State) private(r *Term) bool {
	return r.op == OAlloc && !s.escaped[r]
}

func (s *State) mayAliasPtr(x, y *Term) bool {
	if x == y {
		return true
	}
	if s.facts.possible(x, y)&EQ == 0 {
		return false
	}
	if x.op == OAlloc && y.op == OAlloc || x.op == OGlobal && y.op == OGlobal {
		return false
	}
	if x.op == OFieldAddr && y.op == OFieldAddr {
		return x.idx == y.idx && x.name == y.name && s.mayAliasPtr(x.args[0], y.args[0])
	}
	if x.op == OIndexAddr && y.op == OIndexAddr {
		return s.mayAlias(x, y)
	}
	if !types.Identical(derefU(x), derefU(y)) {
		return false
	}
	rx, ry := rootAddr(x), rootAddr(y)
	if rx == ry {
		return true
	}
	if s.private(rx) || s.private(ry) {
		return false
	}
	// a fresh object is not one that existed before
	if rx.op == OAlloc && ry.op == OSym && strings.HasPrefix(ry.name, "param:") ||
		ry.op == OAlloc && rx.op == OSym && strings.HasPrefix(rx.name, "param:") {
		return false
	}
	return true
}

func derefU(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ.Underlying()
}

// escape marks the fresh objects reachable from v as visible to others.
func (s *State) escape(v *Term) {
	var todo []*Term
	for _, l := range v.leaves() {
		if l.op == OAlloc && !s.escaped[l] {
			s.escaped[l] = true
			todo = append(todo, l)
		}
	}
	for _, l := range todo {
		for a, w := range s.mem {
			if rootAddr(a) == l {
				s.escape(w)
			}
		}
		if ms := s.maps[l]; ms != nil {
			for _, u := range ms.upd {
				s.escape(u.k)
				if u.v != nil {
					s.escape(u.v)
				}
			}
		}
	}
}

// volatileCell: other goroutines may write this cell of an escaped object
func (s *State) volatileCell(addr *Term) bool {
	if addr.op == OAlloc {
		if a, ok := addr.instr.(*ssa.Alloc); ok {
			if s.e.p.stores[a] >= 2 {
				return true
			}
		}
		return s.e.p.mutable[s.e.classOf(addr)]
	}
	if addr.op == OIndexAddr && addr.name == "content" || addr.op == OFieldAddr && msgClass(addr.name) {
		return false
	}
	return s.e.p.mutable[s.e.classOf(addr)]
}

// bump: other goroutines may have run; what they can write is unknown from here.
func (s *State) bump(in ssa.Instruction) {
	s.epoch = mkSym(s.fr.ctx, in, "epoch", nil)
	ver := map[string]*Term{}
	for c, v := range s.ver {
		if msgClass(c) {
			ver[c] = v
		}
	}
	s.ver = ver
	for a := range s.mem {
		r := rootAddr(a)
		if r.op == OAlloc && !s.escaped[r] {
			continue
		}
		if s.volatileCell(a) {
			delete(s.mem, a)
		}
	}
	for r := range s.escaped {
		if !s.hasUnder(r) && s.mem[r] == nil || true {
			// cells of escaped objects that are not known any more
			if s.rootVer[r] == nil || s.rootVer[r].name == "epoch" {
				s.rootVer[r] = s.epoch
			}
		}
	}
	for m, ms := range s.maps {
		if m.op == OAlloc && !s.escaped[m] && ms.fresh {
			continue
		}
		delete(s.maps, m)
	}
}

// havoc forgets the content of an object.
func (s *State) havoc(root *Term, in ssa.Instruction, why string) {
	for a := range s.mem {
		if rootAddr(a) == root || a == root || isUnder(a, root) {
			delete(s.mem, a)
		}
	}
	delete(s.maps, root)
	s.rootVer[root] = mkSym(s.fr.ctx, in, "havoc:"+why, nil)
}

// ---------------------------------------------------------------- maps

func (s *State) mapOf(m *Term) *mapState {
	if ms, ok := s.maps[m]; ok {
		return ms
	}
	ms := &mapState{ver: s.mapVer(m)}
	s.maps[m] = ms
	return ms
}

func (s *State) mapVer(m *Term) *Term {
	if v, ok := s.ver["map "+typKey(m.typ)]; ok {
		return v
	}
	return s.epoch
}

func (s *State) mapUpdate(m, k, v *Term, in ssa.Instruction) {
	ms := s.mapOf(m)
	n := &mapState{ms.fresh, ms.ver, nil}
	for _, u := range ms.upd {
		if !s.facts.eqDeep(u.k, k) {
			n.upd = append(n.upd, u)
		}
	}
	n.upd = append(n.upd, mapUpd{k, v})
	if m.op != OAlloc || s.escaped[m] {
		if v != nil {
			s.escape(v)
		}
		// other maps of this type that may be the same one
		for o := range s.maps {
			if o != m && o.op != OAlloc && types.Identical(typOr(o), typOr(m)) {
				delete(s.maps, o)
			}
		}
		s.ver["map "+typKey(m.typ)] = mkSym(s.fr.ctx, in, "mapst", nil)
	}
	s.maps[m] = n
}

type lookupRes struct {
	s      *State
	v, has *Term
}

func (s *State) mapLookup(m, k *Term, elem types.Type) []lookupRes {
	ms := s.mapOf(m)
	var out []lookupRes
	cur := s
	for i := len(ms.upd) - 1; i >= 0; i-- {
		u := ms.upd[i]
		val, has := u.v, tTrue
		if val == nil {
			val, has = mkZero(elem), tFalse
		}
		if cur.facts.eqDeep(u.k, k) {
			return append(out, lookupRes{cur, val, has})
		}
		if !cur.canEq(u.k, k) {
			continue
		}
		n := cur.clone()
		if n.assumeEq(u.k, k, true) {
			out = append(out, lookupRes{n, val, has})
		}
		if !cur.assumeEq(u.k, k, false) {
			return out
		}
	}
	if ms.fresh {
		return append(out, lookupRes{cur, mkZero(elem), tFalse})
	}
	return append(out, lookupRes{cur, mkApp("mapget", elem, m, ms.ver, k), mkApp("maphas", types.Typ[types.Bool], m, ms.ver, k)})
}

// canEq/assumeEq treat structs field by field.
func (s *State) canEq(a, b *Term) bool {
	return s.facts.possible(a, b)&EQ != 0
}

func (s *State) assumeEq(a, b *Term, v bool) bool {
	if v {
		return s.facts.assumeRel(a, b, EQ)
	}
	return s.facts.assumeRel(a, b, NE)
}

// ---------------------------------------------------------------- identity, garbage collection

type keyBuf struct{ b []byte }

func (k *keyBuf) n(i int) {
	k.b = strconv.AppendInt(k.b, int64(i), 36)
	k.b = append(k.b, ' ')
}
func (k *keyBuf) t(t *Term) {
	if t == nil {
		k.b = append(k.b, "- "...)
		return
	}
	k.n(t.id)
}
func (k *keyBuf) s(x string) { k.b = append(k.b, x...); k.b = append(k.b, '|') }

type liveSet struct {
	set  map[*Term]bool
	todo []*Term
}

func (l *liveSet) add(t *Term) {
	if t == nil {
		return
	}
	for _, x := range t.leaves() {
		if !l.set[x] {
			l.set[x] = true
			l.todo = append(l.todo, x)
		}
	}
}

func (l *liveSet) all(t *Term) bool {
	if t == nil {
		return true
	}
	for _, x := range t.leaves() {
		if !l.set[x] && x != v0 && x != starSym && !strings.HasPrefix(x.name, "param:") {
			return false
		}
	}
	return true
}

// cell: the cell can be reached; one filled in under the index of a loop stands for all that the loop filled in.
func (l *liveSet) cell(a *Term) bool {
	for _, x := range a.leaves() {
		if !l.set[x] && x != v0 && x != starSym && !strings.HasPrefix(x.name, "param:") && !(x.op == OSym && x.idx >= 1 && x.name == "loop") {
			return false
		}
	}
	return true
}

// gc drops what can no longer matter: values that are dead, objects and facts that cannot be reached.
func (s *State) gc(live map[ssa.Value]bool, extra ...*Term) {
	l := &liveSet{set: map[*Term]bool{}}
	for v := range s.fr.env {
		if live != nil && !live[v] {
			if _, isParam := v.(*ssa.Parameter); !isParam {
				delete(s.fr.env, v)
			}
		}
	}
	for _, v := range s.fr.env {
		l.add(v)
	}
	for _, t := range extra {
		l.add(t)
	}
	for _, d := range s.fr.defers {
		l.add(d.fn)
		for _, a := range d.args {
			l.add(a)
		}
	}
	for _, ls := range s.fr.loops {
		for _, r := range ls.ranges {
			l.add(r.idx)
			l.add(r.slice)
			l.add(r.bound)
		}
	}
	for f, at := s.fr.caller, s.fr.at; f != nil; f, at = f.caller, f.at {
		la := s.e.p.liveAfter(at)
		for v, t := range f.env {
			if la[v] {
				l.add(t)
			} else if _, ok := v.(*ssa.Parameter); ok {
				l.add(t)
			}
		}
		for _, d := range f.defers {
			l.add(d.fn)
			for _, a := range d.args {
				l.add(a)
			}
		}
		for _, ls := range f.loops {
			for _, r := range ls.ranges {
				l.add(r.idx)
				l.add(r.slice)
				l.add(r.bound)
			}
		}
	}
	for _, t := range s.mon {
		l.add(t)
	}
	for _, h := range s.locks {
		l.add(h.mu)
	}
	for _, v := range s.ver {
		l.add(v)
	}
	l.add(s.epoch)
	for changed := true; changed; {
		changed = false
		before := len(l.set)
		for a, v := range s.mem {
			if l.cell(a) {
				l.add(v)
			}
		}
		for m, ms := range s.maps {
			if l.all(m) {
				l.add(ms.ver)
				for _, u := range ms.upd {
					if u.v != nil { // what is known of a deleted key no longer matters
						l.add(u.k)
						l.add(u.v)
					}
				}
			}
		}
		for r, v := range s.rootVer {
			if l.all(r) {
				l.add(v)
			}
		}
		changed = len(l.set) != before
	}
	for a := range s.mem {
		if !l.cell(a) {
			delete(s.mem, a)
		}
	}
	for m := range s.maps {
		if !l.all(m) {
			delete(s.maps, m)
		}
	}
	for r := range s.rootVer {
		if !l.all(r) {
			delete(s.rootVer, r)
		}
	}
	for r := range s.escaped {
		if !l.all(r) {
			delete(s.escaped, r)
		}
	}
	for sl := range s.forall {
		if !l.all(sl) {
			delete(s.forall, sl)
		}
	}
	f := s.facts
	for a, m := range f.rel {
		if !l.all(a) {
			delete(f.rel, a)
			continue
		}
		bad := false
		for b := range m {
			if !l.all(b) {
				bad = true
			}
		}
		if bad {
			n := map[*Term]uint8{}
			for b, v := range m {
				if l.all(b) {
					n[b] = v
				}
			}
			if len(n) == 0 {
				delete(f.rel, a)
			} else {
				f.rel[a] = n
			}
		}
	}
	for t := range f.truth {
		if isApp(t, "inorder") && l.all(t.args[0]) {
			continue
		}
		if !l.all(t) {
			delete(f.truth, t)
		}
	}
}

// key identifies the state at a program point (after gc).
func (s *State) key(extra ...*Term) string {
	k := &keyBuf{make([]byte, 0, 1024)}
	type vt struct {
		n string
		t *Term
	}
	var vs []vt
	for v, t := range s.fr.env {
		vs = append(vs, vt{v.Name(), t})
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].n < vs[j].n })
	for _, x := range vs {
		k.s(x.n)
		k.t(x.t)
	}
	for _, t := range extra {
		k.t(t)
	}
	k.s("D")
	for _, d := range s.fr.defers {
		k.n(instrID(d.instr))
		k.t(d.fn)
		for _, a := range d.args {
			k.t(a)
		}
	}
	k.s("L")
	var hs []int
	hm := map[int]*loopState{}
	for b, ls := range s.fr.loops {
		hs = append(hs, b.Index)
		hm[b.Index] = ls
	}
	sort.Ints(hs)
	for _, h := range hs {
		ls := hm[h]
		k.n(h)
		if ls.zero {
			k.s("z")
		}
		for _, r := range ls.ranges {
			k.t(r.idx)
			k.t(r.slice)
			k.t(r.bound)
			if q, ok := ls.q[r.slice]; ok {
				k.s("q" + qkey(q))
			}
		}
	}
	k.s("M")
	var as []*Term
	for a, v := range s.mem {
		if v.op == OLoad && v.args[0] == a && v.args[1] == s.version(a) {
			continue
		}
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		k.t(a)
		k.t(s.mem[a])
	}
	k.s("m")
	as = as[:0]
	for m, ms := range s.maps {
		if !ms.fresh && len(ms.upd) == 0 && ms.ver == s.mapVer(m) {
			continue
		}
		as = append(as, m)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, m := range as {
		ms := s.maps[m]
		k.t(m)
		k.t(ms.ver)
		if ms.fresh {
			k.s("f")
		}
		for _, u := range ms.upd {
			k.t(u.k)
			k.t(u.v)
		}
	}
	k.s("F")
	for _, p := range s.facts.pairs() {
		k.t(p.a)
		k.t(p.b)
		k.n(int(p.bits))
	}
	as = as[:0]
	for t := range s.facts.truth {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, t := range as {
		k.t(t)
		if s.facts.truth[t] {
			k.s("T")
		}
	}
	k.s("K")
	for _, h := range s.locks {
		k.t(h.mu)
	}
	k.t(s.epoch)
	var cs []string
	for c := range s.ver {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		k.s(c)
		k.t(s.ver[c])
	}
	as = as[:0]
	for r := range s.rootVer {
		as = append(as, r)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, r := range as {
		k.t(r)
		k.t(s.rootVer[r])
	}
	as = as[:0]
	for r := range s.escaped {
		as = append(as, r)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	k.s("E")
	for _, r := range as {
		k.t(r)
	}
	as = as[:0]
	for r := range s.forall {
		as = append(as, r)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	k.s("A")
	for _, r := range as {
		k.t(r)
		k.s(qkey(s.forall[r]))
	}
	cs = cs[:0]
	for c := range s.mon {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	k.s("N")
	for _, c := range cs {
		k.s(c)
		k.t(s.mon[c])
	}
	return string(k.b)
}

func qkey(q []qf) string {
	var l []string
	for _, f := range q {
		b := -1
		if f.b != nil {
			b = f.b.id
		}
		l = append(l, fmt.Sprintf("%d,%d,%d,%v", f.a.id, b, f.bits, f.v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}
