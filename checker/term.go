package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a term (value number).
type Op uint8

const (
	OConst     Op = iota
	ONil          // nil of any type
	OSym          // unknown value, identified by where it is created
	OAlloc        // address of a fresh object (variable, new, make)
	OGlobal       // address of a package variable
	OFieldAddr    // &base.field
	OIndexAddr    // &base[idx]
	OLoad         // value read from shared memory: args = addr, version
	OField        // field of a struct value
	OStruct       // struct value, args = fields
	OZero         // zero value of a struct or array type
	OApp          // pure function of its arguments
	OTuple
	OIface   // interface holding args[0] of dynamic type typ
	OClosure // fn with bindings
	OSlice   // args[0][lo:hi] (lo, hi may be nil)
	OAppend  // append(args[0], args[1:]...)
	OColl    // collection: unordered set of the elements appended in a loop
	OSpread  // all elements of args[0]
	ONot
)

// Ctx is a call string.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

var ctxTab = map[string]*Ctx{}
var ctxList []*Ctx

func mkCtx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	pid, d := -1, 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, call, fn)
	if c, ok := ctxTab[k]; ok {
		return c
	}
	c := &Ctx{len(ctxList), parent, call, fn, d}
	ctxTab[k] = c
	ctxList = append(ctxList, c)
	return c
}

// Term is a hash-consed value number: equal terms are the same pointer.
type Term struct {
	id   int
	op   Op
	name string
	args []*Term
	typ  types.Type
	val  constant.Value
	fn   *ssa.Function
	idx  int // field index, generation of symbols
	// symbols
	ctx   *Ctx
	instr ssa.Instruction
	size  int
}

var termTab = map[string]*Term{}
var termList []*Term

func typKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := typKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typKeys[t] = s
	return s
}

var typKeys = map[types.Type]string{}
var instrIDs = map[ssa.Instruction]int{}

func instrID(i ssa.Instruction) int {
	if i == nil {
		return -1
	}
	if n, ok := instrIDs[i]; ok {
		return n
	}
	n := len(instrIDs)
	instrIDs[i] = n
	return n
}

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.idx))
	for _, a := range t.args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('-')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	if t.op == OSym || t.op == OAlloc {
		cid := -1
		if t.ctx != nil {
			cid = t.ctx.id
		}
		fmt.Fprintf(&b, "|%d|%d", cid, instrID(t.instr))
	} else {
		if t.val != nil {
			b.WriteString("|" + t.val.ExactString())
		}
		if t.fn != nil {
			fmt.Fprintf(&b, "|%p", t.fn)
		}
		switch t.op {
		case OIface, OStruct, OZero:
			b.WriteString("|" + typKey(t.typ))
		}
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	x := new(Term)
	*x = t
	x.id = len(termList)
	x.size = 1
	for _, a := range t.args {
		if a != nil {
			x.size += a.size
		}
	}
	termTab[k] = x
	termList = append(termList, x)
	return x
}

var (
	tNil   = intern(Term{op: ONil})
	tTrue  = intern(Term{op: OConst, val: constant.MakeBool(true), name: "b"})
	tFalse = intern(Term{op: OConst, val: constant.MakeBool(false), name: "b"})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(n int64) *Term { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }

func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }

func mkConst(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			v = constant.ToFloat(v)
			return intern(Term{op: OConst, name: "f", val: v, typ: t})
		}
		return intern(Term{op: OConst, name: "i", val: v, typ: t})
	case constant.String:
		return intern(Term{op: OConst, name: "s", val: v, typ: t})
	}
	return intern(Term{op: OConst, name: "f", val: v, typ: t})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.name == "i" {
		return constant.Int64Val(t.val)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.name == "s" {
		return constant.StringVal(t.val), true
	}
	return "", false
}

func mkSym(ctx *Ctx, instr ssa.Instruction, name string, typ types.Type) *Term {
	return intern(Term{op: OSym, ctx: ctx, instr: instr, name: name, typ: typ})
}

func mkApp(name string, typ types.Type, args ...*Term) *Term {
	return intern(Term{op: OApp, name: name, args: args, typ: typ})
}

func mkZero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return tNil
	case *types.Struct, *types.Array:
		return intern(Term{op: OZero, typ: t})
	case *types.Tuple:
		return intern(Term{op: OTuple})
	}
	return tNil
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// mkFieldAddr: &base.field; st is the struct type base points to.
func mkFieldAddr(base *Term, i int, st types.Type) *Term {
	s := structOf(st)
	var ft types.Type
	n := ""
	if s != nil {
		ft = types.NewPointer(s.Field(i).Type())
		n = structName(st) + "." + s.Field(i).Name()
	}
	return intern(Term{op: OFieldAddr, name: n, args: []*Term{base}, idx: i, typ: ft, val: nil})
}

// structOwner names a struct type that several defined types share (type A B) by one of them.
var structOwner = map[*types.Struct]string{}

func structName(t types.Type) string {
	s := structOf(t)
	if s == nil {
		return typeName(t)
	}
	if n, ok := structOwner[s]; ok {
		return n
	}
	n := typeName(t)
	if _, ok := types.Unalias(t).(*types.Named); ok {
		structOwner[s] = n
	}
	return n
}

func typeName(t types.Type) string {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	case *types.Pointer:
		return "*" + typeName(n.Elem())
	}
	return typKey(t)
}

func mkField(v *Term, i int, st types.Type) *Term {
	s := structOf(st)
	switch v.op {
	case OStruct:
		if i < len(v.args) {
			return v.args[i]
		}
	case OZero:
		if s == nil {
			s = structOf(v.typ)
		}
		if s != nil {
			return mkZero(s.Field(i).Type())
		}
	}
	var ft types.Type
	n := ""
	if s != nil {
		ft = s.Field(i).Type()
		n = structName(st) + "." + s.Field(i).Name()
	}
	return intern(Term{op: OField, name: n, args: []*Term{v}, idx: i, typ: ft})
}

func mkStruct(t types.Type, fields []*Term) *Term {
	// eta: a struct of all the fields of one value is that value
	if len(fields) > 0 && fields[0].op == OField && fields[0].idx == 0 {
		b := fields[0].args[0]
		ok := b.typ != nil && types.Identical(b.typ, t)
		for i, f := range fields {
			ok = ok && f.op == OField && f.idx == i && f.args[0] == b
		}
		if ok {
			return b
		}
	}
	allZero := true
	s := structOf(t)
	for i, f := range fields {
		if s == nil || f != mkZero(s.Field(i).Type()) {
			allZero = false
		}
	}
	if allZero {
		return mkZero(t)
	}
	return intern(Term{op: OStruct, args: fields, typ: t})
}

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.op == ONot:
		return t.args[0]
	}
	return intern(Term{op: ONot, args: []*Term{t}, typ: types.Typ[types.Bool]})
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return mkNot(b)
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.isConst() && b.isConst() && a.name == b.name {
		return mkBool(constant.Compare(a.val, token.EQL, b.val))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: OApp, name: "==", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() && a.name == b.name {
		return mkBool(constant.Compare(a.val, token.LSS, b.val))
	}
	return intern(Term{op: OApp, name: "<", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func isNumeric(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// splitAdd decomposes integer terms into base + constant.
func splitAdd(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.op == OApp && t.name == "+c" {
		n, _ := t.args[1].intVal()
		return t.args[0], n
	}
	return t, 0
}

func mkAddC(b *Term, n int64, typ types.Type) *Term {
	if b == nil {
		return mkConst(constant.MakeInt64(n), typ)
	}
	if b.op == OApp && b.name == "+c" {
		m, _ := b.args[1].intVal()
		b, n = b.args[0], n+m
	}
	if n == 0 {
		return b
	}
	return mkApp("+c", typ, b, mkInt(n))
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if isInteger(typ) {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		switch op {
		case token.ADD:
			if ba == nil {
				return mkAddC(bb, ca+cb, typ)
			}
			if bb == nil {
				return mkAddC(ba, ca+cb, typ)
			}
			if ba.id > bb.id {
				ba, bb = bb, ba
			}
			return mkAddC(mkApp("+", typ, ba, bb), ca+cb, typ)
		case token.SUB:
			if bb == nil {
				return mkAddC(ba, ca-cb, typ)
			}
			if ba == bb {
				return mkAddC(nil, ca-cb, typ)
			}
			if ba == nil {
				return mkAddC(mkApp("neg", typ, bb), ca-cb, typ)
			}
			return mkAddC(mkApp("-", typ, ba, bb), ca-cb, typ)
		case token.MUL:
			if a.isConst() && b.isConst() {
				return mkConst(constant.BinaryOp(a.val, op, b.val), typ)
			}
			if a.id > b.id {
				a, b = b, a
			}
		case token.QUO, token.REM:
			if n, ok := b.intVal(); ok && a.isConst() && n != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return mkConst(constant.BinaryOp(a.val, o, b.val), typ)
			}
		case token.AND, token.OR, token.XOR:
			if a.isConst() && b.isConst() {
				return mkConst(constant.BinaryOp(a.val, op, b.val), typ)
			}
		}
	} else if op == token.ADD && isStringT(typ) {
		return mkConcat(a, b)
	}
	return mkApp(op.String(), typ, a, b)
}

func intRange(t types.Type) (lo, hi constant.Value, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64,
		types.UntypedInt: 64, types.UntypedRune: 32}[b.Kind()]
	if bits == 0 {
		return nil, nil, false
	}
	one := constant.MakeInt64(1)
	if b.Info()&types.IsUnsigned != 0 {
		return constant.MakeInt64(0), constant.BinaryOp(constant.Shift(one, token.SHL, uint(bits)), token.SUB, one), true
	}
	h := constant.Shift(one, token.SHL, uint(bits-1))
	return constant.UnaryOp(token.SUB, h, 0), constant.BinaryOp(h, token.SUB, one), true
}

func fitsIn(from, to types.Type) bool {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	return ok1 && ok2 && constant.Compare(tl, token.LEQ, fl) && constant.Compare(fh, token.LEQ, th)
}

// mkConvert models a conversion of v (static type from) to type to.
func mkConvert(v *Term, from, to types.Type) *Term {
	if isInteger(from) && isInteger(to) {
		if v.isConst() {
			lo, hi, _ := intRange(to)
			if constant.Compare(lo, token.LEQ, v.val) && constant.Compare(v.val, token.LEQ, hi) {
				return mkConst(v.val, to)
			}
		}
		if fitsIn(from, to) {
			return v
		}
		// narrowing back to (at least) the type the value had before it was widened
		if v.typ != nil && isInteger(v.typ) && v.op != OApp && fitsIn(v.typ, to) {
			return v
		}
		return mkApp("conv:"+typKey(to.Underlying()), to, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if v.op == OConst && v.name == "i" && isNumeric(to) {
		return mkConst(v.val, to)
	}
	if v == tNil {
		return tNil
	}
	// string <-> []byte round trips
	nm := "conv:" + typKey(to.Underlying())
	if v.op == OApp && strings.HasPrefix(v.name, "conv:") && v.args[0].typ != nil && types.Identical(v.args[0].typ.Underlying(), to.Underlying()) &&
		!isNumeric(to) {
		return v.args[0]
	}
	if v.isConst() && v.name == "s" {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return v
		}
	}
	return mkApp(nm, to, v)
}

// subterms visits t and its subterms.
func (t *Term) walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.args {
		a.walk(f)
	}
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(u *Term) bool {
		if u == x {
			found = true
		}
		return !found
	})
	return found
}

// leaves returns the symbols a term is made of.
var leafMemo = map[*Term][]*Term{}

func (t *Term) leaves() []*Term {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	set := map[*Term]bool{}
	if t.op == OSym || t.op == OAlloc {
		set[t] = true
	}
	for _, a := range t.args {
		if a != nil {
			for _, l := range a.leaves() {
				set[l] = true
			}
		}
	}
	out := make([]*Term, 0, len(set))
	for l := range set {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	leafMemo[t] = out
	return out
}

// rewrite rebuilds a term bottom-up, replacing subterms for which f returns non-nil.
func rewrite(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = rewrite(a, memo, f)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		switch {
		case t.op == OApp && t.name == "==":
			r = mkEq(args[0], args[1])
		case t.op == OApp && t.name == "+c":
			bb, m := splitAdd(args[0])
			n, _ := args[1].intVal()
			r = mkAddC(bb, m+n, t.typ)
		case t.op == OColl:
			r = mkColl(args, t.typ)
		case t.op == ONot:
			r = mkNot(args[0])
		default:
			n := *t
			n.args = args
			r = intern(n)
		}
	}
	memo[t] = r
	return r
}

// mkColl makes the unordered collection of elems (flattening, deduplicating).
func mkColl(elems []*Term, typ types.Type) *Term {
	set := map[*Term]bool{}
	var add func(e *Term)
	add = func(e *Term) {
		switch {
		case e == nil || e == tNil:
		case e.op == OSpread && (e.args[0].op == OColl || e.args[0].op == OAppend || e.args[0] == tNil):
			for _, x := range elemsOf(e.args[0]) {
				add(x)
			}
		default:
			set[e] = true
		}
	}
	for _, e := range elems {
		add(e)
	}
	var l []*Term
	for e := range set {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return intern(Term{op: OColl, args: l, typ: typ})
}

// elemsOf lists the elements of a slice built by appends (spread terms for unknown parts).
func elemsOf(t *Term) []*Term {
	switch {
	case t == tNil || t == nil:
		return nil
	case t.op == OColl:
		return t.args
	case t.op == OAppend:
		return append(append([]*Term{}, elemsOf(t.args[0])...), t.args[1:]...)
	case t.op == OAlloc && t.name == "makeslice0":
		return nil
	}
	return []*Term{intern(Term{op: OSpread, args: []*Term{t}})}
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string { return t.str(6) }

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	gen := ""
	if t.idx > 0 && (t.op == OSym || t.op == OAlloc) {
		gen = "'" + strings.Repeat("'", t.idx-1)
	}
	l := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		return t.val.String()
	case ONil:
		return "nil"
	case OSym:
		if v, ok := t.instr.(ssa.Value); ok && t.name != "" {
			p := ""
			if f := t.instr.Parent(); f != nil {
				p = f.Name() + "."
			}
			return p + v.Name() + ":" + shortName(t.name) + gen
		}
		return shortName(t.name) + gen
	case OAlloc:
		n := t.name
		if v, ok := t.instr.(ssa.Value); ok {
			n = v.Name() + ":" + n
			if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
				n = a.Comment
			}
		}
		return "&" + n + gen
	case OGlobal:
		return "&" + shortName(t.name)
	case OFieldAddr:
		return t.args[0].str(d) + ".&" + t.name[strings.LastIndex(t.name, ".")+1:]
	case OIndexAddr:
		return t.args[0].str(d) + "[&" + t.args[1].str(d-1) + "]"
	case OLoad:
		return "*" + t.args[0].str(d) + "@" + t.args[1].str(1)
	case OField:
		return t.args[0].str(d) + "." + t.name[strings.LastIndex(t.name, ".")+1:]
	case OStruct:
		return shortType(t.typ) + "{" + l(t.args) + "}"
	case OZero:
		return shortType(t.typ) + "{}"
	case OApp:
		return shortName(t.name) + "(" + l(t.args) + ")"
	case OTuple:
		return "<" + l(t.args) + ">"
	case OIface:
		return "iface[" + shortType(t.typ) + "](" + t.args[0].str(d-1) + ")"
	case OClosure:
		return "func " + t.fn.Name() + "{" + l(t.args) + "}"
	case OSlice:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":" + t.args[2].str(d-1) + "]"
	case OAppend:
		return "append(" + l(t.args) + ")"
	case OColl:
		return "coll{" + l(t.args) + "}"
	case OSpread:
		return t.args[0].str(d-1) + "..."
	case ONot:
		return "!" + t.args[0].str(d)
	}
	return "?"
}
