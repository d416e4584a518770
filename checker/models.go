package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// outcome is one way an external call can end.
type outcome struct {
	s   *State
	res *Term
}

type model func(e *Engine, s *State, k *Call) []outcome

// genericError is the dynamic type of errors whose identity does not matter.
var genericErrT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "genericError", nil), types.NewStruct(nil, nil), nil)
var wrapErrT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "wrapError", nil), types.NewStruct(nil, nil), nil)
var genericErr = intern(Term{op: OIface, args: []*Term{mkStr("error")}, typ: genericErrT})

func isErrT(t *Term) bool {
	return t.op == OIface && (t.typ == genericErrT || t.typ == wrapErrT)
}

func mkWrapErr(inner *Term) *Term {
	return intern(Term{op: OIface, args: []*Term{inner}, typ: wrapErrT})
}

func one1(s *State, res *Term) []outcome { return []outcome{{s, res}} }

func tuple(ts ...*Term) *Term { return intern(Term{op: OTuple, args: ts}) }

var emptyTuple = tuple()

var errT = types.Universe.Lookup("error").Type()

func resultTypes(k *Call) *types.Tuple {
	if k.common.IsInvoke() {
		return k.common.Method.Type().(*types.Signature).Results()
	}
	return k.common.Signature().Results()
}

// fresh makes new symbols for the results of a call.
func (s *State) freshRes(k *Call) *Term {
	rt := resultTypes(k)
	var l []*Term
	for i := 0; i < rt.Len(); i++ {
		l = append(l, mkSym(s.fr.ctx, k.instr, fmt.Sprintf("res:%s#%d", k.name, i), rt.At(i).Type()))
	}
	if len(l) == 1 {
		return l[0]
	}
	s.siblings(l)
	return tuple(l...)
}

// siblings: when a call reports no error its pointer results are not nil.
func (s *State) siblings(l []*Term) {
	if len(l) < 2 || !isErrorType(l[len(l)-1].typ) {
		return
	}
	er := l[len(l)-1]
	if _, ok := s.e.sibs[er]; !ok {
		s.e.sibs[er] = l[:len(l)-1]
	}
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan, *types.Map:
		return true
	}
	return false
}

// pureRes: results that are functions of the arguments.
func (s *State) pureRes(k *Call, args ...*Term) *Term {
	rt := resultTypes(k)
	if rt.Len() == 1 {
		return mkApp(k.name, rt.At(0).Type(), args...)
	}
	var l []*Term
	for i := 0; i < rt.Len(); i++ {
		l = append(l, mkApp(fmt.Sprintf("%s#%d", k.name, i), rt.At(i).Type(), args...))
	}
	s.siblings(l)
	return tuple(l...)
}

func (s *State) contents(args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		out = append(out, s.content(a))
	}
	return out
}

// content resolves a value to what it holds: bytes of slices, structs behind pointers, elements of argument lists.
func (s *State) content(t *Term) *Term { return s.content1(t, 0) }

func (s *State) content1(t *Term, d int) *Term {
	if t == nil || d > 8 {
		return t
	}
	switch t.op {
	case OIface:
		return s.content1(t.args[0], d+1)
	case OStruct:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = s.content1(a, d+1)
		}
		return mkStruct(t.typ, args)
	case OSlice:
		b := t.args[0]
		if t.args[1] == nil && t.args[2] == nil {
			if at := arrayOf(typOr(b)); at != nil && b.op == OAlloc {
				return s.arrayContent(b, at, d)
			}
			if isPointerT(b.typ) {
				return s.load(b, derefT(b.typ))
			}
			return s.content1(b, d+1)
		}
		var bc *Term
		if isPointerT(b.typ) {
			if b.op == OAlloc {
				bc = s.arrayContent(b, arrayOf(b.typ), d)
			} else {
				bc = s.load(b, derefT(b.typ))
			}
		} else {
			bc = s.content1(b, d+1)
		}
		lo, hi := t.args[1], t.args[2]
		if lo == nil {
			lo = mkInt(0)
		}
		if hi == nil {
			return mkApp("sub", t.typ, bc, lo)
		}
		return mkApp("sub", t.typ, bc, lo, hi)
	case OAppend:
		base := s.content1(t.args[0], d+1)
		if len(t.args) == 2 && t.args[1].op == OSpread && s.isEmpty(t.args[0]) {
			return s.content1(t.args[1].args[0], d+1)
		}
		if isBytesLike(typOr(t)) && s.isEmpty(t.args[0]) {
			base = tNil // the content is the same whatever empty slice is appended to
		}
		args := []*Term{base}
		for _, a := range t.args[1:] {
			if a.op == OSpread {
				a = intern(Term{op: OSpread, args: []*Term{s.content1(a.args[0], d+1)}})
			}
			args = append(args, a)
		}
		if len(args) == 1 {
			return base
		}
		return intern(Term{op: OAppend, args: args, typ: t.typ})
	case OAlloc:
		if v, ok := s.mem[contentAddr(t)]; ok {
			return v
		}
		if t.name == "makeslice" || t.name == "makeslice0" {
			if s.rootVer[t] != nil {
				return mkApp("bytes", t.typ, t, s.rootVer[t])
			}
			if s.hasUnder(t) {
				return mkApp("bytes", t.typ, t, s.memHash(t))
			}
			return mkApp("zeros", t.typ, t.args[0])
		}
		if isPointerT(t.typ) && structOf(derefT(t.typ)) != nil && d < 5 {
			return mkApp("deref", derefT(t.typ), s.content1(s.load(t, derefT(t.typ)), d+1))
		}
		return t
	case OFieldAddr, OIndexAddr, OGlobal:
		if structOf(derefT(typOr(t))) != nil && d < 5 {
			return mkApp("deref", derefT(t.typ), s.content1(s.load(t, derefT(t.typ)), d+1))
		}
		return t
	}
	if v, ok := s.mem[contentAddr(t)]; ok {
		return v
	}
	if isPointerT(t.typ) && t != tNil {
		if st := expandable(derefT(t.typ)); st != nil && st.NumFields() > 0 && d < 5 && !s.facts.isNil(t) {
			return mkApp("deref", derefT(t.typ), s.content1(s.load(t, derefT(t.typ)), d+1))
		}
		return t
	}
	return t
}

func (s *State) isEmpty(t *Term) bool {
	n, ok := s.lenOf(t).intVal()
	return ok && n == 0
}

func isPointerT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// arrayContent: the elements of a literal array, or the value of an array variable.
func (s *State) arrayContent(a *Term, at *types.Array, d int) *Term {
	if v, ok := s.mem[contentAddr(a)]; ok {
		return v
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	if at.Len() <= 16 && s.rootVer[a] == nil {
		var l []*Term
		for i := int64(0); i < at.Len(); i++ {
			l = append(l, s.content1(s.load(intern(Term{op: OIndexAddr, args: []*Term{a, mkInt(i)}, typ: types.NewPointer(at.Elem())}), at.Elem()), d+1))
		}
		return tuple(l...)
	}
	return s.load(a, derefT(a.typ))
}

// varargs lists the arguments behind a variadic parameter.
func (s *State) varargs(t *Term) []*Term {
	if t == nil || t == tNil {
		return nil
	}
	if t.op == OSlice && t.args[0].op == OAlloc {
		if at := arrayOf(t.args[0].typ); at != nil && at.Len() <= 32 {
			var l []*Term
			for i := int64(0); i < at.Len(); i++ {
				l = append(l, s.load(intern(Term{op: OIndexAddr, args: []*Term{t.args[0], mkInt(i)}, typ: types.NewPointer(at.Elem())}), at.Elem()))
			}
			return l
		}
	}
	var l []*Term
	switch t.op {
	case OAppend, OColl:
		return elemsOf(t)
	}
	l = append(l, intern(Term{op: OSpread, args: []*Term{t}}))
	return l
}

// mkConcat concatenates strings.
func mkConcat(parts ...*Term) *Term {
	var l []*Term
	add := func(p *Term) {
		if v, ok := p.strVal(); ok {
			if v == "" {
				return
			}
			if n := len(l); n > 0 {
				if w, ok := l[n-1].strVal(); ok {
					l[n-1] = mkStr(w + v)
					return
				}
			}
		}
		l = append(l, p)
	}
	for _, p := range parts {
		if p.op == OApp && p.name == "concat" {
			for _, q := range p.args {
				add(q)
			}
			continue
		}
		add(p)
	}
	switch len(l) {
	case 0:
		return mkStr("")
	case 1:
		return l[0]
	}
	return mkApp("concat", types.Typ[types.String], l...)
}

func unIface(t *Term) (*Term, types.Type) {
	if t.op == OIface {
		return t.args[0], t.typ
	}
	return t, t.typ
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// sprintf: formatting of plain strings and integers is concatenation.
func (s *State) sprintf(format string, args []*Term) *Term {
	var parts []*Term
	lit := ""
	n := 0
	simple := true
	for i := 0; i < len(format) && simple; i++ {
		c := format[i]
		if c != '%' {
			lit += string(c)
			continue
		}
		i++
		if i >= len(format) {
			simple = false
			break
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if n >= len(args) {
			simple = false
			break
		}
		v, t := unIface(args[n])
		n++
		switch {
		case (format[i] == 's' || format[i] == 'v') && isStringT(t):
			parts = append(parts, mkStr(lit), v)
		case (format[i] == 'd' || format[i] == 'v') && isInteger(t) && !isNamedStringer(t):
			parts = append(parts, mkStr(lit), mkItoa(v))
		default:
			simple = false
		}
		lit = ""
	}
	if simple && n == len(args) {
		return mkConcat(append(parts, mkStr(lit))...)
	}
	l := []*Term{mkStr(format)}
	return mkApp("fmt.Sprintf", types.Typ[types.String], append(l, s.contents(args)...)...)
}

func isNamedStringer(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.NumMethods() > 0
}

func mkItoa(v *Term) *Term {
	if n, ok := v.intVal(); ok {
		return mkStr(fmt.Sprint(n))
	}
	return mkApp("itoa", types.Typ[types.String], v)
}

// ---------------------------------------------------------------- decoding

// decodeInto stores a decoded value at addr.
func (s *State) decodeInto(addr *Term, t types.Type, v *Term, in ssa.Instruction, d int) {
	if st := expandable(t); st != nil && d < 6 {
		for i := 0; i < st.NumFields(); i++ {
			s.decodeInto(mkFieldAddr(addr, i, t), st.Field(i).Type(), mkField(v, i, t), in, d+1)
		}
		return
	}
	if isPointerT(t) {
		cur := s.load(addr, t)
		if cur != tNil && s.facts.isNonNil(cur) && rootAddr(cur).op != OSym || cur.op == OAlloc {
			s.decodeInto(cur, derefT(t), mkApp("deref", derefT(t), v), in, d+1)
			return
		}
		if cur != tNil && s.facts.isNonNil(cur) {
			s.decodeInto(cur, derefT(t), mkApp("deref", derefT(t), v), in, d+1)
			return
		}
	}
	if s.e.h.Store != nil {
		s.e.h.Store(s, addr, v, in)
	}
	s.store(addr, v, t, in)
}

func decode(kind string, data func(k *Call, s *State) *Term, target func(k *Call) *Term) model {
	return func(e *Engine, s *State, k *Call) []outcome {
		tg, _ := unIface(target(k))
		dt := data(k, s)
		if dt == nil {
			dt = mkSym(s.fr.ctx, k.instr, "input:"+k.name, nil)
		}
		tt := derefT(typOr(tg))
		for isPointerT(tt) {
			tt = derefT(tt)
		}
		name := kind + ":" + typKey(tt)
		v := mkApp("decoded:"+name, derefT(typOr(tg)), dt)
		if tg.typ != nil && isPointerT(tg.typ) {
			if e.h.Decode != nil {
				e.h.Decode(s, tg, v, k)
			}
			s.decodeInto(tg, derefT(tg.typ), v, k.instr, 0)
		}
		er := mkApp("decodeErr:"+name, errT, dt)
		rt := resultTypes(k)
		if rt.Len() == 1 {
			return one1(s, er)
		}
		var l []*Term
		for i := 0; i < rt.Len()-1; i++ {
			l = append(l, mkSym(s.fr.ctx, k.instr, fmt.Sprintf("res:%s#%d", k.name, i), rt.At(i).Type()))
		}
		return one1(s, tuple(append(l, er)...))
	}
}

func argN(i int) func(k *Call) *Term { return func(k *Call) *Term { return k.arg(i) } }
func dataN(i int) func(k *Call, s *State) *Term {
	return func(k *Call, s *State) *Term { return s.content(k.arg(i)) }
}
func noData(k *Call, s *State) *Term { return nil }

// pure: results depend only on the content of the arguments.
func pure(e *Engine, s *State, k *Call) []outcome {
	return one1(s, s.pureRes(k, s.contents(k.args)...))
}

// noEffect: nothing of interest happens; results are unknown.
func noEffect(e *Engine, s *State, k *Call) []outcome { return one1(s, s.freshRes(k)) }

// nonNilRes: a new object.
func nonNilRes(e *Engine, s *State, k *Call) []outcome {
	r := s.freshRes(k)
	if r.op == OSym {
		s.facts.assumeRel(r, tNil, NE)
	}
	return one1(s, r)
}

func exits(e *Engine, s *State, k *Call) []outcome {
	if e.h.Panic != nil {
		e.h.Panic(s, k.instr, k.name)
	}
	s.dead = true
	return nil
}

func newErr(e *Engine, s *State, k *Call) []outcome { return one1(s, genericErr) }

func lockM(read, try bool) model {
	return func(e *Engine, s *State, k *Call) []outcome {
		mu := k.arg(0)
		acquire := func(s *State) {
			if e.h.Lock != nil {
				e.h.Lock(s, mu, k.instr)
			}
			for _, l := range s.locks {
				if l.mu == mu && (!read || !l.read) {
					s.dead = true // waits for itself: nothing follows
					return
				}
			}
			s.locks = append(s.locks, held{mu, k.instr, read})
			s.bump(k.instr)
		}
		if try {
			no := s.clone()
			acquire(s)
			if s.dead {
				return []outcome{{no, tFalse}}
			}
			return []outcome{{s, tTrue}, {no, tFalse}}
		}
		acquire(s)
		if s.dead {
			return nil
		}
		return one1(s, emptyTuple)
	}
}

func unlockM(e *Engine, s *State, k *Call) []outcome {
	mu := k.arg(0)
	if e.h.Unlock != nil {
		e.h.Unlock(s, mu, k.instr)
	}
	for i := len(s.locks) - 1; i >= 0; i-- {
		if s.locks[i].mu == mu {
			s.locks = append(append([]held{}, s.locks[:i]...), s.locks[i+1:]...)
			break
		}
	}
	// what was written may be changed by others from now on
	s.bump(k.instr)
	return one1(s, emptyTuple)
}

func (e *Engine) wait(s *State, what string, in ssa.Instruction) {
	if e.h.Wait != nil {
		e.h.Wait(s, what, in)
	}
	s.bump(in)
}

var models map[string]model

// packages whose functions have no effect on the program and whose results depend on their arguments only
var purePkgs = []string{"strings.", "strconv.", "path.", "path/filepath.", "bytes.", "math.", "unicode.", "unicode/utf8.",
	"encoding/hex.", "encoding/base64.", "net/url.", "math/bits.", "cmp."}

func init() {
	m := map[string]model{}
	models = m
	// errors
	m["errors.New"] = newErr
	for _, n := range []string{"google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		m[n] = newErr
	}
	m["fmt.Errorf"] = func(e *Engine, s *State, k *Call) []outcome {
		f, ok := k.arg(0).strVal()
		if ok && strings.Contains(f, "%w") {
			n := strings.Count(strings.ReplaceAll(f[:strings.Index(f, "%w")], "%%", ""), "%")
			va := s.varargs(k.arg(1))
			if n < len(va) {
				return one1(s, mkWrapErr(va[n]))
			}
		}
		return one1(s, genericErr)
	}
	m["errors.As"] = errorsAs
	m["errors.Is"] = func(e *Engine, s *State, k *Call) []outcome {
		a, b := k.arg(0), k.arg(1)
		if a == tNil {
			return one1(s, mkEq(b, tNil))
		}
		return one1(s, mkApp("errors.Is", types.Typ[types.Bool], a, b))
	}
	m["errors.Unwrap"] = func(e *Engine, s *State, k *Call) []outcome {
		if a := k.arg(0); a.op == OIface && a.typ == wrapErrT {
			return one1(s, a.args[0])
		}
		return noEffect(e, s, k)
	}
	// decoding
	m["github.com/tendermint/tendermint/libs/protoio.UnmarshalDelimited"] = decode("pb", dataN(0), argN(1))
	m["encoding/json.Unmarshal"] = decode("json", dataN(0), argN(1))
	m["github.com/tendermint/tendermint/libs/json.Unmarshal"] = decode("tmjson", dataN(0), argN(1))
	m["gopkg.in/yaml.v2.Unmarshal"] = decode("yaml", dataN(0), argN(1))
	m["gopkg.in/yaml.v2.UnmarshalStrict"] = decode("yaml", dataN(0), argN(1))
	m["github.com/gogo/protobuf/proto.Unmarshal"] = decode("pbraw", dataN(0), argN(1))
	m["google.golang.org/protobuf/proto.Unmarshal"] = decode("pbraw", dataN(0), argN(1))
	m["github.com/spf13/viper.Unmarshal"] = decode("viper", noData, argN(0))
	m["encoding/json.Decoder.Decode"] = decode("json", func(k *Call, s *State) *Term {
		return mkApp("stream", nil, k.arg(0), mkSym(s.fr.ctx, k.instr, "decode", nil))
	}, argN(1))
	m["github.com/tendermint/go-amino.Codec.UnmarshalBinaryBare"] = decode("amino", dataN(1), argN(2))
	m["invoke github.com/tendermint/tendermint/libs/protoio.ReadCloser.ReadMsg"] = decode("wire", noData, argN(1))
	m["invoke github.com/tendermint/tendermint/libs/protoio.Reader.ReadMsg"] = decode("wire", noData, argN(1))
	m["encoding/json.NewDecoder"] = func(e *Engine, s *State, k *Call) []outcome {
		return one1(s, mkApp("json.Decoder", resultTypes(k).At(0).Type(), k.arg(0)))
	}
	nonNilApps["json.Decoder"] = true
	// encoding and other functions of their arguments
	for _, n := range []string{
		"encoding/json.Marshal", "encoding/json.MarshalIndent", "github.com/tendermint/tendermint/libs/json.Marshal",
		"github.com/tendermint/tendermint/libs/json.MarshalIndent", "gopkg.in/yaml.v2.Marshal",
		"crypto/sha256.Sum256", "crypto/x509.MarshalPKCS1PrivateKey", "crypto/x509.MarshalPKCS1PublicKey",
		"crypto/x509.ParsePKCS1PrivateKey", "crypto/x509.ParsePKCS1PublicKey",
		"github.com/tendermint/tendermint/types.VoteSignBytes", "github.com/tendermint/tendermint/types.ProposalSignBytes",
		"github.com/gogo/protobuf/proto.Equal", "google.golang.org/protobuf/proto.Equal",
		"gitlab.com/polychainlabs/threshold-ed25519/pkg.ExpandSecret", "gitlab.com/polychainlabs/threshold-ed25519/pkg.ScalarMultiplyBase",
		"gitlab.com/polychainlabs/threshold-ed25519/pkg.AddScalars", "gitlab.com/polychainlabs/threshold-ed25519/pkg.AddElements",
		"gitlab.com/polychainlabs/threshold-ed25519/pkg.CombineShares", "gitlab.com/polychainlabs/threshold-ed25519/pkg.SignWithShare",
		"gitlab.com/polychainlabs/edwards25519.ScMinimal",
		"github.com/tendermint/tendermint/libs/net.ProtocolAndAddress", "time.ParseDuration",
		"github.com/tendermint/tendermint/crypto/encoding.PubKeyToProto", "github.com/tendermint/tendermint/crypto/encoding.PubKeyFromProto",
		"context.Background", "context.TODO", "google.golang.org/grpc/credentials/insecure.NewCredentials",
		"google.golang.org/grpc.WithTransportCredentials", "net.SplitHostPort", "net.JoinHostPort",
		"crypto/rsa.VerifyPSS", "os.Getpid", "os.IsNotExist", "os.IsExist", "os.IsPermission",
		"invoke github.com/tendermint/tendermint/crypto.PubKey.VerifySignature",
		"invoke github.com/tendermint/tendermint/crypto.PubKey.Bytes", "invoke github.com/tendermint/tendermint/crypto.PrivKey.Bytes",
		"invoke github.com/tendermint/tendermint/crypto.PubKey.Address",
		"invoke " + sigPkg + ".Cosigner.GetID", "invoke " + sigPkg + ".Cosigner.GetAddress",
		"bytes.Equal", "bytes.Compare", "reflect.DeepEqual", "crypto/subtle.ConstantTimeCompare",
	} {
		m[n] = pure
	}
	for _, n := range []string{"context.Background", "context.TODO"} {
		nonNilApps[n] = true
	}
	for _, n := range []string{"invoke " + sigPkg + ".Cosigner.GetID", "invoke " + sigPkg + ".Cosigner.GetAddress",
		"invoke github.com/tendermint/tendermint/crypto.PubKey.Bytes", "invoke error.Error"} {
		m[n] = func(e *Engine, s *State, k *Call) []outcome { // identity of the receiver, not its content
			return one1(s, s.pureRes(k, k.args...))
		}
	}
	m["bytes.Equal"] = func(e *Engine, s *State, k *Call) []outcome {
		a, b := s.content(k.arg(0)), s.content(k.arg(1))
		if a == b {
			return one1(s, tTrue)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return one1(s, mkApp("bytes.Equal", types.Typ[types.Bool], a, b))
	}
	for _, n := range []string{"github.com/gogo/protobuf/proto.Equal", "google.golang.org/protobuf/proto.Equal"} {
		m[n] = func(e *Engine, s *State, k *Call) []outcome {
			a, b := s.content(k.arg(0)), s.content(k.arg(1))
			if a == b {
				return one1(s, tTrue)
			}
			return one1(s, mkApp("proto.Equal", types.Typ[types.Bool], a, b))
		}
	}
	// formatting
	m["fmt.Sprintf"] = func(e *Engine, s *State, k *Call) []outcome {
		va := s.varargs(k.arg(1))
		if f, ok := k.arg(0).strVal(); ok {
			return one1(s, s.sprintf(f, va))
		}
		return one1(s, mkApp("fmt.Sprintf", types.Typ[types.String], append([]*Term{k.arg(0)}, s.contents(va)...)...))
	}
	m["fmt.Sprint"] = func(e *Engine, s *State, k *Call) []outcome {
		va := s.varargs(k.arg(0))
		if len(va) == 1 {
			v, t := unIface(va[0])
			if isStringT(t) {
				return one1(s, v)
			}
			if isInteger(t) && !isNamedStringer(t) {
				return one1(s, mkItoa(v))
			}
		}
		return one1(s, mkApp("fmt.Sprint", types.Typ[types.String], s.contents(va)...))
	}
	m["strconv.Itoa"] = func(e *Engine, s *State, k *Call) []outcome { return one1(s, mkItoa(k.arg(0))) }
	m["strconv.FormatInt"] = func(e *Engine, s *State, k *Call) []outcome {
		if n, ok := k.arg(1).intVal(); ok && n == 10 {
			return one1(s, mkItoa(k.arg(0)))
		}
		return pure(e, s, k)
	}
	join := func(e *Engine, s *State, k *Call) []outcome {
		var l []*Term
		for _, a := range s.varargs(k.arg(0)) {
			if a.op == OApp && a.name == "path.Join" {
				l = append(l, a.args...)
			} else if v, ok := a.strVal(); ok && strings.Contains(v, "/") {
				for _, p := range strings.Split(v, "/") {
					if p != "" {
						l = append(l, mkStr(p))
					}
				}
			} else {
				l = append(l, a)
			}
		}
		return one1(s, mkApp("path.Join", types.Typ[types.String], l...))
	}
	m["path.Join"], m["path/filepath.Join"] = join, join
	// time
	m["time.Unix"] = func(e *Engine, s *State, k *Call) []outcome {
		a, b := k.arg(0), k.arg(1)
		if n, ok := a.intVal(); ok && n == 0 && b.op == OApp && b.name == "unixnano" {
			// same instant (location is not part of what is compared here)
			return one1(s, mkApp("time.Unix", resultTypes(k).At(0).Type(), a, b))
		}
		return one1(s, mkApp("time.Unix", resultTypes(k).At(0).Type(), a, b))
	}
	m["time.Time.UnixNano"] = func(e *Engine, s *State, k *Call) []outcome {
		a := k.arg(0)
		if a.op == OApp && a.name == "time.Unix" {
			if n, ok := a.args[0].intVal(); ok && n == 0 {
				return one1(s, a.args[1])
			}
		}
		return one1(s, mkApp("unixnano", types.Typ[types.Int64], a))
	}
	for _, n := range []string{"UTC", "Local", "Round", "In"} {
		if n == "UTC" || n == "Local" {
			m["time.Time."+n] = func(e *Engine, s *State, k *Call) []outcome { return one1(s, k.arg(0)) }
		}
	}
	for _, n := range []string{"Equal", "IsZero", "Unix", "Sub", "Before", "After", "Add", "Format", "String"} {
		m["time.Time."+n] = pure
	}
	m["time.Now"] = noEffect
	m["time.Since"] = noEffect
	m["time.Sleep"] = func(e *Engine, s *State, k *Call) []outcome {
		e.wait(s, "time.Sleep", k.instr)
		return one1(s, emptyTuple)
	}
	// random and cryptographic operations
	readRand := func(arg int) model {
		return func(e *Engine, s *State, k *Call) []outcome {
			buf := k.arg(arg)
			r := s.freshRes(k)
			v := mkApp("random", nil, mkStr(k.name), mkSym(s.fr.ctx, k.instr, "rnd", nil))
			if k.name == "io.ReadFull" {
				v = mkApp("random", nil, s.content(k.arg(0)), mkSym(s.fr.ctx, k.instr, "rnd", nil))
			}
			s.setContent(buf, v, k.instr)
			return one1(s, r)
		}
	}
	m["crypto/rand.Read"] = readRand(0)
	m["math/rand.Read"] = readRand(0)
	m["io.ReadFull"] = readRand(1)
	m["gitlab.com/polychainlabs/threshold-ed25519/pkg.DealShares"] = func(e *Engine, s *State, k *Call) []outcome {
		args := append(s.contents(k.args), mkSym(s.fr.ctx, k.instr, "dealt", nil))
		return one1(s, mkApp("DealShares", resultTypes(k).At(0).Type(), args...))
	}
	for _, n := range []string{"EncryptOAEP", "DecryptOAEP", "SignPSS"} {
		m["crypto/rsa."+n] = func(e *Engine, s *State, k *Call) []outcome {
			return one1(s, s.pureRes(k, s.contents(k.args)...))
		}
	}
	m["crypto/rsa.GenerateKey"] = noEffect
	m["crypto/sha256.New"] = nonNilRes
	// objects
	m["github.com/tendermint/tendermint/privval.LoadFilePV"] = nonNilRes
	m["github.com/tendermint/tendermint/privval.LoadFilePVEmptyState"] = nonNilRes
	for _, n := range []string{"github.com/tendermint/tendermint/libs/log.NewTMLogger", "google.golang.org/grpc.NewServer",
		"github.com/hashicorp/raft.DefaultConfig", "github.com/Jille/raft-grpc-transport.New", "github.com/tendermint/tendermint/libs/service.NewBaseService",
		"invoke github.com/tendermint/tendermint/libs/log.Logger.With", "github.com/tendermint/tendermint/libs/protoio.NewDelimitedReader",
		"github.com/tendermint/tendermint/libs/protoio.NewDelimitedWriter", "github.com/hashicorp/raft.Raft.Apply",
		"github.com/spf13/cobra.Command.Flags", "github.com/spf13/cobra.Command.PersistentFlags"} {
		m[n] = nonNilRes
	}
	m["github.com/tendermint/tendermint/libs/protoio.NewDelimitedWriter"] = func(e *Engine, s *State, k *Call) []outcome {
		return one1(s, mkApp("writer", resultTypes(k).At(0).Type(), k.arg(0)))
	}
	m["github.com/tendermint/tendermint/libs/protoio.NewDelimitedReader"] = func(e *Engine, s *State, k *Call) []outcome {
		return one1(s, mkApp("reader", resultTypes(k).At(0).Type(), k.arg(0)))
	}
	nonNilApps["writer"], nonNilApps["reader"] = true, true
	// flags are the same whenever they are read
	for _, n := range []string{"GetBool", "GetString", "GetInt", "GetInt64", "GetUint8", "GetDuration", "GetStringSlice"} {
		m["github.com/spf13/pflag.FlagSet."+n] = func(e *Engine, s *State, k *Call) []outcome {
			rt := resultTypes(k)
			return one1(s, tuple(mkApp("flag", rt.At(0).Type(), k.arg(1)), mkApp("flagErr", errT, k.arg(1))))
		}
	}
	m["github.com/mitchellh/go-homedir.Dir"] = pure
	m["os.Getpid"] = pure
	m["github.com/spf13/viper.ConfigFileUsed"] = pure
	// synchronisation
	m["sync.Mutex.Lock"], m["sync.Mutex.TryLock"], m["sync.Mutex.Unlock"] = lockM(false, false), lockM(false, true), unlockM
	m["sync.RWMutex.Lock"], m["sync.RWMutex.Unlock"], m["sync.RWMutex.RLock"], m["sync.RWMutex.RUnlock"] = lockM(false, false), unlockM, lockM(true, false), unlockM
	m["invoke sync.Locker.Lock"], m["invoke sync.Locker.Unlock"] = lockM(false, false), unlockM
	m["sync.WaitGroup.Wait"] = func(e *Engine, s *State, k *Call) []outcome {
		e.wait(s, "WaitGroup.Wait", k.instr)
		return one1(s, emptyTuple)
	}
	m["sync.Cond.Wait"] = m["sync.WaitGroup.Wait"]
	m["sync.WaitGroup.Add"], m["sync.WaitGroup.Done"] = noEffect, noEffect
	// process
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "github.com/tendermint/tendermint/libs/os.Exit", "runtime.Goexit"} {
		m[n] = exits
	}
	// builtins
	m["builtin append"] = biAppend
	m["builtin copy"] = biCopy
	m["builtin len"] = func(e *Engine, s *State, k *Call) []outcome { return one1(s, s.lenOf(k.arg(0))) }
	m["builtin cap"] = func(e *Engine, s *State, k *Call) []outcome {
		return one1(s, mkApp("cap", types.Typ[types.Int], k.arg(0)))
	}
	m["builtin delete"] = func(e *Engine, s *State, k *Call) []outcome {
		if e.h.MapUpdate != nil {
			e.h.MapUpdate(s, k.arg(0), k.arg(1), nil, k.instr)
		}
		s.mapUpdate(k.arg(0), k.arg(1), nil, k.instr)
		return one1(s, emptyTuple)
	}
	m["builtin ssa:wrapnilchk"] = func(e *Engine, s *State, k *Call) []outcome { return one1(s, k.arg(0)) }
	m["builtin close"], m["builtin print"], m["builtin println"] = noEffect, noEffect, noEffect
	m["builtin recover"] = noEffect
	m["builtin min"] = pure
	m["builtin max"] = pure
	m["builtin panic"] = exits
}

// setContent replaces the bytes a slice refers to.
func (s *State) setContent(buf, v *Term, in ssa.Instruction) {
	b := buf
	for b.op == OSlice && b.args[1] == nil && b.args[2] == nil {
		b = b.args[0]
	}
	for a := range s.mem {
		if isUnder(a, b) {
			delete(s.mem, a)
		}
	}
	if b.op == OSlice {
		// part of a slice: the whole is unknown
		r := rootAddr(b.args[0])
		s.havoc(r, in, "part")
		return
	}
	if b.op != OAlloc || s.escaped[b] {
		s.escape(v)
	}
	s.mem[contentAddr(b)] = v
	delete(s.mem, b)
}

func errorsAs(e *Engine, s *State, k *Call) []outcome {
	tgt, _ := unIface(k.arg(1))
	if tgt.typ == nil {
		return noEffect(e, s, k)
	}
	t := derefT(tgt.typ)
	_, toIface := t.Underlying().(*types.Interface)
	er := k.arg(0)
	for er.op == OIface && er.typ == wrapErrT {
		er = er.args[0]
	}
	switch {
	case er == tNil || er.op == OIface && er.typ == genericErrT:
		return one1(s, tFalse)
	case er.op == OIface:
		if !toIface && types.Identical(er.typ, t) || toIface && types.Implements(er.typ, t.Underlying().(*types.Interface)) {
			v := er.args[0]
			if toIface {
				v = er
			}
			s.store(tgt, v, t, k.instr)
			return one1(s, tTrue)
		}
		return one1(s, tFalse)
	}
	no := s.clone()
	c := mkApp("is:errors.As:"+typKey(t), types.Typ[types.Bool], er)
	var out []outcome
	if no.assume(c, false) {
		out = append(out, outcome{no, tFalse})
	}
	if s.assume(c, true) {
		v := mkApp("as:"+typKey(t), t, er)
		s.facts.assumeRel(v, tNil, NE)
		s.store(tgt, v, t, k.instr)
		out = append(out, outcome{s, tTrue})
	}
	return out
}

func biAppend(e *Engine, s *State, k *Call) []outcome {
	base := k.arg(0)
	rt := k.instr.(ssa.Value).Type()
	if len(k.args) < 2 {
		return one1(s, base)
	}
	x := k.arg(1)
	var add []*Term
	if x == tNil {
		return one1(s, base)
	}
	bytesLike := isBytesLike(rt)
	if la := x; la.op == OSlice && la.args[0].op == OAlloc && la.args[1] == nil && la.args[2] == nil && isVarargs(la.args[0]) {
		add = s.varargs(x)
	} else if c, ok := x.strVal(); ok && bytesLike {
		add = []*Term{intern(Term{op: OSpread, args: []*Term{mkStr(c)}})}
	} else {
		switch {
		case bytesLike:
			add = []*Term{intern(Term{op: OSpread, args: []*Term{s.content(x)}})}
		case x.op == OAppend || x.op == OColl:
			add = elemsOf(x)
		case x.op == OAlloc && x.name == "makeslice0":
		default:
			add = []*Term{intern(Term{op: OSpread, args: []*Term{x}})}
		}
	}
	if e.h.Append != nil {
		e.h.Append(s, base, add, k.instr)
	}
	if base == tNil && len(add) == 1 && add[0].op == OSpread && !bytesLike {
		// a copy of the other slice: same elements
		return one1(s, mkColl(add, rt))
	}
	if base.op == OColl {
		return one1(s, mkColl(append(append([]*Term{}, base.args...), add...), rt))
	}
	if base.op == OSlice && base.args[0].op == OAlloc && base.args[1] == nil && base.args[2] == nil && !bytesLike {
		// append to a literal
		if at := arrayOf(base.args[0].typ); at != nil && at.Len() <= 16 && s.rootVer[base.args[0]] == nil {
			lit := s.varargs(base)
			return one1(s, intern(Term{op: OAppend, args: append(append([]*Term{tNil}, lit...), add...), typ: rt}))
		}
	}
	if base.op == OAppend {
		return one1(s, intern(Term{op: OAppend, args: append(append([]*Term{}, base.args...), add...), typ: rt}))
	}
	return one1(s, intern(Term{op: OAppend, args: append([]*Term{base}, add...), typ: rt}))
}

// isVarargs: the array holds the listed operands of an append (and not the elements of a variable)
func isVarargs(a *Term) bool {
	al, ok := a.instr.(*ssa.Alloc)
	return ok && (al.Comment == "varargs" || al.Comment == "slicelit")
}

func biCopy(e *Engine, s *State, k *Call) []outcome {
	dst, src := k.arg(0), k.arg(1)
	c := s.content(src)
	ld, ls := s.lenOf(dst), s.lenOf(src)
	if !s.facts.eqDeep(ld, ls) {
		c = mkApp("copied", typOr(dst), c, ld)
	}
	s.setContent(dst, c, k.instr)
	return one1(s, mkSym(s.fr.ctx, k.instr, "copied", types.Typ[types.Int]))
}

// ---------------------------------------------------------------- dispatch

var loggerPrefixes = []string{"invoke github.com/tendermint/tendermint/libs/log.Logger.", "fmt.Print", "fmt.Fprint", "log.Print", "github.com/spf13/cobra.Command.Print"}

func isLogCall(name string) bool {
	if strings.HasSuffix(name, "Logger.With") {
		return false
	}
	for _, p := range loggerPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// functions that keep or read what they are given but do not change it
var readOnly = map[string]bool{}

func init() {
	for _, n := range []string{
		tmTypes + ".BlockIDFromProto", tmTypes + ".VoteFromProto", tmTypes + ".ProposalFromProto", tmTypes + ".PartSetHeaderFromProto",
		"google.golang.org/grpc.Dial", "google.golang.org/grpc.DialContext", "io/ioutil.WriteFile", "os.WriteFile", "io/ioutil.ReadFile", "os.ReadFile",
		"github.com/tendermint/tendermint/libs/tempfile.WriteFileAtomic", "github.com/hashicorp/raft.Raft.BootstrapCluster",
		"github.com/hashicorp/raft.NewRaft", "net.Dialer.Dial", "invoke io.Writer.Write", "invoke github.com/hashicorp/raft.SnapshotSink.Write",
		"github.com/tendermint/tendermint/p2p/conn.MakeSecretConnection", "invoke github.com/tendermint/tendermint/libs/protoio.WriteCloser.WriteMsg",
		"invoke github.com/tendermint/tendermint/libs/protoio.Writer.WriteMsg", "github.com/spf13/pflag.FlagSet.StringVar",
		"os.Stat", "os.MkdirAll", "os.Rename", "os.Remove",
	} {
		readOnly[n] = true
	}
}

func isPureName(n string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			r := n[len(p):]
			return !strings.Contains(r, ".") || p == "net/url."
		}
	}
	return false
}

// external models a call that is not followed into.
func (e *Engine) external(s *State, k *Call) []outcome {
	if e.h.Model != nil {
		if r, ok := e.h.Model(s, k); ok {
			return r
		}
	}
	if m, ok := models[k.name]; ok {
		return m(e, s, k)
	}
	if isLogCall(k.name) {
		return noEffect(e, s, k)
	}
	if isPureName(k.name) && !hasFuncArg(k) {
		return pure(e, s, k)
	}
	if r, ok := e.getter(s, k); ok {
		return r
	}
	if strings.HasPrefix(k.name, "github.com/tendermint/tendermint/proto/") || strings.HasPrefix(k.name, protoPkg+".") {
		i := strings.LastIndex(k.name, ".")
		switch k.name[i+1:] {
		case "Unmarshal":
			return decode("pbraw", dataN(1), argN(0))(e, s, k)
		case "Marshal", "String", "Size":
			return pure(e, s, k)
		}
	}
	return e.unknown(s, k)
}

func hasFuncArg(k *Call) bool {
	for _, a := range k.args {
		if a.op == OClosure {
			return true
		}
	}
	return false
}

// getter: the generated GetX methods of message types
func (e *Engine) getter(s *State, k *Call) ([]outcome, bool) {
	i := strings.LastIndex(k.name, ".")
	if i < 0 || !strings.HasPrefix(k.name[i+1:], "Get") || len(k.args) != 1 || k.common.IsInvoke() && k.args[0].op != OAlloc {
		return nil, false
	}
	f := k.name[i+4:]
	t := typOr(k.args[0])
	st := structOf(derefT(t))
	if st == nil {
		return nil, false
	}
	if !strings.Contains(k.name, "/proto/") && !strings.Contains(k.name, "/proto.") {
		return nil, false
	}
	for j := 0; j < st.NumFields(); j++ {
		if w := oneofWrapper(st.Field(j), derefT(t), f); w != nil && st.Field(j).Name() != f {
			return e.oneofGet(s, k, j, w), true
		}
		if st.Field(j).Name() != f {
			continue
		}
		p := k.args[0]
		var out []outcome
		if !isPointerT(t) {
			return one1(s, mkField(p, j, t)), true
		}
		if !s.facts.isNonNil(p) {
			n := s
			if !s.facts.isNil(p) {
				n = s.clone()
			}
			if n.facts.assumeRel(p, tNil, EQ) {
				out = append(out, outcome{n, mkZero(st.Field(j).Type())})
			}
			if n == s {
				return out, true
			}
		}
		if s.facts.assumeRel(p, tNil, NE) {
			a := mkFieldAddr(p, j, derefT(t))
			if e.h.Load != nil {
				e.h.Load(s, a, k.instr)
			}
			out = append(out, outcome{s, s.load(a, st.Field(j).Type())})
		}
		return out, true
	}
	return nil, false
}

// oneofWrapper: the type that holds a member of a oneof field of a generated message type.
func oneofWrapper(fld *types.Var, msg types.Type, member string) types.Type {
	n, ok := types.Unalias(msg).(*types.Named)
	it, isI := fld.Type().Underlying().(*types.Interface)
	if !ok || !isI || n.Obj().Pkg() == nil {
		return nil
	}
	o, ok := n.Obj().Pkg().Scope().Lookup(n.Obj().Name() + "_" + member).(*types.TypeName)
	if !ok {
		return nil
	}
	st := structOf(o.Type())
	if st == nil || st.NumFields() != 1 || st.Field(0).Name() != member || !types.Implements(types.NewPointer(o.Type()), it) {
		return nil
	}
	return o.Type()
}

// oneofGet: the member, or its zero value if the message holds another one. A member that was read is not nil.
func (e *Engine) oneofGet(s *State, k *Call, j int, w types.Type) []outcome {
	p := k.args[0]
	t := typOr(p)
	mt := structOf(w).Field(0).Type()
	var sum *Term
	var out []outcome
	st := structOf(derefT(t))
	if isPointerT(t) {
		if n := s.clone(); n.facts.assumeRel(p, tNil, EQ) {
			out = append(out, outcome{n, mkZero(mt)})
		}
		if !s.facts.assumeRel(p, tNil, NE) {
			return out
		}
		sum = s.load(mkFieldAddr(p, j, derefT(t)), st.Field(j).Type())
	} else {
		sum = mkField(p, j, t)
	}
	pw := types.NewPointer(w)
	if sum.op == OIface && types.Identical(sum.typ, pw) {
		return append(out, outcome{s, s.load(mkFieldAddr(sum.args[0], 0, w), mt)})
	}
	if sum.op == OIface || sum == tNil {
		return append(out, outcome{s, mkZero(mt)})
	}
	is := mkEq(mkApp("typeof", types.Typ[types.String], sum), typeTerm(pw))
	if y := s.clone(); y.assume(is, true) && y.facts.assumeRel(sum, tNil, NE) {
		v := mkApp("as:"+typKey(pw), pw, sum)
		y.facts.assumeRel(v, tNil, NE)
		m := y.load(mkFieldAddr(v, 0, w), mt)
		if isPointerT(mt) {
			y.facts.assumeRel(m, tNil, NE)
		}
		out = append(out, outcome{y, m})
	}
	if s.assume(is, false) {
		out = append(out, outcome{s, mkZero(mt)})
	}
	return out
}

// unknown: a call that is not modelled. Private objects it gets a pointer to may be changed.
func (e *Engine) unknown(s *State, k *Call) []outcome {
	ro := readOnly[k.name]
	inv := strings.HasPrefix(k.name, "invoke ")
	for _, a := range k.args {
		x, _ := unIface(a)
		if x.op == OClosure && len(x.fn.Blocks) > 0 && (e.p.inRepo[x.fn] || x.fn.Pkg == nil) {
			for _, b := range x.args {
				s.escape(b)
			}
			var args []*Term
			for i, p := range x.fn.Params {
				args = append(args, mkSym(s.fr.ctx, k.instr, fmt.Sprintf("cbarg%d", i), p.Type()))
			}
			if e.h.Go != nil {
				e.h.Go(s, &Call{instr: k.instr, name: x.fn.String(), fn: x.fn, common: k.common, args: args})
			}
			e.spawn(s, x.fn, args, x.args, k.instr)
			continue
		}
		if !ro && x.op == OAlloc && isPointerT(x.typ) && !e.repoType(derefT(x.typ)) {
			s.escape(x)
			s.havoc(x, k.instr, k.name)
			continue
		}
		if !ro && x.op == OAlloc && isPointerT(x.typ) && structOf(derefT(x.typ)) == nil {
			s.havoc(x, k.instr, k.name)
		}
		s.escape(a)
	}
	if inv && (strings.Contains(k.name, sigPkg+".Cosigner.") || strings.Contains(k.name, "types.PrivValidator.")) {
		s.bump(k.instr)
		if strings.HasSuffix(k.name, "PrivValidator.SignVote") || strings.HasSuffix(k.name, "PrivValidator.SignProposal") {
			e.signed(s, k)
		}
	}
	if strings.HasPrefix(k.name, "dynamic ") && strings.Contains(k.name, "func(") {
		// an unknown function value may do anything that is done under a lock
		if !strings.Contains(k.name, "context.CancelFunc") && k.name != "dynamic func()" {
			s.bump(k.instr)
		}
	}
	return one1(s, s.freshRes(k))
}

func (e *Engine) repoType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// signed: a validator fills in signature and timestamp of the message it signs.
func (e *Engine) signed(s *State, k *Call) {
	msg := k.args[len(k.args)-1]
	t := derefT(typOr(msg))
	st := structOf(t)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Signature", "Timestamp":
			s.store(mkFieldAddr(msg, i, t), mkSym(s.fr.ctx, k.instr, "signed:"+st.Field(i).Name(), st.Field(i).Type()), st.Field(i).Type(), k.instr)
		}
	}
}

// externals lists the names of the functions the models know (for the evidence).
func modelNames() []string {
	var l []string
	for n := range models {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
