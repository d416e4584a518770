package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", c32) }

const bech32Encode = "github.com/cosmos/cosmos-sdk/types/bech32.ConvertAndEncode"

// c32: a signer shows the identity of the key that it signs with.
func c32(c *Check) {
	shown := c.rule("the address and public keys that are printed are those of the key of this node, in the prefix that was given", 4)
	file := c.rule("the key is read from the file that is configured", 2)
	told := c.rule("success means that the identity was printed", 1)
	held := c.rule("the validator answers with the public key of the key share it was started with", 2)

	pubField := "" // the field of the validator that GetPubKey returns
	// keyOf: the key share file's content this is a field of
	keyOf := func(v *Term, field string) *Term {
		if v == nil || v.op != OField || fieldNameOf(v) != field || typeName(derefT(typOr(v.args[0]))) != ckT {
			return nil
		}
		return v.args[0]
	}
	// read: the path of the file whose content v was made from
	read := func(s *State, v *Term) *Term {
		for _, m := range s.monKeys("own:read:") {
			if p := s.mon[m]; v.contains(p.args[0]) {
				return p.args[1]
			}
		}
		return nil
	}
	rightFile := func(s *State, p *Term) bool {
		if p == nil {
			return false
		}
		p = s.content(p)
		isFile := func(t *Term) bool { return isConfigured(t, "PrivValKeyFile") }
		if isFile(p) {
			return true
		}
		if !isApp(p, "path.Join", "path/filepath.Join") || len(p.args) != 2 || p.args[1] != mkStr("share.json") || !isConfigured(p.args[0], "HomeDir") {
			return false
		}
		// only if no file is configured
		a := loadAddr(p.args[0])
		if a == nil || a.op != OFieldAddr {
			return false
		}
		f := s.get(a.args[0], c.p.namedType(cmdPkg, "Config"), "PrivValKeyFile")
		return s.facts.possible(f, mkStr("")) == EQ
	}
	// made: what a text was made from: "address" and "public key" of the key, "given" (an argument); anything else
	// that has content of its own is "other"
	type source struct {
		kinds map[string]bool
		hrps  []*Term
		forms map[string]bool
		keys  []*Term
	}
	made := func(s *State, v *Term) source {
		r := source{map[string]bool{}, nil, map[string]bool{}, nil}
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			t = unconv(s.content(t))
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			switch {
			case isApp(t, "invoke github.com/tendermint/tendermint/crypto.PubKey.Address"):
				if k := keyOf(s.content(t.args[0]), "PubKey"); k != nil {
					r.kinds["address"] = true
					r.keys = append(r.keys, k)
				} else {
					r.kinds["other"] = true
				}
			case keyOf(t, "PubKey") != nil:
				r.kinds["public key"] = true
				r.keys = append(r.keys, keyOf(t, "PubKey"))
			case s.isArg(t, 0):
				r.kinds["given"] = true
			case t.op == OSym && s.mon[key("own:from", t.id)] != nil:
				from := s.mon[key("own:from", t.id)]
				if from.name == bech32Encode {
					r.hrps = append(r.hrps, s.content(from.args[0]))
				}
				r.forms[from.name] = true
				for _, a := range from.args {
					visit(a)
				}
			case t.op == OField || isDecoded(t):
				r.kinds["other"] = true
			case t.op == OLoad:
				// the parts of codecs do not count
				t.walk(func(u *Term) bool {
					if u.op == OGlobal && (strings.HasPrefix(u.name, cmdPkg) || strings.HasPrefix(u.name, sigPkg)) || u == paramSym(s.e.root, s.e.root.Params[1]) {
						r.kinds["other"] = true
					}
					return true
				})
			case isApp(t, "flag"):
				r.kinds["other"] = true
			default:
				if t.op == OApp && t.name != "sub" {
					r.forms[t.name] = true
				} else if t.op == OSlice || t.op == OApp {
					r.forms["slice"] = true
				}
				for _, a := range t.args {
					if _, isStr := a.strVal(); isStr && t.op == OApp {
						s, _ := a.strVal()
						r.forms[s] = true
					}
					visit(a)
				}
			}
		}
		visit(v)
		return r
	}
	is := func(r source, kinds ...string) bool {
		if len(r.kinds) != len(kinds) {
			return false
		}
		for _, k := range kinds {
			if !r.kinds[k] {
				return false
			}
		}
		return true
	}
	has := func(r source, parts ...string) bool {
		for f := range r.forms {
			for _, p := range parts {
				if strings.Contains(f, p) {
					return true
				}
			}
		}
		return false
	}
	only := func(r source, parts ...string) bool {
		for f := range r.forms {
			ok := false
			for _, p := range parts {
				ok = ok || f == p || !strings.HasPrefix(p, "%") && strings.Contains(f, p)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	prefixed := func(s *State, r source, suffix string) bool {
		for _, p := range r.hrps {
			ok := isApp(p, "concat") && len(p.args) == 2 && s.isArg(p.args[0], 0) && p.args[1] == mkStr(suffix)
			if !ok {
				return false
			}
		}
		return len(r.hrps) > 0
	}
	// wrong: what is wrong with a field of the output
	wrong := func(s *State, name string, v *Term) string {
		r := made(s, v)
		noArg := s.facts.possible(s.lenOf(paramSym(s.e.root, s.e.root.Params[1])), mkInt(1))&EQ == 0
		empty := false
		if a := s.e.root.Params[1]; a != nil {
			at, typ := s.elemAddr(paramSym(s.e.root, a), mkInt(0))
			empty = at != nil && s.facts.possible(s.load(at, typ), mkStr("")) == EQ
		}
		switch name {
		case "HexAddress":
			switch {
			case !is(r, "address"):
				return "it is not the address of the validator's key"
			case has(r, "slice") || !only(r, "hex.", "strings.ToUpper", "bytes.ToUpper", "fmt.Sprint", "fmt.Append", "conv:", ".String", ".Bytes", "concat", "%X", "%x", "%s", "%v", "%02X", "%02x", "%040X"):
				return "something else than its bytes in hex may be printed"
			case has(r, "hex.EncodeToString", "%x", "%02x") && !has(r, "strings.ToUpper", "bytes.ToUpper", "%X", "%02X", "%040X"):
				return "it is not in the form that others use for addresses"
			}
		case "PubKey":
			if has(r, "slice") || !is(r, "public key") || len(r.hrps) > 0 {
				return "it is not the public key of the validator"
			}
		case "ValConsAddress", "ValConsPubAddress":
			if len(r.kinds) == 0 && noArg {
				return ""
			}
			of, suffix := "address", "valcons"
			if name == "ValConsPubAddress" {
				of, suffix = "public key", "valconspub"
			}
			switch {
			case name == "ValConsPubAddress" && is(r, of) && empty:
				return ""
			case !is(r, of, "given") && !(empty && is(r, of)):
				return "it is not the " + of + " of the validator with the prefix that was given"
			case has(r, "slice"):
				return "only a part of it may be printed"
			case !prefixed(s, r, suffix) && !(empty && is(r, of)):
				return "its prefix is not the one that was given with " + suffix
			}
		}
		return ""
	}
	h := &Hooks{}
	var showing bool
	doc := func(s *State, v *Term, in ssa.Instruction) bool {
		st := structOf(typOr(v))
		if st == nil {
			return false
		}
		idx := map[string]int{}
		var names []string
		for i := 0; i < st.NumFields(); i++ {
			n := jsonName(st, i)
			idx[n] = i
			names = append(names, n)
		}
		if _, ok := idx["HexAddress"]; !ok {
			return false
		}
		sort.Strings(names)
		for _, n := range []string{"HexAddress", "PubKey", "ValConsAddress", "ValConsPubAddress"} {
			i, ok := idx[n]
			why := ""
			if !ok {
				why = "it is not printed"
			} else {
				x := s.content(s.at(v, typOr(v), i))
				why = wrong(s, n, x)
				for _, k := range made(s, x).keys {
					c.judge(s, file, rel(s.e.root), in, rightFile(s, read(s, k)), "it may be another file than the one the signer uses")
				}
			}
			c.judge(s, shown, rel(s.e.root)+": "+n, in, why == "", why)
		}
		return true
	}
	h.Call = func(s *State, k *Call) {
		if !showing {
			return
		}
		switch {
		case k.name == "encoding/json.Marshal" || k.name == "encoding/json.MarshalIndent":
			v, _ := unIface(s.content(k.arg(0)))
			v = s.content(v)
			if isApp(v, "deref") {
				v = v.args[0]
			}
			if doc(s, v, k.instr) {
				s.mon["own:doc"] = tTrue
			}
		}
	}
	h.After = func(s *State, k *Call, res *Term) {
		switch {
		case k.name == "os.ReadFile" || k.name == "io/ioutil.ReadFile":
			s.monAdd("own:read", mkApp("pair", types.Typ[types.Bool], resAt(res, 0), s.content(k.arg(0))))
			return
		}
		if !showing {
			return
		}
		if s.mon["own:doc"] == tTrue && (k.name == "encoding/json.Marshal" || k.name == "encoding/json.MarshalIndent") {
			s.mon["own:doc"] = resAt(res, 0)
			return
		}
		if d := s.mon["own:doc"]; d != nil && d != tTrue && (strings.Contains(k.name, ".Print") || strings.Contains(k.name, ".Fprint") || strings.HasSuffix(k.name, ".Write")) {
			if s.reaches(k.args, func(u *Term) bool { return u == d }) != nil {
				s.mon["own:printed"] = tTrue
			}
		}
		r := res
		if r != nil && r.op == OTuple && len(r.args) > 0 {
			r = r.args[0]
		}
		if r != nil && r.op == OSym && s.mon[key("own:from", r.id)] == nil {
			var args []*Term
			for _, a := range k.args {
				args = append(args, s.content(a))
			}
			s.mon[key("own:from", r.id)] = mkApp(k.name, types.Typ[types.Bool], args...)
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if !showing || s.facts.isNonNil(errOf(fn, res)) {
			return
		}
		c.judge(s, told, rel(fn), nil, s.mon["own:printed"] != nil, "it may succeed without having printed the identity")
	}
	showing = true
	c.explore(h, c.p.commandsReaching(c.p.callsTo(bech32Encode)), nil)
	showing = false

	// what the validator answers
	var gets, sets []*ssa.Function
	for _, f := range c.p.fns {
		if recv := f.Signature.Recv(); f.Parent() == nil && f.Name() == "GetPubKey" && f.Synthetic == "" && recv != nil && typeName(derefT(recv.Type())) == tvT {
			gets = append(gets, f)
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if len(res) != 2 || s.facts.isNonNil(res[1]) {
			return
		}
		cl, b := fieldOf(loadAddr(unconv(s.content(res[0]))))
		ok := b != nil && b == paramSym(fn, fn.Params[0]) && (pubField == "" || pubField == cl)
		if ok {
			pubField = cl
		}
		c.judge(s, held, rel(fn), nil, ok, "it is not the key that it was started with")
	}
	c.explore(h, gets, nil)
	h.RootEnd = nil
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if cl, _ := fieldOf(addr); cl != pubField || pubField == "" {
			return
		}
		v := unconv(s.content(val))
		k := keyOf(v, "PubKey")
		if _, b := fieldOf(loadAddr(v)); k == nil && !isCommand(s.e.root) && b != nil && b.op == OSym && fieldNameOf(v) != "" {
			for _, p := range s.e.root.Params {
				if b == paramSym(s.e.root, p) {
					return // given by the caller
				}
			}
		}
		c.judge(s, held, c.site(in, "what it is"), in, k != nil, "it may be another key than that of the key share")
		if k != nil {
			c.judge(s, file, rel(s.e.root), in, rightFile(s, read(s, k)), "it may be another file than the one that is configured")
		}
	}
	if pubField != "" {
		for _, f := range c.p.roots() {
			if c.p.mentions(f, storesTo(pubField)) {
				sets = append(sets, f)
			}
		}
		c.explore(h, sets, nil)
	}
}
