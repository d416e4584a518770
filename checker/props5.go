package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	rsT      = sigPkg + ".RaftStore"
	sinkI    = "invoke " + raftPkg + ".SnapshotSink."
	futureEr = "Future.Error"
)

func init() { register("C13", c13) }

// methodsNamed: the methods with this name of types that are used as an interface of the raft package.
func (p *Program) methodsNamed(typ, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.fns {
		if f.Parent() != nil || f.Name() != name || f.Signature.Recv() == nil || f.Synthetic != "" || fnPkg(f) != sigPkg {
			continue
		}
		it, ok := p.namedType(raftPkg, typ).Underlying().(*types.Interface)
		if ok && types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

func isKV(t types.Type) bool {
	mt, ok := t.Underlying().(*types.Map)
	return ok && isStringT(mt.Key()) && isStringT(mt.Elem())
}

func c13(c *Check) {
	ann := c.rule("a new signature is answered only after it was announced to the cluster with its position and bytes, unless leadership was lost", 1)
	before := c.rule("a new signature is announced after this node has recorded it", 1)
	apply := c.rule("an applied announcement is offered unchanged to the validator record and to the key-share record", 2)
	kv := c.rule("applied set and delete commands change exactly the named key, announcements are not retained", 2)
	cmdR := c.rule("a replicated set or delete carries exactly the given key and value, and fails if it was not committed", 2)
	snap := c.rule("a snapshot is a copy of every retained key", 1)
	persist := c.rule("the whole snapshot is written to the sink, which is closed, or an error returned", 1)
	restore := c.rule("restoring replaces the whole store by the decoded snapshot, or fails leaving it as it was", 1)
	ct := c.p.namedType(sigPkg, "SignStateConsensus")
	mfield := func(a *Term) bool { cl, _ := fieldOf(a); return cl == rsT+".m" }
	kvMap := func(m *Term) bool { return m != nil && m.op == OLoad && mfield(m.args[0]) }

	enc := c.rule("commands and announced records are encoded with all their fields", 8)
	c.jsonComplete(enc, sigPkg, "SignStateConsensus", recFields...)
	c.jsonComplete(enc, sigPkg, "command", "Op", "Key", "Value")

	// ---- announcement
	volatile := c.memoryOnly()
	h := &Hooks{}
	h.Enter = func(s *State, fn *ssa.Function, args []*Term) {
		c.request(s, fn, args)
		s.enterRecord(fn, args)
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		eachStore(addr, val, 0, func(a, v *Term) {
			if cl, base := fieldOf(a); cl == ssT+".Signature" && !s.private(rootAddr(base)) && !(base.op == OFieldAddr && volatile[base.name]) {
				s.mon["own:recsig"] = s.content(v)
			}
		})
	}
	h.After = func(s *State, k *Call, res *Term) {
		s.noteState(k, res)
		if strings.HasSuffix(k.name, "json.Marshal") && res != nil && res.op == OTuple {
			s.monAdd("own:merr", res.args[1])
		}
		if k.name == raftApply && s.mon["req:pv"] != nil {
			if v, t := c.announced(s, s.content(k.arg(1))); v != nil {
				pos := triple{part(v, t, "Height"), part(v, t, "Round"), part(v, t, "Step")}
				if tripleEq(s, pos, s.reqPos()) && s.content(part(v, t, "SignBytes")) == s.content(s.mon["req:SignBytes"]) {
					s.mon["own:ann:future"], s.mon["own:ann:sig"] = res, s.content(part(v, t, "Signature"))
					c.judge(s, before, c.site(k.instr, "announcement"), k.instr, s.mon["own:covered"] != nil || s.mon["own:recsig"] == s.content(part(v, t, "Signature")),
						"a signature is announced that this node has not recorded itself")
				}
			}
		}
		if strings.HasSuffix(k.name, futureEr) && s.mon["own:ann:future"] != nil && deref(k.arg(0)) == deref(s.mon["own:ann:future"]) {
			s.mon["own:ann"] = s.mon["own:ann:sig"]
		}
	}
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) {
		s.coveredReturn(res, volatile)
		if !isSignBlock(fn) || !s.facts.isNil(errOf(fn, res)) {
			return
		}
		x := s.content(res[0])
		if s.reaches([]*Term{x}, func(t *Term) bool { return isApp(t, combine) }) == nil {
			return
		}
		ok := s.mon["own:ann"] != nil && s.mon["own:ann"] == x
		for _, k := range s.monKeys("raft:state:") {
			ok = ok || s.facts.possible(s.mon[k], mkInt(leaderConst))&EQ == 0
		}
		for _, k := range s.monKeys("own:merr:") {
			ok = ok || s.facts.isNonNil(s.mon[k])
		}
		c.judge(s, ann, rel(fn), in, ok, "a new signature is returned that was not announced to the cluster, as it is and with its position and bytes, before")
	}
	c.explore(h, c.p.rootsNamed(tvT+".SignBlock"), nil)

	// ---- replicated commands
	h = &Hooks{}
	h.After = func(s *State, k *Call, res *Term) {
		if k.name == raftApply {
			s.mon["own:fut"] = res
			op, key, v := c.command(s, s.content(k.arg(1)))
			fn := s.e.root
			ok := false
			if op != nil {
				o, _ := op.strVal()
				switch fnName(fn) {
				case rsT + ".Set":
					ok = o == "set" && key == paramSym(fn, fn.Params[1]) && v == paramSym(fn, fn.Params[2])
				case rsT + ".Delete":
					ok = o == "delete" && key == paramSym(fn, fn.Params[1])
				}
			}
			c.judge(s, cmdR, rel(fn)+": command", k.instr, ok, "the replicated command does not carry the requested operation, key and value")
		}
		if strings.HasSuffix(k.name, futureEr) && s.mon["own:fut"] != nil && deref(k.arg(0)) == deref(s.mon["own:fut"]) {
			s.mon["own:futerr"] = res
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		er := errOf(fn, res)
		if er == nil || s.facts.isNonNil(er) {
			return
		}
		e := s.mon["own:futerr"]
		c.judge(s, cmdR, rel(fn)+": success", nil, e != nil && (e == er || s.facts.isNil(e)), "success is reported although the command may not have been committed")
	}
	c.explore(h, c.p.rootsNamed(rsT+".Set", rsT+".Delete"), nil)

	// ---- state machine
	h = &Hooks{}
	h.Decode = func(s *State, target, v *Term, k *Call) {
		fn := s.e.root
		t := v.typ
		st := structOf(t)
		if fn.Name() != "Apply" || st == nil {
			if fn.Name() == "Restore" && mfield(target) {
				c.judge(s, restore, rel(fn), k.instr, false, "the snapshot is decoded into the store that is in use: keys that are not part of the snapshot are kept")
			}
			return
		}
		if structName(t) == sigPkg+".SignStateConsensus" {
			s.mon["own:rec"] = v
			s.mon["own:recErr"] = mkApp(strings.Replace(v.name, "decoded:", "decodeErr:", 1), errT, v.args...)
			return
		}
		if part(v, t, "Op") != nil && part(v, t, "Key") != nil && part(v, t, "Value") != nil && s.mon["own:cmd"] == nil {
			s.mon["own:cmd"] = v
			s.mon["own:cmdErr"] = mkApp(strings.Replace(v.name, "decoded:", "decodeErr:", 1), errT, v.args...)
			lt := c.p.namedType(raftPkg, "Log")
			logP := paramSym(fn, fn.Params[len(fn.Params)-1])
			ok := s.content(s.get(logP, lt, "Data")) == v.args[0]
			c.judge(s, kv, "command", k.instr, ok, "what is applied is not the data of the log entry")
		}
	}
	h.Enter = func(s *State, fn *ssa.Function, args []*Term) {
		if fnName(fn) != ssT+".Save" || s.mon["own:rec"] == nil || s.e.root.Name() != "Apply" {
			return
		}
		who := ""
		cl, _ := fieldOf(args[0])
		if cl == "" {
			cl, _ = loadField(args[0])
			cl += "."
		}
		switch {
		case strings.HasPrefix(cl, tvT+"."):
			who = "validator record"
		case strings.HasPrefix(cl, lcT+"."):
			who = "key-share record"
		}
		if who == "" {
			return
		}
		rec := s.mon["own:rec"]
		same := true
		for i := 0; i < structOf(ct).NumFields(); i++ {
			x, y := mkField(args[1], i, ct), mkField(rec, i, ct)
			if x != y && s.content(x) != s.content(y) {
				same = false
			}
		}
		fromValue := unconv(s.content(rec.args[0])) == s.content(part(s.mon["own:cmd"], s.mon["own:cmd"].typ, "Value"))
		c.judge(s, apply, who, nil, s.facts.isNil(s.mon["own:recErr"]), "a record that could not be decoded is offered to the "+who)
		c.judge(s, apply, who, nil, same && fromValue, "another record than the announced one is offered to the "+who)
		if same {
			s.mon["own:offered:"+who] = tTrue
		}
	}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		fn := s.e.root
		if s.private(rootAddr(m)) || !isKV(typOr(m)) || fn.Name() != "Apply" {
			if fn.Name() == "Snapshot" {
				if kvMap(m) {
					c.judge(s, snap, rel(fn), in, false, "taking a snapshot changes the store")
				}
				s.monAdd("own:copied", mkApp("entry", typOr(m), k, v))
			}
			return
		}
		cmd := s.mon["own:cmd"]
		if cmd == nil {
			c.judge(s, kv, "store", in, false, "the store is changed without a command")
			return
		}
		op, key, val := part(cmd, cmd.typ, "Op"), part(cmd, cmd.typ, "Key"), part(cmd, cmd.typ, "Value")
		ok := kvMap(m) && k == key && s.facts.isNil(s.mon["own:cmdErr"]) && s.mon["own:changed"] == nil
		why := "another key than the one the command names is changed, or none was decoded"
		if ok && v == nil {
			ok, why = s.facts.possible(op, mkStr("delete")) == EQ, "a key is deleted by another command than a delete"
		} else if ok {
			ok, why = s.facts.possible(op, mkStr("set")) == EQ && v == val, "another value than that of the set command is kept"
			if ok {
				ok, why = s.facts.possible(key, mkStr("LSS"))&EQ == 0, "an announcement may be retained as a value"
			}
		}
		s.mon["own:changed"] = tTrue
		what := "set"
		if v == nil {
			what = "delete"
		}
		c.judge(s, kv, what, in, ok, why)
	}
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if !mfield(addr) || s.private(rootAddr(addr)) {
			return
		}
		fn := s.e.root
		if fn.Name() != "Restore" {
			c.judge(s, kv, rel(fn), in, false, "the store is replaced outside of Restore")
			return
		}
		// the decoded snapshot
		dec := val
		ok := dec.op == OApp && strings.HasPrefix(dec.name, "decoded:json:") && s.facts.isNil(mkApp(strings.Replace(dec.name, "decoded:", "decodeErr:", 1), errT, dec.args...))
		s.mon["own:restored"] = mkBool(ok)
		c.judge(s, restore, rel(fn), in, ok, "the store is not replaced by the successfully decoded snapshot")
	}
	h.MapRange = func(s *State, m *Term, in ssa.Instruction) {
		if s.e.root.Name() == "Snapshot" && kvMap(m) {
			s.mon["own:ranging"] = m
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) {
		m := s.mon["own:ranging"]
		if s.e.root.Name() != "Snapshot" || m == nil {
			return
		}
		// the key of this iteration has been copied
		ok := false
		for _, mk := range s.monKeys("own:copied:") {
			e := s.mon[mk]
			if isApp(e.args[1], "mapget") && e.args[1].args[0] == m && e.args[1].args[2] == e.args[0] && strings.Contains(e.args[0].String(), "next.k") && !strings.Contains(e.args[0].String(), "next.k'") {
				ok = true
			}
		}
		if !ok {
			s.mon["own:skipped"] = tTrue
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		switch fn.Name() {
		case "Apply":
			cmd := s.mon["own:cmd"]
			if cmd == nil || !s.facts.isNil(s.mon["own:cmdErr"]) {
				return
			}
			op, key := part(cmd, cmd.typ, "Op"), part(cmd, cmd.typ, "Key")
			if s.facts.possible(op, mkStr("delete")) == EQ {
				c.judge(s, kv, "delete", nil, s.mon["own:changed"] != nil, "a delete command may leave the key in the store")
			}
			if s.facts.possible(op, mkStr("set"))&EQ == 0 {
				return
			}
			if s.facts.possible(key, mkStr("LSS"))&EQ == 0 {
				c.judge(s, kv, "set", nil, s.mon["own:changed"] != nil, "a set command may leave the key as it was")
				return
			}
			for _, who := range []string{"validator record", "key-share record"} {
				e := s.mon["own:recErr"]
				ok := e != nil && (s.mon["own:offered:"+who] != nil || s.facts.isNonNil(e))
				c.judge(s, apply, who, nil, ok, "an announced record may not be offered to the "+who)
			}
		case "Snapshot":
			if !succeeded(s, fn, res) {
				return
			}
			x := deref(res[0])
			t := derefT(typOr(x))
			ok, why := false, "the snapshot does not hold a copy of the store"
			if st := structOf(t); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if !isKV(st.Field(i).Type()) {
						continue
					}
					m := s.get(x, t, st.Field(i).Name())
					switch {
					case kvMap(m):
						why = "the snapshot is the store itself, which changes while the snapshot is written"
					case s.mon["own:ranging"] != nil && s.mapOf(m) != nil && (s.mapOf(m).fresh || len(s.mapOf(m).upd) > 0 || m.op == OAlloc):
						ok = s.mon["own:skipped"] == nil
						why = "some keys of the store may not become part of the snapshot"
					}
				}
			}
			c.judge(s, snap, rel(fn), nil, ok, why)
		case "Restore":
			er := errOf(fn, res)
			if !s.facts.isNonNil(er) {
				c.judge(s, restore, rel(fn), nil, s.mon["own:restored"] == tTrue, "success is reported although the store was not replaced")
			} else {
				c.judge(s, restore, rel(fn), nil, s.mon["own:restored"] == nil, "the store is replaced although an error is reported")
			}
		}
	}
	roots := append(c.p.methodsNamed("FSM", "Apply"), append(c.p.methodsNamed("FSM", "Snapshot"), c.p.methodsNamed("FSM", "Restore")...)...)
	c.explore(h, roots, nil)

	// ---- writing a snapshot
	h = &Hooks{}
	h.After = func(s *State, k *Call, res *Term) {
		switch k.name {
		case sinkI + "Write", "invoke io.Writer.Write":
			x := s.content(k.arg(1))
			ok := isApp(x, "encoding/json.Marshal")
			if ok {
				y := s.content(x.args[0])
				if y.op == OIface {
					y = y.args[0]
				}
				fn := s.e.root
				a := loadAddr(y)
				ok = isKV(typOr(y)) && a != nil && a.op == OFieldAddr && a.args[0] == paramSym(fn, fn.Params[0])
			}
			c.judge(s, persist, rel(s.e.root)+": content", k.instr, ok, "what is written is not the whole snapshot")
			s.mon["own:werr"] = res.args[1]
		case sinkI + "Close":
			if s.mon["own:werr"] != nil {
				s.mon["own:cerr"] = res
			}
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		er := errOf(fn, res)
		if s.facts.isNonNil(er) {
			return
		}
		w, cl := s.mon["own:werr"], s.mon["own:cerr"]
		ok := w != nil && cl != nil && s.facts.isNil(w) && (cl == er || s.facts.isNil(cl))
		c.judge(s, persist, rel(fn)+": success", nil, ok, "success is reported although the snapshot may not have been written and closed")
	}
	c.explore(h, c.p.methodsNamed("FSMSnapshot", "Persist"), nil)
}

// loadField: t was read from a field; returns the struct the field belongs to.
func loadField(t *Term) (string, bool) {
	a := loadAddr(t)
	if a == nil || a.op != OFieldAddr {
		return "", false
	}
	return a.name[:strings.LastIndex(a.name, ".")], true
}

// jsonComplete: every field that is needed is part of the JSON form of the type, under a name of its own.
func (c *Check) jsonComplete(rule, pkg, name string, need ...string) {
	t := c.p.namedType(pkg, name)
	if t == nil {
		return
	}
	st := structOf(t)
	names := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := jsonName(st, i)
		if n == "" {
			continue
		}
		l := strings.ToLower(n)
		c.fact(rule, name+"."+f.Name(), f.Pos(), names[l] == "", "the fields "+names[l]+" and "+f.Name()+" have the same name in JSON")
		names[l] = f.Name()
	}
	for _, w := range need {
		ok := false
		for _, f := range names {
			ok = ok || f == w
		}
		if ok {
			continue
		}
		c.fact(rule, name+"."+w, token.NoPos, false, "the field "+w+" is not part of the JSON form")
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m); o != nil {
			if _, isF := o.(*types.Func); isF && !(name == "CosignerKey") {
				c.fact(rule, name+"."+m, o.Pos(), false, "the JSON form is made by a method of its own, which this analysis does not follow")
			}
		}
	}
}

// jsonName is the name a field has in JSON ("" if it is left out).
func jsonName(st *types.Struct, i int) string {
	f := st.Field(i)
	if !f.Exported() {
		return ""
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n := strings.Split(tag, ",")[0]
	if tag == "-" {
		return ""
	}
	if n == "" {
		return f.Name()
	}
	return n
}
