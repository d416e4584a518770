package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C31", c31) }

// isLoaded: the value of a field of the configuration that was loaded, or of its cosigner part.
func isLoaded(v *Term, field string) bool {
	if v == nil || isConfigured(v, field) {
		return v != nil
	}
	cl, b := fieldOf(loadAddr(unconv(v)))
	return cl == ccT+"."+field && isConfigured(b, "CosignerConfig")
}

// c31: a config command changes one setting, to what it was told.
func c31(c *Check) {
	only := c.rule("a config command changes one setting at most, to the value it was given", 6)
	lists := c.rule("entries are added without losing any, and exactly those that are named are removed", 4)
	fresh := c.rule("a new configuration holds what init was told", 1)
	done := c.rule("success is reported only after the configuration was written to its file in the home directory", 6)

	cfgType := c.p.namedType(cmdPkg, "Config")
	ccType := c.p.namedType(cmdPkg, "CosignerConfig")
	boolT := types.Typ[types.Bool]
	fact := func(n string, a *Term) *Term { return mkApp(n, boolT, a) }
	isEntry := func(t types.Type) bool {
		n := typeName(t)
		return n == cmdPkg+".ChainNode" || n == cmdPkg+".CosignerPeer"
	}
	// configured: the address of the entry of a loaded list that this is, or is a part of
	configured := func(e *Term) *Term {
		var at *Term
		see := func(v *Term) bool {
			a := loadAddr(v)
			for a != nil && a.op == OFieldAddr {
				a = a.args[0]
			}
			l, _ := slot(a)
			if l == nil || !isLoaded(l, "ChainNodes") && !isLoaded(l, "Peers") || at != nil && at != a {
				return false
			}
			at = a
			return true
		}
		if e != nil && e.op == OStruct {
			for _, v := range e.args {
				if !see(v) {
					return nil
				}
			}
			return at
		}
		if e == nil || !see(e) {
			return nil
		}
		return at
	}
	// given: the address of the word of the arguments that all of this was made from
	given := func(s *State, e *Term) *Term {
		var words []*Term
		src := func(u *Term) bool {
			for _, p := range s.e.root.Params {
				if u.contains(paramSym(s.e.root, p)) {
					return true
				}
			}
			found := false
			u.walk(func(x *Term) bool { found = found || isApp(x, "flag"); return !found })
			return found
		}
		all := true
		part := func(v *Term) {
			has := false
			v.walk(func(u *Term) bool {
				if l, i := slot(loadAddr(u)); l != nil && src(l) {
					if _, isC := i.intVal(); !isC {
						has = true
						words = append(words, loadAddr(u))
						return false
					}
				}
				return true
			})
			all = all && has
		}
		if e != nil && e.op == OStruct {
			for _, v := range e.args {
				part(s.content(v))
			}
		} else if e != nil {
			part(s.content(e))
		}
		if !all || len(words) == 0 {
			return nil
		}
		for _, w := range words {
			if w != words[0] {
				return nil
			}
		}
		return words[0]
	}
	inHome := func(s *State, parts ...*Term) bool {
		if len(parts) == 1 && isApp(parts[0], "path.Join") || len(parts) == 1 && isApp(parts[0], "path/filepath.Join") {
			parts = parts[0].args
		}
		switch {
		case len(parts) == 1:
			a := loadAddr(parts[0])
			return isConfigured(parts[0], "HomeDir") || a != nil && a.op == OGlobal && a.name == cmdPkg+".homeDir" && s.facts.possible(parts[0], mkStr(""))&EQ == 0
		case len(parts) == 2:
			return ofHomedir(parts[0]) && parts[1] == mkStr(".horcrux")
		}
		return false
	}
	name := func(s *State, a *Term) {
		s.facts.assume(fact("named", a), true)
		s.facts.assume(fact("treated", a), true)
		s.monAdd("own:hit", a)
	}
	// collected: it is from a list to which only named entries were appended
	collected := func(s *State, b *Term) bool {
		l, i := slot(b)
		i, _ = splitAdd(i)
		from := func(k string) bool {
			for _, m := range s.monKeys(k) {
				l2, j := slot(configured(s.mon[m]))
				if j, _ = splitAdd(j); j != nil && l2 == l && j.op == OSym && strings.HasSuffix(i.name, fmt.Sprint("~", j.id)) {
					return true
				}
			}
			return false
		}
		return i != nil && i.op == OSym && from("own:unwanted:") && !from("own:wanted:")
	}
	h := &Hooks{}
	h.Branch = func(s *State, cond *Term, taken bool, in ssa.Instruction) {
		for cond != nil && (cond.op == ONot || isApp(cond, "!")) {
			cond, taken = cond.args[0], !taken
		}
		if !taken || cond == nil || !isApp(cond, "==") || len(cond.args) != 2 {
			return
		}
		for i := range cond.args {
			x, y := cond.args[i], cond.args[1-i]
			a := configured(x)
			if a == nil {
				continue
			}
			_, one := typOr(x).Underlying().(*types.Struct)
			f, _ := fieldOf(loadAddr(x))
			if w := given(s, y); w != nil {
				name(s, a)
				if one || strings.HasSuffix(f, ".PrivValAddr") {
					s.facts.assume(fact("known", w), true)
				}
			} else if strings.HasSuffix(f, ".P2PAddr") {
				continue // not what tells entries apart
			} else if b := configured(y); b != nil && (s.facts.truthOf(fact("named", b)) == 1 || collected(s, b)) {
				name(s, a)
			}
		}
	}
	h.Load = func(s *State, addr *Term, in ssa.Instruction) {
		for _, n := range []string{"ChainNodes", "Peers"} {
			if cl, _ := fieldOf(addr); s.mon["own:list:"+n] == nil && strings.HasSuffix(cl, "."+n) {
				if v := s.load(addr, derefT(addr.typ)); isLoaded(v, n) {
					s.mon["own:list:"+n] = v
				}
			}
		}
	}
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if b := configured(k); given(s, k) == nil && (b == nil || s.facts.truthOf(fact("named", b)) != 1 && !collected(s, b)) {
			s.monAdd("own:other", m)
		}
	}
	h.MapLookup = func(s *State, m, k *Term, in ssa.Instruction) {
		if a := configured(k); a != nil {
			s.monAdd("own:looked", mkApp("pair", boolT, m, k))
		}
	}
	looked := func(s *State) {
		for _, x := range s.monKeys("own:looked:") {
			p := s.mon[x]
			delete(s.mon, x)
			m, k := p.args[0], p.args[1]
			ok := s.mon[key("own:other", "")] == nil
			for _, y := range s.monKeys("own:other:") {
				ok = ok && s.mon[y] != m
			}
			for _, r := range s.clone().mapLookup(m, k, boolT) {
				if !r.s.dead && r.has != tTrue && r.s.facts.truthOf(r.has) != 1 {
					ok = false
				}
			}
			if ok {
				name(s, configured(k))
			}
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) { looked(s) }
	// entries of a list that was made as long as the words are set from them one by one
	h.Store = func(s *State, addr, v *Term, in ssa.Instruction) {
		at := addr
		if at.op == OFieldAddr {
			if st := structOf(derefT(typOr(at.args[0]))); st == nil || st.NumFields() != 1 {
				return
			}
			at = at.args[0]
		}
		l, i := slot(at)
		if l == nil || l.op != OAlloc || !isEntry(derefT(typOr(at))) {
			return
		}
		if w := given(s, v); w != nil {
			if ws, j := slot(w); ws != nil && i == j {
				s.facts.assume(fact("known", w), true)
				s.monAdd("own:filled", mkApp("pair", boolT, l, ws))
				return
			}
		}
		s.monAdd("own:misfilled", l)
	}
	// filled: the words that the entries of the list were set from, each in its place
	filled := func(s *State, l *Term, in ssa.Instruction) *Term {
		if c := s.content(l); isApp(c, "bytes") {
			l = c.args[0]
		}
		for _, m := range s.monKeys("own:misfilled:") {
			if s.mon[m] == l {
				return nil
			}
		}
		for _, m := range s.monKeys("own:filled:") {
			p := s.mon[m]
			if ws := p.args[1]; p.args[0] == l && s.facts.possible(s.lenOf(l), s.lenOf(ws)) == EQ && s.every(ws, in, func(t *State, i *Term) bool {
				a, _ := t.elemAddr(ws, i)
				return t.facts.truthOf(fact("known", a)) == 1
			}) {
				return ws
			}
		}
		return nil
	}
	h.Append = func(s *State, base *Term, add []*Term, in ssa.Instruction) {
		looked(s)
		for _, x := range add {
			if x == nil || !isEntry(typOr(x)) {
				continue
			}
			if a := configured(x); a != nil {
				s.facts.assume(fact("kept", a), true)
				s.facts.assume(fact("treated", a), true)
				k := "own:wanted"
				for _, m := range s.monKeys("own:hit:") {
					if s.mon[m] == a {
						k = "own:unwanted"
					}
				}
				s.monAdd(k, x)
			} else if w := given(s, x); w != nil {
				s.facts.assume(fact("known", w), true)
			}
		}
	}
	// list: what is wrong with a list of entries that is written
	list := func(s *State, l *Term, name string, in ssa.Instruction) string {
		var loaded, words *Term
		whole, adds, why := false, false, ""
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if ws := filled(s, t, in); ws != nil {
				adds, words = true, ws
				return
			}
			t = s.content(t)
			var es []*Term
			switch {
			case isLoaded(t, name):
				loaded, whole = t, true
				return
			case t == tNil || t.op == OZero || s.isEmpty(t) || isApp(t, "zeros") && s.facts.possible(t.args[0], mkInt(0)) == EQ:
				return
			case t.op == OAppend:
				visit(t.args[0])
				es = t.args[1:]
			case t.op == OColl, t.op == OTuple:
				es = t.args
			default:
				why = "it cannot be told which entries are written"
				return
			}
			for _, e := range es {
				if e.op == OSpread {
					visit(e.args[0])
					continue
				}
				if a := configured(e); a != nil {
					loaded, _ = slot(a)
					if !isLoaded(loaded, name) {
						why = "entries of another list are written"
					}
					for _, m := range s.monKeys("own:unwanted:") {
						if s.mon[m] == e {
							why = "an entry that was named may stay"
						}
					}
				} else if w := given(s, e); w != nil {
					if _, i := slot(w); i != nil {
						if i, _ = splitAdd(i); i.op == OSym && i.idx == 0 {
							why = "only one of the entries that were named is added"
						}
					}
					adds = true
					words, _ = slot(w)
				} else {
					why = "an entry is written that was neither configured nor named"
				}
			}
		}
		visit(l)
		every := func(list *Term, n string) bool {
			return s.every(list, in, func(t *State, i *Term) bool {
				a, _ := t.elemAddr(list, i)
				return t.facts.truthOf(fact(n, a)) == 1
			})
		}
		switch {
		case why != "":
		case loaded == nil && !(adds && s.mon["own:list:"+name] != nil && every(s.mon["own:list:"+name], "kept")):
			why = "the configured entries may be lost"
		case loaded == nil && words != nil && !every(words, "known"):
			why = "an entry that was named may not be added"
		case loaded == nil:
		case !adds && !whole && !every(loaded, "treated"):
			why = "an entry that was not named may be removed"
		case adds && !whole && !every(loaded, "kept"):
			why = "a configured entry may be lost when others are added"
		case adds && words != nil && !every(words, "known"):
			why = "an entry that was named may not be added"
		}
		return why
	}
	flagOf := func(s *State, v *Term, name string) bool {
		v = unconv(s.content(v))
		return v != nil && isApp(v, "flag") && v.args[0] == mkStr(name)
	}
	// wrong: why the entries of a new configuration are not those that init was given
	wrong := func(s *State, l *Term, in ssa.Instruction, src func(*Term) bool) bool {
		if ws := filled(s, l, in); ws != nil {
			return !src(ws)
		}
		if l = s.content(l); isApp(l, "zeros") && s.facts.possible(l.args[0], mkInt(0)) == EQ {
			return false // there is none
		}
		es, ok := s.elemsIn(l)
		for _, e := range es {
			w := given(s, e)
			if w == nil || !src(w) {
				return true
			}
		}
		return !ok
	}
	of := map[*ssa.Function]string{}
	h.Call = func(s *State, k *Call) {
		if k.name != "gopkg.in/yaml.v2.Marshal" && k.name != "gopkg.in/yaml.v3.Marshal" {
			return
		}
		p, _ := unIface(k.arg(0))
		if typeName(derefT(typOr(p))) != configT {
			return
		}
		fn := s.e.root
		get := func(n string) *Term { return s.get(p, cfgType, n) }
		cc := get("CosignerConfig")
		single := cc == tNil || s.facts.isNil(cc)
		old := p.op == OLoad
		var changed []string
		see := func(n string, v *Term) {
			if isLoaded(s.content(v), n) {
				old = true
			} else {
				changed = append(changed, n)
			}
		}
		for _, n := range []string{"HomeDir", "PrivValKeyFile", "ChainID", "ChainNodes"} {
			see(n, get(n))
		}
		if !isConfigured(cc, "CosignerConfig") || !single {
			if single {
				changed = append(changed, "CosignerConfig")
			} else {
				for _, n := range []string{"Threshold", "Shares", "P2PListen", "Peers", "Timeout"} {
					see(n, s.get(cc, ccType, n))
				}
			}
		}
		if !old {
			why := ""
			switch {
			case !inHome(s, s.content(get("HomeDir"))):
				why = "the home directory is not the one that is used"
			case !flagOf(s, get("PrivValKeyFile"), "keyfile"):
				why = "the key file is not the one given"
			case !s.isArg(s.content(get("ChainID")), 0):
				why = "the chain ID is not the one given"
			case wrong(s, get("ChainNodes"), k.instr, func(w *Term) bool {
				return w.contains(paramSym(fn, fn.Params[1]))
			}):
				why = "the chain nodes are not those given"
			case single:
			case !flagOf(s, s.get(cc, ccType, "Threshold"), "threshold"):
				why = "the threshold is not the one given"
			case !flagOf(s, s.get(cc, ccType, "P2PListen"), "listen"):
				why = "the listen address is not the one given"
			case !flagOf(s, s.get(cc, ccType, "Timeout"), "timeout"):
				why = "the timeout is not the one given"
			case wrong(s, s.get(cc, ccType, "Peers"), k.instr, func(w *Term) bool {
				return w.contains(mkApp("flag", types.Typ[types.String], mkStr("peers"))) || strings.Contains(w.String(), `flag("peers")`)
			}):
				why = "the peers are not those given, each ID with its address"
			}
			c.judge(s, fresh, rel(fn), k.instr, why == "", why)
			return
		}
		if len(changed) == 0 {
			return
		}
		n := changed[0]
		why := ""
		switch {
		case len(changed) > 1 || of[fn] != "" && of[fn] != n:
			why = strings.Join(changed, ", ") + " change together"
		case n == "ChainID" && !s.isArg(s.content(get(n)), 0):
			why = "the chain ID is not the one given"
		case n == "Shares":
			v := unconv(s.content(s.get(cc, ccType, n)))
			if v == nil || !strings.HasPrefix(v.name, "strconv.") || len(v.args) == 0 || !s.isArg(s.content(v.args[0]), 0) {
				why = "the number is not the one given"
			}
		case n == "Peers", n == "ChainNodes":
			l := get("ChainNodes")
			if n == "Peers" {
				l = s.get(cc, ccType, n)
			}
			bad := list(s, l, n, k.instr)
			c.judge(s, lists, rel(fn), k.instr, bad == "", bad)
		case n != "ChainID":
			why = n + " is changed"
		}
		of[fn] = n
		c.judge(s, only, rel(fn), k.instr, why == "", why)
	}
	h.After = func(s *State, k *Call, res *Term) {
		switch k.name {
		case "gopkg.in/yaml.v2.Marshal", "gopkg.in/yaml.v3.Marshal":
			if p, _ := unIface(k.arg(0)); typeName(derefT(typOr(p))) == configT {
				s.mon["own:doc"] = resAt(res, 0)
			}
		case "os.WriteFile", "io/ioutil.WriteFile":
			p := s.content(k.arg(0))
			if !isApp(p, "path.Join") && !isApp(p, "path/filepath.Join") || len(p.args) < 2 {
				return
			}
			n := len(p.args) - 1
			if p.args[n] == mkStr("config.yaml") && inHome(s, p.args[:n]...) && s.mon["own:doc"] != nil && s.content(k.arg(1)) == s.content(s.mon["own:doc"]) {
				e := res
				if res.op == OTuple {
					e = res.args[0]
				}
				s.mon["own:wrote"] = e
			}
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if s.facts.isNonNil(errOf(fn, res)) {
			return
		}
		e := s.mon["own:wrote"]
		c.judge(s, done, rel(fn), nil, e != nil && s.facts.isNil(e), "it may succeed without having written the configuration")
	}
	c.explore(h, c.p.commandsReaching(c.p.callsTo("gopkg.in/yaml.v2.Marshal", "gopkg.in/yaml.v3.Marshal")), nil)
}
