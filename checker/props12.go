package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pvSuffix    = "_priv_validator_state.json"
	shareSuffix = "_share_sign_state.json"
	fpvPkg      = "github.com/tendermint/tendermint/privval"
	fpvT        = fpvPkg + ".FilePV"
	osRename    = "os.Rename"
)

func init() { register("C17", c17); register("C26", c26); register("C27", c27) }

// stateFile takes the name of a sign state's file apart: <directory>/state/<chain>_..._state.json
func stateFile(t *Term) (dir []*Term, chain *Term, kind string) {
	if t == nil || !isApp(t, "path.Join") || len(t.args) == 0 {
		return nil, nil, ""
	}
	n := t.args[len(t.args)-1]
	dir = t.args[:len(t.args)-1]
	parts := []*Term{n}
	if isApp(n, "concat") {
		parts = n.args
	}
	suf, ok := parts[len(parts)-1].strVal()
	if !ok {
		return dir, nil, ""
	}
	switch {
	case len(parts) == 2 && suf == pvSuffix:
		return dir, parts[0], "pv"
	case len(parts) == 2 && suf == shareSuffix:
		return dir, parts[0], "share"
	case strings.Contains(suf, "state"):
		return dir, nil, "other"
	}
	return dir, nil, ""
}

// stateDir: the state directory of this node's home.
func (s *State) stateDir(dir []*Term) bool {
	n := len(dir)
	if n < 2 || dir[n-1] != mkStr("state") {
		return false
	}
	home := func() *Term {
		for _, v := range dir {
			if a := loadAddr(v); a != nil && a.op == OGlobal && a.name == cmdPkg+".homeDir" {
				return v
			}
		}
		return nil
	}
	switch h := dir[0]; {
	case n == 2 && isConfigured(h, "HomeDir"):
		return true
	case n == 2 && home() == h:
		return s.facts.possible(h, mkStr(""))&EQ == 0
	case n == 3:
		return ofHomedir(h) && dir[1] == mkStr(".horcrux")
	}
	return false
}

func ofHomedir(h *Term) bool {
	return h.op == OSym && strings.Contains(h.name, "go-homedir.Dir#0") || h.op == OSym && strings.Contains(h.name, "os.UserHomeDir#0") || h.op == OApp && strings.Contains(h.name, "go-homedir.Dir#0")
}

// file events of a path
func (s *State) noteFile(k *Call, res *Term) {
	switch k.name {
	case "os.Stat", "os.Lstat":
		s.monAdd("own:stat", mkApp("stat", errT, s.content(k.arg(0)), resAt(res, 1), resAt(res, 0)))
	case "io/ioutil.ReadFile", "os.ReadFile":
		s.monAdd("own:read", mkApp("read", errT, s.content(k.arg(0)), resAt(res, 1), s.content(resAt(res, 0))))
	}
	if strings.HasSuffix(k.name, "FileInfo.Size") {
		s.monAdd("own:size", mkApp("size", errT, deref(k.arg(0)), res))
	}
}

func (s *State) noteDecode(v *Term) {
	if isDecoded(v) {
		s.monAdd("own:dec", v)
	}
}

func isDecoded(v *Term) bool {
	return v.op == OApp && (strings.HasPrefix(v.name, "decoded:json:") || strings.HasPrefix(v.name, "decoded:tmjson:"))
}

// missing: the file is known not to exist or to be empty.
func (s *State) missing(p *Term) bool { return s.absent(p) || s.empty(p) }

func (s *State) absent(p *Term) bool {
	for _, n := range []string{"own:stat:", "own:read:"} {
		for _, k := range s.monKeys(n) {
			x := s.mon[k]
			if x.args[0] != p {
				continue
			}
			for f, v := range s.facts.truth {
				if v && (isApp(f, "os.IsNotExist") || isApp(f, "errors.Is") && isNotExistErr(f.args[1])) && f.args[0] == x.args[1] {
					return true
				}
			}
		}
	}
	return false
}

func isNotExistErr(t *Term) bool {
	a := loadAddr(t)
	return a != nil && a.op == OGlobal && (a.name == "os.ErrNotExist" || a.name == "io/fs.ErrNotExist")
}

func (s *State) empty(p *Term) bool {
	for _, k := range s.monKeys("own:stat:") {
		x := s.mon[k]
		if x.args[0] != p || !s.facts.isNil(x.args[1]) {
			continue
		}
		for _, k := range s.monKeys("own:size:") {
			if z := s.mon[k]; z.args[0] == deref(x.args[2]) && s.atMost(z.args[1], mkInt(0), 0) {
				return true
			}
		}
	}
	for _, k := range s.monKeys("own:read:") {
		x := s.mon[k]
		if x.args[0] == p && s.facts.isNil(x.args[1]) && s.atMost(s.lenOf(x.args[2]), mkInt(0), 0) {
			return true
		}
	}
	return false
}

// loadedFrom: the document that was read from the file, known to have been read and decoded.
func (s *State) loadedFrom(p *Term) []*Term {
	var out []*Term
	for _, k := range s.monKeys("own:read:") {
		x := s.mon[k]
		if x.args[0] != p || !s.facts.isNil(x.args[1]) {
			continue
		}
		for _, k := range s.monKeys("own:dec:") {
			if d := s.mon[k]; len(d.args) > 0 && d.args[0] == x.args[2] && s.facts.isNil(decodeErr(d)) {
				out = append(out, d)
			}
		}
	}
	return out
}

// isRecordOf: every field of the record at the address is that of the document.
func (c *Check) isRecordOf(s *State, get func(f string) *Term, d *Term) bool {
	st := c.p.namedType(sigPkg, "SignState")
	for _, f := range recFields {
		a, b := s.content(get(f)), s.content(part(d, st, f))
		if unconv(a) != unconv(b) && !s.facts.eq(a, b) {
			return false
		}
	}
	return true
}

// stateWrite: the call writes a last-signed record; its file and the record.
func (c *Check) stateWrite(s *State, k *Call) (p, doc *Term) {
	switch k.name {
	case writeAtomic, "io/ioutil.WriteFile", "os.WriteFile":
		d := s.content(k.arg(1))
		if isApp(d, "concat") && len(d.args) > 0 {
			d = d.args[0]
		}
		t := d
		if t.op == OApp && strings.HasSuffix(t.name, "#0") {
			t = mkApp(strings.TrimSuffix(t.name, "#0"), t.typ, t.args...)
		}
		if isStateDoc(c, t) {
			return s.content(k.arg(0)), t.args[0]
		}
	}
	return nil, nil
}

// touched: the paths of files that the call creates, changes or removes.
func touched(s *State, k *Call) []*Term {
	switch {
	case k.name == osRename:
		return []*Term{s.content(k.arg(0)), s.content(k.arg(1))}
	case changesFiles(k.name), k.name == writeAtomic, k.name == "os.Link", k.name == "os.Symlink":
		return []*Term{s.content(k.arg(0))}
	}
	return nil
}

func ownFile(p *Term) bool { cl, _ := fieldOf(loadAddr(p)); return cl == ssT+".filePath" }

func c17(c *Check) {
	share := c.rule("a cosigner starts only with the share record that was loaded from the file of its chain, as its watermark", 1)
	pvR := c.rule("a cosigner starts with the validator record of its chain, or an empty one if there is none", 1)
	never := c.rule("starting writes nothing to the share record's file", 1)
	repl := c.rule("a sign state is written only where it was loaded or where there was none", 3)
	single := c.rule("the single signer serves with the persisted state of its chain, or an empty one if there is none", 1)
	enc := c.rule("the record is stored and loaded with all its fields", 5)
	rm := c.rule("no command removes or truncates a sign state", 1)
	c.jsonComplete(enc, sigPkg, "SignState", recFields...)

	st := c.p.namedType(sigPkg, "SignState")
	h := &Hooks{}
	h.After = func(s *State, k *Call, res *Term) {
		s.noteFile(k, res)
		if strings.HasPrefix(k.name, fpvPkg+".Load") && res != nil {
			how := "empty"
			if k.name == fpvPkg+".LoadFilePV" || k.name == fpvPkg+".LoadOrGenFilePV" {
				how = "loads"
			}
			s.mon[key("own:load", res)] = mkApp("load", errT, s.content(k.arg(1)), mkStr(how))
		}
	}
	h.Decode = func(s *State, target, v *Term, k *Call) { s.noteDecode(v) }
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if cl, _ := fieldOf(addr); cl == tvT+".lastSignState" {
			s.mon["own:pv"] = addr
		}
		if v := s.mon["own:fpv"]; v != nil && rootAddr(addr) == v {
			c.judge(s, single, rel(s.e.root), in, false, "the state of the validator is changed")
		}
		eachStore(addr, val, 0, func(a, v *Term) {
			cl, _ := fieldOf(a)
			switch cl {
			case lcT + ".lastSignState":
				s.mon["own:share"] = v
			case guardT + ".PrivValidator":
				x, t := unIface(v)
				if t != nil && typeName(derefT(t)) == fpvT {
					s.mon["own:fpv"] = x
					why := c.persisted(s, x)
					c.judge(s, single, rel(s.e.root), in, why == "", why)
				}
			}
		})
	}
	h.Call = func(s *State, k *Call) {
		if k.name == fpvT+".Reset" {
			c.judge(s, single, rel(s.e.root), k.instr, false, "the state of the validator is reset")
		}
		for _, p := range touched(s, k) {
			_, _, kind := stateFile(p)
			if kind == "share" && s.mon["own:start"] == nil && c.starts(s.e.root) {
				c.judge(s, never, rel(s.e.root), k.instr, false, "the share record's file may be changed when the cosigner starts")
			}
			if kind != "" && k.name != osRename {
				if q, _ := c.stateWrite(s, k); q == nil {
					c.judge(s, rm, rel(s.e.root), k.instr, k.name == writeAtomic && ownFile(p), "a sign state is removed, truncated or replaced by something else")
				}
			}
		}
		if p, _ := c.stateWrite(s, k); p != nil && !ownFile(p) {
			ok := s.missing(p) || len(s.loadedFrom(p)) > 0
			c.judge(s, repl, rel(s.e.root), k.instr, ok, "a sign state is written where there may be one that was not loaded")
		}
		if k.name != serviceStart || s.mon["own:start"] != nil {
			return
		}
		s.mon["own:start"] = tTrue
		fn := rel(s.e.root)
		chainFile := func(d *Term, kind string) (*Term, bool) {
			for _, n := range s.monKeys("own:read:") {
				x := s.mon[n]
				dir, chain, kd := stateFile(x.args[0])
				if kd == kind && isConfigured(chain, "ChainID") && s.stateDir(dir) {
					return x.args[0], true
				}
			}
			return nil, false
		}
		if r := s.mon["own:share"]; r != nil || s.mon["own:pv"] != nil {
			why := ""
			p, known := chainFile(r, "share")
			switch {
			case r == nil:
				why = "the cosigner has no share record"
			case !known:
				why = "the share record of the configured chain was not read"
			default:
				why = "the share record may not have been loaded, or is not what the cosigner uses"
				for _, d := range s.loadedFrom(p) {
					if c.isRecordOf(s, func(f string) *Term { return s.get(r, st, f) }, d) && s.content(s.get(r, st, "filePath")) == p {
						why = ""
					}
				}
			}
			c.judge(s, share, fn, k.instr, why == "", why)
			c.judge(s, never, fn, k.instr, true, "")
		}
		if a := s.mon["own:pv"]; a != nil {
			why := "the validator record was not loaded from the file of the configured chain, or is not what the validator uses"
			get := func(f string) *Term { return s.get(a, st, f) }
			if p, known := chainFile(nil, "pv"); known {
				for _, d := range s.loadedFrom(p) {
					if c.isRecordOf(s, get, d) {
						why = ""
					}
				}
				if s.missing(p) {
					why = ""
				}
				if s.content(get("filePath")) != p {
					why = "the validator record is kept in another file"
				}
			}
			c.judge(s, pvR, fn, k.instr, why == "", why)
		}
	}
	var roots []*ssa.Function
	for _, f := range c.p.roots() {
		if fnPkg(f) == cmdPkg && isCommand(f) && c.p.mentions(f, touches) || fnName(f) == sigPkg+".LoadOrCreateSignState" {
			roots = append(roots, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		seen[f] = true
	}
	for _, l := range [][]*ssa.Function{c.p.rootsStoring(lcT + ".lastSignState"), c.p.rootsStoring(guardT + ".PrivValidator")} {
		for _, f := range l {
			if !seen[f] {
				seen[f] = true
				roots = append(roots, f)
			}
		}
	}
	c.explore(h, roots, nil)
	c.fact(rm, "commands", 0, true, "")
}

func touches(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	return f != nil && (changesFiles(fnName(f)) || fnName(f) == writeAtomic)
}

// starts: the command starts a signer.
func (c *Check) starts(f *ssa.Function) bool {
	return f != nil && c.p.mentions(f, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if g := ci.Common().StaticCallee(); g != nil {
			return fnName(g) == serviceStart
		}
		return ci.Common().IsInvoke() && ci.Common().Method.Name() == "Start"
	})
}

// persisted: why a validator with a key file may not go on from its persisted state.
func (c *Check) persisted(s *State, v *Term) string {
	k := s.mon[key("own:load", v)]
	if k == nil {
		return "it is not known how the validator was loaded"
	}
	p := k.args[0]
	dir, chain, kind := stateFile(p)
	if kind != "pv" || !isConfigured(chain, "ChainID") || !s.stateDir(dir) {
		return "the validator uses another state file than that of the configured chain"
	}
	if n, _ := k.args[1].strVal(); n == "loads" {
		return ""
	}
	if s.missing(p) {
		return ""
	}
	fp := c.p.namedType(fpvPkg, "FilePV")
	ad, t := fieldAddr(v, fp, "LastSignState")
	for _, d := range s.loadedFrom(p) {
		if c.isRecordOf(s, func(f string) *Term { return s.get(ad, t, f) }, d) {
			return ""
		}
	}
	return "the validator may start from an empty state although there is a persisted one"
}

// siblings: the values stored to the given field of the commands whose body is f.
func (p *Program) siblings(f *ssa.Function, field string) (out []ssa.Value) {
	for _, g := range p.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !strings.HasPrefix(storeClass(st), "github.com/spf13/cobra.Command.Run") {
					continue
				}
				v := st.Val
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v != ssa.Value(f) {
					continue
				}
				cmd := st.Addr.(*ssa.FieldAddr).X
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if ok && storeClass(st) == "github.com/spf13/cobra.Command."+field && st.Addr.(*ssa.FieldAddr).X == cmd {
							out = append(out, st.Val)
						}
					}
				}
			}
		}
	}
	return out
}

// commandUse: the first word of a command's usage, and the rest.
func (p *Program) commandUse(f *ssa.Function) (string, string) {
	for _, v := range p.siblings(f, "Use") {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			w := strings.SplitN(constant.StringVal(k.Value)+" ", " ", 2)
			return w[0], w[1]
		}
	}
	return "", ""
}

// argCount: how many arguments cobra lets through to the body of a command, at least and at most; at most -1 if that
// is not known.
func (p *Program) argCount(f *ssa.Function) (int64, int64) {
	if !isCommand(f) {
		return 0, -1
	}
	vs := p.siblings(f, "Args")
	if len(vs) != 1 {
		return 0, -1
	}
	v := vs[0]
	if x, ok := v.(*ssa.ChangeType); ok {
		v = x.X
	}
	if fn, ok := v.(*ssa.Function); ok && fn.String() == "github.com/spf13/cobra.NoArgs" {
		return 0, 0
	}
	k, ok := v.(*ssa.Call)
	if !ok || k.Call.StaticCallee() == nil {
		return 0, -1
	}
	var n []int64
	for _, a := range k.Call.Args {
		x, ok := a.(*ssa.Const)
		if !ok || x.Value == nil || x.Value.Kind() != constant.Int {
			return 0, -1
		}
		n = append(n, x.Int64())
	}
	switch name := k.Call.StaticCallee().String(); {
	case name == "github.com/spf13/cobra.ExactArgs" && len(n) == 1:
		return n[0], n[0]
	case name == "github.com/spf13/cobra.MaximumNArgs" && len(n) == 1:
		return 0, n[0]
	case name == "github.com/spf13/cobra.RangeArgs" && len(n) == 2:
		return n[0], n[1]
	}
	return 0, -1
}

// noteProcesses: the output of a command that lists horcrux processes.
func (s *State) noteProcesses(k *Call, res *Term) {
	switch k.name {
	case "os/exec.Command", "os/exec.CommandContext":
		named := false
		for _, a := range k.args {
			s.reach(a, func(x *Term) {
				if v, ok := x.strVal(); ok && strings.Contains(v, "horcrux") {
					named = true
				}
			})
		}
		if named {
			s.monAdd("own:cmd", deref(res))
		}
	case "os/exec.Cmd.Output", "os/exec.Cmd.CombinedOutput":
		for _, m := range s.monKeys("own:cmd:") {
			if s.mon[m] == deref(k.arg(0)) {
				s.monAdd("own:ps", s.content(resAt(res, 0)))
			}
		}
	}
}

// notRunning: the processes were listed, and none is a horcrux process other than this one.
func (s *State) notRunning(in ssa.Instruction) bool {
	for _, m := range s.monKeys("own:ps:") {
		out := s.mon[m]
		if s.atMost(s.lenOf(out), mkInt(0), 0) || s.facts.isNil(out) || s.facts.eq(out, mkStr("")) {
			return true
		}
		isList := func(l *Term) bool {
			return l.contains(out) && isApp(l, "strings.Fields", "bytes.Fields", "strings.Split")
		}
		for _, p := range s.facts.pairs() {
			for _, n := range []*Term{p.a, p.b} {
				if isApp(n, "len") && isList(n.args[0]) && s.atMost(n, mkInt(0), 0) {
					return true
				}
			}
		}
		for l := range s.forall {
			if !isList(l) {
				continue
			}
			if s.every(l, in, func(s *State, i *Term) bool {
				a, et := s.elemAddr(l, i)
				return s.facts.eq(s.content(s.load(a, et)), mkItoa(mkApp("os.Getpid", types.Typ[types.Int])))
			}) {
				return true
			}
		}
	}
	return false
}

func reachesState(c *Check) func(ssa.Instruction) bool {
	return c.p.callsTo(sigPkg+".LoadSignState", sigPkg+".LoadOrCreateSignState", ssT+".Save")
}

func c26(c *Check) {
	run := c.rule("a sign state is changed by a command only after it made sure that no other horcrux process runs", 2)
	fwd := c.rule("the given height is written to a loaded record of the configured home and chain only if it is higher, without a signature", 2)
	both := c.rule("success is reported only if both records were written", 1)
	show := c.rule("showing the state changes nothing", 1)

	st := c.p.namedType(sigPkg, "SignState")
	var setters, showers []*ssa.Function
	kindOf := map[*ssa.Function]string{}
	for _, f := range c.p.roots() {
		if fnPkg(f) != cmdPkg || !isCommand(f) {
			continue
		}
		switch w, rest := c.p.commandUse(f); {
		case w == "set" && (strings.Contains(rest, "height") || c.p.mentions(f, reachesState(c))):
			setters, kindOf[f] = append(setters, f), "set"
		case w == "show" && c.p.mentions(f, reachesState(c)):
			showers, kindOf[f] = append(showers, f), "show"
		}
	}
	h := &Hooks{}
	h.Decode = func(s *State, target, v *Term, k *Call) { s.noteDecode(v) }
	h.After = func(s *State, k *Call, res *Term) {
		s.noteFile(k, res)
		s.noteProcesses(k, res)
		if p, _ := c.stateWrite(s, k); p != nil {
			_, _, kind := stateFile(p)
			s.mon["own:wrote:"+kind] = res
		}
	}
	h.Call = func(s *State, k *Call) {
		fn := rel(s.e.root)
		l := touched(s, k)
		if len(l) == 0 {
			return
		}
		if kindOf[s.e.root] == "show" {
			c.judge(s, show, fn, k.instr, false, "a file may be changed")
			return
		}
		p, doc := c.stateWrite(s, k)
		_, _, kd := stateFile(l[0])
		n := fn + ": " + kd
		c.judge(s, run, n, k.instr, s.notRunning(k.instr), "a signer may be running")
		if p == nil {
			c.judge(s, fwd, n, k.instr, false, "a file is changed in another way than by writing a record")
			return
		}
		for doc.op == OApp && doc.name == "deref" || doc.op == OIface {
			doc = doc.args[0]
		}
		dir, chain, kind := stateFile(p)
		why := ""
		get := func(f string) *Term { return part(doc, st, f) }
		pos := triple{get("Height"), get("Round"), get("Step")}
		switch {
		case kind != "pv" && kind != "share" || !isConfigured(chain, "ChainID") || !s.stateDir(dir):
			why = "another file than the sign states of the configured home and chain is written"
		case !s.givenHeight(pos[0]):
			why = "the height that is written may not be the given one"
		case !s.facts.eq(unconv(pos[1]), mkInt(0)) || !s.facts.eq(unconv(pos[2]), mkInt(0)):
			why = "more than the given height may be written"
		case !s.isEmpty(s.content(get("Signature"))) || !s.isEmpty(s.content(get("SignBytes"))):
			why = "a signature may be kept for the new position"
		default:
			why = "the new position may not be higher than that of the record that was loaded"
			for _, d := range s.loadedFrom(p) {
				if lexGT(s, pos, triple{part(d, st, "Height"), part(d, st, "Round"), part(d, st, "Step")}) {
					why = ""
				}
			}
		}
		c.judge(s, fwd, n, k.instr, why == "", why)
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if kindOf[fn] == "show" {
			c.judge(s, show, rel(fn), nil, true, "")
			return
		}
		if !succeeded(s, fn, res) {
			return
		}
		for _, k := range []string{"pv", "share"} {
			e := s.mon["own:wrote:"+k]
			c.judge(s, both, rel(fn), nil, e != nil && s.facts.isNil(e), "success is reported although a record may not have been written")
		}
	}
	c.explore(h, append(setters, showers...), nil)
}

// givenHeight: the number given as the command's argument.
func (s *State) givenHeight(h *Term) bool {
	h = unconv(h)
	if !isApp(h, "strconv.ParseInt#0", "strconv.Atoi#0") || !s.facts.isNil(errPart(h)) {
		return false
	}
	if isApp(h, "strconv.ParseInt#0") && (h.args[1] != mkInt(10) || h.args[2] != mkInt(64) && h.args[2] != mkInt(0)) {
		return false
	}
	return s.isArg(h.args[0], 0)
}

// isArg: the i-th argument of the command.
func (s *State) isArg(v *Term, i int64) bool {
	a := loadAddr(v)
	fn := s.e.root
	if a == nil || a.op != OIndexAddr || fn == nil || !isCommand(fn) {
		return false
	}
	return a.args[0] == paramSym(fn, fn.Params[1]) && a.args[1] == mkInt(i)
}

func c27(c *Check) {
	names := c.rule("every command names the sign states of a chain in the same way, in the home's state directory", 7)
	moved := c.rule("the configuration names a new chain only after this node's sign states were moved to it", 1)
	over := c.rule("moving sign states overwrites none", 2)
	back := c.rule("a failing change of the chain ID leaves the sign states where they were", 1)
	done := c.rule("success is reported only if the configuration was written", 1)

	cfgT := c.p.namedType(cmdPkg, "Config")
	loadedCfg := func(s *State, p *Term) bool {
		if p == nil || p.op == OLoad {
			return p != nil
		}
		for _, f := range []string{"CosignerConfig", "ChainNodes", "HomeDir"} { // a copy
			if isConfigured(s.content(s.get(p, cfgT, f)), f) {
				return true
			}
		}
		return false
	}
	h := &Hooks{}
	check := func(s *State, p *Term, in ssa.Instruction, kindWant string, moves bool) {
		if ownFile(p) {
			return
		}
		if cp := s.e.root; !isCommand(cp) {
			return // the caller names the file
		}
		dir, chain, kind := stateFile(p)
		why := ""
		switch {
		case kind != "pv" && kind != "share" || kindWant != "" && kind != kindWant:
			why = "a sign state has another name than elsewhere"
		case !s.stateDir(dir):
			why = "a sign state is not in the state directory of the home"
		case !isConfigured(chain, "ChainID") && !s.isArg(chain, 0):
			why = "a sign state is not named by the chain ID"
		}
		c.judge(s, names, c.site(in, rel(s.e.root)+" "+kind), in, why == "", why)
		if why == "" && !moves {
			s.monAdd("own:named", chain)
		}
	}
	h.Decode = func(s *State, target, v *Term, k *Call) {
		s.noteDecode(v)
		if !isDecoded(v) || structName(v.typ) != ssT {
			return
		}
		ok := false
		for _, m := range s.monKeys("own:read:") {
			if x := s.mon[m]; x.args[2] == v.args[0] {
				ok = true
				check(s, x.args[0], k.instr, "", false)
			}
		}
		if !ok {
			c.judge(s, names, c.site(k.instr, rel(s.e.root)), k.instr, false, "it is not known which file a sign state is loaded from")
		}
	}
	h.Call = func(s *State, k *Call) {
		if p, _ := c.stateWrite(s, k); p != nil {
			check(s, p, k.instr, "", false)
		}
		if strings.HasPrefix(k.name, fpvPkg+".Load") {
			check(s, s.content(k.arg(1)), k.instr, "pv", false)
		}
		fn := rel(s.e.root)
		if k.name == osRename {
			from, to := s.content(k.arg(0)), s.content(k.arg(1))
			_, _, k1 := stateFile(from)
			_, _, k2 := stateFile(to)
			if k1 == "" && k2 == "" {
				return
			}
			undo := false
			for _, m := range s.monKeys("own:mv:") {
				if x := s.mon[m]; x.args[0] == to && x.args[1] == from {
					undo = true
				}
			}
			if undo {
				s.monAdd("own:undone", mkApp("mv", errT, to, from))
				return
			}
			check(s, from, k.instr, k2, true)
			check(s, to, k.instr, k1, true)
			c.judge(s, over, fn+": "+k1, k.instr, s.absent(to), "the sign state of another chain may be overwritten")
		}
		if k.name != "gopkg.in/yaml.v2.Marshal" && k.name != "gopkg.in/yaml.v3.Marshal" {
			return
		}
		p, _ := unIface(k.arg(0))
		if typeName(derefT(typOr(p))) != configT {
			return
		}
		id := s.content(s.get(p, cfgT, "ChainID"))
		s.mon["own:written"] = id
		if isConfigured(id, "ChainID") || !loadedCfg(s, p) {
			return
		}
		why := ""
		for _, kind := range []string{"pv", "share"} {
			if kind == "share" && s.facts.isNil(s.get(p, cfgT, "CosignerConfig")) {
				continue
			}
			ok := false
			for _, m := range s.monKeys("own:mv:") {
				x := s.mon[m]
				d1, c1, k1 := stateFile(x.args[0])
				d2, c2, k2 := stateFile(x.args[1])
				if k1 == kind && k2 == kind && isConfigured(c1, "ChainID") && c2 == id && sameTerms(d1, d2) && s.facts.isNil(x.args[2]) {
					ok = true
				}
			}
			for _, n := range []string{"own:stat:", "own:read:"} {
				for _, m := range s.monKeys(n) {
					x := s.mon[m]
					if d1, c1, k1 := stateFile(x.args[0]); k1 == kind && isConfigured(c1, "ChainID") && s.stateDir(d1) && s.absent(x.args[0]) {
						ok = true // there is none
					}
				}
			}
			if !ok && why == "" {
				why = "the " + kind + " sign state may still be that of the old chain ID"
			}
		}
		c.judge(s, moved, fn, k.instr, why == "", why)
	}
	h.After = func(s *State, k *Call, res *Term) {
		s.noteFile(k, res)
		if k.name == osRename {
			from, to := s.content(k.arg(0)), s.content(k.arg(1))
			for _, m := range s.monKeys("own:undone:") {
				if x := s.mon[m]; x.args[0] == to && x.args[1] == from {
					return
				}
			}
			if _, _, kind := stateFile(from); kind != "" {
				s.monAdd("own:mv", mkApp("mv", errT, from, to, res))
			}
		}
		if s.mon["own:written"] != nil && (changesFiles(k.name) || k.name == writeAtomic) && k.name != osRename && res != nil && s.mon["own:cfgerr"] == nil && s.configFile(s.content(k.arg(0))) {
			s.mon["own:cfgerr"] = res
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if !isCommand(fn) {
			return
		}
		mv := s.monKeys("own:mv:")
		ok := succeeded(s, fn, res)
		if ok && s.mon["own:written"] != nil { // the files that were named are those of the chain in the configuration
			for _, m := range s.monKeys("own:named:") {
				c.judge(s, names, rel(fn)+": chain", nil, s.mon[m] == s.mon["own:written"], "a sign state is named by another chain ID than the one in the configuration")
			}
		}
		if len(mv) == 0 {
			return
		}
		if ok {
			e := s.mon["own:cfgerr"]
			c.judge(s, done, rel(fn), nil, e != nil && s.facts.isNil(e), "success is reported although the configuration may not name the new chain")
		}
		if s.facts.isNil(errOf(fn, res)) || ok && s.mon["own:cfgerr"] != nil && s.facts.isNil(s.mon["own:cfgerr"]) {
			return
		}
		for _, m := range mv {
			x := s.mon[m]
			undone := s.facts.isNonNil(x.args[2])
			for _, u := range s.monKeys("own:undone:") {
				undone = undone || s.mon[u].args[0] == x.args[0] && s.mon[u].args[1] == x.args[1]
			}
			c.judge(s, back, rel(fn), nil, undone, "a sign state was moved although the chain ID is not changed")
		}
	}
	var roots []*ssa.Function
	for _, f := range c.p.roots() {
		if fnPkg(f) != cmdPkg || !isCommand(f) {
			continue
		}
		if c.p.mentions(f, reachesState(c)) || c.p.mentions(f, touches) || c.p.mentions(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := ci.Common().StaticCallee()
			return g != nil && strings.HasPrefix(fnName(g), fpvPkg+".Load")
		}) {
			roots = append(roots, f)
		}
	}
	c.explore(h, roots, nil)
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
