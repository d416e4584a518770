package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", c05)
	register("C22", c22)
}

// parent: what a value or address was reached through.
func parentOf(t *Term) *Term {
	switch t.op {
	case OFieldAddr, OIndexAddr, OLoad, OField, OIface, OSlice:
		return t.args[0]
	case OApp:
		if t.name == "mapget" || t.name == "maphas" || t.name == "deref" || strings.HasPrefix(t.name, "as:") || strings.HasPrefix(t.name, "conv:") {
			return t.args[0]
		}
	}
	return nil
}

func (t *Term) chain() []*Term {
	var out []*Term
	for t != nil && len(out) < 40 {
		out = append(out, t)
		t = parentOf(t)
	}
	return out
}

// hasMutex: a mutex is part of the type (or it points to one).
func hasMutex(t types.Type, d int) bool {
	if t == nil || d > 4 {
		return false
	}
	switch typeName(derefT(t)) {
	case "sync.Mutex", "sync.RWMutex", "sync.Locker":
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if hasMutex(st.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// serves: the struct is one that requests, events and background work share.
func serves(t types.Type) bool {
	t = derefT(t)
	switch structName(t) {
	case lcT, tvT, rsT:
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == sigPkg && hasMutex(t, 0)
}

// sharedState names the shared state an address, a map or a value taken from them belongs to, and gives what it is
// kept in (a field of an object that others can reach).
func (s *State) sharedState(t *Term) (name string, in *Term) {
	ch := t.chain()
	for i := len(ch) - 1; i >= 0; i-- {
		x := ch[i]
		if x.op != OFieldAddr || x.typ == nil {
			continue
		}
		ft := derefT(x.typ)
		what := ""
		switch {
		case typeName(derefT(ft)) == ssT:
			what = strings.TrimPrefix(x.name, sigPkg+".")
		case isMetaMap(&Term{typ: ft}):
			what = "nonce metadata"
		case isKV(ft):
			what = "key-value store"
		default:
			continue
		}
		shared := false
		for _, y := range x.chain() {
			if y.op == OFieldAddr && y.args[0].typ != nil && serves(y.args[0].typ) {
				shared = true
			}
		}
		if shared {
			return what, x
		}
	}
	return "", nil
}

// lookState is sharedState, also for objects that are known to be kept in such a field, and for parts of nonce metadata.
func (s *State) lookState(t *Term) (string, *Term) {
	if n, x := s.sharedState(t); n != "" {
		return n, x
	}
	r := rootAddr(t)
	if s.private(r) {
		return "", nil
	}
	for _, x := range t.chain() {
		if x.op == OFieldAddr && strings.HasPrefix(x.name, pmT+".") {
			return "nonce metadata", nil
		}
	}
	if r.op == OAlloc {
		var as []*Term
		for a, v := range s.mem {
			if v == r && a.op == OFieldAddr {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		for _, a := range as {
			if n, x := s.sharedState(a); n != "" && !s.private(rootAddr(a)) {
				return n, x
			}
		}
	}
	return "", nil
}

// mutexName names a mutex by the field (or variable) it is.
func mutexName(mu *Term) string {
	switch mu.op {
	case OFieldAddr, OGlobal:
		return strings.TrimPrefix(mu.name, sigPkg+".")
	case OLoad:
		return mutexName(mu.args[0])
	case OAlloc:
		if mu.instr != nil {
			if a, ok := mu.instr.(*ssa.Alloc); ok {
				return "local " + a.Comment + " of " + fnOf(a)
			}
		}
	}
	return ""
}

// related: the mutex belongs to the object the state is kept in.
func related(mu, in *Term) bool {
	if mu.op == OGlobal || in == nil {
		return true
	}
	set := map[*Term]bool{}
	for _, x := range in.chain() {
		set[x] = true
	}
	for _, x := range mu.chain() {
		if set[x] {
			return true
		}
	}
	return false
}

// access is one observed access to shared state.
type access struct {
	state, site string
	in          ssa.Instruction
	write       bool
	locks       map[string]bool // mutex -> held exclusively
	at          *State
	root        string
}

// lockWatch collects the accesses to shared state with the mutexes that are held.
type lockWatch struct {
	c    *Check
	accs []*access
	seen map[string]bool
}

func (w *lockWatch) hit(s *State, t *Term, write bool, in ssa.Instruction, what string) {
	n, x := s.lookState(t)
	if n == "" || s.private(rootAddr(t)) {
		return
	}
	a := &access{state: n, in: in, write: write, locks: map[string]bool{}}
	for _, l := range s.locks {
		if m := mutexName(l.mu); m != "" && related(l.mu, x) {
			a.locks[m] = a.locks[m] || !l.read
		}
	}
	a.site = fnOf(in) + ": " + what
	k := fmt.Sprint(n, "|", a.site, "|", write, "|", a.locks)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	a.at = &State{e: s.e, trace: s.trace}
	a.root = s.e.root.String()
	w.accs = append(w.accs, a)
}

// record: the address is a record or one of its fields; maps and fields that never change after construction do not count.
func (w *lockWatch) cell(s *State, a *Term) (string, bool) {
	if typeName(derefT(typOr(a))) == ssT && a.op != OAlloc {
		return "the record", true
	}
	if a.op != OFieldAddr {
		return "", false
	}
	f := a.name[strings.LastIndexByte(a.name, '.')+1:]
	switch {
	case strings.HasPrefix(a.name, ssT+"."):
		return f, w.c.p.mutable[s.e.classOf(a)]
	case strings.HasPrefix(a.name, pmT+"."):
		return f, true
	}
	ft := derefT(typOr(a))
	if isMetaMap(&Term{typ: ft}) || isKV(ft) || typeName(derefT(ft)) == ssT {
		if n, _ := s.lookState(a); n != "" {
			return f, w.c.p.mutable[s.e.classOf(a)]
		}
	}
	return "", false
}

func (w *lockWatch) hooks(h *Hooks) {
	w.seen = map[string]bool{}
	h.Load = func(s *State, a *Term, in ssa.Instruction) {
		if f, ok := w.cell(s, a); ok {
			w.hit(s, a, false, in, "read "+f)
		}
	}
	store := h.Store
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		if store != nil {
			store(s, addr, val, in)
		}
		eachStore(addr, val, 0, func(a, v *Term) {
			if f, ok := w.cell(s, a); ok || strings.HasPrefix(a.name, ssT+".") {
				w.hit(s, a, true, in, "write "+f)
			}
		})
	}
	isMap := func(m *Term) bool { return isMetaMap(m) || isKV(typOr(m)) || w.c.isCache(m) }
	h.MapLookup = func(s *State, m, k *Term, in ssa.Instruction) {
		if isMap(m) {
			w.hit(s, m, false, in, "map lookup")
		}
	}
	update := h.MapUpdate
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if update != nil {
			update(s, m, k, v, in)
		}
		if isMap(m) {
			w.hit(s, m, true, in, "map update")
		}
	}
	h.MapRange = func(s *State, m *Term, in ssa.Instruction) {
		if isMap(m) {
			w.hit(s, m, false, in, "map iteration")
		}
	}
	call := h.Call
	h.Call = func(s *State, k *Call) {
		if call != nil {
			call(s, k)
		}
		if k.inline || strings.HasPrefix(k.name, "builtin ") && k.name != "builtin len" {
			return
		}
		for _, x := range k.args {
			x = unI(x)
			t := typOr(x)
			if isPointerT(t) && typeName(derefT(t)) == ssT || isMap(x) {
				w.hit(s, x, false, k.instr, "passed to "+shortCall(k.name))
			}
		}
	}
}

// guards chooses for every shared state the mutex that protects it: the one held at most of the places it is used at.
func (w *lockWatch) guards() map[string]string {
	type siteKey struct{ state, site string }
	held := map[siteKey]map[string]bool{}
	for _, a := range w.accs {
		k := siteKey{a.state, a.site}
		if held[k] == nil {
			held[k] = map[string]bool{}
			for m := range a.locks {
				held[k][m] = true
			}
			continue
		}
		for m := range held[k] {
			if _, ok := a.locks[m]; !ok {
				delete(held[k], m)
			}
		}
	}
	count := map[string]map[string]int{}
	for k, ms := range held {
		if count[k.state] == nil {
			count[k.state] = map[string]int{}
		}
		for m := range ms {
			count[k.state][m]++
		}
	}
	out := map[string]string{}
	for st, ms := range count {
		best := ""
		for m, n := range ms {
			if best == "" || n > ms[best] || n == ms[best] && m < best {
				best = m
			}
		}
		out[st] = best
	}
	return out
}

// content leaves: the pointers and maps a value consists of.
func (s *State) handles(v *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if t == nil || seen[t] || d > 10 {
			return
		}
		seen[t] = true
		switch t.op {
		case OApp, OField, OFieldAddr, OLoad, OSym, OIndexAddr, OClosure:
			f(t)
		case OAlloc:
			f(t)
			for a, w := range s.mem {
				if rootAddr(a) == t {
					visit(w, d+1)
				}
			}
			if ms := s.maps[t]; ms != nil {
				for _, u := range ms.upd {
					visit(u.v, d+1)
				}
			}
		default:
			for _, a := range t.args {
				visit(a, d+1)
			}
		}
	}
	visit(v, 0)
}

// shares: the value gives access to shared state itself, not to a copy.
func (w *lockWatch) shares(s *State, v *Term) string {
	hit := ""
	s.handles(v, func(t *Term) {
		a := t
		if t.op == OLoad {
			a = t.args[0]
		} else if t.op != OFieldAddr {
			return
		}
		ft := typOr(t)
		if t.op == OFieldAddr && typeName(derefT(ft)) != ssT || t.op == OLoad && !(isPointerT(ft) && typeName(derefT(ft)) == ssT) && !isMetaMap(t) && !isKV(ft) && !w.c.isCache(t) {
			return
		}
		if n, _ := s.sharedState(a); n != "" && !s.private(rootAddr(a)) {
			hit = n
		}
	})
	return hit
}

func c05(c *Check) {
	prot := c.rule("shared signing state is only used while its mutex is held", 20)
	kinds := c.rule("every kind of shared signing state has one mutex that protects it", 5)
	leave := c.rule("shared signing state is handed out as a copy only", 5)
	above := c.rule("the watermark that a share is signed against is the one of the same critical section", 1)
	moved := c.rule("a record is replaced in the critical section in which it was found to be lower", 3)
	fresh := c.rule("metadata is kept for a position in the critical section in which none was found", 2)
	start := c.rule("a request starts on a position in the critical section in which it was found to be new", 2)
	h := &Hooks{}
	u := &wm{c: c}
	u.close = func(s *State, base *Term, in ssa.Instruction, old, new triple, set map[string]*Term) {
		if set["Height"] == nil && set["Round"] == nil && set["Step"] == nil {
			return
		}
		c.judge(s, moved, objName(base)+" in "+rel(s.e.root), in, lexGT(s, new, old) || tripleEq(s, new, old), "the record is replaced although it may have moved on since it was looked at")
	}
	u.hooks(h)
	ends := h.RootEnd
	h.Call = func(s *State, k *Call) { c.signedAbove(s, k, above) }
	ht := c.p.namedType(sigPkg, "HrsMetadata")
	h.MapUpdate = func(s *State, m, k, v *Term, in ssa.Instruction) {
		if !isMetaMap(m) || v == nil || s.private(rootAddr(m)) {
			return
		}
		sec := part(v, ht, "Secret")
		if sec.op == OField && isApp(sec.args[0], "mapget") && isMetaMap(sec.args[0].args[0]) {
			return // an entry that is put back
		}
		c.judge(s, fresh, c.site(in, "nonce metadata"), in, c.absent(s, m, k, func(o *Term) bool { return o != nil && part(o, ht, "Secret") == sec }),
			"metadata may replace metadata that another request has put there since")
	}
	w := &lockWatch{c: c}
	w.hooks(h)
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		ends(s, fn, res)
		for _, r := range res {
			n := w.shares(s, r)
			if n != "" || c.p.returnsState(fn) {
				c.judge(s, leave, rel(fn), nil, n == "", "the result is the "+n+" itself")
			}
		}
	}
	c.explore(h, c.p.roots(), nil)
	g := w.guards()
	seen := map[string]bool{}
	for _, a := range w.accs {
		if !seen[a.state] {
			seen[a.state] = true
			c.fact(kinds, a.state, token.NoPos, g[a.state] != "", "no mutex is held at any use")
		}
		mu := g[a.state]
		ex, ok := a.locks[mu]
		why := ""
		switch {
		case mu == "" || !ok:
			why = "used without holding " + mu
		case a.write && !ex:
			why = "changed while " + mu + " is only held for reading"
		}
		c.judge(a.at, prot, a.state+" in "+a.site, a.in, why == "", "the "+a.state+" is "+why+" (entry "+a.root+")")
	}
	c.startedFirst(start)
}

// returnsState: the results can hold maps or records.
func (p *Program) returnsState(fn *ssa.Function) bool {
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		t := rt.At(i).Type()
		if isKV(t) || typeName(derefT(t)) == ssT || strings.HasPrefix(typeName(derefT(t)), raftPkg+".FSM") || strings.HasPrefix(typeName(derefT(t)), sigPkg+".") {
			return true
		}
	}
	return false
}

// blocking: the call waits for the network, for time or for other goroutines.
func blocking(k *Call) string {
	n := k.name
	switch {
	case dials(k), n == makeSecret:
		return "dials a connection"
	case n == grpcDial || n == "google.golang.org/grpc.DialContext":
		return "dials a connection"
	case strings.HasPrefix(n, "invoke "+protoPkg+".") && strings.Contains(n, "Client."):
		return "calls another node"
	case isMsgIO(k, "ReadMsg") != nil || isMsgIO(k, "WriteMsg") != nil, strings.HasPrefix(n, "invoke net.Conn.") && (isSuffix(n, ".Read", ".Write")), strings.HasPrefix(n, makeSecretT+".") && isSuffix(n, ".Read", ".Write"):
		return "reads or writes a connection"
	case strings.HasPrefix(n, "invoke "+raftPkg+".") && strings.HasSuffix(n, "Future.Error"):
		return "waits for the cluster"
	case n == raftApply || strings.HasPrefix(n, raftPkg+".Raft.") && isSuffix(n, ".Barrier", ".VerifyLeader", ".Snapshot", ".Restore", ".Shutdown", ".LeadershipTransfer", ".LeadershipTransferToServer", ".AddVoter", ".RemoveServer"):
		return "waits for the cluster"
	case strings.HasPrefix(n, "net/http."), strings.HasPrefix(n, "os/exec."):
		return "waits for another process"
	case strings.HasPrefix(n, "net.Listener.") || n == "invoke net.Listener.Accept" || n == grpcServe:
		return "waits for connections"
	case strings.HasSuffix(n, "sync.Cond.Wait"):
		return "waits for another goroutine"
	}
	return ""
}

type heldAt struct {
	mus  []*Term
	in   ssa.Instruction
	at   *State
	what string
	meth *types.Func
	root string
	from string // the field the receiver of the call was read from
}

func c22(c *Check) {
	rel1 := c.rule("every mutex is released on every path out", 6)
	unl := c.rule("only a mutex that is held is released", 8)
	dbl := c.rule("no mutex is acquired that is held already", 8)
	order := c.rule("mutexes are acquired in an order without a cycle", 1)
	wait := c.rule("no mutex of the signing state or of a request's data is held while waiting for the network, for time or for other goroutines", 4)
	whole := c.rule("a mutex in use is not copied or replaced", 1)
	h := &Hooks{}
	type edge struct{ from, to string }
	edges := map[edge]heldAt{}
	acquires := map[*ssa.Function]map[string]bool{}
	blocks := map[*ssa.Function]string{}
	var held, waits []heldAt
	lockSites := map[string]ssa.Instruction{}
	var top func(s *State) *ssa.Function
	top = func(s *State) *ssa.Function { return s.e.root }
	snap := func(s *State) *State { return &State{e: s.e, trace: s.trace} }
	mus := func(s *State) []*Term {
		var l []*Term
		for _, x := range s.locks {
			l = append(l, x.mu)
		}
		return l
	}
	w := &lockWatch{c: c}
	seenHeld := map[string]bool{}
	hold := func(s *State, list *[]heldAt, in ssa.Instruction, what string, m *types.Func, from string) {
		if len(s.locks) == 0 {
			return
		}
		var ns []string
		for _, x := range s.locks {
			ns = append(ns, mutexName(x.mu))
		}
		k := fmt.Sprint(ns, in.Pos(), fnOf(in), what)
		if seenHeld[k] {
			return
		}
		seenHeld[k] = true
		*list = append(*list, heldAt{mus(s), in, snap(s), what, m, s.e.root.String(), from})
	}
	h.Lock = func(s *State, mu *Term, in ssa.Instruction) {
		n := mutexName(mu)
		site := c.site(in, "lock "+n)
		lockSites[n] = in
		ok, why := true, ""
		for _, x := range s.locks {
			if x.mu == mu || s.facts.eq(x.mu, mu) {
				ok, why = false, "the mutex is acquired although it is held already"
			}
			if f := mutexName(x.mu); f != "" && n != "" {
				if _, dup := edges[edge{f, n}]; !dup {
					edges[edge{f, n}] = heldAt{nil, in, snap(s), "", nil, s.e.root.String(), ""}
				}
			}
		}
		c.judge(s, dbl, site, in, ok, why)
		if fn := top(s); fn != nil {
			if acquires[fn] == nil {
				acquires[fn] = map[string]bool{}
			}
			acquires[fn][n] = true
		}
	}
	h.Unlock = func(s *State, mu *Term, in ssa.Instruction) {
		ok := false
		for _, x := range s.locks {
			ok = ok || x.mu == mu || s.facts.eq(x.mu, mu)
		}
		c.judge(s, unl, c.site(in, "unlock "+mutexName(mu)), in, ok, "a mutex is released that is not held here")
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		for _, x := range s.locks {
			c.judge(s, rel1, c.site(x.site, "lock "+mutexName(x.mu)), x.site, false, rel(fn)+" ends while the mutex is held")
		}
	}
	h.Wait = func(s *State, what string, in ssa.Instruction) {
		hold(s, &waits, in, what, nil, "")
		if fn := top(s); blocks[fn] == "" {
			blocks[fn] = what
		}
	}
	w.hooks(h)
	load := h.Load
	h.Load = func(s *State, a *Term, in ssa.Instruction) {
		load(s, a, in)
		if n := typeName(derefT(typOr(a))); n == "sync.Mutex" || n == "sync.RWMutex" {
			c.judge(s, whole, c.site(in, "copy of "+mutexName(a)), in, s.private(rootAddr(a)), "a mutex that may be in use is copied")
		}
	}
	call := h.Call
	h.Call = func(s *State, k *Call) {
		call(s, k)
		if k.inline {
			return
		}
		if what := blocking(k); what != "" {
			hold(s, &waits, k.instr, shortCall(k.name)+" "+what, nil, "")
			if fn := top(s); blocks[fn] == "" {
				blocks[fn] = shortCall(k.name) + " " + what
			}
			return
		}
		if k.common != nil && k.common.IsInvoke() && strings.HasPrefix(k.name, "invoke ") {
			from, _ := fieldOf(loadAddr(k.arg(0)))
			hold(s, &held, k.instr, k.name, k.common.Method, from)
		}
	}
	stored := map[string]map[string]bool{} // the types of the values that are stored in an interface field
	store := h.Store
	h.Store = func(s *State, addr, val *Term, in ssa.Instruction) {
		store(s, addr, val, in)
		eachStore(addr, val, 0, func(a, v *Term) {
			cl, _ := fieldOf(a)
			if _, ok := derefT(typOr(a)).Underlying().(*types.Interface); !ok || cl == "" || s.facts.isNil(v) {
				return
			}
			if stored[cl] == nil {
				stored[cl] = map[string]bool{}
			}
			if v.op == OIface {
				stored[cl][typKey(v.typ)] = true
			} else {
				stored[cl]["?"] = true
			}
		})
		t := derefT(typOr(addr))
		if hasMutex(t, 0) && !isPointerT(t) && typeName(t) != "sync.Locker" {
			if _, isL := t.Underlying().(*types.Interface); !isL {
				zero := val.op == OZero || val.op == OStruct
				c.judge(s, whole, c.site(in, "store of "+shortType(t)), in, s.private(rootAddr(addr)) && (zero || !fromShared(s, val)), "a mutex that may be in use is copied or overwritten")
			}
		}
	}
	c.explore(h, c.p.roots(), nil)
	for n, in := range lockSites {
		c.judge(nil, rel1, c.site(in, "lock "+n), in, true, "")
	}
	state := map[string]string{} // mutex -> what it protects
	g := w.guards()
	var sts []string
	for st := range g {
		sts = append(sts, st)
	}
	sort.Strings(sts)
	for _, st := range sts {
		if g[st] != "" {
			state[g[st]] = strings.TrimPrefix(state[g[st]]+", "+st, ", ")
		}
	}
	// what an interface method may do
	impl := func(m *types.Func) []*ssa.Function {
		var out []*ssa.Function
		it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for _, f := range c.p.fns {
			if f.Name() == m.Name() && f.Signature.Recv() != nil && f.Synthetic == "" && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	judgeWait := func(x heldAt, what string) {
		for _, mu := range x.mus {
			n := mutexName(mu)
			st := state[n]
			if strings.HasPrefix(n, "local ") {
				st = "data of a request"
			}
			if st != "" {
				c.judge(x.at, wait, n+" at "+c.site(x.in, what), x.in, false, "the mutex of the "+st+" is held during a call that may block ("+what+")")
			}
		}
	}
	for _, x := range waits {
		judgeWait(x, x.what)
	}
	for _, x := range held {
		for _, f := range impl(x.meth) {
			if ts := stored[x.from]; ts != nil && !ts["?"] && !ts[typKey(f.Signature.Recv().Type())] {
				continue // such a value is never put there
			}
			if b := blocks[f]; b != "" {
				judgeWait(x, rel(f)+": "+b)
			}
			for n := range acquires[f] {
				for _, mu := range x.mus {
					e := edge{mutexName(mu), n}
					if _, dup := edges[e]; !dup && e.from != "" && n != "" {
						edges[e] = x
					}
				}
			}
		}
	}
	var ns []string
	for n := range lockSites {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if state[n] != "" || strings.HasPrefix(n, "local ") {
			c.judge(nil, wait, "critical sections of "+n, lockSites[n], true, "")
		}
	}
	c.fact(order, "lock order", token.NoPos, true, "")
	// cycles
	next := map[string][]string{}
	for e := range edges {
		next[e.from] = append(next[e.from], e.to)
	}
	for e, x := range edges {
		seen := map[string]bool{}
		todo := []string{e.to}
		for len(todo) > 0 {
			n := todo[0]
			todo = todo[1:]
			if n == e.from {
				c.judge(x.at, order, e.from+" before "+e.to, x.in, false, e.to+" is acquired while "+e.from+" is held, and the other way round elsewhere (or for another object of the same kind)")
				break
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			todo = append(todo, next[n]...)
		}
		c.judge(nil, order, e.from+" before "+e.to, x.in, true, "")
	}
}

// fromShared: the value was read from an object that others can reach.
func fromShared(s *State, v *Term) bool {
	for _, x := range v.chain() {
		if x.op == OLoad && !s.private(rootAddr(x.args[0])) {
			return true
		}
	}
	return false
}
