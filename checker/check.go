package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	p        *Program
	id       string
	obls     map[string]*Obligation
	order    []string
	roots    []*ssa.Function
	engines  []*Engine
	rules    []string
	min      map[string]int // rule -> least number of constructs it must have been applied to
	thorough bool
}

// Obligation is one rule applied to one construct.
type Obligation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	Paths     int      `json:"paths_judged"`
	Failed    bool     `json:"failed,omitempty"`
	What      string   `json:"what,omitempty"`
	Path      []string `json:"path,omitempty"`
	Root      string   `json:"entry,omitempty"`
}

type property struct {
	id  string
	run func(c *Check)
}

var properties = map[string]property{}

func register(id string, run func(c *Check)) { properties[id] = property{id, run} }

// rule declares a rule and how many constructs of the repository it must at least have been applied to.
func (c *Check) rule(name string, min int) string {
	c.rules = append(c.rules, name)
	c.min[name] = min
	return name
}

func (c *Check) obl(rule, construct string, pos token.Pos) *Obligation {
	k := rule + "|" + construct
	o := c.obls[k]
	if o == nil {
		o = &Obligation{Rule: rule, Construct: construct, Where: c.p.pos(pos)}
		c.obls[k] = o
		c.order = append(c.order, k)
	}
	return o
}

// judge applies a rule to a construct on one path.
func (c *Check) judge(s *State, rule, construct string, in ssa.Instruction, ok bool, why string) {
	o := c.obl(rule, construct, instrPos(in))
	o.Paths++
	if ok || o.Failed && (s == nil || s.trace == nil || len(o.Path) <= s.trace.n) {
		return
	}
	o.Failed = true
	o.What = why
	o.Where = c.p.pos(instrPos(in))
	if s != nil {
		o.Path = s.path()
		if s.e.root != nil {
			o.Root = s.e.root.String()
		}
	}
}

func (c *Check) failing() bool {
	for _, o := range c.obls {
		if o.Failed {
			return true
		}
	}
	return false
}

// fact records a structural obligation (no path).
func (c *Check) fact(rule, construct string, pos token.Pos, ok bool, why string) {
	o := c.obl(rule, construct, pos)
	o.Paths++
	if !ok && !o.Failed {
		o.Failed, o.What = true, why
		o.Where = c.p.pos(pos)
	}
}

func (c *Check) explore(h *Hooks, roots []*ssa.Function, setup func(s *State, args []*Term)) *Engine {
	e := newEngine(c.p, h)
	c.engines = append(c.engines, e)
	e.failed = c.failing
	for _, f := range roots {
		c.roots = append(c.roots, f)
		e.exploreRoot(f, setup)
	}
	return e
}

// fnOf names the function an instruction is in, without what depends on the layout of the source.
func fnOf(in ssa.Instruction) string {
	f := in.Parent()
	n := ""
	for f.Parent() != nil {
		n = " closure" + n
		f = f.Parent()
	}
	return strings.ReplaceAll(f.RelString(nil), modPath+"/", "") + n
}

func (c *Check) site(in ssa.Instruction, what string) string { return fnOf(in) + ": " + what }

type knownFinding struct{ prop, key, text string }

func readKnown(file string) []knownFinding {
	var out []knownFinding
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(l, " :: ", 3)
		if len(parts) == 3 {
			out = append(out, knownFinding{strings.TrimPrefix(parts[0], "property="), parts[1], parts[2]})
		}
	}
	return out
}

func runCheck(repo, verif, id string, thorough bool) int {
	t0 := time.Now()
	out := filepath.Join(verif, "evidence")
	os.MkdirAll(out, 0755)
	replay := filepath.Join("evidence", id+".violation.txt")
	os.Remove(filepath.Join(verif, replay))
	fail := func(text string) int {
		os.WriteFile(filepath.Join(verif, replay), []byte(text+"\n"), 0644)
		fmt.Println(text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	pr, ok := properties[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	p, err := load(repo)
	if err != nil {
		return fail("cannot analyse the repository: " + err.Error())
	}
	c := &Check{p: p, id: id, obls: map[string]*Obligation{}, min: map[string]int{}, thorough: thorough}
	crash := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				crash = fmt.Sprint("analysis failed: ", r, "\n", string(debug.Stack()))
			}
		}()
		pr.run(c)
	}()
	if crash != "" {
		return fail(crash)
	}
	// undecided parts and vacuous rules count against the property
	for _, e := range c.engines {
		for w, y := range e.undecided {
			c.fact("analysis complete", w, token.NoPos, false, "undecided: "+y)
		}
	}
	counts := map[string]int{}
	for _, k := range c.order {
		counts[c.obls[k].Rule]++
	}
	for _, r := range c.rules {
		if counts[r] < c.min[r] {
			c.fact("rule applies", r, token.NoPos, false, fmt.Sprintf("the rule was applied to %d constructs, expected at least %d: what it is about has moved out of its sight", counts[r], c.min[r]))
		}
	}
	known := readKnown(filepath.Join(verif, "KNOWN_FINDINGS"))
	var viol []*Obligation
	var knownHit []string
	for _, k := range c.order {
		o := c.obls[k]
		if !o.Failed {
			continue
		}
		hit := false
		for _, kf := range known {
			if kf.prop == id && kf.key == k {
				hit = true
				knownHit = append(knownHit, kf.text)
			}
		}
		if !hit {
			viol = append(viol, o)
		}
	}
	c.evidence(verif, t0, len(viol), knownHit)
	for _, t := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, t)
	}
	if len(viol) == 0 {
		st := 0
		for _, e := range c.engines {
			st += e.nStates
		}
		fmt.Printf("%s: %d obligations hold (%d abstract states, %.1fs)\n", id, len(c.order), st, time.Since(t0).Seconds())
		return 0
	}
	var b strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&b, "%s: %s\n  rule: %s\n  construct: %s\n  key: %s\n", o.Where, o.What, o.Rule, o.Construct, o.Rule+"|"+o.Construct)
		if o.Root != "" {
			fmt.Fprintf(&b, "  entry: %s\n", o.Root)
		}
		for _, l := range o.Path {
			fmt.Fprintf(&b, "    %s\n", l)
		}
	}
	return fail(strings.TrimRight(b.String(), "\n"))
}

func (c *Check) evidence(verif string, t0 time.Time, nviol int, known []string) {
	fns := map[string]bool{}
	states, steps := 0, 0
	calls := 0
	for _, e := range c.engines {
		for f := range e.visited {
			fns[f.String()] = true
		}
		states += e.nStates
		steps += e.total
		calls += len(e.calls)
	}
	var roots []string
	seen := map[string]bool{}
	for _, r := range c.roots {
		if !seen[r.String()] {
			seen[r.String()] = true
			roots = append(roots, strings.ReplaceAll(r.String(), modPath+"/", ""))
		}
	}
	done, paths := 0, 0
	byRule := map[string]int{}
	var obls []*Obligation
	for _, k := range c.order {
		o := c.obls[k]
		if !o.Failed {
			done++
		}
		paths += o.Paths
		byRule[o.Rule]++
		q := *o
		q.Path = nil
		obls = append(obls, &q)
	}
	sort.Slice(obls, func(i, j int) bool {
		if obls[i].Rule != obls[j].Rule {
			return obls[i].Rule < obls[j].Rule
		}
		return obls[i].Construct < obls[j].Construct
	})
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"explanation": "static analysis of the type-checked SSA form of /repo's signer and cmd packages: each obligation is one rule applied to one construct, " +
				"judged on every abstract path that reaches it from the listed entry points",
			"obligations": len(c.order), "discharged": done, "rules": byRule, "paths_judged": paths,
			"entry_points": roots, "functions_analysed": len(fns), "call_sites": calls, "abstract_states": states, "instructions_interpreted": steps,
			"obligation_list": obls, "known_findings": known,
		},
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0644)
}

var assumptions = []string{
	"Only repository code writes the unexported fields of repository types; shared memory keeps its value inside a critical section of the mutex that protects it (decided by C05).",
	"Functions of other packages do what the models in checker/models.go say; functions without a model change only unshared objects they are given a pointer to.",
	"Elements a loop has treated are summarised: appended elements as an unordered collection, cells written under the loop index as one pattern.",
}

func main() {
	if len(os.Args) > 1 && (os.Args[1] == "-all" || os.Args[1] == "-dbg") {
		debugRun(os.Args[1:])
		return
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: horcruxcheck PROPERTY [REPO [VERIF]]")
		os.Exit(2)
	}
	repo, verif := "/repo", "/verif"
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	if len(os.Args) > 3 {
		verif = os.Args[3]
	}
	if f := os.Getenv("HX_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		r := runCheck(repo, verif, os.Args[1], false)
		pprof.StopCPUProfile()
		os.Exit(r)
	}
	os.Exit(runCheck(repo, verif, os.Args[1], os.Getenv("VERIF_TIER") == "thorough"))
}
