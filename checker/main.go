package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func debugRun(args []string) {
	p, err := load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if args[0] == "-all" {
		e := newEngine(p, &Hooks{})
		t0 := time.Now()
		for _, f := range p.roots() {
			t := time.Now()
			e.exploreRoot(f, nil)
			if d := time.Since(t); d > 50*time.Millisecond {
				fmt.Println(f, d, e.steps)
			}
		}
		fmt.Println(time.Since(t0), len(p.roots()), "roots", len(e.visited), "functions", e.nStates, "states")
		for w, y := range e.undecided {
			fmt.Println("UNDECIDED", w, y)
		}
		for _, f := range p.fns {
			if !e.visited[f] {
				fmt.Println("not visited", f)
			}
		}
		return
	}
	debugMain(p, args[1:])
}

// debugMain explores the functions whose name contains an argument and prints the calls seen.
func debugMain(p *Program, args []string) {
	calls := map[string]int{}
	show := ""
	if len(args) > 1 {
		show = args[1]
	}
	h := &Hooks{}
	h.Call = func(s *State, k *Call) {
		if !k.inline {
			calls[k.name]++
			if show != "" && strings.Contains(k.name, show) {
				fmt.Println("--", k.name, p.pos(instrPos(k.instr)), "locks", len(s.locks))
				for i, a := range k.args {
					fmt.Println("    ", i, s.content(a))
				}
				if len(args) > 2 {
					for _, t := range s.path() {
						fmt.Println("        ", t)
					}
				}
			}
		}
	}
	for _, fn := range p.fns {
		if !strings.Contains(fn.String(), args[0]) {
			continue
		}
		t0 := time.Now()
		e := newEngine(p, h)
		exits := 0
		e.dumpAt = os.Getenv("DUMPAT")
		e.debug, e.blockCount = true, map[string]int{}
		h.RootEnd = func(s *State, _ fnT, _ []*Term) { exits++ }
		e.exploreRoot(fn, nil)
		fmt.Println(fn, "steps", e.steps, "states", e.nStates, "peak", e.peak, "exits", exits, time.Since(t0))
		var bl []string
		for b := range e.blockCount {
			bl = append(bl, b)
		}
		sort.Slice(bl, func(i, j int) bool { return e.blockCount[bl[i]] > e.blockCount[bl[j]] })
		for i := 0; i < len(bl) && i < 12; i++ {
			fmt.Println("   ", e.blockCount[bl[i]], bl[i])
		}
		for w, y := range e.undecided {
			fmt.Println("   UNDECIDED", w, y)
		}
	}
	var l []string
	for n := range calls {
		l = append(l, n)
	}
	sort.Strings(l)
	if show == "" {
		for _, n := range l {
			fmt.Println(calls[n], n)
		}
	}
}
