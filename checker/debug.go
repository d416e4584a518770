package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (s *State) dump() string {
	var out []string
	for v, t := range frEnv(s) {
		out = append(out, fmt.Sprint("env ", v.Name(), " = ", t))
	}
	for a, v := range s.mem {
		out = append(out, fmt.Sprint("mem ", a, " = ", v))
	}
	for m, ms := range s.maps {
		out = append(out, fmt.Sprint("map ", m, " ", ms.fresh, ms.ver, ms.upd))
	}
	for _, p := range s.facts.pairs() {
		out = append(out, fmt.Sprint("fact ", p.a, " ", p.bits, " ", p.b))
	}
	for t, v := range s.facts.truth {
		out = append(out, fmt.Sprint("truth ", t, v))
	}
	for _, l := range s.locks {
		out = append(out, fmt.Sprint("lock ", l.mu))
	}
	for c, v := range s.ver {
		out = append(out, fmt.Sprint("ver ", c, v))
	}
	for c, v := range s.rootVer {
		out = append(out, fmt.Sprint("rootver ", c, v))
	}
	for c := range s.escaped {
		out = append(out, fmt.Sprint("escaped ", c))
	}
	for c, v := range s.mon {
		out = append(out, fmt.Sprint("mon ", c, v))
	}
	out = append(out, fmt.Sprint("epoch ", s.epoch))
	sort.Strings(out)
	r := ""
	for _, x := range out {
		r += x + "\n"
	}
	return r
}

func frEnv(s *State) map[ssa.Value]*Term {
	if s.fr == nil {
		return nil
	}
	return s.fr.env
}
