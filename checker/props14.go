package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C24", c24) }

// dials: the call opens a network connection.
func dials(k *Call) bool {
	switch k.name {
	case "net.Dialer.Dial", "net.Dialer.DialContext", "net.Dial", "net.DialTimeout", "crypto/tls.Dial":
		return true
	}
	return false
}

func isConnClose(k *Call) bool {
	return strings.HasSuffix(k.name, ".Close") && len(k.args) > 0 && (strings.HasPrefix(k.name, "invoke net.Conn.") || k.name == makeSecretT+".Close" || strings.HasPrefix(k.name, "net.") || isConnT(typOr(k.arg(0))))
}

func isConnT(t types.Type) bool {
	return t != nil && (typeName(t) == "net.Conn" || typeName(derefT(t)) == makeSecretT)
}

const makeSecretT = "github.com/tendermint/tendermint/p2p/conn.SecretConnection"

// sentryConn follows the connection of the sentry loop. In s.mon: own:net, own:neterr (the last dial), own:sec, own:secerr
// (the secret connection over it), own:closed, own:failed (a read or write failed, or may have), own:bad (the last
// attempt failed), own:paused.
type sentryConn struct {
	c                         *Check
	serve, pause, leak, usage string
}

// open: the dialled connection may be open.
func (k *sentryConn) open(s *State) bool {
	return s.mon["own:net"] != nil && s.mon["own:closed"] == nil && !s.facts.isNonNil(orNil(s.mon["own:neterr"]))
}

// settle keeps what the errors of the attempt tell, before facts about them are lost.
func (k *sentryConn) settle(s *State) {
	for _, e := range []string{"own:neterr", "own:secerr"} {
		x := s.mon[e]
		if x == nil || x == tNil {
			continue
		}
		switch {
		case s.facts.isNil(x):
			s.mon[e] = tNil
		case s.facts.isNonNil(x):
			s.mon["own:bad"] = tTrue
			if e == "own:neterr" {
				delete(s.mon, "own:net")
			} else {
				delete(s.mon, "own:sec")
			}
			delete(s.mon, e)
		}
	}
	for _, m := range s.monKeys("own:ioerr:") {
		x := s.mon[m]
		switch {
		case s.facts.isNil(x):
			delete(s.mon, m)
		case s.facts.isNonNil(x):
			delete(s.mon, m)
			s.mon["own:failed"] = tTrue
		}
	}
}

func (k *sentryConn) stopped(s *State) bool {
	return s.mon["own:run"] != nil && s.facts.truthOf(s.mon["own:run"]) == -1
}

// use: the connection is read or written.
func (k *sentryConn) use(s *State, x *Term, in ssa.Instruction, what string) {
	k.settle(s)
	why := ""
	is := func(n string) bool { t := s.mon[n]; return t != nil && unI(t) == unI(x) }
	switch {
	case s.facts.isNil(x):
		why = "no connection is used"
	case !is("own:net") && !is("own:sec"):
		why = "it is not known which connection is used"
	case s.mon["own:closed"] != nil:
		why = "a connection is used that was closed"
	case s.mon["own:neterr"] != tNil:
		why = "a connection is used although dialling may have failed"
	case is("own:sec") && s.mon["own:secerr"] != tNil:
		why = "a connection is used although the handshake may have failed"
	case s.mon["own:failed"] != nil || len(s.monKeys("own:ioerr:")) > 0:
		why = "a connection is used although an earlier read or write may have failed"
	}
	k.c.judge(s, k.usage, rel(s.e.root)+" "+what, in, why == "", why)
}

func unI(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func c24(c *Check) {
	k := &sentryConn{c: c,
		serve: c.rule("the sentry loop ends only when the service was stopped", 1),
		pause: c.rule("a failed dial or handshake is followed by a pause before the next attempt", 1),
		leak:  c.rule("a connection is closed once, when it is given up: before the next one is opened and at the end, and only after an error or shutdown", 3),
		usage: c.rule("only an open connection without an earlier error is read or written", 2),
	}
	h := &Hooks{}
	h.Call = func(s *State, call *Call) {
		n := rel(s.e.root)
		switch {
		case dials(call):
			k.settle(s)
			c.judge(s, k.leak, n+" before a dial", call.instr, !k.open(s), "the previous connection may still be open when the next one is dialled")
			unsure := s.mon["own:neterr"] != nil && s.mon["own:neterr"] != tNil || s.mon["own:secerr"] != nil && s.mon["own:secerr"] != tNil
			ok := s.mon["own:bad"] == nil && !unsure || s.mon["own:paused"] != nil
			c.judge(s, k.pause, n, call.instr, ok, "a new connection is tried at once after a failed dial or handshake")
			s.delMon("own:ioerr:")
			for _, m := range []string{"own:net", "own:neterr", "own:sec", "own:secerr", "own:closed", "own:failed", "own:bad", "own:paused"} {
				delete(s.mon, m)
			}
		case isConnClose(call):
			k.settle(s)
			x := call.arg(0)
			is := func(n string) bool { t := s.mon[n]; return t != nil && unI(t) == unI(x) }
			why := ""
			switch {
			case s.facts.isNil(x) || !is("own:net") && !is("own:sec"):
				why = "it is not known which connection is closed, or there is none"
			case s.mon["own:closed"] != nil:
				why = "a connection is closed twice"
			case s.mon["own:neterr"] != tNil:
				why = "a connection is closed although dialling may have failed"
			case !(s.mon["own:bad"] != nil || s.mon["own:failed"] != nil || k.stopped(s)):
				why = "a connection is given up without an error or shutdown"
			}
			c.judge(s, k.leak, n+" close", call.instr, why == "", why)
			s.mon["own:closed"] = tTrue
		case isMsgIO(call, "ReadMsg") != nil || isMsgIO(call, "WriteMsg") != nil:
			x := call.arg(0)
			for _, m := range s.monKeys("own:io:") {
				if p := s.mon[m]; p.args[0] == unI(x) {
					x = p.args[1]
				}
			}
			k.use(s, x, call.instr, shortCall(call.name))
		case call.name == "invoke net.Conn.Read" || call.name == "invoke net.Conn.Write" || call.name == makeSecretT+".Read" || call.name == makeSecretT+".Write":
			k.use(s, call.arg(0), call.instr, shortCall(call.name))
		case call.name == makeSecret:
			k.settle(s)
			x := call.arg(0)
			t := s.mon["own:net"]
			c.judge(s, k.usage, n+" handshake", call.instr, t != nil && unI(t) == unI(x) && s.mon["own:neterr"] == tNil && s.mon["own:closed"] == nil, "the handshake uses a connection that may not be open")
		}
	}
	h.After = func(s *State, call *Call, res *Term) {
		switch {
		case dials(call):
			s.mon["own:net"], s.mon["own:neterr"] = resAt(res, 0), resAt(res, 1)
		case call.name == makeSecret:
			s.mon["own:sec"], s.mon["own:secerr"] = resAt(res, 0), resAt(res, 1)
		case strings.HasSuffix(call.name, "protoio.NewDelimitedReader") || strings.HasSuffix(call.name, "protoio.NewDelimitedWriter"):
			s.monAdd("own:io", mkApp("pair", nil, unI(res), call.arg(0)))
		case isMsgIO(call, "ReadMsg") != nil || isMsgIO(call, "WriteMsg") != nil || call.name == "invoke net.Conn.Read" || call.name == "invoke net.Conn.Write":
			if e := errResult(call, res); e != nil {
				s.monAdd("own:ioerr", e)
			}
		case strings.HasSuffix(call.name, ".IsRunning"):
			s.mon["own:run"] = res
		case call.name == "time.Sleep":
			if s.facts.possible(unconv(call.arg(0)), mkInt(0)) == GT {
				s.mon["own:paused"] = tTrue
			}
		case call.name == "time.After" || call.name == "time.NewTimer" || call.name == "time.NewTicker" || call.name == "time.Tick":
			if s.facts.possible(unconv(call.arg(0)), mkInt(0)) == GT {
				s.mon["own:timer"] = tTrue
			}
		}
	}
	h.Wait = func(s *State, what string, in ssa.Instruction) {
		if s.mon["own:timer"] != nil {
			s.mon["own:paused"] = tTrue
			delete(s.mon, "own:timer")
		}
	}
	h.LoopBack = func(s *State, in ssa.Instruction) { k.settle(s) }
	h.Return = func(s *State, fn *ssa.Function, res []*Term, in ssa.Instruction) { k.settle(s) }
	h.Panic = func(s *State, in ssa.Instruction, why string) {
		if s.mon["own:run"] != nil {
			c.judge(s, k.serve, rel(s.e.root)+": panic", in, false, "the sentry loop may end in a panic: "+why)
		}
	}
	h.RootEnd = func(s *State, fn *ssa.Function, res []*Term) {
		if fn == s.e.root {
			return
		}
		k.settle(s)
		if s.mon["own:run"] == nil && s.mon["own:net"] == nil && !c.p.mentions(fn, isDial) {
			return // another goroutine
		}
		c.judge(s, k.serve, rel(fn), nil, k.stopped(s), "the sentry loop may end although the service still runs")
		c.judge(s, k.leak, rel(fn)+" end", nil, !k.open(s), "the connection may still be open when the loop ends")
	}
	c.explore(h, c.p.rootsNamed(rrsT+".OnStart"), nil)
}

func isDial(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || ci.Common().StaticCallee() == nil {
		return false
	}
	return dials(&Call{name: fnName(ci.Common().StaticCallee())})
}
