package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C04",
		rule: "Dataflow over process() with everything it calls inlined: per event kind, the sequence of rule consultations (phase, event, context) and of replies is an automaton state; at every Next() and return the reply must be the one the consultation's result demands.",
		run:  runC04,
		assume: []string{
			"smtpd.Conn.Next() accepts a command that was not replied to (documented behaviour of the package)",
			"Decide() returns one of aNoresult, aAccept, aStall, aReject (decided by C06)",
		}})
}

func runC04(cx *Cx) {
	s := newSess(cx)
	s.files = true
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		delete(st.A, "yak")
		delete(st.A, "savefail")
	}
	s.onFile = func(e *Eng, st *State, c *Call, op string, ok bool) {
		if !ok && (op == "open" || op == "open-exists" || op == "write" || op == "writefile" || op == "close" || op == "rename" || op == "link" || op == "sync") {
			st.A["savefail"] = "1"
		}
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		ev := st.A["ev"]
		want, ok := s.phases[ev]
		cx.ob(ok, c.pos(), "consulted for its own step", "the rules are consulted for %s, which is not a step with rules", ev)
		got, known := st.norm(c.args[0]).intVal()
		cx.ob(known && got == want, c.pos(), "consulted for its own phase", "step %s consults the rules for phase %v", ev, c.args[0])
		if a, ok := st.G["arg"]; ok {
			got := mkField(c.args[1], 2, "Arg", a.typ)
			cx.ob(got == a, c.pos(), "consulted about its own event", "step %s consults the rules about something other than its event", ev)
		}
		cx.ob(st.A["dec"] == "", c.pos(), "consulted once", "step %s consults the rules more than once", ev)
		cx.ob(st.A["rep"] == "", c.pos(), "consulted before replying", "step %s consults the rules after having replied", ev)
	}
	s.onReply = func(e *Eng, st *State, c *Call, code string) {
		cx.ob(st.A["rep"] == "", c.pos(), "one reply per step", "step %s gets a second reply", st.A["ev"])
		if code == "4" && st.A["dec"] != "stall" && st.A["ev"] == "MAILFROM" {
			// the do-nothing exception: the count exceeded the limit
			if cnt, ok := st.G["yakcnt"]; ok {
				yc := cx.loadGlobal(st, "yakCount")
				if st.isTrue(mkLt(yc, cnt, yc.typ)) {
					st.A["yak"] = "over"
				}
			}
		}
		if code == "4" && st.A["dec"] == "" {
			cx.count("failure_replies_before_consultation", 1)
		}
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		return false
	}
	s.rule.OnRet = func(e *Eng, st *State, c *Call) {
		if c.name == "ipMap.Add" && st.A["ev"] == "MAILFROM" {
			st.G["yakcnt"] = c.ret[0]
		}
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		ev, dec, rep := st.A["ev"], st.A["dec"], st.A["rep"]
		delete(st.G, "yakcnt")
		bad := func(rule, f string, a ...interface{}) {
			cx.violPath(in.Pos(), rule, cx.path(st), f, a...)
		}
		cx.obligations++
		cx.count("step_outcomes_checked", 1)
		switch ev {
		case "CONNECT":
			switch {
			case dec == "":
				bad("rules consulted", "commands are read without consulting the rules at connect time")
			case dec == "reject" && how == "next":
				bad("connect reject drops", "a connection rejected at connect time is served")
			case dec != "reject" && how == "return":
				bad("connect reject drops", "a connection is dropped at connect time although the rules decided %q", dec)
			case rep != "":
				bad("one reply per step", "a reply (%sxx) is sent before any command", rep)
			}
		case "HELO", "EHLO", "MAILFROM", "RCPTTO", "DATA", "GOTDATA":
			switch dec {
			case "":
				if ev == "GOTDATA" && st.A["savefail"] != "" && rep == "4" && how == "next" {
					return
				}
				bad("rules consulted", "step %s is answered (%s) without consulting the rules", ev, repName(rep))
			case "reject":
				if rep != "5" {
					bad("reply follows the verdict", "step %s decided 'reject' but gets %s", ev, repName(rep))
				}
			case "stall":
				if rep != "4" {
					bad("reply follows the verdict", "step %s decided 'stall' but gets %s", ev, repName(rep))
				}
			default:
				if st.A["yak"] == "over" && rep == "4" && how == "return" && ev == "MAILFROM" {
					return
				}
				if rep == "4" || rep == "5" {
					bad("reply follows the verdict", "step %s decided '%s' but gets %s", ev, dec, repName(rep))
				}
				if rep == "" && how == "return" {
					bad("reply follows the verdict", "step %s decided '%s' but gets no reply", ev, dec)
				}
			}
			if ev == "GOTDATA" && st.A["savefail"] != "" && rep != "4" && dec == "" {
				bad("failed save", "a message whose save failed gets %s", repName(rep))
			}
			if how == "return" && st.A["yak"] == "" {
				bad("session goes on", "the session is ended after step %s", ev)
			}
		default:
			if rep == "4" || rep == "5" {
				bad("reply follows the verdict", "event %s is answered %s without the rules being consulted", ev, repName(rep))
			}
		}
	}
	e := s.run()
	if e.opaque["decider"] > 0 {
		cx.fail("analysis completes", "decider not analysed")
	}
	cx.ob(cx.counts["step_outcomes_checked"] >= 12, s.proc.Pos(), "analysis completes", "only %d step outcomes were seen", cx.counts["step_outcomes_checked"])
}

func repName(r string) string {
	switch r {
	case "":
		return "the default success reply"
	case "2":
		return "a 2xx reply"
	case "4":
		return "a 4xx reply"
	case "5":
		return "a 5xx reply"
	}
	return r
}
