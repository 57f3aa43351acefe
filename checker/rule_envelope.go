package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&property{id: "C05",
		rule: "Value-numbering dataflow over process(): the HELO name, sender and recipient cells are snapshotted at every event and compared, as terms, at the next Next(): unchanged if the command was refused; own argument recorded, and the later parts of the envelope emptied, if it was accepted.",
		run:  runC05})
}

func runC05(cx *Cx) {
	s := newSess(cx)
	names := []string{"heloname", "from", "rcptto"}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		if ev == "CONNECT" {
			return
		}
		for _, n := range names {
			st.G["0"+n] = s.field(st, n)
		}
	}
	// The relation of a newly stored recipient list to the one the event
	// started with is recorded when it is stored, before states are joined.
	s.rule.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "faddr" || addr.aux != typeStr(s.transT)+".rcptto" {
			return
		}
		old, arg := st.G["0rcptto"], s.evArg(st)
		delete(st.A, "rl")
		delete(st.G, "rl")
		if old != nil && arg != nil && st.sameList(st.listParts(val), append(append([]*Term{}, st.listParts(old)...), arg)) {
			st.A["rl"] = "appended"
			st.G["rl"] = val
		} else if st.isTrue(eq0(mkLen(val))) {
			st.A["rl"] = "empty"
			st.G["rl"] = val
		}
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		defer func() {
			delete(st.A, "rl")
			delete(st.G, "rl")
		}()
		ev := st.A["ev"]
		if ev == "CONNECT" {
			if how == "next" {
				cx.obligations++
				for _, n := range names {
					if v := s.field(st, n); !st.isTrue(eq0(mkLen(v))) {
						cx.violPath(in.Pos(), "envelope starts empty", cx.path(st), "%s is not empty when the first command is read", n)
					}
				}
			}
			return
		}
		arg := s.evArg(st)
		ok := (st.A["dec"] == "none" || st.A["dec"] == "accept") && (st.A["rep"] == "" || st.A["rep"] == "2")
		same := func(n string) {
			cx.obligations++
			old, h := st.G["0"+n]
			now := s.field(st, n)
			if !h || !st.eqTo(old, now) {
				why := "refused"
				if ok {
					why = "accepted"
				}
				cx.violPath(in.Pos(), "only accepted commands change the envelope", cx.path(st), "a %s %s changes the recorded %s", why, ev, n)
			}
		}
		is := func(n string, want *Term) {
			cx.obligations++
			if now := s.field(st, n); !st.eqTo(now, want) {
				cx.violPath(in.Pos(), "accepted commands are recorded", cx.path(st), "an accepted %s records %s as %v", ev, n, now)
			}
		}
		empty := func(n string) {
			cx.obligations++
			if now := s.field(st, n); !st.isTrue(eq0(mkLen(now))) && !(n == "rcptto" && st.A["rl"] == "empty" && st.eqTo(now, st.G["rl"])) {
				cx.violPath(in.Pos(), "envelope starts over", cx.path(st), "an accepted %s leaves %s of an earlier transaction", ev, n)
			}
		}
		switch {
		case (ev == "HELO" || ev == "EHLO") && ok:
			cx.count("accepted_helo", 1)
			is("heloname", arg)
			empty("from")
			empty("rcptto")
		case ev == "MAILFROM" && ok:
			cx.count("accepted_mailfrom", 1)
			same("heloname")
			is("from", arg)
			empty("rcptto")
		case ev == "RCPTTO" && ok:
			cx.count("accepted_rcptto", 1)
			same("heloname")
			same("from")
			old := st.G["0rcptto"]
			now := s.field(st, "rcptto")
			cx.obligations++
			good := old != nil && st.sameList(st.listParts(now), append(append([]*Term{}, st.listParts(old)...), arg))
			if !good && !(st.A["rl"] == "appended" && st.eqTo(now, st.G["rl"])) {
				cx.violPath(in.Pos(), "accepted commands are recorded", cx.path(st), "an accepted RCPTTO makes the recipients %v", now)
			}
		default:
			for _, n := range names {
				same(n)
			}
		}
	}
	s.run()
	for _, k := range []string{"accepted_helo", "accepted_mailfrom", "accepted_rcptto"} {
		cx.ob(cx.counts[k] > 0, s.proc.Pos(), "analysis completes", "no path found for %s", k)
	}
}
