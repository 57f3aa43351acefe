package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const how = "Dataflow over Decide() with Rule.check() as an oracle (match, no match, missed because of an empty pattern file): one run per phase and per postponed verdict; each rule taken from the rule set is split by the phase it needs, the phase it names and its result (all values of the types), and an automaton follows which rules are taken, evaluated and obeyed. "
	register(&property{id: "C06", run: func(cx *Cx) { runDecide(cx) },
		rule:   how + "Obligations: rules taken in index order without gaps; evaluated exactly if eligible; no evaluation after the deciding one; the value returned is the deciding rule's result; with options and hits empty before the first evaluation.",
		assume: []string{"Rule.check() gives match, no match or missed, as decided by C12"}})
	register(&property{id: "C07", run: func(cx *Cx) { runDecide(cx) },
		rule:   how + "Obligations: the result for a null sender is never stall or reject; then the verdict, the options map and the hits are kept and the step's own options are empty; while a verdict is kept every other phase returns exactly it, with its options and hits and without evaluating anything; HELO and MAIL FROM forget it; nothing else sets or changes it.",
		assume: []string{"Rule.check() gives match, no match or missed, as decided by C12"}})
	register(&property{id: "C08", run: func(cx *Cx) { runDecide(cx) },
		rule:   how + "Obligations: after RCPT TO a rule that needs recipients is evaluated with the context's recipient set to each element of the accepted recipients in index order, until it matches or misses, and not otherwise; elsewhere it is evaluated once, in the RCPT TO phase with the command's own argument.",
		assume: []string{"Rule.check() gives match, no match or missed, as decided by C12"}})
}

func elemOf(addr *Term) (base, idx *Term, ok bool) {
	if addr == nil || addr.op != "iaddr" {
		return nil, nil, false
	}
	return addr.args[0], addr.args[1], true
}

func runDecide(cx *Cx) {
	dec := cx.anchor("Decide", "(Phase,smtpd.EventInfo,*Context)(Action)")
	check := cx.anchor("Rule.check", "(*Rule,*Context)(Result)")
	ctxT, trT, ruleT := cx.namedType("Context"), cx.namedType("smtpTransaction"), cx.namedType("Rule")
	k := func(n string) int64 { return cx.constOf(n) }
	pMfrom, pRto, pHelo := k("pMfrom"), k("pRto"), k("pHelo")
	lastPh := k("pMessage")
	aErr, aNo, aAcc, aStall, aRej := k("aError"), k("aNoresult"), k("aAccept"), k("aStall"), k("aReject")
	c, evt := paramOfType(dec, "*Context"), paramOfType(dec, "smtpd.EventInfo")
	phT := paramOfType(dec, "Phase")
	if c == nil || evt == nil || phT == nil {
		cx.fail("anchor", "Decide has unexpected parameters")
	}
	evArg := mkField(evt, 2, "Arg", types.Typ[types.String])
	cf := func(st *State, f string) *Term { return cx.loadField(st, c, ctxT, f) }
	rf := func(r *Term, f string) *Term { a, _ := cx.fieldAddr(r, ruleT, f); return a }

	for ph := k("pConnect"); ph <= lastPh; ph++ {
		for _, pend := range []int64{aErr, aStall, aRej} {
			ph, pend := ph, pend
			held := pend != aErr && ph != pHelo && ph != pMfrom
			where := fmt.Sprintf("phase %d", ph)
			viol := func(prop string, st *State, in ssa.Instruction, rule, format string, a ...interface{}) {
				if cx.id != prop {
					return
				}
				cx.violPath(at(in), rule, cx.path(st), "%s: %s", where, fmt.Sprintf(format, a...))
			}
			ob := func(prop string, n string) {
				if cx.id == prop {
					cx.obligations++
					cx.count(n, 1)
				}
			}
			emptyMap := func(st *State, m *Term) bool {
				if m.op != "alloc" || m.summ {
					return false
				}
				for a, v := range st.heap {
					if a.op == "mver" && a.args[0] == m {
						if v.op != "fresh" {
							return false
						}
					}
					if a.op == "melem" && a.args[0] == m {
						return false
					}
				}
				return true
			}
			// rule taken so far: done with it?
			leave := func(st *State, in ssa.Instruction) {
				if st.A["rule"] == "" {
					return
				}
				if st.A["el"] == "1" && st.A["rule"] == "taken" {
					ok := false
					if st.A["pr"] == "1" {
						last := st.G["rlast"]
						if last == nil {
							last = mkInt(-1)
						}
						l := mkLen(cx.loadField(st, cf(st, "trans"), trT, "rcptto"))
						ok = st.isFalse(mkLt(linAdd(last, mkInt(1), 1, l.typ), l, l.typ))
					}
					ob("C06", "eligible_rules_left")
					if !ok {
						viol("C06", st, in, "eligible rules are evaluated", "an eligible rule is not evaluated")
					}
				}
				if st.A["el"] == "1" && st.A["pr"] == "1" && st.A["rule"] == "nohit" {
					last := st.G["rlast"]
					l := mkLen(cx.loadField(st, cf(st, "trans"), trT, "rcptto"))
					ob("C08", "recipient_loops_left")
					if last == nil || !st.isFalse(mkLt(linAdd(last, mkInt(1), 1, l.typ), l, l.typ)) {
						viol("C08", st, in, "every recipient is tried", "a rule is left after not matching some, but not all, of the accepted recipients")
					}
				}
			}
			clear := func(st *State) {
				for _, x := range []string{"rule", "el", "pr", "rq", "df", "rcpt"} {
					delete(st.A, x)
				}
				delete(st.G, "cur")
				delete(st.G, "rlast")
				delete(st.G, "rcpt")
			}
			firstRule := func(st *State, in ssa.Instruction) {
				if st.A["init"] != "" {
					return
				}
				st.A["init"] = "1"
				ob("C06", "fresh_options")
				if !emptyMap(st, cf(st, "withprops")) {
					viol("C28", st, in, "options start empty", "the with options of an earlier step are still there when rules are evaluated")
					viol("C06", st, in, "options start empty", "the with options are not a new empty map when rules are evaluated")
				}
				st.G["props0"] = cf(st, "withprops")
				if !st.isTrue(eq0(mkLen(cf(st, "dnsblhit")))) {
					viol("C06", st, in, "hits start empty", "the blocklist hits are not empty when rules are evaluated")
				}
			}
			R := &Rule{Name: cx.id}
			R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
				base, idx, ok := elemOf(addr)
				if !ok {
					return nil
				}
				in := v.(ssa.Instruction)
				if base == cf(st, "ruleset") || st.eqTo(base, cf(st, "ruleset")) {
					firstRule(st, in)
					leave(st, in)
					if st.A["win"] != "" {
						viol("C06", st, in, "the first match decides", "another rule is taken after one has matched and decided")
					}
					last := st.G["last"]
					ob("C06", "rules_taken")
					if last != nil && !st.eqTo(idx, last) {
						// the same rule may be looked at again; otherwise it must be the next
						if !st.eqTo(idx, linAdd(last, mkInt(1), 1, idx.typ)) {
							viol("C06", st, in, "rules are taken in order", "the rule taken after rule %v is rule %v", last, idx)
						}
					}
					if last != nil && st.eqTo(idx, last) && st.A["rule"] != "" {
						return nil
					}
					if held {
						viol("C07", st, in, "a postponed verdict replaces the rules", "rules are looked at although a verdict is pending")
					}
					clear(st)
					st.G["last"] = idx
					st.G["cur"] = t
					var out []func(*State) *Term
					for rq := int64(0); rq <= lastPh; rq++ {
						for df := int64(0); df <= lastPh; df++ {
							rq, df := rq, df
							out = append(out, func(s *State) *Term {
								s.heap[rf(t, "requires")] = mkInt(rq)
								s.heap[rf(t, "deferto")] = mkInt(df)
								s.A["rule"] = "taken"
								s.A["rq"], s.A["df"] = fmt.Sprint(rq), fmt.Sprint(df)
								if rq <= ph && (df == 0 || df == ph) {
									s.A["el"] = "1"
								}
								if ph > pRto && rq >= pRto {
									s.A["pr"] = "1"
								}
								return t
							})
						}
					}
					return out
				}
				rc := cx.loadField(st, cf(st, "trans"), trT, "rcptto")
				if base == rc || st.eqTo(base, rc) {
					last := st.G["rlast"]
					if last == nil {
						last = mkInt(-1)
					}
					if !st.eqTo(idx, last) {
						ob("C08", "recipients_taken")
						if !st.eqTo(idx, linAdd(last, mkInt(1), 1, idx.typ)) {
							viol("C08", st, in, "recipients are tried in order", "the recipient taken after number %v is number %v", last, idx)
						}
						st.A["rcpt"] = "taken"
					}
					st.G["rlast"] = idx
					st.G["rcpt"] = t
				}
				return nil
			}
			// precision is only needed within one round of a loop
			R.OnEdge = func(e *Eng, st *State, from, to *ssa.BasicBlock) {
				if e.P.loopHead[to] {
					delete(st.A, "rq")
					delete(st.A, "df")
					if cur := st.G["cur"]; cur != nil {
						delete(st.heap, rf(cur, "requires"))
						delete(st.heap, rf(cur, "deferto"))
						if st.A["rule"] != "hit" {
							delete(st.heap, rf(cur, "result"))
						}
					}
				}
			}
			R.Key = func(e *Eng, st *State) string {
				if ph != pMfrom {
					return ""
				}
				b, ok := st.evalBool(eq0(mkLen(cf(st, "from"))))
				return fmt.Sprint(b, ok)
			}
			R.OnCall = func(e *Eng, st *State, cl *Call) bool {
				if (cl.name == "builtin.delete" || cl.name == "builtin.clear") && len(cl.args) > 0 && st.G["props0"] != nil && st.eqTo(cl.args[0], cf(st, "withprops")) {
					for _, p := range []string{"C06", "C28"} {
						viol(p, st, cl.in, "only rules set options", "a with option is removed by Decide itself")
					}
				}
				if cl.fn != check {
					return false
				}
				r := cl.args[0]
				cur := st.G["cur"]
				ob("C06", "evaluations")
				ob("C28", "evaluations")
				if st.G["props0"] == nil || !st.eqTo(cf(st, "withprops"), st.G["props0"]) {
					for _, p := range []string{"C06", "C28"} {
						viol(p, st, cl.in, "options stay as the rules set them", "the with options of earlier set-with rules are dropped before another rule is evaluated")
					}
				}
				if st.A["rule"] == "" || cur == nil || !st.eqTo(r, cur) {
					viol("C06", st, cl.in, "rules of the rule set are evaluated", "the rule evaluated is not the one last taken from the rule set")
				}
				if st.A["el"] != "1" {
					viol("C06", st, cl.in, "only eligible rules are evaluated", "a rule that needs phase %s and names phase %s is evaluated", st.A["rq"], st.A["df"])
				}
				if !st.eqTo(cl.args[1], c) {
					viol("C06", st, cl.in, "rules see the session's context", "a rule is evaluated with another context")
				}
				if st.A["win"] != "" {
					viol("C06", st, cl.in, "the first match decides", "a rule is evaluated after one has matched and decided")
				}
				if held {
					viol("C07", st, cl.in, "a postponed verdict replaces the rules", "a rule is evaluated although a verdict is pending")
				}
				if st.A["pr"] == "1" {
					ob("C08", "recipient_evaluations")
					if st.A["rcpt"] != "taken" || st.G["rcpt"] == nil || !st.eqTo(cf(st, "rcptto"), st.G["rcpt"]) {
						viol("C08", st, cl.in, "every recipient is tried", "a rule that tests recipients is evaluated with something other than the next accepted recipient")
					}
					if st.A["rule"] == "hit" || st.A["rule"] == "miss" {
						viol("C08", st, cl.in, "tried until one matches", "a rule is evaluated for another recipient after it has matched or missed")
					}
					st.A["rcpt"] = "done"
				} else {
					if st.A["rule"] != "taken" {
						viol("C06", st, cl.in, "rules are evaluated once", "a rule is evaluated again in the same phase")
						viol("C08", st, cl.in, "rules are evaluated once", "a rule is evaluated again in the same phase")
					}
					if ph == pRto {
						ob("C08", "rcptto_evaluations")
						if !st.eqTo(cf(st, "rcptto"), evArg) {
							viol("C08", st, cl.in, "RCPT TO tests the recipient just given", "the recipient rules see is not the command's argument")
						}
					}
				}
				e.havocCall(st, cl)
				miss := func(s *State, v *Term) {
					a, t := cx.fieldAddr(c, ctxT, "rulemiss")
					s.store(a, v, t, "check")
				}
				for _, res := range []int64{aNo, aAcc, aStall, aRej} {
					res := res
					cl.forks = append(cl.forks, func(s *State) []*Term {
						s.heap[rf(r, "result")] = mkInt(res)
						miss(s, tFalse)
						s.A["rule"] = "hit"
						if res != aNo {
							s.A["win"] = fmt.Sprint(res)
							s.G["props"] = cf(s, "withprops")
							s.G["hits"] = cf(s, "dnsblhit")
						}
						s.note(fmt.Sprintf("%s: a rule with result %d matches", cx.P.pos(cl.pos()), res))
						return []*Term{tTrue}
					})
				}
				cl.forks = append(cl.forks, func(s *State) []*Term {
					miss(s, tFalse)
					s.A["rule"] = "nohit"
					return []*Term{tFalse}
				}, func(s *State) []*Term {
					miss(s, tTrue)
					s.A["rule"] = "miss"
					s.note(fmt.Sprintf("%s: a rule misses because of an empty pattern file", cx.P.pos(cl.pos())))
					return []*Term{tFalse}
				})
				return true
			}
			R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, m, k, v *Term) {
				if st.eqTo(m, cf(st, "withprops")) || st.G["props"] != nil && st.eqTo(m, st.G["props"]) {
					for _, p := range []string{"C06", "C28"} {
						viol(p, st, in, "only rules set options", "a with option is set by Decide itself")
					}
				}
			}
			R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
				got, known := st.norm(vals[0]).intVal()
				nullFrom := st.isTrue(eq0(mkLen(cf(st, "from"))))
				notNull := st.isFalse(eq0(mkLen(cf(st, "from"))))
				if ph == pMfrom {
					if !st.eqTo(cf(st, "from"), evArg) {
						viol("C07", st, in, "the sender is the command's", "the sender at the end of MAIL FROM is not the command's argument")
					}
				}
				dr, drKnown := st.norm(cf(st, "defresult")).intVal()
				if held {
					ob("C07", "pending_verdict_given")
					if !known || got != pend {
						viol("C07", st, in, "the postponed verdict is given", "with verdict %d pending the result is %v", pend, vals[0])
					}
					if !st.eqTo(cf(st, "withprops"), st.G["defprops0"]) {
						viol("C28", st, in, "the postponed verdict has its options", "the with options of the postponed verdict are not given with it")
					}
					if !st.eqTo(cf(st, "withprops"), st.G["defprops0"]) || !st.eqTo(cf(st, "dnsblhit"), st.G["defhits0"]) {
						viol("C07", st, in, "the postponed verdict is given", "the with options or blocklist hits of the postponed verdict are not given with it")
					}
					if !drKnown || dr != pend || !st.eqTo(cf(st, "defprops"), st.G["defprops0"]) || !st.eqTo(cf(st, "defdnsblhit"), st.G["defhits0"]) {
						viol("C07", st, in, "the postponed verdict stays", "giving a postponed verdict changes it")
					}
					return
				}
				firstRule(st, in)
				leave(st, in)
				win := st.A["win"]
				if win == "" {
					last := st.G["last"]
					if last == nil {
						last = mkInt(-1)
					}
					l := mkLen(cf(st, "ruleset"))
					ob("C06", "ends_without_match")
					if !st.isFalse(mkLt(linAdd(last, mkInt(1), 1, l.typ), l, l.typ)) {
						viol("C06", st, in, "all rules are considered", "Decide ends without a match before the end of the rule set")
					}
					if !known || got != aNo {
						viol("C06", st, in, "no match, no result", "without a match the result is %v", vals[0])
					}
				}
				// postponing
				ob("C07", "returns")
				refusal := win == fmt.Sprint(aStall) || win == fmt.Sprint(aRej)
				if ph == pMfrom && refusal && !nullFrom && !notNull {
					viol("C07", st, in, "postponed exactly for the null sender", "whether a refusal is postponed does not depend on the sender being null")
					return
				}
				if ph == pMfrom && refusal && nullFrom {
					ob("C07", "postponed")
					if !known || got == aStall || got == aRej {
						viol("C07", st, in, "the null sender is not refused", "MAIL FROM:<> gets the result %v", vals[0])
					}
					if !drKnown || fmt.Sprint(dr) != win {
						viol("C07", st, in, "the verdict is kept", "the postponed verdict is %v instead of %s", cf(st, "defresult"), win)
					}
					p := st.G["props"]
					if p == nil || !st.eqTo(cf(st, "defprops"), p) {
						viol("C28", st, in, "the postponed verdict has its options", "the with options of the postponed verdict are not kept")
					}
					if p == nil || !st.eqTo(cf(st, "defprops"), p) || !st.eqTo(cf(st, "defdnsblhit"), st.G["hits"]) {
						viol("C07", st, in, "the verdict's options and hits are kept", "the with options or blocklist hits of the postponed verdict are not kept")
					}
					if !emptyMap(st, cf(st, "withprops")) || cf(st, "withprops") == p {
						viol("C07", st, in, "the accepted null sender has no options", "the with options of the postponed verdict also apply to MAIL FROM")
					}
					return
				}
				cur := cf(st, "withprops")
				want0 := st.G["props0"]
				if win != "" {
					want0 = st.G["props"]
				}
				ob("C28", "ends_with_options")
				if want0 == nil || !st.eqTo(cur, want0) {
					for _, p := range []string{"C06", "C28"} {
						viol(p, st, in, "options stay as the rules set them", "the with options are no longer those set by the rules that matched when Decide ends")
					}
				}
				if win != "" {
					ob("C06", "ends_with_match")
					if !known || fmt.Sprint(got) != win {
						viol("C06", st, in, "the deciding rule's result is given", "the deciding rule's result is %s but Decide returns %v", win, vals[0])
						if ph == pMfrom {
							viol("C07", st, in, "only the null sender's verdict is postponed", "a sender's verdict %s becomes %v", win, vals[0])
						}
					}
				}
				want := aErr
				if !drKnown || dr != want {
					viol("C07", st, in, "only the null sender's verdict is postponed", "a pending verdict %v is left behind", cf(st, "defresult"))
				}
			}
			cx.analyse(dec, R, func(e *Eng, st *State) {
				st.top().env[dec.Params[paramIdx(dec, phT)]] = mkInt(ph)
				a, _ := cx.fieldAddr(c, ctxT, "defresult")
				st.heap[a] = mkInt(pend)
				st.G["defprops0"] = cf(st, "defprops")
				st.G["defhits0"] = cf(st, "defdnsblhit")
				st.G["last"] = mkInt(-1)
			})
		}
	}
	need := map[string][]string{"C06": {"rules_taken", "evaluations", "ends_without_match", "ends_with_match"}, "C07": {"pending_verdict_given", "postponed", "returns"}, "C08": {"recipient_evaluations", "rcptto_evaluations", "recipient_loops_left"}}
	for _, n := range need[cx.id] {
		cx.ob(cx.counts[n] > 0, dec.Pos(), "analysis completes", "no path found for %s", n)
	}
}

func paramIdx(f *ssa.Function, t *Term) int {
	for i := range f.Params {
		if param(f, i) == t {
			return i
		}
	}
	return -1
}
