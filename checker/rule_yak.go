package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C17", run: runC17,
		rule:   "Dataflow over process() with everything it calls inlined, once per -minphase value with the feature on and once with it off: the outcome of loading rules, of looking up the client in the do-nothing table, of every decision and of saving are forks, and which phase has been reached is an automaton state driven by the events alone. Obligations: how the connection is set up (rules consulted, delay, log) follows from the look-up; every operation on the do-nothing table is on the client's IP with the configured time; at the end of each session and at each MAIL FROM exactly the operation the property names is done.",
		assume: []string{"the table operations behave as decided by C20", "-minphase is one of the values C23 admits", "after a failed save either reading of 'reached' is accepted"}})
	register(&property{id: "C18", run: runC18,
		rule:   "Dataflow over process() with everything it calls inlined, the client's TLS failure record and the presence of certificates as forks, once per tls-opt value a decision may leave in the context. Obligations: the TLS configuration at the start of the connection is present exactly if certificates are in force and fewer than two failures are on record, holds those certificates, and asks for a client certificate exactly if no failure is; it changes later only under the rule option that says so; each TLS failure event, and nothing else, adds one failure for the client's IP with the documented time.",
		assume: []string{"the table operations behave as decided by C20", "certificates in force as decided by C24"}})
}

// tableOp recognises an operation on a per-IP table.
func tableOp(cx *Cx, st *State, c *Call, table string) string {
	if c.fn == nil || !strings.HasPrefix(fnName(c.fn), "ipMap.") {
		return ""
	}
	if !st.eqTo(c.args[0], cx.loadGlobal(st, table)) {
		return ""
	}
	return strings.TrimPrefix(fnName(c.fn), "ipMap.")
}

func tableFns(cx *Cx) []*ssa.Function {
	var out []*ssa.Function
	for n, s := range map[string]string{"ipMap.Add": "(*ipMap,string,time.Duration)(int)", "ipMap.Set": "(*ipMap,string,time.Duration,int)(int)", "ipMap.Del": "(*ipMap,string)()", "ipMap.Lookup": "(*ipMap,string,time.Duration)(bool,int)"} {
		f := cx.anchor(n, s)
		if fnName(f) != n {
			cx.fail("anchor", "%s not found", n)
		}
		out = append(out, f)
	}
	return out
}

// forkSave makes handling a message an event that may fail.
func forkSave(e *Eng, c *Call) {
	errT := c.sig.Results().At(1).Type()
	c.forks = append(c.forks, func(s *State) []*Term {
		id := e.fresh(s, c.in, ".id", types.Typ[types.String])
		s.A["save"] = "ok"
		return []*Term{id, tNil}
	}, func(s *State) []*Term {
		id := e.fresh(s, c.in, ".id", types.Typ[types.String])
		er := e.fresh(s, c.in, ".err", errT)
		s.assume(mkEq(er, tNil, errT), false)
		s.A["save"] = "failed"
		return []*Term{id, er}
	})
}

func runC17(cx *Cx) {
	setup := cx.anchor("setupRules", "([]*Rule)([]*Rule,bool)")
	handle := cx.anchor("handleMessage", "(string,*smtpTransaction,io.Writer)(string,error)")
	tabs := tableFns(cx)
	reach := map[string][]string{"helo": {"HELO", "EHLO"}, "from": {"MAILFROM"}, "to": {"RCPTTO"}, "data": {"DATA"}, "message": {"GOTDATA"}, "accepted": {"GOTDATA"}}
	type runT struct {
		phase string
		on    bool
	}
	runs := []runT{{"helo", true}, {"from", true}, {"to", true}, {"data", true}, {"message", true}, {"accepted", true}, {"helo", false}}
	cx.split(len(runs), func(i int) {
		r := runs[i]
		s := newSess(cx)
		s.watch(tabs...)
		s.watch(setup, handle)
		s.interesting = func(n string) bool { return strings.HasSuffix(n, "smtpd.NewConn") }
		s.rule.OnInstr = func(e *Eng, st *State, in ssa.Instruction) {
			if st.A["ev"] == "CONNECT" {
				keepContexts(e, st, in)
			}
		}
		s.only("smtpTransaction.from", "smtpTransaction.rip", "smtpTransaction.log", "smtpTransaction.makeyakker", "Context.ruleset", "Context.trans", "smtpd.Config.Delay")
		slowA, _ := cx.globalVar("goslow")
		s.rule.ForkVal = func(e *Eng, st *State, v ssa.Value, x, addr *Term) []func(*State) *Term {
			if addr != slowA || st.A["slow"] != "" {
				return nil
			}
			one := func(b bool) func(*State) *Term {
				return func(y *State) *Term {
					y.A["slow"] = map[bool]string{true: "1", false: "0"}[b]
					y.assume(x, b)
					return mkBool(b)
				}
			}
			return []func(*State) *Term{one(true), one(false)}
		}
		int1 := types.Typ[types.Int]
		smtplog := sessLog(cx, s)
		counts := func(st *State) bool {
			return st.A["counts"] == "1"
		}
		s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
			delete(st.A, "added")
			delete(st.A, "save")
			delete(st.A, "over")
			if ev == "CONNECT" {
				mp, mt := cx.globalVar("minphase")
				st.store(mp, mkStr(r.phase), mt, "start")
				yc, yt := cx.globalVar("yakCount")
				v := st.load(yc, yt)
				st.assume(mkLt(mkInt(0), v, yt), r.on)
				if !r.on {
					st.assume(eq0(v), true)
				}
				return
			}
			st.G["oldfrom"] = s.field(st, "from")
			if ev == "TLSERROR" {
				st.A["counts"] = "0"
			}
		}
		s.onCall = func(e *Eng, st *State, c *Call) bool {
			switch {
			case c.fn == setup:
				c.forks = append(c.forks, func(x *State) []*Term {
					l := e.fresh(x, c.in, ".rules", c.sig.Results().At(0).Type())
					x.G["rules"] = l
					x.A["rules"] = "good"
					return []*Term{l, tTrue}
				}, func(x *State) []*Term {
					l := cx.loadGlobal(x, "stallall")
					x.G["rules"] = l
					x.A["rules"] = "bad"
					return []*Term{l, tFalse}
				})
				return true
			case c.fn == handle:
				forkSave(e, c)
				return true
			case strings.HasSuffix(c.name, "smtpd.NewConn"):
				cfgT := c.sig.Params().At(1).Type()
				cx.count("connections", 1)
				if r.on && st.A["look"] == "" {
					cx.ob(st.eqTo(smtplog, tNil), c.pos(), "do-nothing clients are looked up", "the connection is set up without looking the client up in the do-nothing table")
				}
				stalled := st.A["look"] == "over" && r.on && !st.isTrue(mkEq(smtplog, tNil, smtplog.typ))
				st.A["stalled"] = map[bool]string{true: "1", false: "0"}[stalled]
				if st.A["look"] == "over" && r.on {
					cx.ob(st.isTrue(mkEq(smtplog, tNil, smtplog.typ)) || st.isFalse(mkEq(smtplog, tNil, smtplog.typ)), c.pos(), "stalling needs an SMTP log", "whether the client is stalled does not depend on whether there is an SMTP log")
				}
				d := cx.structField(c.args[1], cfgT, "Delay")
				switch {
				case stalled || st.A["slow"] == "1":
					n, ok := st.norm(d).intVal()
					cx.ob(ok && n > 0, c.pos(), "stalled clients are slowed", "the delay for a stalled or slowed client is %v", d)
				default:
					cx.ob(st.A["slow"] == "0" && st.isTrue(eq0(d)), c.pos(), "only stalled clients are slowed", "the delay is %v without stalling (-S: %s)", d, st.A["slow"])
				}
				log := c.args[2]
				none := st.eqTo(log, tNil)
				cx.ob(!stalled || none, c.pos(), "stalled clients are not logged", "the SMTP conversation of a stalled client is logged")
				cx.ob(stalled || none == st.isTrue(mkEq(smtplog, tNil, smtplog.typ)), c.pos(), "other clients are logged", "the SMTP log of the session is %v", log)
				tl := s.field(st, "log")
				cx.ob(st.eqTo(tl, tNil) == none, c.pos(), "stalled clients are not logged", "the session's own log messages and its conversation are treated differently (%v)", tl)
				return false
			}
			op := tableOp(cx, st, c, "yakkers")
			if op == "" || op == "Stats" {
				return false
			}
			cx.count("table_operations", 1)
			rip := s.field(st, "rip")
			cx.ob(st.eqTo(c.args[1], rip), c.pos(), "the client's IP is counted", "%s of the do-nothing table for %v", op, c.args[1])
			if op != "Del" {
				cx.ob(st.eqTo(c.args[2], cx.loadGlobal(st, "yakTimeout")), c.pos(), "the configured time applies", "%s of the do-nothing table with the time %v", op, c.args[2])
			}
			ev := st.A["ev"]
			cnt := cx.loadGlobal(st, "yakCount")
			switch op {
			case "Lookup":
				cx.ob(ev == "CONNECT" && st.A["look"] == "", c.pos(), "a client is looked up once", "the do-nothing table is consulted at %s", ev)
				c.forks = append(c.forks, func(x *State) []*Term {
					x.A["look"] = "none"
					return []*Term{tFalse, mkInt(0)}
				})
				if !r.on {
					c.forks = append(c.forks, func(x *State) []*Term {
						x.A["look"] = "some"
						return []*Term{tTrue, e.fresh(x, c.in, ".cnt", int1)}
					})
					return true
				}
				for _, over := range []bool{true, false} {
					over := over
					c.forks = append(c.forks, func(x *State) []*Term {
						n := e.fresh(x, c.in, ".cnt", int1)
						x.assume(mkLt(n, cnt, int1), !over)
						x.A["look"] = map[bool]string{true: "over", false: "under"}[over]
						return []*Term{tTrue, n}
					})
				}
				return true
			case "Add":
				cx.ob(st.A["added"] == "", c.pos(), "a session counts once", "%s changes the do-nothing table twice", ev)
				st.A["added"] += "Add"
				okd := st.A["dec"] == "none" || st.A["dec"] == "accept"
				switch ev {
				case "MAILFROM":
					cx.ob(okd && st.A["mf"] == "1" && counts(st) && st.A["got"] != "1", c.pos(), "only idle sessions count", "a MAIL FROM counts against the client (decided: %s, earlier MAIL FROM: %q, session counts: %s, reached: %q)", st.A["dec"], st.A["mf"], st.A["counts"], st.A["got"])
				}
				for _, over := range []bool{true, false} {
					over := over
					c.forks = append(c.forks, func(x *State) []*Term {
						n := e.fresh(x, c.in, ".cnt", int1)
						x.redefine(n)
						x.assume(mkLt(cnt, n, int1), over)
						x.A["over"] = map[bool]string{true: "1", false: "0"}[over]
						return []*Term{n}
					})
				}
				return true
			case "Set":
				cx.ob(st.A["added"] == "", c.pos(), "a session counts once", "%s changes the do-nothing table twice", ev)
				st.A["added"] += "Set"
				cx.ob(st.eqTo(c.args[3], cnt), c.pos(), "make-yakker sets the limit", "the count is set to %v", c.args[3])
			case "Del":
				cx.ob(st.A["added"] == "", c.pos(), "a session counts once", "%s changes the do-nothing table twice", ev)
				st.A["added"] += "Del"
			}
			return false
		}
		s.onDecide = func(e *Eng, st *State, c *Call, res string) {
			if st.A["ev"] != "CONNECT" {
				return
			}
			ctx := paramOfTypeArg(s.decide, c, "*Context")
			rs := cx.loadField(st, ctx, s.ctxT, "ruleset")
			want := st.G["rules"]
			if st.A["stalled"] == "1" {
				want = cx.loadGlobal(st, "stallall")
			}
			cx.ob(want != nil && st.eqTo(rs, want), c.pos(), "exactly do-nothing clients are stalled", "the rules consulted are %v (stalled: %s)", rs, st.A["stalled"])
		}
		s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
			ev := st.A["ev"]
			okd := st.A["dec"] == "none" || st.A["dec"] == "accept"
			op := st.A["added"]
			cx.count("step_ends", 1)
			if ev == "CONNECT" && how == "next" {
				// from here on all that matters is whether the session counts
				st.A["counts"] = map[bool]string{true: "1", false: "0"}[r.on && st.A["rules"] == "good" && st.A["stalled"] == "0"]
				for _, k := range []string{"rules", "stalled", "look", "slow"} {
					delete(st.A, k)
				}
				delete(st.G, "rules")
			}
			bad := func(rule, f string, a ...interface{}) {
				cx.violPath(at(in), rule, cx.path(st), "(-minphase %s) "+f, append([]interface{}{r.phase}, a...)...)
			}
			cx.obligations++
			if how == "return" && (ev == "DONE" || ev == "ABORT") {
				cx.count("session_ends", 1)
				mk := s.field(st, "makeyakker")
				want := ""
				switch {
				case st.isTrue(mk):
					want = "Set"
					if !r.on {
						want = op // without effect
						if op == "Add" || op == "Del" {
							want = "Set"
						}
					}
				case !st.isFalse(mk):
					bad("sessions end as documented", "the end of the session does not depend on make-yakker")
					return
				case counts(st) && st.A["got"] == "":
					want = "Add"
				case r.on && st.A["got"] == "1":
					want = "Del"
				case r.on && st.A["got"] == "maybe":
					if op == "Del" || op == "" || op == "Add" && counts(st) {
						return
					}
				}
				if op != want {
					bad("sessions count as documented", "at the end of a session the do-nothing table gets %q, expected %q (session counts: %s, reached: %q)", op, want, st.A["counts"], st.A["got"])
				}
				return
			}
			if ev == "MAILFROM" {
				if okd && op == "" && counts(st) && st.A["got"] == "" && st.A["mf"] == "1" && !st.isTrue(mkEq(st.G["oldfrom"], mkStr(""), types.Typ[types.String])) {
					bad("restarted sessions count", "a further MAIL FROM without reaching the minimum phase does not count")
				}
				if op != "" && op != "Add" {
					bad("sessions count as documented", "a MAIL FROM does %s on the do-nothing table", op)
				}
				if how == "return" {
					cx.ob(st.A["over"] == "1", at(in), "only clients over the limit are dropped", "a session is ended at MAIL FROM although the limit is not exceeded")
				} else {
					cx.ob(st.A["over"] != "1", at(in), "clients over the limit are dropped", "a session goes on after exceeding the limit at MAIL FROM")
				}
			} else if op != "" {
				bad("sessions count as documented", "%s does %s on the do-nothing table", ev, op)
			}
			// which phase has been reached
			for _, x := range reach[r.phase] {
				if x != ev {
					continue
				}
				switch {
				case r.phase == "message":
					st.A["got"] = "1"
				case okd && st.A["save"] != "failed":
					st.A["got"] = "1"
				}
			}
			if st.A["save"] == "failed" && st.A["got"] == "" {
				st.A["got"] = "maybe"
			}
			switch {
			case (ev == "HELO" || ev == "EHLO") && okd:
				delete(st.A, "mf")
			case ev == "MAILFROM" && okd:
				st.A["mf"] = "1"
			}
			delete(st.A, "added")
			delete(st.A, "over")
		}
		s.run()
	})
	cx.ob(cx.counts["connections"] > 0 && cx.counts["session_ends"] >= 12 && cx.counts["table_operations"] > 10, setup.Pos(), "analysis completes", "too few paths: %v", cx.counts)
}

// sessLog is process()'s parameter for the SMTP log.
func sessLog(cx *Cx, s *sess) *Term {
	for i, p := range s.proc.Params {
		if p.Name() == "smtplog" {
			return param(s.proc, i)
		}
	}
	// the second of the three writers
	n := 0
	for i, p := range s.proc.Params {
		if typeStr(p.Type()) == "io.Writer" {
			if n == 1 {
				return param(s.proc, i)
			}
			n++
		}
	}
	cx.fail("anchor", "the SMTP log of a session was not found")
	return nil
}

func runC18(cx *Cx) {
	opts := []string{"off", "no-client", ""}
	cx.split(len(opts)*2, func(i int) { tlsRun(cx, opts[i/2], i%2 == 0) })
	cx.ob(cx.counts["connections"] > 0 && cx.counts["connections_with_tls"] > 0 && cx.counts["tls_off"] > 0 && cx.counts["tls_noclient"] > 0, 0, "analysis completes", "too few paths: %v", cx.counts)
}

// tlsRun follows the TLS configuration through a session in which decisions
// may set the option given.
func tlsRun(cx *Cx, opt string, cmdCerts bool) {
	find := cx.anchor("destMap.find", "(*destMap,net.Conn)(*perDest)")
	pdT := cx.namedType("perDest")
	tabs := tableFns(cx)
	tcT := cx.P.imported("crypto/tls", "Config")
	req, ok := cx.P.importedConst("crypto/tls", "RequestClientCert")
	if !ok {
		cx.fail("anchor", "tls.RequestClientCert not found")
	}
	const ttl = 72 * 3600 * 1000000000
	s := newSess(cx)
	s.watch(tabs...)
	s.watch(find)
	s.only("smtpTransaction.rip", "Context.trans", "Context.withprops", "smtpd.Config.TLSConfig", "tls.Config.ClientAuth", "tls.Config.Certificates")
	s.interesting = func(n string) bool { return strings.HasSuffix(n, "smtpd.NewConn") }
	s.props = []map[string]string{{"tls-opt": ""}}
	if opt != "" {
		s.props = append(s.props, map[string]string{"tls-opt": opt})
	}
	cmd := paramByType(s.proc, "[]tls.Certificate")
	var connT, cfgT types.Type
	// conf is where the connection has its TLS configuration.
	conf := func(st *State) (*Term, *Term, types.Type) {
		ca, ct := cx.fieldAddr(st.G["convo"], connT, "Config")
		ta, tt := cx.fieldAddr(ca, ct, "TLSConfig")
		return st.load(ta, tt), ta, tt
	}
	snap := func(st *State) {
		t, _, _ := conf(st)
		st.G["0conf"] = t
		st.G["0auth"] = cx.loadField(st, t, tcT, "ClientAuth")
		st.G["0certs"] = cx.loadField(st, t, tcT, "Certificates")
	}
	s.rule.Key = func(e *Eng, st *State) string {
		if st.G["convo"] == nil {
			return ""
		}
		t, _, _ := conf(st)
		switch {
		case st.eqTo(t, tNil):
			return "notls"
		case st.isFalse(mkEq(t, tNil, t.typ)):
			if n, ok := st.norm(cx.loadField(st, t, tcT, "ClientAuth")).intVal(); ok && n == 0 {
				return "nocert"
			}
			return "tls"
		}
		return ""
	}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		delete(st.A, "adds")
		if ev == "CONNECT" {
			st.G["certs"] = cmd
			st.assume(eq0(mkLen(cmd)), !cmdCerts)
			return
		}
		snap(st)
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		st.A["opt"] = "none"
		if v, ok := st.G["prop"].strVal(); ok && v != "" {
			st.A["opt"] = v
		}
		delete(st.G, "prop")
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		switch {
		case c.fn == find:
			c.forks = append(c.forks, func(x *State) []*Term { return []*Term{tNil} })
			for _, some := range []bool{true, false} {
				some := some
				c.forks = append(c.forks, func(x *State) []*Term {
					p := e.fresh(x, c.in, ".pd", c.sig.Results().At(0).Type())
					x.assume(mkEq(p, tNil, p.typ), false)
					x.A["pd"] = map[bool]string{true: "certs", false: "nocerts"}[some]
					l := cx.loadField(x, p, pdT, "certs")
					x.assume(eq0(mkLen(l)), !some)
					x.G["certs"] = l
					return []*Term{p}
				})
			}
			return true
		case strings.HasSuffix(c.name, "smtpd.NewConn"):
			cx.count("connections", 1)
			cfgT = c.sig.Params().At(1).Type()
			connT = derefType(c.sig.Results().At(0).Type())
			tlsc := cx.structField(c.args[1], cfgT, "TLSConfig")
			certs := st.G["certs"]
			none := st.isTrue(eq0(mkLen(certs)))
			some := st.isFalse(eq0(mkLen(certs)))
			f := st.A["fail"]
			if f == "" {
				cx.ob(none, c.pos(), "TLS failures are looked up", "the connection is set up without looking for TLS failures of the client")
				f = "0"
			}
			switch {
			case st.eqTo(tlsc, tNil):
				cx.ob(none || f == "2", c.pos(), "TLS is offered", "TLS is not offered although certificates are in force (TLS failures: %s)", f)
			case st.isFalse(mkEq(tlsc, tNil, tlsc.typ)):
				cx.count("connections_with_tls", 1)
				cx.ob(some && f != "2", c.pos(), "TLS is withheld", "TLS is offered without certificates or after two failures (TLS failures: %s)", f)
				got := cx.loadField(st, tlsc, tcT, "Certificates")
				cx.ob(st.eqTo(got, certs), c.pos(), "TLS uses the certificates in force", "the certificates are %v", got)
				auth, ok := st.norm(cx.loadField(st, tlsc, tcT, "ClientAuth")).intVal()
				cx.ob(ok && (auth == req) == (f == "0") && (auth == req || auth == 0), c.pos(), "client certificates are requested as documented", "the client certificate setting is %d with %s TLS failures on record", auth, f)
			default:
				cx.ob(false, c.pos(), "TLS is offered", "whether TLS is offered does not follow from the certificates and the client's record (%v)", tlsc)
			}
			delete(st.A, "fail")
			delete(st.A, "pd")
			r := e.fresh(st, c.in, "", c.sig.Results().At(0).Type())
			st.assume(mkEq(r, tNil, r.typ), false)
			st.G["convo"] = r
			_, a, t := conf(st)
			st.store(a, tlsc, t, "newconn")
			snap(st)
			c.ret = []*Term{r}
			st.escape(tlsc)
			return true
		}
		op := tableOp(cx, st, c, "notls")
		if op == "" || op == "Stats" {
			return false
		}
		cx.count("table_operations", 1)
		cx.ob(op == "Lookup" || op == "Add", c.pos(), "TLS failures are only added", "%s of the table of TLS failures", op)
		cx.ob(st.eqTo(c.args[1], s.field(st, "rip")), c.pos(), "the client's IP is looked up", "%s of the TLS failures of %v", op, c.args[1])
		if op != "Del" {
			n, ok := st.norm(c.args[2]).intVal()
			cx.ob(ok && n == ttl, c.pos(), "TLS failures count for 72 hours", "%s with the time %v", op, c.args[2])
		}
		switch op {
		case "Add":
			cx.ob(st.A["ev"] == "TLSERROR" && st.A["adds"] == "", c.pos(), "only TLS failures are recorded", "a TLS failure is recorded at %s", st.A["ev"])
			st.A["adds"] = "1"
		case "Lookup":
			cx.ob(st.A["ev"] == "CONNECT" && st.A["fail"] == "", c.pos(), "TLS failures are looked up once", "TLS failures are looked up at %s", st.A["ev"])
			c.forks = append(c.forks, func(x *State) []*Term {
				x.A["fail"] = "0"
				return []*Term{tFalse, mkInt(0)}
			}, func(x *State) []*Term {
				x.A["fail"] = "1"
				return []*Term{tTrue, mkInt(1)}
			}, func(x *State) []*Term {
				n := e.fresh(x, c.in, ".cnt", types.Typ[types.Int])
				x.assume(mkLt(n, mkInt(2), n.typ), false)
				x.A["fail"] = "2"
				return []*Term{tTrue, n}
			})
			return true
		}
		return false
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		cx.count("step_ends", 1)
		ev := st.A["ev"]
		cx.ob(ev != "TLSERROR" || st.A["adds"] == "1", at(in), "every TLS failure is recorded", "a TLS failure is not recorded against the client's IP")
		now, _, _ := conf(st)
		auth := cx.loadField(st, now, tcT, "ClientAuth")
		certs := cx.loadField(st, now, tcT, "Certificates")
		isNil := st.eqTo(now, tNil)
		switch st.A["opt"] {
		case "off":
			cx.count("tls_off", 1)
			cx.ob(isNil, at(in), "tls-opt off disables TLS", "TLS is not switched off after %s", ev)
		case "no-client":
			cx.count("tls_noclient", 1)
			cx.ob(isNil || st.isTrue(eq0(auth)), at(in), "tls-opt no-client stops the certificate request", "a client certificate is still requested after %s (setting %v)", ev, auth)
			cx.ob(st.eqTo(now, st.G["0conf"]) && (isNil || st.eqTo(certs, st.G["0certs"])), at(in), "only rules change TLS settings", "'tls-opt no-client' changes the TLS configuration")
		default:
			cx.ob(st.eqTo(now, st.G["0conf"]) && (isNil || st.eqTo(auth, st.G["0auth"]) && st.eqTo(certs, st.G["0certs"])), at(in), "only rules change TLS settings", "the TLS configuration changes at %s without a rule saying so", ev)
		}
		delete(st.A, "opt")
		delete(st.A, "adds")
	}
	s.run()
}
