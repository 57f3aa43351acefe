package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C28", run: runC28,
		rule:   "Four parts. (1) The grammar automaton over the parser's rule production: exactly the documented with options and tls-opt values are taken, each is recorded under its own name with its own argument in its own clause. (2) Dataflow over Rule.check(): the first matching clause sets all of its options and nothing else does. (3) Dataflow over Decide(): options start empty, stay as the rules set them, and a postponed verdict keeps its own. (4) Dataflow over process() with everything it calls inlined, once per option, each decision leaving the option set or not: the text of each reply is exactly the message (and ID), the directory messages go to is the last one set, the note is part of a log record of the step, the TLS configuration follows tls-opt, and the session ends with the client set to the do-nothing limit exactly if some decision asked for it.",
		assume: []string{"the session's Next()/reply behaviour is smtpd's documented one", "a rule's own matching is as decided by C12"}})
}

// hasPart: text is a concatenation with x as one of its parts.
func hasPart(text, x *Term) bool {
	if text == x {
		return true
	}
	if text.op == "cat" || text.op == "concat" || text.op == "append" {
		for _, a := range text.args {
			if hasPart(a, x) {
				return true
			}
		}
	}
	return false
}

// flatText is the parts of a text.
func flatText(t *Term) []*Term {
	if t.op == "cat" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, flatText(a)...)
		}
		return out
	}
	if t.op == "conv" || t.op == "iface" {
		return flatText(t.args[0])
	}
	return []*Term{t}
}

// replyText is the text given with a reply, nil if none is.
func replyText(e *Eng, st *State, c *Call) *Term {
	if !strings.HasSuffix(c.name, "Msg") || len(c.args) < 3 {
		return nil
	}
	f, ok := st.norm(c.args[1]).strVal()
	if !ok {
		return mk("app", "format", 0, types.Typ[types.String], c.args[1])
	}
	as, ok := e.variadic(st, c.args[2])
	if !ok {
		return mk("app", "format", 0, types.Typ[types.String], c.args[1])
	}
	for i := range as {
		as[i] = st.norm(unIface(as[i]))
	}
	t, ok := fmtCat(f, as)
	if !ok {
		return mk("app", "format", 0, types.Typ[types.String], c.args[1])
	}
	return t
}

func runC28(cx *Cx) {
	parts := []func(){
		func() {
			g := newGram(cx)
			g.run("rule")
			clauseChecks(cx)
		},
		func() { runDecide(cx) },
		func() { withMessage(cx) },
		func() { withSavedir(cx) },
		func() { withNote(cx) },
		func() { withYakker(cx) },
		func() { tlsRun(cx, "off", true) },
		func() { tlsRun(cx, "no-client", true) },
	}
	cx.split(len(parts), func(i int) { parts[i]() })
	for _, k := range []string{"with_options", "clauses", "message_replies", "savedir_steps", "files_opened", "notes_logged", "forced_sessions", "tls_off", "tls_noclient", "ends_with_options"} {
		cx.ob(cx.counts[k] > 0, 0, "analysis completes", "no %s seen", k)
	}
}

// accepted: the decision of this step, if any, lets the command through.
func accepted(st *State) bool { return st.A["dec"] == "none" || st.A["dec"] == "accept" }

func withMessage(cx *Cx) {
	handle := cx.anchor("handleMessage", "(string,*smtpTransaction,io.Writer)(string,error)")
	s := newSess(cx)
	s.watch(handle)
	s.only("Context.withprops", "Context.trans")
	s.props = []map[string]string{{"message": ""}, {"message": "*"}}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		delete(st.A, "m")
		delete(st.A, "mrep")
		delete(st.A, "save")
		delete(st.G, "id")
		delete(st.G, "msg")
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		st.A["m"] = "0"
		if v, ok := st.G["prop"].strVal(); !ok || v != "" {
			st.A["m"] = "1"
			st.G["msg"] = st.G["prop"]
		}
		delete(st.G, "prop")
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if c.fn == handle {
			c.forks = append(c.forks, func(x *State) []*Term {
				id := e.fresh(x, c.in, ".id", types.Typ[types.String])
				x.assume(mkEq(id, mkStr(""), id.typ), false)
				x.A["save"], x.G["id"] = "ok", id
				return []*Term{id, tNil}
			}, func(x *State) []*Term {
				id := e.fresh(x, c.in, ".id", types.Typ[types.String])
				er := e.fresh(x, c.in, ".err", c.sig.Results().At(1).Type())
				x.assume(mkEq(er, tNil, er.typ), false)
				x.A["save"] = "failed"
				return []*Term{id, er}
			})
			return true
		}
		return false
	}
	s.onReply = func(e *Eng, st *State, c *Call, code string) {
		if st.A["m"] != "1" || st.A["rep"] != "" {
			return
		}
		want := map[string]string{"none": "2", "accept": "2", "stall": "4", "reject": "5"}[st.A["dec"]]
		if code != want {
			return // a reply the rules did not lead to
		}
		st.A["mrep"] = "1"
		cx.count("message_replies", 1)
		ev := st.A["ev"]
		t := replyText(e, st, c)
		if t == nil {
			cx.ob(false, c.pos(), "the message is sent", "the reply %s to %s ignores the rule's message", c.name, ev)
			return
		}
		ps := flatText(st.norm(t))
		msg := st.G["msg"]
		id := st.G["id"]
		needID := ev == "GOTDATA" && st.A["dec"] != "stall"
		n := 0
		for i, p := range ps {
			switch {
			case st.eqTo(p, msg):
				n++
				cx.ob(i == 0, c.pos(), "the message is sent literally", "the reply %v to %s does not begin with the rule's message", t, ev)
			case needID && id != nil && st.eqTo(p, id):
				needID = false
			case p.op == "const" && ev == "GOTDATA" && i > 0 && st.A["dec"] != "stall":
			default:
				cx.ob(false, c.pos(), "the message is sent literally", "the reply to %s is %v, not the rule's message", ev, t)
			}
		}
		cx.ob(n == 1, c.pos(), "the message is sent", "the reply to %s is %v, not the rule's message", ev, t)
		cx.ob(!needID, c.pos(), "the ID is appended", "the reply %v to %s does not give the ID", t, ev)
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		ev := st.A["ev"]
		if how != "next" || st.A["m"] != "1" || ev == "CONNECT" {
			return
		}
		if (ev == "HELO" || ev == "EHLO") && accepted(st) {
			return
		}
		cx.ob(st.A["mrep"] == "1", at(in), "the message is sent", "%s is answered without the rule's message (decided: %s)", ev, st.A["dec"])
	}
	s.run()
}

func withSavedir(cx *Cx) {
	handle := cx.anchor("handleMessage", "(string,*smtpTransaction,io.Writer)(string,error)")
	s := newSess(cx)
	s.watch(handle)
	s.only("Context.withprops", "Context.trans", "smtpTransaction.savedir")
	s.props = []map[string]string{{"savedir": ""}, {"savedir": "*"}}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		delete(st.A, "sd")
		delete(st.G, "sd")
		if ev == "CONNECT" {
			st.G["0sd"] = cx.loadGlobal(st, "savedir")
			return
		}
		st.G["0sd"] = s.field(st, "savedir")
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		if v, ok := st.G["prop"].strVal(); !ok || v != "" {
			st.A["sd"] = "1"
			st.G["sd"] = st.G["prop"]
		}
		delete(st.G, "prop")
	}
	check := func(st *State, in ssa.Instruction, what string) {
		want := st.G["0sd"]
		if st.A["sd"] == "1" {
			want = st.G["sd"]
		}
		cx.count("savedir_steps", 1)
		now := s.field(st, "savedir")
		cx.ob(want != nil && st.eqTo(now, want), at(in), "savedir redirects later messages", "at %s (%s) the directory messages are saved to is %v, not %v", st.A["ev"], what, now, want)
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if c.fn != handle {
			return false
		}
		cx.ob(st.eqTo(paramOfTypeArg(handle, c, "*smtpTransaction"), s.trans(st)), c.pos(), "savedir redirects later messages", "what is saved is not the session's transaction")
		check(st, c.in, "saving")
		forkSave(e, c)
		return true
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		if how == "next" {
			check(st, in, "end of the step")
		}
		delete(st.A, "sd")
		delete(st.A, "save")
	}
	s.run()

	// saving uses it
	tr := paramOfType(handle, "*smtpTransaction")
	R := &Rule{Name: cx.id}
	R.Atomic = func(fn *ssa.Function, name string) bool {
		return name == "msgDetails" || name == "logMessage" || name == "genHash" || name == "warnf"
	}
	sd := func(st *State) *Term { return cx.loadField(st, tr, s.transT, "savedir") }
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch c.name {
		case "os.OpenFile", "os.Create", "os.CreateTemp", "os.Rename", "os.Link", "os.WriteFile":
			i := 0
			if c.name == "os.Rename" || c.name == "os.Link" {
				i = 1
			}
			p := st.norm(c.args[i])
			cx.count("files_opened", 1)
			parts := flatText(p)
			ok := st.eqTo(parts[0], sd(st))
			if len(parts) == 1 && p.op == "app" && (p.aux == "path/filepath.Join" || p.aux == "path.Join") && len(p.args) > 0 {
				if as, good := e.variadic(st, p.args[0]); good && len(as) > 0 {
					ok = st.eqTo(as[0], sd(st))
				}
			}
			cx.ob(ok, c.pos(), "messages are saved in savedir", "a message is saved as %v, not in the transaction's directory", p)
			st.A["opened"] = "1"
		}
		return false
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		d := sd(st)
		er := vals[len(vals)-1]
		cx.ob(st.A["opened"] == "1" || st.isTrue(mkEq(d, mkStr(""), d.typ)) || st.isFalse(mkEq(er, tNil, er.typ)), at(in), "messages are saved in savedir", "a message is not saved although a directory is set")
	}
	cx.analyse(handle, R, nil)
}

func withNote(cx *Cx) {
	s := newSess(cx)
	tabs := tableFns(cx)
	wr := cx.anchor("smtpLogger.Write", "(*smtpLogger,[]byte)(int,error)")
	handle := cx.anchor("handleMessage", "(string,*smtpTransaction,io.Writer)(string,error)")
	s.watch(tabs...)
	s.watch(wr, handle)
	s.only("Context.withprops", "Context.trans", "smtpTransaction.log")
	smtplog := sessLog(cx, s)
	s.props = []map[string]string{{"note": ""}, {"note": "*"}}
	s.interesting = func(n string) bool {
		return n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "fmt.Fprintln" || n == "io.WriteString"
	}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		delete(st.A, "n")
		delete(st.G, "note")
		if ev == "CONNECT" {
			st.assume(mkEq(smtplog, tNil, smtplog.typ), false)
		}
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		if v, ok := st.G["prop"].strVal(); !ok || v != "" {
			st.A["n"] = "1"
			st.G["note"] = st.G["prop"]
		}
		delete(st.G, "prop")
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		var w, text *Term
		switch {
		case c.fn == handle:
			forkSave(e, c)
			return true
		case c.fn == wr:
			w, text = c.args[0], e.textOf(st, e.snapshot(st, c.args[1]))
		case c.name == "fmt.Fprintf" || c.name == "fmt.Fprint" || c.name == "fmt.Fprintln" || c.name == "io.WriteString":
			w, text = unIface(c.args[0]), e.writtenText(st, c)
		default:
			if op := tableOp(cx, st, c, "yakkers"); op == "Lookup" {
				c.ret = []*Term{tFalse, mkInt(0)} // not a stalled client
				return true
			}
			return false
		}
		note := st.G["note"]
		if note == nil || text == nil || !st.eqTo(w, s.field(st, "log")) {
			return false
		}
		for _, p := range flatText(st.norm(text)) {
			if st.eqTo(p, note) {
				st.A["n"] = "logged"
				cx.count("notes_logged", 1)
			}
		}
		return false
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		cx.ob(st.A["n"] != "1", at(in), "notes are logged", "the note of a rule that decided %s is not logged", st.A["ev"])
		delete(st.A, "n")
		delete(st.A, "save")
	}
	s.run()
}

func withYakker(cx *Cx) {
	s := newSess(cx)
	tabs := tableFns(cx)
	handle := cx.anchor("handleMessage", "(string,*smtpTransaction,io.Writer)(string,error)")
	s.watch(tabs...)
	s.watch(handle)
	s.only("Context.withprops", "Context.trans", "smtpTransaction.makeyakker", "smtpTransaction.rip")
	s.props = []map[string]string{{"make-yakker": ""}, {"make-yakker": "set"}}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		delete(st.A, "op")
		if ev == "CONNECT" {
			yc, yt := cx.globalVar("yakCount")
			v := st.load(yc, yt)
			st.assume(mkLt(mkInt(0), v, yt), true)
		}
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		ctx := paramOfTypeArg(s.decide, c, "*Context")
		m := cx.loadField(st, ctx, s.ctxT, "withprops")
		_, t := cx.fieldAddr(ctx, s.ctxT, "withprops")
		if st.isTrue(st.heap[mokAddr(m, st.norm(mkStr("make-yakker")), t)]) {
			if st.A["mk"] == "" {
				st.A["now"] = "1" // keeps this apart from an earlier one
			}
			st.A["mk"] = "1"
		}
		delete(st.G, "prop")
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if c.fn == handle {
			forkSave(e, c)
			return true
		}
		op := tableOp(cx, st, c, "yakkers")
		switch op {
		case "Set":
			ok := st.eqTo(c.args[1], s.field(st, "rip")) && st.eqTo(c.args[3], cx.loadGlobal(st, "yakCount")) && st.eqTo(c.args[2], cx.loadGlobal(st, "yakTimeout"))
			cx.ob(ok, c.pos(), "make-yakker sets the limit", "the do-nothing table gets %v = %v for %v", c.args[1], c.args[3], c.args[2])
			cx.ob(st.A["mk"] == "1", c.pos(), "only make-yakker forces a client", "a client is forced to be a do-nothing client without a rule saying so")
			st.A["op"] += "Set"
		case "Add", "Del":
			st.A["op"] += op
		}
		return false
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		ev := st.A["ev"]
		if how == "return" && (ev == "DONE" || ev == "ABORT") && st.A["mk"] == "1" {
			cx.count("forced_sessions", 1)
			cx.ob(st.A["op"] == "Set", at(in), "make-yakker takes effect", "a session in which a rule asked for make-yakker ends with %q on the do-nothing table", st.A["op"])
		}
		if how == "return" && ev != "DONE" && ev != "ABORT" && ev != "CONNECT" && st.A["mk"] == "1" {
			cx.ob(strings.HasPrefix(st.A["op"], "Add") || st.A["op"] == "Set", at(in), "make-yakker takes effect", "a session in which a rule asked for make-yakker ends at %s with %q on the do-nothing table", ev, st.A["op"])
		}
		delete(st.A, "op")
		delete(st.A, "save")
		delete(st.A, "now")
	}
	s.run()
}
