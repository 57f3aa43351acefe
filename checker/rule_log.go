package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C29", run: runC29,
		rule:   "Three parts. (1) Dataflow with a text model over process() with everything it calls inlined, with and without an SMTP log, the do-nothing lookup forked: every write that reaches one of the three logs (directly, or by flushing a buffer in front of it) is a whole record ending in a newline and naming the process and connection number; nothing is written to a log in pieces, nothing stays in a buffer when the next event is awaited, nothing reaches the SMTP log in a session stalled for doing nothing, and what is given to the SMTP library as its log is a tagging logger in front of the SMTP log with this session's id. (2) The same over the tagging logger's Write(): on every path exactly one write of the id and the text given, whole. (3) Dataflow over main(): the logs connections are given are files or standard output, not buffers shared between connections.",
		assume: []string{"smtpd writes each line of its log with one call of Write", "one write(2) to a file opened for appending is not interleaved with others (POSIX)", "bufio.Writer passes one Write followed by Flush on as one write when it was empty before", "writes to the logs succeed (after a failure bufio.Writer writes nothing more)"}})
}

// logSet follows writes to logs.
type logSet struct {
	cx     *Cx
	logs   map[string]*Term
	whole  bool // pieces are accepted
	record func(e *Eng, st *State, c *Call, log string, text *Term)
}

// call handles a call that writes to a log or to a buffer in front of one.
func (l *logSet) call(e *Eng, st *State, c *Call) bool {
	if len(c.args) == 0 {
		return false
	}
	ret := func() {
		n := c.sig.Results().Len()
		c.ret = make([]*Term, n)
		if n > 0 {
			c.ret[n-1] = tNil
		}
	}
	for _, n := range sortedTerms(l.logs) {
		log := l.logs[n]
		isLog := func(t *Term) bool { return st.eqTo(unIface(t), log) }
		isBuf := func(t *Term) (*Term, bool) {
			w, ok := e.bufOf(st, t)
			if !ok {
				return nil, false
			}
			d := st.heap[dstAddr(w)]
			return w, d != nil && isLog(d)
		}
		k := "pend:" + n
		switch c.name {
		case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy", "(io.Writer).Write":
			if w, ok := isBuf(c.args[0]); ok {
				if st.A[k] != "" && !l.whole {
					l.cx.violPath(c.pos(), "one write per record", l.cx.path(st), "a record for the %s goes through a buffer in pieces, which are written one by one once the buffer is full", n)
				}
				st.A[k] = "1"
				if c.name == "(io.Writer).Write" {
					e.bufAppend(st, w, e.textOf(st, e.snapshot(st, c.args[1])))
				} else if !e.model(st, c) {
					e.bufAppend(st, w, mk("app", "text?", 0, types.Typ[types.String]))
				}
				ret()
				return true
			}
			if isLog(c.args[0]) {
				t, ok := logWrite(e, st, c, log)
				if !ok {
					t = mk("app", "text?", 0, types.Typ[types.String])
				}
				l.record(e, st, c, n, t)
				ret()
				return true
			}
		case "(*bytes.Buffer).WriteTo":
			if isLog(c.args[1]) {
				t, _ := logWrite(e, st, c, log)
				l.record(e, st, c, n, t)
				ret()
				return true
			}
		case "(*bufio.Writer).Flush":
			if w, ok := isBuf(c.args[0]); ok {
				t := st.heap[bufAddr(w)]
				st.heap[bufAddr(w)] = mkStr("")
				if st.A[k] != "" {
					delete(st.A, k)
					l.record(e, st, c, n, t)
				}
				ret()
				return true
			}
		}
		if c.fn == nil && strings.HasPrefix(c.name, "(*bufio.Writer).") {
			if _, ok := isBuf(c.args[0]); ok && !inSet(c.name, "(*bufio.Writer).Size", "(*bufio.Writer).Available", "(*bufio.Writer).Buffered") {
				l.cx.violPath(c.pos(), "one write per record", l.cx.path(st), "the %s is written through %s", n, c.name)
			}
		}
	}
	return false
}

var logCalls = map[string]bool{"(*bufio.Writer).Write": true, "(*bufio.Writer).WriteString": true, "(*bufio.Writer).WriteByte": true, "(*bufio.Writer).WriteRune": true, "fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, "io.WriteString": true, "io.Copy": true, "(io.Writer).Write": true, "(*bytes.Buffer).WriteTo": true, "(*bufio.Writer).Flush": true}

func (l *logSet) flushed(st *State, in ssa.Instruction, when string) {
	for n := range l.logs {
		if st.A["pend:"+n] != "" {
			l.cx.violPath(at(in), "nothing stays in a buffer", l.cx.path(st), "a record for the %s is still in a buffer when %s", n, when)
			delete(st.A, "pend:"+n)
		}
	}
}

func runC29(cx *Cx) {
	var taggers []types.Type
	for _, with := range []bool{true, false} {
		taggers = append(taggers, logSession(cx, with)...)
	}
	done := map[string]bool{}
	for _, t := range taggers {
		if !done[typeStr(t)] {
			done[typeStr(t)] = true
			tagger(cx, t)
		}
	}
	logLine(cx, false)
	logFiles(cx)
	cx.ob(cx.counts["records"] > 0 && cx.counts["connections"] > 0 && cx.counts["taggers"] > 0 && cx.counts["logs_passed"] > 0 && cx.counts["stalled_connections"] > 0, 0, "analysis completes", "too few paths: %v", cx.counts)
}

// logSession: the records of a session.
func logSession(cx *Cx, with bool) []types.Type {
	s := newSess(cx)
	cid := paramOfType(s.proc, "int")
	names := []string{"message log", "SMTP log", "do-nothing log"}
	ls := &logSet{cx: cx, logs: map[string]*Term{}}
	for i, p := range s.proc.Params {
		if typeStr(p.Type()) == "io.Writer" && len(ls.logs) < 3 {
			ls.logs[names[len(ls.logs)]] = param(s.proc, i)
		}
	}
	smtplog := sessLog(cx, s)
	if cid == nil || len(ls.logs) != 3 {
		cx.fail("anchor", "the logs or the number of a connection were not found")
	}
	tabs := tableFns(cx)
	s.watch(tabs...)
	s.only("smtpTransaction.log", "Context.trans")
	for _, a := range []string{"smtpLogger.Write", "tlsClientLog"} {
		delete(s.atomics, a)
	}
	save := saver(cx)
	s.watch(save)
	s.interesting = func(n string) bool { return logCalls[n] || strings.HasSuffix(n, "smtpd.NewConn") }
	var tags []types.Type
	hasID := func(t *Term) bool {
		c, p := false, false
		for _, x := range flatText(t) {
			n := x
			for len(n.args) == 1 && inSet(n.op, "app", "fmt", "conv", "convT", "iface") {
				n = n.args[0]
			}
			c = c || n == cid
			p = p || strings.Contains(n.String(), "os.Getpid")
		}
		return c && p
	}
	ls.record = func(e *Eng, st *State, c *Call, log string, text *Term) {
		cx.count("records", 1)
		cx.obligations += 3
		t := st.norm(text)
		if !endsNL(flatText(t)) {
			cx.violPath(c.pos(), "records are whole lines", cx.path(st), "what is written to the %s does not end in a newline: %v", log, t)
		}
		if !hasID(t) {
			cx.violPath(c.pos(), "records carry the session's id", cx.path(st), "a record of the %s does not give the session's id: %v", log, t)
		}
		if log == "SMTP log" && st.A["look"] == "over" {
			cx.violPath(c.pos(), "stalled clients are not logged", cx.path(st), "a record of a stalled do-nothing client's session goes to the SMTP log")
		}
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if ls.call(e, st, c) {
			return true
		}
		switch {
		case c.fn == save:
			// its own records are looked at apart
			cx.obligations++
			if p := paramOfTypeArg(save, c, "string"); p == nil || !hasID(st.norm(p)) {
				cx.violPath(c.pos(), "records carry the session's id", cx.path(st), "the id a message is recorded with is %v, not the session's", p)
			}
		case c.name == "(*smtpd.Conn).Next":
			ls.flushed(st, c.in, "the next event is awaited")
		case strings.HasSuffix(c.name, "smtpd.NewConn"):
			cx.count("connections", 1)
			lg := st.norm(c.args[2])
			if st.eqTo(lg, tNil) {
				if st.A["look"] == "over" && with {
					cx.count("stalled_connections", 1)
				}
				return false
			}
			if st.A["look"] == "over" && with {
				cx.violPath(c.pos(), "stalled clients are not logged", cx.path(st), "the conversation of a stalled do-nothing client is given an SMTP log")
			}
			cx.obligations++
			var dt types.Type
			if lg.op == "iface" {
				dt, _ = lg.obj.(types.Type)
			}
			if dt == nil || !strings.HasPrefix(typeStr(dt), "*") || cx.P.pkg.Scope().Lookup(strings.TrimPrefix(typeStr(dt), "*")) == nil {
				cx.violPath(c.pos(), "records carry the session's id", cx.path(st), "the SMTP conversation is logged to %v, which does not tag records with the session's id", lg)
				return false
			}
			tags = append(tags, derefType(dt))
			// the tagger's own log and id
			p := unIface(lg)
			u, ok := derefType(dt).Underlying().(*types.Struct)
			if !ok {
				cx.violPath(c.pos(), "analysis completes", cx.path(st), "unexpected logger type %s", typeStr(dt))
				return false
			}
			id, dst := false, false
			for i := 0; i < u.NumFields(); i++ {
				v := st.norm(st.load(mkFaddr(p, derefType(dt), i), u.Field(i).Type()))
				if hasID(e.textOf(st, e.snapshot(st, v))) {
					id = true
				}
				if st.eqTo(unIface(v), smtplog) {
					dst = true
				}
				if w, ok := e.bufOf(st, v); ok {
					if d := st.heap[dstAddr(w)]; d != nil && st.eqTo(unIface(d), smtplog) {
						dst = true
					}
				}
			}
			if !id {
				cx.violPath(c.pos(), "records carry the session's id", cx.path(st), "the logger of the conversation does not have the session's id")
			}
			if !dst {
				cx.violPath(c.pos(), "records carry the session's id", cx.path(st), "the logger of the conversation is not in front of the SMTP log")
			}
		}
		if op := tableOp(cx, st, c, "yakkers"); op == "Lookup" && st.A["look"] == "" {
			cnt := cx.loadGlobal(st, "yakCount")
			it := types.Typ[types.Int]
			c.forks = append(c.forks, func(x *State) []*Term {
				n := e.fresh(x, c.in, ".cnt", it)
				x.assume(mkLt(mkInt(0), cnt, it), true)
				x.assume(mkLt(n, cnt, it), false)
				x.A["look"] = "over"
				return []*Term{tTrue, n}
			}, func(x *State) []*Term {
				x.A["look"] = "none"
				return []*Term{tFalse, mkInt(0)}
			})
			return true
		}
		return false
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		ls.flushed(st, in, "the session ends")
	}
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		if ev == "CONNECT" {
			st.assume(mkEq(smtplog, tNil, smtplog.typ), !with)
		}
	}
	s.run()
	return tags
}

// tagger: a logger in front of a log passes each text on as one whole record.
func tagger(cx *Cx, t types.Type) {
	var f *ssa.Function
	for _, g := range cx.P.funcs {
		if g.Name() == "Write" && g.Signature.Recv() != nil && typeStr(derefType(g.Signature.Recv().Type())) == typeStr(t) {
			f = g
		}
	}
	if f == nil {
		cx.fail("anchor", "%s has no Write method", typeStr(t))
	}
	u := t.Underlying().(*types.Struct)
	log := mkSym("K:log", types.NewInterfaceType(nil, nil))
	id := mkSym("K:id", types.Typ[types.String])
	ls := &logSet{cx: cx, logs: map[string]*Term{"SMTP log": log}}
	R := &Rule{Name: cx.id}
	b := param(f, 1)
	ls.record = func(e *Eng, st *State, c *Call, _ string, text *Term) {
		if st.A["wrote"] != "" {
			cx.violPath(c.pos(), "one write per record", cx.path(st), "one record is passed on in more than one write")
			return
		}
		st.A["wrote"] = "1"
		ps := flatText(st.norm(text))
		cx.obligations++
		cx.count("taggers", 1)
		ok := len(ps) >= 2 && st.eqTo(asText(ps[len(ps)-1]), asText(b))
		n := 0
		for i, p := range ps {
			if st.eqTo(asText(p), id) {
				n++
			} else if !p.isConst() && i < len(ps)-1 {
				ok = false
			}
		}
		if !ok || n != 1 {
			cx.violPath(c.pos(), "records carry the session's id", cx.path(st), "what is written for a record is %v, not the session's id and the whole text", st.norm(text))
		}
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool { return ls.call(e, st, c) }
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		ls.flushed(st, in, "Write() returns")
		cx.obligations++
		if st.A["wrote"] == "" {
			cx.violPath(at(in), "one write per record", cx.path(st), "Write() returns without having written the record")
		}
	}
	cx.analyse(f, R, func(e *Eng, st *State) {
		p := param(f, 0)
		st.assume(mkEq(p, tNil, p.typ), false)
		for i := 0; i < u.NumFields(); i++ {
			a, ft := mkFaddr(p, t, i), u.Field(i).Type()
			switch typeStr(ft) {
			case "*bufio.Writer":
				w := mk("alloc", "tagger.bufio", 0, ft)
				st.heap[bufAddr(w)] = mkStr("")
				st.heap[dstAddr(w)] = log
				st.store(a, w, ft, "start")
			case "io.Writer":
				st.store(a, log, ft, "start")
			case "[]byte", "[]uint8":
				st.store(a, mk("conv", "bytes", 0, ft, id), ft, "start")
			case "string":
				st.store(a, id, ft, "start")
			}
		}
	})
}

// logFiles: what connections are given as logs.
func logFiles(cx *Cx) {
	app, ok := cx.P.importedConst("os", "O_APPEND")
	if !ok {
		app = 0x400
	}
	for _, kind := range []string{"*", "-", ""} {
		vals := map[string]interface{}{}
		for _, f := range []string{"smtplog", "l", "dnlog"} {
			vals[f] = kind
		}
		m := newMainRun(cx, mainCfg{vals: vals})
		m.onServe = func(e *Eng, st *State, c *Call) {
			for i, p := range c.fn.Params {
				if typeStr(p.Type()) == "int" {
					// numbers grow, so that no two connections have the same
					v := st.norm(c.args[i])
					if n := st.G["next"]; n != nil && !strings.Contains(v.String(), "sync/atomic") {
						cx.count("ids_compared", 1)
						if lt, known := st.evalBool(mkLt(v, n, p.Type())); !known || lt {
							cx.violPath(c.pos(), "ids are unique", cx.path(st), "the number given to a connection is not known to differ from that of the one before")
						}
					}
					st.G["next"] = linAdd(v, mkInt(1), 1, p.Type())
					st.A["served"] = "1"
				}
				if typeStr(p.Type()) != "io.Writer" {
					continue
				}
				cx.count("logs_passed", 1)
				v := st.norm(c.args[i])
				dt := v.typ
				if v.op == "iface" {
					dt, _ = v.obj.(types.Type)
					if x := unIface(v); x.typ != nil {
						dt = x.typ
					}
				}
				ok := st.eqTo(v, tNil) || dt != nil && typeStr(dt) == "*os.File"
				cx.ob(ok, c.pos(), "connections write to the log itself", "with %s a connection is given %v (%s) as a log, not a file", logOpt(kind), v, typeName(dt))
			}
		}
		m.onOpen = func(e *Eng, st *State, c *Call, what string) {
			if !strings.HasPrefix(what, "log:") {
				return
			}
			cx.count("logs_opened", 1)
			ok := false
			if c.name == "os.OpenFile" {
				v, known := st.norm(c.args[1]).intVal()
				ok = known && v&app != 0
			}
			cx.ob(ok, c.pos(), "records are appended", "a log is opened without O_APPEND: records written through two openings of one file overwrite each other")
		}
		m.run()
	}
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return typeStr(t)
}

func logOpt(kind string) string {
	switch kind {
	case "*":
		return "log files"
	case "-":
		return "logs to standard output"
	}
	return fmt.Sprint("no logs")
}
