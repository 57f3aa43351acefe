package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C25", run: runC25,
		rule:   "Dataflow with a text model (buffers, files and hashes as terms) over the message saving function with everything it calls inlined, once per -save-hash value and shape of the record: the name the file is finally given is the save directory and the hash, in full, of exactly the message hash cell, the record's text after its first line, or the record's whole text. Dataflow over process(): when the saving function is called the data, hash and body hash cells are the event's argument, its hash and the hash of its body.",
		assume: []string{"sha1 and the other hash packages compute a function of the bytes written", "net/mail and io.ReadAll as documented", "file operations succeed (what follows a failure is C01's and C02's)"}})
	register(&property{id: "C26", run: runC26,
		rule:   "Dataflow with a text model over the saving function, once per combination of what is known about the client (address, reverse DNS, TLS details): the text written to the file when it is closed has exactly the lines the property names, each mentioning its own cells, every list element taken in order, none skipped, and it ends in the data cell itself. The same for the text of the message log line. Dataflow over process(): the cells hold the connection's addresses, this event's data and time and the current TLS state when the saving function is called.",
		assume: []string{"fmt, bufio, bytes and os contracts", "file operations succeed (what follows a failure is C01's and C02's)"}})
}

// recRun analyses the saving function under assumptions about the transaction.
type recRun struct {
	cx     *Cx
	fn     *ssa.Function
	transT types.Type
	rdnsT  types.Type
	R      *Rule
	prefix *Term
	trans  *Term
	init   func(e *Eng, st *State)
	onDone func(e *Eng, st *State, in ssa.Instruction, content, name *Term)
	// lists whose elements are followed
	lists map[string]*Term
}

var recFields = []string{"raddr", "laddr", "rip", "lip", "rdns", "heloname", "from", "rcptto", "data", "hash", "bodyhash", "when", "savedir", "tlson", "cipher", "tlsversion", "servername", "peername", "tlsverified"}

func saver(cx *Cx) *ssa.Function {
	return cx.anchor("handleMessage", "(string,*smtpTransaction,io.Writer)(string,error)")
}

func newRecRun(cx *Cx, fn *ssa.Function) *recRun {
	r := &recRun{cx: cx, fn: fn, lists: map[string]*Term{}}
	r.transT, r.rdnsT = cx.namedType("smtpTransaction"), cx.namedType("rDNSResults")
	r.prefix = paramOfType(r.fn, "string")
	r.trans = paramOfType(r.fn, "*smtpTransaction")
	if r.prefix == nil || r.trans == nil {
		cx.fail("anchor", "%s has no id or no transaction parameter", fnName(r.fn))
	}
	R := &Rule{Name: cx.id, Precise: true, TextJoin: true}
	r.R = R
	R.Atomic = func(fn *ssa.Function, name string) bool {
		return inSet(name, "warnf", "warnonce", "die", "updateTimeOf")
	}
	file := func(e *Eng, x *State, c *Call) *Term {
		f := e.allocAt(x, c.in, derefType(c.sig.Results().At(0).Type()), "file")
		x.heap[bufAddr(f)] = mkStr("")
		x.G["file"] = f
		return f
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		r.used(e, st, c)
		if c.fn != nil && cx.P.isRepo(c.fn) && scalarFn(c.fn) {
			var as []*Term
			for _, a := range c.args {
				as = append(as, st.norm(a))
			}
			c.ret = []*Term{mk("app", fnName(c.fn), 0, c.sig.Results().At(0).Type(), as...)}
			return true
		}
		switch c.name {
		case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Flush", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy":
			// writing into memory or the file succeeds
			if _, ok := e.bufOf(st, c.args[0]); ok && e.model(st, c) {
				for len(c.ret) < c.sig.Results().Len() {
					c.ret = append(c.ret, nil)
				}
				c.ret[len(c.ret)-1] = tNil
				return true
			}
		case "os.OpenFile", "os.Create", "os.CreateTemp":
			c.forks = append(c.forks, func(x *State) []*Term {
				x.A["f"] = "created"
				if c.name == "os.CreateTemp" {
					x.A["f"] = "temp"
					nm := e.fresh(x, c.in, ".name", types.Typ[types.String])
					x.redefine(nm)
					x.G["name"] = nm
				} else {
					x.G["name"] = c.args[0]
				}
				return []*Term{file(e, x, c), tNil}
			})
			if c.name != "os.CreateTemp" {
				c.forks = append(c.forks, func(x *State) []*Term {
					x.A["f"] = "exists"
					x.G["name"] = c.args[0]
					er := e.fresh(x, c.in, ".err", types.Universe.Lookup("error").Type())
					x.assume(mkEq(er, tNil, er.typ), false)
					x.assume(mk("app", "os.IsExist", 0, types.Typ[types.Bool], er), true)
					return []*Term{tNil, er}
				})
			}
			return true
		case "os.WriteFile":
			f := e.allocAt(st, c.in, types.Typ[types.Int], "file")
			st.heap[bufAddr(f)] = e.textOf(st, e.snapshot(st, c.args[1]))
			st.G["file"], st.G["name"] = f, c.args[0]
			st.A["f"] = "created"
			c.ret = []*Term{tNil}
			return true
		case "(*os.File).Write", "(*os.File).WriteString":
			if w, ok := e.bufOf(st, c.args[0]); ok {
				if st.A["closed"] == "1" {
					cx.ob(false, c.pos(), "the record is complete", "something is written to the message's file after it is closed")
				}
				e.bufAppend(st, w, e.textOf(st, e.snapshot(st, c.args[1])))
				c.ret = []*Term{mkLen(c.args[1]), tNil}
				return true
			}
		case "(*os.File).Close":
			if w, ok := e.bufOf(st, c.args[0]); ok {
				st.A["closed"] = "1"
				st.G["content"] = st.heap[bufAddr(w)]
				c.ret = []*Term{tNil}
				return true
			}
		case "(*os.File).Sync", "os.Chmod", "(*os.File).Chmod":
			c.ret = []*Term{tNil}
			return true
		case "(*os.File).Name":
			c.ret = []*Term{st.G["name"]}
			return true
		case "os.Rename", "os.Link":
			st.G["name"] = c.args[1]
			st.A["f"] = "created"
			c.ret = []*Term{tNil}
			return true
		}
		return false
	}
	R.OnLoad = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		base, idx, ok := elemOf(addr)
		if !ok {
			return
		}
		for _, n := range sortedTerms(r.lists) {
			if !st.eqTo(base, r.lists[n]) {
				continue
			}
			if st.G["last:"+n] != nil && st.eqTo(idx, st.G["last:"+n]) {
				return
			}
			r.skipped(st, in, n)
			if cx.taken(st, in, "last:"+n, idx, n+" entry") {
				st.A["el:"+n] = "taken"
				st.G["el:"+n] = val
			}
		}
	}
	R.OnInstr = func(e *Eng, st *State, in ssa.Instruction) {
		if b, ok := in.(*ssa.BinOp); ok && isStringType(b.Type()) {
			r.mark(st, e.val(st, b.X), in)
			r.mark(st, e.val(st, b.Y), in)
		}
	}
	// outside loops every path is followed on its own
	R.OnEdge = func(e *Eng, st *State, from, to *ssa.BasicBlock) {
		if len(from.Succs) != 2 || cx.P.inCycle(from) {
			return
		}
		k := fmt.Sprintf("br:%s.%d.%d", fnName(from.Parent()), st.top().ctx.id, from.Index)
		st.A[k] = "f"
		if from.Succs[0] == to {
			st.A[k] = "t"
		}
	}
	R.OnPanic = func(e *Eng, st *State, in ssa.Instruction, v *Term) {}
	return r
}

func sortedTerms(m map[string]*Term) []string {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return sortedKeys(x)
}

// scalarFn: a function of the repository from plain values to a text.
func scalarFn(f *ssa.Function) bool {
	if f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || len(f.Params) == 0 || !isStringType(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, p := range f.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	return true
}

// mark notes that the current element of a list is made part of a text.
func (r *recRun) mark(st *State, t *Term, in ssa.Instruction) {
	for n := range r.lists {
		el := st.G["el:"+n]
		if el == nil || st.A["el:"+n] == "" || !mentions(t, el) {
			continue
		}
		delete(st.A, "el:"+n)
		delete(st.G, "el:"+n)
	}
}

func (r *recRun) used(e *Eng, st *State, c *Call) {
	if strings.HasPrefix(c.name, "strings.") && !inSet(c.name, "strings.Join", "strings.Replace") || c.name == "builtin.len" {
		return
	}
	for _, a := range c.args {
		a = unIface(a)
		if c.fn == nil || !r.cx.P.isRepo(c.fn) {
			a = unIface(e.snapshot(st, a))
			if a.op == "slicelit" {
				for _, x := range a.args {
					r.mark(st, unIface(x), c.in)
				}
			}
			r.mark(st, a, c.in)
		}
	}
}

func (r *recRun) skipped(st *State, in ssa.Instruction, n string) {
	if st.A["el:"+n] == "taken" {
		r.cx.ob(false, at(in), "no "+n+" entry is left out", "an element of %s is passed over without being written", n)
	}
}

func (r *recRun) field(st *State, n string) *Term { return st.G["0"+n] }

func (r *recRun) run() {
	done := func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		for n := range r.lists {
			r.skipped(st, in, n)
		}
		r.onDone(e, st, in, st.G["content"], st.G["name"])
	}
	r.R.OnReturn = done
	r.cx.analyse(r.fn, r.R, func(e *Eng, st *State) {
		for _, n := range recFields {
			v := r.cx.loadField(st, r.trans, r.transT, n)
			st.G["0"+n] = v
		}
		st.assume(mkEq(r.field(st, "rdns"), tNil, r.field(st, "rdns").typ), false)
		for _, n := range []string{"verified", "nofwd", "inconsist"} {
			st.G["0"+n] = r.cx.loadField(st, st.G["0rdns"], r.rdnsT, n)
		}
		for _, n := range []string{"rcptto", "verified", "nofwd", "inconsist"} {
			r.lists[n] = st.G["0"+n]
			st.G["last:"+n] = mkInt(-1)
		}
		if r.init != nil {
			r.init(e, st)
		}
	})
}

// recLine is one line of a text, without its newline. A repeated line is a star.
type recLine struct {
	parts []*Term
	star  bool
}

func (l recLine) String() string {
	s := ""
	for _, p := range l.parts {
		if c, ok := p.strVal(); ok {
			s += c
		} else {
			s += "{" + p.String() + "}"
		}
	}
	if l.star {
		s = "repeated " + s
	}
	return s
}

func (l recLine) lead() string {
	if len(l.parts) == 0 {
		return ""
	}
	s, _ := l.parts[0].strVal()
	return s
}

// word: the line starts with that word.
func (l recLine) word(w string) bool {
	s := l.lead()
	return s == w || strings.HasPrefix(s, w+" ")
}

func (l recLine) mentions(x *Term) bool {
	for _, p := range l.parts {
		if mentions(p, x) {
			return true
		}
	}
	return false
}

func endsNL(ps []*Term) bool {
	if len(ps) == 0 {
		return false
	}
	s, ok := ps[len(ps)-1].strVal()
	return ok && strings.HasSuffix(s, "\n")
}

// recLines splits a text into lines up to and including the line stop; what
// follows it is returned apart.
func recLines(t *Term, stop string) (ls []recLine, rest []*Term, found bool) {
	ps := flatText(t)
	var cur []*Term
	for i, p := range ps {
		if p.op == "star" && len(cur) == 0 && endsNL(p.args) {
			sub, _, _ := recLines(mkCat(p.args...), "")
			for _, l := range sub {
				l.star = true
				ls = append(ls, l)
			}
			continue
		}
		s, ok := p.strVal()
		if !ok {
			cur = append(cur, p)
			continue
		}
		for {
			j := strings.IndexByte(s, '\n')
			if j < 0 {
				break
			}
			if j > 0 {
				cur = append(cur, mkStr(s[:j]))
			}
			l := recLine{parts: cur}
			ls = append(ls, l)
			cur, s = nil, s[j+1:]
			if stop != "" && len(l.parts) == 1 && l.lead() == stop {
				if s != "" {
					rest = append(rest, mkStr(s))
				}
				return ls, append(rest, ps[i+1:]...), true
			}
		}
		if s != "" {
			cur = append(cur, mkStr(s))
		}
	}
	if len(cur) > 0 {
		ls = append(ls, recLine{parts: cur})
	}
	return ls, nil, false
}

// listText: the parts hold every element of the list.
func (r *recRun) listText(st *State, ps []*Term, n string) bool {
	list := r.lists[n]
	if st.isTrue(eq0(mkLen(list))) {
		return true
	}
	var all func(t *Term) bool
	all = func(t *Term) bool {
		t = st.norm(t)
		if t.op == "app" && t.aux == "strings.Join" && st.eqTo(t.args[0], list) {
			return true
		}
		if t.op == "star" {
			k := 0
			for _, p := range t.args {
				if p.op == "app" && p.aux == "elemOf" && st.eqTo(p.args[0], list) {
					k++
				} else if !p.isConst() {
					return false
				}
			}
			return k == 1 && exhausted(st, st.G["last:"+n], list)
		}
		return false
	}
	k := 0
	for _, p := range ps {
		if all(p) {
			k++
		} else if !st.norm(p).isConst() && p.op == "star" {
			return false
		}
	}
	return k == 1
}

type recCase struct {
	name string
	set  map[string]bool // text or list set, flags true
}

func (r *recRun) assumeCase(st *State, rc recCase) {
	for _, n := range []string{"rip", "servername", "peername"} {
		v := r.field(st, n)
		st.assume(eq0(mkLen(v)), !rc.set[n])
		st.assume(mkEq(v, mkStr(""), v.typ), !rc.set[n])
		if !rc.set[n] {
			a, t := r.cx.fieldAddr(r.trans, r.transT, n)
			st.store(a, mkStr(""), t, "start")
			st.G["0"+n] = mkStr("")
		}
	}
	for _, n := range []string{"verified", "nofwd", "inconsist"} {
		st.assume(eq0(mkLen(r.field(st, n))), !rc.set[n])
	}
	for _, n := range []string{"tlson", "tlsverified"} {
		a, t := r.cx.fieldAddr(r.trans, r.transT, n)
		st.store(a, mkBool(rc.set[n]), t, "start")
		st.G["0"+n] = mkBool(rc.set[n])
	}
}

func (rc recCase) String() string {
	var on []string
	for _, n := range []string{"rip", "verified", "nofwd", "inconsist", "tlson", "servername", "peername", "tlsverified"} {
		if rc.set[n] {
			on = append(on, n)
		}
	}
	return "set: " + strings.Join(on, ",")
}

func recCases(tlsDetails bool) []recCase {
	var out []recCase
	for m := 0; m < 1<<8; m++ {
		set := map[string]bool{}
		for i, n := range []string{"rip", "verified", "nofwd", "inconsist", "tlson", "servername", "peername", "tlsverified"} {
			set[n] = m&(1<<i) != 0
		}
		if !set["tlson"] && (set["servername"] || set["peername"] || set["tlsverified"]) {
			if !(set["servername"] && set["peername"] && set["tlsverified"]) {
				continue
			}
		}
		if !tlsDetails && (set["servername"] != set["peername"] || set["peername"] != set["tlsverified"] || set["verified"] != set["nofwd"] || set["nofwd"] != set["inconsist"]) {
			continue
		}
		out = append(out, recCase{set: set})
	}
	return out
}

func setHashtype(cx *Cx, st *State, v string) {
	a, t := cx.globalVar("hashtype")
	st.store(a, mkStr(v), t, "start")
}

func runC26(cx *Cx) {
	fn := saver(cx)
	for _, rc := range recCases(true) {
		rc := rc
		r := newRecRun(cx, fn)
		logFn := cx.P.fn("logMessage")
		old := r.R.Atomic
		r.R.Atomic = func(f *ssa.Function, name string) bool { return f == logFn || old(f, name) }
		r.init = func(e *Eng, st *State) {
			setHashtype(cx, st, "msg")
			sd := r.field(st, "savedir")
			st.assume(eq0(mkLen(sd)), false)
			st.assume(mkEq(sd, mkStr(""), sd.typ), false)
			r.assumeCase(st, rc)
		}
		r.onDone = func(e *Eng, st *State, in ssa.Instruction, content, name *Term) {
			if st.A["f"] == "exists" {
				cx.count("existing_files", 1)
				return
			}
			if st.A["f"] != "created" || content == nil {
				cx.ob(false, at(in), "the record is written", "no record is written to a new file (%s)", rc)
				return
			}
			cx.count("records_checked", 1)
			r.checkRecord(st, in, content, rc)
		}
		r.run()
	}
	cx.ob(cx.counts["records_checked"] >= 100, fn.Pos(), "analysis completes", "only %d records found", cx.counts["records_checked"])
	logLine(cx, true)
	recordCells(cx)
}

func (r *recRun) checkRecord(st *State, in ssa.Instruction, content *Term, rc recCase) {
	cx := r.cx
	f := func(n string) *Term { return r.field(st, n) }
	ls, rest, found := recLines(st.norm(content), "body")
	bad := func(rule, format string, a ...interface{}) {
		cx.violPath(at(in), rule, cx.path(st), "with %s: %s", rc, fmt.Sprintf(format, a...))
	}
	cx.obligations += 12
	if !found {
		bad("the message follows 'body'", "the record has no 'body' line before the message")
		return
	}
	if len(rest) != 1 || !st.eqTo(rest[0], f("data")) {
		bad("the message follows 'body'", "what follows the 'body' line is not exactly the message data")
	}
	i := 0
	next := func(rule, word string, ms ...string) (recLine, bool) {
		if i >= len(ls) || !ls[i].word(word) {
			got := "nothing"
			if i < len(ls) {
				got = ls[i].String()
			}
			bad(rule, "the record has no '%s' line where it belongs, but %s", word, got)
			return recLine{}, false
		}
		l := ls[i]
		i++
		for _, m := range ms {
			if !l.mentions(f(m)) {
				bad(rule, "the '%s' line does not give the %s: %s", word, m, l)
			}
		}
		return l, true
	}
	l, ok := next("the id line is complete", "id", "raddr", "when")
	if !ok {
		return
	}
	if !l.mentions(r.prefix) {
		bad("the id line is complete", "the id line does not give the session's id")
	}
	who := "rip"
	if !rc.set["rip"] {
		who = "raddr"
	}
	if l, ok = next("the remote line is complete", "remote", who, "laddr", "heloname"); !ok {
		return
	}
	for _, d := range []struct{ word, list string }{{"remote-dns", "verified"}, {"remote-dns-nofwd", "nofwd"}, {"remote-dns-inconsist", "inconsist"}} {
		if !rc.set[d.list] {
			continue
		}
		if l, ok = next("reverse DNS is recorded", d.word); !ok {
			return
		}
		if !r.listText(st, l.parts, d.list) {
			bad("reverse DNS is recorded", "the '%s' line does not give every name: %s", d.word, l)
		}
		cx.count("dns_lines", 1)
	}
	if rc.set["tlson"] {
		if l, ok = next("TLS is recorded", "tls", "cipher"); !ok {
			return
		}
		for _, n := range []string{"servername", "peername"} {
			if rc.set[n] && !l.mentions(f(n)) {
				bad("TLS is recorded", "the 'tls' line does not give the %s", n)
			}
		}
		cx.count("tls_lines", 1)
	}
	if l, ok = next("the envelope is recorded", "from", "from"); !ok {
		return
	}
	if !r.exactly(st, l, "from <", f("from"), ">") {
		bad("the envelope is recorded", "the 'from' line is %s", l)
	}
	if empty := st.isTrue(eq0(mkLen(f("rcptto")))); !empty || i < len(ls) && ls[i].word("to") {
		if l, ok = next("the envelope is recorded", "to"); !ok {
			return
		}
		r.checkTo(st, l, bad)
	}
	if l, ok = next("the hashes are recorded", "hash", "hash"); !ok {
		return
	}
	if !l.mentions(mkLen(f("data"))) {
		bad("the hashes are recorded", "the 'hash' line does not give the size of the message")
	}
	if l, ok = next("the hashes are recorded", "bodyhash", "bodyhash"); !ok {
		return
	}
	if _, ok = next("the message follows 'body'", "body"); !ok {
		return
	}
}

func (r *recRun) checkTo(st *State, l recLine, bad func(rule, format string, a ...interface{})) {
	f := func(n string) *Term { return r.field(st, n) }
	el := mk("app", "elemOf", 0, types.Typ[types.String], f("rcptto"))
	if !l.star || !r.exactly(st, l, "to <", el, ">") || !exhausted(st, st.G["last:rcptto"], f("rcptto")) {
		bad("the envelope is recorded", "the recipients are recorded as %s", l)
	}
}

func (r *recRun) exactly(st *State, l recLine, pre string, x *Term, post string) bool {
	if len(l.parts) != 3 {
		return false
	}
	a, _ := l.parts[0].strVal()
	b, _ := l.parts[2].strVal()
	return a == pre && b == post && st.eqTo(l.parts[1], x)
}

// logLine checks the message log's record: that it is written whole and carries
// the id, or, with full, all that it must say.
func logLine(cx *Cx, full bool) {
	fn := saver(cx)
	logf := paramOfType(fn, "io.Writer")
	if logf == nil {
		cx.fail("anchor", "%s has no message log parameter", fnName(fn))
	}
	for _, rc := range recCases(false) {
		rc := rc
		r := newRecRun(cx, fn)
		r.init = func(e *Eng, st *State) {
			// nothing is saved: only the log is of interest
			setHashtype(cx, st, "msg")
			a, t := cx.fieldAddr(r.trans, r.transT, "savedir")
			st.store(a, mkStr(""), t, "start")
			r.assumeCase(st, rc)
			st.assume(mkEq(logf, tNil, logf.typ), false)
		}
		ls := &logSet{cx: cx, logs: map[string]*Term{"message log": logf}, whole: full}
		ls.record = func(e *Eng, st *State, c *Call, _ string, t *Term) {
			if st.A["logged"] != "" && !full {
				cx.violPath(c.pos(), "one write per record", cx.path(st), "the message log record is written in more than one piece")
			}
			if st.A["logged"] != "" {
				t = mkCat(st.G["line"], t)
			}
			st.A["logged"] = "1"
			st.G["line"] = t
			cx.count("log_lines", 1)
		}
		call := r.R.OnCall
		r.R.OnCall = func(e *Eng, st *State, c *Call) bool {
			r.used(e, st, c)
			if ls.call(e, st, c) {
				return true
			}
			return call(e, st, c)
		}
		r.onDone = func(e *Eng, st *State, in ssa.Instruction, content, name *Term) {
			t := st.G["line"]
			if !full {
				ls.flushed(st, in, "the message has been handled")
			}
			if t == nil {
				if !full {
					return
				}
				cx.violPath(at(in), "a message is logged", cx.path(st), "no message log record is written")
				return
			}
			lines, _, _ := recLines(st.norm(t), "")
			cx.obligations += 10
			if len(lines) != 1 || !endsNL(flatText(st.norm(t))) {
				cx.violPath(at(in), "one line per message", cx.path(st), "the message log record is not one line: %v", lines)
				return
			}
			l := lines[0]
			if !full {
				if !l.mentions(r.prefix) {
					cx.violPath(at(in), "records carry the session's id", cx.path(st), "the message log line does not give the session's id: %s", l)
				}
				return
			}
			for _, n := range []string{"when", "raddr", "from", "hash", "bodyhash", "laddr", "heloname"} {
				if !l.mentions(r.field(st, n)) {
					cx.violPath(at(in), "the log line is complete", cx.path(st), "the message log line does not give the %s: %s", n, l)
				}
			}
			if !l.mentions(r.prefix) {
				cx.violPath(at(in), "the log line is complete", cx.path(st), "the message log line does not give the session's id: %s", l)
			}
			if !l.mentions(mkLen(r.field(st, "data"))) {
				cx.violPath(at(in), "the log line is complete", cx.path(st), "the message log line does not give the message's size: %s", l)
			}
			if !r.listText(st, l.parts, "rcptto") {
				cx.violPath(at(in), "the log line is complete", cx.path(st), "the message log line does not give every recipient: %s", l)
			}
		}
		r.run()
	}
	cx.ob(cx.counts["log_lines"] > 0, fn.Pos(), "analysis completes", "no message log line found")
}

// logWrite: the call writes to the given log; the text it writes. A flush of a
// buffer in front of the log writes what is in the buffer.
func logWrite(e *Eng, st *State, c *Call, log *Term) (*Term, bool) {
	if len(c.args) == 0 {
		return nil, false
	}
	switch c.name {
	case "(io.Writer).Write":
		if st.eqTo(unIface(c.args[0]), log) {
			return e.textOf(st, e.snapshot(st, c.args[1])), true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if st.eqTo(unIface(c.args[0]), log) {
			return e.writtenText(st, c), true
		}
	case "io.Copy", "(*bytes.Buffer).WriteTo":
		d, s := c.args[0], c.args[1]
		if c.name != "io.Copy" {
			d, s = s, d
		}
		if st.eqTo(unIface(d), log) {
			if w, ok := e.bufOf(st, s); ok {
				return st.heap[bufAddr(w)], true
			}
			return mk("app", "text?", 0, types.Typ[types.String]), true
		}
	case "(*bufio.Writer).Flush":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			if d := st.heap[dstAddr(w)]; d != nil && st.eqTo(unIface(d), log) {
				t := st.heap[bufAddr(w)]
				st.heap[bufAddr(w)] = mkStr("")
				return t, true
			}
		}
	}
	return nil, false
}

// isHash: t is the hexadecimal text of a hash; of what.
func isHash(st *State, t *Term) (*Term, bool) {
	t = st.norm(t)
	if t.op == "fmt" && inSet(t.aux, "%x", "%X") || t.op == "app" && t.aux == "encoding/hex.EncodeToString" {
		x := st.norm(unIface(t.args[0]))
		if x.op == "conv" {
			x = st.norm(x.args[0])
		}
		if x.op == "app" && hashKinds[x.aux] {
			return x.args[0], true
		}
	}
	return nil, false
}

var hashKinds = map[string]bool{"sha1": true, "sha256": true, "sha512": true, "md5": true}

// nameParts: directory and rest of a file name.
func nameParts(st *State, t *Term) (*Term, *Term) {
	t = st.norm(t)
	if t.op == "app" && inSet(t.aux, "path/filepath.Join", "path.Join") && len(t.args) == 1 && t.args[0].op == "slicelit" && len(t.args[0].args) == 2 {
		return t.args[0].args[0], t.args[0].args[1]
	}
	ps := flatText(t)
	if len(ps) == 3 {
		if s, ok := ps[1].strVal(); ok && strings.Trim(s, "/") == "" && s != "" {
			return ps[0], ps[2]
		}
	}
	return nil, nil
}

func sameText(st *State, a, b *Term) bool {
	pa, pb := flatText(st.norm(a)), flatText(st.norm(b))
	if len(pa) != len(pb) {
		return false
	}
	for i := range pa {
		if pa[i] != pb[i] && !st.eqTo(pa[i], pb[i]) {
			return false
		}
	}
	return true
}

// afterFirstLine is the text without its first line.
func afterFirstLine(t *Term) *Term {
	ps := flatText(t)
	for i, p := range ps {
		s, ok := p.strVal()
		if !ok {
			if p.op == "star" {
				return nil
			}
			continue
		}
		if j := strings.IndexByte(s, '\n'); j >= 0 {
			return mkCat(append([]*Term{mkStr(s[j+1:])}, ps[i+1:]...)...)
		}
	}
	return nil
}

func runC25(cx *Cx) {
	fn := saver(cx)
	for _, ht := range []string{"msg", "full", "all"} {
		for _, rc := range recCases(false) {
			ht, rc := ht, rc
			r := newRecRun(cx, fn)
			logFn := cx.P.fn("logMessage")
			old := r.R.Atomic
			r.R.Atomic = func(f *ssa.Function, name string) bool { return f == logFn || old(f, name) }
			r.init = func(e *Eng, st *State) {
				setHashtype(cx, st, ht)
				sd := r.field(st, "savedir")
				st.assume(eq0(mkLen(sd)), false)
				st.assume(mkEq(sd, mkStr(""), sd.typ), false)
				r.assumeCase(st, rc)
			}
			r.onDone = func(e *Eng, st *State, in ssa.Instruction, content, name *Term) {
				cx.obligations++
				if name == nil || st.A["f"] == "" {
					cx.ob(false, at(in), "the file is named after its hash", "with -save-hash=%s no file is created", ht)
					return
				}
				dir, base := nameParts(st, name)
				if dir == nil || !st.eqTo(dir, r.field(st, "savedir")) {
					cx.violPath(at(in), "the file is named after its hash", cx.path(st), "with -save-hash=%s the file is not named by a hash in the save directory: %v", ht, st.norm(name))
					return
				}
				if ht == "msg" {
					if !st.eqTo(base, r.field(st, "hash")) {
						cx.violPath(at(in), "msg: the message's hash", cx.path(st), "with -save-hash=msg the name is %v, not the message's hash", st.norm(base))
					}
					cx.count("names_msg", 1)
					return
				}
				of, ok := isHash(st, base)
				if !ok {
					cx.violPath(at(in), ht+": a hash of the record", cx.path(st), "with -save-hash=%s the name is %v, not a hash in full", ht, st.norm(base))
					return
				}
				if content == nil {
					cx.count("existing_files", 1)
					return // the record is not written; same code path names it
				}
				want := content
				if ht == "full" {
					want = afterFirstLine(st.norm(content))
				}
				for _, x := range []struct {
					what string
					t    *Term
				}{{"the connection's id", r.prefix}, {"the time", r.field(st, "when")}, {"the client's port", r.field(st, "raddr")}} {
					if ht == "full" && mentions(of, x.t) && !(x.what == "the client's port" && !rc.set["rip"]) {
						cx.violPath(at(in), "full: only what stays the same counts", cx.path(st), "with -save-hash=full the name depends on %s", x.what)
					}
				}
				if want == nil || !sameText(st, want, of) {
					cx.violPath(at(in), ht+": a hash of the record", cx.path(st), "with -save-hash=%s the name is the hash of something else than the record%s", ht, map[string]string{"full": " without its id line"}[ht])
				}
				cx.count("names_"+ht, 1)
			}
			r.run()
		}
	}
	cx.ob(cx.counts["names_msg"] > 0 && cx.counts["names_full"] > 0 && cx.counts["names_all"] > 0, fn.Pos(), "analysis completes", "too few paths: %v", cx.counts)
	hashCells(cx)
}

// hashCells: what the hash and body hash cells hold when a message is saved.
func hashCells(cx *Cx) {
	s := newSess(cx)
	fn := saver(cx)
	s.only("smtpTransaction.data", "smtpTransaction.hash", "smtpTransaction.bodyhash")
	delete(s.atomics, "getHashes")
	s.watch(fn)
	s.interesting = func(n string) bool {
		return strings.HasPrefix(n, "crypto/") || inSet(n, "net/mail.ReadMessage", "io.ReadAll", "io/ioutil.ReadAll", "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer")
	}
	mt := cx.P.imported("net/mail", "Message")
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		for _, k := range []string{"mail", "body"} {
			delete(st.A, k)
			delete(st.G, k)
		}
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		switch {
		case c.fn == fn:
			if st.A["ev"] != "GOTDATA" {
				return false
			}
			cx.count("saves_seen", 1)
			data, hash, bh := s.field(st, "data"), s.field(st, "hash"), s.field(st, "bodyhash")
			cx.obligations += 3
			arg := s.evArg(st)
			if !st.eqTo(data, arg) {
				cx.violPath(c.pos(), "the data is the client's", cx.path(st), "the data cell holds %v, not what the client sent", data)
			}
			if of, ok := isHash(st, hash); !ok || !sameText(st, of, arg) {
				cx.violPath(c.pos(), "the hash is of the data", cx.path(st), "the hash cell holds %v, not a hash of the data", st.norm(hash))
			}
			switch {
			case st.A["mail"] == "ok" && st.A["body"] == "ok":
				if of, ok := isHash(st, bh); !ok || !sameText(st, of, st.G["body"]) {
					cx.violPath(c.pos(), "the body hash is of the body", cx.path(st), "the body hash cell holds %v, not a hash of the body alone", st.norm(bh))
				}
				cx.count("body_hashes", 1)
			case !st.norm(bh).isConst():
				cx.violPath(c.pos(), "the body hash is of the body", cx.path(st), "the body hash of an unparseable message is %v", st.norm(bh))
			}
			return false
		case c.name == "net/mail.ReadMessage":
			src := unIface(c.args[0])
			if !(src.op == "app" && inSet(src.aux, "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer") && sameText(st, asText(src.args[0]), s.evArg(st))) {
				cx.violPath(c.pos(), "the body hash is of the body", cx.path(st), "what is parsed for its body is %v, not the data", src)
			}
			c.forks = append(c.forks, func(x *State) []*Term {
				m := e.allocAt(x, c.in, mt, "mail")
				b := e.fresh(x, c.in, ".body", types.NewInterfaceType(nil, nil))
				x.redefine(b)
				x.A["mail"] = "ok"
				x.G["mail"] = b
				a, t := structFieldAddr(m, mt, "Body")
				x.store(a, b, t, "mail")
				return []*Term{m, tNil}
			}, func(x *State) []*Term {
				er := e.fresh(x, c.in, ".err", c.sig.Results().At(1).Type())
				x.assume(mkEq(er, tNil, er.typ), false)
				x.A["mail"] = "bad"
				return []*Term{tNil, er}
			})
			return true
		case inSet(c.name, "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer"):
			c.ret = []*Term{mk("app", c.name, 0, c.sig.Results().At(0).Type(), e.textOf(st, e.snapshot(st, c.args[0])))}
			return true
		case inSet(c.name, "io.ReadAll", "io/ioutil.ReadAll"):
			if st.G["mail"] == nil || !st.eqTo(unIface(c.args[0]), st.G["mail"]) {
				return false
			}
			c.forks = append(c.forks, func(x *State) []*Term {
				b := e.fresh(x, c.in, ".text", c.sig.Results().At(0).Type())
				x.redefine(b)
				x.A["body"] = "ok"
				x.G["body"] = b
				return []*Term{b, tNil}
			}, func(x *State) []*Term {
				er := e.fresh(x, c.in, ".err", c.sig.Results().At(1).Type())
				x.assume(mkEq(er, tNil, er.typ), false)
				x.A["body"] = "bad"
				return []*Term{nil, er}
			})
			return true
		}
		return false
	}
	s.run()
	cx.ob(cx.counts["saves_seen"] > 0 && cx.counts["body_hashes"] > 0, fn.Pos(), "analysis completes", "too few paths: %v", cx.counts)
}

func structFieldAddr(base *Term, t types.Type, field string) (*Term, types.Type) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			return mkFaddr(base, t, i), u.Field(i).Type()
		}
	}
	return nil, nil
}

// recordCells: what the other cells hold when a message is saved.
func recordCells(cx *Cx) {
	s := newSess(cx)
	fn := saver(cx)
	keep := []string{"data", "raddr", "laddr", "when", "tlson", "cipher", "rip"}
	var fs []string
	for _, k := range keep {
		fs = append(fs, "smtpTransaction."+k)
	}
	fs = append(fs, "smtpd.Conn.TLSOn", "tls.ConnectionState.CipherSuite")
	s.only(fs...)
	s.watch(fn)
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) { delete(st.A, "when") }
	s.rule.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op == "faddr" && strings.HasPrefix(addr.aux, typeStr(s.transT)+".when") || mentionsField(addr, typeStr(s.transT)+".when") {
			st.A["when"] = "1"
		}
	}
	connT := cx.P.lookupType(smtpdPath, "Conn")
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		switch {
		case c.name == "(*smtpd.Conn).Next":
			st.G["convo"] = c.args[0]
		case c.fn == fn && st.A["ev"] == "GOTDATA":
			cx.count("saves_seen", 1)
			cx.obligations += 6
			if !st.eqTo(s.field(st, "data"), s.evArg(st)) {
				cx.violPath(c.pos(), "the message is recorded verbatim", cx.path(st), "the data cell holds %v, not what the client sent", s.field(st, "data"))
			}
			nc := paramOfType(s.proc, "net.Conn")
			at := c.sig.Params()
			_ = at
			for _, x := range []struct{ f, m string }{{"raddr", "(net.Conn).RemoteAddr"}, {"laddr", "(net.Conn).LocalAddr"}} {
				v := st.norm(s.field(st, x.f))
				if !(v.op == "app" && v.aux == x.m && st.eqTo(v.args[0], nc)) {
					cx.violPath(c.pos(), "the connection's addresses are recorded", cx.path(st), "%s holds %v", x.f, v)
				}
			}
			if st.A["when"] == "" {
				cx.violPath(c.pos(), "the time is the message's", cx.path(st), "the time recorded is not set for this message")
			}
			if convo := st.G["convo"]; convo != nil && connT != nil {
				a, t := structFieldAddr(convo, connT, "TLSOn")
				if on := st.load(a, t); !st.eqTo(s.field(st, "tlson"), on) {
					cx.violPath(c.pos(), "TLS is recorded as it is", cx.path(st), "tlson holds %v, not whether the connection uses TLS", s.field(st, "tlson"))
				}
				a, t = structFieldAddr(convo, connT, "TLSState")
				a, t = structFieldAddr(a, t, "CipherSuite")
				if cs := st.load(a, t); !st.eqTo(s.field(st, "cipher"), cs) {
					cx.violPath(c.pos(), "TLS is recorded as it is", cx.path(st), "cipher holds %v, not the connection's cipher", s.field(st, "cipher"))
				}
			}
			p := paramOfTypeArg(fn, c, "string")
			cid := paramOfType(s.proc, "int")
			if p == nil || !mentions(st.norm(p), cid) || !strings.Contains(st.norm(p).String(), "os.Getpid") {
				cx.violPath(c.pos(), "the id is the session's", cx.path(st), "the id given to the saving function is %v", p)
			}
		}
		return false
	}
	s.run()
	cx.ob(cx.counts["saves_seen"] > 0, fn.Pos(), "analysis completes", "no path saves a message")
}

func mentionsField(a *Term, name string) bool {
	for a != nil && (a.op == "faddr" || a.op == "iaddr") {
		if a.op == "faddr" && a.aux == name {
			return true
		}
		a = a.args[0]
	}
	return false
}
