package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The session model: process() is analysed with the SMTP library's Next() as
// the source of an arbitrary sequence of events, each kind of event in its own
// abstract state, and the rules engine's Decide() as an oracle that may give
// any of its four results.

type sess struct {
	cx      *Cx
	proc    *ssa.Function
	decide  *ssa.Function
	evtT    types.Type
	transT  types.Type
	ctxT    types.Type
	connT   types.Type
	phases  map[string]int64 // step -> expected phase
	rule    *Rule
	atomics map[string]bool
	watched map[string]bool

	onStart  func(e *Eng, st *State, ev string, arg *Term)
	onEnd    func(e *Eng, st *State, in ssa.Instruction, how string) // how: next|return
	onDecide func(e *Eng, st *State, c *Call, res string)
	// props: alternative contents of the with options after a decision; nil
	// stands for nothing known. An empty value means the option is not set.
	props       []map[string]string
	onReply     func(e *Eng, st *State, c *Call, code string)
	onCall      func(e *Eng, st *State, c *Call) bool
	onReturn    func(e *Eng, st *State, in ssa.Instruction)
	onFile      func(e *Eng, st *State, c *Call, op string, ok bool)
	interesting func(name string) bool
	// keep: with it set, what is known of other fields of the session's records
	// is forgotten at each event.
	keep  map[string]bool
	files bool // fork file operations into success and failure
}

var sessAtomics = []string{"setupRules", "LookupAddrVerified", "loadConnFile", "getSBLHits", "ipMap.Add", "ipMap.Lookup", "ipMap.Set", "ipMap.Del", "ipMap.Stats", "dnsblCounts.Add", "dnsblCounts.Stats", "updateTimeOf", "loadCerts", "loadRules", "Parse", "destMap.find", "warnonce", "warnf", "tlsName", "tlsTryVerifyConnection", "tlsClientLog", "getHashes"}

var decideResults = map[string]string{"aNoresult": "none", "aAccept": "accept", "aStall": "stall", "aReject": "reject"}

var resultNames = []string{"aNoresult", "aAccept", "aStall", "aReject"}

// setProp sets one with option of the context given to Decide().
func (s *sess) setProp(x *State, c *Call, key, val string) {
	ctx := paramOfTypeArg(s.decide, c, "*Context")
	a, t := s.cx.fieldAddr(ctx, s.ctxT, "withprops")
	m := x.load(a, t)
	v := mkStr(val)
	if val == "*" { // some text
		v = mkSym("prop:"+key, types.Typ[types.String])
		x.redefine(v)
		x.assume(mkEq(v, mkStr(""), v.typ), false)
	}
	if val == "set" { // the option without an argument
		v = mkStr("")
	}
	x.G["prop"] = v
	k := x.norm(mkStr(key))
	x.heap[melemAddr(m, k, t)] = v
	x.heap[mokAddr(m, k, t)] = mkBool(val != "")
}

func newSess(cx *Cx) *sess {
	s := &sess{cx: cx, atomics: map[string]bool{}, watched: map[string]bool{}}
	s.proc = cx.anchor("process", "(int,net.Conn,[]tls.Certificate,io.Writer,io.Writer,io.Writer,[]*Rule)()")
	s.decide = cx.anchor("Decide", "(Phase,smtpd.EventInfo,*Context)(Action)")
	s.transT = cx.namedType("smtpTransaction")
	s.ctxT = cx.namedType("Context")
	s.phases = map[string]int64{}
	for k, v := range map[string]string{"CONNECT": "pConnect", "HELO": "pHelo", "EHLO": "pHelo", "MAILFROM": "pMfrom", "RCPTTO": "pRto", "DATA": "pData", "GOTDATA": "pMessage"} {
		s.phases[k] = cx.constOf(v)
	}
	for _, a := range sessAtomics {
		s.atomics[a] = true
	}
	s.rule = &Rule{Name: cx.id}
	s.rule.Atomic = func(fn *ssa.Function, name string) bool { return s.atomics[name] }
	s.rule.OnCall = s.call
	s.rule.InterestingMod = func(cat string) bool {
		tp, cp := "F:"+typeStr(s.transT)+".", "F:"+typeStr(s.ctxT)+"."
		switch {
		case strings.HasPrefix(cat, tp):
			return cat != tp+"lastmsg" && cat != tp+"lastamsg"
		case strings.HasPrefix(cat, cp):
			return true
		case strings.HasPrefix(cat, "F:smtpd."), strings.HasPrefix(cat, "F:tls.Config."):
			return true
		}
		return false
	}
	s.rule.Interesting = func(name string) bool {
		if name == "(*smtpd.Conn).Next" || replyCode(name) != "" || name == fnName(s.decide) {
			return true
		}
		if s.files && fileOps[name] || s.watched[name] {
			return true
		}
		return s.interesting != nil && s.interesting(name)
	}
	s.rule.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		if s.onEnd != nil {
			s.onEnd(e, st, in, "return")
		}
		if s.onReturn != nil {
			s.onReturn(e, st, in)
		}
	}
	return s
}

// only limits the analysis to what is known of the given fields.
func (s *sess) only(fields ...string) {
	s.keep = map[string]bool{}
	for _, f := range fields {
		s.keep[f] = true
	}
	s.rule.InterestingMod = func(cat string) bool {
		return strings.HasPrefix(cat, "F:") && s.keep[cat[2:]]
	}
	s.atomics["smtpLogger.Write"] = true
}

func (s *sess) run() *Eng {
	return s.cx.analyse(s.proc, s.rule, func(e *Eng, st *State) {
		st.A["ev"] = "CONNECT"
		if s.onStart != nil {
			s.onStart(e, st, "CONNECT", nil)
		}
	})
}

// watch makes calls of f an event of its own.
func (s *sess) watch(fs ...*ssa.Function) {
	for _, f := range fs {
		s.atomics[fnName(f)], s.watched[fnName(f)] = true, true
	}
}

func replyCode(name string) string {
	switch name {
	case "(*smtpd.Conn).Accept", "(*smtpd.Conn).AcceptMsg", "(*smtpd.Conn).AcceptData":
		return "2"
	case "(*smtpd.Conn).Tempfail", "(*smtpd.Conn).TempfailMsg":
		return "4"
	case "(*smtpd.Conn).Reject", "(*smtpd.Conn).RejectMsg", "(*smtpd.Conn).RejectData":
		return "5"
	}
	return ""
}

func (s *sess) call(e *Eng, st *State, c *Call) bool {
	if _, ok := st.G["trans"]; !ok {
		if t := s.trans(st); t != nil {
			st.G["trans"] = t // keeps the record's contents known to the end
		}
	}
	if s.onCall != nil && s.onCall(e, st, c) {
		return true
	}
	if code := replyCode(c.name); code != "" {
		st.note(fmt.Sprintf("%s: reply %sxx by %s", s.cx.P.pos(c.pos()), code, c.name))
		if s.onReply != nil {
			s.onReply(e, st, c, code)
		}
		if st.A["rep"] == "" {
			st.A["rep"] = code
		}
		return true
	}
	switch c.name {
	case "(*smtpd.Conn).Next":
		if s.onEnd != nil {
			s.onEnd(e, st, c.in, "next")
		}
		s.next(e, st, c)
		return true
	}
	if c.fn == s.decide {
		s.decideCall(e, st, c)
		return true
	}
	if s.files {
		return s.fileCall(e, st, c)
	}
	return false
}

// next forks into the kinds of event.
func (s *sess) next(e *Eng, st *State, c *Call) {
	tag := e.fresh(st, c.in, ".mem", nil)
	for _, cat := range []string{"F:smtpd.Conn.TLSOn", "F:smtpd.Conn.TLSError"} {
		st.havocCat(cat, tag)
	}
	for a := range st.heap {
		if strings.HasPrefix(addrCat(a), "F:tls.ConnectionState.") {
			delete(st.heap, a)
		}
	}
	cs := e.P.lookupType("crypto/tls", "ConnectionState")
	if cs != nil {
		if u, ok := cs.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				st.epochs["F:tls.ConnectionState."+u.Field(i).Name()] = tag
			}
		}
	}
	if s.keep != nil {
		seen := map[string]bool{}
		for a := range st.heap {
			cat := addrCat(a)
			for _, p := range []string{"smtpTransaction.", "Context.", "rDNSResults.", "smtpd.Config.", "smtpd.Conn.", "tls.Config."} {
				if strings.HasPrefix(cat, "F:"+p) && !s.keep[cat[len("F:"):]] {
					seen[cat] = true
				}
			}
		}
		for cat := range seen {
			st.havocCat(cat, tag)
		}
	}
	evT := c.sig.Results().At(0).Type()
	k := func(n string) *Term { return mkInt(s.cx.smtpdConst(n)) }
	mkEv := func(what, cmd *Term, name string) func(*State) []*Term {
		return func(x *State) []*Term {
			arg := e.fresh(x, c.in, ".Arg", types.Typ[types.String])
			if cmd == nil {
				cmd = e.fresh(x, c.in, ".Cmd", types.Typ[types.Int])
			}
			x.A["ev"] = name
			delete(x.A, "dec")
			delete(x.A, "rep")
			x.note(fmt.Sprintf("%s: event %s", s.cx.P.pos(c.pos()), name))
			x.G["arg"] = arg
			if s.onStart != nil {
				s.onStart(e, x, name, arg)
			}
			return []*Term{mkStruct(evT, []*Term{what, cmd, arg})}
		}
	}
	for _, n := range []string{"HELO", "EHLO", "MAILFROM", "RCPTTO", "DATA"} {
		c.forks = append(c.forks, mkEv(k("COMMAND"), k(n), n))
	}
	c.forks = append(c.forks, mkEv(k("COMMAND"), k("AUTH"), "OTHERCMD"))
	for _, n := range []string{"GOTDATA", "TLSERROR", "DONE", "ABORT"} {
		c.forks = append(c.forks, mkEv(k(n), mkInt(0), n))
	}
	c.forks = append(c.forks, mkEv(k("AUTHABORT"), mkInt(0), "OTHEREVENT"))
}

func (P *Prog) lookupType(path, name string) types.Type {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (s *sess) decideCall(e *Eng, st *State, c *Call) {
	for _, a := range c.args {
		st.escape(a)
	}
	e.havocCall(st, c)
	props := s.props
	if len(props) == 0 {
		props = []map[string]string{nil}
	}
	for i := 0; i < len(decideResults)*len(props); i++ {
		name, pr := resultNames[i%len(decideResults)], props[i/len(decideResults)]
		v, res := mkInt(s.cx.constOf(name)), decideResults[name]
		c.forks = append(c.forks, func(x *State) []*Term {
			for _, k := range sortedKeys(pr) {
				s.setProp(x, c, k, pr[k])
			}
			x.note(fmt.Sprintf("%s: the rules decide %q", s.cx.P.pos(c.pos()), res))
			if s.onDecide != nil {
				s.onDecide(e, x, c, res)
			}
			x.A["dec"] = res
			return []*Term{v}
		})
	}
}

var fileOps = map[string]bool{"os.OpenFile": true, "os.Create": true, "os.CreateTemp": true, "(*os.File).Write": true, "(*os.File).WriteString": true, "os.WriteFile": true, "(*os.File).Sync": true, "(*os.File).Close": true, "os.Remove": true, "os.Rename": true, "os.Link": true, "os.Symlink": true,
	"bufio.NewWriter": true, "bufio.NewWriterSize": true, "(*bufio.Writer).Write": true, "(*bufio.Writer).WriteString": true, "(*bufio.Writer).Flush": true, "io.WriteString": true}

// fileCall forks the operations on files into success and failure.
func (s *sess) fileCall(e *Eng, st *State, c *Call) bool {
	alt := func(op string, n int, ok bool, pre func(x *State, err *Term), ret0 func(x *State) *Term) {
		c.forks = append(c.forks, func(x *State) []*Term {
			vals := make([]*Term, n)
			if ok {
				vals[n-1] = tNil
			} else {
				et := c.sig.Results().At(n - 1).Type()
				er := e.fresh(x, c.in, ".err", et)
				x.assume(mkEq(er, tNil, et), false)
				vals[n-1] = er
				if pre != nil {
					pre(x, er)
				}
			}
			if ret0 != nil {
				vals[0] = ret0(x)
			}
			w := "succeeds"
			if !ok {
				w = "fails"
			}
			x.note(fmt.Sprintf("%s: %s %s", s.cx.P.pos(c.pos()), c.name, w))
			d := *c
			d.ret = vals
			if s.onFile != nil {
				s.onFile(e, x, &d, op, ok)
			}
			return vals
		})
	}
	file := func(x *State) *Term {
		f := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
		x.assume(mkEq(f, tNil, f.typ), false)
		return f
	}
	exist := func(v bool) func(x *State, er *Term) {
		return func(x *State, er *Term) {
			for _, nm := range []string{"os.IsExist"} {
				x.assume(mk("app", nm, 0, types.Typ[types.Bool], er), v)
			}
			if g := e.P.lookupVar("os", "ErrExist"); g != nil {
				ld := x.load(g, derefType(g.typ))
				x.assume(mk("app", "errors.Is", 0, types.Typ[types.Bool], er, ld), v)
			}
		}
	}
	isFile := func(t *Term) bool { return t != nil && t.typ != nil && typeStr(t.typ) == "*os.File" }
	switch c.name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if f := unIface(c.args[0]); isFile(f) {
			c.args = append([]*Term{f}, c.args[1:]...)
			alt("write", 2, true, nil, nil)
			alt("write", 2, false, nil, nil)
			return true
		}
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Flush":
		// a buffer in front of the file: what it holds is written by Flush
		// at the latest, and after a failure every call fails
		w, ok := e.bufOf(st, c.args[0])
		if !ok || st.heap[dstAddr(w)] == nil {
			break
		}
		f := unIface(st.heap[dstAddr(w)])
		if !isFile(f) {
			break
		}
		c.args = append([]*Term{f}, c.args[1:]...)
		n, op := 2, "buffer"
		if c.name == "(*bufio.Writer).Flush" {
			n, op = 1, "write"
		}
		bad := mk("ghost", "bad", 0, nil, w)
		if st.heap[bad] != tTrue {
			alt(op, n, true, nil, nil)
		}
		alt("write", n, false, func(x *State, er *Term) { x.heap[bad] = tTrue }, nil)
		return true
	case "os.OpenFile", "os.Create", "os.CreateTemp":
		alt("open", 2, true, nil, file)
		alt("open-exists", 2, false, exist(true), func(*State) *Term { return tNil })
		alt("open", 2, false, exist(false), func(*State) *Term { return tNil })
		return true
	case "(*os.File).Write", "(*os.File).WriteString":
		alt("write", 2, true, nil, nil)
		alt("write", 2, false, nil, nil)
		return true
	case "os.WriteFile":
		alt("writefile", 1, true, nil, nil)
		alt("writefile", 1, false, nil, nil)
		return true
	case "(*os.File).Sync":
		alt("sync", 1, true, nil, nil)
		alt("sync", 1, false, nil, nil)
		return true
	case "(*os.File).Close":
		alt("close", 1, true, nil, nil)
		alt("close", 1, false, nil, nil)
		return true
	case "os.Remove":
		alt("remove", 1, true, nil, nil)
		alt("remove", 1, false, nil, nil)
		return true
	case "os.Rename", "os.Link", "os.Symlink":
		alt(strings.ToLower(c.name[3:]), 1, true, nil, nil)
		alt(strings.ToLower(c.name[3:]), 1, false, nil, nil)
		return true
	}
	return false
}

func (P *Prog) lookupVar(path, name string) *Term {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return globalTerm(g)
			}
		}
	}
	return nil
}

// trans is the session's transaction record.
func (s *sess) trans(st *State) *Term {
	if t, ok := st.G["trans"]; ok {
		return t
	}
	var best *Term
	for a := range st.heap {
		if a.op == "faddr" && strings.HasPrefix(a.aux, typeStr(s.transT)+".") {
			r := a.args[0]
			if r.op == "alloc" && !r.summ && (best == nil || r.id < best.id) {
				best = r
			}
		}
	}
	return best
}

// field reads a field of the session's transaction record.
func (s *sess) field(st *State, name string) *Term {
	t := s.trans(st)
	if t == nil {
		s.cx.fail("anchor", "the session's transaction record was not found")
	}
	return s.cx.loadField(st, t, s.transT, name)
}

// evArg is the argument of the event of the current step.
func (s *sess) evArg(st *State) *Term { return st.G["arg"] }
