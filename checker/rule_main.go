package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C23", run: runC23,
		rule:   "Dataflow over main() with everything it calls inlined, the values of the options and the outcomes of opening, creating and loading files as forks, once per unsafe configuration: under each, no call that opens a port (directly or in a goroutine) is reachable, and the program ends through an exit with a non-zero status. One more run over all configurations: ports are opened, and only with the phase and rule file settings the options name. The function that loads certificates is analysed as in C24: an error unless every certificate loads with its key.",
		assume: []string{"the flag package assigns the options at flag.Parse()", "setupRules() and loadConnFile() report failures, as decided by C10 and C24"}})
	register(&property{id: "C30", run: runC30,
		rule:   "Dataflow over main() with everything it calls inlined and a text model of the buffer the rules are written to, once per combination of -nostdrules, -M, -fromreject, -toaccept and -heloreject: the text parsed into the rules given to setupRules() at startup and to each connection has exactly the lines the property names, the standard rules first. That the rule files come after them is decided for setupRules() by an append analysis (as in C10).",
		assume: []string{"the flag package assigns the options at flag.Parse()"}})
}

// mainCfg is what is assumed about the options: a value for a flag ("*" for
// some text), and what always fails.
type mainCfg struct {
	name   string
	vals   map[string]interface{}
	assume func(st *State, val func(string) *Term)
	fails  string // certs, log:<flag>, dir, conn, rules, base
}

type mainRun struct {
	cx       *Cx
	main     *ssa.Function
	R        *Rule
	flagT    map[string]types.Type
	onListen func(e *Eng, st *State, c *Call)
	onExit   func(e *Eng, st *State, c *Call)
	onSetup  func(e *Eng, st *State, c *Call)
	onServe  func(e *Eng, st *State, c *Call)
	onOpen   func(e *Eng, st *State, c *Call, what string)
}

func opensPort(name string) bool {
	switch name {
	case "net.Listen", "net.ListenTCP", "net.ListenUnix", "crypto/tls.Listen", "(*net.ListenConfig).Listen", "net/http.ListenAndServe", "net/http.ListenAndServeTLS", "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS", "(*http.Server).ListenAndServe", "(*http.Server).ListenAndServeTLS", "(*smtpd.Server).ListenAndServe":
		return true
	}
	return false
}

// portFns: the functions that may open a port.
func (cx *Cx) portFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	ext := func(g *ssa.Function) string { return (&Eng{P: cx.P}).callName(g) }
	for again := true; again; {
		again = false
		for _, f := range cx.P.funcs {
			if out[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil && (opensPort(ext(g)) || out[g]) {
						out[f], again = true, true
					}
				}
			}
		}
	}
	return out
}

func newMainRun(cx *Cx, cfg mainCfg) *mainRun {
	m := &mainRun{cx: cx, R: &Rule{Name: cx.id}, flagT: map[string]types.Type{}}
	m.main = cx.anchor("main", "")
	setup := cx.anchor("setupRules", "([]*Rule)([]*Rule,bool)")
	conn := cx.anchor("loadConnFile", "(string)(*destMap,error)")
	certs := cx.anchor("loadCerts", "(string,string)([]tls.Certificate,error)")
	parse := cx.anchor("Parse", "(string)([]*Rule,error)")
	proc := cx.anchor("process", "(int,net.Conn,[]tls.Certificate,io.Writer,io.Writer,io.Writer,[]*Rule)()")
	ports := cx.portFns()
	sym := func(n string) *Term { return mkSym("option:"+n, m.flagT[n]) }
	m.R.Atomic = func(fn *ssa.Function, name string) bool {
		return fn == setup || fn == conn || fn == certs || fn == parse || name == "updateTimeOf" || name == "setupExpvars" || name == "usage"
	}
	errOf := func(e *Eng, x *State, c *Call, i int) *Term {
		er := e.fresh(x, c.in, ".err", c.sig.Results().At(i).Type())
		x.assume(mkEq(er, tNil, er.typ), false)
		return er
	}
	// outcome forks an operation into success and failure.
	outcome := func(e *Eng, c *Call, what string, only bool, ok func(x *State) []*Term, bad func(x *State) []*Term) bool {
		if !only {
			c.forks = append(c.forks, func(x *State) []*Term {
				x.note(fmt.Sprintf("%s: %s succeeds", cx.P.pos(c.pos()), c.name))
				return ok(x)
			})
		}
		c.forks = append(c.forks, func(x *State) []*Term {
			x.note(fmt.Sprintf("%s: %s fails", cx.P.pos(c.pos()), c.name))
			x.A["failed"] = what
			return bad(x)
		})
		return true
	}
	m.R.OnCall = func(e *Eng, st *State, c *Call) bool {
		if opensPort(c.name) {
			st.note(fmt.Sprintf("%s: %s", cx.P.pos(c.pos()), c.name))
			if m.onListen != nil {
				m.onListen(e, st, c)
			}
			return false
		}
		switch c.name {
		case "flag.BoolVar", "flag.StringVar", "flag.IntVar", "flag.DurationVar":
			n, ok := st.norm(c.args[1]).strVal()
			cx.ob(ok, c.pos(), "analysis completes", "an option without a constant name")
			m.flagT[n] = derefType(c.args[0].typ)
			if m.flagT[n] == nil {
				m.flagT[n] = derefType(c.sig.Params().At(0).Type())
			}
			st.G["flag:"+n] = c.args[0]
			st.store(c.args[0], c.args[2], m.flagT[n], "flag")
			c.ret = []*Term{}
			return true
		case "flag.Bool", "flag.String", "flag.Int", "flag.Duration":
			n, ok := st.norm(c.args[0]).strVal()
			cx.ob(ok, c.pos(), "analysis completes", "an option without a constant name")
			pt := c.sig.Results().At(0).Type()
			m.flagT[n] = derefType(pt)
			p := mkSym("optptr:"+n, pt)
			st.assume(mkEq(p, tNil, pt), false)
			st.G["flag:"+n] = p
			st.store(p, c.args[1], m.flagT[n], "flag")
			c.ret = []*Term{p}
			return true
		case "flag.Parse":
			for n, t := range m.flagT {
				var v *Term
				switch w := cfg.vals[n].(type) {
				case nil:
					v = sym(n)
				case bool:
					v = mkBool(w)
				case string:
					v = mkStr(w)
					if w == "*" {
						v = sym(n)
						st.assume(mkEq(v, mkStr(""), t), false)
						st.assume(mkEq(v, mkStr("-"), t), false)
					}
				case int:
					v = mkIntT(int64(w), t)
				}
				st.G["opt:"+n] = v
				st.store(st.G["flag:"+n], v, t, "flag.Parse")
			}
			na := mk("app", "flag.NArg", 0, types.Typ[types.Int])
			st.assume(mkLt(mkInt(0), na, types.Typ[types.Int]), true)
			if cfg.assume != nil {
				cfg.assume(st, func(n string) *Term {
					v := st.G["opt:"+n]
					if v == nil {
						cx.fail("anchor", "the program has no option -%s", n)
					}
					return v
				})
			}
			c.ret = []*Term{}
			return true
		case "os.Exit":
			if m.onExit != nil {
				m.onExit(e, st, c)
			}
			return false
		case "os.OpenFile", "os.Create", "os.Open", "os.CreateTemp":
			p := st.norm(c.args[0])
			what := "file"
			for _, f := range []string{"smtplog", "l", "dnlog"} {
				if v := st.G["opt:"+f]; v != nil && !v.isConst() && st.eqTo(p, v) {
					what = "log:" + f
				}
			}
			if m.onOpen != nil {
				m.onOpen(e, st, c, what)
			}
			if v := st.G["opt:d"]; v != nil && what == "file" && !v.isConst() && st.eqTo(flatText(p)[0], v) {
				what = "dir"
			}
			return outcome(e, c, what, cfg.fails == what && what != "file", func(x *State) []*Term {
				f := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
				x.assume(mkEq(f, tNil, f.typ), false)
				return []*Term{f, tNil}
			}, func(x *State) []*Term { return []*Term{tNil, errOf(e, x, c, 1)} })
		}
		switch c.fn {
		case nil:
		case certs:
			return outcome(e, c, "certs", cfg.fails == "certs", func(x *State) []*Term {
				l := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
				return []*Term{l, tNil}
			}, func(x *State) []*Term { return []*Term{tNil, errOf(e, x, c, 1)} })
		case conn:
			return outcome(e, c, "conn", cfg.fails == "conn", func(x *State) []*Term {
				l := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
				return []*Term{l, tNil}
			}, func(x *State) []*Term { return []*Term{tNil, errOf(e, x, c, 1)} })
		case setup:
			if m.onSetup != nil {
				m.onSetup(e, st, c)
			}
			return outcome(e, c, "rules", cfg.fails == "rules", func(x *State) []*Term {
				return []*Term{e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type()), tTrue}
			}, func(x *State) []*Term { return []*Term{cx.loadGlobal(x, "stallall"), tFalse} })
		case parse:
			text := e.textOf(st, c.args[0])
			base := !isConstText(text, "stall all")
			what := "stall"
			if base {
				what = "base"
			}
			return outcome(e, c, what, cfg.fails == what, func(x *State) []*Term {
				l := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
				if !base {
					x.assume(eq0(mkLen(l)), false)
				}
				x.G["text:"+what] = text
				x.G["rules:"+what] = l
				return []*Term{l, tNil}
			}, func(x *State) []*Term { return []*Term{tNil, errOf(e, x, c, 1)} })
		}
		return false
	}
	m.R.OnGo = func(e *Eng, st *State, c *Call) {
		if opensPort(c.name) || c.fn != nil && ports[c.fn] {
			st.note(fmt.Sprintf("%s: a goroutine is started that opens a port", cx.P.pos(c.pos())))
			if m.onListen != nil {
				m.onListen(e, st, c)
			}
		}
		if m.onServe == nil || c.fn == nil {
			return
		}
		if c.fn == proc {
			m.onServe(e, st, c)
			return
		}
		// a function that passes what it is given on to the session
		for _, ci := range cx.callees(c.fn, func(n string) bool { return n == e.callName(proc) }) {
			d := &Call{e: e, in: c.in, com: ci.Common(), fn: proc, name: c.name, sig: proc.Signature}
			for _, a := range ci.Common().Args {
				d.args = append(d.args, passedOn(e, st, c, a))
			}
			m.onServe(e, st, d)
		}
	}
	return m
}

func isConstText(t *Term, s string) bool {
	v, ok := t.strVal()
	return ok && strings.Join(strings.Fields(v), " ") == s
}

func (m *mainRun) run() {
	m.cx.analyse(m.main, m.R, func(e *Eng, st *State) {
		// variables without an initial value
		g := m.cx.P.ssa.Members["rulefiles"].(*ssa.Global)
		for _, b := range m.cx.P.ssa.Func("init").Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					return
				}
			}
		}
		a, t := m.cx.globalVar("rulefiles")
		st.store(a, tNil, t, "start")
	})
}

func runC23(cx *Cx) {
	cx.certPairs(cx.anchor("loadCerts", "(string,string)([]tls.Certificate,error)"))
	lt := func(n string, k int64, b bool) func(st *State, val func(string) *Term) {
		return func(st *State, val func(string) *Term) {
			v := val(n)
			st.assume(mkLt(v, mkIntT(k, v.typ), v.typ), b)
		}
	}
	cfgs := []mainCfg{
		{name: "no save directory, -force-receive or -M", vals: map[string]interface{}{"d": "", "force-receive": false, "M": false}},
		{name: "a -save-hash other than all, full or msg", assume: func(st *State, val func(string) *Term) {
			for _, k := range []string{"all", "full", "msg"} {
				st.assume(mkEq(val("save-hash"), mkStr(k), types.Typ[types.String]), false)
			}
		}},
		{name: "-save-hash msg without a message log", vals: map[string]interface{}{"save-hash": "msg", "l": ""}},
		{name: "-dncount without -smtplog", vals: map[string]interface{}{"smtplog": ""}, assume: lt("dncount", 1, false)},
		{name: "-dncount with a -dndur below one second", assume: func(st *State, val func(string) *Term) {
			lt("dncount", 1, false)(st, val)
			lt("dndur", 1000000000, true)(st, val)
		}},
		{name: "-dnlog without -dncount", vals: map[string]interface{}{"dnlog": "*", "dncount": 0}},
		{name: "-dnlog (standard output) without -dncount", vals: map[string]interface{}{"dnlog": "-", "dncount": 0}},
		{name: "a certificate without a key", vals: map[string]interface{}{"c": "*", "k": ""}},
		{name: "a key without a certificate", vals: map[string]interface{}{"c": "", "k": "*"}},
		{name: "a certificate and key that do not load", vals: map[string]interface{}{"c": "*", "k": "*"}, fails: "certs"},
		{name: "an SMTP log that cannot be opened", vals: map[string]interface{}{"smtplog": "*"}, fails: "log:smtplog"},
		{name: "a message log that cannot be opened", vals: map[string]interface{}{"l": "*"}, fails: "log:l"},
		{name: "a do-nothing log that cannot be opened", vals: map[string]interface{}{"dnlog": "*"}, fails: "log:dnlog"},
		{name: "a save directory that is not writable", vals: map[string]interface{}{"d": "*"}, fails: "dir"},
		{name: "a -conncfg file that does not load", vals: map[string]interface{}{"conncfg": "*"}, fails: "conn"},
		{name: "a rule file that does not open or parse", vals: map[string]interface{}{"r": "*"}, fails: "rules"},
		{name: "option rules that do not parse", fails: "base"},
		{name: "an unknown -minphase", assume: func(st *State, val func(string) *Term) {
			for _, k := range []string{"helo", "ehlo", "from", "to", "data", "message", "accepted"} {
				st.assume(mkEq(val("minphase"), mkStr(k), types.Typ[types.String]), false)
			}
		}},
	}
	for _, cfg := range cfgs {
		cfg := cfg
		m := newMainRun(cx, cfg)
		bad := func(st *State, c *Call) {
			cx.obligations++
			cx.violPath(c.pos(), "unsafe settings are refused", cx.path(st), "a port is opened with %s", cfg.name)
		}
		m.onListen = func(e *Eng, st *State, c *Call) { bad(st, c) }
		m.onExit = func(e *Eng, st *State, c *Call) {
			n, ok := st.norm(c.args[0]).intVal()
			cx.count("refusals", 1)
			cx.ob(ok && n != 0, c.pos(), "refusing is an error", "with %s the program exits with status %v", cfg.name, c.args[0])
		}
		m.R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.ob(false, at(in), "refusing is an error", "with %s the program ends without an error", cfg.name)
		}
		before := cx.counts["refusals"]
		m.run()
		cx.ob(cx.counts["refusals"] > before, m.main.Pos(), "unsafe settings are refused", "with %s the program does not exit with an error", cfg.name)
		cx.count("unsafe_configurations", 1)
	}
	// sane settings start, with the phase that was asked for
	for _, ph := range []string{"helo", "ehlo", "from", "to", "data", "message", "accepted"} {
		for _, r := range []string{"*", ""} {
			ph, r := ph, r
			m := newMainRun(cx, mainCfg{vals: map[string]interface{}{"minphase": ph, "r": r}})
			n := 0
			m.onListen = func(e *Eng, st *State, c *Call) {
				n++
				want := ph
				if ph == "ehlo" {
					want = "helo"
				}
				v := cx.loadGlobal(st, "minphase")
				cx.ob(st.eqTo(v, mkStr(want)), c.pos(), "the minimum phase is the one given", "with -minphase %s the minimum phase is %v", ph, v)
				s := cx.loadGlobal(st, "stallall")
				cx.ob(st.G["rules:stall"] != nil && st.eqTo(s, st.G["rules:stall"]), c.pos(), "the rules for stalling are there", "a port is opened without the 'stall all' rules having been made")
				if st.A["failed"] != "" {
					// the rule says this cannot be
					cx.ob(!inSet(st.A["failed"], "certs", "conn", "rules", "base", "dir", "log:smtplog", "log:l", "log:dnlog"), c.pos(), "unsafe settings are refused", "a port is opened after a failure (%s)", st.A["failed"])
				}
			}
			m.onSetup = func(e *Eng, st *State, c *Call) {
				rf := cx.loadGlobal(st, "rulefiles")
				if r == "" {
					cx.ob(st.isTrue(eq0(mkLen(rf))), c.pos(), "the rule files are the ones given", "without -r the rule files are %v", rf)
					return
				}
				cx.ob(mentions(st.norm(rf), st.G["opt:r"]), c.pos(), "the rule files are the ones given", "the rules are tried before the rule files are set (%v)", rf)
			}
			m.run()
			cx.ob(n > 0, m.main.Pos(), "sane settings start", "with -minphase %s no port is ever opened", ph)
			cx.count("sane_configurations", 1)
		}
	}
}

// mentions: x occurs in t.
func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// textLines is the lines of a text, each as a normalised key.
func textLines(st *State, t *Term) []string {
	var out []string
	cur := ""
	for _, p := range flatText(st.norm(t)) {
		s, ok := p.strVal()
		if !ok {
			cur += "{" + st.norm(p).String() + "}"
			continue
		}
		for {
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				cur += s
				break
			}
			out = append(out, cur+s[:i])
			cur, s = "", s[i+1:]
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	var ls []string
	for _, l := range out {
		if f := strings.Join(strings.Fields(l), " "); f != "" && f[0] != '#' {
			ls = append(ls, f)
		}
	}
	return ls
}

func runC30(cx *Cx) {
	std := []string{"reject from-has bad,route", "reject to-has bad,route", "reject helo-has none"}
	opts := []struct{ flag, line string }{{"M", "@message reject all"}, {"fromreject", "reject from file:%s"}, {"toaccept", "reject not to file:%s"}, {"heloreject", "@from reject helo file:%s"}}
	for mask := 0; mask < 1<<5; mask++ {
		vals := map[string]interface{}{"nostdrules": mask&16 == 0, "M": mask&1 != 0}
		desc := []string{}
		if mask&16 == 0 {
			desc = append(desc, "-nostdrules")
		}
		for i, o := range opts {
			if mask&(1<<i) != 0 {
				desc = append(desc, "-"+o.flag)
			}
			if i > 0 {
				vals[o.flag] = ""
				if mask&(1<<i) != 0 {
					vals[o.flag] = "*"
				}
			}
		}
		what := strings.Join(desc, " ")
		if what == "" {
			what = "no filter options"
		}
		mask := mask
		m := newMainRun(cx, mainCfg{vals: vals})
		check := func(st *State, c *Call, rules *Term, where string) {
			var want []string
			for i, o := range opts {
				if mask&(1<<i) == 0 {
					continue
				}
				l := o.line
				if strings.Contains(l, "%s") {
					l = strings.Replace(l, "%s", "{"+st.norm(st.G["opt:"+o.flag]).String()+"}", 1)
				}
				want = append(want, l)
			}
			n := 0
			if mask&16 != 0 {
				n = len(std)
			}
			var got []string
			switch {
			case st.G["rules:base"] != nil && st.eqTo(rules, st.G["rules:base"]):
				got = textLines(st, st.G["text:base"])
			case st.isTrue(eq0(mkLen(rules))):
			default:
				cx.ob(false, c.pos(), "the option rules come first", "with %s the base rules %s are %v, not the rules made from the options", what, where, rules)
				return
			}
			cx.count("rule_texts", 1)
			if len(got) < n {
				n = len(got)
			}
			first := append([]string{}, got[:n]...)
			rest := append([]string{}, got[n:]...)
			sort.Strings(first)
			sort.Strings(rest)
			sort.Strings(want)
			ws := []string{}
			if mask&16 != 0 {
				ws = append(ws, std...)
				sort.Strings(ws)
			}
			cx.ob(strings.Join(first, "\n") == strings.Join(ws, "\n") && strings.Join(rest, "\n") == strings.Join(want, "\n"), c.pos(), "options become rules", "with %s the rules %s are %q, expected %q first and then %q", what, where, got, ws, want)
		}
		m.onSetup = func(e *Eng, st *State, c *Call) { check(st, c, c.args[0], "at startup") }
		m.onServe = func(e *Eng, st *State, c *Call) {
			cx.count("connections", 1)
			check(st, c, paramOfTypeArg(c.fn, c, "[]*Rule"), "of a connection")
		}
		m.run()
	}
	setupChecks(cx)
	cx.ob(cx.counts["rule_texts"] >= 64 && cx.counts["connections"] >= 32, 0, "analysis completes", "too few paths: %v", cx.counts)
}

// passedOn: the value of an expression of a started function that only
// passes its parameters and captured variables on.
func passedOn(e *Eng, st *State, c *Call, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range c.fn.Params {
			if p == x && i < len(c.args) {
				return c.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range c.fn.FreeVars {
			if p == x && c.fnv != nil && c.fnv.op == "closure" && i < len(c.fnv.args) {
				return c.fnv.args[i]
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := passedOn(e, st, c, x.X); a != nil {
				return st.load(a, x.Type())
			}
		}
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return e.val(st, v)
	}
	return e.fresh(st, c.in, "."+v.Name(), v.Type())
}
