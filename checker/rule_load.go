package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C10", run: runC10,
		rule:   "Dataflow over setupRules() with the list of rule files, opening, reading and parsing as oracles (each may fail; a failed parse may leave rules behind): an automaton over the files taken says what the rules must be; at every return either all files were taken in order and the list is the base rules followed by each file's rules, or a failure was met, a warning issued and the 'stall everything' rules are returned. Session dataflow: the rules consulted are this connection's own result of setupRules() or the 'stall everything' rules. Flow check: 'stall everything' is only ever the parsed text 'stall all'. Parser runs (as C11's) over the productions for a file and a whole text: every include is followed, a failing one fails the text, and the rules of a text are all rules and includes in the order written.",
		assume: []string{"os.Open, os.ReadFile, io.ReadAll behave as documented"}})
}

func runC10(cx *Cx) {
	setupChecks(cx)
	// what parsing a text makes of its includes
	g := newGram(cx)
	g.as = "C11"
	g.run("file")
	g.run("parse")
	cx.ob(cx.counts["includes"] > 0, g.fn["file"].Pos(), "analysis completes", "no include is ever followed")
	f := cx.anchor("setupRules", "([]*Rule)([]*Rule,bool)")
	parse := cx.anchor("Parse", "(string)([]*Rule,error)")
	rlT := f.Signature.Results().At(0).Type()

	// what stalls everything
	n := 0
	gs := cx.P.ssa.Members["stallall"].(*ssa.Global)
	for _, g := range cx.P.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(gs) {
					continue
				}
				n++
				good := false
				if x, ok := s.Val.(*ssa.Extract); ok && x.Index == 0 {
					if c, ok := x.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() == parse {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							good = strings.Join(strings.Fields(constText(k)), " ") == "stall all"
						}
					}
				}
				cx.ob(good, at(in), "'stall everything' stalls everything", "the rules used after a failure are not the parsed text 'stall all'")
			}
		}
	}
	cx.ob(n > 0, f.Pos(), "'stall everything' stalls everything", "the rules used after a failure are never set")

	// the session
	ss := newSess(cx)
	ss.watch(f)
	ss.onCall = func(e *Eng, st *State, c *Call) bool {
		if c.fn != f {
			return false
		}
		bp := paramByType(ss.proc, typeStr(rlT))
		cx.ob(bp != nil && st.eqTo(c.args[0], bp) && st.G["rules"] == nil, c.pos(), "the base rules come first", "the rules are set up from something other than the base rules, or twice")
		c.forks = append(c.forks, func(s *State) []*Term {
			l := e.fresh(s, c.in, ".rules", rlT)
			s.G["rules"] = l
			s.A["rules"] = "good"
			return []*Term{l, tTrue}
		}, func(s *State) []*Term {
			l := cx.loadGlobal(s, "stallall")
			s.G["rules"] = l
			s.A["rules"] = "bad"
			return []*Term{l, tFalse}
		})
		return true
	}
	ss.rule.OnInstr = keepContexts
	ss.onDecide = func(e *Eng, st *State, c *Call, res string) {
		cx.count("consultations", 1)
		ctx := paramOfTypeArg(ss.decide, c, "*Context")
		rs := cx.loadField(st, ctx, ss.ctxT, "ruleset")
		cx.ob(st.G["rules"] != nil && (st.eqTo(rs, st.G["rules"]) || st.eqTo(rs, cx.loadGlobal(st, "stallall"))), c.pos(), "the connection's own rules are consulted", "the rules consulted are %v", rs)
	}
	ss.run()
	cx.ob(cx.counts["consultations"] > 0, f.Pos(), "analysis completes", "no consultation of the rules found")
}

// keepContexts keeps sessions whose context was made at different places apart.
func keepContexts(e *Eng, st *State, in ssa.Instruction) {
	if a, ok := in.(*ssa.Alloc); ok && typeStr(derefType(a.Type())) == "Context" {
		if n := e.symName(st, a, ";"); !strings.Contains(st.A["ctx"], n) {
			st.A["ctx"] += n
		}
	}
}

func paramByType(f *ssa.Function, ts string) *Term {
	for i, p := range f.Params {
		if typeStr(p.Type()) == ts {
			return param(f, i)
		}
	}
	return nil
}

// setupChecks: the rules are the base rules followed by each file's, or stall
// everything.
func setupChecks(cx *Cx) {
	f := cx.anchor("setupRules", "([]*Rule)([]*Rule,bool)")
	parse := cx.anchor("Parse", "(string)([]*Rule,error)")
	base := param(f, 0)
	rfA, rfT := cx.globalVar("rulefiles")
	rlT := f.Signature.Results().At(0).Type()
	errT := types.Universe.Lookup("error").Type()
	warn := func(name string) bool { return name == "warnonce" || name == "warnf" }

	R := &Rule{Name: cx.id}
	R.Atomic = func(fn *ssa.Function, name string) bool { return fn == parse || warn(name) }
	left := func(st *State, in ssa.Instruction) {
		if st.A["bad"] == "" {
			cx.ob(inSet(st.A["file"], "", "skip", "done"), at(in), "every rule file's rules are in force", "a rule file is passed over (%s)", st.A["file"])
		}
	}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
		b, idx, ok := elemOf(addr)
		if !ok || !st.eqTo(b, st.load(rfA, rfT)) {
			return nil
		}
		if st.eqTo(idx, st.G["last"]) {
			return nil
		}
		in := v.(ssa.Instruction)
		left(st, in)
		cx.taken(st, in, "last", idx, "rule file")
		cx.count("files_taken", 1)
		mkAlt := func(empty bool) func(*State) *Term {
			return func(s *State) *Term {
				n := e.fresh(s, in, ".name", types.Typ[types.String])
				s.redefine(n)
				delete(s.G, "data")
				delete(s.G, "rules")
				s.assume(mkEq(n, mkStr(""), n.typ), empty)
				s.A["file"] = "named"
				if empty {
					s.A["file"] = "skip"
				}
				s.G["name"] = n
				return n
			}
		}
		return []func(*State) *Term{mkAlt(true), mkAlt(false)}
	}
	fail := func(e *Eng, c *Call, s *State) *Term {
		er := e.fresh(s, c.in, ".err", errT)
		s.redefine(er)
		s.assume(mkEq(er, tNil, errT), false)
		s.A["bad"] = "1"
		return er
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch {
		case c.name == "os.Open" || c.name == "os.ReadFile":
			cx.ob(st.A["file"] == "named" && st.eqTo(c.args[0], st.G["name"]), c.pos(), "the rule file is read", "something other than the current rule file is opened (%s)", st.A["file"])
			rt := c.sig.Results().At(0).Type()
			c.forks = append(c.forks, func(s *State) []*Term {
				x := e.fresh(s, c.in, ".0", rt)
				s.redefine(x)
				if c.name == "os.ReadFile" {
					s.G["data"] = x
					s.A["file"] = "read"
				} else {
					s.assume(mkEq(x, tNil, rt), false)
					s.G["file"] = x
					s.A["file"] = "open"
				}
				return []*Term{x, tNil}
			}, func(s *State) []*Term { return []*Term{tNil, fail(e, c, s)} })
			return true
		case c.name == "io.ReadAll" || c.name == "io/ioutil.ReadAll":
			cx.ob(st.A["file"] == "open" && st.eqTo(unIface(c.args[0]), st.G["file"]), c.pos(), "the rule file is read", "something other than the opened rule file is read")
			rt := c.sig.Results().At(0).Type()
			alt := func(good bool) func(s *State) []*Term {
				return func(s *State) []*Term {
					x := e.fresh(s, c.in, ".data", rt)
					s.redefine(x)
					s.G["data"] = x
					s.A["file"] = "read"
					if good {
						return []*Term{x, tNil}
					}
					return []*Term{x, fail(e, c, s)}
				}
			}
			c.forks = append(c.forks, alt(true), alt(false))
			return true
		case c.fn == parse:
			d := c.args[0]
			if d.op == "conv" {
				d = d.args[0]
			}
			cx.ob(st.A["file"] == "read" && st.eqTo(d, st.G["data"]), c.pos(), "the whole text of the rule file is parsed", "something other than the text of the current rule file is parsed")
			cx.count("parses", 1)
			alt := func(good bool) func(s *State) []*Term {
				return func(s *State) []*Term {
					x := e.fresh(s, c.in, ".rules", rlT)
					s.redefine(x)
					s.G["rules"] = x
					s.A["file"] = "parsed"
					if good {
						return []*Term{x, tNil}
					}
					return []*Term{x, fail(e, c, s)}
				}
			}
			c.forks = append(c.forks, alt(true), alt(false))
			return true
		case warn(c.name):
			st.A["warned"] = "1"
			return true
		case c.name == "builtin.append" && len(c.args) > 1 && st.G["rules"] != nil && st.eqTo(c.args[1], st.G["rules"]):
			cx.ob(st.A["bad"] != "" || st.A["file"] == "parsed", c.pos(), "a rule file's rules are added once", "a rule file's rules are added in state %q", st.A["file"])
			if st.A["file"] == "parsed" && st.A["bad"] == "" {
				st.G["want"] = mkAppend(st.G["want"], st.G["rules"], rlT)
				st.A["file"] = "done"
			}
			return false
		case c.name == "builtin.append" && len(c.args) > 1 && st.G["want"] != nil:
			// a copy of the list: follow the copy
			r := mkAppend(c.args[0], e.snapshot(st, c.args[1]), rlT)
			if st.sameList(st.listParts(r), st.listParts(st.G["want"])) {
				st.G["want"] = r
			}
			return false
		}
		return false
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count("setup_returns", 1)
		if st.A["bad"] != "" {
			cx.ob(st.eqTo(vals[0], cx.loadGlobal(st, "stallall")), at(in), "a failure stalls everything", "after a rule file could not be opened, read or parsed the rules are %v", vals[0])
			cx.ob(st.isFalse(vals[1]), at(in), "a failure is reported", "the rules are reported good although a rule file could not be used")
			cx.ob(st.A["warned"] != "", at(in), "a failure is warned about", "no warning is issued although a rule file could not be used")
			return
		}
		left(st, in)
		all := exhausted(st, st.G["last"], st.load(rfA, rfT))
		cx.ob(all, at(in), "every rule file's rules are in force", "not all rule files have been taken")
		cx.ob(st.isTrue(vals[1]), at(in), "good rules are used", "the rules are reported bad although nothing failed")
		cx.ob(st.sameList(st.listParts(vals[0]), st.listParts(st.G["want"])), at(in), "the rules are the base rules and then each file's", "the rules are %v, expected %v", vals[0], st.G["want"])
	}
	cx.analyse(f, R, func(e *Eng, st *State) { st.G["want"] = base; st.G["last"] = mkInt(-1) })
	cx.ob(cx.counts["files_taken"] > 0 && cx.counts["parses"] > 0 && cx.counts["setup_returns"] >= 2, f.Pos(), "analysis completes", "too few paths: %v", cx.counts)
}
