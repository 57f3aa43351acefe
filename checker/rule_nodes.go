package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C12", run: runC12,
		rule:   "Dataflow over Rule.check() and the Eval() methods of the structural nodes with the conditions below them as oracles (match / no match / missed): truth-table obligations at every return, in-order coverage of conditions and clauses, exactly the matching clause's options copied; plus: no condition can reset the 'missed' mark, and the parser builds list, or and not nodes from the conditions as they are written (see C11 for the parser runs).",
		assume: []string{"Expr.Eval implementations are the methods in this package"}})
}

// implOf finds the methods of the repository that implement Expr.Eval.
func evalMethods(cx *Cx) []*ssa.Function {
	expr, ok := cx.namedType("Expr").Underlying().(*types.Interface)
	if !ok {
		cx.fail("anchor", "Expr is not an interface")
	}
	var out []*ssa.Function
	for _, f := range cx.P.funcs {
		if f.Parent() == nil && f.Name() == "Eval" && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), expr) {
			out = append(out, f)
		}
	}
	return out
}

func isEvalCall(c *Call) bool { return c.name == "(Expr).Eval" }

// forkEval makes a condition below the node an oracle.
func forkEval(cx *Cx, c *Call, ctx *Term, after func(s *State, r bool, miss bool)) {
	ctxT := cx.namedType("Context")
	miss := func(s *State, v *Term) {
		a, t := cx.fieldAddr(ctx, ctxT, "rulemiss")
		s.store(a, v, t, "eval")
	}
	one := func(r, m, setMiss bool) {
		c.forks = append(c.forks, func(s *State) []*Term {
			tag := c.e.fresh(s, c.in, ".mem", nil)
			for _, f := range []string{"dnsblhit", "domerr"} {
				s.havocCat("F:Context."+f, tag)
			}
			if setMiss {
				miss(s, mkBool(m))
			}
			after(s, r, m)
			return []*Term{mkBool(r)}
		})
	}
	one(true, false, false)
	one(false, false, false)
	one(false, true, true)
	one(true, true, true)
}

func runC12(cx *Cx) {
	// what is written becomes the nodes that stand for it
	g := newGram(cx)
	for _, u := range []string{"term", "orl", "andl", "rule"} {
		g.run(u)
	}
	for _, k := range []string{"clauses", "rules", "conditions"} {
		cx.ob(cx.counts[k] > 0, g.fn["rule"].Pos(), "analysis completes", "no %s seen", k)
	}
	ctxT := cx.namedType("Context")
	check := cx.anchor("Rule.check", "(*Rule,*Context)(Result)")
	ev := map[string]*ssa.Function{}
	methods := evalMethods(cx)
	for _, f := range methods {
		ev[typeStr(derefType(f.Signature.Recv().Type()))] = f
	}
	for _, n := range []string{"AndL", "OrN", "NotN"} {
		if ev[n] == nil {
			cx.fail("anchor", "%s.Eval not found", n)
		}
	}
	noReset := func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op == "faddr" && addr.aux == "Context.rulemiss" {
			cx.ob(st.isTrue(val), at(in), "a miss stays", "evaluating a condition can clear the mark of an empty pattern file")
		}
		if addr.op == "faddr" && addr.aux == "Context.withprops" {
			cx.ob(false, at(in), "conditions set no options", "evaluating a condition replaces the with options")
		}
	}
	// no condition anywhere clears the mark or sets options: all stores in
	// functions reachable from Eval
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !cx.P.isRepo(f) {
			return
		}
		seen[f] = true
		cx.fns[fnName(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeStr(derefType(fa.X.Type())) == "Context" {
						fld := fieldOf(fa.X.Type(), fa.Field)
						cx.count("context_stores", 1)
						if fld != nil && fld.Name() == "rulemiss" {
							k, ok := s.Val.(*ssa.Const)
							cx.ob(ok && k.Value != nil && k.Value.String() == "true", at(in), "a miss stays", "evaluating a condition can clear the mark of an empty pattern file")
						}
						if fld != nil && fld.Name() == "withprops" {
							cx.ob(false, at(in), "conditions set no options", "evaluating a condition replaces the with options")
						}
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && typeStr(derefType(fa.X.Type())) == "Context" {
							if fld := fieldOf(fa.X.Type(), fa.Field); fld != nil && fld.Name() == "withprops" {
								cx.ob(false, at(in), "conditions set no options", "evaluating a condition sets with options")
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					com := ci.Common()
					if com.IsInvoke() {
						for _, g := range cx.P.implementers(com) {
							walk(g)
						}
					} else if _, bi := com.Value.(*ssa.Builtin); !bi && com.StaticCallee() == nil {
						for _, g := range cx.P.addrTaken(com.Signature()) {
							walk(g)
						}
					}
				}
			}
		}
	}
	for _, f := range methods {
		walk(f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	cx.ob(len(methods) >= 8, check.Pos(), "analysis completes", "only %d Eval methods found", len(methods))

	ret := func(st *State, in ssa.Instruction, v *Term) (bool, bool) { return st.evalBool(v) }

	// all of a list
	{
		f := ev["AndL"]
		self, ctx := param(f, 0), param(f, 1)
		selfT := cx.namedType("AndL")
		R := &Rule{Name: cx.id}
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			if b, i, ok := elemOf(addr); ok && st.eqTo(b, cx.loadField(st, self, selfT, "nodes")) {
				last := st.G["last"]
				if !st.eqTo(i, last) {
					cx.ob(st.eqTo(i, linAdd(last, mkInt(1), 1, i.typ)), at(v.(ssa.Instruction)), "all conditions count", "the condition after number %v is number %v", last, i)
				}
				st.G["last"] = i
				st.G["cur"] = t
			}
			return nil
		}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if !isEvalCall(c) {
				return false
			}
			cx.ob(st.eqTo(c.args[0], st.G["cur"]) && st.eqTo(c.args[1], ctx), c.pos(), "conditions of the list are evaluated", "something other than a condition of the list, in this context, is evaluated")
			forkEval(cx, c, ctx, func(s *State, r, m bool) {
				if !r {
					s.A["f"] = "1"
				}
				s.G["done"] = s.G["last"]
			})
			return true
		}
		R.OnStore = noReset
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			b, ok := ret(st, in, vals[0])
			nodes := cx.loadField(st, self, selfT, "nodes")
			l := mkLen(nodes)
			done := st.G["done"]
			all := st.isFalse(mkLt(linAdd(done, mkInt(1), 1, l.typ), l, l.typ))
			if st.A["f"] != "" {
				cx.ob(ok && !b, at(in), "a list matches if all conditions match", "a list with a condition that does not match gives %v", vals[0])
			} else {
				cx.ob(ok && b && all, at(in), "a list matches if all conditions match", "a list gives %v although no condition evaluated so far failed (all evaluated: %v)", vals[0], all)
			}
			cx.count("list_returns", 1)
		}
		cx.analyse(f, R, func(e *Eng, st *State) { st.G["last"] = mkInt(-1); st.G["done"] = mkInt(-1) })
	}
	// one or two operands
	for _, n := range []string{"OrN", "NotN"} {
		n := n
		f := ev[n]
		self, ctx := param(f, 0), param(f, 1)
		selfT := cx.namedType(n)
		R := &Rule{Name: cx.id}
		ops := []string{"left", "right"}
		if n == "NotN" {
			ops = []string{"node"}
		}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if !isEvalCall(c) {
				return false
			}
			which := ""
			for _, o := range ops {
				if st.eqTo(c.args[0], cx.loadField(st, self, selfT, o)) {
					which = o
				}
			}
			cx.ob(which != "" && st.eqTo(c.args[1], ctx), c.pos(), "the operands are evaluated", "something other than an operand, in this context, is evaluated")
			forkEval(cx, c, ctx, func(s *State, r, m bool) { s.A[which] = fmt.Sprint(r) })
			return true
		}
		R.OnStore = noReset
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			b, ok := ret(st, in, vals[0])
			cx.count("operator_returns", 1)
			if n == "NotN" {
				cx.ob(ok && st.A["node"] == fmt.Sprint(!b), at(in), "not inverts", "'not' of a condition that gives %q gives %v", st.A["node"], vals[0])
				return
			}
			l, r := st.A["left"], st.A["right"]
			good := ok && (b && (l == "true" || r == "true") || !b && l == "false" && r == "false")
			cx.ob(good, at(in), "or needs either side", "'or' with left %q and right %q gives %v", l, r, vals[0])
		}
		cx.analyse(f, R, nil)
	}
	clauseChecks(cx)
	// conditions that consult a pattern list
	gml := cx.anchor("Context.getMatchList", "(*Context,string)([]string)")
	for _, f := range methods {
		if !reaches(cx.P, f, gml) {
			continue
		}
		ctx := param(f, 1)
		R := &Rule{Name: cx.id}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if isEvalCall(c) {
				cx.ob(st.A["list"] == "", c.pos(), "analysis completes", "a condition both consults a list and evaluates others")
				forkEval(cx, c, ctx, func(s *State, r, m bool) {
					if m {
						s.A["list"] = "sub"
					}
				})
				return true
			}
			if c.name == "dynamic" {
				return true // cannot clear the mark: checked above
			}
			if c.fn != gml {
				return false
			}
			cx.count("list_consultations", 1)
			ty := c.sig.Results().At(0).Type()
			c.forks = append(c.forks, func(s *State) []*Term {
				s.A["list"] = "empty"
				return []*Term{mkSliceLit(nil, ty)}
			}, func(s *State) []*Term {
				if s.A["list"] == "" {
					s.A["list"] = "full"
				}
				l := c.e.fresh(s, c.in, ".l", ty)
				s.assume(lt0(linAdd(mkInt(0), mkLen(l), -1, nil)), true)
				return []*Term{l}
			})
			return true
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			m := cx.loadField(st, ctx, ctxT, "rulemiss")
			switch st.A["list"] {
			case "empty":
				cx.ob(st.isTrue(m), at(in), "an empty pattern file is a miss", "a condition returns after consulting an empty pattern file without marking the rule as missed")
			case "full", "":
				cx.ob(st.isFalse(m), at(in), "a pattern file with patterns is no miss", "a condition marks the rule as missed although its pattern list is not empty")
			}
		}
		cx.analyse(f, R, func(e *Eng, st *State) {
			a, t := cx.fieldAddr(ctx, ctxT, "rulemiss")
			st.store(a, tFalse, t, "entry")
		})
	}
	for _, k := range []string{"list_consultations", "list_returns", "operator_returns", "clause_evaluations", "rule_returns"} {
		cx.ob(cx.counts[k] > 0, check.Pos(), "analysis completes", "no path found for %s", k)
	}
}

// reaches: a call path leads from f to g.
func reaches(P *Prog, f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == g {
			return true
		}
		if seen[f] || !P.isRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// clauseChecks: the clauses of a rule are tried in order, the first that
// matches sets its options.
func clauseChecks(cx *Cx) {
	check := cx.anchor("Rule.check", "(*Rule,*Context)(Result)")
	ctxT := cx.namedType("Context")
	self, ctx := param(check, 0), param(check, 1)
	selfT, clT := cx.namedType("Rule"), cx.namedType("RClause")
	R := &Rule{Name: cx.id}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
		in := v.(ssa.Instruction)
		if b, i, ok := elemOf(addr); ok && st.eqTo(b, cx.loadField(st, self, selfT, "clauses")) {
			last := st.G["last"]
			if !st.eqTo(i, last) {
				cx.ob(st.eqTo(i, linAdd(last, mkInt(1), 1, i.typ)), at(in), "clauses are tried in order", "the clause after number %v is number %v", last, i)
			}
			st.G["last"] = i
			st.G["cur"] = t
		}
		if nx, ok := v.(*ssa.Next); ok {
			it := e.val(st, nx.Iter)
			if it.op != "range" {
				return nil
			}
			cur := st.G["cur"]
			if cur == nil || !st.eqTo(it.args[0], cx.loadField(st, cur, clT, "withs")) {
				return nil
			}
			if st.A["cp"] == "pending" {
				cx.ob(false, at(in), "all options of the clause are set", "an option of the matching clause is passed over")
			}
			more := func(s *State) *Term {
				s.A["cp"] = "pending"
				s.G["k"], s.G["v"] = t.args[1], t.args[2]
				return mk("tuple", "", 0, t.typ, tTrue, t.args[1], t.args[2])
			}
			end := func(s *State) *Term {
				s.A["cp"] = "all"
				delete(s.G, "k")
				delete(s.G, "v")
				return mk("tuple", "", 0, t.typ, tFalse, t.args[1], t.args[2])
			}
			return []func(*State) *Term{more, end}
		}
		return nil
	}
	R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, m, k, v *Term) {
		if !st.eqTo(m, cx.loadField(st, ctx, ctxT, "withprops")) {
			return
		}
		cx.ob(st.A["st"] == "hit", at(in), "only a matching clause sets options", "options are set in state %q", st.A["st"])
		ok := st.A["cp"] == "pending" && st.eqTo(k, st.G["k"]) && (st.eqTo(v, st.G["v"]) || v.op == "mapget" && st.eqTo(v.args[0], cx.loadField(st, st.G["cur"], clT, "withs")) && st.eqTo(v.args[1], k))
		cx.ob(ok, at(in), "options are set as written", "an option is set that is not the matching clause's own")
		if ok {
			st.A["cp"] = "set"
		}
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		if !isEvalCall(c) {
			return false
		}
		cur := st.G["cur"]
		cx.ob(cur != nil && st.eqTo(c.args[0], cx.loadField(st, cur, clT, "expr")) && st.eqTo(c.args[1], ctx), c.pos(), "a clause's conditions are evaluated", "something other than the clause's conditions, in this context, is evaluated")
		cx.ob(st.A["st"] != "hit" && st.A["st"] != "miss", c.pos(), "the first matching clause wins", "another clause is evaluated after %s", st.A["st"])
		cx.ob(st.isFalse(cx.loadField(st, ctx, ctxT, "rulemiss")), c.pos(), "a miss is the rule's own", "the mark of an empty pattern file is not cleared before evaluating a rule")
		cx.count("clause_evaluations", 1)
		forkEval(cx, c, ctx, func(s *State, r, m bool) {
			switch {
			case m:
				s.A["st"] = "miss"
			case r:
				s.A["st"] = "hit"
			default:
				s.A["st"] = "nohit"
			}
			s.G["done"] = s.G["last"]
		})
		return true
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		b, ok := st.evalBool(vals[0])
		cx.count("rule_returns", 1)
		l := mkLen(cx.loadField(st, self, selfT, "clauses"))
		switch st.A["st"] {
		case "hit":
			cx.ob(ok && b, at(in), "a matching clause makes the rule match", "with a matching clause the rule gives %v", vals[0])
			cx.ob(st.A["cp"] == "all", at(in), "all options of the clause are set", "not all of the matching clause's options are set")
		case "miss":
			cx.ob(ok && !b, at(in), "a missed rule does not match", "a rule that consulted an empty pattern file gives %v", vals[0])
			cx.ob(st.isTrue(cx.loadField(st, ctx, ctxT, "rulemiss")), at(in), "a miss stays", "the mark of an empty pattern file is lost")
		default:
			all := st.isFalse(mkLt(linAdd(st.G["done"], mkInt(1), 1, l.typ), l, l.typ))
			cx.ob(ok && !b && all, at(in), "a rule matches only through a clause", "without a matching clause the rule gives %v (all clauses tried: %v)", vals[0], all)
			cx.ob(st.isFalse(cx.loadField(st, ctx, ctxT, "rulemiss")), at(in), "a miss is the rule's own", "the mark of an empty pattern file is set without a miss")
		}
	}
	cx.analyse(check, R, func(e *Eng, st *State) { st.G["last"] = mkInt(-1); st.G["done"] = mkInt(-1) })
}
