package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C22", run: runC22,
		rule:   "Typestate over disjunctive dataflow. Sessions: process() closes the connection it was given on every path to its end, deferred calls included, and never waits for another event after the client has quit or is gone. Acceptance: each accepted connection is handed on (over the channel, then to a session) or closed before the next is awaited. Files: in every function that opens a file, or is returned one, the file is closed on every path to a return unless it is itself returned (main()'s own files live as long as the process). Scanners: on every path to the return of a function that starts a token-delivering goroutine, the token stream has been read to its end, or parsing has succeeded, which takes the end token (C11).",
		assume: []string{"a parse without an error has consumed the end token (decided by C11)", "the scanning goroutine ends once its tokens are taken (decided by C31)", "os, net and smtpd contracts", "a panic takes down the process (C21)"}})
}

func runC22(cx *Cx) {
	sessionEnds(cx)
	acceptedConns(cx)
	openFiles(cx)
	scanners(cx)
	cx.ob(cx.counts["session_ends"] > 0 && cx.counts["accepts"] > 0 && cx.counts["files_followed"] > 0, 0, "analysis completes", "too few paths: %v", cx.counts)
}

func isClose(name string) bool {
	return strings.HasSuffix(name, ").Close")
}

func sessionEnds(cx *Cx) {
	s := newSess(cx)
	s.only()
	nc := paramOfType(s.proc, "net.Conn")
	if nc == nil {
		cx.fail("anchor", "the connection was not found")
	}
	s.interesting = isClose
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if isClose(c.name) && len(c.args) > 0 && st.eqTo(unIface(c.args[0]), unIface(nc)) {
			st.A["closed"] = "1"
			c.ret = []*Term{e.fresh(st, c.in, ".err", c.sig.Results().At(0).Type())}
			return true
		}
		return false
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		cx.obligations++
		if how == "return" {
			cx.count("session_ends", 1)
			if st.A["closed"] == "" {
				cx.violPath(at(in), "connections are closed", cx.path(st), "a session ends (after %s) without closing its connection", st.A["ev"])
			}
			return
		}
		if st.A["ev"] == "DONE" || st.A["ev"] == "ABORT" {
			cx.violPath(at(in), "a session ends with the client", cx.path(st), "another event is awaited after the client has quit or is gone (%s)", st.A["ev"])
		}
	}
	s.run()
}

// acceptedConns: what becomes of accepted connections.
func acceptedConns(cx *Cx) {
	isConn := func(t types.Type) bool { return t != nil && typeStr(t) == "net.Conn" }
	follow := func(R *Rule, src string) {
		drop := func(st *State, in ssa.Instruction, when string) {
			if st.A["conn"] != "" {
				cx.violPath(at(in), "accepted connections are served", cx.path(st), "a connection %s is neither handed on nor closed when %s", src, when)
				delete(st.A, "conn")
			}
		}
		taken := func(st *State, t *Term) bool {
			g := st.G["conn"]
			if g == nil || t == nil {
				return false
			}
			if st.eqTo(unIface(t), unIface(g)) {
				return true
			}
			if t.op == "closure" {
				for _, b := range t.args {
					if st.eqTo(unIface(b), unIface(g)) {
						return true
					}
					if v := st.heap[b]; v != nil && st.eqTo(unIface(v), unIface(g)) {
						return true
					}
				}
			}
			return false
		}
		oldCall, oldGo := R.OnCall, R.OnGo
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if strings.HasSuffix(c.name, ").Accept") && c.sig.Results().Len() == 2 {
				drop(st, c.in, "the next one is awaited")
				cx.count("accepts", 1)
				cx.obligations++
				c.forks = append(c.forks, func(x *State) []*Term {
					v := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
					x.assume(mkEq(v, tNil, v.typ), false)
					x.A["conn"], x.G["conn"] = "1", v
					return []*Term{v, tNil}
				}, func(x *State) []*Term {
					er := e.fresh(x, c.in, ".1", c.sig.Results().At(1).Type())
					x.assume(mkEq(er, tNil, er.typ), false)
					return []*Term{tNil, er}
				})
				return true
			}
			if st.A["conn"] != "" && (isClose(c.name) || c.fn != nil && fnName(c.fn) == "process") {
				for _, a := range c.args {
					if taken(st, a) {
						delete(st.A, "conn")
					}
				}
			}
			return oldCall != nil && oldCall(e, st, c)
		}
		R.OnGo = func(e *Eng, st *State, c *Call) {
			for _, a := range append(append([]*Term{}, c.args...), c.fnv) {
				if st.A["conn"] != "" && taken(st, a) {
					delete(st.A, "conn")
					cx.count("handed_on", 1)
				}
			}
			if oldGo != nil {
				oldGo(e, st, c)
			}
		}
		R.OnInstr = func(e *Eng, st *State, in ssa.Instruction) {
			if x, ok := in.(*ssa.Send); ok && st.A["conn"] != "" && taken(st, e.val(st, x.X)) {
				delete(st.A, "conn")
				cx.count("handed_on", 1)
			}
		}
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				return nil
			}
			if ch, ok := u.X.Type().Underlying().(*types.Chan); !ok || !isConn(ch.Elem()) {
				return nil
			}
			drop(st, u, "the next one is awaited")
			cx.count("accepts", 1)
			cx.obligations++
			st.A["conn"], st.G["conn"] = "1", t
			if u.CommaOk {
				st.G["conn"] = t.args[0]
			}
			return nil
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			for _, v := range vals {
				if taken(st, v) {
					return
				}
			}
			drop(st, in, "the function returns")
		}
	}
	main := cx.anchor("main", "")
	for _, f := range cx.P.funcs {
		if f == main {
			continue
		}
		found := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Accept" {
					found = true
				}
			}
		}
		if found {
			R := &Rule{Name: cx.id}
			follow(R, "accepted in "+fnName(f))
			cx.analyse(f, R, nil)
		}
	}
	m := newMainRun(cx, mainCfg{})
	follow(m.R, "received in main()")
	m.run()
}

func opensFile(name string) bool {
	return inSet(name, "os.Open", "os.OpenFile", "os.Create", "os.CreateTemp", "io/ioutil.TempFile", "ioutil.TempFile")
}

func hasFile(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if strings.Contains(typeStr(f.Signature.Results().At(i).Type()), "os.File") {
			return true
		}
	}
	return false
}

// callees lists the functions called directly (not started or made into values).
func (cx *Cx) callees(f *ssa.Function, name func(string) bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && name((&Eng{P: cx.P}).callName(g)) {
				out = append(out, ci)
			}
		}
	}
	return out
}

func openFiles(cx *Cx) {
	main := cx.anchor("main", "")
	// openers: functions that hand an opened file to their caller
	openers := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range cx.P.funcs {
		if len(cx.callees(f, opensFile)) > 0 {
			work = append(work, f)
		}
	}
	sort.Slice(work, func(i, j int) bool { return fnName(work[i]) < fnName(work[j]) })
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] || f == main || f.Name() == "init" {
			continue
		}
		done[f] = true
		cx.count("functions_with_files", 1)
		R := &Rule{Name: cx.id}
		R.Interesting = func(n string) bool { return opensFile(n) || isClose(n) }
		R.Atomic = func(g *ssa.Function, name string) bool { return g != f && cx.recursive(g) }
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if opensFile(c.name) {
				k := "file:" + cx.P.pos(c.pos())
				if st.A[k] != "" {
					cx.violPath(c.pos(), "files are closed", cx.path(st), "a file opened here before is still open when the next is opened")
				}
				cx.count("files_followed", 1)
				c.forks = append(c.forks, func(x *State) []*Term {
					v := e.fresh(x, c.in, ".0", c.sig.Results().At(0).Type())
					x.assume(mkEq(v, tNil, v.typ), false)
					x.A[k], x.G[k] = "1", v
					x.note(fmt.Sprintf("%s: %s succeeds", cx.P.pos(c.pos()), c.name))
					return []*Term{v, tNil}
				}, func(x *State) []*Term {
					er := e.fresh(x, c.in, ".1", c.sig.Results().At(1).Type())
					x.assume(mkEq(er, tNil, er.typ), false)
					x.note(fmt.Sprintf("%s: %s fails", cx.P.pos(c.pos()), c.name))
					return []*Term{tNil, er}
				})
				return true
			}
			if isClose(c.name) && len(c.args) > 0 {
				for k, v := range st.A {
					if strings.HasPrefix(k, "file:") && v != "" && st.G[k] != nil && st.eqTo(unIface(c.args[0]), st.G[k]) {
						delete(st.A, k)
						delete(st.G, k)
						c.ret = []*Term{e.fresh(st, c.in, ".err", c.sig.Results().At(0).Type())}
						return true
					}
				}
			}
			return false
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.obligations++
			for _, k := range sortedKeys(st.A) {
				if !strings.HasPrefix(k, "file:") || st.A[k] == "" {
					continue
				}
				given := false
				for _, v := range vals {
					given = given || st.G[k] != nil && st.eqTo(unIface(v), st.G[k])
				}
				if given {
					openers[f] = true
					continue
				}
				cx.violPath(at(in), "files are closed", cx.path(st), "the file opened at %s is still open on a return", strings.TrimPrefix(k, "file:"))
			}
		}
		cx.analyse(f, R, nil)
		if openers[f] {
			for _, g := range cx.P.funcs {
				if len(cx.callees(g, func(n string) bool { return n == (&Eng{P: cx.P}).callName(f) })) > 0 {
					work = append(work, g)
				}
			}
		}
	}
}

// scanners: functions that start a goroutine delivering tokens.
func scanners(cx *Cx) {
	main := cx.anchor("main", "")
	// the channels a function sends on
	sends := map[*ssa.Function]map[string]bool{}
	for again := true; again; {
		again = false
		for _, f := range cx.P.funcs {
			add := func(s string) {
				if sends[f] == nil {
					sends[f] = map[string]bool{}
				}
				if !sends[f][s] {
					sends[f][s], again = true, true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Send); ok {
						add(typeStr(s.Chan.Type().Underlying().(*types.Chan).Elem()))
					}
					var ops []*ssa.Value
					for _, o := range in.Operands(ops) {
						if g, ok := (*o).(*ssa.Function); ok {
							for s := range sends[g] {
								add(s)
							}
						}
						if mc, ok := (*o).(*ssa.MakeClosure); ok {
							for s := range sends[mc.Fn.(*ssa.Function)] {
								add(s)
							}
						}
					}
				}
			}
		}
	}
	starters := map[*ssa.Function]map[string]bool{}
	for _, f := range cx.P.funcs {
		if f == main {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var fn *ssa.Function
				if fn = g.Call.StaticCallee(); fn == nil {
					continue
				}
				for s := range sends[fn] {
					// channels of this package's own values
					if o := cx.P.pkg.Scope().Lookup(strings.TrimPrefix(s, "*")); o != nil {
						if starters[f] == nil {
							starters[f] = map[string]bool{}
						}
						starters[f][s] = true
					}
				}
			}
		}
	}
	for _, f := range cx.P.funcs {
		elems := map[string]bool{}
		for s := range starters {
			if len(cx.callees(f, func(n string) bool { return n == (&Eng{P: cx.P}).callName(s) })) > 0 {
				for el := range starters[s] {
					elems[el] = true
				}
			}
		}
		if len(elems) == 0 {
			continue
		}
		cx.count("scanner_users", 1)
		R := &Rule{Name: cx.id}
		R.Atomic = func(g *ssa.Function, name string) bool { return g != f && cx.recursive(g) }
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if c.fn == nil {
				return false
			}
			if starters[c.fn] != nil {
				st.A["scan"] = "1"
			}
			n := c.sig.Results().Len()
			if !(c.fn != f && cx.recursive(c.fn)) || n == 0 || typeStr(c.sig.Results().At(n-1).Type()) != "error" {
				return false
			}
			for _, a := range c.args {
				st.escape(a)
			}
			e.havocCall(st, c)
			mkRet := func(ok bool) func(x *State) []*Term {
				return func(x *State) []*Term {
					var out []*Term
					for i := 0; i < n-1; i++ {
						out = append(out, e.fresh(x, c.in, fmt.Sprintf(".%d", i), c.sig.Results().At(i).Type()))
					}
					if ok {
						x.A["eof"] = "1"
						x.note(fmt.Sprintf("%s: %s succeeds", cx.P.pos(c.pos()), c.name))
						return append(out, tNil)
					}
					er := e.fresh(x, c.in, ".err", c.sig.Results().At(n-1).Type())
					x.assume(mkEq(er, tNil, er.typ), false)
					x.note(fmt.Sprintf("%s: %s fails", cx.P.pos(c.pos()), c.name))
					return append(out, er)
				}
			}
			c.forks = append(c.forks, mkRet(true), mkRet(false))
			return true
		}
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW || !u.CommaOk {
				return nil
			}
			if ch, ok := u.X.Type().Underlying().(*types.Chan); !ok || !elems[typeStr(ch.Elem())] {
				return nil
			}
			return []func(*State) *Term{func(x *State) *Term {
				return mk("tuple", "", 0, t.typ, t.args[0], tTrue)
			}, func(x *State) *Term {
				x.A["drained"] = "1"
				return mk("tuple", "", 0, t.typ, t.args[0], tFalse)
			}}
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			if st.A["scan"] == "" {
				return
			}
			cx.obligations++
			cx.count("scanner_ends", 1)
			if st.A["drained"] == "" && st.A["eof"] == "" {
				cx.violPath(at(in), "scanners are drained", cx.path(st), "a return leaves the scanning goroutine waiting to deliver a token")
			}
		}
		cx.analyse(f, R, nil)
	}
}

// recursive: f may call itself.
func (cx *Cx) recursive(f *ssa.Function) bool {
	if cx.recur == nil {
		cx.recur = map[*ssa.Function]bool{}
	}
	if r, ok := cx.recur[f]; ok {
		return r
	}
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if h, ok := (*op).(*ssa.Function); ok && reaches(cx.P, h, f) {
					r = true
				}
			}
		}
	}
	cx.recur[f] = r
	return r
}
