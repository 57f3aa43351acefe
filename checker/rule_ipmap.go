package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C20", run: runC20,
		rule:   "Case-split dataflow over each method of the per-IP table: the record of the given IP is split into absent, expired (age >= time-to-live) and live when the method first looks at it; at every return the record left behind and the values returned are compared with the table of the property; the table is touched at no other key and never at the empty IP.",
		assume: []string{"time.Now() is one instant within a method", "the clock does not run backwards"}})
}

// splitEntry makes the first access to m[key] a three-way split.
func runC20(cx *Cx) {
	mapT, entT := cx.namedType("ipMap"), cx.namedType("ipEnt")
	meths := []struct{ name, sig string }{
		{"ipMap.Add", "(*ipMap,string,time.Duration)(int)"},
		{"ipMap.Set", "(*ipMap,string,time.Duration,int)(int)"},
		{"ipMap.Del", "(*ipMap,string)()"},
		{"ipMap.Lookup", "(*ipMap,string,time.Duration)(bool,int)"},
	}
	for _, m := range meths {
		m := m
		f := cx.anchor(m.name, m.sig)
		self, ip := param(f, 0), param(f, 1)
		var ttl, cnt *Term
		if len(f.Params) > 2 {
			ttl = param(f, 2)
		}
		if len(f.Params) > 3 {
			cnt = param(f, 3)
		}
		_, mt := cx.fieldAddr(self, mapT, "ips")
		ptr, isPtr := mt.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer)
		if !isPtr || typeStr(ptr.Elem()) != "ipEnt" {
			cx.fail("anchor", "ipMap.ips does not map to *ipEnt")
		}
		ips := func(st *State) *Term { return cx.loadField(st, self, mapT, "ips") }
		R := &Rule{Name: cx.id}
		E := mkSym("entry", mt.Underlying().(*types.Map).Elem())
		initF := func(f string) *Term {
			a, t := cx.fieldAddr(E, entT, f)
			return memTerm(a, epoch0, t)
		}
		set := func(s *State, e, ok *Term) {
			mp := ips(s)
			s.heap[melemAddr(mp, s.norm(ip), mt)] = e
			s.heap[mokAddr(mp, s.norm(ip), mt)] = ok
		}
		split := func() []func(*State) {
			var out []func(*State)
			out = append(out, func(s *State) {
				s.A["rec"] = "absent"
				set(s, tNil, tFalse)
			})
			live := func(s *State) {
				s.assume(mkEq(E, tNil, E.typ), false)
				s.assume(mkEq(ip, mkStr(""), ip.typ), false)
				set(s, E, tTrue)
			}
			if ttl == nil {
				return append(out, func(s *State) { s.A["rec"] = "present"; live(s) })
			}
			age := tsub(tNow, initF("when"), ttl.typ)
			return append(out, func(s *State) {
				s.A["rec"] = "expired"
				live(s)
				s.assume(mkLt(age, ttl, ttl.typ), false)
			}, func(s *State) {
				s.A["rec"] = "live"
				live(s)
				s.assume(mkLt(age, ttl, ttl.typ), true)
			})
		}
		isMap := func(st *State, t *Term) bool { return st.eqTo(t, ips(st)) }
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			lk, ok := v.(*ssa.Lookup)
			if !ok || !types.Identical(lk.X.Type(), mt) || !isMap(st, e.val(st, lk.X)) {
				return nil
			}
			cx.count("record_reads", 1)
			cx.ob(st.eqTo(e.val(st, lk.Index), ip), at(lk), "only the given IP's record counts", "the record of another key is looked at")
			if st.A["rec"] != "" {
				return nil
			}
			var out []func(*State) *Term
			for _, sp := range split() {
				sp := sp
				out = append(out, func(s *State) *Term {
					sp(s)
					return e.mapLookup(s, e.val(s, lk.X), e.val(s, lk.Index), lk)
				})
			}
			return out
		}
		R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, mp, k, v *Term) {
			if !isMap(st, mp) {
				return
			}
			cx.count("record_updates", 1)
			cx.ob(st.eqTo(k, ip), at(in), "only the given IP's record changes", "a record of another key is set")
			cx.ob(st.isFalse(mkEq(ip, mkStr(""), ip.typ)), at(in), "the empty IP is never recorded", "a record can be made for the empty IP")
			if st.A["rec"] == "" {
				st.A["rec"] = "unseen"
			}
		}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if c.name == "builtin.delete" && isMap(st, c.args[0]) {
				cx.ob(st.eqTo(c.args[1], ip), c.pos(), "only the given IP's record changes", "a record of another key is removed")
			}
			return false
		}
		R.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == "faddr" && addr.aux == "ipMap.ips" {
				cx.ob(false, at(in), "the table stays", "the table is replaced")
			}
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("returns", 1)
			mp := ips(st)
			rec := st.A["rec"]
			ent, ok := e.mapGet(st, mp, ip, mt.Underlying().(*types.Map), mt)
			present := st.isTrue(ok) && st.isFalse(mkEq(ent, tNil, ent.typ))
			absent := st.isFalse(ok)
			fld := func(n string) *Term { return cx.loadField(st, ent, entT, n) }
			ob := func(good bool, what string, a ...interface{}) {
				cx.ob(good, at(in), m.name+" for a record that is "+rec, what, a...)
			}
			if rec == "" {
				// nothing was looked at: only the empty IP has no record
				empty := st.isTrue(mkEq(ip, mkStr(""), ip.typ))
				if m.name == "ipMap.Del" {
					ob(empty || absent, "the record is not removed")
					return
				}
				ob(empty, "returns without looking at the record")
				if m.name == "ipMap.Lookup" {
					ob(st.isFalse(vals[0]), "reports a hit for the empty IP")
				}
				return
			}
			c0, w0 := initF("count"), initF("when")
			switch m.name {
			case "ipMap.Add":
				want := mkInt(1)
				if rec == "live" {
					want = linAdd(c0, mkInt(1), 1, c0.typ)
				}
				if st.isTrue(mkEq(ip, mkStr(""), ip.typ)) {
					ob(absent, "the empty IP is recorded")
					return
				}
				ob(rec != "unseen" && present, "leaves no record")
				ob(st.eqTo(fld("count"), want), "the count becomes %v", fld("count"))
				ob(st.eqTo(fld("when"), tNow), "the record's time is not refreshed")
				ob(st.eqTo(vals[0], want), "the count returned is %v", vals[0])
			case "ipMap.Set":
				if st.isTrue(mkEq(ip, mkStr(""), ip.typ)) {
					ob(absent, "the empty IP is recorded")
					return
				}
				old := mkInt(0)
				if rec == "live" {
					old = c0
				}
				ob(rec != "unseen" && present, "leaves no record")
				ob(st.eqTo(fld("count"), cnt), "the count becomes %v", fld("count"))
				ob(st.eqTo(fld("when"), tNow), "the record's time is not refreshed")
				ob(st.eqTo(vals[0], old), "the old count returned is %v", vals[0])
			case "ipMap.Del":
				ob(absent, "the record is not removed")
			case "ipMap.Lookup":
				if rec == "live" {
					ob(st.isTrue(vals[0]), "is not reported as a hit")
					ob(st.eqTo(vals[1], c0), "the count reported is %v", vals[1])
					ob(present && st.eqTo(fld("count"), c0) && st.eqTo(fld("when"), w0), "is changed by looking it up")
				} else {
					ob(st.isFalse(vals[0]), "is reported as a hit")
					ob(st.eqTo(vals[1], mkInt(0)), "the count reported is %v", vals[1])
					ob(absent, "is left in the table")
				}
			}
		}
		cx.analyse(f, R, nil)
	}
	cx.ob(cx.counts["returns"] >= 8 && cx.counts["record_reads"] >= 3, 0, "analysis completes", "too few paths: %v", cx.counts)
}
